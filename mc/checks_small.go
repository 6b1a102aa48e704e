package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
	"sync"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/buffer"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
)

func init() {
	register("C18", "all operation sequences up to 7 (thorough 9) over 12 operations for page exponents 0 to 3 and the default, all buffer contents observed after each; fill, shrink, clear and refill at every size around page and page-table multiples for exponents 0 to 18 (thorough 21); all exponents from -70 to 130",
		checkC18)
	register("C19", "all operation sequences up to 7 (thorough 9) over 9 operations for page exponents 0 to 3 and the default; fill, clear and refill around page multiples for exponents 0 to 18 (thorough 21); all exponents from -70 to 130",
		checkC19)
	register("C20", "all offset and length pairs from 3 below 0 to 3 above the size, and around the integer limits, for sizes 0 to 40 (thorough 90), before and after clearing and resizing",
		checkC20)
	register("C21", "all code points from 0 to 0x10FFFF (quick: the linear search itself up to 0x30FF and within 40 of every boundary of a class, its tables for the others); values beyond in every power of two, and all pairs of successive questions over 60 code points and 5 predicates",
		checkC21)
	register("C22", "all documents of up to 3 (thorough 4) of 18 pieces (characters of 1 to 4 bytes, line ends, malformed bytes), all their windows, and every state reachable by the reader's operations; long documents read to the end and far inside big arrays",
		checkC22)
	register("C23", "all constructors against all kinds; all nestings of up to 5 (thorough 6) errors with numbered, equal, empty, repeated and long messages; all strings of up to 4 characters over the reference alphabet after an ampersand, parsed and extracted; invalid arguments of every constructor",
		checkC23)
	register("C24", "three forbidden characters inserted and substituted at every position of multi-line documents, alone and as windows behind 6 kinds of padding; every printable ASCII character inserted and substituted at every position where the model says it cannot stand; line counts around powers of 2 and 10 up to 2^20",
		checkC24)
	register("C25", "encodings -5 to 60 and the integer limits, sizes around every power of two up to 2^22 (thorough 2^29), option lists up to 3 long over 6 options",
		checkC25)
	families["ops"] = func(w *Worker, pl []byte) string { return w.ops(pl) }
	families["fillbuf"] = func(w *Worker, pl []byte) string { return w.fillBuf(pl) }
	families["pagesize"] = func(w *Worker, pl []byte) string { return w.pageSize(pl) }
	families["byteslice"] = func(w *Worker, pl []byte) string { return w.byteSlice(pl) }
	families["chars"] = func(w *Worker, pl []byte) string { return w.chars(pl) }
	families["charpair"] = func(w *Worker, pl []byte) string { return w.charPair(pl) }
	families["reader"] = func(w *Worker, pl []byte) string { return w.readerGraph(pl) }
	families["readerctor"] = func(w *Worker, pl []byte) string { return w.readerCtor(pl) }
	families["kinds"] = func(w *Worker, pl []byte) string { return w.kinds(pl) }
	families["badref"] = func(w *Worker, pl []byte) string { return w.badRef(pl) }
	families["libkinds"] = func(w *Worker, pl []byte) string { return w.libKinds(pl) }
	families["codepoints"] = func(w *Worker, pl []byte) string { return w.codePoints(pl) }
	families["longline"] = func(w *Worker, pl []byte) string { return w.longLine(pl) }
	families["line"] = func(w *Worker, pl []byte) string { return w.line(pl) }
	families["modifier"] = func(w *Worker, pl []byte) string { return w.modifier(pl) }
	families["options2"] = func(w *Worker, pl []byte) string { return w.optionLists(pl) }
	readers["ops"] = func(pl []byte) string {
		l := []string{}
		for _, o := range pl[2:] {
			l = append(l, opNames[o])
		}
		return fmt.Sprintf("%s buffer, page %s: %s", bufKinds[pl[0]], expName(pl[1]), strings.Join(l, ", "))
	}
	readers["fillbuf"] = func(pl []byte) string {
		n, m, k := fillArgs(pl)
		return fmt.Sprintf("%s buffer, page %s: append %d, shrink to %d, append %d", bufKinds[pl[0]], expName(pl[1]), n, m, k)
	}
	readers["reader"] = func(pl []byte) string {
		return fmt.Sprintf("%s reader on [%d,%d) of %s", []string{"UTF-8", "ASCII"}[pl[0]], pl[1], pl[2], quote(pl[3:]))
	}
	readers["line"] = func(pl []byte) string {
		a, b := int(binary.LittleEndian.Uint16(pl[1:])), int(binary.LittleEndian.Uint16(pl[3:]))
		return fmt.Sprintf("document %s after %d bytes %s, forbidden character at %d", quote(pl[5+a:]), a, quote(pl[5:5+a]), b)
	}
}

// bfs explores all operation sequences up to depth from the roots, level by
// level. The family leaves the state it reached in w.key; operation sequences
// that reach the same state are continued once.
func (c *Ctx) bfs(name, fam string, roots [][]byte, nops, depth int) {
	visited := map[string]bool{}
	var mu sync.Mutex
	frontier := roots
	c.Space(name, len(roots), func(w *Worker, i int) {
		w.states++
		w.Do(fam, roots[i])
	})
	for d := 0; d < depth && len(frontier) > 0 && !c.Stop(); d++ {
		var next [][]byte
		from := frontier
		c.Space(name, len(from), func(w *Worker, i int) {
			for op := 0; op < nops; op++ {
				pl := append(append(make([]byte, 0, len(from[i])+1), from[i]...), byte(op))
				w.transitions++
				w.key = ""
				w.Do(fam, pl)
				if w.key == "" {
					continue
				}
				mu.Lock()
				if !visited[w.key] {
					visited[w.key] = true
					w.states++
					next = append(next, pl)
				}
				mu.Unlock()
			}
		})
		frontier = next
	}
	if len(frontier) > 0 {
		c.Sample(readable(fam, frontier[len(frontier)/2]))
	}
}

// ---- C18, C19: buffers against an array

var bufKinds = []string{"long", "int", "object"}

// box makes the three buffers look alike. Objects are boxed numbers.
type box interface {
	at(i int) (int64, error)
	mod(i int, v int64) error
	app(v int64) error
	clear()
	size() int
	set(n int)
	array() ([]int64, bool, error)
	raw() interface{}
}

type longBox struct{ *buffer.FastLongBuffer }

func (b longBox) at(i int) (int64, error)       { return b.LongAt(i) }
func (b longBox) mod(i int, v int64) error      { return b.ModifyEntry(i, v) }
func (b longBox) app(v int64) error             { return b.Append(v) }
func (b longBox) clear()                        { b.Clear() }
func (b longBox) size() int                     { return b.GetSize() }
func (b longBox) set(n int)                     { b.SetSize(n) }
func (b longBox) array() ([]int64, bool, error) { a, err := b.ToLongArray(); return a, true, err }
func (b longBox) raw() interface{}              { return b.FastLongBuffer }

type intBox struct{ *buffer.FastIntBuffer }

func (b intBox) at(i int) (int64, error)  { v, err := b.IntAt(i); return int64(v), err }
func (b intBox) mod(i int, v int64) error { return b.ModifyEntry(i, int32(v)) }
func (b intBox) app(v int64) error        { return b.Append(int32(v)) }
func (b intBox) clear()                   { b.Clear() }
func (b intBox) size() int                { return b.GetSize() }
func (b intBox) set(n int)                { b.SetSize(n) }
func (b intBox) array() ([]int64, bool, error) {
	a, err := b.ToIntArray()
	out := make([]int64, len(a))
	for i, v := range a {
		out[i] = int64(v)
	}
	return out, true, err
}
func (b intBox) raw() interface{} { return b.FastIntBuffer }

// objects that are stored: numbers map to values of several kinds
type objBox struct{ *buffer.FastObjectBuffer }

type obj struct{ v int64 }

func toObj(v int64) interface{} {
	switch v {
	case valA:
		return &objA
	case valB:
		return "text"
	case valC:
		return nil
	}
	return obj{v}
}

var objA = obj{valA}

func fromObj(x interface{}) int64 {
	switch t := x.(type) {
	case nil:
		return valC
	case *obj:
		if t == &objA {
			return valA
		}
	case string:
		if t == "text" {
			return valB
		}
	case obj:
		return t.v
	}
	return -987654321
}

func (b objBox) at(i int) (int64, error) {
	x, err := b.ObjectAt(i)
	return fromObj(x), err
}
func (b objBox) mod(i int, v int64) error      { return b.ModifyEntry(i, toObj(v)) }
func (b objBox) app(v int64) error             { return b.Append(toObj(v)) }
func (b objBox) clear()                        { b.Clear() }
func (b objBox) size() int                     { return b.GetSize() }
func (b objBox) set(n int)                     { b.SetSize(n) }
func (b objBox) array() ([]int64, bool, error) { return nil, false, nil }
func (b objBox) raw() interface{}              { return b.FastObjectBuffer }

const defaultExp = 255

func expName(e byte) string {
	if e == defaultExp {
		return "default"
	}
	return fmt.Sprintf("2^%d", e)
}

func newBox(kind byte, exp int) (box, error) {
	def := exp == defaultExp
	switch kind {
	case 0:
		var o []buffer.FastLongBufferOption
		if !def {
			o = append(o, buffer.WithFastLongBufferPageSize(exp))
		}
		b, err := buffer.NewFastLongBuffer(o...)
		if b == nil {
			return nil, err
		}
		return longBox{b}, err
	case 1:
		var o []buffer.FastIntBufferOption
		if !def {
			o = append(o, buffer.WithFastIntBufferPageSize(exp))
		}
		b, err := buffer.NewFastIntBuffer(o...)
		if b == nil {
			return nil, err
		}
		return intBox{b}, err
	}
	var o []buffer.FastObjectBufferOption
	if !def {
		o = append(o, buffer.WithFastObjectBufferPageSize(exp))
	}
	b, err := buffer.NewFastObjectBuffer(o...)
	if b == nil {
		return nil, err
	}
	return objBox{b}, err
}

const (
	opAppA = iota
	opAppB
	opModFirst
	opModMid
	opModLast
	opModSize
	opModNeg
	opClear
	opReads
	opShrink1 // long and int only from here
	opShrinkHalf
	opShrink0
	nOps
)

var opNames = []string{"append A", "append B", "modify 0", "modify the middle", "modify the last", "modify at the size", "modify at -1", "clear", "append C", "shrink by 1", "shrink to half", "shrink to 0"}

const (
	valA = int64(0x1122334480000001) // the halves differ, the lower one is negative
	valB = int64(-0x0FEDCBA97FFFFFFF)
	valC = int64(0x00000000FFFFFFFF)
	valM = int64(-5)
)

func isArg(err error) bool {
	var ia *erroring.InvalidArgumentError
	return errors.As(err, &ia)
}

var extremes = []int{math.MinInt64, math.MinInt64 + 1, math.MaxInt64, math.MaxInt64 - 1, math.MinInt32, math.MaxInt32, 1 << 31, 1 << 32, 1<<32 + 1, -1 << 32, 1 << 62, -1 << 62}

// observe compares everything that can be read with the model.
func observe(b box, kind byte, model []int64, page, from, to int) string {
	conv := func(v int64) int64 {
		if kind == 1 {
			return int64(int32(v))
		}
		return v
	}
	want := len(model)
	if kind == 2 {
		want = (len(model) + page - 1) / page
	}
	if b.size() != want {
		return fmt.Sprintf("size is %d, expected %d", b.size(), want)
	}
	check := func(i int) string {
		in := i >= 0 && i < len(model)
		v, err := b.at(i)
		if in && (err != nil || v != conv(model[i])) {
			return fmt.Sprintf("entry %d is %#x (%v), expected %#x", i, v, err, conv(model[i]))
		}
		if !in && (err == nil || kind != 2 && !isArg(err)) {
			return fmt.Sprintf("entry %d of %d: %#x, %v", i, len(model), v, err)
		}
		if l, ok := b.(longBox); ok {
			lo, err1 := l.Lower32At(i)
			hi, err2 := l.Upper32At(i)
			if in && (err1 != nil || err2 != nil || lo != int32(model[i]) || hi != int32(model[i]>>32)) {
				return fmt.Sprintf("halves of entry %d are %#x (%v) and %#x (%v) of %#x", i, hi, err2, lo, err1, model[i])
			}
			if !in && (!isArg(err1) || !isArg(err2)) {
				return fmt.Sprintf("halves of entry %d of %d: %v, %v", i, len(model), err1, err2)
			}
		}
		return ""
	}
	for i := from; i < to; i++ {
		if s := check(i); s != "" {
			return s
		}
	}
	for _, i := range extremes {
		if s := check(i); s != "" {
			return s
		}
	}
	if a, has, err := b.array(); has {
		if err != nil || len(a) != len(model) {
			return fmt.Sprintf("array has %d entries (%v), expected %d", len(a), err, len(model))
		}
		for i := range a {
			if a[i] != conv(model[i]) {
				return fmt.Sprintf("array entry %d is %#x, expected %#x", i, a[i], conv(model[i]))
			}
		}
		for i := range a { // the result is a copy
			a[i] = 99
		}
	}
	return ""
}

func pageOf(exp byte) int {
	if exp == defaultExp {
		return 1024
	}
	return 1 << exp
}

func (w *Worker) ops(pl []byte) string {
	kind, exp := pl[0], pl[1]
	b, err := newBox(kind, int(exp))
	if err != nil {
		return err.Error()
	}
	var model []int64
	mod := func(i int, v int64) string {
		in := i >= 0 && i < len(model)
		err := b.mod(i, v)
		if in {
			if err != nil {
				return fmt.Sprintf("modify %d of %d: %v", i, len(model), err)
			}
			model[i] = v
		} else if err == nil || kind != 2 && !isArg(err) {
			return fmt.Sprintf("modify %d of %d: %v", i, len(model), err)
		}
		return ""
	}
	for _, op := range pl[2:] {
		what := ""
		switch op {
		case opAppA, opAppB, opReads:
			v := valA
			if op == opAppB {
				v = valB
			} else if op == opReads {
				v = valC
			}
			if err := b.app(v); err != nil {
				what = "append: " + err.Error()
			}
			model = append(model, v)
		case opModFirst:
			what = mod(0, valM)
		case opModMid:
			what = mod(len(model)/2, valA)
		case opModLast:
			what = mod(len(model)-1, valB)
		case opModSize:
			what = mod(len(model), valM)
		case opModNeg:
			what = mod(-1, valM)
		case opClear:
			b.clear()
			model = model[:0]
		case opShrink1, opShrinkHalf, opShrink0:
			n := len(model) - 1
			if op == opShrinkHalf {
				n = len(model) / 2
			} else if op == opShrink0 || n < 0 {
				n = 0
			}
			b.set(n)
			model = model[:n]
		}
		if what != "" {
			return what
		}
	}
	if what := observe(b, kind, model, pageOf(exp), -3, len(model)+2*4+3); what != "" {
		return what
	}
	k := make([]byte, 0, 100)
	k = append(k, kind, exp)
	k = binary.AppendVarint(k, int64(len(model)))
	for _, v := range model {
		k = binary.AppendVarint(k, v)
	}
	v := reflect.ValueOf(b.raw()).Elem()
	for i := 0; i < v.NumField(); i++ {
		k = keyOf(k, v.Field(i))
	}
	if kind == 2 { // objects are opaque to keyOf: no merging of histories by content
		k = append(append(k, 0xFF), pl[2:]...)
	}
	w.key = string(k)
	return ""
}

func fillArgs(pl []byte) (n, m, k int) {
	return int(binary.LittleEndian.Uint32(pl[2:])), int(binary.LittleEndian.Uint32(pl[6:])), int(binary.LittleEndian.Uint32(pl[10:]))
}

func fillPayload(kind, exp byte, n, m, k int) []byte {
	pl := make([]byte, 14)
	pl[0], pl[1] = kind, exp
	binary.LittleEndian.PutUint32(pl[2:], uint32(n))
	binary.LittleEndian.PutUint32(pl[6:], uint32(m))
	binary.LittleEndian.PutUint32(pl[10:], uint32(k))
	return pl
}

// fillBuf appends n, shrinks to m (objects: clears if m is 0), appends k,
// modifies around the page ends and compares everything.
func (w *Worker) fillBuf(pl []byte) string {
	kind, exp := pl[0], pl[1]
	n, m, k := fillArgs(pl)
	b, err := newBox(kind, int(exp))
	if err != nil {
		return err.Error()
	}
	var model []int64
	next := int64(1)
	app := func(n int) string {
		for i := 0; i < n; i++ {
			next += 0x100000003
			if err := b.app(next); err != nil {
				return fmt.Sprintf("append %d: %v", len(model), err)
			}
			model = append(model, next)
		}
		return ""
	}
	if s := app(n); s != "" {
		return s
	}
	if s := observe(b, kind, model, pageOf(exp), -2, n+3); s != "" {
		return "after appending: " + s
	}
	if m < n {
		if m == 0 {
			b.clear()
		} else {
			b.set(m)
		}
		model = model[:m]
		if s := observe(b, kind, model, pageOf(exp), -2, n+3); s != "" {
			return "after shrinking: " + s
		}
	}
	if s := app(k); s != "" {
		return s
	}
	for i := 0; i < len(model); i++ {
		if p := pageOf(exp); i%p < 1 || i%p == p-1 || i == len(model)-1 {
			next += 7
			if err := b.mod(i, next); err != nil {
				return fmt.Sprintf("modify %d of %d: %v", i, len(model), err)
			}
			model[i] = next
		}
	}
	if s := observe(b, kind, model, pageOf(exp), -2, len(model)+3); s != "" {
		return "at the end: " + s
	}
	return ""
}

// pageSize creates buffers with any exponent.
func (w *Worker) pageSize(pl []byte) string {
	exp := int(int64(binary.LittleEndian.Uint64(pl[1:])))
	b, err := newBox(pl[0], exp)
	usable := exp >= 0 && exp <= 30
	if exp == defaultExp {
		return ""
	}
	if err != nil && (usable || !isArg(err) || b != nil) {
		return fmt.Sprintf("page size 2^%d: error %v, buffer %v", exp, err, b != nil)
	}
	if err == nil { // what is created can be used
		for i := 0; i < 5; i++ {
			if err := b.app(valA); err != nil {
				return err.Error()
			}
		}
		for i := 0; i < 5; i++ {
			if v, err := b.at(i); err != nil || pl[0] != 1 && v != valA {
				return fmt.Sprintf("page size 2^%d: entry %d is %#x, %v", exp, i, v, err)
			}
		}
		if _, err := b.at(5); err == nil {
			return fmt.Sprintf("page size 2^%d: there is an entry 5 of 5", exp)
		}
	}
	return ""
}

func (c *Ctx) buffers(kinds []byte, nops int) {
	depth := pick(c, 7, 9)
	for _, k := range kinds {
		d := depth
		if k == 2 {
			d-- // histories are not merged
		}
		var roots [][]byte
		for _, e := range []byte{0, 1, 2, 3, defaultExp} {
			roots = append(roots, []byte{k, e})
		}
		c.bfs(bufKinds[k]+" operations", "ops", roots, nops, d)
		var l [][]byte
		for e := byte(0); e <= 14; e++ {
			p := pageOf(e)
			var ns []int
			for n := 0; n <= 70 && e < 6; n++ {
				ns = append(ns, n)
			}
			for _, k := range []int{1, 2, 3, 4, 5, 8, 9} {
				if k*p > 70000 || e < 6 && k*p <= 70 {
					continue
				}
				ns = append(ns, k*p-1, k*p, k*p+1)
			}
			if p <= 4 {
				ns = append(ns, 1023*p, 1024*p, 1024*p+1, 2047, 2048, 2049, 5000)
			}
			for _, n := range ns {
				ms := []int{n, 0}
				if k != 2 {
					ms = append(ms, 1, p-1, p, p+1, n/2, n-1, n-p, n-p-1)
				}
				done := map[int]bool{}
				for _, m := range ms {
					if m < 0 || m > n || done[m] {
						continue
					}
					done[m] = true
					l = append(l, fillPayload(k, e, n, m, 0), fillPayload(k, e, n, m, 1), fillPayload(k, e, n, m, p), fillPayload(k, e, n, m, n-m+1))
				}
			}
		}
		for e := byte(15); int(e) <= pick(c, 18, 21); e++ {
			p := pageOf(e)
			for _, n := range []int{p - 1, p, p + 1, 2*p - 1, 2 * p, 2*p + 1} {
				if n > 2*p-2 && e > 16 && !c.thorough {
					continue
				}
				for _, m := range []int{n, 0, 1, p} {
					if m == n || m == 0 || m < n && k != 2 && (e < 17 || c.thorough) {
						l = append(l, fillPayload(k, e, n, m, 0), fillPayload(k, e, n, m, 3))
					}
				}
			}
		}
		for _, n := range []int{1023, 1024, 1025, 4097} {
			for _, m := range []int{n, 0} {
				l = append(l, fillPayload(k, defaultExp, n, m, 0), fillPayload(k, defaultExp, n, m, 1024))
			}
		}
		c.Space(bufKinds[k]+" fill", len(l), func(w *Worker, i int) {
			w.states++
			n, _, a := fillArgs(l[i])
			w.transitions += int64(n + a)
			w.Do("fillbuf", l[i])
		})
		c.Space(bufKinds[k]+" page sizes", 201+len(extremes), func(w *Worker, i int) {
			w.states++
			e := i - 70
			if i > 200 {
				e = extremes[i-201]
			}
			pl := make([]byte, 9)
			pl[0] = k
			binary.LittleEndian.PutUint64(pl[1:], uint64(int64(e)))
			w.Do("pagesize", pl)
		})
	}
}

func checkC18(c *Ctx) { c.buffers([]byte{0, 1}, nOps) }
func checkC19(c *Ctx) { c.buffers([]byte{2}, opShrink1) }

// ---- C20: byte buffer

func (w *Worker) byteSlice(pl []byte) string {
	size, pre := int(pl[0]), pl[1]
	data := make([]byte, size, size+8)
	for i := range data {
		data[i] = byte(i*7 + 1)
	}
	for i := range data[size : size+8] {
		data[size : size+8][i] = 0xEE // never part of a result
	}
	keep := append([]byte{}, data...)
	b, err := buffer.NewUniByteBuffer(data)
	if err != nil {
		return err.Error()
	}
	before := func() {
		switch pre {
		case 1:
			b.Clear()
		case 2:
			b.SetSize(size / 2)
		case 3:
			b.SetSize(size + 4)
			b.Clear()
		}
	}
	before()
	intact := func() string {
		if b.GetSize() != size || !bytes.Equal(b.GetBytes(), keep) {
			return fmt.Sprintf("size %d (was %d), content %x (was %x)", b.GetSize(), size, b.GetBytes(), keep)
		}
		return ""
	}
	if s := intact(); s != "" {
		return s
	}
	vals := append(append([]int{}, extremes...), math.MaxInt64-size, math.MaxInt64-size+1, math.MaxInt64-1-size)
	for i := -3; i <= size+3; i++ {
		vals = append(vals, i)
	}
	for _, i := range vals {
		w.transitions++
		v, err := b.ByteAt(i)
		if i >= 0 && i < size {
			if err != nil || v != keep[i] {
				return fmt.Sprintf("byte %d of %d is %#x (%v)", i, size, v, err)
			}
		} else if !isArg(err) {
			return fmt.Sprintf("byte %d of %d: %#x, %v", i, size, v, err)
		}
	}
	for _, o := range vals {
		for _, n := range vals {
			w.transitions++
			s, err := b.GetByteSlice(o, n)
			switch {
			case o >= 0 && o < size && n >= 1 && n < size-o:
				if err != nil || !bytes.Equal(s, keep[o:o+n]) {
					return fmt.Sprintf("slice of %d at %d of %d is %x (%v)", n, o, size, s, err)
				}
			case o < 0 || n < 0 || o > size || n > size-o:
				if !isArg(err) || s != nil {
					return fmt.Sprintf("slice of %d at %d of %d: %x, %v", n, o, size, s, err)
				}
			default: // empty, or up to the very end: right if accepted
				if err == nil && !bytes.Equal(s, keep[o:o+n]) {
					return fmt.Sprintf("slice of %d at %d of %d is %x", n, o, size, s)
				}
			}
		}
		before()
	}
	return intact()
}

func checkC20(c *Ctx) {
	n := pick(c, 41, 91)
	c.Space("offsets and lengths", n*4, func(w *Worker, i int) {
		w.states++
		w.Do("byteslice", []byte{byte(i / 4), byte(i % 4)})
		if i%50 == 0 {
			c.Sample(fmt.Sprintf("size %d, prelude %d", i/4, i%4))
		}
	})
	c.Space("no bytes", 1, func(w *Worker, i int) {
		w.states++
		w.Do("libkinds", []byte{libNilBytes})
	})
}

// ---- C21: character classes

func in(ch uint32, ranges [][2]uint32) bool {
	for _, r := range ranges {
		if ch >= r[0] && ch <= r[1] {
			return true
		}
	}
	return false
}

var (
	nameStartRanges = [][2]uint32{{':', ':'}, {'A', 'Z'}, {'_', '_'}, {'a', 'z'}, {0xC0, 0xD6}, {0xD8, 0xF6}, {0xF8, 0x2FF}, {0x370, 0x37D}, {0x37F, 0x1FFF}, {0x200C, 0x200D}, {0x2070, 0x218F}, {0x2C00, 0x2FEF}, {0x3001, 0xD7FF}, {0xF900, 0xFDCF}, {0xFDF0, 0xFFFD}, {0x10000, 0xEFFFF}}
	nameMoreRanges  = [][2]uint32{{'-', '-'}, {'.', '.'}, {'0', '9'}, {0xB7, 0xB7}, {0x300, 0x36F}, {0x203F, 0x2040}}
	validRanges     = [][2]uint32{{0x1, 0xD7FF}, {0xE000, 0xFFFD}, {0x10000, 0x10FFFF}}
	predicateNames  = []string{"IsSpaceChar", "IsNameStartChar", "IsNameChar", "IsContentChar", "IsValidChar"}
)

func charWant(pred int, ch uint32) (want, claim bool) {
	control := ch > 0 && ch < 0x20 && ch != 9 && ch != 10 && ch != 13 || ch >= 0x7F && ch <= 0x9F && ch != 0x85
	switch pred {
	case 0:
		return ch == 0x20 || ch == 9 || ch == 10 || ch == 13, true
	case 1:
		return in(ch, nameStartRanges), true
	case 2:
		return in(ch, nameStartRanges) || in(ch, nameMoreRanges), true
	case 3:
		return in(ch, validRanges) && ch != '<' && ch != '&' && ch != ']', !control
	}
	return in(ch, validRanges), !control
}

func charAsk(x *common.XmlChar, pred int, ch uint32) bool {
	switch pred {
	case 0:
		return x.IsSpaceChar(ch)
	case 1:
		return x.IsNameStartChar(ch)
	case 2:
		return x.IsNameChar(ch)
	case 3:
		return x.IsContentChar(ch)
	}
	return x.IsValidChar(ch)
}

var theChars struct {
	sync.Once
	x *common.XmlChar
}

func xmlChar() *common.XmlChar {
	theChars.Do(func() { theChars.x = common.NewXmlChar() })
	return theChars.x
}

func askChar(pred int, ch uint32) string {
	want, claim := charWant(pred, ch)
	if got := charAsk(xmlChar(), pred, ch); claim && got != want {
		return fmt.Sprintf("%s(%#x) is %v, expected %v", predicateNames[pred], ch, got, want)
	}
	return ""
}

// chars: all predicates on a range of code points.
func (w *Worker) chars(pl []byte) string {
	a, b := binary.LittleEndian.Uint32(pl), binary.LittleEndian.Uint32(pl[4:])
	for ch := uint64(a); ch <= uint64(b); ch++ {
		for p := range predicateNames {
			if s := askChar(p, uint32(ch)); s != "" {
				return s
			}
		}
		w.transitions += 5
	}
	return ""
}

// charPair: two successive questions, answered by a table of their own.
func (w *Worker) charPair(pl []byte) string {
	for i := 0; i+5 <= len(pl); i += 5 {
		if s := askChar(int(pl[i]), binary.LittleEndian.Uint32(pl[i+1:])); s != "" {
			return fmt.Sprintf("question %d: %s", i/5+1, s)
		}
	}
	return ""
}

func checkC21(c *Ctx) {
	if c.thorough {
		common.VerifMemory(false)
	} else { // the tables have to be known
		for p := range predicateNames {
			charAsk(xmlChar(), p, 'a')
			charAsk(xmlChar(), p, '<')
		}
		common.VerifMemory(false)
	}
	bounds := []uint32{0, 0x10FFFF, 0xFFFE, 0xFFFF, 0x10000, 0x1FFFE, 0x20000, 0xE0000, 0xF0000, 0x85, 0x2028}
	for _, l := range [][][2]uint32{nameStartRanges, nameMoreRanges, validRanges} {
		for _, r := range l {
			bounds = append(bounds, r[0], r[1])
		}
	}
	var rs [][2]uint32
	if c.thorough {
		for a := uint32(0); a <= 0x10FFFF; a += 256 {
			rs = append(rs, [2]uint32{a, a + 255})
		}
	} else {
		for a := uint32(0); a < 0x3100; a += 64 {
			rs = append(rs, [2]uint32{a, a + 63})
		}
		for _, b := range bounds {
			if b >= 0x3080 {
				for a := b - 40; a < b+40; a += 16 {
					rs = append(rs, [2]uint32{a, a + 15})
				}
			}
		}
		for k := uint32(1); k <= 16; k++ { // ends of planes
			rs = append(rs, [2]uint32{k<<16 - 3, k<<16 + 2})
		}
	}
	for k := uint(20); k < 32; k++ {
		rs = append(rs, [2]uint32{1<<k - 2, 1<<k + 2})
	}
	rs = append(rs, [2]uint32{0x10FFFE, 0x110010}, [2]uint32{math.MaxUint32 - 3, math.MaxUint32})
	for _, b := range bounds { // same lower bits, beyond
		rs = append(rs, [2]uint32{b | 1<<31, b | 1<<31}, [2]uint32{b | 1<<24, b | 1<<24}, [2]uint32{b | 1<<21, b | 1<<21})
	}
	c.Space("code points", len(rs), func(w *Worker, i int) {
		pl := make([]byte, 8)
		binary.LittleEndian.PutUint32(pl, rs[i][0])
		binary.LittleEndian.PutUint32(pl[4:], rs[i][1])
		w.states += int64(rs[i][1] - rs[i][0] + 1)
		w.Do("chars", pl)
		if i%97 == 0 {
			c.Sample(fmt.Sprintf("U+%04X to U+%04X", rs[i][0], rs[i][1]))
		}
	})
	if !c.thorough {
		// the rest of the code points: the tables are looked up by an index
		// of them, not by the linear search
		common.VerifMemory(true)
		common.VerifIndex()
		c.Space("every code point", 0x110000/256, func(w *Worker, i int) {
			pl := make([]byte, 8)
			binary.LittleEndian.PutUint32(pl, uint32(i)*256)
			binary.LittleEndian.PutUint32(pl[4:], uint32(i)*256+255)
			w.states += 256
			w.Do("chars", pl)
		})
		common.VerifMemory(false)
	}
	// successive questions: an answer does not depend on the one before
	small := []uint32{0, 1, 9, 10, 13, 0x20, '!', '&', '-', '.', '/', '0', '9', ':', ';', '<', '>', 'A', 'Z', '[', ']', '_', '`', 'a', 'z', '{', 0x7F, 0xB7, 0xC0, 0xD7, 0xF7, 0x2FF, 0x300, 0x36F, 0x37E, 0x1FFF, 0x200C, 0x203F, 0x2040, 0x2070}
	q := len(small) * 5
	put := func(pl []byte, k int) []byte {
		return binary.LittleEndian.AppendUint32(append(pl, byte(k%5)), small[k/5])
	}
	c.Space("successive questions", q, func(w *Worker, i int) {
		for j := 0; j < q; j++ {
			w.states++
			w.transitions += 2
			w.Do("charpair", put(put(nil, i), j))
		}
		for j := 0; j < q; j += 7 { // and back
			w.Do("charpair", put(put(put(nil, i), j), i))
		}
	})
}
