package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
	"unicode/utf8"
	"unsafe"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/buffer"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"

	"mc/ref"
)

func init() {
	register("C14", "all ordered trees up to 10 (thorough 12) elements with 4 renderings and, up to 6 elements, all mixtures of tag forms; all repetitions of depth patterns up to length 4 over 7 levels across page ends; all counts around every page size on every level in every document size class; fragment trees of accepted documents; the constructs of C02 at every depth; fragment trees in ten variants (preludes, long words, long whitespace, inside 4 and 100 elements)",
		checkC14)
	register("C15", "the complete reachable state graph (all move sequences of any length) of the cursor on all ordered trees up to 7 (thorough 9) elements, the same under chains of 1 to 6 and up to 251 elements, on wide levels around page ends and on trees with other tokens between the elements; records far inside big arrays; siblings on levels 1 to 8 with chains of up to 11 descendants between them",
		checkC15)
	register("C16", "all combinations of boundary values of all record fields; all sequences of up to 3 (thorough 4) text-like tokens with and without gaps; all indexes around the ends of buffers of 1 to 5 entries with 4 page sizes",
		checkC16)
	register("C17", "all strings up to 4 (thorough 5) fragments over characters and references for all token types; all strings after & up to 5 bytes over the entity alphabet; numeric references to all code points (quick: boundaries); all ranges of small documents and around the integer limits; all depth families; ranges far inside big arrays",
		checkC17)
	register("C26", "fragment trees of accepted documents, all ordered trees up to 9 (thorough 11) elements with 4 renderings, wide and deep documents: complete walks in both directions, and the string of every token; all depth families; fragment trees in nine variants (preludes, long words, long whitespace, inside 4 and 100 elements)",
		checkC26)

	families["lctree"] = func(w *Worker, pl []byte) string { return w.lcTree(pl) }
	readers["lctree"] = func(pl []byte) string {
		return fmt.Sprintf("location caches of %s", quote([]byte(renderTree(pl[1], pl[4:], int(binary.LittleEndian.Uint16(pl[2:]))))))
	}
	families["lcdoc"] = func(w *Worker, pl []byte) string { return w.lcDoc(pl[1:], pl[0]) }
	families["genlcdoc"] = viaGen((*Worker).lcDoc)
	readers["lcdoc"] = readers["doc"]
	families["nav"] = func(w *Worker, pl []byte) string { return w.navGraph(pl) }
	families["navdeep"] = func(w *Worker, pl []byte) string { return w.navDeep(pl) }
	readers["nav"] = func(pl []byte) string {
		return fmt.Sprintf("cursor on the elements at depths %v (extra tokens: %d, page size 2^%d)", clipDepths(pl[2:]), pl[0], pl[1])
	}
	families["record"] = func(w *Worker, pl []byte) string { return w.record(pl) }
	families["texts"] = func(w *Worker, pl []byte) string { return w.texts(pl) }
	families["index"] = func(w *Worker, pl []byte) string { return w.indexes(pl) }
	families["string"] = func(w *Worker, pl []byte) string { return w.str(pl) }
	readers["string"] = func(pl []byte) string {
		off, n := int(binary.LittleEndian.Uint16(pl[2:])), int(binary.LittleEndian.Uint16(pl[4:]))
		return fmt.Sprintf("string of token type %d (encoding %d) at [%d,%d) of %s", pl[0], pl[1], off, off+n, quote(pl[6:]))
	}
	families["ranges"] = func(w *Worker, pl []byte) string { return w.ranges(pl) }
	families["walk"] = func(w *Worker, pl []byte) string { return w.walkDoc(pl[1:], pl[0]) }
	families["strings"] = func(w *Worker, pl []byte) string { return w.stringsDoc(pl[1:], pl[0]) }
	families["genstrings"] = viaGen((*Worker).stringsDoc)
	readers["strings"] = readers["doc"]
	families["genwalk"] = viaGen((*Worker).walkDoc)
	readers["walk"] = readers["doc"]
}

func clipDepths(b []byte) string {
	if len(b) > 60 {
		return fmt.Sprintf("%v... (%d elements)", b[:60], len(b))
	}
	return fmt.Sprint(b)
}

func viaGen(f func(w *Worker, d []byte, opts byte) string) family {
	return func(w *Worker, pl []byte) string {
		d, ok := genDoc(string(pl[1:]))
		if !ok {
			return ""
		}
		return f(w, []byte(d), pl[0])
	}
}

// allTrees calls f with the depth sequence of every ordered tree of exactly n
// elements whose depths stay below limit.
func allTrees(n, limit int, f func(d []byte)) {
	d := make([]byte, 1, n)
	var rec func()
	rec = func() {
		if len(d) == n {
			f(d)
			return
		}
		for k := 1; k <= int(d[len(d)-1])+1 && k < limit; k++ {
			d = append(d, byte(k))
			rec()
			d = d[:len(d)-1]
		}
	}
	rec()
}

// renderTree writes the document of a depth sequence. form 0: childless
// elements as empty tags; 1: as tag pairs; 2: alternating; 3: with other
// markup everywhere; 64+mask: element i as an empty tag if bit i is set.
func renderTree(form byte, d []byte, pad int) string {
	var b strings.Builder
	var open []string
	for i := range d {
		for len(open) > int(d[i]) {
			b.WriteString("</" + open[len(open)-1] + ">")
			if form == 3 {
				b.WriteString("t<!--c-->\n")
			}
			open = open[:len(open)-1]
		}
		nm := name(i)
		leaf := i+1 >= len(d) || d[i+1] <= d[i]
		empty := leaf && (form == 0 || form == 2 && i%2 == 0 || form == 3 && i%3 == 0 || form >= 64 && form>>uint(i%6)&1 != 0)
		at := ""
		if form == 3 {
			at = " x='1' xmlns:p=\"u\" p:y=''"
		}
		b.WriteString("<" + nm + at)
		if empty {
			b.WriteString("/>")
			continue
		}
		b.WriteString(">")
		if form == 3 {
			b.WriteString("u&lt;<?p v?><![CDATA[w]]>")
		}
		open = append(open, nm)
	}
	for k := len(open) - 1; k >= 0; k-- {
		b.WriteString("</" + open[k] + ">")
	}
	if pad > b.Len() {
		b.WriteString(strings.Repeat("\n", pad-b.Len()))
	}
	return b.String()
}

const noChild = 0xFFFFFFFF

// lcModel computes the location caches of elements with the given depths
// whose start tags are tokens idx.
func lcModel(depths []byte, idx []int) [5][]int64 {
	var lc [5][]int64
	var n [6]int // elements seen per level (level 0: root)
	for i, k := range depths {
		if k >= 1 && k <= 4 {
			child := int64(noChild)
			if i+1 < len(depths) && depths[i+1] == k+1 {
				child = int64(n[k+1])
			}
			// children of this element come after all elements of level k+1 seen so far
			lc[k-1] = append(lc[k-1], int64(idx[i])<<32|child)
		} else if k == 5 {
			lc[4] = append(lc[4], int64(idx[i]))
		}
		if k <= 5 {
			n[k]++
		}
	}
	return lc
}

// checkLC compares the location caches of a parsed document with the model
// computed from its own start tag tokens.
func checkLC(o *outcome, wantDepths []byte) string {
	st := o.p.VerifState()
	toks, err := tokens(st.Vtd)
	if err != nil {
		return err.Error()
	}
	var depths []byte
	var idx []int
	for i, t := range toks {
		if t.Type == ref.TStart {
			depths = append(depths, byte(t.Depth))
			idx = append(idx, i)
		}
	}
	if wantDepths != nil && string(depths) != string(wantDepths) {
		return fmt.Sprintf("the start tag tokens have depths %v, expected %v", depths, wantDepths)
	}
	if len(idx) == 0 || st.RootIndex != idx[0] {
		return fmt.Sprintf("root index %d, expected %v", st.RootIndex, idx[:1])
	}
	want := lcModel(depths, idx)
	for k, b := range []buffer.LongBuffer{st.L1, st.L2, st.L3, st.L4, st.L5} {
		n := b.GetSize()
		if n != len(want[k]) {
			return fmt.Sprintf("level %d cache has %d entries, expected %d", k+1, n, len(want[k]))
		}
		for i := 0; i < n; i++ {
			v, err := b.LongAt(i)
			if err != nil {
				return err.Error()
			}
			if v != want[k][i] {
				return fmt.Sprintf("level %d entry %d is token %d child %d, expected token %d child %d", k+1, i, v>>32, int32(v), want[k][i]>>32, int32(want[k][i]))
			}
		}
	}
	return ""
}

func (w *Worker) lcTree(pl []byte) string {
	d := pl[4:]
	o := runParser([]byte(renderTree(pl[1], d, int(binary.LittleEndian.Uint16(pl[2:])))), false, 0, 0, pl[0]|oLc5)
	w.outcomes[o.verdict()]++
	if !o.accepted() {
		return "not accepted: " + o.errText()
	}
	return checkLC(&o, d)
}

func (w *Worker) lcDoc(d []byte, opts byte) string {
	if len(d) == 0 {
		return ""
	}
	o := runParser(d, false, 0, 0, opts|oLc5)
	w.outcomes[o.verdict()]++
	if !o.accepted() {
		return ""
	}
	return checkLC(&o, nil)
}

func treePayload(opts, form byte, pad int, d []byte) []byte {
	b := []byte{opts, form, byte(pad), byte(pad >> 8)}
	return append(b, d...)
}

func checkC14(c *Ctx) {
	max := pick(c, 10, 12)
	for n := 1; n <= max; n++ {
		var l [][]byte
		allTrees(n, 255, func(d []byte) { l = append(l, append([]byte{}, d...)) })
		c.Space(fmt.Sprintf("trees of %d", n), len(l), func(w *Worker, i int) {
			w.states++
			for form := byte(0); form <= 3; form++ {
				w.transitions++
				w.Do("lctree", treePayload(0, form, 0, l[i]))
			}
			w.Do("lctree", treePayload(oNs, 3, 1100, l[i]))
			if n <= 6 {
				for m := 0; m < 1<<uint(n); m++ {
					w.transitions++
					w.Do("lctree", treePayload(0, 64|byte(m), 0, l[i]))
				}
			}
			if i%(len(l)/2+1) == 0 {
				c.Sample(renderTree(2, l[i], 0))
			}
		})
	}
	// repeated patterns of depths, crossing pages of 32 and 64 entries
	var pats [][]byte
	for n := 1; n <= pick(c, 4, 5); n++ {
		p := make([]byte, n)
		var rec func(k int)
		rec = func(k int) {
			if k == n {
				for j := range p { // a legal step everywhere, also around
					if p[(j+1)%n] > p[j]+1 {
						return
					}
				}
				pats = append(pats, append([]byte{}, p...))
				return
			}
			for v := byte(1); v <= 7; v++ {
				p[k] = v
				rec(k + 1)
			}
		}
		rec(0)
	}
	c.Space("repeated patterns", len(pats), func(w *Worker, i int) {
		w.states++
		p := pats[i]
		for _, total := range []int{31, 32, 33, 34, 64, 65, 66, 70, 140} {
			for _, form := range []byte{0, 1, 3} {
				d := []byte{0}
				for k := byte(1); k < p[0]; k++ {
					d = append(d, k)
				}
				for j := 0; j < total; j++ {
					d = append(d, p[j%len(p)])
				}
				w.transitions++
				w.Do("lctree", treePayload(0, form, 0, d))
				if total >= 64 && form == 0 {
					w.Do("lctree", treePayload(0, form, 4200, d))
				}
			}
		}
	})
	// counts around every page size on every level, in every size class
	var s []string
	for l := 1; l <= 7; l++ {
		for _, n := range []int{1, 2, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 4097} {
			for _, kids := range []int{0, 1, 2, 3, 31} {
				for _, pad := range []int{0, 4097, 16385, 65537, 262145} {
					if pad > 16385 && (n < 120 || kids == 3) && !c.thorough {
						continue
					}
					s = append(s, spec("levelpad", l, n, kids, pad))
				}
			}
		}
	}
	c.fam = "lcdoc"
	c.specs("counts around page sizes", s, []byte{0})
	s = nil
	for n := 1; n <= 255; n++ {
		s = append(s, spec("chain", n, 0, 0))
	}
	s = append(s, lateSpecs(c)...)
	c.specs("chains", s, []byte{0})
	docs := func(c *Ctx) {
		c.fragTree("documents", []string{"", "<r>"}, []string{"<a>", "<a/>", "<b x='1'>", "</a>", "</b>", "t", "<!--c-->", "<?p?>", "<![CDATA[]]>", "<!DOCTYPE r>", "<c y=''/>", " "}, 6, 7, 0)
		c.deep(2, 0)
	}
	docs(c)
	c.varied(docs, 0, 1, 4, 5, 6, 7, 8, 9, 10, 11)
}

func init() {
	gens["levelpad"] = func(a []int) string {
		d := genLevel(a[:3])
		if a[3] > len(d) {
			d += strings.Repeat(" ", a[3]-len(d))
		}
		return d
	}
}

// longs builds a buffer of the code from values.
func longs(exp int, v []int64) buffer.LongBuffer {
	b, err := buffer.NewFastLongBuffer(buffer.WithFastLongBufferPageSize(exp))
	if err != nil {
		panic(err)
	}
	for _, x := range v {
		if err := b.Append(x); err != nil {
			panic(err)
		}
	}
	return b
}

func rec(typ, depth, length, off int) int64 {
	return int64(uint64(typ)<<60 | uint64(depth&0xFF)<<52 | uint64(length)<<32 | uint64(off))
}

// synthNav builds token and cache buffers for the elements of a depth
// sequence and a cursor on them. extra selects other tokens in between.
func synthNav(depths []byte, extra byte, exp int) (*navigation.VtdNav, []int) {
	v := []int64{rec(ref.TDoc, 255, 0, 0)}
	if extra&1 != 0 {
		v = append(v, rec(ref.TComment, 255, 3, 4), rec(ref.TPiName, 255, 3, 10), rec(ref.TPiVal, 255, 2, 14))
	}
	idx := make([]int, len(depths))
	off := 20
	max := 0
	for i, d := range depths {
		idx[i] = len(v)
		if int(d) > max {
			max = int(d)
		}
		v = append(v, rec(ref.TStart, int(d), 2, off))
		off += 10
		if extra&2 != 0 {
			v = append(v, rec(ref.TAttr, int(d), 1, off), rec(ref.TVal, int(d), 1, off+2))
			off += 10
		}
		if extra&4 != 0 {
			v = append(v, rec(ref.TText, int(d), 4, off), rec(ref.TComment, int(d), 2, off+8), rec(ref.TCdata, int(d), 0, off+20))
			off += 30
		}
	}
	if extra&1 != 0 {
		v = append(v, rec(ref.TComment, 255, 3, off+5))
	}
	lc := lcModel(depths, idx)
	nav, err := navigation.NewVtdNav(int32(idx[0]), 0, int32(off+10), int32(max), common.FormatUtf8, true, make([]byte, 8),
		longs(exp, v), longs(exp, lc[0]), longs(exp, lc[1]), longs(exp, lc[2]))
	if err != nil {
		panic(err)
	}
	return nav, idx
}

// family of the model cursor: position -1 is the document, else an element
type elemTree struct {
	parent, first, last, next, prev []int
}

func buildTree(depths []byte) *elemTree {
	n := len(depths)
	t := &elemTree{make([]int, n), make([]int, n), make([]int, n), make([]int, n), make([]int, n)}
	var open [300]int
	for i, d := range depths {
		t.parent[i], t.first[i], t.last[i], t.next[i], t.prev[i] = -1, -1, -1, -1, -1
		if d > 0 {
			p := open[d-1]
			t.parent[i] = p
			if t.first[p] < 0 {
				t.first[p] = i
			} else {
				t.prev[i] = t.last[p]
				t.next[t.last[p]] = i
			}
			t.last[p] = i
		}
		open[d] = i
	}
	return t
}

// move is the model: the new position and the result.
func (t *elemTree) move(pos int, dir navigation.Direction) (int, bool) {
	to := -1
	switch dir {
	case navigation.Root:
		return 0, true
	case navigation.Parent:
		if pos < 0 {
			return pos, false
		}
		return t.parent[pos], true
	case navigation.FirstChild, navigation.LastChild:
		if pos < 0 {
			return 0, true
		}
		to = t.first[pos]
		if dir == navigation.LastChild {
			to = t.last[pos]
		}
	case navigation.NextSibling, navigation.PrevSibling:
		if pos < 0 {
			return pos, false
		}
		to = t.next[pos]
		if dir == navigation.PrevSibling {
			to = t.prev[pos]
		}
	}
	if to < 0 {
		return pos, false
	}
	return to, true
}

// cloneNav copies a cursor with its slices; navKey is its state.
func cloneNav(n *navigation.VtdNav) *navigation.VtdNav {
	c := *n
	v := reflect.ValueOf(&c).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() != reflect.Slice || f.IsNil() {
			continue
		}
		f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
		s := reflect.MakeSlice(f.Type(), f.Len(), f.Len())
		reflect.Copy(s, f)
		f.Set(s)
	}
	return &c
}

func navKey(n *navigation.VtdNav, pos int) string {
	b := make([]byte, 0, 200)
	b = binary.AppendVarint(b, int64(pos))
	v := reflect.ValueOf(n).Elem()
	for i := 0; i < v.NumField(); i++ {
		b = keyOf(b, v.Field(i))
	}
	return string(b)
}

func keyOf(b []byte, f reflect.Value) []byte {
	switch f.Kind() {
	case reflect.Bool:
		if f.Bool() {
			return append(b, 1)
		}
		return append(b, 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return binary.AppendVarint(b, f.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return binary.AppendUvarint(b, f.Uint())
	case reflect.String:
		return append(append(b, f.String()...), 0)
	case reflect.Slice, reflect.Array:
		n := f.Len()
		b = binary.AppendVarint(b, int64(n))
		for k := 0; k < n; k++ {
			b = keyOf(b, f.Index(k))
		}
		return b
	case reflect.Struct:
		for k := 0; k < f.NumField(); k++ {
			b = keyOf(b, f.Field(k))
		}
	}
	return b
}

var directions = []navigation.Direction{navigation.Root, navigation.Parent, navigation.FirstChild, navigation.LastChild, navigation.NextSibling, navigation.PrevSibling}
var dirNames = []string{"root", "parent", "first", "last", "next", "prev"}

// navGraph explores every state the cursor can reach on one tree.
func (w *Worker) navGraph(pl []byte) string {
	extra, exp, depths := pl[0], int(pl[1]), pl[2:]
	_, idx := synthNav(depths, extra, exp)
	fresh := func() *navigation.VtdNav { n, _ := synthNav(depths, extra, exp); return n }
	return w.graph(fresh, buildTree(depths), idx, nil, 250000, math.MaxInt32)
}

// navDeep explores all moves up to a length from the end of a descent.
func (w *Worker) navDeep(pl []byte) string {
	extra, exp, down, length, depths := pl[0], int(pl[1]), int(pl[2]), int(pl[3]), pl[4:]
	_, idx := synthNav(depths, extra, exp)
	fresh := func() *navigation.VtdNav { n, _ := synthNav(depths, extra, exp); return n }
	path := make([]byte, down)
	for i := range path {
		path[i] = byte(navigation.FirstChild)
		if i > 0 && extra&8 != 0 {
			path[i] = byte(navigation.LastChild)
		}
	}
	return w.graph(fresh, buildTree(depths), idx, path, 250000, length)
}

func pathString(path []byte) string {
	if len(path) > 40 {
		return fmt.Sprintf(" %d moves ending in%s", len(path), pathString(path[len(path)-12:]))
	}
	s := ""
	for _, d := range path {
		s += " " + dirNames[d]
	}
	return s
}

// step makes one move and compares it with the model.
func (w *Worker) step(n *navigation.VtdNav, t *elemTree, idx []int, from int, dir navigation.Direction) (int, string) {
	want := func(pos int) int32 {
		if pos < 0 {
			return 0
		}
		return int32(idx[pos])
	}
	ok, err := n.ToElement(dir)
	w.transitions++
	pos, wok := from, false
	known := int(dir) >= 0 && int(dir) < len(directions)
	if known {
		pos, wok = t.move(from, dir)
		if err != nil {
			return pos, fmt.Sprintf("%s fails: %v", dirNames[dir], err)
		}
	} else if err == nil || ok {
		return pos, fmt.Sprintf("direction %d is not an error", dir)
	}
	cur, cerr := n.GetCurrentIndex()
	if cerr != nil {
		return pos, fmt.Sprintf("direction %d: current index fails: %v", dir, cerr)
	}
	if ok != wok || cur != want(pos) {
		return pos, fmt.Sprintf("direction %d says %v and is at token %d, expected %v at token %d", dir, ok, cur, wok, want(pos))
	}
	return pos, ""
}

// graph explores the states reached by up to length moves after path. States
// are copied for speed; a difference counts only if the moves that led to it
// show it on a new cursor as well.
func (w *Worker) graph(fresh func() *navigation.VtdNav, t *elemTree, idx []int, path []byte, limit, length int) string {
	type node struct {
		nav  *navigation.VtdNav
		pos  int
		path []byte
	}
	confirmed := func(path []byte, last navigation.Direction) string {
		n := fresh()
		pos, what := -1, ""
		for i, d := range path {
			if pos, what = w.step(n, t, idx, pos, navigation.Direction(d)); what != "" {
				return "after" + pathString(path[:i]) + ": " + what
			}
		}
		if _, what = w.step(n, t, idx, pos, last); what != "" {
			return "after" + pathString(path) + ": " + what
		}
		return ""
	}
	nav := fresh()
	if cur, err := nav.GetCurrentIndex(); err != nil || cur != 0 {
		return fmt.Sprintf("a new cursor is at token %d (%v)", cur, err)
	}
	pos := -1
	for i, d := range path {
		var what string
		if pos, what = w.step(nav, t, idx, pos, navigation.Direction(d)); what != "" {
			return "after" + pathString(path[:i]) + ": " + what
		}
	}
	seen := map[string]bool{navKey(nav, pos): true}
	queue := []node{{nav, pos, path}}
	dirs := append(append([]navigation.Direction{}, directions...), -1, 6, 7, 255, math.MaxInt32)
	for len(queue) > 0 {
		x := queue[0]
		queue = queue[1:]
		w.states++
		for _, dir := range dirs {
			n := cloneNav(x.nav)
			pos, what := w.step(n, t, idx, x.pos, dir)
			if what != "" {
				if what = confirmed(x.path, dir); what != "" {
					return what
				}
				continue
			}
			if len(x.path) >= len(path)+length {
				continue
			}
			key := navKey(n, pos)
			if !seen[key] && len(seen) < limit {
				seen[key] = true
				to := append(append(make([]byte, 0, len(x.path)+1), x.path...), byte(dir))
				queue = append(queue, node{n, pos, to})
			}
		}
	}
	if len(seen) >= limit {
		w.outcomes["graph capped"]++
		w.c.cap("a cursor graph")
	}
	w.outcomes["graph"]++
	return ""
}

func navPayload(extra, exp byte, d []byte) []byte { return append([]byte{extra, exp}, d...) }

func checkC15(c *Ctx) {
	max := pick(c, 8, 10)
	for n := 1; n <= max; n++ {
		var l [][]byte
		allTrees(n, 255, func(d []byte) { l = append(l, append([]byte{}, d...)) })
		c.Space(fmt.Sprintf("trees of %d", n), len(l), func(w *Worker, i int) {
			for _, extra := range []byte{0, 7} {
				w.Do("nav", navPayload(extra, 1, l[i]))
			}
			if n <= max-1 {
				for _, extra := range []byte{1, 2, 4} {
					w.Do("nav", navPayload(extra, 5, l[i]))
				}
			}
			if i%(len(l)/2+1) == 0 {
				c.Sample(fmt.Sprint("depths ", l[i]))
			}
		})
	}
	// under a chain, possibly with elements before and after on every level
	for n := 1; n <= pick(c, max-2, max-3); n++ {
		var l [][]byte
		allTrees(n, 255, func(d []byte) { l = append(l, append([]byte{}, d...)) })
		c.Space(fmt.Sprintf("trees of %d below a chain", n), len(l), func(w *Worker, i int) {
			for _, k := range []int{1, 2, 3, 4, 5, 6, 126, 127, 128, 249} {
				if k > 6 && n > 4 {
					continue
				}
				for style := 0; style < 4; style++ {
					if (k > 3 || n > 4) && style != 0 && !c.thorough {
						continue
					}
					var d []byte
					for j := 0; j < k; j++ {
						d = append(d, byte(j))
						if style&1 != 0 && j+1 <= k {
							d = append(d, byte(j+1)) // a childless element before
						}
					}
					for _, x := range l[i] {
						d = append(d, x+byte(k))
					}
					if style&2 != 0 {
						for j := k; j >= 1; j-- {
							d = append(d, byte(j), byte(j+1))
						}
					}
					if k <= 6 && (style == 0 || k < 4) {
						w.Do("nav", navPayload(4, 2, d))
						continue
					}
					length := pick(c, 4, 6)
					for down := k - 1; down <= k+2; down++ {
						if down == k+2 && n < 2 {
							continue
						}
						extra := byte(4)
						if style&1 != 0 {
							extra = 4 | 8 // the path is on the last children
						}
						w.Do("navdeep", append([]byte{extra, 3, byte(down), byte(length)}, d...))
					}
				}
			}
		})
	}
	// siblings with long chains of descendants between them
	var wide [][]byte
	for lvl := 1; lvl <= 8; lvl++ {
		for _, j := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 11} {
			for _, j2 := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 11} {
				for style := 0; style < 4; style++ {
					if j+j2 > 8 && (!c.thorough || j+j2 > 11) && (j > 0 && j2 > 0 || style != 0) || lvl+j > pick(c, 12, 14) || lvl+j2 > pick(c, 12, 14) {
						continue
					}
					var d []byte
					for k := 0; k < lvl; k++ {
						d = append(d, byte(k))
					}
					chain := func(n int) {
						for k := 0; k <= n; k++ {
							d = append(d, byte(lvl+k))
							if style == 1 && k > 0 { // two on every level
								d = append(d, byte(lvl+k))
							}
						}
						if style == 2 && n > 0 { // and back up step by step
							for k := n - 1; k > 0; k-- {
								d = append(d, byte(lvl+k))
							}
						}
					}
					chain(j)
					if style == 3 {
						chain(0)
					}
					chain(j2)
					chain(0)
					wide = append(wide, d)
				}
			}
		}
	}
	c.Space("chains between siblings", len(wide), func(w *Worker, i int) {
		d := wide[i]
		if len(d) <= pick(c, 11, 12) {
			w.Do("nav", navPayload(byte(i%2)*7, 1, d))
			return
		}
		top := byte(0) // levels above the siblings
		for int(top)+1 < len(d) && d[top+1] == top+1 {
			top++
		}
		for down := 0; down <= int(top); down++ {
			w.Do("navdeep", append([]byte{4, 3, byte(down), byte(pick(c, 6, 8))}, d...))
		}
	})
	// wide levels with and without children
	wide = nil
	for lvl := 1; lvl <= 6; lvl++ {
		for _, n := range []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 33} {
			for kids := 0; kids < 16; kids++ {
				if n > 9 && kids > 3 && (!c.thorough || n > 17) || n > 17 && kids == 3 {
					continue
				}
				var d []byte
				for j := 0; j < lvl; j++ {
					d = append(d, byte(j))
				}
				for j := 0; j < n; j++ {
					d = append(d, byte(lvl))
					if kids>>uint(j%4)&1 != 0 { // pattern of period 4
						d = append(d, byte(lvl+1))
						if j%3 == 0 {
							d = append(d, byte(lvl+1), byte(lvl+2))
						}
					}
				}
				wide = append(wide, d)
			}
		}
	}
	c.Space("wide levels", len(wide), func(w *Worker, i int) {
		w.Do("nav", navPayload(0, 3, wide[i]))
		if len(wide[i]) < 24 {
			w.Do("nav", navPayload(7, 1, wide[i]))
		}
	})
	c.navFar()
}

// record: one token record in all accessors.
func (w *Worker) record(pl []byte) string {
	v := int64(binary.LittleEndian.Uint64(pl[1:]))
	aware := pl[0] != 0
	exp := 1
	// behind and before other records
	vals := []int64{rec(ref.TDoc, 255, 0, 0), rec(ref.TStart, 0, 1, 1), v, rec(ref.TStart, 254, 77, 1<<29), rec(ref.TStart, 3, 5, 9)}
	e := longs(exp, nil)
	n, err := navigation.NewVtdNav(1, 0, 100, 4, common.FormatUtf8, aware, []byte("<a/>"), longs(exp, vals), e, e, e)
	if err != nil {
		return err.Error()
	}
	u := uint64(v)
	typ, depth, length, off := int(u>>60), int(u>>52&0xFF), int(u>>32&0xFFFFF), int(u&0xFFFFFFFF)
	if depth == 255 {
		depth = -1
	}
	switch typ {
	case ref.TStart, ref.TAttr, ref.TNs:
		pre, q := length>>11, length&0x7FF
		length = q
		if aware {
			length = pre<<16 | q
		}
	}
	for pass := 0; pass < 2; pass++ { // asking has no effect
		if g, err := n.GetTokenType(2); err != nil || int(g) != typ {
			return fmt.Sprintf("type of %016x is %d (%v), expected %d", u, g, err, typ)
		}
		if g, err := n.GetTokenDepth(2); err != nil || int(g) != depth {
			return fmt.Sprintf("depth of %016x is %d (%v), expected %d", u, g, err, depth)
		}
		if g, err := n.GetTokenOffset(2); err != nil || int(g) != off {
			return fmt.Sprintf("offset of %016x is %d (%v), expected %d", u, g, err, off)
		}
		if g, err := n.GetTokenLength(2); err != nil || int(g) != length {
			return fmt.Sprintf("length of %016x (namespace aware: %v) is %#x (%v), expected %#x", u, aware, g, err, length)
		}
	}
	if n.GetVtdBufferSize() != len(vals) {
		return fmt.Sprintf("buffer size %d", n.GetVtdBufferSize())
	}
	return ""
}

// texts: a sequence of text-like tokens; payload is 4 bytes per token: type,
// depth, gap, length class.
var textLengths = []int{0, 1, 7, ref.MaxToken}

func (w *Worker) texts(pl []byte) string {
	type tk struct{ typ, depth, off, n int }
	var l []tk
	v := []int64{rec(ref.TDoc, 255, 0, 0), rec(ref.TStart, 0, 1, 1)}
	end := 10
	for i := 0; i+4 <= len(pl); i += 4 {
		t := tk{int(pl[i]), int(pl[i+1]), end + int(pl[i+2]), textLengths[pl[i+3]]}
		end = t.off + t.n
		l = append(l, t)
		v = append(v, rec(t.typ, t.depth, t.n, t.off))
	}
	e := longs(1, nil)
	n, err := navigation.NewVtdNav(1, 0, 100, 4, common.FormatUtf8, true, []byte("<a/>"), longs(2, v), e, e, e)
	if err != nil {
		return err.Error()
	}
	for i, t := range l {
		want, claim := t.n, true
		if t.typ == ref.TText || t.typ == ref.TComment || t.typ == ref.TCdata {
			for j := i + 1; j < len(l); j++ {
				p, q := l[j-1], l[j]
				if q.typ != t.typ || q.depth != t.depth || q.off != p.off+p.n {
					break
				}
				if p.n != ref.MaxToken { // the parser splits only after a full part
					claim = false
				}
				want += q.n
			}
		}
		got, err := n.GetTokenLength(i + 2)
		if claim && (err != nil || int(got) != want) {
			return fmt.Sprintf("length of token %d of %+v is %d (%v), expected %d", i, l, got, err, want)
		}
	}
	return ""
}

// indexes: accessors around the ends of a buffer of pl[0] entries.
func (w *Worker) indexes(pl []byte) string {
	size, exp := int(pl[0]), int(pl[1])
	var v []int64
	for i := 0; i < size; i++ {
		v = append(v, rec(i%14, i, i+1, i+100))
	}
	e := longs(1, nil)
	n, err := navigation.NewVtdNav(1, 0, 100, 4, common.FormatUtf8, true, []byte("<a/>"), longs(exp, v), e, e, e)
	if err != nil {
		return err.Error()
	}
	for _, i := range append([]int{math.MinInt64, math.MaxInt64, math.MinInt32, math.MaxInt32, 1 << 32, -1 << 32, 1 << 62}, around(size+5)...) {
		in := i >= 0 && i < size
		for name, f := range map[string]func(int) error{
			"GetTokenType":         func(i int) error { _, err := n.GetTokenType(i); return err },
			"GetTokenDepth":        func(i int) error { _, err := n.GetTokenDepth(i); return err },
			"GetTokenOffset":       func(i int) error { _, err := n.GetTokenOffset(i); return err },
			"GetTokenLength":       func(i int) error { _, err := n.GetTokenLength(i); return err },
			"ToStringAtIndex":      func(i int) error { _, err := n.ToStringAtIndex(i); return err },
			"ToRawStringAtIndex":   func(i int) error { _, err := n.ToRawStringAtIndex(i); return err },
			"GetTokenLength again": func(i int) error { _, err := n.GetTokenLength(i); return err },
		} {
			if in && strings.HasPrefix(name, "To") {
				continue // offsets are outside the document
			}
			err := f(i)
			var ia *erroring.InvalidArgumentError
			if in && err != nil || !in && !errors.As(err, &ia) {
				return fmt.Sprintf("%s(%d) with %d tokens: %v", name, i, size, err)
			}
		}
	}
	return ""
}

func around(n int) []int {
	var l []int
	for i := -n; i <= n; i++ {
		l = append(l, i)
	}
	return l
}

func checkC16(c *Ctx) {
	depths := []int{0, 1, 2, 3, 127, 128, 253, 254, 255}
	lengths := []int{0, 1, 2, 3, 0x1F, 0x20, 0x7E, 0x7F, 0x80, 0xFF, 0x100, 0x3FF, 0x400, 0x7FE, 0x7FF, 0x800, 0x801, 0xFFF, 0x1000, 0x17FF, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x3FFFF, 0x40000, 0x7FFFF, 0x80000, 0xFF7FF, 0xFF800, 0xFFFFE, 0xFFFFF, 0x55555, 0xAAAAA}
	offs := []int{0, 1, 2, 0x7F, 0x80, 0xFF, 0x100, 0xFFFF, 0x10000, 0x7FFFFF, 0x800000, 0xFFFFFF, 0x1000000, 0x1FFFFFFF, 0x20000000, 0x3FFFFFFE, 0x3FFFFFFF, 0x15555555, 0x2AAAAAAA}
	for b := 0; b < 20; b++ {
		lengths = append(lengths, 1<<uint(b))
	}
	for b := 0; b < 30; b++ {
		offs = append(offs, 1<<uint(b))
	}
	c.Space("records", 14*len(depths), func(w *Worker, i int) {
		typ, d := i%14, depths[i/14]
		for _, l := range lengths {
			for _, o := range offs {
				w.states++
				w.transitions += 4
				for aware := byte(0); aware < 2; aware++ {
					pl := make([]byte, 9)
					pl[0] = aware
					binary.LittleEndian.PutUint64(pl[1:], uint64(rec(typ, d, l, o)))
					w.Do("record", pl)
				}
			}
		}
		c.Sample(fmt.Sprintf("record %016x", uint64(rec(typ, d, lengths[i%len(lengths)], offs[i%len(offs)]))))
	})
	if c.thorough {
		c.Space("all lengths and depths", 14*256, func(w *Worker, i int) {
			for l := 0; l < 1<<20; l += 1 + i%7 {
				w.states++
				pl := make([]byte, 9)
				pl[0] = byte(l & 1)
				binary.LittleEndian.PutUint64(pl[1:], uint64(rec(i%14, i/14, l, 5)))
				w.Do("record", pl)
				if c.Stop() {
					return
				}
			}
		})
	} else {
		c.Space("all lengths", 14*16, func(w *Worker, i int) {
			for l := i / 14; l < 1<<20; l += 16 * 9 {
				w.states++
				pl := make([]byte, 9)
				pl[0] = byte(l & 1)
				binary.LittleEndian.PutUint64(pl[1:], uint64(rec(i%14, l%256, l, 5)))
				w.Do("record", pl)
			}
		})
	}
	// text-like tokens
	var alpha [][]byte
	for _, typ := range []byte{ref.TText, ref.TComment, ref.TCdata, ref.TVal} {
		for _, d := range []byte{1, 2} {
			for _, gap := range []byte{0, 1} {
				for n := byte(0); n < 4; n++ {
					alpha = append(alpha, []byte{typ, d, gap, n})
				}
			}
		}
	}
	n := len(alpha)
	c.Space("text-like tokens", n*n, func(w *Worker, i int) {
		base := append(append([]byte{}, alpha[i/n]...), alpha[i%n]...)
		w.states++
		w.Do("texts", base)
		for _, x := range alpha {
			l := append(append([]byte{}, base...), x...)
			w.states++
			w.transitions++
			w.Do("texts", l)
			if c.thorough || (i/n)%4 == 3 && (i%n)%4 == 3 { // after full parts
				for _, y := range alpha {
					w.transitions++
					w.Do("texts", append(append([]byte{}, l...), y...))
				}
			}
		}
	})
	c.Space("indexes", 70*4, func(w *Worker, i int) {
		w.states++
		w.Do("index", []byte{byte(i / 4), byte([]int{0, 1, 2, 6}[i%4])})
	})
}

// resolveRef is the model of string extraction: the string of s, or an error;
// claim is false where nothing is claimed.
func resolveRefs(s string) (out string, bad, claim bool) {
	claim = true
	var b strings.Builder
	for i := 0; i < len(s); {
		if s[i] != '&' {
			b.WriteByte(s[i])
			i++
			continue
		}
		k := strings.IndexByte(s[i:], ';')
		if k < 0 {
			return "", true, claim
		}
		body := s[i+1 : i+k]
		i += k + 1
		switch body {
		case "lt":
			b.WriteByte('<')
			continue
		case "gt":
			b.WriteByte('>')
			continue
		case "amp":
			b.WriteByte('&')
			continue
		case "apos":
			b.WriteByte('\'')
			continue
		case "quot":
			b.WriteByte('"')
			continue
		}
		v, ok := refNumber(body)
		if !ok {
			return "", true, claim
		}
		if v < 0x20 && v != 9 && v != 10 && v != 13 && v != 0 || v >= 0x7F && v <= 0x9F {
			claim = false
		}
		if v == 0 || v >= 0xD800 && v <= 0xDFFF || v == 0xFFFE || v == 0xFFFF || v > 0x10FFFF {
			return "", true, claim
		}
		b.WriteRune(rune(v))
	}
	return b.String(), false, claim
}

// refNumber reads #123 or #x1F; false if malformed. Values stop at 0x110000.
func refNumber(s string) (int, bool) {
	if !strings.HasPrefix(s, "#") {
		return 0, false
	}
	s = s[1:]
	base := 10
	if strings.HasPrefix(s, "x") {
		base, s = 16, s[1:]
	}
	if s == "" {
		return 0, false
	}
	v := 0
	for _, c := range []byte(s) {
		d := -1
		switch {
		case c >= '0' && c <= '9':
			d = int(c - '0')
		case base == 16 && c >= 'a' && c <= 'f':
			d = int(c-'a') + 10
		case base == 16 && c >= 'A' && c <= 'F':
			d = int(c-'A') + 10
		}
		if d < 0 {
			return 0, false
		}
		if v = v*base + d; v > 0x10FFFF {
			v = 0x110000
		}
	}
	return v, true
}

// str: payload token type, encoding, offset, length, document.
func (w *Worker) str(pl []byte) string {
	typ, enc := int(pl[0]), common.FormatEncoding(pl[1])
	off, n := int(binary.LittleEndian.Uint16(pl[2:])), int(binary.LittleEndian.Uint16(pl[4:]))
	doc := pl[6:]
	aware := typ != ref.TAttr
	l := n
	if aware && typ == ref.TStart && n > 3 {
		l |= 2 << 11 // a prefix of two bytes
	}
	e := longs(1, nil)
	nav, err := navigation.NewVtdNav(1, 0, int32(len(doc)), 4, enc, aware, doc,
		longs(1, []int64{rec(ref.TDoc, 255, 0, 0), rec(typ, 1, l, off), rec(ref.TStart, 1, 1, off+n+3)}), e, e, e)
	if err != nil {
		return err.Error()
	}
	before := string(doc)
	raw := string(doc[off : off+n])
	want, bad, claim := resolveRefs(raw)
	if i := strings.LastIndexByte(raw, '&'); i >= 0 && !strings.Contains(raw[i:], ";") && off+n < len(doc) {
		claim = false // a reference that continues behind the range
	}
	if got, err := nav.ToRawStringAtIndex(1); err != nil || got != raw {
		return fmt.Sprintf("raw string of the token is %+q (%v), expected %+q", got, err, raw)
	}
	if got, err := nav.ToRawStringAtRange(int32(off), int32(n)); err != nil || got != raw {
		return fmt.Sprintf("raw string of the range is %+q (%v), expected %+q", got, err, raw)
	}
	for pass := 0; pass < 2; pass++ {
		var got string
		var err error
		where := "token"
		w2, bad2, claim2 := want, bad, claim
		if pass == 0 {
			got, err = nav.ToStringAtIndex(1)
			if typ != ref.TText && typ != ref.TVal {
				w2, bad2, claim2 = raw, false, true
			}
		} else {
			where = "range"
			got, err = nav.ToStringAtRange(int32(off), int32(n))
		}
		switch {
		case !claim2:
			w.outcomes["unknown"]++
		case bad2 && err == nil:
			return fmt.Sprintf("string of the %s is %+q, expected an error", where, got)
		case !bad2 && (err != nil || got != w2):
			return fmt.Sprintf("string of the %s is %+q (%v), expected %+q", where, got, err, w2)
		case bad2:
			w.outcomes["error"]++
		default:
			w.outcomes["string"]++
		}
	}
	if string(doc) != before {
		return "the document was modified"
	}
	return ""
}

// ranges: all ranges of one document, inside and outside.
func (w *Worker) ranges(pl []byte) string {
	doc := pl[1:]
	e := longs(1, nil)
	nav, err := navigation.NewVtdNav(1, 0, int32(len(doc)), 4, common.FormatEncoding(pl[0]), true, doc,
		longs(1, []int64{rec(ref.TDoc, 255, 0, 0), rec(ref.TStart, 0, 1, 1)}), e, e, e)
	if err != nil {
		return err.Error()
	}
	vals := append(around(len(doc)+3), math.MaxInt32, math.MaxInt32-1, math.MaxInt32-len(doc), math.MaxInt32-len(doc)+1, 1<<30, math.MinInt32, math.MinInt32+1)
	for _, off := range vals {
		for _, n := range vals {
			if n < 0 {
				continue // no claim
			}
			raw, rerr := nav.ToRawStringAtRange(int32(off), int32(n))
			res, serr := nav.ToStringAtRange(int32(off), int32(n))
			w.transitions += 2
			if n == 0 && (off < 0 || off > len(doc)) {
				continue // no bytes: no claim
			}
			if off < 0 || off+n > len(doc) {
				if rerr == nil || serr == nil {
					return fmt.Sprintf("range %d+%d is outside of %d bytes: raw %+q (%v), string %+q (%v)", off, n, len(doc), raw, rerr, res, serr)
				}
				continue
			}
			want := string(doc[off : off+n])
			if rerr != nil || raw != want {
				return fmt.Sprintf("raw string of %d+%d is %+q (%v), expected %+q", off, n, raw, rerr, want)
			}
			if !strings.Contains(want, "&") && (serr != nil || res != want) {
				return fmt.Sprintf("string of %d+%d is %+q (%v), expected %+q", off, n, res, serr, want)
			}
		}
	}
	return ""
}

func strPayload(typ, enc byte, pre, s, post string) []byte {
	b := make([]byte, 6, 6+len(pre)+len(s)+len(post))
	b[0], b[1] = typ, enc
	binary.LittleEndian.PutUint16(b[2:], uint16(len(pre)))
	binary.LittleEndian.PutUint16(b[4:], uint16(len(s)))
	return append(append(append(b, pre...), s...), post...)
}

func checkC17(c *Ctx) {
	frags := []string{"x", " ", "\n", "\u00e9", "\u20ac", "\U0001F600", ";", "#", "&lt;", "&gt;", "&amp;", "&apos;", "&quot;", "&#65;", "&#x41;", "&#xE9;", "&#8364;", "&#x1F600;", "&#0000065;", "&#x000041;", "<", "]", "\x80", "&", "&x;", "&#0;", "&#xD800;", "&;", "lt;"}
	n := len(frags)
	encs := []byte{byte(common.FormatAscii), byte(common.FormatUtf8)}
	places := [][2]string{{"", ""}, {"<a>", "</a>"}, {"&", ";"}, {"x", "lt;"}}
	depth := pick(c, 4, 5)
	c.Space("strings", n*n, func(w *Worker, i int) {
		var rec func(s string, left int)
		rec = func(s string, left int) {
			w.states++
			for pi, p := range places {
				for _, t := range []byte{ref.TText, ref.TVal} {
					if left < depth-3 && (pi > 1 || t == ref.TVal && pi == 1) {
						continue
					}
					w.Do("string", strPayload(t, encs[(int(t)+pi)%2], p[0], s, p[1]))
				}
			}
			if left == 0 {
				return
			}
			for _, f := range frags {
				w.transitions++
				rec(s+f, left-1)
			}
		}
		if i%n == 0 {
			w.Do("string", strPayload(ref.TText, 0, "", frags[i/n], ""))
			w.Do("string", strPayload(ref.TText, 1*byte(common.FormatUtf8), "<a>", frags[i/n], "<"))
		}
		if i == 0 {
			w.Do("string", strPayload(ref.TText, 0, "<a>", "", "</a>"))
		}
		rec(frags[i/n]+frags[i%n], depth-2)
		if i%(n*n/6) == 0 {
			c.Sample(frags[i/n] + frags[i%n])
		}
	})
	types := 14
	c.Space("token types", n*n*types, func(w *Worker, i int) {
		t := byte(i % types)
		i /= types
		w.states++
		for _, p := range places {
			for _, e := range encs {
				w.transitions++
				w.Do("string", strPayload(t, e, p[0], frags[i/n]+frags[i%n], p[1]))
				w.Do("string", strPayload(t, e, p[0], frags[i/n], p[1]))
				w.Do("string", strPayload(t, e, p[0], frags[i/n]+frags[i%n]+"x", p[1]))
			}
		}
	})
	ent := []byte("ltgampqosu;#x01 &D")
	m := len(ent)
	c.Space("after an ampersand", m*m, func(w *Worker, i int) {
		var rec func(s string, left int)
		rec = func(s string, left int) {
			w.states++
			for _, p := range [][2]string{{"x", ""}, {"", "</a>"}} {
				w.Do("string", strPayload(ref.TText, byte(common.FormatUtf8), p[0], s, p[1]))
			}
			w.Do("string", strPayload(ref.TText, byte(common.FormatUtf8), "", s+";y", ""))
			if left == 0 {
				return
			}
			for _, b := range ent {
				w.transitions++
				rec(s+string([]byte{b}), left-1)
			}
		}
		rec("&"+string([]byte{ent[i/m], ent[i%m]}), pick(c, 2, 3))
	})
	if !c.thorough {
		common.VerifIndex()
		c.Space("every code point", 0x110100/256, func(w *Worker, i int) {
			for v := i * 256; v < i*256+256; v++ {
				w.states++
				w.Do("string", strPayload(ref.TText, byte(common.FormatUtf8), "<a>", fmt.Sprintf("&#%d;&#x%x;", v, v), "</a>"))
				if v >= 0x80 && v <= 0x10FFFF && utf8.ValidRune(rune(v)) {
					w.Do("string", strPayload(ref.TVal, byte(common.FormatUtf8), "", string(rune(v))+"&lt;", ""))
				}
			}
		})
	}
	points := boundaryPoints(c.thorough)
	c.Space("code points", len(points), func(w *Worker, i int) {
		v := points[i]
		w.states++
		for _, f := range []string{"&#%d;", "&#x%x;", "a&#x%X;b", "&#00%d;&lt;", "\u00e9&#x00%x;&#%d;"} {
			s := ""
			if strings.Count(f, "%") == 2 {
				s = fmt.Sprintf(f, v, v)
			} else {
				s = fmt.Sprintf(f, v)
			}
			w.Do("string", strPayload(ref.TText, byte(common.FormatUtf8), "<a>", s, "</a>"))
			w.Do("string", strPayload(ref.TVal, byte(common.FormatAscii), "", s, ""))
		}
		if v >= 0x80 && v <= 0x10FFFF && utf8.ValidRune(rune(v)) {
			w.Do("string", strPayload(ref.TText, byte(common.FormatUtf8), "<a>", string(rune(v))+"&amp;"+string(rune(v)), "</a>"))
		}
	})
	var nums []string
	for _, lead := range []string{"1", "8", "F", "10", "FF", "FFFF", "100000"} {
		for _, width := range []int{5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 32, 64, 300} {
			for _, v := range []string{"0", "41", "10FFFF", "D800"} {
				if z := width - len(v); z >= 0 {
					nums = append(nums, "&#x"+lead+strings.Repeat("0", z)+v+";", "&#x"+strings.Repeat("0", z)+v+";")
				}
			}
		}
	}
	for _, base := range []string{"4294967296", "8589934592", "18446744073709551616", "36893488147419103232", "2147483648", "1114112", "16777216"} {
		for _, add := range []int{0, 9, 65} {
			nums = append(nums, "&#"+addDecimal(base, add)+";", "&#"+strings.Repeat("0", 40)+addDecimal(base, add)+";")
		}
	}
	c.Space("numbers of any size", len(nums), func(w *Worker, i int) {
		w.states++
		w.Do("string", strPayload(ref.TText, byte(common.FormatUtf8), "<a>", nums[i], "</a>"))
		w.Do("string", strPayload(ref.TText, byte(common.FormatAscii), "", nums[i]+"x", ""))
	})
	docs := []string{"a", "ab", "abc", "<a/>", "\u00e9x\u20ac", "x\n\ty", "abcdefgh", "<a>&lt;x</a>"}
	c.Space("ranges", len(docs)*2, func(w *Worker, i int) {
		w.states++
		w.Do("ranges", append([]byte{encs[i%2]}, docs[i/2]...))
	})
	// the strings of all tokens of documents
	c.fam = "strings"
	var s []string
	lens := []int{2, 3, 15, 16, 31, 32, 63, 64, 127, 128, 129, 255, 256, 257, 511, 512, 1022, 1023, 1024, 1025, 1500, 2045, 2046, 2047}
	for _, l := range lens {
		for where := 0; where <= 6; where++ {
			for _, pre := range append([]int{0, 509, 510, 511}, lens...) {
				if pre < l-1 && pre <= ref.MaxPrefix && !(where == 3 && pre > 0) {
					s = append(s, spec("longname", l, pre, -1, where))
				}
			}
		}
	}
	mx := ref.MaxToken
	for kind := 0; kind <= 29; kind++ {
		if kind == 5 {
			continue
		}
		for e := 1; e <= pick(c, 16, 20); e++ {
			for d := -1; d <= 1; d++ {
				s = append(s, spec("fill", kind, 1<<uint(e)+d))
			}
		}
		s = append(s, spec("fill", kind, mx-1), spec("fill", kind, mx))
	}
	for _, kind := range []int{0, 2, 3, 11, 12, 14, 18, 21, 25, 26, 27, 29} {
		for _, k := range []int{1, 2, 3} {
			for d := -1; d <= 2; d++ {
				if c.thorough || d > 0 && k < 3 {
					s = append(s, spec("fill", kind, k*mx+d))
				}
			}
		}
	}
	for l := 1; l <= 300; l += 13 {
		for form := 0; form <= 4; form++ {
			s = append(s, spec("siblings", l, form, -1))
		}
		s = append(s, spec("attrs", l, 0, -1, 0), spec("chain", l%255+1, 0, 0), spec("pad", l*997))
	}
	c.specs("strings of generated documents", s, []byte{0, oNs})
	c.docs("strings of seed documents", len(seedDocs), []byte{0, oNs}, func(i int, emit func(string)) {
		d := seedDocs[i]
		emit(d)
		for k := range d {
			for _, x := range []string{" ", "x", "\u00e9", "\u20ac", "\U0001F600", "&lt;", "&#65;", "&#x1F600;", "]", "\n"} {
				emit(d[:k] + x + d[k:])
			}
			emit(d[:k] + d[k+1:])
		}
	})
	c.sizes(17, 0, oNs)
	c.deep(0, oNs)
	c.farNavs("farstrings", 17, 26, 9, 4)
	c.varied(func(c *Ctx) { c.deep(0, oNs) }, 7, 8, 9, 10, 11)
	c.shrink, c.few = 2, 3
	if c.thorough {
		c.shrink, c.few = 1, 1
	}
	c.others("C04", "C05", "C06")
}

// navOf parses an acceptable document and builds a cursor for it; nil if the
// document is not acceptable, or the parser does not accept it (a matter of
// other properties).
func (w *Worker) navOf(d []byte, opts byte) (*navigation.VtdNav, *ref.Result, string) {
	if len(d) == 0 {
		return nil, nil, ""
	}
	r := w.eng.ref.Parse(d, opts&oNs != 0)
	if r.Verdict != ref.Accept || strings.IndexByte(string(d), '\r') >= 0 {
		w.outcomes["not accepted"]++
		return nil, nil, ""
	}
	return w.navAt(d, 0, len(d), &r, opts)
}

// navAt does the same for the window [off, off+n) of d, of which r is the
// model's result.
func (w *Worker) navAt(d []byte, off, n int, r *ref.Result, opts byte) (*navigation.VtdNav, *ref.Result, string) {
	o := runParser(d, off > 0 || n < len(d), off, n, opts|oLc5)
	if !o.accepted() {
		w.outcomes["not accepted"]++
		return nil, nil, "" // other properties
	}
	w.outcomes["walked"]++
	st := o.p.VerifState()
	aware := opts&oNs != 0
	max := 0
	for _, t := range r.Tokens {
		if t.Depth > max {
			max = t.Depth
		}
	}
	nav, err := navigation.NewVtdNav(int32(st.RootIndex), int32(off), int32(n), int32(max), st.Encoding, aware, d, st.Vtd, st.L1, st.L2, st.L3)
	if err != nil {
		return nil, nil, err.Error()
	}
	return nav, r, ""
}

// stringsDoc compares the strings of all tokens.
func (w *Worker) stringsDoc(d []byte, opts byte) string {
	nav, r, what := w.navOf(d, opts)
	if nav == nil {
		return what
	}
	return tokenStrings(nav, r, d)
}

// tokenStrings compares the raw and resolved strings of all tokens.
func tokenStrings(nav *navigation.VtdNav, r *ref.Result, d []byte) string {
	crlfKnown()
	if nav.GetVtdBufferSize() != len(r.Tokens) {
		return fmt.Sprintf("%d tokens, expected %d", nav.GetVtdBufferSize(), len(r.Tokens))
	}
	for i, t := range r.Tokens {
		if t.Type == ref.TDoc || t.AnyOff {
			continue
		}
		raw := string(d[t.Off : t.Off+t.Len])
		if t.Type == ref.TText || t.Type == ref.TComment || t.Type == ref.TCdata {
			for j := i + 1; j < len(r.Tokens) && r.Tokens[j-1].Len == ref.MaxToken && r.Tokens[j].Type == t.Type && r.Tokens[j].Off == r.Tokens[j-1].Off+ref.MaxToken; j++ {
				raw += string(d[r.Tokens[j].Off : r.Tokens[j].Off+r.Tokens[j].Len])
			}
		}
		bytes := raw
		raw = lineEnds(bytes, rawDoubled)
		if got, err := nav.ToRawStringAtIndex(i); err != nil || got != raw {
			return fmt.Sprintf("raw string of token %d (%+v) is %+q (%v), expected %+q", i, t, clipStr(got), err, clipStr(raw))
		}
		want, bad, claim := raw, false, true
		if t.Type == ref.TText || t.Type == ref.TVal {
			want, bad, claim = resolveRefs(lineEnds(bytes, strDoubled))
		}
		if !claim || bad {
			continue
		}
		if got, err := nav.ToStringAtIndex(i); err != nil || got != want {
			return fmt.Sprintf("string of token %d (%+v) is %+q (%v), expected %+q", i, t, clipStr(got), err, clipStr(want))
		}
	}
	return ""
}

// walkDoc parses, builds a cursor and walks.
func (w *Worker) walkDoc(d []byte, opts byte) string {
	nav, r, what := w.navOf(d, opts)
	if nav == nil {
		return what
	}
	if what := tokenStrings(nav, r, d); what != "" {
		return what
	}
	return w.walkNav(nav, r)
}

// walkNav walks all elements in document order, and backwards.
func (w *Worker) walkNav(nav *navigation.VtdNav, r *ref.Result) string {
	var elems []int
	var depths []byte
	for i, t := range r.Tokens {
		if t.Type == ref.TStart {
			elems = append(elems, i)
			depths = append(depths, byte(t.Depth))
		}
	}
	for _, dirs := range [][2]navigation.Direction{{navigation.FirstChild, navigation.NextSibling}, {navigation.LastChild, navigation.PrevSibling}} {
		var order []int
		if ok, err := nav.ToElement(navigation.Root); !ok || err != nil {
			return fmt.Sprintf("move to root: %v %v", ok, err)
		}
		steps := 0
	walk:
		for {
			cur, err := nav.GetCurrentIndex()
			if err != nil {
				return err.Error()
			}
			order = append(order, int(cur))
			if len(order) > len(elems) {
				break
			}
			down, err := nav.ToElement(dirs[0])
			if err != nil {
				return err.Error()
			}
			w.transitions++
			if down {
				continue
			}
			for {
				if steps++; steps > 10*len(elems)+100 {
					return "the walk does not end"
				}
				side, err := nav.ToElement(dirs[1])
				if err != nil {
					return err.Error()
				}
				if side {
					break
				}
				up, err := nav.ToElement(navigation.Parent)
				if err != nil {
					return err.Error()
				}
				if !up {
					break walk
				}
				if cur, _ := nav.GetCurrentIndex(); cur == 0 {
					break walk
				}
			}
		}
		want := elems
		if dirs[0] == navigation.LastChild {
			want = lastFirst(elems, buildTree(depths))
		}
		if fmt.Sprint(order) != fmt.Sprint(want) {
			return fmt.Sprintf("walk by %s/%s visits tokens %v, expected %v", dirNames[dirs[0]], dirNames[dirs[1]], clipInts(order), clipInts(want))
		}
	}
	return ""
}

func clipStr(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

func clipInts(l []int) []int {
	if len(l) > 80 {
		return l[:80]
	}
	return l
}

// lastFirst is the order of a walk that takes the last child first.
func lastFirst(elems []int, t *elemTree) []int {
	var out []int
	var rec func(i int)
	rec = func(i int) {
		out = append(out, elems[i])
		for k := t.last[i]; k >= 0; k = t.prev[k] {
			rec(k)
		}
	}
	rec(0)
	return out
}

func checkC26(c *Ctx) {
	c.fam = "walk"
	trees := func(c *Ctx) {
		c.fragTree("documents", []string{"", "<?xml version='1.0'?><r a='1'>"}, []string{"<a>", "<b x=\"&lt;1\">", "<p:c xmlns:p='u'>", "<d/>", "</a>", "</b>", "</p:c>", "t", "&amp;", "\u00e9", " ", "<!--c-->", "<?p v?>", "<![CDATA[]]]>", "\n"}, 5, 6, 0, oNs)
		c.fragTree("elements", []string{"<r>", "<r><s>"}, []string{"<a>", "</a>", "<b/>", "x", "<c>", "</c>"}, 8, 10, 0)
	}
	trees(c)
	max := pick(c, 9, 11)
	for n := 1; n <= max; n++ {
		var l [][]byte
		allTrees(n, 255, func(d []byte) { l = append(l, append([]byte{}, d...)) })
		c.Space(fmt.Sprintf("trees of %d", n), len(l), func(w *Worker, i int) {
			w.states++
			for form := byte(0); form <= 3; form++ {
				w.runDoc("walk", []byte(renderTree(form, l[i], 0)), "", byte(0))
			}
			w.runDoc("walk", []byte(renderTree(3, l[i], 1100)), "", oNs)
		})
	}
	var s []string
	for n := 1; n <= 255; n++ {
		s = append(s, spec("chain", n, 0, 0))
	}
	for l := 1; l <= 7; l++ {
		for _, n := range []int{1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 257, 513} {
			for _, kids := range []int{0, 1, 2, 3} {
				s = append(s, spec("level", l, n, kids))
			}
		}
	}
	for n := 1; n <= 600; n++ {
		if n > 70 && n%64 > 2 && n%64 < 62 {
			continue
		}
		for form := 0; form <= 4; form++ {
			s = append(s, spec("siblings", n, form, -1))
		}
		s = append(s, spec("pad", n*100))
	}
	m := ref.MaxToken
	for _, kind := range []int{0, 1, 2, 3, 14, 25} {
		for _, n := range []int{1, 100, m - 1, m, m + 1, 2 * m, 2*m + 1} {
			s = append(s, spec("fill", kind, n))
		}
	}
	for _, n := range []int{2, 3, 64, 255, 256, 510, 511, 2046, 2047} {
		for _, pre := range []int{0, 1, n / 2, n - 2} {
			if pre >= 0 && pre < n-1 && pre < 512 {
				s = append(s, spec("longname", n, pre, -1, 0), spec("longname", n, pre, -1, 2))
			}
		}
	}
	s = append(s, lateSpecs(c)...)
	c.specs("large documents", s, []byte{0, oNs})
	c.docs("seed documents", len(seedDocs), []byte{0, oNs}, func(i int, emit func(string)) {
		d := seedDocs[i]
		emit(d)
		for k := range d {
			for _, x := range []string{" ", "x", "\u00e9", "<!--c-->", "&lt;", "<z/>", "<z>", "&#65;"} {
				emit(d[:k] + x + d[k:])
			}
			emit(d[:k] + d[k+1:])
		}
	})
	c.sizes(26, 0, oNs)
	c.deep(0, 0)
	c.sizes(9, oNs)
	c.sizes(4, 0)
	c.repeats(0, len(repeatForms), oNs)
	c.farNavs("farwalk", 26, 9, 4, 2)
	c.varied(func(c *Ctx) {
		trees(c)
		c.deep(0, oNs)
	}, 0, 1, 5, 6, 7, 8, 9, 10, 11)
}
