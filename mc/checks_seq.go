package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/buffer"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
)

// Long histories: many documents parsed (and read) one after another in one
// process, in one order and in the opposite one, so that every document
// comes after every other one at least once; and all ordered pairs of some of
// them directly one after another. What is seen of a document must be the
// same each time.

const (
	seqNav   = 1 // look at strings and moves, too
	seqReuse = 2 // all documents in one buffer
)

func init() {
	families["collect"] = func(w *Worker, pl []byte) string { return w.collect(pl) }
	families["gencollect"] = viaGen(func(w *Worker, d []byte, opts byte) string {
		return w.collect(append([]byte{opts}, d...))
	})
	families["sequence"] = func(w *Worker, pl []byte) string { return sequence(pl) }
	readers["sequence"] = func(pl []byte) string {
		l := splitDocs(pl[1:])
		s := fmt.Sprintf("one after another in one process (mode %d):", pl[0])
		for i, d := range l {
			if i >= 3 && i < len(l)-1 {
				if i == 3 {
					s += fmt.Sprintf(" (%d more)", len(l)-4)
				}
				continue
			}
			if len(d) > 0 {
				s += fmt.Sprintf(" %+q (options %d)", d[1:], d[0])
			}
		}
		return s
	}
}

var collected struct {
	sync.Mutex
	l []string
}

const maxCollected = 3 << 20

func (w *Worker) collect(pl []byte) string {
	if len(pl) > 1 && len(pl) < 4096 {
		s := string(pl)
		collected.Lock()
		if len(collected.l) < maxCollected {
			collected.l = append(collected.l, s)
		}
		collected.Unlock()
	}
	return ""
}

// collectDocs lists what run explores.
func (c *Ctx) collectDocs(run func()) []string {
	if c.session {
		return nil
	}
	type stats struct{ states, transitions, traces int64 }
	var keep []stats
	for _, w := range c.workers {
		keep = append(keep, stats{w.states, w.transitions, w.traces})
	}
	spaces, seconds, fam := c.spaces, c.seconds, c.fam
	c.spaces, c.seconds, c.fam = map[string]int64{}, map[string]float64{}, "collect"
	collected.l = nil
	run()
	c.spaces, c.seconds, c.fam = spaces, seconds, fam
	for i, w := range c.workers {
		w.states, w.transitions, w.traces = keep[i].states, keep[i].transitions, keep[i].traces
	}
	l := collected.l
	collected.l = nil
	sort.Strings(l)
	out := l[:0]
	for i, d := range l {
		if i == 0 || d != l[i-1] {
			out = append(out, d)
		}
	}
	return out
}

func joinDocs(out []byte, l []string) []byte {
	for _, d := range l {
		out = binary.AppendUvarint(out, uint64(len(d)))
		out = append(out, d...)
	}
	return out
}

func splitDocs(b []byte) (l []string) {
	for len(b) > 0 {
		n, k := binary.Uvarint(b)
		if k <= 0 || uint64(len(b)-k) < n {
			return
		}
		l = append(l, string(b[k:k+int(n)]))
		b = b[k+int(n):]
	}
	return
}

// quickPrint is a number for all that is seen of a parse.
func quickPrint(o *outcome) uint64 {
	h := fnv.New64a()
	if !o.accepted() {
		io.WriteString(h, fingerprint(o))
		return h.Sum64()
	}
	var b [8]byte
	put := func(v int64) {
		binary.LittleEndian.PutUint64(b[:], uint64(v))
		h.Write(b[:])
	}
	st := o.p.VerifState()
	for _, l := range []buffer.LongBuffer{st.Vtd, st.L1, st.L2, st.L3, st.L4, st.L5} {
		if l == nil {
			continue
		}
		n := l.GetSize()
		put(int64(n))
		for i := 0; i < n; i++ {
			v, err := l.LongAt(i)
			if err != nil {
				return 1
			}
			put(v)
		}
	}
	put(int64(st.RootIndex))
	put(int64(st.VtdDepth))
	put(int64(st.Encoding))
	return h.Sum64()
}

// cursorOn makes a cursor for an accepted document.
func cursorOn(o *outcome, doc []byte) *navigation.VtdNav {
	st := o.p.VerifState()
	if st.L1 == nil || st.L5 == nil {
		return nil
	}
	max := 0
	n, err := navigation.NewVtdNav(int32(st.RootIndex), 0, int32(len(doc)), 0, st.Encoding, true, doc, st.Vtd, st.L1, st.L2, st.L3)
	if err != nil {
		return nil
	}
	for i := 0; i < st.Vtd.GetSize(); i++ {
		if t, err := n.GetTokenType(i); err == nil && common.Token(t) == common.TokenStartingTag {
			if d, err := n.GetTokenDepth(i); err == nil && int(d) > max {
				max = int(d)
			}
		}
	}
	n, err = navigation.NewVtdNav(int32(st.RootIndex), 0, int32(len(doc)), int32(max), st.Encoding, true, doc, st.Vtd, st.L1, st.L2, st.L3)
	if err != nil {
		return nil
	}
	return n
}

// navPrint adds what a cursor reads and where it goes.
func navPrint(n *navigation.VtdNav, doc []byte) (sum uint64) {
	h := fnv.New64a()
	defer func() {
		if r := recover(); r != nil {
			fmt.Fprint(h, r)
			sum = h.Sum64()
		}
	}()
	io.WriteString(h, allReads(n, len(doc)))
	left := 300
	move := func(d navigation.Direction) bool {
		ok, err := n.ToElement(d)
		k, _ := n.GetCurrentIndex()
		fmt.Fprint(h, d, ok, k, err == nil)
		left--
		return ok && err == nil && left > 0
	}
	move(navigation.Root)
	var walk func()
	walk = func() {
		if move(navigation.FirstChild) {
			for walk(); move(navigation.NextSibling); {
				walk()
			}
			move(navigation.PrevSibling)
			move(navigation.Parent)
			if move(navigation.LastChild) {
				move(navigation.Parent)
			}
		}
	}
	walk()
	return h.Sum64()
}

type seqRun struct {
	mode int
	buf  []byte
}

type seen1 struct {
	o   outcome
	n   *navigation.VtdNav
	doc []byte
	sum uint64
}

func (s *seqRun) look(d string) (r seen1) {
	if s.mode&seqReuse != 0 {
		s.buf = append(s.buf[:0], d[1:]...)
		if cap(s.buf) < 8192 {
			s.buf = append(make([]byte, 0, 8192), s.buf...)
		}
		r.doc = s.buf
	} else {
		r.doc = []byte(d[1:])
	}
	r.o = runParser(r.doc, false, 0, 0, d[0])
	if s.mode&seqNav != 0 && r.o.accepted() {
		r.n = cursorOn(&r.o, r.doc)
	}
	r.sum = r.print()
	return
}

func (r *seen1) print() uint64 {
	v := quickPrint(&r.o)
	if r.n != nil {
		v = v*31 + navPrint(r.n, r.doc)
	}
	return v
}

// orderRun is the mode of the program that runs a sequence: "mode,what,file".
// It writes the numbers of the documents in the order they are parsed; for
// pairs, the first pair that differs from the expected numbers.
func orderRun(arg string) {
	xmlChar()
	f := strings.SplitN(arg, ",", 4)
	mode, _ := strconv.Atoi(f[0])
	b, err := os.ReadFile(f[len(f)-1])
	if err != nil {
		os.Exit(2)
	}
	l := splitDocs(b)
	capture() // what the library writes is not mixed with the numbers
	s := &seqRun{mode: mode}
	var num [8]byte
	one := func(d string) {
		r := s.look(d)
		binary.LittleEndian.PutUint64(num[:], r.sum)
		realOut.Write(num[:])
	}
	switch f[1] {
	case "f":
		for _, d := range l {
			one(d)
		}
	case "b":
		for i := len(l) - 1; i >= 0; i-- {
			one(l[i])
		}
	default: // pairs i, j with i in part k of n
		var k, n int
		fmt.Sscanf(f[1], "p%d/%d", &k, &n)
		want := make([]uint64, len(l)/2)
		docs := l[:len(l)/2]
		for i := range want {
			want[i] = binary.LittleEndian.Uint64([]byte(l[len(docs)+i]))
		}
		for i := k; i < len(docs); i += n {
			for j := range docs {
				x := s.look(docs[i])
				y := s.look(docs[j])
				if x.sum != want[i] || y.sum != want[j] || x.print() != want[i] {
					fmt.Fprintf(realOut, "%d %d", i, j)
					return
				}
			}
		}
	}
}

// runOrder runs a sequence in a process of its own.
func runOrder(mode int, what string, data []byte, limit time.Duration) ([]byte, error) {
	f, err := os.CreateTemp("", "seq")
	if err != nil {
		return nil, nil
	}
	defer os.Remove(f.Name())
	f.Write(data)
	f.Close()
	return runOrderFile(mode, what, f.Name(), limit)
}

var errSlow = errors.New("too slow")

func runOrderFile(mode int, what, file string, limit time.Duration) ([]byte, error) {
	cmd := exec.Command(os.Args[0], "-orderrun", fmt.Sprintf("%d,%s,%s", mode, what, file))
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=400")
	var out, errOut bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errOut
	if err := cmd.Start(); err != nil {
		return nil, errSlow
	}
	t := time.AfterFunc(limit, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	if !t.Stop() {
		return out.Bytes(), errSlow
	}
	if err != nil {
		for _, l := range strings.Split(errOut.String(), "\n") {
			if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
				return out.Bytes(), errors.New(l)
			}
		}
		return out.Bytes(), err
	}
	return out.Bytes(), nil
}

// lastOf gives the number of the last document of a sequence.
func lastOf(mode int, l []string) (string, bool) {
	out, err := runOrder(mode, "f", joinDocs(nil, l), 60*time.Second)
	switch {
	case err == errSlow:
		return "", false
	case err != nil:
		return "the process dies: " + err.Error(), true
	case len(out) != 8*len(l):
		return "", false
	}
	return fmt.Sprintf("%x", out[len(out)-8:]), true
}

// sequence compares the last document of a sequence with itself alone.
func sequence(pl []byte) string {
	l := splitDocs(pl[1:])
	if len(l) < 2 {
		return ""
	}
	last := l[len(l)-1:]
	alone, ok := lastOf(int(pl[0]), last)
	if !ok {
		return ""
	}
	after, ok := lastOf(int(pl[0]), l)
	if !ok || after == alone {
		return ""
	}
	if strings.HasPrefix(after, "the process") {
		return "after the others " + after + ", alone it does not"
	}
	return fmt.Sprintf("what is seen of the last document (verdict, tokens, caches or reads, as a number) is %s, alone in a new process it is %s", after, alone)
}

// reduce looks for few documents before last that change what is seen of it.
func (w *Worker) reduce(mode int, before []string, last string) {
	alone, ok := lastOf(mode, []string{last})
	if !ok {
		return
	}
	bad := func(l []string) bool {
		s, ok := lastOf(mode, append(append([]string{}, l...), last))
		return ok && s != alone
	}
	// the shortest end of before, then its shortest beginning
	for n := 4; ; n *= 8 {
		if n >= len(before) {
			if !bad(before) {
				return
			}
			break
		}
		if bad(before[len(before)-n:]) {
			before = before[len(before)-n:]
			break
		}
	}
	lo := sort.Search(len(before), func(k int) bool { return !bad(before[k:]) })
	if lo > 0 {
		before = before[lo-1:]
	}
	hi := sort.Search(len(before), func(k int) bool { return bad(before[:k+1]) })
	if hi < len(before) && bad(before[:hi+1]) {
		before = before[:hi+1]
	}
	for n := len(before) / 2; n > 0 && len(before) > 1; n /= 2 {
		for k := 0; k+n <= len(before); {
			less := append(append([]string{}, before[:k]...), before[k+n:]...)
			if len(less) > 0 && bad(less) {
				before = less
			} else {
				k += n
			}
			if w.c.Stop() {
				break
			}
		}
		if len(before) > 4096 {
			break
		}
	}
	w.Do("sequence", joinDocs([]byte{byte(mode)}, append(append([]string{}, before...), last)))
}

// sequences runs docs in both orders and all ordered pairs of about few.
func (c *Ctx) sequences(docs []string, mode, few int) {
	if c.session || len(docs) == 0 {
		return
	}
	dir, err := os.MkdirTemp("", "seq")
	if err != nil {
		c.cap("long histories")
		return
	}
	defer os.RemoveAll(dir)
	limit := time.Until(c.deadline)
	file := filepath.Join(dir, "docs")
	if os.WriteFile(file, joinDocs(nil, docs), 0o644) != nil {
		c.cap("long histories")
		return
	}
	var some []string
	step := (len(docs) + few - 1) / few
	for i := step / 2; i < len(docs); i += step {
		some = append(some, docs[i])
	}
	parts := len(c.workers)
	if parts > 6 {
		parts = 6
	}
	var outs [2][]byte
	var errs [2]error
	nums := make([]string, len(some))
	c.Space("documents alone", len(some), func(w *Worker, i int) {
		out, err := runOrder(mode, "f", joinDocs(nil, some[i:i+1]), 30*time.Second)
		if err == nil && len(out) == 8 {
			nums[i] = string(out)
			w.traces++
			w.states++
		}
	})
	known := some[:0:0]
	var expect []string
	for i, n := range nums {
		if n != "" {
			known = append(known, some[i])
			expect = append(expect, n)
		}
	}
	pairFile := filepath.Join(dir, "pairs")
	os.WriteFile(pairFile, joinDocs(joinDocs(nil, known), expect), 0o644)
	c.Space("long histories and direct successors", parts+2, func(w *Worker, i int) {
		if i < 2 {
			m := mode
			if i == 1 {
				m |= seqReuse
			}
			outs[i], errs[i] = runOrderFile(m, []string{"f", "b"}[i], file, limit)
			w.states += int64(len(outs[i]) / 8)
			w.transitions += int64(len(outs[i]) / 8)
			w.traces += int64(len(outs[i]) / 8)
			if errs[i] == errSlow {
				c.cap("long histories")
			}
			return
		}
		out, err := runOrderFile(mode, fmt.Sprintf("p%d/%d", i-2, parts), pairFile, limit)
		switch {
		case err == errSlow:
			c.cap("direct successors")
		case err != nil:
			w.outcome("a run over pairs failed")
		case len(out) == 0:
			n := int64(len(known)) * int64(len(known)/parts)
			w.states += n
			w.transitions += 2 * n
			w.traces += 2 * n
		default:
			var x, y int
			fmt.Sscan(string(out), &x, &y)
			before := c.found()
			w.Do("sequence", joinDocs([]byte{byte(mode)}, []string{known[x], known[y]}))
			if c.found() == before { // needs more of what ran before
				var l []string
				for a := i - 2; a < x; a += parts {
					for b := range known {
						l = append(l, known[a], known[b])
					}
				}
				for b := 0; b <= y; b++ {
					l = append(l, known[x], known[b])
				}
				w.reduce(mode, l[:len(l)-1], known[y])
				w.reduce(mode, l[:len(l)-2], known[x])
			}
		}
	})
	n := len(docs)
	done := [2]int{len(outs[0]) / 8, len(outs[1]) / 8}
	at := func(dir, i int) []byte {
		if dir == 1 {
			i = n - 1 - i
		}
		if i >= done[dir] {
			return nil
		}
		return outs[dir][8*i : 8*i+8]
	}
	back := func(i int) (l []string) {
		for k := n - 1; k > i; k-- {
			l = append(l, docs[k])
		}
		return
	}
	c.Space("differences between the orders", 1, func(w *Worker, _ int) {
		found, start := 0, c.found()
		for i := 0; i < n && found < 3 && c.found() == start; i++ {
			a, b := at(0, i), at(1, i)
			if a == nil || b == nil || bytes.Equal(a, b) {
				continue
			}
			found++
			alone, _ := lastOf(mode, docs[i:i+1])
			if fmt.Sprintf("%x", a) != alone {
				w.reduce(mode, docs[:i], docs[i])
			} else {
				w.reduce(mode|seqReuse, back(i), docs[i])
			}
		}
		for d, err := range errs {
			if err == nil || err == errSlow || done[d] >= n {
				continue
			}
			if d == 0 {
				w.reduce(mode, docs[:done[0]], docs[done[0]])
			} else {
				w.reduce(mode|seqReuse, back(n-1-done[1]), docs[n-1-done[1]])
			}
		}
		if len(docs) > 5 {
			c.Sample(readers["sequence"](joinDocs([]byte{byte(mode)}, []string{docs[n/2], docs[n/3]})))
		}
	})
}

func (c *Ctx) found() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.viol)
}
