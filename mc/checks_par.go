package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/buffer"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/parser"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/reader"
)

func init() {
	register("C13", "all schedules of two parsers with up to 2 (thorough 3) preemptions at the calls of their readers, for all pairs of 27 documents; all ordered triples of 35 parses; documents in write-protected memory and with captured output over the spaces of C02-C10 four levels less deep, all size, depth and limit families and five variants of the edited documents; all of those documents one after another in one process in both orders, and all ordered pairs of 1000 (thorough 2500) of them directly one after another; happens-before analysis of parallel parsers at two rhythms",
		checkC13)
	families["schedule"] = func(w *Worker, pl []byte) string { return w.schedule(pl) }
	families["history"] = func(w *Worker, pl []byte) string { return w.history(pl) }
	families["calm"] = func(w *Worker, pl []byte) string { return w.calm(pl[1:], pl[0]) }
	readers["calm"] = readers["doc"]
	families["gencalm"] = func(w *Worker, pl []byte) string {
		d, ok := genDoc(string(pl[1:]))
		if !ok {
			return ""
		}
		return w.calm([]byte(d), pl[0])
	}
	families["race"] = func(w *Worker, pl []byte) string { return w.race(pl) }
	readers["race"] = func(pl []byte) string {
		return fmt.Sprintf("parsing %+q and %+q in parallel", parDocs[pl[0]][1:], parDocs[pl[1]][1:])
	}
	readers["schedule"] = func(pl []byte) string {
		s := fmt.Sprintf("parsers of %+q and %+q, steps:", parDocs[pl[0]][1:], parDocs[pl[1]][1:])
		for i := 3; i+2 <= len(pl); i += 2 {
			s += fmt.Sprintf(" %s %d", []string{"first", "second"}[(int(pl[2])+(i-3)/2)%2], binary.LittleEndian.Uint16(pl[i:]))
		}
		return s
	}
	readers["history"] = func(pl []byte) string {
		s := "one after another:"
		for _, i := range pl {
			s += fmt.Sprintf(" %+q", parDocs[i][1:])
		}
		return s
	}
}

// realOut is where the harness prints when the standard streams are captured.
var realOut = os.Stdout

var captured struct {
	sync.Once
	fd int
}

// capture redirects file descriptors 1 and 2 to a file, to see what is
// written to them.
func capture() {
	captured.Do(func() {
		captured.fd = -1
		f, err := os.CreateTemp("", "captured")
		if err != nil {
			return
		}
		os.Remove(f.Name())
		old, err := syscall.Dup(1)
		if err != nil {
			return
		}
		realOut = os.NewFile(uintptr(old), "stdout")
		syscall.Dup3(int(f.Fd()), 1, 0)
		syscall.Dup3(int(f.Fd()), 2, 0)
		captured.fd = int(f.Fd())
		keepFile = f
	})
}

var keepFile *os.File

func written() int64 {
	if captured.fd < 0 {
		return 0
	}
	var st syscall.Stat_t
	if syscall.Fstat(captured.fd, &st) != nil {
		return 0
	}
	return st.Size
}

// guarded is write-protected memory for one document and what is around it.
type guarded struct{ mem []byte }

const guardSize = 16 << 20

func (g *guarded) put(d []byte) (all []byte, off int) {
	if g.mem == nil {
		m, err := syscall.Mmap(-1, 0, guardSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
		if err != nil {
			panic(err)
		}
		g.mem = m
	}
	off = 64
	n := len(d) + off + 64
	pages := (n + 4095) &^ 4095
	syscall.Mprotect(g.mem[:pages], syscall.PROT_READ|syscall.PROT_WRITE)
	for i := 0; i < off; i++ {
		g.mem[i] = "<a>"[i%3]
		g.mem[off+len(d)+i] = "</a>"[i%4]
	}
	copy(g.mem[off:], d)
	syscall.Mprotect(g.mem[:pages], syscall.PROT_READ)
	return g.mem[:pages], off
}

var guards sync.Map // *Worker to *guarded

// calm: no effect on the document or the standard streams; two parses agree.
func (w *Worker) calm(d []byte, opts byte) string {
	if len(d) == 0 || len(d) > guardSize-8192 {
		return ""
	}
	capture()
	debug.SetPanicOnFault(true) // a write to the document is a panic
	defer debug.SetPanicOnFault(false)
	gi, _ := guards.LoadOrStore(w, &guarded{})
	all, off := gi.(*guarded).put(d)
	before := written()
	a := runParser(all[off:off+len(d)], false, 0, 0, opts)
	fa := fingerprint(&a)
	b := runParser(all, true, off, len(d), opts)
	e := runParser(all[off:off+len(d)], false, 0, 0, opts)
	w.outcomes[a.verdict()]++
	if written() != before {
		return "something is written to the standard output or error"
	}
	if fe := fingerprint(&e); fe != fa {
		return fmt.Sprintf("parsed again: %s, first: %s", fe, fa)
	}
	if a.verdict() != b.verdict() {
		return "as a window: " + b.errText()
	}
	if again := fingerprint(&a); again != fa {
		return fmt.Sprintf("the first result changes from %s to %s", fa, again)
	}
	return ""
}

// fingerprint is everything that can be seen of a parse.
func fingerprint(o *outcome) string {
	e := o.newErr
	if e == nil {
		e = o.err
	}
	s := ""
	for x := e; x != nil; x = errors.Unwrap(x) {
		s += fmt.Sprintf("%T %v;", x, x)
		if pe, ok := x.(*erroring.ParseError); ok {
			s += pe.Msg + pe.LineNumber + ";"
		}
	}
	if e != nil {
		return s
	}
	h := sha256.New()
	st := o.p.VerifState()
	for _, b := range []buffer.LongBuffer{st.Vtd, st.L1, st.L2, st.L3, st.L4, st.L5} {
		if b == nil {
			continue
		}
		fmt.Fprintf(h, "/%d", b.GetSize())
		for i := 0; i < b.GetSize(); i++ {
			v, err := b.LongAt(i)
			if err != nil {
				return err.Error()
			}
			fmt.Fprintf(h, " %x", v)
		}
	}
	fmt.Fprintf(h, "/%d %d %d", st.RootIndex, st.VtdDepth, st.Encoding)
	return "accepted, " + strconv.Itoa(st.Vtd.GetSize()) + " tokens " + hex.EncodeToString(h.Sum(nil)[:8])
}

// documents for schedules and histories, each after its options
var parDocs = []string{
	"\x00<a b='1'>t</a>",
	"\x00<a b='1' b='2'/>",
	"\x01<a xmlns:p='u'><p:b p:c=''/></a>",
	"\x01<p:a xmlns:q='u'/>",
	"\x03<a xmlns:p='u' xmlns:q='u' p:b='' q:b=''/>",
	"\x02<a><b/><c><d/></c>t</a>",
	"\x00<a>&lt;&#65;x</a>",
	"\x00<a>&am;</a>",
	"\x00<?xml version='1.0'?><a/>",
	"\x00<!--c--><a/><?p v?>",
	"\x00<a><![CDATA[x]]></a>\n",
	"\x00<a><b></a>",
	"\x00<a",
	"\x00\xEF\xBB\xBF<\u00e9/>",
	"\x00<a>\u20ac\xff</a>",
	"\x00<?xml version='1.0' encoding='ascii'?><a b='c'>t</a>",
	"\x00<?xml version='1.0' encoding='ascii'?><a>\u00e9</a>",
	"\x00<!DOCTYPE a><a>x</a>",
	"\x01<x:a xmlns:x='v' x:b='2' b='3'></x:a>",
	"\x00<a>\n\n<\x00",
	"\x02<r><s><t><u><v><w/></v></u></t></s></r>",
	"\x00<a b=\"&quot;\"/> ",
	"\x00<?xml version='1.0' encoding='uTF-8'?><a/>",
	"\x00<?xml version='1.0' encoding='utf-16'?><a/>",
	"\x01<?xml version='1.0' encoding='Us-AsciI' standalone='no'?><a/>",
	"\x00<?xml version='1.0' encoding='ISO-8859-15'?><a/>",
	"\x00<!DOCTYPE a [<!ENTITY b 'c'>]><a>&b;</a>",
	// histories only
	"\x00<a",
	"\x00",
	"\x00<?xml version='1.1'?><a>\n</a>",
	"\x02<?xml version='1.0' encoding='utf-8' standalone='yes'?><a><b/></a>",
	"\x01<a xmlns='&amp;'><b xmlns=''/></a>",
	"\x00<a>]]></a>",
	"\x00\xFE\xFF\x00<",
	"\x03<?x?><a/><!---->",
}

const nSched = 27

// expected fingerprints, each from a process of its own
var fresh struct {
	sync.Mutex
	m map[int]string
}

func freshPrint(i int) string {
	fresh.Lock()
	defer fresh.Unlock()
	if s, ok := fresh.m[i]; ok {
		return s
	}
	out, err := exec.Command(os.Args[0], "-fp", strconv.Itoa(i)).Output()
	s := string(out)
	if err != nil || s == "" {
		s = "?" + fmt.Sprint(err)
	}
	if fresh.m == nil {
		fresh.m = map[int]string{}
	}
	fresh.m[i] = s
	return s
}

func parseDoc(i int) *outcome {
	o := runParser([]byte(parDocs[i][1:]), false, 0, 0, parDocs[i][0])
	return &o
}

// printFresh is the fingerprint mode of the program.
func printFresh(i int) {
	fmt.Print(fingerprint(parseDoc(i)))
}

// history: parses one after another; all results are looked at in the end.
func (w *Worker) history(pl []byte) string {
	var l []*outcome
	for _, i := range pl {
		l = append(l, parseDoc(int(i)))
	}
	for k, i := range pl {
		if got, want := fingerprint(l[k]), freshPrint(int(i)); got != want {
			return fmt.Sprintf("parse %d: %s, alone in a new process: %s", k+1, got, want)
		}
	}
	return ""
}

// ---- schedules

// scheduler lets one of two parsers run at a time and switches after the
// planned numbers of steps.
type scheduler struct {
	wake  [2]chan bool
	cur   int
	left  int
	plan  []int
	next  int
	done  [2]bool
	steps [2]int
	all   chan bool
}

// point is called by the running parser before each step.
func (s *scheduler) point(id int) {
	s.steps[id]++
	if s.left > 0 {
		s.left--
		return
	}
	if s.done[1-id] {
		return
	}
	// the segment is over
	if s.next >= len(s.plan) {
		return // runs to its end
	}
	s.left = s.plan[s.next]
	s.next++
	if s.next == len(s.plan) {
		s.left = 1 << 60
	}
	s.cur = 1 - id
	s.wake[1-id] <- true
	<-s.wake[id]
	if s.left > 0 {
		s.left--
	}
}

func (s *scheduler) finish(id int) {
	s.done[id] = true
	if s.done[1-id] {
		s.all <- true
		return
	}
	s.left = 1 << 60
	s.wake[1-id] <- true
}

// stepReader makes every call of the reader a step.
type stepReader struct {
	reader.Reader
	s  *scheduler
	id int
}

func (r *stepReader) GetChar() (uint32, error) { r.s.point(r.id); return r.Reader.GetChar() }
func (r *stepReader) GetLongCharAt(o int32) (uint64, error) {
	r.s.point(r.id)
	return r.Reader.GetLongCharAt(o)
}
func (r *stepReader) GetCharAt(o int32) (uint32, error) {
	r.s.point(r.id)
	return r.Reader.GetCharAt(o)
}
func (r *stepReader) SkipChar(c uint32) bool    { r.s.point(r.id); return r.Reader.SkipChar(c) }
func (r *stepReader) SkipCharSeq(q string) bool { r.s.point(r.id); return r.Reader.SkipCharSeq(q) }
func (r *stepReader) SetOffset(o int)           { r.s.point(r.id); r.Reader.SetOffset(o) }

func newDocParser(i int) (*parser.VtdParser, error) {
	d := parDocs[i]
	args := []parser.Option{parser.WithXmlDoc([]byte(d[1:])), parser.WithNameSpaceAware(d[0]&oNs != 0)}
	if d[0]&oLc5 != 0 {
		args = append(args, parser.WithLcDepth(5))
	}
	return parser.NewVtdParser(args...)
}

// runSchedule runs two parsers; plan holds the lengths of the segments.
func runSchedule(docs [2]int, start int, plan []int) (res [2]*outcome, steps [2]int, panics [2]string) {
	s := &scheduler{wake: [2]chan bool{make(chan bool), make(chan bool)}, cur: start, plan: plan, all: make(chan bool)}
	if len(plan) > 0 {
		s.left = plan[0]
		s.next = 1
	} else {
		s.left = 1 << 60
	}
	for id := 0; id < 2; id++ {
		id := id
		go func() {
			<-s.wake[id]
			defer s.finish(id)
			defer func() {
				if r := recover(); r != nil {
					panics[id] = fmt.Sprint(r)
				}
			}()
			o := &outcome{}
			res[id] = o
			s.point(id)
			o.p, o.newErr = newDocParser(docs[id])
			s.point(id)
			if o.newErr == nil {
				o.p.VerifWrapReader(func(r reader.Reader) reader.Reader { return &stepReader{r, s, id} })
				o.err = o.p.Parse()
			}
			s.point(id)
		}()
	}
	s.wake[start] <- true
	<-s.all
	return res, s.steps, panics
}

func (w *Worker) schedule(pl []byte) string {
	docs := [2]int{int(pl[0]), int(pl[1])}
	var plan []int
	for i := 3; i+2 <= len(pl); i += 2 {
		plan = append(plan, int(binary.LittleEndian.Uint16(pl[i:])))
	}
	res, steps, panics := runSchedule(docs, int(pl[2]), plan)
	w.transitions += int64(steps[0] + steps[1])
	for id := range docs {
		if panics[id] != "" {
			return "panic: " + panics[id]
		}
		if got, want := fingerprint(res[id]), freshPrint(docs[id]); got != want {
			return fmt.Sprintf("parser %d: %s, alone in a new process: %s", id+1, got, want)
		}
	}
	return ""
}

// race runs parallel parsers under the happens-before analysis of the race
// detector: no memory that one writes is touched by the other. With that all
// their interleavings are equivalent.
func (w *Worker) race(pl []byte) string {
	return raceProgram(w, fmt.Sprintf("%d,%d", pl[0], pl[1]))
}

// raceProgram runs the program built with the race detector.
func raceProgram(w *Worker, arg string) string {
	bin := os.Getenv("MC_RACE")
	if bin == "" {
		bin = filepath.Join(filepath.Dir(os.Args[0]), "mc-race")
		if a, err := filepath.Abs(bin); err == nil {
			bin = a
		}
	}
	if _, err := os.Stat(bin); err != nil {
		w.outcome("no program for happens-before analysis")
		return ""
	}
	cmd := exec.Command("/bin/bash", "-c", `ulimit -S -v unlimited; exec "$0" -racerun "$1"`, bin, arg)
	cmd.Env = append(os.Environ(), "GORACE=exitcode=66 halt_on_error=1")
	out, err := cmd.CombinedOutput()
	var ee *exec.ExitError
	if errors.As(err, &ee) && ee.ExitCode() == 66 && strings.Contains(string(out), "DATA RACE") {
		for _, l := range strings.Split(string(out), "\n") {
			if k := strings.Index(l, "/vtdxml/"); k >= 0 && strings.Contains(l, ".go:") {
				return "data race at " + strings.TrimSpace(l[k+1:])
			}
		}
	}
	switch k := strings.Index(string(out), "fatal error: concurrent map"); {
	case k >= 0:
		return strings.SplitN(string(out[k:]), "\n", 2)[0]
	case err != nil:
		w.outcome("run for happens-before analysis failed")
	default:
		w.outcome("no race")
	}
	return ""
}

// raceRun is the mode of the program that race uses.
func raceRun(arg string) {
	var l []int
	nav := strings.HasPrefix(arg, "nav,")
	for _, s := range strings.Split(strings.TrimPrefix(arg, "nav,"), ",") {
		i, _ := strconv.Atoi(s)
		l = append(l, i)
	}
	if nav {
		navRaceRun(l[0], l[1])
		return
	}
	var wg sync.WaitGroup
	for k := 0; k < 2; k++ {
		i := l[k]
		wg.Add(1)
		go func() {
			defer wg.Done()
			o := parseDoc(i)
			fingerprint(o)
		}()
	}
	wg.Wait()
	raceRounds(l[0], l[1])
}

func checkC13(c *Ctx) {
	capture()
	var pairs [][]byte
	for i := 0; i < nSched; i++ {
		pairs = append(pairs, []byte{byte(i), byte(i)})
		if c.thorough {
			for j := i + 1; j < nSched; j++ {
				pairs = append(pairs, []byte{byte(i), byte(j)})
			}
		}
	}
	if c.session {
		pairs = nil // has its own processes
	}
	c.Space("happens-before", len(pairs), func(w *Worker, i int) {
		w.states++
		w.Do("race", pairs[i])
	})
	edited := func(i int, emit func(string)) {
		d := seedDocs[i]
		emit(d)
		for k := range d {
			emit(d[:k])
			for _, x := range []string{"<", ">", "/", "!", "?", "-", "[", "]", "&", ";", "=", "\"", "'", " ", "\n", ":", "x", "\x00", "\xFF", "\u00e9"} {
				emit(d[:k] + x + d[k:])
				emit(d[:k] + x + d[k+1:])
			}
		}
	}
	shrink, few := 4, 12
	if c.thorough {
		shrink, few = 3, 4
	}
	rest := func() { c.others("C02", "C03", "C04", "C05", "C06", "C07", "C09", "C10") }
	c.sequences(c.collectDocs(func() {
		c.docs("edited documents", len(seedDocs), allOpts, edited)
		c.shrink, c.few = shrink, few
		rest()
		c.shrink, c.few = 0, 0
	}), 0, pick(c, 1000, 2500))
	c.Space("alone", len(parDocs), func(w *Worker, i int) {
		w.states++
		w.Do("history", []byte{byte(i)})
	})
	n := len(parDocs)
	c.Space("histories", n*n, func(w *Worker, i int) {
		w.states++
		w.Do("history", []byte{byte(i / n), byte(i % n)})
		for k := 0; k < n; k++ {
			w.states++
			w.transitions += 3
			w.Do("history", []byte{byte(i / n), byte(i % n), byte(k)})
		}
		if i%137 == 0 {
			c.Sample(readers["history"]([]byte{byte(i / n), byte(i % n), 3}))
		}
	})
	// schedules
	put := func(a, b, start int, plan ...int) []byte {
		pl := []byte{byte(a), byte(b), byte(start)}
		for _, x := range plan {
			pl = binary.LittleEndian.AppendUint16(pl, uint16(x))
		}
		return pl
	}
	var length [nSched]int
	for i := range length {
		_, steps, _ := runSchedule([2]int{i, i}, 0, nil)
		length[i] = steps[0]
	}
	c.Space("schedules", nSched*nSched*2, func(w *Worker, i int) {
		a, b, start := i/2/nSched, i/2%nSched, i%2
		if b < a {
			return
		}
		l := [2]int{length[a], length[b]}
		n1, n2 := l[start], l[1-start]
		for x := 0; x <= n1; x++ {
			for y := 0; y <= n2; y++ {
				w.states++
				w.Do("schedule", put(a, b, start, x, y, 60000))
				if c.thorough && (a+b)%3 == 0 {
					for z := 1; x+z < n1; z++ {
						w.states++
						w.Do("schedule", put(a, b, start, x, y, z, 60000))
					}
				}
			}
			if c.Stop() {
				return
			}
		}
		// every step in turn, in several rhythms
		for r := 1; r <= 4; r++ {
			for q := 1; q <= 4; q++ {
				var plan []int
				for k := 0; k < 200; k++ {
					plan = append(plan, r, q)
				}
				w.states++
				w.Do("schedule", put(a, b, start, plan...))
			}
		}
		if i%90 == 0 {
			c.Sample(readers["schedule"](put(a, b, start, n1/2, n2/2, 60000)))
		}
	})
	c.fam = "calm"
	c.docs("edited documents", len(seedDocs), allOpts, edited)
	c.few = pick(c, 6, 2)
	c.allSizes(0, oNs)
	c.deep(0, oNs)
	c.few = pick(c, 3, 1)
	limitSpaces(c, []byte{oNs})
	c.few = 0
	c.varied(func(c *Ctx) {
		c.docs("edited documents", len(seedDocs), []byte{oNs}, edited)
		c.deep(0, oNs)
	}, 7, 8, 9, 10, 11)
	c.shrink, c.few = shrink, few
	rest()
}
