package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/buffer"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/parser"

	"mc/ref"
)

// Options of one parser run, as the first byte of a document payload.
const (
	oNs  = 1 << iota // namespace aware
	oLc5             // five-level location cache
	oWin             // parse as a window inside padding
	oTok             // compare the tokens of accepted documents
)

// docEngine holds what one worker needs to run documents.
type docEngine struct {
	ref ref.P
}

// outcome of the real parser.
type outcome struct {
	newErr, err error
	p           *parser.VtdParser
}

// runParser parses d (or the window [off, off+n) of d).
func runParser(d []byte, window bool, off, n int, opts byte) outcome {
	var o outcome
	args := make([]parser.Option, 0, 3)
	if window {
		args = append(args, parser.WithXmlDocCustomOffset(d, off, n))
	} else {
		args = append(args, parser.WithXmlDoc(d))
	}
	args = append(args, parser.WithNameSpaceAware(opts&oNs != 0))
	if opts&oLc5 != 0 {
		args = append(args, parser.WithLcDepth(5))
	}
	o.p, o.newErr = parser.NewVtdParser(args...)
	if o.newErr == nil {
		o.err = o.p.Parse()
	}
	return o
}

func (o outcome) accepted() bool { return o.newErr == nil && o.err == nil }

func (o outcome) verdict() string {
	if o.accepted() {
		return "accept"
	}
	return "reject"
}

func (o outcome) errText() string {
	e := o.newErr
	if e == nil {
		e = o.err
	}
	if e == nil {
		return ""
	}
	return strings.ReplaceAll(e.Error(), "\n", " ")
}

// tokens reads the token records back and decodes their fields.
func tokens(b buffer.LongBuffer) ([]ref.Tok, error) {
	out := make([]ref.Tok, 0, b.GetSize())
	for i := 0; i < b.GetSize(); i++ {
		v, err := b.LongAt(i)
		if err != nil {
			return nil, err
		}
		u := uint64(v)
		t := ref.Tok{Type: int(u >> 60), Depth: int(u >> 52 & 0xFF), Off: int(u & 0xFFFFFFFF)}
		if t.Depth == 255 {
			t.Depth = -1
		}
		l := int(u >> 32 & 0xFFFFF)
		switch t.Type {
		case ref.TStart, ref.TAttr, ref.TNs:
			t.Len, t.Pre = l&0x7FF, l>>11
		default:
			t.Len = l
		}
		out = append(out, t)
	}
	return out, nil
}

// compareTokens compares the tokens of the code with those of the model,
// whose offsets are shifted by base.
func compareTokens(got, want []ref.Tok, base int) string {
	n := len(want)
	if len(got) < n {
		n = len(got)
	}
	for i := 0; i < n; i++ {
		g, w := got[i], want[i]
		if w.Type != ref.TDoc {
			w.Off += base
		}
		if w.AnyOff {
			g.Off, w.Off = 0, 0
		}
		if w.AnyPre {
			g.Pre, w.Pre = 0, 0
		}
		w.AnyOff, w.AnyPre = false, false
		if w.Type == ref.TDoc { // only its presence is specified
			g.Off, g.Len, w.Off, w.Len = 0, 0, 0, 0
		}
		if g != w {
			return fmt.Sprintf("token %d is %+v, expected %+v", i, g, w)
		}
	}
	if len(got) != len(want) {
		return fmt.Sprintf("%d tokens, expected %d", len(got), len(want))
	}
	return ""
}

// judge runs d and compares it with the model.
func (w *Worker) judge(d []byte, opts byte) string {
	if len(d) == 0 {
		return ""
	}
	r := w.eng.ref.Parse(d, opts&oNs != 0)
	return w.judgeAgainst(d, opts, &r)
}

func (w *Worker) judgeAgainst(d []byte, opts byte, r *ref.Result) string {
	o := runParser(d, false, 0, 0, opts)
	v := o.verdict()
	if r.Verdict == ref.Unknown {
		w.outcomes["unknown"]++
		return ""
	}
	w.outcomes[v]++
	if v != r.Verdict.String() {
		return fmt.Sprintf("the parser says %s (%s), expected %s (%s)", v, o.errText(), r.Verdict, r.Reason)
	}
	if opts&oTok != 0 && r.Verdict == ref.Accept {
		got, err := tokens(o.p.VerifState().Vtd)
		if err != nil {
			return "token buffer: " + err.Error()
		}
		return compareTokens(got, r.Tokens, 0)
	}
	return ""
}

// doc is the payload family: option byte, then the document.
func init() {
	families["doc"] = func(w *Worker, pl []byte) string { return w.judge(pl[1:], pl[0]) }
}

func readable(fam string, pl []byte) (s string) {
	defer func() {
		if recover() != nil {
			s = fam + " " + strconv.QuoteToASCII(string(pl))
		}
	}()
	if f := readers[fam]; f != nil {
		return f(pl)
	}
	if s := variantReader(fam, pl); s != "" {
		return s
	}
	if len(pl) > 400 {
		return fmt.Sprintf("%s %s... (%d bytes)", fam, strconv.QuoteToASCII(string(pl[:400])), len(pl))
	}
	return fam + " " + strconv.QuoteToASCII(string(pl))
}

var readers = map[string]func([]byte) string{}

func init() {
	readers["doc"] = func(pl []byte) string {
		d := pl[1:]
		more := ""
		if len(d) > 400 {
			more = fmt.Sprintf("... (%d bytes)", len(d))
			d = d[:400]
		}
		return fmt.Sprintf("document %s%s ns=%v lc5=%v", strconv.QuoteToASCII(string(d)), more, pl[0]&oNs != 0, pl[0]&oLc5 != 0)
	}
}

func showDoc(q string, ns bool) {
	s, err := strconv.Unquote(q)
	if err != nil {
		s = q
	}
	var p ref.P
	r := p.Parse([]byte(s), ns)
	fmt.Printf("model: %v eof=%v closer=%q reason=%q\n", r.Verdict, r.EOF, r.Closer, r.Reason)
	for _, t := range r.Tokens {
		fmt.Printf("  %+v %q\n", t, clip(s, t.Off, t.Len))
	}
	var opts byte
	if ns {
		opts = oNs
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				fmt.Println("panic:", e, where())
			}
		}()
		o := runParser([]byte(s), false, 0, 0, opts)
		fmt.Println("code: ", o.verdict(), o.errText())
		if o.accepted() {
			got, _ := tokens(o.p.VerifState().Vtd)
			for _, t := range got {
				fmt.Printf("  %+v %q\n", t, clip(s, t.Off, t.Len))
			}
			fmt.Println(compareTokens(got, r.Tokens, 0))
		}
	}()
}

func clip(s string, o, n int) string {
	if o < 0 || o+n > len(s) {
		return "?"
	}
	return s[o : o+n]
}

// tree is a viable-prefix exploration: all documents seed + fragments, where
// every prefix but the last step is viable.
type tree struct {
	name    string
	seeds   []string
	frags   []string
	depth   int
	opts    []byte
	fam     string // family to run; default "doc"
	suffix  []string
	noClose bool // do not run completions
	noDedup bool
}

// explore runs the tree. Work is split at the first two levels.
func (c *Ctx) explore(t tree) {
	if t.fam == "" {
		t.fam = "doc"
		if c.fam != "" {
			t.fam = c.fam
		}
	}
	if c.shrink > 0 {
		t.depth -= c.shrink
		if t.depth < 2 {
			t.depth = 2
		}
	}
	t.opts = c.forced(t.opts)
	s := newSeen()
	nf := len(t.frags)
	// split: each item is seed x first fragment x second fragment; the items
	// with second fragment 0 also run the first level
	type item struct{ seed, f1, f2 int }
	var items []item
	for si := range t.seeds {
		for f1 := 0; f1 < nf; f1++ {
			for f2 := -1; f2 < nf; f2++ {
				items = append(items, item{si, f1, f2})
			}
		}
	}
	c.Space(t.name, len(items), func(w *Worker, i int) {
		it := items[i]
		if it.f1 == 0 && it.f2 == -1 {
			w.node(&t, s, append(w.buf[:0], t.seeds[it.seed]...), t.depth, true)
		}
		b := append(append(w.buf[:0], t.seeds[it.seed]...), t.frags[it.f1]...)
		if it.f2 == -1 {
			w.transitions++
			w.node(&t, s, b, t.depth-1, true)
			return
		}
		if t.depth < 2 || !w.viable(&t, b) {
			return
		}
		b = append(b, t.frags[it.f2]...)
		w.transitions++
		w.node(&t, s, b, t.depth-2, false)
	})
}

// viable reports whether b can be extended in at least one option set.
func (w *Worker) viable(t *tree, b []byte) bool {
	for _, o := range t.opts {
		r := w.eng.ref.Parse(b, o&oNs != 0)
		if r.EOF || r.Verdict != ref.Reject && r.Reason != "abort" {
			return true
		}
	}
	return false
}

// node runs one document and (unless shallow) everything below it.
func (w *Worker) node(t *tree, s *seen, b []byte, rem int, shallow bool) {
	explore, fresh := true, true
	key := rem
	if shallow {
		key = 0
	}
	explore, fresh = s.visit(b, key)
	if !explore {
		return
	}
	viable := false
	for _, o := range t.opts {
		r := w.eng.ref.Parse(b, o&oNs != 0)
		closer := r.Closer
		eof := r.EOF
		if eof || r.Verdict != ref.Reject && r.Reason != "abort" {
			viable = true
		}
		if !fresh {
			continue
		}
		if o == t.opts[0] {
			w.states++
		}
		w.runDoc(t.fam, b, "", o)
		for _, x := range t.suffix {
			w.runDoc(t.fam, b, x, o)
		}
		if eof && !t.noClose && closer != "" {
			w.runDoc(t.fam, b, closer, o)
		}
		if eof && closer != "" && w.states&0xFFF == 1 && len(w.c.samples) < 12 {
			w.c.Sample(string(b) + closer)
		}
	}
	if shallow || rem <= 0 || !viable || w.c.Stop() {
		return
	}
	n := len(b)
	for _, f := range t.frags {
		b = append(b[:n], f...)
		w.transitions++
		w.node(t, s, b, rem-1, false)
		b = b[:n]
	}
}

// runDoc builds the payload and runs it.
func (w *Worker) runDoc(fam string, b []byte, suffix string, o byte) {
	if len(b)+len(suffix) == 0 {
		return
	}
	pl := make([]byte, 0, 1+len(b)+len(suffix)+8)
	pl = append(append(append(pl, o), b...), suffix...)
	w.Do(fam, pl)
}

// forced adds the forced options.
func (c *Ctx) forced(opts []byte) []byte {
	out := make([]byte, len(opts))
	for i, o := range opts {
		out[i] = o | c.force
	}
	return out
}

// docs runs a list of documents, generated by index.
func (c *Ctx) docs(name string, n int, opts []byte, gen func(i int, emit func(string))) {
	fam := "doc"
	if c.fam != "" {
		fam = c.fam
	}
	opts = c.forced(opts)
	c.Space(name, n, func(w *Worker, i int) {
		k := 0
		gen(i, func(d string) {
			if k++; c.few > 1 && (k+i)%c.few != 0 {
				return
			}
			w.states++
			w.transitions += int64(len(d))
			for _, o := range opts {
				w.runDoc(fam, []byte(d), "", o)
			}
			if w.states&0xFFF == 1 {
				w.c.Sample(d)
			}
		})
	})
}
