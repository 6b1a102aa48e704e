package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"strings"
	"sync"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/buffer"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/parser"

	"mc/ref"
)

func init() {
	register("C27", "the documents of all document spaces (C02-C07, C09, C10 two levels less deep, all size families) under 6 combinations of settings; fragment trees with and without colons; every order of the options, including settings given up to three times with other values, for the seed documents and their edits; all depth families",
		checkC27)
	register("C28", "the documents of all document spaces (C02-C07, C09, C10 two levels less deep, all size families), all single-byte edits of the seed documents, all strings of up to 5 fragments inside document type declarations, declarations and names with several colons, alone and as windows; all depth families; the first spaces and the depth families in nine variants (preludes, long words, long whitespace, inside 4 and 100 elements)",
		checkC28)
	register("C29", "the product graph of two cursors (all pairs of reachable states, every move of either, all reads in every pair) on one parse for all ordered trees up to 5 (thorough 6) elements and on two parses for all pairs of trees up to 4; all interleaved move sequences of up to 4 (thorough 5) steps; documents parsed, read and walked one after another in both orders, and all ordered pairs of 500 (thorough 1500) of them; happens-before analysis of concurrent cursors",
		checkC29)
	families["settings"] = func(w *Worker, pl []byte) string { return w.settings(pl[1:]) }
	families["gensettings"] = viaGen(func(w *Worker, d []byte, opts byte) string { return w.settings(d) })
	readers["settings"] = readers["doc"]
	families["order"] = func(w *Worker, pl []byte) string { return w.optionOrder(pl[1:], pl[0]) }
	readers["order"] = readers["doc"]
	families["inside"] = func(w *Worker, pl []byte) string { return w.inside(pl[1:], pl[0]) }
	families["geninside"] = viaGen((*Worker).inside)
	readers["inside"] = readers["doc"]
	families["cursors"] = func(w *Worker, pl []byte) string { return w.cursors(pl) }
	readers["cursors"] = func(pl []byte) string {
		n := int(pl[1]) + 2
		return fmt.Sprintf("two cursors, elements at depths %v and %v (style %d)", pl[2:n], pl[n:], pl[0])
	}
	families["cursorseq"] = func(w *Worker, pl []byte) string { return w.cursorSeq(pl) }
	readers["cursorseq"] = func(pl []byte) string {
		return fmt.Sprintf("two cursors on document %d, steps %v", pl[0], pl[1:])
	}
	families["navrace"] = func(w *Worker, pl []byte) string {
		return raceProgram(w, fmt.Sprintf("nav,%d,%d", pl[0], pl[1]))
	}
	readers["navrace"] = func(pl []byte) string {
		return fmt.Sprintf("two cursors on documents %d and %d at the same time", pl[0], pl[1])
	}
}

// ---- C27

// runOptions parses with explicit options.
func runOptions(opts ...parser.Option) *outcome {
	o := &outcome{}
	o.p, o.newErr = parser.NewVtdParser(opts...)
	if o.newErr == nil {
		o.err = o.p.Parse()
	}
	return o
}

// result is what settings must not influence: the error or the tokens.
func (o *outcome) result() string {
	e := o.newErr
	if e == nil {
		e = o.err
	}
	if e != nil {
		s := ""
		for x := e; x != nil; x = errors.Unwrap(x) {
			s += fmt.Sprintf("%T %v;", x, x)
			if pe, ok := x.(*erroring.ParseError); ok {
				s += pe.Msg + pe.LineNumber + ";"
			}
		}
		return s
	}
	b := o.p.VerifState().Vtd
	out := make([]byte, 0, 8*b.GetSize()+8)
	out = binary.LittleEndian.AppendUint64(out, uint64(o.p.VerifState().VtdDepth))
	for i := 0; i < b.GetSize(); i++ {
		v, err := b.LongAt(i)
		if err != nil {
			return err.Error()
		}
		out = binary.LittleEndian.AppendUint64(out, uint64(v))
	}
	return string(out)
}

func (o *outcome) shown() string {
	if o.accepted() {
		return fmt.Sprintf("accepted with %d tokens", o.p.VerifState().Vtd.GetSize())
	}
	return o.errText()
}

func (w *Worker) settings(d []byte) string {
	if len(d) == 0 {
		return ""
	}
	doc := parser.WithXmlDoc(d)
	base := runOptions(doc)
	w.outcomes[base.verdict()]++
	rb := base.result()
	aware := runOptions(doc, parser.WithNameSpaceAware(true))
	ra := aware.result()
	for _, x := range []struct {
		name  string
		aware bool
		o     *outcome
	}{
		{"with cache depth 5", false, runOptions(doc, parser.WithLcDepth(5))},
		{"with buffer reuse and namespace awareness off", false, runOptions(parser.WithBufferReuse(true), parser.WithNameSpaceAware(false), doc)},
		{"with cache depth 5 and namespace awareness", true, runOptions(parser.WithNameSpaceAware(true), parser.WithLcDepth(5), doc)},
		{"with cache depth 3, buffer reuse and namespace awareness", true, runOptions(parser.WithXmlDocCustomOffset(d, 0, len(d)), parser.WithNameSpaceAware(true), parser.WithLcDepth(3), parser.WithBufferReuse(true))},
	} {
		want, o := rb, base
		if x.aware {
			want, o = ra, aware
		}
		if x.o.result() != want {
			return fmt.Sprintf("%s: %s; without: %s", x.name, x.o.shown(), o.shown())
		}
	}
	if ra != rb && (aware.accepted() || bytes.IndexByte(d, ':') < 0 && !bytes.Contains(d, []byte("xmlns"))) {
		return fmt.Sprintf("with namespace awareness: %s; without: %s", aware.shown(), base.shown())
	}
	return ""
}

// optionOrder gives the options in every order, each also after options of
// the same kind with other values: the last one of a kind counts.
func (w *Worker) optionOrder(d []byte, opts byte) string {
	if len(d) == 0 {
		return ""
	}
	lc := 3
	if opts&oLc5 != 0 {
		lc = 5
	}
	ns := opts&oNs != 0
	l := []parser.Option{parser.WithXmlDoc(d), parser.WithNameSpaceAware(ns), parser.WithLcDepth(lc), parser.WithBufferReuse(false)}
	pre := [][]parser.Option{
		nil,
		{parser.WithNameSpaceAware(!ns), parser.WithLcDepth(8 - lc), parser.WithBufferReuse(true)},
		{parser.WithXmlDoc([]byte("<other a='1'/>")), parser.WithNameSpaceAware(!ns)},
		{parser.WithXmlDocCustomOffset([]byte("xxx<other a='1'/>"), 3, 14), parser.WithLcDepth(8 - lc)},
		{parser.WithXmlDoc(nil), parser.WithXmlDocCustomOffset([]byte("a"), 5, -1)},
		{parser.WithLcDepth(lc), parser.WithLcDepth(8 - lc)},
		{parser.WithLcDepth(8 - lc), parser.WithLcDepth(lc), parser.WithLcDepth(8 - lc)},
		{parser.WithNameSpaceAware(ns), parser.WithBufferReuse(false), parser.WithNameSpaceAware(!ns), parser.WithBufferReuse(true)},
		{parser.WithXmlDoc(d), parser.WithXmlDocCustomOffset([]byte("<x>"+string(d)+"</x>"), 3, len(d)), parser.WithXmlDoc(nil)},
	}
	base := runOptions(l...)
	want := base.result() + caches(base)
	w.outcomes[base.verdict()]++
	what := ""
	permute(len(l), func(p []int) {
		for k, x := range pre {
			o := make([]parser.Option, 0, 8)
			o = append(o, x...)
			for _, i := range p {
				o = append(o, l[i])
			}
			w.transitions++
			r := runOptions(o...)
			if what == "" && r.result()+caches(r) != want {
				what = fmt.Sprintf("options in the order %v after options %d: %s, expected %s", p, k, r.shown(), base.shown())
			}
		}
	})
	return what
}

// caches lists the contents of the location caches.
func caches(o *outcome) string {
	if !o.accepted() {
		return ""
	}
	st := o.p.VerifState()
	var out []byte
	for _, b := range []buffer.LongBuffer{st.L1, st.L2, st.L3, st.L4, st.L5} {
		if b == nil {
			out = append(out, '-')
			continue
		}
		out = binary.AppendVarint(out, int64(b.GetSize()))
		for i := 0; i < b.GetSize(); i++ {
			v, _ := b.LongAt(i)
			out = binary.AppendVarint(out, v)
		}
	}
	return string(out)
}

func permute(n int, f func(p []int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(p)
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
}

func checkC27(c *Ctx) {
	one := []byte{0}
	edit := func(i int, emit func(string)) {
		d := seedDocs[i]
		emit(d)
		for k := range d {
			emit(d[:k])
			for _, x := range []string{"<", ">", "/", "!", "?", "]", "&", "=", "'", " ", ":", "x", "xmlns", "\x00", "\xFF"} {
				emit(d[:k] + x + d[k:])
				emit(d[:k] + x + d[k+1:])
			}
		}
	}
	c.fam = "order"
	few := c.few
	if !c.thorough {
		c.few = 4
	}
	c.docs("option orders", len(seedDocs), allOpts, edit)
	c.few = few
	c.fam = "settings"
	c.docs("edited documents", len(seedDocs), one, edit)
	c.fragTree("no prefixes", []string{"", "<r>"}, []string{"<a>", "<b c='1' d=\"\">", "<e/>", "<f g='&lt;' />", "</a>", "</b>", "</r>", "t", " ", "&amp;", "&x;", "<!--c-->", "<?p v?>", "<![CDATA[x]]>", "]]>", "<!DOCTYPE a>", "<?xml version='1.0'?>"}, 5, 6, 0)
	c.fragTree("prefixes", []string{"", "<r>", "<r xmlns:p='u'>"}, []string{"<p:a>", "<a p:b='' b=''>", "<a xmlns:q='v' xmlns='w'>", "<q:a xmlns:q='v' q:b='1'/>", "<a xmlns=''/>", "<a p:b='1' xmlns:q='u' q:b='2'/>", "</p:a>", "</a>", "</r>", "t", "<xml:a/>", "<a xml:b=''/>"}, 4, 5, 0)
	c.fragTree("tags", []string{"<a", "<p:a", "<r><a"}, []string{" ", "b", ":", "=", "''", "\"v\"", ">", "/>", "xmlns", "xmlns:p='u'", "b='1'"}, 5, 6, 0)
	if !c.thorough {
		c.few = 3
	}
	c.allSizes(0)
	c.deep(0, 0)
	limitSpaces(c, one)
	c.few = 0
	c.charAt(0)
	c.shrink, c.few = 2, 3
	if c.thorough {
		c.shrink, c.few = 1, 1
	}
	c.others("C05", "C06", "C07", "C09", "C10", "C02", "C03", "C04")
}

// ---- C28

// inside checks the tokens of any accepted document against the document
// alone: place, order, delimiters, depths.
func (w *Worker) inside(d []byte, opts byte) string {
	if len(d) == 0 {
		return ""
	}
	what := w.insideAt(d, 0, len(d), opts)
	if what == "" && len(d) < 4096 {
		all := make([]byte, 0, len(d)+32)
		all = append(append(append(all, "<z>='\"--"...), d...), "--></z>]]>'\""...)
		if what = w.insideAt(all, 8, len(d), opts); what != "" {
			what = "as a window: " + what
		}
	}
	return what
}

func (w *Worker) insideAt(all []byte, off, n int, opts byte) string {
	o := runParser(all, off > 0, off, n, opts)
	w.outcomes[o.verdict()]++
	if !o.accepted() {
		return ""
	}
	st := o.p.VerifState()
	toks, err := tokens(st.Vtd)
	if err != nil {
		return err.Error()
	}
	what := tokensInside(all, off, off+n, toks)
	if what != "" {
		return what
	}
	deepest := 0
	for _, t := range toks {
		if t.Type == ref.TStart && t.Depth > deepest {
			deepest = t.Depth
		}
	}
	if st.VtdDepth != deepest {
		return fmt.Sprintf("the depth of the document is %d, its deepest element is at %d", st.VtdDepth, deepest)
	}
	if opts&oLc5 != 0 && (st.RootIndex <= 0 || st.RootIndex >= len(toks) || toks[st.RootIndex].Type != ref.TStart || toks[st.RootIndex].Depth != 0) {
		return fmt.Sprintf("the root index %d is no element token", st.RootIndex)
	}
	return ""
}

func isWs(b byte) bool { return b == ' ' || b == '\t' || b == '\r' || b == '\n' }

func tokensInside(d []byte, start, end int, toks []ref.Tok) string {
	if len(toks) < 2 || toks[0].Type != ref.TDoc {
		return "no document token, or nothing else"
	}
	last, lastStart := start, -1
	before := func(off int, s string) bool { return off-len(s) >= start && string(d[off-len(s):off]) == s }
	after := func(off int, s string) bool { return off+len(s) <= end && string(d[off:off+len(s)]) == s }
	for i := 1; i < len(toks); i++ {
		t, prev := toks[i], toks[i-1]
		next := ref.Tok{Type: -1}
		if i+1 < len(toks) {
			next = toks[i+1]
		}
		bad := func(s string, a ...interface{}) string {
			return fmt.Sprintf("token %d %+v: %s", i, t, fmt.Sprintf(s, a...))
		}
		if t.Off < start || t.Off+t.Len > end {
			return bad("outside the document [%d,%d)", start, end)
		}
		if t.Type == ref.TPiVal && t.Len == 0 {
			if prev.Type != ref.TPiName || prev.Depth != t.Depth {
				return bad("not after a target")
			}
			continue
		}
		if t.Off < last {
			return bad("starts before the end (%d) of the one before", last)
		}
		last = t.Off + t.Len
		s := d[t.Off:last]
		partBefore := prev.Type == t.Type && prev.Depth == t.Depth && prev.Off+prev.Len == t.Off && prev.Len > 0
		partAfter := next.Type == t.Type && next.Depth == t.Depth && last == next.Off && t.Len > 0
		switch t.Type {
		case ref.TStart:
			if t.Depth < 0 || t.Depth > lastStart+1 || (t.Depth == 0) != (lastStart < 0) {
				return bad("after an element at depth %d", lastStart)
			}
			lastStart = t.Depth
			if !before(t.Off, "<") || t.Len == 0 || bytes.ContainsAny(s, "<>/= \t\r\n'\"&") || last >= end || !isWs(d[last]) && d[last] != '>' && d[last] != '/' {
				return bad("no element name %+q", s)
			}
		case ref.TAttr, ref.TNs:
			if prev.Type != ref.TStart && prev.Type != ref.TVal || t.Depth != prev.Depth || t.Depth != lastStart {
				return bad("not in a tag")
			}
			if t.Len == 0 || bytes.ContainsAny(s, "<>/= \t\r\n'\"&") || !isWs(d[t.Off-1]) || last >= end || !isWs(d[last]) && d[last] != '=' {
				return bad("no attribute name %+q", s)
			}
			if next.Type != ref.TVal {
				return bad("no value follows")
			}
			if t.Pre >= t.Len || t.Pre > 0 && s[t.Pre] != ':' {
				return bad("prefix length in %+q", s)
			}
		case ref.TVal, ref.TDecVal:
			if t.Type == ref.TVal && prev.Type != ref.TAttr && prev.Type != ref.TNs || t.Type == ref.TDecVal && prev.Type != ref.TDecName || t.Depth != prev.Depth {
				return bad("not after a name")
			}
			q := d[t.Off-1]
			if q != '\'' && q != '"' || last >= end || d[last] != q || bytes.IndexByte(s, q) >= 0 || bytes.IndexByte(s, '<') >= 0 {
				return bad("not between quotes: %+q", d[t.Off-1:last+1])
			}
			if last++; strings.Trim(string(d[prev.Off+prev.Len:t.Off-1]), " \t\r\n") != "=" {
				return bad("not after an equals sign")
			}
		case ref.TText:
			if lastStart < 0 || t.Depth < 0 || t.Depth > lastStart || bytes.IndexByte(s, '<') >= 0 || !partBefore && !before(t.Off, ">") || !partAfter && !after(last, "<") {
				return bad("not between tags: %+q", clipStr(string(s)))
			}
		case ref.TComment:
			if t.Depth > lastStart || bytes.Contains(s, []byte("--")) || !partBefore && !before(t.Off, "<!--") || !partAfter && !after(last, "-->") {
				return bad("no comment: %+q", clipStr(string(s)))
			}
			last += 3
		case ref.TCdata:
			if t.Depth < 0 || t.Depth > lastStart || bytes.Contains(s, []byte("]]>")) || !partBefore && !before(t.Off, "<![CDATA[") || !partAfter && !after(last, "]]>") {
				return bad("no CDATA section: %+q", clipStr(string(s)))
			}
			if !partAfter {
				last += 3
			}
		case ref.TPiName:
			if t.Depth > lastStart || t.Len == 0 || !before(t.Off, "<?") || !isWs(d[last]) && !after(last, "?>") || next.Type != ref.TPiVal {
				return bad("no processing instruction: %+q", s)
			}
		case ref.TPiVal:
			if prev.Type != ref.TPiName || prev.Depth != t.Depth || bytes.Contains(s, []byte("?>")) || !after(last, "?>") {
				return bad("not after a target")
			}
			last += 2
		case ref.TDecName:
			if lastStart >= 0 || i > 6 || next.Type != ref.TDecVal || string(s) != "version" && string(s) != "encoding" && string(s) != "standalone" {
				return bad("not in an XML declaration: %+q", s)
			}
		case ref.TDtd:
			if lastStart >= 0 || !before(t.Off, "<!DOCTYPE") || !after(last, ">") {
				return bad("no document type declaration: %+q", clipStr(string(s)))
			}
			last++
		default:
			return bad("unexpected type")
		}
		if t.Type == ref.TComment && partAfter {
			last -= 3
		}
	}
	if lastStart < 0 {
		return "no element"
	}
	return ""
}

func checkC28(c *Ctx) {
	c.fam = "inside"
	all := []byte{0, oNs | oLc5}
	c.byteEdits("byte edits", seedDocs, all...)
	trees := func(c *Ctx) {
		c.fragTree("document type declarations", []string{"<!DOCTYPE", "<!DOCTYPE a ", "<!DOCTYPE a [", "<?xml version='1.0'?>\n<!DOCTYPE a SYSTEM "}, []string{"<", ">", "'", "\"", "[", "]", "x", " ", "<!--", "-->", "<?", "?>", "><a/>", "<!ELEMENT a ANY>", "<!ENTITY b \"<c>\">", "%p;"}, 4, 5, 0, oLc5)
		c.fragTree("constructs", []string{"", "<?xml version='1.0'?>"}, []string{"<a>", "<b x='1'>", "<p:c xmlns:p=\"u\" p:y=''>", "<d/>", "<e f = \"&lt;\" g='' />", "</a>", "</b>", "</p:c>", "text", " ", "\n", "&amp;", "]", "<!--c-->", "<!---->", "<?p v?>", "<?p?>", "<![CDATA[x]]>", "<![CDATA[]]>", "<!DOCTYPE a>", "\u00e9"}, 4, 5, 0, oNs|oLc5)
		c.fragTree("colons", []string{"<", "<r xmlns:p='u'><", "<r><?", "<r ", "<r xmlns"}, []string{":", "p", "q", "xmlns", "xml", "=''", "='u'", " ", ">", "/>", "?>", "</r>"}, 5, 6, 0, oNs|oLc5)
		c.fragTree("undeclared entities", []string{"<!DOCTYPE a><a>", "<!DOCTYPE a [<!ENTITY b 'c'>]><a b='"}, []string{"&b;", "&", ";", "b", "#", "1", "<", ">", "'>", "</a>", "<c/>", "%b;"}, 5, 6, 0, oLc5)
		c.fragTree("bytes", []string{"", "<a>"}, []string{"<", ">", "/", "!", "?", "-", "--", "[", "]]", "&", "=", "'", " ", "a", "DOCTYPE", "CDATA[", "xml", ":", "\xEF\xBB\xBF", "\u00e9", "\xFF", "\r"}, 5, 5, oLc5)
	}
	trees(c)
	c.allSizes(oNs | oLc5)
	c.deep(0, oNs)
	c.charAt(oNs)
	limitSpaces(c, []byte{oNs | oLc5})
	c.varied(func(c *Ctx) {
		trees(c)
		c.deep(0, oNs)
	}, 0, 1, 5, 6, 7, 8, 9, 10, 11)
	c.shrink, c.few = 2, 2
	if c.thorough {
		c.shrink, c.few = 1, 1
	}
	c.others("C05", "C06", "C07", "C09", "C10", "C02", "C03", "C04")
}

// ---- C29

// pair is two cursors and what they share.
type pair struct {
	nav   [2]*navigation.VtdNav
	tree  [2]*elemTree
	idx   [2][]int
	st    [2]parser.VerifState
	doc   [2][]byte
	reads [2]string // of fresh cursors
	sum   [2]string
}

// sharedSum lists all shared memory that a cursor could write.
func (p *pair) sharedSum(k int) string {
	out := append([]byte{}, p.doc[k]...)
	st := p.st[k]
	for _, b := range []buffer.LongBuffer{st.Vtd, st.L1, st.L2, st.L3, st.L4, st.L5} {
		if b == nil {
			continue
		}
		out = binary.AppendVarint(out, int64(b.GetSize()))
		for i := 0; i < b.GetSize(); i++ {
			v, _ := b.LongAt(i)
			out = binary.LittleEndian.AppendUint64(out, uint64(v))
		}
	}
	return string(out)
}

// allReads calls everything that only reads.
func allReads(n *navigation.VtdNav, docLen int) string {
	var b strings.Builder
	fmt.Fprint(&b, n.GetEncoding(), n.GetVtdBufferSize())
	for i := -1; i <= n.GetVtdBufferSize(); i++ {
		t, e1 := n.GetTokenType(i)
		o, e2 := n.GetTokenOffset(i)
		l, e3 := n.GetTokenLength(i)
		d, e4 := n.GetTokenDepth(i)
		fmt.Fprint(&b, "/", t, o, l, d, e1 == nil, e2 == nil, e3 == nil, e4 == nil)
		if e1 == nil && common.Token(t) != common.TokenDocument {
			s, e5 := n.ToStringAtIndex(i)
			r, e6 := n.ToRawStringAtIndex(i)
			b.WriteString(s + "|" + r)
			fmt.Fprint(&b, e5 == nil, e6 == nil)
		}
	}
	for k := 0; k+3 < docLen; k += 7 {
		s, e1 := n.ToStringAtRange(int32(k), 3)
		r, e2 := n.ToRawStringAtRange(int32(k), 3)
		b.WriteString(s + "|" + r)
		fmt.Fprint(&b, e1 == nil, e2 == nil)
	}
	return b.String()
}

func newNavOn(o *outcome, doc []byte, depths []byte) *navigation.VtdNav {
	st := o.p.VerifState()
	max := 0
	for _, d := range depths {
		if int(d) > max {
			max = int(d)
		}
	}
	n, err := navigation.NewVtdNav(int32(st.RootIndex), 0, int32(len(doc)), int32(max), st.Encoding, true, doc, st.Vtd, st.L1, st.L2, st.L3)
	if err != nil {
		panic(err)
	}
	return n
}

// newPair parses the two trees; with style&1 both cursors share the first.
func newPair(style byte, a, b []byte) *pair {
	p := &pair{}
	var os [2]*outcome
	for k, dep := range [][]byte{a, b} {
		if k == 1 && style&1 != 0 {
			os[1], p.doc[1], dep = os[0], p.doc[0], a
		} else {
			p.doc[k] = []byte(renderTree(style>>1&3, dep, 0))
			o := runParser(p.doc[k], false, 0, 0, oNs|oLc5)
			if !o.accepted() {
				return nil
			}
			os[k] = &o
		}
		p.st[k] = os[k].p.VerifState()
		p.nav[k] = newNavOn(os[k], p.doc[k], dep)
		p.tree[k] = buildTree(dep)
		for i := 0; i < p.st[k].Vtd.GetSize(); i++ {
			if t, err := p.nav[k].GetTokenType(i); err == nil && common.Token(t) == common.TokenStartingTag {
				p.idx[k] = append(p.idx[k], i)
			}
		}
		if len(p.idx[k]) != len(dep) {
			return nil
		}
		p.reads[k] = allReads(p.nav[k], len(p.doc[k]))
	}
	for k := range p.sum {
		p.sum[k] = p.sharedSum(k)
	}
	return p
}

func (p *pair) unchanged() string {
	for k := range p.sum {
		if p.sharedSum(k) != p.sum[k] {
			return "the tokens, the location cache or the document are changed"
		}
	}
	return ""
}

// cursors explores the product of the state graphs of two cursors.
func (w *Worker) cursors(pl []byte) string {
	n := int(pl[1]) + 2
	p := newPair(pl[0], pl[2:n], pl[n:])
	if p == nil {
		w.outcomes["not accepted"]++
		return ""
	}
	type state struct {
		nav [2]*navigation.VtdNav
		pos [2]int
		key [2]string
	}
	start := state{nav: p.nav, pos: [2]int{-1, -1}}
	for k := range start.key {
		start.key[k] = navKey(start.nav[k], -1)
	}
	seen := map[[2]string]bool{start.key: true}
	queue := []state{start}
	read := map[[2]int]bool{}
	for len(queue) > 0 {
		x := queue[0]
		queue = queue[1:]
		w.states++
		// reading moves nothing
		fresh := !read[x.pos]
		read[x.pos] = true
		for k := range x.nav {
			if !fresh {
				break
			}
			if got := allReads(x.nav[k], len(p.doc[k])); got != p.reads[k] {
				return fmt.Sprintf("with the cursors at elements %d and %d, what cursor %d reads differs from what a new one reads: %+q, new %+q", x.pos[0], x.pos[1], k+1, clipDiff(got, p.reads[k]), clipDiff(p.reads[k], got))
			}
			for j := range x.nav {
				if what := p.at(x.nav[j], j, x.pos[j]); what != "" {
					return fmt.Sprintf("reading with cursor %d: cursor %d %s", k+1, j+1, what)
				}
			}
		}
		for k := range x.nav {
			for _, dir := range directions {
				y := x
				y.nav[k] = cloneNav(x.nav[k])
				pos, what := w.step(y.nav[k], p.tree[k], p.idx[k], x.pos[k], dir)
				if what != "" {
					return fmt.Sprintf("with the cursors at elements %d and %d: cursor %d: %s", x.pos[0], x.pos[1], k+1, what)
				}
				if what := p.at(x.nav[1-k], 1-k, x.pos[1-k]); what != "" {
					return fmt.Sprintf("moving cursor %d: cursor %d %s", k+1, 2-k, what)
				}
				y.pos[k] = pos
				y.key[k] = navKey(y.nav[k], pos)
				if !seen[y.key] {
					if len(seen) >= 300000 {
						w.c.cap("a pair of cursors")
						continue
					}
					seen[y.key] = true
					queue = append(queue, y)
				}
			}
		}
	}
	w.outcomes["product graph"]++
	return p.unchanged()
}

// at checks the position of cursor k.
func (p *pair) at(n *navigation.VtdNav, k, pos int) string {
	want := int32(0)
	if pos >= 0 {
		want = int32(p.idx[k][pos])
	}
	if got, err := n.GetCurrentIndex(); err != nil || got != want {
		return fmt.Sprintf("is at token %d (%v), expected %d", got, err, want)
	}
	return ""
}

func clipDiff(a, b string) string {
	k := 0
	for k < len(a) && k < len(b) && a[k] == b[k] {
		k++
	}
	if k > 10 {
		k -= 10
	} else {
		k = 0
	}
	a = a[k:]
	if len(a) > 40 {
		a = a[:40]
	}
	return a
}

// trees and documents for sequences and concurrent cursors
var cursorTrees = [][]byte{
	{0, 1, 2, 2, 1},
	{0, 1, 2, 3, 4, 4, 3, 2, 1},
	{0, 1, 1, 2, 3, 3, 1, 2},
	{0},
	{0, 1, 2, 3, 4, 5, 5, 4},
}

// cursorSeq makes the steps one after the other on new cursors: 0-5 and 6-11
// are moves of the first and the second, 12 and 13 reads, 14 replaces the
// second cursor by a new one.
func (w *Worker) cursorSeq(pl []byte) string {
	style, a, b := pl[0]&7, cursorTrees[pl[0]>>3%5], cursorTrees[(pl[0]>>3+1)%5]
	p := newPair(style, a, b)
	if p == nil {
		w.outcomes["not accepted"]++
		return ""
	}
	pos := [2]int{-1, -1}
	for i, s := range pl[1:] {
		k := int(s) / 6
		what := ""
		switch {
		case s < 12:
			pos[k], what = w.step(p.nav[k], p.tree[k], p.idx[k], pos[k], directions[s%6])
		case s < 14:
			if got := allReads(p.nav[s-12], len(p.doc[s-12])); got != p.reads[s-12] {
				what = "what a cursor reads changes"
			}
		default:
			x := newPair(style, a, b)
			p.nav[1], p.tree[1], p.idx[1], p.st[1], p.doc[1] = x.nav[1], x.tree[1], x.idx[1], x.st[1], x.doc[1]
			pos[1] = -1
		}
		for j := 0; j < 2 && what == ""; j++ {
			if what = p.at(p.nav[j], j, pos[j]); what != "" {
				what = fmt.Sprintf("cursor %d %s", j+1, what)
			}
		}
		if what != "" {
			return fmt.Sprintf("step %d: %s", i+1, what)
		}
	}
	return p.unchanged()
}

// navRaceRun walks and reads with two cursors at the same time.
func navRaceRun(a, b int) {
	style := byte(6)
	if a == b {
		style |= 1
	}
	p := newPair(style, cursorTrees[a], cursorTrees[b])
	if p == nil {
		return
	}
	var wg sync.WaitGroup
	for k := 0; k < 2; k++ {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			n := p.nav[k]
			for _, path := range [][]navigation.Direction{
				{navigation.Root, navigation.FirstChild, navigation.FirstChild, navigation.NextSibling, navigation.FirstChild, navigation.LastChild, navigation.PrevSibling, navigation.Parent, navigation.NextSibling},
				{navigation.Root, navigation.LastChild, navigation.LastChild, navigation.PrevSibling, navigation.LastChild, navigation.FirstChild, navigation.FirstChild, navigation.FirstChild, navigation.NextSibling, navigation.Parent, navigation.Parent, navigation.PrevSibling},
			} {
				for _, d := range path {
					n.ToElement(d)
					n.GetCurrentIndex()
				}
				allReads(n, len(p.doc[k]))
			}
		}()
	}
	wg.Wait()
}

func checkC29(c *Ctx) {
	var trees [][]byte
	max := pick(c, 5, 6)
	cut := 0
	for n := 1; n <= max; n++ {
		allTrees(n, 255, func(d []byte) { trees = append(trees, append([]byte{}, d...)) })
		if n == max-1 {
			cut = len(trees)
		}
	}
	put := func(style byte, a, b []byte) []byte {
		return append(append([]byte{style, byte(len(a))}, a...), b...)
	}
	var races [][]byte
	for i := range cursorTrees {
		for j := range cursorTrees {
			if j >= i {
				races = append(races, []byte{byte(i), byte(j)})
			}
		}
	}
	if c.session {
		races = nil
	}
	c.Space("happens-before", len(races), func(w *Worker, i int) {
		w.states++
		w.Do("navrace", races[i])
	})
	c.Space("two cursors on one parse", len(trees), func(w *Worker, i int) {
		for _, style := range []byte{1, 3, 7} {
			w.Do("cursors", put(style, trees[i], trees[i]))
		}
		c.Sample(fmt.Sprint("depths ", trees[i]))
	})
	c.Space("cursors on two parses", cut*cut, func(w *Worker, i int) {
		w.Do("cursors", put(byte(i%3)*2, trees[i/cut], trees[i%cut]))
	})
	deep := [][]byte{cursorTrees[1], cursorTrees[2], cursorTrees[4]}
	low := [][]byte{{0}, {0, 1, 1}, {0, 1, 2, 3}, {0, 1, 2, 2}, {0, 1, 2, 3, 4, 3}}
	c.Space("deeper trees", len(deep)*len(low), func(w *Worker, i int) {
		w.Do("cursors", put(6, deep[i/len(low)], low[i%len(low)]))
		w.Do("cursors", put(2, low[i%len(low)], deep[i/len(low)]))
	})
	length := pick(c, 4, 5)
	c.Space("step sequences", 40*15, func(w *Worker, i int) {
		head := []byte{byte(i / 15), byte(i % 15)}
		if head[0]&6 > 4 || head[0]>>3 == 3 && !c.thorough {
			return
		}
		var rec func(pl []byte, left int)
		rec = func(pl []byte, left int) {
			if left == 0 || c.Stop() {
				w.states++
				w.Do("cursorseq", pl)
				return
			}
			for s := byte(0); s < 15; s++ {
				w.transitions++
				rec(append(append([]byte{}, pl...), s), left-1)
			}
		}
		rec(head, length-1)
	})
	// long histories of documents that are parsed, read and walked
	c.sequences(c.collectDocs(func() {
		c.docs("trees", len(trees), []byte{oNs | oLc5}, func(i int, emit func(string)) {
			for style := byte(0); style < 4; style++ {
				emit(renderTree(style, trees[i], 0))
			}
		})
		c.shrink, c.few = 4, 12
		c.others("C03", "C05", "C06", "C07", "C10")
	}), seqNav, pick(c, 500, 1500))
}
