package main

import (
	"encoding/binary"
	"fmt"
	"strings"
	"sync"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"

	"mc/ref"
)

// C30: line ends in strings. C31: a parser parses once.

func init() {
	register("C30", "all strings of up to 6 (thorough 8) carriage returns, line feeds, characters and references as text, attribute value, comment, CDATA section, processing instruction and names' neighbours, between carriage returns and line feeds and at the end of the document, in both encodings; all ranges of all strings of up to 7 (thorough 9) over carriage return, line feed, letter and a multi-byte character; parsed documents with every pair of line ends in every pair of places; line ends at every distance up to 2^16 around powers of two and around the ends of the parts of long texts",
		checkC30)
	register("C31", "all strings up to 3 (thorough 4) bytes over the markup alphabet in 18 contexts, the fragment trees, edits and sizes of C02 to C10 made smaller, all truncations of the seed documents: every parse followed by three more calls of Parse",
		checkC31)
	families["crlf"] = func(w *Worker, pl []byte) string { return w.crlf(pl) }
	families["ends"] = func(w *Worker, pl []byte) string { return w.ends(pl) }
	readers["ends"] = readers["string"]
	families["endranges"] = func(w *Worker, pl []byte) string { return w.endRanges(pl) }
	readers["endranges"] = func(pl []byte) string { return "ranges of " + quote(pl[1:]) }
	families["endstrings"] = func(w *Worker, pl []byte) string { return w.endDoc(pl[1:], pl[0]) }
	families["genendstrings"] = viaGen((*Worker).endDoc)
	readers["endstrings"] = readers["doc"]
	families["again"] = func(w *Worker, pl []byte) string { return w.again(pl[1:], pl[0]) }
	families["genagain"] = viaGen((*Worker).again)
	readers["again"] = func(pl []byte) string { return "four calls of Parse: " + readers["doc"](pl) }
	gens["ends"] = genEnds
}

// lineEnds is the model: what the bytes of a string read as. XML reads a
// carriage return and a line feed as one line feed. Where the library gives
// two (the findings "crlf" of KNOWN_FINDINGS, which the case of that name
// decides), everything else is compared with two.
func lineEnds(s string, doubled bool) string {
	if strings.IndexByte(s, '\r') < 0 {
		return s
	}
	if !doubled {
		s = strings.ReplaceAll(s, "\r\n", "\n")
	}
	return strings.ReplaceAll(s, "\r", "\n")
}

// crlf is the text token made of a carriage return and a line feed: payload 0
// its raw string, 1 its string.
func (w *Worker) crlf(pl []byte) string {
	got := crlfString(pl[0] == 1)
	if got != "\n" {
		return fmt.Sprintf("%s of the text \"\\r\\n\" is %+q, expected \"\\n\"", []string{"raw string", "string"}[pl[0]&1], got)
	}
	return ""
}

func crlfString(resolved bool) string {
	e := longs(1, nil)
	nav, err := navigation.NewVtdNav(1, 0, 9, 1, common.FormatUtf8, true, []byte("<a>\r\n</a>"),
		longs(1, []int64{rec(ref.TDoc, 255, 0, 0), rec(ref.TStart, 0, 1, 1), rec(ref.TText, 0, 2, 3)}), e, e, e)
	if err != nil {
		return err.Error()
	}
	var got string
	if resolved {
		got, err = nav.ToStringAtIndex(2)
	} else {
		got, err = nav.ToRawStringAtIndex(2)
	}
	if err != nil {
		return err.Error()
	}
	return got
}

var (
	crlfOnce               sync.Once
	rawDoubled, strDoubled bool
)

// crlfKnown decides which of the two findings the code has.
func crlfKnown() {
	crlfOnce.Do(func() {
		rawDoubled, strDoubled = crlfString(false) == "\n\n", crlfString(true) == "\n\n"
	})
}

// ends: payload as of str.
func (w *Worker) ends(pl []byte) string {
	typ, enc := int(pl[0]), common.FormatEncoding(pl[1])
	off, n := int(binary.LittleEndian.Uint16(pl[2:])), int(binary.LittleEndian.Uint16(pl[4:]))
	doc := pl[6:]
	e := longs(1, nil)
	nav, err := navigation.NewVtdNav(1, 0, int32(len(doc)), 4, enc, true, doc,
		longs(1, []int64{rec(ref.TDoc, 255, 0, 0), rec(typ, 1, n, off), rec(ref.TStart, 1, 1, off+n+3)}), e, e, e)
	if err != nil {
		return err.Error()
	}
	before := string(doc)
	crlfKnown()
	raw := lineEnds(string(doc[off:off+n]), rawDoubled)
	want, bad, claim := resolveRefs(lineEnds(string(doc[off:off+n]), strDoubled))
	if bad || !claim {
		return ""
	}
	str := want
	if typ != ref.TText && typ != ref.TVal {
		str = raw
	}
	o, l := int32(off), int32(n)
	for k, f := range []func() (string, error){
		func() (string, error) { return nav.ToRawStringAtIndex(1) },
		func() (string, error) { return nav.ToRawStringAtRange(o, l) },
		func() (string, error) { return nav.ToStringAtIndex(1) },
		func() (string, error) { return nav.ToStringAtRange(o, l) },
	} {
		exp := []string{raw, raw, str, want}[k]
		if got, err := f(); err != nil || got != exp {
			return fmt.Sprintf("%s is %+q (%v), expected %+q", []string{"raw string of the token", "raw string of the range", "string of the token", "string of the range"}[k], got, err, exp)
		}
		w.outcomes["string"]++
	}
	if string(doc) != before {
		return "the document was modified"
	}
	return ""
}

// endRanges: all ranges of one document that have bytes.
func (w *Worker) endRanges(pl []byte) string {
	doc := pl[1:]
	e := longs(1, nil)
	nav, err := navigation.NewVtdNav(1, 0, int32(len(doc)), 4, common.FormatEncoding(pl[0]), true, doc,
		longs(1, []int64{rec(ref.TDoc, 255, 0, 0), rec(ref.TStart, 0, 1, 1)}), e, e, e)
	if err != nil {
		return err.Error()
	}
	crlfKnown()
	for off := 0; off < len(doc); off++ {
		for n := 1; off+n <= len(doc)+2; n++ {
			w.transitions += 2
			raw, rerr := nav.ToRawStringAtRange(int32(off), int32(n))
			res, serr := nav.ToStringAtRange(int32(off), int32(n))
			if off+n > len(doc) {
				if rerr == nil || serr == nil {
					return fmt.Sprintf("range %d+%d is outside of %d bytes: raw %+q (%v), string %+q (%v)", off, n, len(doc), raw, rerr, res, serr)
				}
				continue
			}
			want := lineEnds(string(doc[off:off+n]), rawDoubled)
			if rerr != nil || raw != want {
				return fmt.Sprintf("raw string of %d+%d is %+q (%v), expected %+q", off, n, raw, rerr, want)
			}
			want = lineEnds(string(doc[off:off+n]), strDoubled)
			if serr != nil || res != want {
				return fmt.Sprintf("string of %d+%d is %+q (%v), expected %+q", off, n, res, serr, want)
			}
		}
	}
	return ""
}

// endDoc compares the strings of all tokens of a parsed document.
func (w *Worker) endDoc(d []byte, opts byte) string {
	if len(d) == 0 {
		return ""
	}
	r := w.eng.ref.Parse(d, opts&oNs != 0)
	if r.Verdict != ref.Accept {
		w.outcomes["not accepted"]++
		return ""
	}
	nav, _, what := w.navAt(d, 0, len(d), &r, opts)
	if nav == nil {
		return what
	}
	return tokenStrings(nav, &r, d)
}

// ends kind n at end: a construct of n bytes with a line end at byte at.
func genEnds(a []int) string {
	kind, n, at := a[0], a[1], a[2]
	end := lineEndList[a[3]]
	if at < 0 || at+len(end) > n {
		return "<a/>"
	}
	s := strings.Repeat("x", at) + end + strings.Repeat("y", n-at-len(end))
	switch kind {
	case 0:
		return "<a>" + s + "</a>"
	case 1:
		return "<a b='" + s + "'/>"
	case 2:
		return "<a><!--" + s + "--></a>"
	case 3:
		return "<a><![CDATA[" + s + "]]></a>"
	case 4:
		return "<a><?p " + s + "?></a>"
	case 5:
		return "<!--" + s + "--><a/>"
	}
	return "<a/><?p v" + s + "?>"
}

var lineEndList = []string{"\r\n", "\r", "\n", "\r\r\n", "\n\r", "\r\n\r\n", "\n\n", "\r\r", "&#13;\n", "\r&#10;", "\r\u00e9\n"}

func checkC30(c *Ctx) {
	c.Space("a carriage return and a line feed", 2, func(w *Worker, i int) {
		w.states++
		w.Do("crlf", []byte{byte(i)})
	})
	frags := []string{"\r", "\n", "x", "&#13;", "&#xD;", "&#10;", "&lt;", "\u00e9", "\t"}
	encs := []byte{byte(common.FormatUtf8), byte(common.FormatAscii)}
	places := [][2]string{{"", ""}, {"<a>", "</a>"}, {"\r", "\n"}, {"\n", "\r"}, {"\r\n", "\r\n"}, {"&#13;", "&#10;"}}
	types := []byte{ref.TText, ref.TVal, ref.TComment, ref.TCdata, ref.TPiVal}
	depth := pick(c, 6, 8)
	n := len(frags)
	c.Space("strings", n*n, func(w *Worker, i int) {
		var rec func(s string, left int)
		rec = func(s string, left int) {
			w.states++
			for pi, p := range places {
				for ti, t := range types {
					if left < depth-4 && (pi+ti+len(s))%5 != 0 {
						continue
					}
					w.Do("ends", strPayload(t, encs[(pi+ti)%2], p[0], s, p[1]))
				}
			}
			if left == 0 || c.Stop() {
				return
			}
			for _, f := range frags {
				w.transitions++
				rec(s+f, left-1)
			}
		}
		if i%n == 0 {
			for _, t := range types {
				for _, p := range places {
					for _, e := range encs {
						w.Do("ends", strPayload(t, e, p[0], frags[i/n], p[1]))
					}
				}
			}
		}
		rec(frags[i/n]+frags[i%n], depth-2)
		if i%(n*n/6) == 0 {
			c.Sample(frags[i/n] + frags[i%n])
		}
	})
	short := []string{"\r", "\n", "x", "\u00e9"}
	c.Space("ranges", 16, func(w *Worker, i int) {
		var rec func(s string, left int)
		rec = func(s string, left int) {
			w.states++
			for _, e := range encs {
				w.Do("endranges", append([]byte{e}, s...))
			}
			if left == 0 || c.Stop() {
				return
			}
			for _, f := range short {
				rec(s+f, left-1)
			}
		}
		if i < 4 {
			for _, e := range encs {
				w.Do("endranges", append([]byte{e}, short[i]...))
			}
		}
		rec(short[i/4]+short[i%4], pick(c, 5, 7))
	})
	// parsed documents: line ends in every pair of places
	tmpl := []string{"", "<?xml", " ", "version='1.0'", "", "?>", "", "<!DOCTYPE a", "", "[", "", "]>", "", "<!--", "", "-->", "<?p", " ", "", "?>", "", "<a", " ", "b='", "", "&lt;", "", "'", "", ">", "", "t", "", "<b/>", "", "<!--", "c", "", "-->", "", "<?q", " ", "v", "", "?>", "<![CDATA[", "", "d", "", "]]>", "", "&amp;", "", "<c\t", "d", "", "=", "", "\"", "", "\"", "", "/>", "", "</a", "", ">", "", "<!--", "", "-->", "<?r", " ", "", "?>", ""}
	c.fam = "endstrings"
	ns := []byte{0, oNs}
	c.docs("documents", len(tmpl), ns, func(i int, emit func(string)) {
		l := append([]string{}, tmpl...)
		for _, x := range lineEndList {
			old := l[i]
			if old != "" && old != " " {
				l[i] = old + x
			} else {
				l[i] = x
			}
			emit(strings.Join(l, ""))
			for j := i + 1; j < len(l); j++ {
				for _, y := range lineEndList {
					old := l[j]
					if old != "" && old != " " {
						l[j] = old + y
					} else {
						l[j] = y
					}
					emit(strings.Join(l, ""))
					l[j] = old
				}
			}
			l[i] = old
		}
	})
	for _, o := range [][2]string{{"<a>", "</a>"}, {"<a b='", "'/>"}, {"<a><!--", "--></a>"}, {"<a><![CDATA[", "]]></a>"}, {"<a><?p ", "?></a>"}, {"<?xml version='1.0' encoding='us-ascii'?>\r\n<a b=\"", "\">\r\n</a>"}, {"\xEF\xBB\xBF<a>", "<b/></a>"}} {
		c.fragTree("documents around "+quote([]byte(o[0])), []string{o[0]}, prefixedEnds(o[1]), 6, 7, ns...)
	}
	c.docs("seed documents", len(seedDocs), ns, func(i int, emit func(string)) {
		d := seedDocs[i]
		for k := 0; k <= len(d); k++ {
			for _, x := range lineEndList[:8] {
				emit(d[:k] + x + d[k:])
				if k < len(d) {
					emit(d[:k] + x + d[k+1:])
				}
			}
		}
	})
	var s []string
	for kind := 0; kind <= 6; kind++ {
		for e := range lineEndList {
			for at := 0; at <= 70; at++ {
				s = append(s, spec("ends", kind, at+20, at, e))
			}
			for p := 7; p <= pick(c, 16, 20); p++ {
				for d := -4; d <= 3; d++ {
					s = append(s, spec("ends", kind, 1<<uint(p)+60, 1<<uint(p)+d, e))
				}
			}
		}
	}
	mx := ref.MaxToken
	for _, kind := range []int{0, 2, 3, 5} {
		for e := range lineEndList[:6] {
			for _, k := range []int{1, 2} {
				for d := -3; d <= 2; d++ {
					if k == 1 || c.thorough {
						s = append(s, spec("ends", kind, k*mx+7, k*mx+d, e))
					}
				}
			}
		}
	}
	for _, kind := range []int{1, 4, 6} {
		for e := range lineEndList[:4] {
			s = append(s, spec("ends", kind, mx-8, mx-20, e))
		}
	}
	c.specs("line ends at every distance", s, []byte{0})
	c.fam = ""
}

// prefixedEnds are the fragments of a tree inside one construct; the last one
// closes it.
func prefixedEnds(end string) []string {
	return []string{"\r", "\n", "x", "&#13;", "\u00e9", "]", "-", end}
}

// again: one parse and three more calls.
func (w *Worker) again(d []byte, opts byte) string {
	if len(d) == 0 {
		return ""
	}
	o := runParser(d, false, 0, len(d), opts)
	if o.newErr != nil {
		return ""
	}
	st := o.p.VerifState()
	toks, _ := tokens(st.Vtd)
	root := st.RootIndex
	if o.accepted() {
		w.outcomes["accept"]++
	} else {
		w.outcomes["reject"]++
	}
	for k := 2; k <= 4; k++ {
		w.transitions++
		if err := o.p.Parse(); err == nil {
			return fmt.Sprintf("call %d of Parse succeeds", k)
		}
		st := o.p.VerifState()
		now, err := tokens(st.Vtd)
		if err != nil {
			return fmt.Sprintf("token buffer after call %d: %v", k, err)
		}
		if len(now) != len(toks) {
			return fmt.Sprintf("%d tokens after call %d of Parse, %d before", len(now), k, len(toks))
		}
		for i := range now {
			if now[i] != toks[i] {
				return fmt.Sprintf("token %d is %+v after call %d of Parse, was %+v", i, now[i], k, toks[i])
			}
		}
		if st.RootIndex != root {
			return fmt.Sprintf("root index %d after call %d of Parse, was %d", st.RootIndex, k, root)
		}
	}
	return ""
}

func checkC31(c *Ctx) {
	n := len(markupBytes)
	depth := pick(c, 3, 4)
	ctx := []string{"", "<", "<a ", "<a b='", "<a>", "<!--", "<a><![CDATA[", "<?p ", "<a/>", "<a/><", "<!DOCTYPE a[", "\xEF\xBB\xBF", "<?xml version='1.0' ", "<a></", "<a>&", "<a/><!", "<a/><?", "<a xmlns:p='u'><p:"}
	c.Space("strings", len(ctx)*n, func(w *Worker, i int) {
		var rec func(s string, left int)
		rec = func(s string, left int) {
			w.states++
			for _, o := range []byte{0, oNs | oLc5} {
				w.Do("again", append([]byte{o}, s...))
			}
			if left == 0 || c.Stop() {
				return
			}
			for _, b := range markupBytes {
				rec(s+b, left-1)
			}
		}
		rec(ctx[i/n]+markupBytes[i%n], depth-1)
	})
	c.fam = "again"
	c.docs("truncations", len(seedDocs), allOpts, func(i int, emit func(string)) {
		d := seedDocs[i]
		for k := 1; k <= len(d); k++ {
			emit(d[:k])
			emit(d[:k] + "<")
			emit(d[:k] + "\x00")
		}
	})
	c.allSizes(0, oNs|oLc5)
	c.deep(0, oNs|oLc5)
	c.shrink, c.few = 2, 3
	if c.thorough {
		c.shrink, c.few = 1, 1
	}
	c.others("C02", "C03", "C05", "C06", "C09", "C10")
}
