package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"strings"
	"sync"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/parser"

	"mc/ref"
)

func init() {
	register("C01", "all byte strings up to 3 (thorough 4) over 40 markup bytes and their completions in 14 contexts; byte trees; all truncations, single-byte replacements, insertions and deletions of 17 seed documents, and all windows of them; the spaces of C02-C07, C09, C10 two levels less deep; option lists; all with both cache depths and namespace modes; all size and depth families",
		checkC01)
	register("C08", "fragment trees over all constructs, and the spaces of C02-C07, C09, C10 one or two levels less deep; every accepted document's tokens compared field by field; all size and depth families; the first spaces and the depth families in twelve variants (seven preludes, long words, long whitespace, inside 4 and 100 elements)",
		checkC08)
	register("C11", "all windows of 17 seed documents; seed documents, their edits and fragment trees inside 18 kinds of padding; all offset and length pairs around 0, the document size and the integer limits for sizes 0 to 6; windows at 19 (thorough 300) offsets up to 2^29",
		checkC11)
	register("C12", "every length from 3 below to 3 above each limit and its multiples in 30 contexts; depth 1 to 260; element, attribute, declaration and token counts around every internal page and table size in every document size class; pairs of lengths; long texts, comments and CDATA sections inside up to 253 elements",
		checkC12)

	families["term"] = func(w *Worker, pl []byte) string { return w.term(pl[1:], pl[0]) }
	families["genterm"] = func(w *Worker, pl []byte) string {
		d, ok := genDoc(string(pl[1:]))
		if !ok {
			return ""
		}
		return w.term([]byte(d), pl[0])
	}
	readers["term"] = readers["doc"]
	families["range"] = func(w *Worker, pl []byte) string { // document window, only termination
		off, n := int(int64(binary.LittleEndian.Uint64(pl[1:]))), int(int64(binary.LittleEndian.Uint64(pl[9:])))
		w.outcomes[runParser(pl[17:], true, off, n, pl[0]).verdict()]++
		return ""
	}
	readers["range"] = readers["ctor"]
	families["options"] = func(w *Worker, pl []byte) string { return w.options(pl) }
	families["win"] = func(w *Worker, pl []byte) string {
		a, b := int(binary.LittleEndian.Uint16(pl[1:])), int(binary.LittleEndian.Uint16(pl[3:]))
		return w.window(pl[5:], a, b, pl[0])
	}
	readers["win"] = func(pl []byte) string {
		a, b := int(binary.LittleEndian.Uint16(pl[1:])), int(binary.LittleEndian.Uint16(pl[3:]))
		return fmt.Sprintf("window [%d,%d) of %s ns=%v lc5=%v", a, a+b, quote(pl[5:]), pl[0]&oNs != 0, pl[0]&oLc5 != 0)
	}
	families["far"] = func(w *Worker, pl []byte) string {
		return w.far(pl[6:], int(binary.LittleEndian.Uint32(pl[2:])), pl[1], pl[0])
	}
	readers["far"] = func(pl []byte) string {
		return fmt.Sprintf("window at %d of a big array: %s ns=%v lc5=%v", binary.LittleEndian.Uint32(pl[2:]), quote(pl[6:]), pl[0]&oNs != 0, pl[0]&oLc5 != 0)
	}
	families["pads"] = func(w *Worker, pl []byte) string { return w.pads(pl[1:], pl[0]) }
	families["genpads"] = func(w *Worker, pl []byte) string {
		d, ok := genDoc(string(pl[1:]))
		if !ok {
			return ""
		}
		return w.pads([]byte(d), pl[0])
	}
	readers["pads"] = readers["doc"]
	families["ctor"] = func(w *Worker, pl []byte) string {
		off, n := int(int64(binary.LittleEndian.Uint64(pl[1:]))), int(int64(binary.LittleEndian.Uint64(pl[9:])))
		return w.ctor(pl[17:], off, n, pl[0])
	}
	readers["ctor"] = func(pl []byte) string {
		off, n := int(int64(binary.LittleEndian.Uint64(pl[1:]))), int(int64(binary.LittleEndian.Uint64(pl[9:])))
		return fmt.Sprintf("NewVtdParser(WithXmlDocCustomOffset(%s, %d, %d))", quote(pl[17:]), off, n)
	}
	readers["range"] = readers["ctor"]
}

func quote(b []byte) string {
	if len(b) > 400 {
		return fmt.Sprintf("%+q...", b[:400])
	}
	return fmt.Sprintf("%+q", b)
}

// term only demands that the parser comes back.
func (w *Worker) term(d []byte, opts byte) string {
	w.outcomes[runParser(d, false, 0, 0, opts).verdict()]++
	return ""
}

func rangePayload(o byte, off, n int, d []byte) []byte {
	b := make([]byte, 17, 17+len(d))
	b[0] = o
	binary.LittleEndian.PutUint64(b[1:], uint64(int64(off)))
	binary.LittleEndian.PutUint64(b[9:], uint64(int64(n)))
	return append(b, d...)
}

func winPayload(o byte, off, n int, d string) []byte {
	b := make([]byte, 5, 5+len(d))
	b[0] = o
	binary.LittleEndian.PutUint16(b[1:], uint16(off))
	binary.LittleEndian.PutUint16(b[3:], uint16(n))
	return append(b, d...)
}

// others runs the spaces of the document checks with the current overrides.
func (c *Ctx) others(ids ...string) {
	for _, id := range ids {
		pre := len(c.spaces)
		_ = pre
		checks[id].run(c)
	}
}

var allOpts = []byte{0, oNs, oLc5, oNs | oLc5}

var markupBytes = []string{"<", ">", "/", "!", "?", "-", "[", "]", "&", ";", "#", "=", "\"", "'", " ", "\n", ":", "a", "x", "m", "l", "D", "C", "1", "\x00", "\x80", "\xC3", "\xE2", "\xF0", "\xEF", "\xBB", "\xBF", "\xFE", "\xFF", "\r", "\t", "p", "e", "\u00e9", "_"}

func checkC01(c *Ctx) {
	// all short strings, as documents and behind contexts
	ctx := []string{"", "<", "<a", "<a ", "<a b='", "<a>", "<a>t", "<!--", "<a><!--", "<a><![CDATA[", "<?p ", "<a/>", "<a/><", "<!DOCTYPE a[", "\xEF\xBB\xBF", "<?xml ", "<?xml version='1.0' ", "<a></", "<a>&", "<a b=\"&#", "<a/><!", "<a/><?", "<a xmlns:p='u'><p:", "<?", "<a><b/>", "<?xml version='1.0' encoding='"}
	n := len(markupBytes)
	depth := pick(c, 3, 4)
	c.Space("strings", len(ctx)*n, func(w *Worker, i int) {
		base := ctx[i/n]
		var rec func(s string, left int)
		rec = func(s string, left int) {
			w.states++
			for _, o := range allOpts {
				w.runDoc("term", []byte(s), "", o)
			}
			if left == 0 || c.Stop() {
				return
			}
			for _, b := range markupBytes {
				w.transitions++
				rec(s+b, left-1)
			}
		}
		rec(base+markupBytes[i%n], depth-1)
		if w.states&0xFF == 1 {
			c.Sample(base + markupBytes[i%n])
		}
	})
	// all windows, truncations and edits of the seed documents
	type pos struct{ d, k int }
	var ps []pos
	seeds := append([]string{}, seedDocs...)
	seeds = append(seeds, "<r xmlns='u' xmlns:p=\"&amp;v\"><p:a p:b='&#60;' q='1' xml:c=''>&gt;]]<?p?></p:a></r><?q?><!-- -->\n")
	for di, d := range seeds {
		for k := 0; k <= len(d); k++ {
			ps = append(ps, pos{di, k})
		}
	}
	edits := []byte{'<', '>', '/', '!', '?', '-', '[', ']', '&', ';', '#', '=', '"', '\'', ' ', '\n', ':', 'a', 'x', 'C', '0', 0, 0x80, 0xC3, 0xE2, 0xF0, 0xEF, 0xFF}
	c.Space("truncations and edits", len(ps), func(w *Worker, i int) {
		d, k := seeds[ps[i].d], ps[i].k
		w.states++
		run := func(s string) {
			w.transitions++
			for _, o := range allOpts {
				w.runDoc("term", []byte(s), "", o)
			}
		}
		run(d[:k])
		run(d[k:])
		if k < len(d) {
			run(d[:k] + d[k+1:])
			run(d[:k] + d[k:k+1] + d[k:])
			for j := k + 1; j <= len(d) && j < k+12; j++ {
				run(d[:k] + d[j:]) // a range deleted
			}
		}
		if c.thorough {
			for b := 0; b < 256; b++ {
				run(d[:k] + string([]byte{byte(b)}) + d[k:])
				run(d[:k] + string([]byte{byte(b)}))
				if k < len(d) {
					run(d[:k] + string([]byte{byte(b)}) + d[k+1:])
				}
			}
			return
		}
		for _, b := range edits {
			run(d[:k] + string([]byte{b}) + d[k:])
			run(d[:k] + string([]byte{b}))
			if k < len(d) {
				run(d[:k] + string([]byte{b}) + d[k+1:])
			}
		}
	})
	c.Space("windows", len(ps), func(w *Worker, i int) {
		d, k := seeds[ps[i].d], ps[i].k
		w.states++
		for l := 1; k+l <= len(d); l++ {
			w.transitions++
			for _, o := range []byte{oNs | oLc5, 0} {
				w.Do("range", rangePayload(o, k, l, []byte(d)))
			}
		}
	})
	ints := []int{math.MinInt64, math.MinInt64 + 1, -1 << 32, -1 << 31, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 1<<31 - 1, 1 << 31, 1 << 32, math.MaxInt64 - 5, math.MaxInt64 - 1, math.MaxInt64}
	c.Space("window arguments", len(ints), func(w *Worker, i int) {
		for _, n := range ints {
			for _, d := range []string{"", "<", "<a/>", "<a/>\n", "\xEF\xBB\xBF<a/>"} {
				w.states++
				w.Do("range", rangePayload(0, ints[i], n, []byte(d)))
			}
		}
	})
	// option lists: every sequence of up to 3 (4) options of a table
	nOpt := len(optionTable)
	c.Space("option lists", nOpt*nOpt, func(w *Worker, i int) {
		w.states++
		pre := []byte{byte(i / nOpt), byte(i % nOpt)}
		w.Do("options", pre)
		if i < nOpt {
			w.Do("options", []byte{byte(i)})
		}
		if i == 0 {
			w.Do("options", nil)
		}
		for a := 0; a < nOpt; a++ {
			w.transitions++
			w.Do("options", append(append([]byte{}, pre...), byte(a)))
			for b := 0; b < nOpt; b++ {
				w.transitions++
				w.Do("options", append(append([]byte{}, pre...), byte(a), byte(b)))
			}
		}
	})
	c.docs("deep and wide", 400, allOpts, func(i int, emit func(string)) {})
	c.fam = "term"
	var s []string
	for _, n := range []int{1, 2, 3, 64, 127, 128, 253, 254, 255, 256, 257, 258, 300, 1000} {
		for how := 0; how <= 5; how++ {
			s = append(s, spec("chain", n, 0, how), spec("chain", n, n-1, how))
		}
		s = append(s, spec("open", n), spec("openattr", n), spec("closes", n), spec("opencloses", n, 3))
		for form := 0; form < 4; form++ {
			s = append(s, spec("attrs", n, 0, -1, form), spec("nsattrs", n, 0, -1, form), spec("nsattrs", n, 0, n-1, form|4))
		}
	}
	c.specs("nesting and counts", s, allOpts)
	c.allSizes(0, oNs|oLc5)
	c.deep(0, 0, oNs)
	c.charAt(oLc5)
	limitSpaces(c, []byte{0, oNs | oLc5})
	c.shrink = 2
	c.few = 2
	if c.thorough {
		c.shrink, c.few = 1, 0
	}
	c.others("C05", "C06", "C07", "C09", "C10", "C02", "C03", "C04")
}

// optionTable are the options C01 combines.
var optionTable = []func() parser.Option{
	func() parser.Option { return parser.WithXmlDoc([]byte("<a b='c'>t</a>")) },
	func() parser.Option { return parser.WithXmlDoc([]byte("<a><b>")) },
	func() parser.Option { return parser.WithXmlDoc([]byte{}) },
	func() parser.Option { return parser.WithXmlDoc(nil) },
	func() parser.Option { return parser.WithXmlDocCustomOffset([]byte("xx<a/>yy"), 2, 4) },
	func() parser.Option { return parser.WithXmlDocCustomOffset([]byte("xx<a/>yy"), 6, 4) },
	func() parser.Option { return parser.WithXmlDocCustomOffset([]byte("xx<a/>yy"), -2, 4) },
	func() parser.Option { return parser.WithXmlDocCustomOffset([]byte("xx<a/>yy"), 8, 0) },
	func() parser.Option { return parser.WithNameSpaceAware(true) },
	func() parser.Option { return parser.WithNameSpaceAware(false) },
	func() parser.Option { return parser.WithBufferReuse(true) },
	func() parser.Option { return parser.WithLcDepth(5) },
	func() parser.Option { return parser.WithLcDepth(3) },
	func() parser.Option { return parser.WithLcDepth(0) },
	func() parser.Option { return parser.WithLcDepth(-1) },
	func() parser.Option { return parser.WithLcDepth(1000000) },
}

func (w *Worker) options(pl []byte) string {
	var l []parser.Option
	for _, b := range pl {
		l = append(l, optionTable[b]())
	}
	p, err := parser.NewVtdParser(l...)
	if err != nil {
		w.outcomes["reject"]++
		return ""
	}
	if p == nil {
		return "neither a parser nor an error"
	}
	if err := p.Parse(); err != nil {
		w.outcomes["reject"]++
	} else {
		w.outcomes["accept"]++
	}
	return ""
}

func init() {
	// open n: n start tags without end; openattr: with attributes; closes n:
	// n end tags; opencloses n k: n start tags and n+k end tags.
	gens["open"] = func(a []int) string { return strings.Repeat("<a>", a[0]) }
	gens["openattr"] = func(a []int) string { return strings.Repeat("<a b='c' xmlns:d='e'>t", a[0]) }
	gens["closes"] = func(a []int) string { return "<r>" + strings.Repeat("</r>", a[0]) }
	gens["opencloses"] = func(a []int) string {
		return strings.Repeat("<a>", a[0]) + strings.Repeat("</a>", a[0]+a[1])
	}
}

func checkC08(c *Ctx) {
	all := []byte{oTok, oTok | oNs, oTok | oLc5, oTok | oNs | oLc5}
	trees := func(c *Ctx) {
		c.fragTree("constructs", []string{"", "<?xml version='1.0'?>"}, []string{"<a>", "<b x='1'>", "<p:c xmlns:p=\"u\" p:y=''>", "<d/>", "<e f = \"&lt;\" g='' />", "</a>", "</b>", "</p:c>", "text", " ", "\n", "&amp;", "]", "<!--c-->", "<!---->", "<?p v?>", "<?p?>", "<![CDATA[x]]>", "<![CDATA[]]>", "<!DOCTYPE a>", "\u00e9"}, 4, 5, all...)
		c.fragTree("inside", []string{"<a>", "<a><b>t</b>"}, []string{"x", " ", "\n", "\t\r\n", "&#65;", "]]", "<b/>", "<b></b>", "<b>", "</b>", "<!--c-->", "<?p  v ?>", "<?p?>", "<![CDATA[ ]]>", "\u20ac", "</a>", "</a >"}, 5, 6, oTok)
		c.fragTree("after the root", []string{"<a/>", "<a></a>", "<a>t</a>\n"}, []string{" ", "\n", "<!--c-->", "<!---->", "<!-- \u00e9 -->", "<?p?>", "<?p v?>", "<?p  v ?>", "<?pp \n ?>", "<?p ??>", "<!--->-->"}, 5, 6, oTok, oTok|oLc5)
		c.fragTree("before the root", []string{"", "<?xml version='1.0'?>", "<?xml version=\"1.1\" standalone='yes' ?>", "\xEF\xBB\xBF"}, []string{" ", "\n", "<!--c-->", "<!---->", "<?p?>", "<?p v?>", "<?p  v ?>", "<!DOCTYPE a>", "<!DOCTYPE\n a [<!ELEMENT a ANY>] >", "<?p ??>", "<a/>"}, 4, 5, oTok, oTok|oLc5)
		c.fragTree("tags", []string{"<a", "<p:a", "<r><a"}, []string{" ", "\n", "b", ":", "c", "=", " = ", "''", "\"v\"", "\" v&lt;w \"", ">", "/>", " />", "xmlns", "xmlns:p='u'", "b='1'"}, 5, 6, oTok|oNs)
	}
	trees(c)
	var s []string
	for n := 1; n <= 40; n++ {
		for form := 0; form <= 4; form++ {
			s = append(s, spec("siblings", n, form, -1))
		}
		for kind := 0; kind <= 5; kind++ {
			s = append(s, spec("tokens", n, kind, 0))
		}
		for l := 1; l <= 6; l++ {
			s = append(s, spec("level", l, n, 2))
		}
		for kind := 0; kind <= 29; kind++ {
			s = append(s, spec("fill", kind, n))
		}
		s = append(s, spec("chain", n, 0, 0), spec("pad", n*97))
	}
	for _, n := range []int{253, 254, 255} {
		s = append(s, spec("chain", n, 0, 0))
	}
	for _, n := range []int{510, 511} {
		for where := 0; where <= 6; where++ {
			s = append(s, spec("longname", 1500, n, -1, where), spec("longname", 2047, n, -1, where), spec("longname", n, 0, -1, where))
		}
	}
	for n := 2; n <= 300; n++ {
		for where := 0; where <= 6; where++ {
			for _, pre := range []int{0, 1, n / 2, n - 2} {
				if pre < 0 || pre >= n || pre > 255 && where == 5 {
					continue
				}
				s = append(s, spec("longname", n, pre, -1, where))
			}
		}
	}
	c.specs("generated", s, all)
	c.docs("seed documents", len(seedDocs), all, func(i int, emit func(string)) {
		d := seedDocs[i]
		emit(d)
		for k := range d {
			for _, x := range []string{" ", "\n", "x", "\u00e9", "<!--c-->", "<?p?>", "t", "&lt;", "<z/>"} {
				emit(d[:k] + x + d[k:])
			}
			emit(d[:k] + d[k+1:])
		}
	})
	c.allSizes(oTok|oNs, oTok|oLc5)
	c.deep(0, oTok, oTok|oNs)
	limitSpaces(c, []byte{oTok, oTok | oNs | oLc5})
	c.preluded(func(c *Ctx) {
		trees(c)
		c.deep(0, oTok|oNs)
	})
	c.force = oTok
	c.shrink = 2
	if c.thorough {
		c.shrink = 1
	} else {
		c.few = 6
	}
	c.others("C05", "C06", "C07", "C09", "C10", "C02", "C03", "C04")
}

// what stands around a window
var paddings = [][2]string{
	{"", "x"}, {"x", ""}, {"<a>", "</a>"}, {"\xEF\xBB\xBF", "\n"}, {"<!--", "-->"}, {"<?xml version='1.0'?>", "<b/>"},
	{"<?xml version='1.0' encoding='us-ascii'?>\n", ">"}, {"\n\n\r\n", "/>"}, {"\xE2", "\x82\xAC"}, {"\xFF\xFE", "\x80\xBF"},
	{"<![CDATA[", "]]>"}, {"<a b='", "'/>"}, {"&", ";"}, {"?", "?>"}, {"<", "lt;"}, {"<!DOCTYPE a [", "=\"1\">"}, {"]]", "]>"}, {"\x00", "\x00"},
	{"<a xmlns:p='u'>", "a></a>"}, {"</", ">"}, {strings.Repeat("<x/>", 300), strings.Repeat(" ", 700)},
}

func checkC11(c *Ctx) {
	seeds := append([]string{}, seedDocs...)
	seeds = append(seeds, "<r xmlns='u' xmlns:p=\"&amp;v\"><p:a p:b='&#60;' q='1' xml:c=''>&gt;]]<?p?></p:a></r><?q?><!-- -->\n")
	type pos struct{ d, k int }
	var ps []pos
	for di, d := range seeds {
		for k := 0; k < len(d); k++ {
			ps = append(ps, pos{di, k})
		}
	}
	c.Space("windows of documents", len(ps), func(w *Worker, i int) {
		d, k := seeds[ps[i].d], ps[i].k
		w.states++
		for l := 1; k+l <= len(d); l++ {
			w.transitions++
			for _, o := range []byte{0, oNs | oLc5} {
				w.Do("win", winPayload(o, k, l, d))
			}
		}
	})
	for di := range seeds {
		ps = append(ps, pos{di, len(seeds[di])})
	}
	c.fam = "pads"
	c.docs("documents in paddings", len(ps), []byte{0, oNs | oLc5}, func(i int, emit func(string)) {
		d, k := seeds[ps[i].d], ps[i].k
		emit(d[:k])
		emit(d[k:])
		for _, x := range []string{"<", ">", " ", "x", "&", "\u00e9", "\x80", "]", "-", "?", "\"", "/"} {
			emit(d[:k] + x + d[k:])
			if k < len(d) {
				emit(d[:k] + x + d[k+1:])
			}
		}
	})
	var offs []int
	for e := 7; e <= pick(c, 29, 29); e++ {
		for _, d := range []int{-200, -20, -9, -4, -2, -1, 0, 1, 7} {
			if n := 1<<uint(e) + d; n > 0 && n < 1<<29+1000 {
				offs = append(offs, n)
			}
		}
	}
	far := append(append([]string{}, seeds...), "<p:a xmlns:p='u'/>", "<a xmlns:p='u' xmlns:q='v' p:x='1' q:x='2'><p:b/></a>", "<a b='1' c='2' b='3'/>", "<a><b c='1' d='2'>t</b></a>", "<abcdefghijkl></abcdefghijkl>", "<a></b>", "<a xmlns:p='u' xmlns:q='u' p:x='1' q:x='2'/>", "<?xml version='1.0' encoding='us-ascii'?><a>t</a>")
	c.Space("windows in big arrays", len(offs), func(w *Worker, i int) {
		w.states++
		for k, d := range far {
			w.transitions++
			for _, o := range []byte{0, oNs | oLc5} {
				pl := binary.LittleEndian.AppendUint32([]byte{o, "<\x00a:"[(i+k)%4]}, uint32(offs[i]))
				w.Do("far", append(pl, d...))
			}
		}
	})
	// nested windows: documents made of documents
	c.Space("windows between documents", len(seeds)*len(seeds), func(w *Worker, i int) {
		a, b := seeds[i/len(seeds)], seeds[i%len(seeds)]
		w.states++
		for _, m := range seeds {
			w.transitions++
			for _, o := range allOpts {
				w.Do("win", winPayload(o, len(a), len(m), a+m+b))
			}
		}
	})
	ints := []int{math.MinInt64, math.MinInt64 + 1, -1 << 32, -1<<31 - 1, -1 << 31, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 1<<31 - 1, 1 << 31, 1<<32 - 4, 1 << 32, 1<<32 + 4, 1 << 62, math.MaxInt64 - 8, math.MaxInt64 - 7, math.MaxInt64 - 6, math.MaxInt64 - 5, math.MaxInt64 - 4, math.MaxInt64 - 3, math.MaxInt64 - 2, math.MaxInt64 - 1, math.MaxInt64}
	c.Space("window arguments", len(ints), func(w *Worker, i int) {
		for _, n := range ints {
			for _, d := range []string{"", "<", "<a", "<a/", "<a/>", "<a/>\n", "x<a/>", " <a/> ", "<a></a>", "<a/><a/>"} {
				w.states++
				for _, o := range []byte{0, oLc5} {
					w.Do("ctor", rangePayload(o, ints[i], n, []byte(d)))
				}
			}
		}
	})
	c.explore(tree{name: "fragments", seeds: []string{"", "<a>", "<a", "<?xml version='1.0' encoding='us-ascii'?>"}, frags: []string{"<a", " b='1'", " p:c=\"\"", " xmlns:p='u'", ">", "/>", "</a>", "t", "\u00e9", "&lt;", "<!--c-->", "<?p v?>", "<![CDATA[x]]>", "<", "\n"}, depth: pick(c, 3, 4), opts: []byte{0, oNs | oLc5}})
	c.shrink, c.few = 3, 12
	if c.thorough {
		c.shrink, c.few = 2, 3
	}
	c.others("C05", "C06", "C07", "C09", "C02")
}

// window compares the window of d with a copy of it.
func (w *Worker) window(d []byte, off, n int, opts byte) string {
	alone := append(make([]byte, 0, n), d[off:off+n]...)
	a := runParser(alone, false, 0, 0, opts)
	return w.windowAgainst(&a, d, off, n, opts)
}

func (w *Worker) windowAgainst(a *outcome, d []byte, off, n int, opts byte) string {
	b := runParser(d, true, off, n, opts)
	w.outcomes[b.verdict()]++
	if a.verdict() != b.verdict() {
		return fmt.Sprintf("alone the document is %sed (%s), as a window at %d it is %sed (%s)", a.verdict(), a.errText(), off, b.verdict(), b.errText())
	}
	if !a.accepted() {
		return ""
	}
	ta, err := tokens(a.p.VerifState().Vtd)
	if err != nil {
		return err.Error()
	}
	tb, err := tokens(b.p.VerifState().Vtd)
	if err != nil {
		return err.Error()
	}
	return compareTokens(tb, ta, off)
}

func (w *Worker) pads(d []byte, opts byte) string {
	if len(d) == 0 {
		return ""
	}
	a := runParser(append(make([]byte, 0, len(d)), d...), false, 0, 0, opts)
	for _, p := range paddings {
		w.transitions++
		buf := make([]byte, 0, len(p[0])+len(d)+len(p[1]))
		buf = append(append(append(buf, p[0]...), d...), p[1]...)
		if what := w.windowAgainst(&a, buf, len(p[0]), len(d), opts); what != "" {
			return fmt.Sprintf("between %s and %s: %s", quote([]byte(p[0])), quote([]byte(p[1])), what)
		}
	}
	return ""
}

var farMem sync.Map // *Worker to []byte

// far parses a window far inside a big array.
func (w *Worker) far(d []byte, off int, filler, opts byte) string {
	a := runParser(append(make([]byte, 0, len(d)), d...), false, 0, 0, opts)
	return w.placed(d, off, filler, func(mem []byte) string {
		return w.windowAgainst(&a, mem, off, len(d), opts)
	})
}

// ctor checks the arguments of the constructor.
func (w *Worker) ctor(d []byte, off, n int, opts byte) string {
	valid := len(d) > 0 && off >= 0 && n >= 1 && off < len(d) && n <= len(d)-off
	docs := [][]byte{d}
	if len(d) == 0 {
		docs = [][]byte{{}, nil}
	}
	for _, d := range docs {
		o := runParser(d, true, off, n, opts)
		var ia *erroring.InvalidArgumentError
		switch {
		case valid && o.newErr != nil:
			return "rejected: " + o.errText()
		case !valid && o.newErr == nil:
			return fmt.Sprintf("not rejected when the parser is created (Parse: %v)", o.err)
		case !valid && !errors.As(o.newErr, &ia):
			return fmt.Sprintf("%T is not an invalid argument error", o.newErr)
		case !valid && o.p != nil:
			return "a parser together with an error"
		}
		w.outcomes[o.verdict()]++
		if valid {
			if what := w.window(d, off, n, opts); what != "" {
				return what
			}
		}
		if len(d) == 0 {
			p, err := parser.NewVtdParser(parser.WithXmlDoc(d))
			if err == nil || p != nil || !errors.As(err, &ia) {
				return fmt.Sprintf("empty document: parser %v, error %v", p != nil, err)
			}
			if p, err = parser.NewVtdParser(); err == nil || p != nil || !errors.As(err, &ia) {
				return "no document: not rejected as an invalid argument"
			}
		}
	}
	return ""
}

func checkC12(c *Ctx) {
	limitSpaces(c, nil)
	c.similarNames(8, 15, oNs)
}

// limitSpaces are the sizes around every limit, page and table size.
func limitSpaces(c *Ctx, over []byte) {
	or := func(o []byte) []byte {
		if over != nil {
			return over
		}
		return o
	}
	tok := []byte{oTok, oTok | oNs | oLc5}
	var s []string
	for n := 1; n <= 300; n++ {
		s = append(s, spec("chain", n, 0, 0), spec("nsnest", n, 0), spec("nsnest", n, n-1))
	}
	c.specs("depth", s, or(tok))
	s = nil
	for where := 0; where <= 6; where++ {
		for _, n := range []int{1, 2, 127, 128, 129, 255, 256, 257, 510, 511, 512, 513, 1023, 1024, 1025, 2044, 2045, 2046, 2047, 2048, 2049, 2050, 2051, 2052, 4094, 4095, 4096, 4097, 65535, 65536, 65537} {
			for _, pre := range []int{0, 1, 2, 126, 127, 128, 254, 255, 256, 257, 508, 509, 510, 511, 512, 513, 514, 1022, 1023, 1024, 1025, 2045} {
				if pre < n-1 && !(where == 3 && pre > 0) {
					s = append(s, spec("longname", n, pre, -1, where))
				}
			}
		}
	}
	c.specs("names", s, or(tok))
	s = nil
	m := ref.MaxToken
	if over == nil {
		for where := 0; where <= 6; where++ {
			for n := 3; n <= 2060; n++ {
				if !c.thorough && n > 600 && n < 2000 && n%8 != 7 {
					continue
				}
				for _, pre := range []int{0, 1, n / 2, n - 2, 511, 512} {
					if pre < n-1 && !(where == 3 && pre > 0) {
						s = append(s, spec("longname", n, pre, -1, where))
					}
				}
			}
		}
		c.specs("names of every length", s, []byte{oTok | oNs | oLc5})
		s = nil
		for kind := 0; kind <= 29; kind++ {
			if kind == 5 {
				continue
			}
			for n := 1; n < pick(c, 1100, 4200); n++ {
				s = append(s, spec("fill", kind, n))
			}
			for n := m + 1; n <= m+pick(c, 80, 300); n++ {
				s = append(s, spec("fill", kind, n))
			}
		}
		c.specs("every length", s, []byte{oTok})
		s = nil
	}
	for kind := 0; kind <= 29; kind++ {
		if kind == 5 { // no claim about the length of a document type declaration
			continue
		}
		for _, n := range []int{m - 3, m - 2, m - 1, m, m + 1, m + 2, m + 3, m + 5} {
			if c.thorough || n >= m-1 && n <= m+1 || kind < 4 && n == m+2 {
				s = append(s, spec("fill", kind, n))
			}
		}
		for _, k := range []int{2, 3, 4} {
			if !c.thorough && (k > 3 || k == 3 && kind != 0 || kind > 3 && kind != 14 && kind != 18 && kind != 21 && kind != 25) {
				continue
			}
			for d := -2; d <= 2; d++ {
				if c.thorough || d >= -1 && d <= 1 {
					s = append(s, spec("fill", kind, k*m+d))
				}
			}
		}
		for e := 0; e <= pick(c, 14, 20); e++ {
			for d := -1; d <= 1; d++ {
				if n := 1<<uint(e) + d; n > 0 && n < m-3 {
					s = append(s, spec("fill", kind, n))
				}
			}
		}
	}
	c.specs("lengths", s, or([]byte{oTok}))
	s = nil
	for _, kind := range []int{0, 1, 2, 3, 4, 6, 7, 14, 18, 21} {
		for _, d := range []int{1, 2, 3, 4, 5, 8, 100, 253} {
			for _, n := range []int{1, 1024, m - 1, m, m + 1, 2*m - 1, 2 * m, 2*m + 1, 3 * m, 3*m + 2} {
				big := n > m+1 && kind != 0 && kind != 2 && kind != 3 && kind != 14 && kind != 18
				if big || !c.thorough && (n > m+1 && (kind > 3 || n%2 == 0) || d == 8 || n > 2*m+1 && d != 1) {
					continue
				}
				s = append(s, spec("deepfill", d, kind, n))
			}
		}
	}
	c.specs("lengths below the root", s, or([]byte{oTok}))
	s = nil
	for _, kind := range []int{0, 1, 2, 3, 4, 6, 7} {
		s = append(s, spec("fill", kind, m), spec("fill", kind, m+1))
	}
	c.specs("lengths, namespace aware", s, or([]byte{oTok | oNs | oLc5}))
	s = nil
	classes := []int{0, 1025, 4097, 16385, 65537, 262145}
	for kind := 0; kind <= 5; kind++ {
		for _, pg := range []int{32, 64, 128, 256, 512, 2048, 4096, 32768} {
			for _, mult := range []int{1, 2, 3} {
				for d := -3; d <= 2; d++ {
					n := pg*mult + d
					if pg*mult > 33000 && !c.thorough {
						continue
					}
					for _, pad := range classes {
						if pg > 600 && pad < 65537 && pad > 0 {
							continue
						}
						s = append(s, spec("tokens", n, kind, pad))
						if kind == 3 || kind == 4 { // two tokens each
							s = append(s, spec("tokens", n/2, kind, pad))
						}
					}
				}
			}
		}
	}
	c.specs("tokens", s, or([]byte{oTok | oLc5}))
	s = nil
	for n := 0; n <= 12; n++ {
		for _, sz := range []int{1024, 4096, 16384, 65536, 262144} {
			s = append(s, spec("pad", sz+n-6))
		}
	}
	c.specs("size classes", s, or([]byte{oTok, oTok | oLc5, oTok | oNs, oTok | oNs | oLc5}))
	s = nil
	for l := 1; l <= 7; l++ {
		for _, n := range []int{31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 2047, 2048, 2049, 4095, 4096, 4097, 6145} {
			for _, kids := range []int{0, 1, 2} {
				s = append(s, spec("level", l, n, kids))
			}
		}
	}
	c.specs("elements per level", s, or([]byte{oTok, oTok | oLc5}))
	s = nil
	for n := 1; n <= 1100; n++ {
		if n > 20 && n%64 > 1 && n%64 < 62 && n%100 != 0 {
			continue
		}
		for form := 0; form <= 3; form++ {
			s = append(s, spec("attrs", n, 0, -1, form), spec("attrs", n, n-2, n-1, form))
		}
		if n <= 600 {
			for form := 0; form <= 2; form++ {
				s = append(s, spec("nsattrs", n, 0, -1, form), spec("nsattrs", n, 0, n-1, form|4), spec("nsattrs", n, 0, n-1, form|8))
			}
		}
		s = append(s, spec("decls", n, 0), spec("decls", n, 1))
	}
	c.specs("attributes and declarations", s, or([]byte{oTok, oTok | oNs}))
}

func init() {
	// deepfill d kind n: the document of fill inside d elements
	gens["deepfill"] = func(a []int) string {
		return strings.Repeat("<w>", a[0]) + genFill(a[1:]) + strings.Repeat("</w>", a[0])
	}
	// decls n form: n elements one after the other (form 0) or n declarations
	// on nested elements of three (form 1), each declaring a prefix it uses
	gens["decls"] = func(a []int) string {
		var b strings.Builder
		b.WriteString("<r xmlns:q='w'>")
		for i := 0; i < a[0]; i++ {
			if a[1] == 0 {
				fmt.Fprintf(&b, "<p%d:a xmlns:p%d='u%d' p%d:b='' q:b=''/>", i, i, i, i)
			} else {
				fmt.Fprintf(&b, "<p%d:a xmlns:p%d='u%d'><q:b xmlns:z%d='v'><c p%d:d=''/></q:b></p%d:a>", i, i, i, i, i, i)
			}
		}
		b.WriteString("</r>")
		return b.String()
	}
}
