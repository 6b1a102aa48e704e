package main

import (
	"fmt"
	"strings"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
)

func init() {
	register("C02", "fragment trees over element, text, comment, CDATA and PI fragments; character trees over < / > a b space; all chains up to 255 levels with one wrong end tag at any level; long names with a difference at any byte; up to 600 siblings; its constructs, right and wrong, beside every other construct at depths 0 to 20 and around powers of two up to 254 and after 0 to 258 other constructs; the same constructs near and far (every distance up to 200, thorough 1100, and around powers of two up to 2^18, thorough 2^24), far inside big arrays, repeated up to 65539 times; documents cut short and changed by one byte at every depth; all pairs of names of up to 3 easily confused letters; other characters that look or end like it in the place of every byte; smaller versions of these spaces in twelve variants (behind seven preludes: other encoding declaration and reader, byte order mark, version 1.1, standalone, DOCTYPE, comment and processing instruction, all together; with long words, longer words, long whitespace; inside four elements with long words and whitespace, inside a hundred elements)",
		checkC02)
	register("C03", "character tree inside a start tag; fragment tree over attributes of nested and successive elements; all pairs of 30 similar names; up to 600 attributes with a duplicate pair; its constructs, right and wrong, beside every other construct at depths 0 to 20 and around powers of two up to 254 and after 0 to 258 other constructs; the same constructs near and far (every distance up to 200, thorough 1100, and around powers of two up to 2^18, thorough 2^24), far inside big arrays, repeated up to 65539 times; 38 kinds of attributes after 0 to 258 others; all pairs of similar names and of lengths; other characters that look or end like it in the place of every byte; smaller versions of these spaces in twelve variants (behind seven preludes: other encoding declaration and reader, byte order mark, version 1.1, standalone, DOCTYPE, comment and processing instruction, all together; with long words, longer words, long whitespace; inside four elements with long words and whitespace, inside a hundred elements)",
		checkC03)
	register("C04", "character trees behind & in 20 contexts; code points in decimal and hexadecimal with leading zeros in 3 contexts; numbers around powers of two; its constructs, right and wrong, beside every other construct at depths 0 to 20 and around powers of two up to 254 and after 0 to 258 other constructs; the same constructs near and far (every distance up to 200, thorough 1100, and around powers of two up to 2^18, thorough 2^24), far inside big arrays, repeated up to 65539 times; every code point; numbers of any size; other characters that look or end like it in the place of every byte; smaller versions of these spaces in twelve variants (behind seven preludes: other encoding declaration and reader, byte order mark, version 1.1, standalone, DOCTYPE, comment and processing instruction, all together; with long words, longer words, long whitespace; inside four elements with long words and whitespace, inside a hundred elements)",
		checkC04)
	register("C05", "character trees over the delimiter alphabets inside comments, CDATA sections, processing instructions and text in 30 contexts; its constructs, right and wrong, beside every other construct at depths 0 to 20 and around powers of two up to 254 and after 0 to 258 other constructs; the same constructs near and far (every distance up to 200, thorough 1100, and around powers of two up to 2^18, thorough 2^24), far inside big arrays, repeated up to 65539 times; runs of delimiters of every length up to 40 and around powers of two; 36 constructs before and after the root after 0 to 1025 others; other characters that look or end like it in the place of every byte; smaller versions of these spaces in twelve variants (behind seven preludes: other encoding declaration and reader, byte order mark, version 1.1, standalone, DOCTYPE, comment and processing instruction, all together; with long words, longer words, long whitespace; inside four elements with long words and whitespace, inside a hundred elements)",
		checkC05)
	register("C06", "all edits of up to two fragments of 4 declarations; fragment and character trees; byte order mark trees; declarations and DOCTYPE at every fragment boundary; the same constructs near and far (every distance up to 200, thorough 1100, and around powers of two up to 2^18, thorough 2^24), far inside big arrays, repeated up to 65539 times; other characters that look or end like it in the place of every byte; smaller versions with long words and long whitespace",
		checkC06)
	register("C07", "every code point in the positions of a name and of text; every byte sequence up to 4 over UTF-8 class representatives in 8 positions; its constructs, right and wrong, beside every other construct at depths 0 to 20 and around powers of two up to 254 and after 0 to 258 other constructs; the same constructs near and far (every distance up to 200, thorough 1100, and around powers of two up to 2^18, thorough 2^24), far inside big arrays, repeated up to 65539 times; malformed and illegal characters at every position of long fillers and names; smaller versions of these spaces in twelve variants (behind seven preludes: other encoding declaration and reader, byte order mark, version 1.1, standalone, DOCTYPE, comment and processing instruction, all together; with long words, longer words, long whitespace; inside four elements with long words and whitespace, inside a hundred elements)",
		checkC07)
	register("C09", "fragment trees over prefixed elements, attributes and declarations with three prefixes; reserved names; nesting up to 250 levels; up to 300 declarations; its constructs, right and wrong, beside every other construct at depths 0 to 20 and around powers of two up to 254 and after 0 to 258 other constructs; the same constructs near and far (every distance up to 200, thorough 1100, and around powers of two up to 2^18, thorough 2^24), far inside big arrays, repeated up to 65539 times; other characters that look or end like it in the place of every byte; smaller versions of these spaces in twelve variants (behind seven preludes: other encoding declaration and reader, byte order mark, version 1.1, standalone, DOCTYPE, comment and processing instruction, all together; with long words, longer words, long whitespace; inside four elements with long words and whitespace, inside a hundred elements)",
		checkC09)
	register("C10", "fragment trees over prefixed attributes and declarations in different spellings on one, nested and successive elements; up to 300 attributes with one colliding pair; its constructs, right and wrong, beside every other construct at depths 0 to 20 and around powers of two up to 254 and after 0 to 258 other constructs; the same constructs near and far (every distance up to 200, thorough 1100, and around powers of two up to 2^18, thorough 2^24), far inside big arrays, repeated up to 65539 times; long namespace names and pairs of lengths; every character in a namespace name against the ones that share its low bits; other characters that look or end like it in the place of every byte; smaller versions of these spaces in twelve variants (behind seven preludes: other encoding declaration and reader, byte order mark, version 1.1, standalone, DOCTYPE, comment and processing instruction, all together; with long words, longer words, long whitespace; inside four elements with long words and whitespace, inside a hundred elements)",
		checkC10)
}

func checkC02(c *Ctx) {
	c.fragTree("elements", []string{""}, []string{"<a", "<b", ">", "/>", "</a", "</b", " ", "x", "<!--c-->", "<?p v?>", "<![CDATA[d]]>", "&lt;", "</", "/", "a"}, 7, 9, 0, oLc5)
	c.fragTree("whole tags", []string{"", "<a>", "<a><b>"}, []string{"<a>", "<b>", "<a/>", "<ab>", "</a>", "</b>", "</ab>", "</a >", "</ a>", "< a>", "<a />", "<a / >", "x", "\n", "<!--c-->", "<?p?>", "<![CDATA[]]>"}, 5, 7, 0, oLc5)
	c.fragTree("characters", []string{"", "<a>"}, []string{"<", "a", "b", ">", "/", " "}, 8, 10, 0)
	c.fragTree("names", []string{"<ab>", "<a><ab>", "<a><a:b>", "<\u00e9>", "<a.b-c>"}, []string{"<", "a", "b", ">", "/", ":", "\u00e9", "\u00e8", "\xc3", ".", "-", "c", "\n"}, 5, 7, 0)
	var s []string
	for n := 1; n <= 255; n++ {
		for bad := 0; bad < n; bad++ {
			if !c.thorough && n > 40 && n%50 > 2 && n < 250 {
				continue
			}
			for how := 1; how <= 5; how++ {
				if how > 1 && bad > 6 && bad < n-6 && bad != 127 && bad != 128 && bad%16 != 0 {
					continue
				}
				s = append(s, spec("chain", n, bad, how))
			}
		}
		s = append(s, spec("chain", n, 0, 0))
	}
	c.specs("chains", s, []byte{0, oLc5})
	s = nil
	for _, n := range []int{1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2046, 2047} {
		for _, where := range []int{0, 4, 5} {
			for d := -3; d < n; d++ {
				if n == 1 && (d == -2 || where == 5) {
					continue
				}
				if n > 130 && d > 20 && d < n-20 && d%16 > 1 && d%16 < 15 {
					continue
				}
				s = append(s, spec("longname", n, 0, d, where))
			}
		}
	}
	c.specs("long names", s, []byte{0})
	s = nil
	for n := 1; n <= 600; n++ {
		for form := 0; form <= 4; form++ {
			if n > 40 && n%64 > 2 && n%64 < 62 {
				continue
			}
			s = append(s, spec("siblings", n, form, -1), spec("siblings", n, form, n-1), spec("siblings", n, form, n/2), spec("siblings", n, form, 0))
		}
	}
	c.specs("siblings", s, []byte{0, oLc5})
	tags := func(a, b string) []string {
		return []string{"<" + a + "></" + b + ">", "<r><" + a + "><x/></" + b + " ></r>", "<" + a + "><" + b + "></" + b + "></" + a + ">", "<r><" + a + "><" + b + "/>t</" + b + "></r>"}
	}
	c.namePairs("pairs of names", nameAlphabet, 3, []byte{0}, tags)
	c.namePairs("pairs of other names", nameAlphabet2, 2, []byte{0, oNs}, tags)
	c.byteEdits("one byte", []string{"<a></a>", "<ab>t<b/>u<c x='y'>v</c>w</ab>", "<a><b><c/></b><b>\n</b></a>", "<a:b><c></c></a:b>", "<a/>", "<!--c--><a><!--d--></a><?p?>", "<a>&lt;<![CDATA[x]]></a>", "<\u00e9>x</\u00e9>"}, 0, oNs|oLc5)
	c.sizes(2, 0, oLc5)
	c.deep(2, 0, oLc5)
	c.repeats(18, 20, 0, oLc5)
	c.repeats(26, 28, 0)
	c.similarNames(15, 18, 0)
	c.anyChar([]string{"<a>t<b/></a>", "<a ></a >"}, 0)
	c.preluded(checkC02)
}

func checkC03(c *Ctx) {
	c.fragTree("start tag characters", []string{"<a", "<r><a", "<a x='1'"}, []string{" ", "\n", "b", "c", "=", "\"", "'", "<", ">", "/", "&lt;"}, 6, 8, 0, oLc5)
	c.fragTree("attribute value characters", []string{`<a b="`, `<a b='`, `<a><c b="`, `<a c='' b="`}, []string{"x", " ", "\n", "\"", "'", "<", ">", "/", "&gt;", "]]>", "=", "-->", "?>", "\u00e9"}, 5, 6, 0, oNs)
	c.fragTree("attributes of elements", []string{"", "<r>"}, []string{"<a", "<b", ` x="1"`, ` y='1'`, ` xx="1"`, ` xy=""`, ` xmlns="u"`, ` xmlns:x="u"`, ">", "/>", "</a>", "</b>", "t", "<!--c-->"}, 6, 8, 0, oNs|oLc5)
	c.fragTree("many attributes", []string{"<a", "<a x='1'><b"}, []string{` x="1"`, ` y="1"`, ` z="1"`, ` xx="1"`, ` xy="1"`, ` yx="1"`, ` xmlns="1"`, ` xmlns:x="1"`, ` xmlns:y="1"`, "/>", ` x:x="1"`, ` x:y="1"`, "><c"}, 5, 7, 0)
	c.fragTree("separation", []string{"<a b='1'", "<a b=\"1\" c=\"2\""}, []string{" ", "\t", "\r", "\n", "c", "d", "=", "'1'", "\"1\"", "\"", "'", "/", ">", "&amp;", "b"}, 6, 7, 0)
	var s []string
	for i := range similar {
		for j := range similar {
			s = append(s, spec("attrpair", i, j))
		}
	}
	c.specs("similar names", s, []byte{0, oNs})
	s = nil
	for n := 1; n <= 600; n++ {
		near := n <= 20 || n >= 125 && n <= 131 || n >= 250 && n <= 262 || n >= 510 && n <= 514 || n%100 == 0
		if !near {
			continue
		}
		for form := 0; form <= 3; form++ {
			s = append(s, spec("attrs", n, 0, -1, form))
			var at []int
			if n <= 20 {
				for k := 0; k < n; k++ {
					at = append(at, k)
				}
			} else {
				at = []int{0, 1, n / 2, 127, 128, 255, 256, 257, n - 2, n - 1}
			}
			for _, i := range at {
				for _, j := range at {
					if i < j && j < n {
						s = append(s, spec("attrs", n, i, j, form))
					}
				}
			}
		}
	}
	c.specs("attribute counts", s, []byte{0, oNs})
	s = nil
	for n := 1; n <= 254; n++ {
		for form := 0; form < 12; form++ {
			if n <= 20 || form < 4 || n%32 < 2 || n%32 > 30 || n > 250 {
				s = append(s, spec("attrchain", n, form, -1), spec("attrchain", n, form, n), spec("attrchain", n, form, n/2))
			}
		}
	}
	c.specs("attributes at every depth", s, []byte{0, oNs, oLc5})
	attrs := func(a, b string) []string {
		return []string{"<r " + a + "='' " + b + "=''/>", "<r z='1' " + a + "='' y='' " + b + "=''></r>", "<r " + a + "=''><x " + b + "=''/></r>"}
	}
	c.namePairs("pairs of names", nameAlphabet, 3, []byte{0}, attrs)
	c.namePairs("pairs of other names", nameAlphabet2, 2, []byte{0, oNs}, attrs)
	c.namePairs("pairs of declared prefixes", nameAlphabet2, 2, []byte{0, oNs}, func(a, b string) []string {
		return []string{"<r xmlns:" + a + "='u' xmlns:" + b + "='v'/>", "<r xmlns:" + a + "='u' " + b + "='v'/>"}
	})
	c.byteEdits("one byte", []string{`<a b="c"/>`, `<a b='c' bb="d" />`, "<r><a  b = \"c\"\n c\t=\r'd'>t</a></r>", `<a xmlns="u" xmlns:p='v' p:b="1" b="2" p:c='3'/>`, "<a \u00e9='\u00e8' e='\u20ac'/>", "<a b='&lt;\"' c=\"'&#x41;\"><b b=''/></a>"}, 0, oNs|oLc5)
	c.sizes(3, 0, oNs)
	c.deep(3, 0, oNs)
	c.repeats(20, 23, 0, oNs)
	c.similarNames(0, 3, 0, oNs)
	c.anyChar([]string{"<a b='c' d=\"e\"\n/>", "<a b = ''></a>"}, 0)
	c.preluded(checkC03)
}

func checkC04(c *Ctx) {
	ctx := join(prefixed(inContent, "&"), []string{`<a b="&`, `<a b='&`, `<a b="x&`, `<a b="&lt;&`, `<a xmlns="&`, `<a xmlns:p="&`, "<a><b c='&"})
	c.fragTree("entity names", ctx, each("ltgampqosu;#x &<1L"), 5, 6, 0, oNs|oLc5)
	c.fragTree("numbers", []string{"<a>&#", `<a b="&#`, "<a>t&#", "<a><b/>&#", "<a xmlns:p='&#"}, each("0123;x9AF"), 6, 7, 0)
	c.fragTree("hexadecimal", []string{"<a>&#x", `<a b='&#x`, "<a><b></b>&#x"}, each("01DF8;dfgG"), 7, 8, 0)
	c.fragTree("surroundings", []string{"<a>", `<a b="`, "<a><b/>"}, []string{"&lt;", "&#65;", "&#x41;", "&", ";", "#", "lt;", "x", " ", "<b/>", "&amp;", "\"", "]", "&#0;", "&nbsp;", "&lt", "&#x110000;"}, 5, 6, 0)
	// no meaning in comments, CDATA sections and processing instructions
	c.fragTree("no references", []string{"<a><!--", "<a><![CDATA[", "<a><?p ", "<!--", "<?p ", "<a/><!--", "<a/><?p "}, []string{"&", "&#0;", "&lt;", "&x;", ";", "&#xD800;", "&nbsp;", "#"}, 4, 5, 0)
	var docs []string
	for _, r := range []string{"&lt;", "&gt;", "&amp;", "&apos;", "&quot;", "&#65;", "&#x4A;", "&#1114109;", "&#x10FfFd;", "&#xe9;", "&#09;"} {
		docs = append(docs, "<a>"+r+"</a>", "<a b='"+r+"'/>", "<a>t<b/>"+r+"u</a>", "<a xmlns:p=\""+r+"\">"+r+r+"</a>")
	}
	c.byteEdits("one byte", docs, 0, oNs|oLc5)
	// code points
	ctx = []string{"<a>&#%s;</a>", `<a b="&#%s;"/>`, "<a><b/>&#%s;</a>", "<a xmlns:p='&#%s;'/>", "<a><!--c-->&#%s;t</a>"}
	points := boundaryPoints(c.thorough)
	c.docs("code points", len(points), []byte{0}, func(i int, emit func(string)) {
		v := points[i]
		for k, x := range ctx {
			if k > 2 && c.thorough && i > 0x3000 {
				continue
			}
			emit(fmt.Sprintf(x, fmt.Sprintf("%d", v)))
			emit(fmt.Sprintf(x, fmt.Sprintf("x%x", v)))
			if k < 2 {
				emit(fmt.Sprintf(x, fmt.Sprintf("x%X", v)))
				emit(fmt.Sprintf(x, fmt.Sprintf("00%d", v)))
				emit(fmt.Sprintf(x, fmt.Sprintf("x000%X", v)))
			}
		}
	})
	if !c.thorough && c.shrink == 0 {
		common.VerifIndex()
		c.docs("every code point", 0x110100/256, []byte{0}, func(i int, emit func(string)) {
			for v := i * 256; v < i*256+256; v++ {
				emit(fmt.Sprintf(ctx[v%3], fmt.Sprintf("%d", v)))
				emit(fmt.Sprintf(ctx[v%2], fmt.Sprintf("x%X", v)))
			}
		})
	}
	// numbers of any size: v + k * 2^s, which a wrapping computation takes for v
	var nums []string
	for _, v := range []string{"0", "41", "D800", "FFFE", "10FFFF", "110000"} {
		for _, lead := range []string{"1", "8", "F", "10", "80", "FF", "1000", "FFFF", "100000"} {
			for _, width := range []int{5, 6, 7, 8, 12, 16, 24, 32, 64, 300} {
				z := width - len(v)
				if z < 0 {
					continue
				}
				nums = append(nums, "x"+lead+strings.Repeat("0", z)+v)
			}
		}
		for _, z := range []int{1, 5, 8, 10, 16, 20, 40, 300} {
			nums = append(nums, "x"+strings.Repeat("0", z)+v)
		}
	}
	for _, base := range []string{"4294967296", "8589934592", "18446744073709551616", "36893488147419103232", "2147483648", "9223372036854775808", "340282366920938463463374607431768211456", "1114112", "16777216"} {
		for _, add := range []int{0, 1, 9, 32, 65, 97} {
			nums = append(nums, addDecimal(base, add))
			nums = append(nums, strings.Repeat("0", 30)+addDecimal(base, add))
		}
	}
	for _, x := range []string{"65", "9", "1114111", "1114112", "55296", "0"} {
		for _, z := range []int{1, 5, 9, 10, 11, 20, 40, 300} {
			nums = append(nums, strings.Repeat("0", z)+x)
		}
	}
	c.docs("numbers of any size", len(nums), []byte{0, oNs}, func(i int, emit func(string)) {
		for _, x := range ctx {
			emit(fmt.Sprintf(x, nums[i]))
		}
	})
	c.sizes(4, 0, oNs)
	c.deep(4, 0)
	c.repeats(12, 18, 0)
	c.anyChar([]string{"<a>&#65;&#x4Af;</a>", "<a b='&lt;&gt;'>&amp;</a>", "<a>&apos;&quot;</a>"}, 0)
	c.preluded(checkC04)
}

func init() {
	// attrchain n form dup: n nested elements with the same attributes on
	// each (and on the empty elements and siblings the form adds); the
	// element at depth dup repeats one (dup < 0: none; dup = n: one more
	// element at the end, with none)
	gens["attrchain"] = func(a []int) string {
		n, form, dup := a[0], a[1], a[2]
		at := [][]string{{" x='1'"}, {" x='1'", " y='2'"}, {" x=''", " xx=''", " yx=''"}}[form%3]
		all := strings.Join(at, "")
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString("<a" + all)
			if i == dup {
				b.WriteString(at[len(at)-1])
			}
			b.WriteString(">")
			switch form / 3 {
			case 1:
				b.WriteString("<b" + all + "/><c" + all + "/>")
			case 2:
				b.WriteString("<b" + all + "></b><c" + all + ">t</c>")
			case 3:
				b.WriteString("t<b/><c" + all + " z='3'/><d z='3'/>u")
			}
		}
		b.WriteString("<e" + all + "/><f" + all + " zz=''/><g zz=''/><h" + all + "/>")
		for i := 0; i < n; i++ {
			b.WriteString("</a>")
		}
		return b.String()
	}
}

func addDecimal(s string, n int) string {
	b := []byte(s)
	for i := len(b) - 1; i >= 0 && n > 0; i-- {
		n += int(b[i] - '0')
		b[i] = byte('0' + n%10)
		n /= 10
	}
	return string(b)
}

// boundaryPoints lists code points: all of them, or all small ones and every
// boundary of a character class with its neighbours.
func boundaryPoints(all bool) []int {
	if all {
		out := make([]int, 0, 0x110100)
		for v := 0; v <= 0x1100FF; v++ {
			out = append(out, v)
		}
		return out
	}
	have := map[int]bool{}
	for v := 0; v <= 0x3100; v++ {
		have[v] = true
	}
	for _, v := range []int{0xD7FF, 0xE000, 0xF900, 0xFDCF, 0xFDD0, 0xFDEF, 0xFDF0, 0xFEFF, 0xFFFD, 0xFFFF, 0x10000, 0x1FFFF, 0x2FFFE, 0xEFFFF, 0xF0000, 0xFFFFF, 0x10FFFF, 0xDBFF, 0xDC00, 0xDFFF, 0x3400, 0x4DB5, 0x9FA5, 0xAC00, 0xD7A3, 0x8000, 0x7FFF, 0x80000, 0x100000} {
		for d := -4; d <= 4; d++ {
			have[v+d] = true
		}
	}
	for v := 0x3100; v <= 0x10FFFF; v += 0x100 {
		have[v], have[v+0xFF], have[v+0x80], have[v+0x7F] = true, true, true, true
	}
	var out []int
	for v := 0; v <= 0x1100FF; v++ {
		if have[v] {
			out = append(out, v)
		}
	}
	return out
}

func checkC05(c *Ctx) {
	all := join(inProlog, inContent, inEpilog)
	c.fragTree("comment", prefixed(all, "<!--"), each("->x <&]?"), 5, 6, 0)
	c.fragTree("comment, long runs", []string{"<!--", "<a><!--", "<a/><!--", "<a>t<!--"}, []string{"-", ">", "x", "--", "-->"}, 8, 10, 0, oLc5)
	c.fragTree("CDATA", prefixed(inContent, "<![CDATA["), each("]>[x<&"), 6, 7, 0)
	c.fragTree("CDATA, long runs", []string{"<a><![CDATA[", "<a><b/><![CDATA["}, []string{"]", ">", "x", "]]", "]]>", "<a>"}, 8, 9, 0, oLc5)
	c.fragTree("text", inContent, []string{"]", ">", "x", " ", "&gt;", "<b/>", "<!--c-->", "[", "&#93;", "<?p?>", "<![CDATA[]]>"}, 5, 6, 0)
	c.fragTree("text, long runs", []string{"<a>", "<a>t", "<a><b/>", "<a><b></b>"}, []string{"]", ">", "x", "]]", " "}, 8, 10, 0)
	c.fragTree("pi", prefixed(all, "<?"), each("p?> x:-<"), 5, 6, 0)
	c.fragTree("pi target", prefixed(all, "<?"), each("xXmMlL?> a1"), 5, 6, 0)
	c.fragTree("pi value", []string{"<?p ", "<a><?p ", "<a/><?p ", "<?p", "<a><?p", "<a/><?p"}, []string{"?", ">", "x", "??", "?>", " ", "\n", "<"}, 6, 8, 0, oLc5)
	c.fragTree("markup declarations", prefixed(all, "<!"), []string{"-", "[", "D", "C", "DATA[", "OCTYPE", " a", ">", "x", "]", "--", "CDATA[", "DOCTYPE", "doctype", "cdata["}, 4, 5, 0)
	c.fragTree("sequences", []string{"", "<a>", "<a/>"}, []string{"<!--c-->", "<!---->", "<!-- - -->", "<?p?>", "<?p v?>", "<?p  v ?>", "<![CDATA[]]>", "<![CDATA[]]]>", "<![CDATA[>]]>", "t", " ", "<b/>", "</a>", "<a>", "<?xml?>", "<?xml v?>", "<?XmL?>", "<?xml-s v?>", "<?xmlx?>", "]]>", "--", "?>", "<!--a--b-->", "<!--a--->", "<??>", "<? p?>", "<?1?>"}, 4, 5, 0, oLc5)
	// targets around the reserved one, everywhere
	var targets []string
	for _, t := range []string{"xml", "Xml", "xMl", "xmL", "XMl", "XmL", "xML", "XML", "xm", "XM", "xmlx", "XMLX", "xmll", "xmm", "yml", "xnl", "ml", "xxml", "axml", "xm1", "x", "xml-", "xml.", "xml_", "XML-s", "xml1", "\u00d8ml", "x\u00e9l", "xm\u00ec"} {
		targets = append(targets, t)
	}
	for k := 2; k <= 14; k++ {
		targets = append(targets, "xml"+strings.Repeat("a", k))
	}
	followers := []string{"", "?>", " ?>", " v?>", "\n?>", "?", "??>", " ", "\tv ?>", ":a?>", ": v?>", "\u00e9?>", "<?>", "'?>", "=?>"}
	c.docs("targets everywhere", len(all)*len(targets), []byte{0, oNs | oLc5}, func(i int, emit func(string)) {
		place, t := all[i/len(targets)], targets[i%len(targets)]
		tail := "<a/>"
		if i/len(targets) >= len(inProlog) {
			tail = ""
		}
		for _, f := range followers {
			emit(place + "<?" + t + f + tail)
			emit(place + "<?" + t + f + tail + "</a>")
			emit(place + "<!--c--><?" + t + f + tail)
		}
	})
	var docs []string
	for _, x := range []string{"<!--c-->", "<!-- - -->", "<!---->", "<?p?>", "<?p v?>", "<?p  v ? ?>", "<?xm?>"} {
		docs = append(docs, x+"<a/>", "<a>"+x+"</a>", "<a/>"+x, "<a>t<b/>"+x+"<c/></a>"+x)
	}
	docs = append(docs, "<a><![CDATA[]]></a>", "<a>t<![CDATA[x]]]>]u</a>", "<a><b/><![CDATA[<&>]]><c/></a>", "<a>x]] ]> ]]&gt;</a>", "<a b=']]>'>]</a>")
	c.byteEdits("one byte", docs, 0, oNs|oLc5)
	c.sizes(5, 0, oLc5)
	c.deep(5, 0, oLc5)
	c.runs(0)
	c.repeats(0, 12, 0, oLc5)
	c.repeats(23, 26, 0, oLc5)
	c.anyChar([]string{"<a><!--c--><?p v?></a>", "<a><![CDATA[d]]>]] ></a>", "<!--c--><?p v?><a/>", "<a/><!--c--><?p v?>"}, 0)
	c.preluded(checkC05)
}

var decVocabulary = []string{"<?xml", " ", "\n", "version", "encoding", "standalone", "=", "\"", "'", "1.0", "1.1", "1.2", "2.0", "utf-8", "ascii", "us-ascii", "iso-8859-1", "utf-16", "yes", "no", "?>", "?", ">", "<a/>", "x", "<", "Version", "Yes", "\t"}

func checkC06(c *Ctx) {
	templates := [][]string{
		{"<?xml", " ", "version", "=", "\"", "1.0", "\"", "?>", "<a/>"},
		{"<?xml", " ", "version", "=", "\"", "1.0", "\"", " ", "encoding", "=", "\"", "utf-8", "\"", "?>", "<a/>"},
		{"<?xml", " ", "version", "=", "'", "1.1", "'", " ", "standalone", "=", "'", "no", "'", " ", "?>", "\n", "<a/>"},
		{"<?xml", " ", "version", " ", "=", " ", "\"", "1.0", "\"", " ", "encoding", "=", "'", "us-ascii", "'", " ", "standalone", "=", "\"", "yes", "\"", "?>", "<a/>"},
	}
	opts := []byte{0}
	for ti, t := range templates {
		t := t
		c.edits(fmt.Sprintf("declaration %d", ti), t, decVocabulary, pick(c, 1, 2)+bool2int(ti < 3 || c.thorough), opts)
	}
	c.fragTree("declaration fragments", []string{"", "\xEF\xBB\xBF", "<?xml version=\"1.0\"", "<?xml version='1.0' encoding='utf-8'", "<?xml version='1.0' standalone='yes'"}, []string{"<?xml", " ", "\n", "version", "encoding", "standalone", "=", "\"", "'", "1.0", "1.1", "utf-8", "ascii", "yes", "no", "?>", "?", ">", "<a/>"}, 6, 8, 0)
	c.fragTree("encoding names", []string{"<?xml version=\"1.0\" encoding=\"", "<?xml version='1.0' encoding='", "\xEF\xBB\xBF<?xml version='1.0' encoding='"}, each("uUtTfF-816aAsScCiIoO59wp'\" ?>"), 9, 14, 0)
	c.fragTree("version and standalone", []string{"<?xml version=\"", "<?xml version='", "<?xml version='1.0' standalone='", "<?xml version='1.0' encoding='utf-8' standalone=\""}, each("01.29yesno'\" ?><YN"), 7, 9, 0)
	c.docs("encodings", len(encodings), []byte{0, oNs | oLc5}, func(i int, emit func(string)) {
		for _, q := range []string{"'", "\""} {
			for _, bom := range []string{"", "\xEF\xBB\xBF"} {
				for _, sa := range []string{"", " standalone='yes'", " standalone=\"no\" ", " "} {
					for _, rest := range []string{"<a/>", "\n<!--c--><a>t</a>", "<a>\u00e9</a>", "<a b='\x80'/>"} {
						emit(bom + "<?xml version=" + q + "1.0" + q + " encoding=" + q + encodings[i] + q + sa + "?>" + rest)
					}
				}
			}
		}
	})
	c.explore(tree{name: "byte order marks", seeds: []string{""}, frags: []string{"\xEF", "\xBB", "\xBF", "\xFE", "\xFF", "\x00", "<", " ", "\n", "<?xml version='1.0'?>", "<a/>", "\u00e9", "\uFEFF"}, depth: pick(c, 4, 5), opts: []byte{0, oNs}, suffix: []string{"<a/>"}})
	c.fragTree("document type", []string{"", "<?xml version='1.0'?>", "<!--c-->"}, []string{"<!DOCTYPE", "<!DOCTYPE a>", " a", ">", " ", "[", "]", "<!ELEMENT a ANY>", " SYSTEM 'x'", "<a>", "<a/>", "</a>", "t", "<!--c-->", "<?p v?>", "<?xml version='1.0'?>", "<!doctype a>", "\n"}, 5, 6, 0)
	// sequences of whole pseudo-attributes
	c.explore(tree{name: "pseudo-attributes", seeds: []string{"<?xml", "<?xml version='1.0'", "\xEF\xBB\xBF<?xml version='1.0'"}, frags: []string{" version='1.0'", " version=\"1.1\"", " encoding='utf-8'", " encoding=\"us-ascii\"", " encoding='Utf-8'", " standalone='yes'", "\nstandalone = \"no\" ", "encoding=\"utf-8\"", "standalone='no'", " version='2.0'", " encoding='latin'", " standalone=''", " encoding=''", " x='y'", " ", "?>"}, depth: pick(c, 5, 6), opts: []byte{0}, suffix: []string{"?><a/>", "<a/>"}})
	c.byteEdits("one byte", []string{"<?xml version='1.0'?><a/>", "<?xml version=\"1.1\" encoding='utf-8'?><a/>", "<?xml version = '1.0'\nencoding=\"us-ascii\" standalone='yes' ?>\n<a>t</a>", "\xEF\xBB\xBF<?xml version=\"1.0\" standalone = \"no\"?><a/>", "<?xml version='1.0'?><!DOCTYPE a SYSTEM \"s\"><a/>", "<?xml version='1.0'\tencoding='UTF-8'\n?><!--c--><a/>", "<!DOCTYPE a><a/>", "<?xml version='1.0' encoding='ascii'?><a/>"}, 0, oNs|oLc5)
	doctypes := []string{"<!DOCTYPE a>", "<!DOCTYPE a >", "<!DOCTYPE\na SYSTEM \"s.dtd\">", "<!DOCTYPE a PUBLIC 'p' 's' >", "<!DOCTYPE a []>", "<!DOCTYPE a [<!ELEMENT a ANY> <!ELEMENT b EMPTY>\n]>", "<!DOCTYPE a SYSTEM 's' [<!ENTITY e 'v'>]>", "<?xml version='1.0'?>", "<?xml version=\"1.0\" encoding=\"utf-8\"?>"}
	positions := [][]string{
		{"<!--c-->", "<?p v?>", "\n", "<a", " b='c'", ">", "t", "<b", "/>", "<!--d-->", "</a>", "<!--e-->", "\n"},
		{"<?xml version='1.0'?>", "\n", "<?p?>", "<a>", "<b>", "</b>", "<![CDATA[x]]>", "</a>", "<?q?>"},
		{"<a/>", "<!--x-->"},
	}
	c.docs("declarations at every position", len(doctypes)*len(positions), []byte{0, oNs | oLc5}, func(i int, emit func(string)) {
		d, p := doctypes[i/len(positions)], positions[i%len(positions)]
		for k := 0; k <= len(p); k++ {
			emit(strings.Join(p[:k], "") + d + strings.Join(p[k:], ""))
			emit(strings.Join(p[:k], "") + " " + d + strings.Join(p[k:], ""))
		}
	})
	c.sizes(6, 0)
	c.anyChar([]string{"<?xml version='1.0' encoding='utf-8' standalone='yes' ?><a/>", "<?xml version = \"1.1\" encoding=\"us-ascii\"?><!DOCTYPE a [<!ELEMENT a ANY>]>\n<a/>"}, 0)
	c.varied(checkC06, 7, 9)
}

func bool2int(b bool) int {
	if b {
		return 1
	}
	return 0
}

var encodings = func() []string {
	l := []string{"utf-8", "UTF-8", "Utf-8", "uTf-8", "utF-8", "UTf-8", "UtF-8", "uTF-8", "ascii", "ASCII", "us-ascii", "US-ASCII",
		"utf8", "UTF8", "utf_8", "utf-88", "utf-8 ", " utf-8", "utf-", "utf-7", "utf-9", "utf", "u", "", "utf-16", "UTF-16", "utf-16le", "utf-16be", "UTF-16LE", "UTF-16BE", "utf-1", "utf-32",
		"asci", "asciii", "ASCI", "us-asci", "us_ascii", "usascii", "us-asciii", "US-ascii", "us-", "us", "ansi", "latin1", "big5", "gbk", "shift_jis", "cp1252", "CP1252", "cp125", "cp1259", "cp1250", "windows-125", "windows-1252", "WINDOWS-1252", "windows-1259", "koi8-r", "x", "8", "-", "utf-8\x00", "utf-8'", "utf-8\"", "utf-8<", "\u00e9"}
	for i := 0; i <= 16; i++ {
		l = append(l, fmt.Sprintf("iso-8859-%d", i), fmt.Sprintf("ISO-8859-%d", i))
	}
	for i := 0; i < 10; i++ {
		l = append(l, fmt.Sprintf("cp125%d", i), fmt.Sprintf("windows-125%d", i), fmt.Sprintf("WINDOWS-125%d", i))
	}
	return l
}()

// edits runs all documents that differ from a fragment list by up to n
// deletions, replacements and insertions of vocabulary fragments.
func (c *Ctx) edits(nm string, tmpl, vocabulary []string, n int, opts []byte) {
	fam := "doc"
	if c.fam != "" {
		fam = c.fam
	}
	opts = c.forced(opts)
	if c.shrink > 0 && n > 1 {
		n = 1
	}
	s := newSeen()
	ops := editOps(tmpl, vocabulary)
	c.Space(nm, ops, func(w *Worker, i int) {
		var rec func(l []string, left int)
		rec = func(l []string, left int) {
			d := strings.Join(l, "")
			explore, fresh := s.visit([]byte(d), left)
			if fresh {
				w.states++
				for _, o := range opts {
					w.runDoc(fam, []byte(d), "", o)
				}
				if w.states&0xFFF == 1 {
					w.c.Sample(d)
				}
			}
			if left == 0 || !explore || w.c.Stop() {
				return
			}
			for k := 0; k < editOps(l, vocabulary); k++ {
				w.transitions++
				rec(applyEdit(l, vocabulary, k), left-1)
			}
		}
		w.transitions++
		rec(applyEdit(tmpl, vocabulary, i), n-1)
	})
}

func editOps(l, v []string) int { return 1 + len(l) + len(l)*len(v) + (len(l)+1)*len(v) }

// applyEdit applies edit number k: 0 is no edit.
func applyEdit(l, v []string, k int) []string {
	if k == 0 {
		return l
	}
	k--
	out := make([]string, 0, len(l)+1)
	if k < len(l) {
		return append(append(out, l[:k]...), l[k+1:]...)
	}
	k -= len(l)
	if k < len(l)*len(v) {
		out = append(out, l...)
		out[k/len(v)] = v[k%len(v)]
		return out
	}
	k -= len(l) * len(v)
	p := k / len(v)
	return append(append(append(out, l[:p]...), v[k%len(v)]), l[p:]...)
}

// the positions a character can stand in: what is before and after it
var charPlaces = [][2]string{
	{"<a>", "</a>"}, {"<a>x", "y</a>"}, {"<a b='", "'/>"}, {"<a b=\"x", "y\"/>"}, {"<a><!--", "--></a>"}, {"<a><![CDATA[", "]]></a>"},
	{"<a><?p ", "?></a>"}, {"<!--x", "--><a/>"}, {"<?p x", "?><a/>"}, {"<a/><!--", "-->"}, {"<a/><?p ", "?>"}, {"<a/><?p x", "?>"},
	{"<a><b/>", "</a>"}, {"<a><b></b>", "</a>"}, {"<a><!--c-->", "</a>"}, {"<a><?p?>", "</a>"}, {"<a><![CDATA[d]]>", "</a>"}, {"<a>]", "</a>"}, {"<a>&lt;", "</a>"},
	{"<a xmlns='", "'/>"}, {"<a xmlns:p='u", "'/>"}, {"<a>\u20ac", "\u20ac</a>"}, {"<a b='\u00e9", "\U0001F600' c='d'/>"},
}

// the same inside a document type declaration
var dtdPlaces = [][2]string{
	{"<!DOCTYPE a [<!ELEMENT a", " ANY>]><a/>"}, {"<!DOCTYPE a [<!ELEMENT a ANY", ">]><a/>"}, {"<!DOCTYPE a [<!ELEMENT a ANY>", "]><a/>"}, {"<!DOCTYPE a [", "]><a/>"},
	{"<!DOCTYPE a []", "><a/>"}, {"<!DOCTYPE a [<!ENTITY e 'v", "'>]><a/>"}, {"<!DOCTYPE a [<!ATTLIST a b CDATA #IMPLIED", "> <!ELEMENT a ANY>]><a/>"}, {"<!DOCTYPE a SYSTEM 's", "'><a/>"},
	{"<!DOCTYPE a PUBLIC 'p' \"s", "\"><a/>"}, {"<!DOCTYPE a", " []><a/>"}, {"<?xml version='1.0'?>\n<!DOCTYPE a [<!ELEMENT b EMPTY><!ELEMENT a (b", ")>]>\n<a/>"}, {"<!DOCTYPE a [<!ELEMENT a ANY>\n<!ELEMENT ", "b ANY>]><a/>"},
	{"<!DOCTYPE a [<!-- c", " -->]><a/>"}, {"<!DOCTYPE a [<?p v", "?>]><a/>"}, {"<!DOCTYPE a [%p;", "]><a/>"},
}

// places of name characters; the name is repeated in end tags
func namePlaces(s string) []string {
	return []string{
		"<" + s + "/>", "<a" + s + "/>", "<" + s + "></" + s + ">", "<a" + s + "b>t</a" + s + "b>", "<r><" + s + " x='1'/></r>",
		"<a " + s + "='v'/>", "<a b" + s + "='v'/>", "<a b='1' " + s + "c='v'>t</a>", "<?" + s + " v?><a/>", "<?p" + s + "?><a/>",
		"<a><?" + s + "?></a>", "<a/><?" + s + " v?>", "<a/><?p" + s + " v?>", "<a/><?p" + s + "?>", "<a></a" + s + ">", "<a" + s + "></a>",
		"<a" + s + ">", "<a b='1'" + s + "/>", "<a" + s + " b='1'/>", "<a>t</a" + s, "<" + s + "\n/>", "<a xmlns" + s + "='v'/>", "<a xmlns:" + s + "='v'/>", "<a xmlns:p" + s + "='v'/>",
		"<a " + s + "\n='v'/>", "<a b" + s + " = 'v'/>", "<a b='1'\t" + s + " = 'v' " + s + "x=''/>",
	}
}

func checkC07(c *Ctx) {
	points := boundaryPoints(c.thorough)
	c.docs("character places", len(points), []byte{0}, func(i int, emit func(string)) {
		if points[i] > 0x10FFFF || points[i] >= 0xD800 && points[i] <= 0xDFFF {
			return
		}
		s := string(rune(points[i]))
		for _, p := range charPlaces {
			emit(p[0] + s + p[1])
		}
		emit(s + "<a/>")
		emit("<a/>" + s)
		emit("<!DOCTYPE a" + s + "><a/>")
		emit("<!DOCTYPE" + s + "a><a/>")
		for _, p := range dtdPlaces {
			emit(p[0] + s + p[1])
		}
		emit("<?xml version='1.0'?>" + s + "<a/>")
		emit("<!--c-->" + s + "<a/>")
	})
	c.docs("name places", len(points), []byte{0}, func(i int, emit func(string)) {
		if points[i] > 0x10FFFF || points[i] >= 0xD800 && points[i] <= 0xDFFF {
			return
		}
		for _, d := range namePlaces(string(rune(points[i]))) {
			emit(d)
		}
	})
	c.docs("name places, namespace aware", len(points), []byte{oNs | oLc5}, func(i int, emit func(string)) {
		if points[i] > 0x10FFFF || points[i] >= 0xD800 && points[i] <= 0xDFFF || points[i] > 0x3100 && i%16 != 0 {
			return
		}
		s := string(rune(points[i]))
		for _, d := range namePlaces(s) {
			emit(d)
		}
		emit("<p:a" + s + " xmlns:p='u'/>")
		emit("<p" + s + ":a xmlns:p" + s + "='u'/>")
		emit("<p" + s + ":a xmlns:p='u'/>")
		emit("<a p:b" + s + "='' xmlns:p='u' p:b='' />")
	})
	if !c.thorough && c.shrink == 0 {
		common.VerifIndex()
		places := [][2]string{{"<a>", "</a>"}, {"<a b='", "'/>"}, {"<a>x<!--", "--></a>"}, {"<a><![CDATA[", "]]></a>"}, {"<a/><?p ", "?>"}, {"<a", "/>"}, {"<", ">"}, {"<a ", "=''/>"}}
		c.docs("every code point", 0x110000/256, []byte{0}, func(i int, emit func(string)) {
			for ch := rune(i) * 256; ch < rune(i+1)*256; ch++ {
				if ch < 0xD800 || ch > 0xDFFF {
					for _, p := range places {
						emit(p[0] + string(ch) + p[1])
					}
				}
			}
		})
	}
	// UTF-8: every sequence over one representative (and the boundaries) of
	// each class of bytes
	reps := []byte{0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBD, 0xBE, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFC, 0xFE, 0xFF}
	n := len(reps)
	places := [][2]string{{"<a>", "</a>"}, {"<a b='", "'/>"}, {"<a><!--", "--></a>"}, {"<", "/>"}, {"<a ", "=''/>"}, {"<?p ", "?><a/>"}, {"<a><![CDATA[", "]]></a>"}, {"<a><b/>", ""}, {"<a/><!--", "-->"}, {"<a/><?p ", "?>"}, {"<a></a", ">"}}
	c.docs("byte sequences", n*n, []byte{0}, func(i int, emit func(string)) {
		a, b := reps[i/n], reps[i%n]
		for pi, p := range places {
			if i%n == 0 {
				emit(p[0] + string([]byte{a}) + p[1])
			}
			emit(p[0] + string([]byte{a, b}) + p[1])
			for _, x := range reps {
				if pi > 3 && !c.thorough && a < 0xE0 {
					break
				}
				emit(p[0] + string([]byte{a, b, x}) + p[1])
				if a >= 0xF0 && (pi < 4 || c.thorough) {
					for _, y := range reps {
						emit(p[0] + string([]byte{a, b, x, y}) + p[1])
					}
				}
			}
		}
	})
	// every byte pair
	c.docs("byte pairs", 256, []byte{0}, func(i int, emit func(string)) {
		for j := 0; j < 256; j++ {
			for pi, p := range places {
				if pi < 4 || c.thorough {
					emit(p[0] + string([]byte{byte(i), byte(j)}) + p[1])
				}
			}
		}
	})
	c.byteEdits("one byte", []string{"<a>\u00e9</a>", "<a b='\u20ac'/>", "<!--\U00010000--><a/>", "<\u00e9:\u0101/>", "<a><?p \uFFFD?></a>", "<a><![CDATA[\uE000\uD7FF]]></a><!--\u0800-->", "<a \u4e00='\U0010FFFF'>\u00b7</a>"}, 0, oNs|oLc5)
	// ASCII: any byte above 127 anywhere
	asciiDocs := []string{"<?xml version='1.0' encoding='us-ascii'?><!--c--><?p v?><a b='c' d=\"e\">t<b/>u<![CDATA[d]]><!--e--><?q w?><c></c></a><!--f--><?r x?>",
		"<?xml version=\"1.1\" encoding=\"ASCII\" standalone='no' ?>\n<!DOCTYPE a><a>&lt;</a>\n"}
	var at []struct {
		d string
		k int
	}
	for _, d := range asciiDocs {
		for k := strings.Index(d, "ii") + 4; k <= len(d); k++ {
			at = append(at, struct {
				d string
				k int
			}{d, k})
		}
	}
	c.docs("ASCII documents", len(at), []byte{0, oNs}, func(i int, emit func(string)) {
		d, k := at[i].d, at[i].k
		for b := 0x7E; b < 256; b++ {
			emit(d[:k] + string([]byte{byte(b)}) + d[k:])
			if k < len(d) {
				emit(d[:k] + string([]byte{byte(b)}) + d[k+1:])
			}
		}
		emit(d[:k] + "\u00e9" + d[k:])
		emit(d[:k] + "\u20ac" + d[k:])
		emit(d[:k] + "\U0001F600" + d[k:])
	})
	c.sizes(7, 0, oNs)
	c.deep(7, 0)
	c.repeats(28, 33, 0)
	c.charAt(0)
	c.preluded(checkC07)
}

const (
	xmlURI   = "http://www.w3.org/XML/1998/namespace"
	xmlnsURI = "http://www.w3.org/2000/xmlns/"
)

func checkC09(c *Ctx) {
	ns := []byte{oNs, oNs | oLc5}
	c.explore(tree{name: "scopes", seeds: []string{"", "<a>", "<a xmlns:p='u'>"}, frags: []string{"<a", "<p:a", "<q:a", ` xmlns:p="u"`, ` xmlns:q="v"`, ` p:b="1"`, ` q:c="1"`, ">", "/>", "</a>", "</p:a>", "</q:a>", "t"}, depth: pick(c, 6, 7), opts: []byte{oNs}})
	c.explore(tree{name: "trees of declarations", seeds: []string{""}, frags: []string{"<a>", "<a/>", "<a xmlns:p='u'>", "<a xmlns:p='u'/>", "<a xmlns:q='u'>", "<p:a>", "<p:a/>", "<q:a/>", "<a p:x=''/>", "<p:a xmlns:p='w'/>", "</a>", "</p:a>", "<a xmlns='d'>", "<q:a xmlns:q='w'>", "</q:a>", "<a xmlns:pp='w'>", "<pp:a/>"}, depth: pick(c, 5, 7), opts: ns})
	c.explore(tree{name: "similar prefixes", seeds: []string{"<a", "<a xmlns:p='u'><b"}, frags: []string{` xmlns:p="u"`, ` xmlns:pp="u"`, ` xmlns:pq="u"`, ` xmlns:q="u"`, ` p:b=""`, ` pp:b=""`, ` pq:c=""`, ` qp:c=""`, ` xmlns="u"`, ">", "/>", "<p:x/>", "<pp:x/>", "<qp:x/>", "<P:x/>", "</a>"}, depth: pick(c, 5, 6), opts: []byte{oNs}})
	c.explore(tree{name: "reserved names", seeds: []string{"<a", "<r><a", "<a xmlns:p='u'><p:b"}, frags: []string{` xmlns:xml="` + xmlURI + `"`, ` xmlns:xml='u'`, ` xmlns:xmlns="u"`, ` xmlns:p="` + xmlURI + `"`, ` xmlns:p="` + xmlnsURI + `"`, ` xmlns="` + xmlURI + `"`, ` xmlns='` + xmlnsURI + `'`, ` xmlns:p=""`, ` xmlns=""`, ` xmlns:p='u'`, ` xml:lang="en"`, ` xml:b=''`, ` xmlns:xmln='v'`, ` xmlns:xm='v'`, ` xmlns:xmlnss='v'`, ` xmlns:xmll='v'`, ` xmll:b=''`, ` xm:b=''`, ` xmlns:xmlns="` + xmlnsURI + `"`, "><xml:a/>", "><xmlns:a/>", "><xmlx:a/>", "><xmln:a/>", "/>", ">"}, depth: pick(c, 3, 4), opts: ns})
	// spellings of the reserved namespace names: every character by reference
	// or missing or changed
	var uris []string
	for _, u := range []string{xmlURI, xmlnsURI} {
		uris = append(uris, u, u+"/", u+"x", u[:len(u)-1], " "+u, u+" ", strings.ToUpper(u), strings.Replace(u, "http", "https", 1), strings.Replace(u, "www.", "", 1))
		for k := range u {
			uris = append(uris, u[:k]+fmt.Sprintf("&#%d;", u[k])+u[k+1:], u[:k]+fmt.Sprintf("&#x%x;", u[k])+u[k+1:], u[:k]+u[k+1:], u[:k]+"_"+u[k+1:], u[:k]+"&amp;"+u[k+1:], u[:k]+"&lt;"+u[k:], u[:k]+"\u00e9"+u[k+1:])
		}
		all := ""
		for k := range u {
			all += fmt.Sprintf("&#%04d;", u[k])
		}
		uris = append(uris, all)
	}
	for k := 0; k <= 40; k++ {
		uris = append(uris, strings.Repeat("u", k), strings.Repeat("&#117;", k))
	}
	c.docs("namespace names", len(uris), ns, func(i int, emit func(string)) {
		for _, a := range []string{"xmlns", "xmlns:p", "xmlns:xml"} {
			emit(`<a ` + a + `="` + uris[i] + `"/>`)
			emit(`<r><a b='1' ` + a + `='` + uris[i] + `'>t</a></r>`)
		}
		emit(`<p:a xmlns:p="` + uris[i] + `" p:b='' xmlns:q='v' q:b=''/>`)
	})
	c.docs("names with a prefix", 1, ns, func(i int, emit func(string)) {
		pre := []string{"xml", "xmlns", "xm", "xmln", "xmlnsx", "xmlx", "Xml", "XML", "x", "p", "pp", "\u00e9", "\u00e8", "p.q", "p-q", "p1", "_"}
		long := 0
		for k := 2; k <= 14; k++ {
			// the reserved names with characters behind them, in every length
			pre = append(pre, "xml"+strings.Repeat("a", k), "xmlns"+strings.Repeat("a", k), "xm"+strings.Repeat("l", k))
			long += 3
		}
		for pi, p := range pre {
			for qi, q := range pre {
				if pi != qi && pi >= len(pre)-long && qi >= len(pre)-long {
					continue
				}
				emit("<" + p + ":a xmlns:" + q + "='u'/>")
				emit("<a " + p + ":a='' xmlns:" + q + "='u'/>")
				emit("<a xmlns:" + q + "='u' " + p + ":a=''/>")
				emit("<a xmlns:" + q + "='u'><b><" + p + ":c/></b></a>")
				emit("<a xmlns:" + q + "='u'><b><c " + p + ":c=''/></b></a>")
				emit("<a><b xmlns:" + q + "='u'/><" + p + ":c/></a>")
				emit("<a xmlns:" + q + "='u'><b xmlns:z='u'/><b xmlns:y='u'></b><" + p + ":c z='1'/></a>")
				emit("<a xmlns:" + q + "='u' xmlns:k='v'><b xmlns:z='u'></b><k:d " + p + ":c='1'/></a>")
			}
		}
	})
	var s []string
	for n := 1; n <= 250; n++ {
		if !c.thorough && n > 40 && n%64 > 3 && n%64 < 61 && n < 245 {
			continue
		}
		for use := -2; use <= n; use++ {
			if n > 40 && use > 3 && use < n-3 && use%16 > 1 {
				continue
			}
			s = append(s, spec("nsnest", n, use))
		}
	}
	c.specs("nested declarations", s, ns)
	s = nil
	for _, n := range []int{1, 2, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 300} {
		for form := 0; form < 4; form++ {
			s = append(s, spec("nsattrs", n, 0, -1, form))
		}
	}
	c.specs("many declarations", s, ns)
	scopes := func(a, b string) []string {
		return []string{"<" + a + ":x xmlns:" + b + "='u'/>", "<r xmlns:" + a + "='u'><x " + b + ":y=''/></r>", "<r xmlns:" + a + "='u'><z xmlns:" + b + "='v'/><" + b + ":x/></r>"}
	}
	c.namePairs("pairs of prefixes", nameAlphabet, 3, []byte{oNs}, scopes)
	c.namePairs("pairs of other prefixes", nameAlphabet2, 2, []byte{oNs}, scopes)
	c.byteEdits("one byte", []string{"<p:a xmlns:p='u' p:b=''/>", "<a xmlns:p=\"u\"><p:b><p:c/></p:b></a>", "<a xmlns='u' xml:lang='en'><xml:b/></a>", "<a xmlns:xml='" + xmlURI + "'/>", "<r xmlns:ab='u' xmlns:aB='v'><ab:x aB:y=''/></r>", "<a xmlns:p='" + xmlnsURI + "0'/>"}, oNs, oNs|oLc5)
	c.sizes(9, oNs)
	c.deep(9, oNs)
	c.repeats(33, 39, oNs)
	c.similarNames(3, 8, oNs)
	c.anyChar([]string{"<p:a xmlns:p='u' p:b=''/>", "<a xml:b='' xmlns='u'/>"}, oNs)
	c.preluded(checkC09)
}

func checkC10(c *Ctx) {
	c.explore(tree{name: "one element", seeds: []string{"<a", "<a xmlns:p='u'><b", "<a xmlns:p='u' xmlns:q='u'><b", "<a><b/><c"}, frags: []string{` xmlns:p="u"`, ` xmlns:q="u"`, ` xmlns:q="v"`, ` xmlns:r="&#117;"`, ` xmlns="u"`, ` p:b=""`, ` q:b=""`, ` r:b=""`, ` p:c=""`, ` q:c=""`, ` b=""`, "/>", ">"}, depth: pick(c, 5, 7), opts: []byte{oNs}})
	c.explore(tree{name: "elements", seeds: []string{"<r xmlns:p='u' xmlns:q='u' xmlns:r='w'>", "<r xmlns:p='u'>"}, frags: []string{"<a", "<p:a", "<b", ` xmlns:q="u"`, ` xmlns:q="v"`, ` p:b=""`, ` q:b=""`, ` r:b=""`, ` b=""`, ` q:c=''`, ">", "/>", "</a>", "</p:a>", "</b>"}, depth: pick(c, 6, 7), opts: []byte{oNs}})
	// namespace names that are equal or not after references are resolved
	names := []string{"", "u", "&#117;", "&#x75;", "uu", "u&#117;", "&#117;u", "v", "u ", "&amp;", "&#38;", "&#x26;", "&lt;", "&#60;", "&gt;", ">", "&#62;", "&apos;", "&#39;", "&quot;", "&#34;", "&amp;u", "u&amp;", "\u00e9", "&#233;", "&#xE9;", "\u00e8", "&#xC3;&#xA9;", "\u20ac", "&#8364;", "\U0001F600", "&#x1F600;", "&#0117;", "&#x0075;", "uv", "vu", "&amp;lt;", "&amp;#117;", "http://x.y/z", "http://x.y/z/", "http://x.y&#47;z", "HTTP://x.y/z", "u\u00e9v", "u&#233;v", "u&#xe9;w",
		"\u0175", "&#x175;", "\U00010075", "&#x10075;", "\uF600", "&#xF600;", "\u7500", "\U00100075", "&#x100075;"}
	locals := [][2]string{{"b", "b"}, {"b", "c"}, {"bb", "b"}, {"bc", "bd"}, {"\u00e9", "\u00e9"}, {"\u00e9", "\u00e8"}, {"b.c", "b.c"}, {"abcdefgh", "abcdefgi"}, {"abcdefgh", "abcdefgh"}}
	c.docs("spellings", len(names)*len(names), []byte{oNs}, func(i int, emit func(string)) {
		u, v := names[i/len(names)], names[i%len(names)]
		for _, l := range locals {
			emit(fmt.Sprintf(`<a xmlns:p="%s" xmlns:q="%s" p:%s="" q:%s=""/>`, u, v, l[0], l[1]))
			emit(fmt.Sprintf(`<a q:%s="" xmlns:q="%s" p:%s="" xmlns:p='%s'>t</a>`, l[1], v, l[0], strings.ReplaceAll(u, "'", "&apos;")))
			emit(fmt.Sprintf(`<r xmlns:q="%s"><a xmlns:p="%s" p:%s="" z="" q:%s=""/></r>`, v, u, l[0], l[1]))
			emit(fmt.Sprintf(`<r xmlns:p="%s" xmlns:q="%s"><b p:%s=""/><b q:%s=""/><c p:%s=''><d q:%s=''/></c></r>`, u, v, l[0], l[1], l[0], l[1]))
			emit(fmt.Sprintf(`<r xmlns:p="%s" xmlns:q="x"><b xmlns:q="%s" q:%s="1"><c/></b><d q:%s='' p:%s=''/></r>`, u, v, l[0], l[1], l[0]))
			emit(fmt.Sprintf(`<r xmlns:p="%s"><b xmlns:q="%s" xmlns:r="z" r:%s='' q:%s="1" b='' p:%s=''/></r>`, u, v, l[0], l[1], l[0]))
		}
	})
	var s []string
	for n := 2; n <= 300; n++ {
		if n > 12 && !(n >= 30 && n <= 34) && !(n >= 62 && n <= 67) && !(n >= 126 && n <= 130) && !(n >= 254 && n <= 260) && n != 300 {
			continue
		}
		at := []int{0, 1, 2, 30, 31, 32, 63, 64, 65, 127, 128, 254, 255, 256, n - 3, n - 2, n - 1}
		for form := 0; form < 16; form++ {
			s = append(s, spec("nsattrs", n, 0, -1, form))
			for _, i := range at {
				for _, j := range at {
					if i >= 0 && i < j && j < n && (n < 20 || form < 4 || i == 0 || j == n-1) {
						s = append(s, spec("nsattrs", n, i, j, form))
					}
				}
			}
		}
	}
	c.specs("attribute counts", s, []byte{oNs})
	c.namePairs("pairs of local names", nameAlphabet, 3, []byte{oNs}, func(a, b string) []string {
		return []string{"<r xmlns:p='u' xmlns:q='u' p:" + a + "='' q:" + b + "=''/>", "<r xmlns:p='u' xmlns:q='v' p:" + a + "='' q:" + b + "=''/>"}
	})
	c.namePairs("pairs of prefixes", nameAlphabet2, 2, []byte{oNs}, func(a, b string) []string {
		return []string{"<r xmlns:" + a + "='u' xmlns:" + b + "='u' " + a + ":x='' " + b + ":x=''/>", "<r xmlns:" + a + "='u' xmlns:" + b + "='v' " + a + ":x='' " + b + ":x=''/>",
			"<r xmlns:" + a + "='u'><c xmlns:" + b + "='u' " + a + ":x='' " + b + ":x=''/></r>"}
	})
	c.namePairs("pairs of namespace names", nameAlphabet, 3, []byte{oNs}, func(a, b string) []string {
		return []string{"<r xmlns:p='" + a + "' xmlns:q='" + b + "' p:x='' q:x=''/>", "<r xmlns:p='" + a + "'><c z='' xmlns:q='" + b + "' q:x='' p:x=''/></r>"}
	})
	c.namePairs("pairs of other names", nameAlphabet2, 2, []byte{oNs}, func(a, b string) []string {
		return []string{"<r xmlns:p='u' xmlns:q='u' p:" + a + "='' q:" + b + "=''/>", "<r xmlns:p='" + a + "' xmlns:q='" + b + "' p:x='' q:x=''/>"}
	})
	// every character as a namespace name, against itself and the characters
	// that differ from it in the high or in the low bits
	c.docs("every character in a namespace name", 0x1100, []byte{oNs}, func(i int, emit func(string)) {
		for x := i << 8; x < (i+1)<<8; x++ {
			if !isChar(x) || x == '<' || x == '&' || x == '\'' {
				continue
			}
			if l := x & 0xFF; (!c.thorough || c.shrink > 0) && i > 0x20 && l > 1 && l != 0x3F && l != 0x40 && l != 0x75 && l < 0xFD {
				continue
			}
			raw, reff := string(rune(x)), fmt.Sprintf("&#x%x;", x)
			emit("<a xmlns:p='" + raw + "' xmlns:q='" + reff + "' p:b='' q:b=''/>")
			for _, y := range []int{x & 0xFF, x & 0xFFFF, x ^ 0x10000, x ^ 0x100, x ^ 1, x ^ 0x80, x ^ 0x800, x & 0x7F} {
				if y != x && y > 0x20 && isChar(y) {
					emit("<a xmlns:p='" + raw + "' xmlns:q='" + fmt.Sprintf("&#%d;", y) + "' p:b='' q:b=''/>")
					if y != '<' && y != '&' && y != '\'' {
						emit("<r xmlns:p='u" + raw + "'><a xmlns:q='u" + string(rune(y)) + "' p:b='' q:b=''/></r>")
					}
				}
			}
		}
	})
	c.byteEdits("one byte", []string{"<a xmlns:p='u' xmlns:q='u' p:b='' q:c=''/>", "<a xmlns:p='u' xmlns:q='v' p:b='' q:b=''/>", "<a xmlns:p='&#117;' xmlns:q='u' p:bc='' q:bd=''/>", "<a xmlns:p='u'><b xmlns:q='&lt;' p:c='' q:c='' xmlns:r='&#60;'/></a>", "<a p:ab='' q:aB='' xmlns:p='u' xmlns:q='u'/>", "<a xmlns:p='uU' xmlns:q='UU' p:a='' q:a='' a=''/>"}, oNs, oNs|oLc5)
	c.sizes(10, oNs)
	c.deep(10, oNs)
	c.repeats(39, 43, oNs)
	c.similarNames(8, 15, oNs)
	c.anyChar([]string{"<a xmlns:p='u' xmlns:q='u' p:b='' q:b=''/>"}, oNs)
	c.preluded(checkC10)
}

func isChar(x int) bool {
	return x == 9 || x == 10 || x == 13 || x >= 0x20 && x <= 0xD7FF || x >= 0xE000 && x <= 0xFFFD || x >= 0x10000 && x <= 0x10FFFF
}
