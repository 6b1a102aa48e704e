package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"strings"
	"syscall"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/reader"

	"mc/ref"
)

// Documents in which the same construct stands near and far: every marker
// byte is replaced by n bytes of a filler.
//
//	\x01 whitespace  \x02 letters  \x03 empty elements  \x04 nested comments
//	\x05 line breaks \x06 two-byte characters \x0e attributes
var distDocs = map[int][]string{
	2:  {"<a>\x02<b>\x02</b></a>", "<abc\x01>\x02</abd>", "<abc>\x01</abc\x01>", "<abc>\x03</abd>", "<abc>\x03</abc>", "<a><b>\x02</a></b>", "<a><b>\x03</b></c>", "<a>\x06</a>\x01<", "<a>\x02</a>\x01x", "<a>\x02</ a>", "<a\x01/\x01>", "<a\x01/>\x01", "<a>\x03<b></a>", "<r>\x02<a b='\x02'>\x02</a>\x03</r>", "<r>\x05</a>", "\x01x<a/>", "<a/><b/>\x01", "<a>\x01<b>\x01</b>", "<a><ab/>\x03</ab>", "<a\x0e>\x02</a>", "<a\x0e>\x02</b>"},
	3:  {"<r>\x02<a b='1' b='2'/></r>", "<r>\x02<a b='1' c='2'/></r>", "<a\x01b='1'\x01b='2'/>", "<a\x01b='1'\x01c='2'/>", "<a b='\x02' b=''/>", "<a b='\x02' c=''/>", "<a b=''\x0e b=''/>", "<a b=''\x0e c=''/>", "<a b='\x02<'/>", "<a b='\x06'\x01c\x01=\x01\"\x02\">t</a>", "<a b\x01='1'\x01c='2'\x01b='3'/>", "<a b='\x02'c=''/>", "<a b=\x01'\x02\" c=''/>", "<a b=\x01\x02/>", "<r b=''>\x03<a b=''\x0e>\x02</a></r>", "<a b='\x02>'/>", "<a b='\x01'\x01/\x01>", "<a\x01b/>", "<a b='1'\x01bc='1'\x01bd='' bc=''/>"},
	4:  {"<a>\x02&lt;</a>", "<a>\x02&lx;</a>", "<a>\x02&#x\x02;</a>", "<a>\x02&#65;\x02</a>", "<a>\x02&#0;</a>", "<a>\x02&</a>", "<a b='\x02&amp;\x02'/>", "<a b='\x02&am;'/>", "<a b='\x02&#xD800;'/>", "<a>\x02&lt</a>", "<a><b/>\x06&gt;</a>", "<a>\x03&quot;\x02</a>", "<a>\x03&quo;\x02</a>", "<a>\x01&apos;</a>", "<a>\x01&apo;</a>", "<a>&lt;\x02&gt\x02</a>", "<a>&#x110000;\x02</a>", "<a>&\x02;</a>", "<a xmlns:p='\x02&#x10FFFE;'/>"},
	5:  {"<a><!--\x02--x--></a>", "<a><!--\x02--></a>", "<!--\x02-- --><a/>", "<!--\x02--->\x01<a/>", "<a/><!--\x02--><!--\x02--->", "<a/><!--\x02-", "<a><!--\x02--", "<a>\x02]]></a>", "<a>\x02]] ></a>", "<a>]]\x02></a>", "<a>]\x01]></a>", "<a><![CDATA[\x02]]></a>", "<a><![CDATA[]]\x02>]]></a>", "<a><![CDATA[\x02]></a>", "<a>\x02<![CDATA[\x06]]>\x02]]></a>", "<?p\x01?><a/>", "<?p \x02?><a/>", "<?p\x02?><a/>", "<a><?p\x01\x02??></a>", "<a/><?p \x02", "<a/><?p\x01\x02?>", "<a/>\x01<?xml\x01?>", "<a>\x02<?xMl v?></a>", "<a>\x02<!-x--></a>", "<a>\x02<![CDAT[x]]></a>", "<a>\x03<?p\x01v?>]]></a>", "<a>\x02<!--\x06-\x06--></a>"},
	6:  {"<?xml\x01version='1.0'\x01?>\x01<a/>", "<?xml\x01version\x01=\x01'1.0'\x01encoding\x01=\x01'utf-8'\x01standalone\x01=\x01'yes'\x01?><a/>", "<?xml version='1.0'\x01encoding=\x01\"utf-9\"?><a/>", "<?xml version='1.0'\x01standalone='maybe'?><a/>", "<?xml version=\x01'1.2'?><a/>", "\x01<?xml version='1.0'?>\x05<a/>", "<!--\x02--><?xml version='1.0'?><a/>", "<?xml version='1.0'?>\x05<!--\x02--><!DOCTYPE\x01a\x01>\x01<a/>", "<a>\x02<?xml version='1.0'?></a>", "<a/>\x01<?xml version='1.0'?>", "<a>\x02</a>\x05<!DOCTYPE a>", "<?xml\x01encoding='utf-8'?><a/>", "<?xml version='1.0' encoding='\x02'?><a/>", "<?xml version='1.\x02'?><a/>", "<?xml version='1.0'\x01>\x01<a/>", "<?xml version='1.0' standalone='yes'\x01encoding='utf-8'?><a/>", "\xEF\xBB\xBF\x01<a>\x02</a>", "<?xml version='1.0'\x01?", "<?xml version='1.0' encoding='us-ascii'\x01?>\x01<a>\x02\u00e9</a>"},
	7:  {"<a>\x02\x80</a>", "<a>\x02\u00e9</a>", "<a>\x06\xC3</a>", "<a>\x02\u20ac\x02\U0001F600\x02</a>", "<a b='\x02\xC3'/>", "<a b='\x02\u00e9\x02\uFFFE'/>", "<a><!--\x02\x00--></a>", "<a><!--\x06\uFFFF--></a>", "<!--\x02\xE2\x82--><a/>", "<a><![CDATA[\x02\xED\xA0\x80]]></a>", "<a><![CDATA[\x06\uFFFD]]></a>", "<?p \x02\xF8?><a/>", "<a/><!--\x02\x08-->", "<a/><?p \x02\x1F?>", "<a\x02\u00e9/>", "<a \x02\u00d7=''/>", "<a>\x03\x02\u00d7\uFFFF</a>", "<a\x01\u00b7=''/>", "<a>\x01\x0B</a>", "<a\x0e \u00e9='\x02\xF4\x90\x80\x80'/>", "<a b='\x02' c='\x07'/>"},
	9:  {"<r xmlns:p='u'>\x02<q:b/></r>", "<r xmlns:p='u'>\x02<p:b/></r>", "<r xmlns:p='u'>\x03<p:b>\x02<p:c/></p:b></r>", "<r xmlns:p='u'>\x03<b q:x=''/></r>", "<r><a xmlns:p='u'>\x03</a>\x02<p:b/></r>", "<r xmlns:p='\x02' p:a=''/>", "<r\x01xmlns:p='u'\x01q:a=''/>", "<r\x01p:a=''\x01xmlns:p='u'/>", "<r\x0e p:a=''/>", "<r\x0e xmlns:p='u' p:a=''/>", "<p:r\x0e xmlns:p='u'>\x02</p:r>", "<p:r\x0e xmlns:q='u'>\x02</p:r>", "<r>\x02<a xmlns:p=''/></r>", "<r>\x02<a xmlns:xml='u'/></r>", "<r>\x02<a xmlns:xmlns='u'/></r>", "<r>\x03<a xml:lang='\x02'/></r>", "<r xmlns:p='u'><a xmlns:p='v'>\x03</a>\x02<p:b p:c=''/></r>", "<r xmlns:p='u'>\x02<a xmlns:q='v'>\x03<p:b q:c=''/></a><q:d/></r>", "<r>\x02<a xmlns:p='" + xmlnsURI + "'/></r>", "<r>\x02<a xmlns:p='" + xmlURI + "'/></r>", "<r>\x02<a xmlns:p='u" + xmlURI + "'/></r>"},
	10: {"<r xmlns:p='u' xmlns:q='u'>\x02<a p:b='' q:b=''/></r>", "<r xmlns:p='u' xmlns:q='v'>\x02<a p:b='' q:b=''/></r>", "<r xmlns:p='u'>\x03<a xmlns:q='u' p:b='\x02' q:b=''/></r>", "<r xmlns:p='u'>\x03<a xmlns:q='v' p:b='\x02' q:b=''/></r>", "<r xmlns:p='u' xmlns:q='u' p:a=''\x0e q:a=''/>", "<r xmlns:p='u' xmlns:q='v' p:a=''\x0e q:a=''/>", "<r xmlns:p='\x02' xmlns:q='\x02' p:a='' q:a=''/>", "<r xmlns:p='\x02' xmlns:q='\x02x' p:a='' q:a=''/>", "<r xmlns:p='\x02a' xmlns:q='\x02b' p:a='' q:a=''/>", "<r\x01xmlns:p='u'\x01xmlns:q='u'\x01p:a=''\x01q:b=''\x01p:b=''/>", "<r\x01xmlns:p='u'\x01xmlns:q='&#117;'\x01p:a=''\x01q:a=''/>", "<r xmlns:p='u'>\x03<b xmlns:q='u'>\x03<a\x01p:b=''\x01q:b=''/></b></r>", "<r xmlns:p='u'>\x03<b xmlns:q='u' xmlns:p='v'>\x03<a\x01p:b=''\x01q:b=''/></b></r>", "<r xmlns:p='u' xmlns:q='w'>\x03<b xmlns:q='u'>\x03</b>\x02<a\x01p:b=''\x01q:b=''/></r>"},
	17: {"<a>\x02&lt;\x02&#65;\x01</a>", "<a b='\x02&amp;\x01\x05' c='\x06'/>", "<a><!--\x02-->\x01<?p\x01\x02?><![CDATA[\x06]]>&#x20AC;\x02</a>", "<a>\x05&#10;\x05</a>"},
	26: {"<a>\x02<b/>\x03<c>\x02<d x='\x02'/></c></a>", "<a\x0e><b\x0e>\x03<c><d/></c></b><e/>\x03</a>", "<!--\x02--><a><b><c><d/>\x03</c></b></a>"},
}

func distDoc(p, i, n int) string {
	d := distDocs[p][i]
	var b strings.Builder
	for k := 0; k < len(d); k++ {
		switch d[k] {
		case 1:
			b.WriteString(strings.Repeat(" ", n))
		case 2:
			b.WriteString(strings.Repeat("wxyz", n/4+1)[:n])
		case 3:
			b.WriteString(strings.Repeat("<z/>", n/4) + strings.Repeat("z", n%4))
		case 4:
			b.WriteString("<!--" + strings.Repeat("c", n) + "-->")
		case 5:
			b.WriteString(strings.Repeat("\r\n", n/2) + strings.Repeat("\n", n%2))
		case 6:
			b.WriteString(strings.Repeat("\u00e9", n/2) + strings.Repeat("z", n%2))
		case 14:
			for j := 0; j < n && j < 300; j++ {
				fmt.Fprintf(&b, " at%d=''", j)
			}
		default:
			b.WriteByte(d[k])
		}
	}
	return b.String()
}

func init() {
	gens["dist"] = func(a []int) string { return distDoc(a[0], a[1], a[2]) }
	families["farj"] = func(w *Worker, pl []byte) string {
		return w.farJudge(pl[6:], int(binary.LittleEndian.Uint32(pl[2:])), pl[1], pl[0])
	}
	readers["farj"] = readers["far"]
}

// distances lists filler lengths: all small ones and those around every
// power of two.
func distances(small, exp, far int) []int {
	var out []int
	for n := 0; n <= small; n++ {
		out = append(out, n)
	}
	for e := 7; e <= exp; e++ {
		for d := -3; d <= 3; d++ {
			out = append(out, 1<<uint(e)+d)
		}
	}
	for e := exp + 1; e <= far; e++ {
		out = append(out, 1<<uint(e)-1, 1<<uint(e)+2)
	}
	return out
}

// sizes runs the documents of property p with fillers of many lengths, and
// as windows far inside big arrays.
func (c *Ctx) sizes(p int, opts ...byte) {
	if c.shrink > 0 {
		return
	}
	var s []string
	for i := range distDocs[p] {
		for _, n := range distances(pick(c, 200, 1100), pick(c, 16, 18), pick(c, 18, 20)) {
			s = append(s, spec("dist", p, i, n))
		}
	}
	c.specs("near and far", s, opts)
	if c.fam != "" {
		return
	}
	var big []string
	for i := range distDocs[p] {
		for _, n := range pick2(c, []int{1<<20 + 3}, []int{1<<21 - 2, 1<<22 + 1, 1<<23 + 1, 1<<24 + 5}) {
			big = append(big, spec("dist", p, i, n))
		}
	}
	big = append(big, spec("dist", p, 0, 1<<24+5), spec("dist", p, 1, 1<<24+5))
	c.specs("very far", big, opts[len(opts)-1:])
	c.farDocs(p, opts)
}

func pick2(c *Ctx, q, t []int) []int {
	if c.thorough {
		return t
	}
	return q
}

func (c *Ctx) farDocs(p int, opts []byte) {
	offs := []int{200, 255, 256, 257, 300, 2047, 2048, 65535, 65536, 65541, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<24 - 2, 1<<24 + 3, 1<<28 - 1, 1<<28 + 1, 1<<29 - 1, 1<<29 + 5}
	if c.thorough {
		for e := 7; e < 30; e++ {
			for d := -12; d <= 3; d++ {
				offs = append(offs, 1<<uint(e)+d)
			}
		}
	}
	c.Space("far inside an array", len(offs), func(w *Worker, i int) {
		for k := range distDocs[p] {
			for _, n := range []int{0, 1, 3, 8, 20} {
				d := distDoc(p, k, n)
				w.states++
				w.transitions += int64(len(d))
				for _, o := range opts {
					pl := binary.LittleEndian.AppendUint32([]byte{o, "<\x00a:"[(i+k)%4]}, uint32(offs[i]))
					w.Do("farj", append(pl, d...))
				}
			}
		}
	})
}

// bigArray returns the first size bytes of the worker's big array.
func (w *Worker) bigArray(size int) []byte {
	mi, _ := farMem.Load(w)
	mem, _ := mi.([]byte)
	if len(mem) < size {
		if mem != nil {
			syscall.Munmap(mem)
			farMem.Delete(w)
		}
		m, err := syscall.Mmap(-1, 0, size+1<<20, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
		if err != nil {
			return nil
		}
		mem = m
		farMem.Store(w, mem)
	}
	return mem[:size]
}

// placed runs f with d standing at off of a big array of zeros, with filler
// bytes around it.
func (w *Worker) placed(d []byte, off int, filler byte, f func(mem []byte) string) string {
	mem := w.bigArray(off + len(d) + 100)
	if mem == nil {
		return ""
	}
	lo := off - 50
	if lo < 0 {
		lo = 0
	}
	for i := lo; i < len(mem); i++ {
		mem[i] = filler
	}
	copy(mem[off:], d)
	defer func() {
		for i := lo; i < len(mem); i++ {
			mem[i] = 0
		}
	}()
	return f(mem)
}

// farJudge compares a window far inside an array with the model.
func (w *Worker) farJudge(d []byte, off int, filler, opts byte) string {
	r := w.eng.ref.Parse(d, opts&oNs != 0)
	return w.placed(d, off, filler, func(mem []byte) string {
		o := runParser(mem, true, off, len(d), opts)
		v := o.verdict()
		if r.Verdict == ref.Unknown {
			w.outcomes["unknown"]++
			return ""
		}
		w.outcomes[v]++
		if v != r.Verdict.String() {
			return fmt.Sprintf("the parser says %s (%s), expected %s (%s)", v, o.errText(), r.Verdict, r.Reason)
		}
		if opts&oTok != 0 && r.Verdict == ref.Accept {
			got, err := tokens(o.p.VerifState().Vtd)
			if err != nil {
				return "token buffer: " + err.Error()
			}
			return compareTokens(got, r.Tokens, off)
		}
		return ""
	})
}

// runs: the same delimiter byte many times.
func init() {
	gens["run"] = func(a []int) string {
		return strings.ReplaceAll(runDocs[a[0]], "\x01", strings.Repeat(runBytes[a[1]], a[2]))
	}
}

var (
	runDocs  = []string{"<a>\x01</a>", "<a>\x01></a>", "<a>t\x01x</a>", "<a><![CDATA[\x01]]></a>", "<a><![CDATA[\x01>]]></a>", "<a><![CDATA[\x01</a>", "<a><!--\x01--></a>", "<a><!--\x01></a>", "<a><!--x\x01x--></a>", "<!--\x01--><a/>", "<!--\x01><a/>", "<a/><!--\x01-->", "<a/><!--\x01>", "<?p \x01?><a/>", "<?p \x01><a/>", "<a><?p \x01?></a>", "<a><?p \x01></a>", "<a/><?p \x01?>", "<a/><?p \x01>", "<?p\x01?><a/>", "<a/><?p\x01?>", "<a><b/>\x01></a>", "<a><b></b>\x01><c/></a>", "<a b='\x01'>\x01</a>", "\x01<a/>\x01", "<a>&lt;\x01&gt;</a>", "<a><!--c-->\x01></a>", "<a><![CDATA[\x01]]>\x01</a>"}
	runBytes = []string{"]", "-", "?", " ", "\r\n", ">", "]>", "->", "?>", "- ", "] ", "\u00e9"}
)

func (c *Ctx) runs(opts ...byte) {
	if c.shrink > 0 {
		return
	}
	var s []string
	for d := range runDocs {
		for b := range runBytes {
			for n := 0; n <= 40; n++ {
				s = append(s, spec("run", d, b, n))
			}
			for _, k := range []int{64, 128, 256, 512, 65536} {
				for _, m := range []int{-4, -3, -2, -1, 0, 1, 2, 3} {
					if k < 65536 || c.thorough || b < 4 {
						s = append(s, spec("run", d, b, k+m))
					}
				}
			}
		}
	}
	c.specs("runs of delimiters", s, opts)
}

// repeat: one construct many times, with another one among them.
func init() {
	gens["repeat"] = func(a []int) string {
		f := repeatForms[a[0]]
		n, at := a[1], a[2]
		var b strings.Builder
		b.WriteString(f[0])
		for i := 0; i < n; i++ {
			if i == at {
				b.WriteString(f[2])
			} else {
				b.WriteString(f[1])
			}
		}
		b.WriteString(f[3])
		return b.String()
	}
}

var repeatForms = [][4]string{
	{"", "<!--c-->", "<!--c-", "<a/>"}, {"", "<!--c-->", "<!--c--->", "<a/>"}, {"", "<?p v?>", "<?xml v?>", "<a/>"}, {"", "<?p?>", "<? p?>", "<a/>"},
	{"", "\n<!--c-->", "\nx<!--c-->", "<a/>"}, {"", "<!--c--><?p?>", "<!--c-->t", "<!DOCTYPE a><a/>"}, {"<!DOCTYPE a>", " <?p v?>\n", "<a/>", "<a/>"},
	{"<a>", "<!--c-->", "<!--c--d-->", "</a>"}, {"<a>", "<?p v?>", "<?Xml?>", "</a>"}, {"<a>", "<![CDATA[d]]>", "<![CDATA[d]]>]]>", "</a>"}, {"<a>", "t<b/>", "]]><b/>", "</a>"}, {"<a>", "]]<b/>", "]]><b/>", "</a>"},
	{"<a>", "&lt;", "&l;", "</a>"}, {"<a>", "t&#65;", "t&#;", "</a>"}, {"<a b='", "&amp;", "&amp", "'/>"}, {"<a b='", "&#x10FFFD;", "&#x110000;", "'/>"}, {"<a>", "<b c='&quot;'/>", "<b c='&quit;'/>", "</a>"}, {"<a>", "&#9;", "&#8;", "</a>"},
	{"<a>", "<b></b>", "<b></c>", "</a>"}, {"<a>", "<b>t</b>", "<b>t</bb>", "</a>"}, {"<a>", "<b c='1' d='2'/>", "<b c='1' c='2'/>", "</a>"}, {"<a>", "<b c='1'>x</b>", "<b c='1' d='' d=''>x</b>", "</a>"}, {"<a", " b%='1'", " b%='<'", "/>"},
	{"<a/>", "<!--c-->", "<!--c--->", ""}, {"<a/>", "<?p v?>", "<?xMl v?>", ""}, {"<a/>", "\n<!--c--><?p?>", "\n<!--c-->x", "\n"}, {"<a/>", "\n", "<b/>", ""}, {"<a/>", " ", "x", "<!--c-->"},
	{"<a>", "\u00e9", "\xC3", "</a>"}, {"<a>", "\u20ac<b/>", "\uFFFE<b/>", "</a>"}, {"<a b='", "\U0001F600", "\U0001F600\x80", "'/>"}, {"<a><!--", "\u00e9-", "\u00e9--", "x--></a>"}, {"<a>", "<\u00e9 \u00e8='\u20ac'/>", "<\u00e9 \u00d7='\u20ac'/>", "</a>"},
}

func init() {
	repeatForms = append(repeatForms, [][4]string{
		{"<r xmlns:p='u'>", "<p:a/>", "<q:a/>", "</r>"}, {"<r xmlns:p='u'>", "<a p:b=''/>", "<a q:b=''/>", "</r>"}, {"<r>", "<p:a xmlns:p='u'/>", "<p:a xmlns:q='u'/>", "</r>"}, {"<r xmlns:p='u'>", "<a xmlns:q='v'><q:b p:c=''/></a>", "<a xmlns:r='v'><q:b p:c=''/></a>", "</r>"},
		{"<r>", "<a xmlns:p='u'>t</a>", "<a xmlns:p=''>t</a>", "</r>"}, {"<r>", "<a xml:b=''/>", "<a xmlns:xml='u'/>", "</r>"},
		{"<r xmlns:p='u' xmlns:q='u'>", "<a p:b='' q:c=''/>", "<a p:b='' q:b=''/>", "</r>"}, {"<r xmlns:p='u' xmlns:q='v'>", "<a p:b='' q:b=''/>", "<a xmlns:q='u' p:b='' q:b=''/>", "</r>"}, {"<r xmlns:p='u'>", "<a xmlns:q='v' p:b='' q:b=''>t</a>", "<a xmlns:q='&#117;' p:b='' q:b=''>t</a>", "</r>"}, {"<r>", "<a xmlns:p='u' xmlns:q='w' p:b='' q:b=''/>", "<a xmlns:p='u' xmlns:q='u' p:b='' q:b=''/>", "</r>"},
	}...)
	base := gens["repeat"]
	gens["repeat"] = func(a []int) string {
		d := base(a)
		if strings.Contains(d, "%") { // number the names
			var b strings.Builder
			k := 0
			for i := 0; i < len(d); i++ {
				if d[i] == '%' {
					fmt.Fprintf(&b, "%d", k)
					k++
				} else {
					b.WriteByte(d[i])
				}
			}
			d = b.String()
		}
		return d
	}
}

// repeats runs repeatForms[lo:hi].
func (c *Ctx) repeats(lo, hi int, opts ...byte) {
	if c.shrink > 0 {
		return
	}
	var s []string
	for f := lo; f < hi; f++ {
		for n := 1; n <= 24; n++ {
			s = append(s, spec("repeat", f, n, -1))
			for at := 0; at < n; at++ {
				s = append(s, spec("repeat", f, n, at))
			}
		}
		for _, k := range []int{32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536} {
			for m := -2; m <= 3; m++ {
				if k > 4096 && m < 1 && m > 2 && !c.thorough {
					continue
				}
				n := k + m
				if f == 22 && n > 1100 {
					continue
				}
				s = append(s, spec("repeat", f, n, -1), spec("repeat", f, n, n-1))
				if k <= 4096 {
					s = append(s, spec("repeat", f, n, 0), spec("repeat", f, n, n/2), spec("repeat", f, n, n-2))
				}
			}
		}
	}
	c.specs("repetitions", s, opts)
}

// charat: a character at every position of a long filler.
func (c *Ctx) charAt(opts ...byte) {
	if c.shrink > 0 {
		return
	}
	items := []string{"\x00", "\x08", "\x0b", "\x1f", "\x80", "\xc3", "\xc0\xaf", "\u00e9", "\u20ac", "\xed\xa0\x80", "\uFFFE", "\uFFFF", "\U00010000", "\U0010FFFF", "\xf4\x90\x80\x80", "\xe2\x82", "\xff", "<", "&", "&lt;", "\r\n", "\u00d7"}
	fills := []string{"a", "\u00e9", "\u20ac", "a\u00e9", "b \U0001F600"}
	n := pick(c, 40, 140)
	c.docs("characters at every position", len(charPlaces)*(n+1), opts, func(i int, emit func(string)) {
		p, k := charPlaces[i/(n+1)], i%(n+1)
		for _, f := range fills {
			l := strings.Repeat(f, k)
			for _, t := range []int{0, 1, 3, 7, 8, 9, 16, 40} {
				r := strings.Repeat(f, t)
				for _, x := range items {
					emit(p[0] + l + x + r + p[1])
				}
			}
		}
	})
	items = []string{"\u00d7", "\x80", "\u00e9", "\x00", ";", "\u037e", "\xc3", "\U000EFFFF", "\U000F0000", "\u2190"}
	m := len(namePlaces("x"))
	c.docs("characters at every position of a name", m*(n+1), opts, func(i int, emit func(string)) {
		pi, k := i/(n+1), i%(n+1)
		for _, f := range []string{"a", "\u00e9", "\u4e00"} {
			for _, t := range []int{0, 1, 7, 8, 17} {
				for _, x := range items {
					emit(namePlaces(strings.Repeat(f, k) + x + strings.Repeat(f, t))[pi])
				}
			}
		}
	})
}

// similar long names: of n bytes, differing at byte d.
func init() {
	gens["similar"] = func(a []int) string {
		f := similarForms[a[0]]
		n, d := a[1], a[2]
		x := []byte(strings.Repeat("abcdefghij", n/10+1)[:n])
		y := append([]byte{}, x...)
		switch {
		case d >= 0:
			y[d] ^= 16
		case d == -2:
			y = y[:n-1]
		case d == -3:
			y = append(y, 'a')
		}
		return strings.ReplaceAll(strings.ReplaceAll(f, "\x01", string(x)), "\x02", string(y))
	}
}

// lenpair form n m d: names of n and m bytes that start alike, differing at
// byte d of the second.
func init() {
	gens["lenpair"] = func(a []int) string {
		n, m := a[1], a[2]
		x := strings.Repeat("abcdefghij", max(n, m)/10+1)
		y := []byte(x[:m])
		if d := a[3]; d >= 0 && d < m {
			y[d] ^= 16
		}
		return strings.ReplaceAll(strings.ReplaceAll(similarForms[a[0]], "\x01", x[:n]), "\x02", string(y))
	}
}

var similarForms = []string{
	"<r \x01='1' \x02='2'/>", "<r z='' \x01='1' y='' \x02='2'>t</r>", "<r xmlns:\x01='1' xmlns:\x02='2'/>",
	"<r xmlns:\x01='u'><\x02:x/></r>", "<r xmlns:\x01='u' \x02:x=''/>", "<\x01:r xmlns:\x02='u'/>", "<r xmlns:\x01='u'><b xmlns:\x02='v'><c/></b><\x02:x/></r>", "<r xmlns:\x01='u' xmlns:\x02='v'><\x01:x/><\x02:x/></r>",
	"<r xmlns:p='u' xmlns:q='u' p:\x01='' q:\x02=''/>", "<r xmlns:p='u' xmlns:q='v' p:\x01='' q:\x02=''/>", "<r xmlns:p='\x01' xmlns:q='\x02' p:x='' q:x=''/>", "<r xmlns:\x01='u' xmlns:\x02='u' \x01:x='' \x02:x=''/>", "<r xmlns:\x01='u' xmlns:\x02='v' \x01:x='' \x02:x=''/>", "<r xmlns:p='\x01&amp;\x01' xmlns:q='\x02&#38;\x01' p:x='' q:x=''/>", "<r xmlns:p='\x01'><a xmlns:q='&#x61;' xmlns:r='\x02' p:x='' r:x='' q:x=''/></r>",
	"<a><\x01>t</\x02></a>", "<a><\x01 b='c'><d/></\x02\n></a>", "<\x01><\x02></\x02></\x01>",
}

func (c *Ctx) similarNames(lo, hi int, opts ...byte) {
	if c.shrink > 0 {
		return
	}
	var s []string
	for f := lo; f < hi; f++ {
		for n := 1; n <= 40; n++ {
			for d := -3; d < n; d++ {
				if n > 1 || d != -2 {
					s = append(s, spec("similar", f, n, d))
				}
			}
		}
		for _, n := range []int{63, 64, 65, 127, 128, 129, 255, 256, 257, 500, 505, 511, 512, 513, 1000, 1023, 1024, 1025, 2040, 2047} {
			for d := -3; d < n; d++ {
				if d < 10 || d > n-10 || d%64 < 2 || d%64 > 62 || d%50 == 0 {
					s = append(s, spec("similar", f, n, d))
				}
			}
		}
	}
	c.specs("long similar names", s, opts)
	s = nil
	for f := lo; f < hi; f++ {
		for _, n := range []int{1, 2, 3, 9, 10, 11, 40, 100, 255, 256, 257, 300, 511, 512, 1000, 2047} {
			for e := 7; e <= 17; e++ {
				m := 1 << uint(e)
				s = append(s, spec("lenpair", f, n, n+m, -1), spec("lenpair", f, n+m, n, -1), spec("lenpair", f, n+m, n, 0))
			}
		}
		if strings.Contains(similarForms[f], "='\x01") { // not limited to 2047
			for e := 11; e <= pick(c, 17, 19); e++ {
				for _, d := range []int{-2, -1, 0, 1, 7} {
					n := 1<<uint(e) + d
					for k := 7; k <= e; k++ {
						s = append(s, spec("lenpair", f, n, n, min(1<<uint(k), n-1)), spec("lenpair", f, n, n, min(1<<uint(k), n)-2))
					}
					s = append(s, spec("lenpair", f, n, n, -1), spec("lenpair", f, n, n, 0), spec("lenpair", f, n, n-1, -1), spec("lenpair", f, n, n+1, -1))
				}
			}
		}
	}
	c.specs("pairs of lengths", s, opts)
}

// allSizes runs the size spaces of all properties.
func (c *Ctx) allSizes(opts ...byte) {
	for _, p := range []int{2, 3, 4, 5, 6, 7, 9, 10, 17, 26} {
		c.sizes(p, opts...)
	}
	c.runs(opts...)
	c.repeats(0, len(repeatForms), opts...)
	c.similarNames(0, len(similarForms), opts...)
}

func init() {
	// late n kind l cnt kids: n tokens of a kind before the elements of
	// interest (0 prolog comments, 1 prolog processing instructions, 2
	// attributes of the root, 3 comments, 4 text and elements in the root),
	// then cnt elements at level l, and n%100 comments behind the root
	gens["late"] = func(a []int) string {
		n, kind, l, cnt, kids := a[0], a[1], a[2], a[3], a[4]
		var b strings.Builder
		if kind < 2 {
			b.WriteString(strings.Repeat([]string{"<!--c-->", "<?p v?>"}[kind], n))
		}
		b.WriteString("<p")
		if kind == 2 {
			for i := 0; i < n; i++ {
				fmt.Fprintf(&b, " a%d=''", i)
			}
		}
		b.WriteString(">")
		if kind > 2 {
			b.WriteString(strings.Repeat([]string{"<!--c-->", "t<q/>"}[kind-3], n))
		}
		in := genLevel([]int{l, cnt, kids})
		b.WriteString(strings.Replace(in[:len(in)-len("</p>")], "<p>", "", 1))
		b.WriteString("</p>")
		b.WriteString(strings.Repeat("<!--e-->", n%100))
		return b.String()
	}
	for name, walk := range map[string]bool{"farstrings": false, "farwalk": true} {
		walk := walk
		families[name] = func(w *Worker, pl []byte) string {
			return w.farNav(pl[6:], int(binary.LittleEndian.Uint32(pl[2:])), pl[1], pl[0], walk)
		}
		readers[name] = readers["far"]
	}
	families["navfar"] = func(w *Worker, pl []byte) string { return w.navFar(pl) }
	readers["navfar"] = func(pl []byte) string {
		return fmt.Sprint("cursor: extra tokens, page exponent, level, elements, children, moves, length: ", pl[0], pl[1], uvarints(pl[2:]))
	}
	families["readlin"] = func(w *Worker, pl []byte) string {
		return w.readLinear(pl[6:], int(binary.LittleEndian.Uint32(pl[2:])), pl[1], pl[0] != 0)
	}
	readers["readlin"] = readers["far"]
	families["genreadlin"] = func(w *Worker, pl []byte) string {
		d, _ := genDoc(string(pl[1:]))
		return w.readLinear([]byte(d), 0, 'x', pl[0] != 0)
	}
	readers["genreadlin"] = readers["gen"]
}

// lateSpecs are documents whose elements have large token indexes.
func lateSpecs(c *Ctx) []string {
	var s []string
	for _, n := range []int{100, 127, 128, 129, 253, 254, 255, 256, 257, 258, 509, 510, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 16383, 16384, 32766, 32767, 32768, 32769, 65533, 65534, 65535, 65536, 65537, 70000, 131071, 131072, 131073} {
		for kind := 0; kind <= 4; kind++ {
			if kind == 2 && n > 1100 {
				continue
			}
			for l := 1; l <= pick(c, 6, 8); l++ {
				if n > 70 && l > 6 && !c.thorough {
					continue
				}
				s = append(s, spec("late", n, kind, l, 5, 2))
				if c.thorough || n < 3000 {
					s = append(s, spec("late", n, kind, l, 70, 3))
				}
			}
		}
	}
	for l := 1; l <= 7; l++ {
		for _, n := range []int{8191, 8192, 8193, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 100000} {
			for _, kids := range []int{0, 1, 2} {
				if n < 33000 || l < 5 || c.thorough {
					s = append(s, spec("level", l, n, kids))
				}
			}
		}
	}
	return s
}

// farNavs builds cursors for windows far inside an array.
func (c *Ctx) farNavs(fam string, ps ...int) {
	offs := []int{50, 255, 256, 2048, 65535, 65536, 65541, 1 << 20, 1<<20 + 1, 1<<24 - 2, 1<<24 + 3, 1<<28 + 1, 1<<29 - 1, 1<<29 + 5}
	c.Space("cursors far inside an array", len(offs), func(w *Worker, i int) {
		for _, p := range ps {
			for k := range distDocs[p] {
				for _, n := range []int{0, 1, 4, 8, 20} {
					d := distDoc(p, k, n)
					w.states++
					for _, o := range []byte{0, oNs} {
						pl := binary.LittleEndian.AppendUint32([]byte{o, "<\x00a:"[(i+k)%4]}, uint32(offs[i]))
						w.Do(fam, append(pl, d...))
					}
				}
			}
		}
		for _, d := range seedDocs {
			w.states++
			w.Do(fam, append(binary.LittleEndian.AppendUint32([]byte{oNs, ';'}, uint32(offs[i])), d...))
		}
	})
}

func (w *Worker) farNav(d []byte, off int, filler, opts byte, walk bool) string {
	r := w.eng.ref.Parse(d, opts&oNs != 0)
	if r.Verdict != ref.Accept || strings.IndexByte(string(d), '\r') >= 0 {
		w.outcomes["not accepted"]++
		return ""
	}
	return w.placed(d, off, filler, func(mem []byte) string {
		nav, r, what := w.navAt(mem, off, len(d), &r, opts)
		if nav == nil {
			return what
		}
		for i, t := range r.Tokens {
			if t.Type == ref.TDoc || t.AnyOff {
				continue
			}
			if o, err := nav.GetTokenOffset(i); err != nil || int(o) != t.Off+off {
				return fmt.Sprintf("token %d is at %d (%v), expected %d", i, o, err, t.Off+off)
			}
		}
		if what := tokenStrings(nav, r, d); what != "" || !walk {
			return what
		}
		return w.walkNav(nav, r)
	})
}

func uvarints(b []byte) []int {
	var out []int
	for len(b) > 0 {
		v, n := binary.Uvarint(b)
		if n <= 0 {
			break
		}
		out, b = append(out, int(v)), b[n:]
	}
	return out
}

// navFar: a level with very many elements; the cursor goes to one of them by
// single moves, and from there all moves up to a length are explored.
func (w *Worker) navFar(pl []byte) string {
	extra, exp := pl[0], int(pl[1])
	a := uvarints(pl[2:])
	l, n, kids, k, length := a[0], a[1], a[2], a[3], a[4]
	var d []byte
	for j := 0; j < l; j++ {
		d = append(d, byte(j))
	}
	for j := 0; j < n; j++ {
		d = append(d, byte(l))
		if kids > 0 && j%kids == 0 || j == n-1 {
			d = append(d, byte(l+1), byte(l+2))
		}
	}
	for j := l - 1; j >= 1; j-- {
		d = append(d, byte(j), byte(j+1))
	}
	nav, idx := synthNav(d, extra, exp)
	first := true
	fresh := func() *navigation.VtdNav {
		if first {
			first = false
			return nav
		}
		m, _ := synthNav(d, extra, exp)
		return m
	}
	path := make([]byte, 0, l+1+k)
	for j := 0; j <= l; j++ {
		path = append(path, byte(navigation.FirstChild))
	}
	move := byte(navigation.NextSibling)
	if extra&8 != 0 { // from the last element backwards
		path = append(path, byte(navigation.Parent), byte(navigation.LastChild))
		move = byte(navigation.PrevSibling)
	}
	for j := 0; j < k; j++ {
		path = append(path, move)
	}
	return w.graph(fresh, buildTree(d), idx, path, 250000, length)
}

func (c *Ctx) navFar() {
	type cfg struct{ extra, exp, l, n, kids, k int }
	var l []cfg
	for lvl := 1; lvl <= pick(c, 5, 6); lvl++ {
		for _, n := range []int{127, 128, 129, 255, 256, 257, 258, 513, 1025, 32767, 32768, 32769, 65535, 65536, 65537, 66000} {
			if n > 30000 && lvl > 4 && !c.thorough {
				continue
			}
			for _, kids := range []int{0, 1, 2, 255} {
				if n > 30000 && kids == 1 {
					continue
				}
				for _, k := range []int{0, n / 2, n - 3, n - 1, 126, 254, 255, 32766, 65534} {
					if k >= n {
						continue
					}
					for _, extra := range []int{0, 4, 8 | 2} {
						if n > 30000 && extra == 4 && k != n-1 {
							continue
						}
						exp := 10
						if n < 2000 {
							exp = 5
						}
						l = append(l, cfg{extra, exp, lvl, n, kids, k})
					}
				}
			}
		}
	}
	c.Space("very wide levels", len(l), func(w *Worker, i int) {
		x := l[i]
		pl := []byte{byte(x.extra), byte(x.exp)}
		for _, v := range []int{x.l, x.n, x.kids, x.k, pick(c, 2, 3)} {
			pl = binary.AppendUvarint(pl, uint64(v))
		}
		w.Do("navfar", pl)
	})
}

// readLinear reads a document from the start to the end, in several ways.
func (w *Worker) readLinear(d []byte, off int, filler byte, ascii bool) string {
	return w.placed(d, off, filler, func(mem []byte) string {
		end := off + len(d)
		var rs [4]reader.Reader
		for i := range rs {
			r, err := newReader(ascii, mem, off, end)
			if err != nil {
				return "constructor: " + err.Error()
			}
			rs[i] = r
		}
		for o := off; o < end; {
			w.transitions += 4
			want, size, ok := charAt(ascii, mem, o, end)
			if !ok {
				break // behind a malformed character: no claim
			}
			if what := peek(rs[3], ascii, mem, off, end, o); what != "" {
				return what
			}
			if ch, err := rs[0].GetChar(); err != nil || ch != uint32(want) {
				return fmt.Sprintf("GetChar at %d: %#x (%v), expected %#x", o, ch, err, want)
			}
			if rs[1].SkipChar(uint32(want)^1) || rs[1].SkipChar(uint32(want)|1<<21) || !rs[1].SkipChar(uint32(want)) {
				return fmt.Sprintf("SkipChar at %d does not find exactly %#x", o, want)
			}
			if rs[2].SkipCharSeq(string(want)+"\x01") || !rs[2].SkipCharSeq(string(want)) {
				return fmt.Sprintf("SkipCharSeq at %d does not find exactly %#x", o, want)
			}
			o += size
			for i, r := range rs[:3] {
				if g := r.GetOffset(); g != o {
					return fmt.Sprintf("reader %d is at %d, expected %d", i, g, o)
				}
			}
			if o == end {
				var eof *erroring.EOFError
				for i, r := range rs[:3] {
					if ch, err := r.GetChar(); !errors.As(err, &eof) || r.SkipChar(uint32(filler)) || r.SkipCharSeq(string(rune(filler))) {
						return fmt.Sprintf("reader %d reads behind the end: %#x (%v)", i, ch, err)
					}
				}
				if what := peek(rs[0], ascii, mem, off, end, end); what != "" {
					return what
				}
			}
		}
		return ""
	})
}

// readSizes: readers on long documents and far windows.
func (c *Ctx) readSizes() {
	c.fam = "readlin"
	var s []string
	for kind := 0; kind <= 29; kind++ {
		for n := 1; n <= 40; n++ {
			s = append(s, spec("fill", kind, n))
		}
		for e := 6; e <= pick(c, 17, 20); e++ {
			for d := -3; d <= 3; d++ {
				s = append(s, spec("fill", kind, 1<<uint(e)+d))
			}
		}
	}
	for _, p := range []int{4, 5, 6, 7} {
		for i := range distDocs[p] {
			for _, n := range distances(70, 13, 16) {
				s = append(s, spec("dist", p, i, n))
			}
		}
	}
	c.specs("long documents", s, []byte{0, 1})
	offs := []int{1, 255, 256, 65535, 65536, 65537, 1<<20 - 1, 1<<20 + 1, 1<<24 - 2, 1<<24 + 3, 1<<28 + 1, 1<<29 - 1, 1<<29 + 5, 1<<30 - 3}
	c.Space("windows far inside an array", len(offs), func(w *Worker, i int) {
		docs := append([]string{"a\r\nb\r", "\r\n", "\n\u00e9\u20ac\U0001F600", "\u00e9", "\U0010FFFF\r", "\uFFFD\u0080", "<!DOCTYPE", "]]>"}, seedDocs...)
		for k, d := range docs {
			for _, filler := range []byte("\n\x80\xE9a") {
				w.states++
				for _, ascii := range []byte{0, 1} {
					_ = k
					w.Do("readlin", append(binary.LittleEndian.AppendUint32([]byte{ascii, filler}, uint32(offs[i])), d...))
				}
			}
		}
	})
	c.fam = ""
}
