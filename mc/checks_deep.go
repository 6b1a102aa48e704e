package main

import (
	"fmt"
	"strconv"
	"strings"
)

// Every construct, right and wrong, at every depth and after every number
// of other constructs.

// pieces of element content; the letter says whose property they are about.
var pieces = map[int][]string{
	2:  {"<b/>", "<b></b>", "<b>t</b>", "<b x='y'>t</b >", "<b\n/>", "<b><c/></b>", "<b>", "</b>", "<b></b/>", "<b></c>", "<b></ b>", "< b/>", "<b / >", "<b></b x=''>", "<b></bb>", "<bb></b>", "<b/", "/>", "<b></b", "<b", "<", "<1/>", "<b//>", "<b></>", "</", "<b></b>>", "<b><c></b></c>"},
	3:  {"<b x='y' z=\"w\"/>", "<b\n x = 'y'\tz=''>t</b>", "<b x/>", "<b x=/>", "<b x='<'/>", "<b x='' x=''/>", "<b x='' xx='' x=''/>", "<b x='1'y=''/>", "<b x=y/>", "<b x=\"1'/>", "<b xy='1' xz='2'/>", "<b ='1'/>", "<b x='>'/>", "<b x='' y='' z=''><c x='' y=''/></b>", "<b x='' />", "<b x='' / >", "<b x= />", "<b 'x'/>"},
	4:  {"&lt;", "&#65;", "&#x41;", "&", "&x;", "&#0;", "&#;", "&lt", "<b x='&#0;'/>", "<b x='&amp;&#9;'/>", "<b x='&'/>", "&amp;&apos;", "&quo;", "&#xFFFE;"},
	5:  {"<!--c-->", "<!---->", "<?p?>", "<?p v?>", "<![CDATA[d]]>", "<![CDATA[]]]>", "]]", "]]>", "]]&gt;", "<!--c--d-->", "<!-x-->", "<!--c--->", "<? p?>", "<?xml v?>", "<?XmL?>", "<?p/?>", "<![CDATA[", "<!", "<!DOCTYPE a>", "<?xml version='1.0'?>", "<!--", "<?p", "<?p v", "<![cdata[d]]>", "<![CDATA [d]]>", "<b x=']]>'/>", "<b/>]]>", "t]]>", "<!--c-- >", "<?xmlx?>"},
	7:  {"t", " ", "\n", "\r\n", "\u00e9", "\U0001F600", "\x01", "\x80", "\uFFFE", "<b x='\x01'/>", "<!--\x02-->", "<![CDATA[\uFFFF]]>", "<?p \x1f?>", "<\u00e9/>", "<\u00d7/>", "<b \u00d7=''/>", "\xed\xa0\x80", "<b x='\u00e9'/>", "\x7e", "<!--\u20ac-->"},
	9:  {"<p:b p:x=''/>", "<b xmlns:p='w'><p:c/></b>", "<q:b/>", "<b q:x=''/>", "<b xmlns:q=''/>", "<q:b xmlns:q='v'>t</q:b>", "<b xmlns:q='v'/><q:c/>", "<b xml:lang='en'/>", "<b xmlns:xml='u'/>", "<b xmlns='v'><c/></b>", "<b xmlns:xmlns='u'/>", "<b xmlns:q='v'><c><q:d/></c></b>", "<b xmlns:q='" + xmlURI + "'/>"},
	10: {"<b xmlns:q='u' p:x='' q:x=''/>", "<b xmlns:q='v' p:x='' q:x=''/>", "<b xmlns:q='&#117;' q:x='' p:x=''/>", "<b xmlns:q='u' p:x='' q:y='' x=''/>", "<b xmlns:q='v' xmlns:p='v'><c p:x='' q:x=''/></b>", "<b xmlns:q='v' xmlns:p='w'><c p:x='' q:x=''/></b>", "<b xmlns:q='u'><c q:x=''/><c p:x=''/></b>"},
}

var pieceKeys = []int{2, 3, 4, 5, 7, 9, 10}

func allPieces() (l []string) {
	for _, k := range pieceKeys {
		l = append(l, pieces[k]...)
	}
	return
}

// nested puts s inside d elements.
func nested(form, d int, s string) string {
	if d == 0 {
		return s
	}
	var open, end string
	first := "<a xmlns:p='u'>"
	switch form {
	case 0:
		open, end = "<a>", "</a>"
	case 1:
		open, end = "<a x='y'>t", "u</a>"
	case 2:
		open, end = "<z/> <a xmlns:p='u' p:k=''>", "</a>\n<z>t</z>"
	case 3:
		open, end = "<!--c--><a>", "<?p v?></a>"
	}
	return first + strings.Repeat(open, d-1) + s + strings.Repeat(end, d-1) + "</a>"
}

var befores = []string{"<z/>", "<z>t</z>", "t<z x='y'/>", "<!--c-->", "<?p v?>", "<![CDATA[d]]>", "&lt;", "\n", "<z><y/></z>", "t", "<z xmlns:k='u' k:x='' x=''></z>", "<z>t<y>u</y>v</z>"}

func (c *Ctx) deepDepths() []int {
	var l []int
	for d := 0; d <= 20; d++ {
		l = append(l, d)
	}
	return append(l, 30, 31, 32, 33, 62, 63, 64, 65, 126, 127, 128, 129, 252, 253, 254)
}

// deep runs the pieces of property p (0: all) beside each other piece at
// every depth and after many others.
func (c *Ctx) deep(p int, opts ...byte) {
	if c.shrink > 0 {
		if _, k, ok := strings.Cut(c.fam, "~"); ok && len(opts) > 0 {
			if v, _ := strconv.Atoi(k); v >= nPreludes {
				c.deepVaried(p, opts...)
			}
		}
		return
	}
	all := allPieces()
	own := pieces[p]
	if p == 0 {
		own = all
		if !c.thorough {
			all = []string{"", "t", "<b/>", "<b x='y'>t</b>", "<b></b>", "<!--c-->", "<?p v?>", "<![CDATA[d]]>", "&lt;", " "}
		}
	}
	ds := c.deepDepths()
	forms := 4
	c.docs("constructs at every depth", len(ds)*len(own), opts, func(i int, emit func(string)) {
		d, x := ds[i/len(own)], own[i%len(own)]
		for k, y := range all {
			for form := 0; form < forms; form++ {
				if d > 20 && !c.thorough && form != k%4 {
					continue
				}
				emit(nested(form, d, x+y))
				emit(nested(form, d, y+x))
				if form == d%4 || c.thorough {
					emit(nested(form, d, "t<b>"+x+"</b>"+y))
					emit(nested(form, d, y+"<b>t</b>"+x+"t"))
				}
			}
		}
	})
	ns := distances(20, 6, 0)
	ns = append(ns, 30, 31, 32, 33, 62, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 258)
	nb := len(befores)
	few := []string{"", "t", "<b/>", "<b x='y'>t</b>", "<!--c-->", "</a><!--c-->", "<b></c>", "&", "]]>"}
	c.docs("constructs after others", len(ns)*nb, opts, func(i int, emit func(string)) {
		n, b := ns[i/nb], befores[i%nb]
		pre := strings.Repeat(b, n)
		for _, x := range own {
			for k, y := range few {
				emit("<a xmlns:p='u'>" + pre + x + y + "</a>")
				if k < 4 || c.thorough {
					emit("<a xmlns:p='u'><c><d>" + pre + x + "</d>" + y + "</c></a>")
					emit("<a xmlns:p='u'>" + pre + "<d>" + x + "</d></a>" + y)
				}
			}
		}
	})
	if p == 3 || p == 10 || p == 9 || p == 0 || p == 4 || p == 7 {
		c.ordinals(opts...)
	}
	if p == 5 || p == 7 || p == 0 {
		c.outside(opts...)
	}
	if p == 0 || p == 2 || p == 5 {
		c.cut(opts...)
	}
}

// deepVaried runs the pieces in a variant of the documents.
func (c *Ctx) deepVaried(p int, opts ...byte) {
	all := allPieces()
	own := pieces[p]
	if p == 0 {
		own = all
	}
	ds := []int{0, 1, 2, 4, 5}
	few := c.few
	c.few = 0
	c.docs("constructs in this form", len(ds)*len(own), opts, func(i int, emit func(string)) {
		d, x := ds[i/len(own)], own[i%len(own)]
		for k, y := range all {
			if p == 0 && !c.thorough && (k+d+i)%3 != 0 {
				continue
			}
			if (k+d)%2 == 0 || c.thorough {
				emit(nested(k%4, d, x+y))
			} else {
				emit(nested(k%4, d, y+x))
			}
		}
	})
	c.few = few
}

// attribute pieces after n attributes
var attrPieces = []string{" x=''", " x='&lt;'", " x = \"v\"", "\n\tx='v' ", " p:x=''", " xmlns:k='w'", " xmlns='w'", " k:x=''", " xmlns:q='u' p:x='' q:x=''", " xmlns:q='v' p:x='' q:x=''", " x='' x=''", " x='<'", " x='&'", " x='&#0;'", " x", " x=", " x=v", "x=''", " x='\x01'", " \u00e9='\u20ac'", " \u00d7=''", " at0=''", " at1=''", " p:at0=''", " xml:a=''", " xmlns:xmlns='u'", " xmlns:k=''", " x='\x80'", " x=\"'\"", " x='>'", " x='\"", " xmlns:d0='w'", " d0:x=''", " d1:x='' d0:x=''", "/", " /", " <", " x='&#xFFFE;'", " x='&#65;' y='&am;'"}

func attrsBefore(form, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch form {
		case 0:
			fmt.Fprintf(&b, " at%d=''", i)
		case 1:
			fmt.Fprintf(&b, " xmlns:d%d='u%d'", i, i)
		case 2:
			fmt.Fprintf(&b, "\n p:at%d = \"v&lt;\"", i)
		case 3:
			if i%2 == 0 {
				fmt.Fprintf(&b, " xmlns:d%d='u'", i)
			} else {
				fmt.Fprintf(&b, " at%d='v'", i)
			}
		}
	}
	return b.String()
}

func (c *Ctx) ordinals(opts ...byte) {
	ns := distances(24, 6, 0)
	ns = append(ns, 30, 31, 32, 33, 34, 62, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 258)
	c.docs("attributes after others", len(ns)*4, opts, func(i int, emit func(string)) {
		n, form := ns[i/4], i%4
		pre := attrsBefore(form, n)
		for _, x := range attrPieces {
			emit("<r xmlns:p='u'" + pre + x + "/>")
			emit("<r xmlns:p='u'><b" + pre + x + ">t</b><c" + x + "/></r>")
			emit("<r xmlns:p='u'><b" + x + pre + "><c x=''/></b><c" + pre + "/></r>")
			emit("<r xmlns:p='u'><b" + pre + "/><c" + x + "/></r>")
			emit("<r xmlns:p='u'" + pre + "><b><c" + x + ">t</c></b></r>")
			if n <= 10 || c.thorough {
				for _, y := range attrPieces {
					emit("<r xmlns:p='u'><b" + pre + x + y + "/></r>")
				}
			}
		}
	})
}

// misc pieces before and after the root
var miscPieces = []string{"<!--c-->", "<!---->", "<?p?>", "<?p v?>", " ", "\n", "\r\n", "<?p  v ? ?>", "t", "<!--c--d-->", "<!--c--->", "<? p?>", "<?xml v?>", "<?XmL?>", "&lt;", "<![CDATA[d]]>", "<!DOCTYPE a>", "<?xml version='1.0'?>", "\u00e9", "<!--\u20ac-->", "<!--\x01-->", "<?p \x80?>", "<!", "<?", "<", "<!-", "\x01", "]]>", "<b/>", "</a>", "<!--c-->t", "<?p", "<!--", "<?xmlx?>", "<?p?><?xml version='1.0'?>", ">"}

func (c *Ctx) outside(opts ...byte) {
	var ns []int
	for n := 0; n <= 20; n++ {
		ns = append(ns, n)
	}
	ns = append(ns, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025)
	bs := []string{"<!--c-->", "<?p v?>", "\n", "<?p?> ", "<!--\u00e9-->\r\n", "<!--c--><?p v?>"}
	decs := []string{"", "<?xml version='1.0'?>", "<?xml version='1.0' encoding='utf-8'?>\n", "\xEF\xBB\xBF"}
	docts := []string{"", "<!DOCTYPE a>", "<!DOCTYPE a [<!ELEMENT a ANY>]>\n"}
	c.docs("constructs outside the root", len(ns)*len(bs), opts, func(i int, emit func(string)) {
		n, b := ns[i/len(bs)], bs[i%len(bs)]
		pre := strings.Repeat(b, n)
		for k, x := range miscPieces {
			for di, dec := range decs {
				emit(dec + pre + x + "<a/>")
				emit(dec + "<a></a>" + pre + x)
				for ti, dt := range docts {
					if ti > 0 && (di == k%4 || c.thorough) {
						emit(dec + dt + pre + x + "<a/>")
						emit(dec + pre + dt + x + "<a/>")
						emit(dec + x + dt + pre + "<a/>")
						emit(dec + dt + "<a>t</a>" + pre + x)
					}
				}
				if n <= 20 || c.thorough {
					for _, y := range miscPieces {
						if di == 0 || c.thorough {
							emit(dec + pre + x + y + "<a/>")
							emit(dec + "<a/>" + pre + x + y)
						}
					}
				}
			}
		}
	})
}

// cut runs documents that end early, at every depth.
func (c *Ctx) cut(opts ...byte) {
	ds := c.deepDepths()
	c.docs("documents cut short", len(ds), opts, func(i int, emit func(string)) {
		d := ds[i]
		for form := 0; form < 4; form++ {
			s := nested(form, d, "t<b x='y'>u</b><!--c--><?p v?><![CDATA[d]]>&lt;<c/>\u00e9") + "\n<!--c--><?p?>"
			for k := range s {
				if d > 20 && !c.thorough && k > 120 && k < len(s)-120 && (k < len(s)/2-80 || k > len(s)/2+80) {
					continue
				}
				emit(s[:k])
			}
		}
	})
	// one byte changed at every depth
	bytes := []string{"<", ">", "/", "!", "?", "-", "[", "]", "&", ";", "=", "'", " ", "\n", ":", "a", "\x00", "\x80", "\xC3", "\u00e9"}
	c.docs("one byte at every depth", len(ds), opts, func(i int, emit func(string)) {
		d := ds[i]
		for form := 0; form < 2; form++ {
			s := nested(form, d, "<b x='y'>u</b><!--c--><?p v?><![CDATA[d]]>&lt;<c/>v")
			lo, hi := strings.LastIndex(s, "<b x"), strings.Index(s, "<c/>v")+12
			for k := max(lo-6, 0); k < min(hi, len(s)); k++ {
				emit(s[:k] + s[k+1:])
				for _, x := range bytes {
					emit(s[:k] + x + s[k:])
					emit(s[:k] + x + s[k+1:])
				}
			}
		}
	})
}
