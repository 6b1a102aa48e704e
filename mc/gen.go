package main

import (
	"fmt"
	"strconv"
	"strings"
)

// A generated document is described by a name and integer arguments; the
// payload of family "gen" is the option byte and that description.
var gens = map[string]func(a []int) string{}

func genDoc(spec string) (string, bool) {
	f := strings.Fields(spec)
	if len(f) == 0 || gens[f[0]] == nil {
		return "", false
	}
	a := make([]int, len(f)-1)
	for i := range a {
		a[i], _ = strconv.Atoi(f[i+1])
	}
	return gens[f[0]](a), true
}

func init() {
	families["gen"] = func(w *Worker, pl []byte) string {
		d, ok := genDoc(string(pl[1:]))
		if !ok {
			return ""
		}
		w.transitions += int64(len(d))
		return w.judge([]byte(d), pl[0])
	}
	readers["gen"] = func(pl []byte) string {
		d, _ := genDoc(string(pl[1:]))
		n := len(d)
		if n > 300 {
			d = d[:300] + "..."
		}
		return fmt.Sprintf("generated document %q (%d bytes) %s ns=%v lc5=%v", string(pl[1:]), n, strconv.QuoteToASCII(d), pl[0]&oNs != 0, pl[0]&oLc5 != 0)
	}
	gens["chain"] = genChain
	gens["siblings"] = genSiblings
	gens["longname"] = genLongName
	gens["attrs"] = genAttrs
	gens["attrpair"] = genAttrPair
	gens["nsattrs"] = genNsAttrs
	gens["nsnest"] = genNsNest
	gens["fill"] = genFill
	gens["tokens"] = genTokens
	gens["level"] = genLevel
	gens["pad"] = genPad
}

// specs runs a list of generated documents.
func (c *Ctx) specs(name string, specs []string, opts []byte) {
	fam := "gen"
	if c.fam != "" {
		fam += c.fam
	}
	opts = c.forced(opts)
	c.Space(name, len(specs), func(w *Worker, i int) {
		if c.few > 1 && i%c.few != 0 {
			return
		}
		w.states++
		for _, o := range opts {
			w.Do(fam, append([]byte{o}, specs[i]...))
		}
		if i%(len(specs)/3+1) == 0 {
			w.c.Sample(specs[i])
		}
	})
}

func spec(name string, a ...int) string {
	s := name
	for _, x := range a {
		s += " " + strconv.Itoa(x)
	}
	return s
}

func name(i int) string { // 1-3 letters
	return string(rune('a'+i%26)) + strconv.Itoa(i/26)
}

// chain n bad how: n nested elements; the end tag at depth bad (from the
// root, 0-based) is wrong: how 1 = another name, 2 = missing, 3 = one letter
// more, 4 = duplicated, 5 = last letter changed. how 0: all right.
func genChain(a []int) string {
	n, bad, how := a[0], a[1], a[2]
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString("<" + name(i) + ">")
	}
	for i := n - 1; i >= 0; i-- {
		e := "</" + name(i) + ">"
		if i == bad {
			switch how {
			case 1:
				e = "</z" + name(i) + ">"
			case 2:
				e = ""
			case 3:
				e = "</" + name(i) + "x>"
			case 4:
				e += e
			case 5:
				m := name(i)
				e = "</" + m[:len(m)-1] + "_>"
			}
		}
		b.WriteString(e)
	}
	return b.String()
}

// siblings n form bad: root with n children in the given form; child bad has
// a wrong end tag (bad < 0: none).
func genSiblings(a []int) string {
	n, form, bad := a[0], a[1], a[2]
	var b strings.Builder
	b.WriteString("<r>")
	for i := 0; i < n; i++ {
		m := name(i)
		e := m
		if i == bad {
			e = m + "q"
		}
		switch form {
		case 0:
			b.WriteString("<" + m + "></" + e + ">")
		case 1:
			b.WriteString("<" + m + ">t</" + e + ">x")
		case 2:
			b.WriteString("<" + m + "/>")
		case 3:
			b.WriteString("<" + m + " a='" + m + "'/>")
		case 4:
			b.WriteString("<" + m + "><k/></" + e + ">")
		}
	}
	b.WriteString("</r>")
	return b.String()
}

// longname n pre diff where: element name of n bytes with a prefix of pre
// bytes (0: none); the end tag differs at byte diff (-1: not; -2: one byte
// shorter; -3: one longer). where: 0 element, 1 empty element, 2 attribute,
// 3 PI target, 4 nested element, 5 non-ASCII element name, 6 xmlns
// declaration prefix of pre bytes.
func genLongName(a []int) string {
	n, pre, diff, where := a[0], a[1], a[2], a[3]
	nm := []byte(strings.Repeat("abcdefghij", n/10+1)[:n])
	if pre > 0 {
		nm[pre] = ':'
	}
	if where == 5 {
		nm = []byte(strings.Repeat("é", n/2+1)[:n/2*2])
	}
	e := append([]byte{}, nm...)
	switch {
	case diff >= 0 && diff < len(e):
		if where == 5 {
			e[diff/2*2+1] ^= 1
		} else if e[diff] == ':' {
			e[diff] = 'z'
		} else {
			e[diff] ^= 16
		}
	case diff == -2:
		e = e[:len(e)-1]
	case diff == -3:
		e = append(e, 'a')
	}
	s, t := string(nm), string(e)
	switch where {
	case 1:
		return "<r><" + s + "/></r>"
	case 2:
		return "<r " + s + "='v'>t</r>"
	case 3:
		return "<r><?" + s + " v?></r>"
	case 4:
		return "<r><x/><" + s + " q='1'>t</" + t + ">u</r>"
	case 6:
		p := s
		if pre > 0 {
			p = s[:pre]
		}
		return "<r xmlns:" + p + "='u'><" + p + ":x/></r>"
	}
	return "<" + s + ">t</" + t + ">"
}

// attrs n dup1 dup2 form: an element with n attributes; attribute dup2 has
// the name of dup1 (dup2 < 0: all different). form 0: empty element; 1:
// start tag; 2: after an element with the same attributes; 3: inside one.
func genAttrs(a []int) string {
	n, d1, d2, form := a[0], a[1], a[2], a[3]
	mk := func(dup bool) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			k := i
			if dup && i == d2 {
				k = d1
			}
			fmt.Fprintf(&b, ` n%d="%d"`, k, i)
		}
		return b.String()
	}
	switch form {
	case 1:
		return "<r" + mk(true) + ">t</r>"
	case 2:
		return "<r><a" + mk(false) + "/><b" + mk(true) + "/></r>"
	case 3:
		return "<r" + mk(false) + "><b" + mk(true) + "></b></r>"
	}
	return "<r" + mk(true) + "/>"
}

// attrpair i j: two attributes whose names are numbers i and j of a table of
// similar names, each behind a filler attribute.
var similar = []string{"b", "c", "bb", "bc", "cb", "B", "xmlns", "xmlns:b", "xmlns:c", "b:c", "c:b", "b-c", "b.c", "b_c", "bé", "cé", "bè", "é", "è", "xmlnsb", "x", "xml", "xm", "xmln", "xmlnsx", "b1", "b2", "bcdefghi", "bcdefghj", "acdefghi"}

func genAttrPair(a []int) string {
	return fmt.Sprintf(`<r %s="u" f="1" %s="v"><e %s='w'/></r>`, similar[a[0]], similar[a[1]], similar[a[0]])
}

// nsattrs n i j form: n prefixed attributes p<k>:l with declarations; j gets
// the local name and the namespace of i (j < 0: none). form bit 0: the
// declarations come after the attributes; bit 1: the declarations are on the
// parent; bit 2: the namespace names of i and j are spelled differently but
// equal; bit 3: they are different.
func genNsAttrs(a []int) string {
	n, i, j, form := a[0], a[1], a[2], a[3]
	var at, de strings.Builder
	for k := 0; k < n; k++ {
		l, u := fmt.Sprintf("l%d", k), fmt.Sprintf("u%d", k)
		if k == j {
			l = fmt.Sprintf("l%d", i)
			u = fmt.Sprintf("u%d", i)
			if form&4 != 0 {
				u = fmt.Sprintf("&#x75;%d", i)
			}
			if form&8 != 0 {
				u += "x"
			}
		}
		fmt.Fprintf(&at, ` p%d:%s="%d"`, k, l, k)
		fmt.Fprintf(&de, ` xmlns:p%d="%s"`, k, u)
	}
	switch form & 3 {
	case 1:
		return "<r" + at.String() + de.String() + "/>"
	case 2, 3:
		return "<r" + de.String() + "><e" + at.String() + "/></r>"
	}
	return "<r" + de.String() + at.String() + ">t</r>"
}

// nsnest n use: n nested elements, each declaring prefix p<k>; the innermost
// uses prefix p<use> (use >= n: undeclared; -1: after the element of depth
// n-1 is closed, its prefix is used).
func genNsNest(a []int) string {
	n, use := a[0], a[1]
	var b strings.Builder
	for k := 0; k < n; k++ {
		fmt.Fprintf(&b, `<e xmlns:p%d="u%d">`, k, k)
	}
	if use >= 0 {
		fmt.Fprintf(&b, "<p%d:x p%d:y='1'/>", use, use)
	}
	for k := n - 1; k >= 0; k-- {
		b.WriteString("</e>")
		if use == -1 && k == n-1 && k > 0 {
			fmt.Fprintf(&b, "<p%d:x/>", k)
		}
		if use == -2 && k == n-1 && k > 0 {
			fmt.Fprintf(&b, "<p%d:x/>", k-1)
		}
	}
	return b.String()
}

// fill kind n: content of n bytes. kind 0 text, 1 attribute value, 2 comment,
// 3 CDATA, 4 PI value, 5 DTD, 6 epilog comment, 7 epilog PI value, 8 PI
// target, 9 epilog PI target, 10 prolog comment, 11 whitespace only, 12 text
// of non-ASCII characters, 13 namespace name, 14 text after an element.
func genFill(a []int) string {
	kind, n := a[0], a[1]
	s := strings.Repeat("0123456789abcdef", n/16+1)[:n]
	switch kind {
	case 0:
		return "<r>" + s + "</r>"
	case 1:
		return "<r x='" + s + "'/>"
	case 2:
		return "<r><!--" + s + "--></r>"
	case 3:
		return "<r><![CDATA[" + s + "]]></r>"
	case 4:
		return "<r><?p " + s + "?></r>"
	case 5:
		w := strings.Repeat(" ", n)
		if n < 4 {
			w = "    "
		}
		return "<!DOCTYPE" + w[:len(w)-1] + "r><r/>"
	case 6:
		return "<r/><!--" + s + "-->"
	case 7:
		return "<r/><?p " + s + "?>"
	case 8:
		return "<r><?" + "a" + s + " v?></r>"
	case 9:
		return "<r/><?" + "a" + s + " v?>"
	case 10:
		return "<!--" + s + "--><r/>"
	case 11:
		return "<r>" + strings.Repeat(" \n\t ", n/4+1)[:n] + "</r>"
	case 12:
		return "<r>" + strings.Repeat("é", n/2) + "</r>"
	case 13:
		return "<r xmlns:p='" + s + "'><p:a/></r>"
	case 14:
		return "<r><a/>" + s + "<b/></r>"
	case 15:
		return "<r><a></a>" + s + "</r>"
	case 16:
		return "<r><!--c-->" + s + "<?p?></r>"
	case 17:
		return "<r><![CDATA[]]>" + s + "<![CDATA[x]]></r>"
	case 18:
		return "<r><a/><![CDATA[" + s + "]]>t</r>"
	case 19:
		return "<r>&lt;" + s + "</r>"
	case 20:
		return "<r> <a>" + strings.Repeat(" ", n/2) + s[n/2:] + "</a></r>"
	case 21:
		return "<r><a></a><b x='1'><!--" + s + "--></b></r>"
	case 22:
		return "<r><" + "a x='1' y='" + s + "' z='2'>t</a></r>"
	case 23:
		return "<?p " + s + "?><r/>"
	case 24:
		return "<?xml version='1.0' encoding='us-ascii'?><r><a>" + s + "</a></r>"
	case 25:
		return "<r>" + strings.Repeat("\u20ac", n/3) + s[:n%3] + "</r>"
	case 26:
		return "<r><![CDATA[" + strings.Repeat("\U0001F600", n/4) + s[:n%4] + "]]></r>"
	case 27:
		return "<r><!--" + s[:n%2] + strings.Repeat("\u00e9", n/2) + "--></r>"
	case 28:
		return "<r x='" + strings.Repeat("\u20ac", n/3) + s[:n%3] + "'/>"
	case 29:
		return "<r>" + strings.Repeat("&#65;", n/5) + s[:n%5] + "</r>"
	}
	return ""
}

// tokens n kind pad: a document with n tokens of one kind, padded with
// whitespace to reach a size class.
func genTokens(a []int) string {
	n, kind, pad := a[0], a[1], a[2]
	var b strings.Builder
	b.WriteString("<r>")
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			b.WriteString("<a/>")
		case 1:
			b.WriteString("<!---->")
		case 2:
			b.WriteString("<?p?>")
		case 3:
			b.WriteString("<a>t</a>")
		case 4:
			b.WriteString("<a b='c'/>")
		case 5:
			b.WriteString("<![CDATA[]]>")
		}
	}
	b.WriteString("</r>")
	if pad > b.Len() {
		b.WriteString(strings.Repeat(" ", pad-b.Len()))
	}
	return b.String()
}

// level l n kids: n elements at depth l, the first with kids children below.
func genLevel(a []int) string {
	l, n, kids := a[0], a[1], a[2]
	var b strings.Builder
	for i := 0; i < l; i++ {
		b.WriteString("<p>")
	}
	for i := 0; i < n; i++ {
		if kids > 0 && i%kids == 0 {
			b.WriteString("<e><k/><k/></e>")
		} else {
			b.WriteString("<e/>")
		}
	}
	for i := 0; i < l; i++ {
		b.WriteString("</p>")
	}
	return b.String()
}

// pad n: a small document of every feature padded with trailing whitespace.
func genPad(a []int) string {
	d := richDoc
	if a[0] > len(d) {
		d += strings.Repeat("\n", a[0]-len(d))
	}
	return d
}

const richDoc = `<?xml version="1.0" encoding="UTF-8" standalone="yes"?><!--c--><?p v?><!DOCTYPE r [<!ELEMENT r ANY>]>
<r a="1" b='2'><c>t&lt;x</c><d/> <e> </e><![CDATA[z]]]]><!--q--><?x y?>tail<f><g><h i="&#65;"><j>k</j></h></g></f></r><!--e--><?z?>
`
