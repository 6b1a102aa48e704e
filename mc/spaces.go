package main

// Documents that together use every construct.
var seedDocs = []string{
	`<a/>`,
	`<a></a>`,
	"<a>t</a>",
	`<a b="c" d='e'/>`,
	"<a><b>x</b> <c/>y</a>",
	"<?xml version='1.0'?><a/>",
	richDoc,
	"<?xml version=\"1.1\"\n encoding='utf-8' ?>\n<r>\n <x a = \"&amp;&#x41;\" />\n</r>\n",
	"<?xml version='1.0' encoding='us-ascii'?><r a='b'>t<!--c--><?p q?></r>",
	"\xEF\xBB\xBF<r>\u00e9<\u00e9 \u00ef='\u20ac'>\U0001F600</\u00e9></r>",
	"\xEF\xBB\xBF<?xml version='1.0' encoding='UTF-8'?><r/>",
	`<r xmlns="u" xmlns:p='v'><p:a p:b="1" b="2"><c xmlns:q="w" q:b='3' p:b="4"/></p:a><d xml:lang="en"/></r>`,
	"<!DOCTYPE a><a>&lt;&gt;&amp;&apos;&quot;&#32;&#x20;</a>",
	"<a><![CDATA[<b>&]]]></a><!-- x --><?y z?>",
	"<a>]]<b/>]] ><c/></a>",
	" \n<a/>",
}

func (c *Ctx) fragTree(name string, seeds, frags []string, q, t int, opts ...byte) {
	c.explore(tree{name: name, seeds: seeds, frags: frags, depth: pick(c, q, t), opts: opts})
}

func pick(c *Ctx, q, t int) int {
	if c.thorough {
		return t
	}
	return q
}

func each(s string) []string { // one fragment per character
	var out []string
	for _, r := range s {
		out = append(out, string(r))
	}
	return out
}

func prefixed(ps []string, s string) []string {
	out := make([]string, len(ps))
	for i, p := range ps {
		out[i] = p + s
	}
	return out
}

// places where the same construct can stand
var (
	inProlog  = []string{"", "<?xml version='1.0'?>", "\xEF\xBB\xBF", "<!--c-->", "<?p v?>", "<?p?>", "<!DOCTYPE a>", "\n"}
	inContent = []string{"<a>", "<a x='y'>", "<a>t", "<a><b/>", "<a><b></b>", "<a><b>t</b>", "<a><!--c-->", "<a><?p v?>", "<a><?p?>", "<a><![CDATA[d]]>", "<a>&lt;", "<a> ", "<a><b>", "<a><b/> "}
	inEpilog  = []string{"<a/>", "<a></a>", "<a>t</a>", "<a x='y'/>", "<a/><!--c-->", "<a/><?p v?>", "<a/><?p?>", "<a></a >\n"}
)

func join(l ...[]string) []string {
	var out []string
	for _, x := range l {
		out = append(out, x...)
	}
	return out
}

// byteEdits runs all documents one byte away from the given ones: every byte
// value replacing, inserted at and deleted from every position.
func (c *Ctx) byteEdits(nm string, docs []string, opts ...byte) {
	type pos struct{ d, k int }
	var ps []pos
	for di, d := range docs {
		for k := 0; k <= len(d); k++ {
			ps = append(ps, pos{di, k})
		}
	}
	c.docs(nm, len(ps), opts, func(i int, emit func(string)) {
		d, k := docs[ps[i].d], ps[i].k
		if k < len(d) {
			emit(d[:k] + d[k+1:])
		}
		for b := 0; b < 256; b++ {
			s := string([]byte{byte(b)})
			emit(d[:k] + s + d[k:])
			if k < len(d) {
				emit(d[:k] + s + d[k+1:])
			}
		}
	})
}

// namePairs runs, for all pairs of names of up to three letters over an
// alphabet of easily confused letters, the documents made of the pair.
func (c *Ctx) namePairs(nm string, alphabet []string, depth int, opts []byte, make func(a, b string) []string) {
	var names []string
	level := []string{""}
	for k := 0; k < depth; k++ {
		var next []string
		for _, p := range level {
			for _, l := range alphabet {
				next = append(next, p+l)
			}
		}
		names = append(names, next...)
		level = next
	}
	c.docs(nm, len(names), opts, func(i int, emit func(string)) {
		for _, b := range names {
			for _, d := range make(names[i], b) {
				emit(d)
			}
		}
	})
}

// easily confused: letters that differ in one bit, or whose bytes do
var (
	nameAlphabet  = []string{"a", "A", "b", "c", "e", "i", "q"}
	nameAlphabet2 = []string{"a", "A", "\u00e1", "\u00c1", "\u0101", "\u1e01", "\U00010161", "\u0161", "\U00010061"}
)
