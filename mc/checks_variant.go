package main

import (
	"strconv"
	"strings"
	"unicode"
)

// What may stand before a document: another reader, another state of the
// parser at the first byte.
var preludes = []string{
	"<?xml version='1.0' encoding='us-ascii'?>",
	"\xEF\xBB\xBF",
	"<?xml version=\"1.1\"?>\n",
	"<?xml version='1.0' encoding=\"UTF-8\" standalone='yes' ?>",
	"<!DOCTYPE a [<!ELEMENT a ANY>]>",
	"\n<!--c-->\r\n<?p v?> ",
	"\xEF\xBB\xBF<?xml version='1.0' encoding='utf-8'?><!--c--><!DOCTYPE a>",
}

// A variant is another form of every document of a space.
type variant struct {
	what string
	make func(d []byte) []byte
}

var variants []variant

const nPreludes = 7

func init() {
	for _, p := range preludes {
		p := p
		variants = append(variants, variant{"after " + strconv.QuoteToASCII(p), func(d []byte) []byte { return append([]byte(p), d...) }})
	}
	wrap := func(pre, post string, f func(d []byte) []byte) func(d []byte) []byte {
		return func(d []byte) []byte {
			if f != nil {
				d = f(d)
			}
			return append(append([]byte(pre), d...), post...)
		}
	}
	variants = append(variants,
		variant{"with long words", func(d []byte) []byte { return stretch(d, "", strings.Repeat("n", 66), 1) }},
		variant{"with longer words", func(d []byte) []byte { return stretch(d, strings.Repeat("n", 260), "", 1) }},
		variant{"with long whitespace", func(d []byte) []byte { return stretch(d, "", "", 70) }},
		variant{"four levels deep, with long words and whitespace", wrap("<q><q y='z'>v<q xmlns:p='w'><q>", "</q></q></q></q>", func(d []byte) []byte {
			return stretch(d, "nnnn", strings.Repeat("n", 66), 70)
		})},
		variant{"a hundred levels deep", wrap(strings.Repeat("<q>", 100), strings.Repeat("</q>", 100), func(d []byte) []byte {
			return stretch(d, "", "n", 2)
		})},
	)
}

var keywords = map[string]bool{}

func init() {
	for _, k := range strings.Fields("xml xmlns version encoding standalone CDATA DOCTYPE ELEMENT ANY amp lt gt apos quot 1 0 utf UTF 8 us ascii ASCII yes no lang XML XmL http www w3 org 1998 2000 namespace") {
		keywords[k] = true
	}
}

// stretch puts pre before and post behind every word (run of letters and
// digits) that has no meaning of its own, leading zeros before numbers, and
// repeats every run of whitespace.
func stretch(d []byte, pre, post string, ws int) []byte {
	out := make([]byte, 0, 8*len(d)+1024)
	for i := 0; i < len(d); {
		j := i
		for j < len(d) && (d[j] >= 'a' && d[j] <= 'z' || d[j] >= 'A' && d[j] <= 'Z' || d[j] >= '0' && d[j] <= '9') {
			j++
		}
		if j > i {
			word := d[i:j]
			switch {
			case i > 0 && d[i-1] == '#':
				if word[0] == 'x' {
					out, word = append(out, 'x'), word[1:]
				}
				for range pre + post {
					out = append(out, '0')
				}
				out = append(out, word...)
			case keywords[string(word)]:
				out = append(out, word...)
			default:
				out = append(append(append(out, pre...), word...), post...)
			}
			i = j
			continue
		}
		for j < len(d) && (d[j] == ' ' || d[j] == '\t' || d[j] == '\n' || d[j] == '\r') {
			j++
		}
		if j > i {
			for k := 0; k < ws; k++ {
				out = append(out, d[i:j]...)
			}
			i = j
			continue
		}
		out = append(out, d[i])
		i++
	}
	return out
}

// variantOf takes a family name apart: the family and the variant of the
// documents.
func variantOf(fam string) (base string, gen bool, v variant, ok bool) {
	base, num, ok := strings.Cut(fam, "~")
	k, err := strconv.Atoi(num)
	if !ok || err != nil || k >= len(variants) {
		return "", false, v, false
	}
	if strings.HasPrefix(base, "gen") {
		gen, base = true, base[3:]
	}
	if base == "" {
		base = "doc"
	}
	return base, gen, variants[k], families[base] != nil
}

// variantFamily finds the family of a name like inside~3.
func variantFamily(fam string) family {
	base, gen, v, ok := variantOf(fam)
	if !ok {
		return nil
	}
	f := families[base]
	if gen {
		return viaGen(func(w *Worker, d []byte, opts byte) string { return f(w, append([]byte{opts}, v.make(d)...)) })
	}
	return func(w *Worker, pl []byte) string { return f(w, append([]byte{pl[0]}, v.make(pl[1:])...)) }
}

func variantReader(fam string, pl []byte) string {
	base, gen, v, ok := variantOf(fam)
	if !ok {
		return ""
	}
	if gen {
		return readers["gen"](pl) + " " + v.what
	}
	return readers[base](append([]byte{pl[0]}, v.make(pl[1:])...))
}

// preluded runs the spaces of a check again, a little smaller, in each
// variant.
func (c *Ctx) preluded(run func(c *Ctx)) {
	if c.fam != "" {
		return
	}
	var all []int
	for k := range variants {
		all = append(all, k)
	}
	c.varied(run, all...)
}

// varied does so in some variants.
func (c *Ctx) varied(run func(c *Ctx), ks ...int) {
	if strings.Contains(c.fam, "~") || c.shrink > 0 {
		return
	}
	fam, before := c.fam, c.before
	if fam == "" {
		fam = "doc"
	}
	for _, k := range ks {
		c.fam, c.shrink, c.few = fam+"~"+strconv.Itoa(k), 2, 2
		if k > 0 {
			c.few = 5
		}
		if c.thorough {
			c.shrink, c.few = 1, 1
			if k >= nPreludes {
				c.few = 3
			}
		}
		c.before = before + variants[k].what + ": "
		if k < nPreludes {
			c.before = before + "after prelude " + strconv.Itoa(k+1) + ": "
		}
		run(c)
	}
	c.fam, c.shrink, c.few, c.before = fam, 0, 0, before
	if fam == "doc" {
		c.fam = ""
	}
}

// anyChar puts other characters into the place of every byte of some
// documents, and before it: all that could be taken for it.
func (c *Ctx) anyChar(docs []string, opts ...byte) {
	if c.shrink > 0 {
		return
	}
	type place struct{ d, k int }
	var ps []place
	for i, d := range docs {
		for k := 0; k < len(d); k++ {
			ps = append(ps, place{i, k})
		}
	}
	c.docs("other characters in every place", len(ps)*16, opts, func(i int, emit func(string)) {
		d, k, part := docs[ps[i/16].d], ps[i/16].k, rune(i%16)
		b := rune(d[k])
		for r := part * 0x11000; r < (part+1)*0x11000; r++ {
			if r >= 0xD800 && r <= 0xDFFF || r < 0x80 {
				continue
			}
			same := r&0xFF == b || r&0x7F == b || r&0xFF == b^0x20
			near := r < 0x700 || r >= 0x2000 && r < 0x2100 || r >= 0x3000 && r < 0x3010 || r >= 0xFF00 && r <= 0xFFFF || unicode.IsDigit(r) || unicode.IsSpace(r)
			if !same && !near && (!c.thorough || r > 0xFFFF) {
				continue
			}
			emit(d[:k] + string(r) + d[k+1:])
			if same {
				emit(d[:k] + string(r) + d[k:])
			}
		}
	})
}
