// Package ref is the reference model: a recogniser for XML documents written
// from the XML and Namespaces recommendations, plus the documented limits and
// token layout of VTD. It shares no code with the library.
//
// For every byte string it answers Accept, Reject or Unknown. Unknown marks
// the areas the properties make no claim about (see DESIGN.md); a document
// that contains such an area and also a definite error is a Reject.
package ref

import (
	"strings"
	"unicode/utf8"
)

type Verdict uint8

const (
	Accept Verdict = iota
	Reject
	Unknown
)

func (v Verdict) String() string { return [...]string{"accept", "reject", "unknown"}[v] }

// Token types as documented by VTD.
const (
	TStart, TEnd, TAttr, TNs, TVal, TText, TComment = 0, 1, 2, 3, 4, 5, 6
	TPiName, TPiVal, TDecName, TDecVal, TCdata      = 7, 8, 9, 10, 11
	TDtd, TDoc                                      = 12, 13
)

const (
	MaxDepth  = 254
	MaxQName  = 2047
	MaxPrefix = 511
	MaxToken  = 1048575
)

const (
	XMLNamespace   = "http://www.w3.org/XML/1998/namespace"
	XMLNSNamespace = "http://www.w3.org/2000/xmlns/"
)

type Tok struct {
	Type           int
	Depth          int
	Off, Len, Pre  int
	AnyOff, AnyPre bool
}

type decl struct {
	prefix, uri string
	depth       int
}

type Result struct {
	Verdict Verdict
	// EOF: the document is rejected only because it ends too early.
	EOF bool
	// Closer completes the document when EOF is set (best effort).
	Closer string
	Reason string
	Tokens []Tok
	// Pos is how far the recogniser came: the bytes consumed.
	Pos int
	// Resolved holds, for accepted documents, nothing more than the tokens do.
}

type P struct {
	d       []byte
	i       int
	ns      bool
	ascii   bool
	unknown bool
	doctype bool

	bad    bool
	eofHit bool
	reason string
	head   string // completes the current construct
	inTag  bool   // head is followed by declarations and >

	toks  []Tok
	stack []string
	decls []decl

	// the tag being read
	tagName  string
	attrs    []string
	prefixed []string // names of attributes with a prefix (not declarations)
	noRoot   bool
}

// Parse decides the document d. The result is valid until the next call.
func (p *P) Parse(d []byte, ns bool) Result {
	*p = P{d: d, ns: ns, toks: p.toks[:0], stack: p.stack[:0], decls: p.decls[:0],
		attrs: p.attrs[:0], prefixed: p.prefixed[:0], noRoot: true}
	p.toks = append(p.toks, Tok{Type: TDoc, Depth: -1})
	ok := p.document()
	r := Result{Tokens: p.toks, Pos: p.i, Reason: p.reason}
	switch {
	case ok && !p.unknown:
		r.Verdict = Accept
	case ok:
		r.Verdict = Unknown
	case p.bad:
		r.Verdict = Reject
	default:
		r.Verdict = Reject
		r.EOF = true
		r.Closer = p.closer()
	}
	if !ok && p.unknown && p.reason == "abort" {
		r.Verdict = Unknown
		r.EOF = false
	}
	return r
}

func (p *P) rej(why string) bool {
	p.bad, p.reason = true, why
	return false
}

// abort: from here on the model makes no claim at all.
func (p *P) abort() bool {
	p.bad, p.unknown, p.reason = true, true, "abort"
	return false
}

func (p *P) eof(head string) bool {
	p.eofHit, p.head, p.reason = true, head, "end of document"
	return false
}

func (p *P) eofTag(head string) bool {
	p.inTag = true
	return p.eof(head)
}

func (p *P) closer() string {
	var sb strings.Builder
	sb.WriteString(p.head)
	if p.inTag {
		if p.ns {
			seen := map[string]bool{}
			add := func(name string) {
				k := strings.IndexByte(name, ':')
				if k <= 0 {
					return
				}
				pre := name[:k]
				if pre == "xml" || pre == "xmlns" || seen[pre] || p.declared(pre) {
					return
				}
				seen[pre] = true
				sb.WriteString(" xmlns:" + pre + `="u` + pre + `"`)
			}
			add(p.tagName)
			for _, a := range p.prefixed {
				add(a)
			}
		}
		sb.WriteString("></" + p.tagName + ">")
		p.noRoot = false
	}
	for k := len(p.stack) - 1; k >= 0; k-- {
		sb.WriteString("</" + p.stack[k] + ">")
	}
	if p.noRoot && len(p.stack) == 0 {
		sb.WriteString("<a/>")
	}
	return sb.String()
}

func (p *P) declared(pre string) bool {
	for _, d := range p.decls {
		if d.prefix == pre {
			return true
		}
	}
	return false
}

// end reports whether the input is used up.
func (p *P) end() bool { return p.i >= len(p.d) }

func (p *P) has(s string) bool {
	return len(p.d)-p.i >= len(s) && string(p.d[p.i:p.i+len(s)]) == s
}

// partial reports whether the rest of the input is a proper prefix of s.
func (p *P) partial(s string) bool {
	rest := p.d[p.i:]
	return len(rest) < len(s) && s[:len(rest)] == string(rest)
}

// lit consumes the literal s; then completes the document behind it.
func (p *P) lit(s, then string) bool {
	if p.has(s) {
		p.i += len(s)
		return true
	}
	if p.partial(s) {
		rest := s[len(p.d)-p.i:]
		p.i = len(p.d)
		return p.eof(rest + then)
	}
	for k := 0; k < len(s); k++ { // advance to the offending byte
		if p.d[p.i] != s[k] {
			break
		}
		p.i++
	}
	return p.rej("expected " + s)
}

func isWS(b byte) bool { return b == ' ' || b == '\t' || b == '\n' || b == '\r' }

func (p *P) ws() bool {
	s := p.i
	for !p.end() && isWS(p.d[p.i]) {
		p.i++
	}
	return p.i > s
}

// peek decodes the next character. ok is false at the end of the input, for
// malformed input and for characters outside ASCII in an ASCII document.
func (p *P) peek(head string) (r rune, size int, ok bool) {
	if p.end() {
		return 0, 0, p.eof(head)
	}
	b := p.d[p.i]
	if b < 0x80 {
		return rune(b), 1, true
	}
	if p.ascii {
		return 0, 0, p.rej("not ASCII")
	}
	rest := p.d[p.i:]
	if len(rest) > 4 {
		rest = rest[:4]
	}
	r, size = utf8.DecodeRune(rest)
	if r == utf8.RuneError && size <= 1 {
		if !utf8.FullRune(rest) {
			p.i = len(p.d)
			p.head = ""
			p.eofHit = true
			p.reason = "incomplete UTF-8"
			return 0, 0, false
		}
		return 0, 0, p.rej("malformed UTF-8")
	}
	return r, size, true
}

// Char classes.
func Forbidden(r rune) bool {
	return r == 0 || r >= 0xD800 && r <= 0xDFFF || r == 0xFFFE || r == 0xFFFF || r > 0x10FFFF || r < 0
}

// Disputed: control characters on which XML 1.0 and 1.1 differ.
func Disputed(r rune) bool {
	return r > 0 && r < 0x20 && r != 9 && r != 10 && r != 13 || r >= 0x7F && r <= 0x9F
}

func NameStart(r rune) bool {
	switch {
	case r == ':' || r == '_' || r >= 'A' && r <= 'Z' || r >= 'a' && r <= 'z':
		return true
	case r < 0xC0:
		return false
	}
	return r <= 0xD6 || r >= 0xD8 && r <= 0xF6 || r >= 0xF8 && r <= 0x2FF || r >= 0x370 && r <= 0x37D ||
		r >= 0x37F && r <= 0x1FFF || r == 0x200C || r == 0x200D || r >= 0x2070 && r <= 0x218F ||
		r >= 0x2C00 && r <= 0x2FEF || r >= 0x3001 && r <= 0xD7FF || r >= 0xF900 && r <= 0xFDCF ||
		r >= 0xFDF0 && r <= 0xFFFD || r >= 0x10000 && r <= 0xEFFFF
}

func NameChar(r rune) bool {
	return NameStart(r) || r == '-' || r == '.' || r >= '0' && r <= '9' || r == 0xB7 ||
		r >= 0x300 && r <= 0x36F || r == 0x203F || r == 0x2040
}

func (p *P) checkChar(r rune) bool {
	if Forbidden(r) {
		return p.rej("forbidden character")
	}
	if Disputed(r) {
		p.unknown = true
	}
	return true
}

// name reads a Name. then completes the document behind the name; at the end
// of the input inside a name the name so far counts.
func (p *P) name(missing string) (string, bool) {
	s := p.i
	r, n, ok := p.peek(missing)
	if !ok {
		return "", false
	}
	if !NameStart(r) {
		return "", p.rej("name expected")
	}
	p.i += n
	for !p.end() {
		if b := p.d[p.i]; b < 0x80 {
			if !NameChar(rune(b)) {
				break
			}
			p.i++
			continue
		}
		r, n, ok = p.peek("")
		if !ok {
			return "", false
		}
		if !NameChar(r) {
			break
		}
		p.i += n
	}
	return string(p.d[s:p.i]), true
}

// qname checks what namespaces ask of an element or attribute name.
func (p *P) qname(name string) {
	if !p.ns {
		return
	}
	k := strings.IndexByte(name, ':')
	if k < 0 {
		return
	}
	if k == 0 || k == len(name)-1 || strings.IndexByte(name[k+1:], ':') >= 0 {
		p.unknown = true
		return
	}
	r, _ := utf8.DecodeRuneInString(name[k+1:])
	if !NameStart(r) {
		p.unknown = true
	}
}

func prefixLen(name string) (n int, multi bool) {
	k := strings.LastIndexByte(name, ':')
	if k < 0 {
		return 0, false
	}
	return k, strings.IndexByte(name, ':') != k
}

func (p *P) limits(name string) bool {
	pre, _ := prefixLen(name)
	if len(name) > MaxQName || pre > MaxPrefix {
		return p.rej("name too long")
	}
	return true
}

func (p *P) depth() int { return len(p.stack) - 1 }

func (p *P) tok(t Tok) {
	t.Depth = p.depth()
	p.toks = append(p.toks, t)
}

// long appends a token that is split into parts of the maximum length.
func (p *P) long(typ, off, n int) {
	for n > MaxToken {
		p.tok(Tok{Type: typ, Off: off, Len: MaxToken})
		off += MaxToken
		n -= MaxToken
	}
	p.tok(Tok{Type: typ, Off: off, Len: n})
}

func (p *P) document() bool {
	bom := false
	if len(p.d) > 0 && p.d[0] == 0xEF {
		if !p.has("\xEF\xBB\xBF") {
			if p.partial("\xEF\xBB\xBF") {
				return p.eof(string("\xEF\xBB\xBF"[len(p.d):]))
			}
			return p.rej("not a byte order mark")
		}
		bom = true
		p.i = 3
	}
	if p.has("<?") && len(p.d)-p.i >= 6 && isWS(p.d[p.i+5]) && strings.EqualFold(string(p.d[p.i+2:p.i+5]), "xml") {
		if !p.has("<?xml") {
			return p.abort()
		}
		if !p.xmlDecl(bom) {
			return false
		}
	}
	for {
		p.ws()
		if p.end() {
			return p.eof("")
		}
		if p.d[p.i] != '<' {
			if _, _, ok := p.peek(""); !ok {
				return false
			}
			return p.rej("text in the prolog")
		}
		if p.i+1 >= len(p.d) {
			p.i++
			p.inTagName("a")
			return p.eofTag("a")
		}
		switch p.d[p.i+1] {
		case '?':
			if !p.pi() {
				return false
			}
			continue
		case '!':
			if p.i+2 >= len(p.d) {
				p.i += 2
				return p.eof("---->")
			}
			if p.d[p.i+2] == 'D' {
				if !p.doctypeDecl() {
					return false
				}
				continue
			}
			if !p.comment() {
				return false
			}
			continue
		}
		break
	}
	if !p.element() {
		return false
	}
	for {
		p.ws()
		if p.end() {
			return true
		}
		if p.d[p.i] != '<' {
			if _, _, ok := p.peek(""); !ok {
				return false
			}
			return p.rej("text after the root")
		}
		if p.i+1 >= len(p.d) {
			p.i++
			return p.eof("!---->")
		}
		switch p.d[p.i+1] {
		case '?':
			if !p.pi() {
				return false
			}
		case '!':
			if p.i+2 >= len(p.d) {
				p.i += 2
				return p.eof("---->")
			}
			if !p.comment() {
				return false
			}
		default:
			return p.rej("markup after the root")
		}
	}
}

// eqValue reads Eq and the opening quote.
func (p *P) eq(then string) (byte, bool) {
	p.ws()
	if !p.lit("=", `"`+then) {
		return 0, false
	}
	p.ws()
	if p.end() {
		return 0, p.eof(`"` + then)
	}
	q := p.d[p.i]
	if q != '"' && q != '\'' {
		return 0, p.rej("quote expected")
	}
	p.i++
	return q, true
}

func (p *P) xmlDecl(bom bool) bool {
	p.i += 5
	p.ws()
	if p.end() {
		return p.eof(`version="1.0"?>`)
	}
	s := p.i
	if !p.lit("version", `="1.0"?>`) {
		return false
	}
	q, ok := p.eq(`1.0"?>`)
	if !ok {
		return false
	}
	p.tok(Tok{Type: TDecName, Off: s, Len: 7})
	s = p.i
	if !p.lit("1.", "0"+string(q)+"?>") {
		return false
	}
	if p.end() {
		return p.eof("0" + string(q) + "?>")
	}
	if p.d[p.i] != '0' && p.d[p.i] != '1' {
		return p.rej("version")
	}
	p.i++
	if !p.lit(string(q), "?>") {
		return false
	}
	p.tok(Tok{Type: TDecVal, Off: s, Len: 3})
	w := p.ws()
	if p.end() {
		return p.eof("?>")
	}
	if w && p.d[p.i] == 'e' {
		s = p.i
		if !p.lit("encoding", `="utf-8"?>`) {
			return false
		}
		q, ok = p.eq(`utf-8"?>`)
		if !ok {
			return false
		}
		p.tok(Tok{Type: TDecName, Off: s, Len: 8})
		s = p.i
		for !p.end() && p.d[p.i] != q {
			b := p.d[p.i]
			if !(b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || p.i > s && (b >= '0' && b <= '9' || b == '-' || b == '.' || b == '_')) {
				return p.rej("encoding name")
			}
			p.i++
		}
		enc := string(p.d[s:p.i])
		low := strings.ToLower(enc)
		if p.end() {
			for _, k := range []string{"utf-8", "us-ascii", "ascii"} {
				if strings.HasPrefix(k, low) {
					rest := k[len(low):]
					if low != enc {
						rest = strings.ToUpper(rest)
					}
					return p.eof(rest + string(q) + "?>")
				}
			}
			return p.rej("encoding")
		}
		switch {
		case low == "utf-8":
		case enc == "ascii" || enc == "ASCII" || enc == "us-ascii" || enc == "US-ASCII":
			p.ascii = true
			if bom {
				p.unknown = true
			}
		case low == "ascii" || low == "us-ascii":
			return p.abort()
		default:
			return p.rej("encoding")
		}
		p.i++
		p.tok(Tok{Type: TDecVal, Off: s, Len: len(enc)})
		w = p.ws()
		if p.end() {
			return p.eof("?>")
		}
	}
	if w && p.d[p.i] == 's' {
		s = p.i
		if !p.lit("standalone", `="yes"?>`) {
			return false
		}
		q, ok = p.eq(`yes"?>`)
		if !ok {
			return false
		}
		p.tok(Tok{Type: TDecName, Off: s, Len: 10})
		s = p.i
		if p.end() {
			return p.eof("no" + string(q) + "?>")
		}
		v := "yes"
		if p.d[p.i] == 'n' {
			v = "no"
		}
		if !p.lit(v, string(q)+"?>") || !p.lit(string(q), "?>") {
			return false
		}
		p.tok(Tok{Type: TDecVal, Off: s, Len: len(v)})
		p.ws()
	}
	return p.lit("?>", "")
}

// doctypeDecl scans <!DOCTYPE ... > with balanced angle brackets.
func (p *P) doctypeDecl() bool {
	if !p.lit("<!DOCTYPE", " a>") {
		return false
	}
	if p.doctype {
		return p.abort()
	}
	p.doctype = true
	s := p.i
	z := 1
	var quote byte
	for {
		if p.end() {
			if quote != 0 {
				return p.abort()
			}
			h := ""
			if p.i == s {
				h = " a"
			} else if p.i == s+1 && isWS(p.d[s]) {
				h = "a"
			}
			return p.eof(h + strings.Repeat(">", z))
		}
		r, n, ok := p.peek(">")
		if !ok {
			return false
		}
		if !p.checkChar(r) {
			return false
		}
		if quote != 0 {
			if r == '<' || r == '>' {
				return p.abort()
			}
			if byte(r) == quote && n == 1 {
				quote = 0
			}
		} else if r == '"' || r == '\'' {
			quote = byte(r)
		}
		p.i += n
		if r == '<' {
			z++
		} else if r == '>' {
			z--
			if z == 0 {
				break
			}
		}
	}
	body := string(p.d[s : p.i-1])
	if !knownDoctype(body) {
		p.unknown = true
	}
	if len(body) > MaxToken {
		return p.rej("DTD too long")
	}
	p.tok(Tok{Type: TDtd, Off: s, Len: len(body)})
	return true
}

// knownDoctype recognises the simple forms that every processor accepts:
// S Name S?; an external identifier with plain literals; an internal subset
// of EMPTY/ANY element declarations and internal general entities.
func knownDoctype(b string) bool {
	t := strings.TrimLeft(b, " \t\r\n")
	if len(t) == len(b) {
		return false
	}
	word := func() string {
		k := 0
		for k < len(t) {
			r, n := utf8.DecodeRuneInString(t[k:])
			if k == 0 && !NameStart(r) || !NameChar(r) {
				break
			}
			k += n
		}
		w := t[:k]
		t = t[k:]
		return w
	}
	space := func() bool {
		u := strings.TrimLeft(t, " \t\r\n")
		ok := len(u) < len(t)
		t = u
		return ok
	}
	literal := func() bool {
		if t == "" || t[0] != '"' && t[0] != '\'' {
			return false
		}
		k := strings.IndexByte(t[1:], t[0])
		if k < 0 {
			return false
		}
		for _, c := range t[1 : 1+k] {
			if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("./:-_ ", c)) {
				return false
			}
		}
		t = t[k+2:]
		return true
	}
	w := word()
	if w == "" || strings.Contains(w, ":") {
		return false
	}
	sp := space()
	if sp && strings.HasPrefix(t, "SYSTEM") {
		t = t[6:]
		if !space() || !literal() {
			return false
		}
		space()
	} else if sp && strings.HasPrefix(t, "PUBLIC") {
		t = t[6:]
		if !space() || !literal() || !space() || !literal() {
			return false
		}
		space()
	}
	if t == "" {
		return true
	}
	if t[0] != '[' {
		return false
	}
	t = t[1:]
	for {
		space()
		switch {
		case strings.HasPrefix(t, "<!ELEMENT"):
			t = t[9:]
			if !space() || word() == "" || !space() {
				return false
			}
			if w := word(); w != "EMPTY" && w != "ANY" {
				return false
			}
		case strings.HasPrefix(t, "<!ENTITY"):
			t = t[8:]
			if !space() || word() == "" || !space() || !literal() {
				return false
			}
		case strings.HasPrefix(t, "]"):
			return strings.Trim(t[1:], " \t\r\n") == ""
		default:
			return false
		}
		space()
		if !strings.HasPrefix(t, ">") {
			return false
		}
		t = t[1:]
	}
}

func (p *P) comment() bool {
	if !p.lit("<!--", "-->") {
		return false
	}
	s := p.i
	for {
		r, n, ok := p.peek("-->")
		if !ok {
			return false
		}
		if r == '-' {
			if p.i+1 >= len(p.d) {
				p.i++
				return p.eof("->")
			}
			if p.d[p.i+1] == '-' {
				e := p.i
				p.i += 2
				if !p.lit(">", "") {
					return false
				}
				p.long(TComment, s, e-s)
				return true
			}
		}
		if !p.checkChar(r) {
			return false
		}
		p.i += n
	}
}

func (p *P) cdata() bool {
	if !p.lit("<![CDATA[", "]]>") {
		return false
	}
	s := p.i
	for {
		r, n, ok := p.peek("]]>")
		if !ok {
			return false
		}
		if r == ']' {
			if p.has("]]>") {
				e := p.i
				p.i += 3
				p.long(TCdata, s, e-s)
				return true
			}
			if p.partial("]]>") {
				h := "]]>"[len(p.d)-p.i:]
				p.i = len(p.d)
				return p.eof(h)
			}
		}
		if !p.checkChar(r) {
			return false
		}
		p.i += n
	}
}

func (p *P) pi() bool {
	p.i += 2
	s := p.i
	n, ok := p.name("p?>")
	if !ok {
		return false
	}
	if p.end() {
		if strings.EqualFold(n, "xml") {
			return p.eof("x?>")
		}
		return p.eof("?>")
	}
	if strings.EqualFold(n, "xml") {
		// the next character is not a name character
		return p.rej("reserved target")
	}
	if p.ns && strings.IndexByte(n, ':') >= 0 {
		p.unknown = true
	}
	if len(n) > MaxToken {
		return p.rej("target too long")
	}
	p.tok(Tok{Type: TPiName, Off: s, Len: len(n)})
	if p.d[p.i] == '?' {
		p.tok(Tok{Type: TPiVal, AnyOff: true})
		return p.lit("?>", "")
	}
	if !isWS(p.d[p.i]) {
		if _, _, ok := p.peek(""); !ok {
			return false
		}
		return p.rej("space expected in processing instruction")
	}
	p.i++
	s = p.i
	for {
		r, n, ok := p.peek("?>")
		if !ok {
			return false
		}
		if r == '?' {
			if p.i+1 >= len(p.d) {
				p.i++
				return p.eof(">")
			}
			if p.d[p.i+1] == '>' {
				if p.i-s > MaxToken {
					return p.rej("value too long")
				}
				p.tok(Tok{Type: TPiVal, Off: s, Len: p.i - s})
				p.i += 2
				return true
			}
		}
		if !p.checkChar(r) {
			return false
		}
		p.i += n
	}
}

// reference reads a reference at '&'. then completes what surrounds it.
func (p *P) reference(then string) (rune, bool) {
	p.i++
	if p.end() {
		return 0, p.eof("lt;" + then)
	}
	if p.d[p.i] == '#' {
		p.i++
		base, digits := rune(10), 0
		if !p.end() && p.d[p.i] == 'x' {
			base = 16
			p.i++
		}
		v := rune(0)
		for {
			if p.end() {
				for _, t := range []string{"", "0", "20", "32", "9", "120", "160"} {
					w, d := v, digits
					for _, c := range t {
						w = w*base + c - '0'
						d++
						if w > 0x10FFFF {
							break
						}
					}
					if d > 0 && !Forbidden(w) && !Disputed(w) {
						return 0, p.eof(t + ";" + then)
					}
				}
				return 0, p.eof(";" + then)
			}
			b := p.d[p.i]
			var x rune
			switch {
			case b >= '0' && b <= '9':
				x = rune(b - '0')
			case base == 16 && b >= 'a' && b <= 'f':
				x = rune(b-'a') + 10
			case base == 16 && b >= 'A' && b <= 'F':
				x = rune(b-'A') + 10
			case b == ';' && digits > 0:
				if Forbidden(v) {
					return 0, p.rej("reference to a forbidden character")
				}
				if Disputed(v) {
					p.unknown = true
				}
				p.i++
				return v, true
			default:
				return 0, p.rej("bad character reference")
			}
			v = v*base + x
			digits++
			if v > 0x10FFFF {
				return 0, p.rej("reference beyond U+10FFFF")
			}
			p.i++
		}
	}
	for _, e := range [...]struct {
		s string
		r rune
	}{{"lt;", '<'}, {"gt;", '>'}, {"amp;", '&'}, {"apos;", '\''}, {"quot;", '"'}} {
		if p.has(e.s) {
			p.i += len(e.s)
			return e.r, true
		}
		if p.partial(e.s) && !p.doctype {
			h := e.s[len(p.d)-p.i:]
			p.i = len(p.d)
			return 0, p.eof(h + then)
		}
	}
	if p.doctype { // may be declared: no claim
		return 0, p.abort()
	}
	return 0, p.rej("unknown reference")
}

func (p *P) inTagName(n string) { p.tagName = n }

// element reads the root element with everything in it.
func (p *P) element() bool {
	for {
		// at '<' of a start tag
		p.i++
		s := p.i
		p.attrs, p.prefixed = p.attrs[:0], p.prefixed[:0]
		p.tagName = "a"
		p.inTag = true
		name, ok := p.name("a")
		if !ok {
			return false
		}
		p.tagName = name
		if p.end() {
			if p.ns && name[len(name)-1] == ':' {
				p.tagName += "a"
				return p.eof("a")
			}
			return p.eof("")
		}
		if len(p.stack) > MaxDepth {
			return p.rej("too deep")
		}
		if !p.limits(name) {
			return false
		}
		p.qname(name)
		p.stack = append(p.stack, name)
		depth := p.depth()
		pre, multi := prefixLen(name)
		p.tok(Tok{Type: TStart, Off: s, Len: len(name), Pre: pre, AnyPre: multi})
		empty, ok := p.startTagRest(depth)
		if !ok {
			p.stack = p.stack[:len(p.stack)-1] // closer writes the tag's own end
			return false
		}
		p.inTag = false
		p.noRoot = false
		if empty {
			p.pop()
		}
		// content until the next start tag
		direct := !empty
		for {
			if len(p.stack) == 0 {
				return true
			}
			s = p.i
			if !p.text(direct) {
				return false
			}
			// at '<'
			if p.i+1 >= len(p.d) {
				p.i++
				n := p.stack[len(p.stack)-1]
				p.stack = p.stack[:len(p.stack)-1]
				return p.eof("/" + n + ">")
			}
			c := p.d[p.i+1]
			if c == '/' {
				p.i += 2
				n := p.stack[len(p.stack)-1]
				p.stack = p.stack[:len(p.stack)-1]
				if !p.lit(n, ">") {
					return false
				}
				p.ws()
				if p.end() {
					return p.eof(">")
				}
				if p.d[p.i] != '>' {
					if _, _, ok := p.peek(""); !ok {
						return false
					}
					return p.rej("end tag")
				}
				p.i++
				p.stack = append(p.stack, n)
				p.pop()
				direct = false
				continue
			}
			direct = false
			if c == '?' {
				if !p.pi() {
					return false
				}
				continue
			}
			if c == '!' {
				if p.i+2 >= len(p.d) {
					p.i += 2
					return p.eof("---->")
				}
				if p.d[p.i+2] == '[' {
					if !p.cdata() {
						return false
					}
				} else if !p.comment() {
					return false
				}
				continue
			}
			break
		}
	}
}

func (p *P) pop() {
	d := p.depth()
	for len(p.decls) > 0 && p.decls[len(p.decls)-1].depth == d {
		p.decls = p.decls[:len(p.decls)-1]
	}
	p.stack = p.stack[:len(p.stack)-1]
}

// text reads character data up to '<'. direct: the previous markup is the
// start tag of the element.
func (p *P) text(direct bool) bool {
	s := p.i
	blank := true
	for {
		if p.end() {
			return p.eof("")
		}
		b := p.d[p.i]
		if b == '<' {
			break
		}
		if isWS(b) {
			p.i++
			continue
		}
		blank = false
		if b == '&' {
			if _, ok := p.reference(""); !ok {
				return false
			}
			continue
		}
		if b == ']' && p.has("]]>") {
			p.i += 2
			return p.rej("]]> in text")
		}
		r, n, ok := p.peek("")
		if !ok {
			return false
		}
		if !p.checkChar(r) {
			return false
		}
		p.i += n
	}
	if !blank || direct && p.i+1 < len(p.d) && p.d[p.i+1] == '/' {
		p.long(TText, s, p.i-s)
	}
	return true
}

// startTagRest reads the attributes and the end of a start tag.
func (p *P) startTagRest(depth int) (empty, ok bool) {
	first := len(p.decls)
	for {
		w := p.ws()
		if p.end() {
			return false, p.eof("")
		}
		b := p.d[p.i]
		if b == '>' {
			p.i++
			return false, p.namespaces(first)
		}
		if b == '/' {
			p.i++
			if p.end() {
				// <a/ must be followed by >: the closer writes "></a>", so
				// take the tag out of the way
				p.inTag = false
				p.noRoot = false
				if !p.nsReady() {
					return false, p.eof("")
				}
				return false, p.eof(">")
			}
			if p.d[p.i] != '>' {
				if _, _, k := p.peek(""); !k {
					return false, false
				}
				return false, p.rej("> expected")
			}
			p.i++
			return true, p.namespaces(first)
		}
		if !w {
			if _, _, k := p.peek(""); !k {
				return false, false
			}
			return false, p.rej("space expected")
		}
		s := p.i
		name, k := p.name("")
		if !k {
			return false, false
		}
		if p.end() {
			h := `="u"`
			if p.ns && name[len(name)-1] == ':' {
				h = `a` + h
			}
			p.note(name)
			if name == "xmlns:xml" {
				h = `="` + XMLNamespace + `"`
			}
			return false, p.eof(h)
		}
		if !p.limits(name) {
			return false, false
		}
		p.qname(name)
		if p.duplicate(name) {
			return false, p.rej("duplicate attribute")
		}
		isNs := name == "xmlns" || strings.HasPrefix(name, "xmlns:")
		typ := TAttr
		if isNs {
			typ = TNs
		}
		if p.ns && isNs && name == "xmlns:xmlns" {
			return false, p.rej("xmlns declared")
		}
		pre, multi := prefixLen(name)
		p.tok(Tok{Type: typ, Off: s, Len: len(name), Pre: pre, AnyPre: multi})
		p.note(name)
		p.ws()
		h := `u"`
		if name == "xmlns:xml" {
			h = XMLNamespace + `"`
		}
		if p.end() {
			return false, p.eof(`="` + h)
		}
		if p.d[p.i] != '=' {
			if _, _, k := p.peek(""); !k {
				return false, false
			}
			return false, p.rej("= expected")
		}
		p.i++
		p.ws()
		if p.end() {
			return false, p.eof(`"` + h)
		}
		q := p.d[p.i]
		if q != '"' && q != '\'' {
			if _, _, k := p.peek(""); !k {
				return false, false
			}
			return false, p.rej("quote expected")
		}
		p.i++
		s = p.i
		var uri []byte
		for {
			fin := string(q)
			if p.ns && isNs && p.i == s && name != "xmlns" {
				fin = h[:len(h)-1] + string(q)
			}
			r, n, k := p.peek(fin)
			if !k {
				return false, false
			}
			if r == rune(q) {
				break
			}
			if r == '<' {
				return false, p.rej("< in attribute value")
			}
			if r == '&' {
				v, k := p.reference(fin)
				if !k {
					return false, false
				}
				if isNs {
					uri = utf8.AppendRune(uri, v)
				}
				continue
			}
			if !p.checkChar(r) {
				return false, false
			}
			if isNs {
				if p.ns && (r == '\t' || r == '\n' || r == '\r') {
					p.unknown = true
				}
				uri = append(uri, p.d[p.i:p.i+n]...)
			}
			p.i += n
		}
		if p.i-s > MaxToken {
			return false, p.rej("value too long")
		}
		p.tok(Tok{Type: TVal, Off: s, Len: p.i - s})
		p.i++
		if p.ns && isNs {
			u := string(uri)
			switch {
			case name == "xmlns:xml":
				if u != XMLNamespace {
					return false, p.rej("xml bound to another name")
				}
			case multi: // not a name at all in namespace-aware mode
				p.unknown = true
			case u == XMLNamespace || u == XMLNSNamespace:
				return false, p.rej("reserved namespace name")
			case name != "xmlns" && u == "":
				return false, p.rej("prefix bound to the empty name")
			}
			if name != "xmlns" {
				if name == "xmlns:" {
					p.unknown = true
				}
				p.decls = append(p.decls, decl{name[6:], u, depth})
			}
		}
	}
}

// note records an attribute name.
func (p *P) note(name string) {
	p.attrs = append(p.attrs, name)
	if !strings.HasPrefix(name, "xmlns:") && strings.IndexByte(name, ':') > 0 {
		p.prefixed = append(p.prefixed, name)
	}
}

func (p *P) duplicate(name string) bool {
	for _, a := range p.attrs {
		if a == name {
			return true
		}
	}
	return false
}

func split(name string) (string, string) {
	k := strings.LastIndexByte(name, ':')
	if k < 0 {
		return "", name
	}
	return name[:k], name[k+1:]
}

func (p *P) resolve(pre string) (string, bool) {
	if pre == "xml" {
		return XMLNamespace, true
	}
	for k := len(p.decls) - 1; k >= 0; k-- {
		if p.decls[k].prefix == pre {
			return p.decls[k].uri, true
		}
	}
	return "", false
}

func (p *P) nsReady() bool {
	if !p.ns {
		return true
	}
	pre, _ := split(p.tagName)
	if pre != "" {
		if _, ok := p.resolve(pre); !ok {
			return false
		}
	}
	for _, a := range p.prefixed {
		pre, _ = split(a)
		if _, ok := p.resolve(pre); !ok {
			return false
		}
	}
	return true
}

// namespaces checks prefixes and expanded names at the end of a start tag.
func (p *P) namespaces(int) bool {
	if !p.ns {
		return true
	}
	pre, _ := split(p.tagName)
	if pre == "xmlns" {
		return p.rej("xmlns as element prefix")
	}
	if pre != "" {
		if _, ok := p.resolve(pre); !ok {
			if p.unknown {
				return p.abort()
			}
			return p.rej("undeclared element prefix")
		}
	}
	type en struct{ uri, local string }
	var seen []en
	for _, a := range p.prefixed {
		pre, local := split(a)
		u, ok := p.resolve(pre)
		if !ok {
			if p.unknown {
				return p.abort()
			}
			return p.rej("undeclared attribute prefix")
		}
		for _, e := range seen {
			if e.uri == u && e.local == local {
				if p.unknown {
					return p.abort()
				}
				return p.rej("duplicate expanded name")
			}
		}
		seen = append(seen, en{u, local})
	}
	return true
}
