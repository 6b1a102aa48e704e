package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/buffer"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/modifier"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/parser"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/pilot"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/reader"

	"mc/ref"
)

// ---- C22: readers against a window

// charAt decodes the character at o within [.., e): ok is false for bytes
// that are no character of the encoding.
func charAt(ascii bool, d []byte, o, e int) (ch rune, size int, ok bool) {
	if ascii {
		return rune(d[o]), 1, d[o] < 0x80
	}
	ch, size = utf8.DecodeRune(d[o:e])
	if ch == utf8.RuneError && size <= 1 {
		return 0, 0, false
	}
	return ch, size, true
}

var skipChars = []uint32{'a', 'b', '<', '\r', '\n', 0, 0x7F, 0x80, 0xC3, 0xE9, 0xA9, 0x20AC, 0xE2, 0xAC, 0x1F600, 0xF0, 0xFFFD, 0xEF, 0xFF, 0xD800, 0x100 + 'a', 0x110000 + 'a', 0xFFFFFFFF}
var skipSeqs = []string{"", "a", "ab", "aa", "a\n", "\r\n", "\n", "a<", "<a", "aaa", "<<a", "a\u00e9", "\u00e9", "\u00e9a", "\u20ac", "\u20ac\u20ac", "\U0001F600a", "a\U0001F600", "\ufffd", "a\ufffd", "\u00e9\u20ac\U0001F600", "\x00", "\x7fa", "\u00c3", "\u00e2"}

func newReader(ascii bool, d []byte, s, e int) (reader.Reader, error) {
	if ascii {
		r, err := reader.NewAsciiReader(d, s, e)
		if r == nil {
			return nil, err
		}
		return r, err
	}
	r, err := reader.NewUtf8Reader(d, s, e)
	if r == nil {
		return nil, err
	}
	return r, err
}

// readerGraph explores every state of a reader on one window. Each state is
// reached by replaying its operations on a new reader.
func (w *Worker) readerGraph(pl []byte) string {
	ascii, s, e := pl[0] != 0, int(pl[1]), int(pl[2])
	d := append(make([]byte, 0, len(pl)), pl[3:]...)
	keep := string(d)
	type op struct{ kind, arg int } // 0 get, 1 skip char, 2 skip sequence, 3 set offset
	var ops []op
	ops = append(ops, op{0, 0})
	for i := range skipChars {
		ops = append(ops, op{1, i})
	}
	for i := range skipSeqs {
		ops = append(ops, op{2, i})
	}
	for o := s; o <= e; o++ {
		ops = append(ops, op{3, o})
	}
	name := func(o op) string {
		switch o.kind {
		case 0:
			return "GetChar"
		case 1:
			return fmt.Sprintf("SkipChar(%#x)", skipChars[o.arg])
		case 2:
			return fmt.Sprintf("SkipCharSeq(%+q)", skipSeqs[o.arg])
		}
		return fmt.Sprintf("SetOffset(%d)", o.arg)
	}
	names := func(l []op) string {
		out := ""
		for _, o := range l {
			out += name(o) + " "
		}
		return out
	}
	// apply makes one step from offset at; known is false where the next
	// offset is not specified
	apply := func(r reader.Reader, at int, o op) (next int, known bool, what string) {
		next, known = at, true
		switch o.kind {
		case 0:
			ch, err := r.GetChar()
			var eof *erroring.EOFError
			if at >= e {
				if !errors.As(err, &eof) {
					what = fmt.Sprintf("at the end: %#x, %v", ch, err)
				}
				break
			}
			want, size, ok := charAt(ascii, d, at, e)
			if !ok {
				known = false
				if err == nil || errors.As(err, &eof) {
					what = fmt.Sprintf("malformed character: %#x, %v", ch, err)
				}
				if g := r.GetOffset(); g > e || g < at {
					what = fmt.Sprintf("malformed character: offset moves from %d to %d", at, g)
				}
				break
			}
			next += size
			if err != nil || ch != uint32(want) {
				what = fmt.Sprintf("%#x (%v), expected %#x", ch, err, want)
			}
		case 1, 2:
			var seq []uint32
			var got bool
			if o.kind == 1 {
				seq = skipChars[o.arg : o.arg+1]
				got = r.SkipChar(seq[0])
			} else {
				for _, c := range skipSeqs[o.arg] {
					seq = append(seq, uint32(c))
				}
				got = r.SkipCharSeq(skipSeqs[o.arg])
			}
			to, want := at, true
			for _, c := range seq {
				if to >= e {
					want = false
					break
				}
				ch, size, ok := charAt(ascii, d, to, e)
				if !ok || uint32(ch) != c {
					want = false
					break
				}
				to += size
			}
			if want {
				next = to
			}
			if got != want {
				what = fmt.Sprintf("%v, expected %v", got, want)
			}
		case 3:
			r.SetOffset(o.arg)
			next = o.arg
		}
		if what == "" && known && r.GetOffset() != next {
			what = fmt.Sprintf("the offset is %d, expected %d", r.GetOffset(), next)
		}
		return
	}
	type node struct {
		path []op
		at   int
	}
	run := func(n node) (reader.Reader, string) {
		r, err := newReader(ascii, d, s, e)
		if err != nil {
			return nil, "constructor: " + err.Error()
		}
		if r.GetOffset() != s {
			return nil, fmt.Sprintf("a new reader is at %d", r.GetOffset())
		}
		at := s
		for _, o := range n.path {
			at, _, _ = apply(r, at, o)
		}
		return r, ""
	}
	key := func(r reader.Reader, at int) string {
		b := binary.AppendVarint(nil, int64(at))
		v := reflect.ValueOf(r).Elem()
		for i := 0; i < v.NumField(); i++ {
			b = keyOf(b, v.Field(i))
		}
		return string(b)
	}
	queue := []node{{nil, s}}
	seen := map[string]bool{}
	for len(queue) > 0 && len(seen) < 2000 {
		n := queue[0]
		queue = queue[1:]
		w.states++
		r, what := run(n)
		if what != "" {
			return what
		}
		// reading at offsets has no effect
		for pass := 0; pass < 2; pass++ {
			for o := -2; o <= len(d)+2; o++ {
				if what := peek(r, ascii, d, s, e, o); what != "" {
					return names(n.path) + what
				}
			}
			for _, o := range []int{math.MinInt32, math.MinInt32 + 1, math.MaxInt32, math.MaxInt32 - 1, -256, 255, 256, 65536} {
				if what := peek(r, ascii, d, s, e, o); what != "" {
					return names(n.path) + what
				}
			}
			if r.GetOffset() != n.at {
				return fmt.Sprintf("%sreading moves the offset to %d", names(n.path), r.GetOffset())
			}
		}
		for i, o := range ops {
			if i > 0 {
				if r, what = run(n); what != "" {
					return what
				}
			}
			w.transitions++
			at, known, what := apply(r, n.at, o)
			if what != "" {
				return names(n.path) + name(o) + ": " + what
			}
			if string(d) != keep {
				return names(n.path) + name(o) + " changes the document"
			}
			if !known || len(n.path) >= 4 {
				continue
			}
			if k := key(r, at); !seen[k] {
				seen[k] = true
				queue = append(queue, node{append(append([]op{}, n.path...), o), at})
			}
		}
	}
	return ""
}

// peek compares the two functions that read at an offset.
func peek(r reader.Reader, ascii bool, d []byte, s, e, o int) string {
	l, lerr := r.GetLongCharAt(int32(o))
	c, cerr := r.GetCharAt(int32(o))
	if o < 0 || o >= e {
		if lerr == nil || cerr == nil {
			return fmt.Sprintf("reading at %d: %#x (%v), %#x (%v)", o, l, lerr, c, cerr)
		}
		return ""
	}
	if o < s {
		return ""
	}
	if cerr != nil || c != uint32(d[o]) {
		return fmt.Sprintf("GetCharAt(%d): %#x (%v)", o, c, cerr)
	}
	ch, size, ok := charAt(ascii, d, o, e)
	if !ok {
		return ""
	}
	want := uint64(size)<<32 | uint64(ch)
	if ch == '\r' && o+1 < e && d[o+1] == '\n' {
		want = 2<<32 | '\n'
	}
	if lerr != nil || l != want {
		return fmt.Sprintf("GetLongCharAt(%d): %#x (%v), expected %#x", o, l, lerr, want)
	}
	return ""
}

// readerCtor checks the arguments of the constructors.
func (w *Worker) readerCtor(pl []byte) string {
	ascii, n := pl[0] != 0, int(int8(pl[1]))
	s, e := int(int64(binary.LittleEndian.Uint64(pl[2:]))), int(int64(binary.LittleEndian.Uint64(pl[10:])))
	var d []byte
	if n >= 0 {
		d = make([]byte, n, n+4)
		for i := range d[:n+4] {
			d[:n+4][i] = 'a'
		}
	}
	r, err := newReader(ascii, d, s, e)
	switch {
	case n < 0 || s < 0 || e < 0 || e > n:
		if !isArg(err) || r != nil {
			return fmt.Sprintf("reader of [%d,%d) of %d bytes: %v", s, e, n, err)
		}
	case s <= e:
		if err != nil || r == nil {
			return fmt.Sprintf("reader of [%d,%d) of %d bytes: %v", s, e, n, err)
		}
		for i := s; i < e; i++ {
			if c, err := r.GetChar(); err != nil || c != 'a' {
				return fmt.Sprintf("reader of [%d,%d) of %d bytes: character at %d: %#x, %v", s, e, n, i, c, err)
			}
		}
		var eof *erroring.EOFError
		for i := 0; i < 3; i++ {
			if _, err := r.GetChar(); !errors.As(err, &eof) {
				return fmt.Sprintf("reader of [%d,%d) of %d bytes: no end of input: %v", s, e, n, err)
			}
		}
	default: // empty window: nothing but the end of input
		if err == nil {
			if _, err := r.GetChar(); err == nil {
				return fmt.Sprintf("reader of [%d,%d) of %d bytes delivers a character", s, e, n)
			}
		}
	}
	return ""
}

func checkC22(c *Ctx) {
	pieces := []string{"a", "<", "\r", "\n", "\u00e9", "\u20ac", "\U0001F600", "\xC3", "\xE2\x82", "\xF0\x9F\x98", "\x80", "\xFF", "\xED\xA0\x80", "\xC0\x80", "\x00", "\x7F", "\ufffd", "\xF4\x90\x80\x80"}
	var docs []string
	max := pick(c, 3, 4)
	var rec func(d string, n int)
	rec = func(d string, n int) {
		docs = append(docs, d)
		if n > 0 {
			for _, p := range pieces {
				rec(d+p, n-1)
			}
		}
	}
	rec("", max)
	c.Space("windows", len(docs), func(w *Worker, i int) {
		d := docs[i]
		for s := 0; s <= len(d); s++ {
			for e := s; e <= len(d); e++ {
				if len(d) > 6 && s > 1 && e < len(d)-1 && !c.thorough {
					continue
				}
				for k := byte(0); k < 2; k++ {
					w.Do("reader", append([]byte{k, byte(s), byte(e)}, d...))
				}
			}
		}
		if i%701 == 0 {
			c.Sample(d)
		}
	})
	ints := append([]int{}, extremes...)
	for i := -3; i <= 12; i++ {
		ints = append(ints, i)
	}
	c.Space("arguments", len(ints), func(w *Worker, i int) {
		for _, e := range ints {
			for n := -1; n <= 9; n++ {
				for k := byte(0); k < 2; k++ {
					w.states++
					pl := []byte{k, byte(int8(n))}
					pl = binary.LittleEndian.AppendUint64(pl, uint64(int64(ints[i])))
					pl = binary.LittleEndian.AppendUint64(pl, uint64(int64(e)))
					w.Do("readerctor", pl)
				}
			}
		}
	})
	// plane by plane: every character class of the encoding
	c.Space("every code point", 0x110000/256, func(w *Worker, i int) {
		w.states += 256
		w.Do("codepoints", []byte{byte(i), byte(i >> 8)})
	})
	c.readSizes()
}

// codePoints reads 256 characters, each with neighbours.
func (w *Worker) codePoints(pl []byte) string {
	base := rune(int(pl[0])|int(pl[1])<<8) << 8
	var d []byte
	var cs []rune
	for k := rune(0); k < 256; k++ {
		if r := base + k; utf8.ValidRune(r) {
			d = append(utf8.AppendRune(d, r), 'x')
			cs = append(cs, r, 'x')
		}
	}
	if len(d) == 0 {
		return "" // surrogates
	}
	r, err := reader.NewUtf8Reader(d, 0, len(d))
	if err != nil {
		return err.Error()
	}
	o := 0
	for i, c := range cs {
		n := utf8.RuneLen(c)
		want := uint64(n)<<32 | uint64(c)
		if l, err := r.GetLongCharAt(int32(o)); err != nil || l != want {
			return fmt.Sprintf("GetLongCharAt of U+%04X: %#x, %v", c, l, err)
		}
		if i%2 == 0 || c == 'x' && i%4 == 1 {
			if g, err := r.GetChar(); err != nil || g != uint32(c) {
				return fmt.Sprintf("GetChar of U+%04X: %#x, %v", c, g, err)
			}
		} else if r.SkipChar(uint32(c)+1) || !r.SkipChar(uint32(c)) {
			return fmt.Sprintf("SkipChar of U+%04X", c)
		}
		o += n
		if r.GetOffset() != o {
			return fmt.Sprintf("offset after U+%04X: %d, expected %d", c, r.GetOffset(), o)
		}
		w.transitions++
	}
	// the same characters cut short
	for i, c := range cs {
		if n := utf8.RuneLen(c); n > 1 && i%2 == 0 {
			b := append([]byte{'a'}, string(c)...)
			for e := 2; e < len(b); e++ {
				r, err := reader.NewUtf8Reader(b, 1, e)
				if err != nil {
					return err.Error()
				}
				if g, err := r.GetChar(); err == nil || r.GetOffset() > e {
					return fmt.Sprintf("U+%04X cut after %d bytes: %#x, offset %d", c, e-1, g, r.GetOffset())
				}
			}
		}
	}
	return ""
}

// ---- C23: kinds of errors

type errKind struct {
	name    string
	make    func(msg string, cause error) error
	is      func(err error) bool
	wraps   bool
	exactly reflect.Type
}

var kindsOfErrors = []errKind{
	{"InvalidArgumentError", func(m string, e error) error { return erroring.NewInvalidArgumentError(more("par", m), m, e) },
		func(e error) bool { var t *erroring.InvalidArgumentError; return errors.As(e, &t) }, true, reflect.TypeOf(&erroring.InvalidArgumentError{})},
	{"InternalError", func(m string, e error) error { return erroring.NewInternalError(m, e) },
		func(e error) bool { var t *erroring.InternalError; return errors.As(e, &t) }, true, reflect.TypeOf(&erroring.InternalError{})},
	{"ParseError", func(m string, e error) error { return erroring.NewParseError(m, more("line", m), e) },
		func(e error) bool { var t *erroring.ParseError; return errors.As(e, &t) }, true, reflect.TypeOf(&erroring.ParseError{})},
	{"NavigationError", func(m string, e error) error { return erroring.NewNavigationError(m, e) },
		func(e error) bool { var t *erroring.NavigationError; return errors.As(e, &t) }, true, reflect.TypeOf(&erroring.NavigationError{})},
	{"EncodingError", func(m string, e error) error { return erroring.NewEncodingError(m) },
		func(e error) bool { var t *erroring.EncodingError; return errors.As(e, &t) }, false, reflect.TypeOf(&erroring.EncodingError{})},
	{"DecodingError", func(m string, e error) error { return erroring.NewDecodingError(m) },
		func(e error) bool { var t *erroring.DecodingError; return errors.As(e, &t) }, false, reflect.TypeOf(&erroring.DecodingError{})},
	{"EntityError", func(m string, e error) error { return erroring.NewEntityError(m) },
		func(e error) bool { var t *erroring.EntityError; return errors.As(e, &t) }, false, reflect.TypeOf(&erroring.EntityError{})},
	{"EOFError", func(m string, e error) error { return erroring.NewEOFError(m) },
		func(e error) bool { var t *erroring.EOFError; return errors.As(e, &t) }, false, reflect.TypeOf(&erroring.EOFError{})},
	{"ModifyError", func(m string, e error) error { return erroring.NewModifyError(m) },
		func(e error) bool { var t *erroring.ModifyError; return errors.As(e, &t) }, false, reflect.TypeOf(&erroring.ModifyError{})},
	{"an error of fmt", func(m string, e error) error {
		if e == nil {
			return errors.New(m)
		}
		return fmt.Errorf("%s: %w", m, e)
	}, func(e error) bool { return false }, true, nil},
}

// more is nothing for no message.
func more(s, msg string) string {
	if msg == "" {
		return ""
	}
	return s + msg
}

// kinds: a nesting of errors, outermost last.
func (w *Worker) kinds(pl []byte) string {
	base := errors.New("base")
	var cause error
	if len(pl) > 0 && pl[0]&1 == 1 {
		cause = base
	}
	type link struct {
		err, cause error
		kind       int
		msg        string
	}
	var links []link
	for i, k := range pl[1:] {
		msg := fmt.Sprintf("message %d of %d %%s", i, len(pl))
		switch pl[0] >> 1 { // what the messages are
		case 1:
			msg = "the same"
		case 2:
			msg = ""
		case 3:
			if cause != nil {
				msg = cause.Error()
			}
		case 4:
			msg = strings.Repeat("long\n\x00", 40+i)
		}
		e := kindsOfErrors[k].make(msg, cause)
		links = append(links, link{e, cause, int(k), msg})
		cause = e
	}
	for pass := 0; pass < 2; pass++ { // looking has no effect
		for i := range links {
			l := links[i]
			kd := kindsOfErrors[l.kind]
			if !strings.Contains(l.err.Error(), l.msg) {
				return fmt.Sprintf("%s: message %q does not carry %q", kd.name, l.err.Error(), l.msg)
			}
			want := l.cause
			if !kd.wraps {
				want = nil
			}
			if errors.Unwrap(l.err) != want {
				return fmt.Sprintf("%s unwraps to %v, expected %v", kd.name, errors.Unwrap(l.err), want)
			}
			if kd.exactly != nil && reflect.TypeOf(l.err) != kd.exactly {
				return fmt.Sprintf("%s is a %T", kd.name, l.err)
			}
			// reachable errors
			reach := []int{i}
			for j := i; j > 0 && kindsOfErrors[links[j].kind].wraps; {
				j--
				reach = append(reach, j)
			}
			atBase := kindsOfErrors[links[reach[len(reach)-1]].kind].wraps && reach[len(reach)-1] == 0 && pl[0]&1 == 1
			if errors.Is(l.err, base) != atBase {
				return fmt.Sprintf("nesting %v: base found: %v, expected %v", pl[1:i+2], !atBase, atBase)
			}
			for k := range kindsOfErrors {
				has := false
				for _, j := range reach {
					if links[j].kind == k && kindsOfErrors[k].exactly != nil {
						has = true
					}
				}
				if kindsOfErrors[k].is(l.err) != has {
					return fmt.Sprintf("nesting %v: recognised as %s: %v", pl[1:i+2], kindsOfErrors[k].name, !has)
				}
			}
			for j := range links {
				in := false
				for _, r := range reach {
					in = in || r == j
				}
				if errors.Is(l.err, links[j].err) != in {
					return fmt.Sprintf("nesting %v: error %d found in error %d: %v", pl[1:], j, i, !in)
				}
			}
			switch t := l.err.(type) {
			case *erroring.InvalidArgumentError:
				if t.Parameter != more("par", l.msg) || t.Msg != l.msg || !strings.Contains(t.Error(), t.Parameter) {
					return fmt.Sprintf("fields of %+v", t)
				}
			case *erroring.ParseError:
				if t.Msg != l.msg || t.LineNumber != more("line", l.msg) {
					return fmt.Sprintf("fields of %+v", t)
				}
			case *erroring.NavigationError:
				if t.Msg != l.msg {
					return fmt.Sprintf("fields of %+v", t)
				}
			}
		}
	}
	return ""
}

var refContexts = [][2]string{
	{"<a>", "</a>"}, {"<a>t", " t</a>"}, {"<a b='", "'/>"}, {"<a b=\"x", " \"></a>"}, {"<a><b/>", "<b/></a>"}, {"<a><b></b>", "</a>"},
	{"<a>&lt;", "</a>"}, {"<a><!--c-->", "</a>"}, {"<a xmlns='", "'/>"}, {"<a xmlns:p='u", "'/>"}, {"<a>]]", "</a>"}, {"<a><?p v?>", "</a>"}, {"<a><![CDATA[x]]>", "</a>"}, {"<a>\n ", "</a>"},
}

// badRef: a reference in each context. If it is what makes the document bad,
// the parser reports an EntityError; so does the string extraction.
func (w *Worker) badRef(pl []byte) string {
	ctx, s := refContexts[pl[1]], string(pl[2:])
	d := ctx[0] + "&" + s + ctx[1]
	good := w.eng.ref.Parse([]byte(ctx[0]+"x"+ctx[1]), pl[0]&oNs != 0)
	if good.Verdict != ref.Accept {
		return ""
	}
	r := w.eng.ref.Parse([]byte(d), pl[0]&oNs != 0)
	isEntity := kindsOfErrors[6].is
	if r.Verdict == ref.Reject && !strings.Contains(s, "]]>") {
		o := runParser([]byte(d), false, 0, 0, pl[0])
		w.outcomes["reject"]++
		if o.accepted() || !isEntity(o.err) || reflect.TypeOf(o.err) != kindsOfErrors[6].exactly {
			return fmt.Sprintf("%s: %T %v, expected an EntityError", d, o.err, o.err)
		}
	}
	// the same as a token
	_, bad, claim := resolveRefs("&" + s)
	if !claim || !bad {
		return ""
	}
	for _, typ := range []int{ref.TText, ref.TVal} {
		doc := "<a>&" + s + "</a>"
		e := longs(1, nil)
		v := []int64{rec(ref.TDoc, 255, 0, 0), rec(ref.TStart, 0, 1, 1), rec(typ, 0, len(s)+1, 3)}
		n, err := navigation.NewVtdNav(1, 0, int32(len(doc)), 0, common.FormatUtf8, pl[0]&oNs != 0, []byte(doc), longs(1, v), e, e, e)
		if err != nil {
			return err.Error()
		}
		str, err := n.ToStringAtIndex(2)
		if !isEntity(err) {
			return fmt.Sprintf("string of the text &%s: %q, %T %v, expected an EntityError", s, str, err, err)
		}
	}
	return ""
}

const (
	libNilBytes = iota
	libNav
	libDirections
	libParser
	nLib
)

// libKinds: the kinds of errors for invalid arguments.
func (w *Worker) libKinds(pl []byte) string {
	arg := kindsOfErrors[0].is
	only := func(err error, kind int) string {
		for k := range kindsOfErrors[:9] {
			if kindsOfErrors[k].is(err) != (k == kind) {
				return fmt.Sprintf("%T (%v), expected a %s", err, err, kindsOfErrors[kind].name)
			}
		}
		return ""
	}
	_ = only
	switch pl[0] {
	case libNilBytes:
		b, err := buffer.NewUniByteBuffer(nil)
		if !arg(err) || b != nil {
			return fmt.Sprintf("byte buffer of nil: %v", err)
		}
		if b, err = buffer.NewUniByteBuffer([]byte{}); err != nil || b.GetSize() != 0 {
			return fmt.Sprintf("byte buffer of nothing: %v", err)
		}
		e := longs(1, nil)
		n, err := navigation.NewVtdNav(0, 0, 0, 0, common.FormatUtf8, false, nil, e, e, e, e)
		if !arg(err) || n != nil {
			return fmt.Sprintf("navigation of nil: %v", err)
		}
	case libNav:
		nav, _ := synthNav([]byte{0, 1, 1}, 7, 1)
		for _, i := range append([]int{-1, 100, 19, 20, 21}, extremes...) {
			for name, f := range map[string]func(int) error{
				"GetTokenType":       func(i int) error { _, err := nav.GetTokenType(i); return err },
				"GetTokenDepth":      func(i int) error { _, err := nav.GetTokenDepth(i); return err },
				"GetTokenOffset":     func(i int) error { _, err := nav.GetTokenOffset(i); return err },
				"GetTokenLength":     func(i int) error { _, err := nav.GetTokenLength(i); return err },
				"ToStringAtIndex":    func(i int) error { _, err := nav.ToStringAtIndex(i); return err },
				"ToRawStringAtIndex": func(i int) error { _, err := nav.ToRawStringAtIndex(i); return err },
			} {
				if i >= 0 && i < nav.GetVtdBufferSize() {
					continue
				}
				if err := f(i); !arg(err) {
					return fmt.Sprintf("%s(%d): %T %v", name, i, err, err)
				}
			}
		}
	case libDirections:
		nav, _ := synthNav([]byte{0, 1, 2, 3, 4, 1}, 0, 1)
		for _, first := range directions {
			if _, err := nav.ToElement(first); err != nil {
				return err.Error()
			}
			for _, d := range []navigation.Direction{-1, -2, 6, 7, 8, 100, math.MinInt64, math.MaxInt64, 1 << 32} {
				ok, err := nav.ToElement(d)
				if ok {
					return fmt.Sprintf("direction %d succeeds", d)
				}
				if s := only(err, 3); s != "" {
					return fmt.Sprintf("direction %d: %s", d, s)
				}
			}
		}
	case libParser:
		for _, o := range []parser.Option{parser.WithXmlDoc(nil), parser.WithXmlDoc([]byte{}), parser.WithXmlDocCustomOffset([]byte("<a/>"), -1, 4), parser.WithXmlDocCustomOffset([]byte("<a/>"), 0, 5), parser.WithXmlDocCustomOffset([]byte("<a/>"), 4, 1), parser.WithXmlDocCustomOffset([]byte("<a/>"), 0, 0), parser.WithXmlDocCustomOffset([]byte("<a/>"), 2, math.MaxInt64)} {
			p, err := parser.NewVtdParser(o)
			if p != nil {
				return "a parser for an invalid argument"
			}
			if s := only(err, 0); s != "" {
				return "parser: " + s
			}
		}
	}
	return ""
}

func checkC23(c *Ctx) {
	n := len(kindsOfErrors)
	depth := pick(c, 5, 6)
	c.Space("nestings", 10*n*n, func(w *Worker, i int) {
		var rec func(pl []byte)
		rec = func(pl []byte) {
			w.states++
			w.transitions++
			w.Do("kinds", pl)
			if len(pl) > depth {
				return
			}
			for k := 0; k < n; k++ {
				rec(append(append([]byte{}, pl...), byte(k)))
			}
		}
		root := []byte{byte(i % 10), byte(i / 10 % n)}
		if i/10/n == 0 {
			w.Do("kinds", root)
		}
		rec(append(root, byte(i/10/n)))
	})
	alpha := "amp;lt#x0osqugDF8]"
	na := len(alpha)
	depth = pick(c, 4, 5)
	c.Space("malformed references", na*na, func(w *Worker, i int) {
		var rec func(s string)
		rec = func(s string) {
			w.states++
			w.transitions++
			for k := range refContexts {
				w.Do("badref", append([]byte{byte(k&1) * oNs, byte(k)}, s...))
			}
			if len(s) < depth {
				for _, a := range alpha {
					rec(s + string(a))
				}
			}
		}
		if i < na {
			for k := range refContexts {
				w.Do("badref", append([]byte{0, byte(k)}, alpha[i]))
				w.Do("badref", []byte{0, byte(k)})
			}
		}
		rec(alpha[i/na:i/na+1] + alpha[i%na:i%na+1])
	})
	more := []string{"#0;", "#x0;", "#xD800;", "#xDFFF;", "#55296;", "#xFFFE;", "#xFFFF;", "#x110000;", "#1114112;", "#4294967296;", "#x100000041;", "#99999999999999999999;", "#xFFFFFFFFFFFFFFFFF;", "#x4G;", "#4A;", "#-1;", "# 1;", "#;", "#x;", "#X41;", "apos ;", "aposs;", "amp ;", "ampp;", "quo;", "quott;", "lt ", "gt\n;", "nbsp;", "AMP;", "Lt;", "x41;", "<", "\u00e9;", " ", ";", "&", "&amp;", "#x41", "#65 ;", "l t;"}
	c.Space("more malformed references", len(more), func(w *Worker, i int) {
		for k := range refContexts {
			for _, tail := range []string{"", ";", "x", "&lt;"} {
				w.states++
				w.Do("badref", append([]byte{0, byte(k)}, more[i]+tail...))
				w.Do("badref", append([]byte{oNs, byte(k)}, more[i]+tail...))
			}
		}
	})
	c.Space("invalid arguments", nLib, func(w *Worker, i int) {
		w.states++
		w.Do("libkinds", []byte{byte(i)})
	})
	c.Sample("ParseError around EntityError around a foreign error")
	c.Sample("<a b='&am;'/>")
}

// ---- C24: line numbers

var lineRE = regexp.MustCompile(`[0-9]+`)

// line: pl[0] options, prefix length, position, then prefix and document with
// the forbidden character at the position.
func (w *Worker) line(pl []byte) string {
	a, pos := int(binary.LittleEndian.Uint16(pl[1:])), int(binary.LittleEndian.Uint16(pl[3:]))
	d := pl[5:]
	tail := 0
	if a > 0 {
		tail = 4 // bytes behind the window
	}
	o := runParser(d, a > 0, a, len(d)-a-tail, pl[0])
	if o.accepted() {
		return "the document is accepted"
	}
	if o.newErr != nil {
		return o.newErr.Error()
	}
	var pe *erroring.ParseError
	if !errors.As(o.err, &pe) {
		w.outcomes[fmt.Sprintf("%T", o.err)]++
		if kindsOfErrors[7].is(o.err) && len(d)-tail <= a+pos+3 {
			return "" // cut off behind the character, too
		}
		return fmt.Sprintf("%T (%v) does not name the line", o.err, o.err)
	}
	want := 1 + strings.Count(string(d[a:a+pos]), "\n")
	w.outcomes["ParseError"]++
	got := lineRE.FindString(pe.LineNumber)
	if got != strconv.Itoa(want) {
		return fmt.Sprintf("line %q (%v), expected %d", pe.LineNumber, pe, want)
	}
	return ""
}

var lineDocs = []string{
	"<?xml version=\"1.0\"\n encoding='utf-8'\n\n standalone=\"yes\" ?>\n<!--\n c\n-->\n<?pi\n v\n?>\n<r\n a\n =\n \"v\n w\"\n\n b='&amp;\n&#10;'>\n t\u00e9\n\n<x\n/>\n<![CDATA[\n d\n]]>\n&lt;\n<y>\n</y\n>\n<!--\n\n--> u\n<?q\n?></r\n>\n\n<!-- e\n -->\n<?z\n w?>\n\n",
	"\n<a\n><b\n>\n</b></a>\n",
	"<!DOCTYPE a\n[\n]\n>\n<a>\r\n\r\n</a>\n",
	"\xEF\xBB\xBF<r>\n\u20ac\n<\u00e9\n \u00ef=\n'\U0001F600\n'\n/>\n</r>\n",
	"<r xmlns='u\n'\n xmlns:p=\"v\">\n<p:a\n p:b\n=\"1\"\n b='2'/>\n</r>\n",
	"<?xml version='1.0' encoding='us-ascii'?>\n<r\n a='b\n'\n>t\n<!--\nc--><?p\n q\n?>\n</r>\n",
	"<a><b><c><d><e><f>\n</f></e>\n</d></c>\n</b>\n]]\n]\n</a>",
	"<a/>",
	"<a/>\n<!--x\n-->\n<?y?>\n",
}

func checkC24(c *Ctx) {
	type pos struct{ d, k int }
	var ps []pos
	for di, d := range lineDocs {
		for k := 0; k <= len(d); k++ {
			if k < 3 && d[0] == 0xEF || k < len(d) && k > 0 && d[k]&0xC0 == 0x80 {
				continue
			}
			ps = append(ps, pos{di, k})
		}
	}
	prefixes := []string{"", "\n", "x", "\n\n\n", "<a>\n\u00e9", strings.Repeat("\n", 300), "<a/>\r\n"}
	bad := []string{"\x00", "\uFFFE", "\uFFFF"}
	c.Space("forbidden characters", len(ps), func(w *Worker, i int) {
		d, k := lineDocs[ps[i].d], ps[i].k
		if k == 0 || inReference(d, k) {
			return // encoding detection; malformed references
		}
		us := strings.Contains(d, "us-ascii") && k > 28
		_, size := utf8.DecodeRuneInString(d[k:])
		for _, b := range bad {
			if us && b != "\x00" {
				continue // not a character of the encoding
			}
			for _, x := range []string{d[:k] + b + d[k:], d[:k] + b + d[k+size:], d[:k] + b} {
				for _, p := range prefixes {
					w.states++
					w.transitions++
					for _, o := range allOpts {
						pl := []byte{o}
						pl = binary.LittleEndian.AppendUint16(pl, uint16(len(p)))
						pl = binary.LittleEndian.AppendUint16(pl, uint16(k))
						pl = append(append(pl, p...), x...)
						if p != "" {
							pl = append(pl, "\n<>\n"...)
						}
						w.Do("line", pl)
					}
				}
			}
		}
		if i%100 == 9 {
			c.Sample(d[:k] + "\\0" + d[k:])
		}
	})
	// characters that are legal elsewhere
	c.Space("misplaced characters", len(ps), func(w *Worker, i int) {
		d, k := lineDocs[ps[i].d], ps[i].k
		if k == 0 || inReference(d, k) {
			return
		}
		_, size := utf8.DecodeRuneInString(d[k:])
		for ch := byte(32); ch < 127; ch++ {
			for _, o := range allOpts {
				r := w.eng.ref.Parse([]byte(d[:k]+string(rune(ch))), o&oNs != 0)
				if ch == 0x26 || r.EOF || r.Verdict != ref.Reject { // an ampersand starts a reference
					continue
				}
				for _, x := range []string{d[:k] + string(rune(ch)) + d[k:], d[:k] + string(rune(ch)) + d[k+size:]} {
					for _, p := range []string{"", "\n\n\n"} {
						w.states++
						w.transitions++
						pl := []byte{o}
						pl = binary.LittleEndian.AppendUint16(pl, uint16(len(p)))
						pl = binary.LittleEndian.AppendUint16(pl, uint16(k))
						pl = append(append(pl, p...), x...)
						if p != "" {
							pl = append(pl, "\n<>\n"...)
						}
						w.Do("line", pl)
					}
				}
			}
		}
	})
	// long documents: every line around the limits of number formats and pages
	var ns []int
	for _, n := range []int{1, 9, 10, 99, 100, 127, 128, 255, 256, 257, 999, 1000, 4095, 4096, 32767, 32768, 60000, 65535, 65536, 65537, 1 << 17, 1 << 18, 1 << 20, 1<<20 + 2} {
		ns = append(ns, n-1, n)
	}
	if c.thorough {
		ns = append(ns, 1<<24, 1<<24+1, 1<<26+1)
	}
	c.Space("many lines", len(ns), func(w *Worker, i int) {
		for kind := byte(0); kind < 8; kind++ {
			if kind > 3 && kind < 6 && ns[i] > 70000 {
				continue
			}
			w.states++
			w.Do("longline", append([]byte{kind}, binary.LittleEndian.AppendUint32(nil, uint32(ns[i]))...))
		}
	})
}

// inReference reports whether position k of d is inside a reference.
func inReference(d string, k int) bool {
	for j := k - 1; j >= 0 && d[j] != ';'; j-- {
		if d[j] == '&' {
			return true
		}
		if d[j] == '\n' || d[j] == '<' {
			break
		}
	}
	return false
}

// longLine builds a document with many lines before the forbidden character.
func (w *Worker) longLine(pl []byte) string {
	n := int(binary.LittleEndian.Uint32(pl[1:]))
	nl := strings.Repeat("\n", n)
	var d string
	switch pl[0] {
	case 0:
		d = "<a>" + nl + "\x00</a>"
	case 1:
		d = nl + "<a>\uFFFE</a>"
	case 2:
		d = "<a b='" + nl + "\uFFFF'/>"
	case 3:
		d = "<!--" + nl + "--><a/>\x00"
	case 4:
		d = "<a>" + strings.Repeat("<b/>x\n", n) + "\x00</a>"
	case 5:
		d = "<a>" + strings.Repeat("<b>\n</b>", n) + "<\x00/></a>"
	}
	o := runParser([]byte(d), false, 0, 0, 0)
	switch pl[0] {
	case 6: // a window behind many lines
		in := "<a>\n<b/>\x00</a>"
		o = runParser([]byte(nl+in+nl), true, n, len(in), 0)
		n = 1
	case 7: // a long line behind many lines
		in := "<a>" + nl + strings.Repeat(" ", n) + "<\x00/></a>"
		o = runParser([]byte(in), false, 0, 0, oNs)
	}
	var pe *erroring.ParseError
	if o.newErr != nil || !errors.As(o.err, &pe) {
		return fmt.Sprintf("%v %T %v", o.newErr, o.err, o.err)
	}
	if got := lineRE.FindString(pe.LineNumber); got != strconv.Itoa(n+1) {
		return fmt.Sprintf("line %q, expected %d", pe.LineNumber, n+1)
	}
	return ""
}

// ---- C25: modifier and pilot

// fakeNav has any encoding and size.
type fakeNav struct {
	*navigation.VtdNav
	enc  common.FormatEncoding
	size int
}

func (f fakeNav) GetEncoding() common.FormatEncoding { return f.enc }
func (f fakeNav) GetVtdBufferSize() int              { return f.size }

func (w *Worker) modifier(pl []byte) string {
	enc, size := common.FormatEncoding(int64(binary.LittleEndian.Uint64(pl[1:]))), int(int64(binary.LittleEndian.Uint64(pl[9:])))
	var nav navigation.Nav = fakeNav{enc: enc, size: size}
	if pl[0] == 1 { // a real one
		e := longs(1, nil)
		v := make([]int64, size)
		n, err := navigation.NewVtdNav(1, 0, 4, 0, enc, true, []byte("<a/>"), longs(6, v), e, e, e)
		if err != nil {
			return err.Error()
		}
		nav = n
	}
	m, err := modifier.NewXmlModifier(modifier.WithNavigation(nav))
	if enc == common.FormatAscii || enc == common.FormatUtf8 {
		if err != nil || m == nil {
			return fmt.Sprintf("encoding %d, %d tokens: %v", enc, size, err)
		}
	} else if !kindsOfErrors[8].is(err) || m != nil {
		return fmt.Sprintf("encoding %d, %d tokens: modifier %v, error %T %v", enc, size, m != nil, err, err)
	}
	if p, err := pilot.NewAutoPilot(pilot.WithNavigation(nav)); err != nil || p == nil {
		return fmt.Sprintf("pilot: %v", err)
	}
	return ""
}

// optionLists: 0 ASCII, 1 UTF-8, 2 an unsupported encoding, 3 nothing, 4 and
// 5 caching (pilot only).
func (w *Worker) optionLists(pl []byte) string {
	navs := []navigation.Nav{fakeNav{enc: common.FormatAscii, size: 3}, fakeNav{enc: common.FormatUtf8, size: 300}, fakeNav{enc: common.FormatUtf16BE, size: 3}, nil}
	var mo []modifier.Option
	var po []pilot.Option
	wantM, wantP := -1, -1
	for _, o := range pl {
		if o >= 4 {
			po = append(po, pilot.WithCaching(o == 5))
			continue
		}
		mo = append(mo, modifier.WithNavigation(navs[o]))
		po = append(po, pilot.WithNavigation(navs[o]))
		if wantM < 0 && o == 2 {
			wantM = 8
		}
		if wantM < 0 && o == 3 {
			wantM = 0
		}
		if wantP < 0 && o == 3 {
			wantP = 0
		}
	}
	m, merr := modifier.NewXmlModifier(mo...)
	p, perr := pilot.NewAutoPilot(po...)
	for _, x := range []struct {
		name  string
		err   error
		isNil bool
		want  int
	}{{"modifier", merr, m == nil, wantM}, {"pilot", perr, p == nil, wantP}} {
		if (x.err == nil) != (x.want < 0) || x.isNil != (x.want >= 0) {
			return fmt.Sprintf("%s for options %v: nil %v, error %v", x.name, pl, x.isNil, x.err)
		}
		if x.want >= 0 && !kindsOfErrors[x.want].is(x.err) {
			return fmt.Sprintf("%s for options %v: %T, expected %s", x.name, pl, x.err, kindsOfErrors[x.want].name)
		}
	}
	return ""
}

func checkC25(c *Ctx) {
	encs := []int{math.MinInt64, math.MaxInt64, math.MinInt32, math.MaxInt32, 1 << 32, 1<<32 + 1, 1<<32 + 2, 256, 257, 258, 259}
	for e := -5; e <= 60; e++ {
		encs = append(encs, e)
	}
	sizes := []int{-1, 0, 1, 2, 100}
	for k := uint(8); k <= uint(pick(c, 21, 23)); k++ {
		sizes = append(sizes, 1<<k-1, 1<<k, 1<<k+1)
	}
	if c.thorough {
		sizes = append(sizes, 1<<25-1, 1<<25, 1<<27-1)
	}
	put := func(kind byte, e, s int) []byte {
		pl := binary.LittleEndian.AppendUint64([]byte{kind}, uint64(int64(e)))
		return binary.LittleEndian.AppendUint64(pl, uint64(int64(s)))
	}
	c.Space("encodings", len(encs), func(w *Worker, i int) {
		for _, s := range sizes {
			if s > 5000 && encs[i] != int(common.FormatAscii) && encs[i] != int(common.FormatUtf8) && encs[i] != int(common.FormatUtf16LE) && encs[i] != int(common.FormatIso88591) {
				continue
			}
			w.states++
			w.transitions++
			w.Do("modifier", put(0, encs[i], s))
		}
		for _, s := range []int{0, 1, 2, 63, 64, 65, 255, 256, 511, 512} {
			w.states++
			w.Do("modifier", put(1, encs[i], s))
		}
		c.Sample(fmt.Sprintf("encoding %d", encs[i]))
	})
	c.Space("option lists", 7*7*7, func(w *Worker, i int) {
		var l []byte
		for _, o := range []int{i % 7, i / 7 % 7, i / 49} {
			if o > 0 {
				l = append(l, byte(o-1))
			}
		}
		w.states++
		w.transitions += int64(len(l))
		w.Do("options2", l)
	})
}
