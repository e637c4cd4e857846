package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"strings"
	"unicode/utf8"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/buffer"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/modifier"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/parser"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/pilot"
)

// asKinds are the kinds errors.As finds
func asKinds(e error) map[int]bool {
	m := map[int]bool{}
	var (
		a *erroring.InvalidArgumentError
		b *erroring.InternalError
		p *erroring.ParseError
		n *erroring.NavigationError
		x *erroring.EncodingError
		d *erroring.DecodingError
		t *erroring.EntityError
		f *erroring.EOFError
		o *erroring.ModifyError
	)
	m[kInvalidArg] = errors.As(e, &a)
	m[kInternal] = errors.As(e, &b)
	m[kParse] = errors.As(e, &p)
	m[kNav] = errors.As(e, &n)
	m[kEncoding] = errors.As(e, &x)
	m[kDecoding] = errors.As(e, &d)
	m[kEntity] = errors.As(e, &t)
	m[kEOF] = errors.As(e, &f)
	m[kModify] = errors.As(e, &o)
	return m
}

func lineAt(d []byte, pos int) int {
	if pos > len(d) {
		pos = len(d)
	}
	return 1 + bytes.Count(d[:pos], []byte("\n"))
}

// wantKind: which kind of error a rejected document has to give; a string names what was expected
func kindsFor(doc []byte, ns bool, ref *Ref, as map[int]bool) (ok bool, want string) {
	if ns && as[kParse] && ref.Markup <= ref.Pos && ref.Pos <= len(doc) && bytes.Contains(doc[ref.Markup:ref.Pos], []byte("xmlns")) {
		return true, "" // a namespace rule may be violated earlier in the tag
	}
	switch ref.Class {
	case "reference":
		e := ref.Pos
		for e < len(doc) && doc[e] != ';' {
			e++
		}
		if !utf8.Valid(doc[ref.Pos:e]) || ref.Ascii && !isASCII(doc[ref.Pos:e]) {
			return as[kEntity] || as[kParse], "an entity error"
		}
		return as[kEntity], "an entity error"
	case "encoding":
		return true, ""
	case "eof":
		return as[kEOF] || as[kParse] || as[kEntity], "an end-of-file error"
	case "tag mismatch":
		// the end of the document may come before the mismatch is looked at
		long := 0
		for _, n := range ref.Nodes {
			if l := n.NameEnd - n.Open; l > long {
				long = l
			}
		}
		if len(doc)-ref.Markup <= long+3 {
			return as[kEOF] || as[kParse], "a parse error"
		}
		return as[kParse], "a parse error"
	case "prolog text", "text after root":
		if ref.Pos < len(doc) && doc[ref.Pos] == '&' {
			return as[kParse] || as[kEntity] || as[kEOF], "a parse error"
		}
		if ref.Pos == 0 && (doc[0] == 0 || doc[0] >= 0xEF) {
			return as[kParse] || as[kEncoding], "a parse error"
		}
	}
	return as[kParse], "a parse error"
}

var lineTemplates = []struct{ pre, post, what string }{
	{"<a>", "</a>", "text"},
	{"<a><b/>", "<c/></a>", "text"},
	{"<a>&amp;", "]</a>", "text"},
	{"<a b='", "'/>", "attribute value"},
	{"<a\nb\n=\n\"x", "\">t</a>", "attribute value"},
	{"<a><!--", "--></a>", "comment"},
	{"<!--", "--><a/>", "comment"},
	{"<a/><!--", "-->", "comment"},
}

func init() {
	register(&Check{
		ID: "C17", Title: "failures are reported with the documented error types and positions", Cases: tiers(6000, 80000), GC: 400,
		Need: map[string]int64{"rejections judged": 80000, "entity errors": 2000, "end-of-file errors": 30000, "encoding errors": 3000, "line numbers judged": 40000, "exact lines judged": 20000, "constructed errors": 20000, "navigation errors": 2000, "invalid-argument errors": 5000},
		Rule: "edited, truncated and soup documents with the kind of violation and its place from the reference reader; illegal characters on random lines; truncations inside known tokens; declared encodings without support; illegal arguments and moves; constructed errors with random fields and causes; distinct by document",
		Tech: "oracle: error type and line number of every failure judged against the violation found by a reference reader",
		Run: func(c *Ctx) {
			r := c.R
			judge := func(doc []byte, o Opts, kind string) {
				base := doc
				if o.Win {
					base = doc[o.Off : o.Off+o.N]
				}
				ref := RefParse(base, o.Ns)
				if ref.V != Reject || ref.Soft {
					return
				}
				c.Doc(doc, o)
				res := Parse(doc, o)
				if res.Panic != nil || res.Err == nil {
					c.Count("not refused (other property)", 1)
					return
				}
				c.Eval(1)
				c.Count("rejections judged", 1)
				c.Distinct(hashBytes(base))
				c.Detail("document", show(base)).Detail("options", o.String()).Detail("kind", kind)
				if kindTop(res.Err) == kOther {
					c.Fail("the failure (%s) is of type %T, not one of the library's types", ref.Class, res.Err)
				}
				as := asKinds(res.Err)
				of := 0 // types matched, apart from the one that wraps
				for k, is := range as {
					if is && k != kInternal {
						of++
					}
				}
				if of > 1 {
					c.Fail("violation %q at byte %d is reported as %d of the library's types at once: %s", ref.Class, ref.Pos, of, errText(res.Err))
				}
				if ok, want := kindsFor(base, o.Ns, ref, as); !ok {
					small := shrink(base, func(d []byte) bool {
						g := RefParse(d, o.Ns)
						if g.V != Reject || g.Soft || g.Class != ref.Class {
							return false
						}
						x := Parse(d, Opts{Ns: o.Ns})
						if x.Err == nil || x.Panic != nil {
							return false
						}
						ok, _ := kindsFor(d, o.Ns, g, asKinds(x.Err))
						return !ok
					})
					c.Detail("smaller document", show(small)).Fail("violation %q at byte %d is reported as %s, should be %s", ref.Class, ref.Pos, errText(res.Err), want)
				}
				for k, name := range map[int]string{kEntity: "entity errors", kEOF: "end-of-file errors", kEncoding: "encoding errors", kParse: "parse errors"} {
					if as[k] {
						c.Count(name, 1)
					}
				}
				if as[kNav] || as[kModify] || as[kInvalidArg] || as[kDecoding] {
					c.Fail("violation %q is reported as %s", ref.Class, errText(res.Err))
				}
				if l := errLine(res.Err); l != 0 {
					c.Count("line numbers judged", 1)
					lo, hi := lineAt(base, ref.Markup), lastLine(base, ref)
					if l < lo || l > hi {
						c.Fail("violation %q at byte %d (line %d): the error names line %d, the markup starts on line %d and the violation can be told by line %d: %s", ref.Class, ref.Pos, lineAt(base, ref.Pos), l, lo, hi, errText(res.Err))
					}
				}
			}
			switch c.Kind(8) {
			case 0, 1, 2, 3: // everything
				s := &Source{r, 12}
				for i := 0; i < 40; i++ {
					d, k := s.Next()
					o := opts(r.P(1, 2), r)
					if r.P(1, 5) {
						pre := []byte(r.Pick("", "\n\n\n", "<a>\n", "x\r\n"))
						n := len(d)
						d = append(append(append([]byte{}, pre...), d...), []byte("\n\n</a>")...)
						o.Win, o.Off, o.N = true, len(pre), n
					} else if r.P(1, 5) {
						d = far(r, d, &o)
					}
					judge(d, o, k)
				}
			case 4: // truncations: end-of-file errors inside tokens
				for i := 0; i < 4; i++ {
					st := randStyle(r, 8)
					st.LongName, st.ManyAttrs, st.ManyDecls = 0, 0, 0
					doc := GenStyle(r, st)
					amp, huge := r.P(1, 4), false
					if r.P(1, 60) {
						r.huge = true
						if x := ampHuge[r.N(len(ampHuge))](r, doc); len(x) > 0 {
							doc, huge = x, true
						}
						r.huge = false
					} else if amp {
						if doc = amplify(r, doc); r.P(1, 3) {
							doc = longItems(r)
						} else if r.P(1, 2) {
							doc = gridDoc(r, r.N(gridDocs()))
						}
					}
					if !huge && (len(doc) > 3000 && !amp || len(doc) > 60000) {
						amp = false
						doc = []byte("<?p data?><!--c--><a b='some value'>text &amp; more<c/>tail<![CDATA[some data]]><?p some data?></a>")
					}
					ref := RefParse(doc, false)
					if ref.V != Accept || ref.Soft {
						continue
					}
					// cut anywhere: the reference reader says what is wrong then
					some := 150
					if len(doc) > 60000 {
						some = 8
					}
					for k := 1; k < len(doc); k++ {
						if c.R.P(some, len(doc)+some) || strings.IndexByte("<!?/[=", doc[k-1]) >= 0 && c.R.P(2*some, len(doc)+2*some) {
							judge(doc[:k:k], opts(r.P(1, 2), r), "cut")
							c.Count("documents cut anywhere", 1)
						}
					}
					inside := make([]byte, len(doc)+1)
					for _, t := range ref.Toks[1:] {
						switch t.Type {
						case tText, tVal, tComm, tPiV, tCdata, tStart, tAttr, tNs:
							n := t.Len
							switch t.Type { // the end is not complete before its last character
							case tComm, tCdata:
								n += 2
							case tPiV:
								if n > 0 {
									n++
								}
							}
							for k := 1; k <= n; k++ {
								if t.Off+k <= len(doc) {
									inside[t.Off+k] = byte(t.Type + 1)
								}
							}
						}
					}
					for k := 1; k < len(doc); k++ {
						if inside[k] == 0 {
							continue
						}
						if (amp || huge) && len(doc) > 1500 && !r.P(5*some, len(doc)) {
							continue
						}
						if doc[k]&0xC0 == 0x80 { // cuts a character
							continue
						}
						tail := doc[:k]
						if len(tail) > 14 {
							tail = tail[len(tail)-14:]
						}
						if inside[k] != tComm+1 && inside[k] != tCdata+1 && inside[k] != tPiV+1 && bytes.ContainsAny(tail, "&") {
							continue // a cut keyword or reference
						}
						if i := bytes.LastIndexByte(doc[:k], '&'); i >= 0 && !bytes.ContainsAny(doc[i:k], ";") && (inside[k] == tText+1 || inside[k] == tVal+1) {
							continue
						}
						d := append([]byte{}, doc[:k]...)
						res := Parse(d, Opts{Lc: []int{0, 3, 5}[r.N(3)]})
						c.Eval(1)
						c.Count("rejections judged", 1)
						if res.Panic != nil || res.Err == nil {
							continue
						}
						if as := asKinds(res.Err); !as[kEOF] {
							c.Detail("document", show(d)).Fail("the document ends inside a token of type %d, reported as %s, should be an end-of-file error", inside[k]-1, errText(res.Err))
						}
						c.Count("end-of-file errors", 1)
						c.Distinct(hashBytes(d))
					}
				}
			case 5: // exact lines of illegal characters
				for i := 0; i < 60; i++ {
					t := lineTemplates[r.N(len(lineTemplates))]
					fill := func() string {
						var b strings.Builder
						n := r.N(12)
						if r.P(1, 60) {
							n = someLen(r, 6000)
						}
						for ; n > 0; n-- {
							b.WriteString(r.Pick("x", "\n", "\n", "\r\n", "é", " ", "中\n", "abc"))
						}
						if r.P(1, 300) {
							b.WriteString(strings.Repeat("\n", r.In(60000, 70000)))
						}
						return b.String()
					}
					pre := ""
					if r.P(1, 2) {
						pre = "<?xml version='1.0'?>" + strings.Repeat("\n", r.N(4)) + "<!--" + fill() + "-->" + r.Pick("", "\n\n", "<?p\n?>")
					}
					f1 := fill()
					if t.what == "comment" || t.what == "text" {
						f1 = strings.Replace(f1, "-", "", -1)
					}
					head := pre + t.pre + f1
					bad := r.Pick("\x00", "\uffff", "\ufffe", "\x00", "\uffff")
					if t.what == "attribute value" && r.P(1, 3) {
						bad = "<"
					}
					doc := []byte(head + bad + fill() + t.post)
					o := Opts{Ns: r.P(1, 2), Lc: []int{0, 3, 5}[r.N(3)]}
					if r.P(1, 4) {
						p := r.Pick("\n", "<a>\n\n", "\r\n\n", "zz")
						n := len(doc)
						doc = []byte(p + string(doc) + "\n\n")
						o.Win, o.Off, o.N = true, len(p), n
					}
					c.Doc(doc, o)
					res := Parse(doc, o)
					c.Eval(1)
					c.Distinct(hashBytes(doc))
					if res.Err == nil || res.Panic != nil {
						continue
					}
					c.Detail("document", show(doc)).Detail("options", o.String())
					if !asKinds(res.Err)[kParse] {
						c.Fail("an illegal character in %s is reported as %s, should be a parse error", t.what, errText(res.Err))
					}
					want := lineAt([]byte(head), len(head))
					if l := errLine(res.Err); l != want {
						c.Fail("an illegal character in %s on line %d is reported on line %d: %s", t.what, want, l, errText(res.Err))
					}
					c.Count("exact lines judged", 1)
				}
			case 6: // encodings, arguments, moves
				for i := 0; i < 40; i++ {
					q := r.Pick("'", "\"")
					var n string
					switch r.N(3) {
					case 0:
						n = r.Pick("iso", "ISO") + "-8859-" + fmt.Sprint(r.In(1, 16))
					case 1:
						n = r.Pick("windows", "WINDOWS") + "-125" + fmt.Sprint(r.N(9))
					case 2:
						n = r.Pick("cp", "CP") + "125" + fmt.Sprint(r.N(9))
					}
					doc := []byte("<?xml version='1.0' encoding=" + q + n + q + "?><a>" + r.Pick("", "x", "<b/>") + "</a>")
					if strings.Contains(n, "-") && strings.ToUpper(n) != n && strings.ToLower(n) != n {
						continue
					}
					if r.P(1, 4) {
						doc = []byte(r.Pick("\xfe\xff\x00<\x00a\x00/\x00>", "\xff\xfe<\x00a\x00/\x00>\x00", "\xff\xfe", "\xfe\xff\x00<"))
					}
					res := Parse(doc, opts(r.P(1, 2), r))
					c.Eval(1)
					c.Distinct(hashBytes(doc))
					if res.Panic != nil || res.Err == nil {
						continue
					}
					if !asKinds(res.Err)[kEncoding] {
						c.Detail("document", show(doc)).Fail("an encoding that is not supported is reported as %s, should be an encoding error", errText(res.Err))
					}
					c.Count("encoding errors", 1)
				}
				doc, _ := GenDoc(r, 8)
				res := Parse(doc, opts(false, r))
				if !res.Ok {
					return
				}
				n := res.Nav.GetVtdBufferSize()
				for i := 0; i < 40; i++ {
					dir := navigation.Direction(extreme(r, 10))
					known := false
					for _, d := range dirs {
						known = known || d == dir
					}
					if !known {
						var err error
						var moved bool
						c.lib("ToElement", func() { moved, err = res.Nav.ToElement(dir) })
						if err == nil || moved || !asKinds(err)[kNav] {
							c.Fail("the move %d is reported as %v, %v, should be false and a navigation error", dir, moved, err)
						}
						c.Count("navigation errors", 1)
					}
					ix := extreme(r, n)
					if ix >= 0 && ix < n {
						continue
					}
					for k, f := range []func() error{
						func() error { _, e := res.Nav.GetTokenType(ix); return e },
						func() error { _, e := res.Nav.GetTokenOffset(ix); return e },
						func() error { _, e := res.Nav.GetTokenLength(ix); return e },
						func() error { _, e := res.Nav.GetTokenDepth(ix); return e },
						func() error { _, e := res.Nav.ToStringAtIndex(ix); return e },
						func() error { _, e := res.Nav.ToRawStringAtIndex(ix); return e },
					} {
						var err error
						c.lib("query", func() { err = f() })
						if err == nil || !asKinds(err)[kInvalidArg] {
							c.Fail("query %d with index %d of %d tokens is reported as %v, should be an invalid-argument error", k, ix, n, err)
						}
						c.Count("invalid-argument errors", 1)
						c.Eval(1)
					}
				}
			case 7: // constructed errors
				for i := 0; i < 60; i++ {
					msg := randMsg(r)
					var cause error
					switch r.N(6) {
					case 0:
						cause = io.ErrUnexpectedEOF
					case 1:
						cause = erroring.NewEOFError(randMsg(r))
					case 2:
						cause = fmt.Errorf("outer: %w", erroring.NewParseError(randMsg(r), "3", erroring.NewEntityError("z")))
					case 3:
						cause = erroring.NewNavigationError(randMsg(r), io.EOF)
					}
					var e error
					k := 0
					what := ""
					expCause := cause
					field, field2 := msg, ""
					get := func() (string, string) { return "", "" }
					c.lib("constructor of an error", func() {
						switch r.N(9) {
						case 0:
							p := randMsg(r)
							x := erroring.NewInvalidArgumentError(p, msg, cause)
							e, k, what, field2 = x, kInvalidArg, "NewInvalidArgumentError", p
							get = func() (string, string) { return x.Msg, x.Parameter }
							if !strings.Contains(x.Error(), p) {
								c.Fail("the message %q does not contain the parameter %q", x.Error(), p)
							}
						case 1:
							x := erroring.NewInternalError(msg, cause)
							e, k, what = x, kInternal, "NewInternalError"
							get = func() (string, string) { return msg, "" }
						case 2:
							l := randMsg(r)
							x := erroring.NewParseError(msg, l, cause)
							e, k, what, field2 = x, kParse, "NewParseError", l
							get = func() (string, string) { return x.Msg, x.LineNumber }
						case 3:
							x := erroring.NewNavigationError(msg, cause)
							e, k, what = error(x), kNav, "NewNavigationError"
							get = func() (string, string) { return x.Msg, "" }
						case 4:
							x := erroring.NewEncodingError(msg)
							e, k, what, expCause = x, kEncoding, "NewEncodingError", nil
							get = func() (string, string) { return x.Msg, "" }
						case 5:
							x := erroring.NewDecodingError(msg)
							e, k, what, expCause = x, kDecoding, "NewDecodingError", nil
							get = func() (string, string) { return x.Msg, "" }
						case 6:
							x := erroring.NewEntityError(msg)
							e, k, what, expCause = x, kEntity, "NewEntityError", nil
							get = func() (string, string) { return x.Msg, "" }
						case 7:
							x := erroring.NewEOFError(msg)
							e, k, what, expCause = x, kEOF, "NewEOFError", nil
							get = func() (string, string) { return x.Msg, "" }
						case 8:
							x := erroring.NewModifyError(msg)
							e, k, what, expCause = x, kModify, "NewModifyError", nil
							get = func() (string, string) { return x.Msg, "" }
						}
						if a, b := get(); a != field || b != field2 {
							c.Fail("%s(%q, %q): fields are %q, %q", what, msg, field2, a, b)
						}
						if kindTop(e) != k {
							c.Fail("%s gives a %T", what, e)
						}
						if !strings.Contains(e.Error(), msg) {
							c.Fail("%s(%q): message %q", what, msg, e.Error())
						}
						if u := errors.Unwrap(e); u != expCause {
							c.Fail("%s with cause %v: unwraps to %v", what, expCause, u)
						}
						w := fmt.Errorf("wrapped: %w", e)
						as, own := asKinds(w), map[int]bool{k: true}
						for x := expCause; x != nil; x = errors.Unwrap(x) {
							own[kindTop(x)] = true
						}
						for kk := kInvalidArg; kk <= kModify; kk++ {
							if as[kk] != own[kk] {
								c.Fail("%s with cause %v: errors.As for %s gives %v", what, expCause, kindNames[kk], as[kk])
							}
						}
						if !errors.Is(w, e) || expCause != nil && !errors.Is(w, expCause) {
							c.Fail("%s: errors.Is does not find the error or its cause", what)
						}
					})
					c.Count("constructed errors", 1)
					c.Eval(1)
				}
			}
			if c.Case%1000 == 0 {
				c.Sample("case %d", c.Case)
			}
		},
	})
}

func randMsg(r *Rng) string {
	if r.P(1, 6) {
		return ""
	}
	return r.Pick("a", "message", "%s %d %!", "line\nfeed", "é中", "x: y", "\x00", strings.Repeat("long ", 50)) + fmt.Sprint(r.N(1000))
}

// ---- life cycle ----

// navSize is a token count for a navigator made by hand: around every power of two
func navSize(c *Ctx) int {
	r := c.R
	if n := dictLen(r, 1<<20, 3); n > 0 {
		return n
	}
	if r.P(1, 3) {
		return []int{0, 1, 100, 255, 256, 511, 1000, 5000, 70000, 1 << 20}[r.N(10)]
	}
	k := r.In(0, 14)
	if r.P(1, 20) {
		k = r.In(15, 20)
	}
	if c.Case%50 == 3 && r.P(1, 10) {
		k = r.In(21, 30)
	}
	return 1<<k + r.In(-1, 1)
}

// fakeNav reports an encoding of choice
type fakeNav struct {
	navigation.Nav
	enc  common.FormatEncoding
	size int
}

func (f *fakeNav) GetEncoding() common.FormatEncoding { return f.enc }
func (f *fakeNav) GetVtdBufferSize() int              { return f.size }

func init() {
	register(&Check{
		ID: "C20", Title: "objects are usable exactly in their documented life cycle", Cases: tiers(16000, 160000), GC: 400,
		Need: map[string]int64{"parser arguments refused": 100000, "parser arguments accepted": 50000, "call sequences": 40000, "parsers with options given twice": 5000, "second parses refused": 20000, "navigators refused": 50000, "navigators given": 30000, "navigator arguments": 100000, "modifiers": 50000, "pilots": 10000, "repeated options": 20000, "modifiers refused": 20000},
		Rule: "windows with arguments at, around and far beyond their limits; random call sequences Parse/GetNav on accepted, rejected and truncated documents judged by a state machine; navigators, modifiers and pilots constructed with every combination of nil and valid arguments and every encoding; distinct by document, window and call sequence",
		Tech: "online monitor: a state machine of the life cycle and a table of argument domains judge every call",
		Run: func(c *Ctx) {
			r := c.R
			s := &Source{r, 3}
			doc, _ := s.Next()
			if r.P(1, 3) {
				doc = []byte("<a><b c='d'/>e</a>")
			}
			if r.P(1, 6) {
				doc = doc[:r.In(1, len(doc))]
			}
			ascii := false
			if r.P(1, 6) {
				doc, ascii = []byte("<?xml version='1.0' encoding='ascii'?><a/>"), true
			}
			_ = ascii
			n := len(doc)
			c.Detail("document", show(doc))
			// constructor
			for i := 0; i < 20; i++ {
				var d []byte = doc
				off, l := 0, n
				switch r.N(10) {
				case 0:
					d = nil
				case 1:
					d = []byte{}
				}
				if r.P(2, 3) {
					off = []int{0, 0, 1, n - 1, n, n + 1, -1, math.MinInt64, math.MaxInt64, math.MaxInt64 - n + 1, math.MaxInt32, -n, r.N(n + 1), r.N(n + 1)}[r.N(14)]
					l = []int{n, n, 1, 0, -1, n - 1, n + 1, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, -n, n - off, n - off + 1, r.N(n + 1)}[r.N(14)]
				}
				bad := d == nil || len(d) == 0 || off < 0 || l <= 0 || off > len(d) || l > len(d)-off
				var p *parser.VtdParser
				var err error
				opt := []parser.Option{parser.WithXmlDocCustomOffset(d, off, l)}
				if off == 0 && l == len(d) && r.P(1, 2) {
					opt[0] = parser.WithXmlDoc(d)
				}
				if d == nil && r.P(1, 2) {
					opt = nil
				}
				if r.P(1, 3) {
					opt = append(opt, parser.WithLcDepth(extreme(r, 5)), parser.WithBufferReuse(r.P(1, 2)), parser.WithNameSpaceAware(r.P(1, 2)))
				}
				c.lib(fmt.Sprintf("NewVtdParser(%d bytes, nil=%v, offset %d, length %d)", len(d), d == nil, off, l), func() { p, err = parser.NewVtdParser(opt...) })
				c.Eval(1)
				if bad {
					if err == nil || p != nil || !isKind(err, kInvalidArg) {
						c.Fail("NewVtdParser(%d bytes, nil=%v, offset %d, length %d) gives %v, %v; should be an invalid-argument error", len(d), d == nil, off, l, p != nil, err)
					}
					c.Count("parser arguments refused", 1)
					continue
				}
				if err != nil || p == nil {
					c.Fail("NewVtdParser(%d bytes, offset %d, length %d) gives %v", len(d), off, l, err)
				}
				c.Count("parser arguments accepted", 1)
			}
			// call sequences
			var good navigation.Nav
			again := "" // the error of a second parse
			for i := 0; i < 4; i++ {
				o := opts(r.P(1, 2), r)
				d := doc
				if r.P(1, 3) {
					d = d[:r.In(1, len(d))]
				}
				expect := Parse(d, o) // what a plain use gives
				if expect.Panic != nil {
					return
				}
				var p *parser.VtdParser
				var err error
				c.Detail("document", show(d)).Detail("options", o.String())
				list := o.list(d)
				twice := r.P(1, 3)
				if twice { // the later options count
					q := Opts{Ns: !o.Ns, Lc: 8 - o.Lc}
					if o.Reuse != 0 {
						q.Reuse = 3 - o.Reuse
					}
					first := []byte(r.Pick("<z/>", "<z", "\n<other a='b'>and longer than the other one</other>"))
					if r.P(1, 2) {
						q.Win, q.Off = true, r.N(len(first))
						q.N = r.In(1, len(first)-q.Off)
					}
					list = append(q.list(first), list...)
					c.Count("parsers with options given twice", 1)
				}
				c.lib("NewVtdParser", func() { p, err = parser.NewVtdParser(list...) })
				if err != nil {
					c.Fail("NewVtdParser: %v", err)
				}
				c.Count("call sequences", 1)
				calls := ""
				parsed, ok := false, false
				var navs []*navigation.VtdNav
				first := ""
				h := uint64(0)
				for k := r.In(2, 9); k > 0; k-- {
					c.Eval(1)
					if r.P(2, 5) {
						calls += "Parse "
						h = mix(h + 1)
						c.lib(calls, func() { err = p.Parse() })
						if parsed {
							if err == nil {
								c.Fail("%s: the second parse succeeds", calls)
							}
							if kindTop(err) != kInternal {
								c.Fail("%s: %T instead of an internal error", calls, err)
							}
							if again == "" {
								again = errText(err)
							} else if again != errText(err) {
								c.Fail("%s: %s, but another second parse gave %s", calls, errText(err), again)
							}
							c.Count("second parses refused", 1)
							continue
						}
						parsed = true
						ok = err == nil
						if ok != expect.Ok {
							c.Fail("%s: %v, but a plain parse gives %s", calls, err, expect.Outcome())
						}
						if !ok && errText(err) != errText(expect.Err) {
							c.Fail("%s: %s, but a plain parse gives %s", calls, errText(err), errText(expect.Err))
						}
					} else {
						calls += "GetNav "
						h = mix(h + 2)
						var nav *navigation.VtdNav
						c.lib(calls, func() { nav, err = p.GetNav() })
						if !ok {
							if err == nil || nav != nil {
								c.Fail("%s: gives a navigator (nil=%v, error %v), parsed=%v ok=%v", calls, nav == nil, err, parsed, ok)
							}
							if kindTop(err) == kOther {
								c.Fail("%s: %T", calls, err)
							}
							c.Count("navigators refused", 1)
							continue
						}
						if err != nil || nav == nil {
							c.Fail("%s: %v after a successful parse", calls, err)
						}
						c.Count("navigators given", 1)
						navs = append(navs, nav)
						var sn string
						if r.P(1, 3) || first == "" {
							sn, _ = snapshot(nav, c.Seed, 0, false, 10)
							if first == "" {
								first = sn
								want, _ := snapshot(expect.Nav, c.Seed, 0, false, 10)
								if sn != want {
									c.Fail("%s: the navigator shows something else than one of a plain parse: %s", calls, firstDiff(sn, want))
								}
							} else if sn != first {
								c.Fail("%s: a later navigator shows something else: %s", calls, firstDiff(sn, first))
							}
						}
						good = nav
					}
				}
				c.Distinct(hashBytes(d) ^ h)
				// earlier navigators still answer
				if len(navs) > 1 {
					a, _ := snapshot(navs[0], c.Seed+1, 0, false, 0)
					b, _ := snapshot(navs[len(navs)-1], c.Seed+1, 0, false, 0)
					if a != b {
						c.Fail("%s: two navigators of a document differ: %s", calls, firstDiff(a, b))
					}
				}
			}
			if c.Case%2000 == 0 {
				c.Sample("%s", show(doc))
			}
			// navigators by hand
			long := func() buffer.LongBuffer {
				b, err := buffer.NewFastLongBuffer(buffer.WithFastLongBufferPageSize(3))
				if err != nil {
					c.Fail("NewFastLongBuffer: %v", err)
				}
				return b
			}
			for i := 0; i < 10; i++ {
				nilAt := r.N(8) // 0..3: that buffer, 4: bytes, 5: depth, 6, 7: nothing
				bs := []buffer.LongBuffer{long(), long(), long(), long()}
				if nilAt < 4 {
					bs[nilAt] = nil
				}
				by := []byte("<a/>")
				if nilAt == 4 {
					by = nil
				}
				depth := int32(r.N(300))
				if r.P(1, 20) {
					depth = int32(someLen(r, 1<<18))
				}
				if nilAt == 5 {
					depth = []int32{-1, -2, math.MinInt32, -1000}[r.N(4)]
				}
				e := common.FormatEncoding(r.N(30))
				var nav *navigation.VtdNav
				var err error
				c.lib("NewVtdNav", func() {
					nav, err = navigation.NewVtdNav(0, 0, 4, depth, e, r.P(1, 2), by, bs[0], bs[1], bs[2], bs[3])
				})
				c.Eval(1)
				c.Count("navigator arguments", 1)
				if nilAt < 6 {
					if err == nil || nav != nil || !isKind(err, kInvalidArg) {
						c.Fail("NewVtdNav with bad argument %d (depth %d) gives %v, %v; should be an invalid-argument error", nilAt, depth, nav != nil, err)
					}
					continue
				}
				if err != nil || nav == nil {
					c.Fail("NewVtdNav(depth %d, encoding %d): %v", depth, e, err)
				}
				c.lib("questions to a navigator made by hand", func() {
					if i, err := nav.GetCurrentIndex(); i != 0 || err != nil {
						c.Fail("a new navigator of depth %d is at %d, %v", depth, i, err)
					}
					if n := nav.GetVtdBufferSize(); n != 0 {
						c.Fail("a navigator without tokens has %d", n)
					}
					if ok, err := nav.ToElement(navigation.Parent); ok || err != nil {
						c.Fail("the document of a new navigator of depth %d has a parent: %v, %v", depth, ok, err)
					}
					for d := navigation.Root; d <= navigation.PrevSibling; d++ {
						nav.ToElement(d)
						nav.GetCurrentIndex()
					}
					if nav.GetEncoding() != e {
						c.Fail("navigator made for encoding %d reports %d", e, nav.GetEncoding())
					}
				})
				// modifiers of it
				var m *modifier.XmlModifier
				c.lib("NewXmlModifier", func() { m, err = modifier.NewXmlModifier(modifier.WithNavigation(nav)) })
				c.modifier(m, err, e, "a navigator made by hand")
			}
			for i := 0; i < 10; i++ {
				var nav navigation.Nav
				e := common.FormatUtf8
				switch k := r.N(4); {
				case k == 0:
				case k == 1 && good != nil:
					nav = good
					c.lib("GetEncoding", func() { e = good.GetEncoding() })
				default:
					e = common.FormatEncoding(r.N(32) - 1)
					nav = &fakeNav{enc: e, size: navSize(c)}
				}
				var m *modifier.XmlModifier
				var err error
				c.lib("NewXmlModifier", func() { m, err = modifier.NewXmlModifier(modifier.WithNavigation(nav)) })
				c.Eval(1)
				if nav == nil {
					if err == nil || m != nil || !isKind(err, kInvalidArg) {
						c.Fail("NewXmlModifier with a nil navigator gives %v, %v", m != nil, err)
					}
					c.Count("modifiers refused", 1)
				} else {
					c.modifier(m, err, e, "a navigator")
				}
				var ap *pilot.AutoPilot
				c.lib("NewAutoPilot", func() {
					ap, err = pilot.NewAutoPilot(pilot.WithNavigation(nav), pilot.WithCaching(r.P(1, 2)))
				})
				c.Count("pilots", 1)
				if nav == nil {
					if err == nil || ap != nil || !isKind(err, kInvalidArg) {
						c.Fail("NewAutoPilot with a nil navigator gives %v, %v", ap != nil, err)
					}
				} else if err != nil || ap == nil {
					c.Fail("NewAutoPilot: %v", err)
				}
			}
			// every option counts, also behind one of the same kind
			c.lib("repeated options", func() {
				var none navigation.Nav
				var nav navigation.Nav = &fakeNav{enc: common.FormatUtf8, size: 10}
				if good != nil && r.P(1, 2) {
					nav = good
				}
				var other navigation.Nav = &fakeNav{enc: common.FormatIso88591, size: 10}
				if m, err := modifier.NewXmlModifier(modifier.WithNavigation(nav), modifier.WithNavigation(none)); err == nil || m != nil || !isKind(err, kInvalidArg) {
					c.Fail("NewXmlModifier with a navigator and then a nil one gives %v, %v", m != nil, err)
				}
				if m, err := modifier.NewXmlModifier(modifier.WithNavigation(nav), modifier.WithNavigation(other)); err == nil || m != nil || !isKind(err, kModify) {
					c.Fail("NewXmlModifier with a navigator and then one of another encoding gives %v, %v", m != nil, err)
				}
				if m, err := modifier.NewXmlModifier(modifier.WithNavigation(nav), modifier.WithNavigation(nav)); err != nil || m == nil {
					c.Fail("NewXmlModifier with a navigator given twice: %v", err)
				}
				if m, err := pilot.NewAutoPilot(pilot.WithNavigation(nav), pilot.WithNavigation(none)); err == nil || m != nil || !isKind(err, kInvalidArg) {
					c.Fail("NewAutoPilot with a navigator and then a nil one gives %v, %v", m != nil, err)
				}
				if m, err := pilot.NewAutoPilot(pilot.WithCaching(false), pilot.WithCaching(true), pilot.WithNavigation(nav), pilot.WithNavigation(other)); err != nil || m == nil {
					c.Fail("NewAutoPilot with options given twice: %v", err)
				}
				if p, err := parser.NewVtdParser(parser.WithXmlDoc([]byte("<a/>")), parser.WithXmlDoc(nil)); err == nil || p != nil || !isKind(err, kInvalidArg) {
					c.Fail("NewVtdParser with a document and then a nil one gives %v, %v", p != nil, err)
				}
				if p, err := parser.NewVtdParser(parser.WithXmlDoc([]byte("<a/>")), parser.WithXmlDocCustomOffset([]byte("<a/>"), 2, 3)); err == nil || p != nil || !isKind(err, kInvalidArg) {
					c.Fail("NewVtdParser with a document and then an illegal window gives %v, %v", p != nil, err)
				}
				c.Count("repeated options", 7)
			})
			c.lib("constructors without options", func() {
				if m, err := modifier.NewXmlModifier(); err != nil || m == nil {
					c.Fail("NewXmlModifier(): %v", err)
				}
				if m, err := pilot.NewAutoPilot(); err != nil || m == nil {
					c.Fail("NewAutoPilot(): %v", err)
				}
				if p, err := parser.NewVtdParser(); err == nil || p != nil || !isKind(err, kInvalidArg) {
					c.Fail("NewVtdParser() without a document gives %v, %v", p != nil, err)
				}
				if b, err := buffer.NewUniByteBuffer(nil); err == nil || b != nil || !isKind(err, kInvalidArg) {
					c.Fail("NewUniByteBuffer(nil) gives %v, %v", b != nil, err)
				}
			})
		},
	})
}

func (c *Ctx) modifier(m *modifier.XmlModifier, err error, e common.FormatEncoding, what string) {
	c.Count("modifiers", 1)
	if e == common.FormatAscii || e == common.FormatUtf8 {
		if err != nil || m == nil {
			c.Fail("NewXmlModifier for %s of encoding %d: %v", what, e, err)
		}
		return
	}
	if err == nil || m != nil || !isKind(err, kModify) {
		c.Fail("NewXmlModifier for %s of encoding %d gives %v, %v; should be a modify error", what, e, m != nil, err)
	}
	c.Count("modifiers refused", 1)
}

// lastLine is the last line the error may name: that of the offending
// character for most violations, that of the end of the markup for what is
// decided there
func lastLine(d []byte, ref *Ref) int {
	i := ref.Pos
	switch ref.Class {
	case "char", "name", "quote", "attribute", "< in attribute value", "reference", "]]> in text", "prolog text", "text after root", "stray end tag", "content after root":
	case "eof":
		return lineAt(d, len(d))
	default:
		q := byte(0)
		for i = ref.Markup; i < len(d); i++ {
			if q != 0 {
				if d[i] == q {
					q = 0
				}
			} else if d[i] == '"' || d[i] == '\'' {
				q = d[i]
			} else if d[i] == '>' && i >= ref.Pos {
				break
			}
		}
		i = max(i, ref.Markup+12)        // "<!DOCTYPE"
		if ref.Class == "tag mismatch" { // as many bytes as the open name has are looked at
			for _, n := range ref.Nodes {
				i = max(i, ref.Markup+3+n.NameEnd-n.Open)
			}
		}
	}
	for i < len(d) && (d[i] == ' ' || d[i] == '\n' || d[i] == '\t' || d[i] == '\r') {
		i++
	}
	return lineAt(d, i+1)
}
