package main

import (
	"errors"
	"fmt"
	"regexp"
	"runtime/debug"
	"strconv"
	"strings"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/parser"
)

var _ = common.FormatAscii

// Opts are the options of one parse
type Opts struct {
	Ns     bool
	Lc     int // 0: not given
	Reuse  int // 0: not given, 1 on, 2 off
	Win    bool
	Off, N int // window, with Win
	Order  int // order in which options are given
}

func (o Opts) String() string {
	s := fmt.Sprintf("ns=%v lc=%d", o.Ns, o.Lc)
	if o.Reuse != 0 {
		s += fmt.Sprintf(" reuse=%v", o.Reuse == 1)
	}
	if o.Win {
		s += fmt.Sprintf(" window=%d+%d", o.Off, o.N)
	}
	return s
}

func (o Opts) list(doc []byte) []parser.Option {
	var l []parser.Option
	if o.Win {
		l = append(l, parser.WithXmlDocCustomOffset(doc, o.Off, o.N))
	} else {
		l = append(l, parser.WithXmlDoc(doc))
	}
	l = append(l, parser.WithNameSpaceAware(o.Ns))
	if o.Lc != 0 {
		l = append(l, parser.WithLcDepth(o.Lc))
	}
	if o.Reuse != 0 {
		l = append(l, parser.WithBufferReuse(o.Reuse == 1))
	}
	if o.Order&1 == 1 {
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
	}
	return l
}

// guard runs a call into the library; a panic is returned, not propagated
func guard(f func()) (p *libPanic) {
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			p = &libPanic{msg: fmt.Sprint(e), stack: shortStack(st)}
		}
	}()
	f()
	return nil
}

func shortStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "go-vtd-xml") && strings.HasPrefix(l, "\t") {
			l = strings.TrimSpace(l)
			if i := strings.Index(l, " +0x"); i > 0 {
				l = l[:i]
			}
			out = append(out, l[strings.LastIndex(l, "vtdxml/"):])
			if len(out) == 6 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

// Res is what one parse gave
type Res struct {
	Ok    bool
	Err   error
	Panic *libPanic
	P     *parser.VtdParser
	Nav   *navigation.VtdNav
}

func (r *Res) Outcome() string {
	switch {
	case r.Panic != nil:
		return "panic: " + r.Panic.msg + " at " + r.Panic.stack
	case r.Err != nil:
		return "error: " + errText(r.Err)
	}
	return "accepted"
}

func errText(e error) string {
	s := e.Error()
	var pe *erroring.ParseError
	if errors.As(e, &pe) {
		s += strings.Replace(pe.LineNumber, "\n", " | ", -1)
	}
	return fmt.Sprintf("%T(%s)", e, s)
}

// Parse constructs a parser and parses; with nav also obtains the navigator
func Parse(doc []byte, o Opts) *Res {
	r := &Res{}
	r.Panic = guard(func() {
		p, err := parser.NewVtdParser(o.list(doc)...)
		if err != nil {
			r.Err = err
			return
		}
		r.P = p
		if r.Err = p.Parse(); r.Err != nil {
			return
		}
		n, err := p.GetNav()
		if err != nil {
			r.Err = err
			return
		}
		r.Nav = n
		r.Ok = true
	})
	if r.Panic != nil {
		r.Ok = false
	}
	return r
}

// Tok is a token as the navigator shows it
type Tok struct{ Type, Off, Len, Depth int }

// NavToks reads all tokens
func NavToks(n navigation.Nav) (toks []Tok, err error, pan *libPanic) {
	pan = guard(func() {
		sz := n.GetVtdBufferSize()
		toks = make([]Tok, 0, sz)
		for i := 0; i < sz; i++ {
			var t Tok
			var v int32
			if v, err = n.GetTokenType(i); err != nil {
				return
			}
			t.Type = int(v)
			if v, err = n.GetTokenOffset(i); err != nil {
				return
			}
			t.Off = int(v)
			if v, err = n.GetTokenLength(i); err != nil {
				return
			}
			t.Len = int(v)
			if v, err = n.GetTokenDepth(i); err != nil {
				return
			}
			t.Depth = int(v)
			toks = append(toks, t)
		}
	})
	return
}

const (
	kNone = iota
	kInvalidArg
	kInternal
	kParse
	kNav
	kEncoding
	kDecoding
	kEntity
	kEOF
	kModify
	kOther
)

var kindNames = []string{"none", "InvalidArgument", "Internal", "Parse", "Navigation", "Encoding", "Decoding", "Entity", "EOF", "Modify", "other"}

// kindOf is the type of the outermost error of the library
func kindOf(e error) int {
	for e != nil {
		if k := kindTop(e); k != kOther {
			return k
		}
		e = errors.Unwrap(e)
	}
	return kOther
}

func kindTop(e error) int {
	switch e.(type) {
	case nil:
		return kNone
	case *erroring.InvalidArgumentError:
		return kInvalidArg
	case *erroring.InternalError:
		return kInternal
	case *erroring.ParseError:
		return kParse
	case *erroring.NavigationError:
		return kNav
	case *erroring.EncodingError:
		return kEncoding
	case *erroring.DecodingError:
		return kDecoding
	case *erroring.EntityError:
		return kEntity
	case *erroring.EOFError:
		return kEOF
	case *erroring.ModifyError:
		return kModify
	}
	return kOther
}

func isKind(e error, k int) bool {
	for e != nil {
		if kindTop(e) == k {
			return true
		}
		e = errors.Unwrap(e)
	}
	return false
}

var lineRe = regexp.MustCompile(`(?i)line number:?\s*(\d+)`)

// errLine is the line a parse error names, 0 if none
func errLine(e error) int {
	var pe *erroring.ParseError
	if errors.As(e, &pe) {
		if m := lineRe.FindStringSubmatch(pe.LineNumber); m != nil {
			n, _ := strconv.Atoi(m[1])
			return n
		}
	}
	return 0
}

// lib runs a call into the library and fails the case if it panics
func (c *Ctx) lib(what string, f func()) {
	if p := guard(f); p != nil {
		if p.msg == "harness" {
			panic("harness")
		}
		c.Fail("%s panics: %s at %s", what, p.msg, p.stack)
	}
}

// Doc notes the document the case works on, for the report
func (c *Ctx) Doc(doc []byte, o Opts) {
	inputNote.Store(noteT{doc, o})
}

type noteT struct {
	doc []byte
	o   Opts
}

func clip(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

func show(doc []byte) string {
	if len(doc) <= 1500 {
		return fmt.Sprintf("%q", doc)
	}
	return fmt.Sprintf("%q…(%d bytes)…%q", doc[:900], len(doc), doc[len(doc)-300:])
}
