package main

import (
	"strings"
)

// Reference model: an independent reader of XML 1.0 + Namespaces, written from the
// specifications. It works on the bytes of the document window and knows nothing of
// the implementation apart from its documented limits.

type Verdict int

const (
	Accept Verdict = iota
	Reject
	Hard // the guarantees say nothing about this document
)

func (v Verdict) String() string { return [...]string{"accept", "reject", "unspecified"}[v] }

const (
	tStart = 0
	tAttr  = 2
	tNs    = 3
	tVal   = 4
	tText  = 5
	tComm  = 6
	tPiN   = 7
	tPiV   = 8
	tDecN  = 9
	tDecV  = 10
	tCdata = 11
	tDtd   = 12
	tDoc   = 13

	maxTok  = 1<<20 - 1
	maxPre  = 511
	maxName = 2047
	maxDeep = 255
)

type RefTok struct {
	Type, Off, Len, Depth int
	Pre                   int  // prefix length, names only
	AnyOff                bool // offset not specified (empty processing instruction data)
}

type AttrSite struct {
	Name, NameEnd, Eq, Quote, End int // End: the closing quote
	Tok                           int
}

type RefNode struct {
	Tok, Parent, Depth    int
	Children              []int
	Open, NameEnd, TagEnd int // '<', end of the name, position behind the '>' of the start tag
	Self                  bool
	Close, End            int // "</" and behind '>' of the end tag
	Attrs                 []AttrSite
	Name                  string
}

type Ref struct {
	V        Verdict
	Soft     bool // may be rejected as well; if accepted the tokens count
	SoftWhy  string
	Class    string // rule violated
	Ns       bool   // a namespace rule
	Pos      int    // where
	Markup   int    // start of the markup the offending position belongs to
	Toks     []RefTok
	Nodes    []RefNode
	RootEnd  int
	Items    []int // ends of the complete items behind the root
	Ascii    bool
	DocStart int
}

type refStop struct{}

type refP struct {
	*Ref
	d      []byte
	pos    int
	ns     bool
	v11    bool
	cur    int // current element
	depth  int
	scope  []map[string]string
	markup int
	names  bool
}

func (p *refP) reject(class string, pos int) {
	p.V, p.Class, p.Pos, p.Markup = Reject, class, pos, p.markup
	panic(refStop{})
}
func (p *refP) hard(why string) {
	p.V, p.Class = Hard, why
	panic(refStop{})
}
func (p *refP) soft(why string) {
	p.Soft = true
	if p.SoftWhy == "" {
		p.SoftWhy = why
	}
}

// refDecode decodes strictly one UTF-8 character, size 0 at the end, r<0 if invalid
func refDecode(d []byte, i int) (int, int) {
	if i >= len(d) {
		return -1, 0
	}
	b := int(d[i])
	if b < 0x80 {
		return b, 1
	}
	n, min, r := 0, 0, 0
	switch {
	case b >= 0xC2 && b <= 0xDF:
		n, min, r = 1, 0x80, b&0x1F
	case b >= 0xE0 && b <= 0xEF:
		n, min, r = 2, 0x800, b&0x0F
	case b >= 0xF0 && b <= 0xF4:
		n, min, r = 3, 0x10000, b&0x07
	default:
		return -1, 1
	}
	if i+n >= len(d) {
		return -1, 1
	}
	for k := 1; k <= n; k++ {
		c := int(d[i+k])
		if c&0xC0 != 0x80 {
			return -1, 1
		}
		r = r<<6 | c&0x3F
	}
	if r < min || r > 0x10FFFF || (r >= 0xD800 && r <= 0xDFFF) {
		return -1, 1
	}
	return r, n + 1
}

func refSpace(r int) bool { return r == 0x20 || r == 9 || r == 10 || r == 13 }

func refNameStart(r int) bool {
	switch {
	case r == ':' || r == '_' || (r >= 'A' && r <= 'Z') || (r >= 'a' && r <= 'z'):
		return true
	case r < 0xC0:
		return false
	case r <= 0x2FF:
		return r != 0xD7 && r != 0xF7
	case r >= 0x370 && r <= 0x1FFF:
		return r != 0x37E
	case r == 0x200C || r == 0x200D:
		return true
	case r >= 0x2070 && r <= 0x218F, r >= 0x2C00 && r <= 0x2FEF, r >= 0x3001 && r <= 0xD7FF,
		r >= 0xF900 && r <= 0xFDCF, r >= 0xFDF0 && r <= 0xFFFD, r >= 0x10000 && r <= 0xEFFFF:
		return true
	}
	return false
}

func refName(r int) bool {
	return refNameStart(r) || r == '-' || r == '.' || (r >= '0' && r <= '9') || r == 0xB7 ||
		(r >= 0x300 && r <= 0x36F) || r == 0x203F || r == 0x2040
}

// 0 bad, 1 good, 2 XML 1.1 only (unspecified)
func refChar(r int) int {
	switch {
	case r == 9 || r == 10 || r == 13 || (r >= 0x20 && r <= 0xD7FF) || (r >= 0xE000 && r <= 0xFFFD) || (r >= 0x10000 && r <= 0x10FFFF):
		return 1
	case r >= 1 && r < 0x20:
		return 2
	}
	return 0
}

// peek returns the character at the position; -1 at the end
func (p *refP) peek() (int, int) {
	if p.pos >= len(p.d) {
		return -1, 0
	}
	if p.Ascii {
		b := int(p.d[p.pos])
		if b >= 0x80 {
			p.reject("encoding", p.pos)
		}
		return b, 1
	}
	r, n := refDecode(p.d, p.pos)
	if r < 0 {
		p.reject("encoding", p.pos)
	}
	return r, n
}

func (p *refP) next() int {
	r, n := p.peek()
	if n == 0 {
		p.reject("eof", len(p.d))
	}
	p.pos += n
	return r
}

// char reads a character and requires it to be legal
func (p *refP) char() int {
	at := p.pos
	r := p.next()
	switch refChar(r) {
	case 0:
		p.reject("char", at)
	case 2:
		p.soft("control character")
	}
	return r
}

func (p *refP) has(s string) bool {
	return len(p.d)-p.pos >= len(s) && string(p.d[p.pos:p.pos+len(s)]) == s
}
func (p *refP) skip(s string) bool {
	if p.has(s) {
		p.pos += len(s)
		return true
	}
	return false
}

// expect requires the sequence; a proper prefix of it at the end counts as end of input
func (p *refP) expect(s, class string) {
	for i := 0; i < len(s); i++ {
		at := p.pos
		if r := p.next(); r != int(s[i]) {
			p.reject(class, at)
		}
	}
}

func (p *refP) spaces() bool {
	any := false
	for p.pos < len(p.d) && refSpace(int(p.d[p.pos])) {
		p.pos++
		any = true
	}
	return any
}

func (p *refP) tok(typ, off, n, depth int) int {
	p.Toks = append(p.Toks, RefTok{Type: typ, Off: off, Len: n, Depth: depth})
	return len(p.Toks) - 1
}

// chunked writes a token that is split up when it is long
func (p *refP) chunked(typ, off, n, depth int) {
	for n > maxTok {
		p.tok(typ, off, n, depth) // the reported length is the remaining one
		off += maxTok
		n -= maxTok
	}
	p.tok(typ, off, n, depth)
}

func (p *refP) limited(typ, off, n, depth int) {
	if n > maxTok {
		p.reject("limit", off)
	}
	p.tok(typ, off, n, depth)
}

func RefParse(d []byte, ns bool) *Ref {
	p := &refP{Ref: &Ref{}, d: d, ns: ns, cur: -1, depth: -1}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(refStop); !ok {
					panic(e)
				}
			}
		}()
		p.document()
	}()
	return p.Ref
}

func (p *refP) document() {
	if len(p.d) == 0 {
		p.reject("eof", 0)
	}
	bom := false
	if len(p.d) >= 3 && p.d[0] == 0xEF && p.d[1] == 0xBB && p.d[2] == 0xBF {
		p.pos = 3
		bom = true
	}
	p.DocStart = p.pos
	p.tok(tDoc, 0, 0, -1)
	p.markup = p.pos
	if p.has("<?xml") && p.pos+5 < len(p.d) && (refSpace(int(p.d[p.pos+5])) || p.d[p.pos+5] == '?') {
		p.xmlDecl(bom)
		p.spaces()
		p.markup = p.pos
		if r, n := p.peek(); n != 0 && r != '<' {
			p.reject("prolog text", p.pos)
		}
	}
	// prolog
	doctypes := 0
	for {
		p.spaces()
		p.markup = p.pos
		r, n := p.peek()
		if n == 0 {
			p.reject("eof", p.pos)
		}
		if r != '<' {
			p.reject("prolog text", p.pos)
		}
		open := p.pos
		p.pos++
		switch {
		case p.skip("!--"):
			p.comment(-1)
		case p.skip("?"):
			p.pi(-1)
		case p.skip("!DOCTYPE"):
			doctypes++
			if doctypes > 1 {
				p.soft("several document types")
			}
			p.doctype()
		default:
			r, n := p.peek()
			if n != 0 && r == '/' {
				p.reject("stray end tag", open)
			}
			if n != 0 && r == '!' {
				p.pos++
				p.markupDecl()
			}
			if n == 0 {
				p.reject("eof", p.pos)
			}
			if !refNameStart(r) {
				p.reject("name", p.pos)
			}
			p.root(open)
			p.epilog()
			return
		}
	}
}

// markupDecl: behind "<!" at a place where only the already tried forms are possible
func (p *refP) markupDecl() {
	for _, s := range []string{"--", "[CDATA[", "DOCTYPE"} {
		if strings.HasPrefix(s, string(p.d[p.pos:])) {
			p.reject("eof", len(p.d))
		}
	}
	if p.has("[CDATA[") {
		p.reject("misplaced CDATA", p.pos)
	}
	if p.has("DOCTYPE") {
		p.reject("misplaced DOCTYPE", p.pos)
	}
	p.reject("markup declaration", p.pos)
}

func (p *refP) epilog() {
	for {
		p.spaces()
		p.markup = p.pos
		r, n := p.peek()
		if n == 0 {
			return
		}
		if r != '<' {
			p.reject("text after root", p.pos)
		}
		p.pos++
		switch {
		case p.skip("!--"):
			p.comment(-1)
		case p.skip("?"):
			p.pi(-1)
		default:
			if p.pos >= len(p.d) {
				p.reject("eof", p.pos)
			}
			if p.d[p.pos] == '!' {
				p.pos++
				p.markupDecl()
			}
			if p.d[p.pos] == '/' {
				p.reject("stray end tag", p.pos)
			}
			p.reject("content after root", p.pos)
		}
		p.Items = append(p.Items, p.pos)
	}
}

func (p *refP) xmlDecl(bom bool) {
	p.pos += 5
	if !p.spaces() {
		p.reject("xml declaration", p.pos)
	}
	p.declName("version")
	q := p.quote()
	v := p.pos
	for p.pos < len(p.d) && p.d[p.pos] != byte(q) && p.d[p.pos] != '<' && p.d[p.pos] != '>' && p.d[p.pos] < 0x80 {
		p.pos++
	}
	val := string(p.d[v:p.pos])
	if p.pos >= len(p.d) {
		p.reject("eof", p.pos)
	}
	if p.d[p.pos] != byte(q) {
		p.reject("xml declaration", p.pos)
	}
	switch {
	case val == "1.0":
	case val == "1.1":
		p.v11 = true
	case len(val) > 2 && val[:2] == "1." && strings.Trim(val[2:], "0123456789") == "":
		p.hard("version")
	default:
		p.reject("xml declaration", v)
	}
	p.tok(tDecV, v, 3, -1)
	p.pos++
	s := p.spaces()
	ascii := false
	if s && p.pos < len(p.d) && p.d[p.pos] == 'e' {
		p.declName("encoding")
		q := p.quote()
		v := p.pos
		for {
			r, n := p.peek()
			if n == 0 {
				p.reject("eof", p.pos)
			}
			if r == q {
				break
			}
			if r >= 0x80 || !(refName(r) && r != ':') {
				p.reject("xml declaration", p.pos)
			}
			p.pos++
		}
		switch strings.ToLower(string(p.d[v:p.pos])) {
		case "utf-8":
		case "ascii", "us-ascii":
			if bom {
				p.reject("encoding", v)
			}
			ascii = true
		default:
			p.reject("encoding", v)
		}
		p.tok(tDecV, v, p.pos-v, -1)
		if ascii {
			p.Ascii = true
		}
		p.pos++
		s = p.spaces()
	}
	if s && p.pos < len(p.d) && p.d[p.pos] == 's' {
		p.declName("standalone")
		q := p.quote()
		v := p.pos
		switch {
		case p.skip("yes"):
		case p.skip("no"):
		default:
			if strings.HasPrefix("yes", string(p.d[p.pos:])) || strings.HasPrefix("no", string(p.d[p.pos:])) {
				p.reject("eof", len(p.d))
			}
			p.reject("xml declaration", v)
		}
		p.tok(tDecV, v, p.pos-v, -1)
		at := p.pos
		if p.next() != q {
			p.reject("xml declaration", at)
		}
		p.spaces()
	}
	p.expect("?>", "xml declaration")
}

func (p *refP) declName(name string) {
	at := p.pos
	p.expect(name, "xml declaration")
	p.tok(tDecN, at, len(name), -1)
	p.spaces()
	p.expect("=", "xml declaration")
	p.spaces()
}

func (p *refP) quote() int {
	at := p.pos
	r := p.next()
	if r != '"' && r != '\'' {
		p.reject("quote", at)
	}
	return r
}

func (p *refP) comment(depth int) {
	at := p.pos
	for {
		if p.has("--") {
			n := p.pos - at
			p.pos += 2
			p.expect(">", "-- in comment")
			p.chunked(tComm, at, n, depth)
			return
		}
		p.char()
	}
}

func (p *refP) pi(depth int) {
	at := p.pos
	r, n := p.peek()
	if n == 0 {
		p.reject("eof", p.pos)
	}
	if !refNameStart(r) {
		p.reject("pi target", p.pos)
	}
	colon := false
	for {
		r, n := p.peek()
		if n == 0 {
			p.reject("eof", p.pos)
		}
		if !refName(r) {
			break
		}
		colon = colon || r == ':'
		p.pos += n
	}
	if colon && p.ns {
		p.soft("colon in pi target")
	}
	target := string(p.d[at:p.pos])
	if strings.EqualFold(target, "xml") && len(target) == 3 {
		p.reject("reserved pi target", at)
	}
	p.limited(tPiN, at, p.pos-at, depth)
	r, n = p.peek()
	if r == '?' {
		q := p.pos
		p.pos++
		p.expect(">", "pi end")
		p.Toks = append(p.Toks, RefTok{Type: tPiV, Off: q, Len: 0, Depth: depth, AnyOff: true})
		return
	}
	if !refSpace(r) {
		p.reject("pi target", p.pos)
	}
	p.pos += n
	v := p.pos
	for !p.has("?>") {
		p.char()
	}
	p.limited(tPiV, v, p.pos-v, depth)
	p.pos += 2
}

func (p *refP) doctype() {
	v := p.pos
	fail := func() {
		if p.pos >= len(p.d) {
			p.reject("eof", p.pos)
		}
		p.hard("document type")
	}
	need := func(ok bool) {
		if !ok {
			fail()
		}
	}
	name := func() {
		r, n := p.peek()
		need(n != 0 && refNameStart(r))
		for n != 0 && refName(r) {
			if r == ':' && p.ns {
				p.soft("colon in document type")
			}
			p.pos += n
			r, n = p.peek()
		}
	}
	literal := func() {
		q, _ := p.peek()
		need(q == '"' || q == '\'')
		p.pos++
		for {
			r, n := p.peek()
			if n == 0 {
				p.reject("eof", p.pos)
			}
			p.pos += n
			if r == q {
				return
			}
			if refChar(r) != 1 || r == '%' || r == '&' || r == '<' {
				p.hard("document type")
			}
		}
	}
	need(p.spaces())
	name()
	s := p.spaces()
	if s && (p.has("SYSTEM") || p.has("PUBLIC")) {
		pub := p.has("PUBLIC")
		p.pos += 6
		need(p.spaces())
		literal()
		if pub {
			need(p.spaces())
			literal()
		}
		p.spaces()
	} else if s && p.pos < len(p.d) && (strings.HasPrefix("SYSTEM", string(p.d[p.pos:])) || strings.HasPrefix("PUBLIC", string(p.d[p.pos:]))) {
		p.reject("eof", len(p.d))
	}
	if p.skip("[") {
		for {
			p.spaces()
			if p.skip("]") {
				break
			}
			if p.pos >= len(p.d) {
				p.reject("eof", p.pos)
			}
			switch {
			case p.skip("<!--"):
				for !p.has("--") {
					if p.pos >= len(p.d) {
						p.reject("eof", p.pos)
					}
					if r, n := p.peek(); refChar(r) != 1 {
						p.hard("document type")
					} else {
						p.pos += n
					}
				}
				p.pos += 2
				need(p.skip(">"))
			case p.skip("<?"):
				at := p.pos
				name()
				if strings.EqualFold(string(p.d[at:p.pos]), "xml") {
					p.hard("document type")
				}
				need(p.has("?>") || p.spaces())
				for !p.has("?>") {
					if p.pos >= len(p.d) {
						p.reject("eof", p.pos)
					}
					if r, n := p.peek(); refChar(r) != 1 {
						p.hard("document type")
					} else {
						p.pos += n
					}
				}
				p.pos += 2
			case p.skip("%"):
				name()
				need(p.skip(";"))
			case p.skip("<!ELEMENT"), p.skip("<!ATTLIST"), p.skip("<!ENTITY"), p.skip("<!NOTATION"):
				need(p.spaces())
				for !p.skip(">") {
					r, n := p.peek()
					need(n != 0)
					switch {
					case r == '"' || r == '\'':
						literal()
					case refSpace(r) || refName(r) || strings.IndexByte("()|,*+?#%;", byte(r)) >= 0 && r < 0x80:
						p.pos += n
					default:
						p.hard("document type")
					}
				}
			default:
				// may still be a cut keyword
				for _, k := range []string{"<!--", "<!ELEMENT", "<!ATTLIST", "<!ENTITY", "<!NOTATION"} {
					if strings.HasPrefix(k, string(p.d[p.pos:])) {
						p.reject("eof", len(p.d))
					}
				}
				p.hard("document type")
			}
		}
		p.spaces()
	}
	need(p.has(">"))
	p.limited(tDtd, v, p.pos-v, -1)
	p.pos++
	p.spaces()
	if p.pos < len(p.d) && p.d[p.pos] != '<' {
		p.markup = p.pos
		p.peek()
		p.reject("prolog text", p.pos)
	}
}

func (p *refP) name(class string) (int, int, int, bool) {
	at := p.pos
	r, n := p.peek()
	if n == 0 {
		p.reject("eof", p.pos)
	}
	if !refNameStart(r) {
		p.reject(class, p.pos)
	}
	colon, colons := -1, 0
	for {
		r, n := p.peek()
		if n == 0 {
			p.reject("eof", p.pos)
		}
		if !refName(r) {
			break
		}
		if r == ':' {
			colon = p.pos - at
			colons++
		}
		p.pos += n
	}
	pre := 0
	odd := false
	if colon >= 0 {
		pre = colon
		odd = colons > 1 || colon == 0 || colon == p.pos-at-1
		if !odd {
			// the local part has to be a name as well
			r, _ := refDecode(p.d, at+colon+1)
			odd = !refNameStart(r)
		}
	}
	return at, p.pos - at, pre, odd
}

type refAttr struct {
	name, pre, local, val string
	ns                    bool
	at                    int
	rawVal                []byte
}

func (p *refP) root(open int) {
	// explicit stack: documents can be deep
	p.startTag(open)
	for p.cur >= 0 {
		p.content()
	}
	p.RootEnd = p.pos
}

func (p *refP) limitName(n, pre, at int) {
	if n > maxName || pre > maxPre {
		p.reject("limit", at)
	}
}

// startTag is called behind '<' with a name start character ahead
func (p *refP) startTag(open int) {
	p.markup = open
	at, n, pre, odd := p.name("name")
	if odd && p.ns {
		p.hard("odd qualified name")
	}
	p.depth++
	if p.depth >= maxDeep {
		p.reject("limit", at)
	}
	p.limitName(n, pre, at)
	id := len(p.Nodes)
	ti := p.tok(tStart, at, n, p.depth)
	p.Toks[ti].Pre = pre
	p.Nodes = append(p.Nodes, RefNode{Tok: ti, Parent: p.cur, Depth: p.depth, Open: open, NameEnd: p.pos, Name: string(p.d[at : at+n])})
	if p.cur >= 0 {
		p.Nodes[p.cur].Children = append(p.Nodes[p.cur].Children, id)
	}
	node := func() *RefNode { return &p.Nodes[id] }
	var attrs []refAttr
	seen := map[string]bool{}
	self := false
	for {
		sp := p.spaces()
		r, m := p.peek()
		if m == 0 {
			p.reject("eof", p.pos)
		}
		if r == '>' {
			p.pos++
			break
		}
		if r == '/' {
			p.pos++
			p.expect(">", "tag end")
			self = true
			break
		}
		if !sp || !refNameStart(r) {
			p.reject("attribute", p.pos)
		}
		at, n, pre, odd := p.name("attribute")
		if odd && p.ns {
			p.hard("odd qualified name")
		}
		nm := string(p.d[at : at+n])
		if seen[nm] {
			p.reject("duplicate attribute", at)
		}
		seen[nm] = true
		p.limitName(n, pre, at)
		a := refAttr{name: nm, at: at}
		if pre > 0 {
			a.pre, a.local = nm[:pre], nm[pre+1:]
		} else {
			a.local = nm
		}
		a.ns = nm == "xmlns" || strings.HasPrefix(nm, "xmlns:")
		typ := tAttr
		if a.ns {
			typ = tNs
		}
		if a.ns && nm == "xmlns:" {
			p.hard("odd qualified name")
		}
		ai := p.tok(typ, at, n, p.depth)
		p.Toks[ai].Pre = pre
		site := AttrSite{Name: at, NameEnd: p.pos, Tok: ai}
		p.spaces()
		site.Eq = p.pos
		p.expect("=", "attribute")
		p.spaces()
		site.Quote = p.pos
		q := p.quote()
		v := p.pos
		var val strings.Builder
		for {
			r, m := p.peek()
			if m == 0 {
				p.reject("eof", p.pos)
			}
			if r == q {
				break
			}
			if r == '<' {
				p.reject("< in attribute value", p.pos)
			}
			if r == '&' {
				val.WriteRune(rune(p.reference()))
				continue
			}
			if (r == 9 || r == 10 || r == 13) && a.ns && p.ns {
				p.soft("whitespace in namespace name")
			}
			val.WriteRune(rune(p.char()))
		}
		a.rawVal = p.d[v:p.pos]
		a.val = val.String()
		site.End = p.pos
		p.limited(tVal, v, p.pos-v, p.depth)
		p.pos++
		node().Attrs = append(node().Attrs, site)
		attrs = append(attrs, a)
	}
	node().TagEnd = p.pos
	node().Self = self
	p.namespaces(node().Name, pre, attrs, at, odd)
	if self {
		node().Close, node().End = p.pos, p.pos
		p.depth--
		if p.ns {
			p.scope = p.scope[:len(p.scope)-1]
		}
		return // p.cur stays with the parent
	}
	p.cur = id
	// whitespace that is the entire content is recorded
	at = p.pos
	k := p.pos
	for k < len(p.d) && refSpace(int(p.d[k])) {
		k++
	}
	if k+1 < len(p.d) && p.d[k] == '<' && p.d[k+1] == '/' {
		p.chunked(tText, at, k-at, p.depth)
		p.pos = k
	}
}

const (
	uri1998 = "http://www.w3.org/XML/1998/namespace"
	uri2000 = "http://www.w3.org/2000/xmlns/"
)

func (p *refP) nsReject(class string, at int) {
	p.Ns = true
	p.reject(class, at)
}

func (p *refP) namespaces(elem string, pre int, attrs []refAttr, at int, odd bool) {
	if !p.ns {
		return
	}
	sc := map[string]string{}
	for _, a := range attrs {
		if !a.ns {
			continue
		}
		pfx := ""
		if a.name != "xmlns" {
			pfx = a.local
		}
		switch {
		case pfx == "xmlns":
			p.nsReject("ns: xmlns declared", a.at)
		case pfx == "xml":
			if a.val != uri1998 {
				p.nsReject("ns: xml bound to another name", a.at)
			}
			continue
		case a.val == uri1998 || a.val == uri2000:
			p.nsReject("ns: reserved name", a.at)
		case pfx != "" && len(a.rawVal) == 0:
			if p.v11 {
				p.soft("undeclared prefix 1.1")
			} else {
				p.nsReject("ns: empty binding", a.at)
			}
		}
		sc[pfx] = a.val
	}
	p.scope = append(p.scope, sc)
	lookup := func(pfx string) (string, bool) {
		for i := len(p.scope) - 1; i >= 0; i-- {
			if u, ok := p.scope[i][pfx]; ok {
				return u, true
			}
		}
		return "", false
	}
	if pre > 0 {
		pfx := elem[:pre]
		if pfx == "xmlns" {
			p.nsReject("ns: xmlns element", at)
		}
		if pfx != "xml" {
			if _, ok := lookup(pfx); !ok {
				p.nsReject("ns: element prefix", at)
			}
		}
	}
	seen := map[string]bool{}
	for _, a := range attrs {
		if a.ns || a.pre == "" || a.pre == "xml" {
			continue
		}
		u, ok := lookup(a.pre)
		if !ok {
			p.nsReject("ns: attribute prefix", a.at)
		}
		k := u + "\x00" + a.local
		if seen[k] {
			p.nsReject("ns: duplicate attribute", a.at)
		}
		seen[k] = true
	}
}

// reference at '&'; returns the character
func (p *refP) reference() int {
	at := p.pos
	p.pos++
	r, n := p.peek()
	if n == 0 {
		p.reject("eof", p.pos)
	}
	if r == '#' {
		p.pos++
		base := 10
		if p.pos < len(p.d) && p.d[p.pos] == 'x' {
			base = 16
			p.pos++
		}
		v, digits := 0, 0
		for {
			r, n := p.peek()
			if n == 0 {
				p.reject("eof", p.pos)
			}
			if r == ';' {
				p.pos++
				break
			}
			dg := -1
			switch {
			case r >= '0' && r <= '9':
				dg = r - '0'
			case base == 16 && r >= 'a' && r <= 'f':
				dg = r - 'a' + 10
			case base == 16 && r >= 'A' && r <= 'F':
				dg = r - 'A' + 10
			}
			if dg < 0 {
				p.reject("reference", at)
			}
			digits++
			if v <= 0x10FFFF {
				v = v*base + dg
			}
			p.pos += n
		}
		if digits == 0 {
			p.reject("reference", at)
		}
		switch refChar(v) {
		case 0:
			p.reject("reference", at)
		case 2:
			p.soft("reference to control character")
		}
		return v
	}
	for k, v := range map[string]int{"amp;": '&', "lt;": '<', "gt;": '>', "quot;": '"', "apos;": '\''} {
		if p.skip(k) {
			return v
		}
	}
	for _, k := range []string{"amp;", "lt;", "gt;", "quot;", "apos;"} {
		if strings.HasPrefix(k, string(p.d[p.pos:])) {
			p.reject("eof", len(p.d))
		}
	}
	e := p.pos
	for e < len(p.d) && p.d[e] != ';' && p.d[e] != '<' && !refSpace(int(p.d[e])) {
		e++
	}
	for _, t := range p.Toks {
		if t.Type == tDtd && e > p.pos {
			dtd := string(p.d[t.Off : t.Off+t.Len])
			if strings.Contains(dtd, string(p.d[p.pos:e])) || strings.ContainsAny(dtd, "%\"'") {
				p.hard("entity may be declared")
			}
		}
	}
	p.reject("reference", at)
	return 0
}

// content reads one item of the content of the current element
func (p *refP) content() {
	p.markup = p.pos
	at := p.pos
	ws := true
	for {
		r, n := p.peek()
		if n == 0 {
			p.reject("eof", p.pos)
		}
		if r == '<' {
			break
		}
		if r == '&' {
			ws = false
			p.reference()
			continue
		}
		if p.has("]]>") {
			p.reject("]]> in text", p.pos)
		}
		if !refSpace(r) {
			ws = false
		}
		p.char()
	}
	if !ws {
		p.chunked(tText, at, p.pos-at, p.depth)
	}
	open := p.pos
	p.markup = open
	p.pos++
	switch {
	case p.skip("!--"):
		p.comment(p.depth)
	case p.skip("![CDATA["):
		v := p.pos
		for !p.has("]]>") {
			p.char()
		}
		p.chunked(tCdata, v, p.pos-v, p.depth)
		p.pos += 3
	case p.skip("?"):
		p.pi(p.depth)
	case p.skip("/"):
		nd := &p.Nodes[p.cur]
		if !p.has(nd.Name) {
			if strings.HasPrefix(nd.Name, string(p.d[p.pos:])) {
				p.reject("eof", len(p.d))
			}
			p.peek()
			p.reject("tag mismatch", p.pos)
		}
		p.pos += len(nd.Name)
		p.spaces()
		r, n := p.peek()
		if n == 0 {
			p.reject("eof", p.pos)
		}
		if r != '>' {
			p.reject("tag mismatch", p.pos)
		}
		p.pos++
		nd.Close, nd.End = open, p.pos
		p.cur = nd.Parent
		p.depth--
		if p.ns {
			p.scope = p.scope[:len(p.scope)-1]
		}
	default:
		r, n := p.peek()
		if n == 0 {
			p.reject("eof", p.pos)
		}
		if r == '!' {
			p.pos++
			p.markupDecl()
		}
		if !refNameStart(r) {
			p.reject("name", p.pos)
		}
		p.startTag(open)
	}
}

// RefRaw is the raw string of a range: line ends normalised
func RefRaw(d []byte) string {
	if !strings.ContainsRune(string(d), '\r') {
		return string(d)
	}
	var b strings.Builder
	for i := 0; i < len(d); i++ {
		if d[i] == '\r' {
			b.WriteByte('\n')
			if i+1 < len(d) && d[i+1] == '\n' {
				i++
			}
			continue
		}
		b.WriteByte(d[i])
	}
	return b.String()
}

// RefResolve resolves references as well; ok is false if there is a malformed one
func RefResolve(d []byte) (string, bool) {
	var b strings.Builder
	for i := 0; i < len(d); {
		switch {
		case d[i] == '\r':
			b.WriteByte('\n')
			i++
			if i < len(d) && d[i] == '\n' {
				i++
			}
		case d[i] == '&':
			ch, n := refRef(d[i:])
			if n == 0 {
				return "", false
			}
			b.WriteRune(rune(ch))
			i += n
		default:
			b.WriteByte(d[i])
			i++
		}
	}
	return b.String(), true
}

// refRef decodes a reference at the start of d, n = 0 if there is none
func refRef(d []byte) (ch, n int) {
	e := -1
	for i := 1; i < len(d); i++ {
		if d[i] == ';' {
			e = i
			break
		}
		c := d[i]
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '#') {
			return 0, 0
		}
	}
	if e < 0 {
		return 0, 0
	}
	s := string(d[1:e])
	switch s {
	case "amp":
		return '&', e + 1
	case "lt":
		return '<', e + 1
	case "gt":
		return '>', e + 1
	case "quot":
		return '"', e + 1
	case "apos":
		return '\'', e + 1
	}
	if len(s) < 2 || s[0] != '#' {
		return 0, 0
	}
	base, s2 := 10, s[1:]
	if s2[0] == 'x' {
		base, s2 = 16, s2[1:]
	}
	if s2 == "" {
		return 0, 0
	}
	v := 0
	for _, c := range s2 {
		dg := strings.IndexRune("0123456789abcdef", c)
		if dg < 0 && c >= 'A' && c <= 'F' {
			dg = int(c-'A') + 10
		}
		if dg < 0 || dg >= base {
			return 0, 0
		}
		if v <= 0x10FFFF {
			v = v*base + dg
		}
	}
	if refChar(v) == 0 {
		return 0, 0
	}
	return v, e + 1
}
