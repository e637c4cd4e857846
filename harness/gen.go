package main

import (
	"bytes"
	"fmt"
	"strings"
	"unicode/utf8"
)

// Gen writes random well-formed documents. Each document has its own style (swarm):
// which markup occurs, how it is spaced and quoted, how deep and wide it gets, which
// characters are used and how namespaces are declared.
type Gen struct {
	r   *Rng
	b   bytes.Buffer
	st  Style
	sc  []map[string]string // namespace declarations in scope
	nid int
}

type Style struct {
	NsMode    int // 0 no colons, 1 namespace-well-formed, 2 any colons (not namespace-aware)
	Nodes     int // budget of elements
	DeepBias  int // 0..100 chance to go down
	MaxDepth  int
	MaxAttrs  int
	ManyAttrs int // one element with that many attributes
	ManyDecls int // one element with that many namespace declarations
	Text      int // chance in percent of each kind
	Ref       int
	Comment   int
	Pi        int
	Cdata     int
	WsText    int
	SelfClose int
	AnnotWs   int // odd whitespace in tags
	Palette   int // 0 ascii 1 latin 2 mixed 3 astral 4 tricky ascii
	Crlf      int
	Decl      int // 0 none, 1 version, 2 +encoding, 3 +standalone, 4 all
	AsciiDecl bool
	Bom       bool
	Doctype   int // 0 none
	Prolog    int
	Epilog    int
	LongName  int
	NamePool  int // small pools collide
	TextLen   int
	Tail      int // whitespace at the very end
}

var paletteRunes = [][]rune{
	[]rune("abcdefghijklmnopqrstuvwxyz ABCXYZ 0123456789 .,;:!?()*/+-=_#%@$^~|{}[\\"),
	[]rune("éèüößñåçÀÿµ¶·×÷¡¿abc "),
	[]rune("aé\u0080\u07ff\u0800\u0fff\u1000中文字\u2028\u3042\ud7ff\ue000\ufffd한글ж x"),
	[]rune("😀𝄞\U00010000\U0010ffff\U000effffa漢 \u00b7\ufdd0"),
	[]rune("]]>'\"-?=/>;#x- &\t\n"),
}

var nameStarts = [][]rune{
	[]rune("abcdexyzABCXYZ_"),
	[]rune("aéÀÖØöøÿ_"),
	[]rune("aͰͽͿ\u1fff\u200c⁰\u218fⰀ\u2fef、\ud7ff中ﷰ\ufffd豈\ufdcf"),
	[]rune("a\U00010000𝒜\U000effff"),
	[]rune("abxmlns"),
}
var nameRest = [][]rune{
	[]rune("abcxyz019-._ABCZ"),
	[]rune("aé·ÿ0-._"),
	[]rune("a0\u00b7\u0300\u036f\u203f\u2040中ж-."),
	[]rune("a0\U00010000𝒜\U000effff-."),
	[]rune("xmlns0-._"),
}

func randStyle(r *Rng, size int) Style {
	pc := func() int {
		switch r.N(4) {
		case 0:
			return 0
		case 1:
			return r.In(1, 15)
		case 2:
			return r.In(15, 50)
		}
		return r.In(50, 95)
	}
	s := Style{
		NsMode: []int{0, 1, 1, 2}[r.N(4)], DeepBias: r.In(0, 100), MaxDepth: []int{2, 3, 4, 5, 6, 8, 12, 40, 250}[r.N(9)],
		MaxAttrs: []int{0, 1, 2, 3, 6}[r.N(5)], Text: pc(), Ref: pc() / 2, Comment: pc() / 2, Pi: pc() / 2, Cdata: pc() / 2,
		WsText: pc(), SelfClose: pc(), AnnotWs: pc() / 2, Palette: []int{0, 0, 1, 2, 3, 4}[r.N(6)], Crlf: []int{0, 0, 0, 20, 60}[r.N(5)],
		Decl: []int{0, 0, 1, 2, 3, 4, 4}[r.N(7)], Bom: r.P(1, 8), Doctype: []int{0, 0, 0, 0, 1, 2, 3}[r.N(7)], Prolog: r.N(3), Epilog: []int{0, 0, 1, 2, 4}[r.N(5)],
		NamePool: []int{2, 4, 50, 100000}[r.N(4)], TextLen: []int{3, 10, 40, 200}[r.N(4)], Tail: r.N(3),
	}
	s.Nodes = r.In(1, 1+size)
	if r.P(1, 4) {
		s.Nodes = 1 + r.Geo(8)
	}
	if r.P(1, 25) {
		s.LongName = r.In(100, 2047)
	}
	if s.Palette == 0 && r.P(1, 4) {
		s.AsciiDecl, s.Bom = true, false
		if s.Decl == 0 || s.Decl == 1 {
			s.Decl = 2
		}
		if s.Decl == 3 {
			s.Decl = 4
		}
	}
	if n := dictLen(r, 2047, 12); n > 0 {
		s.LongName = n
	}
	if n := dictLen(r, 250, 8); n > 0 {
		s.MaxDepth, s.DeepBias, s.Nodes = n+1, 100, s.Nodes+n
	}
	if n := dictLen(r, 3000, 12); n > 0 {
		s.Nodes = n
	}
	if n := dictLen(r, 700, 20); n > 0 {
		s.ManyAttrs = n
	}
	if n := dictLen(r, 300, 20); n > 0 {
		s.ManyDecls = n
	}
	if r.P(1, 40) {
		s.ManyAttrs = []int{255, 256, 257, 300, 520}[r.N(5)]
	}
	if r.P(1, 30) {
		s.ManyDecls = []int{30, 63, 64, 65, 66, 130, 260}[r.N(7)]
	}
	return s
}

func (g *Gen) w(s string) { g.b.WriteString(s) }

// ws writes optional or required whitespace
func (g *Gen) s(required bool) {
	if !g.r.P(g.st.AnnotWs, 100) {
		if required {
			g.w(" ")
		}
		return
	}
	n := g.r.In(0, 3)
	if required && n == 0 {
		n = 1
	}
	for i := 0; i < n; i++ {
		g.w(g.r.Pick(" ", "\t", "\n", "\r", "\r\n", "  "))
	}
}

func (g *Gen) misc() string { // whitespace between prolog items
	n := g.r.N(3)
	s := ""
	for i := 0; i < n; i++ {
		s += g.r.Pick(" ", "\n", "\t", "\r\n", "\n\n  ")
	}
	return s
}

func (g *Gen) pal() int {
	p := g.st.Palette
	if p > 0 && p < 4 && g.r.P(1, 3) {
		p = g.r.N(p + 1)
	}
	return p
}

func (g *Gen) ncname() string {
	r := g.r
	if w := dictWord(r, 12); w != "" && isNCName(w) && !(g.st.AsciiDecl && !isASCII([]byte(w))) {
		return w
	}
	if n := dictLen(r, 600, 20); n > 0 {
		return rep("abcdefghij", n)
	}
	if c := dictRune(r, 12); c != 0 && refName(int(c)) && c != ':' && !(g.st.AsciiDecl && c > 127) {
		return "a" + string(c) + r.Pick("", "b", string(c))
	}
	if g.st.LongName > 0 && r.P(1, 6) {
		n := r.In(1, g.st.LongName)
		return "L" + strings.Repeat(r.Pick("a", "b0", "x-y."), n)[:n-1]
	}
	if g.st.NamePool <= 4 {
		return string(rune('a' + r.N(g.st.NamePool)))
	}
	p := g.pal()
	n := []int{1, 1, 2, 3, 5, 9, 14}[r.N(7)]
	if g.st.NamePool == 50 {
		n = r.In(1, 2)
	}
	var b strings.Builder
	ns, nr := nameStarts[p], nameRest[p]
	b.WriteRune(ns[r.N(len(ns))])
	for i := 1; i < n; i++ {
		b.WriteRune(nr[r.N(len(nr))])
	}
	s := b.String()
	return s
}

// chars writes character data without markup; forbid are characters not to be used
func (g *Gen) chars(n int, forbid string) string {
	var b strings.Builder
	r := g.r
	for i := 0; i < n; i++ {
		p := paletteRunes[g.pal()]
		if g.st.Crlf > 0 && r.P(g.st.Crlf, 400) {
			b.WriteString(r.Pick("\r", "\r\n", "\n", "\r\r", "\n\r"))
			continue
		}
		c := p[r.N(len(p))]
		if x := dictRune(r, 20); x != 0 && !(g.st.AsciiDecl && x > 127) {
			c = x
		}
		if strings.ContainsRune(forbid, c) {
			c = 'z'
		}
		b.WriteRune(c)
	}
	return b.String()
}

func (g *Gen) length() int {
	if n := dictLen(g.r, 100, 6); n > 0 {
		return n
	}
	if n := dictLen(g.r, 5000, 40); n > 0 {
		return n
	}
	switch g.r.N(6) {
	case 0:
		return 0
	case 1:
		return 1
	}
	return g.r.N(g.st.TextLen) + 1
}

func (g *Gen) ref() string {
	r := g.r
	switch r.N(9) {
	case 0:
		if r.P(1, 3) { // what follows is not a reference
			return "&amp;" + r.Pick("#60;", "#x26;", "#", "lt;", "amp;", "quot;", "amp;lt;", "#65", "#38;lt;", "apos")
		}
		return "&amp;"
	case 1:
		return "&lt;"
	case 2:
		return "&gt;"
	case 3:
		return "&quot;"
	case 4:
		return "&apos;"
	}
	c := []int{9, 10, 13, 32, 38, 60, 62, 34, 39, 65, 97, 127, 128, 233, 255, 256, 0x7FF, 0x800, 0x20AC, 0xD7FF, 0xE000, 0xFFFD, 0x10000, 0x1F600, 0x10FFFF}[r.N(25)]
	if r.P(1, 3) {
		c = r.In(0x20, 0xD7FF)
	}
	if r.P(1, 8) {
		c = r.In(0x10000, 0x10FFFF)
	}
	if x := dictRune(r, 4); x != 0 {
		c = int(x)
	}
	z := strings.Repeat("0", []int{0, 0, 0, 1, 3, 12}[r.N(6)])
	switch r.N(4) {
	case 0:
		return fmt.Sprintf("&#x%s%x;", z, c)
	case 1:
		return fmt.Sprintf("&#x%s%X;", z, c)
	}
	return fmt.Sprintf("&#%s%d;", z, c)
}

// text makes character data that is not only whitespace
func (g *Gen) text() string {
	var b strings.Builder
	if g.r.P(1, 4) {
		b.WriteString(g.r.Pick(" ", "\n", "\n\t", "  ", "\r\n"))
	}
	parts := g.r.In(1, 3)
	for i := 0; i < parts; i++ {
		s := g.chars(g.length(), "<&")
		b.WriteString(s)
		if g.r.P(g.st.Ref, 100) {
			b.WriteString(g.ref())
		}
	}
	s := strings.Replace(b.String(), "]]>", "]] >", -1)
	if strings.Trim(s, " \t\r\n") == "" {
		s += g.r.Pick("x", "&#32;", "]", "]]", ">")
	}
	if g.r.P(1, 6) {
		s += g.r.Pick(" ", "\n", "\t ")
	}
	return s
}

func (g *Gen) attrVal(q string) string {
	var b strings.Builder
	parts := g.r.In(0, 3)
	for i := 0; i < parts; i++ {
		b.WriteString(g.chars(g.length(), "<&"+q))
		if g.r.P(g.st.Ref, 100) {
			b.WriteString(g.ref())
		}
	}
	return b.String()
}

func (g *Gen) comment() {
	s := g.chars(g.length(), "")
	for strings.Contains(s, "--") {
		s = strings.Replace(s, "--", "-_", -1)
	}
	if strings.HasSuffix(s, "-") {
		s += " "
	}
	if g.r.P(1, 6) {
		s = g.r.Pick("<a>", "&", "]]>", "<![CDATA[", "<?x?>", "- -", "->", "</a>", "&#0;") + s
		if strings.Contains(s, "--") || strings.HasSuffix(s, "-") {
			s = "&"
		}
	}
	g.w("<!--" + s + "-->")
}

func (g *Gen) pi() {
	n := g.ncname()
	for strings.EqualFold(n, "xml") {
		n += "x"
	}
	if g.r.P(1, 8) {
		n = g.r.Pick("xml-stylesheet", "xmlx", "Xml.", "XML_", "x", "xm", "xml1")
	}
	g.w("<?" + n)
	if g.r.P(1, 3) {
		if g.r.P(1, 3) {
			g.w(g.r.Pick(" ", "\n", "\t"))
		}
		g.w("?>")
		return
	}
	g.w(g.r.Pick(" ", "\n", "\t", "  ", " \r\n"))
	s := g.chars(g.length(), "")
	if g.r.P(1, 5) {
		s += g.r.Pick("?", "??", "? >", "<a>", "&", "--", "]]>")
	}
	g.w(strings.Replace(s, "?>", "? >", -1) + "?>")
}

func (g *Gen) cdata() {
	s := g.chars(g.length(), "")
	if g.r.P(1, 4) {
		s += g.r.Pick("]", "]]", "<a>", "&amp;", "&", "<!--", "]>", "]] >", "<![CDATA[", "]]]")
	}
	g.w("<![CDATA[" + strings.Replace(s, "]]>", "]]-", -1) + "]]>")
}

func (g *Gen) doctype(root string) {
	if strings.Contains(root, ":") && g.st.NsMode == 2 {
		root = "a"
	}
	if g.st.NsMode == 1 {
		root = strings.Replace(root, ":", "", -1)
	}
	g.w("<!DOCTYPE")
	g.s(true)
	g.w(root)
	switch g.st.Doctype {
	case 1:
		if g.r.P(1, 2) {
			g.w(g.r.Pick(" SYSTEM 'a.dtd'", ` SYSTEM "x>y.dtd"`, ` PUBLIC "-//A//B" "b.dtd"`, " PUBLIC '-//A//B' 'it.dtd'"))
		}
	case 2:
		g.w(" [")
		n := g.r.N(4)
		for i := 0; i < n; i++ {
			g.w(g.misc())
			g.w(g.r.Pick("<!ELEMENT a (b|c)*>", "<!ELEMENT a EMPTY>", "<!ATTLIST a b CDATA #IMPLIED>", "<!ATTLIST a b (x|y) 'x'>",
				"<!ENTITY e 'value'>", "<!ENTITY e \"va>lue\">", "<!ENTITY % p 'x'>", "<!NOTATION n SYSTEM 'n'>", "<!-- a > ' \" <b> -->", "<?p > ' \" ?>", "<?p a??>", "<?p ???>", "<?p?>", "<?p ?a?>", "<?p ?a ? >> ??>", "<!-- a- -b ->-->", "<!--- a -->", "<?p -->?>", "<!-- ?> -->", "<!--]>-->", "<?p ]>?>", "%pe;", "<!---->", "<!ATTLIST a b CDATA '>]'>"))
		}
		g.w(g.misc() + "]")
		g.s(false)
	case 3:
		g.w(" SYSTEM 'q\">.dtd' [ <!ELEMENT a ANY> ]")
	}
	g.s(false)
	g.w(">" + g.misc())
}

func (g *Gen) xmlDecl() {
	q := func() string { return g.r.Pick(`"`, "'") }
	eq := func() {
		g.s(false)
		g.w("=")
		g.s(false)
	}
	g.w("<?xml")
	g.s(true)
	g.w("version")
	eq()
	a := q()
	v := "1.0"
	if g.r.P(1, 10) {
		v = "1.1"
	}
	g.w(a + v + a)
	if g.st.Decl == 2 || g.st.Decl == 4 {
		g.s(true)
		g.w("encoding")
		eq()
		a = q()
		e := g.r.Pick("UTF-8", "utf-8", "Utf-8", "uTf-8")
		if g.st.AsciiDecl {
			e = g.r.Pick("ASCII", "US-ASCII", "ascii", "us-ascii", "Us-AsCiI", "asCII")
		}
		g.w(a + e + a)
	}
	if g.st.Decl >= 3 {
		g.s(true)
		g.w("standalone")
		eq()
		a = q()
		g.w(a + g.r.Pick("yes", "no") + a)
	}
	g.s(false)
	g.w("?>" + g.misc())
}

var uris = []string{"u", "urn:a", "urn:b", "http://a.b/c", "http://www.w3.org/XML/1998/namespac", "http://www.w3.org/XML/1998/namespace2", "http://www.w3.org/2000/xmlns", "http://www.w3.org/2000/xmlns/x", "http://www.w3.org/2000/xmlns2", "urn:é", "http://www.w3.org/1999/xhtml", "urn:long:0123456789012345678901234567890123456789", "u&amp;v", "u&#38;v", "u'v", "http://www.w3.org/XML/1998/Namespace"}

func (g *Gen) lookup(p string) (string, bool) {
	for i := len(g.sc) - 1; i >= 0; i-- {
		if u, ok := g.sc[i][p]; ok {
			return u, true
		}
	}
	return "", false
}

// prefixes in scope
func (g *Gen) inScope() []string {
	seen := map[string]bool{}
	var l []string
	for i := len(g.sc) - 1; i >= 0; i-- {
		for _, k := range prefixPool {
			if _, ok := g.sc[i][k]; ok && k != "" && !seen[k] {
				seen[k] = true
				l = append(l, k)
			}
		}
	}
	return l
}

var prefixPool = []string{"", "p", "q", "pp", "pq", "ns1", "x", "xm", "xmlx", "xmln", "é", "a-b", "longprefix", "qp", "xmlnsx", "P"}

func attrUriNorm(raw string) string {
	s, _ := RefResolve([]byte(raw))
	return s
}

// element writes an element; returns the number of elements written
func (g *Gen) element(depth int, budget *int) {
	r := g.r
	*budget--
	decl := map[string]string{}
	var declRaw [][2]string
	name := g.ncname()
	if g.st.NsMode == 1 {
		n := []int{0, 0, 1, 2, 3}[r.N(5)]
		if depth == 0 {
			n++
		}
		for i := 0; i < n; i++ {
			p := prefixPool[r.N(len(prefixPool))]
			if _, dup := decl[p]; dup {
				continue
			}
			u := uris[r.N(len(uris))]
			if p == "" && r.P(1, 4) {
				u = ""
			}
			decl[p] = attrUriNorm(u)
			declRaw = append(declRaw, [2]string{p, u})
		}
		if g.st.ManyDecls > 0 && r.P(1, 2) {
			for i := 0; i < g.st.ManyDecls; i++ {
				p := fmt.Sprintf("d%d", i)
				decl[p] = "urn:d"
				declRaw = append(declRaw, [2]string{p, "urn:d"})
			}
			g.st.ManyDecls = 0
		}
		if r.P(1, 30) {
			declRaw = append(declRaw, [2]string{"xml", uri1998})
		}
		g.sc = append(g.sc, decl)
		if in := g.inScope(); len(in) > 0 && r.P(1, 2) {
			name = in[r.N(len(in))] + ":" + name
		} else if r.P(1, 40) {
			name = "xml:" + name
		}
	} else if g.st.NsMode == 2 && r.P(1, 3) {
		name = g.ncname() + ":" + name
	}
	if depth == 0 && g.st.Doctype > 0 {
		g.doctype(name)
	}
	g.w("<" + name)
	// attributes
	na := 0
	if g.st.MaxAttrs > 0 {
		na = r.N(g.st.MaxAttrs + 1)
	}
	many := 0
	if g.st.ManyAttrs > 0 && r.P(1, 2) {
		many = g.st.ManyAttrs
		g.st.ManyAttrs = 0
	}
	type at struct{ n, v string }
	var as []at
	used := map[string]bool{}
	usedQ := map[string]bool{}
	for i := 0; i < na; i++ {
		n := g.ncname()
		q := ""
		if g.st.NsMode == 1 {
			if n == "xmlns" {
				continue
			}
			if in := g.inScope(); len(in) > 0 && r.P(1, 2) {
				p := in[r.N(len(in))]
				u, _ := g.lookup(p)
				q = u + "\x00" + n
				if usedQ[q] {
					continue
				}
				n = p + ":" + n
			} else if r.P(1, 15) {
				n = "xml:" + r.Pick("lang", "space", "id", "x")
			}
		} else if g.st.NsMode == 2 {
			if r.P(1, 3) {
				n = g.ncname() + ":" + n
			}
			if r.P(1, 10) {
				n = r.Pick("xmlns", "xmlns:p", "xmlns:xml", "xml:lang", "xmlnsx", "xmlns:xmlns")
			}
		}
		if used[n] {
			continue
		}
		used[n] = true
		if q != "" {
			usedQ[q] = true
		}
		as = append(as, at{n, "\x00"})
	}
	for i := 0; i < many; i++ {
		as = append(as, at{fmt.Sprintf("A%d", i), "v"})
	}
	for _, d := range declRaw {
		n := "xmlns"
		if d[0] != "" {
			n = "xmlns:" + d[0]
		}
		a := at{n, d[1]}
		k := r.N(len(as) + 1)
		as = append(as[:k], append([]at{a}, as[k:]...)...)
	}
	for _, a := range as {
		g.s(true)
		g.w(a.n)
		g.s(false)
		g.w("=")
		g.s(false)
		q := r.Pick(`"`, "'")
		v := a.v
		if v == "\x00" {
			v = g.attrVal(q)
		} else if strings.Contains(v, q) {
			q = `"`
		}
		g.w(q + v + q)
	}
	g.s(false)
	pop := func() {
		if g.st.NsMode == 1 {
			g.sc = g.sc[:len(g.sc)-1]
		}
	}
	if r.P(g.st.SelfClose, 300) && (*budget == 0 || depth > 0) {
		g.w("/>")
		pop()
		return
	}
	g.w(">")
	g.content(depth, budget)
	g.w("</" + name)
	g.s(false)
	g.w(">")
	pop()
}

func (g *Gen) filler() {
	r := g.r
	// the order of kinds varies
	for k := r.In(0, 3); k > 0; k-- {
		switch r.N(5) {
		case 0:
			if r.P(g.st.Text, 100) {
				g.w(g.text())
			}
		case 1:
			if r.P(g.st.Comment, 100) {
				g.comment()
			}
		case 2:
			if r.P(g.st.Pi, 100) {
				g.pi()
			}
		case 3:
			if r.P(g.st.Cdata, 100) {
				g.cdata()
			}
		case 4:
			if r.P(g.st.WsText, 100) {
				g.w(r.Pick(" ", "\n", "\t", "\n  ", "\r\n", "\r", "   "))
			}
		}
	}
}

func (g *Gen) content(depth int, budget *int) {
	for {
		g.filler()
		if *budget <= 0 || depth+1 >= g.st.MaxDepth {
			return
		}
		// go on here or leave the rest to the ancestors
		if depth > 0 && !g.r.P(g.st.DeepBias, 100) {
			return
		}
		g.element(depth+1, budget)
	}
}

func (g *Gen) Document() []byte {
	g.b.Reset()
	if g.st.Bom {
		g.w("\ufeff")
	}
	if g.st.Decl > 0 {
		g.xmlDecl()
	} else {
		g.w(g.misc())
	}
	for i := 0; i < g.st.Prolog; i++ {
		if g.r.P(1, 2) {
			g.comment()
		} else {
			g.pi()
		}
		g.w(g.misc())
	}
	budget := g.st.Nodes
	g.element(0, &budget)
	for i := 0; i < g.st.Epilog; i++ {
		g.w(g.misc())
		if g.r.P(1, 2) {
			g.comment()
		} else {
			g.pi()
		}
	}
	if g.st.Tail > 0 {
		g.w(g.r.Pick("\n", " ", "\r\n", "\n\n\t "))
	}
	return append([]byte(nil), g.b.Bytes()...)
}

// GenDoc makes a document of roughly the given number of elements
func GenDoc(r *Rng, size int) ([]byte, Style) {
	st := randStyle(r, size)
	g := &Gen{r: r, st: st}
	d := g.Document()
	if st.AsciiDecl && !isASCII(d) {
		// a name with other characters slipped in: declare UTF-8 instead
		st.AsciiDecl = false
		g = &Gen{r: NewRng(r.U64()), st: st}
		d = g.Document()
	}
	return d, st
}

func isASCII(d []byte) bool {
	for _, c := range d {
		if c >= utf8.RuneSelf {
			return false
		}
	}
	return true
}

func GenStyle(r *Rng, st Style) []byte {
	g := &Gen{r: r, st: st}
	return g.Document()
}

// sizedDoc pads a document to exactly n bytes (when it is shorter) with text in the root
func sizedDoc(r *Rng, d []byte, n int) []byte {
	ref := RefParse(d, false)
	if ref.V != Accept || len(ref.Nodes) == 0 || ref.Nodes[0].Self || len(d) >= n {
		return d
	}
	at := ref.Nodes[0].Close
	pad := n - len(d)
	var b bytes.Buffer
	b.Write(d[:at])
	if pad >= 12 && r.P(1, 2) {
		k := pad - 7
		b.WriteString("<!--" + strings.Repeat(r.Pick("c", " ", "\n", "<"), k) + "-->")
	} else {
		b.WriteString(strings.Repeat(r.Pick("t", " ", "\n"), pad))
	}
	b.Write(d[at:])
	return b.Bytes()
}
