package main

import (
	"fmt"
	"strings"
)

// ---- documents in which something is large, long or numerous ----

var smallLimits = []string{"element name", "attribute name", "namespace name", "element prefix", "attribute prefix", "depth", "depth with siblings", "qualified name of two parts", "end tag name"}
var bigLimits = []string{"text", "CDATA", "comment", "attribute value", "instruction", "doctype", "namespace value", "prolog comment", "epilog comment", "prolog instruction", "epilog instruction", "instruction target", "nested CDATA", "text behind text", "references",
	"epilog target", "prolog target", "later epilog comment", "later epilog instruction", "later prolog instruction", "instruction behind a declaration", "second attribute value", "default namespace value", "attribute of the root", "declaration of the root", "text of the root"}

// someLen favours sizes around powers of two
func someLen(r *Rng, max int) int {
	if n := dictLen(r, max, 3); n > 0 {
		return n
	}
	if r.P(1, 2) {
		p := 1
		for p*2 <= max && r.P(9, 10) {
			p *= 2
		}
		n := p + r.In(-2, 2)
		if n >= 1 && n <= max {
			return n
		}
	}
	n := r.In(1, max)
	if r.P(1, 3) {
		n = r.In(1, n)
	}
	return n
}

// longVariants makes names of one length that differ at one place only
func longVariants(r *Rng, n, k int) []string {
	unit := r.Pick("a", "ab-", "é", "x.y", "中")
	s := []byte(rep(unit, n))
	if s[0] == '-' {
		s[0] = 'a'
	}
	var free []int
	for i, c := range s {
		if c >= 'a' && c <= 'z' {
			free = append(free, i)
		}
	}
	var out []string
	for i := 0; i < k; i++ {
		x := append([]byte(nil), s...)
		if len(free) > 0 {
			at := free[[]int{len(free) - 1, 0, len(free) / 2, r.N(len(free))}[r.N(4)]]
			x[at] = byte('A' + i)
		}
		out = append(out, string(x))
	}
	return out
}

// longNames: a small tree over a few long prefixes, names and URIs
func longNames(r *Rng) []byte {
	var b strings.Builder
	pl := someLen(r, maxPre)
	ll := someLen(r, maxName-pl-1)
	pre := append(longVariants(r, pl, r.In(1, 3)), r.Pick("p", "q"))
	if q := []rune(pre[0]); r.P(2, 3) && len(q) > 2 { // one the beginning of the other
		cut := 1 + r.N(2)
		if r.P(1, 2) {
			cut = someLen(r, len(q)-1)
		}
		pre = append(pre, string(q[:len(q)-cut]))
		if r.P(1, 2) && len(q) > cut+2 {
			pre = append(pre, string(q[:len(q)-cut-1]))
		}
	}
	loc := append(longVariants(r, ll, r.In(1, 3)), r.Pick("a", "b"))
	ul := someLen(r, 3000)
	tail := rep("a", someLen(r, 600))
	e := [][]string{{"&gt;", "&#62;", ">"}, {"&amp;", "&#38;", "&#x26;"}, {"&lt;", "&#60;", "&#x3C;"}, {"&quot;", "&#34;", "\""}, {"&apos;", "&#39;", "&#x27;"}, {"é", "&#233;", "&#xE9;"}, {"😀", "&#128512;", "&#x1F600;"}}[r.N(7)]
	uri := append(longVariants(r, ul, 3), "u", "u"+e[0]+"v", "u"+e[1]+"v", "u"+e[2]+"v", e[r.N(3)]+tail, e[r.N(3)]+tail)
	for i := len(uri) - 1; i > 0; i-- {
		j := r.N(i + 1)
		uri[i], uri[j] = uri[j], uri[i]
	}
	uri = uri[:r.In(2, len(uri))]
	seen := map[string]bool{}
	decls := func() string {
		s := ""
		for k := range seen {
			delete(seen, k)
		}
		for _, p := range pre {
			if r.P(1, 2) && !seen[p] {
				seen[p] = true
				s += " xmlns:" + p + r.Pick("='", " = '") + uri[r.N(len(uri))] + "'"
			}
		}
		if r.P(1, 3) {
			s += " xmlns='" + r.Pick("", uri[r.N(len(uri))]) + "'"
		}
		return s
	}
	qn := func() string {
		l := loc[r.N(len(loc))]
		if r.P(1, 3) {
			return l
		}
		return pre[r.N(len(pre))] + ":" + l
	}
	budget := r.In(1, 12)
	var rec func(d int)
	rec = func(d int) {
		budget--
		n := qn()
		b.WriteString("<" + n)
		first, second := decls(), ""
		if d == 0 { // all of them
			first = ""
			done := map[string]bool{}
			for _, p := range pre {
				if !done[p] {
					first += " xmlns:" + p + "='" + uri[r.N(len(uri))] + "'"
				}
				done[p] = true
			}
		}
		used := map[string]bool{}
		for k := r.N(4); k > 0; k-- {
			a := qn()
			if !used[a] || r.P(1, 60) {
				second += " " + a + "='" + r.Pick("", "v", "&lt;") + "'"
			}
			used[a] = true
		}
		if r.P(1, 2) {
			first, second = second, first
		}
		b.WriteString(first + second)
		if r.P(1, 4) {
			b.WriteString("/>")
			return
		}
		b.WriteString(">" + r.Pick("", "x", "<!--c-->", "\n"))
		for budget > 0 && r.P(2, 3) && d < 30 {
			rec(d + 1)
		}
		if r.P(1, 80) {
			n = qn()
		}
		b.WriteString("</" + n + r.Pick("", "", " ") + ">")
	}
	rec(0)
	return []byte(b.String())
}

// longItems: comments, instructions, sections, texts and values of some size everywhere
func longItems(r *Rng) []byte {
	var b strings.Builder
	max := []int{300, 1100, 5000, 20000}[r.N(4)]
	fillUnit := func() string {
		return r.Pick("a", "é", "中", "😀", "ab\n", " ", "\n", "\r", "x-", "x]", "?x", "&x"[1:], "<b>", "]>", "- ")
	}
	text := func() string {
		return rep(r.Pick("a", "é", "中", "😀", "ab\n", "x-", "x]", "\r\n", "&amp;", "&#x1F600;", "]>"), someLen(r, max))
	}
	com := func() string { return "<!--" + rep(fillUnit(), someLen(r, max)) + " -->" }
	pi := func() string {
		return "<?" + r.Pick("p", rep("t", someLen(r, 600))) + r.Pick(" ", "\n") + rep(fillUnit(), someLen(r, max)) + "?>"
	}
	ws := func() string {
		if r.P(1, 6) {
			return rep(r.Pick(" ", "\n", "\t", "\r\n"), someLen(r, max))
		}
		return r.Pick("", "", "\n", " ")
	}
	if r.P(1, 3) {
		b.WriteString("<?xml" + rep(r.Pick(" ", "\n"), r.Geo(8)+1) + "version='1.0'?>")
	}
	b.WriteString(ws())
	for k := r.N(3); k > 0; k-- {
		b.WriteString(r.Pick(com(), pi()) + ws())
	}
	n := r.Pick("a", "r")
	b.WriteString("<" + n)
	for k := r.N(4); k > 0; k-- {
		b.WriteString(rep(r.Pick(" ", "\n"), r.Geo(9)+1) + fmt.Sprintf("a%d", k) + r.Pick("=", " = ") + "'" + strings.Replace(text(), "]>", "zz", -1) + "'")
	}
	b.WriteString(">")
	for k := r.N(6); k > 0; k-- {
		switch r.N(6) {
		case 0:
			b.WriteString("t" + text())
		case 1:
			b.WriteString(com())
		case 2:
			b.WriteString(pi())
		case 3:
			b.WriteString("<![CDATA[" + rep(r.Pick("a", "]", "]]x", "é", "<", "&", "\n"), someLen(r, max)) + "]]>")
		case 4:
			b.WriteString("<e b='" + rep(r.Pick("a", "é", "中", "&lt;", ">"), someLen(r, max)) + "'/>")
		case 5:
			b.WriteString(rep(r.Pick(" ", "\n", "\t", "\r"), someLen(r, max)))
		}
	}
	b.WriteString("</" + n + rep(r.Pick(" ", "\n"), r.Geo(9)) + ">")
	b.WriteString(ws())
	for k := r.N(4); k > 0; k-- {
		b.WriteString(r.Pick(com(), pi()) + ws())
	}
	return []byte(b.String())
}

// manyTokens: more tokens than a page of the token buffer holds, many with equal lengths
func manyTokens(r *Rng) []byte {
	var b strings.Builder
	n := []int{300, 520, 1030, 1500, 2100}[r.N(5)]
	if v := dictLen(r, 5000, 3); v > 0 {
		n = v
	}
	w := r.In(1, 6)
	b.WriteString("<r>")
	kind := r.N(4)
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			fmt.Fprintf(&b, "<e>%0*d</e>", w+3, i*7)
		case 1:
			fmt.Fprintf(&b, "<e a='%0*d'/>", w+3, i*3)
		case 2:
			fmt.Fprintf(&b, "<e%0*d/>", w+3, i)
		case 3:
			b.WriteString(r.Pick("<e/>", "t<!--c-->", "<e>x</e>", "<?p d?>", "<e a='b'/>", "<e><f/></e>"))
		}
	}
	b.WriteString("</r>")
	return []byte(b.String())
}

// manyLines: line breaks of all kinds in all places
func manyLines(r *Rng) []byte {
	n := []int{250, 260, 1000, 1200, 3000}[r.N(5)]
	if v := dictLen(r, 70000, 3); v > 0 {
		n = v
	}
	nl := r.Pick("\n", "\r\n", "\n\n")
	fill := strings.Repeat(nl, n)
	switch r.N(5) {
	case 0:
		return []byte(fill + "<a>x</a>")
	case 1:
		return []byte("<a " + fill + "b='c'>x</a>")
	case 2:
		return []byte("<a><!--" + fill + "--><b>x</b></a>")
	case 3:
		return []byte("<a b='" + fill + "'>x</a>")
	}
	return []byte("<a>" + strings.Repeat("t"+nl, n) + "<b>x</b></a>" + nl + "<!--c-->")
}

// manyScopes: declarations that come, go and hide each other
func manyScopes(r *Rng) []byte {
	var b strings.Builder
	n := []int{20, 60, 130, 250}[r.N(4)]
	names := r.In(1, 5)
	depth := 0
	var open []string
	for i := 0; i < n; i++ {
		p := fmt.Sprintf("p%d", r.N(names))
		decl := ""
		for k := r.Geo(3); k > 0; k-- {
			decl += fmt.Sprintf(" xmlns:p%d='u%d'", 5+k*10+r.N(names), r.N(3))
		}
		decl += " xmlns:" + p + "='" + r.Pick("u", "v", "w") + "'"
		b.WriteString("<" + p + ":e" + decl + ">")
		open = append(open, "</"+p+":e>")
		depth++
		if r.P(1, 3) {
			fmt.Fprintf(&b, "<%s:k xmlns:z='u' z:a='' %s:b=''/>", p, p)
		}
		for depth > 1 && (r.P(1, 4) || depth > 240) {
			depth--
			b.WriteString(open[depth])
			open = open[:depth]
		}
	}
	for depth > 0 {
		depth--
		b.WriteString(open[depth])
	}
	d := b.String()
	// what is declared anywhere is declared at the root as well, mostly
	if r.P(9, 10) {
		root := ""
		for k := 0; k < names; k++ {
			root += fmt.Sprintf(" xmlns:p%d='r'", k)
		}
		return []byte("<r" + root + ">" + d + "</r>")
	}
	return []byte("<r>" + d + "</r>")
}

// wideAttrs: one element with many attributes of all kinds
func wideAttrs(r *Rng) []byte {
	var b strings.Builder
	n := someLen(r, 600)
	b.WriteString("<r xmlns:p='u' xmlns:q='v' xmlns:s='u'")
	pre := []string{"", "p:", "q:"}
	if r.P(1, 10) {
		pre = append(pre, "s:")
	}
	perm := r.N(n)
	for i := 0; i < n; i++ {
		k := (i + perm) % n
		if r.P(1, 1000) {
			k = r.N(n)
		}
		v := k
		fmt.Fprintf(&b, " %s%s%d='%s'", pre[v%len(pre)], r.Pick("a", "a", "a"), v/len(pre), r.Pick("", "v"))
	}
	b.WriteString(r.Pick("/>", ">x</r>"))
	return []byte(b.String())
}

// bigSiblings: levels that are wider than the pages of the location cache, with mixed children
func bigSiblings(r *Rng) []byte {
	var b strings.Builder
	levels := r.In(1, 4)
	n := []int{33, 64, 130, 260, 520, 1030}[r.N(6)]
	if v := dictLen(r, 3000, 3); v > 0 {
		n = v
	}
	b.WriteString(strings.Repeat("<c>", levels))
	rate := []int{0, 1, 5, 50, 100}[r.N(5)]
	for i := 0; i < n; i++ {
		if r.P(rate, 100) {
			b.WriteString("<e>" + strings.Repeat("<f/>", r.Geo(4)) + r.Pick("", "x", "<g><h/></g>") + "</e>")
		} else {
			b.WriteString(r.Pick("<e/>", "<e></e>"))
		}
	}
	b.WriteString(strings.Repeat("</c>", levels))
	return []byte(b.String())
}

// hugeTokens: more tokens than 16 bits count, with deep elements in front of, inside and behind them
func hugeTokens(r *Rng) []byte {
	var b strings.Builder
	n := []int{22000, 33000, 66000, 70000}[r.N(4)]
	nest := func() {
		for i := r.In(1, 3); i > 0; i-- {
			b.WriteString(r.Pick("<a><b><c><d/><d/></c><c/></b><b/></a>", "<a><b><c><d><e>x</e></d></c></b></a>", "<a><b/><b><c/><c/></b></a>", "<a/>", "<a><b/></a>"))
		}
	}
	depth := r.In(1, 5)
	b.WriteString("<r>")
	nest()
	b.WriteString(strings.Repeat("<l>", depth))
	for i := 0; i < n; i++ {
		b.WriteString(r.Pick("<x>t</x>", "<x/>", "<x a='b'/>", "<!--c--><x/>"))
		if r.P(1, 3000) && depth < 5 {
			nest()
		}
	}
	b.WriteString(strings.Repeat("</l>", depth))
	nest()
	nest()
	b.WriteString("</r>")
	return []byte(b.String())
}

// scaleDoc: one of them; big allows documents of some megabytes
func scaleDoc(r *Rng, big bool) []byte {
	if big {
		if r.P(1, 3) {
			return hugeTokens(r)
		}
		k := bigLimits[r.N(len(bigLimits))]
		d := []int{-1, 0, 0, 0, 1}[r.N(5)]
		return limitDoc(r, k, maxTok+d)
	}
	if n := dictLen(r, 3*maxTok, 4); n > 7 {
		return limitDoc(r, bigLimits[r.N(len(bigLimits))], n)
	}
	switch r.N(14) {
	case 10:
		return gridDoc(r, r.N(gridDocs()))
	case 11:
		return pairDoc(r, r.N(pairDocs()))
	case 12, 13:
		f, _ := costFamily(r)
		return f.make(1 << r.In(6, 16))
	case 0, 1:
		k := smallLimits[r.N(len(smallLimits))]
		n := limitSizes(k, r)
		if r.P(1, 3) {
			n = someLen(r, n)
		}
		if n < 8 {
			n = 8
		}
		return limitDoc(r, k, n)
	case 2, 3:
		return longNames(r)
	case 4:
		return longItems(r)
	case 5:
		return manyTokens(r)
	case 6:
		return manyLines(r)
	case 7:
		return manyScopes(r)
	case 8:
		return wideAttrs(r)
	}
	return bigSiblings(r)
}

// relKinds: two names of which one is the beginning of the other, or which differ at one place only
var relKinds = []string{
	"<a xmlns:L='u' S:x=''/>", "<a xmlns:L='u'><S:b/></a>", "<a xmlns:S='u' L:x=''/>", "<a xmlns:S='u'><L:b/></a>", // undeclared
	"<a xmlns:L='u' xmlns:S='v' S:x='' L:x=''/>", "<a xmlns:S='u' xmlns:L='v'><S:b L:x='' S:x=''/></a>",
	"<a xmlns:S='u' xmlns:L='u' S:x='' L:x=''/>",
	"<a xmlns:S='u'><b xmlns:L='u'/><L:c/></a>", "<a xmlns:L='u'><b xmlns:S='u' S:x=''/><c S:x=''/></a>", // out of scope
	"<L></S>", "<S></L>", "<a><S><L/></L></a>", // end tags; those above are about prefixes
	"<L><S/></L>", "<a S='' L=''/>", "<a L='' S=''/>", "<a L='' S='' L=''/>", "<a S='' L='' S=''/>",
	"<a xmlns:p='S' xmlns:q='L' p:x='' q:x=''/>", "<a xmlns:p='L' xmlns:q='S' p:x='' q:x=''/>", "<a xmlns:p='L' xmlns:q='L' p:x='' q:x=''/>",
	"<a xmlns:p='S' xmlns:q='p' q:L='' p:S=''/>", "<p:a xmlns:p='S' p:L='' p:S='' L='' S=''/>", "<p:a xmlns:p='S' xmlns:q='S' p:S='' q:S='' L='' S=''/>",
}

// relDoc is document number i of these
func relDoc(i int) []byte {
	k := relKinds[i%len(relKinds)]
	i /= len(relKinds)
	form := i % 4
	n := relLens[i/4%len(relLens)]
	uri := strings.Contains(k, "='S'") || strings.Contains(k, "='L'")
	pre := strings.Contains(k, "S:") || strings.Contains(k, ":S")
	max := maxName - 4
	if pre || strings.Contains(k, ":L") {
		max = maxPre - 2
	}
	if uri && !pre && !strings.Contains(k, "L=''") {
		max = 70000
	}
	for n > max {
		n /= 2
	}
	var s, l string
	switch form {
	case 0: // longer by n
		s, l = "pq", "pq"+strings.Repeat("r", n)
	case 1:
		s, l = "p", "p"+strings.Repeat("p", n)
	case 2: // equally long, other last character
		s = "p" + strings.Repeat("r", n)
		l = s[:n] + "s"
	case 3: // equally long, other first character
		s = "p" + strings.Repeat("r", n)
		l = "q" + s[1:]
	}
	return []byte(strings.NewReplacer("S", s, "L", l).Replace(k))
}

var relLens = func() []int {
	var l []int
	for i := 1; i <= 70; i++ {
		l = append(l, i)
	}
	for p := 128; p <= 65536; p *= 2 {
		l = append(l, p-3, p-2, p-1, p, p+1, p+2)
		if p < 1024 {
			l = append(l, p+p/2, p+p/4)
		}
	}
	return append(l, 100, 300, 500, 507, 508, 1000, 1500, 1900, 2040, 2041, 2042, 2043)
}()

func relDocs() int { return len(relKinds) * 4 * len(relLens) }

// baseDoc: a small generated document, sometimes a large one
func baseDoc(r *Rng, n int) []byte {
	if directed() && r.P(1, 20) {
		return scaleDoc(r, false)
	}
	if r.P(1, 60) {
		return scaleDoc(r, r.P(1, 40))
	}
	d, _ := GenDoc(r, n)
	return d
}
