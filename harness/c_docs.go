package main

import (
	"fmt"
	"strings"
)

// shrink removes pieces of the document while the predicate stays true
func shrink(d []byte, pred func([]byte) bool) []byte {
	tries := 0
	for n := len(d) / 2; n >= 1 && tries < 1500; {
		any := false
		for i := 0; i+n <= len(d) && tries < 1500; {
			x := splice(d, i, i+n, "")
			tries++
			if len(x) > 0 && pred(x) {
				d = x
				any = true
			} else {
				i += n
			}
		}
		if n == 1 && !any {
			break
		}
		if n > 1 {
			n /= 2
		}
	}
	return d
}

// docCases: the first cases take random documents, the rest enumerate the soups
type docPlan struct {
	random, soup, soupLen, size, batch int
	alphabet                           []string
}

func (p docPlan) cases() int { return p.random + p.soup }

// templates have every construct next to every other; all their one-place edits are tried
var templates = []string{
	"<?xml version=\"1.0\" encoding='utf-8' standalone=\"no\" ?>\n<!--c--><a/>",
	"<?xml version='1.1' standalone='yes'?><a></a>",
	"<?xml version = '1.0'\nencoding=\"us-ascii\"?><a b=''>c</a>",
	"<a b=\"c\" d = 'e'  f='&lt;g'>t&#65;u&#x42;</a >",
	"<a><!--x-->t<!--y--><b/>]]&gt;<![CDATA[z]]>v<?p q?>w<c></c></a>",
	"<a><b><c/></b><d>x</d></a><!--e--> <?f g?>\n",
	"<?p?><!DOCTYPE a [<!ELEMENT a ANY>]><?q r?> <a/>",
	"<!--a--><?b?><a/><?c d?><!--e-->",
	"<x:a xmlns:x=\"u\" xmlns='v' x:b=\"1\"><x:c/></x:a>",
	"<é ü=\"中\">😀</é>",
	"\xef\xbb\xbf<a>\r\n</a>\r",
	"<a>  <b/>  <!--c-->  </a>",
	"<a><![CDATA[]]><![CDATA[]]]]><![CDATA[>]]></a>",
	"<a ><b\n/><?p?><?p  ?><?q x??></a>",
	"<!DOCTYPE a SYSTEM \"x'y\" [<!ENTITY b \"c>\"><!-- d -->]><a>&amp;&apos;&quot;&gt;</a>",
	"<a><!--x--><!--y--><?p?><![CDATA[c]]><b></b>&lt;<b/></a>",
	"<a b='&#x26;&#38;&quot;' c=\"&apos;'>\"/>",
	"<ab><ab/><abc></abc><a-b></a-b></ab>",
	"<a>x<!---->]<?p ?>y]]<b c='d'/>]</a>",
}

var editAlphabet = []string{"<", ">", "/", "&", ";", "'", "\"", "=", "!", "?", "-", "[", "]", ":", " ", "\n", "#", "x", "X", "0", "1", "a", "A", ".", "t", "s", "\x00", "\x80", "\xff", "\xc3", "\uffff", "\ufffe", "\ufffd", "é", "中", "😀", "×", "·", "\r", "\t", "\ufeff", "<!--", "-->", "]]>", "--", "]]", "?>", "</", "/>", "<?", "<![CDATA[", "&lt;", "\xed\xa0\x80", "\xef\xbf", "<a>", "</a>", "<b/>", "_", "9", "b", "$", "(", ",", "%", "ſ"}

// oneEdit is edit number i of all the templates, nil behind the last one
func oneEdit(i int, alphabet []string) []byte {
	for _, t := range templates {
		n := (2*len(alphabet) + 1) * (len(t) + 1)
		if i >= n {
			i -= n
			continue
		}
		at := i % (len(t) + 1)
		k := i / (len(t) + 1)
		to := min(at+1, len(t))
		switch {
		case k == 0:
			return splice([]byte(t), at, to, "")
		case k <= len(alphabet):
			return splice([]byte(t), at, at, alphabet[k-1])
		}
		return splice([]byte(t), at, to, alphabet[k-1-len(alphabet)])
	}
	return nil
}

// cutEdit is cut number i of all the templates with one or two pieces behind it, nil behind the last one
func cutEdit(i int, pieces []string, n int) []byte {
	for _, t := range templates {
		m := len(pieces) * (len(t) + 1)
		if n == 2 {
			m *= len(pieces)
		}
		if i >= m {
			i -= m
			continue
		}
		d := t[:i%(len(t)+1)]
		k := i / (len(t) + 1)
		for j := 0; j < n; j++ {
			d += pieces[k%len(pieces)]
			k /= len(pieces)
		}
		return []byte(d)
	}
	return nil
}

// special names: beginnings and variations of the reserved words with any character behind them,
// wherever a name can stand
var specialWords = []string{"", "x", "xm", "xml", "XML", "Xml", "xML", "xmL", "X", "xmln", "xmlns", "XMLNS", "xmlnsx", "xmlxml", "xmlm", "yml", "xnl", "xmk"}
var specialBehind = []string{"", " ", "\t", "\n", "\r", "\r\n", "?", ":", "-", ".", "_", "0", "a", "l", "x", "z", "A", "Z", "·", "é", "×", "中", "\u0300", "\u2028", "\ufffd", "\uffff", "😀", "\U00010000", "\U000EFFFF", "\U000F0000", "\U0010FFFF", "\x80", "\xff", "\x00", "/", ">", "<", "=", "'", "\"", "&", ";", "!", "ſ", "\u0085", "\u00a0", ":x", ":xml", ":xmlns"}
var specialFrames = []string{
	"<?N?><a/>", "<?N d?><a/>", "<?xml version='1.0'?><?N?><a/>", "<!--c--><?N d?><a/>", "<a><?N?></a>", "<a>t<?N d?>t</a>", "<a><b/><?N version='1.0'?></a>", "<a/><?N?>", "<a/>\n<?N d?>", "<!DOCTYPE a><?N d?><a/>", "<a/><?N",
	"<N/>", "<N>t</N>", "<N >t</N >", "<a><N/></a>", "<a N='u'/>", "<a b='c' N = 'u'>t</a>", "<a><b N=\"u\"/></a>", "<a N:c='d'/>", "<N:a/>", "<a xmlns:N='u'/>", "<a xmlns:N='u' N:b=''/>", "<!DOCTYPE N><a/>",
}

// specialDoc is document number i of these
func specialDoc(i int) []byte {
	f := specialFrames[i%len(specialFrames)]
	i /= len(specialFrames)
	return []byte(strings.ReplaceAll(f, "N", specialWords[i%len(specialWords)]+specialBehind[i/len(specialWords)]))
}

func specialDocs() int { return len(specialFrames) * len(specialWords) * len(specialBehind) }

func (p docPlan) each(c *Ctx, f func(doc []byte, kind string)) {
	if c.Case < p.random {
		s := &Source{c.R, p.size}
		for i := 0; i < p.batch; i++ {
			d, k := s.Next()
			f(d, k)
		}
		return
	}
	k := c.Case - p.random
	for si := range soups {
		sp := &soups[si]
		n := p.soupLen
		for sp.count(n) > 200000 {
			n--
		}
		for i := k; i < sp.count(n); i += p.soup {
			f(sp.doc(i), "soup: "+sp.name)
		}
	}
	for i := k; i < relDocs(); i += p.soup {
		f(relDoc(i), "related names")
	}
	for i := k; i < specialDocs(); i += p.soup {
		f(specialDoc(i), "special names")
	}
	for i := k; i < pairDocs(); i += p.soup {
		f(pairDoc(c.R, i), "pairs")
	}
	for i := k; i < gridDocs(); i += p.soup {
		f(gridDoc(c.R, i), "one item deep inside")
	}
	for i := k; i < reservedDocs(); i += p.soup {
		f(reservedDoc(c.R, i), "reserved namespaces spelled")
	}
	alphabet := p.alphabet
	if directed() {
		alphabet = append(append([]string(nil), alphabet...), dictPieces()...)
	}
	for i := k; ; i += p.soup {
		d := oneEdit(i, alphabet)
		if d == nil {
			break
		}
		f(d, "one-place edit")
		if c.R.P(1, 40) {
			f(amplify(c.R, d), "one-place edit, amplified")
		}
	}
}

func planFor(tier string) docPlan {
	if tier == "thorough" {
		l := append([]string(nil), editAlphabet...)
		for i := 0; i < 256; i++ {
			l = append(l, string([]byte{byte(i)}))
		}
		return docPlan{random: 24000, soup: 400, soupLen: 4, size: 40, batch: 60, alphabet: append(l, badChars...)}
	}
	return docPlan{random: 2000, soup: 80, soupLen: 4, size: 20, batch: 30, alphabet: editAlphabet}
}

// wide has more random documents, for checks that look at accepted ones only
func widePlan(tier string) docPlan {
	p := planFor(tier)
	p.random *= 4
	return p
}

const longEvery = 500

func wideCases(tier string) int { return widePlan(tier).cases() }

func planCases(tier string) int { return planFor(tier).cases() }

func opts(ns bool, r *Rng) Opts {
	return Opts{Ns: ns, Lc: []int{0, 3, 5}[r.N(3)], Reuse: r.N(3), Order: r.N(2)}
}

// mayFar is mustAccept, sometimes with the document far inside a slice
func mayFar(c *Ctx, doc []byte, o Opts, ref *Ref, kind string) {
	if c.R.P(1, 5) {
		doc = far(c.R, doc, &o)
	}
	mustAccept(c, doc, o, ref, kind)
}

// mustAccept: a document the reference accepts has to be accepted
func mustAccept(c *Ctx, doc []byte, o Opts, ref *Ref, kind string) *Res {
	c.Doc(doc, o)
	res := Parse(doc, o)
	if res.Ok {
		return res
	}
	small, win := doc, o.String()
	if o.Win {
		small = doc[o.Off : o.Off+o.N]
		o.Win, o.Off, o.N = false, 0, 0
	}
	small = shrink(small, func(d []byte) bool {
		g := RefParse(d, o.Ns)
		return g.V == Accept && !g.Soft && !Parse(d, o).Ok
	})
	c.Detail("document", show(doc)).Detail("smaller document", show(small)).Detail("options", win).Detail("kind", kind)
	c.Fail("a well-formed document is not accepted: %s (smaller document: %s)", res.Outcome(), Parse(small, o).Outcome())
	return nil
}

func mustReject(c *Ctx, doc []byte, o Opts, ref *Ref, kind string) {
	if c.R.P(1, 5) {
		doc = far(c.R, doc, &o)
	}
	c.Doc(doc, o)
	res := Parse(doc, o)
	if res.Err != nil && res.Panic == nil {
		// no navigator either
		var err error
		var got bool
		if p := guard(func() {
			if res.P != nil {
				n, e := res.P.GetNav()
				err, got = e, n != nil
			} else {
				err = fmt.Errorf("no parser")
			}
		}); p != nil {
			c.Fail("GetNav panics after an error: %s", p.msg)
		}
		if err == nil || got {
			c.Detail("document", show(doc)).Fail("GetNav gives a navigator after an error: %s", res.Outcome())
		}
		return
	}
	small, win := doc, o.String()
	if o.Win {
		small = doc[o.Off : o.Off+o.N]
		o.Win, o.Off, o.N = false, 0, 0
	}
	small = shrink(small, func(d []byte) bool {
		g := RefParse(d, o.Ns)
		return g.V == Reject && g.Class == ref.Class && Parse(d, o).Ok
	})
	c.Detail("document", show(doc)).Detail("smaller document", show(small)).Detail("options", win).Detail("kind", kind)
	c.Fail("a document that violates the rule %q at byte %d gives: %s", ref.Class, ref.Pos, res.Outcome())
}

// sameTokens compares the recorded tokens with those of the reference
func tokDiff(nav []Tok, ref *Ref, o Opts, base int) string {
	for i := 0; i < len(nav) || i < len(ref.Toks); i++ {
		if i >= len(nav) {
			return fmt.Sprintf("token %d is missing: expected %s", i, refTokStr(&ref.Toks[i], o, base))
		}
		if i >= len(ref.Toks) {
			return fmt.Sprintf("token %d is not in the document: %v", i, nav[i])
		}
		t, w := nav[i], expTok(&ref.Toks[i], o, base)
		if ref.Toks[i].AnyOff {
			t.Off = w.Off
		}
		if t != w {
			return fmt.Sprintf("token %d is %v, expected %s", i, nav[i], refTokStr(&ref.Toks[i], o, base))
		}
	}
	return ""
}

func expTok(t *RefTok, o Opts, base int) Tok {
	w := Tok{t.Type, t.Off + base, t.Len, t.Depth}
	if t.Type == tDoc {
		w.Off = 0
	}
	if o.Ns && (t.Type == tStart || t.Type == tAttr || t.Type == tNs) {
		w.Len = t.Pre<<16 | t.Len
	}
	return w
}

func refTokStr(t *RefTok, o Opts, base int) string {
	return fmt.Sprintf("%v", expTok(t, o, base))
}

func checkTokens(c *Ctx, doc []byte, o Opts, ref *Ref, res *Res, kind string) []Tok {
	toks, err, pan := NavToks(res.Nav)
	base := 0
	if o.Win {
		base = o.Off
	}
	c.Detail("options", o.String()).Detail("kind", kind)
	switch {
	case pan != nil:
		c.Detail("document", show(doc)).Fail("token query panics: %s at %s", pan.msg, pan.stack)
	case err != nil:
		c.Detail("document", show(doc)).Fail("token query inside the recorded tokens fails: %v", err)
	}
	if d := tokDiff(toks, ref, o, base); d != "" {
		c.Detail("document", show(doc))
		if !o.Win {
			small := shrink(doc, func(d []byte) bool {
				g := RefParse(d, o.Ns)
				if g.V != Accept {
					return false
				}
				r := Parse(d, o)
				if !r.Ok {
					return false
				}
				t, e, p := NavToks(r.Nav)
				return e == nil && p == nil && tokDiff(t, g, o, 0) != ""
			})
			c.Detail("smaller document", show(small))
		}
		c.Fail("%s", d)
	}
	return toks
}

func init() {
	register(&Check{
		ID: "C02", GC: 400, Title: "well-formed documents are accepted", Cases: wideCases,
		Need: map[string]int64{"accepted": 20000, "accepted with namespaces": 10000},
		Rule: "random generated documents (own style each: markup mix, spacing, quoting, character ranges, nesting, namespaces, exact sizes around the buffer classes), edited and amplified documents, one-place edits of templates, related names, pairs of places at chosen distances, one item of a chosen size at a chosen depth (valid or broken at its end) and all short sequences of markup pieces; a case is non-trivial when the independent reference reader finds it well-formed within the limits, distinct by document and mode",
		Tech: "differential monitor: parser run on generated documents, verdict of an independent XML reader as oracle",
		Run: func(c *Ctx) {
			judge := func(doc []byte, kind string) {
				for _, ns := range []bool{false, true} {
					ref := RefParse(doc, ns)
					if ref.V != Accept || ref.Soft {
						continue
					}
					o := opts(ns, c.R)
					mayFar(c, doc, o, ref, kind)
					c.Eval(1)
					c.Count("accepted", 1)
					if ns {
						c.Count("accepted with namespaces", 1)
					}
					c.Distinct(hashBytes(doc) + uint64(o.Lc))
					if c.Case%400 == 1 {
						c.Sample("%s %s", o, show(doc))
					}
				}
			}
			widePlan(c.Tier).each(c, judge)
			if n := c.Case; n%longEvery == 9 {
				doc, kind := longDoc(c.R, n/longEvery)
				judge(doc, kind)
				c.Count("documents with a run of many megabytes", 1)
			}
		},
	})

	register(&Check{
		ID: "C03", GC: 400, Title: "violations of well-formedness are rejected", Cases: wideCases,
		Need: needClasses("eof", "encoding", "char", "prolog text", "stray end tag", "name", "misplaced CDATA", "misplaced DOCTYPE", "markup declaration", "text after root", "content after root", "xml declaration",
			"quote", "-- in comment", "pi target", "pi end", "reserved pi target", "tag end", "attribute", "duplicate attribute", "< in attribute value", "reference", "]]> in text", "tag mismatch"),
		Rule: "edited well-formed documents (about 40 kinds of edits at the places the reference reader found: tags, attributes, references, characters, comments, instructions, sections, declarations), random byte edits, amplified edits, pairs of places at chosen distances, one item of a chosen size at a chosen depth (valid or broken at its end) and all short sequences of markup pieces; non-trivial when the reference reader finds a violated rule; distinct by document",
		Tech: "differential monitor: rule-breaking edits, verdict of an independent XML reader as oracle",
		Run: func(c *Ctx) {
			i := 0
			judge := func(doc []byte, kind string) {
				i++
				if kind == "generated" {
					// every edit gets its turn
					doc2, k := Mutate(c.R, doc, RefParse(doc, false), c.Case+i)
					doc, kind = doc2, "edited: "+k
					if c.R.P(1, 4) {
						doc = amplify(c.R, doc)
					}
				}
				ref := RefParse(doc, false)
				if ref.V != Reject {
					return
				}
				for _, ns := range []bool{false, true} {
					mustReject(c, doc, opts(ns, c.R), ref, kind)
					c.Eval(1)
				}
				c.Count("rejected: "+ref.Class, 1)
				c.Distinct(hashBytes(doc))
				if c.Case%400 == 1 && i%10 == 1 {
					c.Sample("%s (%s): %s", ref.Class, kind, show(doc))
				}
			}
			widePlan(c.Tier).each(c, judge)
			if n := c.Case; n%longEvery == 9 { // something wrong late in a run of very many characters
				doc, kind := longDoc(c.R, n/longEvery)
				at := len(doc) - 4 - c.R.N(40)
				if c.R.P(1, 3) {
					at = c.R.In(len(doc)/2, len(doc))
				}
				doc = splice(doc, at, at, c.R.Pick("\x00", "]]>", "--", "<", "&", "&x;", "\ufffe", "\xed\xa0\x80", "\x80", "</a", "<!-- -- -->", "\xff", "<b>"))
				judge(doc, kind)
				c.Count("documents with a run of many megabytes", 1)
			}
		},
	})

	register(&Check{
		ID: "C04", GC: 400, Title: "the token stream", Cases: wideCases,
		Need: map[string]int64{"documents compared": 20000, "tokens compared": 500000, "type 0": 1000, "type 2": 1000, "type 3": 1000, "type 4": 1000, "type 5": 1000, "type 6": 1000, "type 7": 1000, "type 8": 1000, "type 9": 1000, "type 10": 1000, "type 11": 1000, "type 12": 1000},
		Rule: "as for C02; every token (type, offset, length, depth) of every accepted document is compared with the list the reference reader makes from the bytes; distinct by document and mode",
		Tech: "differential monitor: recorded token stream against the token list of an independent XML reader",
		Run: func(c *Ctx) {
			judge := func(doc []byte, kind string) {
				for _, ns := range []bool{false, true} {
					if len(doc) > 1<<21 && c.R.P(1, 2) {
						continue
					}
					ref := RefParse(doc, ns)
					if ref.V != Accept {
						continue
					}
					o := opts(ns, c.R)
					full := doc
					if c.R.P(1, 4) { // a window: offsets are those in the slice
						pre := c.R.N(40)
						o.Win, o.Off, o.N = true, pre, len(doc)
						full = append(append(append(make([]byte, 0, len(doc)+pre+3), strings.Repeat("#", pre)...), doc...), "</a"...)
					} else if c.R.P(1, 4) {
						full = far(c.R, doc, &o)
					}
					c.Doc(full, o)
					res := Parse(full, o)
					if !res.Ok {
						c.Count("not accepted (other property)", 1)
						continue
					}
					toks := checkTokens(c, full, o, ref, res, kind)
					c.Eval(1)
					c.Count("documents compared", 1)
					c.Count("tokens compared", len(toks))
					for _, t := range toks {
						c.Count(fmt.Sprintf("type %d", t.Type), 1)
					}
					c.Distinct(hashBytes(doc) + uint64(o.Lc))
					if c.Case%400 == 1 {
						c.Sample("%s %d tokens %s", o, len(toks), show(doc))
					}
				}
			}
			widePlan(c.Tier).each(c, judge)
			if n := c.Case; n%longEvery == 7 { // one run of very many characters
				doc, kind := longDoc(c.R, n/longEvery)
				judge(doc, kind)
				c.Count("documents with a run of many megabytes", 1)
			}
		},
	})

	register(&Check{
		ID: "C05", GC: 400, Title: "namespace well-formedness", Cases: planCases,
		Need: needClasses("ns: xmlns declared", "ns: xml bound to another name", "ns: reserved name", "ns: empty binding", "ns: xmlns element", "ns: element prefix", "ns: attribute prefix", "ns: duplicate attribute"),
		Rule: "documents with random declarations, prefixes and scopes, all kinds of edits of them, small trees with declarations and uses at all places and depths, pairs at chosen distances, the reserved namespaces spelled with references at every place, and random small trees over a pool of declarations and prefixed names; non-trivial when the document uses a prefix or a declaration; distinct by document",
		Tech: "differential monitor: namespace rules of an independent reader against the parser in both modes",
		Run: func(c *Ctx) {
			i := 0
			var judge func(doc []byte, kind string)
			judge = func(doc []byte, kind string) {
				i++
				if c.R.P(1, 20) {
					judge(amplify(c.R, doc), kind+", amplified")
				}
				if directed() && c.R.P(1, 8) && !strings.HasSuffix(kind, "dictionary") {
					d := dictName(c.R, doc)
					if c.R.P(1, 2) {
						d = dictEdit(c.R, d)
					}
					judge(d, kind+", dictionary")
				}
				if !strings.Contains(string(doc), ":") && !strings.Contains(string(doc), "xmlns") {
					return
				}
				ref := RefParse(doc, true)
				plain := RefParse(doc, false)
				switch {
				case ref.V == Reject && ref.Ns:
					mustReject(c, doc, opts(true, c.R), ref, kind)
					c.Count("rejected: "+ref.Class, 1)
				case ref.V == Accept && !ref.Soft:
					mayFar(c, doc, opts(true, c.R), ref, kind)
					c.Count("accepted with namespaces", 1)
				default:
					c.Count("not judged: "+ref.V.String(), 1)
					return
				}
				c.Eval(1)
				if plain.V == Accept && !plain.Soft {
					mayFar(c, doc, opts(false, c.R), plain, kind)
					c.Eval(1)
					c.Count("accepted without namespaces", 1)
				}
				c.Distinct(hashBytes(doc))
				if c.Case%300 == 1 && i%20 == 1 {
					c.Sample("%v %s: %s", ref.V, ref.Class, show(doc))
				}
			}
			p := planFor(c.Tier)
			if c.Case >= p.random {
				// one element: all combinations of a name and up to three of the attributes
				n := len(nsAttrs)
				k := c.Case - p.random
				for x := k; x < len(nsElems)*n*n*n; x += p.soup {
					y := x
					e := nsElems[y%len(nsElems)]
					y /= len(nsElems)
					d := "<" + e + " " + nsAttrs[y%n] + " " + nsAttrs[y/n%n] + " " + nsAttrs[y/n/n%n] + "/>"
					judge([]byte(d), "one element")
					if x%3 == k%3 {
						judge([]byte("<r xmlns:q='w' xmlns:p='u' "+nsAttrs[c.R.N(8)]+"><z/>"+d+"<q:k/>"+"</r>"), "nested element")
					}
				}
				for x := k; x < relDocs(); x += p.soup {
					judge(relDoc(x), "related names")
				}
				for x := k; x < specialDocs(); x += p.soup {
					judge(specialDoc(x), "special names")
				}
				for x := k; x < pairDocs(); x += p.soup {
					judge(pairDoc(c.R, x), "pairs")
				}
				for x := k; x < reservedDocs(); x += p.soup {
					judge(reservedDoc(c.R, x), "reserved namespaces spelled")
				}
				for x := k; x < gridDocs(); x += p.soup {
					judge(gridDoc(c.R, x), "one item deep inside")
				}
				for x := k; ; x += p.soup {
					d := oneEdit(x, p.alphabet)
					if d == nil {
						break
					}
					judge(d, "one-place edit")
				}
				// small trees with declarations and uses at all places, at all kinds of depths
				for si, shape := range scopeShapes {
					for x := k; x < scopeCount(si); x += p.soup {
						if len(shape) > 6 {
							if c.Tier != "quick" || (x/p.soup+int(c.Seed))%3 == 0 {
								judge(scopeTree(c.R, shape, x, 1+[]int{c.R.N(10), c.R.N(10), someLen(c.R, 250)}[c.R.N(3)]), "scope tree")
							}
							continue
						}
						for _, above := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 251} {
							if above < 11 || (x/p.soup+above)%4 == 0 || c.Tier != "quick" {
								judge(scopeTree(c.R, shape, x, above), "scope tree")
							}
						}
					}
				}
				return
			}
			for b := 0; b < p.batch; b++ {
				judge(nsSoup(c.R), "namespace soup")
				judge(uriPairs(c.R), "namespace names of several spellings")
				if c.R.P(1, 12) {
					switch c.R.N(5) {
					case 0, 1, 2:
						judge(longNames(c.R), "long names")
					case 3:
						judge(manyScopes(c.R), "many scopes")
					case 4:
						judge(wideAttrs(c.R), "many attributes")
					}
				}
				st := randStyle(c.R, p.size)
				st.NsMode = 1
				st.MaxAttrs += 2
				d := GenStyle(c.R, st)
				judge(d, "generated")
				ref := RefParse(d, false)
				for k := 0; k < 3; k++ {
					m, name := Mutate(c.R, d, ref, len(mutators)-1-c.R.N(3))
					judge(m, "edited: "+name)
				}
			}
		},
	})

	register(&Check{
		ID: "C21", GC: 400, Title: "truncations", Cases: tiers(700, 9000),
		Need: map[string]int64{"cuts rejected": 30000, "cuts accepted": 200, "cuts inside the epilog": 200},
		Rule: "generated documents (with epilogs, long ones too), cut at every byte (long ones at a sample of bytes and at every markup position); non-trivial: the cut lies inside the document; distinct by cut document",
		Tech: "enumeration of all truncations of generated documents, acceptance and tokens monitored",
		Run: func(c *Ctx) {
			for b := 0; b < 4; b++ {
				st := randStyle(c.R, 8)
				if b%2 == 0 {
					st.Epilog = c.R.In(1, 4)
				}
				st.LongName, st.ManyAttrs, st.ManyDecls = 0, 0, 0
				if st.NsMode == 2 {
					st.NsMode = 0
				}
				if st.TextLen > 40 {
					st.TextLen = 40
				}
				doc := GenStyle(c.R, st)
				switch c.R.N(12) {
				case 0:
					doc = longItems(c.R)
				case 1:
					doc = scaleDoc(c.R, false)
					if c.R.P(1, 3) {
						doc = gridDoc(c.R, c.R.N(gridDocs()))
					}
				case 2, 3:
					doc = amplify(c.R, doc)
				case 4:
					if x := ampNest(c.R, doc); x != nil {
						doc = x
					}
				case 5: // much behind the root
					if c.R.P(1, 2) {
						if c.R.P(1, 2) {
							doc = []byte(c.R.Pick("<a/>", "<a></a>", "<a>x</a>", "<a b='c'></a>", "<a><b/></a>"))
						}
						c.R.huge = c.R.P(1, 2)
						n := ampLen(c.R)
						c.R.huge = false
						fill := rep(c.R.Pick("a", "é", "\n", "x ", "中", "?", "- "), n)
						end := c.R.Pick("<!--"+fill+"-->", "<?p "+fill+"?>", strings.Repeat("<!---->", n/7), strings.Repeat("<?p?>", n/5), "<?"+rep("p", n)+"?>", strings.Repeat("\n", n)+"<!--c-->")
						doc = append(append([]byte{}, doc...), end...)
					}
				}
				full := RefParse(doc, false)
				if full.V != Accept {
					c.Count("base not used", 1)
					continue
				}
				lim := 2500
				// long documents: around the markup and the ends of tokens, elsewhere a sample
				near := make([]bool, len(doc)+8)
				if len(doc) > lim {
					budget := 1500
					mark := func(i int) {
						for k := max(i-3, 0); k < i+5 && k < len(near); k++ {
							if !near[k] {
								near[k] = true
								budget--
							}
						}
					}
					for i := full.RootEnd; i < len(doc) && budget > 0; i++ {
						if doc[i] == '<' || doc[i] == '>' {
							mark(i)
						}
					}
					for i := 0; i < 200 && budget > 0; i++ {
						t := full.Toks[c.R.N(len(full.Toks))]
						mark(t.Off)
						mark(t.Off + t.Len)
					}
				}
				out := func(cut int) bool {
					return cut > lim && !near[cut] && (cut < full.RootEnd-200 || cut > full.RootEnd+400) && (cut%37 != 0 || len(doc) > 10000 && !c.R.P(1, len(doc)/5000))
				}
				keep, of := 1, 1
				if len(doc) > 40000 { // a number of them, very long documents
					keep, of = max(12000000/len(doc), 12), 0
					for cut := 1; cut <= len(doc); cut++ {
						if !out(cut) {
							of++
						}
					}
					c.Count("cut documents of more than 40000 bytes", 1)
				}
				for cut := 1; cut <= len(doc); cut++ {
					if out(cut) || keep < of && !c.R.P(keep, of) {
						continue
					}
					d := doc[:cut:cut]
					ns := c.R.P(1, 2)
					ref := RefParse(d, ns)
					if ref.Ns || ref.V == Hard {
						continue
					}
					o := opts(ns, c.R)
					src := d
					if c.R.P(1, 2) { // as a window of the whole document
						o.Win, o.Off, o.N = true, 0, cut
						src = doc
					}
					c.Doc(src, o)
					c.Eval(1)
					c.Distinct(hashBytes(d))
					if ref.V == Reject {
						if cut < full.RootEnd || !strings.HasPrefix(ref.Class, "limit") {
							mustReject(c, src, o, ref, fmt.Sprintf("cut at %d of %d", cut, len(doc)))
							c.Count("cuts rejected", 1)
							if cut > full.RootEnd {
								c.Count("cuts inside the epilog", 1)
							}
						}
						continue
					}
					if cut < full.RootEnd {
						panic("harness: reference accepts a cut document: " + show(d))
					}
					if ref.Soft {
						continue
					}
					res := Parse(src, o)
					if !res.Ok {
						c.Detail("document", show(d)).Fail("cut behind a complete item at byte %d of %d is not accepted: %s", cut, len(doc), res.Outcome())
					}
					toks := checkTokens(c, src, o, ref, res, "cut")
					for i, t := range toks {
						end := t.Off + t.Len&0xffff
						if t.Type != tStart && t.Type != tAttr && t.Type != tNs {
							end = t.Off + t.Len
						}
						if end > cut {
							c.Detail("document", show(d)).Fail("token %d %v reaches beyond the cut at %d", i, t, cut)
						}
					}
					c.Count("cuts accepted", 1)
				}
				if c.Case%200 == 1 {
					c.Sample("%d bytes: %s", len(doc), show(doc))
				}
			}
		},
	})
}

func needClasses(l ...string) map[string]int64 {
	m := map[string]int64{}
	for _, s := range l {
		m["rejected: "+s] = 20
	}
	return m
}
