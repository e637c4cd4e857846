package main

import (
	"fmt"
	"strings"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
)

// snapshot writes down everything a navigator shows: tokens, strings, the answers to a
// fixed walk. Offsets are reported relative to base. names controls how name lengths are
// reported (they differ with namespace awareness).
func snapshot(nav navigation.Nav, seed uint64, base int, plainNames bool, moves int) (s string, p *libPanic) {
	var b strings.Builder
	p = guard(func() {
		n := nav.GetVtdBufferSize()
		fmt.Fprintf(&b, "tokens %d encoding %d\n", n, nav.GetEncoding())
		for i := 0; i < n; i++ {
			t, e1 := nav.GetTokenType(i)
			o, e2 := nav.GetTokenOffset(i)
			l, e3 := nav.GetTokenLength(i)
			d, e4 := nav.GetTokenDepth(i)
			if plainNames && (t == tStart || t == tAttr || t == tNs) {
				l &= 0xffff
			}
			if t != tDoc {
				o -= int32(base)
			}
			fmt.Fprintf(&b, "%d: %d %d %d %d", i, t, o, l, d)
			if e1 != nil || e2 != nil || e3 != nil || e4 != nil {
				fmt.Fprintf(&b, " errors %v %v %v %v", e1, e2, e3, e4)
			}
			if l&0xffffff < 5000 && l < 100000000 {
				s1, e1 := nav.ToStringAtIndex(i)
				s2, e2 := nav.ToRawStringAtIndex(i)
				fmt.Fprintf(&b, " %q %v %q %v", s1, e1, s2, e2)
			}
			b.WriteByte('\n')
		}
		r := NewRng(seed)
		walk := func() {
			dir := dirs[r.N(len(dirs))]
			if dir == navigation.Root && r.P(2, 3) {
				dir = navigation.FirstChild
			}
			ok, err := nav.ToElement(dir)
			cur, err2 := nav.GetCurrentIndex()
			fmt.Fprintf(&b, "move %d: %v %v at %d %v\n", dir, ok, err, cur, err2)
		}
		for i := 0; i < moves; i++ {
			walk()
		}
	})
	if p != nil {
		fmt.Fprintf(&b, "panic: %s at %s\n", p.msg, p.stack)
	}
	return b.String(), p
}

// full parses and writes everything down, also errors
func full(doc []byte, o Opts, seed uint64, base int, plainNames bool, moves int) string {
	res := Parse(doc, o)
	if !res.Ok {
		return res.Outcome()
	}
	s, _ := snapshot(res.Nav, seed, base, plainNames, moves)
	return s
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		var p, q string
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			return fmt.Sprintf("%q against %q", clipStr(p, 500), clipStr(q, 500))
		}
	}
	return ""
}

// hugeOptions compares cursors and tokens of documents of very many tokens under different options
func hugeOptions(c *Ctx) {
	r := c.R
	n := []int{1<<16 - 1, 1<<16 + 1, 1<<15 + 1, 1<<17 + 3}[r.N(4)]
	if c.Case%400 == 399 {
		n = 1<<20 + 9
	}
	doc := hugeTree(r, n, []int{-1, 0, 1, 2, 3}[r.N(5)])
	var navs []navigation.Nav
	var names []string
	for _, o := range []Opts{{Lc: 3}, {Lc: 5, Ns: true}, {Lc: 5, Reuse: 1, Win: true, Off: 3, N: len(doc)}, {Lc: 3, Ns: true, Reuse: 2}} {
		x := doc
		if o.Win {
			x = append([]byte("<a>"), doc...)
		}
		c.Doc(x, o)
		res := Parse(x, o)
		if !res.Ok {
			c.Detail("document", show(doc)).Fail("options %s: %s", o, res.Outcome())
		}
		navs = append(navs, res.Nav)
		names = append(names, o.String())
	}
	c.Detail("document", show(doc))
	c.lib("tokens", func() {
		for i, nav := range navs {
			if nav.GetVtdBufferSize() != navs[0].GetVtdBufferSize() {
				c.Fail("options %s give %d tokens, %s give %d", names[i], nav.GetVtdBufferSize(), names[0], navs[0].GetVtdBufferSize())
			}
			for k := 0; k < nav.GetVtdBufferSize(); k += 1 + r.N(20) {
				t, _ := nav.GetTokenType(k)
				o, _ := nav.GetTokenOffset(k)
				d, _ := nav.GetTokenDepth(k)
				t0, _ := navs[0].GetTokenType(k)
				o0, _ := navs[0].GetTokenOffset(k)
				d0, _ := navs[0].GetTokenDepth(k)
				if i == 2 && k > 0 {
					o -= 3
				}
				if t != t0 || o != o0 || d != d0 {
					c.Fail("options %s: token %d is (%d %d %d), with %s it is (%d %d %d)", names[i], k, t, o, d, names[0], t0, o0, d0)
				}
			}
		}
		for m := 0; m < 600; m++ {
			d := []navigation.Direction{2, 3, 2, 3, 4, 5, 4, 5, 1, 0}[r.N(10)]
			if d == navigation.Root && r.P(4, 5) {
				d = navigation.LastChild
			}
			var ok0 bool
			var at0 int32
			for i, nav := range navs {
				ok, _ := nav.ToElement(d)
				at, err := nav.GetCurrentIndex()
				if i == 0 {
					ok0, at0 = ok, at
				} else if ok != ok0 || at != at0 || err != nil {
					c.Fail("options %s: after %d moves direction %d gives %v at token %d, with %s it gives %v at token %d", names[i], m, d, ok, at, names[0], ok0, at0)
				}
			}
		}
	})
	c.Eval(len(navs))
	c.Distinct(hashBytes(doc))
	c.Count("huge documents", 1)
	c.Count("variants compared", len(navs)-1)
}

// allMoves performs every direction from the current position and goes on with the given seed
func init() {
	register(&Check{
		ID: "C07", Title: "location cache, namespace and reuse options do not change results", Cases: func(t string) int {
			p := planFor(t)
			return p.random*6/10 + p.soup
		},
		Need: map[string]int64{"variants compared": 100000, "namespace modes compared": 10000, "without prefixes": 5000, "accepted": 20000},
		Rule: "generated, edited and soup documents; each is parsed with cache depth 3, 5, default and undefined values, reuse on and off, options in either order, whole and through an equal window, with and without namespaces; outcome, tokens, strings and a random walk of the cursor are compared; distinct by document",
		Tech: "metamorphic monitor: complete observations of the same document under different options compared",
		Run: func(c *Ctx) {
			p := planFor(c.Tier)
			p.random = p.random * 6 / 10
			if c.Case < p.random && c.Case%40 == 39 {
				hugeOptions(c)
				return
			}
			i := 0
			p.each(c, func(doc []byte, kind string) {
				i++
				if c.Case >= p.random && i%8 != 0 {
					return
				}
				c.Detail("document", show(doc)).Detail("kind", kind)
				seed := c.R.U64()
				var base [2]string
				okDoc := false
				for m, ns := range []bool{false, true} {
					o0 := Opts{Ns: ns}
					c.Doc(doc, o0)
					base[m] = full(doc, o0, seed, 0, false, 60)
					if strings.HasPrefix(base[m], "tokens") {
						okDoc = true
						c.Count("accepted", 1)
					}
					vs := []Opts{{Ns: ns, Lc: 3}, {Ns: ns, Lc: 5}, {Ns: ns, Lc: 5, Reuse: c.R.In(1, 2), Order: 1}, {Ns: ns, Lc: 3, Reuse: c.R.In(1, 2), Win: true, N: len(doc), Order: c.R.N(2)},
						{Ns: ns, Lc: 5, Win: true, N: len(doc)}, {Ns: ns, Reuse: 1}}
					for _, o := range vs {
						if c.R.P(1, 3) {
							continue
						}
						x := doc
						if !o.Win && c.R.P(1, 3) {
							x = far(c.R, doc, &o)
						}
						s := full(x, o, seed, o.Off, false, 60)
						c.Eval(1)
						c.Count("variants compared", 1)
						if s != base[m] {
							c.Fail("options %s give another result than %s: %s", o, o0, firstDiff(s, base[m]))
						}
					}
				}
				c.Distinct(hashBytes(doc))
				if !okDoc {
					return
				}
				// namespace awareness
				f, t := strings.HasPrefix(base[0], "tokens"), strings.HasPrefix(base[1], "tokens")
				if t && !f {
					c.Fail("accepted with namespaces only: %s", clipStr(base[0], 500))
				}
				if f && !t {
					ref := RefParse(doc, true)
					if ref.V == Accept && !ref.Soft {
						c.Fail("namespace awareness rejects a document without namespace error: %s", clipStr(base[1], 500))
					}
				}
				if f && t {
					a := full(doc, Opts{}, seed, 0, true, 60)
					b := full(doc, Opts{Ns: true}, seed, 0, true, 60)
					c.Count("namespace modes compared", 1)
					if a != b {
						c.Fail("the modes differ in more than name lengths: %s", firstDiff(a, b))
					}
				}
				// without any prefix the results are the same
				ref := RefParse(doc, false)
				pref := false
				for _, t := range ref.Toks {
					if (t.Type == tStart || t.Type == tAttr || t.Type == tNs) && (t.Pre > 0 || strings.Contains(string(doc[t.Off:t.Off+t.Len]), ":")) || t.Type == tNs {
						pref = true
					}
				}
				if ref.V == Accept && !ref.Soft && !pref && !strings.Contains(string(doc), "<?") && !strings.Contains(string(doc), "DOCTYPE") {
					c.Count("without prefixes", 1)
					if base[0] != base[1] {
						c.Fail("namespace awareness changes the result for a document without prefixes: %s", firstDiff(base[0], base[1]))
					}
				}
				if c.Case%300 == 1 && i%10 == 1 {
					c.Sample("%s", show(doc))
				}
			})
		},
	})
}
