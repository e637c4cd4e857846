package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/parser"
)

// ---- the cursor model ----

const atDoc = -1

type cursor struct {
	ref *Ref
	at  int
	sib []int // position among the siblings, by node
}

func newCursor(ref *Ref) *cursor {
	c := &cursor{ref: ref, at: atDoc, sib: make([]int, len(ref.Nodes))}
	for i := range ref.Nodes {
		for k, ch := range ref.Nodes[i].Children {
			c.sib[ch] = k
		}
	}
	return c
}

// move gives where the move leads; ok is false if there is no such element
func (c *cursor) move(dir navigation.Direction) bool {
	n := c.ref.Nodes
	switch dir {
	case navigation.Root:
		c.at = 0
		return true
	case navigation.Parent:
		if c.at == atDoc {
			return false
		}
		c.at = n[c.at].Parent // -1 for the root
		return true
	case navigation.FirstChild, navigation.LastChild:
		if c.at == atDoc {
			c.at = 0
			return true
		}
		ch := n[c.at].Children
		if len(ch) == 0 {
			return false
		}
		if dir == navigation.FirstChild {
			c.at = ch[0]
		} else {
			c.at = ch[len(ch)-1]
		}
		return true
	}
	if c.at <= 0 {
		return false
	}
	sibs := n[n[c.at].Parent].Children
	k := c.sib[c.at]
	if dir == navigation.NextSibling {
		k++
	} else {
		k--
	}
	if k < 0 || k >= len(sibs) {
		return false
	}
	c.at = sibs[k]
	return true
}

func (c *cursor) index() int {
	if c.at == atDoc {
		return 0
	}
	return c.ref.Nodes[c.at].Tok
}

var dirName = map[navigation.Direction]string{navigation.Root: "root", navigation.Parent: "parent", navigation.FirstChild: "first", navigation.LastChild: "last", navigation.NextSibling: "next", navigation.PrevSibling: "prev"}

// step moves navigator and model and compares
func step(c *Ctx, nav navigation.Nav, m *cursor, dir navigation.Direction, hist *[]navigation.Direction) bool {
	before := m.at
	want := m.move(dir)
	*hist = append(*hist, dir)
	var got bool
	var err, err2 error
	var cur int32
	pan := guard(func() {
		got, err = nav.ToElement(dir)
		cur, err2 = nav.GetCurrentIndex()
	})
	bad := ""
	switch {
	case pan != nil:
		bad = "panics: " + pan.msg + " at " + pan.stack
	case got != want || err != nil:
		bad = fmt.Sprintf("gives %v %v, expected %v", got, err, want)
	case err2 != nil || int(cur) != m.index():
		bad = fmt.Sprintf("leaves the cursor at token %d (%v), expected %d", cur, err2, m.index())
	}
	if bad != "" {
		var h []string
		l := *hist
		if len(l) > 60 {
			h = append(h, fmt.Sprintf("(%d moves)", len(l)-60))
			l = l[len(l)-60:]
		}
		for _, d := range l {
			h = append(h, dirName[d])
		}
		where := "the document"
		if before >= 0 {
			where = fmt.Sprintf("token %d (depth %d, %d children)", m.ref.Nodes[before].Tok, m.ref.Nodes[before].Depth, len(m.ref.Nodes[before].Children))
		}
		c.Detail("moves", strings.Join(h, " ")).Fail("move %s from %s %s", dirName[dir], where, bad)
	}
	return want
}

func navOf(c *Ctx, doc []byte, o Opts) *Res {
	c.Doc(doc, o)
	c.Detail("document", show(doc)).Detail("options", o.String())
	res := Parse(doc, o)
	if !res.Ok {
		c.Count("not accepted (other property)", 1)
		return nil
	}
	return res
}

// ---- trees ----

// dyck lists all ordered forests of n nodes as strings of parentheses
func dyck(n int) []string {
	var out []string
	var rec func(s []byte, open, close int)
	rec = func(s []byte, open, close int) {
		if open == n && close == n {
			out = append(out, string(s))
			return
		}
		if open < n {
			rec(append(s, '('), open+1, close)
		}
		if close < open {
			rec(append(s, ')'), open, close+1)
		}
	}
	rec(nil, 0, 0)
	return out
}

var allShapes = func() []string {
	var l []string
	for n := 0; n <= 8; n++ {
		l = append(l, dyck(n)...)
	}
	return l
}

// treeDoc writes the forest inside a root, below a chain of the given length
func treeDoc(shape string, chain int, r *Rng, dress bool) []byte {
	var b strings.Builder
	misc := func() {
		if !dress || r.P(1, 2) {
			return
		}
		b.WriteString(r.Pick("t", "<!--c-->", "<?p d?>", "<![CDATA[x]]>", " ", "t&amp;<!--c-->u"))
	}
	open := func() {
		b.WriteString("<e")
		if dress && r.P(1, 3) {
			b.WriteString(r.Pick(" a='1'", " a='1' b='2'", " xmlns='u'"))
		}
	}
	for i := 0; i < chain; i++ {
		open()
		b.WriteString(">")
		misc()
	}
	open()
	b.WriteString(">")
	misc()
	for i := 0; i < len(shape); i++ {
		if shape[i] == '(' {
			open()
			if shape[i+1] == ')' && dress && r.P(1, 2) {
				b.WriteString("/>")
				i++
				misc()
				continue
			}
			b.WriteString(">")
			misc()
		} else {
			b.WriteString("</e>")
			misc()
		}
	}
	for i := 0; i <= chain; i++ {
		b.WriteString("</e>")
		misc()
	}
	s := b.String()
	return []byte(s[:strings.LastIndexByte(s, '>')+1][:strings.LastIndex(s, "</e>")+4])
}

// bushDoc is a random tree with wide levels
func bushDoc(r *Rng) []byte {
	var b strings.Builder
	widths := []int{1, 2, 3, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 3000}
	wide := r.In(0, 5) // the wide level
	W := widths[r.N(len(widths))]
	if n := dictLen(r, 4000, 3); n > 0 {
		W = n
	}
	second := -1
	if r.P(1, 3) {
		second = r.In(0, 5)
	}
	budget := 9000
	chainMax := r.In(3, 9)
	var rec func(d int)
	rec = func(d int) {
		b.WriteString("<e>")
		budget--
		k := 0
		switch {
		case d == wide || d == second:
			k = W
			if d == second {
				k = widths[r.N(8)]
			}
		case d < wide:
			k = r.In(1, 2)
			if r.P(1, 4) {
				k = r.N(4)
			}
		case d < chainMax:
			k = []int{0, 0, 0, 1, 1, 2, 3}[r.N(7)]
		}
		for i := 0; i < k && budget > 0; i++ {
			if r.P(1, 30) {
				b.WriteString(r.Pick("t", "<!--c-->", "<?p?>"))
			}
			rec(d + 1)
		}
		b.WriteString("</e>")
	}
	rec(0)
	d := []byte(b.String())
	if r.P(1, 3) {
		d = sizedDoc(r, d, []int{1024, 1025, 4096, 4097, 16384, 16385, 65536, 65537, 262144, 262145, 300000}[r.N(11)])
	}
	return d
}

// gapDoc: levels on which an element with children is followed by a chosen number without
func gapDoc(r *Rng) []byte {
	var b strings.Builder
	chain := []int{0, 0, 1, 1, 2, r.N(6)}[r.N(6)]
	b.WriteString(strings.Repeat("<a>", chain+1))
	kids := func() string {
		return r.Pick("<b><c/></b>", "<b><c/><c/><c/></b>", "<b><c><d/></c></b>", "<b><c><d/><d/></c><c/></b>", "<b><c/><c><d/></c></b>")
	}
	empty := r.Pick("<b/>", "<b></b>", "<b>t</b>", "<b d=''/>")
	for left := 4000; left > 0; {
		n := someLen(r, 2500)
		if r.P(1, 4) {
			n = r.N(6)
		}
		left -= n + 4
		b.WriteString(kids() + strings.Repeat(empty, n))
		if chain > 0 && r.P(1, 4) {
			b.WriteString("</a><a>")
		}
	}
	b.WriteString(r.Pick("", kids()) + strings.Repeat("</a>", chain+1))
	return []byte(b.String())
}

// hugeTree: below a short chain, elements with very many tokens in them between small ones
func hugeTree(r *Rng, n, k int) []byte {
	var b strings.Builder
	if k < 0 {
		k = r.In(0, 7)
	}
	b.WriteString(strings.Repeat("<a>", k+1))
	unit := r.Pick("<c/>", "<c></c>", "<c>t</c>", "<c/>t", "<!--c-->", "<c d=''/>")
	if strings.Contains(unit, "t") || strings.Contains(unit, "d") {
		n = n/2 + 1
	}
	for i := r.In(2, 5); i > 0; i-- {
		if r.P(1, 2) || i == 2 {
			m := n
			if i != 2 {
				m = r.In(1, 1<<16)
			}
			b.WriteString("<b>" + r.Pick("", "<f/>") + strings.Repeat(unit, m) + r.Pick("", "<f/>", "<f><g/></f>") + "</b>")
		} else {
			b.WriteString(r.Pick("<d/>", "<d><e/></d>", "<d>t</d>"))
		}
	}
	b.WriteString(r.Pick("", "<z/>", "<z><y/><x/></z>") + strings.Repeat("</a>", k+1))
	return []byte(b.String())
}

// spanElem is an element of exactly n tokens
func spanElem(r *Rng, b *strings.Builder, n int) {
	name := r.Pick("b", "b", "bb", "d")
	if n <= 1 {
		b.WriteString("<" + name + r.Pick("/>", "></"+name+">"))
		return
	}
	b.WriteString("<" + name + ">")
	n--
	// shells that hold all the rest
	var shells []string
	for n > 2 && len(shells) < 5 && r.P(2, 5) {
		e := r.Pick("f", "g")
		b.WriteString("<" + e + ">")
		shells = append(shells, e)
		n--
	}
	mix := r.N(5)
	for n > 0 {
		k := mix
		if k == 4 {
			k = r.N(4)
		}
		switch {
		case k == 1 && n >= 2:
			b.WriteString("<c>t</c>")
			n -= 2
		case k == 2 && n >= 3:
			b.WriteString("<c d='e'/>")
			n -= 3
		case k == 3 && n >= 1:
			b.WriteString("<!--c-->")
			n--
		default:
			b.WriteString("<c/>")
			n--
		}
		if len(shells) > 0 && n > 0 && r.P(1, 200) {
			b.WriteString("</" + shells[len(shells)-1] + ">")
			shells = shells[:len(shells)-1]
		}
	}
	for i := len(shells) - 1; i >= 0; i-- {
		b.WriteString("</" + shells[i] + ">")
	}
	b.WriteString("</" + name + ">")
}

// forest: below a chain very many small elements with zero, one or two elements in each, so that
// every number of elements up to more than 2^16 lies in front of some element and of its children
func forest(r *Rng, n, chain int) []byte {
	var b strings.Builder
	b.WriteString(strings.Repeat("<a>", chain+1))
	one := r.Pick("<b><c/></b>", "<b><c/></b>", "<b><c><d/></c></b>", "<b>t<c/></b>", "<b><c d='e'/></b>")
	mix := []int{0, 20, 3}[r.N(3)]
	for i := 0; i < n; i++ {
		if mix > 0 && r.P(1, mix) {
			b.WriteString(r.Pick("<b/>", "<b><c/><c/></b>", "<b><c><d/><d/></c></b>", "<b>t</b>"))
		} else {
			b.WriteString(one)
		}
	}
	b.WriteString(strings.Repeat("</a>", chain+1))
	return []byte(b.String())
}

// spanTree: below a chain, siblings that are a chosen number of tokens apart
func spanTree(r *Rng, chain int) []byte {
	var b strings.Builder
	b.WriteString(strings.Repeat("<a>", chain+1))
	for total := 0; total < 30000; {
		n := r.In(1, 300)
		if v := dictLen(r, 40000, 2); v > 0 {
			n = v
		} else if r.P(2, 3) {
			n = 1<<r.In(4, 14) + r.In(-2, 2)
		} else if r.P(1, 6) {
			n = 1<<r.In(4, 12)*r.In(3, 9) + r.In(-1, 1)
		}
		spanElem(r, &b, n)
		total += n
	}
	b.WriteString(r.Pick("", "<z/>", "<z><y/></z>") + strings.Repeat("</a>", chain+1))
	return []byte(b.String())
}

func init() {
	shapes := []string(nil)
	register(&Check{
		ID: "C06", Title: "cursor navigation agrees with the element tree", Cases: tiers(1600, 12000), CPU: 60,
		Need: map[string]int64{"moves": 3000000, "trees enumerated": 1000, "wide documents": 100, "deep documents": 20, "huge documents": 8, "documents with gaps": 20, "forests traversed": 10, "span documents": 100, "spans stepped over": 5000, "moves that fail": 500000, "nodes visited by traversal": 100000},
		Rule: "all ordered trees of up to 9 elements below chains of 0 to 5 elements with all move sequences up to length 4 and random walks; random trees with one or two wide levels, (around every buffer page size), levels with gaps between elements that have children, forests of more than 2^16 elements, subtrees and spans of chosen numbers of tokens at depth 0 to 5, deep chains, dives to every level followed by any move, and generated documents with complete forward and backward traversals and random walks; cache depth 3 and 5; every result and cursor position compared with the tree of the reference reader; distinct by document and cache depth",
		Tech: "online monitor: cursor shadowed by the element tree, exhaustive small trees and random walks",
		Run: func(c *Ctx) {
			r := c.R
			if shapes == nil {
				shapes = allShapes()
			}
			run := func(doc []byte, o Opts, f func(nav navigation.Nav, m *cursor, fresh func() navigation.Nav)) bool {
				ref := RefParse(doc, o.Ns)
				if ref.V != Accept {
					return false
				}
				res := navOf(c, doc, o)
				if res == nil {
					return false
				}
				c.Distinct(hashBytes(doc) + uint64(o.Lc))
				c.Eval(1)
				f(res.Nav, newCursor(ref), func() navigation.Nav {
					var n *navigation.VtdNav
					c.lib("GetNav", func() { n, _ = res.P.GetNav() })
					if n == nil {
						c.Fail("GetNav fails after a successful parse")
					}
					return n
				})
				return true
			}
			start := func(nav navigation.Nav, m *cursor) {
				m.at = atDoc
				var cur int32
				var err error
				c.lib("GetCurrentIndex", func() { cur, err = nav.GetCurrentIndex() })
				if cur != 0 || err != nil {
					c.Fail("the cursor starts at token %d (%v), expected the document", cur, err)
				}
			}
			walk := func(nav navigation.Nav, m *cursor, n, mode int) {
				var hist []navigation.Direction
				for i := 0; i < n; i++ {
					var d navigation.Direction
					switch mode {
					case 0: // anything
						d = dirs[r.N(6)]
						if d == navigation.Root && r.P(3, 4) {
							d = navigation.NextSibling
						}
					case 1: // tends to go down
						d = []navigation.Direction{2, 3, 2, 3, 4, 5, 4, 1}[r.N(8)]
						if m.at > 0 && len(m.ref.Nodes[m.at].Children) == 0 && r.P(1, 3) {
							d = navigation.Parent
						}
					case 2: // siblings
						d = []navigation.Direction{4, 5, 4, 4, 5, 2, 3, 1}[r.N(8)]
					}
					if !step(c, nav, m, d, &hist) {
						c.Count("moves that fail", 1)
					}
				}
				c.Count("moves", n)
			}
			traverse := func(nav navigation.Nav, m *cursor, back bool) {
				var hist []navigation.Direction
				first, next := navigation.FirstChild, navigation.NextSibling
				if back {
					first, next = navigation.LastChild, navigation.PrevSibling
				}
				step(c, nav, m, navigation.Root, &hist)
				count := 0
				moves := 1
				for {
					count++
					moves++
					if step(c, nav, m, first, &hist) {
						continue
					}
					up := false
					for {
						moves++
						if step(c, nav, m, next, &hist) {
							break
						}
						moves++
						step(c, nav, m, navigation.Parent, &hist)
						if m.at == 0 {
							up = true
							break
						}
						if m.at == atDoc { // single element
							up = true
							break
						}
					}
					if up {
						break
					}
					if len(hist) > 4000 {
						hist = hist[len(hist)-100:]
					}
				}
				if count != len(m.ref.Nodes) {
					c.Fail("a traversal visits %d of %d elements", count, len(m.ref.Nodes))
				}
				c.Count("nodes visited by traversal", count)
				c.Count("moves", moves)
			}
			// straight down to a chosen level, and from there anything
			dive := func(nav navigation.Nav, m *cursor, max int) {
				var hist []navigation.Direction
				for k := 0; k < 12; k++ {
					step(c, nav, m, navigation.Root, &hist)
					n := max
					if r.P(2, 3) {
						n = r.In(1, max+1)
					}
					for d := 0; d < n; d++ {
						if !step(c, nav, m, dirs[2+r.N(2)], &hist) {
							break
						}
						for len(m.ref.Nodes[m.at].Children) == 0 && d+1 < n {
							if !step(c, nav, m, dirs[4+r.N(2)], &hist) {
								break
							}
						}
					}
					up := []int{0, 0, 1, 2, r.N(n + 1)}[r.N(5)]
					for ; up > 0; up-- {
						step(c, nav, m, navigation.Parent, &hist)
					}
					if r.P(1, 2) {
						step(c, nav, m, navigation.Root, &hist)
					}
					for i := 0; i < 8; i++ {
						d := dirs[1+r.N(5)]
						if i == 0 || r.P(1, 6) {
							d = dirs[r.N(6)]
						}
						step(c, nav, m, d, &hist)
					}
					c.Count("dives", 1)
					if len(hist) > 3000 {
						hist = hist[len(hist)-300:]
					}
				}
			}
			switch {
			case c.Case%100 == 99: // subtrees of very many tokens
				sizes := []int{1<<16 - 1, 1<<16 + 1, 1<<17 + 3, 1<<15 + 1, 1<<18 + 1, 1<<16 + 1, 1<<r.In(10, 17) + r.In(-2, 2), 3<<r.In(10, 15) + r.In(-2, 2)}
				n := sizes[r.N(len(sizes))]
				if v := dictLen(r, 1<<19, 2); v > 0 {
					n = v
				}
				if c.Case%800 == 799 {
					n = 1<<20 + 9
				}
				chain := []int{-1, 3, -1, 4, 5}[c.Case/100%5]
				if n > 1<<20 {
					chain = r.In(2, 5)
				}
				doc := hugeTree(r, n, chain)
				run(doc, Opts{Lc: []int{3, 5}[r.N(2)], Ns: r.P(1, 2)}, func(nav navigation.Nav, m *cursor, fresh func() navigation.Nav) {
					var hist []navigation.Direction
					for k := 0; k < 4; k++ {
						step(c, nav, m, navigation.Root, &hist)
						for d := r.In(2, 9); d > 0; d-- {
							if len(m.ref.Nodes[m.at].Children) > 3 && r.P(2, 3) {
								// along the huge level
								step(c, nav, m, dirs[2+r.N(2)], &hist)
								for i := r.N(30); i > 0; i-- {
									step(c, nav, m, dirs[4+r.N(2)], &hist)
								}
								step(c, nav, m, navigation.Parent, &hist)
								step(c, nav, m, navigation.LastChild, &hist)
								step(c, nav, m, navigation.NextSibling, &hist)
								step(c, nav, m, navigation.Parent, &hist)
							}
							for i := r.N(4); i > 0; i-- {
								step(c, nav, m, dirs[4+r.N(2)], &hist)
							}
							step(c, nav, m, dirs[2+r.N(2)], &hist)
						}
						for d := 0; d < 10; d++ {
							step(c, nav, m, dirs[4+r.N(2)], &hist)
							if r.P(1, 3) {
								step(c, nav, m, navigation.Parent, &hist)
							}
						}
						if len(hist) > 300 {
							hist = hist[len(hist)-60:]
						}
					}
					c.Count("huge documents", 1)
				})
			case c.Case%100 == 98: // every number of elements in front
				n := 1<<16 + 1<<r.In(3, 10)
				if v := dictLen(r, 1<<18, 2); v > 0 {
					n = v + r.N(100)
				} else if r.P(1, 3) {
					n = 1 << r.In(10, 15)
				}
				doc := forest(r, n, c.Case/100%6)
				run(doc, Opts{Lc: []int{3, 5}[r.N(2)], Ns: r.P(1, 3)}, func(nav navigation.Nav, m *cursor, fresh func() navigation.Nav) {
					traverse(nav, m, r.P(1, 2))
					c.Count("forests traversed", 1)
				})
			case c.Case < 400 || c.Tier == "thorough" && c.Case < 4000:
				n := 400
				if c.Tier == "thorough" {
					n = 4000
				}
				for s := c.Case; s < len(shapes)*6; s += n {
					shape, chain := shapes[s%len(shapes)], s/len(shapes)
					dress := r.P(1, 2)
					doc := treeDoc(shape, chain, r, dress)
					for _, lc := range []int{3, 5} {
						run(doc, Opts{Lc: lc, Ns: r.P(1, 2)}, func(nav navigation.Nav, m *cursor, fresh func() navigation.Nav) {
							c.Count("trees enumerated", 1)
							start(nav, m)
							walk(nav, m, 150, r.N(3))
							traverse(nav, m, false)
							traverse(nav, m, true)
							// all short sequences from a place in the tree
							total := 6 * 6 * 6
							if len(shape) <= 10 {
								total *= 6
							}
							var pre []navigation.Direction
							pre = append(pre, navigation.Root)
							for i := 0; i < chain+r.N(3); i++ {
								pre = append(pre, dirs[2+r.N(2)])
							}
							for q := 0; q < total; q += 1 + r.N(3) {
								nv := fresh()
								m.at = atDoc
								var hist []navigation.Direction
								if q%5 != 0 {
									for _, d := range pre {
										step(c, nv, m, d, &hist)
									}
								}
								for y, k := q, 0; k < 4; k++ {
									if !step(c, nv, m, dirs[y%6], &hist) {
										c.Count("moves that fail", 1)
									}
									c.Count("moves", 1)
									y /= 6
								}
							}
							if s%500 == 7 {
								c.Sample("lc %d %s", lc, show(doc))
							}
						})
					}
				}
			case c.Case%5 == 1: // siblings a chosen number of tokens apart
				chain := c.Case / 5 % 7
				doc := spanTree(r, chain)
				run(doc, Opts{Lc: []int{3, 5}[r.N(2)], Ns: r.P(1, 2)}, func(nav navigation.Nav, m *cursor, fresh func() navigation.Nav) {
					var hist []navigation.Direction
					for k := 0; k < 4; k++ {
						step(c, nav, m, navigation.Root, &hist)
						for i := 0; i < chain; i++ {
							step(c, nav, m, dirs[2+r.N(2)], &hist)
						}
						first, next := navigation.FirstChild, navigation.NextSibling
						if k%2 == 1 {
							first, next = navigation.LastChild, navigation.PrevSibling
						}
						if !step(c, nav, m, first, &hist) {
							break
						}
						for {
							c.Count("spans stepped over", 1)
							if k >= 2 && r.P(1, 2) { // into the subtree and back
								down := 0
								for down < 6 && r.P(3, 4) && step(c, nav, m, dirs[2+r.N(2)], &hist) {
									down++
									for i := r.N(4); i > 0; i-- {
										step(c, nav, m, dirs[4+r.N(2)], &hist)
									}
								}
								for ; down > 0; down-- {
									step(c, nav, m, navigation.Parent, &hist)
								}
							}
							if k >= 2 && r.P(1, 8) { // another way to the same element
								step(c, nav, m, dirs[4+r.N(2)], &hist)
								step(c, nav, m, navigation.Parent, &hist)
								step(c, nav, m, first, &hist)
							}
							if !step(c, nav, m, next, &hist) {
								break
							}
							if len(hist) > 300 {
								hist = hist[len(hist)-60:]
							}
							if r.P(1, 60) && k >= 2 {
								break
							}
						}
					}
					c.Count("span documents", 1)
				})
			case c.Case%5 != 0:
				doc := bushDoc(r)
				gaps := c.Case%25 == 4 || r.P(1, 25)
				if gaps {
					doc = gapDoc(r)
					c.Count("documents with gaps", 1)
				} else if r.P(1, 4) {
					doc = bigSiblings(r)
				}
				lc := []int{3, 5}[r.N(2)]
				if run(doc, Opts{Lc: lc, Ns: r.P(1, 2)}, func(nav navigation.Nav, m *cursor, fresh func() navigation.Nav) {
					start(nav, m)
					big := len(m.ref.Nodes) > 800
					if gaps {
						traverse(nav, m, false)
						traverse(nav, m, true)
					} else if !big || r.P(1, 2) {
						traverse(nav, m, r.P(1, 2))
						traverse(nav, m, r.P(1, 2))
					}
					// start the walk somewhere else
					for k := 0; k < 4; k++ {
						walk(nav, m, 300, k%3)
						nv := fresh()
						m.at = atDoc
						walk(nv, m, 300, 1)
						m.at = atDoc
						nav = fresh()
						// jump far along a level
						var hist []navigation.Direction
						step(c, nav, m, navigation.Root, &hist)
						for d := 0; d < 6; d++ {
							if !step(c, nav, m, dirs[2+r.N(2)], &hist) {
								break
							}
							for s := []int{0, 1, 5, 33, 70, 300, 1100}[r.N(7)]; s > 0; s-- {
								if !step(c, nav, m, []navigation.Direction{4, 4, 4, 4, 5}[r.N(5)], &hist) {
									break
								}
								c.Count("moves", 1)
							}
							if len(hist) > 3000 {
								hist = hist[len(hist)-60:]
							}
						}
						walk(nav, m, 60, 0)
					}
				}) {
					c.Count("wide documents", 1)
				}
			default:
				// deep chains and documents of the generator
				var doc []byte
				if r.P(1, 2) {
					n := []int{10, 60, 127, 128, 200, 253, 254, 255}[r.N(8)]
					var b bytes.Buffer
					for i := 0; i < n; i++ {
						b.WriteString("<e>")
						if i < n-1 && r.P(1, 4) {
							b.WriteString("<f/>")
						}
					}
					for i := 0; i < n; i++ {
						b.WriteString("</e>")
						if i < n-1 && r.P(1, 4) {
							b.WriteString("<g>x</g>")
						}
					}
					doc = b.Bytes()
					if r.P(1, 3) {
						doc = limitDoc(r, "depth with siblings", r.In(100, 255))
					}
					c.Count("deep documents", 1)
				} else {
					doc, _ = GenDoc(r, 300)
					if r.P(1, 3) {
						doc = scaleDoc(r, false)
					} else if r.P(1, 8) {
						doc = hugeTokens(r)
					} else if r.P(1, 3) {
						doc = amplify(r, doc)
					}
				}
				if r.P(1, 6) { // the same levels deeper inside the document
					if x := ampNest(r, bushDoc(r)); len(x) > 0 && len(x) < 40000 {
						doc = x
					}
				}
				ns := RefParse(doc, true).V == Accept
				run(doc, Opts{Lc: []int{3, 5}[r.N(2)], Ns: ns}, func(nav navigation.Nav, m *cursor, fresh func() navigation.Nav) {
					start(nav, m)
					walk(nav, m, 200, 0)
					max := 0
					for i := range m.ref.Nodes {
						if d := m.ref.Nodes[i].Depth; d > max {
							max = d
						}
					}
					dive(nav, m, max)
					traverse(nav, m, false)
					traverse(nav, m, true)
					walk(nav, m, 500, 1)
					walk(nav, m, 500, 2)
				})
			}
		},
	})

	register(&Check{
		ID: "C08", Title: "string extraction", Cases: tiers(9000, 120000),
		Need: map[string]int64{"token strings": 300000, "ranges": 200000, "with references": 20000, "with carriage returns": 5000, "outside ranges refused": 10000},
		Rule: "generated documents with many references, carriage returns and non-ASCII characters; raw and resolved string of every token and of random byte ranges compared with a computation from the document's bytes; ranges that cut a reference are only required not to crash; distinct by document",
		Tech: "differential monitor: extracted strings against an independent decoding of the bytes",
		Run: func(c *Ctx) {
			r := c.R
			for b := 0; b < 6; b++ {
				st := randStyle(r, 12)
				if b%2 == 0 {
					st.Ref, st.Text, st.MaxAttrs = 60, 80, 3
				}
				if b%3 == 0 {
					st.Crlf = 60
				}
				doc := GenStyle(r, st)
				switch r.N(12) {
				case 0:
					doc = amplify(r, doc)
				case 1:
					doc = amplify(r, amplify(r, doc))
				case 2:
					if doc = longItems(r); len(doc) > 60000 {
						doc = GenStyle(r, st)
					}
				case 3:
					if r.P(1, 3) {
						if doc = scaleDoc(r, false); len(doc) > 60000 {
							doc = longNames(r)
						}
					} else if r.P(1, 2) {
						doc = gridDoc(r, r.N(gridDocs()))
					}
				}
				o := opts(RefParse(doc, true).V == Accept && r.P(1, 2), r)
				ref := RefParse(doc, o.Ns)
				if ref.V != Accept {
					continue
				}
				src, base := doc, 0
				if r.P(1, 3) {
					base = r.In(1, 30)
					src = append(append(bytes.Repeat([]byte(r.Pick("\r", "&", "x")), base), doc...), r.Pick("\nx", "amp;", "\r\n", ";")...)
					o.Win, o.Off, o.N = true, base, len(doc)
				} else if r.P(1, 3) {
					src = far(r, doc, &o)
					base = o.Off
				}
				res := navOf(c, src, o)
				if res == nil {
					continue
				}
				c.Eval(1)
				c.Distinct(hashBytes(doc))
				for i, t := range ref.Toks {
					if t.AnyOff || t.Type == tDoc {
						continue
					}
					bs := doc[t.Off : t.Off+t.Len]
					var raw, res2 string
					var e1, e2 error
					c.lib(fmt.Sprintf("string of token %d", i), func() {
						raw, e1 = res.Nav.ToRawStringAtIndex(i)
						res2, e2 = res.Nav.ToStringAtIndex(i)
					})
					judgeString(c, "raw string", t, bs, raw, e1, false)
					judgeString(c, "string", t, bs, res2, e2, t.Type == tText || t.Type == tVal)
					c.Count("token strings", 2)
					if bytes.IndexByte(bs, '&') >= 0 && (t.Type == tText || t.Type == tVal) {
						c.Count("with references", 1)
					}
					if bytes.IndexByte(bs, '\r') >= 0 {
						c.Count("with carriage returns", 1)
					}
				}
				for k := 0; k < 60; k++ {
					a := r.N(len(doc) + 1)
					n := r.In(0, len(doc)-a)
					if r.P(2, 3) && n > 30 {
						n = r.N(30)
					}
					if r.P(1, 5) && len(ref.Toks) > 1 {
						t := ref.Toks[1+r.N(len(ref.Toks)-1)]
						if !t.AnyOff {
							a, n = t.Off, t.Len
						}
					}
					bs := doc[a : a+n]
					var raw, rs string
					var e1, e2 error
					c.lib(fmt.Sprintf("strings of range %d+%d", base+a, n), func() {
						raw, e1 = res.Nav.ToRawStringAtRange(int32(base+a), int32(n))
						rs, e2 = res.Nav.ToStringAtRange(int32(base+a), int32(n))
					})
					t := RefTok{Type: -1, Off: a, Len: n}
					judgeString(c, "raw string", t, bs, raw, e1, false)
					judgeString(c, "string", t, bs, rs, e2, true)
					c.Count("ranges", 1)
				}
				// outside the slice
				for k := 0; k < 10 && len(src) < 1<<20; k++ {
					var e1, e2 error
					off, n := int32(r.In(0, len(src)-1)), int32(0)
					switch r.N(4) {
					case 0:
						n = int32(len(src)) - off + int32(r.In(1, 9))
					case 1:
						off = -int32(r.In(1, 50))
						n = int32(r.In(1, 60))
					case 2:
						n = -int32(r.In(1, 1000))
					case 3:
						off, n = int32(extremes[r.N(len(extremes))]), int32(r.In(1, 50))
						if off >= 0 && int(off)+int(n) <= len(src) {
							continue
						}
					}
					c.lib(fmt.Sprintf("strings of range %d+%d", off, n), func() {
						_, e1 = res.Nav.ToRawStringAtRange(off, n)
						_, e2 = res.Nav.ToStringAtRange(off, n)
					})
					if e1 == nil || e2 == nil {
						if !(n > 0 && e1 != nil) { // a reference may still end the resolved form early
							c.Fail("range %d+%d outside the document of %d bytes is not refused: %v %v", off, n, len(src), e1, e2)
						}
					}
					c.Count("outside ranges refused", 1)
				}
				if c.Case%200 == 1 {
					c.Sample("%s", show(doc))
				}
			}
		},
	})

	register(&Check{
		ID: "C22", Title: "queries are read-only and cursors independent", Cases: tiers(10000, 80000),
		Need: map[string]int64{"operations": 2000000, "moves": 300000, "queries repeated": 1000000, "indices refused": 100000},
		Rule: "several navigators of one parsed document (and of a second parse of it) under random interleavings of queries and moves; every answer compared with the one recorded first from a fresh navigator, every cursor with its own model; distinct by document",
		Tech: "online monitor over interleaved histories: recorded answers and one cursor model per navigator",
		Run: func(c *Ctx) {
			r := c.R
			for b := 0; b < 2; b++ {
				var doc []byte
				if r.P(1, 4) {
					doc = bushDoc(r)
					if len(doc) > 60000 {
						doc, _ = GenDoc(r, 30)
					}
				} else if r.P(1, 6) {
					doc = manyTokens(r)
				} else if r.P(1, 8) {
					doc = scaleDoc(r, false)
				} else if r.P(1, 30) { // very many tokens, or very long ones
					r.huge = true
					base := bushDoc(r)
					if len(base) > 20000 {
						base, _ = GenDoc(r, 30)
					}
					if x := ampHuge[r.N(len(ampHuge))](r, base); len(x) > 0 {
						base = x
					}
					doc, r.huge = base, false
					c.Count("documents with a very long part", 1)
				} else {
					doc, _ = GenDoc(r, []int{5, 20, 60}[r.N(3)])
					if r.P(1, 10) {
						doc = amplify(r, doc)
					}
				}
				ns := r.P(1, 2) && RefParse(doc, true).V == Accept
				ref := RefParse(doc, ns)
				if ref.V != Accept {
					continue
				}
				o := opts(ns, r)
				res := navOf(c, doc, o)
				if res == nil {
					continue
				}
				o2 := o
				o2.Lc = 8 - o.Lc
				if o.Lc == 0 {
					o2.Lc = 5
				}
				res2 := Parse(doc, o2)
				if !res2.Ok {
					c.Fail("second parse of the same document: %s", res2.Outcome())
				}
				c.Eval(1)
				c.Distinct(hashBytes(doc) + uint64(o.Lc))
				type nv struct {
					n navigation.Nav
					m *cursor
				}
				var navs []nv
				get := func(p *parser.VtdParser) {
					c.lib("GetNav", func() {
						n, err := p.GetNav()
						if err != nil {
							panic(fmt.Sprint("GetNav fails: ", err))
						}
						navs = append(navs, nv{n, newCursor(ref)})
					})
				}
				navs = append(navs, nv{res.Nav, newCursor(ref)})
				get(res.P)
				get(res.P)
				navs = append(navs, nv{res2.Nav, newCursor(ref)})
				answers := map[string]string{}
				n := len(ref.Toks)
				hists := make([][]navigation.Direction, len(navs)+1)
				last := 0
				for k := 0; k < 500; k++ {
					i := r.N(len(navs))
					v := navs[i]
					c.Count("operations", 1)
					if r.P(1, 40) { // no direction
						d := navigation.Direction(extremes[r.N(len(extremes))])
						if d >= 0 && d <= 5 {
							d = navigation.Direction(6 + r.N(3))
						}
						var ok bool
						var err error
						c.lib(fmt.Sprintf("ToElement(%d)", d), func() { ok, err = v.n.ToElement(d) })
						if ok || !isKind(err, kNav) {
							c.Fail("ToElement(%d) gives %v %v", d, ok, err)
						}
						c.Count("illegal directions refused", 1)
						continue
					}
					if r.P(1, 4) {
						if len(hists[i]) > 300 {
							hists[i] = hists[i][200:]
						}
						step(c, v.n, v.m, dirs[[]int{0, 1, 2, 2, 3, 3, 4, 4, 5, 5}[r.N(10)]], &hists[i])
						c.Count("moves", 1)
						if k == 250 && len(navs) == 4 {
							get(res.P)
						}
						continue
					}
					idx := r.N(n)
					q := r.N(10)
					if r.P(1, 2) { // near the last one, the same one, or at a power of two from it
						d := []int{0, 0, 1, 2, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, n / 2}[r.N(14)]
						if r.P(1, 2) {
							d = -d
						}
						if last+d >= 0 && last+d < n {
							idx = last + d
						}
					}
					last = idx
					if r.P(1, 12) {
						idx = n + r.N(5)
						if r.P(1, 2) {
							idx = extremes[r.N(len(extremes))]
							if idx >= 0 && idx < n {
								idx = n
							}
						} else if r.P(1, 3) {
							idx = -1 - r.N(4)
						}
						q = r.N(6)
					}
					var ans string
					var err error
					var a, l int32
					c.lib(fmt.Sprintf("query %d of token %d", q, idx), func() {
						switch q {
						case 0:
							a, err = v.n.GetTokenType(idx)
							ans = fmt.Sprint(a)
						case 1:
							a, err = v.n.GetTokenOffset(idx)
							ans = fmt.Sprint(a)
						case 2:
							a, err = v.n.GetTokenLength(idx)
							ans = fmt.Sprint(a)
						case 3:
							a, err = v.n.GetTokenDepth(idx)
							ans = fmt.Sprint(a)
						case 4:
							ans, err = v.n.ToStringAtIndex(idx)
						case 5:
							ans, err = v.n.ToRawStringAtIndex(idx)
						case 6:
							ans = fmt.Sprint(v.n.GetVtdBufferSize(), v.n.GetEncoding())
							idx = 0
						case 7, 8:
							// a range, the same one for the same index
							rr := NewRng(c.Seed, uint64(idx), uint64(len(doc)))
							a = int32(rr.N(len(doc)))
							l = int32(rr.In(0, len(doc)-int(a)))
							if l > 50 {
								l = 50
							}
							if rr.P(1, 4) { // refused, in different ways
								switch rr.N(4) {
								case 0:
									a, l = int32(len(doc)+rr.N(100)), int32(rr.In(1, 9))
								case 1:
									a, l = -int32(rr.In(1, 100)), int32(rr.In(1, 200))
								case 2:
									l = -int32(rr.In(1, 100))
								case 3:
									if k := bytes.IndexByte(doc[a:], '&'); k >= 0 {
										a, l = a+int32(k)+int32(rr.N(2)), int32(rr.In(1, 4))
									} else {
										l = int32(len(doc)) - a + 1
									}
								}
							}
							if q == 7 {
								ans, err = v.n.ToStringAtRange(a, l)
							} else {
								ans, err = v.n.ToRawStringAtRange(a, l)
							}
						case 9:
							a, err = v.n.GetCurrentIndex()
							ans = fmt.Sprint(a)
						}
					})
					if idx < 0 || idx >= n {
						if !isKind(err, kInvalidArg) {
							c.Fail("query %d of token %d (of %d) gives %q %v, expected an invalid-argument error", q, idx, n, ans, err)
						}
						c.Count("indices refused", 1)
						continue
					}
					if q < 6 && err != nil {
						c.Fail("query %d of token %d (of %d) fails: %v", q, idx, n, err)
					}
					if q == 9 {
						if int(a) != v.m.index() || err != nil {
							c.Fail("a query moved the cursor: at token %d (%v), expected %d", a, err, v.m.index())
						}
						continue
					}
					key := fmt.Sprint(q, "/", idx)
					str := ans
					ans += fmt.Sprint(" ", err)
					if old, ok := answers[key]; ok {
						c.Count("queries repeated", 1)
						if old != ans {
							c.Fail("query %d of token %d gives %q after %q", q, idx, ans, old)
						}
					} else {
						answers[key] = ans
						t := ref.Toks[idx]
						w := expTok(&t, o, 0)
						var want int
						switch q {
						case 0:
							want = w.Type
						case 1:
							want = w.Off
						case 2:
							want = w.Len
						case 3:
							want = w.Depth
						case 4, 5:
							if !t.AnyOff && idx > 0 && t.Off+t.Len <= len(doc) && t.Len < 100000 {
								judgeString(c, fmt.Sprintf("query %d of token %d", q, idx), t, doc[t.Off:t.Off+t.Len], str, err, q == 4 && (t.Type == tText || t.Type == tVal))
							}
						}
						if q < 4 && int(a) != want && !(q == 1 && t.AnyOff) {
							c.Fail("query %d of token %d gives %d, expected %d", q, idx, a, want)
						}
					}
				}
				// everything once more
				for i, v := range navs {
					var cur int32
					c.lib("GetCurrentIndex", func() { cur, _ = v.n.GetCurrentIndex() })
					if int(cur) != v.m.index() {
						c.Fail("navigator %d is at token %d, expected %d", i, cur, v.m.index())
					}
					// what else it remembers shows where it goes
					for k := 0; k < 12; k++ {
						step(c, v.n, v.m, dirs[[]int{1, 2, 3, 4, 4, 5, 5, 2, 4, 5}[r.N(10)]], &hists[i])
						c.Count("moves", 1)
					}
				}
				if c.Case%200 == 1 {
					c.Sample("%d navigators %s", len(navs), show(doc))
				}
			}
		},
	})
}

// judgeString compares an extracted string with the bytes
func judgeString(c *Ctx, what string, t RefTok, bs []byte, got string, err error, resolve bool) {
	want, alt := RefRaw(bs), ""
	if resolve {
		w, ok := RefResolve(bs)
		if !ok {
			return
		}
		want = w
	}
	if err == nil && got == want {
		return
	}
	if bytes.Contains(bs, []byte("\r\n")) {
		// the listed finding: CR LF becomes two line feeds
		x := bytes.Replace(bs, []byte("\r"), []byte("\n"), -1)
		alt = RefRaw(x)
		if resolve {
			alt, _ = RefResolve(x)
		}
		if err == nil && got == alt {
			if c.Check.ID != "C08" {
				return
			}
			c.Known("crlf-two-linefeeds", "a CR LF pair is extracted as two line feeds")
			c.Count("CR LF extracted as two line feeds (known finding)", 1)
			return
		}
	}
	c.Fail("%s of %q (type %d at %d+%d) is %q (%v), expected %q", what, clip(bs, 400), t.Type, t.Off, t.Len, clipStr(got, 400), err, clipStr(want, 400))
}
