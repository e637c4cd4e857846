package main

import (
	"fmt"
	"math"
	"runtime"
	"runtime/metrics"
	"strings"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/parser"
)

var dirs = []navigation.Direction{navigation.Root, navigation.Parent, navigation.FirstChild, navigation.LastChild, navigation.NextSibling, navigation.PrevSibling}

var extremes = []int{0, 1, -1, 2, -2, math.MaxInt32, math.MinInt32, math.MaxInt32 - 1, math.MaxInt64, math.MinInt64, 1 << 31, 1 << 32, 1<<32 + 1, -(1 << 31) - 1, 1 << 20, 1 << 30, 1<<62 - 1}

func extreme(r *Rng, n int) int {
	if r.P(1, 3) {
		return extremes[r.N(len(extremes))]
	}
	return r.In(-3, n+3)
}

// fuzzNav drives a navigator with arbitrary calls; only termination and absence of panics count
func fuzzNav(c *Ctx, nav *navigation.VtdNav, docLen, ops int) {
	r := c.R
	n := 0
	c.lib("GetVtdBufferSize", func() { n = nav.GetVtdBufferSize() })
	for i := 0; i < ops; i++ {
		k := extreme(r, n)
		off, ln := int32(extreme(r, docLen)), int32(extreme(r, 40))
		if r.P(1, 3) {
			ln = int32(r.In(-1, docLen+1))
		}
		what, dir := r.N(12), dirs[r.N(len(dirs))]
		if ln > 1<<20 && off >= 0 && r.P(3, 4) {
			ln = 64
		}
		call := func() {
			switch what {
			case 0:
				nav.GetTokenType(k)
			case 1:
				nav.GetTokenOffset(k)
			case 2:
				nav.GetTokenLength(k)
			case 3:
				nav.GetTokenDepth(k)
			case 4:
				nav.ToStringAtIndex(k)
			case 5:
				nav.ToRawStringAtIndex(k)
			case 6:
				nav.ToStringAtRange(off, ln)
			case 7:
				nav.ToRawStringAtRange(off, ln)
			case 8:
				nav.GetCurrentIndex()
				nav.GetEncoding()
			case 9:
				nav.ToElement(navigation.Direction(k))
			default:
				nav.ToElement(dir)
				nav.GetCurrentIndex()
			}
		}
		a0 := heapAllocs()
		c.lib(fmt.Sprintf("navigator call %d with index %d, range %d+%d", what, k, off, ln), call)
		limit := 1<<20 + 60*uint64(docLen)
		if heapAllocs()-a0 <= limit {
			c.Count("navigator calls", 1)
			continue
		}
		if al := exactAllocs(func() { guard(call) }); al > limit {
			c.Fail("navigator call %d with index %d, range %d+%d on a document of %d bytes allocates %d bytes", what, k, off, ln, docLen, al)
		}
		c.Count("navigator calls", 1)
	}
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

// exactAllocs is the number of bytes the function allocates, the least of three times:
// others, like what the small-object caches hold back, may be counted in one of them
func exactAllocs(f func()) uint64 {
	least := uint64(math.MaxUint64)
	for i := 0; i < 3; i++ {
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		f()
		runtime.ReadMemStats(&b)
		if n := b.TotalAlloc - a.TotalAlloc; n < least {
			least = n
		}
	}
	return least
}

// heapAllocs is the number of bytes allocated so far (up to what small-object caches hold back):
// only a hint, differences beyond a limit are measured again
func heapAllocs() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

func randomBytes(r *Rng) []byte {
	n := []int{1, 2, 3, 4, 5, 8, 16, 40, 100, 400}[r.N(10)]
	b := make([]byte, n)
	mode := r.N(4)
	for i := range b {
		switch mode {
		case 0:
			b[i] = byte(r.N(256))
		case 1:
			b[i] = mutBytes[r.N(len(mutBytes))]
		case 2:
			b[i] = byte(r.In(0x20, 0x7e))
		case 3:
			b[i] = "<>/=\"'&;![]-? aCDATxml:ns"[r.N(25)]
		}
	}
	if r.P(1, 2) {
		b = append([]byte(r.Pick("<a>", "<", "<?xml", "<?xml version='1.0'?>", "\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "<a ", "<!DOCTYPE", "<!--", "<a/>", "\x00<", "<\x00", "<a b='", "<a xmlns:", "<a>&#", "<a><![CDATA[", "\xef\xbb", "\xef")), b...)
	}
	return b
}

// hostile documents: what makes a parser use much memory or time
func hostileDoc(r *Rng, kind, n int) []byte {
	var b strings.Builder
	w := func(f string, a ...interface{}) { fmt.Fprintf(&b, f, a...) }
	switch kind {
	case 0:
		b.WriteString(strings.Repeat("<a>", n/3))
	case 1:
		b.WriteString(strings.Repeat("<", n))
	case 2:
		b.WriteString("<a>" + strings.Repeat("&#38;", n/5) + "</a>")
	case 3:
		b.WriteString("<a ")
		for i := 0; b.Len() < n && i < 3000; i++ {
			w("a%d='' ", i)
		}
		b.WriteString("/>")
	case 4:
		b.WriteString("<a ")
		for i := 0; b.Len() < n && i < 1500; i++ {
			w("xmlns:a%d='u%d' ", i, i)
		}
		b.WriteString("/>")
	case 5:
		b.WriteString("<a>" + strings.Repeat("<b/>", n/4) + "</a>")
	case 6:
		b.WriteString("<a>" + strings.Repeat("<!---->", n/7) + "</a>")
	case 7:
		b.WriteString("<" + strings.Repeat("n", n) + "/>")
	case 8:
		b.WriteString("<a b='" + strings.Repeat("v", n) + "'/>")
	case 9:
		b.WriteString("<a>" + strings.Repeat("t", n) + "</a>")
	case 10:
		b.WriteString("<a/>" + strings.Repeat("<?p?>\n", n/6))
	case 11:
		b.WriteString("<!DOCTYPE a [" + strings.Repeat("<!ENTITY a '&b;'>", n/17) + "]><a/>")
	case 12:
		b.WriteString("<!DOCTYPE a " + strings.Repeat("<[", n/2))
	case 13:
		for i := 0; i < 250; i++ {
			w("<p%d:a xmlns:p%d='u'>", i, i)
		}
		for i := 0; b.Len() < n; i++ {
			w("<p%d:b/>", i%250)
		}
	case 14:
		b.WriteString("<a>&#" + strings.Repeat("0", n) + "65;</a>")
	case 15:
		b.WriteString(strings.Repeat(" ", n) + "<a/>")
	case 16:
		b.WriteString("<a>" + strings.Repeat("]]", n/2) + "</a>")
	case 17:
		b.WriteString("<a>" + strings.Repeat("\r\n", n/2) + "</a>")
	case 18:
		b.WriteString("<a>" + strings.Repeat("<b xmlns:p='u' p:c='d'/>", n/24) + "</a>")
	case 19:
		b.WriteString("<a><![CDATA[" + strings.Repeat("]", n) + "]]></a>")
	case 20:
		b.WriteString("<?" + strings.Repeat("x", n) + "?><a/>")
	case 21:
		b.WriteString("<a>" + strings.Repeat("<?p ", n/4))
	case 22:
		b.WriteString("<a>" + strings.Repeat("<b>x</b>", n/8) + "</a>")
	case 23:
		b.WriteString("<a" + strings.Repeat(":a", n/2) + "/>")
	case 25, 26, 27, 28, 29:
		k := kind - 23
		e := r.Pick("<e/>", "<e></e>", "<e>x</e>", "<e/>t", "<e><f/></e>")
		b.WriteString(strings.Repeat("<c>", k) + strings.Repeat(e, n/len(e)) + strings.Repeat("</c>", k))
	case 30:
		k := r.In(2, 6)
		b.WriteString(strings.Repeat("<c>", k) + strings.Repeat("</c><c>", n/7) + strings.Repeat("</c>", k))
	case 24:
		b.WriteString(strings.Repeat("<a b='c'>", 250) + strings.Repeat("<c/> ", n/5))
	}
	return []byte(b.String())
}

// retained runs many different documents and drops them: what the library keeps of
// them must not grow with their number
func retained(c *Ctx) {
	r := c.R
	n := []int{2000, 8000, 60000}[r.N(3)]
	var total, worst uint64
	live := func() uint64 {
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	kind := r.N(4)
	before := live()
	for round := 0; round < 4; round++ {
		for sum := 0; sum < 3<<20; {
			var b strings.Builder
			b.WriteString("<r>")
			for b.Len() < n {
				x := r.N(1 << 40)
				switch kind {
				case 0:
					fmt.Fprintf(&b, "<e%x a%x='%x'>%x</e%x>", x, x, x, x, x)
				case 1:
					fmt.Fprintf(&b, "<p%x:e xmlns:p%x='u%x' p%x:a='&#x41;'/>", x, x, x, x)
				case 2:
					fmt.Fprintf(&b, "<e><!--%x--><?t%x %x?><![CDATA[%x]]>&#38;%x</e>", x, x, x, x, x)
				default:
					b.WriteString(rep(fmt.Sprintf("%x &lt;", x), r.N(300)))
				}
			}
			if r.P(2, 3) {
				b.WriteString("</r>")
			}
			doc := []byte(b.String())
			o := opts(r.P(1, 2), r)
			c.Doc(doc, o)
			res := Parse(doc, o)
			if res.Panic != nil {
				c.Fail("parsing panics: %s at %s", res.Panic.msg, res.Panic.stack)
			}
			if res.Ok {
				c.lib("queries", func() {
					for i := 0; i < 40; i++ {
						k := r.N(res.Nav.GetVtdBufferSize())
						res.Nav.ToStringAtIndex(k)
						res.Nav.ToRawStringAtIndex(k)
						res.Nav.ToElement(dirs[r.N(len(dirs))])
					}
				})
			}
			sum += len(doc)
			total += uint64(len(doc))
			c.Count("documents parsed and dropped", 1)
		}
		if l := live(); l > before {
			worst = l - before
		} else {
			worst = 0
		}
	}
	c.Count("retention probes", 1)
	if worst > 1<<20+total/8 {
		c.Fail("after documents of %d bytes together were parsed and dropped, %d bytes more are in use than before", total, worst)
	}
}

const hostileKinds = 31

// largeDoc is one of the hostile documents or of those whose cost is measured
func largeDoc(r *Rng, k, n int) []byte {
	if k < hostileKinds {
		return hostileDoc(r, k, n)
	}
	f := families[k-hostileKinds]
	if f.max > 0 && n > f.max {
		n = f.max
	}
	return f.make(n)
}

// longDeep: two or three things that are large at the same time
func longDeep(r *Rng) []byte {
	var b strings.Builder
	depth := someLen(r, 254)
	n := someLen(r, []int{30, 200, 1500}[r.N(3)])
	name := rep(r.Pick("n", "é", "a1"), n)
	attr := ""
	if k := someLen(r, 12); r.P(1, 2) {
		for i := 0; i < k; i++ {
			attr += fmt.Sprintf(" %s%d='%s'", rep("a", someLen(r, 100)), i, rep("v", someLen(r, 100)))
		}
	}
	if r.P(1, 3) {
		attr += " xmlns='" + rep("u", someLen(r, 300)) + "'"
	}
	in := r.Pick("", "x", "<!--c-->", "<s/>", "<s><t/></s>", "&lt;")
	for i := 0; i < depth && b.Len() < 400000; i++ {
		b.WriteString("<" + name + attr + ">" + in)
		if i == depth-1 || b.Len() >= 400000 {
			b.WriteString(strings.Repeat(r.Pick("<s/>", "t<s/>", "<"+name+"/>", "<!--c-->", "&#x41;"), someLen(r, 30)))
			if r.P(5, 6) {
				b.WriteString(strings.Repeat(in+"</"+name+">", i+1))
			}
		}
	}
	return []byte(b.String())
}

var oddLc = []int{0, 3, 5, 1, 4, -1, 255, math.MaxInt32, math.MinInt64}

func init() {
	const safeSlices = 160
	safeRandom := tiers(4800, 50000)
	register(&Check{
		ID: "C01", Title: "arbitrary input never crashes, hangs or exhausts memory", Cases: func(tier string) int { return safeRandom(tier) + safeSlices }, CPU: 30, RSS: 2500, Stack: 16 << 20,
		Need:   map[string]int64{"inputs": 60000, "accepted": 10000, "navigator calls": 300000, "hostile": 100, "documents parsed and dropped": 1000},
		Rule:   "random bytes, edited and re-edited documents, soups of markup pieces and amplification documents, as whole slices and as windows, with all option combinations; accepted ones are followed by random navigator calls with extreme arguments; every call is watched for panics, processor time, resident memory, blocking and process exit, every parse for allocated bytes; distinct by input and options",
		Tech:   "runtime monitors (panic, fatal error, processor time, allocation, resident memory, blocking) under hostile inputs",
		Assume: []string{"a case that needs more than 30 s of processor time (normally under 1 s) does not end; memory out of proportion means more than 4 MB plus 150 bytes per input byte allocated by one parse, or 1 MB plus 60 bytes per input byte by one navigator call"},
		Run: func(c *Ctx) {
			r := c.R
			s := &Source{r, 12}
			ops, lc := 24, 0
			one := func(doc []byte, what string) {
				o := opts(r.P(1, 2), r)
				o.Lc = oddLc[r.N(len(oddLc))]
				if lc != 0 {
					o.Lc = lc
				}
				if r.P(1, 3) {
					a := r.N(len(doc))
					o.Win, o.Off, o.N = true, a, r.In(1, len(doc)-a)
				}
				if r.P(1, 20) {
					o.Win, o.Off, o.N = true, extreme(r, len(doc)), extreme(r, len(doc))
				}
				c.Doc(doc, o)
				a0 := heapAllocs()
				res := Parse(doc, o)
				al := heapAllocs() - a0
				c.Detail("document", show(doc)).Detail("options", o.String())
				if res.Panic != nil {
					small := shrink(doc, func(d []byte) bool { return Parse(d, Opts{Ns: o.Ns, Lc: o.Lc}).Panic != nil })
					c.Detail("smaller document", show(small)).Fail("parsing panics: %s at %s", res.Panic.msg, res.Panic.stack)
				}
				if res.Err == nil && !res.Ok {
					c.Fail("neither a result nor an error")
				}
				if limit := 4<<20 + 150*uint64(len(doc)); al > limit {
					al = exactAllocs(func() { Parse(doc, o) })
					if al > limit {
						c.Fail("parsing a document of %d bytes allocates %d bytes", len(doc), al)
					}
				}
				c.Eval(1)
				c.Count("inputs", 1)
				c.Distinct(hashBytes(doc) + hashStr(o.String()))
				if res.Ok {
					c.Count("accepted", 1)
					fuzzNav(c, res.Nav, len(doc), ops)
					if r.P(1, 20) {
						var n2 *navigation.VtdNav
						c.lib("GetNav", func() { n2, _ = res.P.GetNav() })
						if n2 != nil {
							fuzzNav(c, n2, len(doc), 10)
						}
					}
				} else if res.P != nil {
					c.lib("Parse again and GetNav after an error", func() {
						res.P.Parse()
						res.P.GetNav()
						res.P.Clear()
					})
				}
				if c.Case%200 == 1 {
					c.Sample("%s %s: %s", what, o, show(doc))
				}
			}
			if k := c.Case - safeRandom(c.Tier); k >= 0 {
				ops = 3
				for i := k; ; i += safeSlices {
					d := oneEdit(i, editAlphabet)
					if d == nil {
						break
					}
					one(d, "one-place edit")
				}
				for i := k; ; i += safeSlices {
					d := cutEdit(i, editAlphabet, 1)
					if d == nil {
						break
					}
					one(d, "cut")
				}
				step := 31
				if c.Tier == "thorough" {
					step = 1
				}
				for i := k; ; i += safeSlices * r.In(1, step) {
					d := cutEdit(i, editAlphabet, 2)
					if d == nil {
						break
					}
					one(d, "cut")
				}
				return
			}
			if c.Case%16 == 3 {
				n := []int{300, 3000, 30000, 100000}[r.N(4)]
				if r.P(1, 12) {
					n = 600000
				}
				if c.Tier == "thorough" && r.P(1, 4) {
					n *= 20
				}
				k := c.Case / 16 % (hostileKinds + len(families))
				if k >= 25 && n < 300000 {
					n = []int{300000, 600000}[r.N(2)]
				}
				d := largeDoc(r, k, n)
				c.Count("hostile", 1)
				for _, l := range []int{3, 5} {
					lc = l
					one(d, "hostile")
				}
				lc = 0
				if r.P(1, 2) {
					one(splice(d, len(d)-r.N(20)-1, len(d), ""), "hostile, cut")
				}
				for i := 0; i < 3; i++ {
					one(longDeep(r), "long and deep")
				}
				return
			}
			for b := 0; b < 50; b++ {
				switch r.N(6) {
				case 0, 1:
					d := randomBytes(r)
					if r.P(1, 6) {
						d = amplify(r, d)
					}
					one(d, "random")
				case 2:
					d, _ := s.Next()
					x := append([]byte(nil), d...)
					for i := r.In(1, 12); i > 0; i-- {
						k := r.N(len(x))
						if r.P(1, 2) {
							x[k] = byte(r.N(256))
						} else {
							x[k] = mutBytes[r.N(len(mutBytes))]
						}
					}
					one(x, "many edits")
				default:
					d, k := s.Next()
					one(d, k)
				}
			}
			if c.Case%600 == 7 {
				retained(c)
			}
			if c.Case%50 == 0 {
				// options that contradict each other or are missing
				for i := 0; i < 10; i++ {
					doc := randomBytes(r)
					c.lib("NewVtdParser with odd options", func() {
						var l []parser.Option
						for k := r.N(5); k > 0; k-- {
							switch r.N(6) {
							case 0:
								l = append(l, parser.WithXmlDoc(doc))
							case 1:
								l = append(l, parser.WithXmlDocCustomOffset(doc, extreme(r, len(doc)), extreme(r, len(doc))))
							case 2:
								l = append(l, parser.WithXmlDoc(nil))
							case 3:
								l = append(l, parser.WithLcDepth(extreme(r, 6)))
							case 4:
								l = append(l, parser.WithNameSpaceAware(r.P(1, 2)))
							case 5:
								l = append(l, parser.WithBufferReuse(r.P(1, 2)))
							}
						}
						p, err := parser.NewVtdParser(l...)
						if err != nil {
							return
						}
						if p.Parse() == nil {
							if n, err := p.GetNav(); err == nil {
								n.ToElement(navigation.FirstChild)
								n.ToStringAtIndex(1)
							}
						}
					})
					c.Count("odd option lists", 1)
				}
			}
		},
	})
}
