package main

import (
	"bytes"
	"fmt"
	"runtime/debug"
	"strings"
	"syscall"
	"unsafe"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/reader"
)

const page = 4096

// guarded is readable memory between two stretches of memory that cannot be read
type guarded struct {
	all  []byte
	size int // readable bytes
	pad  int // bytes on either side
}

func newGuarded(pages int) *guarded {
	const pad = 16 * page
	all, err := syscall.Mmap(-1, 0, 2*pad+pages*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic("harness: mmap: " + err.Error())
	}
	g := &guarded{all, pages * page, pad}
	if syscall.Mprotect(all[:pad], syscall.PROT_NONE) != nil || syscall.Mprotect(all[pad+g.size:], syscall.PROT_NONE) != nil {
		panic("harness: mprotect")
	}
	return g
}

func (g *guarded) free() { syscall.Munmap(g.all) }

// place puts the document so that it ends (atEnd) or starts at unreadable memory; the slice
// includes the unreadable bytes, off and n give the window
func (g *guarded) place(doc []byte, atEnd bool, fill byte) (whole []byte, off, n int) {
	mid := g.all[g.pad : g.pad+g.size]
	for i := range mid {
		mid[i] = fill
	}
	off = g.pad
	if atEnd {
		off += g.size - len(doc)
	}
	copy(g.all[off:], doc)
	return g.all, off, len(doc)
}

// mapRepeat maps the same bytes again and again; n is a multiple of the page size
func mapRepeat(unit []byte, times int) []byte {
	fd, _, e := syscall.Syscall(319, uintptr(unsafe.Pointer(&[]byte("vh\x00")[0])), 0, 0) // memfd_create
	if e != 0 {
		panic("harness: memfd_create: " + e.Error())
	}
	defer syscall.Close(int(fd))
	for o := 0; o < len(unit); {
		k, err := syscall.Write(int(fd), unit[o:])
		if err != nil {
			panic("harness: write: " + err.Error())
		}
		o += k
	}
	total := len(unit) * times
	const noreserve = 0x4000
	base, err := syscall.Mmap(-1, 0, total, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|noreserve)
	if err != nil {
		panic("harness: mmap: " + err.Error())
	}
	for i := 0; i < times; i++ {
		a := uintptr(unsafe.Pointer(&base[i*len(unit)]))
		if _, _, e := syscall.Syscall6(syscall.SYS_MMAP, a, uintptr(len(unit)), syscall.PROT_READ, syscall.MAP_SHARED|syscall.MAP_FIXED, fd, 0); e != 0 {
			panic("harness: mmap fixed: " + e.Error())
		}
	}
	return base
}

// sparse is address space that costs no memory until written
func sparse(n int) []byte {
	b, err := syscall.Mmap(-1, 0, n, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|0x4000)
	if err != nil {
		panic("harness: mmap: " + err.Error())
	}
	return b
}

// farMem is where documents are put at far offsets
var farMem []byte

// far puts a document into a slice so that the window lies at or around a large power of two,
// and sets the window. What earlier documents left behind surrounds it
func far(r *Rng, doc []byte, o *Opts) []byte {
	if o.Win || len(doc) > 1<<16 {
		return doc
	}
	max := 1<<31 - 1
	if o.Ns {
		max = 1<<30 - 1
	}
	off := farAt(r, len(doc), max)
	copy(farMem[off:], doc)
	o.Win, o.Off, o.N = true, off, len(doc)
	if r.P(1, 3) {
		return farMem[:off+len(doc)]
	}
	return farMem[:min(off+len(doc)+r.In(1, 40), len(farMem))]
}

// farAt picks a place in farMem for n bytes
func farAt(r *Rng, n, max int) int {
	if farMem == nil {
		farMem = sparse(1<<31 + 16*page)
	}
	p := 1 << r.In(8, 31)
	if n := dictLen(r, 1<<31, 4); n > 255 {
		p = n
	}
	if r.P(1, 3) && p >= 1<<16 {
		p += 1 << r.In(12, 30)
	}
	off := p - []int{0, 1, n, n - 1, r.N(n + 1), r.N(n + 1), r.N(n + 1), -1 - r.N(20)}[r.N(8)]
	if off < 0 {
		off = 0
	}
	if off+n > max {
		off = max - n - r.N(3)
	}
	return off
}

var hostilePre = []string{"", "<a>", "<", "\xef\xbb\xbf", "\xff\xfe", "<?xml version='1.0' encoding='ascii'?>", "<?xml version='1.0' encoding='iso-8859-1'?>", "<!--", "<![CDATA[", "\"", "&", "\xe4\xb8", "\n\n\n", "<a b='", "x", "\x00", "]]", "<!DOCTYPE a [", "\r", "<b>"}
var hostilePost = []string{"", "</a>", ">", "-->", "]]>", "?>", "'>", "\">", "\x80", "\xbf\xbf\xbf", ";", "amp;", "lt;x</a>", "\n", "a", "</", "<", "/>", "=", "</a></b>", "\x00", "\"/></a>", "]", "-", "?", " b='1'/>", "DATA[", "TYPE a><a/>", "l version='1.0'?><a/>", "\n</a>"}

func init() {
	var g, gp *guarded
	register(&Check{
		ID: "C09", Title: "nothing outside the document window is read or matters", Cases: tiers(4000, 60000), GC: 400,
		Need: map[string]int64{"surroundings compared": 100000, "windows next to unreadable memory": 60000, "accepted windows": 20000, "refused windows": 50000, "windows that cut a document": 40000, "strings and moves next to unreadable memory": 10000, "readers next to unreadable memory": 20000, "windows at far offsets": 50000},
		Rule: "generated, edited, soup and cut documents; each is parsed alone, inside surroundings that continue, close or contradict it, and placed so that the window starts or ends at unreadable pages that are part of the slice; outcome, error, tokens relative to the window, strings and a random walk are compared; all windows of small documents; distinct by document and surroundings",
		Tech: "memory monitor: unreadable pages around the window turn any outside read into a fault; metamorphic comparison over different surroundings",
		Run: func(c *Ctx) {
			r := c.R
			debug.SetPanicOnFault(true)
			if g == nil {
				g, gp = newGuarded(4), newGuarded(1)
			}
			one := func(doc, pre, post []byte, kind string) {
				o := Opts{Ns: r.P(1, 2), Lc: []int{0, 3, 5}[r.N(3)], Reuse: r.N(3)}
				seed := r.U64()
				c.Detail("document", show(doc)).Detail("kind", kind).Detail("in front", show(pre)).Detail("behind", show(post))
				base := full(doc, o, seed, 0, false, 40)
				whole := append(append(append(make([]byte, 0, len(pre)+len(doc)+len(post)), pre...), doc...), post...)
				w := o
				w.Win, w.Off, w.N = true, len(pre), len(doc)
				c.Doc(whole, w)
				s := full(whole, w, seed, len(pre), false, 40)
				c.Eval(1)
				c.Count("surroundings compared", 1)
				c.Distinct(hashBytes(whole) + uint64(len(pre)))
				c.Detail("options", w.String())
				if s != base {
					c.Fail("the window gives another result than a copy of it: %s", firstDiff(s, base))
				}
				if strings.HasPrefix(base, "tokens") {
					c.Count("accepted windows", 1)
				} else {
					c.Count("refused windows", 1)
				}
				if r.P(1, 2) {
					w := o
					x := far(r, doc, &w)
					c.Doc(x, w)
					c.Detail("options", w.String())
					if w.Win {
						if s := full(x, w, seed, w.Off, false, 40); s != base {
							c.Fail("far inside a slice the window gives another result than a copy of it: %s", firstDiff(s, base))
						}
						c.Eval(1)
						c.Count("windows at far offsets", 1)
					}
				}
				// next to unreadable memory
				if len(doc) > g.size {
					return
				}
				m := g
				if len(doc) <= page && r.P(1, 2) {
					m = gp
				}
				atEnd := r.P(3, 4)
				all, off, n := m.place(doc, atEnd, []byte{' ', '<', '>', 0x80, 'x', '\n', 0}[r.N(7)])
				w.Off, w.N = off, n
				if r.P(1, 3) {
					all = all[:off+n] // nothing behind the window in the slice, but capacity
				}
				if r.P(1, 6) && r.P(1, 2) && len(doc) > 1 { // the slice starts at the window
					all = all[off:]
					w.Off = 0
				}
				c.Doc(doc, w)
				c.Detail("options", w.String())
				c.Detail("document", show(doc)).Detail("place", fmt.Sprintf("ends at unreadable memory: %v", atEnd || len(doc) == m.size))
				res := Parse(all, w)
				c.Count("windows next to unreadable memory", 1)
				c.Eval(1)
				if res.Panic != nil {
					c.Fail("parsing a window next to unreadable memory panics: %s at %s", res.Panic.msg, res.Panic.stack)
				}
				out := res.Outcome()
				if res.Ok {
					var p *libPanic
					out, p = snapshot(res.Nav, seed, w.Off, false, 40)
					if p != nil {
						c.Fail("tokens, strings or moves next to unreadable memory panic: %s at %s", p.msg, p.stack)
					}
					c.Count("strings and moves next to unreadable memory", 1)
				}
				if out != base {
					c.Fail("next to unreadable memory the window gives another result: %s", firstDiff(out, base))
				}
				// readers of their own
				if r.P(1, 3) {
					c.lib("a reader next to unreadable memory", func() {
						var x reader.Reader
						var err error
						if r.P(1, 2) {
							x, err = reader.NewUtf8Reader(all, w.Off, w.Off+n)
						} else {
							x, err = reader.NewAsciiReader(all, w.Off, w.Off+n)
						}
						if err != nil {
							c.Fail("reader: %v", err)
						}
						x.SetOffset(w.Off + n - r.N(min(n, 4)) - 1)
						for i := 0; i < 6; i++ {
							at := int32(x.GetOffset())
							x.SkipCharSeq(string(doc[len(doc)-1:]) + "x")
							x.GetCharAt(at)
							x.GetLongCharAt(at)
							x.SkipChar(uint32(r.N(256)))
							if _, err := x.GetChar(); err != nil && x.GetOffset() >= w.Off+n {
								break
							}
						}
						c.Count("readers next to unreadable memory", 1)
					})
				}
			}
			surround := func() (pre, post []byte) {
				switch r.N(4) {
				case 0:
					return []byte(hostilePre[r.N(len(hostilePre))]), []byte(hostilePost[r.N(len(hostilePost))])
				case 1:
					return randomBytes(r), randomBytes(r)
				case 2:
					d, _ := GenDoc(r, 3)
					return d, d
				}
				return []byte(hostilePre[r.N(len(hostilePre))] + hostilePre[r.N(len(hostilePre))]), []byte(hostilePost[r.N(len(hostilePost))] + hostilePost[r.N(len(hostilePost))])
			}
			switch c.Kind(4) {
			case 0, 1:
				s := &Source{r, 12}
				for i := 0; i < 50; i++ {
					d, k := s.Next()
					pre, post := surround()
					one(d, pre, post, k)
				}
			case 2: // windows into a larger document: the surroundings continue it
				st := randStyle(r, 6)
				st.ManyAttrs, st.ManyDecls, st.LongName = 0, 0, 0
				d := GenStyle(r, st)
				if len(d) > 2000 {
					d = []byte("<?xml version='1.0' encoding='UTF-8'?><!DOCTYPE a><é b='x&amp;y'><!--c--><?p q?>t]<![CDATA[x]]]></é>\n<!--e--><?q?>")
				}
				if r.P(1, 2) {
					m, _ := Mutate(r, d, RefParse(d, false), -1)
					d = m
				}
				for i := 0; i < 60; i++ {
					a, b := 0, r.In(1, len(d))
					if r.P(1, 3) {
						a = r.N(b)
					}
					one(d[a:b], d[:a], d[b:], "cut")
					c.Count("windows that cut a document", 1)
				}
			case 3: // all cuts of a small document
				small := []string{
					"<?xml version=\"1.0\" encoding=\"utf-8\"?><a/>", "<!DOCTYPE a [<!ELEMENT a ANY>]><a b='1'/>", "<a><![CDATA[x]]></a>", "<a>&#x41;&lt;</a><!--x-->",
					"<é ü=\"中\">😀</é>", "<p:a xmlns:p='u' p:b='&amp;'></p:a >", "\xef\xbb\xbf<a/> \r\n<?p q?>", "<a><b/>]]&gt;<c></c>\n</a>", "<?p x?><a><!----></a>", "<a b = 'x' c=\"\"/>",
				}
				d := []byte(small[r.N(len(small))])
				for b := 1; b <= len(d); b++ {
					pre := []byte(hostilePre[r.N(len(hostilePre))])
					post := d[b:]
					if r.P(1, 3) {
						post = []byte(hostilePost[r.N(len(hostilePost))])
					}
					one(d[:b], pre, post, "cut")
					c.Count("windows that cut a document", 1)
				}
			}
			if c.Case%600 == 0 {
				c.Sample("case %d", c.Case)
			}
		},
	})
}

// ---- limits ----

func rep(unit string, n int) string { // exactly n bytes, cut at a character
	if len(unit) == 0 || n <= 0 {
		return ""
	}
	s := strings.Repeat(unit, n/len(unit))
	for len(s) < n {
		s += "x"
	}
	return s
}

var limitKinds = []string{"text", "CDATA", "comment", "attribute value", "instruction", "doctype", "namespace value", "prolog comment", "epilog comment", "prolog instruction", "epilog instruction",
	"element name", "attribute name", "namespace name", "element prefix", "attribute prefix", "instruction target", "depth", "depth with siblings", "text behind text", "qualified name of two parts", "nested CDATA", "references", "whitespace text",
	"epilog target", "prolog target", "later epilog comment", "later epilog instruction", "later prolog instruction", "instruction behind a declaration", "second attribute value", "default namespace value", "end tag name", "attribute of the root", "declaration of the root", "text of the root"}

// limitDoc makes a document in which one thing has the given size
func limitDoc(r *Rng, kind string, n int) []byte {
	unit := r.Pick("a", "a", "é", "中", "😀", "ab\n", "xyz ", "\r")
	nu := r.Pick("a", "a", "é", "中", "a-", "b.9")
	name := func(n int) string {
		s := rep(nu, n)
		if n > 0 && s[0] == '-' {
			s = "a" + s[1:]
		}
		return s
	}
	wrap := func(s string) []byte {
		return []byte(r.Pick("", "<?xml version='1.0'?>", " ") + r.Pick("<r>", "<r>x", "<r><b/>") + s + r.Pick("</r>", "y</r>", "<c/></r>", "</r> "))
	}
	val := rep(unit, n)
	switch kind {
	case "text":
		return wrap("<a>" + rep(r.Pick("a", "é", "中", "x]y", "x>y", "\n", "a\r"), n) + "</a>")
	case "references":
		return wrap("<a>" + rep(r.Pick("&amp;", "&#x1F600;", "&lt;&gt;"), n) + "</a>")
	case "whitespace text":
		return wrap("<a>" + rep(" ", n) + "</a>")
	case "text behind text":
		return wrap(rep("t", n) + "<i/>" + rep("u", n-1) + "<!--x-->" + rep("v", n+1))
	case "CDATA":
		return wrap("<![CDATA[" + val + "]]>")
	case "nested CDATA":
		return wrap("<a><b><c><d><![CDATA[" + rep(r.Pick("]", "]]x", "<", "&"), n) + "]]></d></c></b></a>")
	case "comment":
		return wrap("<!--" + val + "-->")
	case "prolog comment":
		return []byte("<!--" + val + "--><a/>")
	case "epilog comment":
		return []byte("<a/><!--" + val + "-->")
	case "attribute value":
		return wrap("<a b='" + rep(r.Pick("a", "é", "中", "&amp;", "\n", ">"), n) + "' c=\"d\"/>")
	case "namespace value":
		return wrap("<a xmlns:p='" + rep(r.Pick("a", "é", "u:"), n) + "' p:c=\"d\"/>")
	case "instruction":
		return wrap("<?p " + val + "?>")
	case "prolog instruction":
		return []byte("<?p " + val + "?><a/>")
	case "epilog instruction":
		return []byte("<a/><?p " + val + "?>")
	case "instruction target":
		return wrap("<?" + name(n) + r.Pick("?>", " x?>"))
	case "epilog target":
		return []byte("<a/>" + r.Pick("", "\n", "<!--x-->", "<?q r?>") + "<?" + name(n) + r.Pick("?>", " x?>", "\n?>\n"))
	case "prolog target":
		return []byte(r.Pick("", "<?xml version='1.0'?>", "<!--x-->", "<!DOCTYPE a>") + "<?" + name(n) + r.Pick("?>", " x?>", "\n?>\n") + "<a/>")
	case "later epilog comment":
		return []byte("<a>" + r.Pick("", "x", "<!--y-->") + "</a>" + r.Pick("\n", "<?q?>", "<?q r?> ", "<!--c-->") + r.Pick("", "<!---->", "<?q r?>") + "<!--" + val + "-->" + r.Pick("", "\n", "<?q?>", "<!--d-->"))
	case "later epilog instruction":
		return []byte("<a>" + r.Pick("", "x", "<?y z?>") + "</a>" + r.Pick("\n", "<?q?>", "<?q r?> ", "<!--c-->") + r.Pick("", "<!---->", "<?q r?>") + "<?p " + val + "?>" + r.Pick("", "\n", "<?q?>", "<!--d-->"))
	case "later prolog instruction":
		return []byte(r.Pick("<!--c-->", "<?q r?>", "<!DOCTYPE a [ ]>") + "<?p " + val + "?>" + r.Pick("", "<!--d-->", "<!DOCTYPE a>", "<?q?>") + "<a/>")
	case "instruction behind a declaration":
		return []byte("<?xml version='1.0' encoding='UTF-8'?>" + r.Pick("<?p "+val+"?>", "<?"+name(n)+"?>", "<!--"+val+"-->", "\n<!DOCTYPE a ["+rep(" ", n-5)+"]>") + "<a/>")
	case "second attribute value", "attribute of the root":
		at := r.Pick(" x=''", " x='y' z=\"\"", " xmlns:q='r'", " xmlns='r' q='s'") + " b=\"" + rep(r.Pick("a", "é", "&lt;", "'", "\n"), n) + "\"" + r.Pick("", " d='e'", " xmlns:f='g'")
		if kind == "attribute of the root" {
			return []byte("<a" + at + r.Pick("/>", ">x</a>", "><b/></a>"))
		}
		return wrap("<a" + at + r.Pick("/>", ">x</a>", "><b/></a>"))
	case "default namespace value", "declaration of the root":
		at := " " + r.Pick("xmlns", "xmlns:p", "xmlns:p2") + "=\"" + rep(r.Pick("a", "é", "u:"), n) + "\"" + r.Pick("", " d='e'", " xmlns:f='g' f:h='i'")
		if kind == "declaration of the root" {
			return []byte("<a" + at + r.Pick("/>", ">x</a>", "><b/></a>"))
		}
		return wrap("<a" + r.Pick("", " x=''", " xmlns:q='r'") + at + r.Pick("/>", ">x</a>", "><b c=''/></a>"))
	case "end tag name":
		s := name(n)
		return []byte("<" + s + r.Pick("", " a='b'", " xmlns='u'") + ">" + r.Pick("", "x", "<b/>", "<"+s+"/>", "<"+s+"></"+s+">") + "</" + s + r.Pick("", " ", "\n") + ">")
	case "text of the root":
		return []byte("<a>" + rep(r.Pick("a", "é", "中", "]", "&lt;", "a\r"), n) + r.Pick("", "<b/>", "<!--x-->", "<![CDATA[]]>", "<?p?>") + "</a>")
	case "doctype":
		s := " a "
		if n < len(s)+2 {
			n = len(s) + 2
		}
		return []byte("<!DOCTYPE" + s + "[" + rep(" ", n-len(s)-2) + "]><a/>")
	case "element name":
		s := name(n)
		return wrap(r.Pick("<"+s+"/>", "<"+s+">x</"+s+">", "<"+s+" b='c'></"+s+" >"))
	case "attribute name":
		return wrap("<a " + name(n) + "='1' b='2'/>")
	case "namespace name":
		return wrap("<a xmlns:" + name(n-6) + "='1' b='2'/>")
	case "element prefix":
		s := name(n)
		return wrap("<" + s + ":e xmlns:" + s + "='u'/>")
	case "attribute prefix":
		s := name(n)
		return wrap("<e " + s + ":a='1' xmlns:" + s + "='u'/>")
	case "qualified name of two parts":
		p := name(r.In(1, 511))
		l := n - len(p) - 1
		if l < 1 {
			l = 1
		}
		s := p + ":" + name(l)
		return wrap("<" + s + " xmlns:" + p + "='u'>" + "</" + s + ">")
	case "depth":
		e := r.Pick("a", "ab", "é")
		in := r.Pick("", "x", "<!--c-->", "<?p?>", " ")
		if n > 1 && r.P(1, 3) {
			return deepForm(r, n, r.N(len(deepForms)))
		}
		if r.P(1, 2) {
			return []byte(strings.Repeat("<"+e+">", n) + in + strings.Repeat("</"+e+">", n))
		}
		return []byte(strings.Repeat("<"+e+">", n-1) + "<z/>" + in + strings.Repeat("</"+e+">", n-1))
	case "depth with siblings":
		var b strings.Builder
		for i := 0; i < n-1; i++ {
			b.WriteString("<a>" + []string{"", "<s/>", "t", "<s><u/></s>"}[r.N(4)])
			if i > n-5 {
				b.WriteString("x")
			}
		}
		b.WriteString("<d/><d></d>")
		for i := 0; i < n-1; i++ {
			b.WriteString("</a>")
			if i < n-2 && r.P(1, 3) {
				b.WriteString("<s/>")
			}
		}
		return []byte(b.String())
	}
	panic("harness: " + kind)
}

// deepForms: what the deepest element can look like
var deepForms = []string{"<z/>", "<z />", "<z b=''/>", "<z b='' c='d' />", "<z xmlns='u'/>", "<p:z xmlns:p='u'/>", "<z\nb='&lt;'\n/>", "<z></z>", "<z >x</z >", "<z b=''></z>", "<z b=''>x</z>", "<z b='c' d='e' > </z>",
	"<z xmlns:p='u' p:b=''>&lt;</z>", "<z><![CDATA[]]></z>", "<z><?p?></z>", "<z><!---->t</z>", "<z/><z/>", "<z b=''/><z></z>", "<z></z><z b=''/>t"}

// deepForm has n levels with one of these at the deepest
func deepForm(r *Rng, n, form int) []byte {
	e := r.Pick("a", "ab", "é")
	in := r.Pick("", "x", "<!--c-->", "<?p?>", " ")
	top := "<" + e + r.Pick("", " ", " b='c'", " b='c' d = \"\" ", " xmlns='u'", " p:b='' xmlns:p='u'", "\n") + ">" + r.Pick("", "t", "<s/>", "<!--c-->")
	return []byte(strings.Repeat(top, n-1) + in + deepForms[form] + in + strings.Repeat("</"+e+r.Pick("", " ")+">", n-1))
}

func limitOf(kind string) int {
	switch kind {
	case "element name", "attribute name", "namespace name", "qualified name of two parts", "end tag name":
		return maxName
	case "element prefix", "attribute prefix":
		return maxPre
	case "depth", "depth with siblings":
		return maxDeep
	}
	return maxTok
}

func limitSizes(kind string, r *Rng) int {
	d := []int{-2, -1, 0, 1, 2, 0, 1}[r.N(7)]
	top := limitOf(kind)
	if n := dictLen(r, top+2, 3); n > 2 {
		return n
	}
	switch r.N(10) {
	case 0: // any power of two
		n := 2
		for n <= top && r.P(9, 10) {
			n *= 2
		}
		if n+d > 2 && n+d <= top+2 {
			return n + d
		}
	case 1: // any size
		n := 3 + r.N(top)
		for n > 40 && r.P(1, 2) {
			n /= 1 + r.N(4)
		}
		return n
	}
	switch kind {
	case "text", "CDATA", "comment", "prolog comment", "epilog comment", "text behind text", "nested CDATA", "references", "whitespace text", "later epilog comment", "text of the root":
		return []int{1, 1, 1, 2, 2, 3}[r.N(6)]*maxTok + d
	case "attribute value", "instruction", "doctype", "namespace value", "prolog instruction", "epilog instruction", "instruction target",
		"epilog target", "prolog target", "later epilog instruction", "later prolog instruction", "instruction behind a declaration", "second attribute value", "default namespace value", "attribute of the root", "declaration of the root":
		return maxTok + d
	case "element name", "attribute name", "namespace name", "qualified name of two parts", "end tag name":
		return maxName + d
	case "element prefix", "attribute prefix":
		return maxPre + d
	}
	return maxDeep + d
}

// longSize is a size of many pieces, at the powers of two
func longSize(r *Rng, k int) int {
	return 1<<(22+k%4) + []int{0, 1, 2, r.N(1 << 20), r.N(1 << 21), -1, r.N(1000)}[r.N(7)]
}

// longDoc has one character run of many megabytes
func longDoc(r *Rng, no int) ([]byte, string) {
	kinds := []string{"text", "CDATA", "comment", "epilog comment", "prolog comment", "text behind text"}
	k := kinds[no%len(kinds)]
	if n := dictLen(r, 1<<25, 2); n > 1000 {
		return limitDoc(r, k, n), "long " + k
	}
	return limitDoc(r, k, longSize(r, no/len(kinds)+no)), "long " + k
}

func init() {
	const bigCases = 24
	register(&Check{
		ID: "C10", Title: "size limits: exact at the limit, clean errors beyond it", Cases: func(t string) int { return bigCases + tiers(440, 6000)(t) }, CPU: 240, RSS: 6000,
		Need: map[string]int64{"at or below the limit: accepted": 800, "beyond the limit: refused": 200, "split over several tokens": 100, "positions beyond 1 GB": 20, "too large documents refused": 20, "deepest elements visited": 50, "forms of the deepest element": 5000, "positions right below the maximum": 10},
		Rule: "documents in which one text, CDATA section, comment, value, instruction, document type, name, prefix or the nesting has a size at its limit, up to two below and above it (one to three times the piece length for split tokens), in several contents and contexts, both modes; windows at positions around 1 GB and 2 GB; the thorough tier also a complete document of 1 GB; distinct by document",
		Tech: "oracle: acceptance, tokens and strings at and around every documented limit compared with a reference reader",
		Run: func(c *Ctx) {
			r := c.R
			if c.Case < bigCases {
				bigDoc(c)
				return
			}
			if c.Case%5 == 2 { // every form of the deepest element
				for i := 0; i < 3*len(deepForms); i++ {
					doc := deepForm(r, maxDeep-1+i%3, i/3)
					for _, ns := range []bool{false, true} {
						c.Doc(doc, Opts{Ns: ns})
						c.Distinct(hashBytes(doc))
						judgeDoc(c, doc, opts(ns, r), "deepest element "+deepForms[i/3])
						c.Count("forms of the deepest element", 1)
					}
				}
			}
			for i := 0; i < 3; i++ {
				kind := limitKinds[(c.Case*3+i)%len(limitKinds)]
				n := limitSizes(kind, r)
				var doc []byte
				if i == 0 && c.Case%11 == 3 { // very many pieces
					no := c.Case / 11
					kind = []string{"text", "CDATA", "comment", "epilog comment", "prolog comment", "text behind text"}[no%6]
					n = longSize(r, no+no/6)
					c.Count("documents with a run of many megabytes", 1)
				}
				doc = limitDoc(r, kind, n)
				for _, ns := range []bool{false, true} {
					if big := len(doc) > 1<<22-10; big && ns != (c.Case/77%2 == 0) || !big && len(doc) > 200000 && r.P(1, 2) {
						continue
					}
					o := opts(ns, r)
					ref := RefParse(doc, ns)
					c.Detail("kind", fmt.Sprintf("%s of size %d", kind, n)).Detail("options", o.String())
					c.Detail("document", show(doc))
					c.Eval(1)
					if ref.V == Hard || ref.Soft {
						c.Count("unspecified", 1)
						continue
					}
					c.Doc(doc, o)
					c.Distinct(hashBytes(doc) + uint64(o.Lc))
					res := Parse(doc, o)
					if res.Panic != nil {
						c.Fail("%s of size %d: %s", kind, n, res.Outcome())
					}
					if ref.V == Reject {
						if ref.Class != "limit" && !strings.HasPrefix(ref.Class, "ns:") {
							c.Count("rejected for another reason: "+ref.Class, 1)
						}
						if res.Err == nil {
							c.Fail("%s of size %d is beyond the limit (%s), but accepted", kind, n, ref.Class)
						}
						if kindTop(res.Err) == kOther {
							c.Fail("%s of size %d: error of type %T", kind, n, res.Err)
						}
						c.Count("beyond the limit: refused", 1)
						c.Count("refused: "+kind, 1)
						continue
					}
					if !res.Ok {
						c.Fail("%s of size %d is within the limits, but: %s", kind, n, res.Outcome())
					}
					c.Count("at or below the limit: accepted", 1)
					c.Count("accepted: "+kind, 1)
					toks, err, pan := NavToks(res.Nav)
					if err != nil || pan != nil {
						c.Fail("token queries: %v %v", err, pan)
					}
					if d := tokDiff(toks, ref, o, 0); d != "" {
						c.Fail("%s of size %d: %s", kind, n, d)
					}
					split := 0
					c.lib("string extraction", func() {
						for i, t := range ref.Toks {
							if i == 0 || t.AnyOff || t.Len < 400 || len(doc) > 1<<22-10 && r.P(4, 5) {
								continue
							}
							if t.Len > maxTok {
								split++
							}
							bs := doc[t.Off : t.Off+t.Len]
							s, err := res.Nav.ToRawStringAtIndex(i)
							judgeString(c, "ToRawStringAtIndex", t, bs, s, err, false)
							// the pieces may cut a reference
							if t.Type != tText && t.Type != tVal || !bytes.ContainsAny(bs, "&") {
								s, err = res.Nav.ToStringAtIndex(i)
								judgeString(c, "ToStringAtIndex", t, bs, s, err, t.Type == tText || t.Type == tVal)
							}
						}
					})
					c.Count("split over several tokens", split)
					if strings.HasPrefix(kind, "depth") {
						// down to the deepest element and back
						m := newCursor(ref)
						var hist []navigation.Direction
						step(c, res.Nav, m, navigation.Root, &hist)
						down := 0
						for down < 300 {
							// into the child with the deepest content
							if !step(c, res.Nav, m, navigation.FirstChild, &hist) {
								break
							}
							down++
							for len(m.ref.Nodes[m.at].Children) == 0 || deepest(m.ref, m.at) < n-2 {
								if !step(c, res.Nav, m, navigation.NextSibling, &hist) {
									break
								}
							}
						}
						if down >= n-2 {
							c.Count("deepest elements visited", 1)
						}
						for i := 0; i < 300; i++ {
							step(c, res.Nav, m, dirs[1:][r.N(len(dirs)-1)], &hist)
						}
						for i := 0; i < 300 && m.at > 0; i++ {
							step(c, res.Nav, m, navigation.Parent, &hist)
						}
					}
				}
			}
			if c.Case%100 == 0 {
				c.Sample("%s", limitKinds[c.Case*3%len(limitKinds)])
			}
		},
	})
}

func deepest(ref *Ref, at int) int {
	d := ref.Nodes[at].Depth
	for i := at + 1; i < len(ref.Nodes) && ref.Nodes[i].Depth > ref.Nodes[at].Depth; i++ {
		if ref.Nodes[i].Depth > d {
			d = ref.Nodes[i].Depth
		}
	}
	return d
}

// bigDoc: positions around the maximum document size
func bigDoc(c *Ctx) {
	r := c.R
	const gb = 1 << 30
	ns := c.Case%2 == 0
	max := 2 * gb // without namespaces
	if ns {
		max = gb
	}
	base := sparse(2*gb + 64<<20)
	defer syscall.Munmap(base)
	small := []byte("<?xml version='1.0' encoding='utf-8'?><!--c--><!DOCTYPE p:a><p:a xmlns:p='u' p:b='&lt;x' é=\"1\">t&amp;<b><c/>中<![CDATA[d]]></b><?p q?><d/> </p:a><!--e-->")
	judge := func(doc []byte, off int) {
		if off+len(doc) > len(base) {
			return
		}
		copy(base[off:], doc)
		defer func() {
			for i := off; i < off+len(doc); i++ {
				base[i] = 0
			}
		}()
		o := opts(ns, r)
		o.Win, o.Off, o.N = true, off, len(doc)
		c.Detail("options", o.String()).Detail("document", show(doc))
		c.Doc(doc, o)
		whole := base
		if r.P(1, 2) {
			whole = base[:off+len(doc)]
		}
		res := Parse(whole, o)
		c.Eval(1)
		c.Distinct(uint64(off)<<8 + uint64(len(doc)))
		if res.Panic != nil {
			c.Fail("window at %d+%d: %s", off, len(doc), res.Outcome())
		}
		if off+len(doc) >= max {
			if res.Err == nil {
				c.Fail("a document that ends at %d is accepted, the maximum is %d (namespaces %v)", off+len(doc), max, ns)
			}
			if kindTop(res.Err) == kOther {
				c.Fail("window at %d+%d: error of type %T", off, len(doc), res.Err)
			}
			c.Count("too large documents refused", 1)
			return
		}
		ref := RefParse(doc, ns)
		if ref.V != Accept {
			return
		}
		if !res.Ok {
			c.Fail("window at %d+%d: %s", off, len(doc), res.Outcome())
		}
		checkTokens(c, doc, o, ref, res, "window at a high position")
		if off+len(doc) == max-1 {
			c.Count("positions right below the maximum", 1)
		}
		if off > gb {
			c.Count("positions beyond 1 GB", 1)
		}
		for i, t := range ref.Toks {
			if i == 0 || t.AnyOff {
				continue
			}
			bs := doc[t.Off : t.Off+t.Len]
			c.lib("string extraction", func() {
				s, err := res.Nav.ToStringAtIndex(i)
				judgeString(c, "ToStringAtIndex", t, bs, s, err, t.Type == tText || t.Type == tVal)
				s, err = res.Nav.ToStringAtRange(int32(off+t.Off), int32(t.Len))
				if off+t.Off+t.Len < len(whole) { // the listed finding of C12
					judgeString(c, "ToStringAtRange", t, bs, s, err, true)
				}
			})
		}
		m := newCursor(ref)
		var hist []navigation.Direction
		for i := 0; i < 60; i++ {
			step(c, res.Nav, m, dirs[r.N(len(dirs))], &hist)
		}
	}
	for i := 0; i < 25; i++ {
		doc := small
		if r.P(1, 2) {
			d, _ := GenDoc(r, 8)
			if g := RefParse(d, ns); g.V == Accept && !g.Soft {
				doc = d
			}
		}
		var off int
		switch r.N(6) {
		case 0:
			off = max - len(doc) - 1
		case 1:
			off = max - len(doc)
		case 2:
			off = max - len(doc) - 2 + r.N(6)
		case 3:
			off = max - r.N(3)
		case 4:
			off = r.N(max - len(doc) - 2)
		case 5:
			off = []int{gb - len(doc)/2, 1<<29 - len(doc)/2, 1<<20 - 3, 1<<24 - 1, gb + 5, gb - 1}[r.N(6)]
		}
		judge(doc, off)
	}
	judge(small, max-len(small)-1)
	judge(small, max-len(small))
	if c.Tier == "thorough" && (c.Case < 6) {
		c.Count("complete documents of the maximum size", 1)
		hugeDoc(c, ns, max)
	} else if c.Case < 2 {
		hugeDoc(c, ns, 96<<20)
	}
}

// hugeDoc parses a complete document of up to the maximum size, made of one repeated piece
func hugeDoc(c *Ctx, ns bool, max int) {
	const unit = 1 << 20
	times := max/unit - 2
	piece := bytes.Repeat([]byte(" "), unit)
	mode := c.Case / 2 % 3
	switch mode {
	case 1:
		piece = bytes.Repeat([]byte("x"), unit)
	case 2:
		copy(piece, "<e a='1'>text</e>")
	}
	total := (times + 2) * unit
	base := sparse(total)
	defer syscall.Munmap(base)
	rp := mapRepeat(piece, times)
	defer syscall.Munmap(rp)
	// head, repeated part, tail in one stretch: move the mapping behind the head
	a := uintptr(unsafe.Pointer(&base[unit]))
	const mremapFixed = 3
	if _, _, e := syscall.Syscall6(syscall.SYS_MREMAP, uintptr(unsafe.Pointer(&rp[0])), unit, unit, mremapFixed, a, 0); e != 0 {
		// pieces are separate mappings; move them one by one below
		panic("harness: mremap: " + e.Error())
	}
	for i := 1; i < times; i++ {
		if _, _, e := syscall.Syscall6(syscall.SYS_MREMAP, uintptr(unsafe.Pointer(&rp[i*unit])), unit, unit, mremapFixed, a+uintptr(i*unit), 0); e != 0 {
			panic("harness: mremap: " + e.Error())
		}
	}
	head := base[:unit]
	for i := range head {
		head[i] = ' '
	}
	copy(head, "<?xml version='1.0'?>")
	copy(head[unit-3:], "<r>")
	end := unit * (times + 1)
	copy(base[end:], "<last/></r>")
	doc := base[:end+len("<last/></r>")]
	if len(doc) >= max {
		panic("harness: size")
	}
	o := Opts{Ns: ns, Lc: []int{3, 5}[mode%2]}
	c.Detail("options", o.String()).Detail("document", fmt.Sprintf("%d bytes, mode %d", len(doc), mode))
	res := Parse(doc, o)
	c.Eval(1)
	if !res.Ok {
		c.Fail("a document of %d bytes: %s", len(doc), res.Outcome())
	}
	n := res.Nav.GetVtdBufferSize()
	t, e1 := res.Nav.GetTokenType(n - 1)
	off, e2 := res.Nav.GetTokenOffset(n - 1)
	l, e3 := res.Nav.GetTokenLength(n - 1)
	if e1 != nil || e2 != nil || e3 != nil || t != tStart || int(off) != end+1 || l != 4 {
		c.Fail("the last element of a document of %d bytes is at %d (type %d, length %d; %v %v %v), should be at %d", len(doc), off, t, l, e1, e2, e3, end+1)
	}
	if mode == 1 { // the text in contiguous pieces
		at := unit
		for i := 4; i < n-1; i++ {
			off, _ := res.Nav.GetTokenOffset(i)
			l, _ := res.Nav.GetTokenLength(i)
			if int(off) != at || int(l) != end-at {
				c.Fail("piece %d of the text is at %d+%d, should be at %d+%d", i, off, l, at, end-at)
			}
			at += maxTok
		}
		if at < end {
			c.Fail("the pieces of the text end at %d of %d", at, end)
		}
	}
	c.Count("complete large documents", 1)
	c.Sample("%d bytes, mode %d", len(doc), mode)
}
