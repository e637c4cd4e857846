package main

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"unsafe"
)

// family builds a document of about n bytes
type family struct {
	name string
	make func(n int) []byte
	// max is the largest size, 0 for any
	max int
	bad bool // refused
}

func fill(head, unit, tail string, n int) []byte {
	k := (n - len(head) - len(tail)) / len(unit)
	if k < 1 {
		k = 1
	}
	return []byte(head + strings.Repeat(unit, k) + tail)
}

func fillF(head, tail string, n int, unit func(i int) string) []byte {
	var b strings.Builder
	b.Grow(n + 1000)
	b.WriteString(head)
	for i := 0; b.Len() < n-len(tail); i++ {
		b.WriteString(unit(i))
	}
	b.WriteString(tail)
	return []byte(b.String())
}

func chain(n int, in string) string {
	return strings.Repeat("<d>", n) + in + strings.Repeat("</d>", n)
}

const lim = 1 << 20

var families = []family{
	{"long text", func(n int) []byte { return fill("<a>", "t", "</a>", n) }, 0, false},
	{"long text of several bytes per character", func(n int) []byte { return fill("<a>", "中é😀", "</a>", n) }, 0, false},
	{"text of lines", func(n int) []byte { return fill("<a>", "line\r\n", "</a>", n) }, 0, false},
	{"whitespace content", func(n int) []byte { return fill("<a>", " \n", "</a>", n) }, 0, false},
	{"brackets in text", func(n int) []byte { return fill("<a>", "]x]]", "x</a>", n) }, 0, false},
	{"empty elements", func(n int) []byte { return fill("<a>", "<b/>", "</a>", n) }, 0, false},
	{"siblings with text", func(n int) []byte { return fill("<a>", "<b>x</b>\n", "</a>", n) }, 0, false},
	{"siblings at level 2", func(n int) []byte { return fill("<a>", "<b><c/></b>", "</a>", n) }, 0, false},
	{"siblings at levels 1 to 6", func(n int) []byte {
		return fill("<a>", "<b><c><d><e><f/><f>x</f></e></d><d/></c><c/></b>", "</a>", n)
	}, 0, false},
	{"children of one deep element", func(n int) []byte {
		return fill(strings.Repeat("<d>", 200), "<e/>", strings.Repeat("</d>", 200), n)
	}, 0, false},
	{"children at level 3", func(n int) []byte { return fill("<a><b><c>", "<d>x</d>", "</c></b></a>", n) }, 0, false},
	{"deep nesting again and again", func(n int) []byte { return fill("<a>", chain(250, "x"), "</a>", n) }, 0, false},
	{"nesting of 20", func(n int) []byte { return fill("<a>", chain(20, "<e/>"), "</a>", n) }, 0, false},
	{"comments", func(n int) []byte { return fill("<a>", "<!--c-->", "</a>", n) }, 0, false},
	{"one long comment", func(n int) []byte { return fill("<a><!--", "c -", " --></a>", n) }, 0, false},
	{"instructions", func(n int) []byte { return fill("<a>", "<?p q?>", "</a>", n) }, 0, false},
	{"one long instruction", func(n int) []byte { return fill("<a><?p ", "q?", "?></a>", n) }, lim - 100, false},
	{"CDATA sections", func(n int) []byte { return fill("<a>", "<![CDATA[x]]>", "</a>", n) }, 0, false},
	{"one long CDATA section", func(n int) []byte { return fill("<a><![CDATA[", "]]x<", "]]></a>", n) }, 0, false},
	{"brackets in a CDATA section", func(n int) []byte { return fill("<a><![CDATA[", "]", "]]></a>", n) }, 0, false},
	{"references in text", func(n int) []byte { return fill("<a>", "&lt;&#x41;&amp;", "</a>", n) }, 0, false},
	{"references in one value", func(n int) []byte { return fill("<a b='", "&lt;&#65;", "'/>", n) }, lim - 100, false},
	{"references in many values", func(n int) []byte { return fill("<a>", "<b c='&lt;&#65;'/>", "</a>", n) }, 0, false},
	{"one long value", func(n int) []byte { return fill("<a b='", "v", "'/>", n) }, lim - 100, false},
	{"attributes", func(n int) []byte { return fill("<a>", "<b c='1' d='2' e='3' f='4'/>", "</a>", n) }, 0, false},
	{"many attributes per element", func(n int) []byte {
		var b strings.Builder
		b.WriteString("<b")
		for i := 0; i < 40; i++ {
			fmt.Fprintf(&b, " a%d='%d'", i, i)
		}
		b.WriteString("/>")
		return fill("<a>", b.String(), "</a>", n)
	}, 0, false},
	{"prefixed attributes", func(n int) []byte {
		return fill("<a xmlns:p='urn:p' xmlns:q='urn:q'>", "<p:b p:c='1' q:c='2' d='3'/>", "</a>", n)
	}, 0, false},
	{"declarations on siblings", func(n int) []byte { return fill("<a>", "<p:b xmlns:p='u' p:c='d'/>", "</a>", n) }, 0, false},
	{"default declarations on siblings", func(n int) []byte { return fill("<a>", "<b xmlns='u'><c/></b>", "</a>", n) }, 0, false},
	{"declarations with references", func(n int) []byte { return fill("<a>", "<p:b xmlns:p='u&amp;v' p:c='d' e=''>x</p:b>", "</a>", n) }, 0, false},
	{"nested declarations", func(n int) []byte {
		return fill("<a>", "<p:b xmlns:p='u'><q:b xmlns:q='v'><p:c q:d='1' p:d='2'/></q:b></p:b>", "</a>", n)
	}, 0, false},
	{"different names", func(n int) []byte {
		return fillF("<a>", "</a>", n, func(i int) string { return fmt.Sprintf("<n%d v%d='x%d'>t%d</n%d>", i, i, i, i, i) })
	}, 0, false},
	{"different prefixes", func(n int) []byte {
		return fillF("<a>", "</a>", n, func(i int) string { return fmt.Sprintf("<p%d:n xmlns:p%d='u%d' p%d:a=''/>", i, i, i, i) })
	}, 0, false},
	{"comments behind the root", func(n int) []byte { return fill("<a/>", "<!--c-->\n", "", n) }, 0, false},
	{"instructions behind the root", func(n int) []byte { return fill("<a/>", "<?p q?>", "", n) }, 0, false},
	{"comments in front of the root", func(n int) []byte { return fill("", "<!--c-->\n", "<a/>", n) }, 0, false},
	{"whitespace in front", func(n int) []byte { return fill("", " \n", "<a/>", n) }, 0, false},
	{"whitespace behind", func(n int) []byte { return fill("<a/>", " \n", "", n) }, 0, false},
	{"whitespace in tags", func(n int) []byte { return fill("<a>", "<b    c  =  'd'   ></b   >", "</a>", n) }, 0, false},
	{"whitespace in one tag", func(n int) []byte { return fill("<a", " \n", "/>", n) }, 0, false},
	{"document type", func(n int) []byte { return fill("<!DOCTYPE a [", "<!ENTITY e 'v'>", "]><a/>", n) }, lim - 100, false},
	{"long names", func(n int) []byte {
		s := strings.Repeat("name", 400)
		return fill("<a>", "<"+s+">x</"+s+">", "</a>", n)
	}, 0, false},
	{"mixed content", func(n int) []byte {
		return fill("<a>", "t<b>u<!--c-->v<?p?>w<![CDATA[x]]>y</b>z&lt;", "</a>", n)
	}, 0, false},
	{"tabs in front of text", func(n int) []byte { return fill("<a>\t", "\t", "x</a>", n) }, 0, false},
	{"empty lines in content", func(n int) []byte { return fill("<a>", "\n", "</a>", n) }, 0, false},
	{"empty lines behind an element", func(n int) []byte { return fill("<a><b/>", "\n", "</a>", n) }, 0, false},
	{"empty lines behind an end tag", func(n int) []byte { return fill("<a><b>x</b>", "\r\n", "<c/></a>", n) }, 0, false},
	{"empty lines behind a comment", func(n int) []byte { return fill("<a><!---->", "\n", "x</a>", n) }, 0, false},
	{"empty lines behind an instruction", func(n int) []byte { return fill("<a><?p?>", "\n", "x</a>", n) }, 0, false},
	{"empty lines behind a CDATA section", func(n int) []byte { return fill("<a><![CDATA[]]>", "\r", "x</a>", n) }, 0, false},
	{"empty lines in front of an attribute", func(n int) []byte { return fill("<a b='c'", "\n", "d='e'/>", n) }, 0, false},
	{"empty lines around =", func(n int) []byte { return fill("<a b", "\n", "=\n\n'c'/>", n) }, 0, false},
	{"empty lines in an end tag", func(n int) []byte { return fill("<a></a", "\n", ">", n) }, 0, false},
	{"empty lines in an XML declaration", func(n int) []byte { return fill("<?xml version='1.0'", "\n", "encoding='UTF-8'?><a/>", n) }, 0, false},
	{"empty lines in front of the root", func(n int) []byte { return fill("<!--c-->", "\n", "<a/>", n) }, 0, false},
	{"empty lines behind the root", func(n int) []byte { return fill("<a/>", "\n", "<!--c-->", n) }, 0, false},
	{"empty lines in an instruction", func(n int) []byte { return fill("<?p", "\n", "x?><a/>", n) }, lim - 100, false},
	{"empty lines in a value", func(n int) []byte { return fill("<a b='", "\n", "'/>", n) }, lim - 100, false},
	{"comments in a document type", func(n int) []byte { return fill("<!DOCTYPE a [", "<!--'-->", "]><a/>", n) }, lim - 100, false},
	{"instructions in a document type", func(n int) []byte { return fill("<!DOCTYPE a [", "<?p '?>", "]><a/>", n) }, lim - 100, false},
	{"literals in a document type", func(n int) []byte { return fill("<!DOCTYPE a [", "'\"' ", "]><a/>", n) }, lim - 100, false},
	{"question marks in an instruction", func(n int) []byte { return fill("<a><?p ", "?", "?></a>", n) }, lim - 100, false},
	{"a comment without an end", func(n int) []byte { return fill("<a><!--", "-x", "", n) }, 0, true},
	{"references of all kinds in short texts", func(n int) []byte {
		return fill("<a>", "<b>&quot;</b>&apos;<b/>&gt;&#9;", "</a>", n)
	}, 0, false},
	{"text in pieces", func(n int) []byte { return fill("<a>", "t\n<b/> u\n", "</a>", n) }, 0, false},
	// refused
	{"wrong end tag at the end", func(n int) []byte { return fill("<a>", "<b/>\n", "</c>", n) }, 0, true},
	{"illegal character at the end of lines", func(n int) []byte { return fill("<a>", "t\n", "&x</a>", n) }, 0, true},
	{"end of input in a text", func(n int) []byte { return fill("<a>", "t\n", "", n) }, 0, true},
	{"end of input behind siblings", func(n int) []byte { return fill("<a>", "<b>\n</b>", "", n) }, 0, true},
	{"end of input in a comment", func(n int) []byte { return fill("<a><!--", "c\n", "", n) }, 0, true},
	{"end of input in a CDATA section", func(n int) []byte { return fill("<a><![CDATA[", "]]\n", "", n) }, 0, true},
	{"end of input in a value", func(n int) []byte { return fill("<a b='", "c\n", "", n) }, 0, true},
	{"end of input in a document type", func(n int) []byte { return fill("<!DOCTYPE a ", "[ ", "", n) }, 0, true},
	{"end of input behind declarations", func(n int) []byte { return fill("<a>", "<p:b xmlns:p='u'/>\n", "", n) }, 0, true},
	{"undeclared prefix at the end", func(n int) []byte { return fill("<a>", "<b c='d'/>", "<p:b/></a><<", n) }, 0, true},
	{"duplicate attribute at the end", func(n int) []byte { return fill("<a>", "<b c='d'/>", "<b c='d' c='d'/></a>", n) }, 0, true},
	{"invalid UTF-8 at the end", func(n int) []byte { return fill("<a>", "é\n", "\xff</a>", n) }, 0, true},
	{"second root", func(n int) []byte { return fill("<a>", "<b/>\n", "</a><a/>", n) }, 0, true},
	{"unknown entity at the end", func(n int) []byte { return fill("<a>", "&lt;", "&nbsp;</a>", n) }, 0, true},
	{"leading zeros", func(n int) []byte { return fill("<a>&#", "0", "x;</a>", n) }, 0, true},
	{"a name that never ends", func(n int) []byte { return fill("<", "n", "", n) }, 0, true},
	{"a target that never ends", func(n int) []byte { return fill("<?", "n", "", n) }, 0, true},
	{"too deep", func(n int) []byte { return fill("", "<a>", "", n) }, 0, true},
}

func threadCPU() int64 {
	var ts syscall.Timespec
	syscall.RawSyscall(syscall.SYS_CLOCK_GETTIME, 3, uintptr(unsafe.Pointer(&ts)), 0) // CLOCK_THREAD_CPUTIME_ID
	return ts.Nano()
}

// measure parses the document once; the collector does not run meanwhile
func measure(doc []byte, o Opts) (cpu int64, alloc uint64, res *Res) {
	runtime.GC()
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	t := threadCPU()
	res = Parse(doc, o)
	cpu = threadCPU() - t
	runtime.ReadMemStats(&m1)
	return cpu, m1.TotalAlloc - m0.TotalAlloc, res
}

func init() {
	register(&Check{
		ID: "C23", Title: "parsing cost grows linearly with the document", Cases: func(t string) int { return len(families)*tiers(8, 40)(t) + tiers(900, 9000)(t) }, CPU: 120, RSS: 4000,
		Need:   map[string]int64{"growth of memory observed": 200, "growth of processing observed": 200, "accepted": 150, "refused": 60, "units put together by chance": 300},
		Rule:   "83 families of accepted and refused documents, each at a size and at eight times the size (16 KB to 8 MB, thorough 32 MB), with and without namespaces, cache depth 3 and 5; and documents that repeat a unit of content put together by chance (pieces, generated elements, items of chosen sizes) at a chosen depth, accepted and refused at the end; bytes allocated by one parse and the processor time of the parsing thread; distinct by family, size and options",
		Tech:   "cost monitor: allocation counter and thread processor time of executions of growing size, compared with linear growth",
		Assume: []string{"linear growth means: eight times the size takes at most 32 times the bytes allocated (plus 1 MB; lists that double and lists that grow by a quarter are both linear) and, in one of up to six repetitions, at most 24 times the processor time, where quadratic growth takes 64 times"},
		Run: func(c *Ctx) {
			r := c.R
			debug.SetGCPercent(-1)
			debug.SetMemoryLimit(2 << 30) // far more than any of these parses needs
			defer debug.SetGCPercent(100)
			runtime.LockOSThread()
			defer runtime.UnlockOSThread()
			f := families[c.Case%len(families)]
			round := c.Case / len(families)
			chance := c.Case >= len(families)*tiers(8, 40)(c.Tier)
			var ns bool
			if chance {
				f, ns = costFamily(r)
				c.Count("units put together by chance", 1)
			}
			n := []int{16 << 10, 64 << 10, 128 << 10, 256 << 10, 512 << 10, 1 << 20, 640 << 10, 1 << 20}[round%8]
			if c.Tier == "thorough" && round >= 8 {
				n = []int{1 << 20, 3 << 20, 200 << 10, 4 << 20, 800 << 10}[round%5]
			}
			const by = 8
			if f.max != 0 && n*by > f.max {
				n = f.max / by
			}
			o := Opts{Ns: (round+c.Case)%2 == 0, Lc: []int{3, 5}[(round/2+c.Case)%2], Reuse: r.N(3)}
			if chance {
				n = []int{32 << 10, 64 << 10, 96 << 10}[r.N(3)]
				o.Ns = ns
			}
			if strings.Contains(f.name, "undeclared") {
				o.Ns = true
			}
			small, large := f.make(n), f.make(n*by)
			c.Detail("family", f.name).Detail("sizes", fmt.Sprintf("%d and %d bytes", len(small), len(large))).Detail("options", o.String())
			c.Doc(small, o)
			c.Distinct(hashStr(fmt.Sprint(f.name, n, o)))
			grow := float64(len(large)) / float64(len(small))
			best := 1e9
			var note string
			// the smallest times of repetitions are compared, and all of it again if that is not convincing
			for try := 0; try < 6; try++ {
				var s, l int64 = 1 << 62, 1 << 62
				var as, al uint64
				for i := 0; i < 3+try; i++ {
					cpu, a, res := measure(small, o)
					if cpu < s {
						s = cpu
					}
					as = a
					if res.Panic != nil {
						c.Fail("%s", res.Outcome())
					}
					if res.Ok == f.bad {
						c.Fail("the document is %s", res.Outcome())
					}
				}
				reps := 1
				if try > 0 {
					reps = 2
				}
				for i := 0; i < reps; i++ {
					cpu, a, res := measure(large, o)
					if cpu < l {
						l = cpu
					}
					al = a
					if res.Ok == f.bad {
						c.Fail("the larger document is %s", res.Outcome())
					}
				}
				c.Eval(1)
				if try == 0 {
					c.Count("growth of memory observed", 1)
					if f.bad {
						c.Count("refused", 1)
					} else {
						c.Count("accepted", 1)
					}
				}
				// a list that doubles when it is small and grows by a quarter when it is large allocates a bit more
				// than three times as much per byte when it is large
				if float64(al) > float64(as)*grow*4+1<<20 {
					c.Fail("%s: %.1f times the size allocates %d bytes instead of %d (%.1f times)", f.name, grow, al, as, float64(al)/float64(as))
				}
				q := float64(l) / float64(s+20000) / grow
				if q < best {
					best = q
					note = fmt.Sprintf("%s: %d bytes %.2f ms, %d bytes %.2f ms; %.1f and %.1f bytes allocated per byte", f.name, len(small), float64(s)/1e6, len(large), float64(l)/1e6, float64(as)/float64(len(small)), float64(al)/float64(len(large)))
				}
				if best < 3 {
					break
				}
				c.Count("measurements repeated", 1)
			}
			c.Count("growth of processing observed", 1)
			if best >= 3 {
				c.Fail("%s: the processing grows faster than linearly: %s", f.name, note)
			}
			if os := best; os > 1.5 {
				c.Count("ratio over 1.5", 1)
			}
			if c.Case%50 == 0 || best > 2 {
				c.Sample("%s", note)
			}
		},
	})
}
