package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/parser"
)

// surroundings is what a parse must leave alone
type surroundings struct {
	files      string
	out, err   int64
	goroutines int
	fds        int
	env        string
	cwd        string
}

func fileList(dir string) string {
	var l []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil {
			l = append(l, fmt.Sprint(p, fi.Size(), fi.ModTime().UnixNano()))
		}
		return nil
	})
	return strings.Join(l, "\n")
}

func fileSize(f string) int64 {
	fi, err := os.Stat(f)
	if err != nil {
		return -1
	}
	return fi.Size()
}

// openFiles counts open files, other than the harness's own look at /proc
func openFiles() int {
	n := 0
	if d, err := os.ReadDir("/proc/self/fd"); err == nil {
		for _, e := range d {
			l, err := os.Readlink("/proc/self/fd/" + e.Name())
			if err == nil && !strings.HasPrefix(l, "/proc") && !strings.HasPrefix(l, "anon_inode") {
				n++
			}
		}
	}
	return n
}

func observe() surroundings {
	s := surroundings{files: fileList("."), out: fileSize(os.Getenv("VH_STDOUT")), err: fileSize(os.Getenv("VH_STDERR")), goroutines: runtime.NumGoroutine()}
	s.fds = openFiles()
	e := os.Environ()
	sort.Strings(e)
	s.env = strings.Join(e, "\n")
	s.cwd, _ = os.Getwd()
	return s
}

func (c *Ctx) same(before surroundings) {
	after := observe()
	if after.goroutines > before.goroutines { // one that is just ending
		for i := 0; i < 100 && after.goroutines > before.goroutines; i++ {
			time.Sleep(20 * time.Millisecond)
			after.goroutines = runtime.NumGoroutine()
		}
	}
	for i := 0; i < 20 && after.fds > before.fds; i++ {
		time.Sleep(20 * time.Millisecond)
		after.fds = openFiles()
	}
	c.Count("observations of the surroundings", 1)
	switch {
	case after.out != before.out:
		b, _ := os.ReadFile(os.Getenv("VH_STDOUT"))
		c.Fail("parsing or querying wrote to standard output: %q", clip(b, 300))
	case after.err != before.err:
		b, _ := os.ReadFile(os.Getenv("VH_STDERR"))
		c.Fail("parsing or querying wrote to standard error: %q", clip(b, 300))
	case after.files != before.files || after.cwd != before.cwd:
		c.Fail("parsing or querying changed files: %q, before %q", after.files, before.files)
	case after.goroutines > before.goroutines:
		buf := make([]byte, 100000)
		buf = buf[:runtime.Stack(buf, true)]
		c.Fail("parsing or querying left goroutines behind: %d, before %d: %s", after.goroutines, before.goroutines, clip(buf, 2000))
	case after.fds > before.fds:
		c.Fail("parsing or querying left files open: %d, before %d", after.fds, before.fds)
	case after.env != before.env:
		c.Fail("parsing or querying changed the environment")
	}
}

// frozen holds documents that cannot be written
type frozen struct{ mem []byte }

func (f *frozen) put(doc []byte, lead int, fill byte) []byte {
	if f.mem == nil || len(f.mem) < lead+len(doc)+100 {
		if f.mem != nil {
			syscall.Munmap(f.mem)
		}
		n := (lead + len(doc) + 100 + 16*page) / page * page
		m, err := syscall.Mmap(-1, 0, n, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
		if err != nil {
			panic("harness: mmap: " + err.Error())
		}
		f.mem = m
	} else if syscall.Mprotect(f.mem, syscall.PROT_READ|syscall.PROT_WRITE) != nil {
		panic("harness: mprotect")
	}
	b := f.mem[:lead+len(doc)+100]
	for i := range b {
		b[i] = fill
	}
	copy(b[lead:], doc)
	if syscall.Mprotect(f.mem, syscall.PROT_READ) != nil {
		panic("harness: mprotect")
	}
	return f.mem[lead : lead+len(doc)] // the capacity reaches behind the document
}

type remembered struct {
	doc  []byte
	o    Opts
	seed uint64
	out  string
	what string
}

func init() {
	var fz frozen
	var hist []remembered
	register(&Check{
		ID: "C19", Title: "parsing is pure and deterministic", Passes: 2, Cases: tiers(1200, 16000), GC: 400,
		Need: map[string]int64{"parses of unwritable bytes": 50000, "accepted": 15000, "refused": 15000, "repeated at once": 35000, "repeated after other documents": 20000, "repeated after related documents": 30000, "observations of the surroundings": 1200, "digests compared between processes": 600, "option lists used twice": 3000, "parsers used again or late": 3000},
		Rule: "generated, edited, soup, random and amplification documents in unwritable memory with capacity behind them, all options; complete observations (outcome, error with position, tokens, strings, random walk), repeated at once, after other accepted and failed documents, before and after documents they are edits of, from another copy, with the same option list, with a parser constructed long before, and in a second process that runs the cases in the opposite order; standard output, standard error, files, open files, goroutines and environment observed around every case; distinct by document and options",
		Tech: "memory monitor (unwritable input), output, file and goroutine monitors, and comparison of repeated observations within and between processes",
		Run: func(c *Ctx) {
			r := c.R
			debug.SetPanicOnFault(true)
			before := observe()
			src := &Source{r, 10}
			var sum uint64
			pick := func() ([]byte, string) {
				switch r.N(14) {
				case 3:
					d := wideAttrs(r)
					if r.P(1, 2) {
						d, _ = Mutate(r, d, RefParse(d, false), -1)
					}
					return d, "many attributes"
				case 4:
					return amplify(r, nsSoup(r)), "namespace soup, amplified"
				case 0:
					return randomBytes(r), "random"
				case 1:
					return hostileDoc(r, r.N(hostileKinds), []int{60, 700, 5000}[r.N(3)]), "hostile"
				case 2:
					return sizedDocOf(r), "sized"
				}
				return src.Next()
			}
			obs := func(doc []byte, o Opts, seed uint64) string {
				var x []byte
				if o.Win {
					x = fz.put(doc, o.Off, []byte{'x', '<', ' ', 0}[seed%4])
					x = fz.mem[:o.Off+len(doc)]
				} else {
					x = fz.put(doc, 0, []byte{'x', '<', ' ', 0}[seed%4])
				}
				c.Count("parses of unwritable bytes", 1)
				return full(x, o, seed, o.Off, false, 24)
			}
			var batch []remembered
			var late *parser.VtdParser
			var lateOf *remembered
			for i := 0; i < 24; i++ {
				doc, what := pick()
				o := Opts{Ns: r.P(1, 2), Lc: []int{0, 3, 5}[r.N(3)], Reuse: r.N(3), Order: r.N(2)}
				if r.P(1, 4) {
					o.Win, o.Off, o.N = true, r.N(50), len(doc)
				}
				seed := r.U64()
				c.Doc(doc, o)
				c.Detail("document", show(doc)).Detail("options", o.String()).Detail("kind", what)
				s := obs(doc, o, seed)
				if strings.Contains(s, "panic:") {
					c.Fail("with unwritable input: %s", s[strings.Index(s, "panic:"):])
				}
				c.Eval(1)
				c.Distinct(hashBytes(doc) + hashStr(o.String()))
				if strings.HasPrefix(s, "tokens") {
					c.Count("accepted", 1)
				} else {
					c.Count("refused", 1)
				}
				if t := obs(doc, o, seed); t != s {
					c.Fail("repeating the parse gives another result: %s", firstDiff(s, t))
				}
				c.Count("repeated at once", 1)
				sum = mix(sum + hashStr(s))
				m := remembered{append([]byte(nil), doc...), o, seed, s, what}
				batch = append(batch, m)
				// a parser that waits until others have run
				if late == nil && !o.Win {
					var err error
					c.lib("NewVtdParser", func() { late, err = parser.NewVtdParser(o.list(m.doc)...) })
					if err != nil {
						late = nil
					}
					lateOf = &m
				} else if late != nil && r.P(1, 3) {
					p := late
					late = nil
					var t string
					if pn := guard(func() {
						if err := p.Parse(); err != nil {
							t = (&Res{Err: err}).Outcome()
							return
						}
						n, err := p.GetNav()
						if err != nil {
							t = (&Res{Err: err}).Outcome()
							return
						}
						t, _ = snapshot(n, lateOf.seed, 0, false, 24)
					}); pn != nil {
						t = "panic: " + pn.msg + " at " + pn.stack
					}
					c.Count("parsers used again or late", 1)
					if t != lateOf.out {
						c.Detail("document", show(lateOf.doc)).Detail("options", lateOf.o.String())
						c.Fail("a parser gives another result when others have run between construction and parsing: %s", firstDiff(t, lateOf.out))
					}
				}
				// the same options for two parsers
				if r.P(1, 5) && !o.Win {
					l := o.list(m.doc)
					for k := 0; k < 2; k++ {
						var t string
						if pn := guard(func() {
							p, err := parser.NewVtdParser(l...)
							if err == nil {
								err = p.Parse()
							}
							var n *navigation.VtdNav
							if err == nil {
								n, err = p.GetNav()
							}
							if err != nil {
								t = (&Res{Err: err}).Outcome()
								return
							}
							t, _ = snapshot(n, seed, 0, false, 24)
							p.Clear() // what it leaves is seen in the surroundings
						}); pn != nil {
							t = "panic: " + pn.msg + " at " + pn.stack
						}
						if t != s {
							c.Fail("use %d of an option list gives another result: %s", k+1, firstDiff(t, s))
						}
					}
					c.Count("option lists used twice", 1)
				}
			}
			// relatives: edits of a document before and after the document itself
			for k := 0; k < 5; k++ {
				st := randStyle(r, 6)
				st.NsMode, st.TextLen = 1, 8
				doc := GenStyle(r, st)
				for try := 0; try < 3 && r.P(1, 2); try++ {
					if x := ampWord(r, doc); len(x) > 0 && len(x) < 4000 {
						doc = x
					}
				}
				if len(doc) > 8000 {
					continue
				}
				ref := RefParse(doc, false)
				o := Opts{Ns: r.P(3, 4), Lc: []int{0, 3, 5}[r.N(3)]}
				var rel []remembered
				for q := 0; q < 8; q++ {
					m, what := Mutate(r, doc, ref, -1)
					if q < 5 {
						m, what = Mutate(r, doc, ref, len(mutators)-1-r.N(3))
					}
					x := remembered{m, o, r.U64(), "", what}
					c.Doc(m, o)
					x.out = obs(m, o, x.seed)
					rel = append(rel, x)
				}
				seed := r.U64()
				s := obs(doc, o, seed)
				for q := range rel {
					m := &rel[q]
					c.Doc(m.doc, o)
					c.Detail("document", show(m.doc)).Detail("document parsed in between", show(doc)).Detail("options", m.o.String()).Detail("kind", m.what)
					if t := obs(m.doc, o, m.seed); t != m.out {
						c.Fail("after a related document the result is another one: %s", firstDiff(t, m.out))
					}
					if q%3 == 0 {
						if t := obs(doc, o, seed); t != s {
							c.Fail("the result of the related document is another one: %s", firstDiff(t, s))
						}
					}
					c.Count("repeated after related documents", 1)
				}
			}
			// again, in another order, from other copies
			for k := 0; k < 10; k++ {
				m := &batch[r.N(len(batch))]
				c.Detail("document", show(m.doc)).Detail("options", m.o.String())
				if t := obs(m.doc, m.o, m.seed); t != m.out {
					c.Fail("after other documents the result is another one: %s", firstDiff(t, m.out))
				}
				c.Count("repeated after other documents", 1)
			}
			for k := 0; k < 4 && len(hist) > 0; k++ { // which ones depends on the pass; the digest does not
				m := &hist[int(mix(uint64(c.Case)*7+uint64(k)+uint64(c.pass)<<20)%uint64(len(hist)))]
				c.Detail("document", show(m.doc)).Detail("options", m.o.String())
				if t := obs(m.doc, m.o, m.seed); t != m.out {
					c.Fail("after many other documents the result is another one: %s", firstDiff(t, m.out))
				}
				c.Count("repeated after other documents", 1)
			}
			for _, m := range batch {
				if len(m.out) > 40000 {
					continue
				}
				if len(hist) < 200 {
					hist = append(hist, m)
				} else if mix(hashBytes(m.doc)+3)%20 == 0 {
					hist[mix(hashBytes(m.doc))%200] = m
				}
			}
			c.Digest(fmt.Sprintf("%d/", c.Case), sum)
			c.same(before)
			if c.Case%300 == 0 {
				c.Sample("%s %s", batch[0].o, show(batch[0].doc))
			}
		},
	})
}

// sizedDocOf is a document whose size selects other buffers
func sizedDocOf(r *Rng) []byte {
	d, _ := GenDoc(r, 8)
	return sizedDoc(r, d, []int{900, 1024, 1025, 4096, 4097, 16384, 16385, 65536, 65537}[r.N(9)]+r.In(-2, 2))
}
