package main

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/buffer"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/modifier"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/parser"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/pilot"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/reader"
)

// work is one job of a goroutine; run gives everything the library showed
type work struct {
	what string
	run  func() string
}

// sideJob uses the smaller packages
func sideJob(r *Rng, doc []byte) work {
	seed := r.U64()
	switch r.N(6) {
	case 0:
		return work{"character classes", func() string {
			q := NewRng(seed)
			x := common.NewXmlChar()
			h := uint64(0)
			for i := 0; i < 300; i++ {
				v := uint32(q.N(0x110010))
				if q.P(1, 2) {
					v = uint32(q.N(0x400))
				}
				for k, b := range []bool{x.IsValidChar(v), x.IsSpaceChar(v), x.IsNameStartChar(v), x.IsNameChar(v), x.IsContentChar(v)} {
					if b {
						h = mix(h + uint64(v)<<3 + uint64(k))
					}
				}
			}
			return fmt.Sprint(h)
		}}
	case 1:
		return work{"reader", func() string {
			var x reader.Reader
			var err error
			if seed%2 == 0 {
				x, err = reader.NewUtf8Reader(doc, 0, len(doc))
			} else {
				x, err = reader.NewAsciiReader(doc, 0, len(doc))
			}
			if err != nil {
				return err.Error()
			}
			h := uint64(0)
			for i := 0; i < 400; i++ {
				v, err := x.GetChar()
				if err != nil {
					return fmt.Sprint(h, errText(err))
				}
				h = mix(h + uint64(v))
				x.SkipChar('a')
				x.SkipCharSeq("</")
			}
			return fmt.Sprint(h)
		}}
	case 2:
		return work{"buffers", func() string {
			q := NewRng(seed)
			b, err := buffer.NewFastLongBuffer(buffer.WithFastLongBufferPageSize(4))
			b2, err2 := buffer.NewFastIntBuffer(buffer.WithFastIntBufferPageSize(3))
			if err != nil || err2 != nil {
				return fmt.Sprint(err, err2)
			}
			for i := 0; i < 100; i++ {
				b.Append(int64(q.U64()))
				b2.Append(int32(q.U64()))
			}
			_, e := b.LongAt(100)
			_, e2 := b2.IntAt(-1)
			a1, e3 := b.ToLongArray()
			a2, e4 := b2.ToIntArray()
			return fmt.Sprint(a1, a2, e, e2, e3, e4)
		}}
	case 3:
		return work{"errors", func() string {
			q := NewRng(seed)
			m := fmt.Sprint("message ", q.N(1000))
			var l []error
			l = append(l, erroring.NewParseError(m, fmt.Sprint("line ", q.N(99)), nil), erroring.NewDecodingError(m), erroring.NewModifyError(m), erroring.NewInternalError(m, erroring.NewEOFError(m)), erroring.NewEntityError(m), erroring.NewEncodingError(m),
				erroring.NewInvalidArgumentError("a", m, nil), erroring.NewNavigationError(m, nil), erroring.NewEOFError(m))
			runtime.Gosched()
			s := ""
			for _, e := range l {
				s += errText(e) + "\n"
			}
			return s
		}}
	case 4:
		return work{"refused arguments", func() string {
			q := NewRng(seed)
			p, err := parser.NewVtdParser(parser.WithXmlDocCustomOffset(doc, q.In(-2, len(doc)+2), q.In(-2, len(doc)+2)))
			if err != nil {
				return errText(err)
			}
			_, err = p.GetNav()
			s := errText(err)
			if err = p.Parse(); err != nil {
				return s + errText(err)
			}
			return s + "parsed"
		}}
	}
	return work{"modifier and pilot", func() string {
		res := Parse(doc, Opts{Ns: seed%2 == 0})
		if !res.Ok {
			return res.Outcome()
		}
		_, e1 := modifier.NewXmlModifier(modifier.WithNavigation(res.Nav))
		_, e2 := pilot.NewAutoPilot(pilot.WithNavigation(res.Nav))
		_, e3 := modifier.NewXmlModifier()
		return fmt.Sprint(e1, e2, e3)
	}}
}

// firstUses has several goroutines do the same jobs at the same time, from the first
// call into the library on: every part is used for the first time by all of them
func firstUses(c *Ctx) {
	r := c.R
	var jobs []work
	parse := func(d []byte) {
		seed := r.U64()
		c.Distinct(hashBytes(d))
		jobs = append(jobs, work{show(d), func() string {
			return full(d, Opts{}, seed, 0, false, 12) + full(d, Opts{Ns: true, Lc: 5}, seed, 0, false, 12)
		}})
	}
	src := &Source{r, 4}
	for i := 0; i < 2*len(mutators); i++ {
		d := baseDoc(r, 6)
		if len(d) > 3000 {
			continue
		}
		d, _ = Mutate(r, d, RefParse(d, false), i%len(mutators))
		parse(d)
	}
	for i := 0; i < 250; i++ {
		if d, _ := src.Next(); len(d) < 3000 {
			parse(d)
		}
		parse(nsSoup(r))
	}
	for i := 0; i < 60; i++ {
		parse(specialDoc(r.N(specialDocs())))
		parse(relDoc(r.N(relDocs())))
		t := unicodeTemplates[r.N(len(unicodeTemplates))]
		parse([]byte(t.pre + r.Pick("\x00", "\xff", "é", "\xc3", "😀", "\xed\xa0\x80", "\xff\xfe<", "中", "&#xFFFF;", "&#x110000;", "&unknown;", "&apos;&quot;&gt;") + t.post))
	}
	for _, e := range append(append([]string{}, encNames...), otherEncs...) {
		parse([]byte("<?xml version='1.0' encoding='" + e + "'?><a>é</a>"))
	}
	for _, t := range templates {
		parse([]byte(t))
		for i := 0; i < 4; i++ {
			parse([]byte(t[:1+r.N(len(t))]))
		}
	}
	for i := 0; i < 200; i++ {
		jobs = append(jobs, sideJob(r, []byte("<a>x</a>")))
	}
	for i := len(jobs) - 1; i > 0; i-- {
		k := r.N(i + 1)
		jobs[i], jobs[k] = jobs[k], jobs[i]
	}
	const G = 3
	for i, w := range jobs {
		var wg sync.WaitGroup
		var out [G]string
		gate := make(chan struct{})
		for g := 0; g < G; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-gate
				if p := guard(func() { out[g] = w.run() }); p != nil {
					out[g] = "panic: " + p.msg + " at " + p.stack
				}
			}(g)
		}
		close(gate)
		wg.Wait()
		for g := 1; g < G; g++ {
			if out[g] != out[0] {
				c.Detail("job", w.what).Fail("job %d gives two goroutines different results: %s", i, firstDiff(out[0], out[g]))
			}
		}
		c.Eval(1)
		c.Count("jobs first done by several goroutines at once", 1)
	}
}

func init() {
	register(&Check{
		ID: "C18", Title: "independent parsers and navigators can run concurrently", Race: true, Workers: 8, Cases: tiers(800, 12000), GC: 300, CPU: 120, RSS: 5000,
		Need: map[string]int64{"jobs run concurrently": 20000, "accepted": 4000, "refused": 4000, "navigators of one document used concurrently": 600, "jobs over shared bytes": 10000, "jobs that overlapped another one": 4000, "first use of the library concurrent": 4, "jobs first done by several goroutines at once": 5000, "documents at the limits parsed concurrently": 40},
		Rule: "groups of 2 to 16 goroutines released together, each running its list of jobs: parse and complete observation of generated, edited and failing documents over shared bytes in all option combinations, several navigators of one parsed document, readers, buffers, errors, modifiers; random yields; every job's observations compared with the same job alone; the program runs with the race detector; the first use of the library in each of 8 processes is concurrent; distinct by document and options",
		Tech: "race detector over real concurrent executions, and comparison of every concurrent observation with the sequential one",
		Run: func(c *Ctx) {
			r := c.R
			if c.Case < 8 {
				firstUses(c)
			}
			size := []int{4, 8, 8, 14}[r.N(4)]
			src := &Source{r, size}
			var docs [][]byte
			for i := r.In(2, 5); i > 0; i-- {
				var d []byte
				if r.P(1, 2) {
					d, _ = GenDoc(r, size)
				} else {
					d, _ = src.Next()
				}
				if len(d) > 6000 && !r.P(1, 10) {
					continue
				}
				docs = append(docs, d)
			}
			if r.P(1, 4) {
				if d := bushDoc(r); len(d) < 20000 || r.P(1, 20) {
					docs = append(docs, d)
				}
			}
			special := c.Case%10 == 9 // documents that need parts of the library that others do not
			if special {
				k := limitKinds[c.Case/10%len(limitKinds)]
				docs = [][]byte{limitDoc(r, k, limitSizes(k, r))}
				if len(docs[0]) > 3<<20 {
					docs = [][]byte{limitDoc(r, k, limitOf(k)+1)}
				}
				if d := scaleDoc(r, false); len(d) < 200000 {
					docs = append(docs, d)
				}
				c.Count("documents at the limits parsed concurrently", 1)
			}
			if docs == nil {
				docs = [][]byte{[]byte("<a xmlns:p='u'><p:b p:c='&lt;'>x</p:b></a>")}
			}
			G := []int{2, 3, 4, 4, 8, 16}[r.N(6)]
			per := 48 / G
			if per < 4 {
				per = 4
			}
			if special {
				G, per = r.In(2, 4), 3
			}
			var overlap, active int64
			// navigators of one document
			var shared []work
			var sharedSeed []uint64
			sharedNav := 0
			pickDoc := docs[r.N(len(docs))]
			so := Opts{Ns: r.P(1, 2), Lc: []int{3, 5}[r.N(2)]}
			plans := make([][]work, G)
			sharedBytes := 0
			for g := range plans {
				for k := 0; k < per; k++ {
					d := docs[r.N(len(docs))]
					if r.P(1, 5) {
						plans[g] = append(plans[g], sideJob(r, d))
						continue
					}
					o := Opts{Ns: r.P(1, 2), Lc: []int{0, 3, 5}[r.N(3)], Reuse: r.N(3), Order: r.N(2)}
					base := 0
					if r.P(1, 4) {
						o.Win, o.N = true, len(d)
						if r.P(1, 2) && len(d) > 2 {
							o.N = r.In(1, len(d))
							o.Off = r.N(len(d) - o.N + 1)
							base = o.Off
						}
					}
					seed := r.U64()
					sharedBytes++
					c.Distinct(hashBytes(d) + hashStr(o.String()))
					plans[g] = append(plans[g], work{o.String() + " " + show(d), func() string { return full(d, o, seed, base, false, 30) }})
				}
			}
			rs := make([][]string, G)
			sharedRes := make([]string, G)
			if r.P(2, 3) && c.Case >= 8 {
				res := Parse(pickDoc, so)
				if res.Ok {
					for g := 0; g < G; g++ {
						n, err := res.P.GetNav()
						if err != nil {
							c.Fail("GetNav again: %v", err)
						}
						seed := r.U64()
						sharedSeed = append(sharedSeed, seed)
						shared = append(shared, work{"navigator of a shared document", func() string {
							s, _ := snapshot(n, seed, 0, false, 60)
							return s
						}})
						sharedNav++
					}
				}
			}
			if c.Case < 8 {
				c.Count("first use of the library concurrent", 1)
			}
			var wg sync.WaitGroup
			gate := make(chan struct{})
			for g := 0; g < G; g++ {
				wg.Add(1)
				q := NewRng(r.U64())
				go func(g int) {
					defer wg.Done()
					<-gate
					do := func(w work) (s string) {
						if atomic.AddInt64(&active, 1) > 1 {
							atomic.AddInt64(&overlap, 1)
						}
						if p := guard(func() { s = w.run() }); p != nil {
							s = "panic: " + p.msg + " at " + p.stack
						}
						atomic.AddInt64(&active, -1)
						return s
					}
					at := q.N(per)
					for k, w := range plans[g] {
						rs[g] = append(rs[g], do(w))
						if k == at && shared != nil {
							sharedRes[g] = do(shared[g])
						}
						if q.P(1, 3) {
							runtime.Gosched()
						}
					}
				}(g)
			}
			close(gate)
			wg.Wait()
			c.Count("jobs that overlapped another one", int(overlap))
			c.Count("navigators of one document used concurrently", sharedNav)
			c.Count("jobs over shared bytes", sharedBytes)
			// alone
			for g := range plans {
				for k, w := range plans[g] {
					var s string
					if p := guard(func() { s = w.run() }); p != nil {
						s = "panic: " + p.msg + " at " + p.stack
					}
					c.Eval(1)
					c.Count("jobs run concurrently", 1)
					if len(s) > 6 && s[:6] == "tokens" {
						c.Count("accepted", 1)
					} else {
						c.Count("refused", 1)
					}
					if s != rs[g][k] {
						c.Detail("job", w.what).Detail("goroutines", fmt.Sprint(G))
						c.Fail("a job gave another result concurrently than alone: %s", firstDiff(rs[g][k], s))
					}
				}
			}
			if shared != nil {
				res := Parse(pickDoc, so)
				if !res.Ok {
					c.Fail("accepted before: %s", res.Outcome())
				}
				for g := range shared {
					n, err := res.P.GetNav()
					if err != nil {
						c.Fail("GetNav again: %v", err)
					}
					s, _ := snapshot(n, sharedSeed[g], 0, false, 60)
					c.Eval(1)
					if s != sharedRes[g] {
						c.Detail("document", show(pickDoc)).Detail("options", so.String())
						c.Fail("a navigator gave another result next to others of the same document than alone: %s", firstDiff(sharedRes[g], s))
					}
				}
			}
			if c.Case%100 == 0 {
				c.Sample("%d goroutines over %d documents, first %s", G, len(docs), show(docs[0]))
			}
		},
	})
}
