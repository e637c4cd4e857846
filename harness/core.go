package main

import (
	"fmt"
	"sort"
)

// ---- random numbers: everything is determined by seed, check and case ----

type Rng struct {
	s    uint64
	huge bool // amplification makes very long parts
}

func mix(x uint64) uint64 {
	x += 0x9E3779B97F4A7C15
	x = (x ^ x>>30) * 0xBF58476D1CE4E5B9
	x = (x ^ x>>27) * 0x94D049BB133111EB
	return x ^ x>>31
}

func hashBytes(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return mix(h)
}
func hashStr(s string) uint64 { return hashBytes([]byte(s)) }

func NewRng(parts ...uint64) *Rng {
	s := uint64(0x1234567)
	for _, p := range parts {
		s = mix(s ^ p)
	}
	return &Rng{s: s}
}
func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	x := r.s
	x = (x ^ x>>30) * 0xBF58476D1CE4E5B9
	x = (x ^ x>>27) * 0x94D049BB133111EB
	return x ^ x>>31
}
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rng) In(a, b int) int         { return a + r.N(b-a+1) }
func (r *Rng) P(num, den int) bool     { return r.N(den) < num }
func (r *Rng) Pick(s ...string) string { return s[r.N(len(s))] }
func (r *Rng) Geo(max int) int { // small numbers are likely
	n := 0
	for n < max && r.P(1, 2) {
		n++
	}
	return n
}

// ---- case context ----

type Violation struct {
	Property string            `json:"property"`
	Check    string            `json:"check"`
	Tier     string            `json:"tier"`
	Seed     uint64            `json:"seed"`
	Case     int               `json:"case"`
	What     string            `json:"what"`
	Detail   map[string]string `json:"detail,omitempty"`
	Cmd      string            `json:"replay_cmd,omitempty"`
}

type WorkerOut struct {
	Evals      int64
	Counts     map[string]int64
	Samples    []string
	Known      map[string]int64
	Violations []Violation
	Seen       []uint64
	Digests    map[string]uint64
	Done       bool
	HarnessErr []string // cases in which the harness itself failed
}

type Ctx struct {
	Check  *Check
	Tier   string
	Seed   uint64
	Case   int
	R      *Rng
	out    *WorkerOut
	seen   map[uint64]struct{}
	detail map[string]string
	pass   int
	Worker int
}

type failSentinel struct{}

func (c *Ctx) Eval(n int)                { c.out.Evals += int64(n) }
func (c *Ctx) Count(name string, n int)  { c.out.Counts[name] += int64(n) }
func (c *Ctx) Distinct(h uint64)         { c.seen[h] = struct{}{} }
func (c *Ctx) Known(id, what string)     { c.out.Known[id+"\t"+what]++ }
func (c *Ctx) Digest(k string, v uint64) { c.out.Digests[k] = v }
func (c *Ctx) Detail(k, v string) *Ctx {
	if c.detail == nil {
		c.detail = map[string]string{}
	}
	if len(v) > 6000 {
		v = v[:3000] + fmt.Sprintf("…(%d bytes)…", len(v)) + v[len(v)-2000:]
	}
	c.detail[k] = v
	return c
}
func (c *Ctx) Sample(f string, a ...interface{}) {
	if len(c.out.Samples) < 3 {
		s := fmt.Sprintf(f, a...)
		if len(s) > 400 {
			s = s[:400] + "…"
		}
		c.out.Samples = append(c.out.Samples, s)
	}
}

// Fail records a violation and ends the case
func (c *Ctx) Fail(f string, a ...interface{}) {
	what := fmt.Sprintf(f, a...)
	if len(what) > 3000 {
		what = what[:3000] + "…"
	}
	c.out.Violations = append(c.out.Violations, Violation{
		Property: c.Check.ID, Check: c.Check.ID, Tier: c.Tier, Seed: c.Seed, Case: c.Case, What: what, Detail: c.detail,
	})
	panic(failSentinel{})
}

type Check struct {
	ID    string
	Title string
	Race  bool
	// Cases is the number of cases of a tier
	Cases func(tier string) int
	Run   func(c *Ctx)
	// Need lists counters that must reach the given value, or the run observed too little
	Need map[string]int64
	Rule string
	Note string
	// CPU seconds one case may use
	CPU int
	// MaxRSS in MB
	RSS int
	// Stack is the largest stack a goroutine may have in bytes
	Stack int
	// Single: one worker only
	Workers int
	// Passes > 1: the workers run the cases repeatedly in new processes and the digests are compared
	Passes int
	// GC: percentage for the collector of the workers (0: as usual)
	GC     int
	Assume []string
	Tech   string
}

var checks = map[string]*Check{}

func register(c *Check) {
	if c.CPU == 0 {
		c.CPU = 40
	}
	if c.RSS == 0 {
		c.RSS = 3000
	}
	if c.Passes == 0 {
		c.Passes = 1
	}
	checks[c.ID] = c
}

func tiers(q, t int) func(string) int {
	return func(s string) int {
		if s == "thorough" {
			return t
		}
		return q
	}
}

func sortedKeys(m map[string]int64) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

// libPanic is what a panic of the library looks like to the checks
type libPanic struct {
	msg   string
	stack string
}

// Kind spreads the cases over n kinds, independently of the worker that runs them
func (c *Ctx) Kind(n int) int { return int(mix(uint64(c.Case)+77) % uint64(n)) }
