package main

import (
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// The program has three roles: "check" starts workers and merges what they observed,
// "worker" runs cases in an own process, "replay" runs the case of a violation again.

func main() {
	if len(os.Args) < 3 && !(len(os.Args) == 2 && (os.Args[1] == "list" || os.Args[1] == "dictbase")) {
		fmt.Fprintln(os.Stderr, "usage: vh check ID | vh replay FILE | vh worker …")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(supervise(os.Args[2], -1))
	case "case": // vh case ID n
		n, _ := strconv.Atoi(os.Args[3])
		os.Exit(supervise(os.Args[2], n))
	case "worker":
		worker(os.Args[2:])
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var v Violation
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		os.Setenv("VERIF_TIER", v.Tier)
		os.Setenv("VERIF_SEED", fmt.Sprint(v.Seed))
		os.Exit(supervise(v.Check, v.Case))
	case "dict": // vh dict DIR
		os.Setenv("VH_DICTDIR", os.Args[2])
		fmt.Printf("%+q\n", *dict())
	case "dictbase":
		dictBase()
	case "list": // for tools/mkmanifest.py
		list()
	default:
		os.Exit(2)
	}
}

func verifDir() string {
	if d := os.Getenv("VH_DIR"); d != "" {
		return d
	}
	return "/verif"
}

const (
	exitMonitor = 97
	exitStopped = 96
)

type job struct {
	id, tier    string
	seed        uint64
	w, W, pass  int
	only        int // run this case only
	skip        map[int]bool
	relaxed     bool
	dir         string
	out, state  string
	stdout, err string
}

func (j *job) args() []string {
	var sk []string
	for k := range j.skip {
		sk = append(sk, strconv.Itoa(k))
	}
	sort.Strings(sk)
	return []string{"worker", j.id, j.tier, fmt.Sprint(j.seed), fmt.Sprint(j.w), fmt.Sprint(j.W), fmt.Sprint(j.pass),
		fmt.Sprint(j.only), strings.Join(sk, ","), fmt.Sprint(j.relaxed), j.out, j.state}
}

type wres struct {
	out    *WorkerOut
	code   int
	signal string
	last   int
	stderr string
	stdout []byte
	mon    string
}

func (j *job) run(tag string) *wres {
	base := filepath.Join(j.dir, tag)
	j.out, j.state = base+".out", base+".state"
	so, _ := os.Create(base + ".stdout")
	se, _ := os.Create(base + ".stderr")
	defer so.Close()
	defer se.Close()
	cmd := exec.Command(os.Args[0], j.args()...)
	cmd.Stdout, cmd.Stderr = so, se
	cmd.Dir = filepath.Join(j.dir, tag+".cwd")
	os.MkdirAll(cmd.Dir, 0o755)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "TMPDIR="+cmd.Dir, "HOME="+cmd.Dir, "VH_STOP="+filepath.Join(j.dir, "stop"), "VH_STDOUT="+base+".stdout", "VH_STDERR="+base+".stderr",
		"GORACE=halt_on_error=0 exitcode=0 history_size=3 atexit_sleep_ms=200 log_path="+base+".race")
	runtime.LockOSThread()
	err := cmd.Run()
	runtime.UnlockOSThread()
	r := &wres{last: -1}
	if err != nil {
		r.code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			r.code = ee.ExitCode()
			if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
				r.signal = ws.Signal().String()
			}
		} else {
			r.signal = err.Error()
		}
	}
	if b, err := os.ReadFile(j.state); err == nil && len(b) >= 8 {
		r.last = int(int64(binary.LittleEndian.Uint64(b)))
		r.mon = string(b[8:])
	}
	eb, _ := os.ReadFile(base + ".stderr")
	if len(eb) > 20000 {
		eb = append(eb[:8000], eb[len(eb)-8000:]...)
	}
	r.stderr = string(eb)
	r.stdout, _ = os.ReadFile(base + ".stdout")
	if b, err := os.ReadFile(j.out); err == nil {
		o := &WorkerOut{}
		if gob.NewDecoder(bytes.NewReader(b)).Decode(o) == nil {
			r.out = o
		}
	}
	return r
}

func (r *wres) done() bool {
	return r.out != nil && r.out.Done && r.code == 0 || r.code == exitStopped
}

func (r *wres) crash() string {
	switch {
	case r.code == exitMonitor:
		return r.mon
	case r.signal != "":
		return "process ended by signal " + r.signal + " " + fatalLine(r.stderr)
	case r.code == 0:
		return "process ended with exit status 0 in the middle of the case"
	}
	return fmt.Sprintf("process died (exit status %d): %s", r.code, fatalLine(r.stderr))
}

func fatalLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "SIG") || strings.HasPrefix(l, "unexpected fault") || strings.HasPrefix(l, "runtime:") {
			return l + " at " + shortStack(s)
		}
	}
	if len(s) > 400 {
		s = s[:400]
	}
	return strings.TrimSpace(s)
}

type knownFinding struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	What     string `json:"what"`
}

func loadKnown() map[string]knownFinding {
	m := map[string]knownFinding{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.jsonl"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		var k knownFinding
		if json.Unmarshal([]byte(l), &k) == nil && k.ID != "" {
			m[k.ID] = k
		}
	}
	return m
}

// scaled is the number of cases; VH_SCALE makes a percentage of them run, for experiments
func scaled(ck *Check, tier string) int {
	n := ck.Cases(tier)
	if v, err := strconv.Atoi(os.Getenv("VH_SCALE")); err == nil {
		n = n * v / 100
	}
	if n < 1 {
		n = 1
	}
	return n
}

func seedEnv() uint64 {
	s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 63)
	if err != nil {
		return 1
	}
	return s
}

func supervise(id string, only int) int {
	start := time.Now()
	ck := checks[id]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no check", id)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := seedEnv()
	dir, err := os.MkdirTemp("", "vh-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	W := ck.Workers
	if W == 0 {
		W = 8
	}
	n := scaled(ck, tier)
	if v, err := strconv.Atoi(os.Getenv("VH_W")); err == nil { // for experiments
		W = v
	}
	if W > n {
		W = n
	}
	if only >= 0 {
		W = 1
	}
	known := loadKnown()
	total := &WorkerOut{Counts: map[string]int64{}, Known: map[string]int64{}}
	seen := map[uint64]struct{}{}
	var viols []Violation
	var notes []string
	problem, lost := "", 0
	var mu sync.Mutex
	stop := func() { os.WriteFile(filepath.Join(dir, "stop"), nil, 0o644) }
	merge := func(o *WorkerOut) {
		total.Evals += o.Evals
		for k, v := range o.Counts {
			total.Counts[k] += v
		}
		for k, v := range o.Known {
			total.Known[k] += v
		}
		for _, s := range o.Samples {
			if len(total.Samples) < 6 {
				total.Samples = append(total.Samples, s)
			}
		}
		for _, h := range o.Seen {
			seen[h] = struct{}{}
		}
		viols = append(viols, o.Violations...)
		for _, e := range o.HarnessErr {
			lost++
			notes = append(notes, "abandoned: "+e)
		}
	}
	passDigests := []map[string]uint64{}
	for pass := 0; pass < ck.Passes; pass++ {
		digests := map[string]uint64{}
		var wg sync.WaitGroup
		for w := 0; w < W; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				skip := map[int]bool{}
				for attempt := 0; attempt < 4; attempt++ {
					j := &job{id: id, tier: tier, seed: seed, w: w, W: W, pass: pass, only: only, dir: dir, skip: skip}
					tag := fmt.Sprintf("p%dw%da%d", pass, w, attempt)
					r := j.run(tag)
					rv := raceReports(ck, dir, tag, j, r)
					mu.Lock()
					viols = append(viols, rv...)
					if r.out != nil {
						merge(r.out)
						for k, v := range r.out.Digests {
							digests[k] = v
						}
					}
					mu.Unlock()
					if r.done() {
						return
					}
					if r.last < 0 {
						mu.Lock()
						problem = "worker failed to start: " + r.crash()
						mu.Unlock()
						return
					}
					// once more with this case alone
					j2 := &job{id: id, tier: tier, seed: seed, w: w, W: W, pass: pass, only: r.last, dir: dir, relaxed: true}
					r2 := j2.run(tag + "again")
					rv2 := raceReports(ck, dir, tag+"again", j2, r2)
					mu.Lock()
					viols = append(viols, rv2...)
					hard := r.code != exitMonitor && r.signal != "killed" && strings.Contains(r.stderr, "go-vtd-xml")
					if !r2.done() || hard {
						what, rr := r2.crash(), r2
						if r2.done() {
							what, rr = r.crash(), r
						}
						if r2.signal == "killed" && !hard {
							problem = "the worker was killed twice at case " + strconv.Itoa(r.last)
						}
						viols = append(viols, Violation{Property: id, Check: id, Tier: tier, Seed: seed, Case: r.last, What: what,
							Detail: map[string]string{"input": rr.mon, "trace": clipStr(rr.stderr, 6000)}})
						stop()
						mu.Unlock()
						return
					}
					if r2.out != nil {
						merge(r2.out)
						for k, v := range r2.out.Digests {
							digests[k] = v
						}
					}
					notes = append(notes, fmt.Sprintf("case %d was repeated after: %s", r.last, r.crash()))
					mu.Unlock()
					// go on behind it
					ns := map[int]bool{}
					for i := w; i <= r.last; i += W {
						ns[i] = true
					}
					if pass%2 == 1 {
						ns = map[int]bool{}
						for i := w; i < n; i += W {
							if i >= r.last {
								ns[i] = true
							}
						}
					}
					skip = ns
					if only >= 0 {
						return
					}
				}
				mu.Lock()
				problem = "a worker failed several times without a reproducible case"
				mu.Unlock()
			}(w)
		}
		wg.Wait()
		passDigests = append(passDigests, digests)
		if len(viols) > 0 {
			break
		}
	}
	// a case that the harness cannot judge decides nothing; too many of them are no result
	if lost > 0 {
		total.Counts["cases abandoned by the harness"] = int64(lost)
		if (only >= 0 || lost > 2+n*ck.Passes/100) && problem == "" {
			problem = fmt.Sprintf("%d cases abandoned: %s", lost, notes[0])
		}
	}
	// the same case gives the same result in every process
	if ck.Passes > 1 && len(viols) == 0 && len(passDigests) == ck.Passes {
		var keys []string
		for k := range passDigests[0] {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		cmp := 0
		for _, k := range keys {
			for p := 1; p < ck.Passes; p++ {
				v, ok := passDigests[p][k]
				if !ok {
					problem = "pass without digest of case " + k
					continue
				}
				cmp++
				if v != passDigests[0][k] {
					cs, _ := strconv.Atoi(strings.SplitN(k, "/", 2)[0])
					viols = append(viols, Violation{Property: id, Check: id, Tier: tier, Seed: seed, Case: cs,
						What: "case " + k + " gave a different result in another process"})
				}
			}
			if len(viols) > 3 {
				break
			}
		}
		total.Counts["digests compared between processes"] += int64(cmp)
	}
	wall := time.Since(start).Seconds()

	for _, k := range sortedKeys(total.Known) {
		p := strings.SplitN(k, "\t", 2)
		if _, ok := known[p[0]]; !ok {
			viols = append(viols, Violation{Property: id, Check: id, Tier: tier, Seed: seed, What: "finding not on the list: " + k})
		}
	}
	sort.SliceStable(viols, func(a, b int) bool { return viols[a].Case < viols[b].Case })

	if only < 0 {
		writeEvidence(ck, tier, seed, total, len(seen), len(viols), wall, notes, n)
	}
	printed := map[string]bool{}
	for _, k := range sortedKeys(total.Known) {
		p := strings.SplitN(k, "\t", 2)
		if kf, ok := known[p[0]]; ok && !printed[p[0]] {
			printed[p[0]] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", kf.Property, kf.What)
		}
	}
	if len(viols) > 0 {
		rd := filepath.Join(verifDir(), "evidence", "replay")
		os.MkdirAll(rd, 0o755)
		max := 3
		for i, v := range viols {
			if i >= max {
				fmt.Printf("(%d more)\n", len(viols)-max)
				break
			}
			file := filepath.Join(rd, fmt.Sprintf("%s-%d-%d.json", id, v.Case, i))
			v.Cmd = "/verif/check.sh replay " + file
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(file, b, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, file)
			fmt.Printf("  case %d: %s\n", v.Case, v.What)
			var dk []string
			for k := range v.Detail {
				dk = append(dk, k)
			}
			sort.Strings(dk)
			for _, k := range dk {
				if v.Detail[k] != "" {
					fmt.Printf("  %s: %s\n", k, clipStr(v.Detail[k], 1500))
				}
			}
		}
		return 1
	}
	if problem != "" {
		fmt.Fprintln(os.Stderr, "INCONCLUSIVE:", clipStr(problem, 3000))
		return 2
	}
	if only < 0 && os.Getenv("VH_SCALE") == "" {
		miss := false
		for _, k := range sortedKeys(ck.Need) {
			need := ck.Need[k]
			if directed() { // the dictionary shifts the generators to other documents
				need = (need + 5) / 6
			}
			if os.Getenv("VH_MARGIN") != "" {
				fmt.Printf("margin %s %.1f %s\n", ck.ID, float64(total.Counts[k])/float64(need), k)
			}
			if total.Counts[k] < need {
				fmt.Fprintf(os.Stderr, "INCONCLUSIVE: %q observed %d times, at least %d needed\n", k, total.Counts[k], need)
				miss = true
			}
		}
		if miss {
			return 2
		}
	}
	fmt.Printf("%s %s: held on %d executions (%d distinct), %.1f s\n", id, tier, total.Evals, len(seen), wall)
	for _, k := range sortedKeys(total.Counts) {
		fmt.Printf("  %-60s %d\n", k, total.Counts[k])
	}
	for _, s := range notes {
		fmt.Println("  note:", clipStr(s, 300))
	}
	return 0
}

func clipStr(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// raceReports turns reports of the race detector into violations
func raceReports(ck *Check, dir, tag string, j *job, r *wres) []Violation {
	if !ck.Race {
		return nil
	}
	files, _ := filepath.Glob(filepath.Join(dir, tag+".race.*"))
	var out []Violation
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, blk := range strings.Split(string(b), "==================") {
			if strings.Contains(blk, "DATA RACE") && len(out) < 2 {
				cs := r.last
				if j.only >= 0 {
					cs = j.only
				}
				out = append(out, Violation{Property: ck.ID, Check: ck.ID, Tier: j.tier, Seed: j.seed, Case: cs,
					What: "data race: " + shortStack(blk), Detail: map[string]string{"report": clipStr(blk, 4000)}})
			}
		}
		os.Remove(f)
	}
	return out
}

func writeEvidence(ck *Check, tier string, seed uint64, t *WorkerOut, distinct, viols int, wall float64, notes []string, cases int) {
	cov := map[string]interface{}{
		"evaluations":         t.Evals,
		"distinct_nontrivial": distinct,
		"rule":                ck.Rule,
		"cases":               cases,
		"observed":            t.Counts,
	}
	samples := []string{}
	samples = append(samples, t.Samples...)
	cov["samples"] = samples
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	as := ck.Assume
	if as == nil {
		as = []string{"the reference reader of the harness states XML 1.0, Namespaces and the documented limits correctly"}
	}
	m := map[string]interface{}{
		"property": ck.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "assumptions": as, "wall_s": float64(int(wall*100)) / 100, "violations": viols,
	}
	b, _ := json.MarshalIndent(m, "", " ")
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, ck.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

// ---- worker ----

var (
	stateFile *os.File
	caseCPU   int64 // process CPU time at the start of the case, µs
	caseStart int64 // wall
	caseNo    int64 = -1
	inputNote atomic.Value
)

func cpuMicros() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Sec*1e6 + int64(ru.Utime.Usec) + ru.Stime.Sec*1e6 + int64(ru.Stime.Usec)
}

func rssMB() int {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 3 {
		return 0
	}
	rss, _ := strconv.Atoi(f[1])
	shared, _ := strconv.Atoi(f[2])
	return (rss - shared) * 4096 >> 20
}

// stopFile says that a violation has been found
var stopFile = os.Getenv("VH_STOP")

func stopped() bool {
	if stopFile == "" {
		return false
	}
	_, err := os.Stat(stopFile)
	return err == nil
}

func monitorExit(msg string) {
	in := ""
	if t, ok := inputNote.Load().(noteT); ok {
		in = t.o.String() + " " + show(t.doc)
	}
	stateFile.WriteAt([]byte(msg+"\n"+in), 8)
	os.Exit(exitMonitor)
}

// monitor ends the process when a case exceeds its budget of processor time or memory, or
// is blocked without using any processor time. It never judges by elapsed time alone.
func monitor(ck *Check, relaxed bool) {
	cpu := int64(ck.CPU)
	if v, err := strconv.ParseInt(os.Getenv("VH_CPU"), 10, 64); err == nil { // for experiments
		cpu = v
	}
	if relaxed {
		cpu = cpu * 3 / 2
	}
	idleTicks, lastCPU := 0, int64(0)
	lastCase := int64(-2)
	stopTicks := 0
	for {
		time.Sleep(50 * time.Millisecond)
		// another worker has found a violation: no need to see the end of a long case
		if stopTicks > 0 || stopped() {
			if stopTicks++; stopTicks > 400 && atomic.LoadInt64(&caseNo) >= 0 {
				os.Exit(exitStopped)
			}
		}
		if m := rssMB(); m > ck.RSS {
			monitorExit(fmt.Sprintf("the case uses more than %d MB of memory", ck.RSS))
		}
		no := atomic.LoadInt64(&caseNo)
		if no < 0 {
			continue
		}
		now := cpuMicros()
		st := atomic.LoadInt64(&caseCPU)
		if no != atomic.LoadInt64(&caseNo) {
			continue
		}
		if now-st > cpu*1e6 {
			monitorExit(fmt.Sprintf("the case does not end within %d s of processor time", cpu))
		}
		if no == lastCase && now-lastCPU < 20000 {
			idleTicks++
		} else {
			idleTicks = 0
		}
		// 1200 ticks in a row in which the process was scheduled, but the case did nothing
		if idleTicks > 1200 {
			monitorExit("the case is blocked: no processor time used while waiting")
		}
		lastCase, lastCPU = no, now
	}
}

func worker(a []string) {
	ck := checks[a[0]]
	tier := a[1]
	seed, _ := strconv.ParseUint(a[2], 10, 64)
	w, _ := strconv.Atoi(a[3])
	W, _ := strconv.Atoi(a[4])
	pass, _ := strconv.Atoi(a[5])
	only, _ := strconv.Atoi(a[6])
	skip := map[int]bool{}
	for _, s := range strings.Split(a[7], ",") {
		if s != "" {
			n, _ := strconv.Atoi(s)
			skip[n] = true
		}
	}
	relaxed := a[8] == "true"
	outFile := a[9]
	var err error
	if stateFile, err = os.Create(a[10]); err != nil {
		os.Exit(2)
	}
	debug.SetMaxStack(256 << 20)
	if ck.Stack != 0 {
		debug.SetMaxStack(ck.Stack)
	}
	runtime.GOMAXPROCS(2)
	if ck.GC != 0 {
		debug.SetGCPercent(ck.GC)
	}
	if ck.Race {
		runtime.GOMAXPROCS(4)
	}
	out := &WorkerOut{Counts: map[string]int64{}, Known: map[string]int64{}, Digests: map[string]uint64{}}
	seen := map[uint64]struct{}{}
	go monitor(ck, relaxed)
	n := scaled(ck, tier)
	var order []int
	if only >= 0 {
		order = []int{only}
	} else {
		for i := w; i < n; i += W {
			if !skip[i] {
				order = append(order, i)
			}
		}
		if pass%2 == 1 {
			for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
				order[i], order[j] = order[j], order[i]
			}
		}
	}
	write := func(done bool) {
		out.Done = done
		out.Seen = out.Seen[:0]
		for h := range seen {
			out.Seen = append(out.Seen, h)
		}
		var b bytes.Buffer
		gob.NewEncoder(&b).Encode(out)
		os.WriteFile(outFile, b.Bytes(), 0o644)
	}
	var buf [8]byte
	binary.LittleEndian.PutUint64(buf[:], ^uint64(0))
	stateFile.WriteAt(buf[:], 0)
	lastWrite, lastStop := time.Now(), time.Now()
	for _, i := range order {
		binary.LittleEndian.PutUint64(buf[:], uint64(i))
		stateFile.WriteAt(buf[:], 0)
		atomic.StoreInt64(&caseNo, -1)
		atomic.StoreInt64(&caseCPU, cpuMicros())
		atomic.StoreInt64(&caseNo, int64(i))
		c := &Ctx{Check: ck, Tier: tier, Seed: seed, Case: i, R: NewRng(hashStr(ck.ID), seed, uint64(i)), out: out, seen: seen, pass: pass, Worker: w}
		used := dictUses
		runCase(c)
		if dictUses > used {
			c.Count("choices out of the dictionary of a change", int(dictUses-used))
		}
		if len(out.HarnessErr) > 20 {
			break
		}
		if len(out.Violations) > 0 {
			os.WriteFile(stopFile, nil, 0o644)
		}
		if len(out.Violations) >= 3 || time.Since(lastStop) > 200*time.Millisecond && stopped() {
			break
		}
		if time.Since(lastStop) > 200*time.Millisecond {
			lastStop = time.Now()
		}
		if time.Since(lastWrite) > 20*time.Second {
			lastWrite = time.Now()
			write(false)
		}
	}
	atomic.StoreInt64(&caseNo, -1)
	write(true)
	os.Exit(0)
}

func runCase(c *Ctx) {
	defer func() {
		e := recover()
		if e == nil {
			return
		}
		if _, ok := e.(failSentinel); ok {
			return
		}
		st := string(debug.Stack())
		// where did it happen: the first frame behind the panic that is not the runtime's
		lib := false
		afterPanic := false
		for _, l := range strings.Split(st, "\n") {
			if strings.HasPrefix(l, "panic(") {
				afterPanic = true
				continue
			}
			if !afterPanic || strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "runtime/") {
				continue
			}
			lib = strings.Contains(l, "go-vtd-xml")
			break
		}
		if lib {
			c.out.Violations = append(c.out.Violations, Violation{Property: c.Check.ID, Check: c.Check.ID, Tier: c.Tier, Seed: c.Seed, Case: c.Case,
				What: fmt.Sprintf("the library panics: %v at %s", e, shortStack(st)), Detail: c.detail})
			return
		}
		c.out.HarnessErr = append(c.out.HarnessErr, fmt.Sprintf("case %d: %v\n%s", c.Case, e, st))
	}()
	c.Check.Run(c)
}

func list() {
	type entry struct{ ID, Tech, Rule string }
	var l []entry
	for _, c := range checks {
		l = append(l, entry{c.ID, c.Tech, c.Rule})
	}
	sort.Slice(l, func(a, b int) bool { return l[a].ID < l[b].ID })
	b, _ := json.Marshal(l)
	fmt.Println(string(b))
}
