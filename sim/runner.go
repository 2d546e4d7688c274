package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
)

type job struct {
	Prop    string `json:"prop"`
	Seed    uint64 `json:"seed"`
	Tier    string `json:"tier"`
	Plan    *Plan  `json:"plan,omitempty"`
	Verbose bool   `json:"verbose"`
}

func workerLoop(t *testing.T) {
	out := os.NewFile(3, "out")
	enc := json.NewEncoder(out)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	n := 0
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var j job
		if err := json.Unmarshal(line, &j); err != nil {
			fmt.Fprintln(os.Stderr, "bad job:", err)
			os.Exit(3)
		}
		plan := j.Plan
		if plan == nil {
			plan = makePlan(j.Prop, j.Seed, j.Tier)
		}
		res := execute(t, plan, j.Verbose)
		enc.Encode(res)
		n++
		if n%4 == 0 {
			runtime.GC()
		}
		if n%64 == 0 {
			debug.FreeOSMemory()
		}
	}
}

type worker struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stderr *bytes.Buffer
	runs   int
}

func startWorker() (*worker, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	r, w, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cmd := exec.Command(exe)
	cmd.Env = append(os.Environ(), "KSIM_WORKER=1", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=all")
	cmd.ExtraFiles = []*os.File{w}
	stderr := &bytes.Buffer{}
	cmd.Stderr = &limitWriter{buf: stderr}
	cmd.Stdout = cmd.Stderr
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	w.Close()
	return &worker{cmd: cmd, in: in, out: bufio.NewReaderSize(r, 1<<20), stderr: stderr}, nil
}

type limitWriter struct {
	mu  sync.Mutex
	buf *bytes.Buffer
}

func (l *limitWriter) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.buf.Len() < 1<<20 {
		l.buf.Write(p)
	}
	return len(p), nil
}

func (w *worker) stop() {
	w.in.Close()
	done := make(chan struct{})
	go func() { w.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		w.cmd.Process.Kill()
		<-done
	}
}

const (
	// A run may take this much of the processor, and several times as long when
	// the machine is busy with other things.
	runTimeout  = 30 * time.Second
	waitTimeout = 5 * runTimeout
	memoryLimit = 3 << 30
)

// do performs a job. A worker that dies of a panic in the code under test gives
// a violation; any other death or a time-out is an error of the simulator.
func (w *worker) do(j *job) (res *Result, alive bool) {
	raw, _ := json.Marshal(j)
	w.in.Write(append(raw, '\n'))
	type answer struct {
		line []byte
		err  error
	}
	ch := make(chan answer, 1)
	go func() {
		line, err := w.out.ReadBytes('\n')
		ch <- answer{line, err}
	}()
	seed := j.Seed
	if j.Plan != nil {
		seed = j.Plan.Seed
	}
	ended := make(chan struct{})
	defer close(ended)
	select {
	case a := <-ch:
		if a.err == nil {
			var res Result
			if err := json.Unmarshal(a.line, &res); err != nil {
				return &Result{Seed: seed, Harness: "bad answer from worker: " + err.Error()}, true
			}
			w.runs++
			return &res, true
		}
		w.cmd.Wait()
		text := w.stderr.String()
		if i := strings.Index(text, "panic: "); i >= 0 {
			msg, rest := text[i:], ""
			if k := strings.Index(msg, "\n"); k >= 0 {
				msg, rest = msg[:k], msg[k:]
			}
			// The first goroutine listed is the one that panicked.
			if k := strings.Index(rest, "\ngoroutine "); k >= 0 {
				st := rest[k+1:]
				if e := strings.Index(st, "\n\n"); e >= 0 {
					st = st[:e]
				}
				if panicInTarget(st) {
					return &Result{Seed: seed, Stats: map[string]int64{},
						Violation: &Violation{Kind: "panic", Msg: "panic in a goroutine of the code under test: " + msg + " at " + panicSite(st)}}, false
				}
			}
		}
		return &Result{Seed: seed, Harness: "worker died: " + text[:min(len(text), 5000)]}, false
	case why := <-w.overdue(ended):
		// Ask for the stacks, to see what does not end.
		w.cmd.Process.Signal(syscall.SIGQUIT)
		died := make(chan struct{})
		go func() { w.cmd.Wait(); close(died) }()
		select {
		case <-died:
		case <-time.After(10 * time.Second):
			w.cmd.Process.Kill()
			<-died
		}
		text := w.stderr.String()
		for _, g := range strings.Split(text, "\n\n") {
			head, _, _ := strings.Cut(strings.TrimSpace(g), "\n")
			if !strings.HasPrefix(head, "goroutine ") || !busy(head) {
				continue
			}
			for _, f := range panicFrames(g) {
				if strings.HasPrefix(f, "ksim.") {
					break
				} else if strings.HasPrefix(f, "github.com/Bren2010/katie") {
					return &Result{Seed: seed, Stats: map[string]int64{},
						Violation: &Violation{Kind: "hang", Msg: fmt.Sprintf("a call %s, it is in %s", why, strings.Join(targetFrames(g), " < "))}}, false
				}
			}
		}
		return &Result{Seed: seed, Harness: "a run " + why + "\n" + tail(text, 20000)}, false
	}
}

// overdue tells when a worker takes too long or too much memory.
func (w *worker) overdue(ended chan struct{}) <-chan string {
	out := make(chan string, 1)
	go func() {
		used := w.cpu()
		for began := time.Now(); ; {
			select {
			case <-ended:
				return
			case <-time.After(100 * time.Millisecond):
			}
			raw, _ := os.ReadFile(fmt.Sprintf("/proc/%d/statm", w.cmd.Process.Pid))
			if f := strings.Fields(string(raw)); len(f) > 1 {
				if pages, _ := strconv.Atoi(f[1]); pages*os.Getpagesize() > memoryLimit {
					out <- fmt.Sprintf("took more than %d GB of memory", memoryLimit>>30)
					return
				}
			}
			if took := time.Since(began); took > waitTimeout || took > runTimeout && w.cpu()-used > runTimeout {
				out <- "did not end within " + runTimeout.String()
				return
			}
		}
	}()
	return out
}

// cpu is how much processor time the worker has used so far.
func (w *worker) cpu() time.Duration {
	raw, _ := os.ReadFile(fmt.Sprintf("/proc/%d/stat", w.cmd.Process.Pid))
	_, rest, _ := strings.Cut(string(raw), ") ")
	f := strings.Fields(rest)
	if len(f) < 13 {
		return 0
	}
	user, _ := strconv.Atoi(f[11])
	sys, _ := strconv.Atoi(f[12])
	return time.Duration(user+sys) * 10 * time.Millisecond
}

// busy tells whether a goroutine is not waiting for something, according to the
// first line of its stack trace.
func busy(head string) bool {
	for _, s := range []string{"[run", "[GC assist", "[preempted", "[copystack"} {
		if strings.Contains(head, s) {
			return true
		}
	}
	return false
}

func targetFrames(stack string) []string {
	var out []string
	for _, f := range panicFrames(stack) {
		if strings.HasPrefix(f, "ksim.") {
			break
		} else if strings.HasPrefix(f, "github.com/Bren2010/katie") {
			if i := strings.LastIndex(f, "("); i > 0 {
				f = f[:i]
			}
			out = append(out, strings.TrimPrefix(f, "github.com/Bren2010/katie/"))
		}
	}
	return out
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

// fresh performs a job in a process of its own.
func fresh(j *job) *Result {
	w, err := startWorker()
	if err != nil {
		return &Result{Harness: err.Error()}
	}
	res, alive := w.do(j)
	if alive {
		w.stop()
	}
	return res
}

type finding struct {
	Property string `json:"property"`
	Match    string `json:"match"`
	What     string `json:"what"`
}

func verifDir() string {
	if d := os.Getenv("KSIM_VERIF"); d != "" {
		return d
	}
	exe, _ := os.Executable()
	return filepath.Dir(filepath.Dir(exe))
}

func supervise(args []string) int {
	fs := flag.NewFlagSet("ksim", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "", "quick or thorough")
	replay := fs.String("replay", "", "replay file")
	seedArg := fs.String("seed", "", "base seed")
	runs := fs.Int("runs", 0, "number of runs (default: that of the tier)")
	oneRun := fs.Int64("one", -1, "perform only the run with this number, verbosely")
	check := fs.Int("determinism", 0, "perform this many runs several times in different processes and compare their logs")
	workersN := fs.Int("workers", runtime.NumCPU(), "worker processes")
	limit := fs.Duration("limit", 0, "wall clock limit")
	nomin := fs.Bool("nomin", false, "do not minimise")
	min := fs.Bool("min", false, "with -one: minimise the run and write the replay file")
	survey := fs.Bool("survey", false, "perform all runs and list how they fail")
	fs.Parse(args)

	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	base := uint64(1)
	if *seedArg == "" {
		*seedArg = os.Getenv("VERIF_SEED")
	}
	if *seedArg != "" {
		if v, err := strconv.ParseUint(*seedArg, 10, 64); err == nil {
			base = v
		} else {
			base = strSeed(*seedArg)
		}
	}
	if *replay != "" {
		return replayFile(*replay)
	}
	w, ok := workloads[*prop]
	if !ok {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *prop)
		return 2
	}
	seedOf := func(i int) uint64 { return mix(mix(base, strSeed(*prop)), uint64(i)) >> 1 }
	if *oneRun >= 0 {
		res := fresh(&job{Prop: *prop, Seed: seedOf(int(*oneRun)), Tier: *tier, Verbose: true})
		if *min && res.Violation != nil {
			return report(*prop, *tier, int(*oneRun), res, false)
		}
		for _, l := range res.Log {
			fmt.Println(l)
		}
		res.Log = nil
		raw, _ := json.MarshalIndent(res, "", " ")
		fmt.Println(string(raw))
		fmt.Println(res.Harness)
		return 0
	}
	if *check > 0 {
		return checkDeterminism(*prop, *tier, seedOf, *check, *workersN)
	}
	n := w.Quick
	max := 240 * time.Second
	if *tier == "thorough" {
		n = w.Thorough
		max = 820 * time.Second
	}
	if *runs > 0 {
		n = *runs
	}
	if *limit > 0 {
		max = *limit
	}
	if *survey {
		return runSurvey(*prop, *tier, seedOf, n, *workersN)
	}
	return explore(*prop, *tier, base, seedOf, n, max, *workersN, *nomin)
}

func explore(prop, tier string, base uint64, seedOf func(int) uint64, n int, limit time.Duration, workersN int, nomin bool) int {
	w := workloads[prop]
	began := time.Now()
	deadline := began.Add(limit)

	var (
		mu       sync.Mutex
		next     int
		results  = make(map[int]*Result)
		violIdx  = -1
		harness  string
		agg      = make(map[string]int64)
		known    = make(map[string]int64)
		sigs     = make(map[string]struct{})
		nontriv  = make(map[string]struct{})
		simMs    int64
		done     int
		recheck  int
		mismatch []uint64
		samples  []any
	)
	_ = results
	var wg sync.WaitGroup
	var viol *Result
	for k := 0; k < workersN; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			wk, err := startWorker()
			if err != nil {
				mu.Lock()
				harness = err.Error()
				mu.Unlock()
				return
			}
			var again *Result
			for {
				mu.Lock()
				if harness != "" || next >= n || time.Now().After(deadline) || (violIdx >= 0 && next > violIdx) {
					mu.Unlock()
					break
				}
				i := next
				next++
				mu.Unlock()

				j := &job{Prop: prop, Seed: seedOf(i), Tier: tier}
				res, alive := wk.do(j)
				if !alive || wk.runs >= 400 {
					if alive {
						wk.stop()
					}
					wk, err = startWorker()
					if err != nil {
						mu.Lock()
						harness = err.Error()
						mu.Unlock()
						return
					}
				}
				// A part of all runs is repeated, and must give the same log.
				if i%97 == 5 && res.Violation == nil && res.Harness == "" {
					again = fresh(j)
				} else {
					again = nil
				}
				mu.Lock()
				if again != nil {
					recheck++
					if again.LogHash != res.LogHash {
						mismatch = append(mismatch, res.Seed)
					}
				}
				if res.Harness != "" && harness == "" {
					harness = fmt.Sprintf("run %d (seed %d): %s", i, res.Seed, res.Harness)
				}
				if res.Violation != nil && (violIdx < 0 || i < violIdx) {
					violIdx, viol = i, res
				}
				done++
				simMs += res.SimMs
				for k, v := range res.Stats {
					agg[k] += v
				}
				for k, v := range res.Known {
					known[k] += v
				}
				sigs[res.Sig] = struct{}{}
				if w.Nontrivial == nil && res.Stats["accepted"]+res.Stats["decided"] > 0 || w.Nontrivial != nil && w.Nontrivial(res.Stats) {
					nontriv[res.Sig] = struct{}{}
				}
				if len(samples) < 3 {
					p := makePlanSafe(prop, seedOf(i), tier)
					samples = append(samples, map[string]any{"run": i, "seed": res.Seed, "cfg": p.Cfg, "steps": len(p.Ops), "first_steps": firstOps(p.Ops, 12), "log_hash": res.LogHash, "stats": res.Stats})
				}
				mu.Unlock()
			}
			wk.stop()
		}()
	}
	wg.Wait()
	wall := time.Since(began).Seconds()

	faults := make(map[string]int64)
	reach := make(map[string]int64)
	for k, v := range agg {
		if strings.HasPrefix(k, "fault:") {
			faults[strings.TrimPrefix(k, "fault:")] = v
		} else {
			reach[k] = v
		}
	}
	violations := 0
	if viol != nil {
		violations = 1
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": base, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":            done,
			"distinct_nontrivial":    len(nontriv),
			"distinct_runs":          len(sigs),
			"rule":                   w.Rule,
			"samples":                samples,
			"runs_per_hour":          int(float64(done) / wall * 3600),
			"simulated_seconds":      simMs / 1000,
			"faults_injected":        faults,
			"reached":                reach,
			"determinism_rechecks":   recheck,
			"determinism_mismatches": len(mismatch),
			"real_components":        w.Real,
			"stub_components":        w.Stub,
		},
		"assumptions": []string{
			"sampled, not enumerated: a clean batch is evidence and not a proof",
			"one goroutine runs at a time; goroutines of the code under test can only be interleaved at store operations, channel operations and timers",
			"signatures and VRFs are ideal (a keyed hash) in most runs, and those of the real suites in a part of them",
		},
		"wall_s":     wall,
		"violations": violations,
	}
	writeEvidence(prop, ev)
	for _, k := range sortedKeys(known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s (seen %d times)\n", prop, k, known[k])
	}
	if viol != nil {
		return report(prop, tier, violIdx, viol, nomin)
	}
	if harness != "" {
		fmt.Fprintf(os.Stderr, "error of the simulator: %s\n", harness)
		return 2
	}
	if len(mismatch) > 0 {
		fmt.Fprintf(os.Stderr, "warning: %d of %d repeated runs differ (seeds %v)\n", len(mismatch), recheck, mismatch)
	}
	fmt.Printf("%s: held on %d runs (%d distinct) in %.1fs, %d simulated seconds; faults %v\n", prop, done, len(sigs), wall, simMs/1000, faults)
	return 0
}

func makePlanSafe(prop string, seed uint64, tier string) *Plan { return makePlan(prop, seed, tier) }

func firstOps(ops []Op, n int) []Op {
	if len(ops) > n {
		return ops[:n]
	}
	return ops
}

func writeEvidence(prop string, ev any) {
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	raw, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		err = os.WriteFile(filepath.Join(dir, prop+".json"), append(raw, '\n'), 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "can not write evidence:", err)
	}
}

type replay struct {
	*Plan
	Violation *Violation `json:"violation"`
	LogHash   string     `json:"log_hash"`
	Log       []string   `json:"log"`
}

func report(prop, tier string, idx int, viol *Result, nomin bool) int {
	plan := makePlan(prop, viol.Seed, tier)
	kind := viol.Violation.Kind
	// It has to fail again in a process of its own.
	var again *Result
	for i := 0; i < 3; i++ {
		again = fresh(&job{Plan: plan})
		if again.Violation != nil {
			break
		}
	}
	if again.Violation == nil {
		fmt.Fprintf(os.Stderr, "error of the simulator: run %d (seed %d) failed with %q but does not do so again\n", idx, viol.Seed, viol.Violation.Msg)
		return 2
	}
	kind = again.Violation.Kind
	if !nomin {
		plan = minimise(plan, kind, 60*time.Second)
	}
	final := fresh(&job{Plan: plan, Verbose: true})
	if final.Violation == nil {
		// It did twice; the whole plan is the better one then.
		plan = makePlan(prop, viol.Seed, tier)
		if final = fresh(&job{Plan: plan, Verbose: true}); final.Violation == nil {
			final = again
		}
	}
	dir := filepath.Join(verifDir(), "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, viol.Seed))
	raw, _ := json.MarshalIndent(&replay{Plan: plan, Violation: final.Violation, LogHash: final.LogHash, Log: final.Log}, "", " ")
	if err := os.WriteFile(path, append(raw, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	fmt.Printf("%s: run %d, seed %d: %s: %s\n", prop, idx, viol.Seed, final.Violation.Kind, final.Violation.Msg)
	fmt.Printf("minimised to %d steps; last events:\n", len(plan.Ops))
	log := final.Log
	if len(log) > 25 {
		log = log[len(log)-25:]
	}
	for _, l := range log {
		fmt.Println("  " + l)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	return 1
}

func replayFile(path string) int {
	raw, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r replay
	if err := json.Unmarshal(raw, &r); err != nil || r.Plan == nil {
		fmt.Fprintln(os.Stderr, "bad replay file", err)
		return 2
	}
	res := fresh(&job{Plan: r.Plan, Verbose: true})
	for _, l := range res.Log {
		fmt.Println(l)
	}
	if res.Harness != "" {
		fmt.Fprintln(os.Stderr, res.Harness)
		return 2
	}
	if res.Violation == nil {
		fmt.Println("no violation")
		return 0
	}
	fmt.Printf("%s: %s\n", res.Violation.Kind, res.Violation.Msg)
	fmt.Printf("log %s, recorded %s: identical=%v\n", res.LogHash, r.LogHash, res.LogHash == r.LogHash)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, path)
	return 1
}

// minimise removes steps for as long as the run fails in the same way.
func minimise(plan *Plan, kind string, limit time.Duration) *Plan {
	deadline := time.Now().Add(limit)
	var wk *worker
	defer func() {
		if wk != nil {
			wk.stop()
		}
	}()
	fails := func(p *Plan) bool {
		if time.Now().After(deadline) {
			return false
		}
		if wk == nil {
			var err error
			if wk, err = startWorker(); err != nil {
				wk = nil
				return false
			}
		}
		res, alive := wk.do(&job{Plan: p})
		if !alive {
			wk = nil
		}
		return res.Violation != nil && res.Violation.Kind == kind
	}
	if !fails(plan) {
		return plan
	}
	best := plan.clone()
	for chunk := (len(best.Ops) + 1) / 2; chunk >= 1; {
		changed := false
		for i := len(best.Ops); i > 0; i -= chunk {
			lo := i - chunk
			if lo < 0 {
				lo = 0
			}
			if i > len(best.Ops) {
				continue
			}
			cand := best.clone()
			cand.Ops = append(append([]Op(nil), best.Ops[:lo]...), best.Ops[i:]...)
			if fails(cand) {
				best, changed = cand, true
			}
		}
		if time.Now().After(deadline) {
			break
		}
		if chunk == 1 && !changed {
			break
		}
		if chunk > 1 {
			chunk /= 2
		}
	}
	// Simpler arguments.
	for i := range best.Ops {
		for f := 0; f < 3; f++ {
			for _, v := range []int64{0, 1} {
				cand := best.clone()
				p := []*int64{&cand.Ops[i].A, &cand.Ops[i].B, &cand.Ops[i].C}[f]
				if *p <= v {
					continue
				}
				*p = v
				if fails(cand) {
					best = cand
					break
				}
			}
		}
	}
	return best
}

func checkDeterminism(prop, tier string, seedOf func(int) uint64, n, workersN int) int {
	var mu sync.Mutex
	hashes := make(map[int]map[string]int)
	logs := make(map[int]map[string][]string)
	verbose := os.Getenv("KSIM_LOGS") != ""
	var wg sync.WaitGroup
	work := make(chan int, n*4)
	for rep := 0; rep < 3; rep++ {
		for i := 0; i < n; i++ {
			if rep%2 == 1 {
				work <- n - 1 - i
			} else {
				work <- i
			}
		}
	}
	close(work)
	for k := 0; k < workersN; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			wk, err := startWorker()
			if err != nil {
				return
			}
			for i := range work {
				res, alive := wk.do(&job{Prop: prop, Seed: seedOf(i), Tier: tier, Verbose: verbose})
				if !alive {
					if wk, err = startWorker(); err != nil {
						return
					}
				}
				mu.Lock()
				if verbose {
					if logs[i] == nil {
						logs[i] = make(map[string][]string)
					}
					logs[i][res.LogHash] = res.Log
				}
				if hashes[i] == nil {
					hashes[i] = make(map[string]int)
				}
				hashes[i][res.LogHash+fmt.Sprint(res.Violation != nil)]++
				mu.Unlock()
			}
			wk.stop()
		}()
	}
	wg.Wait()
	var bad []int
	for i, h := range hashes {
		if len(h) > 1 {
			bad = append(bad, i)
		}
	}
	sort.Ints(bad)
	if verbose && len(bad) > 0 {
		k := 0
		for _, l := range logs[bad[0]] {
			os.WriteFile(fmt.Sprintf("/tmp/ksim-log-%d", k), []byte(strings.Join(l, "\n")), 0644)
			k++
		}
	}
	fmt.Printf("%s: %d runs performed 3 times each, %d differ: %v\n", prop, n, len(bad), firstInts(bad, 20))
	if len(bad) > 0 {
		return 1
	}
	return 0
}

func firstInts(x []int, n int) []int {
	if len(x) > n {
		return x[:n]
	}
	return x
}

// runSurvey lists the different ways in which runs fail.
func runSurvey(prop, tier string, seedOf func(int) uint64, n, workersN int) int {
	var (
		mu    sync.Mutex
		wg    sync.WaitGroup
		next  int
		kinds = make(map[string][]int)
		stats = make(map[string]int64)
		msgs  = make(map[string]string)
		digit = regexp.MustCompile("[0-9a-f]*[0-9]+[0-9a-f]*")
		quote = regexp.MustCompile("\"[^\"]*\"")
	)
	for k := 0; k < workersN; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			wk, err := startWorker()
			if err != nil {
				return
			}
			defer func() { wk.stop() }()
			for {
				mu.Lock()
				i := next
				next++
				mu.Unlock()
				if i >= n {
					return
				}
				res, alive := wk.do(&job{Prop: prop, Seed: seedOf(i), Tier: tier})
				if !alive {
					if wk, err = startWorker(); err != nil {
						return
					}
				}
				mu.Lock()
				for k, v := range res.Stats {
					stats[k] += v
				}
				msg := ""
				if res.Violation != nil {
					msg = res.Violation.Kind + ": " + res.Violation.Msg
				} else if res.Harness != "" {
					msg = "HARNESS " + res.Harness
				}
				if msg != "" {
					key, _, _ := strings.Cut(msg, "(n=")
					key = digit.ReplaceAllString(quote.ReplaceAllString(key, "_"), "#")
					if len(key) > 300 {
						key = key[:300]
					}
					kinds[key] = append(kinds[key], i)
					if _, ok := msgs[key]; !ok {
						msgs[key] = msg
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	for _, k := range sortedKeys(kinds) {
		m := msgs[k]
		if len(m) > 700 {
			m = m[:700]
		}
		sort.Ints(kinds[k])
		fmt.Printf("%d runs, e.g. %v: %s\n", len(kinds[k]), firstInts(kinds[k], 6), m)
	}
	for _, k := range sortedKeys(stats) {
		fmt.Printf("%s=%d ", k, stats[k])
	}
	fmt.Println()
	return 0
}

// knownFindings returns the listed findings by property and key.
var knownFindings = sync.OnceValue(func() map[string]string {
	out := make(map[string]string)
	raw, _ := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	for _, l := range strings.Split(string(raw), "\n") {
		rest, ok := strings.CutPrefix(l, "finding: property=")
		if !ok {
			continue
		}
		prop, rest, _ := strings.Cut(rest, " ")
		key, what, _ := strings.Cut(strings.TrimPrefix(rest, "key="), " ")
		out[prop+" "+key] = key + ": " + what
	}
	return out
})
