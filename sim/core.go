package main

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"hash"
	"math/rand/v2"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"testing"
	"testing/cryptotest"
	"testing/synctest"
	"time"
)

// Op is one step of a plan. Every random detail of a step that is not written
// out in A, B and C comes from a generator seeded with S, so removing one step
// does not change what the others do.
type Op struct {
	K string `json:"k"`
	A int64  `json:"a,omitempty"`
	B int64  `json:"b,omitempty"`
	C int64  `json:"c,omitempty"`
	S uint64 `json:"s,omitempty"`
}

// Plan is everything that decides one simulated run. It is also the replay file.
type Plan struct {
	Prop  string           `json:"property"`
	Seed  uint64           `json:"seed"`
	Cfg   map[string]int64 `json:"cfg"`
	Sched uint64           `json:"sched"` // Seed of the scheduler.
	Ops   []Op             `json:"ops"`
}

func (p *Plan) clone() *Plan {
	out := *p
	out.Ops = append([]Op(nil), p.Ops...)
	out.Cfg = make(map[string]int64)
	for k, v := range p.Cfg {
		out.Cfg[k] = v
	}
	return &out
}

type Violation struct {
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
}

// harnessError is panicked with when the simulator itself misbehaves.
type harnessError struct{ msg string }

type Result struct {
	Seed      uint64           `json:"seed"`
	Violation *Violation       `json:"violation,omitempty"`
	Known     map[string]int64 `json:"known,omitempty"`
	Harness   string           `json:"harness,omitempty"`
	Stats     map[string]int64 `json:"stats"`
	LogHash   string           `json:"log_hash"`
	Sig       string           `json:"sig"`
	SimMs     int64            `json:"sim_ms"`
	Wall      float64          `json:"wall"`
	Log       []string         `json:"log,omitempty"`
}

// Env is the context of one simulated run.
type Env struct {
	t     *testing.T
	plan  *Plan
	rng   *rand.Rand // Set-up choices that belong to no step.
	stats map[string]int64

	logHash hash.Hash
	sigHash hash.Hash
	verbose bool
	lines   []string

	start    time.Time
	viol     *Violation
	harness  string
	cleanups []func()

	sched *Sched
	known map[string]int64
}

func newRand(seed uint64) *rand.Rand {
	return rand.New(rand.NewPCG(seed, seed^0x9e3779b97f4a7c15))
}

func mix(a, b uint64) uint64 {
	z := a*0x9e3779b97f4a7c15 + b + 0x632be59bd9b4e019
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func strSeed(s string) uint64 {
	h := sha256.Sum256([]byte(s))
	return binary.BigEndian.Uint64(h[:8])
}

// logf records an event. It never draws from a generator.
func (e *Env) logf(format string, args ...any) {
	line := fmt.Sprintf(format, args...)
	e.logHash.Write([]byte(line))
	e.logHash.Write([]byte{'\n'})
	if e.verbose {
		e.lines = append(e.lines, fmt.Sprintf("[%8dms] %s", time.Since(e.start).Milliseconds(), line))
	}
}

// debugf is for details that are not a part of the log.
func (e *Env) debugf(format string, args ...any) {
	if e.verbose {
		e.lines = append(e.lines, "    "+fmt.Sprintf(format, args...))
	}
}

// sig adds to the abstract description of the run which is used to count
// distinct runs.
func (e *Env) sig(format string, args ...any) {
	fmt.Fprintf(e.sigHash, format+";", args...)
}

func (e *Env) count(name string) { e.stats[name]++ }

func (e *Env) add(name string, n int64) { e.stats[name] += n }

type stopRun struct{}

// fail reports a violation and ends the run.
func (e *Env) fail(kind, format string, args ...any) {
	if e.viol == nil {
		e.viol = &Violation{Kind: kind, Msg: fmt.Sprintf(format, args...)}
		e.logf("VIOLATION %s: %s", kind, e.viol.Msg)
	}
	panic(stopRun{})
}

// finding reports a violation that may be listed as a known finding. In either
// case, it ends the run.
func (e *Env) finding(key, format string, args ...any) {
	if what, ok := knownFindings()[e.plan.Prop+" "+key]; ok {
		e.known[what]++
		e.logf("known finding %s", key)
		panic(stopRun{})
	}
	e.fail(key, format, args...)
}

func (e *Env) cleanup(f func()) { e.cleanups = append(e.cleanups, f) }

func harnessFail(format string, args ...any) {
	panic(harnessError{fmt.Sprintf(format, args...)})
}

// unexpected is panicked with when a call fails that has no reason to.
type unexpected struct{ err error }

// must is for calls of the code under test that can not fail: no fault was
// injected and its input is in order.
func must(err error) {
	if err != nil {
		panic(unexpected{err})
	}
}

// recovered classifies a panic. Panics out of the code under test are
// violations, all others are errors of the simulator.
func (e *Env) recovered(r any, stack string) {
	switch r := r.(type) {
	case nil, stopRun:
		return
	case unexpected:
		if e.viol == nil {
			e.viol = &Violation{Kind: "unexpected-error", Msg: fmt.Sprintf("a call fails without any fault: %v at %s", r.err, callSite(stack))}
			e.logf("VIOLATION %s", e.viol.Msg)
		}
		return
	case harnessError:
		if e.harness == "" {
			e.harness = r.msg + "\n" + stack
		}
		return
	}
	if e.viol != nil || e.harness != "" {
		return
	}
	if panicInTarget(stack) {
		e.viol = &Violation{Kind: "panic", Msg: fmt.Sprintf("panic: %v at %s", r, panicSite(stack))}
		e.logf("VIOLATION panic: %v at %s", r, panicSite(stack))
		e.debugf("%s", stack)
		return
	}
	e.harness = fmt.Sprintf("panic: %v\n%s", r, stack)
}

// panicFrames returns the function names of the goroutine's stack, beginning
// with the frame that panicked.
func panicFrames(stack string) []string {
	lines := strings.Split(stack, "\n")
	begin := 0
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.panic") || strings.HasPrefix(l, "runtime.goPanic") {
			begin = i + 2
		}
	}
	var out []string
	for _, l := range lines[begin:] {
		if l == "" || strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "goroutine ") {
			continue
		}
		out = append(out, l)
	}
	return out
}

func panicInTarget(stack string) bool {
	for _, f := range panicFrames(stack) {
		if strings.HasPrefix(f, "runtime.") || strings.HasPrefix(f, "internal/") ||
			strings.HasPrefix(f, "encoding/") || strings.HasPrefix(f, "bytes.") || strings.HasPrefix(f, "slices.") ||
			strings.HasPrefix(f, "crypto/") || strings.HasPrefix(f, "sort.") || strings.HasPrefix(f, "github.com/syndtr/") ||
			strings.HasPrefix(f, "filippo.io/") {
			continue
		}
		return strings.HasPrefix(f, "github.com/Bren2010/katie")
	}
	return false
}

// callSite is the function that called must.
func callSite(stack string) string {
	fs := panicFrames(stack)
	for i, f := range fs {
		if strings.HasPrefix(f, "ksim.must(") && i+1 < len(fs) {
			f, _, _ = strings.Cut(fs[i+1], "(0x")
			return f
		}
	}
	return "?"
}

func panicSite(stack string) string {
	for _, f := range panicFrames(stack) {
		if strings.HasPrefix(f, "github.com/Bren2010/katie") {
			if i := strings.LastIndex(f, "("); i > 0 {
				f = f[:i]
			}
			return strings.TrimPrefix(f, "github.com/Bren2010/katie/")
		}
	}
	return "?"
}

// blockedGoroutines describes the goroutines left behind in a bubble.
func blockedGoroutines() string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if head, _, _ := strings.Cut(g, "\n"); !strings.Contains(head, "synctest bubble") {
			continue
		}
		var frames []string
		for _, l := range strings.Split(g, "\n") {
			if strings.HasPrefix(l, "github.com/") || strings.HasPrefix(l, "created by ") || strings.HasPrefix(l, "katiesim") || strings.HasPrefix(l, "main.") {
				if i := strings.LastIndex(l, "("); i > 0 && !strings.HasPrefix(l, "created") {
					l = l[:i]
				}
				frames = append(frames, l)
			}
		}
		out = append(out, strings.Join(frames, " < "))
	}
	sort.Strings(out)
	return "; " + strings.Join(out, " | ")
}

// execute performs one simulated run.
func execute(t *testing.T, plan *Plan, verbose bool) *Result {
	w, ok := workloads[plan.Prop]
	if !ok {
		harnessFail("no workload for %s", plan.Prop)
	}
	env := &Env{
		plan:    plan,
		rng:     newRand(mix(plan.Seed, 1)),
		stats:   make(map[string]int64),
		known:   make(map[string]int64),
		logHash: sha256.New(),
		sigHash: sha256.New(),
		verbose: verbose,
	}
	began := time.Now()
	res := &Result{Seed: plan.Seed}

	old := debug.SetGCPercent(-1)
	runtime.SimSeed(mix(plan.Seed, 2)|1, mix(plan.Seed, 3)|1)
	time.SimSetOffset(0)
	func() {
		defer func() {
			if r := recover(); r != nil {
				stack := string(debug.Stack())
				if s := fmt.Sprint(r); strings.Contains(s, "deadlock") && env.viol == nil && env.harness == "" {
					env.viol = &Violation{Kind: "leak", Msg: "goroutines of the code under test never finished: " + s + blockedGoroutines()}
				} else {
					env.recovered(r, stack)
				}
			}
		}()
		synctest.Test(t, func(t *testing.T) {
			cryptotest.SetGlobalRandom(t, mix(plan.Seed, 4))
			env.t = t
			env.start = time.Now()
			func() {
				defer func() {
					if r := recover(); r != nil {
						env.recovered(r, string(debug.Stack()))
					}
				}()
				w.Exec(env)
			}()
			time.SimSetOffset(0)
			res.SimMs = time.Since(env.start).Milliseconds()
			for i := len(env.cleanups) - 1; i >= 0; i-- {
				f := env.cleanups[i]
				func() {
					defer func() {
						if r := recover(); r != nil {
							env.recovered(r, string(debug.Stack()))
						}
					}()
					f()
				}()
			}
			time.Sleep(3 * time.Second) // Databases take a moment to close.
		})
	}()
	runtime.SimSeed(0, 0)
	time.SimSetOffset(0)
	debug.SetGCPercent(old)

	res.Violation = env.viol
	res.Harness = env.harness
	res.Stats = env.stats
	res.Known = env.known
	res.LogHash = fmt.Sprintf("%x", env.logHash.Sum(nil)[:12])
	res.Sig = fmt.Sprintf("%x", env.sigHash.Sum(nil)[:8])
	res.Wall = time.Since(began).Seconds()
	res.Log = env.lines
	return res
}

// Workload generates and performs the runs of one property.
type Workload struct {
	Title string
	// Runs of the quick and thorough tiers.
	Quick, Thorough int
	Gen             func(rng *rand.Rand, plan *Plan, tier string)
	Exec            func(env *Env)
	Rule            string
	// Nontrivial tells which runs have exercised the property.
	Nontrivial func(stats map[string]int64) bool
	Real, Stub []string
}

var workloads = make(map[string]*Workload)

func makePlan(prop string, seed uint64, tier string) *Plan {
	plan := &Plan{Prop: prop, Seed: seed, Cfg: make(map[string]int64), Sched: mix(seed, 5)}
	workloads[prop].Gen(newRand(mix(seed, 6)), plan, tier)
	return plan
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func p64[T any](x T) *T { return &x }
