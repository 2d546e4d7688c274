package main

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"sync"
	"testing/synctest"
	"time"
	"unsafe"
)

// Sched decides the interleaving of all goroutines that pass through gates. A
// goroutine that reaches a gate waits there until the scheduler picks it, so
// only one goroutine at a time executes code between two gates.
type Sched struct {
	env    *Env
	rng    *rand.Rand
	mu     sync.Mutex
	fresh  []*gateWait // Arrived since the last step.
	parked []*gateWait
	timers []*gateWait // Sleeping.
	live   int
	off    bool
	muted  bool // Gates are passed without waiting.
	steps  int
	policy int // 0: uniform; 1: prefer the goroutine that ran last; 2: prefer old waiters.
	trace  uint64
	cur    string
	onIdle func() bool // Called when nothing can run. Returns false if it changed nothing.
	onStep func()
	spare  func(name string) bool // Whether there are none in a task.
	every  uint64                 // One in so many points between statements is a gate, if not 0.
}

// codeTask is a goroutine that executes code under test, between the statements
// of which the scheduler may switch as well.
type codeTask struct {
	name  string
	goid  uint64
	seed  uint64
	kids  int
	n     uint64
	turns int

	spared bool
}

// maxTurns is how often a goroutine is stopped between two statements.
const maxTurns = 60

// inside runs code under test. Goroutines that it starts are included.
func (e *Env) inside(name string, f func()) {
	s := e.sched
	if s == nil || s.off || s.muted {
		f()
		return
	}
	t := s.codeTask(name)
	t.spared = s.spare != nil && s.spare(name)
	old := runtime.SimLabel()
	runtime.SimSetLabel(unsafe.Pointer(t))
	defer runtime.SimSetLabel(old)
	f()
}

func (s *Sched) codeTask(name string) *codeTask {
	return &codeTask{name: name, goid: runtime.SimGoid(), seed: mix(s.env.plan.Sched, strSeed(name))}
}

// self is the task of this goroutine.
func (s *Sched) self(label unsafe.Pointer) *codeTask {
	t := (*codeTask)(label)
	if runtime.SimGoid() != t.goid {
		p := t
		p.kids++
		t = s.codeTask(fmt.Sprintf("%s/%d", p.name, p.kids))
		t.spared = p.spared
		runtime.SimSetLabel(unsafe.Pointer(t))
	}
	return t
}

// between is called between two statements.
func (s *Sched) between(label unsafe.Pointer) {
	if s.off || s.muted || s.every == 0 {
		return
	}
	t := s.self(label)
	t.n++
	if !t.spared && t.turns < maxTurns && mix(t.seed, t.n)%s.every == 0 {
		t.turns++
		s.env.count("preemptions")
		h := mix(t.seed, ^t.n)
		s.stall(t.name+" between statements", int(h>>8%(1<<(h%10))))
	}
}

type gateWait struct {
	name string
	ch   chan struct{}
	at   time.Time
	hold int // Others come first until so many steps were made.
}

func newSched(env *Env) *Sched {
	rng := newRand(mix(env.plan.Sched, 77))
	s := &Sched{env: env, rng: rng, policy: rng.IntN(3)}
	env.sched = s
	return s
}

// gate is a point at which the scheduler may switch to another goroutine.
func (e *Env) gate(name string) {
	if s := e.sched; s != nil && !s.off && !s.muted {
		if l := runtime.SimLabel(); l != nil {
			// Goroutines may use the same store.
			name = s.self(l).name + " " + name
		}
		s.wait(name)
	}
}

func (s *Sched) wait(name string) { s.stall(name, 0) }

// stall waits at a gate for at least so many steps, if there is anything else to
// do.
func (s *Sched) stall(name string, steps int) {
	g := &gateWait{name: name, ch: make(chan struct{}), hold: s.steps + steps}
	s.mu.Lock()
	s.fresh = append(s.fresh, g)
	s.mu.Unlock()
	<-g.ch
}

// Sleep has a task sleep, such that it wakes up at a gate.
func (s *Sched) Sleep(name string, d time.Duration) {
	s.running()
	s.wait("sleep " + name)
	s.running()
	g := &gateWait{name: "wake " + name, ch: make(chan struct{}), at: time.Now().Add(d)}
	s.timers = append(s.timers, g)
	<-g.ch
	s.running()
}

// rouse has a task that sleeps wake up early.
func (s *Sched) rouse(name string) {
	for i, g := range s.timers {
		if g.name == "wake "+name {
			s.timers = slices.Delete(s.timers, i, i+1)
			s.parked = append(s.parked, g)
			return
		}
	}
}

// running ends the task if the run is over.
func (s *Sched) running() {
	if s.off {
		panic(stopRun{})
	}
}

// quiet runs f without any gates.
func (s *Sched) quiet(f func()) {
	s.muted = true
	defer func() { s.muted = false }()
	f()
}

// arrived takes over the goroutines that arrived at gates. A goroutine may wake
// up another one, so that more than one runs in a step; their order has to be
// the same in every execution.
func (s *Sched) arrived() {
	s.mu.Lock()
	defer s.mu.Unlock()
	sort.SliceStable(s.fresh, func(i, j int) bool { return s.fresh[i].name < s.fresh[j].name })
	for i := 1; i < len(s.fresh); i++ {
		if s.fresh[i].name == s.fresh[i-1].name {
			s.env.harness = "two goroutines arrived at the same gate in one step: " + s.fresh[i].name
		}
	}
	s.parked = append(s.parked, s.fresh...)
	s.fresh = nil
}

// wake moves sleepers whose time has come.
func (s *Sched) wake() {
	if len(s.timers) == 0 {
		return
	}
	sort.SliceStable(s.timers, func(i, j int) bool { return s.timers[i].at.Before(s.timers[j].at) })
	time.Sleep(time.Until(s.timers[0].at))
	k := 0
	for k < len(s.timers) && !s.timers[k].at.After(time.Now()) {
		k++
	}
	s.parked = append(s.parked, s.timers[:k]...)
	s.timers = s.timers[k:]
}

// Go starts a task.
func (s *Sched) Go(name string, f func()) {
	s.live++
	go func() {
		defer func() { s.live-- }()
		defer func() {
			if r := recover(); r != nil {
				s.env.recovered(r, string(debug.Stack()))
			}
		}()
		if !s.off {
			s.wait("start " + name)
		}
		f()
	}()
}

// choose picks one of those that wait.
func (s *Sched) choose() int {
	var ready []int
	first := 0
	for i, g := range s.parked {
		if g.hold <= s.steps {
			ready = append(ready, i)
		}
		if g.hold < s.parked[first].hold {
			first = i
		}
	}
	if len(ready) == 0 {
		return first
	}
	switch s.policy {
	case 1:
		if s.rng.IntN(5) > 0 {
			return ready[len(ready)-1]
		}
	case 2:
		if s.rng.IntN(3) > 0 {
			return ready[0]
		}
	}
	return ready[s.rng.IntN(len(ready))]
}

// Run performs the tasks until all of them have finished, and reports whether
// they did. It gives up when nothing can run for `patience` of simulated time.
func (s *Sched) Run(patience time.Duration) bool {
	if s.every > 0 {
		runtime.SimHook = s.between
	}
	defer func() {
		runtime.SimHook = nil
		s.off = true
		for s.arrived(); len(s.parked)+len(s.timers) > 0; s.arrived() {
			p := append(s.parked, s.timers...)
			s.parked, s.timers = nil, nil
			for _, g := range p {
				close(g.ch)
			}
			synctest.Wait()
		}
	}()
	idle := time.Duration(0)
	for {
		synctest.Wait()
		s.arrived()
		if s.env.viol != nil || s.env.harness != "" {
			return true
		}
		if s.onStep != nil {
			s.onStep()
		}
		if len(s.parked) > 0 {
			idle = 0
			i := s.choose()
			g := s.parked[i]
			s.parked = append(s.parked[:i], s.parked[i+1:]...)
			s.steps++
			s.trace = mix(s.trace, strSeed(g.name))
			s.env.logf("run %s (%d waiting)", g.name, len(s.parked))
			s.cur = g.name
			close(g.ch)
			continue
		}
		if s.live == 0 {
			s.env.add("switches", int64(s.steps))
			s.env.sig("t%x", s.trace)
			return true
		}
		if len(s.timers) > 0 {
			s.wake()
			continue
		}
		if s.onIdle != nil && s.onIdle() {
			continue
		}
		if idle >= patience {
			return false
		}
		time.Sleep(10 * time.Millisecond)
		idle += 10 * time.Millisecond
	}
}
