package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand/v2"
	"slices"
	"strings"
	"testing/synctest"
	"time"

	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/managed"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

// A service whose requests are served at the same time as the log changes. The
// scheduler interleaves all of them at every operation on the store.
type conc struct {
	env    *Env
	w      *World
	s      *Sched
	cs     []*simClient
	labels []string
	app    []string // Labels that only the application changes.

	heads   []structs.AuditorTreeHead // All that were published.
	inbox   []Op                      // What the application wants to change.
	held    []*seqReq                 // Requests that wait for their turn.
	byVal   map[string]*stream
	shared  *sharedTree
	live    int // Requests in progress.
	issued  int
	closing bool
	failing int // So many update requests are going to fail.
	stall   time.Duration
	cancels []func()

	changing bool // The log may have grown already.
}

type sharedTree struct {
	tree   *transparency.Tree
	lo, hi uint64 // Its size is in this range.
	heads  int    // It has at least so many auditor tree heads.
	seen   uint64 // Its size, once it is known.
}

type seqReq struct {
	q  transparency.UpdateRequest
	st *stream
}

// stream is an Update request as the server sees it.
type stream struct {
	p         *pending
	name      string
	n0, n1    uint64 // The size of the tree when the request started to be served.
	heads     int
	cancelled bool
	submitted bool
	sequenced bool
	failed    bool
	pos       uint64
	ownSeen   bool
	next      int // Next version to be told about.
	n         uint64
	count     int
	lastErr   error
	closed    bool
	noUpdater bool
	sh        *sharedTree // The server, if it also serves other requests.
}

func genConc(weights map[string]int, modes []int64) func(*rand.Rand, *Plan, string) {
	return func(rng *rand.Rand, plan *Plan, tier string) {
		genConfig(rng, plan, modes)
		c := plan.Cfg
		c["labels"] = 1 + rng.Int64N(4)
		if rng.IntN(4) == 0 {
			c["behind"] = 2000 + rng.Int64N(60_000)
		}
		n := 15 + rng.IntN(50)
		if tier == "thorough" && rng.IntN(4) == 0 {
			n *= 3
		}
		if s := c["suite"]; s == 1 || s == 2 {
			n = 15
		}
		ws := make(map[string]int)
		for _, k := range sortedKeys(weights) {
			ws[k] = weights[k]
			switch rng.IntN(6) {
			case 0:
				ws[k] *= 4
			case 1:
				ws[k] /= 3
			}
		}
		ws["mut"]++
		gap := []int64{5, 50, 500, 4000}[rng.IntN(4)]
		plan.Ops = append(plan.Ops, Op{K: "mut", A: 1 + rng.Int64N(4), S: rng.Uint64()})
		if rng.IntN(8) > 0 {
			// Some entries, and owners of labels.
			for range 1 + rng.IntN(6) {
				plan.Ops = append(plan.Ops, Op{K: "mut", A: rng.Int64N(4), S: rng.Uint64()}, Op{K: "adv", A: 1 + rng.Int64N(c["rmw"])})
			}
			for i := range 2 * c["clients"] {
				plan.Ops = append(plan.Ops, Op{K: "search", A: i, B: rng.Int64N(16), S: rng.Uint64()}, Op{K: "adv", A: 100})
				plan.Ops = append(plan.Ops, Op{K: "own", A: i, B: rng.Int64N(16), S: rng.Uint64()}, Op{K: "adv", A: 100})
			}
		}
		for range n {
			op := Op{K: pick(rng, ws), A: rng.Int64N(16), B: rng.Int64N(16), C: rng.Int64N(4), S: rng.Uint64()}
			switch op.K {
			case "adv":
				op.A = rng.Int64N(gap)
				if rng.IntN(12) == 0 {
					op.A = rng.Int64N(c["rmw"] * 2)
				}
			case "mut":
				op.A = rng.Int64N(5)
			}
			plan.Ops = append(plan.Ops, op)
		}
		if rng.IntN(3) > 0 {
			c["preempt"] = []int64{10, 100, 1000, 5000}[rng.IntN(4)]
			if rng.IntN(2) == 0 {
				// A lot happens at the same time.
				for i := len(plan.Ops) - n; i < len(plan.Ops); i++ {
					switch op := &plan.Ops[i]; {
					case op.K != "adv":
					case rng.IntN(3) == 0:
						*op = Op{K: "mut", A: rng.Int64N(3), S: rng.Uint64()}
					case rng.IntN(2) == 0:
						op.A = 0
					}
				}
			}
		}
	}
}

func runConc(env *Env) {
	w := newWorld(env)
	x := &conc{env: env, w: w, byVal: make(map[string]*stream)}
	for i := int64(0); i < env.plan.Cfg["clients"]; i++ {
		x.cs = append(x.cs, newSimClient(w, int(i)))
	}
	for i := int64(0); i < env.plan.Cfg["labels"]; i++ {
		x.labels = append(x.labels, labelName(i))
	}
	x.app = []string{"app-1", "app-2"}
	x.s = newSched(env)
	x.s.every = uint64(env.plan.Cfg["preempt"])
	if k := mix(env.plan.Sched, 3) % 3; k > 0 {
		// Only requests, or only changes, are held up.
		x.s.spare = func(name string) bool { return (name == "mutate") == (k == 1) }
	}
	x.s.Go("plan", x.plan)
	x.s.Go("sequencer", x.sequencer)
	done := x.s.Run(time.Hour)
	for _, f := range x.cancels {
		f()
	}
	synctest.Wait()
	if env.viol != nil || env.harness != "" {
		return
	}
	if !done {
		env.fail("liveness", "requests are still in progress after an hour in which nothing happened (%d of %d, %d held)", x.live, x.issued, len(x.held))
	}
	for _, k := range sortedKeys(x.byVal) {
		if st := x.byVal[k]; !st.closed {
			env.fail("leak", "%s: the stream of responses has not ended", st.name)
		}
	}
	// What is left is the business of clients which are served one by one.
	h := &honest{env: env, w: w, cs: x.cs, labels: x.labels, owned: make(map[string]bool), removed: make(map[string]bool)}
	h.settle()
}

func (x *conc) plan() {
	env := x.env
	for i, op := range env.plan.Ops {
		rng := newRand(op.S)
		switch op.K {
		case "adv":
			if op.A == 0 {
				break
			}
			x.s.Sleep("plan", time.Duration(op.A)*time.Millisecond)
		case "mut", "beat":
			x.inbox = append(x.inbox, op)
			x.hurry(op.S)
		case "seqfail":
			x.failing++
		case "stall":
			x.stall += time.Duration(op.A) * 10 * time.Millisecond
		case "share":
			x.share(i)
		case "search", "mon", "own", "upd":
			kind := map[string]string{"search": "search", "mon": "monitor", "own": "ownerinit", "upd": "update"}[op.K]
			x.issued++
			x.live++
			x.s.Go(fmt.Sprintf("r%d", i), func() {
				defer func() { x.live-- }()
				x.request(fmt.Sprintf("r%d ", i), rng, op, kind)
			})
		default:
			harnessFail("unknown step %q", op.K)
		}
		if rng.IntN(3) > 0 {
			env.gate("plan")
		}
	}
	x.closing = true
}

// ---- The part of the application that changes the log.

// hurry may have it look for something to do without a delay, such that requests
// are still in progress.
func (x *conc) hurry(seed uint64) {
	if x.s.every > 0 && seed%4 > 0 {
		x.s.rouse("sequencer")
	}
}

func (x *conc) sequencer() {
	env := x.env
	rng := newRand(mix(env.plan.Sched, 5))
	idle := 0
	for {
		env.gate("sequencer")
		x.s.running()
		if x.stall > 0 {
			env.count("fault:sequencer-stalled")
			d := x.stall
			x.stall = 0
			x.s.Sleep("sequencer", d)
		}
		x.poll()
		// Which of the requests are next? No label may occur twice.
		var batch []*seqReq
		var keep []*seqReq
		busy := make(map[string]bool)
		rng.Shuffle(len(x.held), func(i, j int) {
			if rng.IntN(2) == 0 {
				x.held[i], x.held[j] = x.held[j], x.held[i]
			}
		})
		for _, r := range x.held {
			l := string(r.q.Label)
			if busy[l] || r.q.StartingVersion != nil && int(*r.q.StartingVersion) != x.w.ref.latest(l)+1 || len(batch) > 0 && rng.IntN(3) == 0 {
				keep = append(keep, r)
				continue
			}
			busy[l] = true
			if x.failing > 0 && rng.IntN(3) == 0 {
				x.failing--
				env.count("fault:update-not-sequenced")
				r.st.failed = true
				close(r.q.Response)
				continue
			}
			batch = append(batch, r)
		}
		x.held = keep
		switch {
		case len(batch) > 0 || len(x.inbox) > 0:
			idle = 0
			x.change(rng, batch, busy)
		case x.closing && (x.live == 0 || len(x.held) > 0 && idle > 50):
			// Those that are left can not be sequenced.
			idle = 0
			for _, r := range x.held {
				env.count("misaligned-updates")
				r.st.failed = true
				close(r.q.Response)
			}
			x.held = nil
			if x.live == 0 {
				return
			}
			x.s.Sleep("sequencer", 5*time.Millisecond)
		case idle > 10_000:
			// If requests are still in progress, then they wait for nothing.
			return
		default:
			if x.closing {
				idle++
			}
			x.s.Sleep("sequencer", time.Duration(1+rng.IntN(40))*time.Millisecond)
		}
	}
}

// poll takes over requests that servers have submitted.
func (x *conc) poll() {
	env := x.env
	for {
		var q transparency.UpdateRequest
		select {
		case q = <-x.w.queue:
		default:
			return
		}
		if len(q.Values) == 0 {
			env.fail("update-sequence", "an update of %q without values is submitted", q.Label)
		}
		st := x.byVal[string(q.Values[0].Value)]
		if st == nil || st.p.label != string(q.Label) || len(st.p.vals) != len(q.Values) {
			env.fail("update-sequence", "%d values for %q are submitted that nobody asked for", len(q.Values), q.Label)
		}
		for i, v := range q.Values {
			if !bytes.Equal(v.Value, st.p.vals[i]) {
				env.fail("update-sequence", "value %d of an update of %q is changed before it is submitted", i, q.Label)
			}
		}
		if st.submitted {
			env.fail("update-sequence", "%s: values for %q are submitted twice", st.name, q.Label)
		}
		if st.cancelled {
			env.fail("update-sequence", "%s: values for %q are submitted after the request was cancelled", st.name, q.Label)
		}
		st.submitted = true
		if (q.StartingVersion != nil) != (x.w.cfg.Mode == modeManaged) {
			env.fail("update-sequence", "starting version %v in mode %d", q.StartingVersion, x.w.cfg.Mode)
		}
		x.held = append(x.held, &seqReq{q, st})
		env.count("submitted")
		env.gate("sequencer-received")
	}
}

// change adds an entry to the log.
func (x *conc) change(rng *rand.Rand, batch []*seqReq, busy map[string]bool) {
	env, w := x.env, x.w
	var add []transparency.LabelValue
	for _, r := range batch {
		for _, v := range r.q.Values {
			add = append(add, transparency.LabelValue{Label: r.q.Label, Value: v})
		}
	}
	if len(x.inbox) > 0 {
		op := x.inbox[0]
		x.inbox = x.inbox[1:]
		r := newRand(op.S)
		labels := append(slices.Clone(x.labels), x.app...)
		if w.cfg.Mode == modeManaged {
			labels = x.app
		}
		if op.K == "mut" {
			for range op.A {
				l := labels[r.IntN(len(labels))]
				if !busy[l] {
					k := 0
					for _, lv := range add {
						if string(lv.Label) == l {
							k++
						}
					}
					add = append(add, w.signed(l, [][]byte{randVal(r)}, w.ref.latest(l)+1+k)...)
				}
			}
		}
	}
	pos := w.ref.n()
	// The in-memory store has no transactions. A change may also be visible before
	// the model knows about it.
	x.changing = w.kind == 1 || x.s.every > 0
	ok := w.mutate(add, nil)
	x.changing = false
	if !ok {
		for _, r := range batch {
			r.st.failed = true
			close(r.q.Response)
		}
		return
	}
	audited := false
	if w.cfg.Mode == modeAudited && (w.audHead == nil || rng.IntN(2) == 0) {
		x.audit()
		audited = true
	}
	for _, r := range batch {
		r.st.pos, r.st.sequenced = pos, true
		r.q.Response <- pos
		env.gate("sequencer-sent")
		env.count("sequenced")
	}
	if w.cfg.Mode == modeAudited && !audited && rng.IntN(2) == 0 {
		x.audit()
	}
}

func (x *conc) audit() {
	x.w.audit(true)
	x.heads = append(x.heads, *x.w.audHead)
}

// ---- Servers.

// open returns a server instance.
func (x *conc) open(name string, queue chan transparency.UpdateRequest) *transparency.Tree {
	tx := x.w.tx.Clone()
	tx.(*store).name = name
	var (
		tree *transparency.Tree
		err  error
	)
	x.env.inside(name+"opens", func() { tree, err = transparency.NewTree(x.w.cfg, tx, queue) })
	if err != nil {
		x.env.fail("open", "%sserver can not be started: %v", name, err)
	}
	return tree
}

// size is the greatest size that a server may see.
func (x *conc) size() uint64 {
	if x.changing {
		return x.w.ref.n() + 1
	}
	return x.w.ref.n()
}

// settled waits until the model has reached size n.
func (x *conc) settled(name string, n uint64) {
	for x.w.ref.n() < n {
		if !x.changing {
			x.env.fail("snapshot", "%sserver uses a tree of size %d, the log has %d entries", name, n, x.w.ref.n())
		}
		x.env.gate(name + "waits")
		x.s.running()
	}
}

// share starts a server that is used for several requests.
func (x *conc) share(i int) {
	sh := &sharedTree{lo: x.w.ref.n(), heads: x.published()}
	sh.tree = x.open(fmt.Sprintf("shared%d ", i), x.w.queue)
	sh.hi = x.size()
	x.shared = sh
	x.env.count("shared-servers")
}

func (x *conc) published() int {
	if x.w.audHead != nil && (len(x.heads) == 0 || x.heads[len(x.heads)-1].TreeSize != x.w.audHead.TreeSize) {
		// It is visible, but not recorded yet.
		return len(x.heads) + 1
	}
	return len(x.heads)
}

func (x *conc) request(name string, rng *rand.Rand, op Op, kind string) {
	w := x.w
	c := x.cs[int(op.A)%len(x.cs)]
	l := x.labels[int(op.B)%len(x.labels)]
	if kind == "search" && rng.IntN(5) == 0 {
		l = x.app[rng.IntN(2)]
	}
	ver := -1
	var vals [][]byte
	switch kind {
	case "search":
		if op.C > 1 {
			ver = rng.IntN(w.ref.latest(l) + 3)
		}
	case "update":
		for i := range rng.IntN(4) {
			vals = append(vals, append([]byte(fmt.Sprintf("%s%d ", name, i)), randVal(rng)...))
		}
		if c.own[l] == nil && rng.IntN(4) > 0 {
			for _, o := range sortedKeys(c.own) {
				l = o
				if rng.IntN(2) == 0 {
					break
				}
			}
		}
	}
	var p *pending
	x.s.quiet(func() { p = c.begin(kind, l, ver, vals) })
	if p == nil {
		return
	}
	if rng.IntN(4) == 0 {
		x.s.Sleep(name, time.Duration(1+rng.IntN(300))*time.Millisecond)
	}
	if kind == "update" {
		x.update(name, rng, p)
		return
	}
	x.unary(name, rng, p)
}

func (x *conc) unary(name string, rng *rand.Rand, p *pending) {
	env, w := x.env, x.w
	lo, heads := w.ref.n(), x.published()
	var (
		tree *transparency.Tree
		sh   *sharedTree
	)
	if x.shared != nil && rng.IntN(3) == 0 {
		sh = x.shared
		tree, lo, heads = sh.tree, sh.lo, sh.heads
		env.count("shared-requests")
	} else {
		tree = x.open(name, w.queue)
	}
	hi := x.size()
	if sh != nil {
		hi = sh.hi
	}
	var (
		fth *structs.FullTreeHead
		ctx = context.Background()
	)
	var err error
	switch {
	case p.sreq != nil:
		var res *structs.SearchResponse
		rq := wireReq(w, p.sreq, structs.NewSearchRequest)
		env.inside(name, func() { res, err = tree.Search(ctx, rq) })
		p.rp = encodeReply(w, res, err)
		if err == nil {
			w.disclosed(p.sreq, res)
			fth = &res.FullTreeHead
		}
	case p.oreq != nil:
		var res *structs.OwnerInitResponse
		rq := wireReq(w, p.oreq, structs.NewOwnerInitRequest)
		env.inside(name, func() { res, err = tree.OwnerInit(ctx, rq) })
		p.rp = encodeReply(w, res, err)
		if err == nil {
			w.disclosed(p.oreq, res)
			fth = &res.FullTreeHead
		}
	default:
		switch req := p.mreq.(type) {
		case *structs.ContactMonitorRequest:
			var res *structs.ContactMonitorResponse
			rq := wireReq(w, req, structs.NewContactMonitorRequest)
			env.inside(name, func() { res, err = tree.ContactMonitor(ctx, rq) })
			p.rp = encodeReply(w, res, err)
			if err == nil {
				w.disclosed(req, res)
				fth = &res.FullTreeHead
			}
		case *structs.OwnerMonitorRequest:
			var res *structs.OwnerMonitorResponse
			rq := wireReq(w, req, structs.NewOwnerMonitorRequest)
			env.inside(name, func() { res, err = tree.OwnerMonitor(ctx, rq) })
			p.rp = encodeReply(w, res, err)
			if err == nil {
				w.disclosed(req, res)
				fth = &res.FullTreeHead
			}
		}
	}
	env.logf("%sanswered: %v, size between %d and %d, now %d", name, p.rp.err, lo, hi, w.ref.n())
	if fth == nil {
		x.expectError(p, lo, hi, heads)
	} else {
		n := x.sizeOf(p, fth, p.base)
		if n < lo || n > hi {
			env.fail("snapshot", "%sserver answers for a tree of size %d, the log had between %d and %d when it was started", name, n, lo, hi)
		}
		if sh != nil {
			if sh.seen != 0 && sh.seen != n {
				env.fail("snapshot", "%sa server that answered for a tree of size %d now answers for %d", name, sh.seen, n)
			}
			sh.seen = n
		}
		if hi > lo {
			env.count("raced")
		}
		if w.ref.n() > n {
			env.count("overtaken")
		}
		x.settled(name, n)
		p.expectAt(n, x.headOf(name, fth, heads))
	}
	if rng.IntN(4) == 0 {
		env.count("fault:response-delayed")
		x.s.Sleep(name, time.Duration(1+rng.IntN(300))*time.Millisecond)
	} else if rng.IntN(20) == 0 {
		env.count("fault:message-lost")
		return
	}
	x.s.quiet(p.deliver)
}

// sizeOf returns the size of the tree that a response is for.
func (x *conc) sizeOf(p *pending, fth *structs.FullTreeHead, last uint64) uint64 {
	if fth.TreeHead == nil {
		return last
	}
	return fth.TreeHead.TreeSize
}

// headOf finds the auditor's tree head of a response.
func (x *conc) headOf(name string, fth *structs.FullTreeHead, heads int) *structs.AuditorTreeHead {
	if x.w.cfg.Mode != modeAudited {
		return nil
	}
	if fth.AuditorTreeHead == nil {
		return x.w.audHead
	}
	if a := x.w.audHead; a != nil && a.TreeSize == fth.AuditorTreeHead.TreeSize {
		return a
	}
	if a := x.w.audNext; a != nil && x.w.kind == 1 && a.TreeSize == fth.AuditorTreeHead.TreeSize {
		return a // The in-memory store has no transactions.
	}
	for i := range x.heads {
		if x.heads[i].TreeSize == fth.AuditorTreeHead.TreeSize {
			if i+1 < heads {
				x.env.fail("snapshot", "%sserver uses an auditor tree head of size %d, which was replaced before it was started", name, x.heads[i].TreeSize)
			}
			return &x.heads[i]
		}
	}
	x.env.fail("snapshot", "%sserver uses an auditor tree head of size %d that was never published", name, fth.AuditorTreeHead.TreeSize)
	return nil
}

// expectError looks for a reason to refuse the request at any of the sizes that
// the server can have seen.
func (x *conc) expectError(p *pending, lo, hi uint64, heads int) {
	for x.w.ref.n() < hi && x.changing {
		x.env.gate("waits")
		x.s.running()
	}
	hi = min(hi, x.w.ref.n())
	for n := lo; n <= hi; n++ {
		if x.w.cfg.Mode == modeAudited && heads == 0 {
			p.expectAt(n, nil)
			if p.exp.refuse != "" {
				return
			}
		}
		p.expectAt(n, x.w.audHead)
		if p.exp.refuse != "" {
			return
		}
	}
}

// ---- Updates.

func (x *conc) update(name string, rng *rand.Rand, p *pending) {
	env, w := x.env, x.w
	st := &stream{p: p, name: name, n0: w.ref.n(), heads: x.published(), n: p.base}
	if g := p.ureq.GreatestVersion; g != nil {
		st.next = int(*g) + 1
	}
	if len(p.vals) > 0 {
		x.byVal[string(p.vals[0])] = st
	} else {
		x.byVal[name] = st
	}
	queue := w.queue
	if rng.IntN(15) == 0 {
		queue = nil
		st.noUpdater = true
	}
	var tree *transparency.Tree
	if sh := x.shared; sh != nil && queue != nil && rng.IntN(3) == 0 {
		// The server goes on to serve other requests, as it was when it started.
		st.sh, st.n0, st.n1, st.heads = sh, sh.lo, sh.hi, sh.heads
		tree = sh.tree
		env.count("shared-updates")
	} else {
		tree = x.open(name, queue)
		st.n1 = x.size()
	}
	var target interface {
		Update(context.Context, *structs.UpdateRequest) (<-chan wireUpdate, error)
	} = tree
	if w.cfg.Mode == modeManaged {
		ml, err := managed.NewManagedLog(w.pub, tree, w.mls, w.ks.leaf)
		must(err)
		target = ml
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	x.cancels = append(x.cancels, cancel)
	var (
		ch  <-chan wireUpdate
		err error
		rq  = wireReq(w, p.ureq, structs.NewUpdateRequest)
	)
	env.inside(name+"u", func() { ch, err = target.Update(ctx, rq) })
	if err != nil {
		// A server that was started before may not know what the owner knows.
		if g := p.ureq.GreatestVersion; st.sh != nil && g != nil && (st.n0 == 0 || w.ref.greatestAt(p.label, st.n0-1) < int(*g)) {
			env.count("shared-updates-refused")
			st.closed = true
			return
		}
		env.fail("update", "%supdate of %q can not be started: %v", name, p.label, err)
	}
	x.hurry(rng.Uint64())
	env.gate(name + "streams")

	cancelAfter, cancelAt := -1, time.Time{}
	switch rng.IntN(6) {
	case 0:
		cancelAfter = rng.IntN(3)
	case 1:
		cancelAt = time.Now().Add(time.Duration(rng.IntN(200)) * time.Millisecond)
	}
	slow := rng.IntN(4) == 0
	poll := cancelAfter >= 0 || !cancelAt.IsZero()
	accepting := true
	for k := 0; ; k++ {
		if cancelAfter == k || !cancelAt.IsZero() && !time.Now().Before(cancelAt) || !accepting && poll {
			break
		}
		var (
			res wireUpdate
			ok  = true
		)
		if poll {
			select {
			case res, ok = <-ch:
			default:
				x.s.Sleep(name, time.Duration(1+rng.IntN(30))*time.Millisecond)
				k--
				continue
			}
		} else {
			res, ok = <-ch
		}
		sequenced := st.sequenced
		env.gate(name + "received")
		if !ok {
			st.closed = true
			break
		}
		rp := x.streamed(st, res, sequenced)
		if accepting {
			x.s.quiet(func() {
				accepting = p.deliverNext(rp)
				p.c.inspect()
			})
		}
		if slow {
			x.s.Sleep(name, time.Duration(1+rng.IntN(100))*time.Millisecond)
		}
	}
	if st.closed {
		x.ended(st)
		return
	}
	cancel()
	env.count("fault:update-cancelled")
	env.gate(name + "cancelled")
	st.cancelled = true
	for i := 0; i < 100_000; i++ {
		ok := true
		select {
		case _, ok = <-ch:
		default:
			x.s.Sleep(name, time.Duration(1+i/100)*time.Millisecond)
			continue
		}
		env.gate(name + "received")
		if !ok {
			st.closed = true
			return
		}
	}
	env.fail("leak", "%supdate of %q has not ended long after it was cancelled (submitted=%v sequenced=%v)", name, p.label, st.submitted, st.sequenced)
}

// streamed checks a response of a server to an update.
func (x *conc) streamed(st *stream, res wireUpdate, sequenced bool) reply {
	env, w, p := x.env, x.w, st.p
	r := w.ref
	if st.lastErr != nil {
		env.fail("update", "%sthe stream for %q goes on after an error", st.name, p.label)
	}
	if res.Err != nil {
		st.lastErr = res.Err
		lo, hi := st.n0, st.n1
		if sequenced {
			lo, hi = st.pos+1, x.size()
		}
		if strings.HasPrefix(res.Err.Error(), "failed to sequence") && st.failed {
			p.exp = expect{n: lo, refuse: "not sequenced"}
		} else if st.noUpdater && len(p.vals) > 0 && strings.Contains(res.Err.Error(), "does not support") {
			p.exp = expect{n: lo, refuse: "read only"}
		} else {
			x.expectError(p, lo, hi, st.heads)
		}
		env.logf("%sstream error (%s)", st.name, p.exp.refuse)
		return reply{err: res.Err}
	}
	out := res.Out
	n := x.sizeOf(p, &out.FullTreeHead, st.n)
	lo, hi := st.n0, st.n1
	if sequenced {
		lo, hi = st.pos+1, x.size()
	}
	if n < lo || n > hi {
		env.fail("snapshot", "%sserver answers the update of %q for a tree of size %d, but it should have between %d and %d", st.name, p.label, n, lo, hi)
	}
	if sh := st.sh; sh != nil && !sequenced {
		if sh.seen != 0 && sh.seen != n {
			env.fail("snapshot", "%sa server that answered for a tree of size %d now answers for %d", st.name, sh.seen, n)
		}
		sh.seen = n
	}
	if len(out.Info) == 0 || out.Position >= n {
		env.fail("update", "%sresponse to an update of %q in a tree of size %d tells about %d versions in entry %d", st.name, p.label, n, len(out.Info), out.Position)
	}
	x.settled(st.name, n)
	for k := range out.Info {
		v := st.next + k
		if v >= len(r.live[p.label]) || r.live[p.label][v].pos != out.Position {
			env.fail("update", "%sresponse to an update of %q tells about %d versions in entry %d, but version %d is not there (%s)", st.name, p.label, len(out.Info), out.Position, v, r.dump())
		}
	}
	st.next += len(out.Info)
	if st.next < len(r.live[p.label]) && r.live[p.label][st.next].pos == out.Position {
		env.fail("update", "%sresponse to an update of %q leaves out version %d of entry %d", st.name, p.label, st.next, out.Position)
	}
	if st.sequenced && out.Position == st.pos {
		st.ownSeen = true
	}
	st.n = n
	st.count++
	env.logf("%sstream has %d versions in %d at size %d", st.name, len(out.Info), out.Position, n)
	w.disclosed(p.ureq, out)
	rp := encodeReply(w, out, nil)
	head := x.headOf(st.name, &out.FullTreeHead, st.heads)
	if head != nil {
		rp.auditorTs = head.Timestamp
	}
	p.expectAt(n, head)
	e := p.exp
	e.refuse = ""
	rp.exp = &e
	return rp
}

// ended checks that a stream that was not cancelled is complete.
func (x *conc) ended(st *stream) {
	env, r, p := x.env, x.w.ref, st.p
	env.count("streams")
	if st.lastErr != nil {
		if st.failed {
			env.count("streams-failed")
		}
		return
	}
	if len(p.vals) > 0 && !st.sequenced {
		env.fail("update", "%sthe stream for %q ends without an error, but the values were not inserted (submitted=%v)", st.name, p.label, st.submitted)
	}
	if st.sequenced && !st.ownSeen {
		env.fail("update", "%sthe stream for %q ends without a response for the values that were inserted in entry %d", st.name, p.label, st.pos)
	}
	if st.count > 0 {
		if g := r.greatestAt(p.label, st.n-1); st.next != g+1 {
			env.fail("update", "%sthe stream for %q ends at version %d, the tree of size %d has %d", st.name, p.label, st.next-1, st.n, g)
		}
	} else if st.n0 > 0 {
		if g := r.greatestAt(p.label, st.n0-1); st.next < g+1 {
			env.fail("update", "%sthe stream for %q is empty, but version %d was there before", st.name, p.label, g)
		}
	}
	env.add("stream-responses", int64(st.count))
	if st.ownSeen {
		env.count("streams-own")
	}
}
