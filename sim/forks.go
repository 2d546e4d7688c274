package main

import (
	"bytes"
	"context"
	"maps"
	"math/rand/v2"
	"testing/synctest"
	"time"

	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

// The fork workload: a service operator keeps several versions of its log, as
// after restoring an old backup or to show different things to different
// clients, and answers every request from any of them. A client may follow
// whichever extends the log that it has accepted, and nothing else.

// fork returns another world whose log has been the same up to now.
func (w *World) fork() *World {
	env := w.env
	synctest.Wait()
	out := *w
	worldCount++
	out.path = w.path + "x"
	for simDisks[out.path] != nil {
		out.path += "x"
	}
	out.disk = newSimDisk(env)
	out.disk.meta, out.disk.has = w.disk.meta, w.disk.has
	for fd, f := range w.disk.files {
		out.disk.files[fd] = &simFile{data: bytes.Clone(f.data), synced: f.synced, linked: f.linked}
	}
	path := out.path
	simDisks[path] = out.disk
	env.cleanup(func() { delete(simDisks, path) })
	env.cleanup(closeDBs)
	out.ref = w.ref.clone()
	if v := w.vast; v != nil {
		out.vast = &vast{v.end, maps.Clone(v.pending), maps.Clone(v.fresh)}
	}
	out.flt = &storeFaults{readAt: -1, writeAt: -1}
	out.audStore = &auditStore{env: env, failAt: -1, data: bytes.Clone(w.audStore.data)}
	out.audLog = append([]*structs.AuditorUpdate(nil), w.audLog...)
	out.mls = &managedStore{inner: memory.NewManagedLogStore(), failAt: -1}
	if w.cfg.Mode == modeManaged {
		for _, l := range w.ref.order {
			_, err := out.mls.inner.IncrementGreatestVersion([]byte(l), w.ref.latest(l)+1)
			must(err)
		}
	}
	out.openStore()
	must(out.openTree())
	if out.cfg.Mode == modeAudited {
		must(out.openAuditor())
		out.audAt = 0
		if out.audHead != nil {
			out.audAt = int(out.ref.ix(out.audHead.TreeSize-1)) + 1
		}
	}
	out.checkHead()
	env.count("fault:fork")
	return &out
}

// shared is the number of entries that two logs have in common.
func shared(a, b *Ref) uint64 {
	n := uint64(0)
	for n < a.n() && n < b.n() && a.ts[a.ix(n)] == b.ts[b.ix(n)] && bytes.Equal(a.roots[a.ix(n)], b.roots[b.ix(n)]) {
		n++
		// Entries that do not exist are the same in both.
		if k := min(a.rest(n), b.rest(n)); k > 0 {
			n += k
		}
	}
	return n
}

func genForks(rng *rand.Rand, plan *Plan, tier string) {
	genConfig(rng, plan, []int64{1, 1, 2, 3})
	plan.Cfg["store"] = 0
	n := 30 + rng.IntN(60)
	if tier == "thorough" && rng.IntN(4) == 0 {
		n *= 2
	}
	if s := plan.Cfg["suite"]; s == 1 || s == 2 {
		n = 25
	}
	ws := map[string]int{"adv": 8, "mut": 12, "beat": 6, "same": 4, "fork": 2, "ask": 40, "cross": 20}
	gap := []int64{200, 1000, 3000}[rng.IntN(3)]
	plan.Ops = append(plan.Ops, Op{K: "mut", A: 1 + rng.Int64N(6), S: rng.Uint64()})
	at := 2 + rng.IntN(15)
	for i := 0; i < n; i++ {
		op := Op{K: pick(rng, ws), A: rng.Int64N(16), B: rng.Int64N(16), C: rng.Int64N(16), S: rng.Uint64()}
		if i == at {
			op.K = "fork"
		}
		switch op.K {
		case "adv":
			op.A = rng.Int64N(gap)
			if rng.IntN(12) == 0 {
				op.A = rng.Int64N(plan.Cfg["rmw"] * 3)
			}
		case "mut":
			op.A = rng.Int64N(5)
		}
		plan.Ops = append(plan.Ops, op)
	}
}

type forks struct {
	*honest
	worlds []*World
}

func runForks(env *Env) {
	h := newHonest(env)
	h.hs = newHostileState()
	f := &forks{h, []*World{h.w}}
	for _, op := range env.plan.Ops {
		f.stepFork(op)
	}
}

func (f *forks) on(w *World, do func()) {
	old := f.w
	f.w = w
	defer func() { f.w = old }()
	do()
}

func (f *forks) stepFork(op Op) {
	rng := newRand(op.S)
	w := f.worlds[int(op.C)%len(f.worlds)]
	switch op.K {
	case "adv":
		time.Sleep(time.Duration(op.A) * time.Millisecond)
	case "mut":
		f.on(w, func() { f.mutate(rng, int(op.A)); f.maybeAudit(rng) })
	case "beat":
		f.on(w, func() { w.mutate(nil, nil); f.maybeAudit(rng) })
	case "skip":
		n := uint64(0)
		for _, o := range f.worlds {
			n = max(n, o.ref.n())
		}
		if k := skipSize(rng, n); n+k < 1<<62 {
			// In one log or in several.
			for _, o := range f.worlds {
				if (o == w || op.A%2 == 0) && o.mayForward() {
					o.forward(k)
				}
			}
		}
	case "same":
		// The same change in several logs.
		for _, o := range f.worlds {
			f.on(o, func() { r := newRand(op.S); f.mutate(r, 1+int(op.A)%2); f.maybeAudit(r) })
		}
	case "fork":
		if len(f.worlds) < 4 {
			f.worlds = append(f.worlds, w.fork())
		}
	case "ask":
		c := f.client(op.A)
		f.on(c.w, func() { f.askFrom(c, c.w, rng, op) })
	case "cross":
		c := f.client(op.A)
		f.on(c.w, func() { f.askFrom(c, w, rng, op) })
	default:
		harnessFail("unknown step %q", op.K)
	}
}

// askFrom has a client make a request that is answered from the given log.
func (f *forks) askFrom(c *simClient, b *World, rng *rand.Rand, op Op) {
	env, home := f.env, c.w
	if b.ref.n() == 0 {
		return
	}
	common := shared(home.ref, b.ref)
	l := f.label(op.B)
	kind := []string{"search", "search", "search", "monitor", "monitor", "ownerinit", "update"}[rng.IntN(7)]
	ver := -1
	var vals [][]byte
	switch kind {
	case "search":
		if rng.IntN(2) == 0 {
			ver = rng.IntN(max(home.ref.latest(l), b.ref.latest(l)) + 3)
		}
	case "update":
		own := sortedKeys(c.own)
		if len(own) == 0 {
			kind = "monitor"
			break
		}
		l = own[rng.IntN(len(own))]
		if rng.IntN(3) > 0 {
			vals = append(vals, randVal(rng))
		}
	case "ownerinit":
		if rng.IntN(3) > 0 {
			kind = "search"
		}
	}
	if c.size <= common {
		// This log extends what the client knows (or is shorter than that, which
		// the server notices).
		if b != home {
			env.count("moved")
		}
		c.w = b
		p := c.roundTrip(kind, l, ver, vals)
		if p != nil && p.rp.raw != nil {
			f.hs.keep(kind, p.rp.raw)
		}
		if c.own[l] != nil {
			f.owned[l] = true
		}
		return
	}
	// The victim is a copy, so that what it may accept does not have to be
	// tracked.
	if home.cfg.Mode == modeManaged {
		vals = nil // A refused update would use up versions of the operator.
	}
	c = c.clone()
	c.loose = true
	p := c.begin(kind, l, ver, vals)
	if p == nil {
		return
	}
	p.hostile, p.fork, p.worlds = true, true, f.worlds
	switch how := rng.IntN(6); {
	case how == 0 && kind == "search":
		// The other server pretends to know a different request.
		q := *p.sreq
		if rng.IntN(2) == 0 {
			q.Last = nil
		} else {
			q.Last = p64(1 + rng.Uint64N(b.ref.n()))
		}
		tree, err := b.reader(false)
		must(err)
		res, err := tree.Search(context.Background(), &q)
		p.rp = encodeReply(b, res, err)
		env.count("fault:fork-with-other-size")
	case how == 1 && kind != "update":
		// It signs the head of the client's log, or presents one of them.
		a, ad, err := home.tx.inner.GetTreeHead()
		must(err)
		b.flt.tamper = func(k, key string, val []byte) []byte {
			if k == "head" && rng.IntN(3) > 0 {
				return bytes.Clone(a)
			} else if k == "auditor" && rng.IntN(2) == 0 {
				return bytes.Clone(ad)
			}
			return val
		}
		env.count("fault:fork-with-other-head")
		p.answerOn(b)
	default:
		p.answerOn(b)
		env.count("fault:answer-from-fork")
	}
	if rng.IntN(3) == 0 {
		p.distort(f.honest, rng)
	}
	if p.rp.raw != nil {
		f.hs.keep(kind, p.rp.raw)
	}
	p.deliver()
}

func (p *pending) answerOn(b *World) {
	home := p.c.w
	p.c.w = b
	defer func() {
		p.c.w = home
		b.flt.tamper = nil
		if r := recover(); r != nil {
			switch r.(type) {
			case harnessError, stopRun:
				panic(r)
			}
			p.rp = reply{err: errServerDown}
			p.rps = []reply{{err: errServerDown}}
		}
	}()
	p.answer()
}
