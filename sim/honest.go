package main

import (
	"math/bits"
	"math/rand/v2"
	"slices"
	"time"
)

// The honest workload: many clients use a server that does nothing wrong, over
// a network that delays, reorders and loses messages, while the server and the
// clients are restarted.

func pick(rng *rand.Rand, weights map[string]int) string {
	total := 0
	keys := sortedKeys(weights)
	for _, k := range keys {
		total += weights[k]
	}
	x := rng.IntN(total)
	for _, k := range keys {
		if x < weights[k] {
			return k
		}
		x -= weights[k]
	}
	return ""
}

// genConfig chooses a deployment.
func genConfig(rng *rand.Rand, plan *Plan, modes []int64) {
	c := plan.Cfg
	c["mode"] = modes[rng.IntN(len(modes))]
	c["suite"] = 0
	switch rng.IntN(40) {
	case 0:
		c["suite"] = 1
	case 1:
		c["suite"] = 2
	case 2, 3, 4, 5, 6, 7, 8, 9:
		c["suite"] = 3
	}
	if rng.IntN(4) == 0 {
		c["store"] = 1
	}
	c["rmw"] = []int64{2_000, 5_000, 10_000, 30_000, 100_000}[rng.IntN(5)]
	if rng.IntN(3) == 0 {
		c["life"] = c["rmw"] + 1 + rng.Int64N(c["rmw"]*4)
	}
	if rng.IntN(3) == 0 {
		c["ahead"] = 500 + rng.Int64N(5000)
	}
	if rng.IntN(4) == 0 && c["mode"] != modeManaged { // The operator counts refused updates.
		c["behind"] = 10_000 + rng.Int64N(100_000)
	}
	if c["mode"] == modeAudited {
		if rng.IntN(2) == 0 {
			c["lag"] = 1000 + rng.Int64N(20_000)
		}
		if rng.IntN(6) == 0 {
			c["audstart"] = 1 + rng.Int64N(4)
		}
	}
	c["clients"] = 1 + rng.Int64N(4)
	c["labels"] = 1 + rng.Int64N(8)
}

func genHonest(weights map[string]int, modes []int64) func(*rand.Rand, *Plan, string) {
	return func(rng *rand.Rand, plan *Plan, tier string) {
		genConfig(rng, plan, modes)
		n := 30 + rng.IntN(90)
		if tier == "thorough" && rng.IntN(4) == 0 {
			n *= 3
		}
		if s := plan.Cfg["suite"]; s == 1 || s == 2 {
			n = 25
		}
		plan.Ops = append(plan.Ops, Op{K: "mut", A: 1 + rng.Int64N(6), S: rng.Uint64()})
		// Some runs have their own mix of operations.
		ws := make(map[string]int)
		for _, k := range sortedKeys(weights) {
			ws[k] = weights[k]
			switch rng.IntN(6) {
			case 0:
				ws[k] *= 4
			case 1:
				ws[k] /= 3
			}
		}
		ws["mut"]++
		gap := []int64{200, 1000, 3000, 9000}[rng.IntN(4)]
		for i := 0; i < n; i++ {
			op := Op{K: pick(rng, ws), A: rng.Int64N(16), B: rng.Int64N(16), S: rng.Uint64()}
			switch op.K {
			case "adv":
				op.A = rng.Int64N(gap)
				if rng.IntN(12) == 0 {
					op.A = rng.Int64N(plan.Cfg["rmw"] * 3)
				}
			case "mut":
				op.A = rng.Int64N(5)
				if rng.IntN(10) == 0 {
					op.A = 5 + rng.Int64N(12)
				}
			case "search":
				op.C = rng.Int64N(4)
			}
			plan.Ops = append(plan.Ops, op)
			if op.K == "mut" || op.K == "beat" {
				plan.Ops = append(plan.Ops, Op{K: "adv", A: rng.Int64N(gap)})
			}
		}
	}
}

type honest struct {
	env     *Env
	w       *World
	cs      []*simClient
	flight  []*pending
	labels  []string
	owned   map[string]bool
	removed map[string]bool
	hs      *hostileState
}

func newHonest(env *Env) *honest {
	h := &honest{env: env, w: newWorld(env), owned: make(map[string]bool), removed: make(map[string]bool)}
	for i := int64(0); i < env.plan.Cfg["clients"]; i++ {
		h.cs = append(h.cs, newSimClient(h.w, int(i)))
	}
	for i := int64(0); i < env.plan.Cfg["labels"]; i++ {
		h.labels = append(h.labels, labelName(i))
	}
	return h
}

func (h *honest) client(a int64) *simClient { return h.cs[int(a)%len(h.cs)] }
func (h *honest) label(b int64) string      { return h.labels[int(b)%len(h.labels)] }

func runHonest(env *Env) {
	h := newHonest(env)
	h.w.reuse = true
	for _, op := range env.plan.Ops {
		h.step(op)
	}
	h.settle()
}

func (h *honest) step(op Op) {
	env, w := h.env, h.w
	rng := newRand(op.S)
	switch op.K {
	case "adv":
		time.Sleep(time.Duration(op.A) * time.Millisecond)
	case "mut":
		h.mutate(rng, int(op.A))
		h.maybeAudit(rng)
	case "beat":
		w.mutate(nil, nil)
		h.maybeAudit(rng)
	case "many":
		h.many(rng, int(op.A))
	case "skip":
		if k := skipSize(rng, w.ref.n()); w.mayForward() && w.ref.n()+k < 1<<62 {
			w.forward(k)
		}
	case "search":
		h.send(h.client(op.A), rng, op, "search")
	case "mon":
		h.send(h.client(op.A), rng, op, "monitor")
	case "own":
		h.send(h.client(op.A), rng, op, "ownerinit")
	case "upd":
		h.send(h.client(op.A), rng, op, "update")
	case "deliver":
		h.deliver(int(op.A))
	case "drop":
		if len(h.flight) > 0 {
			i := int(op.A) % len(h.flight)
			h.flight = append(h.flight[:i], h.flight[i+1:]...)
			env.count("fault:message-lost")
		}
	case "crashserver":
		h.crashServer(op.B%2 == 0, rng)
	case "crashclient":
		c := h.client(op.A)
		var keep []*pending
		for _, p := range h.flight {
			if p.c != c {
				keep = append(keep, p)
			}
		}
		h.flight = keep
		c.inst = nil
		env.count("fault:client-restart")
	case "remove":
		h.remove(op.B)
	case "cskew":
		c := h.client(op.A)
		c.skew = h.skewFor(rng)
		env.count("fault:clock-of-client")
		if rng.IntN(2) == 0 {
			h.send(c, rng, op, []string{"search", "search", "monitor", "ownerinit"}[rng.IntN(4)])
			c.skew = 0
		}
	case "sskew":
		if w.cfg.Mode == modeManaged {
			return // The operator's counter does not follow rejected updates.
		}
		w.skew = h.skewFor(rng)
		env.count("fault:clock-of-server")
		if rng.IntN(2) == 0 {
			h.mutate(rng, 1)
			h.maybeAudit(rng)
		}
		if rng.IntN(4) > 0 {
			h.send(h.client(op.A), rng, op, []string{"search", "search", "monitor", "ownerinit"}[rng.IntN(4)])
			w.skew = 0
		}
	case "synth":
		h.synthetic(rng)
	default:
		harnessFail("unknown step %q", op.K)
	}
}

func (h *honest) remove(b int64) {
	l := h.label(b)
	// The service operator's version counters do not follow removals.
	if h.w.cfg.Mode == modeManaged || h.owned[l] {
		return
	}
	if h.w.mutate(nil, []string{l}) {
		h.env.count("removals")
	}
	h.maybeAudit(newRand(uint64(b)))
}

func (h *honest) mutate(rng *rand.Rand, n int) {
	w := h.w
	want := make(map[string][][]byte)
	var order []string
	for i := 0; i < n; i++ {
		l := h.label(rng.Int64N(16))
		if h.owned[l] && rng.IntN(8) > 0 {
			continue // Owned labels are mostly changed by their owners.
		}
		if _, ok := want[l]; !ok {
			order = append(order, l)
		}
		want[l] = append(want[l], randVal(rng))
	}
	var out []labelVal
	for _, l := range order {
		start := w.ref.latest(l) + 1
		if w.cfg.Mode == modeManaged {
			// Keep the operator's counter in step.
			prev, err := w.mls.inner.IncrementGreatestVersion([]byte(l), len(want[l]))
			must(err)
			if prev+1 != start {
				h.env.fail("managed-store", "the operator's greatest version of %q is %d, the log has %d", l, prev, start-1)
			}
		}
		out = append(out, w.signed(l, want[l], start)...)
	}
	rng.Shuffle(len(out), func(i, j int) {
		if string(out[i].Label) != string(out[j].Label) {
			out[i], out[j] = out[j], out[i]
		}
	})
	if w.cfg.Mode == modeManaged {
		// Shuffling may have changed the order within a label.
		cnt := make(map[string]int)
		for i := range out {
			l := string(out[i].Label)
			out[i].Value.Signature = w.leafSig(l, w.ref.latest(l)+1+cnt[l], out[i].Value.Value)
			cnt[l]++
		}
	}
	w.mutate(out, nil)
}

// many adds a lot of versions of one label at once.
func (h *honest) many(rng *rand.Rand, n int) {
	w := h.w
	if w.cfg.Mode == modeAudited {
		return // The change could not be encoded for the auditor.
	}
	if s := h.env.plan.Cfg["suite"]; s == 1 || s == 2 {
		n = 64
	}
	n += rng.IntN(min(n, 4000))
	l := h.label(rng.Int64N(16))
	if h.owned[l] || slices.ContainsFunc(h.flight, func(p *pending) bool { return p.label == l && p.kind != "search" }) {
		return
	}
	start := w.ref.latest(l) + 1
	if w.cfg.Mode == modeManaged {
		prev, err := w.mls.inner.IncrementGreatestVersion([]byte(l), n)
		must(err)
		if prev+1 != start {
			h.env.fail("managed-store", "the operator's greatest version of %q is %d, the log has %d", l, prev, start-1)
		}
	}
	vals := make([][]byte, n)
	for i := range vals {
		vals[i] = randVal(rng)
	}
	w.mutate(w.signed(l, vals, start), nil)
	h.env.count("labels-with-many-versions")
}

func (h *honest) maybeAudit(rng *rand.Rand) {
	w := h.w
	if w.cfg.Mode != modeAudited || w.ref.n() == 0 {
		return
	}
	if w.ref.collapse > 0 {
		// The auditor can not follow this log anymore, see the known findings.
		if w.audHead != nil && w.audHead.TreeSize >= w.ref.collapse-1 {
			h.env.count("audits-skipped")
			return
		}
	}
	if w.audHead == nil || rng.IntN(3) > 0 {
		if w.ref.collapse > 0 {
			h.env.count("audits-skipped")
			return
		}
		w.audit(true)
	}
}

// send makes a request. Most of them are answered and delivered at once.
func (h *honest) send(c *simClient, rng *rand.Rand, op Op, kind string) {
	env, w := h.env, h.w
	l := h.label(op.B)
	ver := -1
	var vals [][]byte
	switch kind {
	case "search":
		if op.C > 1 {
			ver = rng.IntN(w.ref.latest(l) + 3)
			if ver > 60 && rng.IntN(2) == 0 {
				ver = max(0, 1<<rng.IntN(bits.Len(uint(ver)))-rng.IntN(3)) // Where ladders change.
			}
			if rng.IntN(30) == 0 {
				ver = []int{254, 255, 256, 65535, 1 << 31, 1<<32 - 1, 1<<32 - 2}[rng.IntN(7)]
			}
		}
	case "update":
		for i := rng.IntN(4); i > 0; i-- {
			vals = append(vals, randVal(rng))
		}
		if c.own[l] == nil && rng.IntN(4) > 0 {
			for _, o := range sortedKeys(c.own) {
				l = o
			}
		}
		if w.ref.deleted(l) {
			return
		}
	case "ownerinit":
		if w.ref.deleted(l) {
			return
		}
	}
	p := c.begin(kind, l, ver, vals)
	if p == nil {
		return
	}
	if rng.IntN(20) == 0 {
		env.count("fault:message-lost")
		return // The request is lost.
	}
	if rng.IntN(12) == 0 {
		// The request takes a while; it is answered when it is delivered.
		h.flight = append(h.flight, p)
		env.count("fault:request-delayed")
		return
	}
	p.serve()
	if rng.IntN(6) == 0 {
		h.flight = append(h.flight, p)
		env.count("fault:response-delayed")
		return
	}
	h.finish(p)
}

func (h *honest) finish(p *pending) {
	if p.rp.raw == nil && p.rp.err == nil && p.rps == nil {
		p.serve()
	}
	p.deliver()
	if p.c.own[p.label] != nil {
		h.owned[p.label] = true
	}
}

func (h *honest) deliver(a int) {
	if len(h.flight) == 0 {
		return
	}
	i := a % len(h.flight)
	p := h.flight[i]
	h.flight = append(h.flight[:i], h.flight[i+1:]...)
	if i > 0 {
		h.env.count("fault:message-reordered")
	}
	h.finish(p)
}

func (h *honest) crashServer(power bool, rng *rand.Rand) {
	w := h.w
	if w.kind == 0 {
		closeDBs()
		w.disk.restart(power, rng)
		h.env.count("fault:server-restart")
	}
	w.openStore()
	must(w.openTree())
	w.checkHead()
	if w.cfg.Mode == modeAudited {
		must(w.openAuditor())
		if w.aud != nil && w.audHead != nil {
			// It continues with the last update that it has committed.
			w.audAt = int(w.ref.ix(w.audHead.TreeSize-1)) + 1
		} else {
			w.audAt = 0
		}
	}
}

// skewFor picks the error of a clock.
func (h *honest) skewFor(rng *rand.Rand) time.Duration {
	w, r := h.w, h.w.ref
	if r.n() == 0 {
		return 0
	}
	ahead, behind := int64(w.cfg.MaxAhead), int64(w.cfg.MaxBehind)
	to := int64(r.ts[r.ix(r.n()-1)]) - time.Now().UnixMilli()
	ms := int64(0)
	switch rng.IntN(5) {
	case 0:
		ms = to - ahead + rng.Int64N(3) - 1
	case 1:
		ms = to + behind + rng.Int64N(3) - 1
	case 2:
		ms = to + rng.Int64N(3) - 1
	case 3:
		ms = rng.Int64N(2*ahead+1) - ahead
	case 4:
		ms = rng.Int64N(20_001) - 10_000
	}
	return time.Duration(ms) * time.Millisecond
}

// settle ends the run: faults stop, and after a bounded number of further steps
// all clients have finished their monitoring.
func (h *honest) settle() {
	env, w := h.env, h.w
	w.skew = 0
	for _, c := range h.cs {
		c.skew = 0
	}
	if n := w.ref.n(); n > 0 {
		// Timestamps may be in the future.
		if d := int64(w.ref.ts[w.ref.ix(n-1)]) - time.Now().UnixMilli(); d > 0 {
			time.Sleep(time.Duration(d) * time.Millisecond)
		}
	}
	for len(h.flight) > 0 {
		h.deliver(0)
	}
	if w.ref.n() == 0 || w.cfg.Mode == modeAudited && w.ref.collapse > 0 {
		return
	}
	fresh := func() {
		w.mutate(nil, nil)
		if w.cfg.Mode == modeAudited {
			w.audit(true)
		}
	}
	// Enough entries and time for everything that is pending to become final.
	for i := 0; i < 2; i++ {
		time.Sleep(time.Duration(w.cfg.ReasonableMonitoringWindow+1) * time.Millisecond)
		fresh()
	}
	for _, c := range h.cs {
		if len(c.obl) == 0 && len(c.own) == 0 || c.size > 0 && c.auditorSize() < w.cfg.AuditorStartPos {
			continue
		}
		// Catch up with the log.
		c.roundTrip("search", "unknown label", -1, nil)
		for i := 0; ; i++ {
			if i > 60 {
				env.fail("liveness", "client %d still has labels to monitor after %d rounds: owes %v", c.id, i, c.obl)
			}
			before := c.progress()
			p := c.begin("monitor", "", -1, nil)
			if p == nil {
				break
			}
			p.serve()
			p.deliver()
			if p.exp.lax || c.own[p.label] != nil && c.own[p.label].greatest() != w.ref.latest(p.label) {
				// Its owner has to learn about other versions first.
				if c.progress() == before {
					if q := c.begin("update", p.label, -1, nil); q != nil && !p.exp.lax {
						q.serve()
						q.deliver()
						env.count("caught-up")
						continue
					}
					break
				}
			} else if c.progress() == before {
				env.fail("liveness", "client %d makes no progress in monitoring %q", c.id, p.label)
			}
		}
	}
	env.count("settled")
}
