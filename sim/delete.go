package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"slices"
	"time"

	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

// The deletion workload: labels are deleted, alone, with others, and together
// with new versions of themselves, and come back. Fresh clients search for them,
// other clients go on with other labels.

// A secret is what must be gone together with a version.
type secret struct {
	label   string
	ver     int
	val     []byte
	opening []byte
}

type deletion struct {
	*honest
	secrets map[string]*secret // By commitment.
	gone    []*secret
	old     []oldReader
	nextVal uint64
}

// An oldReader is a server instance that was started a while ago.
type oldReader struct {
	tree    *transparency.Tree
	n       uint64
	audHead *structs.AuditorTreeHead
}

func genDelete(weights map[string]int, modes []int64) func(*rand.Rand, *Plan, string) {
	return func(rng *rand.Rand, plan *Plan, tier string) {
		genConfig(rng, plan, modes)
		c := plan.Cfg
		delete(c, "audstart")
		c["labels"] = 1 + rng.Int64N(5)
		c["rmw"] = []int64{500, 2_000, 5_000, 10_000}[rng.IntN(4)]
		if _, ok := c["life"]; ok {
			c["life"] = c["rmw"] + 1 + rng.Int64N(c["rmw"]*6)
		}
		c["behind"] = 600_000
		n := 30 + rng.IntN(70)
		if s := c["suite"]; s == 1 || s == 2 {
			n = 25
		} else if tier == "thorough" && rng.IntN(4) == 0 {
			n *= 3
		}
		gap := c["rmw"] * []int64{1, 1, 2, 5}[rng.IntN(4)] / 3
		for i := 0; i < n; i++ {
			op := Op{K: pick(rng, weights), A: rng.Int64N(16), B: rng.Int64N(16), C: rng.Int64N(4), S: rng.Uint64()}
			if op.K == "adv" {
				op.A = rng.Int64N(gap)
			}
			plan.Ops = append(plan.Ops, op)
			if op.K == "change" || op.K == "beat" {
				plan.Ops = append(plan.Ops, Op{K: "adv", A: rng.Int64N(gap)})
			}
		}
	}
}

func runDelete(env *Env) {
	d := &deletion{honest: newHonest(env), secrets: make(map[string]*secret)}
	d.w.reuse = true
	for _, op := range env.plan.Ops {
		d.step(op)
	}
	d.erased()
	d.comeBack()
}

func (d *deletion) step(op Op) {
	env, w := d.env, d.w
	rng := newRand(op.S)
	switch op.K {
	case "change":
		d.change(rng)
		d.maybeAudit(rng)
	case "beat":
		w.mutate(nil, nil)
		d.maybeAudit(rng)
	case "fresh":
		d.fresh(rng)
	case "old":
		if rng.IntN(2) == 0 && len(d.old) > 0 {
			d.ask(rng, &d.old[rng.IntN(len(d.old))])
			return
		}
		tree, err := w.reader(true) // It has to stay as it is.
		must(err)
		if len(d.old) == 3 {
			d.old = d.old[1:]
		}
		d.old = append(d.old, oldReader{tree, w.ref.n(), w.audHead})
	case "search", "mon", "own", "upd":
		if w.cfg.Mode == modeManaged && (op.K == "own" || op.K == "upd") {
			return // The operator's counter does not follow deletions.
		}
		if op.K == "upd" && rng.IntN(3) == 0 {
			return
		}
		before := w.ref.n()
		d.honest.step(op)
		if w.ref.n() != before {
			d.learn(nil)
		}
	case "crash":
		d.old = nil
		d.crashServer(op.B%2 == 0, rng)
		d.erased()
	case "erased":
		d.erased()
	case "adv", "skip":
		d.honest.step(op)
	default:
		harnessFail("unknown step %q", op.K)
	}
	_ = env
}

// value makes a value that does not occur anywhere else.
func (d *deletion) value(rng *rand.Rand) []byte {
	d.nextVal++
	return fmt.Appendf(nil, "value %d %016x", d.nextVal, rng.Uint64())
}

// change makes one log entry.
func (d *deletion) change(rng *rand.Rand) {
	w, r := d.w, d.w.ref
	var remove []string
	if rng.IntN(2) == 0 {
		for range 1 + rng.IntN(3) {
			l := d.label(rng.Int64N(16))
			if rng.IntN(10) == 0 {
				l = "unknown"
			}
			if !w.mayRemove(l, uint64(time.Now().UnixMilli())) && rng.IntN(4) > 0 {
				continue
			}
			remove = append(remove, l)
		}
	}
	var add []labelVal
	next := make(map[string]int)
	for range rng.IntN(5) {
		l := d.label(rng.Int64N(16))
		if len(remove) > 0 && rng.IntN(2) == 0 {
			l = remove[rng.IntN(len(remove))]
		}
		if slices.Contains(remove, l) && rng.IntN(3) == 0 {
			continue
		}
		if _, ok := next[l]; !ok {
			next[l] = r.latest(l) + 1
			if slices.Contains(remove, l) {
				next[l] = 0
			}
		}
		for range 1 + rng.IntN(2) {
			add = append(add, w.signed(l, [][]byte{d.value(rng)}, next[l])...)
			next[l]++
		}
	}
	if !w.mutate(add, remove) {
		return
	}
	if len(remove) > 0 {
		d.env.count("deletions")
		for _, l := range remove {
			if next[l] > 0 {
				d.env.count("deleted-and-created")
			}
		}
	}
	d.learn(remove)
}

// learn takes note of what was stored, and of what has to be gone.
func (d *deletion) learn(remove []string) {
	w, r := d.w, d.w.ref
	for com, s := range d.secrets {
		vs := r.live[s.label]
		if s.ver >= len(vs) || string(vs[s.ver].com) != com {
			d.gone = append(d.gone, s)
			delete(d.secrets, com)
		}
	}
	slices.SortFunc(d.gone, func(a, b *secret) int { return bytes.Compare(a.opening, b.opening) })
	for l, vs := range r.live {
		for ver, v := range vs {
			if d.secrets[string(v.com)] != nil {
				continue
			}
			raw, err := w.tx.inner.GetVersion([]byte(l), uint32(ver))
			must(err)
			size := w.pub.Suite.CommitmentOpeningSize()
			if len(raw) < size {
				d.env.fail("not-stored", "version %d of %q is not stored", ver, l)
			}
			d.secrets[string(v.com)] = &secret{l, ver, v.val, bytes.Clone(raw[:size])}
		}
	}
}

// leaks looks for what should be gone.
func (d *deletion) leaks(what string, data []byte) {
	for _, s := range d.gone {
		if bytes.Contains(data, s.opening) {
			d.env.fail("leak", "%s contains the opening of version %d of %q, which was deleted", what, s.ver, s.label)
		}
		if len(s.val) > 8 && bytes.Contains(data, s.val) {
			d.env.fail("leak", "%s contains the value of version %d of %q, which was deleted", what, s.ver, s.label)
		}
	}
}

// erased checks what the store knows about labels.
func (d *deletion) erased() {
	env, w, r := d.env, d.w, d.w.ref
	for _, l := range append(slices.Clone(d.labels), "unknown") {
		idx, err := w.tx.inner.BatchGetIndex([][]byte{[]byte(l)})
		must(err)
		vs := r.live[l]
		if len(vs) == 0 && idx[0] != nil {
			env.fail("not-erased", "label %q was deleted, but there still is an index", l)
		} else if len(vs) > 0 && idx[0] == nil {
			env.fail("erased-other", "label %q has no index anymore", l)
		}
		size := w.pub.Suite.CommitmentOpeningSize()
		for ver := range len(vs) + len(r.past[l]) + 3 {
			raw, err := w.tx.inner.GetVersion([]byte(l), uint32(ver))
			must(err)
			if ver >= len(vs) {
				if raw != nil {
					env.fail("not-erased", "version %d of %q does not exist anymore, but is still stored", ver, l)
				}
				continue
			}
			if len(raw) < size || !bytes.Contains(raw[size:], vs[ver].val) {
				env.fail("erased-other", "version %d of %q is not stored anymore", ver, l)
			}
			d.leaks("the store", raw)
		}
	}
	env.count("store-checks")
}

// fresh has a client that knows nothing about any label search for one.
func (d *deletion) fresh(rng *rand.Rand) { d.ask(rng, nil) }

func (d *deletion) ask(rng *rand.Rand, old *oldReader) {
	w, r := d.w, d.w.ref
	n := r.n()
	if old != nil {
		n = old.n
	}
	c := newSimClient(w, 100)
	if n > 0 && rng.IntN(3) > 0 {
		m := 1 + rng.Uint64N(n)
		if rng.IntN(3) == 0 {
			m = n
		}
		c.size = m
		c.st.state = marshal(w.stateAt(m, rng))
	}
	for range 1 + rng.IntN(3) {
		l := d.label(rng.Int64N(16))
		ver := -1
		if rng.IntN(2) == 0 {
			ver = rng.IntN(r.latest(l) + 4)
		}
		p := c.begin("search", l, ver, nil)
		if old != nil {
			p.expectAt(old.n, old.audHead)
			w.sticky = old.tree
			p.answer()
			w.sticky = nil
			d.env.count("old-instance")
		} else {
			p.serve()
		}
		d.leaks("a response", p.rp.raw)
		p.deliver()
	}
}

// comeBack ends a run: after a while, everybody can search for every label again.
func (d *deletion) comeBack() {
	env, w, r := d.env, d.w, d.w.ref
	if w.cfg.Mode == modeAudited && r.collapse > 0 {
		return
	}
	for range 3 {
		time.Sleep(time.Duration(w.cfg.ReasonableMonitoringWindow+1) * time.Millisecond)
		w.mutate(nil, nil)
		if w.cfg.Mode == modeAudited {
			w.audit(true)
		}
	}
	for _, l := range d.labels {
		c := newSimClient(w, 101)
		p := c.roundTrip("search", l, -1, nil)
		if p.exp.never || p.exp.maybe {
			env.fail("not-back", "nobody can search for %q, although its deletion was a while ago", l)
		}
		if r.deleted(l) {
			env.count("came-back")
		}
	}
}
