package main

import (
	"bytes"
	"math/rand/v2"
	"slices"
	"time"

	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/syndtr/goleveldb/leveldb/opt"
)

// The storage workload: the server's disk fails and the server crashes while it
// changes the log. Afterwards, the log has to be exactly what was acknowledged,
// possibly with the one change that was in progress.

func genStorage(weights map[string]int, modes []int64) func(*rand.Rand, *Plan, string) {
	return func(rng *rand.Rand, plan *Plan, tier string) {
		genConfig(rng, plan, modes)
		plan.Cfg["store"] = 0
		plan.Cfg["clients"] = 1 + rng.Int64N(2)
		plan.Cfg["wbuf"] = []int64{0, 0, 16000, 24000, 50000}[rng.IntN(5)]
		n := 12 + rng.IntN(40)
		if tier == "thorough" {
			n += rng.IntN(80)
		}
		if s := plan.Cfg["suite"]; s == 1 || s == 2 {
			n = 12
		}
		ws := make(map[string]int)
		for _, k := range sortedKeys(weights) {
			ws[k] = weights[k]
			switch rng.IntN(5) {
			case 0:
				ws[k] *= 4
			case 1:
				ws[k] /= 3
			}
		}
		gap := []int64{200, 1000, 5000}[rng.IntN(3)]
		plan.Ops = append(plan.Ops, Op{K: "mut", A: 1 + rng.Int64N(4), S: rng.Uint64()})
		for i := 0; i < n; i++ {
			op := Op{K: pick(rng, ws), A: rng.Int64N(16), B: rng.Int64N(16), S: rng.Uint64()}
			switch op.K {
			case "crash":
				// Position of the crash. A commit takes two operations on the disk (write
				// and sync), unless the database is reorganised at the same time.
				op.A = rng.Int64N(4)
				if rng.IntN(3) == 0 {
					op.A = rng.Int64N(40)
				}
				op.C = rng.Int64N(8)
			case "eio":
				op.A = rng.Int64N(4)
				if rng.IntN(3) == 0 {
					op.A = rng.Int64N(30)
				}
				op.B = []int64{1, 1, 1, 2, 5, 1000}[rng.IntN(6)]
				op.C = rng.Int64N(4)
			case "rfail":
				op.A = rng.Int64N(30)
				op.B = []int64{1, 1, 2, 100}[rng.IntN(4)]
			case "search":
				op.C = rng.Int64N(4)
			}
			plan.Ops = append(plan.Ops, Op{K: "adv", A: rng.Int64N(gap)}, op)
		}
	}
}

type storageRun struct {
	*honest
	doubts []*attempt // Failed mutations that may have reached the disk.
	heads  []*structs.AuditorTreeHead
	armed  bool // A fault is armed.
	broken bool // The open database has failed before.
	audits bool
}

func runStorage(env *Env) {
	if b := env.plan.Cfg["wbuf"]; b > 0 {
		wb, ts, tot := opt.DefaultWriteBuffer, opt.DefaultCompactionTableSize, opt.DefaultCompactionTotalSize
		opt.DefaultWriteBuffer, opt.DefaultCompactionTableSize, opt.DefaultCompactionTotalSize = int(b), int(b)*2, int(b)*8
		defer func() {
			opt.DefaultWriteBuffer, opt.DefaultCompactionTableSize, opt.DefaultCompactionTotalSize = wb, ts, tot
		}()
	}
	s := &storageRun{honest: newHonest(env)}
	s.w.faulty = func(a *attempt, err error) bool {
		d := s.w.disk
		if d.failAt >= 0 && d.ops > d.failAt {
			s.broken = true
		}
		switch {
		case s.w.key.hit:
			return true // Nothing was written.
		case s.broken || d.crashed:
		case s.w.flt.hit:
			return true // Nothing was written.
		default:
			return false
		}
		s.doubts = append(s.doubts, a)
		s.broken = true
		return true
	}
	for _, op := range env.plan.Ops {
		s.storageStep(op)
	}
	s.recover(true, env.rng)
	s.deep()
	for _, c := range s.cs {
		s.roundTrips(c)
	}
}

func (s *storageRun) storageStep(op Op) {
	env, w := s.env, s.w
	rng := newRand(op.S)
	d := w.disk
	s.w.resync()
	switch op.K {
	case "mut":
		s.mutate(rng, int(op.A)%6)
		s.audit(rng)
	case "beat":
		w.mutate(nil, nil)
		s.audit(rng)
	case "remove":
		s.storageRemove(op.B)
		s.audit(rng)
	case "badmut":
		// Rejected without any fault.
		switch rng.IntN(4) {
		case 0, 1:
			s.refused(rng)
			return
		}
		before := nowMs()
		if w.ref.n() > 0 && w.ref.ts[w.ref.ix(w.ref.n()-1)] > 0 {
			back := int64(before) - int64(w.ref.ts[w.ref.ix(w.ref.n()-1)]) + 1 + rng.Int64N(5000)
			w.skew = time.Duration(-back * 1e6)
			s.mutate(rng, 1+rng.IntN(3))
			w.skew = 0
			env.count("fault:clock-back")
		}
	case "crash":
		d.crashAt, d.tearCrash = d.ops+int(op.A), rng.IntN(2) == 0
		s.armed = true
		s.change(op, rng)
		s.recover(op.B%3 > 0, rng)
	case "eio":
		d.failAt, d.failFor, d.failErr, d.shortFail = d.ops+int(op.A), int(op.B), errIO, rng.IntN(2) == 0
		if op.C%2 == 0 {
			d.failErr = errNoSpace
		}
		s.armed = true
		s.change(op, rng)
		s.armed = false
		if d.ops > d.failAt {
			s.broken = true // Anything may fail from now on.
		}
		d.failAt = -1
		// Until the server is restarted, everything is as it was.
		s.checkReaders(rng)
		for rng.IntN(2) == 0 {
			s.change(op, rng)
			s.checkReaders(rng)
		}
		if rng.IntN(3) > 0 {
			s.recover(rng.IntN(3) > 0, rng)
		}
	case "rfail":
		f := w.flt
		f.reads, f.readAt, f.readFor, f.hit = 0, int(op.A), int(op.B), false
		s.armed = true
		s.mutate(rng, 1+rng.IntN(4))
		s.armed = false
		f.readAt, f.hit = -1, false
		s.w.resync()
		w.checkHead()
	case "sfail":
		// The signing key can not be used.
		w.key.fails, w.key.hit = 1+rng.IntN(2), false
		s.armed = true
		if rng.IntN(3) == 0 {
			s.storageRemove(op.B)
		} else {
			s.mutate(rng, 1+rng.IntN(4))
		}
		if w.key.hit {
			env.count("fault:signing-failed")
			s.w.resync()
			s.checkReaders(rng)
		}
		if w.key.fails > 0 {
			s.w.mutate(nil, nil)
		}
		w.key.fails, w.key.hit = 0, false
		s.armed = false
		s.w.resync()
		// What is stored next does not bring any of it along.
		if w.cfg.Mode == modeAudited && rng.IntN(2) == 0 && w.ref.n() > 0 && !w.auditLost && w.ref.collapse == 0 {
			s.publish()
			must(w.openTree())
			s.checkReaders(rng)
		}
		if rng.IntN(3) == 0 {
			s.recover(rng.IntN(2) == 0, rng)
		}
	case "restart":
		s.recover(op.B%2 == 0, rng)
	case "deep":
		s.deep()
	default:
		s.step(op)
	}
}

// refused requests changes that are in order together with one that is not.
func (s *storageRun) refused(rng *rand.Rand) {
	w := s.w
	var add []labelVal
	var remove []string
	for i := 1 + rng.IntN(3); i > 0; i-- {
		l := s.label(int64(rng.IntN(16)))
		if !s.owned[l] && !slices.ContainsFunc(add, func(v labelVal) bool { return string(v.Label) == l }) {
			add = append(add, w.signed(l, [][]byte{randVal(rng)}, w.ref.latest(l)+1)...)
		}
	}
	if rng.IntN(2) == 0 {
		now := uint64(time.Now().Add(w.skew - clockOffset).UnixMilli())
		for _, l := range s.labels {
			if !w.mayRemove(l, now) && (len(remove) == 0 || rng.IntN(2) == 0) {
				remove = append(remove, l)
			}
		}
	}
	if len(remove) == 0 {
		long := make([]byte, 256+rng.IntN(300))
		for i := range long {
			long[i] = byte(rng.Uint32())
		}
		add = slices.Insert(add, rng.IntN(len(add)+1), w.signed(string(long), [][]byte{randVal(rng)}, 0)...)
	}
	if w.mutate(add, remove) {
		s.env.fail("refused", "a change that can not be made was made")
	}
	s.env.count("fault:refused-change")
}

// audit is only possible while no output was lost.
func (s *storageRun) audit(rng *rand.Rand) {
	if s.w.auditLost || s.broken {
		return
	}
	s.maybeAudit(rng)
}

func (s *storageRun) storageRemove(b int64) {
	l := s.label(b)
	if s.w.cfg.Mode != modeManaged && !s.owned[l] && s.w.mutate(nil, []string{l}) {
		s.env.count("removals")
	}
}

// change is what a fault hits.
func (s *storageRun) change(op Op, rng *rand.Rand) {
	w := s.w
	switch {
	case op.C == 0:
		w.mutate(nil, nil)
	case op.C == 1 && w.cfg.Mode == modeAudited && w.ref.n() > 0 && !w.auditLost && w.ref.collapse == 0:
		s.publish()
	case op.C == 2:
		s.storageRemove(int64(rng.IntN(16)))
	case op.C == 3:
		// Several changes in a row.
		for i := 0; i < 3 && !w.disk.crashed; i++ {
			s.mutate(rng, 1+rng.IntN(2))
			s.w.resync()
		}
	default:
		s.mutate(rng, 1+rng.IntN(5))
	}
	s.w.resync()
}

// publish gives a new auditor tree head to the server, which may fail.
func (s *storageRun) publish() {
	w, env := s.w, s.env
	w.audit(false)
	head, err := w.aud.Commit()
	must(err)
	raw := marshal(head)
	must(w.tx.inner.PutAuditorTreeHead(raw))
	if err := w.tx.inner.Commit(); err != nil {
		if d := w.disk; !s.broken && !d.crashed && !(d.failAt >= 0 && d.ops > d.failAt) {
			env.fail("publish", "storing an auditor tree head fails without a reason: %v", err)
		}
		env.count("failed-publications")
		s.broken = true
		cp := *head
		s.heads = append(s.heads, &cp)
		return
	}
	cp := *head
	w.audHead = &cp
}

// recoverHead finds out which auditor tree head the server has after a crash.
func (s *storageRun) recoverHead() {
	w, env := s.w, s.env
	_, raw, err := w.tx.inner.GetTreeHead()
	must(err)
	var want []byte
	if w.audHead != nil {
		want = marshal(w.audHead)
	}
	if !bytes.Equal(raw, want) {
		found := false
		for _, h := range s.heads {
			if bytes.Equal(raw, marshal(h)) {
				w.audHead, found = h, true
				env.count("in-doubt-head-survived")
				break
			}
		}
		if !found {
			env.fail("durability", "after a crash, the auditor tree head is %x instead of %x", raw, want)
		}
	}
	s.heads = nil
	if w.cfg.Mode == modeAudited {
		must(w.openAuditor())
	}
}

// checkReaders verifies that the server answers from the state before the
// failure.
func (s *storageRun) checkReaders(rng *rand.Rand) {
	w := s.w
	w.checkHead()
	if w.disk.crashed {
		return
	}
	c := newSimClient(w, 1000+rng.IntN(1000))
	c.roundTrip("search", s.label(int64(rng.IntN(16))), -1, nil)
}

// deep has a new client verify every version of every label.
func (s *storageRun) deep() {
	w := s.w
	c := newSimClient(w, 999)
	for _, l := range append(append([]string(nil), s.labels...), "never used") {
		if w.ref.deleted(l) {
			continue
		}
		c.roundTrip("search", l, -1, nil)
		for v := 0; v <= w.ref.latest(l)+1; v++ {
			c.roundTrip("search", l, v, nil)
		}
	}
	s.env.count("deep-checks")
}

// roundTrips verifies that a client that knows the log from before is served.
func (s *storageRun) roundTrips(c *simClient) {
	c.roundTrip("search", s.labels[0], -1, nil)
	for i := 0; i < 3; i++ {
		if c.roundTrip("monitor", "", -1, nil) == nil {
			break
		}
	}
}

// recover restarts the server. If power is true, everything that was not synced
// may be lost. The server may crash again while it starts.
func (s *storageRun) recover(power bool, rng *rand.Rand) {
	env, w := s.env, s.w
	s.armed = false
	crashes := rng.IntN(3)
	for i := 0; ; i++ {
		w.disk.crashed = true
		closeDBs()
		w.disk.restart(power, rng)
		env.count("fault:server-restart")
		if i < crashes {
			w.disk.crashAt, w.disk.tearCrash = w.disk.ops+rng.IntN(12), rng.IntN(2) == 0
		}
		inner, err := db.NewLDBTransparencyStore(w.path)
		if err != nil {
			if !w.disk.crashed {
				env.fail("recovery", "the database can not be opened after a crash: %v", err)
			}
			env.count("fault:crash-in-recovery")
			continue
		}
		w.tx = &store{w: w, inner: inner}
		err = w.openTree()
		if err != nil {
			if !w.disk.crashed {
				env.fail("recovery", "the log can not be opened after a crash: %v", err)
			}
			continue
		}
		if !w.disk.crashed {
			w.disk.crashAt = -1
			break
		}
	}
	s.broken = false
	n := w.ref.n()
	th := w.tree.TreeHead()
	size := uint64(0)
	if th != nil {
		size = th.TreeSize
	}
	env.logf("restarted with size %d, acknowledged %d, %d in doubt", size, n, len(s.doubts))
	if size == n+1 && len(s.doubts) > 0 {
		why := ""
		found := false
		for _, a := range s.doubts {
			if len(a.vers) < countNew(a) {
				continue // It failed before it was complete.
			}
			saved := w.ref
			w.ref = saved.clone()
			log := len(w.audLog)
			upd := w.recommit(a)
			w.tree = nil
			if err := w.openTree(); err != nil {
				env.fail("recovery", "the log can not be opened: %v", err)
			}
			w.applyModel(a.add, a.remove, upd, a.now)
			if why = w.verifyHead(th); why == "" {
				found = true
				w.auditLost = true
				env.count("in-doubt-survived")
				w.checkHead()
				break
			}
			w.ref, w.audLog = saved, w.audLog[:log]
		}
		if !found {
			env.fail("atomicity", "after a crash, the log has size %d and is none of the %d logs that it could be: %s", size, len(s.doubts), why)
		}
	} else if size != n {
		env.fail("durability", "after a crash, the log has size %d although size %d was acknowledged", size, n)
	} else {
		w.checkHead()
		if len(s.doubts) > 0 {
			env.count("in-doubt-lost")
		}
	}
	s.doubts = nil
	s.w.resync()
	s.recoverHead()
	c := s.cs[rng.IntN(len(s.cs))]
	s.roundTrips(c)
	env.count("decided")
}

func countNew(a *attempt) int { return len(a.add) }
