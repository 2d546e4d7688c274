package main

import (
	"bytes"
	"math/rand/v2"
	"slices"
	"sort"
	"time"

	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency/auditor"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

// The auditor workload: an auditor is given updates by a log operator that lies
// about its changes: rules of the log are broken behind proofs that are right,
// and changes are in order behind proofs that are not. Meanwhile, the auditor is
// restarted and its storage fails.

func genAuditor(rng *rand.Rand, plan *Plan, tier string) {
	c := plan.Cfg
	c["mode"] = modeAudited
	c["suite"] = []int64{0, 0, 0, 3, 3, 3, 3, 1, 2}[rng.IntN(9)]
	if c["suite"] == 1 || c["suite"] == 2 {
		if rng.IntN(4) > 0 {
			c["suite"] = 0
		}
	}
	c["rmw"] = []int64{1, 2_000, 10_000, 30_000}[rng.IntN(4)]
	c["keys"] = 1 + rng.Int64N(40)
	c["collapse"] = int64(b2i(rng.IntN(25) == 0))
	n := 15 + rng.IntN(45)
	if tier == "thorough" && rng.IntN(3) == 0 {
		n *= 4
	}
	ws := map[string]int{"good": 30, "bad": 30, "mut": 12, "adv": 14, "commit": 6, "restart": 4, "putfail": 4, "keyfail": 3, "badstate": 1}
	gap := []int64{300, 2000, 9000}[rng.IntN(3)]
	for i := 0; i < n; i++ {
		op := Op{K: pick(rng, ws), A: rng.Int64N(32), B: rng.Int64N(16), S: rng.Uint64()}
		if op.K == "adv" {
			op.A = rng.Int64N(gap)
		}
		plan.Ops = append(plan.Ops, op)
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

type auditRun struct {
	env  *Env
	w    *World // Only its keys, configuration and model are used.
	st   *auditStore
	aud  *auditor.Auditor
	key  *flakyKey
	log  [][]byte // Accepted updates.
	keys [][]byte
	at   map[string]uint64 // Entry of the last insertion of a key.

	px   *prefix.Tree
	n    uint64 // Entries processed by the auditor.
	done uint64 // Entries that were committed.
	old  []map[string][]byte
}

func runAuditor(env *Env) {
	c := env.plan.Cfg
	ks := keysFor(c["suite"])
	conf := structs.Config{
		Suite: ks.suite, Mode: modeAudited, MaxAhead: 1000, MaxBehind: 1000,
		ReasonableMonitoringWindow: uint64(c["rmw"]), MaxAuditorLag: 1000, AuditorPublicKey: ks.auditor.Public(),
	}
	w := &World{env: env, ks: ks}
	w.cfg = structs.PrivateConfig{SignatureKey: ks.sig, VrfKey: ks.vrf, Config: conf}
	w.pub = w.cfg.Public()
	w.ref = newRef(uint64(c["rmw"]), 0)
	a := &auditRun{env: env, w: w, st: &auditStore{env: env, failAt: -1}, at: make(map[string]uint64)}
	a.key = &flakyKey{SigningPrivateKey: ks.auditor}
	a.px = prefix.NewTree(ks.suite, memory.NewPrefixStore())
	for i := 0; i < int(c["keys"]); i++ {
		k := w.vrfOf("key", i)
		if c["suite"] != 3 && env.rng.IntN(3) == 0 && len(a.keys) > 0 {
			// A close neighbour of another key.
			k = bytes.Clone(a.keys[env.rng.IntN(len(a.keys))])
			k[env.rng.IntN(31)] ^= 1 << env.rng.IntN(8) // A depth of 256 can not be encoded.
		}
		if !slices.ContainsFunc(a.keys, func(o []byte) bool { return bytes.Equal(o, k) }) {
			a.keys = append(a.keys, k)
		}
	}
	a.restart()
	for _, op := range env.plan.Ops {
		a.step(op)
	}
	// Whatever happened, the auditor follows an honest log.
	a.process(a.honest(env.rng, 2, false), true)
	a.commit()
	env.sig("s%d.r%d", c["suite"], c["rmw"])
}

func (a *auditRun) step(op Op) {
	env := a.env
	rng := newRand(op.S)
	switch op.K {
	case "adv":
		time.Sleep(time.Duration(op.A) * time.Millisecond)
	case "good":
		a.process(a.honest(rng, int(op.A)%8, op.B%3 == 0), true)
	case "bad":
		a.bad(rng, int(op.A))
	case "mut":
		a.mutant(rng)
	case "commit":
		a.commit()
	case "restart":
		env.count("fault:auditor-restart")
		a.restart()
	case "putfail":
		if a.n == a.done {
			return
		}
		a.st.failAt, a.st.stored = a.st.puts+1, rng.IntN(2) == 0
		head, err := a.aud.Commit()
		a.st.failAt = -1
		if err == nil {
			env.fail("auditor-commit", "the auditor publishes tree head %d although its state was not stored", head.TreeSize)
		}
		if rng.IntN(2) == 0 {
			env.count("fault:auditor-restart")
			a.restart()
		} else if rng.IntN(2) == 0 {
			a.commit()
		}
	case "skip":
		// Many entries go by in which nothing changes.
		r := a.w.ref
		if k := skipSize(rng, a.n); a.n > 0 && a.n == a.done && a.n+k < 1<<62 {
			r.skips = append(r.skips, skip{a.n, k})
			a.n += k
			a.done = a.n
			a.st.data = a.w.forwardAuditor(a.st.data)
			env.count("skips")
			a.restart()
		}
	case "keyfail":
		if a.n == a.done {
			return
		}
		a.key.fails = 1 + rng.IntN(2)
		before := bytes.Clone(a.st.data)
		for a.key.fails > 0 {
			if head, err := a.aud.Commit(); err == nil {
				env.fail("auditor-commit", "the auditor publishes tree head %d although it could not be signed", head.TreeSize)
			}
			env.count("fault:signing-failed")
			if !bytes.Equal(before, a.st.data) {
				env.fail("auditor-commit", "the auditor has stored a state with a tree head that could not be signed")
			}
			if rng.IntN(3) == 0 {
				a.process(a.honest(rng, int(op.A)%8, false), true)
			}
			if a.n == a.done {
				break // It has committed to show its root.
			}
		}
		a.key.fails = 0
		switch rng.IntN(3) {
		case 0:
			a.restart()
		case 1:
			a.commit()
		}
	case "badstate":
		// Its stored state is damaged. It may notice, and must not crash.
		raw := bytes.Clone(a.st.data)
		if len(raw) == 0 {
			return
		}
		if rng.IntN(2) == 0 {
			raw = raw[:rng.IntN(len(raw))]
		} else {
			raw[rng.IntN(len(raw))] ^= 1 << rng.IntN(8)
		}
		env.count("fault:damaged-state")
		auditor.NewAuditor(a.w.pub, a.w.ks.auditor, &auditStore{env: env, failAt: -1, data: raw})
	}
}

func (a *auditRun) commit() {
	env, w := a.env, a.w
	head, err := a.aud.Commit()
	if a.n == 0 {
		if err == nil {
			env.fail("auditor-commit", "the auditor signs a tree head although it has seen nothing")
		}
		return
	}
	if err != nil {
		env.fail("auditor-commit", "the auditor can not commit size %d: %v", a.n, err)
	}
	if head.TreeSize != a.n {
		env.fail("auditor-commit", "the auditor signs size %d after processing %d entries", head.TreeSize, a.n)
	}
	if why := w.verifyAuditorHead(head); why != "" {
		env.fail("auditor-head", "%s", why)
	}
	a.done = a.n
	env.count("commits")
	a.checkStored(a.n)
}

// checkStored verifies what the auditor has stored.
func (a *auditRun) checkStored(n uint64) {
	env, r := a.env, a.w.ref
	buf := bytes.NewBuffer(bytes.Clone(a.st.data))
	st, err := auditor.NewAuditorState(a.w.pub.Suite, buf)
	if err != nil || buf.Len() != 0 {
		env.fail("auditor-state", "the auditor has stored a state that can not be decoded: %v", err)
	}
	if st.TreeHead.TreeSize != n {
		env.fail("auditor-state", "the auditor has stored size %d instead of %d", st.TreeHead.TreeSize, n)
	}
	if why := a.w.verifyAuditorHead(&st.TreeHead); why != "" {
		env.fail("auditor-state", "stored: %s", why)
	}
	if !bytes.Equal(st.PrefixTree, r.roots[a.w.ref.ix(n-1)]) {
		env.fail("auditor-state", "the auditor has stored a wrong root of the prefix tree")
	}
}

// restart drops everything that is not stored, and hands out the updates since
// then again.
func (a *auditRun) restart() {
	env, w := a.env, a.w
	aud, err := auditor.NewAuditor(w.pub, a.key, a.st)
	if err != nil {
		env.fail("auditor-restart", "the auditor does not start from its own state: %v", err)
	}
	a.aud = aud
	at := uint64(0)
	if a.st.data != nil {
		st, err := auditor.NewAuditorState(w.pub.Suite, bytes.NewBuffer(bytes.Clone(a.st.data)))
		must(err)
		at = st.TreeHead.TreeSize
		if at > a.n || at < a.done {
			env.fail("auditor-restart", "the auditor restarts at size %d, it has published %d of %d", at, a.done, a.n)
		}
		a.checkStored(at)
		a.done = at
	} else if a.done > 0 {
		env.fail("auditor-restart", "the auditor lost its state")
	}
	next := 0
	if at > 0 {
		next = int(a.w.ref.ix(at-1)) + 1
	}
	for i := next; i < len(a.log); i++ {
		if err := a.aud.Process(a.decode(a.log[i])); err != nil {
			env.fail("auditor-replay", "the auditor rejects entry %d after a restart at size %d, which it accepted before: %v", i, at, err)
		}
	}
}

func (a *auditRun) decode(raw []byte) *structs.AuditorUpdate {
	buf := bytes.NewBuffer(raw)
	upd, err := structs.NewAuditorUpdate(a.w.pub.Suite, buf)
	if err != nil || buf.Len() != 0 {
		harnessFail("update can not be decoded: %v", err)
	}
	return upd
}

// illegal tells why the change may not be made to the log.
func (a *auditRun) illegal(u *structs.AuditorUpdate) string {
	r := a.w.ref
	n := r.n()
	if n > 0 && u.Timestamp < r.ts[len(r.ts)-1] {
		return "the timestamp goes back"
	}
	sorted := func(es []prefix.Entry) bool {
		for i := 1; i < len(es); i++ {
			if bytes.Compare(es[i-1].VrfOutput, es[i].VrfOutput) >= 0 {
				return false
			}
		}
		return true
	}
	if !sorted(u.Added) || !sorted(u.Removed) {
		return "a list is not in order"
	}
	r.ts = append(r.ts, u.Timestamp)
	prev := r.previousDLE(n + 1)
	r.ts = r.ts[:len(r.ts)-1]
	gone := make(map[string]bool)
	for _, e := range u.Removed {
		com, ok := r.leaves[string(e.VrfOutput)]
		if !ok {
			return "a leaf is removed that does not exist"
		} else if !bytes.Equal(com, e.Commitment) {
			return "a leaf is removed with a wrong commitment"
		} else if prev < 0 || int64(a.at[string(e.VrfOutput)]) > prev {
			return "a leaf is removed that was in no distinguished entry"
		}
		gone[string(e.VrfOutput)] = true
	}
	for _, e := range u.Added {
		if _, ok := r.leaves[string(e.VrfOutput)]; ok && !gone[string(e.VrfOutput)] {
			return "a leaf is added that exists"
		}
	}
	return ""
}

// process gives an update to the auditor. proven tells that its proof is the
// right one.
func (a *auditRun) process(u *structs.AuditorUpdate, proven bool) {
	env, r := a.env, a.w.ref
	raw := marshal(u)
	u = a.decode(raw)
	why := a.illegal(u)
	err := a.aud.Process(u)
	for _, e := range u.Added {
		env.debugf("+ %x", e.VrfOutput)
	}
	for _, e := range u.Removed {
		env.debugf("- %x", e.VrfOutput)
	}
	for _, x := range u.Proof.Results {
		env.debugf("%v %d", x.Inclusion(), x.Depth())
	}
	env.logf("update of %d: +%d -%d legal=%q proven=%v -> %v", r.n(), len(u.Added), len(u.Removed), why, proven, err)
	env.sig("%v%v%v", why == "", proven, err == nil)
	env.count("decided")
	if err != nil {
		env.count("rejected")
		if why == "" && proven {
			env.fail("auditor-rejects", "the auditor rejects a legal entry %d (+%d -%d): %v", r.n(), len(u.Added), len(u.Removed), err)
		}
		return
	}
	if why != "" {
		env.fail("auditor-accepts", "the auditor accepts entry %d although %s", r.n(), why)
	}
	env.count("accepted")
	before := make(map[string][]byte, len(r.leaves))
	for k, v := range r.leaves {
		before[k] = v
	}
	n := r.n()
	touched := make(map[string]bool)
	for _, e := range u.Removed {
		delete(r.leaves, string(e.VrfOutput))
		touched[string(e.VrfOutput)] = true
	}
	for _, e := range u.Added {
		r.leaves[string(e.VrfOutput)] = e.Commitment
		touched[string(e.VrfOutput)] = true
		a.at[string(e.VrfOutput)] = n
	}
	var rem [][]byte
	for _, e := range u.Removed {
		rem = append(rem, e.VrfOutput)
	}
	root, _, _, err := a.px.Mutate(uint64(len(a.log)), u.Added, rem)
	if err != nil {
		env.fail("prefix-tree", "a legal change of the prefix tree fails: %v", err)
	}
	r.ts = append(r.ts, u.Timestamp)
	r.roots = append(r.roots, refPrefixRoot(r.leaves))
	if !bytes.Equal(root, r.roots[len(r.roots)-1]) {
		env.fail("prefix-tree", "the root of the prefix tree is wrong after adding %d and removing %d entries", len(u.Added), len(u.Removed))
	}
	a.log = append(a.log, raw)
	a.n++
	cp := make(map[string][]byte, len(r.leaves))
	for k, v := range r.leaves {
		cp[k] = v
	}
	a.old = append(a.old, cp)
	env.count("entries")
	env.add("versions", int64(len(u.Added)))
	env.add("removals", int64(len(u.Removed)))
	if len(u.Removed) > 0 && refCollapses(before, r.leaves, touched) {
		// What the auditor takes for the new root shows in its next tree head.
		a.key.fails = 0
		head, err := a.aud.Commit()
		must(err)
		if why := a.w.verifyAuditorHead(head); why != "" {
			env.finding("removal-collapse", "%s", why)
		}
		a.done = a.n
	}
}

// proofIn is a proof for the keys in a version of the prefix tree.
func (a *auditRun) proofIn(ver uint64, keys [][]byte) *prefix.PrefixProof {
	if ver == 0 {
		// The empty tree.
		raw := []byte{byte(len(keys))}
		for range keys {
			raw = append(raw, 3, 0)
		}
		if len(keys) == 0 {
			raw = append(raw, 0, 1)
			raw = append(raw, make([]byte, 32)...)
		} else {
			raw = append(raw, 0, 0)
		}
		p, err := prefix.NewPrefixProof(a.w.pub.Suite, bytes.NewBuffer(raw))
		must(err)
		return p
	}
	out, err := a.px.Search([]prefix.PrefixSearch{{Version: ver, VrfOutputs: keys}})
	must(err)
	return &out[0].Proof
}

func updateKeys(u *structs.AuditorUpdate) [][]byte {
	var keys [][]byte
	for _, e := range u.Added {
		keys = append(keys, e.VrfOutput)
	}
	for _, e := range u.Removed {
		keys = append(keys, e.VrfOutput)
	}
	return keys
}

// prove adds the proof for the current version of the prefix tree.
func (a *auditRun) prove(u *structs.AuditorUpdate) *structs.AuditorUpdate {
	u.Proof = *a.proofIn(uint64(len(a.log)), updateKeys(u))
	return u
}

func sortEntries(es []prefix.Entry) {
	sort.Slice(es, func(i, j int) bool { return bytes.Compare(es[i].VrfOutput, es[j].VrfOutput) < 0 })
}

func randCom(rng *rand.Rand) []byte {
	out := make([]byte, 32)
	for i := range out {
		out[i] = byte(rng.Uint32())
	}
	return out
}

// pickKeys returns up to n different keys, present in the tree or not.
func (a *auditRun) pickKeys(rng *rand.Rand, n int, present bool) [][]byte {
	var out [][]byte
	for _, i := range rng.Perm(len(a.keys)) {
		_, ok := a.w.ref.leaves[string(a.keys[i])]
		if ok == present && len(out) < n {
			out = append(out, a.keys[i])
		}
	}
	return out
}

// now is the timestamp of the next entry.
func (a *auditRun) now() uint64 {
	now := nowMs()
	if n := a.w.ref.n(); n > 0 {
		now = max(now, a.w.ref.ts[len(a.w.ref.ts)-1])
	}
	return now
}

// honest returns a legal update.
func (a *auditRun) honest(rng *rand.Rand, n int, remove bool) *structs.AuditorUpdate {
	r := a.w.ref
	u := &structs.AuditorUpdate{Timestamp: a.now()}
	for _, k := range a.pickKeys(rng, n, false) {
		u.Added = append(u.Added, prefix.Entry{VrfOutput: k, Commitment: randCom(rng)})
	}
	if remove && r.n() > 0 {
		r.ts = append(r.ts, u.Timestamp)
		prev := r.previousDLE(r.n())
		r.ts = r.ts[:len(r.ts)-1]
		for _, k := range a.pickKeys(rng, 1+rng.IntN(5), true) {
			if prev < 0 || int64(a.at[string(k)]) > prev {
				continue
			}
			u.Removed = append(u.Removed, prefix.Entry{VrfOutput: k, Commitment: r.leaves[string(k)]})
			if rng.IntN(3) == 0 {
				u.Added = append(u.Added, prefix.Entry{VrfOutput: k, Commitment: randCom(rng)})
			}
		}
		if len(u.Removed) > 0 && a.env.plan.Cfg["collapse"] == 0 && a.collapses(u) {
			// Keep it simple: replace them all.
			have := make(map[string]bool)
			for _, e := range u.Added {
				have[string(e.VrfOutput)] = true
			}
			for _, e := range u.Removed {
				if !have[string(e.VrfOutput)] {
					u.Added = append(u.Added, prefix.Entry{VrfOutput: e.VrfOutput, Commitment: randCom(rng)})
				}
			}
		}
	}
	sortEntries(u.Added)
	sortEntries(u.Removed)
	return a.prove(u)
}

func (a *auditRun) collapses(u *structs.AuditorUpdate) bool {
	after := make(map[string][]byte)
	touched := make(map[string]bool)
	for k, v := range a.w.ref.leaves {
		after[k] = v
	}
	for _, e := range u.Removed {
		delete(after, string(e.VrfOutput))
		touched[string(e.VrfOutput)] = true
	}
	for _, e := range u.Added {
		after[string(e.VrfOutput)] = e.Commitment
		touched[string(e.VrfOutput)] = true
	}
	return refCollapses(a.w.ref.leaves, after, touched)
}

// bad gives a change to the auditor that is mostly not legal, with the best
// possible proof.
func (a *auditRun) bad(rng *rand.Rand, how int) {
	r, env := a.w.ref, a.env
	u := a.honest(rng, rng.IntN(5), rng.IntN(3) == 0)
	add := func(k []byte) { u.Added = append(u.Added, prefix.Entry{VrfOutput: k, Commitment: randCom(rng)}) }
	rem := func(k, com []byte) {
		u.Removed = append(u.Removed, prefix.Entry{VrfOutput: k, Commitment: com})
	}
	proven := true
	sorted := true
	kind := ""
	var forge func(p *prefix.PrefixProof)
	switch how % 12 {
	case 0:
		kind = "timestamp"
		if r.n() > 0 {
			u.Timestamp = r.ts[len(r.ts)-1] - 1 - rng.Uint64N(1000)
		}
	case 1, 2:
		kind = "add-existing"
		for _, k := range a.pickKeys(rng, 1+rng.IntN(2), true) {
			add(k)
		}
		if how%12 == 2 {
			kind = "add-existing-forged"
			forge = func(p *prefix.PrefixProof) { a.forge(rng, u, p) }
		}
	case 3, 4:
		kind = "remove-missing"
		for _, k := range a.pickKeys(rng, 1+rng.IntN(2), false) {
			rem(k, randCom(rng))
		}
		if how%12 == 4 {
			kind = "remove-missing-forged"
			forge = func(p *prefix.PrefixProof) { a.forge(rng, u, p) }
		}
	case 5:
		kind = "remove-wrong"
		for _, k := range a.pickKeys(rng, 1+rng.IntN(2), true) {
			rem(k, randCom(rng))
			if rng.IntN(2) == 0 {
				add(k)
			}
		}
	case 6, 7:
		kind = "remove-any" // Eligible or not.
		for _, k := range a.pickKeys(rng, 1+rng.IntN(4), true) {
			rem(k, r.leaves[string(k)])
			if rng.IntN(2) == 0 {
				add(k)
			}
		}
	case 8:
		kind = "order"
		sorted = false
		list := &u.Added
		if len(u.Removed) > 0 && rng.IntN(2) == 0 {
			list = &u.Removed
		}
		if len(*list) == 0 {
			add(a.keys[rng.IntN(len(a.keys))])
		}
		if rng.IntN(2) == 0 {
			e := (*list)[rng.IntN(len(*list))]
			if rng.IntN(2) == 0 {
				e.Commitment = randCom(rng)
			}
			*list = append(*list, e)
			sortEntries(*list)
		} else {
			rng.Shuffle(len(*list), func(i, j int) { (*list)[i], (*list)[j] = (*list)[j], (*list)[i] })
		}
	case 9:
		kind = "old-proof"
		proven = false
		if n := uint64(len(a.log)); n > 1 {
			forge = func(p *prefix.PrefixProof) { *p = *a.proofIn(1+rng.Uint64N(n-1), updateKeys(u)) }
		}
	case 10:
		kind = "lists"
		// The proof covers something else than the lists.
		proven = false
		if len(u.Added) > 0 && rng.IntN(2) == 0 {
			i := rng.IntN(len(u.Added))
			u.Added = append(u.Added[:i], u.Added[i+1:]...)
		} else if len(u.Removed) > 0 {
			i := rng.IntN(len(u.Removed))
			u.Removed = append(u.Removed[:i], u.Removed[i+1:]...)
		} else {
			add(a.keys[rng.IntN(len(a.keys))])
		}
		sortEntries(u.Added)
		a.count("bad-" + kind)
		if a.collapses(u) && env.plan.Cfg["collapse"] == 0 {
			return
		}
		a.process(u, proven)
		return
	case 11:
		kind = "moved"
		// Entries are declared to be of the other kind.
		u.Added, u.Removed = u.Removed, u.Added
	}
	if sorted {
		sortEntries(u.Added)
		sortEntries(u.Removed)
	}
	if len(u.Added)+len(u.Removed) > 255 {
		return
	}
	a.prove(u)
	if forge != nil {
		proven = false
		forge(&u.Proof)
	}
	if env.plan.Cfg["collapse"] == 0 && a.collapses(u) {
		return
	}
	a.count("bad-" + kind)
	a.process(u, proven)
}

func (a *auditRun) count(s string) { a.env.count("fault:" + s) }

// forge changes single results of a proof to what a liar needs.
func (a *auditRun) forge(rng *rand.Rand, u *structs.AuditorUpdate, p *prefix.PrefixProof) {
	cs := a.w.pub.Suite
	raw := func() []byte { b := &bytes.Buffer{}; p.Marshal(b); return b.Bytes() }()
	// Parse the results.
	type res struct {
		kind  byte
		leaf  []byte
		depth byte
	}
	var rs []res
	i := 1
	for k := 0; k < int(raw[0]); k++ {
		x := res{kind: raw[i]}
		i++
		if x.kind == 2 {
			x.leaf = raw[i : i+64]
			i += 64
		}
		x.depth = raw[i]
		i++
		rs = append(rs, x)
	}
	elems := raw[i+2:]
	keys := updateKeys(u)
	for k := range rs {
		_, present := a.w.ref.leaves[string(keys[k])]
		lie := k < len(u.Added) == present
		if !lie && rng.IntN(6) > 0 {
			continue
		}
		switch rng.IntN(5) {
		case 0: // Empty.
			rs[k].kind, rs[k].leaf = 3, nil
		case 1: // Some other leaf.
			rs[k].kind = 2
			o := a.keys[rng.IntN(len(a.keys))]
			if rng.IntN(3) == 0 {
				o = keys[k]
			}
			com := a.w.ref.leaves[string(o)]
			if com == nil {
				com = randCom(rng)
			}
			rs[k].leaf = append(bytes.Clone(o), com...)
		case 2:
			rs[k].kind, rs[k].leaf = 1, nil
		case 3: // Deeper or higher.
			rs[k].depth += byte(rng.IntN(5)) - 2
			rs[k].kind, rs[k].leaf = []byte{1, 3}[rng.IntN(2)], nil
		case 4: // The result of another key.
			rs[k] = rs[rng.IntN(len(rs))]
		}
	}
	if rng.IntN(3) == 0 && len(elems) > 0 {
		if rng.IntN(2) == 0 {
			elems = elems[32:]
		} else {
			elems = append(bytes.Clone(elems), elems[:32]...)
		}
	}
	out := []byte{byte(len(rs))}
	for _, x := range rs {
		out = append(out, x.kind)
		out = append(out, x.leaf...)
		out = append(out, x.depth)
	}
	cnt := len(elems) / 32
	out = append(out, byte(cnt>>8), byte(cnt))
	out = append(out, elems...)
	if q, err := prefix.NewPrefixProof(cs, bytes.NewBuffer(out)); err == nil {
		*p = *q
	}
}

// mutant changes the bytes of an encoded update.
func (a *auditRun) mutant(rng *rand.Rand) {
	u := a.honest(rng, rng.IntN(5), rng.IntN(3) == 0)
	raw := marshal(u)
	for i := 1 + rng.IntN(3); i > 0; i-- {
		raw = mutateBytes(rng, raw, a.log)
	}
	buf := bytes.NewBuffer(raw)
	v, err := structs.NewAuditorUpdate(a.w.pub.Suite, buf)
	a.count("changed-bytes")
	if err != nil {
		a.env.count("undecodable")
		return
	}
	if a.env.plan.Cfg["collapse"] == 0 && a.collapses(v) || a.twins(v) {
		return
	}
	a.process(v, false)
}

// twins tells whether an added key has all but the last bit in common with
// another one: a depth of 256 can not be encoded.
func (a *auditRun) twins(u *structs.AuditorUpdate) bool {
	all := updateKeys(u)
	all = append(all, a.keys...)
	for k := range a.w.ref.leaves {
		all = append(all, []byte(k))
	}
	for _, e := range u.Added {
		for _, k := range all {
			if n := len(k) - 1; bytes.Equal(k[:n], e.VrfOutput[:n]) && k[n]^e.VrfOutput[n] == 1 {
				return true
			}
		}
	}
	return false
}

// mutateBytes changes an encoding at random, possibly with parts of others.
func mutateBytes(rng *rand.Rand, raw []byte, others [][]byte) []byte {
	raw = bytes.Clone(raw)
	if len(raw) == 0 {
		return []byte{byte(rng.Uint32())}
	}
	i := rng.IntN(len(raw))
	if rng.IntN(4) == 0 {
		i = rng.IntN(min(len(raw), 24))
	}
	switch rng.IntN(9) {
	case 0:
		raw[i] ^= 1 << rng.IntN(8)
	case 1:
		raw[i] = []byte{0, 1, 2, 3, 127, 128, 255}[rng.IntN(7)]
	case 2:
		raw[i] += byte(rng.IntN(3)) - 1
	case 3:
		raw = append(raw[:i], raw[min(len(raw), i+1+rng.IntN(40)):]...)
	case 4:
		raw = slices.Insert(raw, i, randCom(rng)[:1+rng.IntN(32)]...)
	case 5:
		raw = raw[:i]
	case 6: // Copy a piece within.
		n := 1 + rng.IntN(70)
		j := rng.IntN(len(raw))
		copy(raw[i:], bytes.Clone(raw[j:min(len(raw), j+n)]))
	case 7: // Swap two hashes.
		if j := rng.IntN(len(raw)); i+32 <= len(raw) && j+32 <= len(raw) {
			x, y := bytes.Clone(raw[i:i+32]), bytes.Clone(raw[j:j+32])
			copy(raw[i:], y)
			copy(raw[j:], x)
		}
	case 8:
		if len(others) > 0 {
			o := others[rng.IntN(len(others))]
			if len(o) > 0 {
				j := rng.IntN(len(o))
				n := 1 + rng.IntN(100)
				copy(raw[i:], o[j:min(len(o), j+n)])
			}
		}
	}
	return raw
}
