package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand/v2"
	"reflect"
	"slices"
	"sort"
	"time"

	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/log"
	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/algorithms"
	tmath "github.com/Bren2010/katie/tree/transparency/math"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

// The rogue workload: the operator of the log is an adversary. It signs one log,
// but what the log says about a label may change in any way from entry to entry:
// versions are skipped, hidden, brought back and replaced. It answers requests
// with the best proofs that it can build. What clients accept is compared with
// what the log entries that they had to look at say.

// A fact is a value that the operator has committed to.
type fact struct {
	label   string
	ver     int
	opening []byte
	val     structs.UpdateValue
	signed  bool // By the service operator, in the managed mode.
}

type rogue struct {
	env *Env
	w   *World // Keys, configuration, timestamps and roots.
	tx  *memory.TransparencyStore
	cs  []*rclient

	labels []string
	snaps  []map[string]string // VRF output to commitment, for every log entry.
	facts  map[string]*fact    // By commitment.
	byVer  map[string][]string // Commitments of a label and version.
	vrfs   map[string]vrfPair
	wild   bool // Timestamps may go back.
	good   int  // Weight of harmless changes.
	maxVer map[string]int
}

type vrfPair struct{ out, proof []byte }

// rclient is a client and what its accepted responses promise.
type rclient struct {
	*simClient
	g    *rogue
	coms map[string]map[uint32]string // Commitments that the owner of a label relies on.
	aud  uint64                       // Size of the auditor's tree head.
}

func genRogue(weights map[string]int, modes []int64, wild bool) func(*rand.Rand, *Plan, string) {
	return func(rng *rand.Rand, plan *Plan, tier string) {
		genConfig(rng, plan, modes)
		c := plan.Cfg
		delete(c, "store")
		c["labels"] = 1 + rng.Int64N(2)
		c["clients"] = 1 + rng.Int64N(3)
		c["good"] = []int64{0, 50, 85, 95, 100}[rng.IntN(5)]
		c["behind"], c["ahead"] = 600_000, 60_000
		if rng.IntN(4) == 0 {
			c["behind"], c["ahead"] = 5_000, 3_000
		}
		if wild && rng.IntN(8) == 0 {
			c["wild"] = 1
		}
		n := 25 + rng.IntN(70)
		if tier == "thorough" && rng.IntN(4) == 0 {
			n *= 3
		}
		if s := c["suite"]; s == 1 || s == 2 {
			n = 20
		}
		gap := []int64{300, 2000, 9000}[rng.IntN(3)]
		for i := 0; i < n; i++ {
			op := Op{K: pick(rng, weights), A: rng.Int64N(8), B: rng.Int64N(8), S: rng.Uint64()}
			if op.K == "adv" {
				op.A = rng.Int64N(gap)
			}
			if i < 5 && op.K != "adv" {
				op.K = "entry"
			}
			plan.Ops = append(plan.Ops, op)
		}
	}
}

func runRogue(env *Env) {
	c := env.plan.Cfg
	ks := keysFor(c["suite"])
	conf := structs.Config{
		Suite: ks.suite, Mode: structs.DeploymentMode(c["mode"]),
		MaxAhead: uint64(c["ahead"]), MaxBehind: uint64(c["behind"]),
		ReasonableMonitoringWindow: uint64(c["rmw"]), MaximumLifetime: uint64(c["life"]),
	}
	switch conf.Mode {
	case modeManaged:
		conf.LeafPublicKey = ks.leaf.Public()
	case modeAudited:
		conf.AuditorPublicKey = ks.auditor.Public()
		conf.MaxAuditorLag = 60_000
		if env.rng.IntN(2) == 0 {
			conf.MaxAuditorLag = 3_000
		}
		conf.AuditorStartPos = uint64(env.rng.IntN(4))
	}
	w := &World{env: env, ks: ks, auditorLies: true}
	w.cfg = structs.PrivateConfig{SignatureKey: ks.sig, VrfKey: ks.vrf, Config: conf}
	w.pub = w.cfg.Public()
	w.ref = newRef(uint64(c["rmw"]), uint64(c["life"]))
	g := &rogue{
		env: env, w: w, tx: memory.NewTransparencyStore(), facts: make(map[string]*fact),
		byVer: make(map[string][]string), vrfs: make(map[string]vrfPair), maxVer: make(map[string]int),
		wild: c["wild"] == 1, good: int(c["good"]),
	}
	for i := int64(0); i < c["labels"]; i++ {
		g.labels = append(g.labels, labelName(i))
	}
	for i := 0; i < int(c["clients"]); i++ {
		g.cs = append(g.cs, &rclient{simClient: newSimClient(w, i), g: g, coms: make(map[string]map[uint32]string)})
	}
	env.sig("m%d.s%d.g%d.w%v", c["mode"], c["suite"], c["good"], g.wild)
	for _, op := range env.plan.Ops {
		g.step(op)
	}
}

func (g *rogue) n() uint64 { return uint64(len(g.snaps)) }

func (g *rogue) step(op Op) {
	rng := newRand(op.S)
	switch op.K {
	case "adv":
		time.Sleep(time.Duration(op.A) * time.Millisecond)
		return
	case "entry":
		g.entry(rng, op.A, nil)
		return
	}
	if g.n() == 0 {
		return
	}
	c, label := g.cs[int(op.A)%len(g.cs)], g.labels[int(op.B)%len(g.labels)]
	switch op.K {
	case "search":
		c.search(rng, label)
	case "monitor":
		if !g.wild {
			c.monitor(rng)
		}
	case "own":
		if !g.wild {
			c.ownerInit(rng, label)
		}
	case "update":
		if !g.wild {
			c.update(rng, label)
		}
	}
}

// ---- The log.

func (g *rogue) vrf(label string, ver int) vrfPair {
	key := fmt.Sprintf("%s:%d", label, ver)
	if p, ok := g.vrfs[key]; ok {
		return p
	}
	input := refVrfInput([]byte(label), uint32(ver))
	out, proof := g.w.ks.vrf.Prove(input)
	p := vrfPair{out, proof}
	g.vrfs[key] = p
	return p
}

// have returns the commitment of a version in a log entry, or "".
func (g *rogue) have(x uint64, label string, ver int) string {
	return g.snaps[x][string(g.vrf(label, ver).out)]
}

// newFact commits to a new value.
func (g *rogue) newFact(rng *rand.Rand, label string, ver int, val []byte) string {
	f := &fact{label: label, ver: ver, opening: make([]byte, 16)}
	for i := range f.opening {
		f.opening[i] = byte(rng.IntN(256))
	}
	f.val.Value = val
	if g.w.cfg.Mode == modeManaged {
		f.signed = true
		f.val.Signature = g.w.leafSig(label, ver, val)
		if rng.IntN(100) >= g.good {
			switch rng.IntN(5) {
			case 0: // The signature is for another version, label or value.
				f.val.Signature, f.signed = g.w.leafSig(label, ver+1, val), false
			case 1:
				f.val.Signature, f.signed = g.w.leafSig(label+"x", ver, val), false
			case 2:
				f.val.Signature, f.signed = g.w.leafSig(label, ver, append(bytes.Clone(val), 1)), false
			case 3:
				f.val.Signature, f.signed = []byte{}, false
			}
		}
	}
	body := refCommitBody([]byte(label), uint32(ver), f.val)
	com := string(mac(refCommitKey(g.w.pub.Suite), f.opening, body))
	g.facts[com] = f
	key := fmt.Sprintf("%s:%d", label, ver)
	g.byVer[key] = append(g.byVer[key], com)
	g.maxVer[label] = max(g.maxVer[label], ver)
	return com
}

// present lists the versions of a label in a log entry.
func (g *rogue) present(snap map[string]string, label string) []int {
	var out []int
	for v := 0; v <= g.maxVer[label]; v++ {
		if snap[string(g.vrf(label, v).out)] != "" {
			out = append(out, v)
		}
	}
	return out
}

// entry appends a log entry. vals are new versions that a client has asked for.
func (g *rogue) entry(rng *rand.Rand, count int64, vals map[string][][]byte) {
	env := g.env
	next := make(map[string]string)
	if n := len(g.snaps); n > 0 {
		for k, v := range g.snaps[n-1] {
			next[k] = v
		}
	}
	what := ""
	set := func(label string, ver int, com string) {
		k := string(g.vrf(label, ver).out)
		if com == "" {
			delete(next, k)
		} else {
			next[k] = com
		}
	}
	add := func(label string, k int, val []byte) {
		top := -1
		if p := g.present(next, label); len(p) > 0 {
			top = p[len(p)-1]
		}
		ver := top + k
		set(label, ver, g.newFact(rng, label, ver, val))
		what += fmt.Sprintf(" %s+%d", label, ver)
	}
	for _, l := range sortedKeys(vals) {
		for _, v := range vals[l] {
			add(l, 1, v)
		}
	}
	for i := int64(0); i < count%4; i++ {
		label := g.labels[rng.IntN(len(g.labels))]
		if vals[label] != nil && rng.IntN(3) > 0 {
			continue
		}
		p := g.present(next, label)
		act := 0
		if rng.IntN(100) >= g.good {
			act = 1 + rng.IntN(9)
			env.count("fault:rogue-change")
		}
		switch {
		case act == 0 || len(p) == 0 && act != 2:
			k := 1
			if rng.IntN(4) == 0 {
				k = 1 + rng.IntN(4)
			}
			for ; k > 0; k-- {
				add(label, 1, randVal(rng))
			}
		case act == 2: // Versions are skipped.
			add(label, 2+rng.IntN(3), randVal(rng))
		case act == 3: // The greatest version is hidden.
			set(label, p[len(p)-1], "")
			what += fmt.Sprintf(" %s-%d", label, p[len(p)-1])
		case act == 4: // Any version is hidden.
			v := p[rng.IntN(len(p))]
			set(label, v, "")
			what += fmt.Sprintf(" %s-%d", label, v)
		case act == 5: // All of them.
			for _, v := range p {
				set(label, v, "")
			}
			what += fmt.Sprintf(" %s-all", label)
		case act == 6: // A version is brought back, or replaced by an earlier value.
			v := rng.IntN(g.maxVer[label] + 1)
			if coms := g.byVer[fmt.Sprintf("%s:%d", label, v)]; len(coms) > 0 {
				set(label, v, coms[rng.IntN(len(coms))])
				what += fmt.Sprintf(" %s~%d", label, v)
			}
		case act == 7: // A value is replaced.
			v := p[rng.IntN(len(p))]
			if rng.IntN(2) == 0 {
				v = p[len(p)-1]
			}
			set(label, v, g.newFact(rng, label, v, randVal(rng)))
			what += fmt.Sprintf(" %s!%d", label, v)
		case act == 8: // The label is as it was in an earlier entry.
			if len(g.snaps) > 0 {
				y := rng.IntN(len(g.snaps))
				for v := 0; v <= g.maxVer[label]; v++ {
					set(label, v, g.have(uint64(y), label, v))
				}
				what += fmt.Sprintf(" %s=@%d", label, y)
			}
		case act == 9: // The last hidden versions are brought back.
			for v := 0; v <= g.maxVer[label]; v++ {
				coms := g.byVer[fmt.Sprintf("%s:%d", label, v)]
				if len(coms) > 0 && next[string(g.vrf(label, v).out)] == "" {
					set(label, v, coms[len(coms)-1])
					what += fmt.Sprintf(" %s~%d", label, v)
				}
			}
		}
	}
	g.append(rng, next)
	env.logf("entry %d ts=%d:%s", g.n()-1, g.w.ref.ts[g.w.ref.ix(g.n()-1)], what)
}

func (g *rogue) append(rng *rand.Rand, next map[string]string) {
	r, n := g.w.ref, g.n()
	prev := map[string]string{}
	if n > 0 {
		prev = g.snaps[n-1]
	}
	var add []prefix.Entry
	var remove [][]byte
	for _, k := range sortedKeys(next) {
		if prev[k] != next[k] {
			add = append(add, prefix.Entry{VrfOutput: []byte(k), Commitment: []byte(next[k])})
		}
	}
	for _, k := range sortedKeys(prev) {
		if prev[k] != next[k] {
			remove = append(remove, []byte(k))
		}
	}
	// A leaf can not be replaced in the version of the tree that is current, so
	// build every entry that removes something in two steps.
	root, _, _, err := prefix.NewTree(g.w.pub.Suite, g.tx.PrefixStore()).Mutate(n, add, remove)
	must(err)
	leaves := make(map[string][]byte, len(next))
	for k, v := range next {
		leaves[k] = []byte(v)
	}
	if !bytes.Equal(root, refPrefixRoot(leaves)) {
		g.env.fail("prefix-root", "the prefix tree of entry %d has another root than its contents", n)
	}
	ts := nowMs()
	if n > 0 {
		last := r.ts[r.ix(n-1)]
		switch {
		case g.wild && rng.IntN(4) == 0:
			ts = last - min(last, uint64(rng.IntN(20_000)))
		case rng.IntN(12) == 0:
			ts = last
		case rng.IntN(12) == 0:
			ts += uint64(rng.IntN(int(g.env.plan.Cfg["ahead"])*5/4 + 1))
		}
		if !g.wild {
			ts = max(ts, last)
		}
	}
	r.ts = append(r.ts, ts)
	r.roots = append(r.roots, root)
	g.snaps = append(g.snaps, next)
	entry := &structs.LogEntry{Timestamp: ts, PrefixTree: root}
	must(g.tx.Put(n, marshal(entry)))
	h, err := entry.Hash(g.w.pub.Suite)
	must(err)
	_, err = log.NewTree(g.w.pub.Suite, g.tx.LogStore()).Append(n, h)
	must(err)
	must(g.tx.Commit())
}

// ---- The prover.

// adv is the operator's side of a proof. Unlike the server's, it does not assume
// anything about the log's contents.
type adv struct {
	g       *rogue
	rng     *rand.Rand
	label   string
	tricks  int // Percentage of steps that are not as they have to be.
	stop    int // Number of ladders after which owner monitoring stops.
	tracker tmath.VersionTracker

	ts    []uint64
	proof []prefix.PrefixProof
	roots [][]byte
	coms  map[uint32][]string // Commitments that were shown.
}

var _ algorithms.ProofHandle = (*adv)(nil)

func (h *adv) trick(p int) bool {
	if h.tricks == 0 || h.rng.IntN(100) >= h.tricks || h.rng.IntN(100) >= p {
		return false
	}
	h.g.env.count("fault:rogue-proof-step")
	return true
}

func (h *adv) lookup(x uint64, vers []uint32) (prefix.SearchResult, error) {
	g := h.g
	if h.trick(15) && x > 0 { // Proof from another entry.
		x = uint64(h.rng.IntN(int(g.n())))
	}
	outs := make([][]byte, len(vers))
	for i, v := range vers {
		outs[i] = g.vrf(h.label, int(v)).out
	}
	res, err := prefix.NewTree(g.w.pub.Suite, g.tx.PrefixStore()).Search([]prefix.PrefixSearch{{Version: x + 1, VrfOutputs: outs}})
	if err != nil {
		return prefix.SearchResult{}, err
	}
	for i, v := range vers {
		if com := res[0].Commitments[i]; com != nil {
			h.coms[v] = append(h.coms[v], string(com))
		}
	}
	h.proof = append(h.proof, res[0].Proof)
	return res[0], nil
}

func (h *adv) GetTimestamp(x uint64) (uint64, error) {
	ts := h.g.w.ref.ts[h.g.w.ref.ix(x)]
	if h.trick(10) {
		ts += uint64(h.rng.IntN(1000))
	}
	h.ts = append(h.ts, ts)
	return ts, nil
}

func (h *adv) GetSearchBinaryLadder(x uint64, ver uint32, omit bool) ([]byte, int, error) {
	g := h.g
	left, right := h.tracker.SearchMaps(x, omit)
	if h.trick(10) {
		left, right = nil, nil
	}
	target := ver
	if h.trick(10) {
		target = uint32(h.rng.IntN(g.maxVer[h.label] + 2))
	}
	ladder := tmath.SearchBinaryLadder(target, target, left, right)
	var vers []uint32
	res := 0
	for _, u := range ladder {
		in := g.have(x, h.label, int(u)) != ""
		vers = append(vers, u)
		if in && u > ver {
			res = 1
			break
		} else if !in && u <= ver {
			res = -1
			break
		}
	}
	if h.trick(15) && len(vers) > 0 {
		vers = vers[:len(vers)-1]
	}
	if h.trick(10) && len(vers) < len(ladder) {
		vers = ladder[:len(vers)+1]
	}
	if h.trick(5) && len(vers) > 0 {
		vers = vers[1:]
	}
	out, err := h.lookup(x, vers)
	if err != nil {
		return nil, 0, err
	}
	h.tracker.AddResults(x, omit, vers, out.Proof.Results)
	if h.trick(60) {
		res = h.rng.IntN(3) - 1
		if h.rng.IntN(2) == 0 {
			res = 0
		}
	}
	return g.w.ref.roots[g.w.ref.ix(x)], res, nil
}

func (h *adv) GetMonitoringBinaryLadder(x uint64, ver uint32) ([]byte, error) {
	vers := tmath.MonitoringBinaryLadder(ver)
	if h.trick(20) {
		vers = vers[:len(vers)-1]
	} else if h.trick(20) {
		vers = tmath.MonitoringBinaryLadder(uint32(h.rng.IntN(int(ver) + 2)))
	}
	_, err := h.lookup(x, vers)
	return h.g.w.ref.roots[h.g.w.ref.ix(x)], err
}

func (h *adv) GetInclusionProof(x uint64, vers []uint32) ([]byte, error) {
	vers = slices.Clone(vers)
	if h.trick(20) && len(vers) > 0 {
		vers = vers[:len(vers)-1]
	}
	_, err := h.lookup(x, vers)
	return h.g.w.ref.roots[h.g.w.ref.ix(x)], err
}

func (h *adv) GetPrefixTrees(xs []uint64) ([][]byte, error) {
	h.roots = nil
	for _, x := range xs {
		h.roots = append(h.roots, h.g.w.ref.roots[h.g.w.ref.ix(x)])
	}
	return h.roots, nil
}

func (h *adv) Finish() ([][]byte, error) { panic("unreachable") }

func (h *adv) Output(leaves []uint64, n uint64, nP, m *uint64) (*structs.CombinedTreeProof, error) {
	inclusion, err := log.NewTree(h.g.w.pub.Suite, h.g.tx.LogStore()).GetBatch(leaves, n, nP, m)
	if err != nil {
		return nil, err
	}
	return &structs.CombinedTreeProof{
		Timestamps: h.ts, PrefixProofs: h.proof, PrefixRoots: h.roots,
		Inclusion: structs.InclusionProof{Elements: inclusion},
	}, nil
}

func (h *adv) StopCondition(x uint64, ver int) bool {
	if h.stop >= 0 && len(h.proof) >= h.stop {
		return true
	}
	// Stop where the owner would notice something.
	return h.tricks == 0 && !h.g.exact(x, h.label, ver)
}

func (h *adv) Tracker() *tmath.VersionTracker { return &h.tracker }

// exact tells whether a full binary ladder in entry x shows that ver (or -1) is
// the greatest version.
func (g *rogue) exact(x uint64, label string, ver int) bool {
	if ver < 0 {
		return g.have(x, label, 0) == ""
	}
	for _, u := range refLadder(uint64(ver)) {
		if (g.have(x, label, int(u)) != "") != (int(u) <= ver) {
			return false
		}
	}
	return true
}

// greatest returns the version that entry x can be claimed to have.
func (g *rogue) greatest(x uint64, label string) (int, bool) {
	for v := -1; v <= g.maxVer[label]; v++ {
		if g.exact(x, label, v) {
			return v, true
		}
	}
	return 0, false
}

// refLadder lists the versions that a binary ladder for v consists of.
func refLadder(v uint64) []uint64 {
	var out []uint64
	lo, hi := uint64(0), uint64(0)
	for k := uint(0); ; k++ {
		x := uint64(1)<<k - 1
		out = append(out, x)
		if x > v {
			hi = x
			break
		}
		lo = x
	}
	for hi-lo > 1 {
		mid := lo + (hi-lo)/2
		out = append(out, mid)
		if mid <= v {
			lo = mid
		} else {
			hi = mid
		}
	}
	return out
}

// ---- The reference for searches in a log with any contents.

// contents is the commitment of a version in a log entry, if it is there.
type contents func(x uint64, label string, ver int) string

type refWalk struct {
	have  contents
	label string
	inc   map[uint64][]uint64
	non   map[uint64][]uint64
	coms  map[uint64]map[string]bool
	trace []string // What was looked up, and what it gave.
}

func newWalk(have contents, label string) *refWalk {
	return &refWalk{have, label, make(map[uint64][]uint64), make(map[uint64][]uint64), make(map[uint64]map[string]bool), nil}
}

func (k *refWalk) shown(u uint64, com string) {
	if k.coms[u] == nil {
		k.coms[u] = make(map[string]bool)
	}
	k.coms[u][com] = true
}

// look is the result of a search binary ladder in entry x.
func (k *refWalk) look(x uint64, ver uint64) int {
	for _, u := range refLadder(ver) {
		known := false
		for y, us := range k.inc {
			known = known || y < x && slices.Contains(us, u)
		}
		for y, us := range k.non {
			known = known || y > x && slices.Contains(us, u)
		}
		if known {
			continue
		}
		com := k.have(x, k.label, int(u))
		k.trace = append(k.trace, fmt.Sprintf("%d %d %x", x, u, com))
		if com != "" {
			defer func() { k.inc[x] = append(k.inc[x], u) }()
			k.shown(u, com)
			if u > ver {
				return 1
			}
		} else {
			defer func() { k.non[x] = append(k.non[x], u) }()
			if u <= ver {
				return -1
			}
		}
	}
	return 0
}

// consistent tells whether every version has only one commitment.
func (k *refWalk) consistent() bool {
	for _, c := range k.coms {
		if len(c) > 1 {
			return false
		}
	}
	return true
}

func (k *refWalk) com(ver int) string {
	for c := range k.coms[uint64(ver)] {
		return c
	}
	return ""
}

type searchRef struct {
	*refWalk
	ok   bool // The claim can be shown.
	out  searchOutcome
	term uint64
	com  string
}

// greatestRef is the outcome of a search for the greatest version in the tree of
// size n, if that is claimed to be ver.
func (r *Ref) greatestRef(have contents, label string, ver int, n uint64) searchRef {
	k := newWalk(have, label)
	start := r.rightmostDLE(n)
	term := int64(-1)
	for nd := refRoot(n); ; nd = nd.right() {
		if start >= 0 && int64(nd.x) < start {
			continue
		}
		res := k.look(nd.x, uint64(ver))
		if res == 1 {
			return searchRef{refWalk: k}
		}
		if res == 0 && term < 0 {
			term = int64(nd.x)
		}
		if nd.x == n-1 {
			if ver == 0 && res == -1 {
				return searchRef{refWalk: k, ok: k.consistent(), out: outMissing}
			} else if res != 0 {
				return searchRef{refWalk: k}
			}
			return searchRef{k, k.consistent(), outFound, uint64(term), k.com(ver)}
		}
	}
}

func (r *Ref) fixedRef(have contents, label string, ver int, n uint64) searchRef {
	var (
		k       = newWalk(have, label)
		cand    = int64(-1)
		expired bool
		dle     []uint64
		d       = r.distinguished(n)
	)
	for nd := refRoot(n); ; {
		x := nd.x
		var res int
		if r.expired(x, n) {
			expired = true
			res = -1
		} else {
			if d[x] {
				dle = append(dle, x)
			}
			res = k.look(x, uint64(ver))
			if res >= 0 && (cand < 0 || int64(x) < cand) {
				cand = int64(x)
			}
			if res == 0 {
				if expired && !slices.ContainsFunc(dle, func(y uint64) bool { return y <= x }) {
					return searchRef{k, k.consistent(), outExpired, 0, ""}
				}
				return searchRef{k, k.consistent(), outFound, x, k.com(ver)}
			}
		}
		if res < 0 && nd.hasRight() {
			nd = nd.right()
		} else if res > 0 && nd.hasLeft() {
			nd = nd.left()
		} else {
			break
		}
	}
	if cand < 0 {
		return searchRef{k, k.consistent(), outMissing, 0, ""}
	}
	if expired && !slices.ContainsFunc(dle, func(y uint64) bool { return int64(y) < cand }) {
		return searchRef{k, k.consistent(), outExpired, 0, ""}
	}
	com := have(uint64(cand), label, ver)
	if com == "" {
		return searchRef{refWalk: k}
	}
	k.shown(uint64(ver), com)
	return searchRef{k, k.consistent(), outFound, uint64(cand), com}
}

// ---- Responses.

// size chooses the size of the tree that a request is answered from.
func (c *rclient) pickSize(rng *rand.Rand) uint64 {
	n := c.g.n()
	if c.size >= n {
		return n
	}
	if rng.IntN(4) == 0 {
		return max(1, c.size+uint64(rng.IntN(int(n-c.size+1))))
	}
	return n
}

// head makes the full tree head of size n, signed by everyone.
func (c *rclient) head(rng *rand.Rand, n uint64) (structs.FullTreeHead, *uint64) {
	w := c.w
	var out structs.FullTreeHead
	if n == c.size && rng.IntN(20) > 0 {
		return out, nil
	}
	sig, err := w.ks.sig.Sign(refHeadTBS(w.pub, n, w.ref.logHash(0, n)))
	must(err)
	out.TreeHead = &structs.TreeHead{TreeSize: n, Signature: sig}
	if w.cfg.Mode != modeAudited {
		return out, nil
	}
	nP := n
	switch rng.IntN(4) {
	case 0:
		nP = 1 + uint64(rng.IntN(int(n)))
	case 1:
		nP -= min(nP-1, uint64(rng.IntN(3)))
	}
	if rng.IntN(25) == 0 {
		nP = 1 + uint64(rng.IntN(int(w.ref.n())))
	}
	ts := w.ref.ts[w.ref.ix(nP-1)]
	if rng.IntN(20) == 0 {
		ts += uint64(rng.IntN(5000))
	}
	h := &structs.AuditorTreeHead{Timestamp: ts, TreeSize: nP}
	h.Signature, err = w.ks.auditor.Sign(refAuditorTBS(w.pub, ts, nP, w.ref.logHash(0, nP)))
	must(err)
	out.AuditorTreeHead = h
	return out, &nP
}

// prove runs an algorithm with the prover's handle, as a server would.
func (c *rclient) prove(h *adv, n uint64, nP *uint64, f func(dp *algorithms.DataProvider) error) (proof *structs.CombinedTreeProof, err error) {
	w := c.w
	now := time.Now().UnixMilli()
	time.SimSetOffset((int64(w.ref.ts[w.ref.ix(n-1)]) - now) * int64(time.Millisecond))
	defer time.SimSetOffset(0)
	defer func() {
		// A walk with false results may end up anywhere.
		if r := recover(); r != nil && h.tricks > 0 {
			proof, err = nil, fmt.Errorf("prover failed: %v", r)
		} else if r != nil {
			panic(r)
		}
	}()
	dp := algorithms.NewDataProvider(w.pub.Suite, h)
	last := lastOf(c.size)
	if last != nil {
		entries := make(map[uint64]structs.LogEntry)
		for _, x := range refFrontier(c.size) {
			entries[x] = structs.LogEntry{Timestamp: w.ref.ts[w.ref.ix(x)], PrefixTree: w.ref.roots[w.ref.ix(x)]}
		}
		if err := dp.AddRetained(nil, entries); err != nil {
			return nil, err
		}
	}
	if err := algorithms.UpdateView(w.pub, n, last, dp); err != nil {
		return nil, err
	} else if err := f(dp); err != nil && err != algorithms.ErrLabelNotFound && err != algorithms.ErrLabelExpired {
		return nil, err
	}
	return dp.Output(n, nP, last)
}

func (c *rclient) handle(rng *rand.Rand, label string, attempt int) *adv {
	h := &adv{g: c.g, rng: rng, label: label, stop: -1, coms: make(map[uint32][]string)}
	if attempt == 0 && rng.IntN(2) == 0 {
		h.tricks = 1 + rng.IntN(25)
	}
	return h
}

// ladder makes the steps for the given versions. There is no commitment for
// versions in `without`.
func (h *adv) ladder(vers []uint64, without func(uint64) bool) []structs.BinaryLadderStep {
	out := make([]structs.BinaryLadderStep, len(vers))
	for i, v := range vers {
		ver := int(v)
		if h.trick(5) {
			ver++ // The VRF output of another version.
		}
		out[i].Proof = h.g.vrf(h.label, ver).proof
		if coms := h.coms[uint32(v)]; len(coms) > 0 && !without(v) {
			out[i].Commitment = []byte(coms[h.rng.IntN(len(coms))])
		} else if coms := h.g.byVer[fmt.Sprintf("%s:%d", h.label, v)]; h.trick(10) && len(coms) > 0 {
			out[i].Commitment = []byte(coms[h.rng.IntN(len(coms))])
		}
	}
	return out
}

// reveal chooses the opening and value of a version.
func (h *adv) reveal(ver int) *fact {
	g := h.g
	f := &fact{label: h.label, ver: ver, opening: make([]byte, 16)}
	if g.w.cfg.Mode == modeManaged {
		f.val.Signature = []byte{}
	}
	coms := h.coms[uint32(ver)]
	if h.trick(20) {
		coms = g.byVer[fmt.Sprintf("%s:%d", h.label, ver)]
	}
	if len(coms) > 0 {
		f = g.facts[coms[h.rng.IntN(len(coms))]]
	}
	if h.trick(10) {
		cp := *f
		if h.rng.IntN(2) == 0 {
			cp.val.Value = append(bytes.Clone(f.val.Value), 'x')
		} else {
			cp.opening = flip(h.rng, bytes.Clone(f.opening))
		}
		f = &cp
	}
	return f
}

// distort changes some fields of a response.
func (h *adv) distort(res structs.Marshaller) {
	if !h.trick(40) {
		return
	}
	var pool []reflect.Value
	slots(reflect.ValueOf(res), &pool, 0)
	if len(pool) > 0 {
		mutateSlot(h.rng, pool[h.rng.IntN(len(pool))], pool)
	}
}

func encodeLoose(res structs.Marshaller) (raw []byte, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = errors.New("can not be encoded")
		}
	}()
	return structs.Marshal(res)
}

// refWhy is the reason why a tree has to be rejected whatever else a response
// contains.
func (c *rclient) treeWhy(fth structs.FullTreeHead, n uint64) string {
	w, r := c.w, c.w.ref
	if why := w.clockBad(0, n); why != "" {
		return "clock " + why
	}
	if fth.TreeHead == nil {
		return ""
	}
	if n <= c.size {
		return "size"
	}
	if w.cfg.Mode != modeAudited {
		return ""
	}
	h := fth.AuditorTreeHead
	if h == nil {
		return "no auditor head"
	} else if h.Timestamp > r.ts[r.ix(n-1)] || r.ts[r.ix(n-1)]-h.Timestamp > w.cfg.MaxAuditorLag {
		return "auditor lag"
	} else if h.TreeSize > n {
		return "auditor size"
	} else if c.size > 0 && c.aud < w.cfg.AuditorStartPos {
		return "auditor start"
	}
	return ""
}

// accepted checks the tree that the client has moved to.
func (c *rclient) accepted(fth structs.FullTreeHead) {
	env, r := c.w.env, c.w.ref
	n := c.acceptedSize()
	if n < c.size || n > r.n() {
		env.fail("tree", "client %d at size %d accepts a tree of size %d", c.id, c.size, n)
	}
	if fth.TreeHead != nil && fth.TreeHead.TreeSize != n {
		env.fail("tree", "client %d stores size %d after accepting a tree head of size %d", c.id, n, fth.TreeHead.TreeSize)
	}
	if fth.TreeHead != nil && c.size > 0 && n == c.size {
		env.fail("tree", "client %d accepts another tree head for the size %d that it has", c.id, n)
	}
	if why := c.treeWhy(fth, n); why != "" {
		env.fail("tree", "client %d at size %d accepts a tree of size %d although it should not: %s", c.id, c.size, n, why)
	}
	c.size = n
	if fth.AuditorTreeHead != nil {
		c.aud = fth.AuditorTreeHead.TreeSize
	}
	st := c.inspectState()
	if h := st.AuditorTreeHead; (h != nil) != (c.w.cfg.Mode == modeAudited) {
		env.fail("client-state", "client %d stores auditor tree head %v", c.id, h)
	} else if h != nil && h.TreeSize != c.aud {
		env.fail("client-state", "client %d stores an auditor tree head of size %d instead of %d", c.id, h.TreeSize, c.aud)
	}
	last := uint64(0)
	for _, x := range refFrontier(n) {
		if r.ts[r.ix(x)] < last {
			env.fail("tree", "client %d accepts a log whose timestamps go back", c.id)
		}
		last = r.ts[r.ix(x)]
	}
	env.count("accepted")
}

// judge handles rejected responses. It returns true for others.
func (c *rclient) judge(what string, err error, before string) bool {
	env := c.w.env
	env.logf("client %d at %d: %s -> %v", c.id, c.size, what, err)
	env.count("responses")
	if err != nil && err != algorithms.ErrLabelNotFound && err != algorithms.ErrLabelExpired {
		if c.st.fingerprint() != before {
			env.fail("state-after-error", "client %d rejects a response with %q but changes its state", c.id, err)
		}
		env.count("rejected")
		return false
	}
	env.sig("%s%v", what[:4], err)
	return true
}

func (c *rclient) search(rng *rand.Rand, label string) {
	for attempt := 0; attempt < 2; attempt++ {
		if c.searchOnce(rng, label, attempt) {
			return
		}
	}
}

func (c *rclient) searchOnce(rng *rand.Rand, label string, attempt int) bool {
	g, w, env := c.g, c.w, c.w.env
	n := c.pickSize(rng)
	ver := rng.IntN(g.maxVer[label] + 2)
	greatest := rng.IntN(2) == 0
	ref := func(v int, n uint64) searchRef {
		if greatest {
			return g.w.ref.greatestRef(g.have, label, v, n)
		}
		return g.w.ref.fixedRef(g.have, label, v, n)
	}
	if greatest && rng.IntN(3) > 0 {
		for v := 0; v <= g.maxVer[label]; v++ {
			if ref(v, n).ok {
				ver = v
				break
			}
		}
	} else if greatest && rng.IntN(2) == 0 {
		ver = max(0, ver-1)
	}
	var (
		req    *structs.SearchRequest
		verify transparency.VerifyFunc[*structs.SearchResponse]
		err    error
	)
	if greatest {
		req, verify, err = c.lib().GreatestVersionSearch([]byte(label))
	} else {
		req, verify, err = c.lib().FixedVersionSearch([]byte(label), uint32(ver))
	}
	must(err)
	h := c.handle(rng, label, attempt)
	fth, nP := c.head(rng, n)
	proof, err := c.prove(h, n, nP, func(dp *algorithms.DataProvider) error {
		if greatest {
			_, err := algorithms.GreatestVersionSearch(w.pub, uint32(ver), n, dp)
			return err
		}
		_, err := algorithms.FixedVersionSearch(w.pub, uint32(ver), n, dp)
		return err
	})
	want := ref(ver, n)
	if err != nil {
		if h.tricks == 0 && want.ok && !g.wild && (nP == nil || *nP <= n) && (fth.TreeHead == nil || n > c.size) {
			env.fail("prover", "%q version %d (greatest %v) at size %d should be %v, but no proof of it can be made: %v", label, ver, greatest, n, want, err)
		}
		env.count("prover-fails")
		return false
	}
	f := h.reveal(ver)
	res := &structs.SearchResponse{FullTreeHead: fth, Opening: f.opening, Value: f.val, Search: *proof}
	if greatest {
		res.Version = p64(uint32(ver))
	}
	res.BinaryLadder = h.ladder(refLadder(uint64(ver)), func(u uint64) bool { return u == uint64(ver) })
	h.distort(res)
	raw, err := encodeLoose(res)
	if err != nil {
		return false
	}
	before := c.st.fingerprint()
	res, err = decode(reply{raw: raw}, true, func(b *bytes.Buffer) (*structs.SearchResponse, error) {
		return structs.NewSearchResponse(w.pub, req, b)
	})
	if err == nil {
		err = verify(res)
	}
	what := fmt.Sprintf("search %q %d greatest=%v n=%d tricks=%d ok=%v %v", label, ver, greatest, n, h.tricks, want.ok, want.out)
	if !c.judge(what, err, before) {
		if h.tricks == 0 && want.ok && c.treeWhy(fth, n) == "" && !g.wild && c.st.labels[label].raw == nil && (want.out != outFound || w.cfg.Mode != modeManaged || g.facts[want.com].signed) {
			env.fail("rejected", "client %d at size %d rejects a right proof that %q version %d (greatest %v) at size %d is %v: %v", c.id, c.size, label, ver, greatest, n, want.out, err)
		}
		return false
	}
	c.accepted(res.FullTreeHead)
	n = c.size
	if greatest {
		ver = int(*res.Version)
	}
	want = ref(ver, n)
	if !want.ok {
		env.fail("answer", "client %d accepts a search for %q at size %d with version %d (greatest %v) and result %v, which the log does not show", c.id, label, n, ver, greatest, err)
	}
	got := outFound
	if err == algorithms.ErrLabelNotFound {
		got = outMissing
	} else if err == algorithms.ErrLabelExpired {
		got = outExpired
	}
	if got != want.out {
		env.fail("answer", "client %d is told that version %d (greatest %v) of %q at size %d is %s, it is %s", c.id, ver, greatest, label, n, got, want.out)
	}
	env.count("search-" + got.String())
	if got != outFound {
		c.check()
		return true
	}
	com := string(w.commit(label, ver, res.Opening, res.Value))
	if com != want.com {
		env.fail("answer", "client %d accepts the value %x for version %d of %q at size %d, which is not the one in the log", c.id, res.Value.Value, ver, label, n)
	}
	if w.cfg.Mode == modeManaged && !g.facts[com].signed {
		env.fail("answer", "client %d accepts version %d of %q, which the service operator has not signed", c.id, ver, label)
	}
	if w.cfg.Mode == modeContact && int64(want.term) > w.ref.rightmostDLE(n) && !g.wild {
		path := append([]uint64{want.term}, refRightPath(want.term, n)...)
		c.looked(label, path, ver)
		c.owe(label, obligation{want.term, uint32(ver), path[len(path)-1], com})
		env.count("obligations")
	}
	c.check()
	return true
}

// check compares the stored state of labels with what the client has promised
// to follow up on.
func (c *rclient) check() {
	env, w := c.w.env, c.w
	if c.g.wild {
		return
	}
	for _, l := range c.g.labels {
		rec, stored := c.st.labels[l]
		if !stored {
			if len(c.obl[l]) > 0 {
				env.fail("monitoring-state", "client %d forgot to monitor %q, it owes %v", c.id, l, c.obl[l])
			} else if c.own[l] != nil {
				env.fail("owner-state", "client %d forgot that it owns %q", c.id, l)
			}
			continue
		}
		ls := c.labelState(l)
		terminal := ^uint64(0)
		for i, e := range ls.Contact {
			if i > 0 && ls.Contact[i-1].Position >= e.Position {
				env.fail("monitoring-state", "client %d has a monitoring map for %q that is not in order: %v", c.id, l, ls.Contact)
			}
			terminal = min(terminal, e.Position)
		}
		if ls.Owner != nil {
			terminal = min(terminal, ls.Owner.Starting+1)
		}
		if rec.terminal > terminal {
			env.fail("monitoring-state", "client %d monitors %q only after entry %d is final, instead of %d", c.id, l, rec.terminal, terminal)
		}
		for _, o := range c.obl[l] {
			if !c.covered(ls, o) {
				env.fail("monitoring-state", "client %d owes monitoring of version %d of %q in entry %d (seen up to %d), but its map is %v at size %d", c.id, o.ver, l, o.x, o.top, ls.Contact, c.size)
			}
		}
		exp := c.own[l]
		if (exp != nil) != (ls.Owner != nil) {
			env.fail("owner-state", "client %d owns %q: %v, but stores %v", c.id, l, exp != nil, ls.Owner)
		} else if exp != nil {
			o := ls.Owner
			if o.Starting != exp.starting || o.VerAtStarting != exp.verAt || !slices.Equal(o.UpcomingVers, exp.upcoming) {
				env.fail("owner-state", "client %d owns %q with state {%d %d %v}, expected {%d %d %v}", c.id, l, o.Starting, o.VerAtStarting, o.UpcomingVers, exp.starting, exp.verAt, exp.upcoming)
			}
		}
		for _, v := range ls.Versions {
			if !bytes.Equal(v.VrfOutput, c.g.vrf(l, int(v.Version)).out) {
				env.fail("client-state", "client %d retains a wrong VRF output for version %d of %q", c.id, v.Version, l)
			}
		}
	}
	_ = w
}

func (c *rclient) monitor(rng *rand.Rand) {
	for attempt := 0; attempt < 2; attempt++ {
		if c.monitorOnce(rng, attempt) {
			return
		}
	}
}

func (c *rclient) monitorOnce(rng *rand.Rand, attempt int) bool {
	w, env, r := c.w, c.w.env, c.w.ref
	dle := int64(-1)
	if c.size > 0 {
		dle = r.rightmostDLE(c.size)
	}
	req, verify, err := c.lib().Monitor()
	if (err == nil) != (dle >= 0) {
		env.fail("request", "client %d at size %d with distinguished entry %d: Monitor returns %v", c.id, c.size, dle, err)
	} else if err != nil {
		return true
	}
	var (
		label   string
		entries []structs.MonitorMapEntry
		owner   bool
	)
	switch q := req.(type) {
	case nil:
		for _, l := range c.g.labels {
			for _, o := range c.obl[l] {
				if int64(o.x) <= dle {
					env.fail("monitoring-due", "client %d has nothing to monitor, but owes version %d of %q in entry %d and %d is distinguished", c.id, o.ver, l, o.x, dle)
				}
			}
			if o := c.own[l]; o != nil && int64(o.starting) < dle {
				env.fail("monitoring-due", "client %d has nothing to monitor, but owns %q verified up to %d and %d is distinguished", c.id, l, o.starting, dle)
			}
		}
		return true
	case *structs.ContactMonitorRequest:
		label, entries = string(q.Label), q.Entries
	case *structs.OwnerMonitorRequest:
		label, entries, owner = string(q.Label), q.Entries, true
	}
	n := c.pickSize(rng)
	h := c.handle(rng, label, attempt)
	if owner && rng.IntN(4) == 0 {
		h.stop = rng.IntN(8)
	}
	exp := c.own[label]
	if owner != (exp != nil) {
		env.fail("owner-state", "client %d owns %q: %v, but asks as owner: %v", c.id, label, exp != nil, owner)
	}
	fth, nP := c.head(rng, n)
	proof, err := c.prove(h, n, nP, func(dp *algorithms.DataProvider) error {
		m, err := algorithms.NewMonitor(w.pub, n, dp)
		if err != nil {
			return err
		}
		m.Contact = algorithms.NewContactState(entries)
		if owner {
			m.Owner = algorithms.NewOwnerState(c.labelState(label).Owner)
		}
		if err := m.ContactMonitor(); err != nil || !owner {
			return err
		}
		return m.OwnerMonitor()
	})
	if err != nil {
		env.count("prover-fails")
		return false
	}
	var (
		raw []byte
		res structs.Marshaller
	)
	if owner {
		res = &structs.OwnerMonitorResponse{FullTreeHead: fth, Monitor: *proof}
	} else {
		res = &structs.ContactMonitorResponse{FullTreeHead: fth, Monitor: *proof}
	}
	h.distort(res)
	if raw, err = encodeLoose(res); err != nil {
		return false
	}
	before := c.st.fingerprint()
	if res, err = w.decodeMonitor(req, reply{raw: raw}, true); err == nil {
		err = verify(res)
	}
	what := fmt.Sprintf("monitor %q owner=%v n=%d tricks=%d", label, owner, n, h.tricks)
	if !c.judge(what, err, before) {
		return false
	}
	if owner {
		fth = res.(*structs.OwnerMonitorResponse).FullTreeHead
	} else {
		fth = res.(*structs.ContactMonitorResponse).FullTreeHead
	}
	c.accepted(fth)
	c.monitored(label, exp)
	if exp != nil {
		c.ownerMonitored(label, exp)
		env.count("owner-monitored")
	} else {
		env.count("contact-monitored")
	}
	c.check()
	return true
}

// monitored checks that the log entries that the client had to look at contain
// the versions that it has accepted before.
func (c *rclient) monitored(label string, exp *ownerExp) {
	g, env, r, n := c.g, c.w.env, c.w.ref, c.size
	d := r.distinguished(n)
	// Entries in which the same or a greater version was seen before.
	before := slices.Clone(c.obl[label])
	seen := func(y uint64, ver uint32) bool {
		for _, o := range before {
			if o.ver >= ver && (o.x == y || y <= o.top && slices.Contains(refRightPath(o.x, n), y)) {
				return true
			}
		}
		return false
	}
	var keep []obligation
	for _, o := range c.obl[label] {
		done := d[o.x]
		for _, y := range refRightPath(o.x, n) {
			if done {
				break
			}
			done = d[y]
			if y <= o.top || done && exp != nil && o.x >= exp.starting {
				// The owner verifies distinguished entries on its own.
				continue
			} else if seen(y, o.ver) {
				o.top = y
				continue
			}
			env.count("monitored-entries")
			ok := false
			for v := int(o.ver); v <= g.maxVer[label] && !ok; v++ {
				if v == int(o.ver) && g.have(y, label, v) != o.com {
					continue
				}
				ok = true
				for _, u := range refLadder(uint64(v)) {
					ok = ok && (int(u) > v || g.have(y, label, int(u)) != "")
				}
			}
			if !ok {
				env.fail("monitoring", "client %d monitors version %d of %q from entry %d and accepts entry %d of %d, which does not have it", c.id, o.ver, label, o.x, y, n)
			}
			o.top = y
		}
		if done {
			env.count("discharged")
		} else {
			keep = append(keep, o)
		}
	}
	c.obl[label] = keep
	if len(keep) == 0 {
		delete(c.obl, label)
	}
}

// ownerMonitored checks that all distinguished log entries that the owner
// considers verified are as it expects.
func (c *rclient) ownerMonitored(label string, exp *ownerExp) {
	g, env, r, n := c.g, c.w.env, c.w.ref, c.size
	ls := c.labelState(label)
	if ls.Owner == nil {
		env.fail("owner-state", "client %d forgot that it owns %q", c.id, label)
	}
	to := ls.Owner.Starting
	d := r.distinguished(n)
	if to < exp.starting || to != exp.starting && (to >= n || !d[to]) {
		env.fail("owner-state", "client %d moves the verified position of %q from %d to %d at size %d, distinguished: %v", c.id, label, exp.starting, to, n, d[to])
	}
	expected := func(x uint64) int {
		v := exp.verAt
		for _, pos := range exp.upcoming {
			if pos <= x {
				v++
			}
		}
		return v
	}
	for x := exp.starting + 1; x <= to; x++ {
		if !d[x] {
			continue
		}
		e := expected(x)
		env.count("owner-entries")
		if !g.exact(x, label, e) {
			env.fail("owner-monitor", "client %d owns %q, expects version %d in entry %d and considers it verified, but the entry has %v", c.id, label, e, x, g.present(g.snaps[x], label))
		}
		if e >= 0 {
			for _, u := range refLadder(uint64(e)) {
				if com, ok := c.coms[label][uint32(u)]; ok && int(u) <= e && g.have(x, label, int(u)) != com {
					env.fail("owner-monitor", "client %d owns %q, and considers entry %d verified in which version %d has another value", c.id, label, x, u)
				}
			}
		}
	}
	v := expected(to)
	var rest []uint64
	for _, pos := range exp.upcoming {
		if pos > to {
			rest = append(rest, pos)
		}
	}
	exp.starting, exp.verAt, exp.upcoming = to, v, rest
	c.prune(label)
}

// prune forgets the commitments that an owner does not have to know any more.
func (c *rclient) prune(label string) {
	exp := c.own[label]
	need := make(map[uint32]bool)
	for i := 0; i <= len(exp.upcoming); i++ {
		if v := exp.verAt + i; v >= 0 {
			for _, u := range refLadder(uint64(v)) {
				need[uint32(u)] = true
			}
		}
	}
	for u := range c.coms[label] {
		if !need[u] {
			delete(c.coms[label], u)
		}
	}
}

func (c *rclient) ownerInit(rng *rand.Rand, label string) {
	for attempt := 0; attempt < 2; attempt++ {
		if c.ownerInitOnce(rng, label, attempt) {
			return
		}
	}
}

// initEntries lists the entries that are looked at when ownership starts.
func (c *rclient) initEntries(start, n uint64) ([]uint64, string) {
	r := c.w.ref
	d := r.distinguished(n)
	if start >= n || !d[start] {
		return nil, "not distinguished"
	} else if r.expired(start, n) {
		return nil, "expired"
	}
	var out []uint64
	path := refPath(start, n)
	for i := len(path) - 1; i >= 0; i-- {
		if x := path[i].x; x <= start && !r.expired(x, n) {
			out = append(out, x)
		}
	}
	return out, ""
}

func (c *rclient) ownerInitOnce(rng *rand.Rand, label string, attempt int) bool {
	g, w, env, r := c.g, c.w, c.w.env, c.w.ref
	dle := int64(-1)
	if c.size > 0 {
		dle = r.rightmostDLE(c.size)
	}
	req, verify, err := c.lib().OwnerInit([]byte(label))
	if (err == nil) != (dle >= 0 && c.own[label] == nil) {
		env.fail("request", "client %d at size %d with distinguished entry %d, owner %v: OwnerInit returns %v", c.id, c.size, dle, c.own[label] != nil, err)
	} else if err != nil {
		return true
	}
	if req.Start != uint64(dle) {
		env.fail("owner-init", "client %d starts to own %q at entry %d instead of %d", c.id, label, req.Start, dle)
	}
	n := c.pickSize(rng)
	xs, why := c.initEntries(req.Start, n)
	if why != "" {
		return true
	}
	var vers []uint32
	for _, x := range xs {
		v, ok := g.greatest(x, label)
		if !ok {
			v = rng.IntN(g.maxVer[label] + 1)
		}
		if rng.IntN(30) == 0 {
			v += rng.IntN(3) - 1
		}
		if v < 0 {
			break
		}
		vers = append(vers, uint32(v))
	}
	h := c.handle(rng, label, attempt)
	fth, nP := c.head(rng, n)
	proof, err := c.prove(h, n, nP, func(dp *algorithms.DataProvider) error {
		m, err := algorithms.NewMonitor(w.pub, n, dp)
		if err != nil {
			return err
		}
		_, err = m.OwnerInit(req.Start, vers)
		return err
	})
	if err != nil {
		env.count("prover-fails")
		return false
	}
	seen := map[uint64]bool{0: true}
	for _, v := range vers {
		for _, u := range refLadder(uint64(v)) {
			seen[u] = true
		}
	}
	var all []uint64
	for u := range seen {
		all = append(all, u)
	}
	sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
	res := &structs.OwnerInitResponse{FullTreeHead: fth, GreatestVersions: vers, Init: *proof}
	res.BinaryLadder = h.ladder(all, func(uint64) bool { return false })
	h.distort(res)
	raw, err := encodeLoose(res)
	if err != nil {
		return false
	}
	before := c.st.fingerprint()
	res, err = decode(reply{raw: raw}, true, func(b *bytes.Buffer) (*structs.OwnerInitResponse, error) {
		return structs.NewOwnerInitResponse(w.pub, b)
	})
	if err == nil {
		err = verify(res)
	}
	if !c.judge(fmt.Sprintf("init %q n=%d vers=%v tricks=%d", label, n, vers, h.tricks), err, before) {
		return false
	}
	c.accepted(res.FullTreeHead)
	n = c.size
	xs, why = c.initEntries(req.Start, n)
	if why != "" {
		env.fail("owner-init", "client %d starts to own %q at entry %d of %d, which is %s", c.id, label, req.Start, n, why)
	}
	vers = res.GreatestVersions
	coms := make(map[uint32]string)
	for i, x := range xs {
		v := -1
		if i < len(vers) {
			v = int(vers[i])
		}
		if i > 0 && i < len(vers) && vers[i] > vers[i-1] {
			env.fail("owner-init", "client %d starts to own %q although its greatest version goes down from %d in entry %d", c.id, label, v, x)
		}
		if !g.exact(x, label, v) {
			env.fail("owner-init", "client %d starts to own %q with version %d in entry %d, which has %v", c.id, label, v, x, g.present(g.snaps[x], label))
		}
		for _, u := range refLadder(uint64(max(v, 0))) {
			if int(u) > v {
				continue
			}
			com := g.have(x, label, int(u))
			if old, ok := coms[uint32(u)]; ok && old != com {
				env.fail("owner-init", "client %d starts to own %q, whose version %d has several values", c.id, label, u)
			}
			coms[uint32(u)] = com
		}
	}
	if len(vers) > len(xs) {
		env.fail("owner-init", "client %d accepts %d versions for %d entries", c.id, len(vers), len(xs))
	}
	exp := &ownerExp{starting: req.Start, verAt: -1}
	if len(vers) > 0 {
		exp.verAt = int(vers[0])
	}
	c.own[label] = exp
	c.coms[label] = coms
	c.prune(label)
	env.count("owned")
	c.check()
	return true
}

// lacks says if entry x does not have the version that the owner knows.
func (g *rogue) lacks(x uint64, label string, ver int, coms map[uint32]string) bool {
	com, ok := coms[uint32(ver)]
	has := g.have(x, label, ver)
	return has == "" || ok && has != com
}

func (c *rclient) update(rng *rand.Rand, label string) {
	g := c.g
	if c.own[label] == nil {
		c.updateOnce(rng, label, 0, nil)
		return
	}
	var vals [][]byte
	if rng.IntN(4) > 0 {
		for i := 0; i <= rng.IntN(3); i++ {
			vals = append(vals, randVal(rng))
		}
		g.entry(rng, int64(rng.IntN(6)), map[string][][]byte{label: vals})
		for rng.IntN(3) == 0 {
			g.entry(rng, int64(rng.IntN(3)), nil)
		}
	}
	for attempt := 0; attempt < 2; attempt++ {
		if c.updateOnce(rng, label, attempt, vals) {
			return
		}
	}
}

func (c *rclient) updateOnce(rng *rand.Rand, label string, attempt int, vals [][]byte) bool {
	g, w, env, r := c.g, c.w, c.w.env, c.w.ref
	exp := c.own[label]
	req, sv, err := c.lib().Update([]byte(label), vals)
	if (err == nil) != (exp != nil) {
		env.fail("request", "client %d, owner of %q: %v: Update returns %v", c.id, label, exp != nil, err)
	} else if err != nil {
		return true
	}
	_ = req
	n := c.pickSize(rng)
	start := exp.greatest() + 1
	last := exp.starting
	if k := len(exp.upcoming); k > 0 {
		last = exp.upcoming[k-1]
	}
	// Where do the next versions appear?
	pos := uint64(rng.IntN(int(n)))
	count := max(1, len(vals))
	if rng.IntN(5) > 0 {
		for x := last + 1; x < n; x++ {
			if g.have(x, label, start) != "" {
				pos = x
				for count = 1; g.have(x, label, start+count) != "" && count < 9; count++ {
				}
				break
			}
		}
	}
	h := c.handle(rng, label, attempt)
	fth, nP := c.head(rng, n)
	before := c.st.fingerprint()
	proof, err := c.prove(h, n, nP, func(dp *algorithms.DataProvider) error {
		m, err := algorithms.NewMonitor(w.pub, n, dp)
		if err != nil {
			return err
		}
		ls := c.labelState(label)
		m.Contact = algorithms.NewContactState(ls.Contact)
		m.Owner = algorithms.NewOwnerState(ls.Owner)
		return m.Update(pos, count)
	})
	if err != nil {
		env.count("prover-fails")
		return false
	}
	res := &structs.UpdateResponse{FullTreeHead: fth, Position: pos, Update: *proof}
	own := len(vals) == count
	for v := start; v < start+count; v++ {
		f := h.reveal(v)
		if com := g.have(pos, label, v); com != "" && rng.IntN(10) > 0 {
			f = g.facts[com]
		}
		own = own && bytes.Equal(f.val.Value, vals[v-start])
		res.Info = append(res.Info, structs.UpdateInfo{Opening: f.opening, UpdateSuffix: f.val.UpdateSuffix})
		res.Values = append(res.Values, structs.LabelValue{Value: f.val.Value})
	}
	if own && rng.IntN(8) > 0 || rng.IntN(30) == 0 {
		res.Values = nil
	}
	known := map[uint64]bool{}
	if start > 0 {
		for _, u := range refLadder(uint64(start - 1)) {
			known[u] = true
		}
	} else {
		known[0] = true
	}
	var all []uint64
	for _, u := range refLadder(uint64(start + count - 1)) {
		if !known[u] {
			all = append(all, u)
		}
	}
	for v := start; v < start+count-1; v++ {
		if !known[uint64(v)] && !slices.Contains(all, uint64(v)) {
			all = append(all, uint64(v))
		}
	}
	slices.Sort(all)
	res.BinaryLadder = h.ladder(all, func(u uint64) bool { return u >= uint64(start) })
	h.distort(res)
	raw, err := encodeLoose(res)
	if err != nil {
		return false
	}
	res, err = decode(reply{raw: raw}, true, func(b *bytes.Buffer) (*structs.UpdateResponse, error) {
		return structs.NewUpdateResponse(w.pub, b)
	})
	if err == nil {
		err = sv.Verify(res)
	}
	if !c.judge(fmt.Sprintf("update %q n=%d versions %d+%d in %d own=%v tricks=%d", label, n, start, count, pos, own, h.tricks), err, before) {
		return false
	}
	c.accepted(res.FullTreeHead)
	n, pos = c.size, res.Position
	values := vals
	if len(res.Values) > 0 {
		values = nil
		for _, v := range res.Values {
			values = append(values, v.Value)
		}
	}
	end := start + len(values) - 1
	if len(values) == 0 || len(values) != len(res.Info) || pos >= n || pos <= last {
		env.fail("update", "client %d accepts %d new versions of %q in entry %d of %d, after entry %d", c.id, len(values), label, pos, n, last)
	}
	d := r.distinguished(n)
	coms := c.coms[label]
	inLadder := make(map[int]bool)
	for _, u := range refLadder(uint64(end)) {
		inLadder[int(u)] = true
	}
	top := ""
	for i, val := range values {
		v := start + i
		com := string(w.commit(label, v, res.Info[i].Opening, structs.UpdateValue{Value: val, UpdateSuffix: res.Info[i].UpdateSuffix}))
		if (!d[pos] || !inLadder[v]) && g.have(pos, label, v) != com {
			env.fail("update", "client %d accepts version %d of %q in entry %d, which does not have it", c.id, v, label, pos)
		}
		if w.cfg.Mode == modeManaged {
			f, ok := g.facts[com]
			if ok && !f.signed {
				env.fail("update", "client %d accepts version %d of %q, which the service operator has not signed", c.id, v, label)
			}
		}
		coms[uint32(v)] = com
		top = com
	}
	if !d[pos] {
		if g.have(pos, label, end+1) != "" {
			env.fail("update", "client %d accepts that version %d of %q is the greatest in entry %d, which has more", c.id, end, label, pos)
		}
		for u := range inLadder {
			if com, ok := coms[uint32(u)]; ok && u <= end && u >= start && g.have(pos, label, u) != com {
				env.fail("update", "client %d accepts entry %d in which version %d of %q has another value", c.id, pos, u, label)
			}
		}
	}
	// The tree before the update: entries that owners do not have to look at
	// anyway, and that are not covered by an earlier update.
	old, above := -1, exp.verAt
	first := true
	if pos > 0 {
		for _, x := range refFrontier(pos) {
			if d[x] {
				above = -1
				if x >= exp.starting {
					above = exp.verAt
					for _, u := range exp.upcoming {
						if u <= x {
							above++
						}
					}
				}
				continue
			}
			if first {
				old, first = above, false
				if x == refRoot(pos).x {
					old = -1
				}
			} else {
				old = start - 1
			}
			if x <= last {
				continue
			}
			if start == 0 {
				if g.have(x, label, 0) != "" {
					env.fail("update", "client %d accepts version 0 of %q as new in entry %d, but it is there in entry %d", c.id, label, pos, x)
				}
				continue
			}
			for _, u := range refLadder(uint64(start - 1)) {
				v := int(u)
				if v >= start && g.have(x, label, v) != "" {
					env.fail("update", "client %d accepts version %d of %q as new in entry %d, but entry %d has version %d", c.id, start, label, pos, x, v)
				}
				if v < start && v > old && g.lacks(x, label, v, coms) {
					env.fail("update", "client %d accepts version %d of %q in entry %d, but entry %d does not have version %d", c.id, start, label, pos, x, v)
				}
			}
		}
	}
	for range values {
		exp.upcoming = append(exp.upcoming, pos)
	}
	c.prune(label)
	if !d[pos] {
		c.looked(label, []uint64{pos}, end)
		c.owe(label, obligation{pos, uint32(end), pos, top})
	}
	env.count("updates")
	c.check()
	return true
}
