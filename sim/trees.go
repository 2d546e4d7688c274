package main

import (
	"bytes"
	"errors"
	"math/bits"
	"math/rand/v2"
	"slices"
	"sort"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/log"
	"github.com/Bren2010/katie/tree/prefix"
)

// The tree workloads: the two Merkle trees on stores that fail at any read or
// write, with readers that overlap changes, and proofs that are forged. The
// oracle is a map of leaves per version.

var errStore = errors.New("simulated store failure")

// flakyStore decides what happens at every access to a store.
type flakyStore struct {
	gets, puts     int
	failGet, omit  int // The access at which it happens, or 0.
	short, failPut int
	hit            bool
	during         func() // Called once within the next read.
	wrote          bool
}

func (f *flakyStore) reset() { *f = flakyStore{wrote: f.wrote} }

func (f *flakyStore) get() error {
	f.gets++
	if d := f.during; d != nil {
		f.during = nil
		d()
	}
	if f.gets == f.failGet {
		f.hit = true
		return errStore
	}
	return nil
}

func (f *flakyStore) put() error {
	f.puts++
	if f.puts == f.failPut {
		f.hit = true
		return errStore
	}
	f.wrote = true
	return nil
}

func flakyMap[K comparable](f *flakyStore, less func(a, b K) int, in map[K][]byte) map[K][]byte {
	if f.gets != f.omit && f.gets != f.short {
		return in
	}
	var keys []K
	for k := range in {
		keys = append(keys, k)
	}
	slices.SortFunc(keys, less)
	if len(keys) == 0 {
		return in
	}
	k := keys[f.puts%len(keys)]
	out := make(map[K][]byte)
	for o, v := range in {
		out[o] = v
	}
	f.hit = true
	if f.gets == f.omit {
		delete(out, k)
	} else {
		out[k] = out[k][:len(out[k])/2|1]
	}
	return out
}

// ---- Prefix tree.

type flakyPrefix struct {
	*flakyStore
	inner interface {
		BatchGet(keys []string) (map[string][]byte, error)
		Put(key string, value []byte) error
		Delete(key string) error
	}
}

func (s *flakyPrefix) BatchGet(keys []string) (map[string][]byte, error) {
	if err := s.get(); err != nil {
		return nil, err
	}
	out, err := s.inner.BatchGet(keys)
	if err != nil {
		return nil, err
	}
	return flakyMap(s.flakyStore, func(a, b string) int { return bytes.Compare([]byte(a), []byte(b)) }, out), nil
}
func (s *flakyPrefix) Put(key string, value []byte) error {
	if err := s.put(); err != nil {
		return err
	}
	return s.inner.Put(key, bytes.Clone(value))
}
func (s *flakyPrefix) Delete(key string) error { return s.inner.Delete(key) }

// refResult is the result for one key in a proof.
type refResult struct {
	kind, depth int
	key, com    []byte
}

type refProof struct {
	res   []refResult
	elems [][]byte
}

func (p *refProof) clone() *refProof {
	return &refProof{res: slices.Clone(p.res), elems: slices.Clone(p.elems)}
}

// encode returns nil if the proof can not be encoded.
func (p *refProof) encode() []byte {
	if len(p.res) > 255 || len(p.elems) > 65535 {
		return nil
	}
	out := []byte{byte(len(p.res))}
	for _, r := range p.res {
		out = append(out, byte(r.kind))
		if r.kind == 2 {
			out = append(append(out, r.key...), r.com...)
		}
		out = append(out, byte(r.depth))
	}
	out = append(out, byte(len(p.elems)>>8), byte(len(p.elems)))
	for _, e := range p.elems {
		out = append(out, e...)
	}
	return out
}

// refPrefixProof is the one proof for a batch of keys, and their commitments.
func refPrefixProof(leaves map[string][]byte, keys [][]byte) (*refProof, [][]byte) {
	all := sortedKeys(leaves)
	type item struct {
		key string
		i   int
	}
	items := make([]item, len(keys))
	for i, k := range keys {
		items[i] = item{string(k), i}
	}
	sort.SliceStable(items, func(i, j int) bool { return items[i].key < items[j].key })

	out := &refProof{res: make([]refResult, len(keys))}
	coms := make([][]byte, len(keys))

	var hash func(leaves_ []string, depth int) []byte
	hash = func(ks []string, depth int) []byte {
		if len(ks) == 0 {
			return make([]byte, 32)
		} else if len(ks) == 1 {
			return sha([]byte{2}, []byte(ks[0]), leaves[ks[0]])
		}
		i := sort.Search(len(ks), func(i int) bool { return bitAt(ks[i], depth) == 1 })
		return sha([]byte{3}, hash(ks[:i], depth+1), hash(ks[i:], depth+1))
	}
	var walk func(ks []string, items []item, depth int)
	walk = func(ks []string, items []item, depth int) {
		switch {
		case len(items) == 0:
			out.elems = append(out.elems, hash(ks, depth))
		case len(ks) == 0:
			for _, it := range items {
				out.res[it.i] = refResult{kind: 3, depth: depth}
			}
		case len(ks) == 1:
			for _, it := range items {
				if it.key == ks[0] {
					out.res[it.i] = refResult{kind: 1, depth: depth}
					coms[it.i] = leaves[ks[0]]
				} else {
					out.res[it.i] = refResult{kind: 2, depth: depth, key: []byte(ks[0]), com: leaves[ks[0]]}
				}
			}
		default:
			i := sort.Search(len(ks), func(i int) bool { return bitAt(ks[i], depth) == 1 })
			j := sort.Search(len(items), func(j int) bool { return bitAt(items[j].key, depth) == 1 })
			walk(ks[:i], items[:j], depth+1)
			walk(ks[i:], items[j:], depth+1)
		}
	}
	walk(all, items, 0)
	return out, coms
}

func genTrees(weights map[string]int) func(*rand.Rand, *Plan, string) {
	return func(rng *rand.Rand, plan *Plan, tier string) {
		c := plan.Cfg
		c["suite"] = []int64{0, 0, 1, 2}[rng.IntN(4)]
		c["keys"] = []int64{4, 12, 40, 100, 400}[rng.IntN(5)]
		c["close"] = rng.Int64N(4)
		c["batch"] = []int64{2, 5, 20, 200}[rng.IntN(4)]
		c["base"] = 0
		if rng.IntN(2) == 0 {
			c["base"] = rng.Int64N(7)
		}
		n := 15 + rng.IntN(40)
		if tier == "thorough" {
			n *= 1 + rng.IntN(4)
		}
		for i := 0; i < n; i++ {
			plan.Ops = append(plan.Ops, Op{K: pick(rng, weights), A: rng.Int64N(64), B: rng.Int64N(64), S: rng.Uint64()})
		}
	}
}

type prefixRun struct {
	env   *Env
	cs    suites.CipherSuite
	f     *flakyStore
	tree  *prefix.Tree
	keys  [][]byte
	batch int
	vers  []map[string][]byte
	roots [][]byte
	dirty bool // A failed change left something in the store.
}

func runPrefix(env *Env) {
	c := env.plan.Cfg
	p := &prefixRun{env: env, cs: keysFor(c["suite"]).suite, f: &flakyStore{}, batch: int(c["batch"])}
	p.tree = prefix.NewTree(p.cs, &flakyPrefix{p.f, memory.NewPrefixStore()})
	p.vers = []map[string][]byte{{}}
	p.roots = [][]byte{make([]byte, 32)}
	for len(p.keys) < int(c["keys"]) {
		k := sha(u64(env.rng.Uint64()))
		if len(p.keys) > 0 && env.rng.Int64N(4) < c["close"] {
			// Shares a prefix with another key.
			k = bytes.Clone(p.keys[env.rng.IntN(len(p.keys))])
			i := env.rng.IntN(255)
			if env.rng.IntN(2) == 0 {
				i = env.rng.IntN(24)
			}
			k[i/8] ^= 0x80 >> (i % 8)
			if env.rng.IntN(2) == 0 {
				for j := i + 1; j < 255; j++ {
					if env.rng.IntN(2) == 0 {
						k[j/8] ^= 0x80 >> (j % 8)
					}
				}
			}
		}
		if !slices.ContainsFunc(p.keys, func(o []byte) bool { return bytes.Equal(o[:31], k[:31]) && o[31]|1 == k[31]|1 }) {
			p.keys = append(p.keys, k)
		}
	}
	for _, op := range env.plan.Ops {
		p.f.reset()
		p.step(op)
	}
	p.f.reset()
	// Every version is still there.
	rng := newRand(env.plan.Seed)
	for v := 1; v < len(p.vers); v++ {
		p.search(rng, v)
	}
	env.sig("k%d.c%d.b%d", len(p.keys), c["close"], p.batch)
}

func (p *prefixRun) cur() int { return len(p.vers) - 1 }

// change picks a legal change of the newest version.
func (p *prefixRun) change(rng *rand.Rand, size int) (add []prefix.Entry, remove [][]byte, after map[string][]byte, collapses bool) {
	before := p.vers[p.cur()]
	after = make(map[string][]byte, len(before))
	for k, v := range before {
		after[k] = v
	}
	touched := make(map[string]bool)
	rem := rng.IntN(3) == 0
	for _, i := range rng.Perm(len(p.keys)) {
		if len(touched) >= size {
			break
		}
		k := string(p.keys[i])
		if _, ok := before[k]; !ok {
			if rng.IntN(4) == 0 && rem {
				continue
			}
		} else if !rem {
			continue
		} else {
			touched[k] = true
			remove = append(remove, []byte(k))
			delete(after, k)
			if rng.IntN(3) > 0 {
				continue
			}
		}
		touched[k] = true
		e := prefix.Entry{VrfOutput: []byte(k), Commitment: sha(u64(rng.Uint64()))}
		if c, ok := before[k]; ok && rng.IntN(4) == 0 {
			e.Commitment = c // Replaced by itself.
		}
		add = append(add, e)
		after[k] = e.Commitment
	}
	rng.Shuffle(len(remove), func(i, j int) { remove[i], remove[j] = remove[j], remove[i] })
	return add, remove, after, refCollapses(before, after, touched)
}

func (p *prefixRun) size(rng *rand.Rand, op Op) int {
	if op.A%8 == 0 {
		return 0
	}
	return 1 + rng.IntN(p.batch)
}

// mutate applies a change to the tree. It may fail if a fault was armed.
func (p *prefixRun) mutate(rng *rand.Rand, size int) {
	env := p.env
	add, remove, after, collapses := p.change(rng, size)
	v := p.cur()
	wrote := p.f.wrote
	p.f.wrote = false
	a2, r2 := slices.Clone(add), slices.Clone(remove)
	root, proof, coms, err := p.tree.Mutate(uint64(v), add, remove)
	if !slices.EqualFunc(add, a2, func(x, y prefix.Entry) bool {
		return bytes.Equal(x.VrfOutput, y.VrfOutput) && bytes.Equal(x.Commitment, y.Commitment)
	}) || !slices.EqualFunc(remove, r2, bytes.Equal) {
		env.fail("arguments", "a mutation changes its arguments")
	}
	if p.f.hit {
		env.count("fault:store")
		if err == nil {
			env.fail("ignored-fault", "a change of version %d goes through although the store failed", v)
		}
		env.logf("mutate %d +%d -%d fails", v, len(add), len(remove))
		env.sig("f")
		p.dirty = true
		p.f.reset()
		return
	} else if err != nil {
		env.fail("refused-change", "a legal change of version %d (+%d -%d) is refused: %v", v, len(add), len(remove), err)
	}
	p.f.wrote = p.f.wrote || wrote
	want := refPrefixRoot(after)
	if !bytes.Equal(root, want) {
		env.fail("wrong-root", "the root of version %d is wrong", v+1)
	}
	before := p.vers[v]
	for i, k := range remove {
		if i >= len(coms) || !bytes.Equal(coms[i], before[string(k)]) {
			env.fail("wrong-commitments", "the removed commitments of version %d are wrong", v+1)
		}
	}
	if len(coms) != len(remove) {
		env.fail("wrong-commitments", "%d commitments for %d removed keys", len(coms), len(remove))
	}
	var keys [][]byte
	for _, e := range add {
		keys = append(keys, e.VrfOutput)
	}
	keys = append(keys, remove...)
	ref, _ := refPrefixProof(before, keys)
	p.sameProof("mutation", proof, ref)
	var rem []prefix.Entry
	for i, k := range remove {
		rem = append(rem, prefix.Entry{VrfOutput: k, Commitment: coms[i]})
	}
	b, a, err := prefix.EvaluateBeforeAfter(p.cs, add, rem, proof)
	if err != nil {
		env.fail("proof", "the proof of a mutation is not accepted: %v", err)
	} else if !bytes.Equal(b, p.roots[v]) || (!collapses && !bytes.Equal(a, want)) {
		env.fail("proof", "the proof of a mutation of version %d (+%d -%d) gives wrong roots", v, len(add), len(remove))
	}
	p.vers = append(p.vers, after)
	p.roots = append(p.roots, want)
	p.dirty = false
	env.logf("mutate %d +%d -%d", v, len(add), len(remove))
	env.sig("m%d.%d", min(len(add), 3), min(len(remove), 3))
	env.count("mutations")
}

func (p *prefixRun) sameProof(what string, proof *prefix.PrefixProof, ref *refProof) {
	env := p.env
	buf := &bytes.Buffer{}
	err := proof.Marshal(buf)
	want := ref.encode()
	if want == nil {
		if err == nil {
			env.fail("encoding", "a proof that is too large is encoded")
		}
		if len(proof.Results) != len(ref.res) {
			env.fail("wrong-proof", "%s: number of results", what)
		}
		return
	}
	if err != nil {
		env.fail("encoding", "a %s proof can not be encoded: %v", what, err)
	} else if !bytes.Equal(buf.Bytes(), want) {
		env.fail("wrong-proof", "the proof of a %s is not right", what)
	}
}

// someKeys picks keys that exist, existed, never existed, or are close to others.
func (p *prefixRun) someKeys(rng *rand.Rand, n int) [][]byte {
	var out [][]byte
	for range n {
		k := p.keys[rng.IntN(len(p.keys))]
		switch rng.IntN(6) {
		case 0:
			k = sha(u64(rng.Uint64()))
		case 1:
			k = bytes.Clone(k)
			i := rng.IntN(256)
			k[i/8] ^= 0x80 >> (i % 8)
		case 2:
			k = make([]byte, 32)
			if rng.IntN(2) == 0 {
				k = bytes.Repeat([]byte{255}, 32)
			}
		}
		out = append(out, k)
	}
	return out
}

func distinctKeys(ks [][]byte) [][]byte {
	var out [][]byte
	for _, k := range ks {
		if !slices.ContainsFunc(out, func(o []byte) bool { return bytes.Equal(o, k) }) {
			out = append(out, k)
		}
	}
	return out
}

func (p *prefixRun) search(rng *rand.Rand, ver int) {
	var qs []prefix.PrefixSearch
	for range 1 + rng.IntN(4) {
		v := 1 + rng.IntN(p.cur())
		if ver > 0 {
			v = ver
		}
		n := rng.IntN(6)
		if rng.IntN(8) == 0 {
			n = rng.IntN(300)
		}
		qs = append(qs, prefix.PrefixSearch{Version: uint64(v), VrfOutputs: p.someKeys(rng, n)})
		if rng.IntN(4) > 0 {
			qs[len(qs)-1].VrfOutputs = distinctKeys(qs[len(qs)-1].VrfOutputs)
		}
	}
	p.doSearch(qs)
}

func (p *prefixRun) doSearch(qs []prefix.PrefixSearch) {
	env := p.env
	res, err := p.tree.Search(qs)
	if p.f.hit {
		env.count("fault:store")
		if err == nil {
			env.fail("ignored-fault", "a search succeeds although the store failed")
		}
		env.logf("search fails")
		p.f.reset()
		return
	}
	env.count("searches")
	if err != nil {
		env.fail("refused-search", "a search in versions that exist fails: %v", err)
	} else if len(res) != len(qs) {
		env.fail("wrong-proof", "%d results for %d searches", len(res), len(qs))
	}
	for i, q := range qs {
		ref, coms := refPrefixProof(p.vers[q.Version], q.VrfOutputs)
		if !slices.EqualFunc(res[i].Commitments, coms, bytes.Equal) {
			env.fail("wrong-commitments", "a search in version %d of %d returns wrong commitments", q.Version, p.cur())
		}
		for j := range coms {
			if (coms[j] == nil) != (res[i].Commitments[j] == nil) {
				env.fail("wrong-commitments", "a search in version %d of %d returns wrong commitments", q.Version, p.cur())
			}
		}
		p.sameProof("search", &res[i].Proof, ref)
		enc := ref.encode()
		if enc == nil || len(distinctKeys(q.VrfOutputs)) != len(q.VrfOutputs) {
			continue
		}
		p.verify(q.VrfOutputs, coms, enc, p.roots[q.Version], true)
	}
	env.logf("search %d", len(qs))
}

// verify parses a proof and checks the verdict about it.
func (p *prefixRun) verify(keys, coms [][]byte, enc, root []byte, want bool) {
	env := p.env
	buf := bytes.NewBuffer(bytes.Clone(enc))
	proof, err := prefix.NewPrefixProof(p.cs, buf)
	if err != nil {
		if want {
			env.fail("refused-proof", "a proof is not decoded: %v", err)
		}
		return
	} else if buf.Len() > 0 {
		env.fail("encoding", "%d bytes left over after a proof", buf.Len())
	}
	var es []prefix.Entry
	for i, k := range keys {
		es = append(es, prefix.Entry{VrfOutput: bytes.Clone(k), Commitment: bytes.Clone(coms[i])})
	}
	err = prefix.Verify(p.cs, es, proof, root)
	cand, err2 := prefix.Evaluate(p.cs, es, proof)
	switch ok := err2 == nil && bytes.Equal(cand, root); {
	case ok != (err == nil):
		env.fail("verdict", "verification and evaluation of a proof disagree: %v, %v", err, err2)
	case ok && !want:
		env.fail("false-proof", "a false proof is accepted: %x", enc)
	case !ok && want:
		env.fail("refused-proof", "a right proof is refused: %v", err)
	}
}

func (p *prefixRun) step(op Op) {
	env := p.env
	rng := newRand(op.S)
	if p.cur() == 0 && op.K != "mut" && op.K != "badmut" {
		op.K = "mut"
	}
	fault := func() {
		switch rng.IntN(4) {
		case 0:
			p.f.failGet = 1 + rng.IntN(4)
		case 1:
			p.f.omit = 1 + rng.IntN(4)
		case 2:
			p.f.short = 1 + rng.IntN(4)
		case 3:
			p.f.failPut = 1 + rng.IntN(4)
		}
	}
	switch op.K {
	case "mut":
		p.mutate(rng, p.size(rng, op))
	case "failmut":
		fault()
		p.mutate(rng, p.size(rng, op))
	case "search":
		p.search(rng, 0)
	case "failsearch":
		fault()
		p.search(rng, 0)
	case "overlap":
		// The tree is changed while it is searched, or before it is changed again.
		p.f.during = func() {
			env.count("fault:overlap")
			if rng.IntN(3) == 0 {
				p.search(rng, 0)
			} else {
				p.mutate(rng, 1+rng.IntN(p.batch))
			}
		}
		p.search(rng, 0)
	case "badmut":
		p.badMutate(rng)
	case "badsearch":
		p.badSearch(rng)
	case "forge":
		for range 12 {
			p.forge(rng)
		}
	case "forgemut":
		for range 6 {
			p.forgeChange(rng)
		}
	}
}

func (p *prefixRun) badMutate(rng *rand.Rand) {
	env := p.env
	add, remove, after, _ := p.change(rng, 1+rng.IntN(5))
	v := uint64(p.cur())
	kind := rng.IntN(8)
	removed := func(k []byte) bool {
		return slices.ContainsFunc(remove, func(o []byte) bool { return bytes.Equal(o, k) })
	}
	switch kind {
	case 0: // Added twice.
		if len(add) == 0 {
			return
		}
		e := add[rng.IntN(len(add))]
		add = append(add, prefix.Entry{VrfOutput: e.VrfOutput, Commitment: sha(e.Commitment)})
	case 1: // There already.
		k := p.keys[rng.IntN(len(p.keys))]
		if p.vers[v][string(k)] == nil || removed(k) {
			return
		}
		com := sha(k)
		if rng.IntN(2) == 0 {
			com = p.vers[v][string(k)]
		}
		add = append(add, prefix.Entry{VrfOutput: k, Commitment: com})
	case 2: // Not there.
		k := p.someKeys(rng, 1)[0]
		if p.vers[v][string(k)] != nil {
			return
		}
		remove = append(remove, k)
	case 3:
		if len(remove) == 0 {
			return
		}
		remove = append(remove, remove[rng.IntN(len(remove))])
	case 4:
		add = append(add, prefix.Entry{VrfOutput: sha(u64(1))[:rng.IntN(32)], Commitment: sha(u64(2))})
	case 5:
		add = append(add, prefix.Entry{VrfOutput: sha(u64(rng.Uint64())), Commitment: append(sha(u64(2)), 0)[:[]int{0, 31, 33}[rng.IntN(3)]]})
	case 6:
		remove = append(remove, append(sha(u64(rng.Uint64())), 0)[:[]int{0, 31, 33}[rng.IntN(3)]])
	case 7:
		v += 1 + uint64(rng.IntN(3)) // Does not exist yet.
		if p.dirty {
			return // A failed change may have left parts of it.
		}
	}
	_ = after
	rng.Shuffle(len(add), func(i, j int) { add[i], add[j] = add[j], add[i] })
	rng.Shuffle(len(remove), func(i, j int) { remove[i], remove[j] = remove[j], remove[i] })
	p.f.wrote = false
	_, _, _, err := p.tree.Mutate(v, add, remove)
	if err == nil {
		env.fail("bad-change", "an illegal change (%d) is accepted", kind)
	} else if p.f.wrote {
		env.fail("bad-change", "an illegal change (%d) is refused but leaves traces", kind)
	}
	env.count("refused-changes")
	env.logf("refused change %d", kind)
	env.sig("b%d", kind)
}

func (p *prefixRun) badSearch(rng *rand.Rand) {
	env := p.env
	qs := []prefix.PrefixSearch{{Version: uint64(1 + rng.IntN(p.cur())), VrfOutputs: p.someKeys(rng, rng.IntN(4))}}
	bad := prefix.PrefixSearch{Version: uint64(1 + rng.IntN(p.cur())), VrfOutputs: p.someKeys(rng, rng.IntN(4))}
	kind := rng.IntN(3)
	switch kind {
	case 0:
		bad.Version = 0
	case 1:
		bad.Version = uint64(p.cur() + 1 + rng.IntN(3))
		if p.dirty {
			return
		}
	case 2:
		bad.VrfOutputs = append(bad.VrfOutputs, make([]byte, []int{0, 31, 33, 16}[rng.IntN(4)]))
	}
	qs = append(qs, bad)
	rng.Shuffle(len(qs), func(i, j int) { qs[i], qs[j] = qs[j], qs[i] })
	if _, err := p.tree.Search(qs); err == nil {
		env.fail("bad-search", "a search that makes no sense (%d) succeeds", kind)
	}
	env.count("refused-searches")
	env.sig("q%d", kind)
}

// damage changes a proof.
func (p *prefixRun) damage(rng *rand.Rand, pr *refProof, leaves map[string][]byte, keys [][]byte) {
	all := sortedKeys(leaves)
	aLeaf := func() ([]byte, []byte) {
		if len(all) == 0 || rng.IntN(5) == 0 {
			k := sha(u64(rng.Uint64()))
			return k, sha(k)
		}
		k := all[rng.IntN(len(all))]
		return []byte(k), leaves[k]
	}
	elem := func() []byte {
		switch rng.IntN(5) {
		case 0:
			return make([]byte, 32)
		case 1:
			k, c := aLeaf()
			return sha([]byte{2}, k, c)
		case 2:
			if len(pr.elems) > 0 {
				return pr.elems[rng.IntN(len(pr.elems))]
			}
		case 3:
			return p.roots[rng.IntN(len(p.roots))]
		}
		return sha(u64(rng.Uint64()))
	}
	switch rng.IntN(9) {
	case 0:
		if len(pr.res) > 0 {
			i := rng.IntN(len(pr.res))
			pr.res[i].kind = 1 + rng.IntN(3)
			if pr.res[i].kind == 2 && pr.res[i].key == nil {
				pr.res[i].key, pr.res[i].com = aLeaf()
			}
		}
	case 1:
		if len(pr.res) > 0 {
			i := rng.IntN(len(pr.res))
			pr.res[i].depth = max(0, min(255, pr.res[i].depth+rng.IntN(5)-2))
			if rng.IntN(6) == 0 {
				pr.res[i].depth = rng.IntN(256)
			}
		}
	case 2:
		if len(pr.res) > 0 {
			i := rng.IntN(len(pr.res))
			pr.res[i].kind = 2
			pr.res[i].key, pr.res[i].com = aLeaf()
			if rng.IntN(3) == 0 {
				pr.res[i].key = keys[rng.IntN(len(keys))]
			}
		}
	case 3:
		if len(pr.elems) > 0 {
			pr.elems[rng.IntN(len(pr.elems))] = elem()
		}
	case 4:
		if len(pr.elems) > 0 {
			i := rng.IntN(len(pr.elems))
			pr.elems = slices.Delete(slices.Clone(pr.elems), i, i+1)
		}
	case 5:
		pr.elems = slices.Insert(slices.Clone(pr.elems), rng.IntN(len(pr.elems)+1), elem())
	case 6:
		if len(pr.elems) > 1 {
			i, j := rng.IntN(len(pr.elems)), rng.IntN(len(pr.elems))
			pr.elems[i], pr.elems[j] = pr.elems[j], pr.elems[i]
		}
	case 7:
		if len(pr.res) > 1 {
			i, j := rng.IntN(len(pr.res)), rng.IntN(len(pr.res))
			pr.res[i], pr.res[j] = pr.res[j], pr.res[i]
		}
	case 8:
		if len(pr.res) > 0 && rng.IntN(2) == 0 {
			i := rng.IntN(len(pr.res))
			pr.res = slices.Delete(slices.Clone(pr.res), i, i+1)
		} else {
			pr.res = append(slices.Clone(pr.res), refResult{kind: 3, depth: rng.IntN(4)})
		}
	}
}

func (p *prefixRun) forge(rng *rand.Rand) {
	env := p.env
	v := 1 + rng.IntN(p.cur())
	keys := distinctKeys(p.someKeys(rng, 1+rng.IntN(6)))
	leaves := p.vers[v]
	ref, coms := refPrefixProof(leaves, keys)
	right := ref.encode()
	pr := ref.clone()
	claims := slices.Clone(coms)
	root := p.roots[v]
	for range 1 + rng.IntN(2) {
		switch rng.IntN(14) {
		case 0: // Something else is claimed.
			i := rng.IntN(len(claims))
			switch rng.IntN(4) {
			case 0:
				claims[i] = nil
			case 1:
				claims[i] = sha(u64(rng.Uint64()))
			case 2:
				claims[i] = coms[rng.IntN(len(coms))]
			case 3:
				claims[i] = make([]byte, []int{0, 31, 33}[rng.IntN(3)])
			}
		case 1: // Another version.
			w := 1 + rng.IntN(p.cur())
			if rng.IntN(2) == 0 {
				root = p.roots[w]
			} else {
				pr, claims = refPrefixProof(p.vers[w], keys)
				claims = slices.Clone(claims)
			}
		case 2: // Another order.
			i, j := rng.IntN(len(keys)), rng.IntN(len(keys))
			keys[i], keys[j] = keys[j], keys[i]
			claims[i], claims[j] = claims[j], claims[i]
		case 3: // Another key.
			keys[rng.IntN(len(keys))] = p.someKeys(rng, 1)[0]
		case 4: // Presented as included at the place where another leaf is.
			i := rng.IntN(len(keys))
			if pr.res[min(i, len(pr.res)-1)].kind == 2 && i < len(pr.res) {
				claims[i] = pr.res[i].com
				pr.res[i] = refResult{kind: 1, depth: pr.res[i].depth}
			}
		case 5: // Presented as missing where it is.
			i := rng.IntN(len(keys))
			if i < len(pr.res) && pr.res[i].kind == 1 && claims[i] != nil {
				pr.res[i] = refResult{kind: 2, depth: pr.res[i].depth, key: keys[i], com: claims[i]}
				if rng.IntN(2) == 0 {
					pr.res[i].key, pr.res[i].com = bytes.Clone(keys[i]), sha(claims[i])
				}
				claims[i] = nil
			}
		case 6:
			if rng.IntN(8) == 0 {
				root = root[:rng.IntN(32)]
			}
		default:
			p.damage(rng, pr, leaves, keys)
		}
		if len(pr.res) == 0 {
			break
		}
	}
	enc := pr.encode()
	if rng.IntN(10) == 0 {
		enc = bytes.Clone(enc)
		enc[rng.IntN(len(enc))] ^= 1 << rng.IntN(8)
	}
	// The one proof of the claims.
	want := len(distinctKeys(keys)) == len(keys)
	which := slices.IndexFunc(p.roots[1:], func(r []byte) bool { return bytes.Equal(r, root) }) + 1
	if which == 0 {
		want = false
	} else {
		ref, coms = refPrefixProof(p.vers[which], keys)
		if right = ref.encode(); !bytes.Equal(right, enc) {
			want = false
		}
		for i := range keys {
			if claims[i] != nil && len(claims[i]) != 32 {
				want = false
			} else if coms[i] != nil && !bytes.Equal(coms[i], claims[i]) {
				want = false
			}
		}
	}
	env.count("forged")
	if want {
		env.count("forged-right")
	}
	p.verifyForged(keys, claims, enc, root, want)
	env.logf("forge %v", want)
}

func (p *prefixRun) verifyForged(keys, claims [][]byte, enc, root []byte, want bool) {
	// Bytes after the proof are not a part of it.
	buf := bytes.NewBuffer(bytes.Clone(enc))
	if _, err := prefix.NewPrefixProof(p.cs, buf); err == nil && buf.Len() > 0 {
		return
	}
	p.verify(keys, claims, enc, root, want)
}

// forgeChange checks what a verifier concludes from a false proof about a change.
func (p *prefixRun) forgeChange(rng *rand.Rand) {
	env := p.env
	v := p.cur()
	add, remove, after, collapses := p.change(rng, 1+rng.IntN(4))
	leaves := p.vers[v]
	var (
		keys [][]byte
		rem  []prefix.Entry
	)
	for _, e := range add {
		keys = append(keys, e.VrfOutput)
	}
	for _, k := range remove {
		keys = append(keys, k)
		rem = append(rem, prefix.Entry{VrfOutput: k, Commitment: leaves[string(k)]})
	}
	if len(keys) == 0 {
		return
	}
	ref, _ := refPrefixProof(leaves, keys)
	pr := ref.clone()
	if rng.IntN(5) > 0 {
		for range 1 + rng.IntN(2) {
			p.damage(rng, pr, leaves, keys)
		}
	}
	wrong := false
	if len(rem) > 0 && rng.IntN(4) == 0 {
		i := rng.IntN(len(rem))
		rem[i].Commitment = sha(rem[i].Commitment)
		wrong = true
	}
	right := bytes.Equal(pr.encode(), ref.encode())
	proof, err := prefix.NewPrefixProof(p.cs, bytes.NewBuffer(pr.encode()))
	if err != nil {
		return
	}
	// Those who call this have checked that what is added is shown to be missing,
	// and what is removed to be there.
	if len(proof.Results) == len(keys) {
		for i, r := range proof.Results {
			replaced := i < len(add) && slices.ContainsFunc(remove, func(k []byte) bool { return bytes.Equal(k, keys[i]) })
			if !replaced && r.Inclusion() != (i >= len(add)) {
				return
			}
		}
	}
	b, a, err := prefix.EvaluateBeforeAfter(p.cs, add, rem, proof)
	env.count("forged-changes")
	ok := err == nil && bytes.Equal(b, p.roots[v])
	switch {
	case ok && wrong:
		env.fail("false-proof", "a proof for the removal of other commitments is accepted")
	case ok && !right:
		env.fail("false-proof", "a false proof of a change is accepted")
	case !ok && right && !wrong:
		env.fail("refused-proof", "the right proof of a change is refused: %v", err)
	case ok && !collapses && !bytes.Equal(a, refPrefixRoot(after)):
		env.fail("false-proof", "the proof of a change leads to another root")
	}
	env.logf("forged change %v", ok)
}

// ---- Log tree.

// bigLog is a log of any size whose entries are all the same, with exceptions.
type bigLog struct {
	n       uint64
	special map[uint64][]byte
	sorted  []uint64
	def     [][]byte // Hash of a full subtree without exceptions, by level.
	memo    map[[2]uint64][]byte
}

func newBigLog(n uint64) *bigLog {
	b := &bigLog{n: n, special: make(map[uint64][]byte), memo: make(map[[2]uint64][]byte)}
	b.def = [][]byte{sha([]byte("the usual entry"))}
	for l := 1; l <= 63; l++ {
		tag := []byte{byte(b2i(l > 1))}
		b.def = append(b.def, sha(tag, b.def[l-1], tag, b.def[l-1]))
	}
	return b
}

func (b *bigLog) set(x uint64, val []byte) {
	i, ok := slices.BinarySearch(b.sorted, x)
	if !ok {
		b.sorted = slices.Insert(b.sorted, i, x)
	}
	b.special[x] = val
	clear(b.memo)
}

func (b *bigLog) leaf(x uint64) []byte {
	if v, ok := b.special[x]; ok {
		return v
	}
	return b.def[0]
}

// full is the hash of the 2^level entries from lo on.
func (b *bigLog) full(lo uint64, level int) []byte {
	i, _ := slices.BinarySearch(b.sorted, lo)
	if i == len(b.sorted) || b.sorted[i]-lo >= 1<<level {
		return b.def[level]
	}
	if level == 0 {
		return b.special[lo]
	}
	key := [2]uint64{lo, uint64(level)}
	if h, ok := b.memo[key]; ok {
		return h
	}
	tag := []byte{byte(b2i(level > 1))}
	h := sha(tag, b.full(lo, level-1), tag, b.full(lo+1<<(level-1), level-1))
	b.memo[key] = h
	return h
}

type span struct {
	lo    uint64
	level int
}

// spans are the full subtrees that [lo, hi) consists of.
func spans(lo, hi uint64) []span {
	var out []span
	for lo < hi {
		l := bits.Len64(hi-lo) - 1
		out = append(out, span{lo, l})
		lo += 1 << l
	}
	return out
}

func (b *bigLog) subtrees(n uint64) [][]byte {
	var out [][]byte
	for _, s := range spans(0, n) {
		out = append(out, b.full(s.lo, s.level))
	}
	return out
}

func (b *bigLog) root(n uint64) []byte {
	ss := spans(0, n)
	last := ss[len(ss)-1]
	acc, tag := b.full(last.lo, last.level), byte(b2i(last.level > 0))
	for i := len(ss) - 2; i >= 0; i-- {
		acc = sha([]byte{byte(b2i(ss[i].level > 0))}, b.full(ss[i].lo, ss[i].level), []byte{tag}, acc)
		tag = 1
	}
	return acc
}

// proof is the one proof for a set of entries in a tree of size n, to a verifier
// that knows the full subtrees of the first m entries (if m > 0) and wants to
// know those of the first nP (if nP > 0).
func (b *bigLog) proof(entries []uint64, n, nP, m uint64) [][]byte {
	want := make(map[span]bool)
	var pts []span
	for _, x := range entries {
		pts = append(pts, span{x, 0})
	}
	for _, s := range spans(0, nP) {
		want[s] = true
		pts = append(pts, s)
	}
	pts = append(pts, spans(0, m)...)
	slices.SortFunc(pts, func(a, b span) int {
		if a.lo != b.lo {
			if a.lo < b.lo {
				return -1
			}
			return 1
		}
		return b.level - a.level
	})
	pts = slices.Compact(pts)
	var (
		out  [][]byte
		walk func(lo, hi uint64, in []span)
	)
	walk = func(lo, hi uint64, in []span) {
		self := span{lo, bits.Len64(hi-lo) - 1}
		whole := hi-lo == 1<<self.level
		if len(in) == 0 {
			for _, s := range spans(lo, hi) {
				out = append(out, b.full(s.lo, s.level))
			}
			return
		} else if len(in) == 1 && whole && in[0] == self {
			if want[self] {
				out = append(out, b.full(lo, self.level))
			}
			return
		}
		if whole {
			in = slices.DeleteFunc(slices.Clone(in), func(s span) bool { return s == self })
			self.level--
		}
		mid := lo + 1<<self.level
		i := sort.Search(len(in), func(i int) bool { return in[i].lo >= mid })
		walk(lo, mid, in[:i])
		walk(mid, hi, in[i:])
	}
	walk(0, n, pts)
	return out
}

// chunkStore is a store that contains a log of any size.
type chunkStore struct {
	*flakyStore
	base *bigLog
	n0   uint64
	data map[uint64][]byte
}

func (s *chunkStore) initial(id uint64) ([]byte, bool) {
	l := bits.TrailingZeros64(^id)
	lo := (id - (1<<l - 1)) / 2
	var out []byte
	for i := uint64(0); i < 8; i++ {
		from, size := lo+i<<(l-3), uint64(1)<<(l-3)
		if from >= s.n0 || s.n0-from < size {
			break
		}
		out = append(out, s.base.full(from, l-3)...)
	}
	return out, len(out) > 0
}

func (s *chunkStore) BatchGet(keys []uint64) (map[uint64][]byte, error) {
	if err := s.get(); err != nil {
		return nil, err
	}
	out := make(map[uint64][]byte)
	for _, k := range keys {
		if v, ok := s.data[k]; ok {
			out[k] = bytes.Clone(v)
		} else if s.n0 > 0 {
			if v, ok := s.initial(k); ok {
				out[k] = v
			}
		}
	}
	return flakyMap(s.flakyStore, func(a, b uint64) int {
		if a < b {
			return -1
		}
		return 1
	}, out), nil
}
func (s *chunkStore) Put(key uint64, value []byte) error {
	if err := s.put(); err != nil {
		return err
	}
	s.data[key] = bytes.Clone(value)
	return nil
}
func (s *chunkStore) Delete(key uint64) error { delete(s.data, key); return nil }

type logRun struct {
	env   *Env
	cs    suites.CipherSuite
	f     *flakyStore
	tree  *log.Tree
	store *chunkStore
	m     *bigLog
	first uint64 // Entries from here on were appended.
	dirty bool
}

const maxLog = uint64(1) << 63

func runLog(env *Env) {
	c := env.plan.Cfg
	l := &logRun{env: env, cs: keysFor(c["suite"]).suite, f: &flakyStore{}}
	rng := env.rng
	var n0 uint64
	switch c["base"] {
	case 1:
		n0 = rng.Uint64N(5000)
	case 2:
		n0 = 1<<rng.IntN(63) + rng.Uint64N(20)
	case 3:
		n0 = 1<<(1+rng.IntN(62)) - 1 - min(rng.Uint64N(10), 0)
	case 4:
		n0 = rng.Uint64() >> (1 + rng.IntN(50))
	case 5:
		n0 = maxLog - rng.Uint64N(20)
	case 6:
		n0 = 1<<(4*rng.IntN(16)) - uint64(rng.IntN(2))
	}
	l.m = newBigLog(n0)
	for range rng.IntN(20) {
		if n0 > 0 {
			l.m.set(rng.Uint64N(n0), sha(u64(rng.Uint64())))
		}
	}
	if n0 > 0 && !sameFormat(l.cs) {
		// Logs can not be made up, but only be built.
		env.count("built-only")
		l.m, n0 = newBigLog(0), 0
	}
	base := newBigLog(n0)
	for x, v := range l.m.special {
		base.special[x] = v
	}
	base.sorted = slices.Clone(l.m.sorted)
	l.store = &chunkStore{flakyStore: l.f, base: base, n0: n0, data: make(map[uint64][]byte)}
	l.first = n0
	l.tree = log.NewTree(l.cs, l.store)
	for _, op := range env.plan.Ops {
		l.f.reset()
		l.step(op)
	}
	l.f.reset()
	for range 3 {
		l.prove(env.rng)
	}
	env.sig("b%d.%d", c["base"], bits.Len64(n0))
}

// sameFormat tells whether the simulator knows how a log tree is stored.
func sameFormat(cs suites.CipherSuite) bool {
	real := &chunkStore{flakyStore: &flakyStore{}, data: make(map[uint64][]byte)}
	m := newBigLog(0)
	t := log.NewTree(cs, real)
	for ; m.n < 37; m.n++ {
		m.set(m.n, sha(u64(m.n)))
		if _, err := t.Append(m.n, m.leaf(m.n)); err != nil {
			return true // The checks will tell.
		}
	}
	made := &chunkStore{flakyStore: &flakyStore{}, base: m, n0: m.n}
	for id, v := range real.data {
		if bits.TrailingZeros64(^id)%4 != 3 {
			return false
		}
		got, ok := made.initial(id)
		if !ok || !bytes.Equal(got, v) {
			return false
		}
	}
	return len(real.data) == 6
}

func (l *logRun) step(op Op) {
	env := l.env
	rng := newRand(op.S)
	if l.m.n == 0 && op.K != "append" && op.K != "failappend" {
		op.K = "append"
	}
	fault := func() {
		switch rng.IntN(4) {
		case 0:
			l.f.failGet = 1
		case 1:
			l.f.omit = 1
		case 2:
			l.f.short = 1
		case 3:
			l.f.failPut = 1 + rng.IntN(4)
		}
	}
	switch op.K {
	case "append":
		k := 1 + int(op.A)%8
		if op.A == 0 {
			k = 200
		}
		for range k {
			l.append(rng)
		}
	case "failappend":
		fault()
		l.append(rng)
	case "prove":
		l.prove(rng)
	case "failprove":
		fault()
		l.prove(rng)
	case "overlap":
		l.f.during = func() {
			env.count("fault:overlap")
			l.append(rng)
		}
		l.prove(rng)
	case "bad":
		l.bad(rng)
	case "forge":
		for range 10 {
			l.forge(rng)
		}
	}
}

func (l *logRun) append(rng *rand.Rand) {
	env := l.env
	val := sha(u64(rng.Uint64()))
	n := l.m.n
	if n >= maxLog {
		if _, err := l.tree.Append(n, val); err == nil {
			env.fail("overflow", "a log of the greatest size is extended")
		}
		return
	}
	if rng.IntN(30) == 0 {
		puts := l.f.puts
		if _, err := l.tree.Append(n, append(val, 0)[:[]int{0, 31, 33}[rng.IntN(3)]]); err == nil {
			env.fail("bad-append", "an entry of wrong length is appended")
		}
		if l.f.puts > puts {
			env.fail("bad-append", "a refused entry leaves traces")
		}
	}
	got, err := l.tree.Append(n, val)
	if l.f.hit {
		env.count("fault:store")
		if err == nil {
			env.fail("ignored-fault", "entry %d is appended although the store failed", n)
		}
		env.logf("append %d fails", n)
		env.sig("f")
		l.dirty = true
		l.f.reset()
		return
	} else if err != nil {
		env.fail("refused-append", "entry %d is not appended: %v", n, err)
	}
	var old [][]byte
	if n > 0 {
		old = l.m.subtrees(n)
	}
	l.m.set(n, val)
	l.m.n++
	want := l.m.subtrees(n + 1)
	if !slices.EqualFunc(got, want, bytes.Equal) {
		env.fail("wrong-subtrees", "full subtrees after entry %d are wrong", n)
	}
	pure, err := log.Append(l.cs, n, slices.Clone(old), val)
	if err != nil || !slices.EqualFunc(pure, want, bytes.Equal) {
		env.fail("wrong-subtrees", "full subtrees computed for entry %d are wrong: %v", n, err)
	}
	l.checkRoot(n+1, want)
	env.logf("append %d", n)
	env.sig("a%d", bits.TrailingZeros64(n+1))
	env.count("appended")
}

func (l *logRun) checkRoot(n uint64, subtrees [][]byte) {
	env := l.env
	root, err := log.Root(l.cs, n, subtrees)
	if err != nil || !bytes.Equal(root, l.m.root(n)) {
		env.fail("wrong-root", "the root of %d entries is wrong: %v", n, err)
	}
}

func (l *logRun) someEntry(rng *rand.Rand, n uint64) uint64 {
	var x uint64
	switch rng.IntN(5) {
	case 0:
		x = rng.Uint64N(n)
	case 1:
		x = n - 1 - min(n-1, rng.Uint64N(20))
	case 2:
		x = rng.Uint64N(20)
	case 3:
		if len(l.m.sorted) > 0 {
			x = l.m.sorted[rng.IntN(len(l.m.sorted))]
		}
	case 4:
		ss := spans(0, n)
		x = ss[rng.IntN(len(ss))].lo + rng.Uint64N(3)
	}
	if x >= n {
		x = n - 1
	}
	return x
}

func (l *logRun) someSize(rng *rand.Rand, n uint64) uint64 {
	if rng.IntN(3) == 0 {
		ss := spans(0, n)
		if x := ss[rng.IntN(len(ss))].lo; x > 0 {
			return x
		}
	}
	return l.someEntry(rng, n) + 1
}

// request picks a batch of entries and sizes.
func (l *logRun) request(rng *rand.Rand) (entries []uint64, n uint64, nP, m *uint64) {
	n = l.m.n
	if rng.IntN(3) == 0 {
		n = l.someSize(rng, n)
		if n < l.first {
			// Smaller than what was made up: all that is needed is there.
			n = max(1, n)
		}
	}
	k := rng.IntN(6)
	if rng.IntN(8) == 0 {
		k = rng.IntN(60)
	}
	for range k {
		if x := l.someEntry(rng, n); !slices.Contains(entries, x) {
			entries = append(entries, x)
		}
	}
	if rng.IntN(3) == 0 {
		nP = p64(l.someSize(rng, n))
	}
	if rng.IntN(2) == 0 {
		m = p64(l.someSize(rng, n))
		if nP != nil && rng.IntN(4) == 0 {
			*m = *nP
		}
	}
	return
}

func deref(x *uint64) uint64 {
	if x == nil {
		return 0
	}
	return *x
}

func (l *logRun) verifier(m *uint64) *log.Verifier {
	v := log.NewVerifier(l.cs)
	if m != nil {
		must(v.Retain(*m, l.m.subtrees(*m)))
	}
	return v
}

func (l *logRun) values(entries []uint64) [][]byte {
	var out [][]byte
	for _, x := range entries {
		out = append(out, l.m.leaf(x))
	}
	return out
}

func (l *logRun) prove(rng *rand.Rand) {
	env := l.env
	entries, n, nP, m := l.request(rng)
	ask := slices.Clone(entries)
	proof, err := l.tree.GetBatch(ask, n, nP, m)
	if l.f.hit {
		env.count("fault:store")
		if err == nil {
			env.fail("ignored-fault", "a proof is made although the store failed")
		}
		l.f.reset()
		return
	} else if err != nil {
		env.fail("refused-proof", "no proof for %v in %d (%d, %d): %v", entries, n, deref(nP), deref(m), err)
	}
	env.count("proofs")
	want := l.m.proof(entries, n, deref(nP), deref(m))
	if !slices.EqualFunc(proof, want, bytes.Equal) {
		env.fail("wrong-proof", "the proof for %v in %d (%d, %d) is wrong", entries, n, deref(nP), deref(m))
	}
	l.evaluate(entries, n, nP, m, l.values(entries), proof, true)
	env.logf("prove %d in %d", len(entries), n)
}

// evaluate checks the verdict about a proof: right tells whether everything in it
// is.
func (l *logRun) evaluate(entries []uint64, n uint64, nP, m *uint64, values, proof [][]byte, right bool) {
	env := l.env
	full, additional, err := l.verifier(m).Evaluate(entries, n, nP, values, proof)
	if n == 0 || n > l.m.n {
		if err == nil {
			env.count("other-size")
		}
		return
	}
	ok := err == nil && slices.EqualFunc(full, l.m.subtrees(n), bytes.Equal)
	if ok && nP != nil && *nP <= n {
		ok = slices.EqualFunc(additional, l.m.subtrees(*nP), bytes.Equal)
		if !ok {
			env.fail("false-proof", "a proof in %d gives wrong full subtrees for %d", n, *nP)
		}
	}
	if ok && !right {
		env.fail("false-proof", "a false proof for %v in %d (%d, %d) is accepted", entries, n, deref(nP), deref(m))
	} else if !ok && right {
		env.fail("refused-proof", "the proof for %v in %d (%d, %d) is refused: %v", entries, n, deref(nP), deref(m), err)
	}
	if ok {
		l.checkRoot(n, full)
	}
}

func (l *logRun) bad(rng *rand.Rand) {
	env := l.env
	entries, n, nP, m := l.request(rng)
	kind := rng.IntN(9)
	beyond := func() uint64 {
		return []uint64{n + 1, n + 1 + rng.Uint64N(10), maxLog + 1, ^uint64(0), max(n+1, rng.Uint64())}[rng.IntN(5)]
	}
	server := true
	switch kind {
	case 0:
		n = 0
	case 1:
		n = maxLog + 1 + rng.Uint64N(5)
	case 2:
		nP = p64(uint64(0))
	case 3:
		nP = p64(beyond())
	case 4:
		m = p64(uint64(0))
		server = false
	case 5:
		m = p64(beyond())
		server = false
	case 6:
		entries = append(entries, n+rng.Uint64N(3))
	case 7:
		if len(entries) == 0 {
			return
		}
		entries = append(entries, entries[rng.IntN(len(entries))])
		server = false
	case 8:
		entries = append(entries, beyond())
	}
	if _, err := l.tree.GetBatch(slices.Clone(entries), n, nP, m); err == nil {
		env.fail("bad-request", "a request for a proof that makes no sense (%d) is served", kind)
	}
	env.count("refused")
	env.sig("r%d", kind)
	if server {
		vals := make([][]byte, len(entries))
		for i := range vals {
			vals[i] = l.m.def[0]
		}
		if m != nil && *m > l.m.n {
			m = nil
		}
		var proof [][]byte
		if kind == 2 {
			// All that is wrong is the size.
			vals = l.values(entries)
			proof = l.m.proof(entries, n, 0, deref(m))
		}
		if _, _, err := l.verifier(m).Evaluate(entries, n, nP, vals, proof); err == nil {
			env.fail("bad-request", "a proof for a request that makes no sense (%d) is accepted", kind)
		}
	}
	// What a verifier may not retain.
	var had *uint64
	if rng.IntN(2) == 0 {
		had = p64(1 + rng.Uint64N(l.m.n))
	}
	v := l.verifier(had)
	sub := l.m.subtrees(l.m.n)
	var err error
	switch rng.IntN(5) {
	case 0:
		err = v.Retain(0, nil)
	case 1:
		err = v.Retain(maxLog+1+rng.Uint64N(3), sub)
	case 2:
		err = v.Retain(l.m.n, sub[:len(sub)-1])
	case 3:
		err = v.Retain(l.m.n, append(slices.Clone(sub), sub[0]))
	case 4:
		sub = slices.Clone(sub)
		sub[rng.IntN(len(sub))] = make([]byte, []int{0, 31, 33}[rng.IntN(3)])
		err = v.Retain(l.m.n, sub)
	}
	if err == nil {
		env.fail("bad-state", "full subtrees that make no sense are retained")
	}
	x := []uint64{rng.Uint64N(l.m.n)}
	if last := v.Last(); deref(last) != deref(had) || (last == nil) != (had == nil) {
		env.fail("bad-state", "what was refused has changed the verifier's state")
	} else if _, _, err := v.Evaluate(x, l.m.n, nil, l.values(x), l.m.proof(x, l.m.n, 0, deref(had))); err != nil {
		env.fail("bad-state", "after a state was refused, a right proof is as well: %v", err)
	}
	sub = l.m.subtrees(l.m.n)
	bad := slices.Clone(sub)
	switch rng.IntN(3) {
	case 0:
		bad = bad[:len(bad)-1]
	case 1:
		bad = append(bad, bad[0])
	case 2:
		bad[rng.IntN(len(bad))] = make([]byte, []int{0, 31, 33}[rng.IntN(3)])
	}
	if _, err := log.Root(l.cs, l.m.n, bad); err == nil {
		env.fail("bad-state", "the root of full subtrees that make no sense is computed")
	}
}

func (l *logRun) forge(rng *rand.Rand) {
	env := l.env
	entries, n, nP, m := l.request(rng)
	values := l.values(entries)
	proof := l.m.proof(entries, n, deref(nP), deref(m))
	ee, nn, pp, mm := slices.Clone(entries), n, deref(nP), deref(m)
	hash := func() []byte {
		switch rng.IntN(4) {
		case 0:
			if len(proof) > 0 {
				return proof[rng.IntN(len(proof))]
			}
		case 1:
			return l.m.leaf(l.someEntry(rng, n))
		case 2:
			ss := spans(0, n)
			s := ss[rng.IntN(len(ss))]
			return l.m.full(s.lo, s.level)
		}
		return sha(u64(rng.Uint64()))
	}
	proof = slices.Clone(proof)
	for range 1 + rng.IntN(2) {
		switch rng.IntN(10) {
		case 0:
			if len(values) > 0 {
				values[rng.IntN(len(values))] = hash()
			}
		case 1, 2:
			if len(proof) > 0 {
				proof[rng.IntN(len(proof))] = hash()
			}
		case 3:
			if len(proof) > 0 {
				i := rng.IntN(len(proof))
				proof = slices.Delete(proof, i, i+1)
			}
		case 4:
			proof = slices.Insert(proof, rng.IntN(len(proof)+1), hash())
		case 5:
			if len(proof) > 1 {
				i, j := rng.IntN(len(proof)), rng.IntN(len(proof))
				proof[i], proof[j] = proof[j], proof[i]
			}
		case 6:
			if len(ee) > 0 {
				ee[rng.IntN(len(ee))] = l.someEntry(rng, n)
			}
		case 7:
			nn = l.someSize(rng, l.m.n)
		case 8:
			mm = l.someSize(rng, l.m.n)
		case 9:
			if len(proof) > 0 {
				proof[rng.IntN(len(proof))] = make([]byte, []int{0, 31, 33}[rng.IntN(3)])
			} else if len(values) > 0 {
				values[rng.IntN(len(values))] = nil
			}
		}
	}
	env.count("forged")
	var np, mp *uint64
	if pp > 0 {
		np = &pp
	}
	if mm > 0 {
		mp = &mm
	}
	// The proof is right if it is the one proof for what is claimed.
	right := pp <= nn && mm <= nn
	seen := make(map[uint64]bool)
	for i, x := range ee {
		if x >= nn || !bytes.Equal(values[i], l.m.leaf(x)) {
			right = false
		}
		seen[x] = true
	}
	if right {
		var uniq []uint64
		for _, x := range ee {
			if seen[x] {
				uniq = append(uniq, x)
				seen[x] = false
			}
		}
		right = slices.EqualFunc(proof, l.m.proof(uniq, nn, pp, mm), bytes.Equal)
	}
	l.evaluate(ee, nn, np, mp, values, proof, right)
	env.logf("forge %v", right)
}
