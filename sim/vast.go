package main

import (
	"bytes"
	"fmt"
	"math/bits"
	"math/rand/v2"
	"slices"
	"sort"

	"github.com/Bren2010/katie/tree/transparency/auditor"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

// Logs that have been in operation for long: at some points of a history, up to
// 2^61 log entries go by in which nothing changes. These entries exist nowhere;
// the store makes up what is asked for.

// A skip is a range of entries that equal the one before.
type skip struct{ at, k uint64 }

// ix is where the timestamp and root of entry x are kept.
func (r *Ref) ix(x uint64) uint64 {
	off := uint64(0)
	for _, s := range r.skips {
		if x < s.at {
			break
		}
		if x-s.at < s.k {
			return s.at - 1 - off
		}
		off += s.k
	}
	return x - off
}

// rest is the number of entries from x on that do not exist.
func (r *Ref) rest(x uint64) uint64 {
	for _, s := range r.skips {
		if x >= s.at && x-s.at < s.k {
			return s.k - (x - s.at)
		}
	}
	return 0
}

// skipped tells whether x is one of the entries that do not exist, and which
// existing one it equals.
func (r *Ref) skipped(x uint64) (uint64, bool) {
	found := false
	for i := len(r.skips) - 1; i >= 0; i-- {
		if s := r.skips[i]; x >= s.at && x-s.at < s.k {
			x, found = s.at-1, true
		}
	}
	return x, found
}

// uniform returns the hash of a full subtree whose entries are all the same.
func (r *Ref) uniform(lo, size uint64) []byte {
	if size&(size-1) != 0 {
		return nil
	}
	for _, s := range r.skips {
		if lo >= s.at && lo-s.at < s.k && s.k-(lo-s.at) >= size {
			return r.same(r.ix(lo), bits.TrailingZeros64(size))
		}
	}
	return nil
}

func (r *Ref) same(ix uint64, level int) []byte {
	if r.uni == nil {
		r.uni = make(map[[2]uint64][]byte)
	}
	key := [2]uint64{ix, uint64(level)}
	if r.uni[key] == nil {
		switch level {
		case 0:
			r.uni[key] = refLeafHash(r.ts[ix], r.roots[ix])
		default:
			sub := r.same(ix, level-1)
			tag := []byte{byte(b2i(level > 1))}
			r.uni[key] = sha(tag, sub, tag, sub)
		}
	}
	return r.uni[key]
}

// A vast is the part of the store that does not exist.
type vast struct {
	end     uint64          // Chunks of the log are made up for this size...
	pending map[uint64]bool // (written, but not committed)
	fresh   map[uint64]bool // ... except for these.
}

func (w *World) mayForward() bool {
	return w.ref.n() > 0 && w.ref.collapse == 0 && !w.auditLost && w.cfg.ReasonableMonitoringWindow > 0
}

// forward adds k entries in which nothing changes.
func (w *World) forward(k uint64) {
	env, r := w.env, w.ref
	n := r.n()
	if w.cfg.Mode == modeAudited {
		w.audit(true)
	}
	r.skips = append(r.skips, skip{n, k})
	w.vast = &vast{n + k, make(map[uint64]bool), make(map[uint64]bool)}
	n += k

	tbs := refHeadTBS(w.pub, n, r.logHash(0, n))
	sig, err := w.ks.sig.Sign(tbs)
	must(err)
	must(w.tx.inner.PutTreeHead(marshal(&structs.TreeHead{TreeSize: n, Signature: sig})))
	must(w.tx.inner.Commit())
	if w.cfg.Mode == modeAudited {
		w.audStore.data = w.forwardAuditor(w.audStore.data)
		must(w.openAuditor())
	}
	must(w.openTree())
	w.checkHead()
	env.logf("forward by %d to %d", k, n)
	env.count("skips")
	env.sig("f%d", bits.Len64(n))
}

// forwardAuditor is the state of the auditor after the entries were added.
func (w *World) forwardAuditor(raw []byte) []byte {
	r := w.ref
	n := r.n()
	st, err := auditor.NewAuditorState(w.pub.Suite, bytes.NewBuffer(bytes.Clone(raw)))
	must(err)
	st.TreeHead.TreeSize = n
	st.TreeHead.Signature, err = w.ks.auditor.Sign(refAuditorTBS(w.pub, st.TreeHead.Timestamp, n, r.logHash(0, n)))
	must(err)
	st.FullSubtrees = r.fullSubtrees(n)
	st.Timestamps = nil
	for _, x := range refFrontier(n) {
		st.Timestamps = append(st.Timestamps, r.ts[r.ix(x)])
	}
	dle := r.rightmostDLE(n)
	st.Inserted = slices.DeleteFunc(st.Inserted, func(i auditor.InsertedVrfOutput) bool { return int64(i.Pos) <= dle })
	raw, err = st.Marshal()
	must(err)
	return raw
}

// makeEntries adds the log entries that do not exist.
func (w *World) makeEntries(keys []uint64, out map[uint64][]byte) map[uint64][]byte {
	if w.vast == nil {
		return out
	}
	for _, x := range keys {
		if _, ok := w.ref.skipped(x); ok {
			i := w.ref.ix(x)
			out[x] = marshal(&structs.LogEntry{Timestamp: w.ref.ts[i], PrefixTree: w.ref.roots[i]})
		}
	}
	return out
}

// makeChunks adds the parts of the log tree that do not exist.
func (w *World) makeChunks(ids []uint64, out map[uint64][]byte) map[uint64][]byte {
	v := w.vast
	if v == nil {
		return out
	}
	for _, id := range ids {
		if v.fresh[id] {
			continue
		}
		level := bits.TrailingZeros64(^id)
		lo := (id - (1<<level - 1)) / 2
		var raw []byte
		for i := uint64(0); i < 8; i++ {
			from, size := lo+i<<(level-3), uint64(1)<<(level-3)
			if from >= v.end || v.end-from < size {
				break
			}
			raw = append(raw, w.ref.logHash(from, from+size)...)
		}
		if raw != nil {
			out[id] = raw
		}
	}
	return out
}

// makeTiles adds the roots of the prefix tree's versions that do not exist.
func (w *World) makeTiles(keys []string, out map[string][]byte, get func([]string) (map[string][]byte, error)) (map[string][]byte, error) {
	if w.vast == nil {
		return out, nil
	}
	for _, key := range keys {
		var ver, ctr uint64
		if _, err := fmt.Sscanf(key, "%x:%x", &ver, &ctr); err != nil || ctr != 0 || ver == 0 {
			continue
		}
		y, ok := w.ref.skipped(ver - 1)
		if !ok {
			continue
		}
		real := fmt.Sprintf("%x:0", y+1)
		m, err := get([]string{real})
		if err != nil {
			return nil, err
		}
		if raw, ok := m[real]; ok {
			out[key] = raw
		}
	}
	return out, nil
}

// skipSize chooses how many entries go by.
func skipSize(rng *rand.Rand, n uint64) uint64 {
	k := uint64(1)
	switch rng.IntN(5) {
	case 0:
		k = 1 + rng.Uint64N(20)
	case 1:
		k = 1<<rng.IntN(33) + rng.Uint64N(100)
	case 2:
		// To the neighbourhood of a power of two.
		p := uint64(1) << (4 + rng.IntN(57))
		if p > n+4 {
			k = p - n - 3 + rng.Uint64N(6)
		}
	default:
		k = 1 + rng.Uint64()>>(3+rng.IntN(60))
	}
	return min(k, 1<<61)
}

// sortedSet returns the elements in order.
func sortedSet(m map[uint64]bool) []uint64 {
	var out []uint64
	for x := range m {
		out = append(out, x)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// vastly adds skips to one of n histories.
func vastly(n int, gen func(*rand.Rand, *Plan, string)) func(*rand.Rand, *Plan, string) {
	return func(rng *rand.Rand, plan *Plan, tier string) {
		gen(rng, plan, tier)
		if rng.IntN(n) > 0 {
			return
		}
		plan.Cfg["vast"] = 1
		for i := 1 + rng.IntN(4); i > 0; i-- {
			plan.Ops = slices.Insert(plan.Ops, 1+rng.IntN(len(plan.Ops)), Op{K: "skip", S: rng.Uint64()})
		}
	}
}

// manyVersions makes one label of one in n histories have a lot of versions.
func manyVersions(n int, gen func(*rand.Rand, *Plan, string)) func(*rand.Rand, *Plan, string) {
	return func(rng *rand.Rand, plan *Plan, tier string) {
		gen(rng, plan, tier)
		if rng.IntN(n) > 0 {
			return
		}
		plan.Cfg["many"] = 1
		plan.Cfg["labels"] = min(plan.Cfg["labels"], 3)
		for i := 1 + rng.IntN(2); i > 0; i-- {
			plan.Ops = slices.Insert(plan.Ops, 1+rng.IntN(1+len(plan.Ops)/2), Op{K: "many", A: 64 << rng.Int64N(6), S: rng.Uint64()})
		}
		if rng.IntN(10) == 0 {
			plan.Ops[len(plan.Ops)/3] = Op{K: "many", A: 1 << 16, S: rng.Uint64()}
			plan.Ops = plan.Ops[:min(len(plan.Ops), len(plan.Ops)/3+12)]
		}
	}
}
