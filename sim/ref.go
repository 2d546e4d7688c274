package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"slices"
	"sort"

	"github.com/Bren2010/katie/tree/prefix"
)

// This file is the reference model. It is written from the protocol's
// description (draft-ietf-keytrans-protocol) and shares no code with the
// repository, except for the definitions of structures.

// ---- The implicit binary search tree over n log entries.

// A refNode is an entry and the range of entries in its subtree.
type refNode struct{ x, lo, hi uint64 }

func refRange(lo, hi uint64) refNode {
	size := uint64(1)
	for size*2 <= hi-lo {
		size *= 2
	}
	return refNode{lo + size - 1, lo, hi}
}

func refRoot(n uint64) refNode   { return refRange(0, n) }
func (r refNode) hasLeft() bool  { return r.x > r.lo }
func (r refNode) hasRight() bool { return r.x+1 < r.hi }
func (r refNode) left() refNode  { return refRange(r.lo, r.x) }
func (r refNode) right() refNode { return refRange(r.x+1, r.hi) }
func (r refNode) child(t uint64) refNode {
	if t < r.x {
		return r.left()
	}
	return r.right()
}

// refPath returns the nodes from the root down to x.
func refPath(x, n uint64) []refNode {
	var out []refNode
	r := refRoot(n)
	for {
		out = append(out, r)
		if r.x == x {
			return out
		}
		r = r.child(x)
	}
}

// refRightPath returns the ancestors of x to its right, lowest first.
func refRightPath(x, n uint64) []uint64 {
	var out []uint64
	path := refPath(x, n)
	for i := len(path) - 2; i >= 0; i-- {
		if path[i].x > x {
			out = append(out, path[i].x)
		}
	}
	return out
}

func refFrontier(n uint64) []uint64 {
	var out []uint64
	for r := refRoot(n); ; r = r.right() {
		out = append(out, r.x)
		if !r.hasRight() {
			return out
		}
	}
}

// ---- Contents.

type refVer struct {
	ver        int
	val        []byte
	pos        uint64
	vrf, com   []byte
	gone       bool // Removed by a deletion of its label.
	goneAt     uint64
	suffixSign []byte
}

// Ref is what the log has to contain.
type Ref struct {
	rmw, life uint64
	skips     []skip
	uni       map[[2]uint64][]byte

	ts     []uint64
	roots  [][]byte // Root of the prefix tree in every log entry.
	leaves map[string][]byte
	live   map[string][]*refVer
	past   map[string][]*refVer // Deleted versions.
	order  []string             // Labels in the order of their first appearance.

	adds, removes [][]prefix.Entry
	collapse      uint64 // First entry whose removals the wire format can not describe, +1.
}

func newRef(rmw, life uint64) *Ref {
	return &Ref{rmw: rmw, life: life, leaves: make(map[string][]byte), live: make(map[string][]*refVer), past: make(map[string][]*refVer)}
}

// clone returns a copy that can be changed on its own.
func (r *Ref) clone() *Ref {
	out := *r
	out.skips, out.uni = slices.Clone(r.skips), nil
	out.ts = append([]uint64(nil), r.ts...)
	out.roots = append([][]byte(nil), r.roots...)
	out.order = append([]string(nil), r.order...)
	out.adds = append([][]prefix.Entry(nil), r.adds...)
	out.removes = append([][]prefix.Entry(nil), r.removes...)
	out.leaves = make(map[string][]byte, len(r.leaves))
	for k, v := range r.leaves {
		out.leaves[k] = v
	}
	dup := func(in map[string][]*refVer) map[string][]*refVer {
		m := make(map[string][]*refVer, len(in))
		for k, vs := range in {
			for _, v := range vs {
				cp := *v
				m[k] = append(m[k], &cp)
			}
		}
		return m
	}
	out.live, out.past = dup(r.live), dup(r.past)
	return &out
}

func (r *Ref) n() uint64 {
	n := uint64(len(r.ts))
	for _, s := range r.skips {
		n += s.k
	}
	return n
}

func (r *Ref) latest(label string) int { return len(r.live[label]) - 1 }

// greatestAt returns the greatest version that existed in the entry x, from
// the point of view of a tree in which deleted labels are gone.
func (r *Ref) greatestAt(label string, x uint64) int {
	out := -1
	for i, v := range r.live[label] {
		if v.pos <= x {
			out = i
		}
	}
	return out
}

// have is the commitment of a version in the log entry x, if it is there.
func (r *Ref) have(x uint64, label string, ver int) string {
	if vs := r.live[label]; ver < len(vs) && vs[ver].pos <= x {
		return string(vs[ver].com)
	}
	for _, v := range r.past[label] {
		if v.ver == ver && v.pos <= x && x < v.goneAt {
			return string(v.com)
		}
	}
	return ""
}

// indexed is what the server's index says instead: it forgets what was deleted.
func (r *Ref) indexed(x uint64, label string, ver int) string {
	if vs := r.live[label]; ver < len(vs) && vs[ver].pos <= x {
		return string(vs[ver].com)
	}
	return ""
}

func (r *Ref) deleted(label string) bool { return len(r.past[label]) > 0 }

// isDLE tells which log entries of a tree of size n are distinguished.
func (r *Ref) distinguished(n uint64) map[uint64]bool {
	out := make(map[uint64]bool)
	if n == 0 {
		return out
	}
	var walk func(nd refNode, left, right uint64)
	walk = func(nd refNode, left, right uint64) {
		if right-left < r.rmw {
			return
		}
		out[nd.x] = true
		if nd.hasLeft() {
			walk(nd.left(), left, r.ts[r.ix(nd.x)])
		}
		if nd.hasRight() {
			walk(nd.right(), r.ts[r.ix(nd.x)], right)
		}
	}
	walk(refRoot(n), 0, r.ts[r.ix(n-1)])
	return out
}

// rightmostDLE returns -1 if there is none.
func (r *Ref) rightmostDLE(n uint64) int64 {
	out := int64(-1)
	for x := range r.distinguished(n) {
		out = max(out, int64(x))
	}
	return out
}

// previousDLE is the rightmost distinguished entry left of the last one.
func (r *Ref) previousDLE(n uint64) int64 {
	out := int64(-1)
	for x := range r.distinguished(n) {
		if x != n-1 {
			out = max(out, int64(x))
		}
	}
	return out
}

// distinguishedAncestor is the lowest distinguished entry among x and its
// ancestors to the right, or -1.
func (r *Ref) distinguishedAncestor(x, n uint64) int64 {
	d := r.distinguished(n)
	if d[x] {
		return int64(x)
	}
	for _, y := range refRightPath(x, n) {
		if d[y] {
			return int64(y)
		}
	}
	return -1
}

func (r *Ref) expired(x, n uint64) bool {
	return r.life != 0 && r.ts[r.ix(n-1)]-r.ts[r.ix(x)] >= r.life
}

type searchOutcome int

const (
	outFound searchOutcome = iota
	outMissing
	outExpired
)

func (o searchOutcome) String() string { return [...]string{"found", "missing", "expired"}[o] }

// greatestSearch gives the outcome and terminal entry of a greatest-version
// search.
func (r *Ref) greatestSearch(label string, n uint64) (searchOutcome, uint64) {
	g := r.greatestAt(label, n-1)
	if g < 0 {
		return outMissing, 0
	}
	start := r.rightmostDLE(n)
	for nd := refRoot(n); ; nd = nd.right() {
		if start >= 0 && int64(nd.x) < start {
			continue
		}
		if r.greatestAt(label, nd.x) == g {
			return outFound, nd.x
		}
	}
}

// fixedSearch gives the outcome and terminal entry of a fixed-version search
// (Section 7.2).
func (r *Ref) fixedSearch(label string, ver int, n uint64) (searchOutcome, uint64) {
	var (
		cand    = int64(-1)
		expired bool
		dle     []uint64
		d       = r.distinguished(n)
	)
	nd := refRoot(n)
	for {
		x := nd.x
		if r.expired(x, n) {
			expired = true
			if !nd.hasRight() {
				break
			}
			nd = nd.right()
			continue
		}
		if d[x] {
			dle = append(dle, x)
		}
		g := r.greatestAt(label, x)
		if g >= ver && (cand < 0 || int64(x) < cand) {
			cand = int64(x)
		}
		if g == ver {
			if expired {
				for _, y := range dle {
					if y <= x {
						return outFound, x
					}
				}
				return outExpired, 0
			}
			return outFound, x
		}
		if g < ver {
			if !nd.hasRight() {
				break
			}
			nd = nd.right()
		} else {
			if !nd.hasLeft() {
				break
			}
			nd = nd.left()
		}
	}
	if cand < 0 {
		return outMissing, 0
	}
	if expired {
		for _, y := range dle {
			if int64(y) < cand {
				return outFound, uint64(cand)
			}
		}
		return outExpired, 0
	}
	return outFound, uint64(cand)
}

// ---- Hashes.

func sha(parts ...[]byte) []byte {
	h := sha256.New()
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

// refPrefixRoot is the root hash of a prefix tree with the given leaves. A leaf
// sits at the least depth at which its prefix is unique.
func refPrefixRoot(leaves map[string][]byte) []byte {
	keys := make([]string, 0, len(leaves))
	for k := range leaves {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var walk func(keys []string, depth int) []byte
	walk = func(keys []string, depth int) []byte {
		if len(keys) == 0 {
			return make([]byte, 32)
		} else if len(keys) == 1 {
			return sha([]byte{2}, []byte(keys[0]), leaves[keys[0]])
		}
		i := sort.Search(len(keys), func(i int) bool { return bitAt(keys[i], depth) == 1 })
		return sha([]byte{3}, walk(keys[:i], depth+1), walk(keys[i:], depth+1))
	}
	return walk(keys, 0)
}

func bitAt(s string, i int) byte { return s[i/8] >> (7 - i%8) & 1 }

// refCollapses tells whether removing `rem` from and adding `add` to the leaves
// moves a leaf that is neither removed nor added up in the tree. The proof for
// an auditor does not have the information to follow this.
func refCollapses(before, after map[string][]byte, touched map[string]bool) bool {
	depth := func(set map[string][]byte) map[string]int {
		out := make(map[string]int)
		keys := make([]string, 0, len(set))
		for k := range set {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		common := func(a, b string) int {
			for i := 0; i < 256; i++ {
				if bitAt(a, i) != bitAt(b, i) {
					return i
				}
			}
			return 256
		}
		for i, k := range keys {
			d := 0
			if i > 0 {
				d = max(d, common(keys[i-1], k)+1)
			}
			if i+1 < len(keys) {
				d = max(d, common(keys[i+1], k)+1)
			}
			out[k] = d
		}
		return out
	}
	a, b := depth(before), depth(after)
	for k, d := range a {
		if touched[k] {
			continue
		}
		if b[k] < d {
			return true
		}
	}
	return false
}

func u64(x uint64) []byte {
	return []byte{byte(x >> 56), byte(x >> 48), byte(x >> 40), byte(x >> 32), byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)}
}

func refLeafHash(ts uint64, root []byte) []byte { return sha(u64(ts), root) }

// refLogHash returns the hash of the log tree over entries [lo, hi).
func (r *Ref) logHash(lo, hi uint64) []byte {
	if hi-lo == 1 {
		return refLeafHash(r.ts[r.ix(lo)], r.roots[r.ix(lo)])
	}
	if h := r.uniform(lo, hi-lo); h != nil {
		return h
	}
	split := uint64(1)
	for split*2 < hi-lo {
		split *= 2
	}
	tag := func(size uint64) []byte {
		if size == 1 {
			return []byte{0}
		}
		return []byte{1}
	}
	return sha(tag(split), r.logHash(lo, lo+split), tag(hi-lo-split), r.logHash(lo+split, hi))
}

func (r *Ref) fullSubtrees(n uint64) [][]byte {
	var out [][]byte
	lo := uint64(0)
	for lo < n {
		size := uint64(1)
		for size*2 <= n-lo {
			size *= 2
		}
		out = append(out, r.logHash(lo, lo+size))
		lo += size
	}
	return out
}

func (r *Ref) dump() string {
	var b bytes.Buffer
	fmt.Fprintf(&b, "n=%d ts=%v dle=%v;", r.n(), r.ts, r.rightmostDLE(r.n()))
	for _, l := range r.order {
		var pos []uint64
		for _, v := range r.live[l] {
			pos = append(pos, v.pos)
		}
		fmt.Fprintf(&b, " %s@%v", l, pos)
	}
	return b.String()
}
