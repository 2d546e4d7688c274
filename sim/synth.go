package main

import (
	"math/rand/v2"
	"slices"
	"sort"

	"github.com/Bren2010/katie/tree/transparency/structs"
)

// synth makes a client in any of the states that clients of the log may be in:
// it knows the log at some size, follows any versions of a label, and may own
// it. It returns the label that it has state for.
func (w *World) synth(id int, rng *rand.Rand, labels []string) (*simClient, string) {
	env, r := w.env, w.ref
	n := r.n()
	c := newSimClient(w, id)
	l := labels[rng.IntN(len(labels))]
	if n == 0 || rng.IntN(12) == 0 {
		return c, l
	}
	m := 1 + rng.Uint64N(n)
	switch rng.IntN(6) {
	case 0:
		m = n
	case 1:
		for m = 1; m*2 <= n && rng.IntN(3) > 0; {
			m *= 2
		}
	}
	c.size = m
	c.st.state = marshal(w.stateAt(m, rng))
	if r.deleted(l) || rng.IntN(6) == 0 {
		return c, l
	}
	ls := &structs.ClientLabelState{}
	g := r.greatestAt(l, m-1)
	if w.cfg.Mode == modeContact {
		next := uint64(0)
		for v := 0; v <= g; v++ {
			if rng.IntN(3) > 0 {
				continue
			}
			first := r.live[l][v].pos
			path := append([]uint64{first}, refRightPath(first, m)...)
			sort.Slice(path, func(i, j int) bool { return path[i] < path[j] })
			i := rng.IntN(len(path))
			for i < len(path) && path[i] < next {
				i++
			}
			if i == len(path) {
				continue
			}
			ls.Contact = append(ls.Contact, structs.MonitorMapEntry{Position: path[i], Version: uint32(v)})
			next = path[i] + 1
		}
	}
	if dle := r.rightmostDLE(m); dle >= 0 && rng.IntN(2) == 0 {
		var ds []uint64
		for x := range r.distinguished(m) {
			ds = append(ds, x)
		}
		slices.Sort(ds)
		start := ds[rng.IntN(len(ds))]
		if rng.IntN(2) == 0 {
			start = ds[len(ds)-1]
		}
		at := r.greatestAt(l, start)
		o := &ownerExp{starting: start, verAt: at}
		for v := at + 1; v <= g; v++ {
			pos := r.live[l][v].pos
			if k := len(o.upcoming); (k == 0 || o.upcoming[k-1] != pos) && rng.IntN(6) == 0 {
				break // It does not know about the others yet.
			}
			o.upcoming = append(o.upcoming, pos)
		}
		c.own[l] = o
		ls.Owner = &structs.LabelOwnerState{Starting: o.starting, VerAtStarting: o.verAt, UpcomingVers: slices.Clone(o.upcoming)}
	}
	if len(ls.Contact) == 0 && ls.Owner == nil {
		return c, l
	}
	// What it needs to know to verify the rest.
	known := g
	if o := c.own[l]; o != nil {
		known = max(o.greatest(), -1)
		for _, e := range ls.Contact {
			known = max(known, int(e.Version))
		}
	}
	vers := make(map[int]bool)
	if c.own[l] != nil {
		vers[0] = true
	}
	for v := 0; v <= known; v++ {
		for _, x := range refLadder(uint64(v)) {
			vers[int(x)] = true
		}
	}
	terminal := ^uint64(0)
	for _, e := range ls.Contact {
		terminal = min(terminal, e.Position)
	}
	if ls.Owner != nil {
		terminal = min(terminal, ls.Owner.Starting+1)
	}
	for x := range vers {
		rv := structs.RetainedVersion{Version: uint32(x), VrfOutput: w.vrfOf(l, x)}
		if x <= known {
			rv.Commitment = r.live[l][x].com
		}
		ls.Versions = append(ls.Versions, rv)
	}
	sort.Slice(ls.Versions, func(i, j int) bool { return ls.Versions[i].Version < ls.Versions[j].Version })
	c.st.labels[l] = labelRec{marshal(ls), terminal}
	// From the right, as an entry of the map has been verified, which takes care
	// of it for those to the left.
	for _, e := range slices.Backward(ls.Contact) {
		if int64(e.Position) > r.rightmostDLE(m) {
			c.owe(l, obligation{x: e.Position, ver: e.Version, top: e.Position})
		}
	}
	env.count("synthetic-clients")
	return c, l
}

// stateAt is the state of a client that has accepted the tree of size m.
func (w *World) stateAt(m uint64, rng *rand.Rand) *structs.ClientState {
	r := w.ref
	tbs := refHeadTBS(w.pub, m, r.logHash(0, m))
	sig, err := w.ks.sig.Sign(tbs)
	must(err)
	st := &structs.ClientState{
		TreeHead:     structs.TreeHead{TreeSize: m, Signature: sig},
		FullSubtrees: r.fullSubtrees(m),
		LogEntries:   make(map[uint64]structs.LogEntry),
	}
	for _, x := range refFrontier(m) {
		st.LogEntries[x] = structs.LogEntry{Timestamp: r.ts[r.ix(x)], PrefixTree: r.roots[r.ix(x)]}
	}
	if w.cfg.Mode == modeAudited {
		k := 1 + rng.Uint64N(m)
		h := &structs.AuditorTreeHead{Timestamp: r.ts[r.ix(k-1)], TreeSize: k}
		tbs := refAuditorTBS(w.pub, h.Timestamp, k, r.logHash(0, k))
		h.Signature, err = w.ks.auditor.Sign(tbs)
		must(err)
		st.AuditorTreeHead = h
	}
	return st
}

// synthetic has a client in some state make requests.
func (h *honest) synthetic(rng *rand.Rand) {
	w := h.w
	for range 1 + rng.IntN(4) {
		c, l := w.synth(200, rng, h.labels)
		c.inspect()
		for range 1 + rng.IntN(4) {
			kind := []string{"search", "search", "monitor", "monitor", "ownerinit", "update"}[rng.IntN(6)]
			ver := -1
			if kind == "search" && rng.IntN(2) == 0 {
				ver = rng.IntN(w.ref.latest(l) + 3)
			}
			if w.ref.deleted(l) && kind != "search" || kind == "update" && c.own[l] == nil {
				continue
			}
			p := c.begin(kind, l, ver, nil)
			if p == nil {
				continue
			}
			p.serve()
			p.deliver()
		}
	}
}
