package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"

	"github.com/Bren2010/katie/tree/transparency/structs"
)

// What leaves the server is searched for secrets: openings, values, labels, and
// VRF proofs, which link a label to a leaf of the prefix tree.

type confided struct {
	what  string
	label string
	ver   int
	pos   uint64
}

const secretKey = 12 // Length of the shortest secret that is looked for, except labels.

type secrets struct {
	data   map[string][]confided // By all of their bytes.
	starts map[string][]string   // By their first bytes.
	labels map[string]bool
	proofs map[string]int // Number of VRF proofs known by label.
}

func newSecrets() *secrets {
	return &secrets{data: make(map[string][]confided), starts: make(map[string][]string), labels: make(map[string]bool), proofs: make(map[string]int)}
}

func (s *secrets) add(data []byte, x confided) {
	if len(data) < secretKey {
		return
	}
	k := string(data)
	if _, ok := s.data[k]; !ok {
		s.starts[k[:secretKey]] = append(s.starts[k[:secretKey]], k)
	}
	s.data[k] = append(s.data[k], x)
}

// keep remembers the secrets of a version that is about to be published.
func (w *World) keepSecrets(label string, ver int, opening, val []byte) {
	s := w.secrets
	if s == nil {
		return
	}
	pos := w.ref.n()
	s.add(opening, confided{"opening", label, ver, pos})
	s.add(val, confided{"value", label, ver, pos})
	w.keepLabel(label, ver+3)
	w.env.count("secrets")
}

func (w *World) keepLabel(label string, vers int) {
	s := w.secrets
	if len(label) >= 6 {
		s.labels[label] = true
	}
	for v := s.proofs[label]; v < vers; v++ {
		_, proof := w.ks.vrf.Prove(refVrfInput([]byte(label), uint32(v)))
		s.add(proof, confided{"VRF proof", label, v, 0})
		s.proofs[label] = v + 1
	}
}

// search fails if the message has a secret that it should not have.
func (s *secrets) search(env *Env, what string, raw []byte, may func(x confided) bool) {
	env.count("searched-for-secrets")
	env.add("searched-bytes", int64(len(raw)))
	for i := 0; i+secretKey <= len(raw); i++ {
		for _, k := range s.starts[string(raw[i:i+secretKey])] {
			if !bytes.HasPrefix(raw[i:], []byte(k)) {
				continue
			}
			allowed := false
			for _, x := range s.data[k] {
				allowed = allowed || may(x)
			}
			if !allowed {
				x := s.data[k][0]
				env.fail("disclosed", "%s has the %s of version %d of %q", what, x.what, x.ver, x.label)
			}
		}
	}
	for _, l := range sortedKeys(s.labels) {
		if bytes.Contains(raw, []byte(l)) {
			env.fail("disclosed", "%s has the label %q", what, l)
		}
	}
}

// disclosed checks that a response says nothing but what was asked for.
func (w *World) disclosed(req, res structs.Marshaller) {
	s := w.secrets
	if s == nil {
		return
	}
	raw, err := structs.Marshal(res)
	if err != nil {
		return // Reported elsewhere.
	}
	var (
		label string
		ver   = func(int, uint64) bool { return false } // Versions that were asked for.
	)
	updated := func(greatest *uint32, res *structs.UpdateResponse) func(int, uint64) bool {
		g := -1
		if greatest != nil {
			g = int(*greatest)
		}
		return func(v int, pos uint64) bool { return v > g && pos == res.Position }
	}
	switch req := req.(type) {
	case *structs.SearchRequest:
		label = string(req.Label)
		v := req.Version
		if v == nil {
			v = res.(*structs.SearchResponse).Version
		}
		n := uint64(0)
		if th := res.(*structs.SearchResponse).FullTreeHead.TreeHead; th != nil {
			n = th.TreeSize
		} else if req.Last != nil {
			n = *req.Last
		}
		if v != nil {
			ver = func(x int, pos uint64) bool { return uint32(x) == *v && pos < n }
		}
	case *structs.ContactMonitorRequest:
		label = string(req.Label)
	case *structs.OwnerMonitorRequest:
		label = string(req.Label)
	case *structs.OwnerInitRequest:
		label = string(req.Label)
	case *structs.UpdateRequest:
		label = string(req.Label)
		ver = updated(req.GreatestVersion, res.(*structs.UpdateResponse))
	case *structs.ManagerUpdateRequest:
		label = string(req.Label)
		ver = updated(req.GreatestVersion, res.(*structs.UpdateResponse))
	default:
		harnessFail("unexpected request %T", req)
	}
	s.search(w.env, fmt.Sprintf("a response to a %T for %q", req, label), raw, func(x confided) bool {
		if x.label != label {
			return false
		}
		return x.what == "VRF proof" || ver(x.ver, x.pos)
	})
}

// audited checks that the auditor is told about no label, version or value.
func (w *World) audited(raw []byte) {
	if s := w.secrets; s != nil {
		s.search(w.env, "an update for the auditor", raw, func(x confided) bool { return false })
	}
}

func genPrivate(rng *rand.Rand, plan *Plan, tier string) {
	plan.Cfg["private"] = 1
	if rng.IntN(4) == 0 {
		genConc(concWeights["C10"], []int64{1, 1, 2, 2, 3, 3})(rng, plan, tier)
		plan.Cfg["conc"] = 1
		return
	}
	genConfig(rng, plan, []int64{1, 1, 2, 2, 3, 3})
	plan.Cfg["labels"] = 2 + rng.Int64N(7)
	n := 15 + rng.IntN(60)
	if tier == "thorough" && rng.IntN(4) == 0 {
		n *= 3
	}
	ws := map[string]int{"adv": 10, "mut": 20, "beat": 5, "search": 14, "mon": 6, "own": 6, "upd": 10, "wild": 24, "remove": 3, "synth": 4, "crashserver": 1}
	for _, k := range sortedKeys(ws) {
		if rng.IntN(5) == 0 {
			ws[k] *= 3
		}
	}
	for range n {
		op := Op{K: pick(rng, ws), A: rng.Int64N(8), B: rng.Int64N(8), C: rng.Int64N(6), S: rng.Uint64()}
		if op.K == "adv" {
			op.A = rng.Int64N(1 + plan.Cfg["rmw"]/2)
		}
		plan.Ops = append(plan.Ops, op)
	}
}

func runPrivate(env *Env) {
	if env.plan.Cfg["conc"] == 1 {
		runConc(env)
		return
	}
	runWild(env)
}
