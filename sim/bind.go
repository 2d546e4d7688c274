package main

import (
	"bytes"
	"context"
	"crypto/elliptic"
	"crypto/sha512"
	"fmt"
	"math/big"
	"math/rand/v2"
	"slices"

	"filippo.io/edwards25519"

	"github.com/Bren2010/katie/crypto/commitments"
	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/crypto/vrf"
	"github.com/Bren2010/katie/tree/transparency/algorithms"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

// The binding workload has two parts. In the first one, parties with their own
// keys of both suites sign, commit to and evaluate the VRF on the protocol's
// messages, restart in between, and an adversary presents what they have issued
// in every other context, or changed. A ledger of everything that was issued is
// the oracle. In the second one, two deployments differ in one respect only and
// have the same log up to a point, and messages are delivered to the wrong one.

func genBind(rng *rand.Rand, plan *Plan, tier string) {
	if rng.IntN(3) == 0 {
		genTwins(rng, plan, tier)
		return
	}
	c := plan.Cfg
	c["part"] = 0
	// One suite per run, so that several keys are of the same kind.
	c["suite"] = []int64{1, 1, 2, 2, 2, 0}[rng.IntN(6)]
	ws := map[string]int{"sign": 10, "prove": 10, "commit": 6, "key": 6, "restart": 4, "forge": 30, "again": 6, "torsion": 3}
	for _, k := range sortedKeys(ws) {
		if rng.IntN(5) == 0 {
			ws[k] *= 3
		}
	}
	n := 20 + rng.IntN(60)
	if tier == "thorough" && rng.IntN(4) == 0 {
		n *= 3
	}
	for i := 0; i < n; i++ {
		plan.Ops = append(plan.Ops, Op{K: pick(rng, ws), A: rng.Int64N(16), B: rng.Int64N(16), C: rng.Int64N(16), S: rng.Uint64()})
	}
}

func runBind(env *Env) {
	if env.plan.Cfg["part"] == 1 {
		runTwins(env)
		return
	}
	b := &bindRun{env: env, cs: keysFor(env.plan.Cfg["suite"]).suite, outs: make(map[string]string), openings: make(map[string]bool), issued: make(map[string]bool)}
	rng := env.rng
	for i := 0; i < 3; i++ {
		b.signers = append(b.signers, b.newSigner(rng))
		b.provers = append(b.provers, b.newProver(rng))
	}
	for i := 0; i < 4; i++ {
		b.configs = append(b.configs, b.config(rng))
	}
	env.sig("b%d", env.plan.Cfg["suite"])
	for _, op := range env.plan.Ops {
		b.step(op)
	}
}

type signer struct {
	raw  []byte
	priv suites.SigningPrivateKey
	pub  suites.SigningPublicKey
}

type prover struct {
	raw  []byte
	priv vrf.PrivateKey
	pub  vrf.PublicKey
}

type artefact struct {
	kind string // sig, vrf, com
	who  int
	body structs.Marshaller
	msg  []byte
	art  []byte // Signature, proof or commitment.
	aux  []byte // VRF output or opening.
}

type bindRun struct {
	env      *Env
	cs       suites.CipherSuite
	signers  []*signer
	provers  []*prover
	configs  []*structs.PublicConfig
	ledger   []*artefact
	issued   map[string]bool   // Which key has signed which message.
	outs     map[string]string // Whose VRF output it is.
	openings map[string]bool
}

// p256Order is the order of the group of P-256.
var p256Order = elliptic.P256().Params().N

func randKey(rng *rand.Rand, cs suites.CipherSuite) []byte {
	raw := randBytes(rng, 32)
	if cs.Id() == 1 {
		switch rng.IntN(12) {
		case 0: // The smallest and the greatest keys there are.
			new(big.Int).Sub(p256Order, big.NewInt(int64(1+rng.IntN(3)))).FillBytes(raw)
		case 1:
			clear(raw)
			raw[31] = byte(1 + rng.IntN(200))
		default:
			raw[0] &= 0x7f
			raw[31] |= 1
		}
	}
	return raw
}

func randBytes(rng *rand.Rand, n int) []byte {
	out := make([]byte, n)
	for i := range out {
		out[i] = byte(rng.Uint32())
	}
	return out
}

func (b *bindRun) newSigner(rng *rand.Rand) *signer {
	s := &signer{raw: randKey(rng, b.cs)}
	b.loadSigner(s)
	return s
}

// loadSigner reads the key from where it is stored.
func (b *bindRun) loadSigner(s *signer) {
	priv, err := b.cs.ParseSigningPrivateKey(bytes.Clone(s.raw))
	if err != nil {
		b.env.fail("key", "a private key for signatures is refused: %v (%x)", err, s.raw)
	}
	pub, err := b.cs.ParseSigningPublicKey(bytes.Clone(priv.Public().Bytes()))
	if b.cs.Id() != 0xF0F0 {
		if err != nil {
			b.env.fail("key", "a public key for signatures is refused: %v (%x)", err, priv.Public().Bytes())
		} else if !bytes.Equal(pub.Bytes(), priv.Public().Bytes()) {
			b.env.fail("key", "a public key for signatures changes when it is stored: %x", priv.Public().Bytes())
		}
	} else {
		pub = priv.Public()
	}
	if s.pub != nil && !bytes.Equal(s.pub.Bytes(), pub.Bytes()) {
		b.env.fail("key", "a key for signatures is another one after a restart: %x", s.raw)
	}
	s.priv, s.pub = priv, pub
}

func (b *bindRun) newProver(rng *rand.Rand) *prover {
	p := &prover{raw: randKey(rng, b.cs)}
	b.loadProver(p)
	return p
}

func (b *bindRun) loadProver(p *prover) {
	priv, err := b.cs.ParseVRFPrivateKey(bytes.Clone(p.raw))
	if err != nil {
		b.env.fail("key", "a private key for the VRF is refused: %v (%x)", err, p.raw)
	}
	pub, err := b.cs.ParseVRFPublicKey(bytes.Clone(priv.PublicKey().Bytes()))
	if b.cs.Id() != 0xF0F0 {
		if err != nil {
			b.env.fail("key", "a public key for the VRF is refused: %v (%x)", err, priv.PublicKey().Bytes())
		} else if !bytes.Equal(pub.Bytes(), priv.PublicKey().Bytes()) {
			b.env.fail("key", "a public key for the VRF changes when it is stored: %x", priv.PublicKey().Bytes())
		}
	} else {
		pub = priv.PublicKey()
	}
	if p.pub != nil && !bytes.Equal(p.pub.Bytes(), pub.Bytes()) {
		b.env.fail("key", "a key for the VRF is another one after a restart: %x", p.raw)
	}
	p.priv, p.pub = priv, pub
}

// ---- Messages.

var bindNums = []uint64{0, 1, 2, 255, 256, 1000, 60_000, 1 << 16, 1<<32 - 1, 1 << 32, 1 << 33, 1<<63 - 1, 1<<64 - 1}

func anyNum(rng *rand.Rand) uint64 {
	if rng.IntN(3) == 0 {
		return rng.Uint64()
	}
	return bindNums[rng.IntN(len(bindNums))]
}

func (b *bindRun) config(rng *rand.Rand) *structs.PublicConfig {
	c := &structs.PublicConfig{}
	c.Suite, c.Mode = b.cs, structs.DeploymentMode(1+rng.IntN(3))
	c.SignatureKey = b.signers[rng.IntN(len(b.signers))].pub
	c.VrfKey = b.provers[rng.IntN(len(b.provers))].pub
	// Fields of other modes are set as well, which has to make no difference.
	c.LeafPublicKey = b.signers[rng.IntN(len(b.signers))].pub
	c.AuditorPublicKey = b.signers[rng.IntN(len(b.signers))].pub
	c.MaxAuditorLag, c.AuditorStartPos = anyNum(rng), anyNum(rng)
	c.MaxAhead, c.MaxBehind, c.ReasonableMonitoringWindow = anyNum(rng), anyNum(rng), anyNum(rng)
	if rng.IntN(2) == 0 {
		c.MaximumLifetime = anyNum(rng)
	}
	return c
}

// nearConfig returns a configuration that differs in one respect.
func (b *bindRun) nearConfig(rng *rand.Rand, in *structs.PublicConfig) *structs.PublicConfig {
	c := *in
	key := func() suites.SigningPublicKey { return b.signers[rng.IntN(len(b.signers))].pub }
	bump := func(x *uint64) {
		switch rng.IntN(4) {
		case 0:
			*x++
		case 1:
			*x ^= 1 << rng.IntN(64)
		case 2:
			*x = *x<<32 | *x>>32
		default:
			*x = anyNum(rng)
		}
	}
	switch rng.IntN(11) {
	case 0:
		c.Mode = structs.DeploymentMode(1 + rng.IntN(3))
	case 1:
		c.SignatureKey = key()
	case 2:
		c.VrfKey = b.provers[rng.IntN(len(b.provers))].pub
	case 3:
		c.LeafPublicKey = key()
	case 4:
		c.AuditorPublicKey = key()
	case 5:
		bump(&c.MaxAuditorLag)
	case 6:
		bump(&c.AuditorStartPos)
	case 7:
		bump(&c.MaxAhead)
	case 8:
		bump(&c.MaxBehind)
	case 9:
		bump(&c.ReasonableMonitoringWindow)
	case 10:
		bump(&c.MaximumLifetime)
	}
	return &c
}

func anyLabel(rng *rand.Rand) []byte {
	n := []int{0, 1, 2, 3, 5, 20, 254, 255}[rng.IntN(8)]
	out := randBytes(rng, n)
	if rng.IntN(2) == 0 {
		clear(out)
	}
	return out
}

func anyVersion(rng *rand.Rand) uint32 {
	return []uint32{0, 1, 2, 3, 127, 128, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, rng.Uint32()}[rng.IntN(14)]
}

func anyValue(rng *rand.Rand) []byte {
	n := []int{0, 1, 4, 5, 32, 100, 300, 3000}[rng.IntN(8)]
	return randBytes(rng, n)
}

// message makes a message that gets signed.
func (b *bindRun) message(rng *rand.Rand) structs.Marshaller {
	c := b.configs[rng.IntN(len(b.configs))]
	switch rng.IntN(3) {
	case 0:
		return &structs.TreeHeadTBS{Config: c, TreeSize: anyNum(rng), Root: randBytes(rng, 32)}
	case 1:
		return &structs.AuditorTreeHeadTBS{Config: c, Timestamp: anyNum(rng), TreeSize: anyNum(rng), Root: randBytes(rng, 32)}
	default:
		return &structs.UpdateTBS{Config: c, Label: anyLabel(rng), Version: anyVersion(rng), Value: anyValue(rng)}
	}
}

func (b *bindRun) value(rng *rand.Rand) *structs.CommitmentValue {
	v := &structs.CommitmentValue{Label: anyLabel(rng), Version: anyVersion(rng), Update: structs.UpdateValue{Value: anyValue(rng)}}
	if rng.IntN(2) == 0 {
		v.Update.Signature = randBytes(rng, []int{1, 24, 64}[rng.IntN(3)])
	}
	return v
}

func nearNum(rng *rand.Rand, x uint64) uint64 {
	switch rng.IntN(4) {
	case 0:
		return x + 1
	case 1:
		return x - 1
	case 2:
		return x ^ 1<<rng.IntN(64)
	}
	return anyNum(rng)
}

func nearBytes(rng *rand.Rand, x []byte, fixed bool) []byte {
	x = bytes.Clone(x)
	if !fixed {
		switch rng.IntN(5) {
		case 0:
			return append(x, 0)
		case 1:
			if len(x) > 0 {
				return x[:len(x)-1]
			}
		case 2:
			if len(x) > 0 {
				return x[1:]
			}
		}
	}
	if len(x) > 0 {
		return flip(rng, x)
	}
	return x
}

// moveBytes moves the boundary between two byte strings.
func moveBytes(rng *rand.Rand, x, y []byte) ([]byte, []byte) {
	all := append(bytes.Clone(x), y...)
	if len(all) == 0 {
		return x, y
	}
	cut := rng.IntN(min(len(all), 255) + 1)
	return all[:cut:cut], all[cut:]
}

// near returns a message that differs in one respect, or only looks like it.
func (b *bindRun) near(rng *rand.Rand, in structs.Marshaller) structs.Marshaller {
	switch m := in.(type) {
	case *structs.TreeHeadTBS:
		out := *m
		switch rng.IntN(4) {
		case 0:
			out.Config = b.nearConfig(rng, m.Config)
		case 1:
			out.TreeSize = nearNum(rng, m.TreeSize)
		case 2:
			out.Root = nearBytes(rng, m.Root, true)
		default:
			return &structs.AuditorTreeHeadTBS{Config: m.Config, Timestamp: m.TreeSize, TreeSize: m.TreeSize, Root: m.Root}
		}
		return &out
	case *structs.AuditorTreeHeadTBS:
		out := *m
		switch rng.IntN(6) {
		case 0:
			out.Config = b.nearConfig(rng, m.Config)
		case 1:
			out.TreeSize = nearNum(rng, m.TreeSize)
		case 2:
			out.Timestamp = nearNum(rng, m.Timestamp)
		case 3:
			out.TreeSize, out.Timestamp = m.Timestamp, m.TreeSize
		case 4:
			out.Root = nearBytes(rng, m.Root, true)
		default:
			return &structs.TreeHeadTBS{Config: m.Config, TreeSize: m.TreeSize, Root: m.Root}
		}
		return &out
	case *structs.UpdateTBS:
		out := *m
		switch rng.IntN(5) {
		case 0:
			out.Config = b.nearConfig(rng, m.Config)
		case 1:
			out.Label = nearBytes(rng, m.Label, false)
		case 2:
			out.Version = uint32(nearNum(rng, uint64(m.Version)))
		case 3:
			out.Value = nearBytes(rng, m.Value, false)
		default:
			out.Label, out.Value = moveBytes(rng, m.Label, m.Value)
		}
		if len(out.Label) > 255 {
			out.Label = out.Label[:255]
		}
		return &out
	case *structs.VrfInput:
		out := *m
		switch rng.IntN(3) {
		case 0:
			out.Label = nearBytes(rng, m.Label, false)
		case 1:
			out.Version = uint32(nearNum(rng, uint64(m.Version)))
		default:
			// The end of the label is taken for the version, or the other way.
			var ver [4]byte
			for i := range ver {
				ver[i] = byte(m.Version >> (24 - 8*i))
			}
			all := append(bytes.Clone(m.Label), ver[:]...)
			k := rng.IntN(len(all) - 3)
			out.Label = all[:k]
			out.Version = uint32(all[k])<<24 | uint32(all[k+1])<<16 | uint32(all[k+2])<<8 | uint32(all[k+3])
		}
		if len(out.Label) > 255 {
			out.Label = out.Label[:255]
		}
		return &out
	case *structs.CommitmentValue:
		out := *m
		switch rng.IntN(6) {
		case 0:
			out.Label = nearBytes(rng, m.Label, false)
		case 1:
			out.Version = uint32(nearNum(rng, uint64(m.Version)))
		case 2:
			out.Update.Value = nearBytes(rng, m.Update.Value, false)
		case 3:
			if len(m.Update.Signature) > 0 {
				out.Update.Signature = nearBytes(rng, m.Update.Signature, false)
			} else {
				out.Update.Signature = randBytes(rng, 8)
			}
		case 4:
			out.Update.Value, out.Update.Signature = moveBytes(rng, m.Update.Value, m.Update.Signature)
			if len(out.Update.Signature) > 60000 {
				out.Update.Signature = out.Update.Signature[:60000]
			}
		default:
			out.Label, out.Update.Value = moveBytes(rng, m.Label, m.Update.Value)
		}
		if len(out.Label) > 255 {
			out.Label = out.Label[:255]
		}
		return &out
	}
	harnessFail("unknown message %T", in)
	return nil
}

// reference encodes a message as the protocol defines it.
func reference(m structs.Marshaller) []byte {
	switch m := m.(type) {
	case *structs.TreeHeadTBS:
		return refHeadTBS(m.Config, m.TreeSize, m.Root)
	case *structs.AuditorTreeHeadTBS:
		return refAuditorTBS(m.Config, m.Timestamp, m.TreeSize, m.Root)
	case *structs.UpdateTBS:
		return refUpdateTBS(m.Config, m.Label, m.Version, m.Value)
	case *structs.VrfInput:
		return refVrfInput(m.Label, m.Version)
	case *structs.CommitmentValue:
		return refCommitBody(m.Label, m.Version, m.Update)
	}
	harnessFail("unknown message %T", m)
	return nil
}

// encode encodes a message with the code under test.
func (b *bindRun) encode(m structs.Marshaller) []byte {
	raw, err := structs.Marshal(m)
	if err != nil {
		b.env.fail("encode", "%T can not be encoded: %v", m, err)
	}
	if !bytes.Equal(raw, reference(m)) {
		b.env.fail("encode", "%T is encoded as %x instead of %x", m, raw, reference(m))
	}
	return raw
}

// ---- Steps.

func (b *bindRun) step(op Op) {
	env, rng := b.env, newRand(op.S)
	switch op.K {
	case "sign":
		b.sign(int(op.A)%len(b.signers), b.message(rng))
	case "prove":
		b.prove(int(op.A)%len(b.provers), &structs.VrfInput{Label: anyLabel(rng), Version: anyVersion(rng)})
	case "commit":
		b.commit(b.value(rng))
	case "again":
		// A message that is close to another one, or the same one.
		if a := b.some(rng); a != nil {
			m := a.body
			if rng.IntN(4) > 0 {
				m = b.near(rng, m)
			}
			switch a.kind {
			case "sig":
				b.sign(a.who, m)
			case "vrf":
				b.prove(a.who, m)
			case "com":
				b.commit(m.(*structs.CommitmentValue))
			}
		}
	case "key":
		b.badKeys(rng)
	case "restart":
		for _, s := range b.signers {
			b.loadSigner(s)
		}
		for _, p := range b.provers {
			b.loadProver(p)
		}
		for _, a := range b.ledger {
			b.honest(a)
		}
		env.count("fault:key-restart")
	case "forge":
		b.forge(rng)
	case "torsion":
		b.torsion(rng)
	default:
		harnessFail("unknown step %q", op.K)
	}
}

func (b *bindRun) some(rng *rand.Rand) *artefact {
	if len(b.ledger) == 0 {
		return nil
	}
	return b.ledger[rng.IntN(len(b.ledger))]
}

func (b *bindRun) keep(a *artefact) {
	b.ledger = append(b.ledger, a)
	b.issued[fmt.Sprintf("%s%d:%s", a.kind, a.who, a.msg)] = true
	b.honest(a)
	b.env.count("issued-" + a.kind)
	b.env.sig("i%s%d.%d", a.kind, a.who, len(a.msg))
}

func (b *bindRun) sign(who int, m structs.Marshaller) {
	msg := b.encode(m)
	sig, err := b.signers[who].priv.Sign(bytes.Clone(msg))
	if err != nil {
		b.env.fail("sign", "a message can not be signed: %v", err)
	}
	b.keep(&artefact{kind: "sig", who: who, body: m, msg: msg, art: sig})
}

func (b *bindRun) prove(who int, m structs.Marshaller) {
	msg := b.encode(m)
	out, proof := b.provers[who].priv.Prove(bytes.Clone(msg))
	if len(out) != b.cs.HashSize() {
		b.env.fail("vrf", "a VRF output has %d bytes", len(out))
	} else if len(proof) != b.cs.VrfProofSize() {
		b.env.fail("vrf", "a VRF proof has %d bytes, it should have %d", len(proof), b.cs.VrfProofSize())
	}
	name := fmt.Sprintf("%x:%s", b.provers[who].pub.Bytes(), msg)
	if other, ok := b.outs[string(out)]; ok && other != name {
		b.env.fail("vrf", "two messages or keys have the same VRF output %x", out)
	}
	b.outs[string(out)] = name
	for _, a := range b.ledger {
		if a.kind == "vrf" && a.who == who && bytes.Equal(a.msg, msg) && !bytes.Equal(a.aux, out) {
			b.env.fail("vrf", "a message has two VRF outputs")
		}
	}
	b.keep(&artefact{kind: "vrf", who: who, body: m, msg: msg, art: proof, aux: out})
}

func (b *bindRun) commit(m *structs.CommitmentValue) {
	msg := b.encode(m)
	opening := commitments.GenerateOpening(b.cs)
	if len(opening) != b.cs.CommitmentOpeningSize() || len(opening) < 16 {
		b.env.fail("opening", "an opening has %d bytes", len(opening))
	}
	for i := 0; i+8 <= len(opening); i += 8 {
		// All of it is random, so no part of it ever comes again.
		part := fmt.Sprintf("%d:%x", i, opening[i:i+8])
		if b.openings[part] {
			b.env.fail("opening", "an opening is not random: %x", opening)
		}
		b.openings[part] = true
	}
	com := commitments.Commit(b.cs, bytes.Clone(opening), bytes.Clone(msg))
	if want := mac(refCommitKey(b.cs), opening, msg); !bytes.Equal(com, want) {
		b.env.fail("commitment", "the commitment to %x with opening %x is %x instead of %x", msg, opening, com, want)
	}
	b.keep(&artefact{kind: "com", body: m, msg: msg, art: com, aux: opening})
}

// honest presents something that was issued where it belongs.
func (b *bindRun) honest(a *artefact) {
	if !b.accepts(a.kind, a.who, a.msg, a.art, a.aux) {
		b.env.fail("honest", "%s of key %d for %x is refused: %x", a.kind, a.who, a.msg, a.art)
	}
	b.env.count("honest")
}

// accepts presents something, and checks what it proves if it is accepted.
func (b *bindRun) accepts(kind string, who int, msg, art, aux []byte) bool {
	// They are not to be changed, or kept.
	m, x, y := bytes.Clone(msg), bytes.Clone(art), bytes.Clone(aux)
	ok := false
	switch kind {
	case "sig":
		ok = b.signers[who].pub.Verify(m, x)
		if pub := b.signers[who].priv.Public(); pub.Verify(m, x) != ok {
			b.env.fail("key", "a public key does not accept the same signatures after it was stored")
		}
	case "vrf":
		out, err := b.provers[who].pub.Verify(m, x)
		ok = err == nil
		if ok {
			want, _ := b.provers[who].priv.Prove(m)
			if !bytes.Equal(out, want) {
				b.env.fail("vrf-unique", "a proof %x for %x shows that the VRF output is %x, but it is %x", art, msg, out, want)
			}
		}
	case "com":
		ok = commitments.Verify(b.cs, y, m, x)
	}
	if !bytes.Equal(m, msg) || !bytes.Equal(x, art) || !bytes.Equal(y, aux) {
		b.env.fail("input", "verifying a %s changes what it was given", kind)
	}
	return ok
}

// forge presents something in another context, or changed.
func (b *bindRun) forge(rng *rand.Rand) {
	env := b.env
	a := b.some(rng)
	if a == nil {
		return
	}
	who, msg, art, aux := a.who, a.msg, bytes.Clone(a.art), bytes.Clone(a.aux)
	size := len(art)
	// Everything that is not changed is right, so that nothing else is the reason
	// to refuse it.
	changes := 1
	if rng.IntN(5) == 0 {
		changes = 2
	}
	for ; changes > 0; changes-- {
		switch rng.IntN(10) {
		case 0, 1:
			msg = b.encode(b.near(rng, a.body))
			env.count("fault:other-context")
		case 2:
			if a.kind != "com" {
				who = rng.IntN(len(b.signers))
				env.count("fault:other-key")
			}
		case 3:
			msg = nearBytes(rng, msg, false)
			env.count("fault:message-changed")
		case 4:
			art = art[:rng.IntN(len(art)+1)]
			env.count("fault:artefact-cut")
		case 5:
			pad := randBytes(rng, 1+rng.IntN(3))
			if rng.IntN(2) == 0 {
				clear(pad)
			}
			at := []int{0, 32, 33, 48, 49, size}[rng.IntN(6)]
			art = slices.Insert(art, min(at, len(art)), pad...)
			env.count("fault:artefact-extended")
		case 6, 7:
			if len(art) > 0 {
				art = flip(rng, art)
				env.count("fault:artefact-changed")
			}
		case 8:
			// A part is taken from something else.
			if o := b.some(rng); o.kind == a.kind && len(o.art) == len(art) {
				i, j := rng.IntN(len(art)+1), rng.IntN(len(art)+1)
				if rng.IntN(2) == 0 {
					cut := []int{32, 33, 48, 49}[rng.IntN(4)]
					i, j = 0, min(cut, len(art))
					if rng.IntN(2) == 0 {
						i, j = j, len(art)
					}
				}
				copy(art[min(i, j):max(i, j)], o.art[min(i, j):max(i, j)])
				env.count("fault:artefact-mixed")
			}
		case 9:
			i := rng.IntN(len(art) + 1)
			j := i + rng.IntN(len(art)+1-i)
			fill := []byte{0, 0xff}[rng.IntN(2)]
			for ; i < j; i++ {
				art[i] = fill
			}
			env.count("fault:artefact-erased")
		}
	}
	if a.kind == "com" && rng.IntN(3) == 0 {
		aux = flip(rng, aux)
		env.count("fault:opening-changed")
	}
	ok := b.accepts(a.kind, who, msg, art, aux)
	env.sig("f%s%v", a.kind, ok)
	env.count("judged")
	if !ok {
		if bytes.Equal(art, a.art) && bytes.Equal(msg, a.msg) && who == a.who && bytes.Equal(aux, a.aux) {
			env.fail("honest", "%s of key %d for %x is refused: %x", a.kind, a.who, a.msg, a.art)
		}
		env.count("forgery-refused")
		return
	}
	if len(art) != size {
		env.fail("size", "a %s is accepted with %d bytes instead of %d: %x", a.kind, len(art), size, art)
	}
	switch a.kind {
	case "com":
		if !bytes.Equal(art, mac(refCommitKey(b.cs), aux, msg)) {
			env.fail("forgery", "%x is accepted as a commitment to %x with opening %x", art, msg, aux)
		}
	default:
		if !b.issuedBy(a.kind, who, msg) {
			env.fail("forgery", "%s %x is accepted for message %x of key %d, who never issued it", a.kind, art, msg, who)
		}
	}
	env.count("accepted-again")
}

// issuedBy tells whether the owner of a key has issued something for a message.
func (b *bindRun) issuedBy(kind string, who int, msg []byte) bool {
	for i := range b.signers {
		var same bool
		if kind == "sig" {
			same = bytes.Equal(b.signers[i].pub.Bytes(), b.signers[who].pub.Bytes())
		} else {
			same = bytes.Equal(b.provers[i].pub.Bytes(), b.provers[who].pub.Bytes())
		}
		if same && b.issued[fmt.Sprintf("%s%d:%s", kind, i, msg)] {
			return true
		}
	}
	return false
}

// ---- Keys that are none.

func (b *bindRun) badKeys(rng *rand.Rand) {
	env := b.env
	env.count("fault:bad-key")
	refuse := func(what string, raw []byte, err error) {
		if err == nil {
			env.fail("bad-key", "%s is accepted: %x", what, raw)
		}
		env.count("bad-keys-refused")
	}
	id := b.cs.Id()
	if id != 1 && id != 2 {
		return
	}
	// Of another length.
	raw := randKey(rng, b.cs)
	if rng.IntN(2) == 0 {
		raw = raw[:rng.IntN(32)]
	} else {
		raw = append(raw, randBytes(rng, 1+rng.IntN(40))...)
	}
	_, err := b.cs.ParseSigningPrivateKey(raw)
	refuse("a signature key of a wrong length", raw, err)
	_, err = b.cs.ParseVRFPrivateKey(raw)
	refuse("a VRF key of a wrong length", raw, err)

	s, p := b.signers[rng.IntN(len(b.signers))], b.provers[rng.IntN(len(b.provers))]
	resize := func(x []byte) []byte {
		x = bytes.Clone(x)
		if rng.IntN(2) == 0 {
			return x[:rng.IntN(len(x))]
		}
		return append(x, randBytes(rng, 1+rng.IntN(40))...)
	}
	raw = resize(s.pub.Bytes())
	_, err = b.cs.ParseSigningPublicKey(raw)
	refuse("a public signature key of a wrong length", raw, err)
	raw = resize(p.pub.Bytes())
	_, err = b.cs.ParseVRFPublicKey(raw)
	refuse("a public VRF key of a wrong length", raw, err)

	if id == 1 {
		// Scalars that are no keys.
		n := new(big.Int).Set(p256Order)
		switch rng.IntN(4) {
		case 0:
			n.SetInt64(0)
		case 1:
			n.Add(n, big.NewInt(int64(rng.IntN(3))))
		case 2:
			n.Lsh(big.NewInt(1), 256)
			n.Sub(n, big.NewInt(1+int64(rng.IntN(3))))
		case 3:
			n.Add(n, new(big.Int).SetBytes(randBytes(rng, 15)))
		}
		raw := make([]byte, 32)
		n.FillBytes(raw)
		_, err = b.cs.ParseSigningPrivateKey(raw)
		refuse("a signature key that is out of range", raw, err)
		_, err = b.cs.ParseVRFPrivateKey(raw)
		refuse("a VRF key that is out of range", raw, err)
		// Points that are not on the curve, or not in the group.
		bad := bytes.Clone(s.pub.Bytes())
		if rng.IntN(3) == 0 {
			bad[0] = []byte{0, 1, 2, 3, 5, 6, 7, 0xff}[rng.IntN(8)]
		} else {
			bad[1+rng.IntN(64)] ^= 1 << rng.IntN(8)
		}
		_, err = b.cs.ParseSigningPublicKey(bad)
		refuse("a public signature key that is not on the curve", bad, err)
		_, err = b.cs.ParseVRFPublicKey(bad)
		refuse("a public VRF key that is not on the curve", bad, err)
		_, err = b.cs.ParseVRFPublicKey([]byte{0})
		refuse("the point at infinity", []byte{0}, err)
		_, err = b.cs.ParseSigningPublicKey([]byte{0})
		refuse("the point at infinity", []byte{0}, err)
		// An x coordinate without a point.
		bad = bytes.Clone(p.pub.Bytes())
		for {
			bad[1+rng.IntN(32)] ^= 1 << rng.IntN(8)
			if x, _ := elliptic.UnmarshalCompressed(elliptic.P256(), bad); x == nil {
				break
			}
		}
		_, err = b.cs.ParseVRFPublicKey(bad)
		refuse("a public VRF key that is not on the curve", bad, err)
		return
	}
	// Points of small order, in any encoding, and points that are none.
	bad := smallOrder(rng).Bytes()
	_, err = b.cs.ParseVRFPublicKey(bad)
	refuse("a public VRF key of small order", bad, err)
	bad = bytes.Clone(p.pub.Bytes())
	for {
		bad[rng.IntN(32)] ^= 1 << rng.IntN(8)
		if _, err := new(edwards25519.Point).SetBytes(bad); err != nil {
			break
		}
	}
	_, err = b.cs.ParseVRFPublicKey(bad)
	refuse("a public VRF key that is not on the curve", bad, err)
}

// smallOrder returns a random point whose order divides 8.
func smallOrder(rng *rand.Rand) *edwards25519.Point {
	// l times any point is one of them.
	for {
		pt, err := new(edwards25519.Point).SetBytes(randBytes(rng, 32))
		if err != nil {
			continue
		}
		// l = 2^252 + 27742317777372353535851937790883648493
		l, _ := new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
		sum := edwards25519.NewIdentityPoint()
		for i := l.BitLen() - 1; i >= 0; i-- {
			sum.Add(sum, sum)
			if l.Bit(i) == 1 {
				sum.Add(sum, pt)
			}
		}
		return sum
	}
}

// torsion has the owner of an Ed25519 key make a proof whose first part is
// another point than the right one: it is moved by a point of small order, and
// the challenge is chosen such that this does not matter to the verifier. Such
// proofs may be accepted, but not for another output.
func (b *bindRun) torsion(rng *rand.Rand) {
	if b.cs.Id() != 2 {
		return
	}
	who := rng.IntN(len(b.provers))
	p := b.provers[who]
	m := &structs.VrfInput{Label: anyLabel(rng), Version: anyVersion(rng)}
	msg := b.encode(m)
	h := sha512.Sum512(p.raw)
	x, err := new(edwards25519.Scalar).SetBytesWithClamping(h[:32])
	must(err)
	Y := new(edwards25519.Point).ScalarBaseMult(x)
	if !bytes.Equal(Y.Bytes(), p.pub.Bytes()) {
		b.env.fail("key", "the public VRF key of %x is %x instead of %x", p.raw, p.pub.Bytes(), Y.Bytes())
	}
	H := refEdEncode(Y.Bytes(), msg)
	T := smallOrder(rng)
	Gamma := new(edwards25519.Point).ScalarMult(x, H)
	Gamma.Add(Gamma, T)
	for range 64 {
		k, err := new(edwards25519.Scalar).SetUniformBytes(randBytes(rng, 64))
		must(err)
		kB := new(edwards25519.Point).ScalarBaseMult(k)
		kH := new(edwards25519.Point).ScalarMult(k, H)
		buf := []byte{3, 2}
		for _, pt := range []*edwards25519.Point{Y, H, Gamma, kB, kH} {
			buf = append(buf, pt.Bytes()...)
		}
		hash := sha512.Sum512(append(buf, 0))
		c := make([]byte, 32)
		copy(c, hash[:16])
		if c[0]%8 != 0 {
			continue
		}
		cs, err := new(edwards25519.Scalar).SetCanonicalBytes(c)
		must(err)
		s := new(edwards25519.Scalar).MultiplyAdd(cs, x, k)
		proof := slices.Concat(Gamma.Bytes(), c[:16], s.Bytes())
		b.env.count("fault:torsion-proof")
		if b.accepts("vrf", who, msg, proof, nil) {
			b.env.count("torsion-accepted")
		}
		return
	}
}

func refEdEncode(salt, m []byte) *edwards25519.Point {
	for ctr := 0; ; ctr++ {
		h := sha512.Sum512(slices.Concat([]byte{3, 1}, salt, m, []byte{byte(ctr), 0}))
		if pt, err := new(edwards25519.Point).SetBytes(h[:32]); err == nil {
			return pt.MultByCofactor(pt)
		}
	}
}

// ---- Two deployments.

var twinWeights = map[string]int{
	"adv": 8, "mut": 10, "beat": 4, "search": 12, "mon": 8, "own": 3, "upd": 4,
	"deliver": 4, "twin": 4, "cross": 30, "leaf": 10, "head": 14,
}

func genTwins(rng *rand.Rand, plan *Plan, tier string) {
	genHonest(twinWeights, []int64{1, 2, 2, 3, 3})(rng, plan, tier)
	plan.Cfg["part"], plan.Cfg["store"] = 1, 0
	if rng.IntN(4) > 0 {
		plan.Cfg["suite"] = 0
	}
	n := 90
	if s := plan.Cfg["suite"]; s == 1 || s == 2 {
		n = 40
	}
	plan.Ops = plan.Ops[:min(len(plan.Ops), n)]
	plan.Ops = slices.Insert(plan.Ops, min(len(plan.Ops), 3+rng.IntN(12)), Op{K: "twin", A: rng.Int64N(16), B: rng.Int64N(16), S: rng.Uint64()})
}

type twinsRun struct {
	*honest
	twins []*twinWorld
}

type twinWorld struct {
	*World
	what string
}

func runTwins(env *Env) {
	h := newHonest(env)
	t := &twinsRun{honest: h}
	for _, op := range env.plan.Ops {
		rng := newRand(op.S)
		switch op.K {
		case "twin":
			t.twin(rng)
		case "cross":
			t.cross(rng, op)
		case "leaf":
			t.leaf(rng, op)
		case "head":
			t.head(rng, op)
		case "mut", "beat":
			h.step(op)
			// The others get changes too.
			for _, o := range t.twins {
				if rng.IntN(2) == 0 {
					t.on(o, func() { t.mutate(rng, rng.IntN(3)); t.maybeAudit(rng) })
				}
			}
		default:
			h.step(op)
		}
	}
}

func (t *twinsRun) on(o *twinWorld, do func()) {
	old := t.w
	t.w = o.World
	defer func() { t.w = old }()
	do()
}

type otherSuite struct{ suites.CipherSuite }

func (otherSuite) Id() uint16 { return 0xF0F1 }

// twin makes another deployment with the same log, which differs in one respect.
func (t *twinsRun) twin(rng *rand.Rand) {
	w := t.w
	if len(t.twins) >= 3 || w.ref.n() == 0 || w.ref.collapse > 0 {
		return
	}
	o := w.fork()
	key := func() suites.SigningPrivateKey {
		k, err := w.ks.suite.ParseSigningPrivateKey(randKey(rng, w.ks.suite))
		must(err)
		return k
	}
	bump := func(x *uint64) {
		switch {
		case *x > 1 && rng.IntN(2) == 0:
			*x--
		default:
			*x++
		}
	}
	var choices = []string{"signature-key", "vrf-key", "max-ahead", "max-behind", "window", "lifetime"}
	switch w.cfg.Mode {
	case modeManaged:
		choices = append(choices, "leaf-key", "leaf-key")
	case modeAudited:
		choices = append(choices, "auditor-key", "auditor-lag", "auditor-start")
	case modeContact:
		choices = append(choices, "mode")
	}
	if w.ks.suite.Id() == 0xF0F0 {
		choices = append(choices, "suite")
	}
	what := choices[rng.IntN(len(choices))]
	c := &o.cfg
	switch what {
	case "signature-key":
		o.ks.sig = key()
		c.SignatureKey = o.ks.sig
	case "vrf-key":
		k, err := w.ks.suite.ParseVRFPrivateKey(randKey(rng, w.ks.suite))
		must(err)
		o.ks.vrf = k
		c.VrfKey = k
	case "max-ahead":
		bump(&c.MaxAhead)
	case "max-behind":
		bump(&c.MaxBehind)
	case "window":
		bump(&c.ReasonableMonitoringWindow)
	case "lifetime":
		switch {
		case c.MaximumLifetime == 0:
			c.MaximumLifetime = 1 << 40
		case rng.IntN(2) == 0:
			c.MaximumLifetime = 0
		default:
			bump(&c.MaximumLifetime)
		}
	case "leaf-key":
		o.ks.leaf = key()
		c.LeafPublicKey = o.ks.leaf.Public()
	case "auditor-key":
		o.ks.auditor = key()
		c.AuditorPublicKey = o.ks.auditor.Public()
	case "auditor-lag":
		bump(&c.MaxAuditorLag)
	case "auditor-start":
		bump(&c.AuditorStartPos)
	case "mode":
		c.Mode = modeAudited
		c.MaxAuditorLag, c.AuditorStartPos = 600_000, 0
		o.ks.auditor = key()
		c.AuditorPublicKey = o.ks.auditor.Public()
	case "suite":
		c.Suite = otherSuite{c.Suite}
	}
	o.pub = c.Public()
	o.ref.rmw, o.ref.life = c.ReasonableMonitoringWindow, c.MaximumLifetime
	must(o.openTree())
	o.resync()
	if c.Mode == modeAudited {
		o.audStore = &auditStore{env: t.env, failAt: -1}
		o.audAt, o.audHead, o.aud = 0, nil, nil
		must(o.openAuditor())
	}
	tw := &twinWorld{o, what}
	// Its log has at least one entry of its own.
	t.on(tw, func() {
		o.mutate(nil, nil)
		if c.Mode == modeAudited {
			o.audit(true)
		}
	})
	t.twins = append(t.twins, tw)
	t.env.count("fault:deployment-with-other-" + what)
	t.env.sig("t%s", what)
}

// cross has a client make a request that another deployment answers.
func (t *twinsRun) cross(rng *rand.Rand, op Op) {
	env := t.env
	if len(t.twins) == 0 {
		return
	}
	o := t.twins[rng.IntN(len(t.twins))]
	c := t.client(op.A).clone()
	if rng.IntN(4) == 0 {
		c = newSimClient(t.w, 99)
	}
	if rng.IntN(3) == 0 {
		// It may also be the other way.
		c = newSimClient(o.World, 98)
		o = &twinWorld{t.w, o.what}
	}
	c.loose = true
	kind := []string{"search", "search", "search", "monitor", "ownerinit"}[rng.IntN(5)]
	ver := -1
	l := t.label(op.B)
	if rng.IntN(2) == 0 {
		ver = rng.IntN(o.ref.latest(l) + 3)
	}
	p := c.begin(kind, l, ver, nil)
	if p == nil {
		return
	}
	p.answerOn(o.World)
	if p.rp.err != nil {
		env.count("no-answer")
		return
	}
	env.count("fault:answer-of-other-deployment")
	t.judge(p, o.what, rng)
}

// judge delivers a response that was made for another deployment.
func (t *twinsRun) judge(p *pending, what string, rng *rand.Rand) {
	env, c, w := t.env, p.c, p.c.w
	res := p.parse(p.rp.raw)
	if res == nil {
		env.count("forgery-refused")
		return
	}
	before := c.st.fingerprint()
	fth, err := p.verifyAny(res)
	env.count("judged")
	env.logf("client %d gets %s %q from a deployment with another %s: %v", c.id, p.kind, p.label, what, err)
	env.sig("x%s%v", p.kind[:2], err == nil)
	if err != nil && err != algorithms.ErrLabelNotFound && err != algorithms.ErrLabelExpired {
		if c.st.fingerprint() != before {
			env.fail("state-after-error", "client %d rejects a response of another deployment but changes its state", c.id)
		}
		env.count("forgery-refused")
		return
	}
	if fth.TreeHead != nil {
		env.fail("other-deployment", "client %d accepts a tree head of size %d that was signed for a deployment with another %s (%s %q %d)", c.id, fth.TreeHead.TreeSize, what, p.kind, p.label, p.ver)
	}
	if c.st.state == nil {
		env.fail("other-deployment", "client %d without any state accepts a response without a tree head", c.id)
	}
	// There is nothing that is signed in it, and it may be true all the same.
	if why := w.verifyHead(&c.inspectState().TreeHead); why != "" {
		env.fail("other-deployment", "client %d: %s", c.id, why)
	}
	env.count("same-head")
}

// leaf puts a value into a copy of the log whose signature by the service
// operator was made for something else.
func (t *twinsRun) leaf(rng *rand.Rand, op Op) {
	w, env := t.w, t.env
	if w.cfg.Mode != modeManaged || w.ref.n() == 0 {
		return
	}
	l := t.label(op.B)
	ver := w.ref.latest(l) + 1
	val := randVal(rng)
	tbs := &structs.UpdateTBS{Config: w.pub, Label: []byte(l), Version: uint32(ver), Value: val}
	key := w.ks.leaf
	what := ""
	switch rng.IntN(8) {
	case 0:
		tbs.Label = append([]byte(l), 'x')
		what = "label"
	case 1:
		tbs.Version = []uint32{uint32(ver) + 1, uint32(ver) - 1, uint32(ver) + 256, 0}[rng.IntN(4)]
		what = "version"
	case 2:
		tbs.Value = append(bytes.Clone(val), 0)
		what = "value"
	case 3:
		key = []suites.SigningPrivateKey{w.ks.sig, w.ks.auditor}[rng.IntN(2)]
		what = "key"
	case 4, 5:
		if len(t.twins) == 0 {
			return
		}
		o := t.twins[rng.IntN(len(t.twins))]
		tbs.Config = o.pub
		key = o.ks.leaf
		what = "deployment with another " + o.what
	default:
		what = "nothing else"
	}
	msg := reference(tbs)
	sig, err := key.Sign(msg)
	must(err)
	right := bytes.Equal(msg, refUpdateTBS(w.pub, []byte(l), uint32(ver), val)) && bytes.Equal(key.Public().Bytes(), w.ks.leaf.Public().Bytes())
	if rng.IntN(5) == 0 {
		// An old signature.
		if prev := w.ref.live[l]; len(prev) > 0 {
			v := prev[rng.IntN(len(prev))]
			sig = w.leafSig(l, v.ver, v.val)
			what, right = "an earlier version", false
		}
	}
	f := w.fork()
	if rng.IntN(4) > 0 {
		lv := w.labelValue(l, val)
		lv.Value.Signature = sig
		var upd *structs.AuditorUpdate
		upd, err = f.tree.Mutate([]labelVal{lv}, nil)
		if err != nil {
			if right {
				env.fail("mutate", "a value with a right signature is refused: %v", err)
			}
			env.count("forgery-refused")
			return
		}
		f.ref.ts = append(f.ref.ts, upd.Timestamp)
	}
	env.count("fault:signature-for-something-else")
	c := t.client(op.A).clone()
	if rng.IntN(3) == 0 {
		c = newSimClient(w, 97)
	}
	c.loose = true
	if len(f.ref.ts) == len(w.ref.ts) {
		// The server gets it in a request.
		t.managerLeaf(f, l, ver, val, sig, right, what)
		return
	}
	if d := w.clockBad(c.skew, w.ref.n()); d != "" {
		return
	}
	ask := -1
	if rng.IntN(2) == 0 {
		ask = ver
	}
	p := c.begin("search", l, ask, nil)
	if p == nil {
		return
	}
	p.answerOn(f)
	if p.rp.err != nil {
		if right {
			env.fail("refused", "a search for version %d of %q is refused: %v", ver, l, p.rp.err)
		}
		return
	}
	res := p.parse(p.rp.raw)
	if res == nil {
		env.fail("encoding", "a response can not be decoded")
	}
	c.at(func() { err = p.sverify(res.(*structs.SearchResponse)) })
	env.count("judged")
	env.logf("client %d gets version %d of %q with a signature for %s: %v", c.id, ver, l, what, err)
	ok := err == nil
	if ok && !right {
		env.fail("forged-value", "client %d accepts version %d of %q with a signature for %s", c.id, ver, l, what)
	}
	if !ok && right {
		env.fail("honest", "client %d refuses version %d of %q with a right signature: %v", c.id, ver, l, err)
	}
	env.sig("l%v", ok)
	if !ok {
		env.count("forgery-refused")
	}
}

// managerLeaf gives a server a new version of a label in a request.
func (t *twinsRun) managerLeaf(f *World, l string, ver int, val, sig []byte, right bool, what string) {
	env := t.env
	req := &structs.ManagerUpdateRequest{Label: []byte(l), SignedVersion: uint32(ver), Values: []structs.UpdateValue{{Value: val, UpdateSuffix: structs.UpdateSuffix{Signature: sig}}}}
	if ver > 0 {
		req.GreatestVersion = new(uint32)
		*req.GreatestVersion = uint32(ver) - 1
	}
	tree, err := f.reader(false)
	must(err)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch, err := tree.ManagerUpdate(ctx, req)
	env.logf("request for version %d of %q with a signature for %s: %v", ver, l, what, err)
	env.count("judged")
	env.sig("r%v", err == nil)
	if err != nil {
		if right {
			env.fail("honest", "a request with a right signature is refused: %v", err)
		}
		env.count("forgery-refused")
		return
	}
	if !right {
		env.fail("forged-value", "a server takes version %d of %q with a signature for %s", ver, l, what)
	}
	cancel()
	for open := true; open; {
		select {
		case _, open = <-ch:
		case q := <-f.queue:
			close(q.Response)
		}
	}
}

// head has the server present a tree head, or one of the auditor, whose signature
// was made for something else.
func (t *twinsRun) head(rng *rand.Rand, op Op) {
	w, env := t.w, t.env
	n := w.ref.n()
	if n == 0 || w.cfg.Mode == modeAudited && w.audHead == nil {
		return
	}
	c := t.client(op.A).clone()
	if rng.IntN(2) == 0 || c.size == n {
		c = newSimClient(w, 97)
	}
	c.loose = true
	kind, key, pub := "head", w.ks.sig, w.pub
	size, ts := n, w.ref.ts[n-1]
	if w.cfg.Mode == modeAudited && rng.IntN(2) == 0 {
		kind, key = "auditor", w.ks.auditor
		size = w.audHead.TreeSize
		if rng.IntN(2) == 0 {
			size = n
		}
		ts = w.ref.ts[size-1]
	}
	// What is shown, and what is signed.
	s, sts, root := size, ts, w.ref.logHash(0, size)
	what := "nothing else"
	switch rng.IntN(9) {
	case 0:
		s = nearNum(rng, size)
		what = "size"
	case 1:
		if kind == "auditor" {
			sts = nearNum(rng, ts)
			what = "timestamp"
		}
	case 2:
		root = flip(rng, root)
		what = "root"
	case 3:
		o := 1 + rng.Uint64N(n)
		root = w.ref.logHash(0, o)
		what = "earlier root"
	case 4:
		key = []suites.SigningPrivateKey{w.ks.sig, w.ks.leaf, w.ks.auditor}[rng.IntN(3)]
		what = "key"
	case 5, 6, 7:
		if len(t.twins) == 0 {
			return
		}
		o := t.twins[rng.IntN(len(t.twins))]
		pub = o.pub
		what = "deployment with another " + o.what
		if rng.IntN(3) > 0 {
			key = o.ks.sig
			if kind == "auditor" && o.ks.auditor != nil {
				key = o.ks.auditor
			}
		}
	}
	var msg, want []byte
	if kind == "head" {
		msg, want = refHeadTBS(pub, s, root), refHeadTBS(w.pub, size, w.ref.logHash(0, size))
	} else {
		msg, want = refAuditorTBS(pub, sts, s, root), refAuditorTBS(w.pub, ts, size, w.ref.logHash(0, size))
	}
	sig, err := key.Sign(msg)
	must(err)
	mine := w.ks.sig
	if kind == "auditor" {
		mine = w.ks.auditor
	}
	right := bytes.Equal(msg, want) && bytes.Equal(key.Public().Bytes(), mine.Public().Bytes())
	if rng.IntN(8) == 0 {
		sig = flip(rng, sig)
		what, right = "nothing", false
	}
	raw := marshal(&structs.TreeHead{TreeSize: size, Signature: sig})
	if kind == "auditor" {
		raw = marshal(&structs.AuditorTreeHead{Timestamp: ts, TreeSize: size, Signature: sig})
	}
	req := []string{"search", "search", "monitor", "ownerinit"}[rng.IntN(4)]
	p := c.begin(req, t.label(op.B), -1, nil)
	if p == nil {
		return
	}
	p.expectAt(n, w.audHead)
	w.flt.tamper = func(k, _ string, val []byte) []byte {
		if k == kind {
			return bytes.Clone(raw)
		}
		return val
	}
	p.answerOn(w)
	if p.rp.err != nil {
		return
	}
	env.count("fault:head-for-something-else")
	res := p.parse(p.rp.raw)
	if res == nil {
		env.fail("encoding", "a response can not be decoded")
	}
	before := c.st.fingerprint()
	fth, err := p.verifyAny(res)
	env.count("judged")
	env.logf("client %d gets a %s for %s: %v", c.id, kind, what, err)
	ok := err == nil || err == algorithms.ErrLabelNotFound || err == algorithms.ErrLabelExpired
	env.sig("h%v", ok)
	if ok {
		if !right && fth.TreeHead != nil {
			env.fail("forged-head", "client %d accepts a %s of size %d with a signature for another %s", c.id, kind, size, what)
		}
		return
	}
	if c.st.fingerprint() != before {
		env.fail("state-after-error", "client %d rejects a response but changes its state", c.id)
	}
	if right && p.exp.refuse == "" && p.exp.reject == "" && !p.exp.maybe && !p.exp.lax && w.clockBad(c.skew, n) == "" {
		env.fail("honest", "client %d refuses a %s of size %d with a right signature: %v", c.id, kind, size, err)
	}
	env.count("forgery-refused")
}

// verifyAny gives a response to the client.
func (p *pending) verifyAny(res structs.Marshaller) (fth *structs.FullTreeHead, err error) {
	p.c.at(func() {
		switch r := res.(type) {
		case *structs.SearchResponse:
			fth, err = &r.FullTreeHead, p.sverify(r)
		case *structs.OwnerInitResponse:
			fth, err = &r.FullTreeHead, p.overify(r)
		case *structs.ContactMonitorResponse:
			fth, err = &r.FullTreeHead, p.mverify(r)
		case *structs.OwnerMonitorResponse:
			fth, err = &r.FullTreeHead, p.mverify(r)
		}
	})
	return fth, err
}
