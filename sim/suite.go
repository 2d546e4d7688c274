package main

import (
	"crypto/hmac"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"hash"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/crypto/vrf"
)

// simSuite stands in for a cipher suite: SHA-256 is real, while signatures and
// the VRF are keyed hashes whose "public" keys hold the secret. This makes a run
// about fifty times faster than with elliptic curves. A part of all runs use
// the two real suites.
type simSuite struct{}

var _ suites.CipherSuite = simSuite{}

func (simSuite) Id() uint16                   { return 0xF0F0 }
func (simSuite) Hash() hash.Hash              { return sha256.New() }
func (simSuite) HashSize() int                { return 32 }
func (simSuite) CommitmentOpeningSize() int   { return 16 }
func (simSuite) CommitmentFixedBytes() []byte { return []byte("simulated-suite!") }
func (simSuite) VrfProofSize() int            { return 24 }
func (simSuite) ParseSigningPrivateKey(raw []byte) (suites.SigningPrivateKey, error) {
	return simSigKey(raw), nil
}
func (simSuite) ParseSigningPublicKey(raw []byte) (suites.SigningPublicKey, error) {
	return simSigPub(raw), nil
}
func (simSuite) ParseVRFPrivateKey(raw []byte) (vrf.PrivateKey, error) { return simVrf(raw), nil }
func (simSuite) ParseVRFPublicKey(raw []byte) (vrf.PublicKey, error)   { return simVrfPub(raw), nil }

func mac(key string, parts ...[]byte) []byte {
	h := hmac.New(sha256.New, []byte(key))
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

type simSigKey []byte
type simSigPub []byte

func (k simSigKey) Sign(message []byte) ([]byte, error) { return mac("sig"+string(k), message), nil }
func (k simSigKey) Public() suites.SigningPublicKey     { return simSigPub(k) }
func (k simSigPub) Verify(message, sig []byte) bool {
	return hmac.Equal(sig, mac("sig"+string(k), message))
}
func (k simSigPub) Bytes() []byte { h := sha256.Sum256(k); return h[:] }

type simVrf []byte
type simVrfPub []byte

func (k simVrf) Prove(m []byte) (output, proof []byte) {
	return mac("vrf"+string(k), m), mac("prf"+string(k), m)[:24]
}
func (k simVrf) PublicKey() vrf.PublicKey { return simVrfPub(k) }
func (k simVrfPub) Verify(m, proof []byte) ([]byte, error) {
	out, want := simVrf(k).Prove(m)
	if !hmac.Equal(want, proof) {
		return nil, errors.New("vrf proof does not verify")
	}
	return out, nil
}
func (k simVrfPub) Bytes() []byte { h := sha256.Sum256(k); return h[:] }

// vrfHead makes VRF outputs whose first bytes collide often, so that the prefix
// tree gets deep quickly.
type clusterSuite struct{ simSuite }

func (clusterSuite) ParseVRFPrivateKey(raw []byte) (vrf.PrivateKey, error) {
	return clusterVrf(raw), nil
}
func (clusterSuite) ParseVRFPublicKey(raw []byte) (vrf.PublicKey, error) {
	return clusterVrfPub(raw), nil
}

type clusterVrf []byte
type clusterVrfPub []byte

func (k clusterVrf) Prove(m []byte) (output, proof []byte) {
	output, proof = simVrf(k).Prove(m)
	// Share a long common prefix within one of few clusters.
	c := output[31] % 3
	n := 1 + int(output[30]%6)
	for i := 0; i < n; i++ {
		output[i] = c * 0x55
	}
	return
}
func (k clusterVrf) PublicKey() vrf.PublicKey { return clusterVrfPub(k) }
func (k clusterVrfPub) Verify(m, proof []byte) ([]byte, error) {
	out, want := clusterVrf(k).Prove(m)
	if !hmac.Equal(want, proof) {
		return nil, errors.New("vrf proof does not verify")
	}
	return out, nil
}
func (k clusterVrfPub) Bytes() []byte { h := sha256.Sum256(append([]byte("c"), k...)); return h[:] }

// flakyKey is a signing key that can be made to fail, as one in a remote or
// hardware keystore does.
type flakyKey struct {
	suites.SigningPrivateKey
	fails int  // Number of signatures to fail.
	hit   bool // It has failed.
}

var errKeystore = errors.New("simulated failure of the keystore")

func (k *flakyKey) Sign(message []byte) ([]byte, error) {
	if k.fails > 0 {
		k.fails--
		k.hit = true
		return nil, errKeystore
	}
	return k.SigningPrivateKey.Sign(message)
}

type keySet struct {
	suite              suites.CipherSuite
	sig, leaf, auditor suites.SigningPrivateKey
	vrf                vrf.PrivateKey
}

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	must(err)
	return b
}

// keysFor returns fixed keys for the given suite.
func keysFor(kind int64) keySet {
	var cs suites.CipherSuite
	switch kind {
	case 1:
		cs = suites.KTSha256P256{}
	case 2:
		cs = suites.KTSha256Ed25519{}
	case 3:
		cs = clusterSuite{}
	default:
		cs = simSuite{}
	}
	sk := func(s string) suites.SigningPrivateKey {
		k, err := cs.ParseSigningPrivateKey(unhex(s))
		must(err)
		return k
	}
	v, err := cs.ParseVRFPrivateKey(unhex("d1f2dcc02cc82c1f2b623e91946c945a2a1eb2983a47f283d8dd2af3d9b9d9ad"))
	must(err)
	return keySet{
		suite:   cs,
		sig:     sk("d4987fdd18738be11e93f7f087bf3e0ef5743b8deea192509bbf716c9463c218"),
		leaf:    sk("21987fdd18738be11e93f7f087bf3e0ef5743b8deea192509bbf716c9463c2aa"),
		auditor: sk("ad8dc7973a514fbd609916b6b4a529387f33a586856e9ff6f4adcb12072ab8b2"),
		vrf:     v,
	}
}
