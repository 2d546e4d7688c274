package main

import (
	"bytes"
	"encoding/binary"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

// What is signed, committed to and given to the VRF, encoded from the protocol's
// definition and not by the code under test. All parties have to agree on these
// bytes, and each of them has to depend on everything that it is made for.

type enc struct{ bytes.Buffer }

func (e *enc) num(v any) { must(binary.Write(e, binary.BigEndian, v)) }
func (e *enc) vec(width int, b []byte) {
	var l [8]byte
	binary.BigEndian.PutUint64(l[:], uint64(len(b)))
	e.Write(l[8-width:])
	e.Write(b)
}

func (e *enc) config(c *structs.PublicConfig) {
	e.num(c.Suite.Id())
	e.num(uint8(c.Mode))
	e.vec(2, c.SignatureKey.Bytes())
	e.vec(2, c.VrfKey.Bytes())
	switch c.Mode {
	case structs.ThirdPartyManagement:
		e.vec(2, c.LeafPublicKey.Bytes())
	case structs.ThirdPartyAuditing:
		e.num(c.MaxAuditorLag)
		e.num(c.AuditorStartPos)
		e.vec(2, c.AuditorPublicKey.Bytes())
	}
	e.num(c.MaxAhead)
	e.num(c.MaxBehind)
	e.num(c.ReasonableMonitoringWindow)
	if c.MaximumLifetime == 0 {
		e.num(uint8(0))
	} else {
		e.num(uint8(1))
		e.num(c.MaximumLifetime)
	}
}

func refHeadTBS(c *structs.PublicConfig, size uint64, root []byte) []byte {
	e := &enc{}
	e.config(c)
	e.num(size)
	e.Write(root)
	return e.Bytes()
}

func refAuditorTBS(c *structs.PublicConfig, ts, size uint64, root []byte) []byte {
	e := &enc{}
	e.config(c)
	e.num(ts)
	e.num(size)
	e.Write(root)
	return e.Bytes()
}

func refUpdateTBS(c *structs.PublicConfig, label []byte, ver uint32, val []byte) []byte {
	e := &enc{}
	e.config(c)
	e.vec(1, label)
	e.num(ver)
	e.vec(4, val)
	return e.Bytes()
}

// refCommitKey is the fixed key that a suite makes commitments with.
func refCommitKey(cs suites.CipherSuite) string {
	if cs.Id() > 2 {
		return string(cs.CommitmentFixedBytes())
	}
	return "\xd8\x21\xf8\x79\x0d\x97\x70\x97\x96\xb4\xd7\x90\x33\x57\xc3\xf5"
}

func refCommitBody(label []byte, ver uint32, val structs.UpdateValue) []byte {
	e := &enc{}
	e.vec(1, label)
	e.num(ver)
	e.vec(4, val.Value)
	if val.Signature != nil {
		e.vec(2, val.Signature)
	}
	return e.Bytes()
}

func refVrfInput(label []byte, ver uint32) []byte {
	e := &enc{}
	e.vec(1, label)
	e.num(ver)
	return e.Bytes()
}
