From 9f7b396c53982ac40337959a955e5fea1b9567a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 01/54] fix: keep the client's tree heads when finishing a
 verification

A client with no state dereferenced a nil pointer on its first response,
and a response that re-used the retained tree head dropped the retained
auditor tree head.
---
 tree/transparency/client_crypto.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index 630155c..8598698 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -231,13 +231,15 @@ func (v *verifier) finish() (*structs.ClientState, error) {
 
 	// Compute and return the updated client state.
 	updated := &structs.ClientState{
-		TreeHead:        v.state.TreeHead,
-		AuditorTreeHead: v.fth.AuditorTreeHead,
-		FullSubtrees:    result.FullSubtrees,
-		LogEntries:      result.LogEntries,
+		FullSubtrees: result.FullSubtrees,
+		LogEntries:   result.LogEntries,
 	}
 	if v.fth.TreeHead != nil {
 		updated.TreeHead = *v.fth.TreeHead
+		updated.AuditorTreeHead = v.fth.AuditorTreeHead
+	} else {
+		updated.TreeHead = v.state.TreeHead
+		updated.AuditorTreeHead = v.state.AuditorTreeHead
 	}
 	return updated, nil
 }
-- 
2.43.0


From fcc01f56f129587ca86a01e7c6bb71e5bf449275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 02/54] fix: require a new tree head to be larger than the
 retained one

The comparison was inverted, so that clients could never advance to a
larger tree and accepted smaller ones.
---
 tree/transparency/client_crypto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index 8598698..16e1f70 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -144,7 +144,7 @@ func (v *verifier) verifyTreeHead(root, rootP []byte) error {
 	}
 
 	// Verify the size and signature on the tree head.
-	if v.state != nil && v.state.TreeHead.TreeSize <= v.n {
+	if v.state != nil && v.state.TreeHead.TreeSize >= v.n {
 		return errors.New("provided tree size is not greater than advertised")
 	}
 	tbs, err := structs.Marshal(&structs.TreeHeadTBS{
-- 
2.43.0


From 4d83d67c05da87e4079b3edab9d0e2a5df2fba1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 03/54] fix: store an owner's starting version with a
 fixed-size encoding

encoding/binary does not support int, so the value was silently left out
and owner state could never be read back.
---
 tree/transparency/structs/client.go  | 6 +++---
 tree/transparency/structs/structs.go | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tree/transparency/structs/client.go b/tree/transparency/structs/client.go
index 3348b17..3cf7b40 100644
--- a/tree/transparency/structs/client.go
+++ b/tree/transparency/structs/client.go
@@ -107,7 +107,7 @@ func NewLabelOwnerState(buf *bytes.Buffer) (*LabelOwnerState, error) {
 	if err != nil {
 		return nil, err
 	}
-	verAtStarting, err := readNumeric[int](buf)
+	verAtStarting, err := readNumeric[uint64](buf)
 	if err != nil {
 		return nil, err
 	}
@@ -117,14 +117,14 @@ func NewLabelOwnerState(buf *bytes.Buffer) (*LabelOwnerState, error) {
 	}
 	return &LabelOwnerState{
 		Starting:      starting,
-		VerAtStarting: verAtStarting,
+		VerAtStarting: int(int64(verAtStarting)),
 		UpcomingVers:  upcomingVers,
 	}, nil
 }
 
 func (los *LabelOwnerState) Marshal(buf *bytes.Buffer) error {
 	writeNumeric(buf, los.Starting)
-	writeNumeric(buf, los.VerAtStarting)
+	writeNumeric(buf, uint64(los.VerAtStarting))
 	return writeNumericSlice[uint32](buf, los.UpcomingVers, "upcoming versions")
 }
 
diff --git a/tree/transparency/structs/structs.go b/tree/transparency/structs/structs.go
index 8f4e159..33120ba 100644
--- a/tree/transparency/structs/structs.go
+++ b/tree/transparency/structs/structs.go
@@ -24,7 +24,7 @@ func Marshal(x Marshaller) ([]byte, error) {
 }
 
 type numeric interface {
-	uint8 | uint16 | uint32 | uint64 | int
+	uint8 | uint16 | uint32 | uint64
 }
 
 func readNumeric[T numeric](buf *bytes.Buffer) (T, error) {
-- 
2.43.0


From 4cf5f120d21757e66c9f0061bba63a554a48fd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 04/54] fix: store the retained versions of an owned label

Marshalling stopped after the owner state, and the resulting error was
ignored when reading it back.
---
 tree/transparency/structs/client.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/structs/client.go b/tree/transparency/structs/client.go
index 3cf7b40..dd11b8e 100644
--- a/tree/transparency/structs/client.go
+++ b/tree/transparency/structs/client.go
@@ -195,6 +195,9 @@ func NewClientLabelState(cs suites.CipherSuite, buf *bytes.Buffer) (*ClientLabel
 	versions, err := readFuncSlice[uint32](buf, func(buf *bytes.Buffer) (*RetainedVersion, error) {
 		return NewRetainedVersion(cs, buf)
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	return &ClientLabelState{Contact: contact, Owner: owner, Versions: versions}, nil
 }
@@ -204,7 +207,9 @@ func (cls *ClientLabelState) Marshal(buf *bytes.Buffer) error {
 		return err
 	}
 	if writeOptional(buf, cls.Owner != nil) {
-		return cls.Owner.Marshal(buf)
+		if err := cls.Owner.Marshal(buf); err != nil {
+			return err
+		}
 	}
 	return writeMarshalSlice[uint32](buf, cls.Versions, "retained versions")
 }
-- 
2.43.0


From fe21cda36acc0fe69440cd7fc2c2fbc73adae72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:28 +0000
Subject: [PATCH 05/54] fix: allow contact monitoring to complete

Monitor sets its contact state to nil when no further monitoring is
required, which the client then dereferenced.
---
 tree/transparency/algorithms/monitor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tree/transparency/algorithms/monitor.go b/tree/transparency/algorithms/monitor.go
index e215073..fa792d1 100644
--- a/tree/transparency/algorithms/monitor.go
+++ b/tree/transparency/algorithms/monitor.go
@@ -24,7 +24,12 @@ func NewContactState(entries []structs.MonitorMapEntry) *ContactState {
 	return &ContactState{Ptrs: ptrs}
 }
 
+// Struct returns the monitoring map entries to retain. A nil ContactState means
+// that no further monitoring is required.
 func (cs *ContactState) Struct() []structs.MonitorMapEntry {
+	if cs == nil {
+		return nil
+	}
 	out := make([]structs.MonitorMapEntry, 0, len(cs.Ptrs))
 	for pos, ver := range cs.Ptrs {
 		out = append(out, structs.MonitorMapEntry{Position: pos, Version: ver})
-- 
2.43.0


From c897e7474071e01fbc0f1c9a18004701991bf02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:28 +0000
Subject: [PATCH 06/54] fix: produce proofs relative to the client's tree when
 it is current

The client always verifies against its retained tree size, but the server
ignored it when that was equal to the current tree size.
---
 tree/transparency/transparency.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/transparency/transparency.go b/tree/transparency/transparency.go
index 677c3cb..b5e9516 100644
--- a/tree/transparency/transparency.go
+++ b/tree/transparency/transparency.go
@@ -112,7 +112,7 @@ func (t *Tree) fullTreeHead(last *uint64) (fth *structs.FullTreeHead, n uint64,
 		return nil, 0, nil, nil, errors.New("can not operate on an empty tree")
 	} else if last != nil {
 		if *last == t.treeHead.TreeSize {
-			return &structs.FullTreeHead{}, t.treeHead.TreeSize, nil, nil, nil
+			return &structs.FullTreeHead{}, t.treeHead.TreeSize, nil, last, nil
 		} else if *last > t.treeHead.TreeSize {
 			return nil, 0, nil, nil, errors.New("tree size advertised by user is greater than current tree size")
 		}
-- 
2.43.0


From b7458c75ceb2d04db7a0a58401a713a98715caec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:29 +0000
Subject: [PATCH 07/54] fix: reject requests that advertise a tree size of zero

The frontier of an empty tree is undefined and computing it panicked,
which let any client crash the server.
---
 tree/transparency/transparency.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/transparency.go b/tree/transparency/transparency.go
index b5e9516..6e0e9f6 100644
--- a/tree/transparency/transparency.go
+++ b/tree/transparency/transparency.go
@@ -111,7 +111,9 @@ func (t *Tree) fullTreeHead(last *uint64) (fth *structs.FullTreeHead, n uint64,
 	if t.treeHead == nil {
 		return nil, 0, nil, nil, errors.New("can not operate on an empty tree")
 	} else if last != nil {
-		if *last == t.treeHead.TreeSize {
+		if *last == 0 {
+			return nil, 0, nil, nil, errors.New("tree size advertised by user is invalid")
+		} else if *last == t.treeHead.TreeSize {
 			return &structs.FullTreeHead{}, t.treeHead.TreeSize, nil, last, nil
 		} else if *last > t.treeHead.TreeSize {
 			return nil, 0, nil, nil, errors.New("tree size advertised by user is greater than current tree size")
-- 
2.43.0


From 5635b0428a02cbe840010310a75a4d5f65040d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:29 +0000
Subject: [PATCH 08/54] fix: terminate binary ladders for very large versions

Version 2^32-1 has no greater power of two minus one in 32 bits, which led
to an unbounded allocation for requests naming it, and the midpoint
computation overflowed for versions of 2^31 and up.
---
 tree/transparency/math/ladders.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/tree/transparency/math/ladders.go b/tree/transparency/math/ladders.go
index 5e398d4..d92d053 100644
--- a/tree/transparency/math/ladders.go
+++ b/tree/transparency/math/ladders.go
@@ -9,19 +9,26 @@ import (
 func baseBinaryLadder(n uint32) []uint32 {
 	out := make([]uint32, 0)
 
+	// All of the bounds are tracked as 64-bit integers because the upper bound
+	// may not be representable as a version.
+	var lowerBound, upperBound uint64
 	for {
-		val := (uint32(1) << len(out)) - 1
-		out = append(out, val)
-		if val > n {
+		val := (uint64(1) << len(out)) - 1
+		out = append(out, uint32(val))
+		if val > uint64(n) {
+			upperBound = val
 			break
+		} else if val == (1<<32)-1 {
+			// There are no versions greater than this.
+			return out
 		}
+		lowerBound = val
 	}
 
-	lowerBound, upperBound := out[len(out)-2], out[len(out)-1]
 	for lowerBound+1 < upperBound {
 		val := (lowerBound + upperBound) / 2
-		out = append(out, val)
-		if val <= n {
+		out = append(out, uint32(val))
+		if val <= uint64(n) {
 			lowerBound = val
 		} else {
 			upperBound = val
-- 
2.43.0


From 108c883088c7fdca04fb7407d5794380271255ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:53 +0000
Subject: [PATCH 09/54] fix: produce update responses

The monitor used to build an update proof was never given an owner state or
the VRF outputs it needs, so every Update request failed.
---
 tree/transparency/update.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/update.go b/tree/transparency/update.go
index 831b320..fb2750b 100644
--- a/tree/transparency/update.go
+++ b/tree/transparency/update.go
@@ -261,9 +261,23 @@ func (u *updater) next(withValues bool) (*structs.UpdateResponse, error) {
 	monitor, err := algorithms.NewMonitor(t.config.Public(), n, provider)
 	if err != nil {
 		return nil, err
-	} else if err := monitor.Update(pos, len(info)); err != nil {
+	}
+	// The owner is aware of all versions prior to the ones in this update.
+	monitor.Owner = &algorithms.OwnerState{
+		VerAtStarting: -1,
+		UpcomingVers:  slices.Clone(u.index[:u.ver-len(info)]),
+	}
+	if err := monitor.Update(pos, len(info)); err != nil {
 		return nil, err
 	}
+	for ver := range handle.RequiredVersions() {
+		vrfOutput, _, err := t.computeVrfOutput(u.label, ver)
+		if err != nil {
+			return nil, err
+		} else if err := handle.AddVersion(ver, vrfOutput); err != nil {
+			return nil, err
+		}
+	}
 	proof, err := provider.Output(n, nP, m)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 5de3f596466cc377577e7016b2d75a9512c67e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 10/54] fix: check the length of an update's binary ladder
 before using it

A response with too few binary ladder steps crashed the client.
---
 tree/transparency/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree/transparency/client.go b/tree/transparency/client.go
index ea83eaf..51d4335 100644
--- a/tree/transparency/client.go
+++ b/tree/transparency/client.go
@@ -564,6 +564,9 @@ func (sv *StreamVerifier) Verify(res *structs.UpdateResponse) error {
 	// Verify that no commitment is provided for a version greater than or equal
 	// to `startVer`.
 	ladder := updateLadderVersions(startVer, startVer+uint32(len(res.Info)-1))
+	if len(res.BinaryLadder) != len(ladder) {
+		return errors.New("incorrect number of binary ladder steps provided")
+	}
 	for i, ver := range ladder {
 		if ver >= startVer && res.BinaryLadder[i].Commitment != nil {
 			return errors.New("commitment provided when not expected")
-- 
2.43.0


From a95e46f7fb80de7197d6604a32df2dca30e5af4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 11/54] fix: accept inclusion proofs for several versions at
 once

An update that creates several versions outside of the binary ladder looks
all of them up in one prefix proof.
---
 tree/transparency/algorithms/proof_handle.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tree/transparency/algorithms/proof_handle.go b/tree/transparency/algorithms/proof_handle.go
index f78834d..09a0777 100644
--- a/tree/transparency/algorithms/proof_handle.go
+++ b/tree/transparency/algorithms/proof_handle.go
@@ -197,11 +197,14 @@ func (rph *ReceivedProofHandle) GetInclusionProof(x uint64, vers []uint32) ([]by
 	}
 	proof := rph.inner.PrefixProofs[0]
 
-	// Verify that proof shows inclusion for a single version.
-	if len(proof.Results) != 1 {
+	// Verify that proof shows inclusion for each version.
+	if len(proof.Results) != len(vers) {
 		return nil, errors.New("unexpected number of results present in prefix proof")
-	} else if !proof.Results[0].Inclusion() {
-		return nil, errors.New("unexpected non-inclusion proof provided")
+	}
+	for _, res := range proof.Results {
+		if !res.Inclusion() {
+			return nil, errors.New("unexpected non-inclusion proof provided")
+		}
 	}
 
 	// Evaluate the prefix proof and return.
-- 
2.43.0


From 356736cf37c15963a795c7c650303aee7f7f4dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 12/54] fix: reject malformed leaves in prefix tree
 non-inclusion proofs

A non-inclusion proof could be given with the leaf being searched for, or
with a leaf that does not belong where the search terminated. The first
makes an existing entry look absent, and the second crashed the auditor.
---
 tree/prefix/verify.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/tree/prefix/verify.go b/tree/prefix/verify.go
index e77543b..5fa6c81 100644
--- a/tree/prefix/verify.go
+++ b/tree/prefix/verify.go
@@ -22,6 +22,26 @@ func terminalNode(entry Entry, res PrefixSearchResult) node {
 	}
 }
 
+// verifyTerminalNode checks that `n` may be the terminal node of a search for
+// `entry` at the given depth. In particular, a leaf that's used to show
+// non-inclusion must be for a different VRF output that shares the same prefix.
+func verifyTerminalNode(n node, entry Entry, res PrefixSearchResult, depth int) error {
+	leaf, ok := n.(leafNode)
+	if !ok {
+		return nil
+	}
+	equal := bytes.Equal(entry.VrfOutput, leaf.vrfOutput)
+	if res.Inclusion() != equal || depth > 8*len(leaf.vrfOutput) {
+		return errors.New("malformed proof")
+	}
+	for i := range depth {
+		if getBit(entry.VrfOutput, i) != getBit(leaf.vrfOutput, i) {
+			return errors.New("malformed proof")
+		}
+	}
+	return nil
+}
+
 // addToSkeleton adds the terminal node for a single search result
 // to the in-memory tree in `n`.
 func addToSkeleton(n *node, entry Entry, res PrefixSearchResult) error {
@@ -54,7 +74,11 @@ func addToSkeleton(n *node, entry Entry, res PrefixSearchResult) error {
 			if depth > res.Depth() {
 				return errors.New("current depth is greater than result depth")
 			} else if depth == res.Depth() {
-				*n = terminalNode(entry, res)
+				terminal := terminalNode(entry, res)
+				if err := verifyTerminalNode(terminal, entry, res, depth); err != nil {
+					return err
+				}
+				*n = terminal
 				return nil
 			} else {
 				*n = &parentNode{left: externalNode{}, right: externalNode{}}
-- 
2.43.0


From 2d930ee62585245b886050c42369f99d709d162e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 13/54] fix: load the prefix tree root for searches without any
 lookups

When all of the lookups for a log entry are redundant, the proof consists
of only the root hash, but the root was never loaded and the proof
contained an empty element.
---
 tree/prefix/prefix.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tree/prefix/prefix.go b/tree/prefix/prefix.go
index c92c360..c5f5f92 100644
--- a/tree/prefix/prefix.go
+++ b/tree/prefix/prefix.go
@@ -51,6 +51,13 @@ func (t *Tree) Search(searches []PrefixSearch) ([]SearchResult, error) {
 		}
 		combined[search.Version] = append(combined[search.Version], search.VrfOutputs...)
 	}
+	for ver, vrfOutputs := range combined {
+		if len(vrfOutputs) == 0 {
+			// Search for an arbitrary VRF output to ensure that the root of this
+			// version of the tree is loaded, because it will be in the proof.
+			combined[ver] = [][]byte{make([]byte, t.cs.HashSize())}
+		}
+	}
 
 	b := newBatch(t.cs, t.tx)
 	res, state := b.initialize(combined)
-- 
2.43.0


From 06043798b3a5b55ee33842d0dac50c0d104adbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 14/54] fix: allow prefix tree entries to be replaced in an
 audited log

Mutate supports removing a label and adding it back in the same log entry,
but evaluating the resulting proof failed because of the duplicated VRF
outputs.
---
 tree/prefix/verify.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/tree/prefix/verify.go b/tree/prefix/verify.go
index 5fa6c81..47b2c31 100644
--- a/tree/prefix/verify.go
+++ b/tree/prefix/verify.go
@@ -177,13 +177,32 @@ func Verify(cs suites.CipherSuite, entries []Entry, proof *PrefixProof, root []b
 // EvaluateBeforeAfter evaluates `proof` before and after making the requested
 // additions and removals.
 func EvaluateBeforeAfter(cs suites.CipherSuite, add, remove []Entry, proof *PrefixProof) ([]byte, []byte, error) {
+	if len(add)+len(remove) != len(proof.Results) {
+		return nil, nil, errors.New("number of entries searched for does not match number of results")
+	}
+
 	// Combine the `add` and `remove` slices and compute the prefix tree root
-	// hash in the straightforward way.
-	allEntries := make([]Entry, len(add)+len(remove))
-	copy(allEntries, add)
-	copy(allEntries[len(add):], remove)
+	// hash in the straightforward way. An entry that's being replaced is in both
+	// slices, in which case only the removed value exists beforehand.
+	removed := make(map[string]int)
+	for i, entry := range remove {
+		removed[string(entry.VrfOutput)] = len(add) + i
+	}
+	allEntries := make([]Entry, 0, len(add)+len(remove))
+	allResults := make([]PrefixSearchResult, 0, len(add)+len(remove))
+	for i, entry := range add {
+		if j, ok := removed[string(entry.VrfOutput)]; !ok {
+			allEntries = append(allEntries, entry)
+			allResults = append(allResults, proof.Results[i])
+		} else if proof.Results[i].Inclusion() != proof.Results[j].Inclusion() ||
+			proof.Results[i].Depth() != proof.Results[j].Depth() {
+			return nil, nil, errors.New("malformed proof")
+		}
+	}
+	allEntries = append(allEntries, remove...)
+	allResults = append(allResults, proof.Results[len(add):]...)
 
-	root, err := evaluate(cs, allEntries, proof)
+	root, err := evaluate(cs, allEntries, &PrefixProof{Results: allResults, Elements: proof.Elements})
 	if err != nil {
 		return nil, nil, err
 	}
-- 
2.43.0


From 2b4f816887c8423a1509ad4538761cb0353e6919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:35 +0000
Subject: [PATCH 15/54] fix: recognise empty subtrees in a prefix proof's
 copath

An empty sibling was treated as an opaque subtree, so that a tree evaluated
after removals was not simplified the same way as the original.
---
 tree/prefix/verify.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tree/prefix/verify.go b/tree/prefix/verify.go
index 47b2c31..2e66fce 100644
--- a/tree/prefix/verify.go
+++ b/tree/prefix/verify.go
@@ -92,18 +92,18 @@ func addToSkeleton(n *node, entry Entry, res PrefixSearchResult) error {
 
 // fillInCopath populates all of the empty copath nodes in `n` with `elements`
 // in left-to-right order.
-func fillInCopath(n *node, elements [][]byte) ([][]byte, error) {
+func fillInCopath(cs suites.CipherSuite, n *node, elements [][]byte) ([][]byte, error) {
 	switch m := (*n).(type) {
 	case emptyNode, leafNode:
 		return elements, nil
 
 	case *parentNode:
 		var err error
-		elements, err = fillInCopath(&m.left, elements)
+		elements, err = fillInCopath(cs, &m.left, elements)
 		if err != nil {
 			return nil, err
 		}
-		elements, err = fillInCopath(&m.right, elements)
+		elements, err = fillInCopath(cs, &m.right, elements)
 		if err != nil {
 			return nil, err
 		}
@@ -114,6 +114,9 @@ func fillInCopath(n *node, elements [][]byte) ([][]byte, error) {
 			return nil, errors.New("wrong number of copath nodes provided")
 		}
 		*n = externalNode{hash: elements[0]}
+		if bytes.Equal(elements[0], emptyNode{}.Hash(cs)) {
+			*n = emptyNode{}
+		}
 		return elements[1:], nil
 
 	default:
@@ -144,7 +147,7 @@ func evaluate(cs suites.CipherSuite, entries []Entry, proof *PrefixProof) (node,
 			return nil, err
 		}
 	}
-	elements, err := fillInCopath(&root, proof.Elements)
+	elements, err := fillInCopath(cs, &root, proof.Elements)
 	if err != nil {
 		return nil, err
 	} else if len(elements) != 0 {
-- 
2.43.0


From f9a4eea7fa5a033a6c773356d342765d3a8190b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:36 +0000
Subject: [PATCH 16/54] fix: let retained versions and a response's versions
 overlap

Clients that had retained VRF outputs or commitments for a label rejected
every response that covered the same versions, instead of checking that the
two are consistent.
---
 tree/transparency/algorithms/proof_handle.go | 13 +++++++++++--
 tree/transparency/client_crypto.go           | 11 +++++++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/tree/transparency/algorithms/proof_handle.go b/tree/transparency/algorithms/proof_handle.go
index 09a0777..cd6eb03 100644
--- a/tree/transparency/algorithms/proof_handle.go
+++ b/tree/transparency/algorithms/proof_handle.go
@@ -13,6 +13,8 @@ import (
 	"github.com/Bren2010/katie/tree/transparency/structs"
 )
 
+// addVersion adds a version of a label to `versions`. The same version may be
+// added multiple times as long as all of the information given is consistent.
 func addVersion(
 	cs suites.CipherSuite,
 	versions map[uint32]prefix.Entry,
@@ -22,8 +24,15 @@ func addVersion(
 		return errors.New("malformed vrf output")
 	} else if commitment != nil && len(commitment) != cs.HashSize() {
 		return errors.New("malformed commitment")
-	} else if _, ok := versions[ver]; ok {
-		return errors.New("can not add the same version twice")
+	}
+	if existing, ok := versions[ver]; ok {
+		if !bytes.Equal(vrfOutput, existing.VrfOutput) {
+			return errors.New("different vrf outputs given for the same version")
+		} else if commitment == nil {
+			commitment = existing.Commitment
+		} else if existing.Commitment != nil && !bytes.Equal(commitment, existing.Commitment) {
+			return errors.New("different commitments given for the same version")
+		}
 	}
 	versions[ver] = prefix.Entry{VrfOutput: vrfOutput, Commitment: commitment}
 	return nil
diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index 16e1f70..19d05bb 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -130,6 +130,17 @@ func (v *verifier) processLadder(
 		}
 	}
 
+	// Manually-computed commitments may also be for versions that aren't in
+	// `ladder` because the VRF output was retained.
+	for ver, commitment := range manual {
+		entry, ok := v.handle.GetVersion(ver)
+		if !ok {
+			return errors.New("required version not known")
+		} else if err := v.handle.AddVersion(ver, entry.VrfOutput, commitment); err != nil {
+			return err
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 66314428c0bfe374dcbff253191ada40e17ec3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:09 +0000
Subject: [PATCH 17/54] fix: return errors from a greatest-version search

Failing to find the rightmost distinguished log entry was reported as a
successful search, without looking at any log entries.
---
 tree/transparency/algorithms/search.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/transparency/algorithms/search.go b/tree/transparency/algorithms/search.go
index 92e7d95..b7baeb4 100644
--- a/tree/transparency/algorithms/search.go
+++ b/tree/transparency/algorithms/search.go
@@ -22,7 +22,7 @@ func GreatestVersionSearch(config *structs.PublicConfig, ver uint32, n uint64, p
 	// distinguished log entries.
 	rightmostDLE, err := RightmostDistinguished(config, n, provider)
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 	var x uint64
 	if rightmostDLE != nil {
-- 
2.43.0


From 8cba315e1fdbc1c09c261f8558c38502532e7ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:40 +0000
Subject: [PATCH 18/54] fix: authenticate search results that show a label does
 not exist

The client reported that a label does not exist or is expired without
having verified the tree head, so anyone on the network path could make
labels disappear. The signature of the Service Operator is only checked for
values that exist.
---
 tree/transparency/client.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/tree/transparency/client.go b/tree/transparency/client.go
index 51d4335..d3adefb 100644
--- a/tree/transparency/client.go
+++ b/tree/transparency/client.go
@@ -166,12 +166,6 @@ func (c *Client) search(
 			return errors.New("unexpected error occurred")
 		}
 
-		// If a Third-Party Manager is being used, verify `value`.
-		err = verifyUpdateValue(c.config, req.Label, target, res.Value)
-		if err != nil {
-			return err
-		}
-
 		// Verify that the expected number of entries is present in
 		// `binary_ladder` and compute the VRF output for each version.
 		ladder := math.SearchBinaryLadder(target, target, nil, nil)
@@ -190,12 +184,30 @@ func (c *Client) search(
 		if err := v.updateView(); err != nil {
 			return err
 		}
-		var terminal uint64
+		var (
+			terminal  uint64
+			searchErr error
+		)
 		if req.Version == nil {
-			terminal, err = v.greatestVersionSearch(target)
+			terminal, searchErr = v.greatestVersionSearch(target)
 		} else {
-			terminal, err = v.fixedVersionSearch(target)
+			terminal, searchErr = v.fixedVersionSearch(target)
+		}
+		if searchErr == algorithms.ErrLabelNotFound || searchErr == algorithms.ErrLabelExpired {
+			// The search shows that there's no value to return. This result is
+			// only given to the user if the proof of it is authentic.
+			updated, err := v.finish()
+			if err != nil {
+				return err
+			} else if err := c.putState(updated); err != nil {
+				return err
+			}
+			return searchErr
+		} else if searchErr != nil {
+			return searchErr
 		}
+		// If a Third-Party Manager is being used, verify `value`.
+		err = verifyUpdateValue(c.config, req.Label, target, res.Value)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 69a4911894da2821a0014569546cc65f8ade791d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 19/54] fix: encode search responses without a value under
 Third-Party Management

The response left out the signature field, so that clients could not decode
it when the requested version of a label does not exist.
---
 tree/transparency/crypto.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/crypto.go b/tree/transparency/crypto.go
index 2c58c43..5aaeb2f 100644
--- a/tree/transparency/crypto.go
+++ b/tree/transparency/crypto.go
@@ -78,8 +78,13 @@ func (t *Tree) getVersion(label []byte, ver uint32) (*structs.OpeningAndValue, e
 		// Returning a zero value for the commitment opening ensures that the
 		// SearchResponse doesn't end up getting serialized wrong when a search
 		// produces a non-inclusion proof.
+		// The same is true for the signature when there's a Third-Party Manager.
 		size := t.config.Suite.CommitmentOpeningSize()
-		return &structs.OpeningAndValue{Opening: make([]byte, size)}, nil
+		out := &structs.OpeningAndValue{Opening: make([]byte, size)}
+		if t.config.Mode == structs.ThirdPartyManagement {
+			out.Value.Signature = []byte{}
+		}
+		return out, nil
 	}
 	buf := bytes.NewBuffer(raw)
 	labelValue, err := structs.NewOpeningAndValue(t.config.Public(), buf)
-- 
2.43.0


From 9a5ed9b7788fc1f2f96f49db8bf1b3b20e827a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 20/54] fix: track when a client's label needs to be monitored
 next

Monitoring a label left it immediately due for monitoring again, so that
Monitor never ran out of work and other labels could be starved. Searching
for a label postponed its monitoring each time, even if older versions were
still waiting for it.
---
 tree/transparency/client.go        | 27 ++++++++-------------------
 tree/transparency/client_crypto.go | 23 +++++++++++++++++------
 2 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/tree/transparency/client.go b/tree/transparency/client.go
index d3adefb..15b1c84 100644
--- a/tree/transparency/client.go
+++ b/tree/transparency/client.go
@@ -98,7 +98,6 @@ func (c *Client) putLabelState(
 	updated *structs.ClientState,
 	label []byte,
 	updatedLabel *structs.ClientLabelState,
-	terminal uint64,
 ) error {
 	raw, err := structs.Marshal(updated)
 	if err != nil {
@@ -111,7 +110,7 @@ func (c *Client) putLabelState(
 			return err
 		}
 	}
-	return c.tx.PutLabelState(raw, label, rawLabel, terminal)
+	return c.tx.PutLabelState(raw, label, rawLabel, staleAt(updatedLabel))
 }
 
 // GreatestVersionSearch returns a SearchRequest for the greatest version of
@@ -234,13 +233,11 @@ func (c *Client) search(
 		} else if err := v.addLabelState(labelState); err != nil {
 			return err
 		}
-		terminal, err = updateContactState(labelState, terminal, v.n, target)
-		if err != nil {
-			return err
-		} else if err := updateRetainedVersions(labelState, v.handle); err != nil {
+		updateContactState(labelState, terminal, v.n, target)
+		if err := updateRetainedVersions(labelState, v.handle); err != nil {
 			return err
 		}
-		return c.putLabelState(updated, req.Label, labelState, terminal)
+		return c.putLabelState(updated, req.Label, labelState)
 	}
 }
 
@@ -324,7 +321,7 @@ func (c *Client) ownerInit(
 		} else if err := updateRetainedVersions(labelState, v.handle); err != nil {
 			return err
 		}
-		return c.putLabelState(updated, req.Label, labelState, req.Start)
+		return c.putLabelState(updated, req.Label, labelState)
 	}
 }
 
@@ -414,15 +411,7 @@ func (c *Client) contactMonitor(
 		if err := updateRetainedVersions(labelState, v.handle); err != nil {
 			return err
 		}
-
-		terminal, err := v.rightmostDistinguished()
-		if err != nil {
-			return err
-		} else if terminal == nil {
-			return errors.New("unable to compute rightmost distinguished log entry")
-		}
-
-		return c.putLabelState(updated, req.Label, labelState, *terminal)
+		return c.putLabelState(updated, req.Label, labelState)
 	}
 }
 
@@ -468,7 +457,7 @@ func (c *Client) ownerMonitor(
 		if err := updateRetainedVersions(labelState, v.handle); err != nil {
 			return err
 		}
-		return c.putLabelState(updated, req.Label, labelState, labelState.Owner.Starting)
+		return c.putLabelState(updated, req.Label, labelState)
 	}
 }
 
@@ -623,5 +612,5 @@ func (sv *StreamVerifier) Verify(res *structs.UpdateResponse) error {
 		return err
 	}
 
-	return sv.client.putLabelState(updated, sv.req.Label, sv.labelState, sv.labelState.Owner.Starting)
+	return sv.client.putLabelState(updated, sv.req.Label, sv.labelState)
 }
diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index 19d05bb..2f57810 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -376,14 +376,27 @@ func simplifyMonitoringMap(ptrs map[uint64]uint32, n uint64) {
 	}
 }
 
-// updateContactState is used specifically after Search operations. It computes
-// the rightmost terminal log entry for the search, and removes any map entries
-// that no longer need to be monitored as a result of this search.
+// staleAt returns the first log entry that, if it or any log entry to its right
+// is distinguished, means that the label needs to be monitored.
+func staleAt(state *structs.ClientLabelState) uint64 {
+	terminal := ^uint64(0)
+	for _, entry := range state.Contact {
+		terminal = min(terminal, entry.Position)
+	}
+	if state.Owner != nil {
+		terminal = min(terminal, state.Owner.Starting+1)
+	}
+	return terminal
+}
+
+// updateContactState is used specifically after Search operations. It adds the
+// rightmost terminal log entry for the search, and removes any map entries that
+// no longer need to be monitored as a result of this search.
 func updateContactState(
 	state *structs.ClientLabelState,
 	x, n uint64,
 	ver uint32,
-) (uint64, error) {
+) {
 	contact := algorithms.NewContactState(state.Contact)
 
 	path := append([]uint64{x}, math.RightDirectPath(x, n)...)
@@ -393,12 +406,10 @@ func updateContactState(
 			break
 		}
 		contact.Ptrs[pos] = ver
-		x = pos
 	}
 	simplifyMonitoringMap(contact.Ptrs, n)
 
 	state.Contact = contact.Struct()
-	return x, nil
 }
 
 // updateRetainedVersions recomputes the set of VRF outputs and commitments that
-- 
2.43.0


From a0ee5c37603efc58683d05c542c3a375afbf2e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 21/54] fix: do not roll back the client's state when requests
 overlap

Each response was verified against, and then replaced, the state from when
its request was made. A response that was delayed could roll the client back
to an older tree, which it could be shown a fork of.
---
 tree/transparency/client.go | 47 ++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/tree/transparency/client.go b/tree/transparency/client.go
index 15b1c84..affa3ae 100644
--- a/tree/transparency/client.go
+++ b/tree/transparency/client.go
@@ -86,7 +86,25 @@ func (c *Client) getStaleLabel(cutoff uint64) ([]byte, *structs.ClientLabelState
 	return label, state, nil
 }
 
-func (c *Client) putState(updated *structs.ClientState) error {
+// checkState returns an error if the client's state has been updated since it
+// was read to be `state`. Otherwise, responses to requests that were made at the
+// same time could roll back each other's changes.
+func (c *Client) checkState(state *structs.ClientState) error {
+	current, err := c.getState()
+	if err != nil {
+		return err
+	}
+	last, currentLast := getLast(state), getLast(current)
+	if (last == nil) != (currentLast == nil) || last != nil && *last != *currentLast {
+		return errors.New("client state was changed since request was made")
+	}
+	return nil
+}
+
+func (c *Client) putState(state, updated *structs.ClientState) error {
+	if err := c.checkState(state); err != nil {
+		return err
+	}
 	raw, err := structs.Marshal(updated)
 	if err != nil {
 		return err
@@ -95,10 +113,13 @@ func (c *Client) putState(updated *structs.ClientState) error {
 }
 
 func (c *Client) putLabelState(
-	updated *structs.ClientState,
+	state, updated *structs.ClientState,
 	label []byte,
 	updatedLabel *structs.ClientLabelState,
 ) error {
+	if err := c.checkState(state); err != nil {
+		return err
+	}
 	raw, err := structs.Marshal(updated)
 	if err != nil {
 		return err
@@ -198,7 +219,7 @@ func (c *Client) search(
 			updated, err := v.finish()
 			if err != nil {
 				return err
-			} else if err := c.putState(updated); err != nil {
+			} else if err := c.putState(state, updated); err != nil {
 				return err
 			}
 			return searchErr
@@ -217,13 +238,13 @@ func (c *Client) search(
 
 		// Try to bail out early by updating only the global state.
 		if c.config.Mode != structs.ContactMonitoring {
-			return c.putState(updated)
+			return c.putState(state, updated)
 		}
 		rightmostDLE, err := v.rightmostDistinguished()
 		if err != nil {
 			return err
 		} else if rightmostDLE != nil && terminal <= *rightmostDLE {
-			return c.putState(updated)
+			return c.putState(state, updated)
 		}
 
 		// Updating label-specific state is necessary.
@@ -237,7 +258,7 @@ func (c *Client) search(
 		if err := updateRetainedVersions(labelState, v.handle); err != nil {
 			return err
 		}
-		return c.putLabelState(updated, req.Label, labelState)
+		return c.putLabelState(state, updated, req.Label, labelState)
 	}
 }
 
@@ -321,7 +342,7 @@ func (c *Client) ownerInit(
 		} else if err := updateRetainedVersions(labelState, v.handle); err != nil {
 			return err
 		}
-		return c.putLabelState(updated, req.Label, labelState)
+		return c.putLabelState(state, updated, req.Label, labelState)
 	}
 }
 
@@ -411,7 +432,7 @@ func (c *Client) contactMonitor(
 		if err := updateRetainedVersions(labelState, v.handle); err != nil {
 			return err
 		}
-		return c.putLabelState(updated, req.Label, labelState)
+		return c.putLabelState(state, updated, req.Label, labelState)
 	}
 }
 
@@ -457,7 +478,7 @@ func (c *Client) ownerMonitor(
 		if err := updateRetainedVersions(labelState, v.handle); err != nil {
 			return err
 		}
-		return c.putLabelState(updated, req.Label, labelState)
+		return c.putLabelState(state, updated, req.Label, labelState)
 	}
 }
 
@@ -605,12 +626,16 @@ func (sv *StreamVerifier) Verify(res *structs.UpdateResponse) error {
 	}
 
 	// Update the global and label-specific state.
-	sv.state = updated
 	sv.labelState.Contact = monitor.Contact.Struct()
 	sv.labelState.Owner = monitor.Owner.Struct()
 	if err := updateRetainedVersions(sv.labelState, v.handle); err != nil {
 		return err
 	}
 
-	return sv.client.putLabelState(updated, sv.req.Label, sv.labelState)
+	err = sv.client.putLabelState(sv.state, updated, sv.req.Label, sv.labelState)
+	if err != nil {
+		return err
+	}
+	sv.state = updated
+	return nil
 }
-- 
2.43.0


From e9847061f32303f51df388e4c7eadf44f0434173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:39 +0000
Subject: [PATCH 22/54] fix: do not lose a label's monitoring state when
 requests overlap

A response replaced the label's state with one derived from when its request
was made, so that log entries which were added to the monitoring map in the
meantime were never monitored.
---
 tree/transparency/client.go | 82 +++++++++++++++++++++++++------------
 1 file changed, 55 insertions(+), 27 deletions(-)

diff --git a/tree/transparency/client.go b/tree/transparency/client.go
index affa3ae..94f8ee5 100644
--- a/tree/transparency/client.go
+++ b/tree/transparency/client.go
@@ -64,26 +64,33 @@ func (c *Client) getState() (*structs.ClientState, error) {
 	return state, nil
 }
 
-func (c *Client) getLabelState(label []byte) (*structs.ClientLabelState, error) {
+// getLabelState returns the state of the label, both raw and parsed.
+func (c *Client) getLabelState(label []byte) ([]byte, *structs.ClientLabelState, error) {
 	raw, err := c.tx.GetLabelState(label)
 	if err != nil {
-		return nil, err
+		return nil, nil, err
+	}
+	state, err := parseLabelState(c.config, raw)
+	if err != nil {
+		return nil, nil, err
 	}
-	return parseLabelState(c.config, raw)
+	return raw, state, nil
 }
 
-func (c *Client) getStaleLabel(cutoff uint64) ([]byte, *structs.ClientLabelState, error) {
+// getStaleLabel returns a label that needs to be monitored, and its state both
+// raw and parsed.
+func (c *Client) getStaleLabel(cutoff uint64) ([]byte, []byte, *structs.ClientLabelState, error) {
 	label, raw, err := c.tx.GetStaleLabel(cutoff)
 	if err != nil {
-		return nil, nil, err
+		return nil, nil, nil, err
 	} else if label == nil {
-		return nil, nil, nil
+		return nil, nil, nil, nil
 	}
 	state, err := parseLabelState(c.config, raw)
 	if err != nil {
-		return nil, nil, err
+		return nil, nil, nil, err
 	}
-	return label, state, nil
+	return label, raw, state, nil
 }
 
 // checkState returns an error if the client's state has been updated since it
@@ -112,26 +119,38 @@ func (c *Client) putState(state, updated *structs.ClientState) error {
 	return c.tx.PutState(raw)
 }
 
+// putLabelState replaces the global state `state`, and the label-specific state
+// `prevLabel`. It returns the new label-specific state.
 func (c *Client) putLabelState(
 	state, updated *structs.ClientState,
-	label []byte,
+	label, prevLabel []byte,
 	updatedLabel *structs.ClientLabelState,
-) error {
+) ([]byte, error) {
 	if err := c.checkState(state); err != nil {
-		return err
+		return nil, err
+	}
+	current, err := c.tx.GetLabelState(label)
+	if err != nil {
+		return nil, err
+	} else if !bytes.Equal(current, prevLabel) {
+		return nil, errors.New("label state was changed since request was made")
 	}
 	raw, err := structs.Marshal(updated)
 	if err != nil {
-		return err
+		return nil, err
 	}
 	var rawLabel []byte
 	if len(updatedLabel.Contact) > 0 || updatedLabel.Owner != nil {
 		rawLabel, err = structs.Marshal(updatedLabel)
 		if err != nil {
-			return err
+			return nil, err
 		}
 	}
-	return c.tx.PutLabelState(raw, label, rawLabel, staleAt(updatedLabel))
+	err = c.tx.PutLabelState(raw, label, rawLabel, staleAt(updatedLabel))
+	if err != nil {
+		return nil, err
+	}
+	return rawLabel, nil
 }
 
 // GreatestVersionSearch returns a SearchRequest for the greatest version of
@@ -248,7 +267,7 @@ func (c *Client) search(
 		}
 
 		// Updating label-specific state is necessary.
-		labelState, err := c.getLabelState(req.Label)
+		rawLabel, labelState, err := c.getLabelState(req.Label)
 		if err != nil {
 			return err
 		} else if err := v.addLabelState(labelState); err != nil {
@@ -258,7 +277,8 @@ func (c *Client) search(
 		if err := updateRetainedVersions(labelState, v.handle); err != nil {
 			return err
 		}
-		return c.putLabelState(state, updated, req.Label, labelState)
+		_, err = c.putLabelState(state, updated, req.Label, rawLabel, labelState)
+		return err
 	}
 }
 
@@ -273,7 +293,7 @@ func (c *Client) OwnerInit(label []byte) (
 	if err != nil {
 		return nil, nil, err
 	}
-	labelState, err := c.getLabelState(label)
+	rawLabel, labelState, err := c.getLabelState(label)
 	if err != nil {
 		return nil, nil, err
 	} else if labelState != nil && labelState.Owner != nil {
@@ -285,11 +305,12 @@ func (c *Client) OwnerInit(label []byte) (
 	}
 
 	req := &structs.OwnerInitRequest{Last: getLast(state), Label: label, Start: start}
-	return req, c.ownerInit(state, labelState, req), nil
+	return req, c.ownerInit(state, rawLabel, labelState, req), nil
 }
 
 func (c *Client) ownerInit(
 	state *structs.ClientState,
+	rawLabel []byte,
 	labelState *structs.ClientLabelState,
 	req *structs.OwnerInitRequest,
 ) VerifyFunc[*structs.OwnerInitResponse] {
@@ -342,7 +363,8 @@ func (c *Client) ownerInit(
 		} else if err := updateRetainedVersions(labelState, v.handle); err != nil {
 			return err
 		}
-		return c.putLabelState(state, updated, req.Label, labelState)
+		_, err = c.putLabelState(state, updated, req.Label, rawLabel, labelState)
+		return err
 	}
 }
 
@@ -365,7 +387,7 @@ func (c *Client) Monitor() (
 	if err != nil {
 		return nil, nil, err
 	}
-	label, labelState, err := c.getStaleLabel(cutoff)
+	label, rawLabel, labelState, err := c.getStaleLabel(cutoff)
 	if err != nil {
 		return nil, nil, err
 	} else if label == nil {
@@ -381,7 +403,7 @@ func (c *Client) Monitor() (
 			Label:   label,
 			Entries: labelState.Contact,
 		}
-		return req, c.contactMonitor(state, labelState, req), nil
+		return req, c.contactMonitor(state, rawLabel, labelState, req), nil
 	}
 	req := &structs.OwnerMonitorRequest{
 		Last: getLast(state),
@@ -391,11 +413,12 @@ func (c *Client) Monitor() (
 		Start:           labelState.Owner.Starting,
 		GreatestVersion: greatestVersion(labelState.Owner),
 	}
-	return req, c.ownerMonitor(state, labelState, req), nil
+	return req, c.ownerMonitor(state, rawLabel, labelState, req), nil
 }
 
 func (c *Client) contactMonitor(
 	state *structs.ClientState,
+	rawLabel []byte,
 	labelState *structs.ClientLabelState,
 	req *structs.ContactMonitorRequest,
 ) VerifyFunc[structs.Marshaller] {
@@ -432,12 +455,14 @@ func (c *Client) contactMonitor(
 		if err := updateRetainedVersions(labelState, v.handle); err != nil {
 			return err
 		}
-		return c.putLabelState(state, updated, req.Label, labelState)
+		_, err = c.putLabelState(state, updated, req.Label, rawLabel, labelState)
+		return err
 	}
 }
 
 func (c *Client) ownerMonitor(
 	state *structs.ClientState,
+	rawLabel []byte,
 	labelState *structs.ClientLabelState,
 	req *structs.OwnerMonitorRequest,
 ) VerifyFunc[structs.Marshaller] {
@@ -478,7 +503,8 @@ func (c *Client) ownerMonitor(
 		if err := updateRetainedVersions(labelState, v.handle); err != nil {
 			return err
 		}
-		return c.putLabelState(state, updated, req.Label, labelState)
+		_, err = c.putLabelState(state, updated, req.Label, rawLabel, labelState)
+		return err
 	}
 }
 
@@ -494,7 +520,7 @@ func (c *Client) Update(label []byte, values [][]byte) (
 	if err != nil {
 		return nil, nil, err
 	}
-	labelState, err := c.getLabelState(label)
+	rawLabel, labelState, err := c.getLabelState(label)
 	if err != nil {
 		return nil, nil, err
 	} else if labelState == nil || labelState.Owner == nil {
@@ -515,6 +541,7 @@ func (c *Client) Update(label []byte, values [][]byte) (
 	verifier := &StreamVerifier{
 		client:     c,
 		state:      state,
+		rawLabel:   rawLabel,
 		labelState: labelState,
 		req:        req,
 	}
@@ -526,6 +553,7 @@ func (c *Client) Update(label []byte, values [][]byte) (
 type StreamVerifier struct {
 	client     *Client
 	state      *structs.ClientState
+	rawLabel   []byte
 	labelState *structs.ClientLabelState
 	req        *structs.UpdateRequest
 }
@@ -632,10 +660,10 @@ func (sv *StreamVerifier) Verify(res *structs.UpdateResponse) error {
 		return err
 	}
 
-	err = sv.client.putLabelState(sv.state, updated, sv.req.Label, sv.labelState)
+	rawLabel, err := sv.client.putLabelState(sv.state, updated, sv.req.Label, sv.rawLabel, sv.labelState)
 	if err != nil {
 		return err
 	}
-	sv.state = updated
+	sv.state, sv.rawLabel = updated, rawLabel
 	return nil
 }
-- 
2.43.0


From 427d0db8070e4b3ae9b5e75e9078ce1a3cd7b942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:09 +0000
Subject: [PATCH 23/54] fix: require an auditor tree head under Third-Party
 Auditing

Without one, the server produced responses that could not be decoded, and
the client accepted tree heads that no auditor has seen.
---
 tree/transparency/client_crypto.go | 7 ++++++-
 tree/transparency/transparency.go  | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index 2f57810..539e379 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -169,8 +169,13 @@ func (v *verifier) verifyTreeHead(root, rootP []byte) error {
 	ok := v.config.SignatureKey.Verify(tbs, v.fth.TreeHead.Signature)
 	if !ok {
 		return errors.New("failed to verify tree head signature")
-	} else if v.fth.AuditorTreeHead == nil {
+	} else if v.config.Mode != structs.ThirdPartyAuditing {
+		if v.fth.AuditorTreeHead != nil {
+			return errors.New("auditor tree head provided when not expected")
+		}
 		return nil
+	} else if v.fth.AuditorTreeHead == nil {
+		return errors.New("auditor tree head not provided when expected")
 	}
 
 	// Verify size and signature of the auditor tree head.
diff --git a/tree/transparency/transparency.go b/tree/transparency/transparency.go
index 6e0e9f6..c7314eb 100644
--- a/tree/transparency/transparency.go
+++ b/tree/transparency/transparency.go
@@ -110,6 +110,8 @@ func (t *Tree) TreeHead() *structs.TreeHead { return t.treeHead }
 func (t *Tree) fullTreeHead(last *uint64) (fth *structs.FullTreeHead, n uint64, nP, m *uint64, err error) {
 	if t.treeHead == nil {
 		return nil, 0, nil, nil, errors.New("can not operate on an empty tree")
+	} else if t.config.Mode == structs.ThirdPartyAuditing && t.auditorHead == nil {
+		return nil, 0, nil, nil, errors.New("no auditor tree head has been provided yet")
 	} else if last != nil {
 		if *last == 0 {
 			return nil, 0, nil, nil, errors.New("tree size advertised by user is invalid")
-- 
2.43.0


From 1544399fe02ccedcceb4bb221c174f5ab5212dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:10 +0000
Subject: [PATCH 24/54] fix: remember all recent insertions in the auditor

Only the insertions of the latest update were retained, so that the removal
of entries which had not been in a distinguished log entry yet went
unnoticed.
---
 tree/transparency/auditor/auditor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tree/transparency/auditor/auditor.go b/tree/transparency/auditor/auditor.go
index 0688b54..90b509e 100644
--- a/tree/transparency/auditor/auditor.go
+++ b/tree/transparency/auditor/auditor.go
@@ -107,6 +107,7 @@ func (a *Auditor) updateState(
 	if a.state != nil {
 		n = a.state.TreeHead.TreeSize
 		fullSubtrees = a.state.FullSubtrees
+		inserted = a.state.Inserted
 	}
 
 	// Compute the new set of full subtrees of the log tree.
-- 
2.43.0


From 8424d50cf63a83743a0452270f847dda7853796a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:10 +0000
Subject: [PATCH 25/54] fix: require the first audited update to start from an
 empty prefix tree

Any initial contents of the prefix tree were accepted without having been
seen by the auditor.
---
 tree/transparency/auditor/auditor.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/auditor/auditor.go b/tree/transparency/auditor/auditor.go
index 90b509e..7b515ab 100644
--- a/tree/transparency/auditor/auditor.go
+++ b/tree/transparency/auditor/auditor.go
@@ -231,7 +231,12 @@ func (a *Auditor) Process(update *structs.AuditorUpdate) error {
 	before, after, err := prefix.EvaluateBeforeAfter(a.config.Suite, update.Added, update.Removed, &update.Proof)
 	if err != nil {
 		return err
-	} else if a.state != nil && !bytes.Equal(before, a.state.PrefixTree) {
+	}
+	expected := make([]byte, a.config.Suite.HashSize()) // Root of an empty prefix tree.
+	if a.state != nil {
+		expected = a.state.PrefixTree
+	}
+	if !bytes.Equal(before, expected) {
 		return errors.New("prefix tree root does not match expected")
 	}
 
-- 
2.43.0


From 052655a3348932853349b75a00385d824d1134f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:11 +0000
Subject: [PATCH 26/54] fix: only release auditor tree heads that have been
 persisted

After failing to persist its state, the auditor returned the signed tree
head the next time without persisting it.
---
 tree/transparency/auditor/auditor.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tree/transparency/auditor/auditor.go b/tree/transparency/auditor/auditor.go
index 7b515ab..a34adda 100644
--- a/tree/transparency/auditor/auditor.go
+++ b/tree/transparency/auditor/auditor.go
@@ -268,18 +268,22 @@ func (a *Auditor) Commit() (*structs.AuditorTreeHead, error) {
 	if err != nil {
 		return nil, err
 	}
-	a.state.TreeHead.Signature, err = a.auditorKey.Sign(tbs)
+	signature, err := a.auditorKey.Sign(tbs)
 	if err != nil {
 		return nil, err
 	}
+	signed := *a.state
+	signed.TreeHead.Signature = signature
 
-	// Serialize the auditor's state and commit it to the database.
-	raw, err := a.state.Marshal()
+	// Serialize the auditor's state and commit it to the database. The signed
+	// tree head is only adopted once this has succeeded.
+	raw, err := signed.Marshal()
 	if err != nil {
 		return nil, err
 	} else if err := a.tx.PutState(raw); err != nil {
 		return nil, err
 	}
+	a.state = &signed
 
 	return &a.state.TreeHead, nil
 }
-- 
2.43.0


From 6ec6fe5e8f8925ee55f745f3af6c06ebb46ca40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:11 +0000
Subject: [PATCH 27/54] fix: report the greatest version of a managed label

The first version of a label is 0, so the in-memory store was ahead by one
after the first increment and later versions could not be sequenced.
---
 db/memory/memory.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/db/memory/memory.go b/db/memory/memory.go
index 051fb76..6a029d4 100644
--- a/db/memory/memory.go
+++ b/db/memory/memory.go
@@ -229,9 +229,9 @@ func (mls *ManagedLogStore) IncrementGreatestVersion(label []byte, count int) (i
 	labelStr := fmt.Sprintf("%x", label)
 
 	ver, ok := mls.Data[labelStr]
-	mls.Data[labelStr] += count
 	if !ok {
-		return -1, nil
+		ver = -1
 	}
+	mls.Data[labelStr] = ver + count
 	return ver, nil
 }
-- 
2.43.0


From 3da13688bcf20ba767e93476a2759d2cc8fa37ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:11 +0000
Subject: [PATCH 28/54] fix: commit the tree head atomically with the tree

A crash after writing the tree and before writing the tree head left an index
that refers to log entries which do not exist yet, so that the affected
labels could not be searched for anymore.
---
 db/leveldb.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/db/leveldb.go b/db/leveldb.go
index a060261..6c9e91e 100644
--- a/db/leveldb.go
+++ b/db/leveldb.go
@@ -52,11 +52,11 @@ func (c *ldbConn) Commit() error {
 		panic("connection is readonly")
 	}
 
+	// All changes are written in a single batch, because none of them are valid
+	// without the others.
 	b := new(leveldb.Batch)
 	for key, value := range c.batch {
-		if key == leveldbTreeHeadKey {
-			continue
-		} else if value == nil {
+		if value == nil {
 			b.Delete([]byte(key))
 		} else {
 			b.Put([]byte(key), value)
@@ -65,11 +65,6 @@ func (c *ldbConn) Commit() error {
 	if err := c.conn.Write(b, nil); err != nil {
 		return err
 	}
-	if value, ok := c.batch[leveldbTreeHeadKey]; ok {
-		if err := c.conn.Put([]byte(leveldbTreeHeadKey), value, nil); err != nil {
-			return err
-		}
-	}
 
 	c.batch = make(map[string][]byte)
 	return nil
-- 
2.43.0


From 5a23b3c750130d0d76651578dbcf0db2caf53398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:11 +0000
Subject: [PATCH 29/54] fix: sync commits to disk

A tree head is released once Commit returns, but could be lost again in a
power failure, after which the log would sign a different tree head for the
same tree size.
---
 db/leveldb.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/db/leveldb.go b/db/leveldb.go
index 6c9e91e..c5076a5 100644
--- a/db/leveldb.go
+++ b/db/leveldb.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/syndtr/goleveldb/leveldb"
 	"github.com/syndtr/goleveldb/leveldb/errors"
+	"github.com/syndtr/goleveldb/leveldb/opt"
 )
 
 const leveldbTreeHeadKey = "tree-head"
@@ -62,7 +63,7 @@ func (c *ldbConn) Commit() error {
 			b.Put([]byte(key), value)
 		}
 	}
-	if err := c.conn.Write(b, nil); err != nil {
+	if err := c.conn.Write(b, &opt.WriteOptions{Sync: true}); err != nil {
 		return err
 	}
 
-- 
2.43.0


From c3f48750a9f9e5532c6755fb05598f17ce81f460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:12 +0000
Subject: [PATCH 30/54] fix: drop pending changes when they can not be
 committed

The changes of a mutation that failed to commit were written along with the
next mutation that succeeded.
---
 db/leveldb.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/db/leveldb.go b/db/leveldb.go
index c5076a5..c5e5d47 100644
--- a/db/leveldb.go
+++ b/db/leveldb.go
@@ -63,12 +63,11 @@ func (c *ldbConn) Commit() error {
 			b.Put([]byte(key), value)
 		}
 	}
-	if err := c.conn.Write(b, &opt.WriteOptions{Sync: true}); err != nil {
-		return err
-	}
 
+	// If writing fails, then the changes are dropped. Otherwise they'd be mixed
+	// with the changes of whichever operation is committed next.
 	c.batch = make(map[string][]byte)
-	return nil
+	return c.conn.Write(b, &opt.WriteOptions{Sync: true})
 }
 
 // ldbTransparencyStore implements the TransparencyStore interface over a
-- 
2.43.0


From 68f80f293da0a597d3e6dc41fc909a4b38371a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:13 +0000
Subject: [PATCH 31/54] fix: never pair a tree head with a newer auditor tree
 head

A reader that loads the tree heads while they're being updated could get an
auditor tree head that covers more log entries than the tree head.
---
 db/leveldb.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/db/leveldb.go b/db/leveldb.go
index c5e5d47..fbf57dc 100644
--- a/db/leveldb.go
+++ b/db/leveldb.go
@@ -92,16 +92,18 @@ func (ldb *ldbTransparencyStore) Clone() TransparencyStore {
 }
 
 func (ldb *ldbTransparencyStore) GetTreeHead() ([]byte, []byte, error) {
+	// The auditor tree head is read first, so that it's never for a larger tree
+	// than the tree head if they're concurrently updated.
+	auditor, err := ldb.conn.Get("auditor-tree-head")
+	if err != leveldb.ErrNotFound && err != nil {
+		return nil, nil, err
+	}
 	treeHead, err := ldb.conn.Get(leveldbTreeHeadKey)
 	if err == leveldb.ErrNotFound {
 		return nil, nil, nil
 	} else if err != nil {
 		return nil, nil, err
 	}
-	auditor, err := ldb.conn.Get("auditor-tree-head")
-	if err != leveldb.ErrNotFound && err != nil {
-		return nil, nil, err
-	}
 	return treeHead, auditor, nil
 }
 
-- 
2.43.0


From 241fa1fe60542f2db8c0ae6f1ac3bc79a20e6006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:13 +0000
Subject: [PATCH 32/54] fix: ignore versions that are newer than a reader's
 tree head

A reader that loaded its tree head before and a label's index after a new
version was created tried to produce proofs from log entries that are not
part of its tree.
---
 tree/transparency/crypto.go | 7 +++++++
 tree/transparency/update.go | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/crypto.go b/tree/transparency/crypto.go
index 5aaeb2f..b140f70 100644
--- a/tree/transparency/crypto.go
+++ b/tree/transparency/crypto.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"io"
+	"slices"
 
 	"github.com/Bren2010/katie/crypto/commitments"
 	"github.com/Bren2010/katie/tree/transparency/structs"
@@ -40,6 +41,12 @@ func (t *Tree) batchGetIndex(labels [][]byte) ([][]uint64, error) {
 		for i := 1; i < len(index); i++ {
 			index[i] += index[i-1]
 		}
+		if t.treeHead != nil {
+			// Ignore versions that were created concurrently, in log entries that
+			// are after our tree head.
+			end, _ := slices.BinarySearch(index, t.treeHead.TreeSize)
+			index = index[:end]
+		}
 
 		out[i] = index
 	}
diff --git a/tree/transparency/update.go b/tree/transparency/update.go
index fb2750b..e36c5bf 100644
--- a/tree/transparency/update.go
+++ b/tree/transparency/update.go
@@ -340,7 +340,7 @@ func (u *updater) reloadTree(pos uint64) error {
 		return errors.New("reloaded tree does not contain new versions of label")
 	}
 
-	indices, err := u.tree.batchGetIndex([][]byte{u.label})
+	indices, err := tree.batchGetIndex([][]byte{u.label})
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From fc2bc80376f6294a711d7f1aee0ba148fe058de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:04 +0000
Subject: [PATCH 33/54] fix: do not commit to a database after a failed commit

Changes that could not be synced may still be on disk. If another tree head
for the same tree size was committed after it, then both sets of changes
would be present after reopening the database.
---
 db/leveldb.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/db/leveldb.go b/db/leveldb.go
index fbf57dc..572f5d5 100644
--- a/db/leveldb.go
+++ b/db/leveldb.go
@@ -25,10 +25,11 @@ type ldbConn struct {
 	conn     *leveldb.DB
 	readonly bool
 	batch    map[string][]byte
+	failed   error // Set if a commit failed.
 }
 
 func newLDBConn(conn *leveldb.DB, readonly bool) *ldbConn {
-	return &ldbConn{conn, readonly, make(map[string][]byte)}
+	return &ldbConn{conn: conn, readonly: readonly, batch: make(map[string][]byte)}
 }
 
 func (c *ldbConn) Get(key string) ([]byte, error) {
@@ -53,6 +54,13 @@ func (c *ldbConn) Commit() error {
 		panic("connection is readonly")
 	}
 
+	// If a commit failed, it's unknown whether or not its changes are on disk. They
+	// may still show up the next time that the database is opened, so nothing
+	// that's based on the previous state can be written after it.
+	if c.failed != nil {
+		return c.failed
+	}
+
 	// All changes are written in a single batch, because none of them are valid
 	// without the others.
 	b := new(leveldb.Batch)
@@ -67,7 +75,8 @@ func (c *ldbConn) Commit() error {
 	// If writing fails, then the changes are dropped. Otherwise they'd be mixed
 	// with the changes of whichever operation is committed next.
 	c.batch = make(map[string][]byte)
-	return c.conn.Write(b, &opt.WriteOptions{Sync: true})
+	c.failed = c.conn.Write(b, &opt.WriteOptions{Sync: true})
+	return c.failed
 }
 
 // ldbTransparencyStore implements the TransparencyStore interface over a
-- 
2.43.0


From bcc57fca1a48731bfff91aa61f0805375fe55b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:05 +0000
Subject: [PATCH 34/54] fix: do not leave traces of mutations that are rejected

The index and values of labels were written before it was known whether the
mutation is acceptable, and were then committed with the next one.
---
 tree/transparency/crypto.go | 16 +++++-----
 tree/transparency/mutate.go | 58 +++++++++++++++++++++++--------------
 2 files changed, 44 insertions(+), 30 deletions(-)

diff --git a/tree/transparency/crypto.go b/tree/transparency/crypto.go
index b140f70..a697869 100644
--- a/tree/transparency/crypto.go
+++ b/tree/transparency/crypto.go
@@ -103,17 +103,15 @@ func (t *Tree) getVersion(label []byte, ver uint32) (*structs.OpeningAndValue, e
 	return labelValue, nil
 }
 
-// putVersion generates a new commitment opening and sets the given
-// label-version pair to the given value. It returns the new commitment.
-func (t *Tree) putVersion(label []byte, ver uint32, value structs.UpdateValue) ([]byte, error) {
+// makeVersion generates a new commitment opening for the given label-version
+// pair. It returns the data to store for this version and the new commitment.
+func (t *Tree) makeVersion(label []byte, ver uint32, value structs.UpdateValue) ([]byte, []byte, error) {
 	opening := commitments.GenerateOpening(t.config.Suite)
 
-	// Serialize opening and UpdateValue structure. Write to database.
+	// Serialize opening and UpdateValue structure.
 	labelValue, err := structs.Marshal(&structs.OpeningAndValue{Opening: opening, Value: value})
 	if err != nil {
-		return nil, err
-	} else if err := t.tx.PutVersion(label, ver, labelValue); err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 
 	// Serialize the data that will be committed to and compute the commitment.
@@ -123,9 +121,9 @@ func (t *Tree) putVersion(label []byte, ver uint32, value structs.UpdateValue) (
 		Update:  value,
 	})
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
-	return commitments.Commit(t.config.Suite, opening, commitmentValue), nil
+	return labelValue, commitments.Commit(t.config.Suite, opening, commitmentValue), nil
 }
 
 // computeVrfOutput returns the VRF output for the requested label-version pair
diff --git a/tree/transparency/mutate.go b/tree/transparency/mutate.go
index a4d293f..5d95f22 100644
--- a/tree/transparency/mutate.go
+++ b/tree/transparency/mutate.go
@@ -58,12 +58,17 @@ func (t *Tree) Mutate(add []LabelValue, remove [][]byte) (*structs.AuditorUpdate
 	var (
 		prefixAdd    []prefix.Entry
 		prefixRemove [][]byte
+
+		// The changes to each label are only written once it's known that the
+		// whole mutation is acceptable.
+		writes []func() error
 	)
 	for _, mutation := range mutations {
-		pa, pr, err := t.mutateLabel(n, prevDLE, mutation)
+		pa, pr, w, err := t.mutateLabel(n, prevDLE, mutation)
 		if err != nil {
 			return nil, err
 		}
+		writes = append(writes, w...)
 		prefixAdd = append(prefixAdd, pa...)
 		prefixRemove = append(prefixRemove, pr...)
 	}
@@ -83,7 +88,7 @@ func (t *Tree) Mutate(add []LabelValue, remove [][]byte) (*structs.AuditorUpdate
 	}
 
 	// Issue new tree head.
-	if err := t.issueTreeHead(n, timestamp, prefixRoot); err != nil {
+	if err := t.issueTreeHead(n, timestamp, prefixRoot, writes); err != nil {
 		return nil, err
 	}
 
@@ -158,10 +163,19 @@ func (t *Tree) groupByLabel(add []LabelValue, remove [][]byte) ([]labelMutation,
 
 // mutateLabel performs the requested additions and removals for a single label.
 // Version counters are assigned sequentially.
-func (t *Tree) mutateLabel(n uint64, prevDLE *uint64, mut labelMutation) ([]prefix.Entry, [][]byte, error) {
+//
+// It returns the prefix tree entries to add, the VRF outputs to remove, and the
+// changes to make to the database.
+func (t *Tree) mutateLabel(n uint64, prevDLE *uint64, mut labelMutation) (
+	[]prefix.Entry,
+	[][]byte,
+	[]func() error,
+	error,
+) {
 	var (
 		add    []prefix.Entry
 		remove [][]byte
+		writes []func() error
 
 		label, index = mut.label, mut.index
 	)
@@ -170,22 +184,18 @@ func (t *Tree) mutateLabel(n uint64, prevDLE *uint64, mut labelMutation) ([]pref
 		// The label is not eligible for deletion if it has been modified since
 		// the last distinguished log entry was created.
 		if prevDLE == nil || index[len(index)-1] > *prevDLE {
-			return nil, nil, fmt.Errorf("unable to delete label that was modified recently: %s", label)
+			return nil, nil, nil, fmt.Errorf("unable to delete label that was modified recently: %s", label)
 		}
 
 		// Delete the label's index.
-		if err := t.tx.DeleteIndex(label); err != nil {
-			return nil, nil, err
-		}
+		writes = append(writes, func() error { return t.tx.DeleteIndex(label) })
 
 		// Delete the value and VRF output of each version.
 		for ver := range index {
-			if err := t.tx.DeleteVersion(label, uint32(ver)); err != nil {
-				return nil, nil, err
-			}
+			writes = append(writes, func() error { return t.tx.DeleteVersion(label, uint32(ver)) })
 			vrfOutput, _, err := t.computeVrfOutput(label, uint32(ver))
 			if err != nil {
-				return nil, nil, err
+				return nil, nil, nil, err
 			}
 			remove = append(remove, vrfOutput)
 		}
@@ -198,29 +208,29 @@ func (t *Tree) mutateLabel(n uint64, prevDLE *uint64, mut labelMutation) ([]pref
 
 		vrfOutput, _, err := t.computeVrfOutput(pair.Label, ver)
 		if err != nil {
-			return nil, nil, err
+			return nil, nil, nil, err
 		}
-		commitment, err := t.putVersion(pair.Label, ver, pair.Value)
+		labelValue, commitment, err := t.makeVersion(pair.Label, ver, pair.Value)
 		if err != nil {
-			return nil, nil, err
+			return nil, nil, nil, err
 		}
+		writes = append(writes, func() error { return t.tx.PutVersion(pair.Label, ver, labelValue) })
 
 		add = append(add, prefix.Entry{VrfOutput: vrfOutput, Commitment: commitment})
 		index = append(index, n)
 	}
 	if len(mut.add) > 0 {
-		if err := t.putIndex(mut.add[0].Label, index); err != nil {
-			return nil, nil, err
-		}
+		writes = append(writes, func() error { return t.putIndex(mut.add[0].Label, index) })
 	}
 
-	return add, remove, nil
+	return add, remove, writes, nil
 }
 
 // issueTreeHead takes as input the current tree size, the new rightmost
 // timestamp, and the new prefix tree root. It adds a new log entry to the right
-// edge of the log tree and then signs and commits a new tree head.
-func (t *Tree) issueTreeHead(n, timestamp uint64, prefixRoot []byte) error {
+// edge of the log tree and then signs and commits a new tree head, along with
+// any other changes in `writes`.
+func (t *Tree) issueTreeHead(n, timestamp uint64, prefixRoot []byte, writes []func() error) error {
 	logEntry := structs.LogEntry{
 		Timestamp:  timestamp,
 		PrefixTree: prefixRoot,
@@ -265,7 +275,13 @@ func (t *Tree) issueTreeHead(n, timestamp uint64, prefixRoot []byte) error {
 	rawTreeHead, err := structs.Marshal(treeHead)
 	if err != nil {
 		return err
-	} else if err := t.tx.PutTreeHead(rawTreeHead); err != nil {
+	}
+	for _, write := range writes {
+		if err := write(); err != nil {
+			return err
+		}
+	}
+	if err := t.tx.PutTreeHead(rawTreeHead); err != nil {
 		return err
 	} else if err := t.tx.Commit(); err != nil {
 		return err
-- 
2.43.0


From 37cf03a871a70f7fee508d3a7e9b2873c331bea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 35/54] fix: do not allocate more memory than a message can
 contain

The length prefix of a list was trusted before reading its contents, so a
message of a few bytes could make the receiver allocate gigabytes.
---
 tree/transparency/structs/structs.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tree/transparency/structs/structs.go b/tree/transparency/structs/structs.go
index 33120ba..1bff6d5 100644
--- a/tree/transparency/structs/structs.go
+++ b/tree/transparency/structs/structs.go
@@ -91,6 +91,9 @@ func readBytes[S sizeParam](buf *bytes.Buffer) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if int64(size) > int64(buf.Len()) {
+		return nil, io.ErrUnexpectedEOF
+	}
 	out := make([]byte, size)
 	if _, err := io.ReadFull(buf, out); err != nil {
 		return nil, err
@@ -139,6 +142,9 @@ func readNumericSlice[S sizeParam, T numeric](buf *bytes.Buffer) ([]T, error) {
 	if err != nil {
 		return nil, err
 	}
+	if int64(size) > int64(buf.Len()) { // Every element is at least one byte.
+		return nil, io.ErrUnexpectedEOF
+	}
 	out := make([]T, size)
 	for i := range int(size) {
 		val, err := readNumeric[T](buf)
@@ -173,6 +179,9 @@ func readFuncSlice[S sizeParam, T any](
 	if err != nil {
 		return nil, err
 	}
+	if int64(size) > int64(buf.Len()) { // Every element is at least one byte.
+		return nil, io.ErrUnexpectedEOF
+	}
 	out := make([]T, size)
 	for i := range int(size) {
 		elem, err := newF(buf)
-- 
2.43.0


From 14170f74aa98ceca1a2dc580c957ce6e8947b0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:18 +0000
Subject: [PATCH 36/54] fix: carry the prefix tree over to log entries without
 changes

Adding a log entry without changes signed the hash of nothing as the prefix
tree, and lost the whole contents of the tree for all later log entries. The
root tile of such an entry is only a reference to the previous one, which
searches now follow.
---
 tree/prefix/batch.go  | 2 +-
 tree/prefix/prefix.go | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/tree/prefix/batch.go b/tree/prefix/batch.go
index 93beab9..262988e 100644
--- a/tree/prefix/batch.go
+++ b/tree/prefix/batch.go
@@ -172,7 +172,7 @@ func (b *batch) search(state map[*node][]cursor) error {
 		// Replace the node where the search terminated with the new subtree
 		// that was just looked up. Setup cursor for next iteration.
 		*step.ptr = *n
-		nextState[n] = append(nextState[n], *cursor)
+		nextState[step.ptr] = append(nextState[step.ptr], *cursor)
 	}
 
 	return b.search(nextState)
diff --git a/tree/prefix/prefix.go b/tree/prefix/prefix.go
index c5f5f92..1a132ad 100644
--- a/tree/prefix/prefix.go
+++ b/tree/prefix/prefix.go
@@ -157,8 +157,14 @@ func (t *Tree) getMutationRoot(ver uint64, add []Entry, remove [][]byte) (node,
 		return root, &proof, nil, nil
 	}
 
+	searches := vrfOutputs
+	if len(searches) == 0 {
+		// Search for an arbitrary VRF output to ensure that the root of the
+		// tree is loaded, because it's carried over to the next version.
+		searches = [][]byte{make([]byte, t.cs.HashSize())}
+	}
 	b := newBatch(t.cs, t.tx)
-	res, state := b.initialize(map[uint64][][]byte{ver: vrfOutputs})
+	res, state := b.initialize(map[uint64][][]byte{ver: searches})
 	if err := b.search(state); err != nil {
 		return nil, nil, nil, err
 	}
-- 
2.43.0


From 68c93343ac70553322f7a67fff13b888a32ccec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:31 +0000
Subject: [PATCH 37/54] fix: provide the full binary ladder when a label does
 not exist

The response to a greatest-version search for a label that does not exist
claims the version 0, but contained only a part of its binary ladder and was
always rejected by the client.
---
 tree/transparency/transparency.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/transparency/transparency.go b/tree/transparency/transparency.go
index c7314eb..205b5d6 100644
--- a/tree/transparency/transparency.go
+++ b/tree/transparency/transparency.go
@@ -190,7 +190,7 @@ func (t *Tree) Search(
 	)
 	if req.Version == nil {
 		if greatest < 0 {
-			ladder = []uint32{0}
+			ladder = math.SearchBinaryLadder(0, 0, nil, nil)
 			openingAndValue, err = t.getVersion(req.Label, 0)
 		} else {
 			ladder = math.SearchBinaryLadder(uint32(greatest), uint32(greatest), nil, nil)
-- 
2.43.0


From 7653a06363fc20727b816d8334d9ecf2dbc6ffb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:48 +0000
Subject: [PATCH 38/54] fix: continue to the rightmost log entry from a
 previous view on the frontier

When the rightmost log entry of the previous view has no ancestors to its right,
no timestamps were requested at all, and clients rejected every response once
the tree was more than one level deeper to its right.
---
 tree/transparency/math/math.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tree/transparency/math/math.go b/tree/transparency/math/math.go
index bde0268..01622c3 100644
--- a/tree/transparency/math/math.go
+++ b/tree/transparency/math/math.go
@@ -134,8 +134,17 @@ func UpdateView(n uint64, m *uint64) []uint64 {
 		out = append(out, RightDirectPath(*m-1, n)...)
 	}
 
-	for len(out) > 0 && out[len(out)-1] != n-1 {
-		out = append(out, Right(out[len(out)-1], n))
+	// If the previous rightmost log entry has no direct path to its right, then
+	// it is itself on the frontier.
+	var x uint64
+	if len(out) > 0 {
+		x = out[len(out)-1]
+	} else {
+		x = *m - 1
+	}
+	for x != n-1 {
+		x = Right(x, n)
+		out = append(out, x)
 	}
 
 	return out
-- 
2.43.0


From 68e35766d03d64337697b68d20b0d0340bdcffe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:36 +0000
Subject: [PATCH 39/54] fix: do not process a response with label state from a
 larger tree

When a response arrived after a response to a later request, the monitoring map
of the label could contain log entries beyond the size of the response's tree,
and walking the path of these did not terminate.
---
 tree/transparency/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree/transparency/client.go b/tree/transparency/client.go
index 94f8ee5..6047ab4 100644
--- a/tree/transparency/client.go
+++ b/tree/transparency/client.go
@@ -270,6 +270,9 @@ func (c *Client) search(
 		rawLabel, labelState, err := c.getLabelState(req.Label)
 		if err != nil {
 			return err
+		} else if err := c.checkState(state); err != nil {
+			// The label's state may refer to log entries of a larger tree.
+			return err
 		} else if err := v.addLabelState(labelState); err != nil {
 			return err
 		}
-- 
2.43.0


From 1a2b8dcc5198f8b188f74c6fd78023b528483121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:37 +0000
Subject: [PATCH 40/54] fix: do not lower the monitored version of a log entry

When a label was monitored in a log entry on the frontier of the tree, and a
lower version reached the same log entry from its left, the lower version
replaced the greater one, which was not monitored any further.
---
 tree/transparency/algorithms/monitor.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/algorithms/monitor.go b/tree/transparency/algorithms/monitor.go
index fa792d1..fcb33de 100644
--- a/tree/transparency/algorithms/monitor.go
+++ b/tree/transparency/algorithms/monitor.go
@@ -265,7 +265,12 @@ func (m *Monitor) ContactMonitor() error {
 		updated, err := m.contactMonitor(x, ver, previous)
 		if err != nil {
 			return err
-		} else if updated != nil {
+		} else if updated == nil {
+			continue
+		}
+		// Several entries of the map may have moved to the same log entry. Retain
+		// the greatest version, because its existence implies all lower ones.
+		if existing, ok := ptrs[*updated]; !ok || existing < ver {
 			ptrs[*updated] = ver
 		}
 	}
-- 
2.43.0


From 22ad0b4549ec075f34a54857f5e1d24bd359f164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:37 +0000
Subject: [PATCH 41/54] fix: keep the monitoring map in ascending order

A label owner that had searched for a version before learning of its position
kept several entries for the same version in the monitoring map, or a lower
version to the right of a greater one. The server rejects all such requests, so
the label was not monitored again.
---
 tree/transparency/client.go        |  3 +++
 tree/transparency/client_crypto.go | 13 ++++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/client.go b/tree/transparency/client.go
index 6047ab4..b490f28 100644
--- a/tree/transparency/client.go
+++ b/tree/transparency/client.go
@@ -657,6 +657,9 @@ func (sv *StreamVerifier) Verify(res *structs.UpdateResponse) error {
 	}
 
 	// Update the global and label-specific state.
+	if monitor.Contact != nil {
+		simplifyMonitoringMap(monitor.Contact.Ptrs, v.n)
+	}
 	sv.labelState.Contact = monitor.Contact.Struct()
 	sv.labelState.Owner = monitor.Owner.Struct()
 	if err := updateRetainedVersions(sv.labelState, v.handle); err != nil {
diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index 539e379..e4975d6 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -376,7 +376,18 @@ func simplifyMonitoringMap(ptrs map[uint64]uint32, n uint64) {
 		}
 
 		if !modified {
-			return
+			break
+		}
+	}
+
+	// A version does not need to be monitored from an ancestor of a log entry
+	// from which the same or a greater version is monitored. Versions have to
+	// increase from left to right.
+	for pos, ver := range ptrs {
+		for _, ancestor := range math.RightDirectPath(pos, n) {
+			if ancestorVer, ok := ptrs[ancestor]; ok && ancestorVer <= ver {
+				delete(ptrs, ancestor)
+			}
 		}
 	}
 }
-- 
2.43.0


From 63da5213528a9cda1c68cc0d802fdfcdbd17729b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:05 +0000
Subject: [PATCH 42/54] fix: give the commitments that monitoring a fixed
 version needs

The search for a fixed version looks up only as many versions as needed in
each log entry. A user that has to monitor the version afterwards needs the
commitments to all versions in its monitoring binary ladder, and rejected
every monitoring response because some of them were missing.
---
 tree/transparency/transparency.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/tree/transparency/transparency.go b/tree/transparency/transparency.go
index 205b5d6..86c4d3c 100644
--- a/tree/transparency/transparency.go
+++ b/tree/transparency/transparency.go
@@ -249,6 +249,22 @@ func (t *Tree) Search(
 		}
 	}
 
+	// A search for a fixed version may not look up all of the versions in the
+	// monitoring binary ladder of the target version. The user needs to know
+	// the commitments to all of them if it monitors the target version later.
+	if t.config.Mode == structs.ContactMonitoring && req.Version != nil && int(*req.Version) <= greatest {
+		for i, ver := range ladder {
+			if ver >= *req.Version || steps[i].Commitment != nil {
+				continue
+			}
+			res, err := t.getBinaryLadder(req.Label, []uint32{ver}, greatest, n)
+			if err != nil {
+				return nil, err
+			}
+			steps[i] = res[0]
+		}
+	}
+
 	// Put together final SearchResponse structure.
 	var outputVer *uint32
 	if req.Version == nil {
-- 
2.43.0


From 2aa7f4ca9560d6806c69f73f26da000edaa0b688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:15 +0000
Subject: [PATCH 43/54] fix: compare commitments when a leaf is shared by
 several results of a proof

---
 tree/prefix/verify.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tree/prefix/verify.go b/tree/prefix/verify.go
index 2e66fce..b14aab8 100644
--- a/tree/prefix/verify.go
+++ b/tree/prefix/verify.go
@@ -60,6 +60,11 @@ func addToSkeleton(n *node, entry Entry, res PrefixSearchResult) error {
 			if res.Depth() != depth || res.Inclusion() != equal {
 				return errors.New("malformed proof")
 			}
+			// The leaf may have been taken from the result of another search.
+			leaf, ok := terminalNode(entry, res).(leafNode)
+			if !ok || !bytes.Equal(leaf.vrfOutput, m.vrfOutput) || !bytes.Equal(leaf.commitment, m.commitment) {
+				return errors.New("malformed proof")
+			}
 			return nil
 
 		case *parentNode:
-- 
2.43.0


From c13b998d52218c9068ec9a62ad37bbf287719790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:00 +0000
Subject: [PATCH 44/54] fix: refuse a stored auditor state for an empty tree

---
 tree/transparency/auditor/state.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tree/transparency/auditor/state.go b/tree/transparency/auditor/state.go
index cd273c7..3583b9f 100644
--- a/tree/transparency/auditor/state.go
+++ b/tree/transparency/auditor/state.go
@@ -36,6 +36,8 @@ func NewAuditorState(cs suites.CipherSuite, buf *bytes.Buffer) (*AuditorState, e
 	treeHead, err := structs.NewAuditorTreeHead(buf)
 	if err != nil {
 		return nil, err
+	} else if treeHead.TreeSize == 0 {
+		return nil, errors.New("auditor state is for an empty tree")
 	}
 
 	fullSubtrees := make([][]byte, bits.OnesCount64(treeHead.TreeSize))
-- 
2.43.0


From 8ae61c88086cc7263fb495eef9cd176eb413eeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:47 +0000
Subject: [PATCH 45/54] fix: refuse signed updates in other deployment modes

---
 tree/transparency/update.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tree/transparency/update.go b/tree/transparency/update.go
index e36c5bf..0e62938 100644
--- a/tree/transparency/update.go
+++ b/tree/transparency/update.go
@@ -115,6 +115,10 @@ func (u *updater) setRequest(req *structs.UpdateRequest) error {
 }
 
 func (u *updater) setManagerRequest(req *structs.ManagerUpdateRequest) error {
+	if u.tree.config.Mode != structs.ThirdPartyManagement {
+		return errors.New("transparency log is not configured with third party manager")
+	}
+
 	// Verify service operator signatures.
 	for i, val := range req.Values {
 		tbs, err := structs.Marshal(&structs.UpdateTBS{
-- 
2.43.0


From e32aa23ee08e50e445284cb85bf301269ff870ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:48 +0000
Subject: [PATCH 46/54] fix: refuse unsigned values when there is a third party
 manager

---
 tree/transparency/update.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tree/transparency/update.go b/tree/transparency/update.go
index 0e62938..6a3b8ab 100644
--- a/tree/transparency/update.go
+++ b/tree/transparency/update.go
@@ -94,6 +94,12 @@ func newUpdater(t *Tree, ctx context.Context, ch chan wire.UpdateResponse) *upda
 }
 
 func (u *updater) setRequest(req *structs.UpdateRequest) error {
+	if u.tree.config.Mode == structs.ThirdPartyManagement && len(req.Values) > 0 {
+		// They would be stored without the service operator's signature, and
+		// could not be served to anyone.
+		return errors.New("new versions of label are not signed by service operator")
+	}
+
 	values := make([]structs.UpdateValue, len(req.Values))
 	for i, val := range req.Values {
 		values[i] = structs.UpdateValue{Value: val.Value}
-- 
2.43.0


From ad65efc48b6f1c785640b86e049b5e9853b7952a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:59 +0000
Subject: [PATCH 47/54] fix: refuse updates from owners of versions that do not
 exist

---
 tree/transparency/update.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tree/transparency/update.go b/tree/transparency/update.go
index 6a3b8ab..5c9e623 100644
--- a/tree/transparency/update.go
+++ b/tree/transparency/update.go
@@ -117,6 +117,9 @@ func (u *updater) setRequest(req *structs.UpdateRequest) error {
 	if req.GreatestVersion != nil {
 		u.ver = int(*req.GreatestVersion) + 1
 	}
+	if u.ver > len(u.index) {
+		return errors.New("version advertised is greater than known greatest version")
+	}
 	return nil
 }
 
@@ -157,6 +160,9 @@ func (u *updater) setManagerRequest(req *structs.ManagerUpdateRequest) error {
 	if req.GreatestVersion != nil {
 		u.ver = int(*req.GreatestVersion) + 1
 	}
+	if u.ver > len(u.index) {
+		return errors.New("version advertised is greater than known greatest version")
+	}
 	return nil
 }
 
-- 
2.43.0


From 6ce24399791b4b409aa6a34dc98caedb5b0ae6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 48/54] fix: refuse prefix proofs that show a leaf in place of
 an empty node

---
 tree/prefix/verify.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tree/prefix/verify.go b/tree/prefix/verify.go
index b14aab8..d1043b6 100644
--- a/tree/prefix/verify.go
+++ b/tree/prefix/verify.go
@@ -50,7 +50,9 @@ func addToSkeleton(n *node, entry Entry, res PrefixSearchResult) error {
 	for {
 		switch m := (*n).(type) {
 		case emptyNode:
-			if res.Depth() != depth || res.Inclusion() {
+			// The search must have ended at an empty node as well.
+			_, ok := terminalNode(entry, res).(emptyNode)
+			if res.Depth() != depth || !ok {
 				return errors.New("malformed proof")
 			}
 			return nil
-- 
2.43.0


From 883090b5af12f944febc7cb7a0016caf7954de7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:25 +0000
Subject: [PATCH 49/54] fix: refuse log proofs for trees that are smaller than
 the retained one

---
 tree/log/verify.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tree/log/verify.go b/tree/log/verify.go
index 69e4c93..c4af072 100644
--- a/tree/log/verify.go
+++ b/tree/log/verify.go
@@ -57,6 +57,8 @@ func (v *Verifier) Evaluate(entries []uint64, n uint64, nP *uint64, values [][]b
 		return nil, nil, errors.New("invalid value for current tree size")
 	} else if nP != nil && (*nP == 0 || *nP > n || *nP > math.MaxTreeSize) {
 		return nil, nil, errors.New("invalid value for additional tree size")
+	} else if v.prev != nil && *v.prev > n {
+		return nil, nil, errors.New("current tree size is less than previous tree size")
 	} else if len(entries) != len(values) {
 		return nil, nil, errors.New("number of leaves indices must equal number of leaf values")
 	}
-- 
2.43.0


From 6ee21ce049df3e8f62162d58d069ef4662e202e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:40 +0000
Subject: [PATCH 50/54] fix: drop pending changes when the database has failed
 before

---
 db/leveldb.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/db/leveldb.go b/db/leveldb.go
index 572f5d5..cdb613c 100644
--- a/db/leveldb.go
+++ b/db/leveldb.go
@@ -58,6 +58,7 @@ func (c *ldbConn) Commit() error {
 	// may still show up the next time that the database is opened, so nothing
 	// that's based on the previous state can be written after it.
 	if c.failed != nil {
+		c.batch = make(map[string][]byte)
 		return c.failed
 	}
 
-- 
2.43.0


From 7533e5fdc2fa08523659611ee1c83ec8f4891749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:48 +0000
Subject: [PATCH 51/54] fix: do not write commits around LevelDB's in-memory
 tables

---
 db/leveldb.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/db/leveldb.go b/db/leveldb.go
index cdb613c..6c446ec 100644
--- a/db/leveldb.go
+++ b/db/leveldb.go
@@ -87,9 +87,13 @@ type ldbTransparencyStore struct {
 }
 
 func NewLDBTransparencyStore(file string) (TransparencyStore, error) {
-	conn, err := leveldb.OpenFile(file, nil)
+	// LevelDB writes batches that are larger than its write buffer around its
+	// in-memory tables by default. Until these are flushed, reads may return the
+	// values from before such a batch.
+	opts := &opt.Options{DisableLargeBatchTransaction: true}
+	conn, err := leveldb.OpenFile(file, opts)
 	if errors.IsCorrupted(err) {
-		conn, err = leveldb.RecoverFile(file, nil)
+		conn, err = leveldb.RecoverFile(file, opts)
 	}
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 675c25c1ccfbdb10d7324ab473deaf7ee826d0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:46 +0000
Subject: [PATCH 52/54] fix: ignore versions of a label created after the log
 was seen empty

A tree loaded before the first log entry was added has no tree head, but an
update request would find versions of the label that were created
concurrently, and dereferenced the missing tree head while it produced a proof
for them.
---
 tree/transparency/update.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tree/transparency/update.go b/tree/transparency/update.go
index 5c9e623..c33a753 100644
--- a/tree/transparency/update.go
+++ b/tree/transparency/update.go
@@ -112,7 +112,9 @@ func (u *updater) setRequest(req *structs.UpdateRequest) error {
 	u.last = req.Last
 	u.label = req.Label
 	u.values = values
-	u.index = indices[0]
+	if u.tree.treeHead != nil { // Otherwise they were created concurrently.
+		u.index = indices[0]
+	}
 	u.ver = 0
 	if req.GreatestVersion != nil {
 		u.ver = int(*req.GreatestVersion) + 1
@@ -155,7 +157,9 @@ func (u *updater) setManagerRequest(req *structs.ManagerUpdateRequest) error {
 	u.label = req.Label
 	u.signedVer = &req.SignedVersion
 	u.values = req.Values
-	u.index = indices[0]
+	if u.tree.treeHead != nil { // Otherwise they were created concurrently.
+		u.index = indices[0]
+	}
 	u.ver = 0
 	if req.GreatestVersion != nil {
 		u.ver = int(*req.GreatestVersion) + 1
-- 
2.43.0


From 5d3cc5c8b36a306ffa224a6e4bb9c6297c0e0b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:16 +0000
Subject: [PATCH 53/54] fix: reject an update in an entry that is known to have
 greater versions

A client that had found a greater version of the label in the same log entry
would replace the version that it had to monitor with the lower one from the
update, and stop monitoring what it had accepted before.
---
 tree/transparency/algorithms/update.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree/transparency/algorithms/update.go b/tree/transparency/algorithms/update.go
index 91f4097..5cea8ea 100644
--- a/tree/transparency/algorithms/update.go
+++ b/tree/transparency/algorithms/update.go
@@ -187,6 +187,9 @@ func (m *Monitor) Update(pos uint64, versions int) error {
 		if m.Contact == nil {
 			m.Contact = &ContactState{Ptrs: make(map[uint64]uint32)}
 		}
+		if m.Contact.Ptrs[pos] > endVer {
+			return errors.New("log entry is known to contain greater version of label")
+		}
 		m.Contact.Ptrs[pos] = endVer
 	}
 
-- 
2.43.0


From 6690a63a573fcae615899b0ce90b13c2ef3ed3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:57 +0000
Subject: [PATCH 54/54] fix: do not return a version that is newer than the
 tree of a search

---
 tree/transparency/crypto.go       | 25 +++++++++++++++----------
 tree/transparency/transparency.go |  9 +++++++--
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/tree/transparency/crypto.go b/tree/transparency/crypto.go
index a697869..4345922 100644
--- a/tree/transparency/crypto.go
+++ b/tree/transparency/crypto.go
@@ -82,16 +82,7 @@ func (t *Tree) getVersion(label []byte, ver uint32) (*structs.OpeningAndValue, e
 	if err != nil {
 		return nil, err
 	} else if raw == nil {
-		// Returning a zero value for the commitment opening ensures that the
-		// SearchResponse doesn't end up getting serialized wrong when a search
-		// produces a non-inclusion proof.
-		// The same is true for the signature when there's a Third-Party Manager.
-		size := t.config.Suite.CommitmentOpeningSize()
-		out := &structs.OpeningAndValue{Opening: make([]byte, size)}
-		if t.config.Mode == structs.ThirdPartyManagement {
-			out.Value.Signature = []byte{}
-		}
-		return out, nil
+		return t.emptyVersion(), nil
 	}
 	buf := bytes.NewBuffer(raw)
 	labelValue, err := structs.NewOpeningAndValue(t.config.Public(), buf)
@@ -103,6 +94,20 @@ func (t *Tree) getVersion(label []byte, ver uint32) (*structs.OpeningAndValue, e
 	return labelValue, nil
 }
 
+// emptyVersion returns what is put into a SearchResponse when a search produces
+// a non-inclusion proof.
+func (t *Tree) emptyVersion() *structs.OpeningAndValue {
+	// Returning a zero value for the commitment opening ensures that the
+	// SearchResponse doesn't end up getting serialized wrong.
+	// The same is true for the signature when there's a Third-Party Manager.
+	size := t.config.Suite.CommitmentOpeningSize()
+	out := &structs.OpeningAndValue{Opening: make([]byte, size)}
+	if t.config.Mode == structs.ThirdPartyManagement {
+		out.Value.Signature = []byte{}
+	}
+	return out
+}
+
 // makeVersion generates a new commitment opening for the given label-version
 // pair. It returns the data to store for this version and the new commitment.
 func (t *Tree) makeVersion(label []byte, ver uint32, value structs.UpdateValue) ([]byte, []byte, error) {
diff --git a/tree/transparency/transparency.go b/tree/transparency/transparency.go
index 86c4d3c..80cfd05 100644
--- a/tree/transparency/transparency.go
+++ b/tree/transparency/transparency.go
@@ -191,14 +191,19 @@ func (t *Tree) Search(
 	if req.Version == nil {
 		if greatest < 0 {
 			ladder = math.SearchBinaryLadder(0, 0, nil, nil)
-			openingAndValue, err = t.getVersion(req.Label, 0)
+			openingAndValue = t.emptyVersion()
 		} else {
 			ladder = math.SearchBinaryLadder(uint32(greatest), uint32(greatest), nil, nil)
 			openingAndValue, err = t.getVersion(req.Label, uint32(greatest))
 		}
 	} else {
 		ladder = math.SearchBinaryLadder(*req.Version, *req.Version, nil, nil)
-		openingAndValue, err = t.getVersion(req.Label, *req.Version)
+		if int(*req.Version) > greatest {
+			// The version may have been created after the current tree head.
+			openingAndValue = t.emptyVersion()
+		} else {
+			openingAndValue, err = t.getVersion(req.Label, *req.Version)
+		}
 	}
 	if err != nil {
 		return nil, err
-- 
2.43.0

