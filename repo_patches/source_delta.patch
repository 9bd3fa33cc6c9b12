From 9d8c50d4ade411e12bd83dae22543fbb92823257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:36 +0000
Subject: [PATCH 01/29] fix: accept only tree heads larger than the one the
 client advertised

---
 tree/transparency/client_crypto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index 630155c..d2748d1 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -144,7 +144,7 @@ func (v *verifier) verifyTreeHead(root, rootP []byte) error {
 	}
 
 	// Verify the size and signature on the tree head.
-	if v.state != nil && v.state.TreeHead.TreeSize <= v.n {
+	if v.state != nil && v.n <= v.state.TreeHead.TreeSize {
 		return errors.New("provided tree size is not greater than advertised")
 	}
 	tbs, err := structs.Marshal(&structs.TreeHeadTBS{
-- 
2.43.0


From ad0967b8b91dc5573afca87cf4d8d608e2486b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:36 +0000
Subject: [PATCH 02/29] fix: do not dereference missing client state when
 verifying the first response

---
 tree/transparency/client_crypto.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index d2748d1..a98667e 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -231,13 +231,14 @@ func (v *verifier) finish() (*structs.ClientState, error) {
 
 	// Compute and return the updated client state.
 	updated := &structs.ClientState{
-		TreeHead:        v.state.TreeHead,
 		AuditorTreeHead: v.fth.AuditorTreeHead,
 		FullSubtrees:    result.FullSubtrees,
 		LogEntries:      result.LogEntries,
 	}
 	if v.fth.TreeHead != nil {
 		updated.TreeHead = *v.fth.TreeHead
+	} else {
+		updated.TreeHead = v.state.TreeHead
 	}
 	return updated, nil
 }
-- 
2.43.0


From 036aaa4fa7fc6577ece18da1660a0ad6c8aa9ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:37 +0000
Subject: [PATCH 03/29] fix: keep the retained auditor tree head when the tree
 head is unchanged

---
 tree/transparency/client_crypto.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index a98667e..7d04133 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -239,6 +239,7 @@ func (v *verifier) finish() (*structs.ClientState, error) {
 		updated.TreeHead = *v.fth.TreeHead
 	} else {
 		updated.TreeHead = v.state.TreeHead
+		updated.AuditorTreeHead = v.state.AuditorTreeHead
 	}
 	return updated, nil
 }
-- 
2.43.0


From 50ab129d78c02aad27f2139365e6c687d1ab5766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:37 +0000
Subject: [PATCH 04/29] fix: require an auditor tree head exactly when the log
 has an auditor

---
 tree/transparency/client_crypto.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index 7d04133..58e3c5e 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -137,6 +137,8 @@ func (v *verifier) verifyTreeHead(root, rootP []byte) error {
 	if v.fth.TreeHead == nil {
 		if v.state == nil {
 			return errors.New("same tree head not allowed when client has no state")
+		} else if v.fth.AuditorTreeHead != nil {
+			return errors.New("auditor tree head provided when not expected")
 		}
 		// Note: Verifying that the rightmost timestamp is within the bounds set
 		// by MaxAhead and MaxBehind is done in algorithms.UpdateView().
@@ -158,8 +160,16 @@ func (v *verifier) verifyTreeHead(root, rootP []byte) error {
 	ok := v.config.SignatureKey.Verify(tbs, v.fth.TreeHead.Signature)
 	if !ok {
 		return errors.New("failed to verify tree head signature")
-	} else if v.fth.AuditorTreeHead == nil {
+	}
+
+	// Verify that an auditor tree head is present exactly when one is required.
+	if v.config.Mode != structs.ThirdPartyAuditing {
+		if v.fth.AuditorTreeHead != nil {
+			return errors.New("auditor tree head provided when not expected")
+		}
 		return nil
+	} else if v.fth.AuditorTreeHead == nil {
+		return errors.New("auditor tree head not provided when expected")
 	}
 
 	// Verify size and signature of the auditor tree head.
-- 
2.43.0


From ad03d7339b6b65ba55a45d4bf17eb78f80d90b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:38 +0000
Subject: [PATCH 05/29] fix: encode and decode the retained versions of an
 owned label

---
 tree/transparency/structs/client.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/structs/client.go b/tree/transparency/structs/client.go
index 3348b17..c491463 100644
--- a/tree/transparency/structs/client.go
+++ b/tree/transparency/structs/client.go
@@ -195,6 +195,9 @@ func NewClientLabelState(cs suites.CipherSuite, buf *bytes.Buffer) (*ClientLabel
 	versions, err := readFuncSlice[uint32](buf, func(buf *bytes.Buffer) (*RetainedVersion, error) {
 		return NewRetainedVersion(cs, buf)
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	return &ClientLabelState{Contact: contact, Owner: owner, Versions: versions}, nil
 }
@@ -204,7 +207,9 @@ func (cls *ClientLabelState) Marshal(buf *bytes.Buffer) error {
 		return err
 	}
 	if writeOptional(buf, cls.Owner != nil) {
-		return cls.Owner.Marshal(buf)
+		if err := cls.Owner.Marshal(buf); err != nil {
+			return err
+		}
 	}
 	return writeMarshalSlice[uint32](buf, cls.Versions, "retained versions")
 }
-- 
2.43.0


From 642e8f937d6fdf63a4bf021395265b6dd967f7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:38 +0000
Subject: [PATCH 06/29] fix: encode the version at the starting position with a
 fixed size

---
 tree/transparency/structs/client.go  | 6 +++---
 tree/transparency/structs/structs.go | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tree/transparency/structs/client.go b/tree/transparency/structs/client.go
index c491463..f9a2523 100644
--- a/tree/transparency/structs/client.go
+++ b/tree/transparency/structs/client.go
@@ -107,7 +107,7 @@ func NewLabelOwnerState(buf *bytes.Buffer) (*LabelOwnerState, error) {
 	if err != nil {
 		return nil, err
 	}
-	verAtStarting, err := readNumeric[int](buf)
+	verAtStarting, err := readNumeric[int64](buf)
 	if err != nil {
 		return nil, err
 	}
@@ -117,14 +117,14 @@ func NewLabelOwnerState(buf *bytes.Buffer) (*LabelOwnerState, error) {
 	}
 	return &LabelOwnerState{
 		Starting:      starting,
-		VerAtStarting: verAtStarting,
+		VerAtStarting: int(verAtStarting),
 		UpcomingVers:  upcomingVers,
 	}, nil
 }
 
 func (los *LabelOwnerState) Marshal(buf *bytes.Buffer) error {
 	writeNumeric(buf, los.Starting)
-	writeNumeric(buf, los.VerAtStarting)
+	writeNumeric(buf, int64(los.VerAtStarting))
 	return writeNumericSlice[uint32](buf, los.UpcomingVers, "upcoming versions")
 }
 
diff --git a/tree/transparency/structs/structs.go b/tree/transparency/structs/structs.go
index 8f4e159..4fc6fb7 100644
--- a/tree/transparency/structs/structs.go
+++ b/tree/transparency/structs/structs.go
@@ -24,7 +24,7 @@ func Marshal(x Marshaller) ([]byte, error) {
 }
 
 type numeric interface {
-	uint8 | uint16 | uint32 | uint64 | int
+	uint8 | uint16 | uint32 | uint64 | int64
 }
 
 func readNumeric[T numeric](buf *bytes.Buffer) (T, error) {
-- 
2.43.0


From 45ef5ea1ce758079e5053ba8cc3c50cdf625f887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:39 +0000
Subject: [PATCH 07/29] fix: accept inclusion proofs for more than one version

---
 tree/transparency/algorithms/proof_handle.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tree/transparency/algorithms/proof_handle.go b/tree/transparency/algorithms/proof_handle.go
index f78834d..01b6b20 100644
--- a/tree/transparency/algorithms/proof_handle.go
+++ b/tree/transparency/algorithms/proof_handle.go
@@ -197,11 +197,14 @@ func (rph *ReceivedProofHandle) GetInclusionProof(x uint64, vers []uint32) ([]by
 	}
 	proof := rph.inner.PrefixProofs[0]
 
-	// Verify that proof shows inclusion for a single version.
-	if len(proof.Results) != 1 {
+	// Verify that proof shows inclusion for each of the requested versions.
+	if len(proof.Results) != len(vers) {
 		return nil, errors.New("unexpected number of results present in prefix proof")
-	} else if !proof.Results[0].Inclusion() {
-		return nil, errors.New("unexpected non-inclusion proof provided")
+	}
+	for _, res := range proof.Results {
+		if !res.Inclusion() {
+			return nil, errors.New("unexpected non-inclusion proof provided")
+		}
 	}
 
 	// Evaluate the prefix proof and return.
-- 
2.43.0


From 29f98f106b94a986f5e56d33d93908d0a982b4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:39 +0000
Subject: [PATCH 08/29] fix: remember VRF outputs inserted by earlier audited
 updates

---
 tree/transparency/auditor/auditor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tree/transparency/auditor/auditor.go b/tree/transparency/auditor/auditor.go
index 0688b54..90b509e 100644
--- a/tree/transparency/auditor/auditor.go
+++ b/tree/transparency/auditor/auditor.go
@@ -107,6 +107,7 @@ func (a *Auditor) updateState(
 	if a.state != nil {
 		n = a.state.TreeHead.TreeSize
 		fullSubtrees = a.state.FullSubtrees
+		inserted = a.state.Inserted
 	}
 
 	// Compute the new set of full subtrees of the log tree.
-- 
2.43.0


From adf3ae8997a2e043bd14c2ff7865810920d5d387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:40 +0000
Subject: [PATCH 09/29] fix: require the first audited update to start from an
 empty prefix tree

---
 tree/transparency/auditor/auditor.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/auditor/auditor.go b/tree/transparency/auditor/auditor.go
index 90b509e..017785e 100644
--- a/tree/transparency/auditor/auditor.go
+++ b/tree/transparency/auditor/auditor.go
@@ -228,10 +228,14 @@ func (a *Auditor) Process(update *structs.AuditorUpdate) error {
 	// Compute the root value of the previous prefix tree. Verify that it
 	// matches the auditor's state. Compute the new root value for the prefix
 	// tree.
+	expected := make([]byte, a.config.Suite.HashSize()) // Root of an empty tree.
+	if a.state != nil {
+		expected = a.state.PrefixTree
+	}
 	before, after, err := prefix.EvaluateBeforeAfter(a.config.Suite, update.Added, update.Removed, &update.Proof)
 	if err != nil {
 		return err
-	} else if a.state != nil && !bytes.Equal(before, a.state.PrefixTree) {
+	} else if !bytes.Equal(before, expected) {
 		return errors.New("prefix tree root does not match expected")
 	}
 
-- 
2.43.0


From 68c2dc66365a92dd1af2159cb9240b60bed10688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:40 +0000
Subject: [PATCH 10/29] fix: reject non-inclusion proofs with a leaf that can
 not be at that position

---
 tree/prefix/verify.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/tree/prefix/verify.go b/tree/prefix/verify.go
index e77543b..060787f 100644
--- a/tree/prefix/verify.go
+++ b/tree/prefix/verify.go
@@ -9,14 +9,24 @@ import (
 )
 
 // terminalNode returns the terminal node of the search.
-func terminalNode(entry Entry, res PrefixSearchResult) node {
+func terminalNode(entry Entry, res PrefixSearchResult) (node, error) {
 	switch res := res.(type) {
 	case inclusionProof:
-		return leafNode{entry.VrfOutput, entry.Commitment}
+		return leafNode{entry.VrfOutput, entry.Commitment}, nil
 	case nonInclusionLeafProof:
-		return res.leaf
+		// The leaf must be for a different VRF output than the one searched for
+		// and it must actually belong at this point in the search path.
+		if bytes.Equal(entry.VrfOutput, res.leaf.vrfOutput) {
+			return nil, errors.New("malformed proof")
+		}
+		for i := range res.depth {
+			if getBit(entry.VrfOutput, i) != getBit(res.leaf.vrfOutput, i) {
+				return nil, errors.New("malformed proof")
+			}
+		}
+		return res.leaf, nil
 	case nonInclusionParentProof:
-		return emptyNode{}
+		return emptyNode{}, nil
 	default:
 		panic("unexpected search result type found")
 	}
@@ -54,7 +64,11 @@ func addToSkeleton(n *node, entry Entry, res PrefixSearchResult) error {
 			if depth > res.Depth() {
 				return errors.New("current depth is greater than result depth")
 			} else if depth == res.Depth() {
-				*n = terminalNode(entry, res)
+				terminal, err := terminalNode(entry, res)
+				if err != nil {
+					return err
+				}
+				*n = terminal
 				return nil
 			} else {
 				*n = &parentNode{left: externalNode{}, right: externalNode{}}
-- 
2.43.0


From 01b03c030a4452fb0b90192e7f04a02b54c0555e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:59 +0000
Subject: [PATCH 11/29] fix: commit the tree head and the data it covers in one
 durable batch

---
 db/leveldb.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/db/leveldb.go b/db/leveldb.go
index a060261..4cbb366 100644
--- a/db/leveldb.go
+++ b/db/leveldb.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/syndtr/goleveldb/leveldb"
 	"github.com/syndtr/goleveldb/leveldb/errors"
+	"github.com/syndtr/goleveldb/leveldb/opt"
 )
 
 const leveldbTreeHeadKey = "tree-head"
@@ -54,22 +55,15 @@ func (c *ldbConn) Commit() error {
 
 	b := new(leveldb.Batch)
 	for key, value := range c.batch {
-		if key == leveldbTreeHeadKey {
-			continue
-		} else if value == nil {
+		if value == nil {
 			b.Delete([]byte(key))
 		} else {
 			b.Put([]byte(key), value)
 		}
 	}
-	if err := c.conn.Write(b, nil); err != nil {
+	if err := c.conn.Write(b, &opt.WriteOptions{Sync: true}); err != nil {
 		return err
 	}
-	if value, ok := c.batch[leveldbTreeHeadKey]; ok {
-		if err := c.conn.Put([]byte(leveldbTreeHeadKey), value, nil); err != nil {
-			return err
-		}
-	}
 
 	c.batch = make(map[string][]byte)
 	return nil
-- 
2.43.0


From bbed36e49abe8e0bc8c87dca636f258dfd202de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:59 +0000
Subject: [PATCH 12/29] fix: reject ineligible removals before any mutation is
 written

---
 tree/transparency/mutate.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/tree/transparency/mutate.go b/tree/transparency/mutate.go
index a4d293f..c9a0a08 100644
--- a/tree/transparency/mutate.go
+++ b/tree/transparency/mutate.go
@@ -55,12 +55,17 @@ func (t *Tree) Mutate(add []LabelValue, remove [][]byte) (*structs.AuditorUpdate
 	if err != nil {
 		return nil, err
 	}
+	for _, mutation := range mutations {
+		if err := mutation.validate(prevDLE); err != nil {
+			return nil, err
+		}
+	}
 	var (
 		prefixAdd    []prefix.Entry
 		prefixRemove [][]byte
 	)
 	for _, mutation := range mutations {
-		pa, pr, err := t.mutateLabel(n, prevDLE, mutation)
+		pa, pr, err := t.mutateLabel(n, mutation)
 		if err != nil {
 			return nil, err
 		}
@@ -107,6 +112,21 @@ type labelMutation struct {
 	remove bool
 }
 
+// validate returns an error if the requested mutation is not allowed. All
+// mutations must be validated before any of them is written to the database,
+// because there is no way to discard individual pending writes.
+func (mut *labelMutation) validate(prevDLE *uint64) error {
+	if !mut.remove || len(mut.index) == 0 {
+		return nil
+	}
+	// The label is not eligible for deletion if it has been modified since the
+	// last distinguished log entry was created.
+	if prevDLE == nil || mut.index[len(mut.index)-1] > *prevDLE {
+		return fmt.Errorf("unable to delete label that was modified recently: %s", mut.label)
+	}
+	return nil
+}
+
 // groupByLabel takes the full set of requested additions and removals and
 // organizes them by label. This function also handles looking up the index for
 // all of the affected labels.
@@ -158,7 +178,7 @@ func (t *Tree) groupByLabel(add []LabelValue, remove [][]byte) ([]labelMutation,
 
 // mutateLabel performs the requested additions and removals for a single label.
 // Version counters are assigned sequentially.
-func (t *Tree) mutateLabel(n uint64, prevDLE *uint64, mut labelMutation) ([]prefix.Entry, [][]byte, error) {
+func (t *Tree) mutateLabel(n uint64, mut labelMutation) ([]prefix.Entry, [][]byte, error) {
 	var (
 		add    []prefix.Entry
 		remove [][]byte
@@ -167,12 +187,6 @@ func (t *Tree) mutateLabel(n uint64, prevDLE *uint64, mut labelMutation) ([]pref
 	)
 
 	if mut.remove && len(index) > 0 {
-		// The label is not eligible for deletion if it has been modified since
-		// the last distinguished log entry was created.
-		if prevDLE == nil || index[len(index)-1] > *prevDLE {
-			return nil, nil, fmt.Errorf("unable to delete label that was modified recently: %s", label)
-		}
-
 		// Delete the label's index.
 		if err := t.tx.DeleteIndex(label); err != nil {
 			return nil, nil, err
-- 
2.43.0


From 6d0e787ddc5683f815c5d97449f4aa23132aa1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:00 +0000
Subject: [PATCH 13/29] fix: count the first versions of a label from zero

---
 db/memory/memory.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/db/memory/memory.go b/db/memory/memory.go
index 051fb76..6a029d4 100644
--- a/db/memory/memory.go
+++ b/db/memory/memory.go
@@ -229,9 +229,9 @@ func (mls *ManagedLogStore) IncrementGreatestVersion(label []byte, count int) (i
 	labelStr := fmt.Sprintf("%x", label)
 
 	ver, ok := mls.Data[labelStr]
-	mls.Data[labelStr] += count
 	if !ok {
-		return -1, nil
+		ver = -1
 	}
+	mls.Data[labelStr] = ver + count
 	return ver, nil
 }
-- 
2.43.0


From a6d42ea071894cb1c0c659e1e0b8970f6ea39f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:00 +0000
Subject: [PATCH 14/29] fix: report failures to find the starting position of a
 search

---
 tree/transparency/algorithms/search.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/transparency/algorithms/search.go b/tree/transparency/algorithms/search.go
index 92e7d95..b7baeb4 100644
--- a/tree/transparency/algorithms/search.go
+++ b/tree/transparency/algorithms/search.go
@@ -22,7 +22,7 @@ func GreatestVersionSearch(config *structs.PublicConfig, ver uint32, n uint64, p
 	// distinguished log entries.
 	rightmostDLE, err := RightmostDistinguished(config, n, provider)
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 	var x uint64
 	if rightmostDLE != nil {
-- 
2.43.0


From f316311d8373747cf50c037a5e329188bd3f075a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 15/29] fix: allow contact monitoring to finish

---
 tree/transparency/algorithms/monitor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree/transparency/algorithms/monitor.go b/tree/transparency/algorithms/monitor.go
index e215073..8f7542e 100644
--- a/tree/transparency/algorithms/monitor.go
+++ b/tree/transparency/algorithms/monitor.go
@@ -25,6 +25,9 @@ func NewContactState(entries []structs.MonitorMapEntry) *ContactState {
 }
 
 func (cs *ContactState) Struct() []structs.MonitorMapEntry {
+	if cs == nil { // No versions need to be monitored.
+		return nil
+	}
 	out := make([]structs.MonitorMapEntry, 0, len(cs.Ptrs))
 	for pos, ver := range cs.Ptrs {
 		out = append(out, structs.MonitorMapEntry{Position: pos, Version: ver})
-- 
2.43.0


From 6c27f6aef655abd95d546ecba80e87150cd5b9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 16/29] fix: reject an advertised tree size of zero

---
 tree/transparency/transparency.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/transparency.go b/tree/transparency/transparency.go
index 677c3cb..c6c8f5e 100644
--- a/tree/transparency/transparency.go
+++ b/tree/transparency/transparency.go
@@ -111,7 +111,9 @@ func (t *Tree) fullTreeHead(last *uint64) (fth *structs.FullTreeHead, n uint64,
 	if t.treeHead == nil {
 		return nil, 0, nil, nil, errors.New("can not operate on an empty tree")
 	} else if last != nil {
-		if *last == t.treeHead.TreeSize {
+		if *last == 0 {
+			return nil, 0, nil, nil, errors.New("tree size advertised by user is not valid")
+		} else if *last == t.treeHead.TreeSize {
 			return &structs.FullTreeHead{}, t.treeHead.TreeSize, nil, nil, nil
 		} else if *last > t.treeHead.TreeSize {
 			return nil, 0, nil, nil, errors.New("tree size advertised by user is greater than current tree size")
-- 
2.43.0


From 30a3428a04f4d5b79abe2290972d0d89feefef5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:02 +0000
Subject: [PATCH 17/29] fix: prove unchanged tree heads relative to the state
 the user retained

---
 tree/transparency/transparency.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/transparency/transparency.go b/tree/transparency/transparency.go
index c6c8f5e..e6d86d1 100644
--- a/tree/transparency/transparency.go
+++ b/tree/transparency/transparency.go
@@ -114,7 +114,7 @@ func (t *Tree) fullTreeHead(last *uint64) (fth *structs.FullTreeHead, n uint64,
 		if *last == 0 {
 			return nil, 0, nil, nil, errors.New("tree size advertised by user is not valid")
 		} else if *last == t.treeHead.TreeSize {
-			return &structs.FullTreeHead{}, t.treeHead.TreeSize, nil, nil, nil
+			return &structs.FullTreeHead{}, t.treeHead.TreeSize, nil, last, nil
 		} else if *last > t.treeHead.TreeSize {
 			return nil, 0, nil, nil, errors.New("tree size advertised by user is greater than current tree size")
 		}
-- 
2.43.0


From 0f9d901140b1ed07529c61f07bd48c3e24142d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:02 +0000
Subject: [PATCH 18/29] fix: terminate binary ladders for very large versions

---
 tree/transparency/math/ladders.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tree/transparency/math/ladders.go b/tree/transparency/math/ladders.go
index 5e398d4..d53c9ad 100644
--- a/tree/transparency/math/ladders.go
+++ b/tree/transparency/math/ladders.go
@@ -12,14 +12,14 @@ func baseBinaryLadder(n uint32) []uint32 {
 	for {
 		val := (uint32(1) << len(out)) - 1
 		out = append(out, val)
-		if val > n {
+		if val > n || val == ^uint32(0) {
 			break
 		}
 	}
 
 	lowerBound, upperBound := out[len(out)-2], out[len(out)-1]
 	for lowerBound+1 < upperBound {
-		val := (lowerBound + upperBound) / 2
+		val := lowerBound + (upperBound-lowerBound)/2
 		out = append(out, val)
 		if val <= n {
 			lowerBound = val
-- 
2.43.0


From 51776bd156cdc782280bb4e50d7e60378e36ee0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:03 +0000
Subject: [PATCH 19/29] fix: check the length of the binary ladder before
 indexing it

---
 tree/transparency/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree/transparency/client.go b/tree/transparency/client.go
index ea83eaf..51d4335 100644
--- a/tree/transparency/client.go
+++ b/tree/transparency/client.go
@@ -564,6 +564,9 @@ func (sv *StreamVerifier) Verify(res *structs.UpdateResponse) error {
 	// Verify that no commitment is provided for a version greater than or equal
 	// to `startVer`.
 	ladder := updateLadderVersions(startVer, startVer+uint32(len(res.Info)-1))
+	if len(res.BinaryLadder) != len(ladder) {
+		return errors.New("incorrect number of binary ladder steps provided")
+	}
 	for i, ver := range ladder {
 		if ver >= startVer && res.BinaryLadder[i].Commitment != nil {
 			return errors.New("commitment provided when not expected")
-- 
2.43.0


From a54cd71e1142970a75ee8fc885ae844b64da2422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:03 +0000
Subject: [PATCH 20/29] fix: accept the same version again if its values are
 consistent

---
 tree/transparency/algorithms/proof_handle.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tree/transparency/algorithms/proof_handle.go b/tree/transparency/algorithms/proof_handle.go
index 01b6b20..8bf8a72 100644
--- a/tree/transparency/algorithms/proof_handle.go
+++ b/tree/transparency/algorithms/proof_handle.go
@@ -22,8 +22,15 @@ func addVersion(
 		return errors.New("malformed vrf output")
 	} else if commitment != nil && len(commitment) != cs.HashSize() {
 		return errors.New("malformed commitment")
-	} else if _, ok := versions[ver]; ok {
-		return errors.New("can not add the same version twice")
+	}
+	if existing, ok := versions[ver]; ok {
+		if !bytes.Equal(vrfOutput, existing.VrfOutput) {
+			return errors.New("different vrf outputs found for same version")
+		} else if commitment == nil {
+			return nil
+		} else if existing.Commitment != nil && !bytes.Equal(commitment, existing.Commitment) {
+			return errors.New("different commitments found for same version")
+		}
 	}
 	versions[ver] = prefix.Entry{VrfOutput: vrfOutput, Commitment: commitment}
 	return nil
-- 
2.43.0


From 901fa1d5497948354c1c2d96c8ff4293a6029046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:04 +0000
Subject: [PATCH 21/29] fix: accept signed updates exactly when there is a
 third-party manager

---
 tree/transparency/update.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tree/transparency/update.go b/tree/transparency/update.go
index 831b320..2251742 100644
--- a/tree/transparency/update.go
+++ b/tree/transparency/update.go
@@ -15,6 +15,9 @@ func (t *Tree) Update(
 	ctx context.Context,
 	req *structs.UpdateRequest,
 ) (<-chan wire.UpdateResponse, error) {
+	if t.config.Mode == structs.ThirdPartyManagement {
+		return nil, errors.New("updates must be signed by the service operator")
+	}
 	ch := make(chan wire.UpdateResponse)
 
 	up := newUpdater(t, ctx, ch)
@@ -30,6 +33,9 @@ func (t *Tree) ManagerUpdate(
 	ctx context.Context,
 	req *structs.ManagerUpdateRequest,
 ) (<-chan wire.UpdateResponse, error) {
+	if t.config.Mode != structs.ThirdPartyManagement {
+		return nil, errors.New("transparency log is not configured with third party manager")
+	}
 	ch := make(chan wire.UpdateResponse)
 
 	up := newUpdater(t, ctx, ch)
-- 
2.43.0


From d135ccc540660ba8fd546f90a0bfaf5457a9cb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:04 +0000
Subject: [PATCH 22/29] fix: do not release an auditor tree head that was not
 persisted

---
 tree/transparency/auditor/auditor.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tree/transparency/auditor/auditor.go b/tree/transparency/auditor/auditor.go
index 017785e..43f2637 100644
--- a/tree/transparency/auditor/auditor.go
+++ b/tree/transparency/auditor/auditor.go
@@ -267,18 +267,22 @@ func (a *Auditor) Commit() (*structs.AuditorTreeHead, error) {
 	if err != nil {
 		return nil, err
 	}
-	a.state.TreeHead.Signature, err = a.auditorKey.Sign(tbs)
+	signature, err := a.auditorKey.Sign(tbs)
 	if err != nil {
 		return nil, err
 	}
 
-	// Serialize the auditor's state and commit it to the database.
-	raw, err := a.state.Marshal()
+	// Serialize the auditor's state and commit it to the database. The tree
+	// head only becomes visible once it has been persisted.
+	signed := *a.state
+	signed.TreeHead.Signature = signature
+	raw, err := signed.Marshal()
 	if err != nil {
 		return nil, err
 	} else if err := a.tx.PutState(raw); err != nil {
 		return nil, err
 	}
+	a.state = &signed
 
 	return &a.state.TreeHead, nil
 }
-- 
2.43.0


From 23bc37fbe72e5cdbcf70a3570634ef8a648e4b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:05 +0000
Subject: [PATCH 23/29] fix: bound the memory allocated for a declared length
 by the remaining input

---
 tree/transparency/structs/structs.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tree/transparency/structs/structs.go b/tree/transparency/structs/structs.go
index 4fc6fb7..473172f 100644
--- a/tree/transparency/structs/structs.go
+++ b/tree/transparency/structs/structs.go
@@ -91,6 +91,9 @@ func readBytes[S sizeParam](buf *bytes.Buffer) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if uint64(size) > uint64(buf.Len()) {
+		return nil, io.ErrUnexpectedEOF
+	}
 	out := make([]byte, size)
 	if _, err := io.ReadFull(buf, out); err != nil {
 		return nil, err
@@ -112,6 +115,9 @@ func readByteSlice[S sizeParam](buf *bytes.Buffer, n int) ([][]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if uint64(size) > uint64(buf.Len()) {
+		return nil, io.ErrUnexpectedEOF
+	}
 	out := make([][]byte, size)
 	for i := range int(size) {
 		elem := make([]byte, n)
@@ -139,6 +145,9 @@ func readNumericSlice[S sizeParam, T numeric](buf *bytes.Buffer) ([]T, error) {
 	if err != nil {
 		return nil, err
 	}
+	if uint64(size) > uint64(buf.Len()) {
+		return nil, io.ErrUnexpectedEOF
+	}
 	out := make([]T, size)
 	for i := range int(size) {
 		val, err := readNumeric[T](buf)
@@ -173,6 +182,9 @@ func readFuncSlice[S sizeParam, T any](
 	if err != nil {
 		return nil, err
 	}
+	if uint64(size) > uint64(buf.Len()) {
+		return nil, io.ErrUnexpectedEOF
+	}
 	out := make([]T, size)
 	for i := range int(size) {
 		elem, err := newF(buf)
-- 
2.43.0


From b6f3cdcb99475798cc237dfe3c5a0d2bb6466f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:06 +0000
Subject: [PATCH 24/29] fix: allow audited updates that replace an entry

---
 tree/prefix/verify.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/tree/prefix/verify.go b/tree/prefix/verify.go
index 060787f..152bc11 100644
--- a/tree/prefix/verify.go
+++ b/tree/prefix/verify.go
@@ -167,13 +167,31 @@ func Verify(cs suites.CipherSuite, entries []Entry, proof *PrefixProof, root []b
 // EvaluateBeforeAfter evaluates `proof` before and after making the requested
 // additions and removals.
 func EvaluateBeforeAfter(cs suites.CipherSuite, add, remove []Entry, proof *PrefixProof) ([]byte, []byte, error) {
+	if len(proof.Results) != len(add)+len(remove) {
+		return nil, nil, errors.New("number of entries searched for does not match number of results")
+	}
+
 	// Combine the `add` and `remove` slices and compute the prefix tree root
-	// hash in the straightforward way.
-	allEntries := make([]Entry, len(add)+len(remove))
-	copy(allEntries, add)
-	copy(allEntries[len(add):], remove)
+	// hash in the straightforward way. If an entry is being replaced then only
+	// the removed entry exists in the tree beforehand.
+	removed := make(map[string]PrefixSearchResult)
+	for i, entry := range remove {
+		removed[string(entry.VrfOutput)] = proof.Results[len(add)+i]
+	}
+	allEntries := make([]Entry, 0, len(add)+len(remove))
+	results := make([]PrefixSearchResult, 0, len(add)+len(remove))
+	for i, entry := range add {
+		if res, ok := removed[string(entry.VrfOutput)]; !ok {
+			allEntries = append(allEntries, entry)
+			results = append(results, proof.Results[i])
+		} else if res.Inclusion() != proof.Results[i].Inclusion() || res.Depth() != proof.Results[i].Depth() {
+			return nil, nil, errors.New("different results provided for same vrf output")
+		}
+	}
+	allEntries = append(allEntries, remove...)
+	results = append(results, proof.Results[len(add):]...)
 
-	root, err := evaluate(cs, allEntries, proof)
+	root, err := evaluate(cs, allEntries, &PrefixProof{Results: results, Elements: proof.Elements})
 	if err != nil {
 		return nil, nil, err
 	}
-- 
2.43.0


From 87b4159504443f11f538d31166affab7479b77a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:06 +0000
Subject: [PATCH 25/29] fix: report inconsistent retained log entries

---
 tree/transparency/auditor/auditor.go | 4 +++-
 tree/transparency/client_crypto.go   | 4 +++-
 tree/transparency/mutate.go          | 5 ++++-
 tree/transparency/transparency.go    | 4 +++-
 4 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/tree/transparency/auditor/auditor.go b/tree/transparency/auditor/auditor.go
index 43f2637..986fcc1 100644
--- a/tree/transparency/auditor/auditor.go
+++ b/tree/transparency/auditor/auditor.go
@@ -85,7 +85,9 @@ func (a *Auditor) previousRightmost(added uint64) (*uint64, *algorithms.DataProv
 	// Pass the log entries into a DataProvider as retained state and compute
 	// the previous rightmost distinguished log entry.
 	provider := algorithms.NewDataProvider(a.config.Suite, nil)
-	provider.AddRetained(nil, logEntries)
+	if err := provider.AddRetained(nil, logEntries); err != nil {
+		return nil, nil, err
+	}
 	prevDLE, err := algorithms.PreviousRightmost(a.config, n+1, provider)
 	if err != nil {
 		return nil, nil, err
diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index 58e3c5e..6307639 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -267,7 +267,9 @@ func getDistinguished(config *structs.PublicConfig, state *structs.ClientState)
 	}
 
 	provider := algorithms.NewDataProvider(config.Suite, nil)
-	provider.AddRetained(nil, state.LogEntries)
+	if err := provider.AddRetained(nil, state.LogEntries); err != nil {
+		return 0, err
+	}
 	rightmostDLE, err := algorithms.RightmostDistinguished(config, state.TreeHead.TreeSize, provider)
 	if err != nil {
 		return 0, err
diff --git a/tree/transparency/mutate.go b/tree/transparency/mutate.go
index c9a0a08..dde0319 100644
--- a/tree/transparency/mutate.go
+++ b/tree/transparency/mutate.go
@@ -42,7 +42,10 @@ func (t *Tree) Mutate(add []LabelValue, remove [][]byte) (*structs.AuditorUpdate
 
 	// Compute what the rightmost distinguished log entry will be after the new
 	// log entry is added.
-	provider.AddRetained(nil, map[uint64]structs.LogEntry{n: {Timestamp: timestamp}})
+	retained := map[uint64]structs.LogEntry{n: {Timestamp: timestamp}}
+	if err := provider.AddRetained(nil, retained); err != nil {
+		return nil, err
+	}
 	prevDLE, err := algorithms.PreviousRightmost(t.config.Public(), n+1, provider)
 	if err != nil {
 		return nil, err
diff --git a/tree/transparency/transparency.go b/tree/transparency/transparency.go
index e6d86d1..3fe78bf 100644
--- a/tree/transparency/transparency.go
+++ b/tree/transparency/transparency.go
@@ -156,7 +156,9 @@ func (t *Tree) updateView(last *uint64, provider *algorithms.DataProvider) error
 			logEntries[pos] = *entry
 		}
 
-		provider.AddRetained(nil, logEntries)
+		if err := provider.AddRetained(nil, logEntries); err != nil {
+			return err
+		}
 	}
 
 	return algorithms.UpdateView(t.config.Public(), t.treeHead.TreeSize, last, provider)
-- 
2.43.0


From dc36a9191a88afa9a2c148ce79e09ee1e4595ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:39 +0000
Subject: [PATCH 26/29] fix: do not serve versions that are newer than the tree
 head

---
 tree/transparency/crypto.go       | 18 ++++++++++++++++++
 tree/transparency/monitor.go      |  3 +--
 tree/transparency/transparency.go |  6 +++---
 tree/transparency/update.go       | 11 +++++------
 4 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/tree/transparency/crypto.go b/tree/transparency/crypto.go
index 2c58c43..21cf7f8 100644
--- a/tree/transparency/crypto.go
+++ b/tree/transparency/crypto.go
@@ -47,6 +47,24 @@ func (t *Tree) batchGetIndex(labels [][]byte) ([][]uint64, error) {
 	return out, nil
 }
 
+// getIndex returns the index of a single label, as it was when the current tree
+// head was issued. Versions that were added by a concurrent writer in a later
+// log entry are dropped, since they can't be shown to exist.
+func (t *Tree) getIndex(label []byte) ([]uint64, error) {
+	indices, err := t.batchGetIndex([][]byte{label})
+	if err != nil {
+		return nil, err
+	}
+	index, treeSize := indices[0], uint64(0)
+	if t.treeHead != nil {
+		treeSize = t.treeHead.TreeSize
+	}
+	for len(index) > 0 && index[len(index)-1] >= treeSize {
+		index = index[:len(index)-1]
+	}
+	return index, nil
+}
+
 // putIndex updates the stored index of the label.
 func (t *Tree) putIndex(label []byte, index []uint64) error {
 	compressed := make([]uint64, len(index))
diff --git a/tree/transparency/monitor.go b/tree/transparency/monitor.go
index 4151ed0..495fad6 100644
--- a/tree/transparency/monitor.go
+++ b/tree/transparency/monitor.go
@@ -117,11 +117,10 @@ func (t *Tree) startMonitor(last *uint64, label []byte) (*monitorOp, error) {
 	if err != nil {
 		return nil, err
 	}
-	indices, err := t.batchGetIndex([][]byte{label})
+	index, err := t.getIndex(label)
 	if err != nil {
 		return nil, err
 	}
-	index := indices[0]
 
 	handle := algorithms.NewProducedProofHandle(t.config.Suite, t.tx, index)
 	provider := algorithms.NewDataProvider(t.config.Suite, handle)
diff --git a/tree/transparency/transparency.go b/tree/transparency/transparency.go
index 3fe78bf..af71e25 100644
--- a/tree/transparency/transparency.go
+++ b/tree/transparency/transparency.go
@@ -174,13 +174,13 @@ func (t *Tree) Search(
 	}
 
 	// Load label index and determine greatest version that exists, if any.
-	indices, err := t.batchGetIndex([][]byte{req.Label})
+	index, err := t.getIndex(req.Label)
 	if err != nil {
 		return nil, err
 	}
-	greatest := len(indices[0]) - 1
+	greatest := len(index) - 1
 
-	handle := algorithms.NewProducedProofHandle(t.config.Suite, t.tx, indices[0])
+	handle := algorithms.NewProducedProofHandle(t.config.Suite, t.tx, index)
 
 	// Determine which versions we will need VRF outputs for, and also load the
 	// target version of the label.
diff --git a/tree/transparency/update.go b/tree/transparency/update.go
index 2251742..307f3e4 100644
--- a/tree/transparency/update.go
+++ b/tree/transparency/update.go
@@ -104,7 +104,7 @@ func (u *updater) setRequest(req *structs.UpdateRequest) error {
 	for i, val := range req.Values {
 		values[i] = structs.UpdateValue{Value: val.Value}
 	}
-	indices, err := u.tree.batchGetIndex([][]byte{req.Label})
+	index, err := u.tree.getIndex(req.Label)
 	if err != nil {
 		return err
 	}
@@ -112,7 +112,7 @@ func (u *updater) setRequest(req *structs.UpdateRequest) error {
 	u.last = req.Last
 	u.label = req.Label
 	u.values = values
-	u.index = indices[0]
+	u.index = index
 	u.ver = 0
 	if req.GreatestVersion != nil {
 		u.ver = int(*req.GreatestVersion) + 1
@@ -139,7 +139,7 @@ func (u *updater) setManagerRequest(req *structs.ManagerUpdateRequest) error {
 	}
 
 	// Load index and populate updater state.
-	indices, err := u.tree.batchGetIndex([][]byte{req.Label})
+	index, err := u.tree.getIndex(req.Label)
 	if err != nil {
 		return err
 	}
@@ -148,7 +148,7 @@ func (u *updater) setManagerRequest(req *structs.ManagerUpdateRequest) error {
 	u.label = req.Label
 	u.signedVer = &req.SignedVersion
 	u.values = req.Values
-	u.index = indices[0]
+	u.index = index
 	u.ver = 0
 	if req.GreatestVersion != nil {
 		u.ver = int(*req.GreatestVersion) + 1
@@ -332,11 +332,10 @@ func (u *updater) reloadTree(pos uint64) error {
 		return errors.New("reloaded tree does not contain new versions of label")
 	}
 
-	indices, err := u.tree.batchGetIndex([][]byte{u.label})
+	index, err := tree.getIndex(u.label)
 	if err != nil {
 		return err
 	}
-	index := indices[0]
 	if len(index) == 0 || index[len(index)-1] < pos {
 		return errors.New("reloaded index does not contain new versions of label")
 	}
-- 
2.43.0


From e13dd76e910f790a4e39839b968f903b06f08f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:28 +0000
Subject: [PATCH 27/29] fix: provide the whole binary ladder for a label that
 does not exist

---
 tree/transparency/transparency.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/transparency/transparency.go b/tree/transparency/transparency.go
index af71e25..78a3bd5 100644
--- a/tree/transparency/transparency.go
+++ b/tree/transparency/transparency.go
@@ -190,7 +190,7 @@ func (t *Tree) Search(
 	)
 	if req.Version == nil {
 		if greatest < 0 {
-			ladder = []uint32{0}
+			ladder = math.SearchBinaryLadder(0, 0, nil, nil)
 			openingAndValue, err = t.getVersion(req.Label, 0)
 		} else {
 			ladder = math.SearchBinaryLadder(uint32(greatest), uint32(greatest), nil, nil)
-- 
2.43.0


From b429d5a0705df75cb02c283733f7a5a23c8e11b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:34 +0000
Subject: [PATCH 28/29] fix: answer searches for versions that do not exist
 decodably in third-party management

---
 tree/transparency/crypto.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/crypto.go b/tree/transparency/crypto.go
index 21cf7f8..3cc5634 100644
--- a/tree/transparency/crypto.go
+++ b/tree/transparency/crypto.go
@@ -96,8 +96,13 @@ func (t *Tree) getVersion(label []byte, ver uint32) (*structs.OpeningAndValue, e
 		// Returning a zero value for the commitment opening ensures that the
 		// SearchResponse doesn't end up getting serialized wrong when a search
 		// produces a non-inclusion proof.
+		// Similarly, Third-Party Management requires a signature to be present.
 		size := t.config.Suite.CommitmentOpeningSize()
-		return &structs.OpeningAndValue{Opening: make([]byte, size)}, nil
+		out := &structs.OpeningAndValue{Opening: make([]byte, size)}
+		if t.config.Mode == structs.ThirdPartyManagement {
+			out.Value.Signature = make([]byte, 0)
+		}
+		return out, nil
 	}
 	buf := bytes.NewBuffer(raw)
 	labelValue, err := structs.NewOpeningAndValue(t.config.Public(), buf)
-- 
2.43.0


From 6eb868aacbbe2dbb43449137ad2d9fe86a13e0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:35 +0000
Subject: [PATCH 29/29] fix: a reloaded tree may have no tree head yet

---
 tree/transparency/update.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/transparency/update.go b/tree/transparency/update.go
index 307f3e4..d118f61 100644
--- a/tree/transparency/update.go
+++ b/tree/transparency/update.go
@@ -328,7 +328,7 @@ func (u *updater) reloadTree(pos uint64) error {
 	tree, err := NewTree(u.tree.config, u.tree.tx, u.tree.updater)
 	if err != nil {
 		return err
-	} else if tree.treeHead.TreeSize <= pos {
+	} else if tree.treeHead == nil || tree.treeHead.TreeSize <= pos {
 		return errors.New("reloaded tree does not contain new versions of label")
 	}
 
-- 
2.43.0

