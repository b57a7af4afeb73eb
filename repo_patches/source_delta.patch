From 0274ed63669772c8ae38ecd50289624f310c2e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:30 +0000
Subject: [PATCH 01/70] fix: compare all the elements of merkle tree data

Data.Equal ignored the value elements, so EntryExists reported an entry
present although the tree holds a different value for its index.
---
 merkletree/merkletree.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index b3d2dcf..41d8f17 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -78,8 +78,7 @@ func (d *Data) Bytes() (b [ElemBytesLen * DataLen]byte) {
 }
 
 func (d1 *Data) Equal(d2 *Data) bool {
-	return bytes.Equal(d1[0][:], d2[0][:]) && bytes.Equal(d1[1][:], d2[1][:]) &&
-		bytes.Equal(d1[2][:], d2[2][:]) && bytes.Equal(d1[3][:], d2[3][:])
+	return *d1 == *d2
 }
 
 func (d Data) MarshalText() ([]byte, error) {
-- 
2.43.0


From 089aa1805af62a98cd6c13852ac8e8640d761ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:30 +0000
Subject: [PATCH 02/70] fix: change the root of a merkle tree only after the
 commit

A failed commit left the tree with a root whose nodes are not stored.
---
 merkletree/merkletree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 41d8f17..49a65b1 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -475,12 +475,12 @@ func (mt *MerkleTree) AddEntry(e *Entry) error {
 	if err != nil {
 		return err
 	}
-	mt.rootKey = newRootKey
-	mt.dbInsert(tx, rootNodeValue, DBEntryTypeRoot, mt.rootKey[:])
+	mt.dbInsert(tx, rootNodeValue, DBEntryTypeRoot, newRootKey[:])
 
 	if err := tx.Commit(); err != nil {
 		return err
 	}
+	mt.rootKey = newRootKey
 	return nil
 }
 
-- 
2.43.0


From 5414d1543ffef93f86e1678f310d47528d415fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:30 +0000
Subject: [PATCH 03/70] fix: do not reset a merkle tree whose root cannot be
 read

NewMerkleTree took every storage error for a new tree and overwrote the
stored root with the empty one.
---
 merkletree/merkletree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 49a65b1..d915b38 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -228,6 +228,9 @@ type MerkleTree struct {
 func NewMerkleTree(storage db.Storage, maxLevels int) (*MerkleTree, error) {
 	mt := MerkleTree{storage: storage, maxLevels: maxLevels, writable: true}
 	_, gettedRoot, err := mt.dbGet(rootNodeValue)
+	if err != nil && err != db.ErrNotFound {
+		return nil, err
+	}
 	if err != nil {
 		tx, err := mt.storage.NewTx()
 		if err != nil {
-- 
2.43.0


From 689b3ded4b932f74c970df7987b1464321a6a92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:30 +0000
Subject: [PATCH 04/70] fix: refuse to import a tree into a snapshot

It replaced the stored root of the tree that the snapshot was taken from.
---
 merkletree/merkletree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index d915b38..d28f938 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -672,6 +672,10 @@ func deserializeKV(r io.Reader) ([]byte, []byte, error) {
 
 // ImportTree imports the tree from the output from the DumpTree function
 func (mt *MerkleTree) ImportTree(i io.Reader) error {
+	// verify that the MerkleTree is writable
+	if !mt.writable {
+		return ErrNotWritable
+	}
 	tx, err := mt.storage.NewTx()
 	if err != nil {
 		return err
-- 
2.43.0


From 65dca2c0ab13e3edf7dd6a7ea8a51deabd24aef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:30 +0000
Subject: [PATCH 05/70] fix: store the root of an imported merkle tree in the
 format it is read

ImportTree stored the root without its type byte, so that the tree was
corrupt after reopening it, and a dump without a root record or with a
truncated one was accepted with a root made from other data.
---
 merkletree/merkletree.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index d28f938..87c770f 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -683,6 +683,7 @@ func (mt *MerkleTree) ImportTree(i io.Reader) error {
 	mt.Lock()
 	defer mt.Unlock()
 
+	var root []byte
 	r := bufio.NewReader(i)
 	for {
 		k, v, err := deserializeKV(r)
@@ -691,19 +692,29 @@ func (mt *MerkleTree) ImportTree(i io.Reader) error {
 		} else if err != nil {
 			return err
 		}
+		if bytes.Equal(k, rootNodeValue) {
+			root = v
+			continue
+		}
 		tx.Put(k, v)
 	}
 
-	v, err := tx.Get(rootNodeValue)
-	if err != nil {
-		return err
+	var rootKey Hash
+	if len(root) != len(rootKey) {
+		return ErrInvalidDBValue
 	}
+	copy(rootKey[:], root)
+	if rootKey != HashZero {
+		if _, err := tx.Get(rootKey[:]); err != nil {
+			return err
+		}
+	}
+	mt.dbInsert(tx, rootNodeValue, DBEntryTypeRoot, rootKey[:])
 
 	if err := tx.Commit(); err != nil {
 		return err
 	}
-	mt.rootKey = &Hash{}
-	copy(mt.rootKey[:], v)
+	mt.rootKey = &rootKey
 
 	return nil
 }
-- 
2.43.0


From 33dad3866f3ded5ddfdb335b818eef4006d5907a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:30 +0000
Subject: [PATCH 06/70] fix: refuse malformed merkle proofs

A depth over the 240 bits of the bitmap made the parser panic, and bytes
after the last sibling were ignored.
---
 merkletree/merkletree.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 87c770f..1844c68 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -804,6 +804,9 @@ func NewProofFromBytes(bs []byte) (*Proof, error) {
 		p.Existence = true
 	}
 	p.depth = uint(bs[1])
+	if p.depth > uint(len(p.notempties)*8) {
+		return nil, ErrInvalidProofBytes
+	}
 	copy(p.notempties[:], bs[proofFlagsLen:ElemBytesLen])
 	siblingBytes := bs[ElemBytesLen:]
 	sibIdx := 0
@@ -827,6 +830,8 @@ func NewProofFromBytes(bs []byte) (*Proof, error) {
 		}
 		copy(p.NodeAux.HIndex[:], nodeAuxBytes[:ElemBytesLen])
 		copy(p.NodeAux.HValue[:], nodeAuxBytes[ElemBytesLen:2*ElemBytesLen])
+	} else if len(siblingBytes) != len(p.Siblings)*ElemBytesLen {
+		return nil, ErrInvalidProofBytes
 	}
 	return p, nil
 }
-- 
2.43.0


From 066511bbc5e05c88168e8bb4f787c9fc6b0952f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:29 +0000
Subject: [PATCH 07/70] fix: do not share buffers between a storage and its
 callers

A caller that reused a buffer given to Put, or changed one returned by
Get, changed what a transaction or the memory storage holds.
---
 db/kvmap.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/db/kvmap.go b/db/kvmap.go
index b36dddd..26ca8ea 100644
--- a/db/kvmap.go
+++ b/db/kvmap.go
@@ -8,8 +8,11 @@ type kvMap map[[sha256.Size]byte]KV
 
 func (m kvMap) Get(k []byte) ([]byte, bool) {
 	v, ok := m[sha256.Sum256(k)]
-	return v.V, ok
+	if !ok {
+		return nil, false
+	}
+	return clone(v.V), true
 }
 func (m kvMap) Put(k, v []byte) {
-	m[sha256.Sum256(k)] = KV{k, v}
+	m[sha256.Sum256(k)] = KV{clone(k), clone(v)}
 }
-- 
2.43.0


From 7ff62eab0b755ce90d0a6f1e6cdaafa0c2c30ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:29 +0000
Subject: [PATCH 08/70] fix: do not panic on empty values in
 LevelDbStorage.Info

---
 db/leveldb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/leveldb.go b/db/leveldb.go
index fea3165..5a32be3 100644
--- a/db/leveldb.go
+++ b/db/leveldb.go
@@ -46,7 +46,7 @@ func (l *LevelDbStorage) Info() string {
 	claimcount := 0
 	iter := snapshot.NewIterator(nil, nil)
 	for iter.Next() {
-		if iter.Value()[0] == byte(1) { // TODO when the new merkletree version is ready, instead of byte(1) use the type indicator
+		if v := iter.Value(); len(v) > 0 && v[0] == byte(1) { // TODO when the new merkletree version is ready, instead of byte(1) use the type indicator
 			claimcount++
 		}
 
-- 
2.43.0


From 653aafadacdf84ae8fbce3cee8ab7ca46be76ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:29 +0000
Subject: [PATCH 09/70] fix: give the keys of a StorageList their own memory

With spare capacity in the prefix slice the three prefixes overwrote each
other.
---
 db/storageutils.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/db/storageutils.go b/db/storageutils.go
index a1d131b..e0d9ada 100644
--- a/db/storageutils.go
+++ b/db/storageutils.go
@@ -44,9 +44,9 @@ type StorageList struct {
 // the dbPrefix in a Storage.
 func NewStorageList(dbPrefix []byte) *StorageList {
 	return &StorageList{
-		length:            NewStorageValue(append(dbPrefix, []byte("len")...)),
-		dbPrefixList:      append(dbPrefix, []byte("list:")...),
-		dbPrefixListByIdx: append(dbPrefix, []byte("byidx:")...),
+		length:            NewStorageValue(concat(dbPrefix, []byte("len"))),
+		dbPrefixList:      concat(dbPrefix, []byte("list:")),
+		dbPrefixListByIdx: concat(dbPrefix, []byte("byidx:")),
 	}
 }
 
-- 
2.43.0


From e68441f24a5eeb3ad6b3d5128faa90a190ced832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:10 +0000
Subject: [PATCH 10/70] fix: decode the position of the subject of a claim

The flag was decoded to 4, which is no position, so that decoding a claim
with the subject in its value panicked.
---
 core/claims/claim.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/claims/claim.go b/core/claims/claim.go
index e8628fa..ac48ccd 100644
--- a/core/claims/claim.go
+++ b/core/claims/claim.go
@@ -188,7 +188,7 @@ func (c *ClaimHeader) Unmarshal(e *merkletree.Entry) {
 	copy(c.Type[:], index[0][:ClaimTypeLen])
 	flags0 := index[0][ClaimTypeLen]
 	c.Subject = ClaimSubject(flags0 & 0b00000011)
-	c.SubjectPos = ClaimSubjectPos(flags0 & (1 << 2))
+	c.SubjectPos = ClaimSubjectPos((flags0 >> 2) & 1)
 	c.Expiration = byte2bool(flags0 & (1 << 3))
 	c.Version = byte2bool(flags0 & (1 << 4))
 }
-- 
2.43.0


From f53b4457ab02f89887b112acdbd4c394460bce1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:10 +0000
Subject: [PATCH 11/70] fix: refuse JSON claim metadata that lacks its subject

Using the decoded metadata panicked on the missing identifier.
---
 core/claims/claim.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/claims/claim.go b/core/claims/claim.go
index ac48ccd..2fbbe20 100644
--- a/core/claims/claim.go
+++ b/core/claims/claim.go
@@ -320,6 +320,9 @@ func (m *Metadata) UnmarshalJSON(b []byte) error {
 		return err
 	}
 	if m.header.Subject != ClaimSubjectSelf {
+		if metadata.ID == nil {
+			return fmt.Errorf("claim metadata with Subject %v has no ID", m.header.Subject)
+		}
 		m.Subject = metadata.ID
 	}
 	if m.header.Expiration {
-- 
2.43.0


From 37893a6e3fe2e6626b6ca111a315128895f66260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:11 +0000
Subject: [PATCH 12/70] fix: do not reuse the cached hashes of a generic claim
 after a change

Changing the metadata of a ClaimGeneric whose entry had been hashed left
the old hashes in place, and changed the entry it was made from.
---
 core/claims/utils.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/claims/utils.go b/core/claims/utils.go
index 757d865..740ebf4 100644
--- a/core/claims/utils.go
+++ b/core/claims/utils.go
@@ -19,8 +19,9 @@ func NewClaimGeneric(entry *merkletree.Entry) *ClaimGeneric {
 }
 
 func (c *ClaimGeneric) Entry() *merkletree.Entry {
-	c.metadata.Marshal(c.entry)
-	return c.entry
+	e := c.entry.Clone()
+	c.metadata.Marshal(e)
+	return e
 }
 
 func (c *ClaimGeneric) Metadata() *Metadata {
-- 
2.43.0


From 8757d87f32f101b0a9248b328f12c8de707aa9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:11 +0000
Subject: [PATCH 13/70] fix: keep the metadata of a claim decoded from hex

HexToClaimGeneric left the metadata empty, so that Entry() erased the
type, flags and nonce; claims of the wrong length were accepted.
---
 core/claims/utils.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/claims/utils.go b/core/claims/utils.go
index 740ebf4..c86499f 100644
--- a/core/claims/utils.go
+++ b/core/claims/utils.go
@@ -2,6 +2,7 @@ package claims
 
 import (
 	"encoding/hex"
+	"fmt"
 
 	common3 "github.com/iden3/go-iden3-core/common"
 	"github.com/iden3/go-iden3-core/merkletree"
@@ -34,15 +35,15 @@ func HexToClaimGeneric(h string) (ClaimGeneric, error) {
 		return ClaimGeneric{}, err
 	}
 	var dataBytes [merkletree.ElemBytesLen * merkletree.DataLen]byte
+	if len(bytesValue) != len(dataBytes) {
+		return ClaimGeneric{}, fmt.Errorf("claim of %v bytes instead of %v", len(bytesValue), len(dataBytes))
+	}
 	copy(dataBytes[:], bytesValue)
 	data := merkletree.NewDataFromBytes(dataBytes)
 	entry := merkletree.Entry{
 		Data: *data,
 	}
-	entrier := ClaimGeneric{
-		entry: &entry,
-	}
-	return entrier, nil
+	return *NewClaimGeneric(&entry), nil
 }
 
 func HexArrayToClaimGenericArray(arrH []string) ([]ClaimGeneric, error) {
-- 
2.43.0


From 29a277cd1f59af8827e76c91c53f642505d867a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:11 +0000
Subject: [PATCH 14/70] fix: forget the hashes of an entry when it is decoded
 again

---
 merkletree/merkletree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 1844c68..8236385 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -203,6 +203,7 @@ func (e Entry) MarshalText() ([]byte, error) {
 }
 
 func (e *Entry) UnmarshalText(text []byte) error {
+	e.hIndex, e.hValue = nil, nil
 	return e.Data.UnmarshalText(text)
 }
 
-- 
2.43.0


From 37f7ca1a066e9ffe36078d3e31d5eaf5a5208e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:11 +0000
Subject: [PATCH 15/70] fix: create an identity in one write

---
 identity/issuer/issuer.go | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index dd80a2d..45672d1 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -33,6 +33,7 @@ import (
 
 var (
 	ErrIdenGenesisOnly                    = fmt.Errorf("identity is genesis only")
+	ErrIdenAlreadyExists                  = fmt.Errorf("the storage already contains an identity")
 	ErrIdenPubOnChainNil                  = fmt.Errorf("idenPubOnChain is nil")
 	ErrIdenStateSNARKPathsNil             = fmt.Errorf("idenStateZkProofConf is nil")
 	ErrEthClientNil                       = fmt.Errorf("ethClient is nil")
@@ -247,8 +248,39 @@ func loadMTs(cfg *Config, storage db.Storage) (*merkletree.MerkleTree, *merkletr
 }
 
 // Create a new Issuer, creating a new genesis ID and initializes the
-// storages.  The extraGenesisClaims metadata's are updated.
+// storages.  The extraGenesisClaims metadata's are updated.  Everything is
+// written to the storage at once: when the creation fails or is interrupted,
+// it leaves nothing behind and can be repeated.
 func Create(cfg Config, kOpComp *babyjub.PublicKeyComp, extraGenesisClaims []claims.Claimer,
+	storage db.Storage, keyStore *keystore.KeyStore) (*core.ID, error) {
+	if _, err := storage.Get(dbKeyId); err == nil {
+		return nil, ErrIdenAlreadyExists
+	} else if err != db.ErrNotFound {
+		return nil, err
+	}
+	memStorage := db.NewMemoryStorage()
+	id, err := create(cfg, kOpComp, extraGenesisClaims, memStorage, keyStore)
+	if err != nil {
+		return nil, err
+	}
+	tx, err := storage.NewTx()
+	if err != nil {
+		return nil, err
+	}
+	if err := memStorage.Iterate(func(k, v []byte) (bool, error) {
+		tx.Put(k, v)
+		return true, nil
+	}); err != nil {
+		tx.Close()
+		return nil, err
+	}
+	if err := tx.Commit(); err != nil {
+		return nil, err
+	}
+	return id, nil
+}
+
+func create(cfg Config, kOpComp *babyjub.PublicKeyComp, extraGenesisClaims []claims.Claimer,
 	storage db.Storage, keyStore *keystore.KeyStore) (*core.ID, error) {
 	clt, ret, rot, err := loadMTs(&cfg, storage)
 	if err != nil {
-- 
2.43.0


From bb25c93ae5588aee41e813d1a73c8c4f905165f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:12 +0000
Subject: [PATCH 16/70] fix: do not alter a claim whose issuance fails

---
 identity/issuer/issuer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 45672d1..1186d3f 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -629,9 +629,11 @@ func (is *Issuer) IssueClaim(claim claims.Claimer) error {
 	if err := tx.Commit(); err != nil {
 		return err
 	}
+	oldNonce := claim.Metadata().RevNonce
 	claim.Metadata().RevNonce = nonce
 	err = is.claimsTree.AddClaim(claim)
 	if err != nil {
+		claim.Metadata().RevNonce = oldNonce
 		return err
 	}
 	return nil
-- 
2.43.0


From 7a26a6c1b3de641825d1da26da593a2eb92c615c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:12 +0000
Subject: [PATCH 17/70] fix: publish again after an interrupted publication

---
 identity/issuer/issuer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 1186d3f..13ef230 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -716,7 +716,10 @@ func (is *Issuer) PublishState() error {
 		// If the ClaimsTreeRoot has changed (claims have been added), add the
 		// ClaimsTreeRoot to the RootsTree.
 		if !idenStateTreeRoots.ClaimsTreeRoot.Equals(idenStateTreeRootsLast.ClaimsTreeRoot) {
-			if err := claims.AddLeafRootsTree(is.rootsTree, idenStateTreeRoots.ClaimsTreeRoot); err != nil {
+			// The ClaimsTreeRoot is already there when a previous
+			// attempt was interrupted after adding it.
+			if err := claims.AddLeafRootsTree(is.rootsTree, idenStateTreeRoots.ClaimsTreeRoot); err != nil &&
+				err != merkletree.ErrEntryIndexAlreadyExists {
 				return err
 			}
 			idenState, idenStateTreeRoots = is.state()
-- 
2.43.0


From 58bf99f62027507591a4c8215e7e9a9b53d478c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:12 +0000
Subject: [PATCH 18/70] fix: do not panic in PublishState when there is no
 transaction

---
 identity/issuer/issuer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 13ef230..f617247 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -694,10 +694,10 @@ func (is *Issuer) PublishState() error {
 	idenState, idenStateTreeRoots := is.state()
 
 	tx0, err := is.storage.NewTx() // Read only Tx
-	defer tx0.Close()
 	if err != nil {
 		return err
 	}
+	defer tx0.Close()
 	idenStateLast, idenStateTreeRootsLast, err := is.getIdenStateByIdx(tx0, -1)
 	if err != nil {
 		return err
-- 
2.43.0


From f9ebc29686456ae3acc76ba6989f749ae1e95626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:13 +0000
Subject: [PATCH 19/70] fix: update what an issuer knows only after the commit

---
 identity/issuer/issuer.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index f617247..8038078 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -134,8 +134,10 @@ type Issuer struct {
 
 func (is *Issuer) idenStateDataOnChain() *proof.IdenStateData { return is._idenStateDataOnChain }
 
+// The setters only write to the transaction.  The values in memory are updated
+// once the transaction has been committed.
+
 func (is *Issuer) setIdenStateDataOnChain(tx db.Tx, v *proof.IdenStateData) error {
-	is._idenStateDataOnChain = v
 	return db.StoreJSON(tx, dbKeyIdenStateDataOnChain, v)
 }
 
@@ -177,8 +179,6 @@ func bool2byte(v bool) byte {
 }
 
 func (is *Issuer) setIdenStatePending(tx db.Tx, v *merkletree.Hash, transacted bool) {
-	is._idenStatePending = v
-	is._idenStatePendingTransacted = transacted
 	tx.Put(dbKeyIdenStatePending, v[:])
 	tx.Put(dbKeyIdenStatePendingTransacted, []byte{bool2byte(transacted)})
 }
@@ -203,7 +203,6 @@ func (is *Issuer) loadIdenStatePending() error {
 func (is *Issuer) ethTxSetState() *types.Transaction { return is._ethTxSetState }
 
 func (is *Issuer) setEthTxSetState(tx db.Tx, v *types.Transaction) error {
-	is._ethTxSetState = v
 	return db.StoreJSON(tx, dbKeyEthTxSetState, v)
 }
 
@@ -215,7 +214,6 @@ func (is *Issuer) loadEthTxSetState() error {
 func (is *Issuer) ethTxInitState() *types.Transaction { return is._ethTxInitState }
 
 func (is *Issuer) setEthTxInitState(tx db.Tx, v *types.Transaction) error {
-	is._ethTxInitState = v
 	return db.StoreJSON(tx, dbKeyEthTxInitState, v)
 }
 
@@ -599,6 +597,8 @@ func (is *Issuer) SyncIdenStatePublic() error {
 		if err := tx.Commit(); err != nil {
 			return err
 		}
+		is._idenStatePending, is._idenStatePendingTransacted = &merkletree.HashZero, false
+		is._idenStateDataOnChain = idenStateData
 		return nil
 	}
 
@@ -739,6 +739,7 @@ func (is *Issuer) PublishState() error {
 		if err := tx.Commit(); err != nil {
 			return err
 		}
+		is._idenStatePending, is._idenStatePendingTransacted = idenState, false
 	} else {
 		idenStateLast, idenStateTreeRootsLast, err = is.getIdenStateByIdx(tx0, -2)
 		if err != nil {
@@ -758,6 +759,7 @@ func (is *Issuer) PublishState() error {
 		return err
 	}
 
+	ethTxInitState, ethTxSetState := is.ethTxInitState(), is.ethTxSetState()
 	if is.idenStateOnChain().Equals(&merkletree.HashZero) {
 		// Identity State not present in the Smart Contract. First time
 		// publishing it.
@@ -769,6 +771,7 @@ func (is *Issuer) PublishState() error {
 		if err := is.setEthTxInitState(tx, ethTx); err != nil {
 			return err
 		}
+		ethTxInitState = ethTx
 	} else {
 		// Identity State already present in the Smart Contract.
 		// Update it.
@@ -780,12 +783,15 @@ func (is *Issuer) PublishState() error {
 		if err := is.setEthTxSetState(tx, ethTx); err != nil {
 			return err
 		}
+		ethTxSetState = ethTx
 	}
 	is.setIdenStatePending(tx, idenState, true)
 
 	if err := tx.Commit(); err != nil {
 		return err
 	}
+	is._ethTxInitState, is._ethTxSetState = ethTxInitState, ethTxSetState
+	is._idenStatePending, is._idenStatePendingTransacted = idenState, true
 
 	publicData := idenpuboffchain.PublicData{
 		IdenState:           idenState,
-- 
2.43.0


From 9643b0a13d3847b2ccd9dea5ba6426be76f31110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:13 +0000
Subject: [PATCH 20/70] fix: resume the publication of the pending state itself

---
 identity/issuer/issuer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 8038078..2f2d95c 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -741,7 +741,10 @@ func (is *Issuer) PublishState() error {
 		}
 		is._idenStatePending, is._idenStatePendingTransacted = idenState, false
 	} else {
-		idenStateLast, idenStateTreeRootsLast, err = is.getIdenStateByIdx(tx0, -2)
+		// Resume the publication of the pending state, which is the
+		// last one in the list, no matter what has changed since then.
+		idenState, idenStateTreeRoots = idenStateLast, *idenStateTreeRootsLast
+		idenStateLast, _, err = is.getIdenStateByIdx(tx0, -2)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From d60468ee2b4788159045fcd3c7006407e39c1d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:13 +0000
Subject: [PATCH 21/70] fix: publish the public data before the state can get
 on chain

---
 identity/issuer/issuer.go | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 2f2d95c..2e2b681 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -757,6 +757,21 @@ func (is *Issuer) PublishState() error {
 		return err
 	}
 
+	publicData := idenpuboffchain.PublicData{
+		IdenState:           idenState,
+		ClaimsTreeRoot:      idenStateTreeRoots.ClaimsTreeRoot,
+		RevocationsTreeRoot: idenStateTreeRoots.RevocationsTreeRoot,
+		RevocationsTree:     is.revocationsTree,
+		RootsTreeRoot:       idenStateTreeRoots.RootsTreeRoot,
+		RootsTree:           is.rootsTree,
+	}
+
+	// Publish the Public Off Chain identity data before the state can get on
+	// chain, so that it's always available for a state on chain.
+	if err := is.idenPubOffChainWriter.Publish(is.id, &publicData); err != nil {
+		return err
+	}
+
 	tx, err := is.storage.NewTx()
 	if err != nil {
 		return err
@@ -796,19 +811,6 @@ func (is *Issuer) PublishState() error {
 	is._ethTxInitState, is._ethTxSetState = ethTxInitState, ethTxSetState
 	is._idenStatePending, is._idenStatePendingTransacted = idenState, true
 
-	publicData := idenpuboffchain.PublicData{
-		IdenState:           idenState,
-		ClaimsTreeRoot:      idenStateTreeRoots.ClaimsTreeRoot,
-		RevocationsTreeRoot: idenStateTreeRoots.RevocationsTreeRoot,
-		RevocationsTree:     is.revocationsTree,
-		RootsTreeRoot:       idenStateTreeRoots.RootsTreeRoot,
-		RootsTree:           is.rootsTree,
-	}
-
-	// finally, Publish the Public Off Chain identity data
-	if err := is.idenPubOffChainWriter.Publish(is.id, &publicData); err != nil {
-		return err
-	}
 	return nil
 }
 
-- 
2.43.0


From 7095476e335baf3dbf215bdfd8306baf3b5e8b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:14 +0000
Subject: [PATCH 22/70] fix: publish again a state whose transaction was
 rejected

---
 identity/issuer/issuer.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 2e2b681..21364a3 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -538,15 +538,30 @@ func (is *Issuer) SyncIdenStatePublic() error {
 		confirmBlocks, err := is.idenPubOnChain.TxConfirmBlocks(ethTx)
 		if err == eth.ErrReceiptNotReceived {
 			return nil
+		} else if err == eth.ErrReceiptStatusFailed {
+			// The transaction was rejected by the Smart Contract:
+			// go back to (B), so that the pending state can be
+			// published again.
+			tx, err := is.storage.NewTx()
+			if err != nil {
+				return err
+			}
+			is.setIdenStatePending(tx, idenStatePending, false)
+			if err := tx.Commit(); err != nil {
+				return err
+			}
+			is._idenStatePendingTransacted = false
+			transacted = false
 		} else if err != nil {
 			return fmt.Errorf("TxConfirmBlocks: %w", err)
-		}
-		log.WithField("tx", ethTx.Hash().Hex()).
-			WithField("TxConfirmBlocks", confirmBlocks).
-			WithField("cfg.ConfirmBlocks", is.cfg.ConfirmBlocks).
-			Debug("State Update Tx")
-		if confirmBlocks.Cmp(new(big.Int).SetUint64(is.cfg.ConfirmBlocks)) == -1 {
-			return nil
+		} else {
+			log.WithField("tx", ethTx.Hash().Hex()).
+				WithField("TxConfirmBlocks", confirmBlocks).
+				WithField("cfg.ConfirmBlocks", is.cfg.ConfirmBlocks).
+				Debug("State Update Tx")
+			if confirmBlocks.Cmp(new(big.Int).SetUint64(is.cfg.ConfirmBlocks)) == -1 {
+				return nil
+			}
 		}
 	}
 
@@ -676,6 +691,7 @@ func (is *Issuer) getIdenStateTreeRoots(tx db.Tx, idenState *merkletree.Hash) (*
 // idenStatePending state graph:
 // -> (A)(idenStatePending: 0, transacted: false) -> (B)(idenStatePending: X, transacted: false)
 //                     ^\ (C)(idenStatePending: X, transacted: true) </
+// From (C) back to (B) when the transaction is rejected by the Smart Contract.
 
 // PublishState calculates the current Issuer identity state, and if it's
 // different than the last one, it publishes in in the blockchain.
-- 
2.43.0


From 7cb08681d6ff85f587352e116bcfba28e5c05c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:14 +0000
Subject: [PATCH 23/70] fix: keep the published trees as they were published

---
 components/idenpuboffchain/local/local.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/components/idenpuboffchain/local/local.go b/components/idenpuboffchain/local/local.go
index 7bc7801..02ee268 100644
--- a/components/idenpuboffchain/local/local.go
+++ b/components/idenpuboffchain/local/local.go
@@ -52,6 +52,16 @@ func (ip *IdenPubOffChain) Url() string {
 }
 
 func (ip *IdenPubOffChain) Publish(id *core.ID, publicData *idenpuboffchain.PublicData) error {
+	// The trees of the identity keep growing after the publication, so take
+	// snapshots of them.
+	data := *publicData
+	var err error
+	if data.RevocationsTree, err = publicData.RevocationsTree.Snapshot(publicData.RevocationsTreeRoot); err != nil {
+		return err
+	}
+	if data.RootsTree, err = publicData.RootsTree.Snapshot(publicData.RootsTreeRoot); err != nil {
+		return err
+	}
 	ip.rw.Lock()
 	defer ip.rw.Unlock()
 	iden, ok := ip.idens[*id]
@@ -62,7 +72,7 @@ func (ip *IdenPubOffChain) Publish(id *core.ID, publicData *idenpuboffchain.Publ
 		}
 		ip.idens[*id] = iden
 	}
-	iden.datas[*publicData.IdenState] = publicData
+	iden.datas[*publicData.IdenState] = &data
 	iden.last = publicData.IdenState
 	return nil
 }
-- 
2.43.0


From e38e80cb062418263eb576d60fc6a6252b4b9365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:14 +0000
Subject: [PATCH 24/70] fix: return a usable transaction from SetState of the
 local chain

---
 components/idenpubonchain/local/local.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/components/idenpubonchain/local/local.go b/components/idenpubonchain/local/local.go
index 2500d85..34bbafc 100644
--- a/components/idenpubonchain/local/local.go
+++ b/components/idenpubonchain/local/local.go
@@ -145,7 +145,7 @@ func (ip *IdenPubOnChain) SetState(id *core.ID, newState *merkletree.Hash,
 		IdenState: newState,
 	}
 	ip.pendingSet = append(ip.pendingSet, &IdIdenStateData{Id: id, IdenStateData: &idenState})
-	return &types.Transaction{}, nil
+	return ip.newTx(idenState.BlockN), nil
 }
 
 // InitState initializes the first Identity State of the given ID in the IdenStates Smart Contract.
@@ -167,8 +167,13 @@ func (ip *IdenPubOnChain) InitState(id *core.ID, genesisState,
 		IdenState: newState,
 	}
 	ip.pendingInit = append(ip.pendingInit, &IdIdenStateData{Id: id, IdenStateData: &idenState})
+	return ip.newTx(ip.blockNow()), nil
+}
+
+// newTx returns a transaction sent at blockN.
+func (ip *IdenPubOnChain) newTx(blockN uint64) *types.Transaction {
 	return types.NewTransaction(0, common.Address{}, nil, 0, nil,
-		new(big.Int).SetUint64(ip.blockNow()).Bytes()), nil
+		new(big.Int).SetUint64(blockN).Bytes())
 }
 
 // TxConfirmBlocks returns the number of confirmed blocks of transaction tx.
-- 
2.43.0


From b6800b9d989f90d3062965cd229f13f5a92aa4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:19 +0000
Subject: [PATCH 25/70] fix: reject incomplete credentials and invalid roots
 without a panic

---
 components/verifier/verifier.go | 19 +++++++++++++++++--
 core/id.go                      | 22 +++++++++++++++++++---
 2 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/components/verifier/verifier.go b/components/verifier/verifier.go
index f947ed2..16a22e8 100644
--- a/components/verifier/verifier.go
+++ b/components/verifier/verifier.go
@@ -22,6 +22,7 @@ var (
 	ErrMtpExistence                   = fmt.Errorf("The Merkle Tree Proof is of existence")
 	ErrCalculatedIdenStateDoesntMatch = fmt.Errorf("Calculated IdenState doesn't match the one in the credential")
 	ErrClaimExpired                   = fmt.Errorf("Expired claim")
+	ErrIncompleteCredential           = fmt.Errorf("The credential is incomplete")
 	ErrFailedVerifyZkProofCredential  = fmt.Errorf("failed verifing generated zk proof of credential")
 )
 
@@ -56,6 +57,10 @@ func NewWithTimeNow(idenPubOnChain idenpubonchain.IdenPubOnChainer, timeNow func
 // VerifyCredentialExistence verifies a credential of existence.  That is, that
 // the claim was issued by a particular identity.
 func (v *Verifier) VerifyCredentialExistence(credExist *proof.CredentialExistence) error {
+	if credExist.Id == nil || credExist.IdenStateData.IdenState == nil ||
+		credExist.MtpClaim == nil || credExist.Claim == nil {
+		return ErrIncompleteCredential
+	}
 	if !credExist.MtpClaim.Existence {
 		return ErrMtpNonExistence
 	}
@@ -69,7 +74,10 @@ func (v *Verifier) VerifyCredentialExistence(credExist *proof.CredentialExistenc
 	if err != nil {
 		return err
 	}
-	idenState := core.IdenState(claimsRoot, credExist.RevocationsTreeRoot, credExist.RootsTreeRoot)
+	idenState, err := core.IdenStateFromRoots(claimsRoot, credExist.RevocationsTreeRoot, credExist.RootsTreeRoot)
+	if err != nil {
+		return err
+	}
 	if !idenState.Equals(credExist.IdenStateData.IdenState) {
 		return ErrCalculatedIdenStateDoesntMatch
 	}
@@ -115,6 +123,10 @@ func (v *Verifier) validateFreshness(id *core.ID, idenState *merkletree.Hash, bl
 // the claim was issued by a particular identity, and that it has not been
 // revoked passed the freshness time.
 func (v *Verifier) VerifyCredentialValidity(credValid *proof.CredentialValidity, freshness time.Duration) error {
+	if credValid.CredentialExistence.Claim == nil || credValid.IdenStateData.IdenState == nil ||
+		credValid.MtpNotNonce == nil {
+		return ErrIncompleteCredential
+	}
 	// If the claim has an expiration date, check that it hasn't expired.
 	var metadata claims.Metadata
 	metadata.Unmarshal(credValid.CredentialExistence.Claim)
@@ -149,7 +161,10 @@ func (v *Verifier) VerifyCredentialValidity(credValid *proof.CredentialValidity,
 	if err != nil {
 		return err
 	}
-	idenState := core.IdenState(credValid.ClaimsTreeRoot, revocationsTreeRoot, credValid.RootsTreeRoot)
+	idenState, err := core.IdenStateFromRoots(credValid.ClaimsTreeRoot, revocationsTreeRoot, credValid.RootsTreeRoot)
+	if err != nil {
+		return err
+	}
 	if !idenState.Equals(credValid.IdenStateData.IdenState) {
 		return ErrCalculatedIdenStateDoesntMatch
 	}
diff --git a/core/id.go b/core/id.go
index d8968e5..19e8000 100644
--- a/core/id.go
+++ b/core/id.go
@@ -3,6 +3,7 @@ package core
 import (
 	"bytes"
 	"errors"
+	"fmt"
 	"math/big"
 
 	"github.com/btcsuite/btcutil/base58"
@@ -153,16 +154,31 @@ func IdGenesisFromIdenState(hash *merkletree.Hash) *ID {
 }
 
 // IdenState calculates the Identity State from the Claims Tree Root, Revocation Tree Root and Roots Tree Root.
+// It panics if the roots are not valid; for roots that come from outside use IdenStateFromRoots.
 func IdenState(clr *merkletree.Hash, rer *merkletree.Hash, ror *merkletree.Hash) *merkletree.Hash {
+	idenState, err := IdenStateFromRoots(clr, rer, ror)
+	if err != nil {
+		panic(err)
+	}
+	return idenState
+}
+
+// IdenStateFromRoots calculates the Identity State from the Claims Tree Root,
+// Revocation Tree Root and Roots Tree Root, or returns an error if any of them
+// is missing or is not in the field.
+func IdenStateFromRoots(clr *merkletree.Hash, rer *merkletree.Hash, ror *merkletree.Hash) (*merkletree.Hash, error) {
+	if clr == nil || rer == nil || ror == nil {
+		return nil, fmt.Errorf("missing tree root")
+	}
 	bi, err := merkletree.ElemBytesToPoseidonInput(merkletree.ElemBytes(*clr),
 		merkletree.ElemBytes(*rer),
 		merkletree.ElemBytes(*ror))
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
 	idenState, err := poseidon.PoseidonHash(bi)
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
-	return merkletree.NewHashFromBigInt(idenState)
+	return merkletree.NewHashFromBigInt(idenState), nil
 }
-- 
2.43.0


From af09be3e724758c57e418dd6e05cb0843d209aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:19 +0000
Subject: [PATCH 26/70] fix: reject public data with invalid roots without a
 panic

---
 components/idenpuboffchain/idenpuboffchain.go | 5 ++++-
 identity/holder/holder.go                     | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/components/idenpuboffchain/idenpuboffchain.go b/components/idenpuboffchain/idenpuboffchain.go
index b0a9f2d..a02d18f 100644
--- a/components/idenpuboffchain/idenpuboffchain.go
+++ b/components/idenpuboffchain/idenpuboffchain.go
@@ -72,8 +72,11 @@ func NewPublicDataFromBlobs(publicDataBlobs *PublicDataBlobs) (*PublicData, erro
 		return nil, fmt.Errorf("Imported roots tree root (%v) doesn't match the expected root (%v)",
 			rootsTree.RootKey(), publicDataBlobs.RootsTreeRoot)
 	}
-	idenState := core.IdenState(&publicDataBlobs.ClaimsTreeRoot,
+	idenState, err := core.IdenStateFromRoots(&publicDataBlobs.ClaimsTreeRoot,
 		&publicDataBlobs.RevocationsTreeRoot, &publicDataBlobs.RootsTreeRoot)
+	if err != nil {
+		return nil, err
+	}
 	if !idenState.Equals(&publicDataBlobs.IdenState) {
 		return nil, ErrCalculatedIdenStateDoesntMatch
 	}
diff --git a/identity/holder/holder.go b/identity/holder/holder.go
index 5687ce6..c9c32bb 100644
--- a/identity/holder/holder.go
+++ b/identity/holder/holder.go
@@ -104,8 +104,11 @@ func (h *Holder) HolderGetCredentialValidityData(
 	}
 
 	// Verify that the returned public data is consistent with the queried IdenState
-	idenState := core.IdenState(publicData.ClaimsTreeRoot, publicData.RevocationsTree.RootKey(),
+	idenState, err := core.IdenStateFromRoots(publicData.ClaimsTreeRoot, publicData.RevocationsTree.RootKey(),
 		publicData.RootsTree.RootKey())
+	if err != nil {
+		return nil, err
+	}
 	if !idenState.Equals(idenStateData.IdenState) {
 		return nil, ErrCalculatedIdenStateDoesntMatch
 	}
-- 
2.43.0


From ff7f6d879c1e8e7c59aba14b81f1155c7d7d3dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:24 +0000
Subject: [PATCH 27/70] fix: reject incomplete merkle proofs without a panic

---
 merkletree/merkletree.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 8236385..527e233 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -112,6 +112,8 @@ var (
 	ErrInvalidNodeFound = errors.New("found an invalid node in the DB")
 	// ErrInvalidProofBytes is used when a serialized proof is invalid.
 	ErrInvalidProofBytes = errors.New("the serialized proof is invalid")
+	// ErrIncompleteProof is used when a part of a proof is missing.
+	ErrIncompleteProof = errors.New("the proof is incomplete")
 	// ErrInvalidDBValue is used when a value in the key value DB is
 	// invalid (for example, it doen't contain a byte header and a []byte
 	// body of at least len=1.
@@ -1024,6 +1026,9 @@ func RootFromProof(proof *Proof, hIndex, hValue *Hash) (*Hash, error) {
 		if proof.NodeAux == nil {
 			midKey = &HashZero
 		} else {
+			if proof.NodeAux.HIndex == nil || proof.NodeAux.HValue == nil {
+				return nil, ErrIncompleteProof
+			}
 			if bytes.Equal(hIndex[:], proof.NodeAux.HIndex[:]) {
 				return nil, fmt.Errorf("Non-existence proof being checked against hIndex equal to nodeAux")
 			}
@@ -1037,6 +1042,9 @@ func RootFromProof(proof *Proof, hIndex, hValue *Hash) (*Hash, error) {
 	var siblingKey *Hash
 	for lvl := int(proof.depth) - 1; lvl >= 0; lvl-- {
 		if common.TestBitBigEndian(proof.notempties[:], uint(lvl)) {
+			if sibIdx < 0 || proof.Siblings[sibIdx] == nil {
+				return nil, ErrIncompleteProof
+			}
 			siblingKey = proof.Siblings[sibIdx]
 			sibIdx--
 		} else {
-- 
2.43.0


From 69528aa258be09f2178c4ca669593cc911f12672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 28/70] fix: serve the latest state with every cache length

---
 components/idenpuboffchain/writerhttp/writerhttp.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/components/idenpuboffchain/writerhttp/writerhttp.go b/components/idenpuboffchain/writerhttp/writerhttp.go
index 2807ca9..5dd734e 100644
--- a/components/idenpuboffchain/writerhttp/writerhttp.go
+++ b/components/idenpuboffchain/writerhttp/writerhttp.go
@@ -134,7 +134,8 @@ func (i *IdenPubOffChainWriteHttp) prevCacheIdx(tx db.Tx) (byte, error) {
 	if err != nil {
 		return 0, err
 	}
-	return (cacheIdx[0] - 1) % i.cfg.CacheLen, nil
+	// not cacheIdx[0]-1, which wraps around at 256
+	return byte((int(cacheIdx[0]) + int(i.cfg.CacheLen) - 1) % int(i.cfg.CacheLen)), nil
 }
 
 // nextCacheIdx returns the current cacheIdx and stores the next one.
-- 
2.43.0


From 1ce306bc6417cd29f99216ceaf41824909c33b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 29/70] fix: report an unknown state as not found before the
 cache is full

---
 components/idenpuboffchain/writerhttp/writerhttp.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/components/idenpuboffchain/writerhttp/writerhttp.go b/components/idenpuboffchain/writerhttp/writerhttp.go
index 5dd734e..7211c22 100644
--- a/components/idenpuboffchain/writerhttp/writerhttp.go
+++ b/components/idenpuboffchain/writerhttp/writerhttp.go
@@ -186,7 +186,10 @@ func (i *IdenPubOffChainWriteHttp) GetPublicData(queryIdenState *merkletree.Hash
 		for ; cacheIdx < i.cfg.CacheLen; cacheIdx++ {
 			// idenState
 			idenState, err := tx.Get(keyIdx(dbKeyIdenState, cacheIdx))
-			if err != nil {
+			if err == db.ErrNotFound {
+				// the cache is not full yet
+				return nil, ErrIdenStateNotFound
+			} else if err != nil {
 				return nil, err
 			}
 			if bytes.Equal(queryIdenState[:], idenState) {
-- 
2.43.0


From 58cdec4b2238100f5a9b44682d168fd4977218b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 30/70] fix: a state published again takes no other place in
 the cache

---
 components/idenpuboffchain/writerhttp/writerhttp.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/components/idenpuboffchain/writerhttp/writerhttp.go b/components/idenpuboffchain/writerhttp/writerhttp.go
index 7211c22..e17077b 100644
--- a/components/idenpuboffchain/writerhttp/writerhttp.go
+++ b/components/idenpuboffchain/writerhttp/writerhttp.go
@@ -110,10 +110,21 @@ func (i *IdenPubOffChainWriteHttp) Publish(id *core.ID, publicData *idenpuboffch
 	i.rw.Lock()
 	defer i.rw.Unlock()
 
-	cacheIdx, err := i.nextCacheIdx(tx)
+	// A state that is published again must not take the place of another one.
+	cacheIdx, err := i.prevCacheIdx(tx)
 	if err != nil {
 		return err
 	}
+	lastIdenState, err := tx.Get(keyIdx(dbKeyIdenState, cacheIdx))
+	if err != nil && err != db.ErrNotFound {
+		return err
+	}
+	if err == db.ErrNotFound || !bytes.Equal(lastIdenState, publicData.IdenState[:]) {
+		cacheIdx, err = i.nextCacheIdx(tx)
+		if err != nil {
+			return err
+		}
+	}
 
 	tx.Put(keyIdx(dbKeyIdenState, cacheIdx), publicData.IdenState[:])
 	tx.Put(keyIdx(dbKeyClaimsRoot, cacheIdx), publicData.ClaimsTreeRoot[:])
-- 
2.43.0


From 5910454b8e9efc6f4ae81a34a3579338acc46444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 31/70] fix: refuse a cache without room

---
 components/idenpuboffchain/writerhttp/writerhttp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/components/idenpuboffchain/writerhttp/writerhttp.go b/components/idenpuboffchain/writerhttp/writerhttp.go
index e17077b..9f6929a 100644
--- a/components/idenpuboffchain/writerhttp/writerhttp.go
+++ b/components/idenpuboffchain/writerhttp/writerhttp.go
@@ -12,6 +12,7 @@ import (
 )
 
 var (
+	ErrInvalidCacheLen   = fmt.Errorf("the cache must have room for at least one identity state")
 	ErrIdenStateNotFound = fmt.Errorf("identity state not found in the cache")
 )
 
@@ -44,6 +45,9 @@ type IdenPubOffChainWriteHttp struct {
 
 // NewIdenPubOffChainWriteHttp returns a new IdenPubOffChainWriteHttp
 func NewIdenPubOffChainWriteHttp(cfg *Config, storage db.Storage) (*IdenPubOffChainWriteHttp, error) {
+	if cfg.CacheLen == 0 {
+		return nil, ErrInvalidCacheLen
+	}
 	i := IdenPubOffChainWriteHttp{
 		rw:      &sync.RWMutex{},
 		storage: storage,
-- 
2.43.0


From 74fbc905009c73fea50f09ee1097295a36badb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 32/70] fix: reject public data of another state than the
 requested one

---
 components/idenpuboffchain/readerhttp/readerhttp.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/components/idenpuboffchain/readerhttp/readerhttp.go b/components/idenpuboffchain/readerhttp/readerhttp.go
index f95637e..de7167b 100644
--- a/components/idenpuboffchain/readerhttp/readerhttp.go
+++ b/components/idenpuboffchain/readerhttp/readerhttp.go
@@ -9,6 +9,10 @@ import (
 	"github.com/iden3/go-iden3-core/merkletree"
 )
 
+var (
+	ErrUnexpectedIdenState = fmt.Errorf("the public data received is not of the requested identity state")
+)
+
 // IdenPubOffChainReadHttp satisfies the IdenPubOffChainRead interface, and reads the off chain public state of an identity from a IdenPubOffChainWriteHttp.
 type IdenPubOffChainReadHttp struct {
 }
@@ -37,5 +41,8 @@ func (i *IdenPubOffChainReadHttp) GetPublicData(idenPubUrl string, id *core.ID,
 	if err != nil {
 		return nil, err
 	}
+	if idenState != nil && !publicData.IdenState.Equals(idenState) {
+		return nil, ErrUnexpectedIdenState
+	}
 	return publicData, nil
 }
-- 
2.43.0


From 56697e3dc5f5000954f4f46c218dd34000d94654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 33/70] fix: reject public data with wrong or missing tree
 nodes

---
 components/idenpuboffchain/idenpuboffchain.go | 30 +++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/components/idenpuboffchain/idenpuboffchain.go b/components/idenpuboffchain/idenpuboffchain.go
index a02d18f..4c0a969 100644
--- a/components/idenpuboffchain/idenpuboffchain.go
+++ b/components/idenpuboffchain/idenpuboffchain.go
@@ -10,6 +10,7 @@ import (
 )
 
 var (
+	ErrInvalidTreeNode                = fmt.Errorf("Imported tree contains a node that doesn't match its key")
 	ErrCalculatedIdenStateDoesntMatch = fmt.Errorf("Calculated IdenState doesn't match the one in PublicDataBlobs")
 )
 
@@ -44,6 +45,29 @@ type PublicData struct {
 	RootsTree           *merkletree.MerkleTree
 }
 
+// checkNodes checks that the nodes of an imported tree, which come from an
+// untrusted source, are complete and hash to the key they are stored under.
+func checkNodes(tree *merkletree.MerkleTree, key *merkletree.Hash) error {
+	n, err := tree.GetNode(key)
+	if err != nil {
+		return err
+	}
+	nodeKey, err := n.Key()
+	if err != nil {
+		return err
+	}
+	if !nodeKey.Equals(key) {
+		return ErrInvalidTreeNode
+	}
+	if n.Type != merkletree.NodeTypeMiddle {
+		return nil
+	}
+	if err := checkNodes(tree, n.ChildL); err != nil {
+		return err
+	}
+	return checkNodes(tree, n.ChildR)
+}
+
 // NewPublicDataFromBlobs builds the revocation tree and the roots tree in
 // memory storage.  It also checks the validity of the tree roots against the
 // identity state.
@@ -64,6 +88,9 @@ func NewPublicDataFromBlobs(publicDataBlobs *PublicDataBlobs) (*PublicData, erro
 		return nil, fmt.Errorf("Imported revocations tree root (%v) doesn't match the expected root (%v)",
 			revocationsTree.RootKey(), publicDataBlobs.RevocationsTreeRoot)
 	}
+	if err = checkNodes(revocationsTree, revocationsTree.RootKey()); err != nil {
+		return nil, err
+	}
 
 	if err = rootsTree.ImportTree(bytes.NewReader(publicDataBlobs.RootsTree)); err != nil {
 		return nil, err
@@ -72,6 +99,9 @@ func NewPublicDataFromBlobs(publicDataBlobs *PublicDataBlobs) (*PublicData, erro
 		return nil, fmt.Errorf("Imported roots tree root (%v) doesn't match the expected root (%v)",
 			rootsTree.RootKey(), publicDataBlobs.RootsTreeRoot)
 	}
+	if err = checkNodes(rootsTree, rootsTree.RootKey()); err != nil {
+		return nil, err
+	}
 	idenState, err := core.IdenStateFromRoots(&publicDataBlobs.ClaimsTreeRoot,
 		&publicDataBlobs.RevocationsTreeRoot, &publicDataBlobs.RootsTreeRoot)
 	if err != nil {
-- 
2.43.0


From b65a77a6001b0bc7655d4f0e30bf60b602cdfb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 34/70] fix: an old entry of a consumed nonce does not delete
 the nonce added again

---
 utils/noncedb/nonce_db.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/noncedb/nonce_db.go b/utils/noncedb/nonce_db.go
index 06e29e2..7f99301 100644
--- a/utils/noncedb/nonce_db.go
+++ b/utils/noncedb/nonce_db.go
@@ -186,7 +186,10 @@ func (ndb *NonceDb) DeleteOld() {
 		}
 		if nObj.Expiration < now {
 			ndb.noncesHeap.Pop()
-			delete(ndb.nonceObjsByNonce, nObj.Nonce)
+			// The nonce may have been consumed and added again since.
+			if ndb.nonceObjsByNonce[nObj.Nonce] == nObj {
+				delete(ndb.nonceObjsByNonce, nObj.Nonce)
+			}
 		} else {
 			break
 		}
-- 
2.43.0


From 9d7cc21c2c985fb7794f669889a0c576d6035c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:40 +0000
Subject: [PATCH 35/70] fix: a key store file has one owner: the lock file is
 kept and the lock is not shared

---
 keystore/keystore.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 04ead5f..d80935f 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -184,17 +184,19 @@ func (fs *FileStorage) Write(data []byte) error {
 func (fs *FileStorage) TryLock() (bool, error) {
 	fs.rw.Lock()
 	defer fs.rw.Unlock()
+	if fs.lock.Locked() {
+		// Already owned through this same storage.
+		return false, nil
+	}
 	return fs.lock.TryLock()
 }
 
-// Unlocks the storage file and removes the .lock file.
+// Unlocks the storage file.  The .lock file is kept: another owner may already
+// have it open, and a new file would be a different lock.
 func (fs *FileStorage) Unlock() error {
 	fs.rw.Lock()
 	defer fs.rw.Unlock()
-	if err := fs.lock.Unlock(); err != nil {
-		return err
-	}
-	return os.Remove(fs.path + ".lock")
+	return fs.lock.Unlock()
 }
 
 // MemStorage is a storage backed by a slice.
-- 
2.43.0


From 26a35768a3c68d8361b302c66346f7b25bc6417a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:40 +0000
Subject: [PATCH 36/70] fix: a failed or interrupted write keeps the keys
 stored before

---
 keystore/keystore.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index d80935f..475e7c0 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -170,14 +170,36 @@ func (fs *FileStorage) Read() ([]byte, error) {
 	return ioutil.ReadFile(fs.path)
 }
 
-// Write writes the data to the file.
+// Write replaces the contents of the file with the data.  When it fails the
+// file is left as it was.
 func (fs *FileStorage) Write(data []byte) error {
 	fs.rw.Lock()
 	defer fs.rw.Unlock()
 	if !fs.lock.Locked() {
 		return ErrStorageUnlocked
 	}
-	return ioutil.WriteFile(fs.path, data, 0600)
+	tmpPath := fs.path + ".tmp"
+	if err := writeFileSync(tmpPath, data, 0600); err != nil {
+		os.Remove(tmpPath) //nolint:errcheck
+		return err
+	}
+	return os.Rename(tmpPath, fs.path)
+}
+
+func writeFileSync(path string, data []byte, perm os.FileMode) error {
+	f, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
+	if err != nil {
+		return err
+	}
+	if _, err := f.Write(data); err != nil {
+		f.Close() //nolint:errcheck
+		return err
+	}
+	if err := f.Sync(); err != nil {
+		f.Close() //nolint:errcheck
+		return err
+	}
+	return f.Close()
 }
 
 // TryLocks the storage file with a .lock file.
-- 
2.43.0


From d175277f43112aa8056070af85dfa9ff4ac0e24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:40 +0000
Subject: [PATCH 37/70] fix: a key whose storage failed is not kept by the key
 store

---
 keystore/keystore.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 475e7c0..d210e5e 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -323,14 +323,19 @@ func (ks *KeyStore) ImportKey(sk babyjub.PrivateKey, pass []byte) (*babyjub.Publ
 	}
 	pk := sk.Public()
 	pubComp := pk.Compress()
-	ks.encryptedKeys[pubComp] = *encryptedKey
-	encryptedKeysJSON, err := json.Marshal(ks.encryptedKeys)
+	encryptedKeys := make(KeysStored, len(ks.encryptedKeys)+1)
+	for pk, encKey := range ks.encryptedKeys {
+		encryptedKeys[pk] = encKey
+	}
+	encryptedKeys[pubComp] = *encryptedKey
+	encryptedKeysJSON, err := json.Marshal(encryptedKeys)
 	if err != nil {
 		return nil, err
 	}
 	if err := ks.storage.Write(encryptedKeysJSON); err != nil {
 		return nil, err
 	}
+	ks.encryptedKeys = encryptedKeys
 	return &pubComp, nil
 }
 
-- 
2.43.0


From 2c6762daaa80d1d6c8adf2f9e1eb0b13ff7b1b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:40 +0000
Subject: [PATCH 38/70] fix: a closed key store keeps no unlocked key and no
 longer touches the storage

---
 keystore/keystore.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index d210e5e..3686d8c 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -52,6 +52,7 @@ var (
 	ErrKeyNotInCache   = fmt.Errorf("public key not found in the cache.  Maybe it's not unlocked")
 	ErrKeyNotFound     = fmt.Errorf("public key not found in the key store")
 	ErrInvalidEncData  = fmt.Errorf("invalid encrypted data")
+	ErrKeyStoreClosed  = fmt.Errorf("key store is closed")
 )
 
 // prefixes for msg to be signed
@@ -247,6 +248,7 @@ type KeyStore struct {
 	params        KeyStoreParams
 	encryptedKeys KeysStored
 	cache         map[babyjub.PublicKeyComp]*babyjub.PrivateKey
+	closed        bool
 	rw            sync.RWMutex
 }
 
@@ -288,10 +290,19 @@ func NewKeyStore(storage Storage, params KeyStoreParams) (*KeyStore, error) {
 	return ks, nil
 }
 
+// Close clears the secret keys in the cache and unlocks the storage.  Closing
+// again has no effect: the storage may already belong to another key store.
 func (ks *KeyStore) Close() error {
+	ks.rw.Lock()
+	defer ks.rw.Unlock()
+	if ks.closed {
+		return nil
+	}
+	ks.closed = true
 	zero := [32]byte{}
-	for _, sk := range ks.cache {
+	for pk, sk := range ks.cache {
 		copy(sk[:], zero[:])
+		delete(ks.cache, pk)
 	}
 	return ks.storage.Unlock()
 }
@@ -317,6 +328,9 @@ func (ks *KeyStore) NewKey(pass []byte) (*babyjub.PublicKeyComp, error) {
 func (ks *KeyStore) ImportKey(sk babyjub.PrivateKey, pass []byte) (*babyjub.PublicKeyComp, error) {
 	ks.rw.Lock()
 	defer ks.rw.Unlock()
+	if ks.closed {
+		return nil, ErrKeyStoreClosed
+	}
 	encryptedKey, err := EncryptData(sk[:], pass, ks.params.ScryptN, ks.params.ScryptP)
 	if err != nil {
 		return nil, err
@@ -354,6 +368,9 @@ func (ks *KeyStore) ExportKey(pk *babyjub.PublicKeyComp) (*babyjub.PrivateKey, e
 func (ks *KeyStore) UnlockKey(pk *babyjub.PublicKeyComp, pass []byte) error {
 	ks.rw.Lock()
 	defer ks.rw.Unlock()
+	if ks.closed {
+		return ErrKeyStoreClosed
+	}
 	encryptedKey, ok := ks.encryptedKeys[*pk]
 	if !ok {
 		return ErrKeyNotFound
-- 
2.43.0


From 5bab4da3f18b728a696bcdec4948c1c50c6bfbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:40 +0000
Subject: [PATCH 39/70] fix: a key store file holding null does not crash the
 first key creation

---
 keystore/keystore.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 3686d8c..755f053 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -275,6 +275,9 @@ func NewKeyStore(storage Storage, params KeyStoreParams) (*KeyStore, error) {
 			storage.Unlock() //nolint:errcheck
 			return nil, err
 		}
+		if encryptedKeys == nil { // the JSON null
+			encryptedKeys = make(map[babyjub.PublicKeyComp]EncryptedData)
+		}
 	}
 	ks := &KeyStore{
 		storage:       storage,
-- 
2.43.0


From dbbae8b9e03ec49f864d4eeec0dc8ee431370a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:00 +0000
Subject: [PATCH 40/70] fix: a signature whose S is not reduced is refused

---
 keystore/keystore.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 755f053..3b422b0 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -431,6 +431,10 @@ func VerifySignatureElem(pkComp *babyjub.PublicKeyComp, msg *big.Int, sigComp *b
 	if err != nil {
 		return false, err
 	}
+	if sig.S.Cmp(babyjub.SubOrder) >= 0 {
+		// S is only meaningful modulo the order: every signature has one form.
+		return false, nil
+	}
 	pk := babyjub.PublicKey(*pkPoint)
 	return pk.VerifyPoseidon(msg, sig), nil
 }
-- 
2.43.0


From a37555955d2283d1944be1c4f1624f05abba64b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:00 +0000
Subject: [PATCH 41/70] fix: signing or verifying a message outside the field
 is an error, not a crash

---
 keystore/keystore.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 3b422b0..b0234d7 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -18,6 +18,7 @@ import (
 	"github.com/iden3/go-iden3-core/common"
 	common3 "github.com/iden3/go-iden3-core/common"
 	"github.com/iden3/go-iden3-crypto/babyjub"
+	"github.com/iden3/go-iden3-crypto/constants"
 	"github.com/iden3/go-iden3-crypto/poseidon"
 	"golang.org/x/crypto/nacl/secretbox"
 	"golang.org/x/crypto/scrypt"
@@ -53,6 +54,7 @@ var (
 	ErrKeyNotFound     = fmt.Errorf("public key not found in the key store")
 	ErrInvalidEncData  = fmt.Errorf("invalid encrypted data")
 	ErrKeyStoreClosed  = fmt.Errorf("key store is closed")
+	ErrMsgNotInField   = fmt.Errorf("message is not an element of the field")
 )
 
 // prefixes for msg to be signed
@@ -388,9 +390,16 @@ func (ks *KeyStore) UnlockKey(pk *babyjub.PublicKeyComp, pass []byte) error {
 	return nil
 }
 
+func inField(v *big.Int) bool {
+	return v.Sign() >= 0 && v.Cmp(constants.Q) < 0
+}
+
 // SignElem uses the key corresponding to the public key pk to sign the field
 // element msg.
 func (ks *KeyStore) SignElem(pk *babyjub.PublicKeyComp, msg *big.Int) (*babyjub.SignatureComp, error) {
+	if !inField(msg) {
+		return nil, ErrMsgNotInField
+	}
 	ks.rw.RLock()
 	defer ks.rw.RUnlock()
 	sk, ok := ks.cache[*pk]
@@ -423,6 +432,9 @@ func (ks *KeyStore) SignRaw(pk *babyjub.PublicKeyComp, msg []byte) (*babyjub.Sig
 // VerifySignatureElem verifies that the signature sigComp of the field element
 // msg was signed with the public key pkComp.
 func VerifySignatureElem(pkComp *babyjub.PublicKeyComp, msg *big.Int, sigComp *babyjub.SignatureComp) (bool, error) {
+	if !inField(msg) {
+		return false, ErrMsgNotInField
+	}
 	pkPoint, err := babyjub.NewPoint().Decompress(*pkComp)
 	if err != nil {
 		return false, err
-- 
2.43.0


From 6d8baf63614a0efdb6a173a6636ea9597eae915a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:00 +0000
Subject: [PATCH 42/70] fix: signing and verifying do not write into the
 caller's slices

---
 components/idensigner/idensigner.go |  2 +-
 crypto/signatures.go                |  2 +-
 identity/issuer/issuer.go           |  2 +-
 keystore/keystore.go                | 15 +++++++++++----
 4 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/components/idensigner/idensigner.go b/components/idensigner/idensigner.go
index 09bac2b..cfd95bf 100644
--- a/components/idensigner/idensigner.go
+++ b/components/idensigner/idensigner.go
@@ -38,6 +38,6 @@ func (s *IdenSigner) SignEthMsg(msg []byte) (*babyjub.SignatureComp, error) {
 func (s *IdenSigner) SignEthMsgDate(msg []byte) (*babyjub.SignatureComp, int64, error) {
 	dateInt64 := time.Now().Unix()
 	dateBytes := common.Uint64ToEthBytes(uint64(dateInt64))
-	sig, err := s.SignEthMsg(append(msg, dateBytes...))
+	sig, err := s.SignEthMsg(append(append([]byte{}, msg...), dateBytes...))
 	return sig, dateInt64, err
 }
diff --git a/crypto/signatures.go b/crypto/signatures.go
index 6de1c6d..a5541fb 100644
--- a/crypto/signatures.go
+++ b/crypto/signatures.go
@@ -78,7 +78,7 @@ func VerifySigEthMsg(addr common.Address, sig *SignatureEthMsg, msg []byte) bool
 // appended given an ethereum address.
 func VerifySigEthMsgDate(addr common.Address, sig *SignatureEthMsg, msg []byte, date int64) bool {
 	dateBytes := common3.Uint64ToEthBytes(uint64(date))
-	return VerifySigEthMsg(addr, sig, append(msg[:], dateBytes...))
+	return VerifySigEthMsg(addr, sig, append(append([]byte{}, msg...), dateBytes...))
 }
 
 // VerifySig verifies a given signature and the msgHash with the expected address
diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 21364a3..fdacecb 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -869,7 +869,7 @@ func (is *Issuer) Sign(string) (string, error) {
 
 // SignBinary signs a binary message by the kOp of the issuer.
 func (is *Issuer) SignBinary(prefix, msg []byte) (*babyjub.SignatureComp, error) {
-	return is.keyStore.SignRaw(is.kOpComp, append(prefix, msg...))
+	return is.keyStore.SignRaw(is.kOpComp, append(append([]byte{}, prefix...), msg...))
 }
 
 // SignState signs the Identity State transition (oldState+newState) by the kOp of the issuer.
diff --git a/keystore/keystore.go b/keystore/keystore.go
index b0234d7..2efedef 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -411,12 +411,20 @@ func (ks *KeyStore) SignElem(pk *babyjub.PublicKeyComp, msg *big.Int) (*babyjub.
 	return &sigComp, nil
 }
 
+// dateMsg returns [prefix | date | msg] in a new slice: the ones of the caller
+// may share memory.
+func dateMsg(prefix PrefixType, date int64, rawMsg []byte) []byte {
+	msg := make([]byte, 0, len(prefix)+8+len(rawMsg))
+	msg = append(msg, prefix...)
+	msg = append(msg, common.Uint64ToEthBytes(uint64(date))...)
+	return append(msg, rawMsg...)
+}
+
 // Sign uses the key corresponding to the public key pk to sign the mimc7 hash
 // of the [prefix | date | msg] byte slice.
 func (ks *KeyStore) Sign(pk *babyjub.PublicKeyComp, prefix PrefixType, rawMsg []byte) (*babyjub.SignatureComp, int64, error) {
 	date := time.Now()
-	msg := append(prefix, common.Uint64ToEthBytes(uint64(date.Unix()))...)
-	msg = append(msg, rawMsg...)
+	msg := dateMsg(prefix, date.Unix(), rawMsg)
 	sig, err := ks.SignRaw(pk, msg)
 	return sig, date.Unix(), err
 }
@@ -454,8 +462,7 @@ func VerifySignatureElem(pkComp *babyjub.PublicKeyComp, msg *big.Int, sigComp *b
 // VerifySignature verifies that the signature sigComp of the poseidon hash of
 // the [prefix | date | msg] byte slice was signed with the public key pkComp.
 func VerifySignature(pkComp *babyjub.PublicKeyComp, sigComp *babyjub.SignatureComp, prefix PrefixType, date int64, rawMsg []byte) (bool, error) {
-	msg := append(prefix, common.Uint64ToEthBytes(uint64(date))...)
-	msg = append(msg, rawMsg...)
+	msg := dateMsg(prefix, date, rawMsg)
 	return VerifySignatureRaw(pkComp, sigComp, msg)
 }
 
-- 
2.43.0


From 61227f9eac9672872ba9e0a83c620c35c2fc4701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:00 +0000
Subject: [PATCH 43/70] fix: the altered form of an Ethereum signature with n-s
 is refused

---
 crypto/signatures.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crypto/signatures.go b/crypto/signatures.go
index a5541fb..4c318b7 100644
--- a/crypto/signatures.go
+++ b/crypto/signatures.go
@@ -5,6 +5,7 @@ import (
 	"crypto/ecdsa"
 	"encoding/json"
 	"fmt"
+	"math/big"
 
 	"github.com/ethereum/go-ethereum/accounts"
 	"github.com/ethereum/go-ethereum/accounts/keystore"
@@ -83,6 +84,11 @@ func VerifySigEthMsgDate(addr common.Address, sig *SignatureEthMsg, msg []byte,
 
 // VerifySig verifies a given signature and the msgHash with the expected address
 func VerifySig(addr common.Address, sig *Signature, msgHash []byte) bool {
+	r, s := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])
+	if !crypto.ValidateSignatureValues(sig[64], r, s, true) {
+		// Also refuses the second form (with n-s) that every signature has.
+		return false
+	}
 	recoveredPub, err := crypto.Ecrecover(msgHash, sig[:])
 	if err != nil {
 		fmt.Printf("ECRecover error: %s\n", err)
-- 
2.43.0


From 1504f654d9dafa4470fe84586e38c852f8a9771a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:38 +0000
Subject: [PATCH 44/70] fix: a failed download is reported, and its lock file
 is not removed under other users

---
 utils/zk/zk.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/utils/zk/zk.go b/utils/zk/zk.go
index 5a5bb19..0ad85c2 100644
--- a/utils/zk/zk.go
+++ b/utils/zk/zk.go
@@ -100,14 +100,10 @@ func download(url, filename string) (err error) {
 			return err
 		}
 		if ok {
-			defer func() {
-				lock.Unlock()
-				if err = lock.Unlock(); err != nil {
-					return
-				}
-				err = os.Remove(filenameTmp + ".lock")
-				return
-			}()
+			// The lock file is kept: were it removed, a process that
+			// has already opened it and one that creates it anew
+			// could both hold the lock.
+			defer lock.Unlock()
 			break
 		}
 		log.WithField("filename", filename).Debug("ZkFile downloading locked, waiting...")
-- 
2.43.0


From 27bf7647ecad40c400ce9f91d816684638b40cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:38 +0000
Subject: [PATCH 45/70] fix: a zk file's hash is checked whenever it is read,
 not only when downloaded

---
 utils/zk/zk.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/utils/zk/zk.go b/utils/zk/zk.go
index 0ad85c2..35556ff 100644
--- a/utils/zk/zk.go
+++ b/utils/zk/zk.go
@@ -449,10 +449,10 @@ func (z *ZkFiles) loadProvingKey() error {
 		// log.Debug("zkfiles: proving key already loaded")
 		return nil
 	}
-	if z.pathProvingKey == "" {
-		if err := z.downloadProvingKey(); err != nil {
-			return err
-		}
+	// The file may have changed since it was downloaded or last used, so its
+	// hash is checked every time.
+	if err := z.downloadProvingKey(); err != nil {
+		return err
 	}
 	if z.cacheProvingKey {
 		if pk, err := z.parseProvingKey(); err != nil {
@@ -476,10 +476,10 @@ func (z *ZkFiles) loadVerificationKey() error {
 		// log.Debug("zkfiles: verification key already loaded")
 		return nil
 	}
-	if z.pathVerificationKey == "" {
-		if err := z.downloadVerificationKey(); err != nil {
-			return err
-		}
+	// The file may have changed since it was downloaded or last used, so its
+	// hash is checked every time.
+	if err := z.downloadVerificationKey(); err != nil {
+		return err
 	}
 	vkJSON, err := ioutil.ReadFile(z.pathVerificationKey)
 	if err != nil {
@@ -505,10 +505,10 @@ func (z *ZkFiles) loadWitnessCalcWASM() error {
 		// log.Debug("zkfiles: witnessCalc WASM already loaded")
 		return nil
 	}
-	if z.pathWitnessCalcWASM == "" {
-		if err := z.downloadWitnessCalcWASM(); err != nil {
-			return err
-		}
+	// The file may have changed since it was downloaded or last used, so its
+	// hash is checked every time.
+	if err := z.downloadWitnessCalcWASM(); err != nil {
+		return err
 	}
 	wasmBytes, err := ioutil.ReadFile(z.pathWitnessCalcWASM)
 	if err != nil {
-- 
2.43.0


From 3075688f26097ea473bfeab53fb6bb92b1e822f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:03 +0000
Subject: [PATCH 46/70] fix: a receipt without a block is not a receipt

---
 components/idenpubonchain/idenpubonchain.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/components/idenpubonchain/idenpubonchain.go b/components/idenpubonchain/idenpubonchain.go
index c4e86b3..b3edc7b 100644
--- a/components/idenpubonchain/idenpubonchain.go
+++ b/components/idenpubonchain/idenpubonchain.go
@@ -215,6 +215,10 @@ func (ip *IdenPubOnChain) TxConfirmBlocks(tx *types.Transaction) (*big.Int, erro
 	if err != nil {
 		return nil, err
 	}
+	if receipt.BlockNumber == nil {
+		// Some nodes answer for transactions that aren't in a block yet.
+		return nil, eth.ErrReceiptNotReceived
+	}
 	currentBlock, err := ip.client.CurrentBlock()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 346ccd79ff6c5d0ba4ef2404d34a8ef299fe97ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:38 +0000
Subject: [PATCH 47/70] fix: the records of the local chain are not shared with
 its callers

---
 components/idenpubonchain/local/local.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/components/idenpubonchain/local/local.go b/components/idenpubonchain/local/local.go
index 34bbafc..0538c4a 100644
--- a/components/idenpubonchain/local/local.go
+++ b/components/idenpubonchain/local/local.go
@@ -83,6 +83,16 @@ func (ip *IdenPubOnChain) Sync() {
 	ip.pendingSet = make([]*IdIdenStateData, 0)
 }
 
+// copyIdenStateData returns a copy that the caller can modify.
+func copyIdenStateData(idenStateData *proof.IdenStateData) *proof.IdenStateData {
+	idenState := *idenStateData.IdenState
+	return &proof.IdenStateData{
+		BlockN:    idenStateData.BlockN,
+		BlockTs:   idenStateData.BlockTs,
+		IdenState: &idenState,
+	}
+}
+
 // GetState returns the Identity State Data of the given ID from the IdenStates Smart Contract.
 func (ip *IdenPubOnChain) GetState(id *core.ID) (*proof.IdenStateData, error) {
 	ip.rw.RLock()
@@ -91,7 +101,7 @@ func (ip *IdenPubOnChain) GetState(id *core.ID) (*proof.IdenStateData, error) {
 	if !ok {
 		return nil, idenpubonchain.ErrIdenNotOnChain
 	}
-	return idenStatesData.IdenStates[len(idenStatesData.IdenStates)-1], nil
+	return copyIdenStateData(idenStatesData.IdenStates[len(idenStatesData.IdenStates)-1]), nil
 }
 
 // GetStateByBlock returns the Identity State Data of the given ID published at
@@ -107,7 +117,7 @@ func (ip *IdenPubOnChain) GetStateByBlock(id *core.ID, queryBlockN uint64) (*pro
 	if !ok {
 		return nil, idenpubonchain.ErrIdenByBlockNotFound
 	}
-	return idenState, nil
+	return copyIdenStateData(idenState), nil
 }
 
 // GetStateByTime returns the Identity State Data of the given ID published at
@@ -123,7 +133,7 @@ func (ip *IdenPubOnChain) GetStateByTime(id *core.ID, queryBlockTs int64) (*proo
 	if !ok {
 		return nil, idenpubonchain.ErrIdenByTimeNotFound
 	}
-	return idenState, nil
+	return copyIdenStateData(idenState), nil
 }
 
 // SetState updates the Identity State of the given ID in the IdenStates Smart Contract.
@@ -144,7 +154,8 @@ func (ip *IdenPubOnChain) SetState(id *core.ID, newState *merkletree.Hash,
 		BlockTs:   ip.timeNow().Unix(),
 		IdenState: newState,
 	}
-	ip.pendingSet = append(ip.pendingSet, &IdIdenStateData{Id: id, IdenStateData: &idenState})
+	idCopy := *id
+	ip.pendingSet = append(ip.pendingSet, &IdIdenStateData{Id: &idCopy, IdenStateData: copyIdenStateData(&idenState)})
 	return ip.newTx(idenState.BlockN), nil
 }
 
@@ -166,7 +177,8 @@ func (ip *IdenPubOnChain) InitState(id *core.ID, genesisState,
 		BlockTs:   ip.timeNow().Unix(),
 		IdenState: newState,
 	}
-	ip.pendingInit = append(ip.pendingInit, &IdIdenStateData{Id: id, IdenStateData: &idenState})
+	idCopy := *id
+	ip.pendingInit = append(ip.pendingInit, &IdIdenStateData{Id: &idCopy, IdenStateData: copyIdenStateData(&idenState)})
 	return ip.newTx(ip.blockNow()), nil
 }
 
-- 
2.43.0


From b4ea7fb6bf155f7d7dfe9bfeef3b4d65b71e0fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 48/70] fix: the local chain runs transactions as the contract
 does, and confirms only those it ran

---
 components/idenpubonchain/local/local.go | 48 ++++++++++++++++++++----
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/components/idenpubonchain/local/local.go b/components/idenpubonchain/local/local.go
index 0538c4a..429326a 100644
--- a/components/idenpubonchain/local/local.go
+++ b/components/idenpubonchain/local/local.go
@@ -13,6 +13,7 @@ import (
 	"github.com/iden3/go-iden3-core/components/idenpubonchain"
 	"github.com/iden3/go-iden3-core/core"
 	"github.com/iden3/go-iden3-core/core/proof"
+	"github.com/iden3/go-iden3-core/eth"
 	"github.com/iden3/go-iden3-core/merkletree"
 )
 
@@ -39,6 +40,8 @@ func (h *IdenStateHistory) Add(idenStateData *proof.IdenStateData) {
 type IdIdenStateData struct {
 	Id            *core.ID
 	IdenStateData *proof.IdenStateData
+	zkProof       *zktypes.Proof
+	txHash        common.Hash
 }
 
 // IdenPubOnChain is an implementation of the IdenPubOnnChainer that instead of
@@ -53,6 +56,9 @@ type IdenPubOnChain struct {
 	timeNow        func() time.Time
 	blockNow       func() uint64
 	verifyingKey   *zktypes.Vk
+	txNonce        uint64
+	// txErr has, for the transactions already run by Sync, whether they failed
+	txErr map[common.Hash]error
 }
 
 // New creates a new IdenPubOnChain
@@ -64,20 +70,34 @@ func New(timeNow func() time.Time, blockNow func() uint64, verifyingKey *zktypes
 		timeNow:        timeNow,
 		blockNow:       blockNow,
 		verifyingKey:   verifyingKey,
+		txErr:          make(map[common.Hash]error),
 	}
 }
 
-// Sync all the pending writes to the local state.
+// Sync all the pending writes to the local state.  As in the Smart Contract, a
+// write that doesn't follow from the state left by the previous ones fails.
 func (ip *IdenPubOnChain) Sync() {
 	ip.rw.Lock()
 	defer ip.rw.Unlock()
 	for _, idIdenStateData := range ip.pendingInit {
+		if _, ok := ip.idenStatesData[*idIdenStateData.Id]; ok {
+			ip.txErr[idIdenStateData.txHash] = eth.ErrReceiptStatusFailed
+			continue
+		}
+		ip.txErr[idIdenStateData.txHash] = nil
 		idenStatesData := NewIdenStateHistory()
 		idenStatesData.Add(idIdenStateData.IdenStateData)
 		ip.idenStatesData[*idIdenStateData.Id] = idenStatesData
 	}
 	for _, idIdenStateData := range ip.pendingSet {
-		ip.idenStatesData[*idIdenStateData.Id].Add(idIdenStateData.IdenStateData)
+		history := ip.idenStatesData[*idIdenStateData.Id]
+		oldState := history.IdenStates[len(history.IdenStates)-1].IdenState
+		if !ip.verifyZKP(idIdenStateData.zkProof, idIdenStateData.Id, oldState, idIdenStateData.IdenStateData.IdenState) {
+			ip.txErr[idIdenStateData.txHash] = eth.ErrReceiptStatusFailed
+			continue
+		}
+		ip.txErr[idIdenStateData.txHash] = nil
+		history.Add(idIdenStateData.IdenStateData)
 	}
 	ip.pendingInit = make([]*IdIdenStateData, 0)
 	ip.pendingSet = make([]*IdIdenStateData, 0)
@@ -155,8 +175,10 @@ func (ip *IdenPubOnChain) SetState(id *core.ID, newState *merkletree.Hash,
 		IdenState: newState,
 	}
 	idCopy := *id
-	ip.pendingSet = append(ip.pendingSet, &IdIdenStateData{Id: &idCopy, IdenStateData: copyIdenStateData(&idenState)})
-	return ip.newTx(idenState.BlockN), nil
+	tx := ip.newTx(idenState.BlockN)
+	ip.pendingSet = append(ip.pendingSet, &IdIdenStateData{Id: &idCopy, IdenStateData: copyIdenStateData(&idenState),
+		zkProof: zkProof, txHash: tx.Hash()})
+	return tx, nil
 }
 
 // InitState initializes the first Identity State of the given ID in the IdenStates Smart Contract.
@@ -178,18 +200,30 @@ func (ip *IdenPubOnChain) InitState(id *core.ID, genesisState,
 		IdenState: newState,
 	}
 	idCopy := *id
-	ip.pendingInit = append(ip.pendingInit, &IdIdenStateData{Id: &idCopy, IdenStateData: copyIdenStateData(&idenState)})
-	return ip.newTx(ip.blockNow()), nil
+	tx := ip.newTx(idenState.BlockN)
+	ip.pendingInit = append(ip.pendingInit, &IdIdenStateData{Id: &idCopy, IdenStateData: copyIdenStateData(&idenState),
+		zkProof: zkProof, txHash: tx.Hash()})
+	return tx, nil
 }
 
 // newTx returns a transaction sent at blockN.
 func (ip *IdenPubOnChain) newTx(blockN uint64) *types.Transaction {
-	return types.NewTransaction(0, common.Address{}, nil, 0, nil,
+	ip.txNonce++
+	return types.NewTransaction(ip.txNonce, common.Address{}, nil, 0, nil,
 		new(big.Int).SetUint64(blockN).Bytes())
 }
 
 // TxConfirmBlocks returns the number of confirmed blocks of transaction tx.
+// Like with the Smart Contract, there are none until the transaction has been
+// run (by Sync), nor if it failed.
 func (ip *IdenPubOnChain) TxConfirmBlocks(tx *types.Transaction) (*big.Int, error) {
+	ip.rw.RLock()
+	defer ip.rw.RUnlock()
+	if err, ok := ip.txErr[tx.Hash()]; !ok {
+		return nil, eth.ErrReceiptNotReceived
+	} else if err != nil {
+		return nil, err
+	}
 	blockNumber := new(big.Int).SetBytes(tx.Data())
 	currentBlock := new(big.Int).SetUint64(ip.blockNow())
 	return currentBlock.Sub(currentBlock, blockNumber), nil
-- 
2.43.0


From 3c8bdd6216dc7cfbf1b2f0d27eec7115895f0063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 49/70] fix: a dump of the tree is of one root while entries
 are being added

---
 merkletree/merkletree.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 527e233..f45f3b5 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -592,6 +592,9 @@ func (mt *MerkleTree) PrintGraphViz(rootKey *Hash) error {
 // to compute the Tree, while with DumpClaims will require to compute the Tree
 // (with the computational cost of each hash)
 func (mt *MerkleTree) DumpTree(w io.Writer, rootKey *Hash) error {
+	if rootKey == nil {
+		rootKey = mt.RootKey()
+	}
 	var errS error
 	err := mt.Walk(rootKey, func(n *Node) {
 		if n.Type != NodeTypeEmpty {
@@ -612,9 +615,6 @@ func (mt *MerkleTree) DumpTree(w io.Writer, rootKey *Hash) error {
 		return errS
 	}
 
-	if rootKey == nil {
-		rootKey = mt.RootKey()
-	}
 	err = serializeKV(w, rootNodeValue, rootKey.Bytes())
 
 	return err
-- 
2.43.0


From 52423c8194b40f18e7fc836847a25d1516df0f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 50/70] fix: the in-memory storage can be used by several
 goroutines

---
 db/memory.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/db/memory.go b/db/memory.go
index 8d6dcfd..400bfa4 100644
--- a/db/memory.go
+++ b/db/memory.go
@@ -3,11 +3,14 @@ package db
 import (
 	"bytes"
 	"sort"
+	"sync"
 )
 
 type MemoryStorage struct {
 	prefix []byte
 	kv     kvMap
+	// rw protects kv, and is shared by all the prefixes of the storage.
+	rw *sync.RWMutex
 }
 
 type MemoryStorageTx struct {
@@ -17,7 +20,7 @@ type MemoryStorageTx struct {
 
 func NewMemoryStorage() *MemoryStorage {
 	kvmap := make(kvMap)
-	return &MemoryStorage{[]byte{}, kvmap}
+	return &MemoryStorage{[]byte{}, kvmap, &sync.RWMutex{}}
 }
 
 func (l *MemoryStorage) Info() string {
@@ -25,7 +28,7 @@ func (l *MemoryStorage) Info() string {
 }
 
 func (m *MemoryStorage) WithPrefix(prefix []byte) Storage {
-	return &MemoryStorage{concat(m.prefix, prefix), m.kv}
+	return &MemoryStorage{concat(m.prefix, prefix), m.kv, m.rw}
 }
 
 func (m *MemoryStorage) NewTx() (Tx, error) {
@@ -34,7 +37,8 @@ func (m *MemoryStorage) NewTx() (Tx, error) {
 
 // Get retreives a value from a key in the mt.Lvl
 func (l *MemoryStorage) Get(key []byte) ([]byte, error) {
-
+	l.rw.RLock()
+	defer l.rw.RUnlock()
 	if v, ok := l.kv.Get(concat(l.prefix, key[:])); ok {
 		return v, nil
 	}
@@ -43,6 +47,7 @@ func (l *MemoryStorage) Get(key []byte) ([]byte, error) {
 
 func (l *MemoryStorage) Iterate(f func([]byte, []byte) (bool, error)) error {
 	kvs := make([]KV, 0)
+	l.rw.RLock()
 	for _, v := range l.kv {
 		if len(v.K) < len(l.prefix) || !bytes.Equal(v.K[:len(l.prefix)], l.prefix) {
 			continue
@@ -51,6 +56,7 @@ func (l *MemoryStorage) Iterate(f func([]byte, []byte) (bool, error)) error {
 		kvs = append(kvs, KV{localkey, v.V})
 
 	}
+	l.rw.RUnlock()
 	sort.SliceStable(kvs, func(i, j int) bool { return bytes.Compare(kvs[i].K, kvs[j].K) < 0 })
 
 	for _, kv := range kvs {
@@ -68,11 +74,8 @@ func (tx *MemoryStorageTx) Get(key []byte) ([]byte, error) {
 	if v, ok := tx.kv.Get(concat(tx.s.prefix, key)); ok {
 		return v, nil
 	}
-	if v, ok := tx.s.kv.Get(concat(tx.s.prefix, key)); ok {
-		return v, nil
-	}
 
-	return nil, ErrNotFound
+	return tx.s.Get(key)
 }
 
 func (tx *MemoryStorageTx) Put(k, v []byte) {
@@ -80,6 +83,8 @@ func (tx *MemoryStorageTx) Put(k, v []byte) {
 }
 
 func (tx *MemoryStorageTx) Commit() error {
+	tx.s.rw.Lock()
+	defer tx.s.rw.Unlock()
 	for _, v := range tx.kv {
 		tx.s.kv.Put(v.K, v.V)
 	}
-- 
2.43.0


From 67893e710b9fa3e1e9998330b1540ed8cdaeae83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 51/70] fix: the issuer's pending and on-chain states are read
 under its lock

---
 identity/issuer/issuer.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index fdacecb..5fc812c 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -147,7 +147,9 @@ func (is *Issuer) loadIdenStateDataOnChain() error {
 }
 
 func (is *Issuer) IdenStateOnChain() *merkletree.Hash {
-	return is._idenStateDataOnChain.IdenState
+	is.rw.RLock()
+	defer is.rw.RUnlock()
+	return is.idenStateOnChain()
 }
 
 func (is *Issuer) idenStateOnChain() *merkletree.Hash {
@@ -155,7 +157,9 @@ func (is *Issuer) idenStateOnChain() *merkletree.Hash {
 }
 
 func (is *Issuer) IdenStatePending() (*merkletree.Hash, bool) {
-	return is._idenStatePending, is._idenStatePendingTransacted
+	is.rw.RLock()
+	defer is.rw.RUnlock()
+	return is.idenStatePending()
 }
 
 func (is *Issuer) idenStatePending() (*merkletree.Hash, bool) {
-- 
2.43.0


From bdbbd8f5e82dc30f6c5c5f83689ab17263b957d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 52/70] fix: keys of a stored list are built without sharing a
 buffer between goroutines

---
 db/storageutils.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/db/storageutils.go b/db/storageutils.go
index e0d9ada..9da143a 100644
--- a/db/storageutils.go
+++ b/db/storageutils.go
@@ -67,8 +67,8 @@ func (sl *StorageList) Append(tx Tx, key []byte, value interface{}) error {
 	}
 	var idxBytes [4]byte
 	binary.LittleEndian.PutUint32(idxBytes[:], idx)
-	tx.Put(append(sl.dbPrefixList, key...), valueJSON)
-	tx.Put(append(sl.dbPrefixListByIdx, idxBytes[:]...), key)
+	tx.Put(concat(sl.dbPrefixList, key), valueJSON)
+	tx.Put(concat(sl.dbPrefixListByIdx, idxBytes[:]), key)
 	sl.length.Set(tx, idx+1)
 	return nil
 }
@@ -77,7 +77,7 @@ func (sl *StorageList) Append(tx Tx, key []byte, value interface{}) error {
 func (sl *StorageList) GetByIdx(tx Tx, idx uint32, value interface{}) ([]byte, error) {
 	var idxBytes [4]byte
 	binary.LittleEndian.PutUint32(idxBytes[:], idx)
-	key, err := tx.Get(append(sl.dbPrefixListByIdx, idxBytes[:]...))
+	key, err := tx.Get(concat(sl.dbPrefixListByIdx, idxBytes[:]))
 	if err != nil {
 		return nil, err
 	}
@@ -87,7 +87,7 @@ func (sl *StorageList) GetByIdx(tx Tx, idx uint32, value interface{}) ([]byte, e
 
 // GetByIdx returns the value given the key of the StorageList in an open db transaction.
 func (sl *StorageList) Get(tx Tx, key []byte, value interface{}) error {
-	valueJSON, err := tx.Get(append(sl.dbPrefixList, key...))
+	valueJSON, err := tx.Get(concat(sl.dbPrefixList, key))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From bb5f62d5a1108e14ee334316b24f7d5163eaed83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:07 +0000
Subject: [PATCH 53/70] fix: Base64Decode handles strings of fewer than three
 characters

It indexed before the start of the string and panicked, also for the valid
unpadded encoding of one byte, and it dropped what stands behind a padding
character.
---
 common/common.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/common/common.go b/common/common.go
index 5c531c4..8861f22 100644
--- a/common/common.go
+++ b/common/common.go
@@ -19,14 +19,7 @@ func Base64ToBytes(base64String string) ([]byte, error) {
 // Base64Decode decodes a string in base64 with optional padding into an array
 // of bytes.
 func Base64Decode(b64 string) ([]byte, error) {
-	l := len(b64)
-	if b64[l-3] == '=' {
-		b64 = b64[:l-3]
-	} else if b64[l-2] == '=' {
-		b64 = b64[:l-2]
-	} else if b64[l-1] == '=' {
-		b64 = b64[:l-1]
-	}
+	b64 = strings.TrimSuffix(strings.TrimSuffix(b64, "="), "=")
 	return base64.RawStdEncoding.DecodeString(b64)
 }
 
-- 
2.43.0


From 1f9d1798f46b5c50268d409e19483e01411d6663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:25 +0000
Subject: [PATCH 54/70] fix: numbers in entry data keep their value

BigIntsToData wrote the bytes of a number with the highest first at the start of
an element that is read with the lowest first, so that 1 and 256 gave the same
data.  HexsToData, whose left aligned form the test vectors fix, silently cut
strings of more than 32 bytes.
---
 merkletree/utils.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/merkletree/utils.go b/merkletree/utils.go
index c647d0f..6ee06ee 100644
--- a/merkletree/utils.go
+++ b/merkletree/utils.go
@@ -130,18 +130,19 @@ func NewEntryFromHexs(a, b, c, d, e, f, g, h string) (entry Entry, err error) {
 }
 
 func HexsToData(_a, _b, _c, _d, _e, _f, _g, _h string) (Data, error) {
-	var bints []*big.Int
+	var data Data
 	aux := []string{_a, _b, _c, _d, _e, _f, _g, _h}
-	for _, v := range aux {
+	for i, v := range aux {
 		vBytes, err := common.HexDecode(v)
 		if err != nil {
 			return Data{}, err
 		}
-		el := new(big.Int).SetBytes(vBytes)
-		bints = append(bints, el)
+		if len(vBytes) > ElemBytesLen {
+			return Data{}, fmt.Errorf("expected at most %v bytes in hex string, got %v", ElemBytesLen, len(vBytes))
+		}
+		copy(data[i][:], new(big.Int).SetBytes(vBytes).Bytes())
 	}
-
-	return BigIntsToData(bints[0], bints[1], bints[2], bints[3], bints[4], bints[5], bints[6], bints[7]), nil
+	return data, nil
 }
 
 func NewDataFromBytes(b [ElemBytesLen * DataLen]byte) *Data {
@@ -182,7 +183,7 @@ func IntsToData(_a, _b, _c, _d, _e, _f, _g, _h int64) Data {
 func BigIntsToData(a, b, c, d, e, f, g, h *big.Int) (data Data) {
 	di := []*big.Int{a, b, c, d, e, f, g, h}
 	for i := 0; i < len(di); i++ {
-		copy(data[i][:], di[i].Bytes())
+		data[i] = NewElemBytesFromBigInt(di[i])
 	}
 	return
 }
-- 
2.43.0


From 860019bd7466b05c1b5e5fbcf8c2e8190c917359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:22 +0000
Subject: [PATCH 55/70] fix: a nonce object given to a caller is its own

---
 utils/noncedb/nonce_db.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/utils/noncedb/nonce_db.go b/utils/noncedb/nonce_db.go
index 7f99301..fb56270 100644
--- a/utils/noncedb/nonce_db.go
+++ b/utils/noncedb/nonce_db.go
@@ -15,6 +15,12 @@ type NonceObj struct {
 	Aux        interface{}
 }
 
+// clone returns a copy for the caller: the object in the db may still change.
+func (nObj *NonceObj) clone() *NonceObj {
+	c := *nObj
+	return &c
+}
+
 type nonceObjs []*NonceObj
 
 func (ns nonceObjs) Len() int           { return len(ns) }
@@ -87,7 +93,7 @@ func (ndb *NonceDb) add(nonce string, expiration int64, aux interface{}) *NonceO
 	nObj := &NonceObj{nonce, expiration, aux}
 	ndb.nonceObjsByNonce[nonce] = nObj
 	ndb.noncesHeap.Push(nObj)
-	return nObj
+	return nObj.clone()
 }
 
 // Add adds a nonce with aux data that expires after delta seconds
@@ -131,10 +137,12 @@ func (ndb *NonceDb) Search(nonce string) (*NonceObj, bool) {
 	ndb.DeleteOldOportunistic()
 	ndb.mutex.RLock()
 	nObj, ok := ndb.nonceObjsByNonce[nonce]
-	ndb.mutex.RUnlock()
 	if !ok {
+		ndb.mutex.RUnlock()
 		return nil, false
 	}
+	nObj = nObj.clone()
+	ndb.mutex.RUnlock()
 	if nObj.Expiration < time.Now().Unix() {
 		ok = false
 	}
@@ -156,7 +164,7 @@ func (ndb *NonceDb) SearchAndDelete(nonce string) (*NonceObj, bool) {
 	if nObj.Expiration < time.Now().Unix() {
 		ok = false
 	}
-	return nObj, ok
+	return nObj.clone(), ok
 }
 
 // DeleteOldOportunistic deletes expired nonces once every N calls (where N is
-- 
2.43.0


From d235520a5007fb45ae3a49af6af36df5a3986e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:22 +0000
Subject: [PATCH 56/70] fix: an exported key is not cleared when the key store
 is closed

---
 keystore/keystore.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 2efedef..4300096 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -365,7 +365,9 @@ func (ks *KeyStore) ExportKey(pk *babyjub.PublicKeyComp) (*babyjub.PrivateKey, e
 	if !ok {
 		return nil, ErrKeyNotInCache
 	}
-	return sk, nil
+	// A copy: the key in the cache is cleared when the key store is closed.
+	skCopy := *sk
+	return &skCopy, nil
 }
 
 // UnlockKey decrypts the key corresponding to the public key pk and loads it
-- 
2.43.0


From 109502afe4af498dc253696fa5cafe96685562d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:22 +0000
Subject: [PATCH 57/70] fix: the root of a tree or snapshot is not shared with
 its callers

---
 merkletree/merkletree.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index f45f3b5..3ab5e99 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -263,7 +263,8 @@ func (mt *MerkleTree) Snapshot(rootKey *Hash) (*MerkleTree, error) {
 	if err != nil {
 		return nil, err
 	}
-	return &MerkleTree{storage: mt.storage, maxLevels: mt.maxLevels, rootKey: rootKey, writable: false}, nil
+	rootKeyCopy := *rootKey
+	return &MerkleTree{storage: mt.storage, maxLevels: mt.maxLevels, rootKey: &rootKeyCopy, writable: false}, nil
 }
 
 // Storage returns the MT storage
@@ -275,7 +276,8 @@ func (mt *MerkleTree) Storage() db.Storage {
 func (mt *MerkleTree) RootKey() *Hash {
 	mt.RLock()
 	defer mt.RUnlock()
-	return mt.rootKey
+	rootKey := *mt.rootKey
+	return &rootKey
 }
 
 // MaxLevels returns the MT maximum level
-- 
2.43.0


From 1944c2fb37c87793dbe79e0b279defeb8627d669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:22 +0000
Subject: [PATCH 58/70] fix: entry dumps are written as JSON, with errors
 reported, and imported as a whole

---
 merkletree/merkletree.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 3ab5e99..014e8f7 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -727,13 +727,24 @@ func (mt *MerkleTree) ImportTree(i io.Reader) error {
 // DumpClaimsIoWriter uses Walk function to get all the Claims of the tree and write
 // them to w.  The output is JSON encoded with claims in hex.
 func (mt *MerkleTree) DumpClaimsIoWriter(w io.Writer, rootKey *Hash) error {
-	fmt.Fprintf(w, "[\n")
+	if _, err := fmt.Fprintf(w, "["); err != nil {
+		return err
+	}
+	var errW error
+	separator := "\n"
 	err := mt.Walk(rootKey, func(n *Node) {
-		if n.Type == NodeTypeLeaf {
-			fmt.Fprintf(w, "	\"%v\",\n", common3.HexEncode(n.Entry.Bytes()))
+		if n.Type == NodeTypeLeaf && errW == nil {
+			_, errW = fmt.Fprintf(w, "%s	\"%v\"", separator, common3.HexEncode(n.Entry.Bytes()))
+			separator = ",\n"
 		}
 	})
-	fmt.Fprintf(w, "]\n")
+	if err != nil {
+		return err
+	}
+	if errW != nil {
+		return errW
+	}
+	_, err = fmt.Fprintf(w, "\n]\n")
 	return err
 }
 
@@ -749,8 +760,9 @@ func (mt *MerkleTree) DumpClaims(rootKey *Hash) ([]string, error) {
 }
 
 // ImportClaims parses and adds the dumped list of claims in hex from the
-// DumpClaims function.
+// DumpClaims function.  If any of them is malformed, none is added.
 func (mt *MerkleTree) ImportDumpedClaims(dumpedClaims []string) error {
+	entries := make([]*Entry, 0, len(dumpedClaims))
 	for _, c := range dumpedClaims {
 		c = strings.TrimPrefix(c, "0x")
 		if len(c) != 2*ElemBytesLen*DataLen { // 2*ElemBytesLen because is in Hexadecimal string, so each byte is represented by 2 char
@@ -766,9 +778,13 @@ func (mt *MerkleTree) ImportDumpedClaims(dumpedClaims []string) error {
 		}
 		d = *NewDataFromBytes(dataBytes)
 		e.Data = d
-
-		err = mt.AddEntry(&e)
-		if err != nil {
+		if !CheckEntryInField(e) {
+			return errors.New("Elements not inside the Finite Field over R")
+		}
+		entries = append(entries, &e)
+	}
+	for _, e := range entries {
+		if err := mt.AddEntry(e); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From 836199820fe11aa61e6cfb90df57855296a50a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:10 +0000
Subject: [PATCH 59/70] fix: the public data of the local publication is not
 shared with its callers

---
 components/idenpuboffchain/local/local.go | 25 +++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/components/idenpuboffchain/local/local.go b/components/idenpuboffchain/local/local.go
index 02ee268..5357233 100644
--- a/components/idenpuboffchain/local/local.go
+++ b/components/idenpuboffchain/local/local.go
@@ -27,6 +27,23 @@ func NewIdenPubOffChain(url string) *IdenPubOffChain {
 	}
 }
 
+// copyPublicData returns a copy with its own hashes: the ones of the caller may
+// change.
+func copyPublicData(publicData *idenpuboffchain.PublicData) *idenpuboffchain.PublicData {
+	copyHash := func(h *merkletree.Hash) *merkletree.Hash {
+		hashCopy := *h
+		return &hashCopy
+	}
+	return &idenpuboffchain.PublicData{
+		IdenState:           copyHash(publicData.IdenState),
+		ClaimsTreeRoot:      copyHash(publicData.ClaimsTreeRoot),
+		RevocationsTreeRoot: copyHash(publicData.RevocationsTreeRoot),
+		RevocationsTree:     publicData.RevocationsTree,
+		RootsTreeRoot:       copyHash(publicData.RootsTreeRoot),
+		RootsTree:           publicData.RootsTree,
+	}
+}
+
 func (ip *IdenPubOffChain) GetPublicData(idenPubUrl string, id *core.ID, idenState *merkletree.Hash) (*idenpuboffchain.PublicData, error) {
 	if ip.url != idenPubUrl {
 		return nil, fmt.Errorf("Bad URL")
@@ -44,7 +61,7 @@ func (ip *IdenPubOffChain) GetPublicData(idenPubUrl string, id *core.ID, idenSta
 	if !ok {
 		return nil, fmt.Errorf("idenState not found")
 	}
-	return data, nil
+	return copyPublicData(data), nil
 }
 
 func (ip *IdenPubOffChain) Url() string {
@@ -54,7 +71,7 @@ func (ip *IdenPubOffChain) Url() string {
 func (ip *IdenPubOffChain) Publish(id *core.ID, publicData *idenpuboffchain.PublicData) error {
 	// The trees of the identity keep growing after the publication, so take
 	// snapshots of them.
-	data := *publicData
+	data := copyPublicData(publicData)
 	var err error
 	if data.RevocationsTree, err = publicData.RevocationsTree.Snapshot(publicData.RevocationsTreeRoot); err != nil {
 		return err
@@ -72,7 +89,7 @@ func (ip *IdenPubOffChain) Publish(id *core.ID, publicData *idenpuboffchain.Publ
 		}
 		ip.idens[*id] = iden
 	}
-	iden.datas[*publicData.IdenState] = &data
-	iden.last = publicData.IdenState
+	iden.datas[*data.IdenState] = data
+	iden.last = data.IdenState
 	return nil
 }
-- 
2.43.0


From ef895f185f94546cec6fb6bcb6c23c2ff33afc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:52 +0000
Subject: [PATCH 60/70] fix: what an issuer hands out is not shared with it

---
 identity/issuer/issuer.go | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 5fc812c..3823762 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -149,7 +149,8 @@ func (is *Issuer) loadIdenStateDataOnChain() error {
 func (is *Issuer) IdenStateOnChain() *merkletree.Hash {
 	is.rw.RLock()
 	defer is.rw.RUnlock()
-	return is.idenStateOnChain()
+	idenState := *is.idenStateOnChain()
+	return &idenState
 }
 
 func (is *Issuer) idenStateOnChain() *merkletree.Hash {
@@ -159,7 +160,9 @@ func (is *Issuer) idenStateOnChain() *merkletree.Hash {
 func (is *Issuer) IdenStatePending() (*merkletree.Hash, bool) {
 	is.rw.RLock()
 	defer is.rw.RUnlock()
-	return is.idenStatePending()
+	idenStatePending, transacted := is.idenStatePending()
+	idenState := *idenStatePending
+	return &idenState, transacted
 }
 
 func (is *Issuer) idenStatePending() (*merkletree.Hash, bool) {
@@ -504,17 +507,29 @@ func (is *Issuer) State() (*merkletree.Hash, IdenStateTreeRoots) {
 func (is *Issuer) StateDataOnChain() *proof.IdenStateData {
 	is.rw.RLock()
 	defer is.rw.RUnlock()
-	return is.idenStateDataOnChain()
+	return copyIdenStateData(is.idenStateDataOnChain())
+}
+
+// copyIdenStateData returns a copy that the caller can modify.
+func copyIdenStateData(idenStateData *proof.IdenStateData) *proof.IdenStateData {
+	idenState := *idenStateData.IdenState
+	return &proof.IdenStateData{
+		BlockN:    idenStateData.BlockN,
+		BlockTs:   idenStateData.BlockTs,
+		IdenState: &idenState,
+	}
 }
 
 // ID returns the Issuer ID (Identity ID).
 func (is *Issuer) ID() *core.ID {
-	return is.id
+	id := *is.id
+	return &id
 }
 
 // KeyOperational returns the identity's operational key.
 func (is *Issuer) KeyOperational() *babyjub.PublicKeyComp {
-	return is.kOpComp
+	kOpComp := *is.kOpComp
+	return &kOpComp
 }
 
 // SyncIdenStatePublic updates the IdenStateOnChain and IdenStatePending from
@@ -958,8 +973,8 @@ func (is *Issuer) GenCredentialExistence(claim merkletree.Entrier) (*proof.Crede
 		}
 	}
 	return &proof.CredentialExistence{
-		Id:                  is.id,
-		IdenStateData:       *idenStateData,
+		Id:                  is.ID(),
+		IdenStateData:       *copyIdenStateData(idenStateData),
 		MtpClaim:            mtpExist,
 		Claim:               claimEntry,
 		RevocationsTreeRoot: idenStateTreeRoots.RevocationsTreeRoot,
-- 
2.43.0


From 59b3b58bb25622840e8f42943a7bbe718a742d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:59 +0000
Subject: [PATCH 61/70] fix: an empty public data address is refused instead of
 crashing the reader

---
 components/httpclient/httpclient.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/components/httpclient/httpclient.go b/components/httpclient/httpclient.go
index 4eb43f5..2e05ddf 100644
--- a/components/httpclient/httpclient.go
+++ b/components/httpclient/httpclient.go
@@ -3,6 +3,7 @@ package httpclient
 import (
 	"fmt"
 	"reflect"
+	"strings"
 
 	"github.com/dghubble/sling"
 	"gopkg.in/go-playground/validator.v9"
@@ -23,7 +24,7 @@ type HttpClient struct {
 }
 
 func NewHttpClient(urlBase string) *HttpClient {
-	if urlBase[len(urlBase)-1] != '/' {
+	if !strings.HasSuffix(urlBase, "/") {
 		urlBase += "/"
 	}
 	client := sling.New().Base(urlBase)
-- 
2.43.0


From 3a627bf9bed8f59bf2434a88fabf216f4d1dabff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:59 +0000
Subject: [PATCH 62/70] fix: the configuration of a publication writer is its
 own

---
 components/idenpuboffchain/writerhttp/writerhttp.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/components/idenpuboffchain/writerhttp/writerhttp.go b/components/idenpuboffchain/writerhttp/writerhttp.go
index 9f6929a..35cc34a 100644
--- a/components/idenpuboffchain/writerhttp/writerhttp.go
+++ b/components/idenpuboffchain/writerhttp/writerhttp.go
@@ -48,10 +48,12 @@ func NewIdenPubOffChainWriteHttp(cfg *Config, storage db.Storage) (*IdenPubOffCh
 	if cfg.CacheLen == 0 {
 		return nil, ErrInvalidCacheLen
 	}
+	// A copy: the configuration of the caller may change later.
+	cfgCopy := *cfg
 	i := IdenPubOffChainWriteHttp{
 		rw:      &sync.RWMutex{},
 		storage: storage,
-		cfg:     cfg,
+		cfg:     &cfgCopy,
 	}
 	tx, err := i.storage.NewTx()
 	if err != nil {
-- 
2.43.0


From b351e6788f5e44ada618fc7f9858778c1d8c163b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:22 +0000
Subject: [PATCH 63/70] fix: a claim with an expiration date close to the
 maximum isn't taken for expired

---
 components/verifier/verifier.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/components/verifier/verifier.go b/components/verifier/verifier.go
index 16a22e8..6ce1093 100644
--- a/components/verifier/verifier.go
+++ b/components/verifier/verifier.go
@@ -132,7 +132,10 @@ func (v *Verifier) VerifyCredentialValidity(credValid *proof.CredentialValidity,
 	metadata.Unmarshal(credValid.CredentialExistence.Claim)
 	if metadata.Header().Expiration {
 		now := v.timeNow()
-		if time.Unix(metadata.Expiration, 0).Before(now) {
+		// Not with time.Unix, which overflows when the expiration date
+		// is close to the maximum.
+		if metadata.Expiration < now.Unix() ||
+			(metadata.Expiration == now.Unix() && now.Nanosecond() > 0) {
 			return ErrClaimExpired
 		}
 	}
-- 
2.43.0


From e95aa6807f4849c0e16b3574a32658000a16cd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:30 +0000
Subject: [PATCH 64/70] fix: PrintGraphViz prints the tree of the given root,
 not the current one

---
 merkletree/merkletree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 014e8f7..62cb865 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -574,7 +574,7 @@ func (mt *MerkleTree) PrintGraphViz(rootKey *Hash) error {
 	}
 	w := bytes.NewBufferString("")
 	fmt.Fprintf(w, "--------\nGraphViz of the MerkleTree with RootKey "+rootKey.Hex()+"\n")
-	err := mt.GraphViz(w, nil)
+	err := mt.GraphViz(w, rootKey)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 92cef34ca7b748adc09cdaede019439815d112cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:30 +0000
Subject: [PATCH 65/70] fix: the keys of empty nodes that are handed out aren't
 HashZero itself, which its users could change

---
 merkletree/merkletree.go | 4 ++--
 merkletree/node.go       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 62cb865..0b95f7d 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -943,7 +943,7 @@ func SiblingsFromProof(proof *Proof) []*Hash {
 			siblings = append(siblings, proof.Siblings[sibIdx])
 			sibIdx++
 		} else {
-			siblings = append(siblings, &HashZero)
+			siblings = append(siblings, &Hash{})
 		}
 	}
 	return siblings
@@ -1042,7 +1042,7 @@ func RootFromProof(proof *Proof, hIndex, hValue *Hash) (*Hash, error) {
 		}
 	} else {
 		if proof.NodeAux == nil {
-			midKey = &HashZero
+			midKey = &Hash{}
 		} else {
 			if proof.NodeAux.HIndex == nil || proof.NodeAux.HValue == nil {
 				return nil, ErrIncompleteProof
diff --git a/merkletree/node.go b/merkletree/node.go
index 4883427..2dd7848 100644
--- a/merkletree/node.go
+++ b/merkletree/node.go
@@ -111,9 +111,9 @@ func (n *Node) Key() (*Hash, error) {
 				return nil, err
 			}
 		case NodeTypeEmpty: // Zero
-			n.key = &HashZero
+			n.key = &Hash{}
 		default:
-			n.key = &HashZero
+			n.key = &Hash{}
 		}
 	}
 	return n.key, nil
-- 
2.43.0


From 6b2620036892c1038cd87277cbacbf152acdf1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:30 +0000
Subject: [PATCH 66/70] fix: a tree with more levels than a hash has bits
 doesn't crash

---
 merkletree/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merkletree/utils.go b/merkletree/utils.go
index 6ee06ee..0f288b0 100644
--- a/merkletree/utils.go
+++ b/merkletree/utils.go
@@ -115,7 +115,7 @@ func HashElemsKey(key *big.Int, elems ...ElemBytes) (*Hash, error) {
 // getPath returns the binary path, from the root to the leaf.
 func getPath(numLevels int, hIndex *Hash) []bool {
 	path := make([]bool, numLevels)
-	for n := 0; n < numLevels; n++ {
+	for n := 0; n < numLevels && n < 8*len(hIndex); n++ {
 		path[n] = common.TestBit(hIndex[:], uint(n))
 	}
 	return path
-- 
2.43.0


From 5457c0355d3b7fb6101a2db963616c94b70d69f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:30 +0000
Subject: [PATCH 67/70] fix: a holder refuses an incomplete credential instead
 of crashing

---
 identity/holder/holder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/identity/holder/holder.go b/identity/holder/holder.go
index c9c32bb..bcb686d 100644
--- a/identity/holder/holder.go
+++ b/identity/holder/holder.go
@@ -33,6 +33,7 @@ var (
 	ErrRootNotFound                   = fmt.Errorf("claims tree root not found in roots tree.")
 	ErrFailedVerifyZkProofCredential  = fmt.Errorf("failed verifing generated zk proof of credential")
 	ErrCalculatedIdenStateDoesntMatch = fmt.Errorf("Calculated IdenState from public data doesn't match the one queried")
+	ErrIncompleteCredential           = fmt.Errorf("the credential is incomplete")
 )
 
 var ConfigDefault = Config{Config: issuer.ConfigDefault}
@@ -93,6 +94,9 @@ type CredentialValidityAux struct {
 // a validity proof from a credential existence proof.
 func (h *Holder) HolderGetCredentialValidityData(
 	credExist *proof.CredentialExistence) (*CredentialValidityAux, error) {
+	if credExist.Id == nil || credExist.Claim == nil || credExist.MtpClaim == nil {
+		return nil, ErrIncompleteCredential
+	}
 	idenStateData, err := h.idenPubOnChain.GetState(credExist.Id)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 4c2f2a5c9d3e4a95a4b816a175c4180c9644def7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:19 +0000
Subject: [PATCH 68/70] fix: a credential request reports a storage error as
 such, not as a missing claim

---
 identity/issuer/issuer.go | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 3823762..ba64b0d 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -923,6 +923,15 @@ func generateExistenceMTProof(mt *merkletree.MerkleTree, hi, root *merkletree.Ha
 	return mtp, nil
 }
 
+// claimNotFound translates the errors of EntryExists that tell that the claim
+// is not in the claims tree, and leaves any other error as it is.
+func claimNotFound(err error) error {
+	if err == merkletree.ErrEntryIndexNotFound || err == merkletree.ErrEntryDataNotMatch {
+		return ErrClaimNotFoundClaimsTree
+	}
+	return err
+}
+
 // GenCredentialExistence generates an existence credential (claim + proof of
 // existence) of an issued claim.  The result contains all data necessary to
 // validate the credential against the Identity State found in the blockchain.
@@ -956,21 +965,21 @@ func (is *Issuer) GenCredentialExistence(claim merkletree.Entrier) (*proof.Crede
 	}
 	mtpExist, err := generateExistenceMTProof(is.claimsTree, hi,
 		idenStateTreeRoots.ClaimsTreeRoot)
-	if err != nil {
-		// We were unable to generate a proof from the claims tree
-		// associated with the on chain identity state.  Check if the
-		// claim exists in the current claims tree.
+	if err == ErrClaimNotFoundStateOnChain {
+		// The claim is not in the claims tree associated with the on
+		// chain identity state.  Check if the claim exists in the
+		// current claims tree.
 		if err := is.claimsTree.EntryExists(claimEntry, nil); err != nil {
-			return nil, ErrClaimNotFoundClaimsTree
-		} else {
-			return nil, ErrClaimNotYetInOnChainState
-		}
-	} else {
-		// We were able to generate a proof from the claims tree with
-		// the HIndex.  Check the HValue is also valid!
-		if err := is.claimsTree.EntryExists(claimEntry, idenStateTreeRoots.ClaimsTreeRoot); err != nil {
-			return nil, ErrClaimNotFoundClaimsTree
+			return nil, claimNotFound(err)
 		}
+		return nil, ErrClaimNotYetInOnChainState
+	} else if err != nil {
+		return nil, err
+	}
+	// We were able to generate a proof from the claims tree with the HIndex.
+	// Check the HValue is also valid!
+	if err := is.claimsTree.EntryExists(claimEntry, idenStateTreeRoots.ClaimsTreeRoot); err != nil {
+		return nil, claimNotFound(err)
 	}
 	return &proof.CredentialExistence{
 		Id:                  is.ID(),
-- 
2.43.0


From 0c3876584d63c2b4133811e05841f499412702fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:52 +0000
Subject: [PATCH 69/70] fix: checking public data visits each node of an
 imported tree once

A dump of a few nodes that have the same child on both sides stands for a tree
of 2^n nodes, which kept the reader busy forever.
---
 components/idenpuboffchain/idenpuboffchain.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/components/idenpuboffchain/idenpuboffchain.go b/components/idenpuboffchain/idenpuboffchain.go
index 4c0a969..715e464 100644
--- a/components/idenpuboffchain/idenpuboffchain.go
+++ b/components/idenpuboffchain/idenpuboffchain.go
@@ -47,7 +47,13 @@ type PublicData struct {
 
 // checkNodes checks that the nodes of an imported tree, which come from an
 // untrusted source, are complete and hash to the key they are stored under.
-func checkNodes(tree *merkletree.MerkleTree, key *merkletree.Hash) error {
+// Each node is visited once, as a few nodes can stand for a huge tree when they
+// have the same child on both sides.
+func checkNodes(tree *merkletree.MerkleTree, key *merkletree.Hash, checked map[merkletree.Hash]bool) error {
+	if checked[*key] {
+		return nil
+	}
+	checked[*key] = true
 	n, err := tree.GetNode(key)
 	if err != nil {
 		return err
@@ -62,10 +68,10 @@ func checkNodes(tree *merkletree.MerkleTree, key *merkletree.Hash) error {
 	if n.Type != merkletree.NodeTypeMiddle {
 		return nil
 	}
-	if err := checkNodes(tree, n.ChildL); err != nil {
+	if err := checkNodes(tree, n.ChildL, checked); err != nil {
 		return err
 	}
-	return checkNodes(tree, n.ChildR)
+	return checkNodes(tree, n.ChildR, checked)
 }
 
 // NewPublicDataFromBlobs builds the revocation tree and the roots tree in
@@ -88,7 +94,7 @@ func NewPublicDataFromBlobs(publicDataBlobs *PublicDataBlobs) (*PublicData, erro
 		return nil, fmt.Errorf("Imported revocations tree root (%v) doesn't match the expected root (%v)",
 			revocationsTree.RootKey(), publicDataBlobs.RevocationsTreeRoot)
 	}
-	if err = checkNodes(revocationsTree, revocationsTree.RootKey()); err != nil {
+	if err = checkNodes(revocationsTree, revocationsTree.RootKey(), make(map[merkletree.Hash]bool)); err != nil {
 		return nil, err
 	}
 
@@ -99,7 +105,7 @@ func NewPublicDataFromBlobs(publicDataBlobs *PublicDataBlobs) (*PublicData, erro
 		return nil, fmt.Errorf("Imported roots tree root (%v) doesn't match the expected root (%v)",
 			rootsTree.RootKey(), publicDataBlobs.RootsTreeRoot)
 	}
-	if err = checkNodes(rootsTree, rootsTree.RootKey()); err != nil {
+	if err = checkNodes(rootsTree, rootsTree.RootKey(), make(map[merkletree.Hash]bool)); err != nil {
 		return nil, err
 	}
 	idenState, err := core.IdenStateFromRoots(&publicDataBlobs.ClaimsTreeRoot,
-- 
2.43.0


From 60cad1a87b1f464cf4959234459bca990a0eedd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:36 +0000
Subject: [PATCH 70/70] fix: an entry dump is imported whole or not at all

A dump that could not be imported to its end, because it lists an index
twice or the storage failed, left its first entries in the tree.
---
 merkletree/merkletree.go | 57 +++++++++++++++++++++++++++++++++-------
 1 file changed, 47 insertions(+), 10 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 0b95f7d..78d57db 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -398,7 +398,7 @@ func (mt *MerkleTree) addLeaf(tx db.Tx, newLeaf *Node, key *Hash,
 	if lvl > mt.maxLevels-1 {
 		return nil, ErrReachedMaxLevel
 	}
-	n, err := mt.GetNode(key)
+	n, err := mt.getNodeTx(tx, key)
 	if err != nil {
 		return nil, err
 	}
@@ -472,14 +472,7 @@ func (mt *MerkleTree) AddEntry(e *Entry) error {
 	mt.Lock()
 	defer mt.Unlock()
 
-	newNodeLeaf := NewNodeLeaf(e)
-	hIndex, err := e.HIndex()
-	if err != nil {
-		return err
-	}
-	path := getPath(mt.maxLevels, hIndex)
-
-	newRootKey, err := mt.addLeaf(tx, newNodeLeaf, mt.rootKey, 0, path)
+	newRootKey, err := mt.addEntry(tx, e, mt.rootKey)
 	if err != nil {
 		return err
 	}
@@ -492,6 +485,18 @@ func (mt *MerkleTree) AddEntry(e *Entry) error {
 	return nil
 }
 
+// addEntry adds the nodes of a new entry to the tx, on top of the tree with the
+// given root, and returns the new root.
+func (mt *MerkleTree) addEntry(tx db.Tx, e *Entry, rootKey *Hash) (*Hash, error) {
+	newNodeLeaf := NewNodeLeaf(e)
+	hIndex, err := e.HIndex()
+	if err != nil {
+		return nil, err
+	}
+	path := getPath(mt.maxLevels, hIndex)
+	return mt.addLeaf(tx, newNodeLeaf, rootKey, 0, path)
+}
+
 // walk is a helper recursive function to iterate over all tree branches
 func (mt *MerkleTree) walk(key *Hash, f func(*Node)) error {
 	n, err := mt.GetNode(key)
@@ -783,11 +788,31 @@ func (mt *MerkleTree) ImportDumpedClaims(dumpedClaims []string) error {
 		}
 		entries = append(entries, &e)
 	}
+	if len(entries) == 0 {
+		return nil
+	}
+	// All the entries are added at once, or none.
+	if !mt.writable {
+		return ErrNotWritable
+	}
+	tx, err := mt.storage.NewTx()
+	if err != nil {
+		return err
+	}
+	mt.Lock()
+	defer mt.Unlock()
+	rootKey := mt.rootKey
 	for _, e := range entries {
-		if err := mt.AddEntry(e); err != nil {
+		rootKey, err = mt.addEntry(tx, e, rootKey)
+		if err != nil {
 			return err
 		}
 	}
+	mt.dbInsert(tx, rootNodeValue, DBEntryTypeRoot, rootKey[:])
+	if err := tx.Commit(); err != nil {
+		return err
+	}
+	mt.rootKey = rootKey
 	return nil
 }
 
@@ -1096,6 +1121,18 @@ func (mt *MerkleTree) GetNode(key *Hash) (*Node, error) {
 	return NewNodeFromBytes(nBytes)
 }
 
+// getNodeTx gets a node by key, which can be one that was added in the tx.
+func (mt *MerkleTree) getNodeTx(tx db.Tx, key *Hash) (*Node, error) {
+	if bytes.Equal(key[:], HashZero[:]) {
+		return NewNodeEmpty(), nil
+	}
+	nBytes, err := tx.Get(key[:])
+	if err != nil {
+		return nil, err
+	}
+	return NewNodeFromBytes(nBytes)
+}
+
 // addNode adds a node into the MT.  Empty nodes are not stored in the tree;
 // they are all the same and assumed to always exist.
 func (mt *MerkleTree) addNode(tx db.Tx, n *Node) (*Hash, error) {
-- 
2.43.0

