From e7c2deb7f9aee5fd63c1df6555069a3d676cc270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:28 +0000
Subject: [PATCH 01/69] fix: compare all the elements of the data of two
 entries

Data.Equal only compared the index half, so EntryExists accepted an entry
whose value differs from the one in the tree.
---
 merkletree/merkletree.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index b3d2dcf..41d8f17 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -78,8 +78,7 @@ func (d *Data) Bytes() (b [ElemBytesLen * DataLen]byte) {
 }
 
 func (d1 *Data) Equal(d2 *Data) bool {
-	return bytes.Equal(d1[0][:], d2[0][:]) && bytes.Equal(d1[1][:], d2[1][:]) &&
-		bytes.Equal(d1[2][:], d2[2][:]) && bytes.Equal(d1[3][:], d2[3][:])
+	return *d1 == *d2
 }
 
 func (d Data) MarshalText() ([]byte, error) {
-- 
2.43.0


From 0461b9834d086b38dcb136abef4c98b84d43b594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:02 +0000
Subject: [PATCH 02/69] fix: refuse serialized proofs deeper than their bitmap

NewProofFromBytes panicked on a depth between 241 and 255.
---
 merkletree/merkletree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 41d8f17..8519a44 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -786,6 +786,10 @@ func NewProofFromBytes(bs []byte) (*Proof, error) {
 		p.Existence = true
 	}
 	p.depth = uint(bs[1])
+	if p.depth > uint(8*len(p.notempties)) {
+		// The bitmap of non-empty siblings can't describe this many levels
+		return nil, ErrInvalidProofBytes
+	}
 	copy(p.notempties[:], bs[proofFlagsLen:ElemBytesLen])
 	siblingBytes := bs[ElemBytesLen:]
 	sibIdx := 0
-- 
2.43.0


From 6bf7d3c68ed0ca70acfeebed76527fbc810bdf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:13 +0000
Subject: [PATCH 03/69] fix: refuse to import a dump into a read-only merkle
 tree

ImportTree ran on snapshots, replacing the root stored by the tree the
snapshot was taken from.
---
 merkletree/merkletree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 8519a44..ced20fb 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -669,6 +669,10 @@ func deserializeKV(r io.Reader) ([]byte, []byte, error) {
 
 // ImportTree imports the tree from the output from the DumpTree function
 func (mt *MerkleTree) ImportTree(i io.Reader) error {
+	// verify that the MerkleTree is writable
+	if !mt.writable {
+		return ErrNotWritable
+	}
 	tx, err := mt.storage.NewTx()
 	if err != nil {
 		return err
-- 
2.43.0


From 809960b949903f30851db42495cde605ad16e7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:14 +0000
Subject: [PATCH 04/69] fix: store the root of an imported tree in the format
 it is read

ImportTree stored the root of the dump without its type byte, so opening
the tree again gave a shifted root; and a dump cut before its root was
accepted, taking the root from whatever the storage held.
---
 merkletree/merkletree.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index ced20fb..8422305 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -680,6 +680,7 @@ func (mt *MerkleTree) ImportTree(i io.Reader) error {
 	mt.Lock()
 	defer mt.Unlock()
 
+	var root []byte
 	r := bufio.NewReader(i)
 	for {
 		k, v, err := deserializeKV(r)
@@ -688,19 +689,23 @@ func (mt *MerkleTree) ImportTree(i io.Reader) error {
 		} else if err != nil {
 			return err
 		}
+		if bytes.Equal(k, rootNodeValue) {
+			root = v
+			continue
+		}
 		tx.Put(k, v)
 	}
-
-	v, err := tx.Get(rootNodeValue)
-	if err != nil {
-		return err
+	if len(root) != ElemBytesLen {
+		// The dump is incomplete: the root is its last element
+		return io.ErrUnexpectedEOF
 	}
+	mt.dbInsert(tx, rootNodeValue, DBEntryTypeRoot, root)
 
 	if err := tx.Commit(); err != nil {
 		return err
 	}
 	mt.rootKey = &Hash{}
-	copy(mt.rootKey[:], v)
+	copy(mt.rootKey[:], root)
 
 	return nil
 }
-- 
2.43.0


From a553a0a0e99646179cfb4dd22986cb119bebd735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:14 +0000
Subject: [PATCH 05/69] fix: keep the root of the merkle tree when the commit
 of a new entry fails

AddEntry moved to the new root before committing it, leaving the tree at a
root whose nodes were never stored.
---
 merkletree/merkletree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 8422305..f77189c 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -475,12 +475,12 @@ func (mt *MerkleTree) AddEntry(e *Entry) error {
 	if err != nil {
 		return err
 	}
-	mt.rootKey = newRootKey
-	mt.dbInsert(tx, rootNodeValue, DBEntryTypeRoot, mt.rootKey[:])
+	mt.dbInsert(tx, rootNodeValue, DBEntryTypeRoot, newRootKey[:])
 
 	if err := tx.Commit(); err != nil {
 		return err
 	}
+	mt.rootKey = newRootKey
 	return nil
 }
 
-- 
2.43.0


From 52f6aba064bafc6e8240624de50a7f07a54176c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:14 +0000
Subject: [PATCH 06/69] fix: don't reset a merkle tree whose root can't be read

NewMerkleTree took any storage error for a new tree and stored an empty
root over the existing one.
---
 merkletree/merkletree.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index f77189c..052f49f 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -228,7 +228,10 @@ type MerkleTree struct {
 func NewMerkleTree(storage db.Storage, maxLevels int) (*MerkleTree, error) {
 	mt := MerkleTree{storage: storage, maxLevels: maxLevels, writable: true}
 	_, gettedRoot, err := mt.dbGet(rootNodeValue)
-	if err != nil {
+	if err != nil && err != db.ErrNotFound {
+		return nil, err
+	}
+	if err == db.ErrNotFound {
 		tx, err := mt.storage.NewTx()
 		if err != nil {
 			return nil, err
-- 
2.43.0


From ba6f70519e2e655ef9ef106f7bc082808b0c7082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:49 +0000
Subject: [PATCH 07/69] fix: write the dump of the claims as valid JSON

DumpClaimsIoWriter left a comma after the last claim.
---
 merkletree/merkletree.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 052f49f..3dcc636 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -716,13 +716,15 @@ func (mt *MerkleTree) ImportTree(i io.Reader) error {
 // DumpClaimsIoWriter uses Walk function to get all the Claims of the tree and write
 // them to w.  The output is JSON encoded with claims in hex.
 func (mt *MerkleTree) DumpClaimsIoWriter(w io.Writer, rootKey *Hash) error {
-	fmt.Fprintf(w, "[\n")
+	fmt.Fprintf(w, "[")
+	sep := "\n"
 	err := mt.Walk(rootKey, func(n *Node) {
 		if n.Type == NodeTypeLeaf {
-			fmt.Fprintf(w, "	\"%v\",\n", common3.HexEncode(n.Entry.Bytes()))
+			fmt.Fprintf(w, "%s	\"%v\"", sep, common3.HexEncode(n.Entry.Bytes()))
+			sep = ",\n"
 		}
 	})
-	fmt.Fprintf(w, "]\n")
+	fmt.Fprintf(w, "\n]\n")
 	return err
 }
 
-- 
2.43.0


From ac71ddee7b7f9fbffddfe1e5a29d657a6d2db49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:01 +0000
Subject: [PATCH 08/69] fix: let goroutines share a memory storage

MemoryStorage accessed its map without a lock, so that reading a merkle
tree while another goroutine added an entry to it ended the process
(concurrent map read and map write).
---
 db/memory.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/db/memory.go b/db/memory.go
index 8d6dcfd..2afa00b 100644
--- a/db/memory.go
+++ b/db/memory.go
@@ -3,11 +3,14 @@ package db
 import (
 	"bytes"
 	"sort"
+	"sync"
 )
 
 type MemoryStorage struct {
 	prefix []byte
 	kv     kvMap
+	// rw protects kv, both are shared by all the prefixes
+	rw *sync.RWMutex
 }
 
 type MemoryStorageTx struct {
@@ -17,7 +20,7 @@ type MemoryStorageTx struct {
 
 func NewMemoryStorage() *MemoryStorage {
 	kvmap := make(kvMap)
-	return &MemoryStorage{[]byte{}, kvmap}
+	return &MemoryStorage{[]byte{}, kvmap, &sync.RWMutex{}}
 }
 
 func (l *MemoryStorage) Info() string {
@@ -25,7 +28,7 @@ func (l *MemoryStorage) Info() string {
 }
 
 func (m *MemoryStorage) WithPrefix(prefix []byte) Storage {
-	return &MemoryStorage{concat(m.prefix, prefix), m.kv}
+	return &MemoryStorage{concat(m.prefix, prefix), m.kv, m.rw}
 }
 
 func (m *MemoryStorage) NewTx() (Tx, error) {
@@ -34,6 +37,8 @@ func (m *MemoryStorage) NewTx() (Tx, error) {
 
 // Get retreives a value from a key in the mt.Lvl
 func (l *MemoryStorage) Get(key []byte) ([]byte, error) {
+	l.rw.RLock()
+	defer l.rw.RUnlock()
 
 	if v, ok := l.kv.Get(concat(l.prefix, key[:])); ok {
 		return v, nil
@@ -43,6 +48,7 @@ func (l *MemoryStorage) Get(key []byte) ([]byte, error) {
 
 func (l *MemoryStorage) Iterate(f func([]byte, []byte) (bool, error)) error {
 	kvs := make([]KV, 0)
+	l.rw.RLock()
 	for _, v := range l.kv {
 		if len(v.K) < len(l.prefix) || !bytes.Equal(v.K[:len(l.prefix)], l.prefix) {
 			continue
@@ -51,6 +57,7 @@ func (l *MemoryStorage) Iterate(f func([]byte, []byte) (bool, error)) error {
 		kvs = append(kvs, KV{localkey, v.V})
 
 	}
+	l.rw.RUnlock()
 	sort.SliceStable(kvs, func(i, j int) bool { return bytes.Compare(kvs[i].K, kvs[j].K) < 0 })
 
 	for _, kv := range kvs {
@@ -68,11 +75,8 @@ func (tx *MemoryStorageTx) Get(key []byte) ([]byte, error) {
 	if v, ok := tx.kv.Get(concat(tx.s.prefix, key)); ok {
 		return v, nil
 	}
-	if v, ok := tx.s.kv.Get(concat(tx.s.prefix, key)); ok {
-		return v, nil
-	}
 
-	return nil, ErrNotFound
+	return tx.s.Get(key)
 }
 
 func (tx *MemoryStorageTx) Put(k, v []byte) {
@@ -80,6 +84,8 @@ func (tx *MemoryStorageTx) Put(k, v []byte) {
 }
 
 func (tx *MemoryStorageTx) Commit() error {
+	tx.s.rw.Lock()
+	defer tx.s.rw.Unlock()
 	for _, v := range tx.kv {
 		tx.s.kv.Put(v.K, v.V)
 	}
-- 
2.43.0


From 505e69ad01cb8814a10811d5e4b15ef9773cb905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:02 +0000
Subject: [PATCH 09/69] fix: give every key of a storage list its own bytes

NewStorageList appended the three suffixes to the caller's prefix, so with
spare capacity in the prefix they overwrote each other.
---
 db/storageutils.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/db/storageutils.go b/db/storageutils.go
index a1d131b..9da143a 100644
--- a/db/storageutils.go
+++ b/db/storageutils.go
@@ -44,9 +44,9 @@ type StorageList struct {
 // the dbPrefix in a Storage.
 func NewStorageList(dbPrefix []byte) *StorageList {
 	return &StorageList{
-		length:            NewStorageValue(append(dbPrefix, []byte("len")...)),
-		dbPrefixList:      append(dbPrefix, []byte("list:")...),
-		dbPrefixListByIdx: append(dbPrefix, []byte("byidx:")...),
+		length:            NewStorageValue(concat(dbPrefix, []byte("len"))),
+		dbPrefixList:      concat(dbPrefix, []byte("list:")),
+		dbPrefixListByIdx: concat(dbPrefix, []byte("byidx:")),
 	}
 }
 
@@ -67,8 +67,8 @@ func (sl *StorageList) Append(tx Tx, key []byte, value interface{}) error {
 	}
 	var idxBytes [4]byte
 	binary.LittleEndian.PutUint32(idxBytes[:], idx)
-	tx.Put(append(sl.dbPrefixList, key...), valueJSON)
-	tx.Put(append(sl.dbPrefixListByIdx, idxBytes[:]...), key)
+	tx.Put(concat(sl.dbPrefixList, key), valueJSON)
+	tx.Put(concat(sl.dbPrefixListByIdx, idxBytes[:]), key)
 	sl.length.Set(tx, idx+1)
 	return nil
 }
@@ -77,7 +77,7 @@ func (sl *StorageList) Append(tx Tx, key []byte, value interface{}) error {
 func (sl *StorageList) GetByIdx(tx Tx, idx uint32, value interface{}) ([]byte, error) {
 	var idxBytes [4]byte
 	binary.LittleEndian.PutUint32(idxBytes[:], idx)
-	key, err := tx.Get(append(sl.dbPrefixListByIdx, idxBytes[:]...))
+	key, err := tx.Get(concat(sl.dbPrefixListByIdx, idxBytes[:]))
 	if err != nil {
 		return nil, err
 	}
@@ -87,7 +87,7 @@ func (sl *StorageList) GetByIdx(tx Tx, idx uint32, value interface{}) ([]byte, e
 
 // GetByIdx returns the value given the key of the StorageList in an open db transaction.
 func (sl *StorageList) Get(tx Tx, key []byte, value interface{}) error {
-	valueJSON, err := tx.Get(append(sl.dbPrefixList, key...))
+	valueJSON, err := tx.Get(concat(sl.dbPrefixList, key))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 5ace30fb50ce393a654f9372e96fbf46ccfcaf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:45 +0000
Subject: [PATCH 10/69] fix: keep stored values apart from the caller's buffers

---
 db/kvmap.go  | 8 ++++++--
 db/memory.go | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/db/kvmap.go b/db/kvmap.go
index b36dddd..16d67be 100644
--- a/db/kvmap.go
+++ b/db/kvmap.go
@@ -8,8 +8,12 @@ type kvMap map[[sha256.Size]byte]KV
 
 func (m kvMap) Get(k []byte) ([]byte, bool) {
 	v, ok := m[sha256.Sum256(k)]
-	return v.V, ok
+	if !ok {
+		return nil, false
+	}
+	return clone(v.V), true
 }
+
 func (m kvMap) Put(k, v []byte) {
-	m[sha256.Sum256(k)] = KV{k, v}
+	m[sha256.Sum256(k)] = KV{clone(k), clone(v)}
 }
diff --git a/db/memory.go b/db/memory.go
index 2afa00b..d79ae75 100644
--- a/db/memory.go
+++ b/db/memory.go
@@ -54,7 +54,7 @@ func (l *MemoryStorage) Iterate(f func([]byte, []byte) (bool, error)) error {
 			continue
 		}
 		localkey := v.K[len(l.prefix):]
-		kvs = append(kvs, KV{localkey, v.V})
+		kvs = append(kvs, KV{clone(localkey), clone(v.V)})
 
 	}
 	l.rw.RUnlock()
-- 
2.43.0


From 266ac585af8f04e3d71e459cb40f4565c218a386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:45 +0000
Subject: [PATCH 11/69] fix: describe an on-disk storage that holds an empty
 value

---
 db/leveldb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/leveldb.go b/db/leveldb.go
index fea3165..5a32be3 100644
--- a/db/leveldb.go
+++ b/db/leveldb.go
@@ -46,7 +46,7 @@ func (l *LevelDbStorage) Info() string {
 	claimcount := 0
 	iter := snapshot.NewIterator(nil, nil)
 	for iter.Next() {
-		if iter.Value()[0] == byte(1) { // TODO when the new merkletree version is ready, instead of byte(1) use the type indicator
+		if v := iter.Value(); len(v) > 0 && v[0] == byte(1) { // TODO when the new merkletree version is ready, instead of byte(1) use the type indicator
 			claimcount++
 		}
 
-- 
2.43.0


From d56e489ef231788ff383520a108a1f3e7d3272a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:37 +0000
Subject: [PATCH 12/69] fix: read the position of the subject from the flags of
 a claim

---
 core/claims/claim.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/claims/claim.go b/core/claims/claim.go
index e8628fa..dbc57d4 100644
--- a/core/claims/claim.go
+++ b/core/claims/claim.go
@@ -188,7 +188,7 @@ func (c *ClaimHeader) Unmarshal(e *merkletree.Entry) {
 	copy(c.Type[:], index[0][:ClaimTypeLen])
 	flags0 := index[0][ClaimTypeLen]
 	c.Subject = ClaimSubject(flags0 & 0b00000011)
-	c.SubjectPos = ClaimSubjectPos(flags0 & (1 << 2))
+	c.SubjectPos = ClaimSubjectPos((flags0 & (1 << 2)) >> 2)
 	c.Expiration = byte2bool(flags0 & (1 << 3))
 	c.Version = byte2bool(flags0 & (1 << 4))
 }
-- 
2.43.0


From dd3c93e23663861466e96e9c2ecac6b3703131cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:37 +0000
Subject: [PATCH 13/69] fix: refuse claim metadata without the subject it
 announces

---
 core/claims/claim.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/claims/claim.go b/core/claims/claim.go
index dbc57d4..08596d6 100644
--- a/core/claims/claim.go
+++ b/core/claims/claim.go
@@ -320,6 +320,9 @@ func (m *Metadata) UnmarshalJSON(b []byte) error {
 		return err
 	}
 	if m.header.Subject != ClaimSubjectSelf {
+		if metadata.ID == nil {
+			return errors.New("missing ID of the subject in the claim metadata")
+		}
 		m.Subject = metadata.ID
 	}
 	if m.header.Expiration {
-- 
2.43.0


From 7b862d4591336c1f64998db24b349210233e10b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:37 +0000
Subject: [PATCH 14/69] fix: give the entry of a generic claim the hashes of
 its content

---
 core/claims/utils.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/claims/utils.go b/core/claims/utils.go
index 757d865..d46e733 100644
--- a/core/claims/utils.go
+++ b/core/claims/utils.go
@@ -19,8 +19,11 @@ func NewClaimGeneric(entry *merkletree.Entry) *ClaimGeneric {
 }
 
 func (c *ClaimGeneric) Entry() *merkletree.Entry {
-	c.metadata.Marshal(c.entry)
-	return c.entry
+	// The metadata goes into a copy: the entry may have cached the hashes of
+	// its content.
+	e := c.entry.Clone()
+	c.metadata.Marshal(e)
+	return e
 }
 
 func (c *ClaimGeneric) Metadata() *Metadata {
-- 
2.43.0


From 8a764cd336a485441ca697fe167e6b3e6960e692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:37 +0000
Subject: [PATCH 15/69] fix: keep the metadata of claims read from hex and
 refuse other lengths

---
 core/claims/utils.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/core/claims/utils.go b/core/claims/utils.go
index d46e733..40f8c19 100644
--- a/core/claims/utils.go
+++ b/core/claims/utils.go
@@ -35,16 +35,11 @@ func HexToClaimGeneric(h string) (ClaimGeneric, error) {
 	if err != nil {
 		return ClaimGeneric{}, err
 	}
-	var dataBytes [merkletree.ElemBytesLen * merkletree.DataLen]byte
-	copy(dataBytes[:], bytesValue)
-	data := merkletree.NewDataFromBytes(dataBytes)
-	entry := merkletree.Entry{
-		Data: *data,
-	}
-	entrier := ClaimGeneric{
-		entry: &entry,
+	entry, err := merkletree.NewEntryFromBytes(bytesValue)
+	if err != nil {
+		return ClaimGeneric{}, err
 	}
-	return entrier, nil
+	return *NewClaimGeneric(entry), nil
 }
 
 func HexArrayToClaimGenericArray(arrH []string) ([]ClaimGeneric, error) {
-- 
2.43.0


From a115ad44923e5de6e3657d215f5d7e3e4968f353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:57 +0000
Subject: [PATCH 16/69] fix: don't close a transaction that couldn't be opened

---
 identity/issuer/issuer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index dd80a2d..488b61f 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -660,10 +660,10 @@ func (is *Issuer) PublishState() error {
 	idenState, idenStateTreeRoots := is.state()
 
 	tx0, err := is.storage.NewTx() // Read only Tx
-	defer tx0.Close()
 	if err != nil {
 		return err
 	}
+	defer tx0.Close()
 	idenStateLast, idenStateTreeRootsLast, err := is.getIdenStateByIdx(tx0, -1)
 	if err != nil {
 		return err
-- 
2.43.0


From 67095cf7fd2f0da1a12af0b91b4c0c7c65dd54d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:57 +0000
Subject: [PATCH 17/69] fix: publish the pending state when publishing is tried
 again

---
 identity/issuer/issuer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 488b61f..859a2ea 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -703,7 +703,10 @@ func (is *Issuer) PublishState() error {
 			return err
 		}
 	} else {
-		idenStateLast, idenStateTreeRootsLast, err = is.getIdenStateByIdx(tx0, -2)
+		// Publish the pending state, even when the trees have changed
+		// since it was calculated.
+		idenState, idenStateTreeRoots = idenStateLast, *idenStateTreeRootsLast
+		idenStateLast, _, err = is.getIdenStateByIdx(tx0, -2)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 73d1a4f270769c261c876a128f90b4fda29d6518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:57 +0000
Subject: [PATCH 18/69] fix: let publishing be tried again after the roots tree
 was updated

---
 identity/issuer/issuer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 859a2ea..8925992 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -682,7 +682,10 @@ func (is *Issuer) PublishState() error {
 		// If the ClaimsTreeRoot has changed (claims have been added), add the
 		// ClaimsTreeRoot to the RootsTree.
 		if !idenStateTreeRoots.ClaimsTreeRoot.Equals(idenStateTreeRootsLast.ClaimsTreeRoot) {
-			if err := claims.AddLeafRootsTree(is.rootsTree, idenStateTreeRoots.ClaimsTreeRoot); err != nil {
+			// The root is already in the tree if a previous call
+			// failed after adding it.
+			if err := claims.AddLeafRootsTree(is.rootsTree, idenStateTreeRoots.ClaimsTreeRoot); err != nil &&
+				err != merkletree.ErrEntryIndexAlreadyExists {
 				return err
 			}
 			idenState, idenStateTreeRoots = is.state()
-- 
2.43.0


From bf79dae1ddbe458c5313270216dd6e8615e92af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:58 +0000
Subject: [PATCH 19/69] fix: update the issuer in memory only after the commit

---
 identity/issuer/issuer.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 8925992..e7e146e 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -128,13 +128,13 @@ type Issuer struct {
 }
 
 //
-// Persistence setters and getters
+// Persistence setters and getters.  The setters only write to the transaction:
+// the values in memory are updated once it is commited.
 //
 
 func (is *Issuer) idenStateDataOnChain() *proof.IdenStateData { return is._idenStateDataOnChain }
 
 func (is *Issuer) setIdenStateDataOnChain(tx db.Tx, v *proof.IdenStateData) error {
-	is._idenStateDataOnChain = v
 	return db.StoreJSON(tx, dbKeyIdenStateDataOnChain, v)
 }
 
@@ -176,8 +176,6 @@ func bool2byte(v bool) byte {
 }
 
 func (is *Issuer) setIdenStatePending(tx db.Tx, v *merkletree.Hash, transacted bool) {
-	is._idenStatePending = v
-	is._idenStatePendingTransacted = transacted
 	tx.Put(dbKeyIdenStatePending, v[:])
 	tx.Put(dbKeyIdenStatePendingTransacted, []byte{bool2byte(transacted)})
 }
@@ -202,7 +200,6 @@ func (is *Issuer) loadIdenStatePending() error {
 func (is *Issuer) ethTxSetState() *types.Transaction { return is._ethTxSetState }
 
 func (is *Issuer) setEthTxSetState(tx db.Tx, v *types.Transaction) error {
-	is._ethTxSetState = v
 	return db.StoreJSON(tx, dbKeyEthTxSetState, v)
 }
 
@@ -214,7 +211,6 @@ func (is *Issuer) loadEthTxSetState() error {
 func (is *Issuer) ethTxInitState() *types.Transaction { return is._ethTxInitState }
 
 func (is *Issuer) setEthTxInitState(tx db.Tx, v *types.Transaction) error {
-	is._ethTxInitState = v
 	return db.StoreJSON(tx, dbKeyEthTxInitState, v)
 }
 
@@ -567,6 +563,8 @@ func (is *Issuer) SyncIdenStatePublic() error {
 		if err := tx.Commit(); err != nil {
 			return err
 		}
+		is._idenStatePending, is._idenStatePendingTransacted = &merkletree.HashZero, false
+		is._idenStateDataOnChain = idenStateData
 		return nil
 	}
 
@@ -705,6 +703,7 @@ func (is *Issuer) PublishState() error {
 		if err := tx.Commit(); err != nil {
 			return err
 		}
+		is._idenStatePending, is._idenStatePendingTransacted = idenState, false
 	} else {
 		// Publish the pending state, even when the trees have changed
 		// since it was calculated.
@@ -727,6 +726,7 @@ func (is *Issuer) PublishState() error {
 		return err
 	}
 
+	ethTxInitState, ethTxSetState := is.ethTxInitState(), is.ethTxSetState()
 	if is.idenStateOnChain().Equals(&merkletree.HashZero) {
 		// Identity State not present in the Smart Contract. First time
 		// publishing it.
@@ -738,6 +738,7 @@ func (is *Issuer) PublishState() error {
 		if err := is.setEthTxInitState(tx, ethTx); err != nil {
 			return err
 		}
+		ethTxInitState = ethTx
 	} else {
 		// Identity State already present in the Smart Contract.
 		// Update it.
@@ -749,12 +750,15 @@ func (is *Issuer) PublishState() error {
 		if err := is.setEthTxSetState(tx, ethTx); err != nil {
 			return err
 		}
+		ethTxSetState = ethTx
 	}
 	is.setIdenStatePending(tx, idenState, true)
 
 	if err := tx.Commit(); err != nil {
 		return err
 	}
+	is._ethTxInitState, is._ethTxSetState = ethTxInitState, ethTxSetState
+	is._idenStatePending, is._idenStatePendingTransacted = idenState, true
 
 	publicData := idenpuboffchain.PublicData{
 		IdenState:           idenState,
-- 
2.43.0


From d7aa8965dcb5beb24088ad82899c5f3340391d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:58 +0000
Subject: [PATCH 20/69] fix: leave the metadata of a claim that couldn't be
 issued as it was

---
 identity/issuer/issuer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index e7e146e..b3d2f53 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -595,9 +595,11 @@ func (is *Issuer) IssueClaim(claim claims.Claimer) error {
 	if err := tx.Commit(); err != nil {
 		return err
 	}
+	prevNonce := claim.Metadata().RevNonce
 	claim.Metadata().RevNonce = nonce
 	err = is.claimsTree.AddClaim(claim)
 	if err != nil {
+		claim.Metadata().RevNonce = prevNonce
 		return err
 	}
 	return nil
-- 
2.43.0


From 8e671d95d372616bfde3517cf41f2873d1cbf59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:58 +0000
Subject: [PATCH 21/69] fix: read the published and pending states under the
 lock

---
 identity/issuer/issuer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index b3d2f53..462b79f 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -144,6 +144,8 @@ func (is *Issuer) loadIdenStateDataOnChain() error {
 }
 
 func (is *Issuer) IdenStateOnChain() *merkletree.Hash {
+	is.rw.RLock()
+	defer is.rw.RUnlock()
 	return is._idenStateDataOnChain.IdenState
 }
 
@@ -152,6 +154,8 @@ func (is *Issuer) idenStateOnChain() *merkletree.Hash {
 }
 
 func (is *Issuer) IdenStatePending() (*merkletree.Hash, bool) {
+	is.rw.RLock()
+	defer is.rw.RUnlock()
 	return is._idenStatePending, is._idenStatePendingTransacted
 }
 
-- 
2.43.0


From c3acd930f2b76a7188b75bf281e0d2973369e283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:59 +0000
Subject: [PATCH 22/69] fix: let a state be published again when its
 transaction failed

---
 identity/issuer/issuer.go | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 462b79f..8dbfa1a 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -494,6 +494,7 @@ func (is *Issuer) SyncIdenStatePublic() error {
 	// If there's a pending state, check that the ethereum Tx was
 	// succsefully and only call GetState when the number of confirmed
 	// blocks is equal or higher than is.cfg.ConfirmBlocks
+	txFailed := false
 	idenStatePending, transacted := is.idenStatePending()
 	// (C)(idenStatePending: X, transacted: true)
 	if !idenStatePending.Equals(&merkletree.HashZero) && transacted {
@@ -508,15 +509,18 @@ func (is *Issuer) SyncIdenStatePublic() error {
 		confirmBlocks, err := is.idenPubOnChain.TxConfirmBlocks(ethTx)
 		if err == eth.ErrReceiptNotReceived {
 			return nil
+		} else if err == eth.ErrReceiptStatusFailed {
+			txFailed = true
 		} else if err != nil {
 			return fmt.Errorf("TxConfirmBlocks: %w", err)
-		}
-		log.WithField("tx", ethTx.Hash().Hex()).
-			WithField("TxConfirmBlocks", confirmBlocks).
-			WithField("cfg.ConfirmBlocks", is.cfg.ConfirmBlocks).
-			Debug("State Update Tx")
-		if confirmBlocks.Cmp(new(big.Int).SetUint64(is.cfg.ConfirmBlocks)) == -1 {
-			return nil
+		} else {
+			log.WithField("tx", ethTx.Hash().Hex()).
+				WithField("TxConfirmBlocks", confirmBlocks).
+				WithField("cfg.ConfirmBlocks", is.cfg.ConfirmBlocks).
+				Debug("State Update Tx")
+			if confirmBlocks.Cmp(new(big.Int).SetUint64(is.cfg.ConfirmBlocks)) == -1 {
+				return nil
+			}
 		}
 	}
 
@@ -548,6 +552,20 @@ func (is *Issuer) SyncIdenStatePublic() error {
 	// a. the idenStateOnchan (in this case, we still have an
 	// IdenState pending to be set on chain).
 	if idenStateData.IdenState.Equals(is.idenStateOnChain()) {
+		if txFailed {
+			// Go back to (B)(idenStatePending: X, transacted: false)
+			// so that the state can be published again.
+			log.WithField("state", idenStatePending).Warn("State Update Tx failed")
+			tx, err := is.storage.NewTx()
+			if err != nil {
+				return err
+			}
+			is.setIdenStatePending(tx, idenStatePending, false)
+			if err := tx.Commit(); err != nil {
+				return err
+			}
+			is._idenStatePendingTransacted = false
+		}
 		return nil
 	}
 
-- 
2.43.0


From 16427a47fc15047e391cc9364f68ec17509880de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:59 +0000
Subject: [PATCH 23/69] fix: publish the off chain data left behind by a failed
 publish

---
 identity/issuer/issuer.go | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 8dbfa1a..4eeca8b 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -63,6 +63,7 @@ var (
 	dbKeyIdenStatePendingTransacted = []byte("idenstatependingtxed")
 	dbKeyEthTxSetState              = []byte("ethtxsetstate")
 	dbKeyEthTxInitState             = []byte("ethtxinitstate")
+	dbKeyOffChainPending            = []byte("offchainpending")
 )
 
 var (
@@ -673,6 +674,10 @@ func (is *Issuer) PublishState() error {
 	}
 	is.rw.Lock()
 	defer is.rw.Unlock()
+	// A previous call may have failed before publishing the off chain data.
+	if err := is.publishOffChain(); err != nil {
+		return err
+	}
 	idenStatePending, transacted := is.idenStatePending()
 	// (C)(idenStatePending: X, transacted: true)
 	if !idenStatePending.Equals(&merkletree.HashZero) && transacted {
@@ -777,6 +782,7 @@ func (is *Issuer) PublishState() error {
 		ethTxSetState = ethTx
 	}
 	is.setIdenStatePending(tx, idenState, true)
+	tx.Put(dbKeyOffChainPending, []byte{bool2byte(true)})
 
 	if err := tx.Commit(); err != nil {
 		return err
@@ -784,6 +790,29 @@ func (is *Issuer) PublishState() error {
 	is._ethTxInitState, is._ethTxSetState = ethTxInitState, ethTxSetState
 	is._idenStatePending, is._idenStatePendingTransacted = idenState, true
 
+	return is.publishOffChain()
+}
+
+// publishOffChain publishes the off chain data of the last state sent to the
+// blockchain, if it hasn't been published yet.
+func (is *Issuer) publishOffChain() error {
+	tx, err := is.storage.NewTx()
+	if err != nil {
+		return err
+	}
+	pending, err := tx.Get(dbKeyOffChainPending)
+	if err == db.ErrNotFound {
+		return nil
+	} else if err != nil {
+		return err
+	}
+	if !byte2bool(pending[0]) {
+		return nil
+	}
+	idenState, idenStateTreeRoots, err := is.getIdenStateByIdx(tx, -1)
+	if err != nil {
+		return err
+	}
 	publicData := idenpuboffchain.PublicData{
 		IdenState:           idenState,
 		ClaimsTreeRoot:      idenStateTreeRoots.ClaimsTreeRoot,
@@ -797,7 +826,8 @@ func (is *Issuer) PublishState() error {
 	if err := is.idenPubOffChainWriter.Publish(is.id, &publicData); err != nil {
 		return err
 	}
-	return nil
+	tx.Put(dbKeyOffChainPending, []byte{bool2byte(false)})
+	return tx.Commit()
 }
 
 // RevokeClaim revokes an already issued claim.
-- 
2.43.0


From e761636bff7fb516955ce274def250fb4639c0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:20 +0000
Subject: [PATCH 24/69] fix: don't crash on roots of others that are not field
 elements

---
 components/idenpuboffchain/idenpuboffchain.go |  5 ++++-
 components/verifier/verifier.go               | 10 ++++++++--
 core/id.go                                    | 20 ++++++++++++++++---
 identity/holder/holder.go                     |  5 ++++-
 4 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/components/idenpuboffchain/idenpuboffchain.go b/components/idenpuboffchain/idenpuboffchain.go
index b0a9f2d..19efbb2 100644
--- a/components/idenpuboffchain/idenpuboffchain.go
+++ b/components/idenpuboffchain/idenpuboffchain.go
@@ -72,8 +72,11 @@ func NewPublicDataFromBlobs(publicDataBlobs *PublicDataBlobs) (*PublicData, erro
 		return nil, fmt.Errorf("Imported roots tree root (%v) doesn't match the expected root (%v)",
 			rootsTree.RootKey(), publicDataBlobs.RootsTreeRoot)
 	}
-	idenState := core.IdenState(&publicDataBlobs.ClaimsTreeRoot,
+	idenState, err := core.CalcIdenState(&publicDataBlobs.ClaimsTreeRoot,
 		&publicDataBlobs.RevocationsTreeRoot, &publicDataBlobs.RootsTreeRoot)
+	if err != nil {
+		return nil, err
+	}
 	if !idenState.Equals(&publicDataBlobs.IdenState) {
 		return nil, ErrCalculatedIdenStateDoesntMatch
 	}
diff --git a/components/verifier/verifier.go b/components/verifier/verifier.go
index f947ed2..2d5d512 100644
--- a/components/verifier/verifier.go
+++ b/components/verifier/verifier.go
@@ -69,7 +69,10 @@ func (v *Verifier) VerifyCredentialExistence(credExist *proof.CredentialExistenc
 	if err != nil {
 		return err
 	}
-	idenState := core.IdenState(claimsRoot, credExist.RevocationsTreeRoot, credExist.RootsTreeRoot)
+	idenState, err := core.CalcIdenState(claimsRoot, credExist.RevocationsTreeRoot, credExist.RootsTreeRoot)
+	if err != nil {
+		return err
+	}
 	if !idenState.Equals(credExist.IdenStateData.IdenState) {
 		return ErrCalculatedIdenStateDoesntMatch
 	}
@@ -149,7 +152,10 @@ func (v *Verifier) VerifyCredentialValidity(credValid *proof.CredentialValidity,
 	if err != nil {
 		return err
 	}
-	idenState := core.IdenState(credValid.ClaimsTreeRoot, revocationsTreeRoot, credValid.RootsTreeRoot)
+	idenState, err := core.CalcIdenState(credValid.ClaimsTreeRoot, revocationsTreeRoot, credValid.RootsTreeRoot)
+	if err != nil {
+		return err
+	}
 	if !idenState.Equals(credValid.IdenStateData.IdenState) {
 		return ErrCalculatedIdenStateDoesntMatch
 	}
diff --git a/core/id.go b/core/id.go
index d8968e5..610de73 100644
--- a/core/id.go
+++ b/core/id.go
@@ -153,16 +153,30 @@ func IdGenesisFromIdenState(hash *merkletree.Hash) *ID {
 }
 
 // IdenState calculates the Identity State from the Claims Tree Root, Revocation Tree Root and Roots Tree Root.
+// The roots must be field elements: use CalcIdenState for roots from an untrusted source.
 func IdenState(clr *merkletree.Hash, rer *merkletree.Hash, ror *merkletree.Hash) *merkletree.Hash {
+	idenState, err := CalcIdenState(clr, rer, ror)
+	if err != nil {
+		panic(err)
+	}
+	return idenState
+}
+
+// CalcIdenState calculates the Identity State like IdenState, but returns an
+// error when a root is missing or is not a field element.
+func CalcIdenState(clr *merkletree.Hash, rer *merkletree.Hash, ror *merkletree.Hash) (*merkletree.Hash, error) {
+	if clr == nil || rer == nil || ror == nil {
+		return nil, errors.New("IdenState error: missing root")
+	}
 	bi, err := merkletree.ElemBytesToPoseidonInput(merkletree.ElemBytes(*clr),
 		merkletree.ElemBytes(*rer),
 		merkletree.ElemBytes(*ror))
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
 	idenState, err := poseidon.PoseidonHash(bi)
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
-	return merkletree.NewHashFromBigInt(idenState)
+	return merkletree.NewHashFromBigInt(idenState), nil
 }
diff --git a/identity/holder/holder.go b/identity/holder/holder.go
index 5687ce6..6651678 100644
--- a/identity/holder/holder.go
+++ b/identity/holder/holder.go
@@ -104,8 +104,11 @@ func (h *Holder) HolderGetCredentialValidityData(
 	}
 
 	// Verify that the returned public data is consistent with the queried IdenState
-	idenState := core.IdenState(publicData.ClaimsTreeRoot, publicData.RevocationsTree.RootKey(),
+	idenState, err := core.CalcIdenState(publicData.ClaimsTreeRoot, publicData.RevocationsTree.RootKey(),
 		publicData.RootsTree.RootKey())
+	if err != nil {
+		return nil, err
+	}
 	if !idenState.Equals(idenStateData.IdenState) {
 		return nil, ErrCalculatedIdenStateDoesntMatch
 	}
-- 
2.43.0


From 81ca877e84ff7ed1226cd3b0de430a9c923bcc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:21 +0000
Subject: [PATCH 25/69] fix: refuse credentials with missing parts

---
 components/verifier/verifier.go |  6 ++++++
 core/proof/proof.go             | 23 +++++++++++++++++++++++
 identity/holder/holder.go       |  3 +++
 3 files changed, 32 insertions(+)

diff --git a/components/verifier/verifier.go b/components/verifier/verifier.go
index 2d5d512..ebd2c99 100644
--- a/components/verifier/verifier.go
+++ b/components/verifier/verifier.go
@@ -56,6 +56,9 @@ func NewWithTimeNow(idenPubOnChain idenpubonchain.IdenPubOnChainer, timeNow func
 // VerifyCredentialExistence verifies a credential of existence.  That is, that
 // the claim was issued by a particular identity.
 func (v *Verifier) VerifyCredentialExistence(credExist *proof.CredentialExistence) error {
+	if err := credExist.CheckComplete(); err != nil {
+		return err
+	}
 	if !credExist.MtpClaim.Existence {
 		return ErrMtpNonExistence
 	}
@@ -118,6 +121,9 @@ func (v *Verifier) validateFreshness(id *core.ID, idenState *merkletree.Hash, bl
 // the claim was issued by a particular identity, and that it has not been
 // revoked passed the freshness time.
 func (v *Verifier) VerifyCredentialValidity(credValid *proof.CredentialValidity, freshness time.Duration) error {
+	if err := credValid.CheckComplete(); err != nil {
+		return err
+	}
 	// If the claim has an expiration date, check that it hasn't expired.
 	var metadata claims.Metadata
 	metadata.Unmarshal(credValid.CredentialExistence.Claim)
diff --git a/core/proof/proof.go b/core/proof/proof.go
index a71c4a0..4c1d230 100644
--- a/core/proof/proof.go
+++ b/core/proof/proof.go
@@ -26,6 +26,19 @@ type CredentialExistence struct {
 	IdenPubUrl          string
 }
 
+// ErrCredentialIncomplete is returned when a credential lacks some of its parts.
+var ErrCredentialIncomplete = fmt.Errorf("credential is incomplete")
+
+// CheckComplete returns an error if any part of the credential is missing, as
+// can be the case in a credential received from someone else.
+func (c *CredentialExistence) CheckComplete() error {
+	if c.Id == nil || c.IdenStateData.IdenState == nil || c.MtpClaim == nil ||
+		c.Claim == nil || c.RevocationsTreeRoot == nil || c.RootsTreeRoot == nil {
+		return ErrCredentialIncomplete
+	}
+	return nil
+}
+
 func (c CredentialExistence) String() string {
 	type alias CredentialExistence
 	return fmt.Sprintf("%+v", alias(c))
@@ -39,6 +52,16 @@ type CredentialValidity struct {
 	RootsTreeRoot       *merkletree.Hash
 }
 
+// CheckComplete returns an error if any part of the credential is missing, as
+// can be the case in a credential received from someone else.
+func (c *CredentialValidity) CheckComplete() error {
+	if c.IdenStateData.IdenState == nil || c.MtpNotNonce == nil ||
+		c.ClaimsTreeRoot == nil || c.RootsTreeRoot == nil {
+		return ErrCredentialIncomplete
+	}
+	return c.CredentialExistence.CheckComplete()
+}
+
 func (c CredentialValidity) String() string {
 	type alias CredentialValidity
 	return fmt.Sprintf("%+v", alias(c))
diff --git a/identity/holder/holder.go b/identity/holder/holder.go
index 6651678..7365ab5 100644
--- a/identity/holder/holder.go
+++ b/identity/holder/holder.go
@@ -93,6 +93,9 @@ type CredentialValidityAux struct {
 // a validity proof from a credential existence proof.
 func (h *Holder) HolderGetCredentialValidityData(
 	credExist *proof.CredentialExistence) (*CredentialValidityAux, error) {
+	if err := credExist.CheckComplete(); err != nil {
+		return nil, err
+	}
 	idenStateData, err := h.idenPubOnChain.GetState(credExist.Id)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From e712868b1711d1bfc1c375673a11bf718e9a5408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:21 +0000
Subject: [PATCH 26/69] fix: give state updates of the local chain a
 transaction

---
 components/idenpubonchain/local/local.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/components/idenpubonchain/local/local.go b/components/idenpubonchain/local/local.go
index 2500d85..77d0eac 100644
--- a/components/idenpubonchain/local/local.go
+++ b/components/idenpubonchain/local/local.go
@@ -145,7 +145,8 @@ func (ip *IdenPubOnChain) SetState(id *core.ID, newState *merkletree.Hash,
 		IdenState: newState,
 	}
 	ip.pendingSet = append(ip.pendingSet, &IdIdenStateData{Id: id, IdenStateData: &idenState})
-	return &types.Transaction{}, nil
+	return types.NewTransaction(0, common.Address{}, nil, 0, nil,
+		new(big.Int).SetUint64(idenState.BlockN).Bytes()), nil
 }
 
 // InitState initializes the first Identity State of the given ID in the IdenStates Smart Contract.
-- 
2.43.0


From 6be0fc841ee37ee8763b13753ab245d1e58f4928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:21 +0000
Subject: [PATCH 27/69] fix: keep the trees published locally as they were
 published

---
 components/idenpuboffchain/local/local.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/components/idenpuboffchain/local/local.go b/components/idenpuboffchain/local/local.go
index 7bc7801..cc87a3e 100644
--- a/components/idenpuboffchain/local/local.go
+++ b/components/idenpuboffchain/local/local.go
@@ -52,6 +52,18 @@ func (ip *IdenPubOffChain) Url() string {
 }
 
 func (ip *IdenPubOffChain) Publish(id *core.ID, publicData *idenpuboffchain.PublicData) error {
+	// The trees of the identity will change after they are published.
+	revocationsTree, err := publicData.RevocationsTree.Snapshot(publicData.RevocationsTreeRoot)
+	if err != nil {
+		return err
+	}
+	rootsTree, err := publicData.RootsTree.Snapshot(publicData.RootsTreeRoot)
+	if err != nil {
+		return err
+	}
+	data := *publicData
+	data.RevocationsTree, data.RootsTree = revocationsTree, rootsTree
+
 	ip.rw.Lock()
 	defer ip.rw.Unlock()
 	iden, ok := ip.idens[*id]
@@ -62,7 +74,7 @@ func (ip *IdenPubOffChain) Publish(id *core.ID, publicData *idenpuboffchain.Publ
 		}
 		ip.idens[*id] = iden
 	}
-	iden.datas[*publicData.IdenState] = publicData
+	iden.datas[*publicData.IdenState] = &data
 	iden.last = publicData.IdenState
 	return nil
 }
-- 
2.43.0


From dba5088842fedd5657c9a457209f3f47e54a07dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:21 +0000
Subject: [PATCH 28/69] fix: find the last published state for any length of
 the cache

---
 components/idenpuboffchain/writerhttp/writerhttp.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/components/idenpuboffchain/writerhttp/writerhttp.go b/components/idenpuboffchain/writerhttp/writerhttp.go
index 2807ca9..66fbe29 100644
--- a/components/idenpuboffchain/writerhttp/writerhttp.go
+++ b/components/idenpuboffchain/writerhttp/writerhttp.go
@@ -134,7 +134,10 @@ func (i *IdenPubOffChainWriteHttp) prevCacheIdx(tx db.Tx) (byte, error) {
 	if err != nil {
 		return 0, err
 	}
-	return (cacheIdx[0] - 1) % i.cfg.CacheLen, nil
+	if cacheIdx[0] == 0 {
+		return i.cfg.CacheLen - 1, nil
+	}
+	return cacheIdx[0] - 1, nil
 }
 
 // nextCacheIdx returns the current cacheIdx and stores the next one.
-- 
2.43.0


From 0abd23017ad41b3b56c992a3d68a4c65453860ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:21 +0000
Subject: [PATCH 29/69] fix: report unknown states before the cache is full

---
 components/idenpuboffchain/writerhttp/writerhttp.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/components/idenpuboffchain/writerhttp/writerhttp.go b/components/idenpuboffchain/writerhttp/writerhttp.go
index 66fbe29..76e789e 100644
--- a/components/idenpuboffchain/writerhttp/writerhttp.go
+++ b/components/idenpuboffchain/writerhttp/writerhttp.go
@@ -188,7 +188,10 @@ func (i *IdenPubOffChainWriteHttp) GetPublicData(queryIdenState *merkletree.Hash
 		for ; cacheIdx < i.cfg.CacheLen; cacheIdx++ {
 			// idenState
 			idenState, err := tx.Get(keyIdx(dbKeyIdenState, cacheIdx))
-			if err != nil {
+			if err == db.ErrNotFound {
+				// The cache is not full yet.
+				return nil, ErrIdenStateNotFound
+			} else if err != nil {
 				return nil, err
 			}
 			if bytes.Equal(queryIdenState[:], idenState) {
-- 
2.43.0


From 949fc67815f23b7c0a03a13531a0fa1f9364ee47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:22 +0000
Subject: [PATCH 30/69] fix: don't crash on an empty URL

---
 components/httpclient/httpclient.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/components/httpclient/httpclient.go b/components/httpclient/httpclient.go
index 4eb43f5..c1d73db 100644
--- a/components/httpclient/httpclient.go
+++ b/components/httpclient/httpclient.go
@@ -23,7 +23,7 @@ type HttpClient struct {
 }
 
 func NewHttpClient(urlBase string) *HttpClient {
-	if urlBase[len(urlBase)-1] != '/' {
+	if urlBase == "" || urlBase[len(urlBase)-1] != '/' {
 		urlBase += "/"
 	}
 	client := sling.New().Base(urlBase)
-- 
2.43.0


From f5fd428061c26a5abc54ead5164aa6c9cad191d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:22 +0000
Subject: [PATCH 31/69] fix: don't write into the caller's buffers when signing

---
 components/idensigner/idensigner.go | 3 ++-
 crypto/signatures.go                | 2 +-
 identity/issuer/issuer.go           | 3 ++-
 keystore/keystore.go                | 7 +++----
 4 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/components/idensigner/idensigner.go b/components/idensigner/idensigner.go
index 09bac2b..e7ec3d8 100644
--- a/components/idensigner/idensigner.go
+++ b/components/idensigner/idensigner.go
@@ -4,6 +4,7 @@ import (
 	// "crypto/ecdsa"
 	// "encoding/hex"
 	// "fmt"
+	"bytes"
 	"time"
 
 	"github.com/iden3/go-iden3-core/common"
@@ -38,6 +39,6 @@ func (s *IdenSigner) SignEthMsg(msg []byte) (*babyjub.SignatureComp, error) {
 func (s *IdenSigner) SignEthMsgDate(msg []byte) (*babyjub.SignatureComp, int64, error) {
 	dateInt64 := time.Now().Unix()
 	dateBytes := common.Uint64ToEthBytes(uint64(dateInt64))
-	sig, err := s.SignEthMsg(append(msg, dateBytes...))
+	sig, err := s.SignEthMsg(bytes.Join([][]byte{msg, dateBytes}, nil))
 	return sig, dateInt64, err
 }
diff --git a/crypto/signatures.go b/crypto/signatures.go
index 6de1c6d..6a9ef1f 100644
--- a/crypto/signatures.go
+++ b/crypto/signatures.go
@@ -78,7 +78,7 @@ func VerifySigEthMsg(addr common.Address, sig *SignatureEthMsg, msg []byte) bool
 // appended given an ethereum address.
 func VerifySigEthMsgDate(addr common.Address, sig *SignatureEthMsg, msg []byte, date int64) bool {
 	dateBytes := common3.Uint64ToEthBytes(uint64(date))
-	return VerifySigEthMsg(addr, sig, append(msg[:], dateBytes...))
+	return VerifySigEthMsg(addr, sig, bytes.Join([][]byte{msg, dateBytes}, nil))
 }
 
 // VerifySig verifies a given signature and the msgHash with the expected address
diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 4eeca8b..51e33d7 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -1,6 +1,7 @@
 package issuer
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"math/big"
@@ -869,7 +870,7 @@ func (is *Issuer) Sign(string) (string, error) {
 
 // SignBinary signs a binary message by the kOp of the issuer.
 func (is *Issuer) SignBinary(prefix, msg []byte) (*babyjub.SignatureComp, error) {
-	return is.keyStore.SignRaw(is.kOpComp, append(prefix, msg...))
+	return is.keyStore.SignRaw(is.kOpComp, bytes.Join([][]byte{prefix, msg}, nil))
 }
 
 // SignState signs the Identity State transition (oldState+newState) by the kOp of the issuer.
diff --git a/keystore/keystore.go b/keystore/keystore.go
index 04ead5f..73b002b 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -1,6 +1,7 @@
 package keystore
 
 import (
+	"bytes"
 	"crypto/rand"
 	"time"
 
@@ -357,8 +358,7 @@ func (ks *KeyStore) SignElem(pk *babyjub.PublicKeyComp, msg *big.Int) (*babyjub.
 // of the [prefix | date | msg] byte slice.
 func (ks *KeyStore) Sign(pk *babyjub.PublicKeyComp, prefix PrefixType, rawMsg []byte) (*babyjub.SignatureComp, int64, error) {
 	date := time.Now()
-	msg := append(prefix, common.Uint64ToEthBytes(uint64(date.Unix()))...)
-	msg = append(msg, rawMsg...)
+	msg := bytes.Join([][]byte{prefix, common.Uint64ToEthBytes(uint64(date.Unix())), rawMsg}, nil)
 	sig, err := ks.SignRaw(pk, msg)
 	return sig, date.Unix(), err
 }
@@ -389,8 +389,7 @@ func VerifySignatureElem(pkComp *babyjub.PublicKeyComp, msg *big.Int, sigComp *b
 // VerifySignature verifies that the signature sigComp of the poseidon hash of
 // the [prefix | date | msg] byte slice was signed with the public key pkComp.
 func VerifySignature(pkComp *babyjub.PublicKeyComp, sigComp *babyjub.SignatureComp, prefix PrefixType, date int64, rawMsg []byte) (bool, error) {
-	msg := append(prefix, common.Uint64ToEthBytes(uint64(date))...)
-	msg = append(msg, rawMsg...)
+	msg := bytes.Join([][]byte{prefix, common.Uint64ToEthBytes(uint64(date)), rawMsg}, nil)
 	return VerifySignatureRaw(pkComp, sigComp, msg)
 }
 
-- 
2.43.0


From 7af6b76fff506f9205e6478f477dc676c2282542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:35 +0000
Subject: [PATCH 32/69] fix: don't take expirations very far in the future for
 past

---
 components/verifier/verifier.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/components/verifier/verifier.go b/components/verifier/verifier.go
index ebd2c99..fddb978 100644
--- a/components/verifier/verifier.go
+++ b/components/verifier/verifier.go
@@ -128,8 +128,11 @@ func (v *Verifier) VerifyCredentialValidity(credValid *proof.CredentialValidity,
 	var metadata claims.Metadata
 	metadata.Unmarshal(credValid.CredentialExistence.Claim)
 	if metadata.Header().Expiration {
+		// The seconds are compared because time.Unix overflows with
+		// expirations very far in the future.
 		now := v.timeNow()
-		if time.Unix(metadata.Expiration, 0).Before(now) {
+		if metadata.Expiration < now.Unix() ||
+			(metadata.Expiration == now.Unix() && now.Nanosecond() > 0) {
 			return ErrClaimExpired
 		}
 	}
-- 
2.43.0


From 86b409fff1c8906feb8868b74e8f92524a092d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:00 +0000
Subject: [PATCH 33/69] fix: publish off chain a state confirmed without
 knowing it was sent

---
 identity/issuer/issuer.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 51e33d7..4c83067 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -584,11 +584,21 @@ func (is *Issuer) SyncIdenStatePublic() error {
 		if err := is.setIdenStateDataOnChain(tx, idenStateData); err != nil {
 			return err
 		}
+		// (B)(idenStatePending: X, transacted: false)
+		if !transacted {
+			// The call that sent the state failed before knowing
+			// it, so the off chain data is not published yet.
+			tx.Put(dbKeyOffChainPending, []byte{bool2byte(true)})
+		}
 		if err := tx.Commit(); err != nil {
 			return err
 		}
 		is._idenStatePending, is._idenStatePendingTransacted = &merkletree.HashZero, false
 		is._idenStateDataOnChain = idenStateData
+		if err := is.publishOffChain(); err != nil {
+			// PublishState will try again.
+			log.WithError(err).Warn("Error publishing the off chain data")
+		}
 		return nil
 	}
 
-- 
2.43.0


From 0c5dab54001e95548699e85d84cd312d5a53fd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:34 +0000
Subject: [PATCH 34/69] fix: ImportTree accepted nodes that do not belong to
 their keys

---
 merkletree/merkletree.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 3dcc636..7699565 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -670,7 +670,8 @@ func deserializeKV(r io.Reader) ([]byte, []byte, error) {
 	return kv[:kLen], kv[kLen:], nil
 }
 
-// ImportTree imports the tree from the output from the DumpTree function
+// ImportTree imports the tree from the output from the DumpTree function.  The
+// nodes are verified against their keys, the root is not verified.
 func (mt *MerkleTree) ImportTree(i io.Reader) error {
 	// verify that the MerkleTree is writable
 	if !mt.writable {
@@ -696,6 +697,18 @@ func (mt *MerkleTree) ImportTree(i io.Reader) error {
 			root = v
 			continue
 		}
+		// The key of each node must be the hash of its content
+		n, err := NewNodeFromBytes(v)
+		if err != nil {
+			return err
+		}
+		key, err := n.Key()
+		if err != nil {
+			return err
+		}
+		if !bytes.Equal(k, key[:]) {
+			return ErrInvalidNodeFound
+		}
 		tx.Put(k, v)
 	}
 	if len(root) != ElemBytesLen {
-- 
2.43.0


From 836fd8dcc1d87cb13f97a176990b0834153d4781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:27 +0000
Subject: [PATCH 35/69] fix: readerhttp returned the data of another state than
 the requested one

---
 components/idenpuboffchain/readerhttp/readerhttp.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/components/idenpuboffchain/readerhttp/readerhttp.go b/components/idenpuboffchain/readerhttp/readerhttp.go
index f95637e..6d328e1 100644
--- a/components/idenpuboffchain/readerhttp/readerhttp.go
+++ b/components/idenpuboffchain/readerhttp/readerhttp.go
@@ -9,6 +9,10 @@ import (
 	"github.com/iden3/go-iden3-core/merkletree"
 )
 
+var (
+	ErrIdenStateDoesntMatch = fmt.Errorf("the received public data is not of the requested identity state")
+)
+
 // IdenPubOffChainReadHttp satisfies the IdenPubOffChainRead interface, and reads the off chain public state of an identity from a IdenPubOffChainWriteHttp.
 type IdenPubOffChainReadHttp struct {
 }
@@ -37,5 +41,8 @@ func (i *IdenPubOffChainReadHttp) GetPublicData(idenPubUrl string, id *core.ID,
 	if err != nil {
 		return nil, err
 	}
+	if idenState != nil && !publicData.IdenState.Equals(idenState) {
+		return nil, ErrIdenStateDoesntMatch
+	}
 	return publicData, nil
 }
-- 
2.43.0


From 26935e29593a354dbe9d60d591a950b57594fe69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:27 +0000
Subject: [PATCH 36/69] fix: writerhttp crashed publishing with a cache length
 of 0

---
 components/idenpuboffchain/writerhttp/writerhttp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/components/idenpuboffchain/writerhttp/writerhttp.go b/components/idenpuboffchain/writerhttp/writerhttp.go
index 76e789e..999175d 100644
--- a/components/idenpuboffchain/writerhttp/writerhttp.go
+++ b/components/idenpuboffchain/writerhttp/writerhttp.go
@@ -13,6 +13,7 @@ import (
 
 var (
 	ErrIdenStateNotFound = fmt.Errorf("identity state not found in the cache")
+	ErrInvalidCacheLen   = fmt.Errorf("the cache length must be at least 1")
 )
 
 var (
@@ -44,6 +45,9 @@ type IdenPubOffChainWriteHttp struct {
 
 // NewIdenPubOffChainWriteHttp returns a new IdenPubOffChainWriteHttp
 func NewIdenPubOffChainWriteHttp(cfg *Config, storage db.Storage) (*IdenPubOffChainWriteHttp, error) {
+	if cfg.CacheLen == 0 {
+		return nil, ErrInvalidCacheLen
+	}
 	i := IdenPubOffChainWriteHttp{
 		rw:      &sync.RWMutex{},
 		storage: storage,
-- 
2.43.0


From d384eb06cab875d368d59779383f52bb3f37dfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:13 +0000
Subject: [PATCH 37/69] fix: keep writes to the local chain apart from the
 caller's buffers

---
 components/idenpubonchain/local/local.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/components/idenpubonchain/local/local.go b/components/idenpubonchain/local/local.go
index 77d0eac..5e6047e 100644
--- a/components/idenpubonchain/local/local.go
+++ b/components/idenpubonchain/local/local.go
@@ -139,12 +139,13 @@ func (ip *IdenPubOnChain) SetState(id *core.ID, newState *merkletree.Hash,
 	if !ip.verifyZKP(zkProof, id, oldState, newState) {
 		return nil, fmt.Errorf("zkproof verification failed")
 	}
+	idCopy, stateCopy := *id, *newState
 	idenState := proof.IdenStateData{
 		BlockN:    ip.blockNow(),
 		BlockTs:   ip.timeNow().Unix(),
-		IdenState: newState,
+		IdenState: &stateCopy,
 	}
-	ip.pendingSet = append(ip.pendingSet, &IdIdenStateData{Id: id, IdenStateData: &idenState})
+	ip.pendingSet = append(ip.pendingSet, &IdIdenStateData{Id: &idCopy, IdenStateData: &idenState})
 	return types.NewTransaction(0, common.Address{}, nil, 0, nil,
 		new(big.Int).SetUint64(idenState.BlockN).Bytes()), nil
 }
@@ -162,14 +163,15 @@ func (ip *IdenPubOnChain) InitState(id *core.ID, genesisState,
 	if !ip.verifyZKP(zkProof, id, genesisState, newState) {
 		return nil, fmt.Errorf("zkproof verification failed")
 	}
+	idCopy, stateCopy := *id, *newState
 	idenState := proof.IdenStateData{
 		BlockN:    ip.blockNow(),
 		BlockTs:   ip.timeNow().Unix(),
-		IdenState: newState,
+		IdenState: &stateCopy,
 	}
-	ip.pendingInit = append(ip.pendingInit, &IdIdenStateData{Id: id, IdenStateData: &idenState})
+	ip.pendingInit = append(ip.pendingInit, &IdIdenStateData{Id: &idCopy, IdenStateData: &idenState})
 	return types.NewTransaction(0, common.Address{}, nil, 0, nil,
-		new(big.Int).SetUint64(ip.blockNow()).Bytes()), nil
+		new(big.Int).SetUint64(idenState.BlockN).Bytes()), nil
 }
 
 // TxConfirmBlocks returns the number of confirmed blocks of transaction tx.
-- 
2.43.0


From b2e404824d1b278bc6ecdae13166e0b9ef903562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:15 +0000
Subject: [PATCH 38/69] fix: keystore crashed with a scrypt P parameter of 0

---
 keystore/keystore.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 73b002b..82a5638 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -91,8 +91,20 @@ type EncryptedData struct {
 	EncryptedData common3.Hex
 }
 
+// checkScryptP refuses the values of the P parameter that scrypt.Key does not
+// check.
+func checkScryptP(scryptP int) error {
+	if scryptP < 1 {
+		return fmt.Errorf("invalid scrypt P parameter: %v", scryptP)
+	}
+	return nil
+}
+
 // EncryptedData encrypts data with a key derived from pass
 func EncryptData(data, pass []byte, scryptN, scryptP int) (*EncryptedData, error) {
+	if err := checkScryptP(scryptP); err != nil {
+		return nil, err
+	}
 	var salt [32]byte
 	if _, err := io.ReadFull(rand.Reader, salt[:]); err != nil {
 		panic("reading from crypto/rand failed: " + err.Error())
@@ -121,6 +133,9 @@ func EncryptData(data, pass []byte, scryptN, scryptP int) (*EncryptedData, error
 
 // DecryptData decrypts the encData with the key derived from pass.
 func DecryptData(encData *EncryptedData, pass []byte) ([]byte, error) {
+	if err := checkScryptP(encData.ScryptP); err != nil {
+		return nil, err
+	}
 	derivedKey, err := scrypt.Key(pass, encData.Salt[:],
 		encData.ScryptN, scryptR, encData.ScryptP, scryptDKLen)
 	if err != nil {
-- 
2.43.0


From 498f96b2c798fe1949fc6c3648dfd90f4af01dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:16 +0000
Subject: [PATCH 39/69] fix: a failed key import left the key in the key store

---
 keystore/keystore.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 82a5638..9c3315a 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -315,14 +315,20 @@ func (ks *KeyStore) ImportKey(sk babyjub.PrivateKey, pass []byte) (*babyjub.Publ
 	}
 	pk := sk.Public()
 	pubComp := pk.Compress()
-	ks.encryptedKeys[pubComp] = *encryptedKey
-	encryptedKeysJSON, err := json.Marshal(ks.encryptedKeys)
+	encryptedKeys := make(KeysStored, len(ks.encryptedKeys)+1)
+	for k, v := range ks.encryptedKeys {
+		encryptedKeys[k] = v
+	}
+	encryptedKeys[pubComp] = *encryptedKey
+	encryptedKeysJSON, err := json.Marshal(encryptedKeys)
 	if err != nil {
 		return nil, err
 	}
 	if err := ks.storage.Write(encryptedKeysJSON); err != nil {
 		return nil, err
 	}
+	// Only once stored, so that a failed import leaves no trace.
+	ks.encryptedKeys = encryptedKeys
 	return &pubComp, nil
 }
 
-- 
2.43.0


From 05afc768c32c1c8eb29005ea871f54506b41ad3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:16 +0000
Subject: [PATCH 40/69] fix: a failed write destroyed the file of the key store

---
 keystore/keystore.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 9c3315a..79b4e9f 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -12,6 +12,7 @@ import (
 	"io/ioutil"
 	"math/big"
 	"os"
+	"path/filepath"
 	"runtime"
 	"sync"
 
@@ -193,7 +194,32 @@ func (fs *FileStorage) Write(data []byte) error {
 	if !fs.lock.Locked() {
 		return ErrStorageUnlocked
 	}
-	return ioutil.WriteFile(fs.path, data, 0600)
+	// The data is written to a temporary file that then replaces the old
+	// one, so that a failed write keeps the keys that were stored.
+	path := fs.path
+	if realPath, err := filepath.EvalSymlinks(path); err == nil {
+		path = realPath
+	} else if !os.IsNotExist(err) {
+		return err
+	}
+	f, err := ioutil.TempFile(filepath.Dir(path), filepath.Base(path)+".tmp")
+	if err != nil {
+		return err
+	}
+	_, err = f.Write(data)
+	if err == nil {
+		err = f.Sync()
+	}
+	if errClose := f.Close(); err == nil {
+		err = errClose
+	}
+	if err == nil {
+		err = os.Rename(f.Name(), path)
+	}
+	if err != nil {
+		os.Remove(f.Name()) //nolint:errcheck
+	}
+	return err
 }
 
 // TryLocks the storage file with a .lock file.
-- 
2.43.0


From 90a115bdc4f6c87f8e168babac50d06e73366571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:16 +0000
Subject: [PATCH 41/69] fix: unlocking the key store file let two owners lock
 it

---
 keystore/keystore.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 79b4e9f..0f6d065 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -229,14 +229,12 @@ func (fs *FileStorage) TryLock() (bool, error) {
 	return fs.lock.TryLock()
 }
 
-// Unlocks the storage file and removes the .lock file.
+// Unlocks the storage file.  The .lock file stays, because others may have it
+// open, and a lock on a removed file doesn't keep anyone out.
 func (fs *FileStorage) Unlock() error {
 	fs.rw.Lock()
 	defer fs.rw.Unlock()
-	if err := fs.lock.Unlock(); err != nil {
-		return err
-	}
-	return os.Remove(fs.path + ".lock")
+	return fs.lock.Unlock()
 }
 
 // MemStorage is a storage backed by a slice.
-- 
2.43.0


From be20fa3bd07e5e710502977b6ad550b378bde97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:16 +0000
Subject: [PATCH 42/69] fix: a closed key store signed with a zero key and
 unlocked the storage of others

---
 keystore/keystore.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 0f6d065..22646ce 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -263,6 +263,7 @@ type KeyStore struct {
 	params        KeyStoreParams
 	encryptedKeys KeysStored
 	cache         map[babyjub.PublicKeyComp]*babyjub.PrivateKey
+	closed        bool
 	rw            sync.RWMutex
 }
 
@@ -304,12 +305,24 @@ func NewKeyStore(storage Storage, params KeyStoreParams) (*KeyStore, error) {
 	return ks, nil
 }
 
+// Close clears the secret keys in the cache and unlocks the storage.
 func (ks *KeyStore) Close() error {
+	ks.rw.Lock()
+	defer ks.rw.Unlock()
 	zero := [32]byte{}
-	for _, sk := range ks.cache {
+	for pk, sk := range ks.cache {
 		copy(sk[:], zero[:])
+		delete(ks.cache, pk)
+	}
+	if ks.closed {
+		// The storage may have another owner now.
+		return nil
 	}
-	return ks.storage.Unlock()
+	if err := ks.storage.Unlock(); err != nil {
+		return err
+	}
+	ks.closed = true
+	return nil
 }
 
 // Keys returns the compressed public keys of the key storage.
-- 
2.43.0


From 09ef78bb70349fc60ea1e5c3b568dcc826697dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:16 +0000
Subject: [PATCH 43/69] fix: ExportKey gave out the key in the cache of the key
 store

---
 keystore/keystore.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 22646ce..7dc72f3 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -376,7 +376,9 @@ func (ks *KeyStore) ExportKey(pk *babyjub.PublicKeyComp) (*babyjub.PrivateKey, e
 	if !ok {
 		return nil, ErrKeyNotInCache
 	}
-	return sk, nil
+	// A copy, because the one in the cache is cleared by Close.
+	skCopy := *sk
+	return &skCopy, nil
 }
 
 // UnlockKey decrypts the key corresponding to the public key pk and loads it
-- 
2.43.0


From eb7eb765eabc566bb026995b67fe7379531820e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:16 +0000
Subject: [PATCH 44/69] fix: MemStorage shared its slice with the callers

---
 keystore/keystore.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 7dc72f3..a7a5656 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -242,12 +242,12 @@ type MemStorage []byte
 
 // Read reads the slice contents.
 func (ms *MemStorage) Read() ([]byte, error) {
-	return []byte(*ms), nil
+	return append([]byte{}, *ms...), nil
 }
 
 // Write copies the data to the slice.
 func (ms *MemStorage) Write(data []byte) error {
-	*ms = data
+	*ms = append([]byte{}, data...)
 	return nil
 }
 
-- 
2.43.0


From 880886baf58e483c4f528e70b6f327548c0952e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:16 +0000
Subject: [PATCH 45/69] fix: UnlockKey loaded keys that are not the one of the
 public key

---
 keystore/keystore.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index a7a5656..7b4fe79 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -396,6 +396,9 @@ func (ks *KeyStore) UnlockKey(pk *babyjub.PublicKeyComp, pass []byte) error {
 	}
 	var sk babyjub.PrivateKey
 	copy(sk[:], skBuf)
+	if len(skBuf) != len(sk) || sk.Public().Compress() != *pk {
+		return ErrInvalidEncData
+	}
 	ks.cache[*pk] = &sk
 	return nil
 }
-- 
2.43.0


From a25c71d2977b2c77b68bab62c9021ae0a8b78e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:16 +0000
Subject: [PATCH 46/69] fix: a key store file with null crashed the import of
 keys

---
 keystore/keystore.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 7b4fe79..268d991 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -290,6 +290,9 @@ func NewKeyStore(storage Storage, params KeyStoreParams) (*KeyStore, error) {
 			storage.Unlock() //nolint:errcheck
 			return nil, err
 		}
+		if encryptedKeys == nil { // null
+			encryptedKeys = make(map[babyjub.PublicKeyComp]EncryptedData)
+		}
 	}
 	ks := &KeyStore{
 		storage:       storage,
-- 
2.43.0


From 91eb64d67ccaf2d8d792874ba7ad20bce92a9dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:16 +0000
Subject: [PATCH 47/69] fix: signing and verifying numbers outside of the field
 crashed or took them for others

---
 keystore/keystore.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 268d991..7ba22d7 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -21,6 +21,7 @@ import (
 	common3 "github.com/iden3/go-iden3-core/common"
 	"github.com/iden3/go-iden3-crypto/babyjub"
 	"github.com/iden3/go-iden3-crypto/poseidon"
+	"github.com/iden3/go-iden3-crypto/utils"
 	"golang.org/x/crypto/nacl/secretbox"
 	"golang.org/x/crypto/scrypt"
 )
@@ -54,6 +55,7 @@ var (
 	ErrKeyNotInCache   = fmt.Errorf("public key not found in the cache.  Maybe it's not unlocked")
 	ErrKeyNotFound     = fmt.Errorf("public key not found in the key store")
 	ErrInvalidEncData  = fmt.Errorf("invalid encrypted data")
+	ErrNotInField      = fmt.Errorf("the message is not an element of the field")
 )
 
 // prefixes for msg to be signed
@@ -406,6 +408,11 @@ func (ks *KeyStore) UnlockKey(pk *babyjub.PublicKeyComp, pass []byte) error {
 	return nil
 }
 
+// inField returns true if n is an element of the field.
+func inField(n *big.Int) bool {
+	return n.Sign() >= 0 && utils.CheckBigIntInField(n)
+}
+
 // SignElem uses the key corresponding to the public key pk to sign the field
 // element msg.
 func (ks *KeyStore) SignElem(pk *babyjub.PublicKeyComp, msg *big.Int) (*babyjub.SignatureComp, error) {
@@ -415,6 +422,9 @@ func (ks *KeyStore) SignElem(pk *babyjub.PublicKeyComp, msg *big.Int) (*babyjub.
 	if !ok {
 		return nil, ErrKeyNotInCache
 	}
+	if !inField(msg) {
+		return nil, ErrNotInField
+	}
 	sig := sk.SignPoseidon(msg)
 	sigComp := sig.Compress()
 	return &sigComp, nil
@@ -440,6 +450,9 @@ func (ks *KeyStore) SignRaw(pk *babyjub.PublicKeyComp, msg []byte) (*babyjub.Sig
 // VerifySignatureElem verifies that the signature sigComp of the field element
 // msg was signed with the public key pkComp.
 func VerifySignatureElem(pkComp *babyjub.PublicKeyComp, msg *big.Int, sigComp *babyjub.SignatureComp) (bool, error) {
+	if !inField(msg) {
+		return false, ErrNotInField
+	}
 	pkPoint, err := babyjub.NewPoint().Decompress(*pkComp)
 	if err != nil {
 		return false, err
-- 
2.43.0


From 6c6287f0f83015a3e3ed0cb64a9630370944eb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 48/69] fix: DeleteOld deleted nonces that were added again

---
 utils/noncedb/nonce_db.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/noncedb/nonce_db.go b/utils/noncedb/nonce_db.go
index 06e29e2..3eb36c9 100644
--- a/utils/noncedb/nonce_db.go
+++ b/utils/noncedb/nonce_db.go
@@ -186,7 +186,10 @@ func (ndb *NonceDb) DeleteOld() {
 		}
 		if nObj.Expiration < now {
 			ndb.noncesHeap.Pop()
-			delete(ndb.nonceObjsByNonce, nObj.Nonce)
+			// The nonce may have been deleted and added again.
+			if ndb.nonceObjsByNonce[nObj.Nonce] == nObj {
+				delete(ndb.nonceObjsByNonce, nObj.Nonce)
+			}
 		} else {
 			break
 		}
-- 
2.43.0


From d60cd16807274478d2cc65c152f1ccc710c3f09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 49/69] fix: data race between the nonce objects found and
 AddAux

---
 utils/noncedb/nonce_db.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/utils/noncedb/nonce_db.go b/utils/noncedb/nonce_db.go
index 3eb36c9..c7f2b36 100644
--- a/utils/noncedb/nonce_db.go
+++ b/utils/noncedb/nonce_db.go
@@ -131,14 +131,17 @@ func (ndb *NonceDb) Search(nonce string) (*NonceObj, bool) {
 	ndb.DeleteOldOportunistic()
 	ndb.mutex.RLock()
 	nObj, ok := ndb.nonceObjsByNonce[nonce]
-	ndb.mutex.RUnlock()
 	if !ok {
+		ndb.mutex.RUnlock()
 		return nil, false
 	}
-	if nObj.Expiration < time.Now().Unix() {
+	// A copy, because AddAux may set the Aux of nObj at any time.
+	nObjCopy := *nObj
+	ndb.mutex.RUnlock()
+	if nObjCopy.Expiration < time.Now().Unix() {
 		ok = false
 	}
-	return nObj, ok
+	return &nObjCopy, ok
 }
 
 // SearchAndDelete searches a nonce object by nonce, and if found, deletes it
-- 
2.43.0


From ae7c541986c2f61386bf06997bbbde0d9a00b044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:54 +0000
Subject: [PATCH 50/69] fix: Base64Decode crashed with short strings and cut
 off characters

---
 common/common.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/common/common.go b/common/common.go
index 5c531c4..9b889fe 100644
--- a/common/common.go
+++ b/common/common.go
@@ -19,15 +19,7 @@ func Base64ToBytes(base64String string) ([]byte, error) {
 // Base64Decode decodes a string in base64 with optional padding into an array
 // of bytes.
 func Base64Decode(b64 string) ([]byte, error) {
-	l := len(b64)
-	if b64[l-3] == '=' {
-		b64 = b64[:l-3]
-	} else if b64[l-2] == '=' {
-		b64 = b64[:l-2]
-	} else if b64[l-1] == '=' {
-		b64 = b64[:l-1]
-	}
-	return base64.RawStdEncoding.DecodeString(b64)
+	return base64.RawStdEncoding.DecodeString(strings.TrimRight(b64, "="))
 }
 
 // BytesToBase64 converts an array of bytes to a base64 encoded string
-- 
2.43.0


From 8767f25a54c9db9817d4e1ec5bfe35651fbbe1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 51/69] fix: zk files could be downloaded twice at a time into
 the same file

---
 utils/zk/zk.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/utils/zk/zk.go b/utils/zk/zk.go
index 5a5bb19..b390521 100644
--- a/utils/zk/zk.go
+++ b/utils/zk/zk.go
@@ -100,14 +100,9 @@ func download(url, filename string) (err error) {
 			return err
 		}
 		if ok {
-			defer func() {
-				lock.Unlock()
-				if err = lock.Unlock(); err != nil {
-					return
-				}
-				err = os.Remove(filenameTmp + ".lock")
-				return
-			}()
+			// The lock file stays: others may be waiting for it, and
+			// a lock on a removed file doesn't keep anyone out.
+			defer lock.Unlock() //nolint:errcheck
 			break
 		}
 		log.WithField("filename", filename).Debug("ZkFile downloading locked, waiting...")
-- 
2.43.0


From 650ae24694c8c14643ff3fbbd5fefe14d0946afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:03 +0000
Subject: [PATCH 52/69] fix: draw the tree at the root that PrintGraphViz was
 asked for

---
 merkletree/merkletree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 7699565..520ba50 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -569,7 +569,7 @@ func (mt *MerkleTree) PrintGraphViz(rootKey *Hash) error {
 	}
 	w := bytes.NewBufferString("")
 	fmt.Fprintf(w, "--------\nGraphViz of the MerkleTree with RootKey "+rootKey.Hex()+"\n")
-	err := mt.GraphViz(w, nil)
+	err := mt.GraphViz(w, rootKey)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 22516b66541662285340741176ded0fb7c4f4b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:11 +0000
Subject: [PATCH 53/69] fix: a dump of the current tree mixed two roots when an
 entry was added meanwhile

---
 merkletree/merkletree.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 520ba50..46deadc 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -589,6 +589,10 @@ func (mt *MerkleTree) PrintGraphViz(rootKey *Hash) error {
 // to compute the Tree, while with DumpClaims will require to compute the Tree
 // (with the computational cost of each hash)
 func (mt *MerkleTree) DumpTree(w io.Writer, rootKey *Hash) error {
+	// The dump is of a single root, also when the tree grows meanwhile
+	if rootKey == nil {
+		rootKey = mt.RootKey()
+	}
 	var errS error
 	err := mt.Walk(rootKey, func(n *Node) {
 		if n.Type != NodeTypeEmpty {
@@ -609,9 +613,6 @@ func (mt *MerkleTree) DumpTree(w io.Writer, rootKey *Hash) error {
 		return errS
 	}
 
-	if rootKey == nil {
-		rootKey = mt.RootKey()
-	}
 	err = serializeKV(w, rootNodeValue, rootKey.Bytes())
 
 	return err
-- 
2.43.0


From a5858edd31aeeb44dcfa48452db423504605ef25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:40 +0000
Subject: [PATCH 54/69] fix: DebugDownloadPrintHashes hid the errors of its
 downloads

---
 utils/zk/zk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/zk/zk.go b/utils/zk/zk.go
index b390521..bc85391 100644
--- a/utils/zk/zk.go
+++ b/utils/zk/zk.go
@@ -311,7 +311,7 @@ func (z *ZkFiles) DebugDownloadPrintHashes(provingKeyFormat ProvingKeyFormat) er
 	defer os.RemoveAll(dir) // clean up
 	z0 := NewZkFiles(z.Url, dir, provingKeyFormat, ZkFilesHashes{}, false)
 	if err := z0.InsecureDownloadAll(); err != nil {
-		return nil
+		return err
 	}
 	hashes, err := z0.InsecureCalcHashes()
 	if err != nil {
-- 
2.43.0


From fbcae926da8fd09adcb2b4c9689b942851bf5d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 55/69] fix: an entry decoded over another one kept the hashes
 of that one

---
 merkletree/merkletree.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 46deadc..ea05d72 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -203,7 +203,12 @@ func (e Entry) MarshalText() ([]byte, error) {
 }
 
 func (e *Entry) UnmarshalText(text []byte) error {
-	return e.Data.UnmarshalText(text)
+	if err := e.Data.UnmarshalText(text); err != nil {
+		return err
+	}
+	// The hashes that may have been cached are of the previous content
+	e.hIndex, e.hValue = nil, nil
+	return nil
 }
 
 func (e *Entry) Clone() *Entry {
-- 
2.43.0


From 3f5446f67b23ac0449caa7d2f0cac18abcb2db67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 56/69] fix: the root of a tree could be changed through the
 hash given out or taken in

---
 merkletree/merkletree.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index ea05d72..e0a8092 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -265,7 +265,9 @@ func (mt *MerkleTree) Snapshot(rootKey *Hash) (*MerkleTree, error) {
 	if err != nil {
 		return nil, err
 	}
-	return &MerkleTree{storage: mt.storage, maxLevels: mt.maxLevels, rootKey: rootKey, writable: false}, nil
+	// A copy, because the caller may reuse the memory of rootKey
+	root := *rootKey
+	return &MerkleTree{storage: mt.storage, maxLevels: mt.maxLevels, rootKey: &root, writable: false}, nil
 }
 
 // Storage returns the MT storage
@@ -273,11 +275,12 @@ func (mt *MerkleTree) Storage() db.Storage {
 	return mt.storage
 }
 
-// RootKey returns the MT root node key
+// RootKey returns a copy of the MT root node key
 func (mt *MerkleTree) RootKey() *Hash {
 	mt.RLock()
 	defer mt.RUnlock()
-	return mt.rootKey
+	root := *mt.rootKey
+	return &root
 }
 
 // MaxLevels returns the MT maximum level
-- 
2.43.0


From 69e9e4685652e04ab4114d099ee9f0cd17bd9acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:23 +0000
Subject: [PATCH 57/69] fix: results of the merkle tree were the zero hash
 variable of the package itself

---
 merkletree/merkletree.go | 4 ++--
 merkletree/node.go       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index e0a8092..1caf377 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -939,7 +939,7 @@ func SiblingsFromProof(proof *Proof) []*Hash {
 			siblings = append(siblings, proof.Siblings[sibIdx])
 			sibIdx++
 		} else {
-			siblings = append(siblings, &HashZero)
+			siblings = append(siblings, &Hash{})
 		}
 	}
 	return siblings
@@ -1038,7 +1038,7 @@ func RootFromProof(proof *Proof, hIndex, hValue *Hash) (*Hash, error) {
 		}
 	} else {
 		if proof.NodeAux == nil {
-			midKey = &HashZero
+			midKey = &Hash{}
 		} else {
 			if bytes.Equal(hIndex[:], proof.NodeAux.HIndex[:]) {
 				return nil, fmt.Errorf("Non-existence proof being checked against hIndex equal to nodeAux")
diff --git a/merkletree/node.go b/merkletree/node.go
index 4883427..2dd7848 100644
--- a/merkletree/node.go
+++ b/merkletree/node.go
@@ -111,9 +111,9 @@ func (n *Node) Key() (*Hash, error) {
 				return nil, err
 			}
 		case NodeTypeEmpty: // Zero
-			n.key = &HashZero
+			n.key = &Hash{}
 		default:
-			n.key = &HashZero
+			n.key = &Hash{}
 		}
 	}
 	return n.key, nil
-- 
2.43.0


From a287860d64321822636b626fcf7195cebb62cbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:48 +0000
Subject: [PATCH 58/69] fix: what the issuer gave out shared memory with its
 own state

---
 identity/issuer/issuer.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 4c83067..eceb730 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -148,7 +148,8 @@ func (is *Issuer) loadIdenStateDataOnChain() error {
 func (is *Issuer) IdenStateOnChain() *merkletree.Hash {
 	is.rw.RLock()
 	defer is.rw.RUnlock()
-	return is._idenStateDataOnChain.IdenState
+	idenState := *is._idenStateDataOnChain.IdenState
+	return &idenState
 }
 
 func (is *Issuer) idenStateOnChain() *merkletree.Hash {
@@ -158,7 +159,8 @@ func (is *Issuer) idenStateOnChain() *merkletree.Hash {
 func (is *Issuer) IdenStatePending() (*merkletree.Hash, bool) {
 	is.rw.RLock()
 	defer is.rw.RUnlock()
-	return is._idenStatePending, is._idenStatePendingTransacted
+	idenStatePending := *is._idenStatePending
+	return &idenStatePending, is._idenStatePendingTransacted
 }
 
 func (is *Issuer) idenStatePending() (*merkletree.Hash, bool) {
@@ -472,17 +474,26 @@ func (is *Issuer) State() (*merkletree.Hash, IdenStateTreeRoots) {
 func (is *Issuer) StateDataOnChain() *proof.IdenStateData {
 	is.rw.RLock()
 	defer is.rw.RUnlock()
-	return is.idenStateDataOnChain()
+	return copyIdenStateData(is.idenStateDataOnChain())
+}
+
+// copyIdenStateData returns a copy that doesn't share memory with d.
+func copyIdenStateData(d *proof.IdenStateData) *proof.IdenStateData {
+	idenStateData, idenState := *d, *d.IdenState
+	idenStateData.IdenState = &idenState
+	return &idenStateData
 }
 
 // ID returns the Issuer ID (Identity ID).
 func (is *Issuer) ID() *core.ID {
-	return is.id
+	id := *is.id
+	return &id
 }
 
 // KeyOperational returns the identity's operational key.
 func (is *Issuer) KeyOperational() *babyjub.PublicKeyComp {
-	return is.kOpComp
+	kOpComp := *is.kOpComp
+	return &kOpComp
 }
 
 // SyncIdenStatePublic updates the IdenStateOnChain and IdenStatePending from
@@ -965,8 +976,8 @@ func (is *Issuer) GenCredentialExistence(claim merkletree.Entrier) (*proof.Crede
 		}
 	}
 	return &proof.CredentialExistence{
-		Id:                  is.id,
-		IdenStateData:       *idenStateData,
+		Id:                  is.ID(),
+		IdenStateData:       *copyIdenStateData(idenStateData),
 		MtpClaim:            mtpExist,
 		Claim:               claimEntry,
 		RevocationsTreeRoot: idenStateTreeRoots.RevocationsTreeRoot,
-- 
2.43.0


From ae5cf9775e85fd1fc4208a3a23c3adf59c6f6f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:48 +0000
Subject: [PATCH 59/69] fix: the states given out by the local chain were its
 own memory

---
 components/idenpubonchain/local/local.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/components/idenpubonchain/local/local.go b/components/idenpubonchain/local/local.go
index 5e6047e..336805e 100644
--- a/components/idenpubonchain/local/local.go
+++ b/components/idenpubonchain/local/local.go
@@ -83,6 +83,13 @@ func (ip *IdenPubOnChain) Sync() {
 	ip.pendingSet = make([]*IdIdenStateData, 0)
 }
 
+// copyIdenStateData returns a copy that doesn't share memory with d.
+func copyIdenStateData(d *proof.IdenStateData) *proof.IdenStateData {
+	idenStateData, idenState := *d, *d.IdenState
+	idenStateData.IdenState = &idenState
+	return &idenStateData
+}
+
 // GetState returns the Identity State Data of the given ID from the IdenStates Smart Contract.
 func (ip *IdenPubOnChain) GetState(id *core.ID) (*proof.IdenStateData, error) {
 	ip.rw.RLock()
@@ -91,7 +98,7 @@ func (ip *IdenPubOnChain) GetState(id *core.ID) (*proof.IdenStateData, error) {
 	if !ok {
 		return nil, idenpubonchain.ErrIdenNotOnChain
 	}
-	return idenStatesData.IdenStates[len(idenStatesData.IdenStates)-1], nil
+	return copyIdenStateData(idenStatesData.IdenStates[len(idenStatesData.IdenStates)-1]), nil
 }
 
 // GetStateByBlock returns the Identity State Data of the given ID published at
@@ -107,7 +114,7 @@ func (ip *IdenPubOnChain) GetStateByBlock(id *core.ID, queryBlockN uint64) (*pro
 	if !ok {
 		return nil, idenpubonchain.ErrIdenByBlockNotFound
 	}
-	return idenState, nil
+	return copyIdenStateData(idenState), nil
 }
 
 // GetStateByTime returns the Identity State Data of the given ID published at
@@ -123,7 +130,7 @@ func (ip *IdenPubOnChain) GetStateByTime(id *core.ID, queryBlockTs int64) (*proo
 	if !ok {
 		return nil, idenpubonchain.ErrIdenByTimeNotFound
 	}
-	return idenState, nil
+	return copyIdenStateData(idenState), nil
 }
 
 // SetState updates the Identity State of the given ID in the IdenStates Smart Contract.
-- 
2.43.0


From 3f5e3cb4c6914ace78557d17e778e80369c2b966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:04 +0000
Subject: [PATCH 60/69] fix: the data given out by the local place to publish
 was its own memory

---
 components/idenpuboffchain/local/local.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/components/idenpuboffchain/local/local.go b/components/idenpuboffchain/local/local.go
index cc87a3e..97c1396 100644
--- a/components/idenpuboffchain/local/local.go
+++ b/components/idenpuboffchain/local/local.go
@@ -44,7 +44,22 @@ func (ip *IdenPubOffChain) GetPublicData(idenPubUrl string, id *core.ID, idenSta
 	if !ok {
 		return nil, fmt.Errorf("idenState not found")
 	}
-	return data, nil
+	return copyPublicData(data), nil
+}
+
+// copyPublicData returns a copy that doesn't share the memory of the state and
+// the roots with d.
+func copyPublicData(d *idenpuboffchain.PublicData) *idenpuboffchain.PublicData {
+	idenState, claimsTreeRoot := *d.IdenState, *d.ClaimsTreeRoot
+	revocationsTreeRoot, rootsTreeRoot := *d.RevocationsTreeRoot, *d.RootsTreeRoot
+	return &idenpuboffchain.PublicData{
+		IdenState:           &idenState,
+		ClaimsTreeRoot:      &claimsTreeRoot,
+		RevocationsTreeRoot: &revocationsTreeRoot,
+		RevocationsTree:     d.RevocationsTree,
+		RootsTreeRoot:       &rootsTreeRoot,
+		RootsTree:           d.RootsTree,
+	}
 }
 
 func (ip *IdenPubOffChain) Url() string {
@@ -61,7 +76,7 @@ func (ip *IdenPubOffChain) Publish(id *core.ID, publicData *idenpuboffchain.Publ
 	if err != nil {
 		return err
 	}
-	data := *publicData
+	data := copyPublicData(publicData)
 	data.RevocationsTree, data.RootsTree = revocationsTree, rootsTree
 
 	ip.rw.Lock()
@@ -74,7 +89,7 @@ func (ip *IdenPubOffChain) Publish(id *core.ID, publicData *idenpuboffchain.Publ
 		}
 		ip.idens[*id] = iden
 	}
-	iden.datas[*publicData.IdenState] = &data
-	iden.last = publicData.IdenState
+	iden.datas[*data.IdenState] = data
+	iden.last = data.IdenState
 	return nil
 }
-- 
2.43.0


From 1a47a3784973eaa1132abe1a2c29e06363419f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:15 +0000
Subject: [PATCH 61/69] fix: a tree could not grow with entries that an
 imported dump had replaced

---
 merkletree/merkletree.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 1caf377..6feb6bc 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -1101,9 +1101,13 @@ func (mt *MerkleTree) addNode(tx db.Tx, n *Node) (*Hash, error) {
 		return nil, err
 	}
 	v := n.Value()
-	// Check that the node key doesn't already exist
-	if _, err := tx.Get(k[:]); err == nil {
-		return nil, ErrNodeKeyAlreadyExists
+	// The node may already be in the storage without being part of this root
+	// (for example, after importing another tree), but not with another value
+	if oldV, err := tx.Get(k[:]); err == nil {
+		if !bytes.Equal(oldV, v) {
+			return nil, ErrNodeKeyAlreadyExists
+		}
+		return k, nil
 	}
 	tx.Put(k[:], v)
 	return k, nil
-- 
2.43.0


From 3b3e4e4f98ffdf477305633b981222afffb730bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:01 +0000
Subject: [PATCH 62/69] fix: a closed key store could unlock keys and import
 them over those of the next owner

---
 keystore/keystore.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 7ba22d7..2e5a103 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -351,6 +351,10 @@ func (ks *KeyStore) NewKey(pass []byte) (*babyjub.PublicKeyComp, error) {
 func (ks *KeyStore) ImportKey(sk babyjub.PrivateKey, pass []byte) (*babyjub.PublicKeyComp, error) {
 	ks.rw.Lock()
 	defer ks.rw.Unlock()
+	if ks.closed {
+		// The storage may have another owner now.
+		return nil, ErrStorageUnlocked
+	}
 	encryptedKey, err := EncryptData(sk[:], pass, ks.params.ScryptN, ks.params.ScryptP)
 	if err != nil {
 		return nil, err
@@ -391,6 +395,9 @@ func (ks *KeyStore) ExportKey(pk *babyjub.PublicKeyComp) (*babyjub.PrivateKey, e
 func (ks *KeyStore) UnlockKey(pk *babyjub.PublicKeyComp, pass []byte) error {
 	ks.rw.Lock()
 	defer ks.rw.Unlock()
+	if ks.closed {
+		return ErrStorageUnlocked
+	}
 	encryptedKey, ok := ks.encryptedKeys[*pk]
 	if !ok {
 		return ErrKeyNotFound
-- 
2.43.0


From eeaf7aacc91e53a2dd6e5bf8ba6d7e1d1bab308a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:45 +0000
Subject: [PATCH 63/69] fix: a storage failure was reported as a claim that was
 not issued or not on the chain

---
 identity/issuer/issuer.go | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index eceb730..985d88e 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -926,6 +926,17 @@ func generateExistenceMTProof(mt *merkletree.MerkleTree, hi, root *merkletree.Ha
 	return mtp, nil
 }
 
+// claimIssued returns ErrClaimNotFoundClaimsTree if the entry is not in the
+// claims tree at the given root, and any other error if that can't be found out.
+func (is *Issuer) claimIssued(entry *merkletree.Entry, root *merkletree.Hash) error {
+	switch err := is.claimsTree.EntryExists(entry, root); err {
+	case merkletree.ErrEntryIndexNotFound, merkletree.ErrEntryDataNotMatch:
+		return ErrClaimNotFoundClaimsTree
+	default:
+		return err
+	}
+}
+
 // GenCredentialExistence generates an existence credential (claim + proof of
 // existence) of an issued claim.  The result contains all data necessary to
 // validate the credential against the Identity State found in the blockchain.
@@ -959,21 +970,21 @@ func (is *Issuer) GenCredentialExistence(claim merkletree.Entrier) (*proof.Crede
 	}
 	mtpExist, err := generateExistenceMTProof(is.claimsTree, hi,
 		idenStateTreeRoots.ClaimsTreeRoot)
-	if err != nil {
+	if err == ErrClaimNotFoundStateOnChain {
 		// We were unable to generate a proof from the claims tree
 		// associated with the on chain identity state.  Check if the
 		// claim exists in the current claims tree.
-		if err := is.claimsTree.EntryExists(claimEntry, nil); err != nil {
-			return nil, ErrClaimNotFoundClaimsTree
-		} else {
-			return nil, ErrClaimNotYetInOnChainState
-		}
-	} else {
-		// We were able to generate a proof from the claims tree with
-		// the HIndex.  Check the HValue is also valid!
-		if err := is.claimsTree.EntryExists(claimEntry, idenStateTreeRoots.ClaimsTreeRoot); err != nil {
-			return nil, ErrClaimNotFoundClaimsTree
+		if err := is.claimIssued(claimEntry, nil); err != nil {
+			return nil, err
 		}
+		return nil, ErrClaimNotYetInOnChainState
+	} else if err != nil {
+		return nil, err
+	}
+	// We were able to generate a proof from the claims tree with the
+	// HIndex.  Check the HValue is also valid!
+	if err := is.claimIssued(claimEntry, idenStateTreeRoots.ClaimsTreeRoot); err != nil {
+		return nil, err
 	}
 	return &proof.CredentialExistence{
 		Id:                  is.ID(),
-- 
2.43.0


From 209be689a1b2f22792c47d3ce0c594901d8f59c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:24 +0000
Subject: [PATCH 64/69] fix: the verifier accepted negative signals in place of
 those of the proof

---
 components/verifier/verifier.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/components/verifier/verifier.go b/components/verifier/verifier.go
index fddb978..55f4dab 100644
--- a/components/verifier/verifier.go
+++ b/components/verifier/verifier.go
@@ -195,6 +195,13 @@ func (v *Verifier) VerifyZkProofCredential(
 		return fmt.Errorf("error loading zk vk: %w", err)
 	}
 
+	// A signal has one representation: the verifier refuses those that are
+	// too big, but takes negative ones for their residues.
+	for _, s := range pubSignals {
+		if s == nil || s.Sign() < 0 {
+			return ErrFailedVerifyZkProofCredential
+		}
+	}
 	// Verify the zkp
 	if !verifier.Verify(vk, zkProof, pubSignals) {
 		return ErrFailedVerifyZkProofCredential
-- 
2.43.0


From c3a78bae8f2c7f1ef23de0a5206d80b2c92825de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:24 +0000
Subject: [PATCH 65/69] fix: the verifier crashed with incomplete zero
 knowledge proofs

---
 components/verifier/verifier.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/components/verifier/verifier.go b/components/verifier/verifier.go
index 55f4dab..6bc8549 100644
--- a/components/verifier/verifier.go
+++ b/components/verifier/verifier.go
@@ -6,6 +6,7 @@ import (
 	"reflect"
 	"time"
 
+	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
 	zktypes "github.com/iden3/go-circom-prover-verifier/types"
 	"github.com/iden3/go-circom-prover-verifier/verifier"
 	"github.com/iden3/go-iden3-core/components/idenpubonchain"
@@ -195,6 +196,11 @@ func (v *Verifier) VerifyZkProofCredential(
 		return fmt.Errorf("error loading zk vk: %w", err)
 	}
 
+	// The points of a proof that was not read from anywhere can't be used.
+	if zkProof == nil || zkProof.A == nil || zkProof.B == nil || zkProof.C == nil ||
+		*zkProof.A == (bn256.G1{}) || *zkProof.B == (bn256.G2{}) || *zkProof.C == (bn256.G1{}) {
+		return ErrFailedVerifyZkProofCredential
+	}
 	// A signal has one representation: the verifier refuses those that are
 	// too big, but takes negative ones for their residues.
 	for _, s := range pubSignals {
-- 
2.43.0


From e164122d0dc2dcec67c728cf9c3bf667233c6087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:33 +0000
Subject: [PATCH 66/69] fix: the local chain accepted two pending writes of an
 identity with proofs for the same state

---
 components/idenpubonchain/local/local.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/components/idenpubonchain/local/local.go b/components/idenpubonchain/local/local.go
index 336805e..2336041 100644
--- a/components/idenpubonchain/local/local.go
+++ b/components/idenpubonchain/local/local.go
@@ -142,7 +142,13 @@ func (ip *IdenPubOnChain) SetState(id *core.ID, newState *merkletree.Hash,
 	if !ok {
 		return nil, idenpubonchain.ErrIdenNotOnChain
 	}
+	// The writes that are pending come first.
 	oldState := idenStatesData.IdenStates[len(idenStatesData.IdenStates)-1].IdenState
+	for _, pending := range ip.pendingSet {
+		if *pending.Id == *id {
+			oldState = pending.IdenStateData.IdenState
+		}
+	}
 	if !ip.verifyZKP(zkProof, id, oldState, newState) {
 		return nil, fmt.Errorf("zkproof verification failed")
 	}
@@ -166,6 +172,11 @@ func (ip *IdenPubOnChain) InitState(id *core.ID, genesisState,
 	if ok {
 		return nil, fmt.Errorf("identity already exists on chain")
 	}
+	for _, pending := range ip.pendingInit {
+		if *pending.Id == *id {
+			return nil, fmt.Errorf("identity already exists in a pending write")
+		}
+	}
 
 	if !ip.verifyZKP(zkProof, id, genesisState, newState) {
 		return nil, fmt.Errorf("zkproof verification failed")
-- 
2.43.0


From 411aa61720f06d2c8a90fd035ca34b145310eb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:23 +0000
Subject: [PATCH 67/69] fix: the nonce db gave out its own objects, which
 others change

---
 utils/noncedb/nonce_db.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/utils/noncedb/nonce_db.go b/utils/noncedb/nonce_db.go
index c7f2b36..cfc602f 100644
--- a/utils/noncedb/nonce_db.go
+++ b/utils/noncedb/nonce_db.go
@@ -95,7 +95,13 @@ func (ndb *NonceDb) Add(nonce string, delta int64, aux interface{}) *NonceObj {
 	expiration := time.Now().Unix() + delta
 	ndb.mutex.Lock()
 	defer ndb.mutex.Unlock()
-	return ndb.add(nonce, expiration, aux)
+	nObj := ndb.add(nonce, expiration, aux)
+	if nObj == nil {
+		return nil
+	}
+	// A copy, because AddAux may set the Aux of nObj at any time.
+	nObjCopy := *nObj
+	return &nObjCopy
 }
 
 // New adds a new nonce to the db that expires after delta seconds, and returns
@@ -155,11 +161,13 @@ func (ndb *NonceDb) SearchAndDelete(nonce string) (*NonceObj, bool) {
 		return nil, false
 	}
 	delete(ndb.nonceObjsByNonce, nonce)
+	// A copy, because nObj is still in the heap.
+	nObjCopy := *nObj
 	ndb.mutex.Unlock()
-	if nObj.Expiration < time.Now().Unix() {
+	if nObjCopy.Expiration < time.Now().Unix() {
 		ok = false
 	}
-	return nObj, ok
+	return &nObjCopy, ok
 }
 
 // DeleteOldOportunistic deletes expired nonces once every N calls (where N is
-- 
2.43.0


From 7a721d864261f01f250adaa7cae516f88ad1375f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:23 +0000
Subject: [PATCH 68/69] fix: iterating over a LevelDB storage gave slices that
 change with the next step

---
 db/leveldb.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/db/leveldb.go b/db/leveldb.go
index 5a32be3..dd13b35 100644
--- a/db/leveldb.go
+++ b/db/leveldb.go
@@ -92,8 +92,9 @@ func (l *LevelDbStorage) Iterate(f func([]byte, []byte) (bool, error)) error {
 	iter := snapshot.NewIterator(util.BytesPrefix(l.prefix), nil)
 	defer iter.Release()
 	for iter.Next() {
-		localKey := iter.Key()[len(l.prefix):]
-		if cont, err := f(localKey, iter.Value()); err != nil {
+		// Copies, because the iterator reuses its memory.
+		localKey := clone(iter.Key()[len(l.prefix):])
+		if cont, err := f(localKey, clone(iter.Value())); err != nil {
 			return err
 		} else if !cont {
 			break
-- 
2.43.0


From 20e79296d7f45b81ddbbc138a6ad3650fbf40dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:13 +0000
Subject: [PATCH 69/69] fix: the local chain crashed with incomplete proofs

---
 components/idenpubonchain/local/local.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/components/idenpubonchain/local/local.go b/components/idenpubonchain/local/local.go
index 2336041..aab766f 100644
--- a/components/idenpubonchain/local/local.go
+++ b/components/idenpubonchain/local/local.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/ethereum/go-ethereum/common"
 	"github.com/ethereum/go-ethereum/core/types"
+	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
 	zktypes "github.com/iden3/go-circom-prover-verifier/types"
 	"github.com/iden3/go-circom-prover-verifier/verifier"
 	"github.com/iden3/go-iden3-core/components/idenpubonchain"
@@ -201,6 +202,11 @@ func (ip *IdenPubOnChain) TxConfirmBlocks(tx *types.Transaction) (*big.Int, erro
 
 func (ip *IdenPubOnChain) verifyZKP(zkProof *zktypes.Proof,
 	id *core.ID, oldState, newState *merkletree.Hash) bool {
+	// The points of a proof that was not read from anywhere can't be used.
+	if zkProof == nil || zkProof.A == nil || zkProof.B == nil || zkProof.C == nil ||
+		*zkProof.A == (bn256.G1{}) || *zkProof.B == (bn256.G2{}) || *zkProof.C == (bn256.G1{}) {
+		return false
+	}
 	var idElem merkletree.ElemBytes
 	copy(idElem[:], id[:])
 	publicSignals := []*big.Int{idElem.BigInt(), oldState.BigInt(), newState.BigInt()}
-- 
2.43.0

