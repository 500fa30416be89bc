From 1b0df421707f1eefd65f65dc4f6cbe1715b26a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:25 +0000
Subject: [PATCH 1/8] fix: AccountBlock.Copy must not keep the original's send
 blocks next to their copies

---
 interfaces/core/account_block.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/interfaces/core/account_block.go b/interfaces/core/account_block.go
index 93b08a9..b521284 100644
--- a/interfaces/core/account_block.go
+++ b/interfaces/core/account_block.go
@@ -97,8 +97,11 @@ func (ab *AccountBlock) Copy() *AccountBlock {
 		copy(newAb.Signature, ab.Signature)
 	}
 
-	for _, sendBlock := range ab.SendBlockList {
-		newAb.SendBlockList = append(newAb.SendBlockList, sendBlock.Copy())
+	if ab.SendBlockList != nil {
+		newAb.SendBlockList = make([]*AccountBlock, 0, len(ab.SendBlockList))
+		for _, sendBlock := range ab.SendBlockList {
+			newAb.SendBlockList = append(newAb.SendBlockList, sendBlock.Copy())
+		}
 	}
 	return &newAb
 }
-- 
2.43.0


From 14253f6f9825cadca9e5f61fecd2cb3f2afe8a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:47 +0000
Subject: [PATCH 2/8] fix: CALL must not read past the memory while its quota
 is computed

gasCall reads the request data before the memory is expanded. A range that
starts inside the memory and ends beyond it panicked, and a huge one was
allocated before it was paid for.
---
 vm/gas_table.go | 4 ++++
 vm/memory.go    | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/vm/gas_table.go b/vm/gas_table.go
index bceddd5..362bf8d 100644
--- a/vm/gas_table.go
+++ b/vm/gas_table.go
@@ -440,6 +440,10 @@ func gasCall(vm *VM, c *contract, stack *stack, mem *memory, memorySize uint64)
 	if err != nil {
 		return 0, true, err
 	}
+	// the memory is not expanded yet, do not read the requested data before it is affordable
+	if gas > c.quotaLeft {
+		return 0, true, util.ErrOutOfQuota
+	}
 	toAddrBig, tokenIDBig, amount, inOffset, inSize := stack.back(0), stack.back(1), stack.back(2), stack.back(3), stack.back(4)
 	toAddress, _ := types.BigToAddress(toAddrBig)
 	tokenID, _ := types.BigToTokenTypeId(tokenIDBig)
diff --git a/vm/memory.go b/vm/memory.go
index 2f79437..09ffd8c 100644
--- a/vm/memory.go
+++ b/vm/memory.go
@@ -37,8 +37,9 @@ func (m *memory) get(offset, size int64) (cpy []byte) {
 	}
 
 	if len(m.store) > int(offset) {
+		// bytes beyond the current size of the memory read as zero
 		cpy = make([]byte, size)
-		copy(cpy, m.store[offset:offset+size])
+		copy(cpy, m.store[offset:])
 
 		return cpy
 	}
-- 
2.43.0


From 4d2c294389cd41eb2d0dde70b832fcb2cc884d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:47 +0000
Subject: [PATCH 3/8] fix: CALL2 must expand the memory like CALL does

CALL2 had no memory size function, so request data beyond the current memory
panicked or was silently dropped, and an unbounded size was allocated without
any quota check.
---
 vm/jump_table.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vm/jump_table.go b/vm/jump_table.go
index 4ea8494..81ab8eb 100644
--- a/vm/jump_table.go
+++ b/vm/jump_table.go
@@ -44,6 +44,7 @@ func newEarthInstructionSet() [256]operation {
 		execute:       opCall2,
 		gasCost:       gasCall2,
 		validateStack: makeStackFunc(5, 1),
+		memorySize:    memoryCall,
 		valid:         true,
 	}
 	return instructionSet
@@ -54,6 +55,7 @@ func newEarthOffchainInstructionSet() [256]operation {
 		execute:       opOffchainCall2,
 		gasCost:       gasCall2,
 		validateStack: makeStackFunc(5, 1),
+		memorySize:    memoryCall,
 		valid:         true,
 	}
 	return instructionSet
-- 
2.43.0


From e3804576778967babd4d57a745d9b07b9d5915b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:24 +0000
Subject: [PATCH 4/8] fix: MergedIterator must remember the direction it turned
 to

After Next followed a Prev (or the other way round) the remembered direction
was not updated, so every further step reset the iterator again and dropped
the keys it had already fetched from the other layers.
---
 common/db/merged_iterator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/db/merged_iterator.go b/common/db/merged_iterator.go
index b81a612..25d48b8 100644
--- a/common/db/merged_iterator.go
+++ b/common/db/merged_iterator.go
@@ -168,6 +168,7 @@ func (mi *MergedIterator) step(toNext bool) bool {
 
 	if (mi.directionToNext && !toNext) || (!mi.directionToNext && toNext) {
 		mi.reset()
+		mi.directionToNext = toNext
 	}
 
 	if mi.index >= 0 {
-- 
2.43.0


From daf17c20fcb7c1f1ec775fbd2763a0debbc5d60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:13 +0000
Subject: [PATCH 5/8] fix: quota list must not count a snapshot twice when it
 is refilled after a rollback

---
 ledger/chain/cache/quota_list.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ledger/chain/cache/quota_list.go b/ledger/chain/cache/quota_list.go
index 5625588..0e9b65c 100644
--- a/ledger/chain/cache/quota_list.go
+++ b/ledger/chain/cache/quota_list.go
@@ -291,7 +291,8 @@ func (ql *quotaList) build() (returnError error) {
 			ql.list.PushBack(newItem)
 		}
 	} else {
-		snapshotSegments, err = ql.chain.GetSubLedger(startSbHeight, endSbHeight)
+		// the list starts at endSbHeight, so what is missing ends before it
+		snapshotSegments, err = ql.chain.GetSubLedger(startSbHeight, endSbHeight-1)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 2c985fa702506a6031a67550d79c6e2ed37c12a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:13 +0000
Subject: [PATCH 6/8] fix: quota list must forget what it accumulated when a
 rollback empties it

---
 ledger/chain/cache/quota_list.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ledger/chain/cache/quota_list.go b/ledger/chain/cache/quota_list.go
index 0e9b65c..7c29396 100644
--- a/ledger/chain/cache/quota_list.go
+++ b/ledger/chain/cache/quota_list.go
@@ -223,6 +223,9 @@ func (ql *quotaList) build() (returnError error) {
 			return
 		}
 		if ql.list.Len() <= 0 {
+			// nothing is left of what was accumulated
+			ql.usedStart = nil
+			ql.globalUsed = types.QuotaInfo{}
 			return
 		}
 		ql.backElement = ql.list.Back().Value.(map[types.Address]*quotaInfo)
-- 
2.43.0


From f73355e43a8429261095723e7df83b5e6dd98058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:28 +0000
Subject: [PATCH 7/8] fix: address and token id UnmarshalText read the text
 that MarshalText writes

---
 common/types/address.go     | 6 +++---
 common/types/tokentypeid.go | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/common/types/address.go b/common/types/address.go
index dcb6ca0..58cb542 100644
--- a/common/types/address.go
+++ b/common/types/address.go
@@ -250,11 +250,11 @@ func (a Address) MarshalText() ([]byte, error) {
 
 // UnmarshalText implements encoding.TextUnmarshaler.
 func (a *Address) UnmarshalText(input []byte) error {
-	if !isString(input) {
-		return ErrJsonNotString
+	if isString(input) {
+		input = trimLeftRightQuotation(input)
 	}
 
-	addresses, e := HexToAddress(strings.Trim(string(input), "\""))
+	addresses, e := HexToAddress(string(input))
 	if e != nil {
 		return e
 	}
diff --git a/common/types/tokentypeid.go b/common/types/tokentypeid.go
index 6573323..fd3e9b6 100644
--- a/common/types/tokentypeid.go
+++ b/common/types/tokentypeid.go
@@ -117,11 +117,11 @@ func (tid TokenTypeId) MarshalText() ([]byte, error) {
 
 // UnmarshalText implements encoding.TextUnmarshaler.
 func (tid *TokenTypeId) UnmarshalText(input []byte) error {
-	if !isString(input) {
-		return ErrJsonNotString
+	if isString(input) {
+		input = trimLeftRightQuotation(input)
 	}
 
-	tti, e := HexToTokenTypeId(string(trimLeftRightQuotation(input)))
+	tti, e := HexToTokenTypeId(string(input))
 	if e != nil {
 		return e
 	}
-- 
2.43.0


From fcfad5650376d3d939916c77df23f60f55a3c322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:12 +0000
Subject: [PATCH 8/8] fix: a contract keeps its callers on the road when
 another contract has received theirs

---
 ledger/onroad/pool/storage.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/ledger/onroad/pool/storage.go b/ledger/onroad/pool/storage.go
index 553b189..44224eb 100644
--- a/ledger/onroad/pool/storage.go
+++ b/ledger/onroad/pool/storage.go
@@ -40,7 +40,13 @@ type onroadStorage struct {
 	db *leveldb.DB
 
 	mu      sync.RWMutex
-	callers sync.Map
+	callers sync.Map // map[callerKey]int
+}
+
+// callerKey names the callers with transactions on the road to one contract.
+type callerKey struct {
+	toAddr types.Address
+	caller types.Address
 }
 
 func newOnroadStorage(db *leveldb.DB) *onroadStorage {
@@ -50,12 +56,12 @@ func newOnroadStorage(db *leveldb.DB) *onroadStorage {
 	}
 }
 
-func (storage *onroadStorage) addCaller(caller types.Address) error {
-	storage.callers.Store(caller, 0)
+func (storage *onroadStorage) addCaller(toAddr, caller types.Address) error {
+	storage.callers.Store(callerKey{toAddr, caller}, 0)
 	return nil
 }
-func (storage *onroadStorage) removeCaller(caller types.Address) {
-	storage.callers.Delete(caller)
+func (storage *onroadStorage) removeCaller(toAddr, caller types.Address) {
+	storage.callers.Delete(callerKey{toAddr, caller})
 }
 
 func (storage *onroadStorage) insertOnRoadTx(tx OnroadTx) error {
@@ -64,7 +70,7 @@ func (storage *onroadStorage) insertOnRoadTx(tx OnroadTx) error {
 
 	// fmt.Println("add on road tx", tx.String())
 
-	storage.addCaller(tx.FromAddr)
+	storage.addCaller(tx.ToAddr, tx.FromAddr)
 	// batch.Put(tx.toOnroadHeightKey().Bytes(), tx.toOnroadHeightValue())
 	return storage.db.Put(tx.toOnroadHeightKey().Bytes(), tx.toOnroadHeightValue(), nil)
 }
@@ -85,7 +91,7 @@ func (storage *onroadStorage) deleteOnRoadTx(tx OnroadTx) error {
 		return err
 	}
 	if len(txs) == 0 {
-		storage.removeCaller(tx.FromAddr)
+		storage.removeCaller(tx.ToAddr, tx.FromAddr)
 	}
 	return nil
 }
@@ -112,7 +118,10 @@ func (storage *onroadStorage) GetAllFirstOnroadTx(addr types.Address) (map[types
 	var resultErr error
 
 	storage.callers.Range(func(key interface{}, val interface{}) bool {
-		caller := key.(types.Address)
+		if key.(callerKey).toAddr != addr {
+			return true
+		}
+		caller := key.(callerKey).caller
 		txs, err := storage.getFirstOnroadTx(addr, caller)
 		if err != nil {
 			resultErr = err
-- 
2.43.0

