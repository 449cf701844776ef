From d25de680eca4e11919ab66f94838346a7d0f611b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:04 +0000
Subject: [PATCH 01/50] fix: memory storage panicked on every push (hash index
 map never created)

---
 cryptonote/storage_memory.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cryptonote/storage_memory.go b/cryptonote/storage_memory.go
index d0cdd84..115212d 100644
--- a/cryptonote/storage_memory.go
+++ b/cryptonote/storage_memory.go
@@ -34,6 +34,7 @@ func NewMemoryStorage() Storage {
 	return &memoryStorage{
 		blockIndex:                            map[uint32]*Block{},
 		blockInfosIndex:                       map[uint32]*blockInfo{},
+		blockInfosHashIndex:                   map[crypto.Hash]*blockInfo{},
 		transactionsIndex:                     map[uint32]*[]Transaction{},
 		spentKeysImagesIndex:                  map[uint32]*[]crypto.KeyImage{},
 		spentMultisignatureGlobalIndexesIndex: map[uint32]*[]MultisigAmountGlobalOutputIndexPair{},
-- 
2.43.0


From f856c8ed3ecdce0bc97f3cb1d85f9eea48d83c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:06 +0000
Subject: [PATCH 02/50] fix: memory storage refused its own genesis block
 (block info without hash)

---
 cryptonote/storage_memory.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cryptonote/storage_memory.go b/cryptonote/storage_memory.go
index 115212d..4c01499 100644
--- a/cryptonote/storage_memory.go
+++ b/cryptonote/storage_memory.go
@@ -44,6 +44,7 @@ func NewMemoryStorage() Storage {
 func (s *memoryStorage) Init(genesisBlock *Block) error {
 	info := blockInfo{
 		Index:                0,
+		Hash:                 *genesisBlock.Hash(),
 		CumulativeDifficulty: 1,
 		Size:                 genesisBlock.BaseTransaction.Size(),
 		TotalGeneratedCoins:  genesisBlock.BaseTransaction.Outputs[0].Amount,
-- 
2.43.0


From 8b9ab5d5860b6475e8471471dd883cf751cc0ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:07 +0000
Subject: [PATCH 03/50] fix: memory storage TopIndex released a lock it did not
 hold

---
 cryptonote/storage_memory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/storage_memory.go b/cryptonote/storage_memory.go
index 4c01499..3a444c1 100644
--- a/cryptonote/storage_memory.go
+++ b/cryptonote/storage_memory.go
@@ -57,7 +57,7 @@ func (s *memoryStorage) Init(genesisBlock *Block) error {
 func (s *memoryStorage) TopIndex() (uint32, error) {
 	s.RLock()
 	index := s.topBlock.Index()
-	s.Unlock()
+	s.RUnlock()
 	return index, nil
 }
 
-- 
2.43.0


From f1a15e40602c765f87d20fd5aaae264483adf3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:09 +0000
Subject: [PATCH 04/50] fix: checkpoints deadlocked when asked about an old
 alternative block

---
 config/checkpoints.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/config/checkpoints.go b/config/checkpoints.go
index 5d336cd..9528601 100644
--- a/config/checkpoints.go
+++ b/config/checkpoints.go
@@ -76,6 +76,11 @@ func (cp *checkpoints) IsInCheckpointZone(index uint32) bool {
 	cp.Lock()
 	defer cp.Unlock()
 
+	return cp.isInCheckpointZone(index)
+}
+
+// isInCheckpointZone is IsInCheckpointZone for callers that already hold the lock
+func (cp *checkpoints) isInCheckpointZone(index uint32) bool {
 	// No checkpoints added
 	if len(cp.pointsSorted) == 0 {
 		return false
@@ -120,7 +125,7 @@ func (cp *checkpoints) AlternativeBlockAllowed(bcSize uint32, index uint32) erro
 	}
 
 	uw := MinedMoneyUnlockWindow
-	if index < bcSize-uw && bcSize > uw && !cp.IsInCheckpointZone(index) {
+	if index < bcSize-uw && bcSize > uw && !cp.isInCheckpointZone(index) {
 		err := ErrCheckpointsTooDeepReorg
 		logger.Error(err)
 		return err
-- 
2.43.0


From d0c153dd9a51e4c2e423a1eef819655f8c1209b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:11 +0000
Subject: [PATCH 05/50] fix: block major version at a height depended on map
 iteration order

---
 config/network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/network.go b/config/network.go
index fd0825f..a050afd 100644
--- a/config/network.go
+++ b/config/network.go
@@ -148,7 +148,7 @@ func (n *Network) GetBlockMajorVersion(blockIndex uint32) byte {
 	version := BlockMajorVersion1
 
 	for majorVersion, upgradeHeight := range n.blockUpgradesMap {
-		if blockIndex > upgradeHeight {
+		if blockIndex > upgradeHeight && majorVersion > version {
 			version = majorVersion
 		}
 	}
-- 
2.43.0


From 96f31989cb1b7c24f8f760d2637245215bf01394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:18 +0000
Subject: [PATCH 06/50] fix: a day of blocks was counted as 25 hours
 (difficulty window and tail emission)

---
 config/params.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/params.go b/config/params.go
index 519af10..f8477d2 100644
--- a/config/params.go
+++ b/config/params.go
@@ -67,7 +67,7 @@ const (
 	MaxExtraSize = 1024
 
 	difficultyTarget             = 240
-	expectedNumberOfBlocksPerDay = (25 * 60 * 60) / difficultyTarget
+	expectedNumberOfBlocksPerDay = (24 * 60 * 60) / difficultyTarget
 
 	difficultyWindow  = expectedNumberOfBlocksPerDay
 	difficultyWindow2 = 17
-- 
2.43.0


From 52b55132e0eec996bf1b4a401f375d6f1274d45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:20 +0000
Subject: [PATCH 07/50] fix: version 3 difficulty ignored the linear weights of
 its moving average

---
 config/network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/network.go b/config/network.go
index a050afd..9cdb512 100644
--- a/config/network.go
+++ b/config/network.go
@@ -538,7 +538,7 @@ func (n *Network) nextDifficultyV3(timestamps []uint64, cumulativeDifficulties [
 		solveTime = int64(timestamps[i]) - int64(timestamps[i-1])
 		solveTime = utils.MinInt64(T*7, utils.MaxInt64(solveTime, -6*T))
 		difficulty = int64(cumulativeDifficulties[i]) - int64(cumulativeDifficulties[i-1])
-		LWMA += float64(solveTime*1) / k
+		LWMA += float64(solveTime*int64(i)) / k
 		sumInverseD += 1 / float64(difficulty)
 	}
 
-- 
2.43.0


From 32c4be1aa81d9cdecf0d9f82ac9f93d1c8e71d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:22 +0000
Subject: [PATCH 08/50] fix: version 4 difficulty multiplied by the weighted
 solve time instead of dividing by it

---
 config/network.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/config/network.go b/config/network.go
index 9cdb512..99b4e8b 100644
--- a/config/network.go
+++ b/config/network.go
@@ -475,7 +475,12 @@ func (n *Network) nextDifficultyV4(height uint32, timestamps []uint64, cumulativ
 		}
 	}
 
-	nextD := int64(cumulativeDifficulties[N]-cumulativeDifficulties[0]) * T * (N * 1) / 2 * L
+	// Solve times can cancel out, the result is clamped below anyway
+	if L == 0 {
+		L = 1
+	}
+
+	nextD := int64(cumulativeDifficulties[N]-cumulativeDifficulties[0]) * T * (N + 1) / (2 * L)
 	nextD = (nextD * 99) / 100
 
 	prevD := int64(cumulativeDifficulties[N] - cumulativeDifficulties[N-1])
-- 
2.43.0


From 81e44ac7645bc58b55bb2de63961d236ab76c4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:24 +0000
Subject: [PATCH 09/50] fix: version 5 difficulty averaged over the whole chain
 work instead of the window

---
 config/network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/network.go b/config/network.go
index 99b4e8b..bc79d12 100644
--- a/config/network.go
+++ b/config/network.go
@@ -395,7 +395,7 @@ func (n *Network) nextDifficultyV5(height uint32, majorVersion byte, timestamps
 	}
 
 	nextD := int64(0)
-	avgD := int64(cumulativeDifficulties[N]) - int64(cumulativeDifficulties[0])/N
+	avgD := (int64(cumulativeDifficulties[N]) - int64(cumulativeDifficulties[0])) / N
 
 	// Prevent round off error for small D and overflow for large D.
 	if avgD > 2000000*N*N*T {
-- 
2.43.0


From feea21713d3444e92c128282c6cbf344678d3422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:26 +0000
Subject: [PATCH 10/50] fix: fee for transaction extra data shrank as the extra
 data grew

---
 config/network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/network.go b/config/network.go
index bc79d12..c795c19 100644
--- a/config/network.go
+++ b/config/network.go
@@ -273,7 +273,7 @@ func (n *Network) MinimalFeeValidator(height uint32) uint64 {
 
 func (n *Network) GetFeePerByte(txExtraSize uint64, minFee uint64) uint64 {
 	if txExtraSize > 100 {
-		return minFee / (100 * (txExtraSize - 100))
+		return minFee / 100 * (txExtraSize - 100)
 	}
 
 	return 0
-- 
2.43.0


From 332e0921bf5399e0749709be33c8d65f9b953158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:27 +0000
Subject: [PATCH 11/50] fix: cumulative difficulties were collected for half of
 the difficulty window

---
 cryptonote/difficulty.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cryptonote/difficulty.go b/cryptonote/difficulty.go
index d4d5355..ee1690c 100644
--- a/cryptonote/difficulty.go
+++ b/cryptonote/difficulty.go
@@ -36,7 +36,6 @@ func (bc *BlockChain) lastBlocksCumulativeDifficulties(count uint32, index uint3
 
 		difficulties = append(difficulties, tempInfo.CumulativeDifficulty)
 		tempInfo = bc.storage.getBlockInfoAtIndex(index - i)
-		count--
 	}
 
 	return utils.SliceReverse(difficulties)
-- 
2.43.0


From 58d8ff0dab8bfc88a5201d20d3d3cc09e0664315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:51 +0000
Subject: [PATCH 12/50] fix: median block size was taken over half of the
 reward window

---
 cryptonote/chain.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index b156932..4783118 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -600,7 +600,6 @@ func (bc *BlockChain) lastBLockSizes(count uint32, index uint32) []uint64 {
 
 		sizes = append(sizes, tempInfo.Size)
 		tempInfo = bc.storage.getBlockInfoAtIndex(index - i)
-		count--
 	}
 
 	return utils.SliceReverse(sizes)
-- 
2.43.0


From 096a9278578f1248f49a3a51035fe5b48a9ce6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:53 +0000
Subject: [PATCH 13/50] fix: blockchain height was always zero

---
 cryptonote/chain.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index 4783118..8c692b1 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -81,8 +81,12 @@ func (bc *BlockChain) Init() error {
 
 // Height returns current blockchain height
 func (bc *BlockChain) Height() uint32 {
-	// TODO: Implement
-	return 0
+	topBlock := bc.TopBlock()
+	if topBlock == nil {
+		return 0
+	}
+
+	return topBlock.Index() + 1
 }
 
 // TopBlock returns current best block
-- 
2.43.0


From ddbc7689a7fbd5ddec9db3487c67ccd9d8ed84f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:54 +0000
Subject: [PATCH 14/50] fix: sparse chain listed no blocks between the top and
 the genesis block

---
 cryptonote/chain.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index 8c692b1..6754fbe 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -322,9 +322,9 @@ func (bc *BlockChain) BuildSparseChain() ([]crypto.Hash, error) {
 
 	list = append(list, *topHash)
 
-	height := bc.Height()
-	for i := uint32(1); i < height; i *= 2 {
-		hash, err := bc.storage.HashAtIndex(height - i)
+	topIndex := topBlock.Index()
+	for i := uint32(1); i < topIndex; i *= 2 {
+		hash, err := bc.storage.HashAtIndex(topIndex - i)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 3f9b9f27598a27d33cb1c1aed0a10742f30beee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:56 +0000
Subject: [PATCH 15/50] fix: block timestamp was compared with a median that
 included itself

---
 cryptonote/chain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index 6754fbe..66fe776 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -384,7 +384,7 @@ func (bc *BlockChain) validateBlock(blogger *log.Entry, block *Block, prevBlock
 	}
 
 	timestampCheckWindow := bc.Network.BlockTimestampCheckWindow(block.MajorVersion)
-	lastTimestamps := bc.lastBlocksTimestamps(timestampCheckWindow, block, true)
+	lastTimestamps := bc.lastBlocksTimestamps(timestampCheckWindow, prevBlock, true)
 	if uint32(len(lastTimestamps)) >= timestampCheckWindow {
 		if block.Timestamp < utils.MedianSlice(lastTimestamps) {
 			err := ErrBlockValidationTimestampTooFarInPast
-- 
2.43.0


From d260405ab03b48fd17e8da972b05d8122d42dcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:58 +0000
Subject: [PATCH 16/50] fix: coinbase unlock height was compared after
 truncation to 32 bits

---
 cryptonote/chain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index 66fe776..9b9dd3c 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -412,7 +412,7 @@ func (bc *BlockChain) validateBlock(blogger *log.Entry, block *Block, prevBlock
 		return 0, err
 	}
 
-	if uint32(block.BaseTransaction.UnlockHeight) != prevBlockIndex+1+bc.Network.MinedMoneyUnlockWindow() {
+	if block.BaseTransaction.UnlockHeight != uint64(prevBlockIndex+1+bc.Network.MinedMoneyUnlockWindow()) {
 		err := ErrTransactionWrongUnlockTime
 		blogger.Error(err)
 		return 0, err
-- 
2.43.0


From 6cd7554e197e318000c31061a4ac482da1b83403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:59 +0000
Subject: [PATCH 17/50] fix: raw transactions were accepted with trailing bytes
 counted in the block size

---
 cryptonote/chain.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index 9b9dd3c..e514114 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -564,6 +564,11 @@ func (bc *BlockChain) deserializeTransactions(blogger *log.Entry, rt [][]byte) (
 			return nil, 0, ErrAddBlockTransactionDeserialization
 		}
 
+		if r.Len() != 0 {
+			tsLogger.Error(fmt.Errorf("%s: trailing bytes", ErrAddBlockTransactionDeserialization.Error()))
+			return nil, 0, ErrAddBlockTransactionDeserialization
+		}
+
 		transactionsSize += tsSize
 	}
 
-- 
2.43.0


From e12013ff105c0925b64ef4e948b4ef8454e46134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:01 +0000
Subject: [PATCH 18/50] fix: truncated block headers were accepted as complete

---
 cryptonote/block.go        | 4 ++--
 cryptonote/block_parent.go | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cryptonote/block.go b/cryptonote/block.go
index 032779d..67de25c 100644
--- a/cryptonote/block.go
+++ b/cryptonote/block.go
@@ -227,12 +227,12 @@ func (h *BlockHeader) deserialize(reader *bytes.Reader) error {
 
 	majorVersion, err := binary.ReadUvarint(reader)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	minorVersion, err := binary.ReadUvarint(reader)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	switch uint8(majorVersion) {
diff --git a/cryptonote/block_parent.go b/cryptonote/block_parent.go
index 656e72b..e07a75c 100644
--- a/cryptonote/block_parent.go
+++ b/cryptonote/block_parent.go
@@ -68,17 +68,17 @@ func (pb *ParentBlock) deserialize(r *bytes.Reader) error {
 
 	majorVersion, err := binary.ReadUvarint(r)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	minorVersion, err := binary.ReadUvarint(r)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	timestamp, err := binary.ReadUvarint(r)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	if err := prev.Read(r); err != nil {
-- 
2.43.0


From b77f1591975a9b143f28c7c6eb5776d3aca7452c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:03 +0000
Subject: [PATCH 19/50] fix: version 5 block headers were refused when decoding
 and cut short when encoding

---
 cryptonote/block.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cryptonote/block.go b/cryptonote/block.go
index 67de25c..3ac3faa 100644
--- a/cryptonote/block.go
+++ b/cryptonote/block.go
@@ -240,7 +240,7 @@ func (h *BlockHeader) deserialize(reader *bytes.Reader) error {
 		if err := prev.Read(reader); err != nil {
 			return err
 		}
-	case config.BlockMajorVersion1, config.BlockMajorVersion4:
+	case config.BlockMajorVersion1, config.BlockMajorVersion4, config.BlockMajorVersion5:
 		ts, err = binary.ReadUvarint(reader)
 		if err != nil {
 			return err
@@ -285,7 +285,7 @@ func (h *BlockHeader) serialize() []byte {
 	switch h.MajorVersion {
 	case config.BlockMajorVersion2, config.BlockMajorVersion3:
 		serialized.Write(h.PreviousBlockHash[:])
-	case config.BlockMajorVersion1, config.BlockMajorVersion4:
+	case config.BlockMajorVersion1, config.BlockMajorVersion4, config.BlockMajorVersion5:
 		written = binary.PutUvarint(buf, h.Timestamp)
 		serialized.Write(buf[:written])
 		serialized.Write(h.PreviousBlockHash[:])
-- 
2.43.0


From b376091e250984aed5b41386a17265abe0e4b4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:05 +0000
Subject: [PATCH 20/50] fix: merge mined blocks lost their timestamp and nonce
 when decoded

---
 cryptonote/block.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cryptonote/block.go b/cryptonote/block.go
index 3ac3faa..616b38e 100644
--- a/cryptonote/block.go
+++ b/cryptonote/block.go
@@ -139,6 +139,10 @@ func (b *Block) Deserialize(r *bytes.Reader) error {
 		}
 
 		b.Parent = parentBlock
+
+		// Merge mined blocks keep their timestamp and nonce in the parent block
+		b.Timestamp = parentBlock.Timestamp
+		b.Nonce = parentBlock.Nonce
 	}
 
 	if err := b.BaseTransaction.Deserialize(r); err != nil {
-- 
2.43.0


From 50e5ebc9dd805410aaeef269de96f50a4b00a3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:41 +0000
Subject: [PATCH 21/50] fix: blocks and transactions were accepted with padded
 or overflowing integers

---
 cryptonote/block.go        |  9 +++++----
 cryptonote/block_parent.go |  9 +++++----
 cryptonote/transaction.go  | 23 ++++++++++++-----------
 cryptonote/utils.go        | 32 ++++++++++++++++++++++++++++++++
 4 files changed, 54 insertions(+), 19 deletions(-)

diff --git a/cryptonote/block.go b/cryptonote/block.go
index 616b38e..a50fdec 100644
--- a/cryptonote/block.go
+++ b/cryptonote/block.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"github.com/r3volut1oner/go-karbo/config"
 	"github.com/r3volut1oner/go-karbo/crypto"
+	"math"
 	"unsafe"
 )
 
@@ -149,7 +150,7 @@ func (b *Block) Deserialize(r *bytes.Reader) error {
 		return err
 	}
 
-	hashesCount, err := binary.ReadUvarint(r)
+	hashesCount, err := readVarint(r, math.MaxUint64)
 	if err != nil {
 		return err
 	}
@@ -229,12 +230,12 @@ func (h *BlockHeader) deserialize(reader *bytes.Reader) error {
 	var ts uint64
 	var nonce uint32
 
-	majorVersion, err := binary.ReadUvarint(reader)
+	majorVersion, err := readVarint(reader, math.MaxUint8)
 	if err != nil {
 		return err
 	}
 
-	minorVersion, err := binary.ReadUvarint(reader)
+	minorVersion, err := readVarint(reader, math.MaxUint8)
 	if err != nil {
 		return err
 	}
@@ -245,7 +246,7 @@ func (h *BlockHeader) deserialize(reader *bytes.Reader) error {
 			return err
 		}
 	case config.BlockMajorVersion1, config.BlockMajorVersion4, config.BlockMajorVersion5:
-		ts, err = binary.ReadUvarint(reader)
+		ts, err = readVarint(reader, math.MaxUint64)
 		if err != nil {
 			return err
 		}
diff --git a/cryptonote/block_parent.go b/cryptonote/block_parent.go
index e07a75c..977855f 100644
--- a/cryptonote/block_parent.go
+++ b/cryptonote/block_parent.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"github.com/r3volut1oner/go-karbo/crypto"
+	"math"
 )
 
 type ParentBlock struct {
@@ -66,17 +67,17 @@ func (pb *ParentBlock) deserialize(r *bytes.Reader) error {
 	var prev crypto.Hash
 	var nonce uint32
 
-	majorVersion, err := binary.ReadUvarint(r)
+	majorVersion, err := readVarint(r, math.MaxUint8)
 	if err != nil {
 		return err
 	}
 
-	minorVersion, err := binary.ReadUvarint(r)
+	minorVersion, err := readVarint(r, math.MaxUint8)
 	if err != nil {
 		return err
 	}
 
-	timestamp, err := binary.ReadUvarint(r)
+	timestamp, err := readVarint(r, math.MaxUint64)
 	if err != nil {
 		return err
 	}
@@ -89,7 +90,7 @@ func (pb *ParentBlock) deserialize(r *bytes.Reader) error {
 		return err
 	}
 
-	txCount, err := binary.ReadUvarint(r)
+	txCount, err := readVarint(r, math.MaxUint16)
 	if err != nil {
 		return err
 	}
diff --git a/cryptonote/transaction.go b/cryptonote/transaction.go
index 8979ab7..4e454c3 100644
--- a/cryptonote/transaction.go
+++ b/cryptonote/transaction.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"github.com/r3volut1oner/go-karbo/crypto"
+	"math"
 )
 
 const (
@@ -213,7 +214,7 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 	/**
 	 * Read transaction version
 	 */
-	version, err := binary.ReadUvarint(br)
+	version, err := readVarint(br, math.MaxUint8)
 	if err != nil {
 		return err
 	}
@@ -222,7 +223,7 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 	/**
 	 * Read transaction UnlockHeight
 	 */
-	tp.UnlockHeight, err = binary.ReadUvarint(br)
+	tp.UnlockHeight, err = readVarint(br, math.MaxUint64)
 	if err != nil {
 		return err
 	}
@@ -230,7 +231,7 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 	/**
 	 * Read transaction Inputs
 	 */
-	inputsLen, err := binary.ReadUvarint(br)
+	inputsLen, err := readVarint(br, math.MaxUint64)
 	tp.Inputs = make([]TransactionInput, inputsLen)
 	if err != nil {
 		return err
@@ -244,7 +245,7 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 
 		switch tag {
 		case TxTagCoinbase:
-			blockIndex, err := binary.ReadUvarint(br)
+			blockIndex, err := readVarint(br, math.MaxUint32)
 			if err != nil {
 				return err
 			}
@@ -254,18 +255,18 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 			var OutputIndexes []uint32
 			var Key crypto.KeyImage
 
-			amount, err := binary.ReadUvarint(br)
+			amount, err := readVarint(br, math.MaxUint64)
 			if err != nil {
 				return err
 			}
 
-			size, err := binary.ReadUvarint(br)
+			size, err := readVarint(br, math.MaxUint64)
 			if err != nil {
 				return err
 			}
 
 			for i := uint64(0); i < size; i++ {
-				oi, err := binary.ReadUvarint(br)
+				oi, err := readVarint(br, math.MaxUint32)
 				if err != nil {
 					return err
 				}
@@ -293,19 +294,19 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 	/**
 	 * Read transaction Output
 	 */
-	outputLen, err := binary.ReadUvarint(br)
+	outputLen, err := readVarint(br, math.MaxUint64)
 	tp.Outputs = make([]TransactionOutput, outputLen)
 	if err != nil {
 		return err
 	}
 
 	for outputIndex := uint64(0); outputIndex < outputLen; outputIndex++ {
-		amount, err := binary.ReadUvarint(br)
+		amount, err := readVarint(br, math.MaxUint64)
 		if err != nil {
 			return err
 		}
 
-		tag, err := binary.ReadUvarint(br)
+		tag, err := readVarint(br, math.MaxUint64)
 		if err != nil {
 			return err
 		}
@@ -332,7 +333,7 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 	/**
 	 * Read transaction Extra
 	 */
-	extraLen, err := binary.ReadUvarint(br)
+	extraLen, err := readVarint(br, math.MaxUint64)
 	if err != nil {
 		return err
 	}
diff --git a/cryptonote/utils.go b/cryptonote/utils.go
index 7b120fb..0757190 100644
--- a/cryptonote/utils.go
+++ b/cryptonote/utils.go
@@ -1,5 +1,37 @@
 package cryptonote
 
+import (
+	"bytes"
+	"encoding/binary"
+	"errors"
+)
+
+var (
+	errVarintNotCanonical = errors.New("varint is not encoded in the shortest form")
+	errVarintTooLarge     = errors.New("varint value is too large")
+)
+
+// readVarint reads varint encoded in its shortest form and not bigger than provided max value
+func readVarint(r *bytes.Reader, max uint64) (uint64, error) {
+	available := r.Len()
+
+	value, err := binary.ReadUvarint(r)
+	if err != nil {
+		return 0, err
+	}
+
+	if value > max {
+		return 0, errVarintTooLarge
+	}
+
+	var buf [binary.MaxVarintLen64]byte
+	if available-r.Len() != binary.PutUvarint(buf[:], value) {
+		return 0, errVarintNotCanonical
+	}
+
+	return value, nil
+}
+
 func DecomposeAmountIntoDigits(amount, dustThreshold uint64) ([]uint64, []uint64) {
 	var dusts []uint64
 	var chunks []uint64
-- 
2.43.0


From cd68dbf1cbcc35ae60b3e62fb4563cc7e423e534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:42 +0000
Subject: [PATCH 22/50] fix: transaction decoder allocated whatever size a peer
 announced

---
 cryptonote/transaction.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/cryptonote/transaction.go b/cryptonote/transaction.go
index 4e454c3..6d227f9 100644
--- a/cryptonote/transaction.go
+++ b/cryptonote/transaction.go
@@ -232,10 +232,13 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 	 * Read transaction Inputs
 	 */
 	inputsLen, err := readVarint(br, math.MaxUint64)
-	tp.Inputs = make([]TransactionInput, inputsLen)
 	if err != nil {
 		return err
 	}
+	if inputsLen > uint64(br.Len()) {
+		return errors.New("inputs count is bigger than available data")
+	}
+	tp.Inputs = make([]TransactionInput, inputsLen)
 
 	for inputIndex := uint64(0); inputIndex < inputsLen; inputIndex++ {
 		var tag byte
@@ -295,10 +298,13 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 	 * Read transaction Output
 	 */
 	outputLen, err := readVarint(br, math.MaxUint64)
-	tp.Outputs = make([]TransactionOutput, outputLen)
 	if err != nil {
 		return err
 	}
+	if outputLen > uint64(br.Len()) {
+		return errors.New("outputs count is bigger than available data")
+	}
+	tp.Outputs = make([]TransactionOutput, outputLen)
 
 	for outputIndex := uint64(0); outputIndex < outputLen; outputIndex++ {
 		amount, err := readVarint(br, math.MaxUint64)
@@ -338,6 +344,10 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 		return err
 	}
 
+	if extraLen > uint64(br.Len()) {
+		return errors.New("extra size is bigger than available data")
+	}
+
 	tp.Extra = make([]byte, extraLen)
 	if err := binary.Read(br, binary.LittleEndian, &tp.Extra); err != nil {
 		return err
@@ -385,6 +395,10 @@ func (ts *TransactionSignatures) deserialize(br *bytes.Reader, t *Transaction) e
 			continue
 		}
 
+		if uint64(sigSize) > uint64(br.Len()/binary.Size(crypto.Signature{})) {
+			return errors.New("signatures count is bigger than available data")
+		}
+
 		sigs := make([]crypto.Signature, sigSize)
 		for i := 0; i < sigSize; i++ {
 			if err := binary.Read(br, binary.LittleEndian, &sigs[i]); err != nil {
-- 
2.43.0


From 8a7d257d1e11a68750cdb0b6cb1d2bec9fe2138b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:44 +0000
Subject: [PATCH 23/50] fix: signatures were attached to the wrong input after
 an input without signatures

---
 cryptonote/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/transaction.go b/cryptonote/transaction.go
index 6d227f9..4943256 100644
--- a/cryptonote/transaction.go
+++ b/cryptonote/transaction.go
@@ -391,7 +391,7 @@ func (ts *TransactionSignatures) deserialize(br *bytes.Reader, t *Transaction) e
 			return errors.New("unexpected signatures")
 		}
 
-		if sigSize == 0 {
+		if signaturesNotExpected {
 			continue
 		}
 
-- 
2.43.0


From b3ee4e22f444b394b690a23df9baa09b266f176c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:46 +0000
Subject: [PATCH 24/50] fix: transaction extra nonce with a huge size crashed
 the parser

---
 cryptonote/transaction_extra.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/transaction_extra.go b/cryptonote/transaction_extra.go
index 3892d72..4200949 100644
--- a/cryptonote/transaction_extra.go
+++ b/cryptonote/transaction_extra.go
@@ -86,7 +86,7 @@ func TxExtraFromBytes(b []byte) (*TransactionExtraFields, error) {
 			if err != nil {
 				return nil, err
 			}
-			if int(size) > TxExtraNonceMax {
+			if size > uint64(TxExtraNonceMax) {
 				return nil, ErrNonceMax
 			}
 
-- 
2.43.0


From 0de1331b82c0fa0f590af61626c509cc4702be1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:48 +0000
Subject: [PATCH 25/50] fix: merge mining tag read more bytes than its
 announced size

---
 cryptonote/transaction_extra.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cryptonote/transaction_extra.go b/cryptonote/transaction_extra.go
index 4200949..e9af403 100644
--- a/cryptonote/transaction_extra.go
+++ b/cryptonote/transaction_extra.go
@@ -106,6 +106,8 @@ func TxExtraFromBytes(b []byte) (*TransactionExtraFields, error) {
 				return nil, ErrMergeMiningTagMax
 			}
 
+			available := r.Len()
+
 			depth, err := binary.ReadUvarint(r)
 			if err != nil {
 				return nil, err
@@ -116,6 +118,10 @@ func TxExtraFromBytes(b []byte) (*TransactionExtraFields, error) {
 				return nil, err
 			}
 
+			if uint64(available-r.Len()) != size {
+				return nil, ErrMergeMiningTagMax
+			}
+
 			tef.MiningTag = &TransactionExtraMergeMiningTag{depth, h}
 		default:
 			return nil, errors.New(fmt.Sprintf("Unknown extra tag: %x", tag))
-- 
2.43.0


From 4125699061b9aad81f6fa22977eef18a6986aae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 26/50] fix: transaction mixin was counted over every input
 except the key inputs

---
 cryptonote/transaction_validator.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cryptonote/transaction_validator.go b/cryptonote/transaction_validator.go
index f71626e..c5f0a5b 100644
--- a/cryptonote/transaction_validator.go
+++ b/cryptonote/transaction_validator.go
@@ -569,11 +569,12 @@ func (validator *blockTransactionsValidator) IsFusionTransaction(transaction *Tr
 func countMixin(transaction *Transaction) int {
 	mixin := 0
 	for _, input := range transaction.Inputs {
-		if _, ok := input.(InputKey); ok {
+		inputKey, ok := input.(InputKey)
+		if !ok {
 			continue
 		}
 
-		curMixin := len(input.(InputKey).OutputIndexes)
+		curMixin := len(inputKey.OutputIndexes)
 		if curMixin > mixin {
 			mixin = curMixin
 		}
-- 
2.43.0


From 23f21f934fa8c12279a13c11b0f5f427f541637d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:21 +0000
Subject: [PATCH 27/50] fix: relative output offsets were compared as if they
 were output indexes

---
 cryptonote/transaction_validator.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cryptonote/transaction_validator.go b/cryptonote/transaction_validator.go
index c5f0a5b..0ff2705 100644
--- a/cryptonote/transaction_validator.go
+++ b/cryptonote/transaction_validator.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"github.com/r3volut1oner/go-karbo/config"
 	"github.com/r3volut1oner/go-karbo/crypto"
-	"github.com/r3volut1oner/go-karbo/utils"
 	log "github.com/sirupsen/logrus"
 	"math"
 )
@@ -155,10 +154,12 @@ func (validator *blockTransactionsValidator) validateInputs(transaction *Transac
 				}
 			}
 
-			if !utils.SliceIsUniqueUint32(&input.OutputIndexes) {
-				err := ErrTransactionInputIdenticalOutputIndexes
-				logger.Error(err)
-				return 0, err
+			for _, offset := range input.OutputIndexes[1:] {
+				if offset == 0 {
+					err := ErrTransactionInputIdenticalOutputIndexes
+					logger.Error(err)
+					return 0, err
+				}
 			}
 
 			if _, ok := validator.spentKeyImages[input.KeyImage]; ok {
-- 
2.43.0


From 8c9454a30db504c5113e7106dce63e8e0931793f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:22 +0000
Subject: [PATCH 28/50] fix: fusion transactions were free with any amounts of
 the right count

---
 cryptonote/transaction_validator.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/cryptonote/transaction_validator.go b/cryptonote/transaction_validator.go
index 0ff2705..deb4a06 100644
--- a/cryptonote/transaction_validator.go
+++ b/cryptonote/transaction_validator.go
@@ -6,6 +6,7 @@ import (
 	"github.com/r3volut1oner/go-karbo/crypto"
 	log "github.com/sirupsen/logrus"
 	"math"
+	"sort"
 )
 
 type blockTransactionsValidator struct {
@@ -548,12 +549,16 @@ func (validator *blockTransactionsValidator) IsFusionTransaction(transaction *Tr
 	}
 
 	expectedOutputsAmount := validator.bc.DecomposeAmount(inputAmount, dustThreshold)
-	// Why do we need sorting here?
-	//sort.Slice(expectedOutputsAmount, func(i, j int) bool {
-	//	return expectedOutputsAmount[i] < expectedOutputsAmount[j]
-	//})
+	sort.Slice(expectedOutputsAmount, func(i, j int) bool {
+		return expectedOutputsAmount[i] < expectedOutputsAmount[j]
+	})
+
+	decomposedMatch := len(expectedOutputsAmount) == len(outputsAmounts)
+	for i := 0; decomposedMatch && i < len(outputsAmounts); i++ {
+		decomposedMatch = expectedOutputsAmount[i] == outputsAmounts[i]
+	}
 
-	if len(expectedOutputsAmount) != len(outputsAmounts) {
+	if !decomposedMatch {
 		logger := validator.logger.WithFields(log.Fields{
 			"expected_outputs_amount_len": len(expectedOutputsAmount),
 			"input_amounts_len":           len(outputsAmounts),
-- 
2.43.0


From 5225f356f1011f67a07bfe05c09c6829796dd46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:24 +0000
Subject: [PATCH 29/50] fix: address had more than one valid text form (padded
 tag)

---
 cryptonote/address.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cryptonote/address.go b/cryptonote/address.go
index c2947a2..270dde7 100644
--- a/cryptonote/address.go
+++ b/cryptonote/address.go
@@ -95,6 +95,11 @@ func addressDecode(addr string) (tag uint64, data []byte, err error) {
 		return
 	}
 
+	if read > 1 && ddata[read-1] == 0 {
+		err = fmt.Errorf("Tag is not encoded in the shortest form")
+		return
+	}
+
 	data = ddata[read:]
 	return
 }
-- 
2.43.0


From a7bbf65bf43533f4a378ca9f2706399d2eab0dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:26 +0000
Subject: [PATCH 30/50] fix: portable storage zero filled truncated data,
 refused trailing empty values and allocated announced sizes

---
 encoding/binary/decode.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/encoding/binary/decode.go b/encoding/binary/decode.go
index 04776f7..e9515ba 100644
--- a/encoding/binary/decode.go
+++ b/encoding/binary/decode.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"reflect"
 )
 
@@ -61,13 +62,13 @@ func (d *Decoder) decode(v interface{}) error {
 func (d *Decoder) readName() (string, error) {
 	var sizeByte [1]byte
 
-	if _, err := d.r.Read(sizeByte[:]); err != nil {
+	if _, err := io.ReadFull(d.r, sizeByte[:]); err != nil {
 		return "", err
 	}
 
 	str := make([]byte, sizeByte[0])
 
-	if _, err := d.r.Read(str); err != nil {
+	if _, err := io.ReadFull(d.r, str); err != nil {
 		return "", err
 	}
 
@@ -130,11 +131,16 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 			return err
 		}
 
-		b := make([]byte, size)
-		if _, err := d.r.Read(b); err != nil {
+		// Size is provided by the sender so don't allocate more than really received
+		b, err := ioutil.ReadAll(io.LimitReader(d.r, int64(size)))
+		if err != nil {
 			return err
 		}
 
+		if uint64(len(b)) != size {
+			return io.ErrUnexpectedEOF
+		}
+
 		switch value.Kind() {
 		// For slice we don't know exact size of the data encoded.
 		// We read item by item with N size, where N defined by receiving slice element type.
@@ -193,7 +199,7 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 
 func (d *Decoder) readVarInt() (uint64, error) {
 	var sizeBytes [8]byte
-	if _, err := d.r.Read(sizeBytes[0:1]); err != nil {
+	if _, err := io.ReadFull(d.r, sizeBytes[0:1]); err != nil {
 		return 0, err
 	}
 
@@ -216,7 +222,7 @@ func (d *Decoder) readVarInt() (uint64, error) {
 	allBytes := make([]byte, 8)
 	allBytes[0] = sizeBytes[0]
 
-	if _, err := d.r.Read(allBytes[1:bytesLeft+1]); err != nil {
+	if _, err := io.ReadFull(d.r, allBytes[1:bytesLeft+1]); err != nil {
 		return 0, err
 	}
 
-- 
2.43.0


From 40070561dc9d27eace2257a47177dcccff1b21ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 31/50] fix: portable storage accepted objects missing at the
 end of data

---
 encoding/binary/decode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding/binary/decode.go b/encoding/binary/decode.go
index e9515ba..7ff514c 100644
--- a/encoding/binary/decode.go
+++ b/encoding/binary/decode.go
@@ -27,8 +27,8 @@ func (d *Decoder) decode(v interface{}) error {
 	}
 
 	size, err := d.readVarInt()
-	if err == io.EOF {
-		return nil
+	if err != nil {
+		return err
 	}
 
 	metadata, err := getStructBinaryMetadata(reflect.ValueOf(v), false)
-- 
2.43.0


From 46946d3846ea0d7dd0aa7545be0182e06acff88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:29 +0000
Subject: [PATCH 32/50] fix: portable storage crashed on an object received for
 a simple field

---
 encoding/binary/decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/encoding/binary/decode.go b/encoding/binary/decode.go
index 7ff514c..f5c268a 100644
--- a/encoding/binary/decode.go
+++ b/encoding/binary/decode.go
@@ -184,6 +184,10 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 			return errors.New(fmt.Sprintf("not supported kind '%s' for binary received", value.Kind()))
 		}
 	case typeObject:
+		if value.Kind() != reflect.Struct {
+			return errors.New(fmt.Sprintf("not supported kind '%s' for object received", value.Kind()))
+		}
+
 		v := reflect.New(value.Type())
 		if err := d.decode(v.Interface()); err != nil {
 			return err
-- 
2.43.0


From b556736d5a55d75a6b3d19b9ac99911aa2fc5692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:31 +0000
Subject: [PATCH 33/50] fix: portable storage padded or cut fixed size values
 received with another size

---
 encoding/binary/decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/encoding/binary/decode.go b/encoding/binary/decode.go
index f5c268a..de29fb5 100644
--- a/encoding/binary/decode.go
+++ b/encoding/binary/decode.go
@@ -174,6 +174,10 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 			value.Set(newSlice)
 		// For binary data only [N]byte array supported.
 		case reflect.Array:
+			if value.Len() != len(b) {
+				return errors.New(fmt.Sprintf("wrong size %d for %s", len(b), value.Type()))
+			}
+
 			newArray := reflect.New(value.Type()).Elem()
 			reflect.Copy(newArray, reflect.ValueOf(b))
 
-- 
2.43.0


From e819257ae57388e63867d3ebba16f4ee6e99a8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:54 +0000
Subject: [PATCH 34/50] fix: handshake refused newer peers and accepted too old
 ones

---
 p2p/peer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 0bc6843..cf31084 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -149,7 +149,7 @@ func (p *Peer) handshake(n *Node) (*HandshakeResponse, error) {
 		return nil, errors.New("wrong network id received")
 	}
 
-	if n.Config.Network.P2PMinimumVersion < res.NodeData.Version {
+	if res.NodeData.Version < n.Config.Network.P2PMinimumVersion {
 		return nil, errors.New("node data version not match minimal")
 	}
 
-- 
2.43.0


From 893d4d5764b75f434e8283661b43ed0cce85e8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:55 +0000
Subject: [PATCH 35/50] fix: incoming handshake did not check the version of
 the peer

---
 p2p/command_handshake.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/p2p/command_handshake.go b/p2p/command_handshake.go
index ac09d5f..85371ca 100644
--- a/p2p/command_handshake.go
+++ b/p2p/command_handshake.go
@@ -20,6 +20,7 @@ type HandshakeResponse struct {
 
 var (
 	ErrHandshakeWrongNetwork    = errors.New("wrong network connection")
+	ErrHandshakeWrongVersion    = errors.New("peer version is not supported")
 	ErrHandshakeNotIncoming     = errors.New("handshake not from incoming connection")
 	ErrHandshakeHasID           = errors.New("ID for the connecting peer already set")
 	ErrHandshakeProcessSyncData = errors.New("failed to process sync data")
@@ -61,6 +62,13 @@ func (n *Node) HandleHandshake(p *Peer, req HandshakeRequest) error {
 		return err
 	}
 
+	if req.NodeData.Version < n.Config.Network.P2PMinimumVersion {
+		err := ErrHandshakeWrongVersion
+		p.logger.Error(err)
+		p.Shutdown()
+		return err
+	}
+
 	if !p.isIncoming {
 		err := ErrHandshakeNotIncoming
 		p.logger.Error(err)
-- 
2.43.0


From 2e0b0e23428a543ad2feedbce1ebb89f8ae3ac99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:57 +0000
Subject: [PATCH 36/50] fix: peers could write files into the working directory
 of the node

---
 p2p/notification_response_get_objects.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/p2p/notification_response_get_objects.go b/p2p/notification_response_get_objects.go
index 8e5f9fe..c2be6c5 100644
--- a/p2p/notification_response_get_objects.go
+++ b/p2p/notification_response_get_objects.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"github.com/r3volut1oner/go-karbo/crypto"
 	"github.com/r3volut1oner/go-karbo/cryptonote"
-	"io/ioutil"
 )
 
 // NotificationResponseGetObjects == 2004
@@ -49,13 +48,7 @@ func (n *Node) HandleResponseGetObjects(p *Peer, nt NotificationResponseGetObjec
 		rawBlockReader := bytes.NewReader(rawBlock.Block)
 		if err := block.Deserialize(rawBlockReader); err != nil {
 			p.Shutdown()
-			// TODO: Remove this. It is debug only.
-			height := n.Blockchain.Height()
-			blockHeight := height + uint32(i)
-			_ = ioutil.WriteFile(fmt.Sprintf("./block_%d.dat", blockHeight), rawBlock.Block, 0644)
-			return errors.New(
-				fmt.Sprintf("[%s] (%d) failed to convert raw block (%d): %s", p, i, blockHeight, err),
-			)
+			return errors.New(fmt.Sprintf("[%s] failed to convert raw block (%d): %s", p, i, err))
 		}
 
 		hash := block.Hash()
-- 
2.43.0


From aeece243cd89a04ac4c88b1266e2d04aa7c2da01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:58 +0000
Subject: [PATCH 37/50] fix: peer with an empty chain was asked for the chain
 again and again

---
 p2p/peer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index cf31084..6731276 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -220,7 +220,7 @@ func (p *Peer) requestMissingBlocks(n *Node, checkHavingBlocks bool) error {
 		}
 
 		p.neededBlocks = neededBlocks
-	} else if p.lastResponseHeight < (p.remoteHeight - 1) {
+	} else if uint64(p.lastResponseHeight)+1 < uint64(p.remoteHeight) {
 		if err := p.requestChain(n.Blockchain); err != nil {
 			return err
 		}
-- 
2.43.0


From 4b84a30a2d5f962769de52b675c572ddd7716270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:00 +0000
Subject: [PATCH 38/50] fix: peer lists were changed and read concurrently
 without locking

---
 p2p/peerstore.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/p2p/peerstore.go b/p2p/peerstore.go
index 154e162..c4c4163 100644
--- a/p2p/peerstore.go
+++ b/p2p/peerstore.go
@@ -3,9 +3,12 @@ package p2p
 import (
 	"errors"
 	"fmt"
+	"sync"
 )
 
 type peerStore struct {
+	sync.RWMutex
+
 	white *peerList
 	grey  *peerList
 }
@@ -22,6 +25,9 @@ func NewPeerStore() *peerStore {
 }
 
 func (ps *peerStore) toPeerEntries() []PeerEntry {
+	ps.RLock()
+	defer ps.RUnlock()
+
 	var peers []PeerEntry
 
 	for _, p := range ps.white.peers {
@@ -36,6 +42,9 @@ func (ps *peerStore) toPeerEntries() []PeerEntry {
 }
 
 func (ps *peerStore) toWhite(p *Peer) error {
+	ps.Lock()
+	defer ps.Unlock()
+
 	_ = ps.grey.Remove(p)
 
 	if err := ps.white.Add(p); err != nil {
@@ -46,6 +55,9 @@ func (ps *peerStore) toWhite(p *Peer) error {
 }
 
 func (ps *peerStore) toGrey(p *Peer) error {
+	ps.Lock()
+	defer ps.Unlock()
+
 	_ = ps.white.Remove(p)
 
 	if err := ps.grey.Add(p); err != nil {
-- 
2.43.0


From f29c6d41d65a8248215dc543104962eed4307389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:14 +0000
Subject: [PATCH 39/50] fix: peers that closed their connection were served
 forever

---
 p2p/node.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/p2p/node.go b/p2p/node.go
index 049bae6..181ecf2 100644
--- a/p2p/node.go
+++ b/p2p/node.go
@@ -8,7 +8,6 @@ import (
 	"github.com/r3volut1oner/go-karbo/crypto"
 	"github.com/r3volut1oner/go-karbo/cryptonote"
 	"go.uber.org/zap"
-	"io"
 	"math"
 	"math/rand"
 	"net"
@@ -167,12 +166,7 @@ func (n *Node) connectionHandler(p *Peer) {
 		// Read a next command from the connection
 		cmd, err := p.protocol.read()
 
-		// No command received continue to next loop cycle
-		if err == io.EOF {
-			continue
-		}
-
-		// On any error we move the peer to the grey list
+		// On any error, including closed connection, we move the peer to the grey list
 		if err != nil {
 			n.logger.Errorf("error on read command: %s", err)
 			_ = n.ps.toGrey(p)
-- 
2.43.0


From 4064ec6477db73dd297ccb9ee4d0d42e25f0a639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:15 +0000
Subject: [PATCH 40/50] fix: failed accept crashed the listener

---
 p2p/node.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/p2p/node.go b/p2p/node.go
index 181ecf2..fb3cb89 100644
--- a/p2p/node.go
+++ b/p2p/node.go
@@ -108,6 +108,7 @@ func (n *Node) runListener() {
 					continue
 				}
 				n.logger.Errorf("failed to accept connection: %s", err)
+				continue
 			}
 
 			go n.handleIncomingConnection(conn)
-- 
2.43.0


From ff1371467b1a92c9d3aa45ccd49202c228cfedd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:57 +0000
Subject: [PATCH 41/50] fix: median of an even list overflowed for large values

---
 utils/math.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/math.go b/utils/math.go
index 10f991f..134f443 100644
--- a/utils/math.go
+++ b/utils/math.go
@@ -17,7 +17,7 @@ func MedianSlice(sl []uint64) uint64 {
 
 	n := l / 2
 	if l%2 == 0 {
-		return (sl[n-1] + sl[n]) / 2
+		return sl[n-1] + (sl[n]-sl[n-1])/2
 	} else {
 		return sl[n]
 	}
-- 
2.43.0


From d70ace4beb7e90a572c3e1dfa5e7e3fdb821b516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:51 +0000
Subject: [PATCH 42/50] fix: ring signature check panicked when signatures were
 missing and ignored surplus ones

---
 crypto/signature.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crypto/signature.go b/crypto/signature.go
index 6d7da31..8849ae9 100644
--- a/crypto/signature.go
+++ b/crypto/signature.go
@@ -278,6 +278,10 @@ func GenerateRingSignature(prefixHash *Hash, image *KeyImage, pubs *[]PublicKey,
 }
 
 func CheckRingSignature(prefixHash *Hash, image *KeyImage, pubs *[]PublicKey, sigs *[]Signature, checkKeyImage bool) bool {
+	if len(*sigs) != len(*pubs) {
+		return false
+	}
+
 	// -------- ENABLED IN DEBUG MODE --------
 	for i := 0; i < len(*pubs); i++ {
 		if !(*pubs)[i].Check() {
-- 
2.43.0


From f8a3194a4b992da1f37f8f9a73c4c04c973ed5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:32 +0000
Subject: [PATCH 43/50] fix: rounding of version 5 difficulty halved it

---
 config/network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/network.go b/config/network.go
index c795c19..97a2515 100644
--- a/config/network.go
+++ b/config/network.go
@@ -408,7 +408,7 @@ func (n *Network) nextDifficultyV5(height uint32, majorVersion byte, timestamps
 	i := int64(1000000000)
 	for i > 1 {
 		if nextD > i*100 {
-			nextD = (((nextD + i) / 2) / i) * i
+			nextD = ((nextD + i/2) / i) * i
 			break
 		}
 
-- 
2.43.0


From af0efc56c2de8d411f9677452ec59c4d521f939a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:00 +0000
Subject: [PATCH 44/50] fix: connections of dropped peers stayed open

---
 p2p/node.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/p2p/node.go b/p2p/node.go
index fb3cb89..d92b82f 100644
--- a/p2p/node.go
+++ b/p2p/node.go
@@ -120,6 +120,8 @@ func (n *Node) handleIncomingConnection(conn *net.TCPConn) {
 	// TODO: Enabling handling incoming connections
 	//return
 
+	defer conn.Close()
+
 	peer := NewPeerFromIncomingConnection(n, conn)
 
 	//// TODO: Add peer to peerstore. Make sure it is not exists.
@@ -493,6 +495,7 @@ func (n *Node) syncWithAddr(addr string) {
 		cancel()
 		return
 	}
+	defer peer.protocol.Conn.Close()
 
 	//handshake, err := peer.handshake(n)
 	_, err = peer.handshake(n)
-- 
2.43.0


From de7516f839384bee089127b3f718685313195892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:57 +0000
Subject: [PATCH 45/50] fix: close connections when the node is stopped

A handler that waits for a packet of a silent peer never looked at the context, so Run did not return.
---
 p2p/node.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/p2p/node.go b/p2p/node.go
index d92b82f..8f5fdbf 100644
--- a/p2p/node.go
+++ b/p2p/node.go
@@ -121,6 +121,7 @@ func (n *Node) handleIncomingConnection(conn *net.TCPConn) {
 	//return
 
 	defer conn.Close()
+	defer n.closeOnShutdown(conn)()
 
 	peer := NewPeerFromIncomingConnection(n, conn)
 
@@ -138,6 +139,22 @@ func (n *Node) handleIncomingConnection(conn *net.TCPConn) {
 	n.logger.Debugf("[%16x] sync closed", peer.ID)
 }
 
+// closeOnShutdown closes the connection when the node is stopped, so a handler that waits for the remote peer ends.
+// Returned function must be called when the connection is not in use anymore.
+func (n *Node) closeOnShutdown(conn net.Conn) func() {
+	finished := make(chan struct{})
+
+	go func() {
+		select {
+		case <-n.context.Done():
+			_ = conn.Close()
+		case <-finished:
+		}
+	}()
+
+	return func() { close(finished) }
+}
+
 func (n *Node) connectionHandler(p *Peer) {
 	for {
 		// Peer state changes asynchronously after handling some commands.
@@ -496,6 +513,7 @@ func (n *Node) syncWithAddr(addr string) {
 		return
 	}
 	defer peer.protocol.Conn.Close()
+	defer n.closeOnShutdown(peer.protocol.Conn)()
 
 	//handshake, err := peer.handshake(n)
 	_, err = peer.handshake(n)
-- 
2.43.0


From 15b5cdf33c63dba4a4974d3cf3cecac51d959d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:46 +0000
Subject: [PATCH 46/50] fix: count a connection before the listener can end

Run could return, or panic on its reused wait group, when a connection came while the node was stopped.
---
 p2p/node.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/p2p/node.go b/p2p/node.go
index 8f5fdbf..5b97b18 100644
--- a/p2p/node.go
+++ b/p2p/node.go
@@ -111,6 +111,8 @@ func (n *Node) runListener() {
 				continue
 			}
 
+			// Counted here: the listener ends later than this, so Run is still waiting
+			n.wg.Add(1)
 			go n.handleIncomingConnection(conn)
 		}
 	}
@@ -120,6 +122,7 @@ func (n *Node) handleIncomingConnection(conn *net.TCPConn) {
 	// TODO: Enabling handling incoming connections
 	//return
 
+	defer n.wg.Done()
 	defer conn.Close()
 	defer n.closeOnShutdown(conn)()
 
@@ -127,8 +130,6 @@ func (n *Node) handleIncomingConnection(conn *net.TCPConn) {
 
 	//// TODO: Add peer to peerstore. Make sure it is not exists.
 	//
-	n.wg.Add(1)
-	defer n.wg.Done()
 
 	n.connectionHandler(peer)
 
-- 
2.43.0


From d5bffdaa5a3078b245150c6647e47ba5c49dc1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:50 +0000
Subject: [PATCH 47/50] fix: an interrupt right after the start killed the
 daemon

---
 cmd/root.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/root.go b/cmd/root.go
index 8b4d953..2977cd9 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -117,10 +117,11 @@ func handleCommand(cmd *cobra.Command, args []string) {
 func interruptListener() context.Context {
 	ctx, cancel := context.WithCancel(context.Background())
 
-	go func() {
-		interruptChannel := make(chan os.Signal, 1)
-		signal.Notify(interruptChannel, os.Interrupt)
+	// Registered before the server starts, an interrupt would kill it otherwise
+	interruptChannel := make(chan os.Signal, 1)
+	signal.Notify(interruptChannel, os.Interrupt)
 
+	go func() {
 		select {
 		case sig := <-interruptChannel:
 			fmt.Printf("Received signal (%s). Shutting down...\n", sig)
-- 
2.43.0


From b677652d1ea8f4ec3b6b46b608bf43e1ef3bdd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:49 +0000
Subject: [PATCH 48/50] fix: do not allocate what a levin header declares
 before the bytes come in

---
 p2p/levin.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/p2p/levin.go b/p2p/levin.go
index 12edd19..a358142 100644
--- a/p2p/levin.go
+++ b/p2p/levin.go
@@ -1,6 +1,7 @@
 package p2p
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -129,15 +130,20 @@ func (p *LevinProtocol) read() (*LevinCommand, error) {
 		return nil, errors.New("levin packet size is too big")
 	}
 
-	payload := make([]byte, head.BodySize)
+	// The buffer grows with the bytes that really come in, declared size is not trusted
+	var payload bytes.Buffer
+
+	if _, err := io.CopyN(&payload, p.Conn, int64(head.BodySize)); err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
 
-	if _, err := io.ReadFull(p.Conn, payload); err != nil {
 		return nil, err
 	}
 
 	return &LevinCommand{
 		Command:    head.Command,
-		Payload:    payload,
+		Payload:    payload.Bytes(),
 		IsNotify:   !head.HaveToReturnData,
 		IsResponse: (head.Flags & LevinPacketResponse) == LevinPacketResponse,
 	}, nil
-- 
2.43.0


From d0da115e79e5edb79b7bdd13540924e70cc0d053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:24 +0000
Subject: [PATCH 49/50] fix: peer addresses have their octets in the order of
 the protocol

---
 p2p/peer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 6731276..a51289d 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -8,6 +8,7 @@ import (
 	"github.com/r3volut1oner/go-karbo/cryptonote"
 	"github.com/signalsciences/ipv4"
 	"go.uber.org/zap"
+	"math/bits"
 	"net"
 	"strconv"
 	"sync"
@@ -24,6 +25,8 @@ const (
 	PeerStateShutdown
 )
 
+// NetworkAddress of a peer. Octets of the IP are kept in the network order on the wire,
+// so the first octet is the lowest byte of the IP.
 type NetworkAddress struct {
 	IP   uint32
 	Port uint32
@@ -63,7 +66,7 @@ func NetworkAddressFromTCPAddr(addr *net.TCPAddr) NetworkAddress {
 	IP, _ := ipv4.FromNetIP(addr.IP)
 
 	return NetworkAddress{
-		IP:   IP,
+		IP:   bits.ReverseBytes32(IP),
 		Port: uint32(addr.Port),
 	}
 }
@@ -253,5 +256,5 @@ func (p *Peer) requestMissingBlocks(n *Node, checkHavingBlocks bool) error {
 }
 
 func (na *NetworkAddress) String() string {
-	return fmt.Sprintf("%s:%d", ipv4.ToDots(na.IP), na.Port)
+	return fmt.Sprintf("%s:%d", ipv4.ToDots(bits.ReverseBytes32(na.IP)), na.Port)
 }
-- 
2.43.0


From 1cb0389b69bec70a77ee109916bb1101f50a1b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:30 +0000
Subject: [PATCH 50/50] fix: refuse binary data for lists whose items have no
 fixed size

A list of lists (the transactions of a raw block) that arrives as one
binary value was read item by item although an item took no bytes, so
decoding a message of a peer never ended and took all memory.
---
 encoding/binary/decode.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/encoding/binary/decode.go b/encoding/binary/decode.go
index de29fb5..4ddbafc 100644
--- a/encoding/binary/decode.go
+++ b/encoding/binary/decode.go
@@ -158,6 +158,11 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 			itemType := value.Type().Elem()
 			reader := bytes.NewReader(b)
 
+			// Items without a size of their own would be read without end
+			if binary.Size(reflect.New(itemType).Interface()) <= 0 {
+				return errors.New(fmt.Sprintf("can't read items of %s from binary", value.Type()))
+			}
+
 			for {
 				item := reflect.New(itemType)
 				err := binary.Read(reader, binary.LittleEndian, item.Interface())
-- 
2.43.0

