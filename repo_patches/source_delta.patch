From c386becf6988ac5f17e201c07cb629f3f7f064b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:57 +0000
Subject: [PATCH 01/48] fix: memory storage can not be initialized with the
 genesis block

The block info built by Init carried no hash, so PushBlock always refused
it, and the hash index map was never created.
---
 cryptonote/storage_memory.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cryptonote/storage_memory.go b/cryptonote/storage_memory.go
index d0cdd84..c978490 100644
--- a/cryptonote/storage_memory.go
+++ b/cryptonote/storage_memory.go
@@ -34,6 +34,7 @@ func NewMemoryStorage() Storage {
 	return &memoryStorage{
 		blockIndex:                            map[uint32]*Block{},
 		blockInfosIndex:                       map[uint32]*blockInfo{},
+		blockInfosHashIndex:                   map[crypto.Hash]*blockInfo{},
 		transactionsIndex:                     map[uint32]*[]Transaction{},
 		spentKeysImagesIndex:                  map[uint32]*[]crypto.KeyImage{},
 		spentMultisignatureGlobalIndexesIndex: map[uint32]*[]MultisigAmountGlobalOutputIndexPair{},
@@ -43,7 +44,9 @@ func NewMemoryStorage() Storage {
 func (s *memoryStorage) Init(genesisBlock *Block) error {
 	info := blockInfo{
 		Index:                0,
+		Hash:                 *genesisBlock.Hash(),
 		CumulativeDifficulty: 1,
+		Timestamp:            genesisBlock.Timestamp,
 		Size:                 genesisBlock.BaseTransaction.Size(),
 		TotalGeneratedCoins:  genesisBlock.BaseTransaction.Outputs[0].Amount,
 	}
-- 
2.43.0


From 94b5fa47a245fa4b771a7301c9fbdadcb2beaf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:59 +0000
Subject: [PATCH 02/48] fix: memory storage TopIndex releases the read lock it
 took

---
 cryptonote/storage_memory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/storage_memory.go b/cryptonote/storage_memory.go
index c978490..81b640b 100644
--- a/cryptonote/storage_memory.go
+++ b/cryptonote/storage_memory.go
@@ -58,7 +58,7 @@ func (s *memoryStorage) Init(genesisBlock *Block) error {
 func (s *memoryStorage) TopIndex() (uint32, error) {
 	s.RLock()
 	index := s.topBlock.Index()
-	s.Unlock()
+	s.RUnlock()
 	return index, nil
 }
 
-- 
2.43.0


From 6ac53dc06926acbb0d08b6cca1e8d69920fe0518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:00 +0000
Subject: [PATCH 03/48] fix: last block sizes and difficulties windows are not
 halved

The loops both counted i up and count down, so only half of the requested
window was collected and the difficulty window did not match the timestamps
window on any chain longer than half of it.
---
 cryptonote/chain.go      | 1 -
 cryptonote/difficulty.go | 1 -
 2 files changed, 2 deletions(-)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index b156932..4783118 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -600,7 +600,6 @@ func (bc *BlockChain) lastBLockSizes(count uint32, index uint32) []uint64 {
 
 		sizes = append(sizes, tempInfo.Size)
 		tempInfo = bc.storage.getBlockInfoAtIndex(index - i)
-		count--
 	}
 
 	return utils.SliceReverse(sizes)
diff --git a/cryptonote/difficulty.go b/cryptonote/difficulty.go
index d4d5355..ee1690c 100644
--- a/cryptonote/difficulty.go
+++ b/cryptonote/difficulty.go
@@ -36,7 +36,6 @@ func (bc *BlockChain) lastBlocksCumulativeDifficulties(count uint32, index uint3
 
 		difficulties = append(difficulties, tempInfo.CumulativeDifficulty)
 		tempInfo = bc.storage.getBlockInfoAtIndex(index - i)
-		count--
 	}
 
 	return utils.SliceReverse(difficulties)
-- 
2.43.0


From c5766947fe4ea8bd0d35631dcd30e8d3e2854088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:02 +0000
Subject: [PATCH 04/48] fix: timestamp median is taken over the blocks before
 the validated one

---
 cryptonote/chain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index 4783118..9e686f4 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -380,7 +380,7 @@ func (bc *BlockChain) validateBlock(blogger *log.Entry, block *Block, prevBlock
 	}
 
 	timestampCheckWindow := bc.Network.BlockTimestampCheckWindow(block.MajorVersion)
-	lastTimestamps := bc.lastBlocksTimestamps(timestampCheckWindow, block, true)
+	lastTimestamps := bc.lastBlocksTimestamps(timestampCheckWindow, prevBlock, true)
 	if uint32(len(lastTimestamps)) >= timestampCheckWindow {
 		if block.Timestamp < utils.MedianSlice(lastTimestamps) {
 			err := ErrBlockValidationTimestampTooFarInPast
-- 
2.43.0


From 000bba4728805f9f7370c58655850154588f3e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:04 +0000
Subject: [PATCH 05/48] fix: coinbase unlock height is compared without
 truncation to 32 bits

---
 cryptonote/chain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index 9e686f4..2ff977c 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -408,7 +408,7 @@ func (bc *BlockChain) validateBlock(blogger *log.Entry, block *Block, prevBlock
 		return 0, err
 	}
 
-	if uint32(block.BaseTransaction.UnlockHeight) != prevBlockIndex+1+bc.Network.MinedMoneyUnlockWindow() {
+	if block.BaseTransaction.UnlockHeight != uint64(prevBlockIndex)+1+uint64(bc.Network.MinedMoneyUnlockWindow()) {
 		err := ErrTransactionWrongUnlockTime
 		blogger.Error(err)
 		return 0, err
-- 
2.43.0


From 0384762143c2ac0e5793f2d7fdee44e17de450aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:47 +0000
Subject: [PATCH 06/48] fix: block header of the version 5 can be read and
 written

Version 5 uses the same header fields as versions 1 and 4. Without it no
block above the version 5 upgrade height could be decoded, and its hash did
not cover the timestamp, the previous block and the nonce.
---
 cryptonote/block.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cryptonote/block.go b/cryptonote/block.go
index 032779d..d846dd3 100644
--- a/cryptonote/block.go
+++ b/cryptonote/block.go
@@ -240,7 +240,7 @@ func (h *BlockHeader) deserialize(reader *bytes.Reader) error {
 		if err := prev.Read(reader); err != nil {
 			return err
 		}
-	case config.BlockMajorVersion1, config.BlockMajorVersion4:
+	case config.BlockMajorVersion1, config.BlockMajorVersion4, config.BlockMajorVersion5:
 		ts, err = binary.ReadUvarint(reader)
 		if err != nil {
 			return err
@@ -285,7 +285,7 @@ func (h *BlockHeader) serialize() []byte {
 	switch h.MajorVersion {
 	case config.BlockMajorVersion2, config.BlockMajorVersion3:
 		serialized.Write(h.PreviousBlockHash[:])
-	case config.BlockMajorVersion1, config.BlockMajorVersion4:
+	case config.BlockMajorVersion1, config.BlockMajorVersion4, config.BlockMajorVersion5:
 		written = binary.PutUvarint(buf, h.Timestamp)
 		serialized.Write(buf[:written])
 		serialized.Write(h.PreviousBlockHash[:])
-- 
2.43.0


From dd6e2f4c279acaf0c118011f4bd3ad609c80c393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:48 +0000
Subject: [PATCH 07/48] fix: malformed block headers are refused

A block or parent block header cut inside of its leading integers was
accepted as a zero header, and versions or transactions numbers that don't
fit into their fields were silently truncated.
---
 cryptonote/block.go        |  9 +++++++--
 cryptonote/block_parent.go | 15 ++++++++++++---
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/cryptonote/block.go b/cryptonote/block.go
index d846dd3..5fcff9d 100644
--- a/cryptonote/block.go
+++ b/cryptonote/block.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"github.com/r3volut1oner/go-karbo/config"
 	"github.com/r3volut1oner/go-karbo/crypto"
+	"math"
 	"unsafe"
 )
 
@@ -227,12 +228,16 @@ func (h *BlockHeader) deserialize(reader *bytes.Reader) error {
 
 	majorVersion, err := binary.ReadUvarint(reader)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	minorVersion, err := binary.ReadUvarint(reader)
 	if err != nil {
-		return nil
+		return err
+	}
+
+	if majorVersion > math.MaxUint8 || minorVersion > math.MaxUint8 {
+		return errors.New("block version out of range")
 	}
 
 	switch uint8(majorVersion) {
diff --git a/cryptonote/block_parent.go b/cryptonote/block_parent.go
index 656e72b..2441dc9 100644
--- a/cryptonote/block_parent.go
+++ b/cryptonote/block_parent.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"github.com/r3volut1oner/go-karbo/crypto"
+	"math"
 )
 
 type ParentBlock struct {
@@ -68,17 +69,21 @@ func (pb *ParentBlock) deserialize(r *bytes.Reader) error {
 
 	majorVersion, err := binary.ReadUvarint(r)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	minorVersion, err := binary.ReadUvarint(r)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	timestamp, err := binary.ReadUvarint(r)
 	if err != nil {
-		return nil
+		return err
+	}
+
+	if majorVersion > math.MaxUint8 || minorVersion > math.MaxUint8 {
+		return errors.New("parent block version out of range")
 	}
 
 	if err := prev.Read(r); err != nil {
@@ -94,6 +99,10 @@ func (pb *ParentBlock) deserialize(r *bytes.Reader) error {
 		return err
 	}
 
+	if txCount < 1 || txCount > math.MaxUint16 {
+		return errors.New("wrong parent block transactions number")
+	}
+
 	var baseTxBranch crypto.HashList
 	branchSize := treeDepth(int(txCount))
 	for i := 0; i < branchSize; i++ {
-- 
2.43.0


From 335a166afc23747f80df80c75bb2c05956c587f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:50 +0000
Subject: [PATCH 08/48] fix: merge mined blocks take timestamp and nonce from
 the parent block

Headers of the versions 2 and 3 have neither, so decoded blocks had zero
timestamp and timestamp rules and difficulty were computed from zeros.
---
 cryptonote/block.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cryptonote/block.go b/cryptonote/block.go
index 5fcff9d..bc37a5e 100644
--- a/cryptonote/block.go
+++ b/cryptonote/block.go
@@ -140,6 +140,10 @@ func (b *Block) Deserialize(r *bytes.Reader) error {
 		}
 
 		b.Parent = parentBlock
+
+		// Header of these versions carries no timestamp and no nonce, parent's are used instead
+		b.Timestamp = parentBlock.Timestamp
+		b.Nonce = parentBlock.Nonce
 	}
 
 	if err := b.BaseTransaction.Deserialize(r); err != nil {
-- 
2.43.0


From 2bbc557d9522ecfd50cb8cd7493126afef859845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:52 +0000
Subject: [PATCH 09/48] fix: declared transaction sizes are bounded by the data
 left

Number of the inputs and outputs and size of the extra come from remote and
were passed to make as is, panicking or exhausting the memory.
---
 cryptonote/transaction.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/cryptonote/transaction.go b/cryptonote/transaction.go
index 8979ab7..08faaf8 100644
--- a/cryptonote/transaction.go
+++ b/cryptonote/transaction.go
@@ -231,11 +231,16 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 	 * Read transaction Inputs
 	 */
 	inputsLen, err := binary.ReadUvarint(br)
-	tp.Inputs = make([]TransactionInput, inputsLen)
 	if err != nil {
 		return err
 	}
 
+	// Every input takes at least one byte
+	if inputsLen > uint64(br.Len()) {
+		return errors.New("too many transaction inputs")
+	}
+	tp.Inputs = make([]TransactionInput, inputsLen)
+
 	for inputIndex := uint64(0); inputIndex < inputsLen; inputIndex++ {
 		var tag byte
 		if err := binary.Read(br, binary.LittleEndian, &tag); err != nil {
@@ -294,11 +299,16 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 	 * Read transaction Output
 	 */
 	outputLen, err := binary.ReadUvarint(br)
-	tp.Outputs = make([]TransactionOutput, outputLen)
 	if err != nil {
 		return err
 	}
 
+	// Every output takes at least one byte
+	if outputLen > uint64(br.Len()) {
+		return errors.New("too many transaction outputs")
+	}
+	tp.Outputs = make([]TransactionOutput, outputLen)
+
 	for outputIndex := uint64(0); outputIndex < outputLen; outputIndex++ {
 		amount, err := binary.ReadUvarint(br)
 		if err != nil {
@@ -337,6 +347,10 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 		return err
 	}
 
+	if extraLen > uint64(br.Len()) {
+		return errors.New("transaction extra is cut")
+	}
+
 	tp.Extra = make([]byte, extraLen)
 	if err := binary.Read(br, binary.LittleEndian, &tp.Extra); err != nil {
 		return err
-- 
2.43.0


From d086a95b81310289f45294d1cb31066bf356e83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:53 +0000
Subject: [PATCH 10/48] fix: transaction integers out of their range are
 refused

Version, coinbase block index and output indexes were silently truncated,
so different encodings were decoded to the same transaction.
---
 cryptonote/transaction.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cryptonote/transaction.go b/cryptonote/transaction.go
index 08faaf8..5d2c0fa 100644
--- a/cryptonote/transaction.go
+++ b/cryptonote/transaction.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"github.com/r3volut1oner/go-karbo/crypto"
+	"math"
 )
 
 const (
@@ -217,6 +218,9 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 	if err != nil {
 		return err
 	}
+	if version > math.MaxUint8 {
+		return errors.New("transaction version out of range")
+	}
 	tp.Version = byte(version)
 
 	/**
@@ -254,6 +258,10 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 				return err
 			}
 
+			if blockIndex > math.MaxUint32 {
+				return errors.New("coinbase block index out of range")
+			}
+
 			tp.Inputs[inputIndex] = InputCoinbase{uint32(blockIndex)}
 		case TxTagKey:
 			var OutputIndexes []uint32
@@ -275,6 +283,10 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 					return err
 				}
 
+				if oi > math.MaxUint32 {
+					return errors.New("output index out of range")
+				}
+
 				OutputIndexes = append(OutputIndexes, uint32(oi))
 			}
 
-- 
2.43.0


From 5688fe83eafc76799ebf212067a56f274bc2daa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:55 +0000
Subject: [PATCH 11/48] fix: transaction signatures keep one entry per input

Inputs without signatures were skipped while reading, but writing and
validation look up signatures by the input index: such a transaction from
remote panicked the node or had its signatures mixed up.
---
 cryptonote/transaction.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cryptonote/transaction.go b/cryptonote/transaction.go
index 5d2c0fa..2b0e323 100644
--- a/cryptonote/transaction.go
+++ b/cryptonote/transaction.go
@@ -406,10 +406,11 @@ func (ts *TransactionSignatures) deserialize(br *bytes.Reader, t *Transaction) e
 			return errors.New("unexpected signatures")
 		}
 
-		if sigSize == 0 {
+		if signaturesNotExpected {
 			continue
 		}
 
+		// Keep one entry per input, even if the input has no signatures
 		sigs := make([]crypto.Signature, sigSize)
 		for i := 0; i < sigSize; i++ {
 			if err := binary.Read(br, binary.LittleEndian, &sigs[i]); err != nil {
-- 
2.43.0


From acc97673cbeb91cc0f95cd48a1e03a7c17b38834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:20 +0000
Subject: [PATCH 12/48] fix: oversized extra nonce is refused for any declared
 size

A size above the int range became negative, passed the limit and panicked
in make.
---
 cryptonote/transaction_extra.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/transaction_extra.go b/cryptonote/transaction_extra.go
index 3892d72..4200949 100644
--- a/cryptonote/transaction_extra.go
+++ b/cryptonote/transaction_extra.go
@@ -86,7 +86,7 @@ func TxExtraFromBytes(b []byte) (*TransactionExtraFields, error) {
 			if err != nil {
 				return nil, err
 			}
-			if int(size) > TxExtraNonceMax {
+			if size > uint64(TxExtraNonceMax) {
 				return nil, ErrNonceMax
 			}
 
-- 
2.43.0


From 23ba3b1c8d2bfb0f4f1c9d37f3c2bf27c50b859b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:22 +0000
Subject: [PATCH 13/48] fix: transaction blobs with trailing or not canonical
 bytes are refused

They hash to the same transaction but have different size, so size and
reward of a block depended on the peer it was received from.
---
 cryptonote/chain.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index 2ff977c..51bd6fe 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -560,6 +560,12 @@ func (bc *BlockChain) deserializeTransactions(blogger *log.Entry, rt [][]byte) (
 			return nil, 0, ErrAddBlockTransactionDeserialization
 		}
 
+		// Hash and size must cover exactly the same bytes, so only canonical encoding is allowed
+		if !bytes.Equal(transactions[i].Serialize(), rt[i]) {
+			tsLogger.Error(fmt.Errorf("%s: encoding is not canonical", ErrAddBlockTransactionDeserialization.Error()))
+			return nil, 0, ErrAddBlockTransactionDeserialization
+		}
+
 		transactionsSize += tsSize
 	}
 
-- 
2.43.0


From 33f2697b0b85a7d89ad1fa51f19096f106a6edee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:24 +0000
Subject: [PATCH 14/48] fix: mixin is counted over the key inputs

The condition was inverted: key inputs were skipped, so the mixin was always
zero, and any other input panicked on the type assertion.
---
 cryptonote/transaction_validator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/transaction_validator.go b/cryptonote/transaction_validator.go
index f71626e..b5790b1 100644
--- a/cryptonote/transaction_validator.go
+++ b/cryptonote/transaction_validator.go
@@ -569,7 +569,7 @@ func (validator *blockTransactionsValidator) IsFusionTransaction(transaction *Tr
 func countMixin(transaction *Transaction) int {
 	mixin := 0
 	for _, input := range transaction.Inputs {
-		if _, ok := input.(InputKey); ok {
+		if _, ok := input.(InputKey); !ok {
 			continue
 		}
 
-- 
2.43.0


From b241ddceddf779054785e2b1222ab816835bc7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:25 +0000
Subject: [PATCH 15/48] fix: fusion outputs must be the decomposition of the
 inputs sum

Only the number of the outputs was compared, so transaction with any output
amounts was free of fee when it had the right number of outputs.
---
 cryptonote/transaction_validator.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/cryptonote/transaction_validator.go b/cryptonote/transaction_validator.go
index b5790b1..727f4e5 100644
--- a/cryptonote/transaction_validator.go
+++ b/cryptonote/transaction_validator.go
@@ -7,6 +7,7 @@ import (
 	"github.com/r3volut1oner/go-karbo/utils"
 	log "github.com/sirupsen/logrus"
 	"math"
+	"sort"
 )
 
 type blockTransactionsValidator struct {
@@ -547,12 +548,17 @@ func (validator *blockTransactionsValidator) IsFusionTransaction(transaction *Tr
 	}
 
 	expectedOutputsAmount := validator.bc.DecomposeAmount(inputAmount, dustThreshold)
-	// Why do we need sorting here?
-	//sort.Slice(expectedOutputsAmount, func(i, j int) bool {
-	//	return expectedOutputsAmount[i] < expectedOutputsAmount[j]
-	//})
+	// Dusts are appended to the end, outputs are expected in ascending order
+	sort.Slice(expectedOutputsAmount, func(i, j int) bool {
+		return expectedOutputsAmount[i] < expectedOutputsAmount[j]
+	})
+
+	decomposedMatch := len(expectedOutputsAmount) == len(outputsAmounts)
+	for i := 0; decomposedMatch && i < len(expectedOutputsAmount); i++ {
+		decomposedMatch = expectedOutputsAmount[i] == outputsAmounts[i]
+	}
 
-	if len(expectedOutputsAmount) != len(outputsAmounts) {
+	if !decomposedMatch {
 		logger := validator.logger.WithFields(log.Fields{
 			"expected_outputs_amount_len": len(expectedOutputsAmount),
 			"input_amounts_len":           len(outputsAmounts),
-- 
2.43.0


From 9c6fadc5ae7a54b7910a19762812028052fbb166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:45 +0000
Subject: [PATCH 16/48] fix: difficulty of the next block uses the rules of its
 own version

The version of the previous block was used, so the first block after every
upgrade got its difficulty from the old algorithm and the version 5 reset
was never reached.
---
 cryptonote/difficulty.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/difficulty.go b/cryptonote/difficulty.go
index ee1690c..04da0ab 100644
--- a/cryptonote/difficulty.go
+++ b/cryptonote/difficulty.go
@@ -12,7 +12,7 @@ func (bc *BlockChain) difficultyForNextBlock(b *Block) (uint64, error) {
 		return 0, errors.New(fmt.Sprintf("unknown block hashIndex %d, top hashIndex is %d", b.Index(), bc.bestTip.Index()))
 	}
 
-	nextBlockMajorVersion := bc.Network.GetBlockMajorVersion(b.Index())
+	nextBlockMajorVersion := bc.Network.GetBlockMajorVersion(b.Index() + 1)
 	difficultyBlocksCount := bc.Network.DifficultyBlocksCountByBlockVersion(nextBlockMajorVersion)
 
 	timestamps := bc.lastBlocksTimestamps(difficultyBlocksCount, b, false)
-- 
2.43.0


From ddb33d28deec750eb3e31651ef6b63b7ffd3241f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:47 +0000
Subject: [PATCH 17/48] fix: block major version doesn't depend on the map
 iteration order

---
 config/network.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/config/network.go b/config/network.go
index fd0825f..e74d988 100644
--- a/config/network.go
+++ b/config/network.go
@@ -148,7 +148,8 @@ func (n *Network) GetBlockMajorVersion(blockIndex uint32) byte {
 	version := BlockMajorVersion1
 
 	for majorVersion, upgradeHeight := range n.blockUpgradesMap {
-		if blockIndex > upgradeHeight {
+		// Upgrades are not iterated in order
+		if blockIndex > upgradeHeight && majorVersion > version {
 			version = majorVersion
 		}
 	}
-- 
2.43.0


From 97292d6bab34db1ab42c0c4357599a1f82fed6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:49 +0000
Subject: [PATCH 18/48] fix: day has 24 hours

The number of blocks per day is the window of the first difficulty algorithm
and the base of the tail emission.
---
 config/params.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/params.go b/config/params.go
index 519af10..f8477d2 100644
--- a/config/params.go
+++ b/config/params.go
@@ -67,7 +67,7 @@ const (
 	MaxExtraSize = 1024
 
 	difficultyTarget             = 240
-	expectedNumberOfBlocksPerDay = (25 * 60 * 60) / difficultyTarget
+	expectedNumberOfBlocksPerDay = (24 * 60 * 60) / difficultyTarget
 
 	difficultyWindow  = expectedNumberOfBlocksPerDay
 	difficultyWindow2 = 17
-- 
2.43.0


From 3f4fdf8288d3a7f950deb4d3e6259c475efff9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:51 +0000
Subject: [PATCH 19/48] fix: version 3 difficulty weights solve times linearly

Every solve time had weight 1 while the sum is normalized by N(N+1)/2, so
the average was about N/2 times too small and the difficulty too big. Also
keep N+1 most recent items of a bigger window.
---
 config/network.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/config/network.go b/config/network.go
index e74d988..832215e 100644
--- a/config/network.go
+++ b/config/network.go
@@ -518,8 +518,8 @@ func (n *Network) nextDifficultyV3(timestamps []uint64, cumulativeDifficulties [
 	}
 
 	if len(timestamps) > N+1 {
-		timestamps = timestamps[N-1:]
-		cumulativeDifficulties = cumulativeDifficulties[N-1:]
+		timestamps = timestamps[len(timestamps)-(N+1):]
+		cumulativeDifficulties = cumulativeDifficulties[len(cumulativeDifficulties)-(N+1):]
 	}
 
 	// To get an average solvetime to within +/- ~0.1%, use an adjustment factor.
@@ -539,7 +539,7 @@ func (n *Network) nextDifficultyV3(timestamps []uint64, cumulativeDifficulties [
 		solveTime = int64(timestamps[i]) - int64(timestamps[i-1])
 		solveTime = utils.MinInt64(T*7, utils.MaxInt64(solveTime, -6*T))
 		difficulty = int64(cumulativeDifficulties[i]) - int64(cumulativeDifficulties[i-1])
-		LWMA += float64(solveTime*1) / k
+		LWMA += float64(solveTime*int64(i)) / k
 		sumInverseD += 1 / float64(difficulty)
 	}
 
-- 
2.43.0


From 17fdee1172a83c8cbbf47c418aca85119307f021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:22 +0000
Subject: [PATCH 20/48] fix: version 4 difficulty follows the LWMA formula

The next difficulty is the sum of difficulties * T * (N + 1) / (2 * L). It was
multiplied by L and used N * 1, so any window ended at the clamp or overflowed.
---
 config/network.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/config/network.go b/config/network.go
index 832215e..8a2696f 100644
--- a/config/network.go
+++ b/config/network.go
@@ -476,7 +476,12 @@ func (n *Network) nextDifficultyV4(height uint32, timestamps []uint64, cumulativ
 		}
 	}
 
-	nextD := int64(cumulativeDifficulties[N]-cumulativeDifficulties[0]) * T * (N * 1) / 2 * L
+	// Out-of-sequence timestamps may cancel each other
+	if L == 0 {
+		L = 1
+	}
+
+	nextD := int64(cumulativeDifficulties[N]-cumulativeDifficulties[0]) * T * (N + 1) / (2 * L)
 	nextD = (nextD * 99) / 100
 
 	prevD := int64(cumulativeDifficulties[N] - cumulativeDifficulties[N-1])
-- 
2.43.0


From 0107439d17064b143e0bfc615ddd8b8d94b09e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:24 +0000
Subject: [PATCH 21/48] fix: version 5 difficulty is derived from the average
 difficulty

Only the first cumulative difficulty was divided by N, so the result grew
with the whole chain work, and rounding to significant digits halved it.
---
 config/network.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/config/network.go b/config/network.go
index 8a2696f..9faa395 100644
--- a/config/network.go
+++ b/config/network.go
@@ -396,7 +396,7 @@ func (n *Network) nextDifficultyV5(height uint32, majorVersion byte, timestamps
 	}
 
 	nextD := int64(0)
-	avgD := int64(cumulativeDifficulties[N]) - int64(cumulativeDifficulties[0])/N
+	avgD := (int64(cumulativeDifficulties[N]) - int64(cumulativeDifficulties[0])) / N
 
 	// Prevent round off error for small D and overflow for large D.
 	if avgD > 2000000*N*N*T {
@@ -409,7 +409,7 @@ func (n *Network) nextDifficultyV5(height uint32, majorVersion byte, timestamps
 	i := int64(1000000000)
 	for i > 1 {
 		if nextD > i*100 {
-			nextD = (((nextD + i) / 2) / i) * i
+			nextD = ((nextD + i/2) / i) * i
 			break
 		}
 
-- 
2.43.0


From 776cb38db6af6226a4a7f98cef0d9f7415f17d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:26 +0000
Subject: [PATCH 22/48] fix: fee for the extra grows with its size

It was divided by the size, so the bigger the extra the smaller the fee.
---
 config/network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/network.go b/config/network.go
index 9faa395..04c4336 100644
--- a/config/network.go
+++ b/config/network.go
@@ -274,7 +274,7 @@ func (n *Network) MinimalFeeValidator(height uint32) uint64 {
 
 func (n *Network) GetFeePerByte(txExtraSize uint64, minFee uint64) uint64 {
 	if txExtraSize > 100 {
-		return minFee / (100 * (txExtraSize - 100))
+		return minFee / 100 * (txExtraSize - 100)
 	}
 
 	return 0
-- 
2.43.0


From 2b62e61df452aa62459b215db9850c374ade18e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:28 +0000
Subject: [PATCH 23/48] fix: alternative block check doesn't deadlock on its
 own lock

---
 config/checkpoints.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/config/checkpoints.go b/config/checkpoints.go
index 5d336cd..be60a8c 100644
--- a/config/checkpoints.go
+++ b/config/checkpoints.go
@@ -76,6 +76,13 @@ func (cp *checkpoints) IsInCheckpointZone(index uint32) bool {
 	cp.Lock()
 	defer cp.Unlock()
 
+	return cp.isInCheckpointZone(index)
+}
+
+// isInCheckpointZone checks if index in in checkpoints zone
+//
+// This function is NOT safe for concurrent access
+func (cp *checkpoints) isInCheckpointZone(index uint32) bool {
 	// No checkpoints added
 	if len(cp.pointsSorted) == 0 {
 		return false
@@ -120,7 +127,7 @@ func (cp *checkpoints) AlternativeBlockAllowed(bcSize uint32, index uint32) erro
 	}
 
 	uw := MinedMoneyUnlockWindow
-	if index < bcSize-uw && bcSize > uw && !cp.IsInCheckpointZone(index) {
+	if index < bcSize-uw && bcSize > uw && !cp.isInCheckpointZone(index) {
 		err := ErrCheckpointsTooDeepReorg
 		logger.Error(err)
 		return err
-- 
2.43.0


From d35eba1c48b4126a71d0b60ee638df9d6919cf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:15 +0000
Subject: [PATCH 24/48] fix: version 5 difficulty switches formula before it
 overflows

The product overflows 64 bits for average difficulty above 2.6e10, the
bound of the overflow free formula was about 250 times higher.
---
 config/network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/network.go b/config/network.go
index 04c4336..300e6f3 100644
--- a/config/network.go
+++ b/config/network.go
@@ -399,7 +399,7 @@ func (n *Network) nextDifficultyV5(height uint32, majorVersion byte, timestamps
 	avgD := (int64(cumulativeDifficulties[N]) - int64(cumulativeDifficulties[0])) / N
 
 	// Prevent round off error for small D and overflow for large D.
-	if avgD > 2000000*N*N*T {
+	if avgD > math.MaxInt64/(N*(N+1)*T*99) {
 		nextD = (avgD / (200 * L)) * (N * (N + 1) * T * 99)
 	} else {
 		nextD = (avgD * N * (N + 1) * T * 99) / (L * 200)
-- 
2.43.0


From d9af5cec211c3b2c4f70357dee0ebace68cfac65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:18 +0000
Subject: [PATCH 25/48] fix: ring signature with wrong number of signatures is
 refused

Less signatures than public keys panicked, more were ignored.
---
 crypto/signature.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crypto/signature.go b/crypto/signature.go
index 6d7da31..8849ae9 100644
--- a/crypto/signature.go
+++ b/crypto/signature.go
@@ -278,6 +278,10 @@ func GenerateRingSignature(prefixHash *Hash, image *KeyImage, pubs *[]PublicKey,
 }
 
 func CheckRingSignature(prefixHash *Hash, image *KeyImage, pubs *[]PublicKey, sigs *[]Signature, checkKeyImage bool) bool {
+	if len(*sigs) != len(*pubs) {
+		return false
+	}
+
 	// -------- ENABLED IN DEBUG MODE --------
 	for i := 0; i < len(*pubs); i++ {
 		if !(*pubs)[i].Check() {
-- 
2.43.0


From d94d6c59fd7b0c381a2fe1a9e2890e119a4f4449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:20 +0000
Subject: [PATCH 26/48] fix: truncated binary messages are refused

Short reads were ignored, so missing bytes were read as zeros, an object cut
before its size was accepted (endlessly inside of arrays), and memory was
reserved for any declared size. Empty values at the end of a message failed.
---
 encoding/binary/decode.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/encoding/binary/decode.go b/encoding/binary/decode.go
index 04776f7..21fc931 100644
--- a/encoding/binary/decode.go
+++ b/encoding/binary/decode.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"reflect"
 )
 
@@ -26,8 +27,8 @@ func (d *Decoder) decode(v interface{}) error {
 	}
 
 	size, err := d.readVarInt()
-	if err == io.EOF {
-		return nil
+	if err != nil {
+		return err
 	}
 
 	metadata, err := getStructBinaryMetadata(reflect.ValueOf(v), false)
@@ -61,13 +62,13 @@ func (d *Decoder) decode(v interface{}) error {
 func (d *Decoder) readName() (string, error) {
 	var sizeByte [1]byte
 
-	if _, err := d.r.Read(sizeByte[:]); err != nil {
+	if _, err := io.ReadFull(d.r, sizeByte[:]); err != nil {
 		return "", err
 	}
 
 	str := make([]byte, sizeByte[0])
 
-	if _, err := d.r.Read(str); err != nil {
+	if _, err := io.ReadFull(d.r, str); err != nil {
 		return "", err
 	}
 
@@ -130,10 +131,14 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 			return err
 		}
 
-		b := make([]byte, size)
-		if _, err := d.r.Read(b); err != nil {
+		// Size is not trusted, memory is used only for the data that really exists
+		b, err := ioutil.ReadAll(io.LimitReader(d.r, int64(size)))
+		if err != nil {
 			return err
 		}
+		if uint64(len(b)) != size {
+			return io.ErrUnexpectedEOF
+		}
 
 		switch value.Kind() {
 		// For slice we don't know exact size of the data encoded.
@@ -193,7 +198,7 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 
 func (d *Decoder) readVarInt() (uint64, error) {
 	var sizeBytes [8]byte
-	if _, err := d.r.Read(sizeBytes[0:1]); err != nil {
+	if _, err := io.ReadFull(d.r, sizeBytes[0:1]); err != nil {
 		return 0, err
 	}
 
@@ -216,7 +221,7 @@ func (d *Decoder) readVarInt() (uint64, error) {
 	allBytes := make([]byte, 8)
 	allBytes[0] = sizeBytes[0]
 
-	if _, err := d.r.Read(allBytes[1:bytesLeft+1]); err != nil {
+	if _, err := io.ReadFull(d.r, allBytes[1:bytesLeft+1]); err != nil {
 		return 0, err
 	}
 
-- 
2.43.0


From 86ead7f31554188ac3348e8ca9baa2b28ebe7591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:22 +0000
Subject: [PATCH 27/48] fix: binary values of a wrong type or size are refused

An object sent for a not object field panicked, and fixed size values were
silently padded or cut.
---
 encoding/binary/decode.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/encoding/binary/decode.go b/encoding/binary/decode.go
index 21fc931..e121998 100644
--- a/encoding/binary/decode.go
+++ b/encoding/binary/decode.go
@@ -173,6 +173,10 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 			value.Set(newSlice)
 		// For binary data only [N]byte array supported.
 		case reflect.Array:
+			if value.Len() != len(b) {
+				return errors.New(fmt.Sprintf("wrong array size %d, expected %d", len(b), value.Len()))
+			}
+
 			newArray := reflect.New(value.Type()).Elem()
 			reflect.Copy(newArray, reflect.ValueOf(b))
 
@@ -183,6 +187,10 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 			return errors.New(fmt.Sprintf("not supported kind '%s' for binary received", value.Kind()))
 		}
 	case typeObject:
+		if value.Kind() != reflect.Struct {
+			return errors.New(fmt.Sprintf("not supported kind '%s' for object received", value.Kind()))
+		}
+
 		v := reflect.New(value.Type())
 		if err := d.decode(v.Interface()); err != nil {
 			return err
-- 
2.43.0


From a4d4ce32c8cbee93cbb59bcdbc683671e6647600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:36 +0000
Subject: [PATCH 28/48] fix: blockchain height and sparse chain follow the top
 block

Height was always zero, so the requested chain had the top and the genesis
blocks only and the remote could not find a close common block.
---
 cryptonote/chain.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index 51bd6fe..b5e242c 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -81,8 +81,7 @@ func (bc *BlockChain) Init() error {
 
 // Height returns current blockchain height
 func (bc *BlockChain) Height() uint32 {
-	// TODO: Implement
-	return 0
+	return bc.TopBlock().Index() + 1
 }
 
 // TopBlock returns current best block
@@ -318,9 +317,10 @@ func (bc *BlockChain) BuildSparseChain() ([]crypto.Hash, error) {
 
 	list = append(list, *topHash)
 
-	height := bc.Height()
-	for i := uint32(1); i < height; i *= 2 {
-		hash, err := bc.storage.HashAtIndex(height - i)
+	// Offsets are from the top block, blocks above it may be added meanwhile
+	topIndex := topBlock.Index()
+	for i := uint32(1); i < topIndex; i *= 2 {
+		hash, err := bc.storage.HashAtIndex(topIndex - i)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 3b60ee1e8e7701acee48f75c9d7e47165ed2df6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:56 +0000
Subject: [PATCH 29/48] fix: peer store is safe for concurrent connections

Its maps were read and written by all the connections without a lock.
---
 p2p/peerstore.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/p2p/peerstore.go b/p2p/peerstore.go
index 154e162..492be32 100644
--- a/p2p/peerstore.go
+++ b/p2p/peerstore.go
@@ -3,11 +3,15 @@ package p2p
 import (
 	"errors"
 	"fmt"
+	"sync"
 )
 
 type peerStore struct {
 	white *peerList
 	grey  *peerList
+
+	// connections are handled concurrently and share the store
+	sync.RWMutex
 }
 
 type peerList struct {
@@ -22,6 +26,9 @@ func NewPeerStore() *peerStore {
 }
 
 func (ps *peerStore) toPeerEntries() []PeerEntry {
+	ps.RLock()
+	defer ps.RUnlock()
+
 	var peers []PeerEntry
 
 	for _, p := range ps.white.peers {
@@ -36,6 +43,9 @@ func (ps *peerStore) toPeerEntries() []PeerEntry {
 }
 
 func (ps *peerStore) toWhite(p *Peer) error {
+	ps.Lock()
+	defer ps.Unlock()
+
 	_ = ps.grey.Remove(p)
 
 	if err := ps.white.Add(p); err != nil {
@@ -46,6 +56,9 @@ func (ps *peerStore) toWhite(p *Peer) error {
 }
 
 func (ps *peerStore) toGrey(p *Peer) error {
+	ps.Lock()
+	defer ps.Unlock()
+
 	_ = ps.white.Remove(p)
 
 	if err := ps.grey.Add(p); err != nil {
-- 
2.43.0


From 7a528e386c5488ea256a3732fe9ea84db7a7e60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:58 +0000
Subject: [PATCH 30/48] fix: handshake refuses peers below the minimal version,
 not above it

---
 p2p/peer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 0bc6843..cf31084 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -149,7 +149,7 @@ func (p *Peer) handshake(n *Node) (*HandshakeResponse, error) {
 		return nil, errors.New("wrong network id received")
 	}
 
-	if n.Config.Network.P2PMinimumVersion < res.NodeData.Version {
+	if res.NodeData.Version < n.Config.Network.P2PMinimumVersion {
 		return nil, errors.New("node data version not match minimal")
 	}
 
-- 
2.43.0


From e11757721ac1f6cc256855963373f64573a9c065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:59 +0000
Subject: [PATCH 31/48] fix: blocks failed to decode are not written to the
 disk

Any peer could create files in the working directory of the node.
---
 p2p/notification_response_get_objects.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/p2p/notification_response_get_objects.go b/p2p/notification_response_get_objects.go
index 8e5f9fe..ac6e92b 100644
--- a/p2p/notification_response_get_objects.go
+++ b/p2p/notification_response_get_objects.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"github.com/r3volut1oner/go-karbo/crypto"
 	"github.com/r3volut1oner/go-karbo/cryptonote"
-	"io/ioutil"
 )
 
 // NotificationResponseGetObjects == 2004
@@ -49,13 +48,7 @@ func (n *Node) HandleResponseGetObjects(p *Peer, nt NotificationResponseGetObjec
 		rawBlockReader := bytes.NewReader(rawBlock.Block)
 		if err := block.Deserialize(rawBlockReader); err != nil {
 			p.Shutdown()
-			// TODO: Remove this. It is debug only.
-			height := n.Blockchain.Height()
-			blockHeight := height + uint32(i)
-			_ = ioutil.WriteFile(fmt.Sprintf("./block_%d.dat", blockHeight), rawBlock.Block, 0644)
-			return errors.New(
-				fmt.Sprintf("[%s] (%d) failed to convert raw block (%d): %s", p, i, blockHeight, err),
-			)
+			return errors.New(fmt.Sprintf("[%s] (%d) failed to convert raw block: %s", p, i, err))
 		}
 
 		hash := block.Hash()
-- 
2.43.0


From a89733f216aa7fb612df40ab68dee7aa36b8e098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:15 +0000
Subject: [PATCH 32/48] fix: failed accept doesn't start a handler without a
 connection

It panicked on the nil connection. Also count the handler before it is
started, node could stop waiting before the handler counted itself.
---
 p2p/node.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/p2p/node.go b/p2p/node.go
index 049bae6..ced35fa 100644
--- a/p2p/node.go
+++ b/p2p/node.go
@@ -109,14 +109,19 @@ func (n *Node) runListener() {
 					continue
 				}
 				n.logger.Errorf("failed to accept connection: %s", err)
+				time.Sleep(time.Second)
+				continue
 			}
 
+			n.wg.Add(1)
 			go n.handleIncomingConnection(conn)
 		}
 	}
 }
 
 func (n *Node) handleIncomingConnection(conn *net.TCPConn) {
+	defer n.wg.Done()
+
 	// TODO: Enabling handling incoming connections
 	//return
 
@@ -124,8 +129,6 @@ func (n *Node) handleIncomingConnection(conn *net.TCPConn) {
 
 	//// TODO: Add peer to peerstore. Make sure it is not exists.
 	//
-	n.wg.Add(1)
-	defer n.wg.Done()
 
 	n.connectionHandler(peer)
 
-- 
2.43.0


From 6ea50ba1795c72df2e58a15b30f3736fa374b02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:37 +0000
Subject: [PATCH 33/48] fix: connection is released when it ends

Handler of a connection closed by the peer was looping forever, connections
were never closed by the node after a shutdown of the peer, and an idle peer
kept a stopped node waiting for its next command.
---
 p2p/node.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/p2p/node.go b/p2p/node.go
index ced35fa..86ef144 100644
--- a/p2p/node.go
+++ b/p2p/node.go
@@ -140,6 +140,20 @@ func (n *Node) handleIncomingConnection(conn *net.TCPConn) {
 }
 
 func (n *Node) connectionHandler(p *Peer) {
+	defer p.protocol.Conn.Close()
+
+	done := make(chan struct{})
+	defer close(done)
+
+	// Stop waiting for the next command when the node is stopped
+	go func() {
+		select {
+		case <-n.context.Done():
+			_ = p.protocol.Conn.Close()
+		case <-done:
+		}
+	}()
+
 	for {
 		// Peer state changes asynchronously after handling some commands.
 		// Here we are taking care of handle different peer statuses.
@@ -170,9 +184,9 @@ func (n *Node) connectionHandler(p *Peer) {
 		// Read a next command from the connection
 		cmd, err := p.protocol.read()
 
-		// No command received continue to next loop cycle
+		// Connection closed by the peer
 		if err == io.EOF {
-			continue
+			return
 		}
 
 		// On any error we move the peer to the grey list
@@ -502,6 +516,8 @@ func (n *Node) syncWithAddr(addr string) {
 		return
 	}
 
+	defer peer.protocol.Conn.Close()
+
 	//handshake, err := peer.handshake(n)
 	_, err = peer.handshake(n)
 	if err != nil {
-- 
2.43.0


From 721b44d0f0a2dabf90e29999f5df362d5f3108b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:39 +0000
Subject: [PATCH 34/48] fix: peer is synchronized only when nothing is left to
 receive

The final condition could never be true, so a peer became normal with
requested blocks outstanding or with a height it does not have. Also zero
remote height wrapped around and requested the chain forever.
---
 p2p/peer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index cf31084..169fb33 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -220,12 +220,13 @@ func (p *Peer) requestMissingBlocks(n *Node, checkHavingBlocks bool) error {
 		}
 
 		p.neededBlocks = neededBlocks
-	} else if p.lastResponseHeight < (p.remoteHeight - 1) {
+	} else if uint64(p.lastResponseHeight)+1 < uint64(p.remoteHeight) {
 		if err := p.requestChain(n.Blockchain); err != nil {
 			return err
 		}
 	} else {
-		if p.lastResponseHeight == p.remoteHeight-1 && len(p.neededBlocks) != 0 && len(p.requestedBlocks) != 0 {
+		if uint64(p.lastResponseHeight)+1 != uint64(p.remoteHeight) || len(p.requestedBlocks) != 0 {
+			p.Shutdown()
 			return errors.New(fmt.Sprintf(
 				"request missing blocks final condition failed: \n"+
 					"response height: %d\n"+
-- 
2.43.0


From f5af8b1fafca43de1fc019b3722d551535514060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:51 +0000
Subject: [PATCH 35/48] fix: synchronization continues when all needed blocks
 are already known

---
 p2p/peer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 169fb33..6cecbcf 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -208,6 +208,8 @@ func (p *Peer) requestMissingBlocks(n *Node, checkHavingBlocks bool) error {
 			neededBlocks = neededBlocks[1:]
 		}
 
+		p.neededBlocks = neededBlocks
+
 		if len(requestBlocks) > 0 {
 			n := NotificationRequestGetObjects{}
 			n.Blocks = requestBlocks
@@ -217,10 +219,11 @@ func (p *Peer) requestMissingBlocks(n *Node, checkHavingBlocks bool) error {
 			}
 
 			p.requestedBlocks = append(p.requestedBlocks, requestBlocks...)
+			return nil
 		}
+	}
 
-		p.neededBlocks = neededBlocks
-	} else if uint64(p.lastResponseHeight)+1 < uint64(p.remoteHeight) {
+	if uint64(p.lastResponseHeight)+1 < uint64(p.remoteHeight) {
 		if err := p.requestChain(n.Blockchain); err != nil {
 			return err
 		}
-- 
2.43.0


From c831602cb55f019d3f3e5ce56a4cb7fa24e742ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:09 +0000
Subject: [PATCH 36/48] fix: peer sending blocks that are not accepted is
 dropped

---
 p2p/notification_response_get_objects.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/p2p/notification_response_get_objects.go b/p2p/notification_response_get_objects.go
index ac6e92b..dfe42b5 100644
--- a/p2p/notification_response_get_objects.go
+++ b/p2p/notification_response_get_objects.go
@@ -78,6 +78,15 @@ func (n *Node) HandleResponseGetObjects(p *Peer, nt NotificationResponseGetObjec
 	}
 
 	if err := n.processNewObjects(orderedBlocks, transactions); err != nil {
+		if errors.Is(err, cryptonote.ErrAddBlockAlreadyExists) {
+			// The block was received from another peer in the meantime, this peer did nothing wrong
+			p.state = PeerStateIdle
+			p.neededBlocks = nil
+			p.requestedBlocks = nil
+		} else {
+			p.Shutdown()
+		}
+
 		return err
 	}
 
-- 
2.43.0


From eb393b4b20a26ab2f67997e13cb1f6b7555bacef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:08 +0000
Subject: [PATCH 37/48] fix: multisignature output with 256 or more keys is
 compared without truncation

---
 cryptonote/transaction_validator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/transaction_validator.go b/cryptonote/transaction_validator.go
index 727f4e5..f2e6e20 100644
--- a/cryptonote/transaction_validator.go
+++ b/cryptonote/transaction_validator.go
@@ -262,7 +262,7 @@ func (validator *blockTransactionsValidator) validateOutputs(transaction *Transa
 		case OutputMultisignature:
 			outputTarget := output.Target.(OutputMultisignature)
 
-			if outputTarget.RequiredSignaturesCount > byte(len(outputTarget.Keys)) {
+			if int(outputTarget.RequiredSignaturesCount) > len(outputTarget.Keys) {
 				err := ErrTransactionOutputInvalidRequiredSignaturesCount
 				logger.Error(err)
 				return 0, err
-- 
2.43.0


From 7946e028d29a6b0c7ffddb233baddbb0f264b4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:37 +0000
Subject: [PATCH 38/48] fix: median of large values doesn't overflow

---
 utils/math.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/math.go b/utils/math.go
index 10f991f..134f443 100644
--- a/utils/math.go
+++ b/utils/math.go
@@ -17,7 +17,7 @@ func MedianSlice(sl []uint64) uint64 {
 
 	n := l / 2
 	if l%2 == 0 {
-		return (sl[n-1] + sl[n]) / 2
+		return sl[n-1] + (sl[n]-sl[n-1])/2
 	} else {
 		return sl[n]
 	}
-- 
2.43.0


From 0b49d57cabd8ae8c57b41a217e99c6f0a02f1558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:12 +0000
Subject: [PATCH 39/48] fix: list of binaries sent as a single binary is
 refused

The decoder appended empty items forever, until memory was exhausted.
---
 encoding/binary/decode.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/encoding/binary/decode.go b/encoding/binary/decode.go
index e121998..bd4bd4c 100644
--- a/encoding/binary/decode.go
+++ b/encoding/binary/decode.go
@@ -157,6 +157,11 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 			itemType := value.Type().Elem()
 			reader := bytes.NewReader(b)
 
+			// Items without a fixed size, like slices, can't be read from a binary
+			if binary.Size(reflect.New(itemType).Elem().Interface()) <= 0 {
+				return errors.New(fmt.Sprintf("not supported item type '%s' for binary received", itemType))
+			}
+
 			for {
 				item := reflect.New(itemType)
 				err := binary.Read(reader, binary.LittleEndian, item.Interface())
-- 
2.43.0


From b7d384cb9586e35b3e2aebee8851480dbeae8603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:15 +0000
Subject: [PATCH 40/48] fix: response with transactions can be encoded

A list of strings can't be written as one binary, so encoding failed.
---
 p2p/notification_response_get_objects.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/notification_response_get_objects.go b/p2p/notification_response_get_objects.go
index dfe42b5..164bca3 100644
--- a/p2p/notification_response_get_objects.go
+++ b/p2p/notification_response_get_objects.go
@@ -11,7 +11,7 @@ import (
 // NotificationResponseGetObjects == 2004
 type NotificationResponseGetObjects struct {
 	// Exists in old legacy code in definition but not exists in notification
-	Transactions            []string      `binary:"txs,omitempty"`
+	Transactions            []string      `binary:"txs,array,omitempty"`
 	Blocks                  []RawBlock    `binary:"blocks,array"`
 	CurrentBlockchainHeight uint32        `binary:"current_blockchain_height"`
 	MissedIds               []crypto.Hash `binary:"missed_ids,binary,omitempty"`
-- 
2.43.0


From 7ad427dfeb2167ca1d6a40be63cacef41d942a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:38 +0000
Subject: [PATCH 41/48] fix: transactions of an unknown version are refused

Their content after the version is not known, reference nodes refuse them too.
---
 cryptonote/transaction.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cryptonote/transaction.go b/cryptonote/transaction.go
index 2b0e323..69719bc 100644
--- a/cryptonote/transaction.go
+++ b/cryptonote/transaction.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"github.com/r3volut1oner/go-karbo/config"
 	"github.com/r3volut1oner/go-karbo/crypto"
 	"math"
 )
@@ -104,6 +105,10 @@ func (t *Transaction) Deserialize(r *bytes.Reader) error {
 		return err
 	}
 
+	if t.Version > config.TransactionVersion1 {
+		return errors.New("unknown transaction version")
+	}
+
 	if err := t.TransactionSignatures.deserialize(r, t); err != nil {
 		return err
 	}
-- 
2.43.0


From ac1961e189b711f12ed42ebf2ae6cb744ca932c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:06 +0000
Subject: [PATCH 42/48] fix: identical ring members are found by zero offsets,
 repeated offsets are allowed

---
 cryptonote/transaction_validator.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cryptonote/transaction_validator.go b/cryptonote/transaction_validator.go
index f2e6e20..e8ffddf 100644
--- a/cryptonote/transaction_validator.go
+++ b/cryptonote/transaction_validator.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"github.com/r3volut1oner/go-karbo/config"
 	"github.com/r3volut1oner/go-karbo/crypto"
-	"github.com/r3volut1oner/go-karbo/utils"
 	log "github.com/sirupsen/logrus"
 	"math"
 	"sort"
@@ -156,10 +155,12 @@ func (validator *blockTransactionsValidator) validateInputs(transaction *Transac
 				}
 			}
 
-			if !utils.SliceIsUniqueUint32(&input.OutputIndexes) {
-				err := ErrTransactionInputIdenticalOutputIndexes
-				logger.Error(err)
-				return 0, err
+			for _, offset := range input.OutputIndexes[1:] {
+				if offset == 0 {
+					err := ErrTransactionInputIdenticalOutputIndexes
+					logger.Error(err)
+					return 0, err
+				}
 			}
 
 			if _, ok := validator.spentKeyImages[input.KeyImage]; ok {
-- 
2.43.0


From bdeda9b2817db06f260b120908392fa6f7d92a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:50 +0000
Subject: [PATCH 43/48] fix: outgoing connection waiting for the handshake is
 closed when the node stops

---
 p2p/node.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/p2p/node.go b/p2p/node.go
index 86ef144..d1a29cc 100644
--- a/p2p/node.go
+++ b/p2p/node.go
@@ -506,6 +506,9 @@ func (n *Node) defaults() {
 }
 
 func (n *Node) syncWithAddr(addr string) {
+	n.wg.Add(1)
+	defer n.wg.Done()
+
 	ctx, cancel := context.WithCancel(n.context)
 	defer cancel()
 
@@ -518,6 +521,12 @@ func (n *Node) syncWithAddr(addr string) {
 
 	defer peer.protocol.Conn.Close()
 
+	// Stop waiting for the handshake response when the node is stopped
+	go func() {
+		<-ctx.Done()
+		_ = peer.protocol.Conn.Close()
+	}()
+
 	//handshake, err := peer.handshake(n)
 	_, err = peer.handshake(n)
 	if err != nil {
@@ -534,9 +543,6 @@ func (n *Node) syncWithAddr(addr string) {
 		return
 	}
 
-	n.wg.Add(1)
-	defer n.wg.Done()
-
 	//for _, pe := range handshake.Peers {
 	//	go n.syncWithAddr(c, pe.Address.String())
 	//}
-- 
2.43.0


From bd21d5b921aeb1fdd28d9790d5776b104ad3d676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 44/48] fix: encode strings of named types instead of panicking

---
 encoding/binary/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/binary/encode.go b/encoding/binary/encode.go
index be2e51f..257456b 100644
--- a/encoding/binary/encode.go
+++ b/encoding/binary/encode.go
@@ -80,7 +80,7 @@ func (e *Encoder) writeValue(val reflect.Value, asArray bool) error {
 			return err
 		}
 
-		if _, err := e.w.Write([]byte(val.Interface().(string))); err != nil {
+		if _, err := e.w.Write([]byte(val.String())); err != nil {
 			return err
 		}
 	case reflect.Struct:
-- 
2.43.0


From 9ed0ab994bd69985cfb548e0e05088f904e48092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 45/48] fix: refuse a binary for arrays of anything but bytes
 instead of panicking

---
 encoding/binary/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/binary/decode.go b/encoding/binary/decode.go
index bd4bd4c..a05e958 100644
--- a/encoding/binary/decode.go
+++ b/encoding/binary/decode.go
@@ -178,6 +178,9 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 			value.Set(newSlice)
 		// For binary data only [N]byte array supported.
 		case reflect.Array:
+			if value.Type().Elem() != reflect.TypeOf(b).Elem() {
+				return errors.New(fmt.Sprintf("not supported array type '%s' for binary received", value.Type()))
+			}
 			if value.Len() != len(b) {
 				return errors.New(fmt.Sprintf("wrong array size %d, expected %d", len(b), value.Len()))
 			}
-- 
2.43.0


From e1a8af9f6f4d3e053d89b78229f035db415cfff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:47 +0000
Subject: [PATCH 46/48] fix: a genesis block that cannot be read is not
 returned by later calls

---
 cryptonote/chain.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index b5e242c..21d5167 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -514,7 +514,7 @@ func (bc *BlockChain) haveBlock(h *crypto.Hash) bool {
 // GenesisBlock returns first basic block of the blockchain
 func (bc *BlockChain) GenesisBlock() (*Block, error) {
 	if bc.genesisBlock == nil {
-		bc.genesisBlock = &Block{}
+		genesisBlock := &Block{}
 		genesisTransactionBytes, err := hex.DecodeString(bc.Network.GenesisCoinbaseTxHex)
 		reader := bytes.NewReader(genesisTransactionBytes)
 
@@ -522,14 +522,16 @@ func (bc *BlockChain) GenesisBlock() (*Block, error) {
 			return nil, err
 		}
 
-		if err := bc.genesisBlock.BaseTransaction.Deserialize(reader); err != nil {
+		if err := genesisBlock.BaseTransaction.Deserialize(reader); err != nil {
 			return nil, err
 		}
 
-		bc.genesisBlock.MajorVersion = config.BlockMajorVersion1
-		bc.genesisBlock.MinorVersion = config.BlockMinorVersion0
-		bc.genesisBlock.Timestamp = bc.Network.GenesisTimestamp
-		bc.genesisBlock.Nonce = bc.Network.GenesisNonce
+		genesisBlock.MajorVersion = config.BlockMajorVersion1
+		genesisBlock.MinorVersion = config.BlockMinorVersion0
+		genesisBlock.Timestamp = bc.Network.GenesisTimestamp
+		genesisBlock.Nonce = bc.Network.GenesisNonce
+
+		bc.genesisBlock = genesisBlock
 	}
 
 	return bc.genesisBlock, nil
-- 
2.43.0


From 413154482e4146db51deed9a69686e8068df1994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:56 +0000
Subject: [PATCH 47/48] fix: reading into a used block or transaction replaces
 all that it held

---
 cryptonote/block.go       | 3 +++
 cryptonote/transaction.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cryptonote/block.go b/cryptonote/block.go
index bc37a5e..fcc950c 100644
--- a/cryptonote/block.go
+++ b/cryptonote/block.go
@@ -118,6 +118,9 @@ func (b *Block) Index() uint32 {
 }
 
 func (b *Block) Deserialize(r *bytes.Reader) error {
+	// Nothing of what the block held before may stay, its cached hash least of all
+	*b = Block{}
+
 	if err := b.BlockHeader.deserialize(r); err != nil {
 		return err
 	}
diff --git a/cryptonote/transaction.go b/cryptonote/transaction.go
index 69719bc..07a2119 100644
--- a/cryptonote/transaction.go
+++ b/cryptonote/transaction.go
@@ -101,6 +101,9 @@ func (t *Transaction) Serialize() []byte {
 }
 
 func (t *Transaction) Deserialize(r *bytes.Reader) error {
+	// Nothing of what the transaction held before may stay, its cached hash least of all
+	*t = Transaction{}
+
 	if err := t.TransactionPrefix.deserialize(r); err != nil {
 		return err
 	}
-- 
2.43.0


From 161860cf3f1aedce11f48704399ab09829bd1b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:07 +0000
Subject: [PATCH 48/48] fix: refuse a chain answer whose heights run over the
 largest height

The height of the last listed block was computed in 32 bits, so a start
height near the largest one gave a small number and the answer passed.
---
 p2p/node.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/p2p/node.go b/p2p/node.go
index d1a29cc..2ae4bf8 100644
--- a/p2p/node.go
+++ b/p2p/node.go
@@ -298,9 +298,9 @@ func (n *Node) handleNotification(p *Peer, cmd *LevinCommand) error {
 		}
 
 		p.remoteHeight = notification.TotalHeight
-		p.lastResponseHeight = notification.StartHeight + uint32(len(notification.BlocksHashes)-1)
 
-		if p.lastResponseHeight > p.remoteHeight {
+		lastResponseHeight := uint64(notification.StartHeight) + uint64(len(notification.BlocksHashes)-1)
+		if lastResponseHeight > uint64(p.remoteHeight) {
 			// TODO: Create new error instance
 			p.Shutdown()
 			return errors.New(
@@ -313,6 +313,8 @@ func (n *Node) handleNotification(p *Peer, cmd *LevinCommand) error {
 			)
 		}
 
+		p.lastResponseHeight = uint32(lastResponseHeight)
+
 		allBlockKnown := true
 		for _, bh := range notification.BlocksHashes {
 			hasBlock := n.Blockchain.HaveBlock(&bh)
-- 
2.43.0

