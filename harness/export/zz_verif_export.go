package cryptonote

import "github.com/r3volut1oner/go-karbo/crypto"

// VerifInfo is what a storage records about the block at a height.
type VerifInfo struct {
	Index                       uint32
	Hash                        crypto.Hash
	Cum, Txs, Coins, Time, Size uint64
}

func VerifInfoAt(s Storage, i uint32) (*VerifInfo, bool) {
	x := s.getBlockInfoAtIndex(i)
	if x == nil {
		return nil, false
	}
	return &VerifInfo{x.Index, x.Hash, x.CumulativeDifficulty, x.TotalGeneratedTransactions, x.TotalGeneratedCoins, x.Timestamp, x.Size}, true
}

// VerifBlockInfo is what a storage is given with a block.
type VerifBlockInfo = blockInfo
