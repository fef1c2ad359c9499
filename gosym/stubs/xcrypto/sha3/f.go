package sha3

import (
	"crypto/sha3"
	"hash"
)

func Sum256(b []byte) [32]byte      { return sha3.Sum256(b) }
func New256() hash.Hash             { return sha3.New256() }
func NewLegacyKeccak256() hash.Hash { return sha3.New256() }
