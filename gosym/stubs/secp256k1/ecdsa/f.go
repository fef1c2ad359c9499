package ecdsa

import (
	"errors"

	"github.com/decred/dcrd/dcrec/secp256k1/v4"
)

type Signature struct{}

func SignCompact(*secp256k1.PrivateKey, []byte, bool) []byte { return nil }
func RecoverCompact([]byte, []byte) (*secp256k1.PublicKey, bool, error) {
	return nil, false, errors.New("not available")
}
func NewSignature(r, s *secp256k1.ModNScalar) *Signature { return nil }
func (*Signature) Verify([]byte, *secp256k1.PublicKey) bool { return false }
