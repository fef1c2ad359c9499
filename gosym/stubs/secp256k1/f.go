package secp256k1

import "errors"

var errNo = errors.New("secp256k1 is not available")

const PubKeyBytesLenCompressed = 33
const PubKeyBytesLenUncompressed = 65
const PrivKeyBytesLen = 32

type PrivateKey struct{ b [32]byte }
type PublicKey struct{ b [33]byte }
type ModNScalar struct{}

func GeneratePrivateKey() (*PrivateKey, error)  { return nil, errNo }
func PrivKeyFromBytes(b []byte) *PrivateKey     { return &PrivateKey{} }
func (*PrivateKey) Serialize() []byte           { return nil }
func (*PrivateKey) PubKey() *PublicKey          { return &PublicKey{} }
func (p *PublicKey) SerializeCompressed() []byte {
	return append([]byte(nil), p.b[:]...)
}
func (p *PublicKey) SerializeUncompressed() []byte {
	return append(append([]byte{4}, p.b[1:]...), p.b[1:]...)
}
func (p *PublicKey) IsEqual(o *PublicKey) bool { return p.b == o.b }

// ParsePubKey takes any compressed key for a point
func ParsePubKey(b []byte) (*PublicKey, error) {
	if len(b) != 33 || (b[0] != 2 && b[0] != 3) {
		return nil, errNo
	}
	p := &PublicKey{}
	copy(p.b[:], b)
	return p, nil
}
func (*ModNScalar) SetByteSlice([]byte) bool { return false }
func (*ModNScalar) IsZero() bool { return false }
