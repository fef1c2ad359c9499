package uuid

type UUID [16]byte

func (UUID) String() string             { return "" }
func NewV4() (UUID, error)              { return UUID{}, nil }
func Must(u UUID, err error) UUID       { return u }
