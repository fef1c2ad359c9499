// Package hkdf is a stand-in that gives no bytes.
package hkdf

import (
	"hash"
	"io"
	"strings"
)

func New(h func() hash.Hash, secret, salt, info []byte) io.Reader { return strings.NewReader("") }
