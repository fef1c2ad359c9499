// Package scrypt is a stand-in that derives no key.
package scrypt

import "errors"

func Key(password, salt []byte, N, r, p, keyLen int) ([]byte, error) {
	return nil, errors.New("not available")
}
