package leveldb

import (
	"errors"

	"github.com/syndtr/goleveldb/leveldb/opt"
)

var ErrClosed = errors.New("closed")
var ErrNotFound = errors.New("not found")

type DB struct{}

func OpenFile(string, *opt.Options) (*DB, error)                 { return nil, ErrClosed }
func (*DB) Get([]byte, *opt.ReadOptions) ([]byte, error)         { return nil, ErrNotFound }
func (*DB) Has([]byte, *opt.ReadOptions) (bool, error)           { return false, ErrNotFound }
func (*DB) Put([]byte, []byte, *opt.WriteOptions) error          { return ErrClosed }
func (*DB) Delete([]byte, *opt.WriteOptions) error               { return ErrClosed }
func (*DB) Close() error                                         { return nil }
