// Package tag is a stand-in without effects.
package tag

import "context"

type Key struct{ name string }
type Mutator interface{}
type Map struct{}
type Metadata struct{}

func NewKey(n string) (Key, error)                                    { return Key{n}, nil }
func Upsert(k Key, v string, mds ...Metadata) Mutator                 { return nil }
func New(ctx context.Context, ms ...Mutator) (context.Context, error) { return ctx, nil }
func FromContext(ctx context.Context) *Map                            { return &Map{} }
func (m *Map) Value(k Key) (string, bool)                             { return "", false }

type Tag struct {
	Key   Key
	Value string
}

func (k Key) Name() string { return k.name }
