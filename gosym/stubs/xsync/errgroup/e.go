// Package errgroup is a stand-in that runs its functions one by one.
package errgroup

import "context"

type Group struct{ err error }

func WithContext(ctx context.Context) (*Group, context.Context) { return &Group{}, ctx }
func (g *Group) Go(f func() error) {
	if err := f(); err != nil && g.err == nil {
		g.err = err
	}
}
func (g *Group) Wait() error { return g.err }
