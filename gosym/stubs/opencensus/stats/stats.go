// Package stats is a stand-in without effects.
package stats

import "context"

const (
	UnitNone          = "1"
	UnitDimensionless = "1"
	UnitBytes         = "By"
	UnitMilliseconds  = "ms"
)

type Measure interface {
	Name() string
	Description() string
	Unit() string
}
type Measurement struct{}
type Int64Measure struct{ n, d, u string }

func Int64(n, d, u string) *Int64Measure            { return &Int64Measure{n, d, u} }
func (m *Int64Measure) M(v int64) Measurement       { return Measurement{} }
func (m *Int64Measure) Name() string                { return m.n }
func (m *Int64Measure) Description() string         { return m.d }
func (m *Int64Measure) Unit() string                { return m.u }
func Record(ctx context.Context, ms ...Measurement) {}
