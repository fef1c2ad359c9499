// Package view is a stand-in without effects.
package view

import (
	"time"

	"go.opencensus.io/stats"
	"go.opencensus.io/tag"
)

type AggType int

const (
	AggTypeNone AggType = iota
	AggTypeCount
	AggTypeSum
	AggTypeDistribution
	AggTypeLastValue
)

type Aggregation struct{ Type AggType }
type AggregationData interface{}
type CountData struct{ Value int64 }
type SumData struct{ Value float64 }
type LastValueData struct{ Value float64 }
type DistributionData struct {
	Count                           int64
	Min, Max, Mean, SumOfSquaredDev float64
}
type Row struct {
	Tags []tag.Tag
	Data AggregationData
}
type View struct {
	Name, Description string
	TagKeys           []tag.Key
	Measure           stats.Measure
	Aggregation       *Aggregation
}
type Exporter interface{}

func Count() *Aggregation                   { return &Aggregation{AggTypeCount} }
func Sum() *Aggregation                     { return &Aggregation{AggTypeSum} }
func LastValue() *Aggregation               { return &Aggregation{AggTypeLastValue} }
func Register(vs ...*View) error            { return nil }
func Unregister(vs ...*View)                {}
func RegisterExporter(e Exporter)           {}
func SetReportingPeriod(d time.Duration)    {}
func RetrieveData(n string) ([]*Row, error) { return nil, nil }

func (t AggType) String() string { return "" }
