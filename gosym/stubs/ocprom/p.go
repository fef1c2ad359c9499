// Package prometheus is a stand-in without effects.
package prometheus

import "net/http"

type Options struct{ Namespace string }
type Exporter struct{}

func NewExporter(o Options) (*Exporter, error)                       { return &Exporter{}, nil }
func (e *Exporter) ServeHTTP(w http.ResponseWriter, r *http.Request) {}
