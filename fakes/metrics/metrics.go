// Package metrics is a stand-in that records nothing.
package metrics

import (
	"github.com/rcrowley/go-metrics"
)

var (
	MajorRegistry = metrics.NewRegistry()
	MinorRegistry = metrics.NewRegistry()
)

func NewMajorGauge(name string) metrics.Gauge         { return metrics.NilGauge{} }
func NewMajorCounter(name string) metrics.Counter     { return metrics.NilCounter{} }
func NewMajorTimer(name string) metrics.Timer         { return metrics.NilTimer{} }
func NewMajorMeter(name string) metrics.Meter         { return metrics.NilMeter{} }
func NewMajorHistogram(name string) metrics.Histogram { return metrics.NilHistogram{} }
func NewMinorGauge(name string) metrics.Gauge         { return metrics.NilGauge{} }
func NewMinorCounter(name string) metrics.Counter     { return metrics.NilCounter{} }
func NewMinorTimer(name string) metrics.Timer         { return metrics.NilTimer{} }
func NewMinorMeter(name string) metrics.Meter         { return metrics.NilMeter{} }
func NewMinorHistogram(name string) metrics.Histogram { return metrics.NilHistogram{} }

type MetricsAPI struct{}

func (api *MetricsAPI) Metrics() []metrics.Registry {
	return []metrics.Registry{MinorRegistry, MajorRegistry}
}

func Clear() {}
