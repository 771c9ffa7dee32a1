package zzvnd

import "math"

func f64(v uint64) float64 { return math.Float64frombits(v) }
