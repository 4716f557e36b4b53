package gv

import "math"

func fbits(u uint64) float64 { return math.Float64frombits(u) }
