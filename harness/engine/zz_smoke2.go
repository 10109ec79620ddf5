package engine

import (
	"math"

	"github.com/zyxar/socketio/zzsym"
)

func ZZsmokeFloat() {
	f := zzsym.Float32("f")
	d := float64(f)
	for _, x := range []uint32{0, 1, 2, 0x7fffff, 0x800000, 0x3f800000, 0xc2280000, 0x7f800000, 0x7fc00001, 0x80000001, 0x00400000} {
		g := math.Float32frombits(x)
		if math.Float32bits(f) == x {
			zzsym.Assert(math.Float64bits(d) == math.Float64bits(float64(g)), "widen")
		}
	}
}
