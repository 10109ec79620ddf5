package engine

import (
	"fmt"

	"github.com/zyxar/socketio/zzsym"
)

// ZZsmoke exercises the executor itself.
func ZZsmoke() {
	a := zzsym.Byte("a")
	if a > 200 {
		zzsym.Obs(fmt.Sprint("big ", a > 100))
		return
	}
	zzsym.Obs("small")
}
