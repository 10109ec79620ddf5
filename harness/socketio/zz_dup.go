package socketio

import (
	"github.com/zyxar/socketio/zzsym"
)

// ZZC12dup: copies of an acknowledgement processed at the same time.
func ZZC12dup() {
	e := zzNewEnd(zzsym.Choice("client", 2) == 1, DefaultParser)
	e.watch("/")
	e.start(DefaultParser)
	fired := 0
	zzsym.Assert(e.sock["/"].Emit("ev", func(s string) { fired++ }) == nil, "Emit on a connected namespace succeeds")
	zzsym.Quiesce()
	ps := e.peer.packets(DefaultParser)
	zzsym.Assert(len(ps) == 1 && ps[0].ID != nil, "one event with an id is sent")
	id := *ps[0].ID
	var so *socket
	switch x := e.sock["/"].(type) {
	case *socket:
		so = x
	case *nspSock:
		so = x.socket
	}
	if zzsym.Param("races", 1) == 1 {
		zzsym.Races()
	}
	zzsym.Delays(zzsym.Param("delays", 3))
	for g := 0; g < zzsym.Param("copies", 2); g++ {
		go so.fireAck("/", id, []byte(`["x"]`), nil, DefaultParser.Decoder())
	}
	zzsym.Quiesce()
	zzsym.Assert(fired == 1, "the callback runs exactly once")
	zzsym.Cover("done")
}
