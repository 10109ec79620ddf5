package socketio

import (
	"time"

	"github.com/zyxar/socketio/zzsym"
)

const zzMethods = 13

// zzUse calls a method of a socket; it tells whether the session is to end.
func zzUse(e *zzEnd, so Socket, k int) (closes bool) {
	switch k {
	case 0:
		so.Emit("out", "x")
	case 1:
		so.Emit("out", func() {})
	case 2:
		so.Emit("out", &Bytes{Data: []byte("b")}, nil)
	case 3:
		so.EmitError("e")
	case 4:
		so.Close()
		return true
	case 5:
		so.SetHeader("K", "v")
		zzsym.Assert(so.GetHeader("k") == "v", "headers set can be read")
	case 6:
		e.calls.add("id "+so.Sid(), so)
	case 7:
		so.RemoteAddr()
		so.LocalAddr()
	case 8: // another namespace, and back
		e.nsp("/new").OnConnect(func(Socket) {})
	case 9:
		so.Close()
		so.Emit("out", "x")
		so.Close()
		return true
	case 10:
		for i := 0; i < 20; i++ {
			so.Emit("out", i)
		}
	case 11:
		if e.client != nil {
			e.client.Emit("/", "out", 1)
			e.client.Close()
			return true
		}
		so.Emit("out", func() {})
	case 12:
		if e.client != nil {
			e.client.Namespace("/newer").OnEvent("x", func() {}).OnDisconnect(func(Socket) {})
		} else {
			zzsym.Assert(e.server.Close() == nil, "Close succeeds")
		}
	}
	return false
}

var zzInsideKinds = []string{"connect /", "connect /a", "event", "event with id", "ack", "error packet", "error args", "disconnect packet", "close packet", "gone", "closed", "silence"}

// ZZC22inside: every method from within every callback.
func ZZC22inside() {
	client := zzsym.Choice("client", 2) == 1
	e := zzNewEnd(client, DefaultParser)
	kind := zzInsideKinds[zzsym.Choice("callback", len(zzInsideKinds))]
	method := zzsym.Choice("method", zzMethods)
	explore := func() {
		if zzsym.Param("delays", 0) > 0 {
			if zzsym.Param("races", 1) == 1 {
				zzsym.Races()
			}
			zzsym.Delays(zzsym.Param("delays", 0))
		}
	}
	early := kind == "connect /" || kind == "connect /a"
	if early {
		explore()
	}
	ran, returned, closed := 0, 0, false
	use := func(so Socket) {
		ran++
		if zzUse(e, so, method) {
			closed = true
		}
		returned++
	}
	l := e.calls
	for _, n := range []string{"/", "/a"} {
		x := e.nsp(n)
		n := n
		x.OnConnect(func(so Socket) {
			l.mu.Lock()
			e.sock[n] = so
			l.mu.Unlock()
			l.add("connect", so)
			if kind == "connect "+n {
				use(so)
			}
		})
		x.OnDisconnect(func(so Socket) {
			l.add("disconnect", so)
			switch kind {
			case "disconnect packet", "close packet", "gone", "closed", "silence":
				use(so)
			}
		})
		x.OnError(func(so Socket, err ...interface{}) {
			if kind == "error packet" || kind == "error args" {
				use(so)
			}
		})
		x.OnEvent("ev", func(so Socket, s string) string { use(so); return s })
		x.OnEvent("ping", func(so Socket) { l.add("ping", so) })
	}
	if client {
		p, err := zzDialTo(e.client, DefaultParser, zzOpenPacket, "40")
		zzsym.Assert(err == nil, "dial succeeds")
		e.peer = p
	} else {
		e.peer = zzAccept(e.server)
	}
	e.peer.text("0/a")
	zzsym.Quiesce()
	want := 1
	l.mu.Lock()
	so := e.sock["/a"]
	l.mu.Unlock()
	if !early {
		explore()
	}
	switch kind {
	case "event":
		e.peer.text(`2/a,["ev","x"]`)
	case "event with id":
		e.peer.text(`21["ev","x"]`)
	case "ack":
		zzsym.Assert(so.Emit("q", func(so Socket) { use(so) }) == nil, "Emit on a connected namespace succeeds")
		e.peer.text(`3/a,1[]`)
	case "error packet":
		e.peer.text(`4/a,"e"`)
	case "error args":
		e.peer.text(`2/a,["ev",7]`)
	case "disconnect packet":
		e.peer.text(`1/a`)
	case "close packet":
		e.peer.c.WriteMessage(1, []byte("1"))
		want = 2
	case "gone":
		e.peer.c.Close()
		want = 2
	case "closed":
		so.Close()
		want = 2
	case "silence":
		time.Sleep(zzInterval + zzTimeout + time.Second)
		want = 2
	}
	zzsym.Quiesce()
	if kind == "disconnect packet" && closed {
		want = 2 // closing the session disconnects the root namespace as well
	}
	zzsym.Assert(returned == ran, "the call returns")
	zzsym.Assert(ran == want, "the callback runs")
	if method == 6 {
		zzsym.Assert(len(l.of("id "+e.peer.sid)) == ran, "the id is the session's")
	}
	ends := closed || want == 2
	zzsym.Assert(ends == e.peer.c.ZZPeerClosed(), "the session ends if closed, and only then")
	if ends {
		n := len(l.of("connect"))
		zzsym.Assert(n == 2 || kind == "connect /" && n == 1, "connected")
		zzsym.Assert(len(l.of("disconnect")) == n, "each connected namespace is disconnected, once")
	} else {
		e.peer.text(`2["ping"]`)
		zzsym.Quiesce()
		zzsym.Assert(len(l.of("ping")) == 1, "the session goes on")
	}
	if !client && method != 12 {
		l.clear()
		e.server.Namespace("/").OnConnect(nil)
		q := zzConnect(e.server)
		q.text(`2["ping"]`)
		zzsym.Quiesce()
		zzsym.Assert(len(l.of("ping")) == 1, "the server goes on")
	}
	zzsym.Cover(kind)
}
