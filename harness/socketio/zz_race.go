package socketio

import (
	"github.com/gorilla/websocket"
	"github.com/zyxar/socketio/zzsym"
)

var zzOps = []string{"emit", "emit /a", "ack wanted", "error", "header", "who", "event", "event /a", "binary event", "event for ack", "ack", "connect /b", "disconnect /a", "namespace", "open", "close packet", "gone", "close"}

// ZZC28socket: operations of a socket.io server or client, its sessions and their peers, at the same time.
func ZZC28socket() {
	client := zzsym.Choice("client", 2) == 1
	e := zzNewEnd(client, DefaultParser)
	l := e.calls
	for _, n := range []string{"/", "/a", "/b"} {
		x := e.watch(n)
		x.OnEvent("ev", func(so Socket, s string) string { l.add("event", so, s); return s })
		x.OnEvent("bin", func(so Socket, b *Bytes) { l.add("binary", so) })
	}
	e.start(DefaultParser, "/a")
	root, a := e.sock["/"], e.sock["/a"]
	zzsym.Assert(root.Emit("before", func(so Socket) { l.add("acked", so) }) == nil, "Emit on a connected namespace succeeds")
	zzsym.Quiesce()
	e.peer.take()
	n := zzsym.Param("ops", 2)
	did := map[string]int{}
	var ops []string
	last := 0
	for i := 0; i < n; i++ {
		k := zzsym.Choice("operation", len(zzOps)-last) + last
		last = k
		op := zzOps[k]
		if op == "open" {
			zzsym.Assume(!client)
		}
		did[op]++
		ops = append(ops, op)
	}
	zzsym.Assume(did["binary event"] == 0 || did["binary event"] == 1 && did["event"]+did["event /a"]+did["event for ack"]+did["ack"]+did["connect /b"]+did["disconnect /a"] == 0) // frames of one packet are contiguous
	zzsym.Assume(did["gone"] < 2)
	if zzsym.Param("races", 1) == 1 {
		zzsym.Races()
	}
	zzsym.Delays(zzsym.Param("delays", 1))
	done := make(chan struct{}, n)
	failed := make([]error, n)
	var opened []*websocket.Conn
	for i, op := range ops {
		i := i
		var f func()
		switch op {
		case "emit":
			f = func() { failed[i] = root.Emit("out", "x", &Bytes{Data: []byte("b")}) }
		case "emit /a":
			f = func() {
				if err := a.Emit("out", 1); err != ErrorNamespaceUnavaialble || did["disconnect /a"] == 0 {
					failed[i] = err
				}
			}
		case "ack wanted":
			f = func() { failed[i] = root.Emit("out", func() {}) }
		case "error":
			f = func() { failed[i] = a.EmitError("e") }
		case "header":
			f = func() {
				a.SetHeader("X-A", "a")
				zzsym.Assert(root.GetHeader("x-a") == "a", "a header set is seen")
			}
		case "who":
			f = func() {
				zzsym.Assert(a.Sid() == e.peer.sid && a.Namespace() == "/a" && a.RemoteAddr() != nil && a.LocalAddr() != nil, "names and addresses are there")
			}
		case "event":
			f = func() { e.peer.text(`2["ev","x"]`) }
		case "event /a":
			f = func() { e.peer.text(`2/a,["ev","x"]`) }
		case "binary event":
			f = func() {
				e.peer.text(`51-["bin",{"_placeholder":true,"num":0}]`)
				e.peer.bin([]byte("b"))
			}
		case "event for ack":
			f = func() { e.peer.text(`27["ev","y"]`) }
		case "ack":
			f = func() { e.peer.text(`31[]`) }
		case "connect /b":
			f = func() { e.peer.text(`0/b`) }
		case "disconnect /a":
			f = func() { e.peer.text(`1/a`) }
		case "namespace":
			f = func() {
				e.nsp("/c"+string(rune('0'+i))).OnConnect(func(Socket) {}).OnEvent("x", func() {})
				e.nsp("/d")
			}
		case "open":
			f = func() {
				c := zzDialIn(e.server)
				l.mu.Lock()
				opened = append(opened, c)
				l.mu.Unlock()
			}
		case "close packet":
			f = func() { e.peer.c.WriteMessage(websocket.TextMessage, []byte("1")) }
		case "gone":
			f = func() { e.peer.c.Close() }
		case "close":
			f = func() {
				if client && i == 0 {
					e.client.Close()
				} else {
					a.Close()
				}
			}
		}
		go func() {
			f()
			done <- struct{}{}
		}()
	}
	zzsym.Quiesce()
	zzsym.Sequential()
	zzsym.Assert(len(done) == n, "every call returns")
	count := func(what, sid string) (n int) {
		for _, c := range l.of(what) {
			if c.sid == sid {
				n++
			}
		}
		return
	}
	sid := e.peer.sid
	if did["close packet"]+did["gone"]+did["close"] > 0 {
		zzsym.Assert(count("disconnect", sid) == 2+count("connect", sid), "each connected namespace is disconnected, once")
		zzsym.Assert(root.Emit("late") == ErrorNamespaceUnavaialble, "Emit fails afterwards")
	} else {
		for _, err := range failed {
			zzsym.Assert(err == nil, "Emit on a connected namespace succeeds")
		}
		zzsym.Assert(count("event", sid) == did["event"]+did["event /a"]+did["event for ack"], "each event runs its handler, once")
		zzsym.Assert(count("binary", sid) == did["binary event"], "a binary event runs its handler, once")
		want := 0
		if did["ack"] > 0 {
			want = 1
		}
		zzsym.Assert(count("acked", sid) == want, "the acknowledgement runs its callback, once")
		want = 0
		if did["connect /b"] > 0 {
			want = 1
		}
		zzsym.Assert(count("connect", sid) == want, "a namespace connects once")
		want = 0
		if did["disconnect /a"] > 0 {
			want = 1
		}
		zzsym.Assert(count("disconnect", sid) == want, "a namespace disconnects once")
		outs, bins, acks, errs := 0, 0, 0, 0
		for _, f := range e.peer.take() {
			switch s := string(f.data); {
			case f.bin:
				bins++
			case len(s) > 1 && s[:2] == "37":
				acks++
			case len(s) > 0 && s[0] == '4':
				errs++
			case len(s) > 0 && (s[0] == '2' || s[0] == '5'):
				outs++
			}
		}
		lost := 0 // emits refused as their namespace was disconnected
		if did["disconnect /a"] > 0 {
			lost = did["emit /a"]
		}
		all := did["emit"] + did["emit /a"] + did["ack wanted"]
		zzsym.Assert(outs <= all && outs >= all-lost && bins == did["emit"], "what was emitted arrives")
		zzsym.Assert(acks == did["event for ack"], "each acknowledgement asked for is sent")
		zzsym.Assert(errs == did["error"], "each error packet is sent")
	}
	for _, c := range opened {
		zzsym.Assert(c.ZZPending() == 2, "sessions are opened")
	}
	if !client {
		zzConnect(e.server)
	}
	for _, op := range ops {
		zzsym.Cover(op)
	}
}
