package socketio

import (
	"strconv"
	"strings"
	"time"

	"github.com/gorilla/websocket"

	"github.com/zyxar/socketio/zzsym"
)

// zzNsps follows which namespaces of a session are connected.
type zzNsps struct {
	e    *zzEnd
	on   map[string]bool
	seen int  // callbacks looked at
	acks bool // events ask for an acknowledgement, which never comes
}

// step checks the callbacks that ran since against what the peer did to a namespace:
// '0' connected it, '1' disconnected it, 'x' ended the session, anything else is no business of it.
func (m *zzNsps) step(what byte, nsp string) {
	cs := m.e.calls.cs[m.seen:]
	m.seen += len(cs)
	var want []string
	switch {
	case what == '0' && !m.on[nsp]:
		want = []string{"connect " + nsp}
		m.on[nsp] = true
	case what == '1' && m.on[nsp]:
		want = []string{"disconnect " + nsp}
		m.on[nsp] = false
	case what == 'x':
		for _, n := range zzKnown {
			if m.on[n] {
				want = append(want, "disconnect "+n)
				m.on[n] = false
			}
		}
	}
	n := 0
	for _, c := range cs {
		if c.what != "connect" && c.what != "disconnect" {
			continue
		}
		n++
		hit := false
		for i, w := range want {
			if w == c.what+" "+c.nsp {
				want[i] = ""
				hit = true
				break
			}
		}
		zzsym.Assert(hit, "connects and disconnects are reported only when they happen")
		zzsym.Assert(c.sid == m.e.peer.sid, "with a socket of the session")
	}
	zzsym.Assert(n == len(want), "each connect and disconnect is reported")
}

// emits checks that Emit works on the connected namespaces and no other.
func (m *zzNsps) emits() {
	e := m.e
	for _, n := range zzKnown {
		so := e.sock[n]
		if so == nil && e.client == nil {
			continue
		}
		var err error
		args := []interface{}{1}
		if m.acks {
			args = append(args, func(int) {})
		}
		if e.client != nil {
			err = e.client.Emit(n, "ev", args...)
		} else {
			err = so.Emit("ev", args...)
		}
		zzsym.Quiesce()
		out := zzJoin(e.peer.texts())
		if m.on[n] {
			w := "2"
			if n != "/" {
				w += n + ","
			}
			const arg = `["ev",1]`
			if zzsym.Assert(err == nil && strings.HasPrefix(out, w) && strings.HasSuffix(out, arg), "Emit on a connected namespace sends the event"); m.acks {
				id, err := strconv.Atoi(out[len(w) : len(out)-len(arg)])
				zzsym.Assert(err == nil && id >= 0, "with an id if it asks for an acknowledgement")
			} else {
				zzsym.Assert(out == w+arg, "and nothing else")
			}
		} else {
			zzsym.Assert(err == ErrorNamespaceUnavaialble && out == "", "Emit on a namespace that is not connected fails")
		}
	}
}

var zzKnown = []string{"/", "/a", "/b"}

func zzIsKnown(n string) bool {
	for _, k := range zzKnown {
		if k == n {
			return true
		}
	}
	return false
}

// ZZC13sequence: any sequence of packets, then any end.
func ZZC13sequence() {
	client := zzsym.Choice("client", 2) == 1
	e := zzNewEnd(client, DefaultParser)
	for _, n := range zzKnown {
		e.watch(n).OnEvent("ev", func(int) {})
	}
	m := &zzNsps{e: e, on: map[string]bool{}}
	if zzsym.Param("emits", 1) == 1 {
		m.acks = zzsym.Choice("acks", 2) == 1
	}
	if client {
		p, err := zzDialTo(e.client, DefaultParser, zzOpenPacket)
		zzsym.Assert(err == nil, "dial succeeds")
		e.peer = p
		zzsym.Quiesce()
		m.step(' ', "")
	} else {
		e.peer = zzConnect(e.server)
		m.step('0', "/")
	}
	if zzsym.Param("emits", 1) == 1 {
		m.emits()
	}
	for k := 0; k < zzsym.Param("packets", 3); k++ {
		t := zzsym.Byte("type")
		zzsym.Assume(t >= '0' && t <= '4')
		nsp, head := "/", ""
		if zzsym.Choice("root", 2) == 0 {
			c := zzsym.Byte("nsp")
			zzsym.Assume(c >= 'a' && c <= 'c')
			nsp = "/" + string([]byte{c})
			head = nsp + ","
		}
		e.peer.text(string([]byte{t}) + head + `["ev",1]`)
		zzsym.Quiesce()
		for _, n := range append([]string{"/c"}, zzKnown...) {
			if n == nsp {
				nsp = n
				break
			}
		}
		out := zzJoin(e.peer.texts())
		switch {
		case !zzIsKnown(nsp):
			m.step(' ', "")
			zzsym.Assert(client == (out == "") || t < '2' && out == "", "an unknown namespace is answered with an error, if at all")
			zzsym.Cover("unknown")
		case t == '0':
			m.step('0', nsp)
			w := "0"
			if nsp != "/" {
				w += nsp
			}
			if client {
				w = ""
			}
			zzsym.Assert(strings.TrimSuffix(out, ",") == w, "a server answers CONNECT with CONNECT")
		case t == '1':
			m.step('1', nsp)
			zzsym.Assert(out == "", "DISCONNECT is not answered")
		default:
			m.step(' ', "")
			zzsym.Assert(out == "", "an event, acknowledgement or error is not answered")
		}
		if zzsym.Param("emits", 1) == 1 {
			m.emits()
		}
	}
	switch zzsym.Choice("end", 4) {
	case 0:
		e.peer.c.WriteMessage(1, []byte("1"))
	case 1:
		e.peer.c.Close()
	case 2: // silence
		time.Sleep(zzInterval + zzTimeout + time.Second)
	default:
		if client {
			zzsym.Assert(e.client.Close() == nil, "Close succeeds")
		} else if so := e.sock["/"]; so != nil {
			zzsym.Assert(so.Close() == nil, "Close succeeds")
		} else {
			e.peer.c.Close()
		}
	}
	zzsym.Quiesce()
	m.step('x', "")
	e.peer.take()
	m.emits()
	zzsym.Cover("ended")
}

// ZZC13concurrent: the session is used and closed by others while the peer connects, disconnects and leaves.
func ZZC13concurrent() {
	client := zzsym.Choice("client", 2) == 1
	e := zzNewEnd(client, DefaultParser)
	for _, n := range zzKnown {
		e.watch(n).OnEvent("ev", func(int) {})
	}
	e.start(DefaultParser, "/a")
	so := e.sock["/a"]
	end := zzsym.Choice("end", 3)
	if zzsym.Param("races", 1) == 1 {
		zzsym.Races()
	}
	zzsym.Delays(zzsym.Param("delays", 2))
	go func() {
		for i := 0; i < 2; i++ {
			if err := so.Emit("ev", i); err == ErrorNamespaceUnavaialble {
				zzsym.Cover("emit refused")
			}
		}
		if end != 1 {
			if client {
				e.client.Close()
			} else {
				so.Close()
			}
		}
	}()
	go func() {
		for _, x := range []string{"1/a", "0/b", "0/a", "0/b", "1/b"} {
			e.peer.text(x)
		}
		if end == 1 {
			e.peer.c.WriteMessage(1, []byte("1"))
		} else if end == 2 {
			e.peer.c.Close()
		}
	}()
	zzsym.Quiesce()
	on := map[string]bool{"/": true, "/a": true}
	for _, c := range e.calls.cs {
		switch c.what {
		case "connect":
			zzsym.Assert(!on[c.nsp], "a connect is followed by a disconnect before another connect")
			on[c.nsp] = true
		case "disconnect":
			zzsym.Assert(on[c.nsp], "a disconnect is preceded by a connect")
			on[c.nsp] = false
		}
	}
	for _, n := range zzKnown {
		zzsym.Assert(!on[n], "every namespace is disconnected when the session has ended")
	}
	zzsym.Assert(so.Emit("ev", 1) == ErrorNamespaceUnavaialble, "Emit fails afterwards")
	zzsym.Cover("done")
}

// ZZC13many: one session connects many namespaces, some of which have no callbacks.
func ZZC13many() {
	client := zzsym.Choice("client", 2) == 1
	parser := zzParser()
	e := zzNewEnd(client, parser)
	k := zzsym.Param("namespaces", 10)
	names := []string{"/"}
	for i := 1; i < k; i++ {
		names = append(names, "/n"+strconv.Itoa(i*i*7))
	}
	bare := zzsym.Choice("bare", k)              // has no callbacks
	half := zzsym.Choice("without callbacks", 3) // what the next one lacks
	for i, n := range names {
		x := e.nsp(n)
		if i != bare {
			e.watch(n)
		}
		if i == (bare+1)%k {
			switch half {
			case 0:
				x.OnDisconnect(nil)
			case 1:
				x.OnError(nil)
			}
		}
		x.OnEvent("ev", func(so Socket, s string) { e.calls.add("ev "+s, so) })
	}
	e.peer = nil
	if client {
		p, err := zzDialTo(e.client, parser, zzOpenPacket)
		zzsym.Assert(err == nil, "dial succeeds")
		e.peer = p
		zzsym.Quiesce()
	} else {
		e.peer = zzAccept(e.server)
	}
	silent := func(what string, i int) bool {
		return i == bare || what == "disconnect" && half == 0 && i == (bare+1)%k
	}
	only := func(what string, i int) {
		cs := e.calls.cs
		if silent(what, i) {
			zzsym.Assert(len(cs) == 0, "a namespace without the callback reports nothing")
		} else {
			zzsym.Assert(len(cs) == 1 && cs[0].what == what && cs[0].nsp == names[i] && cs[0].sid == e.peer.sid, "reported once, to its own namespace only")
		}
		e.calls.clear()
		out := e.peer.packets(parser)
		if what == "connect" && !client {
			zzsym.Assert(len(out) == 1 && out[0].Type == PacketTypeConnect && out[0].Namespace == names[i], "CONNECT is answered with CONNECT for it")
		} else {
			zzsym.Assert(len(out) == 0, "and nothing is sent")
		}
	}
	for i, n := range names {
		if i > 0 || client {
			e.send(parser, &Packet{Type: PacketTypeConnect, Namespace: n})
			zzsym.Quiesce()
		}
		only("connect", i)
	}
	for i, n := range names {
		e.send(parser, &Packet{Type: PacketTypeEvent, Namespace: n, Data: []interface{}{"ev", n}})
		zzsym.Quiesce()
		cs := e.calls.cs
		zzsym.Assert(len(cs) == 1 && cs[0].what == "ev "+n && cs[0].nsp == names[i], "an event runs the handler of its namespace")
		e.calls.clear()
	}
	gone := zzsym.Choice("disconnected", k)
	e.send(parser, &Packet{Type: PacketTypeDisconnect, Namespace: names[gone]})
	zzsym.Quiesce()
	only("disconnect", gone)
	if zzsym.Choice("again", 2) == 1 {
		e.send(parser, &Packet{Type: PacketTypeConnect, Namespace: names[gone]})
		zzsym.Quiesce()
		only("connect", gone)
		gone = -1
	}
	switch zzsym.Choice("end", 2) {
	case 0:
		e.peer.c.WriteMessage(websocket.TextMessage, []byte("1"))
	default:
		e.peer.c.Close()
	}
	zzsym.Quiesce()
	n := make(map[string]int)
	for _, c := range e.calls.of("disconnect") {
		n[c.nsp]++
	}
	for i := range names {
		w := 1
		if i == gone || silent("disconnect", i) {
			w = 0
		}
		zzsym.Assert(n[names[i]] == w, "every namespace still connected gets one OnDisconnect")
	}
	zzsym.Assert(len(e.calls.of("connect")) == 0, "and nothing connects")
	zzsym.Cover("ended")
}
