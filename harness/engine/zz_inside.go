package engine

import (
	"time"

	"github.com/gorilla/websocket"
	"github.com/zyxar/socketio/zzsym"
)

var zzInsideKinds = []string{"open", "message", "ping", "pong", "close packet", "silence", "closed", "gone", "upgrade"}

// ZZC22engine: methods of a socket from within the handlers of an engine server.
func ZZC22engine() {
	kind := zzInsideKinds[zzsym.Choice("handler", len(zzInsideKinds))]
	method := zzsym.Choice("method", 9)
	ws := zzsym.Choice("transport", 2) == 0
	zzsym.Assume(!(ws && kind == "upgrade") && !(!ws && kind == "gone"))
	ran, returned, closes := 0, 0, false
	var s *Server
	use := func(so *Socket) {
		ran++
		switch method {
		case 0:
			so.Emit(EventMessage, MessageTypeBinary, []byte("x"))
		case 1:
			so.Close()
			closes = true
		case 2:
			so.SetHeader("K", "v")
			zzsym.Assert(so.GetHeader("k") == "v", "headers set can be read")
		case 3:
			so.Sid()
			so.LocalAddr()
			so.RemoteAddr()
		case 4:
			for i := 0; i < 20; i++ {
				so.Send("x")
			}
		case 5:
			so.Send("x")
			so.Close()
			so.Close()
			so.Send("x")
			closes = true
		case 6:
			so.Emit(EventPing, MessageTypeString, nil)
			so.Emit(EventClose, MessageTypeString, nil)
		case 7:
			s.On("other", Callback(func(*Socket, MessageType, []byte) {}))
		case 8:
			zzsym.Assert(s.Close() == nil, "Close succeeds")
		}
		returned++
	}
	var l zzLog
	var so *Socket
	var err error
	s, err = NewServer(zzInterval, zzTimeout, func(x *Socket) {
		l.mu.Lock()
		l.open = append(l.open, x)
		first := so == nil
		so = x
		l.mu.Unlock()
		if first && kind == "open" {
			use(x)
		}
	})
	zzsym.Assert(err == nil, "server starts")
	for ev, ks := range map[event][]string{EventMessage: {"message"}, EventPing: {"ping"}, EventPong: {"pong"}, EventUpgrade: {"upgrade"}, EventClose: {"close packet", "silence", "closed", "gone"}} {
		ev, ks := ev, ks
		s.On(ev, Callback(func(x *Socket, typ MessageType, data []byte) {
			l.add(zzEv{x, ev, typ, nil})
			for _, k := range ks {
				if k == kind {
					use(x)
				}
			}
		}))
	}
	explore := func() {
		if zzsym.Param("delays", 0) > 0 {
			if zzsym.Param("races", 1) == 1 {
				zzsym.Races()
			}
			zzsym.Delays(zzsym.Param("delays", 0))
		}
	}
	if kind == "open" {
		explore()
	}
	var c *websocket.Conn
	stop := false
	if ws {
		w := zzGo(s, zzReq("GET", "EIO=3&transport=websocket", zzWsHeader(), nil))
		zzsym.Quiesce()
		zzsym.Assert(w.client != nil, "websocket accepted")
		c = w.client
	} else {
		w := zzGo(s, zzReq("GET", "EIO=3&transport=polling", nil, nil))
		zzsym.Quiesce()
		zzsym.Assert(w.finished(), "poll answered")
		if kind != "silence" {
			go func() { // the peer keeps polling
				for !stop {
					w := zzPoll(s, so)
					<-w.done
					if w.status != 200 {
						return
					}
					for _, p := range zzGot(w) {
						if p.pktType == PacketTypeNoop {
							time.Sleep(time.Second)
						}
					}
				}
			}()
		}
	}
	zzsym.Quiesce()
	if kind != "open" {
		explore()
	}
	send := func(p Packet) {
		if c != nil {
			zzWsSend(c, p)
		} else {
			zzPost(s, so, true, p)
		}
	}
	switch kind {
	case "message":
		send(zzMsg('m'))
	case "ping":
		send(Packet{msgType: MessageTypeString, pktType: PacketTypePing})
	case "pong":
		send(Packet{msgType: MessageTypeString, pktType: PacketTypePong})
	case "close packet":
		send(Packet{msgType: MessageTypeString, pktType: PacketTypeClose})
	case "silence":
		time.Sleep(zzInterval + zzTimeout + time.Second)
	case "closed":
		so.Close()
	case "gone":
		c.Close()
	case "upgrade":
		w := zzGo(s, zzReq("GET", "EIO=3&transport=websocket&sid="+so.Sid(), zzWsHeader(), nil))
		<-w.hij
		c = w.client
		zzWsSend(c, Packet{msgType: MessageTypeString, pktType: PacketTypePing, data: []byte("probe")})
		c.ReadMessage()
		zzsym.Quiesce()
		stop = true
		zzWsSend(c, Packet{msgType: MessageTypeString, pktType: PacketTypeUpgrade})
	}
	zzsym.Quiesce()
	if method == 4 && !ws && kind == "silence" {
		time.Sleep(40 * zzTimeout)
		zzsym.Quiesce()
	}
	zzsym.Assert(ran == 1 && returned == 1, "the call returns")
	ends := closes || kind == "close packet" || kind == "silence" || kind == "closed" || kind == "gone"
	stop = true
	if ends {
		zzsym.Assert(len(l.of(so, EventClose)) == 1, "the end is reported once")
		if c != nil {
			zzsym.Assert(c.ZZPeerClosed(), "the connection is closed")
		}
	} else {
		send(zzMsg('n'))
		zzsym.Quiesce()
		want := 1
		if kind == "message" {
			want = 2
		}
		zzsym.Assert(len(l.of(so, EventMessage)) == want, "the session goes on")
	}
	old := so
	w := zzGo(s, zzReq("GET", "EIO=3&transport=websocket", zzWsHeader(), nil))
	zzsym.Quiesce()
	if method == 8 {
		zzsym.Assert(zzC26refused(w) && so == old, "the server is closed")
	} else {
		zzsym.Assert(w.client != nil && so != old, "the server goes on")
	}
	zzsym.Cover(kind)
}
