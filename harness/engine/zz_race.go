package engine

import (
	"github.com/gorilla/websocket"
	"github.com/zyxar/socketio/zzsym"
)

var zzOps = []string{"emit", "header", "who", "in", "post", "on", "open", "refused", "poll", "upgrade", "candidate", "close packet", "gone", "close", "stop"}

// ZZC28engine: operations of an engine server, its sessions and their peers, at the same time.
func ZZC28engine() {
	s, l := zzServer()
	ws := zzsym.Choice("transport", 2) == 0
	var so *Socket
	var c *websocket.Conn
	if ws {
		so, c = zzOpenWs(s, l)
	} else {
		so = zzOpenPoll(s, l)
	}
	n := zzsym.Param("ops", 2)
	did := map[string]int{}
	var ops []string
	last := 0
	for i := 0; i < n; i++ {
		k := zzsym.Choice("operation", len(zzOps)-last) + last
		last = k
		op := zzOps[k]
		switch op {
		case "post", "poll", "upgrade", "candidate":
			zzsym.Assume(!ws)
		case "in", "gone":
			zzsym.Assume(ws)
		}
		zzsym.Assume(op != "upgrade" || did["upgrade"] == 0)
		zzsym.Assume(op != "poll" || did["poll"] == 0)
		zzsym.Assume(op != "gone" || did["gone"] == 0)
		did[op]++
		ops = append(ops, op)
	}
	zzsym.Assume(did["upgrade"] == 0 || did["post"]+did["poll"]+did["close packet"] == 0) // a client that keeps to the protocol
	if zzsym.Param("races", 1) == 1 {
		zzsym.Races()
	}
	zzsym.Delays(zzsym.Param("delays", 2))
	done := make(chan struct{}, n)
	var up *websocket.Conn
	opened := make([]*zzW, 0, n)
	var poll *zzW
	refused := make([]bool, n)
	for i, op := range ops {
		i := i
		var f func()
		switch op {
		case "emit":
			f = func() { refused[i] = so.Emit(EventMessage, MessageTypeBinary, []byte{1}) != nil }
		case "header":
			f = func() {
				so.SetHeader("X-A", "a")
				zzsym.Assert(so.GetHeader("x-a") == "a", "a header set is seen")
			}
		case "who":
			f = func() {
				zzsym.Assert(so.LocalAddr().String() != "" && so.RemoteAddr().String() != "" && so.Sid() != "", "addresses and id are there")
			}
		case "in":
			f = func() { zzWsSend(c, zzMsg('m')) }
		case "post":
			f = func() { <-zzPost(s, so, true, zzMsg('m')).done }
		case "on":
			f = func() {
				s.On(EventMessage, Callback(func(so *Socket, typ MessageType, data []byte) {
					l.add(zzEv{so, EventMessage, typ, append([]byte(nil), data...)})
				}))
				s.On("other", Callback(func(*Socket, MessageType, []byte) {}))
			}
		case "open":
			f = func() {
				w := zzGo(s, zzReq("GET", "EIO=3&transport=websocket", zzWsHeader(), nil))
				l.mu.Lock()
				opened = append(opened, w)
				l.mu.Unlock()
				<-w.done
			}
		case "refused":
			f = func() {
				w := zzGo(s, zzReq("GET", "EIO=3&transport=polling&sid=nobody", nil, nil))
				<-w.done
				zzsym.Assert(w.status == 400, "refused")
			}
		case "poll":
			f = func() { w := zzPoll(s, so); <-w.done; poll = w }
		case "upgrade":
			f = func() {
				w := zzGo(s, zzReq("GET", "EIO=3&transport=websocket&sid="+so.Sid(), zzWsHeader(), nil))
				select {
				case <-w.done: // the session had ended
					if w.client == nil {
						return
					}
				case <-w.hij:
				}
				zzWsSend(w.client, Packet{msgType: MessageTypeString, pktType: PacketTypePing})
				zzWsSend(w.client, Packet{msgType: MessageTypeString, pktType: PacketTypeUpgrade})
				<-w.done
				up = w.client
			}
		case "candidate":
			f = func() {
				w := zzGo(s, zzReq("GET", "EIO=3&transport=websocket&sid="+so.Sid(), zzWsHeader(), nil))
				select {
				case <-w.done:
					if w.client == nil {
						return
					}
				case <-w.hij:
				}
				zzWsSend(w.client, Packet{msgType: MessageTypeString, pktType: PacketTypePing})
				w.client.Close()
				<-w.done
			}
		case "close packet":
			f = func() {
				if ws {
					zzWsSend(c, Packet{msgType: MessageTypeString, pktType: PacketTypeClose})
				} else {
					<-zzPost(s, so, true, Packet{msgType: MessageTypeString, pktType: PacketTypeClose}).done
				}
			}
		case "gone":
			f = func() { c.Close() }
		case "close":
			f = func() { so.Close() }
		case "stop":
			f = func() { s.Close() }
		}
		go func() {
			f()
			done <- struct{}{}
		}()
	}
	zzsym.Quiesce()
	ends := did["close packet"]+did["gone"]+did["close"] > 0
	zzsym.Sequential()
	emitted := did["emit"]
	if did["poll"] == 1 && poll == nil && emitted == 0 && !ends { // it waits for a packet
		so.Emit(EventMessage, MessageTypeBinary, []byte{1})
		emitted++
		zzsym.Quiesce()
	}
	zzsym.Assert(len(done) == n, "every call returns")
	if ends {
		zzsym.Assert(len(l.of(so, EventClose)) == 1, "the end is reported once")
		zzsym.Assert(so.Emit(EventMessage, MessageTypeString, "late") != nil, "Emit fails afterwards")
	} else {
		zzsym.Assert(len(l.of(so, EventClose)) == 0, "the session goes on")
		zzsym.Assert(len(l.of(so, EventMessage)) == did["in"]+did["post"], "what the peer sent is reported")
		var got []Packet
		if up != nil {
			got = zzWsGot(up)
			zzsym.Assert(len(got) > 0 && got[0].pktType == PacketTypePong, "probe answered")
			got = got[1:]
		} else if ws {
			got = zzWsGot(c)
		} else {
			if poll != nil {
				got = zzGot(poll)
				for len(got) > 0 && got[0].pktType == PacketTypeNoop {
					got = got[1:]
				}
			}
			for len(got) < emitted {
				w := zzPoll(s, so)
				zzsym.Quiesce()
				zzsym.Assert(w.finished() && w.status == 200, "what is outstanding can be polled")
				got = append(got, zzGot(w)...)
			}
		}
		zzsym.Assert(len(got) == emitted, "what was emitted arrives")
		for _, r := range refused {
			zzsym.Assert(!r, "Emit on a live session succeeds")
		}
	}
	for _, w := range opened {
		zzsym.Assert(did["stop"] > 0 || w.client != nil && w.client.ZZPending() == 1, "sessions are opened")
	}
	if did["stop"] == 0 {
		zzsym.Assert(len(l.open) == 1+len(opened), "opened sessions are reported")
		zzOpenWs(s, l)
	}
	for _, op := range ops {
		zzsym.Cover(op)
	}
}
