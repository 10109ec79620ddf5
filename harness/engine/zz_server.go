package engine

import (
	"bytes"
	"encoding/json"

	"github.com/gorilla/websocket"
	"github.com/zyxar/socketio/zzsym"
)

// ZZC16ws: packets of any kind, type and data on a websocket session.
func ZZC16ws() {
	n := zzsym.Param("packets", 2)
	dl := zzsym.Param("len", 1)
	s, l := zzServer()
	other, oc := zzOpenWs(s, l)
	so, c := zzOpenWs(s, l)
	var ps []Packet
	for i := 0; i < n; i++ {
		ps = append(ps, Packet{msgType: MessageType(zzsym.Choice("kind", 2)), pktType: PacketType(zzsym.Byte("type")), data: zzsym.Bytes("data", zzsym.Choice("len", dl+1))})
	}
	for _, p := range ps {
		zzWsSend(c, p)
	}
	zzsym.Quiesce()
	zzC16expect(l, so, ps, append([]Packet{}, zzWsGot(c)...), c.ZZPeerClosed())
	zzsym.Assert(oc.ZZPending() == 0 && !oc.ZZPeerClosed(), "other session untouched")
	for _, e := range l.evs {
		zzsym.Assert(e.so != other, "nothing reported to the other session")
	}
}

// zzC16expect compares what was reported and answered with what packets of
// these types must cause.
func zzC16expect(l *zzLog, so *Socket, ps, back []Packet, closed bool) {
	var want []zzEv
	var pongs []Packet
	ended := false
	for _, p := range ps {
		if ended {
			break
		}
		switch p.pktType {
		case PacketTypeClose:
			ended = true
			want = append(want, zzEv{so, EventClose, p.msgType, p.data})
		case PacketTypePing:
			want = append(want, zzEv{so, EventPing, p.msgType, p.data})
			pongs = append(pongs, Packet{msgType: p.msgType, pktType: PacketTypePong, data: p.data})
		case PacketTypePong:
			want = append(want, zzEv{so, EventPong, p.msgType, p.data})
		case PacketTypeMessage:
			want = append(want, zzEv{so, EventMessage, p.msgType, p.data})
		}
	}
	zzsym.Assert(closed == ended, "session ended exactly by a close packet")
	if back != nil || !ended {
		zzSamePackets(back, pongs, "answers")
	}
	var got []zzEv
	for _, e := range l.evs {
		if e.so == so {
			got = append(got, e)
		}
	}
	zzsym.Assert(len(got) == len(want), "number of events reported")
	for i := range got {
		zzsym.Assert(got[i].ev == want[i].ev, "event")
		if got[i].ev != EventClose {
			zzsym.Assert(got[i].typ == want[i].typ, "kind reported")
			zzsym.Assert(zzsym.EqBytes(got[i].data, want[i].data), "data reported")
		}
	}
	if len(ps) > 0 {
		zzsym.Cover("packets handled")
	}
	_ = websocket.TextMessage
}

// ZZC16poll: packets of the seven types posted to a polling session, in one
// body or several.
func ZZC16poll() {
	n := zzsym.Param("packets", 3)
	dl := zzsym.Param("len", 1)
	s, l := zzServer()
	other := zzOpenPoll(s, l)
	so := zzOpenPoll(s, l)
	var ps []Packet
	for i := 0; i < n; i++ {
		p := Packet{msgType: MessageType(zzsym.Choice("kind", 2)), pktType: PacketType(zzsym.Byte("type")), data: zzsym.Bytes("data", zzsym.Choice("len", dl+1))}
		zzsym.Assume(p.pktType <= PacketTypeNoop)
		ps = append(ps, p)
	}
	xhr2 := zzsym.Choice("binary", 2) == 1
	closed := false
	if zzsym.Choice("one body", 2) == 1 {
		w := zzPost(s, so, xhr2, ps...)
		zzsym.Quiesce()
		zzsym.Assert(w.finished(), "post answered")
	} else {
		for _, p := range ps {
			w := zzPost(s, so, xhr2, p)
			zzsym.Quiesce()
			zzsym.Assert(w.finished() && (closed || w.status == 200), "post accepted")
			closed = closed || p.pktType == PacketTypeClose
		}
	}
	closed = false
	for _, p := range ps {
		closed = closed || p.pktType == PacketTypeClose
	}
	var back []Packet
	ended := false
	if !closed {
		for len(back) < n {
			w := zzPoll(s, so)
			zzsym.Quiesce()
			if !w.finished() {
				w.cancel()
				break
			}
			zzsym.Assert(w.status == 200, "poll answered")
			back = append(back, zzGot(w)...)
		}
		zzC16expect(l, so, ps, back, ended)
	} else {
		w := zzPoll(s, so)
		zzsym.Quiesce()
		ended = w.finished() && w.status >= 400
		// what is left unsent on a session the peer closed is nobody's
		zzC16expect(l, so, ps, nil, ended)
	}
	for _, e := range l.evs {
		zzsym.Assert(e.so != other, "nothing reported to the other session")
	}
	zzsym.Cover("posted")
}

// ZZC16two: two sessions whose peers send at the same time.
func ZZC16two() {
	s, l := zzServer()
	so1, c1 := zzOpenWs(s, l)
	var so2 *Socket
	var c2 *websocket.Conn
	poll := zzsym.Choice("transport", 2) == 1
	if poll {
		so2 = zzOpenPoll(s, l)
	} else {
		so2, c2 = zzOpenWs(s, l)
	}
	d := zzsym.Bytes("data", 4)
	mk := func(k int) []Packet {
		return []Packet{
			{msgType: MessageTypeString, pktType: PacketTypeMessage, data: d[k : k+1]},
			{msgType: MessageTypeBinary, pktType: PacketTypePing, data: d[k+1 : k+2]},
			{msgType: MessageTypeBinary, pktType: PacketTypeMessage, data: d[k+1 : k+2]},
		}
	}
	p1, p2 := mk(0), mk(2)
	last := zzsym.Choice("close", 2) == 1
	if last {
		p1 = append(p1, Packet{msgType: MessageTypeString, pktType: PacketTypeClose})
	}
	if zzsym.Param("races", 1) == 1 {
		zzsym.Races()
	}
	zzsym.Delays(zzsym.Param("delays", 2))
	go func() {
		for _, p := range p1 {
			zzWsSend(c1, p)
		}
	}()
	if poll {
		go func() {
			w := zzPost(s, so2, true, p2...)
			<-w.done
			zzsym.Assert(w.status == 200, "post accepted")
		}()
	} else {
		go func() {
			for _, p := range p2 {
				zzWsSend(c2, p)
			}
		}()
	}
	zzsym.Quiesce()
	var g1, g2 []Packet
	if !last {
		g1 = append([]Packet{}, zzWsGot(c1)...)
	}
	zzC16expect(l, so1, p1, g1, c1.ZZPeerClosed())
	closed := false
	if poll {
		w := zzPoll(s, so2)
		zzsym.Quiesce()
		zzsym.Assert(w.finished() && w.status == 200, "poll answered")
		g2 = zzGot(w)
	} else {
		g2 = append([]Packet{}, zzWsGot(c2)...)
		closed = c2.ZZPeerClosed()
	}
	zzC16expect(l, so2, p2, g2, closed)
	zzsym.Cover("both")
}

// ZZC17many: requests that open sessions at the same time.
func ZZC17many() {
	s, l := zzServer()
	n := zzsym.Param("sessions", 3)
	ws := make([]*zzW, n)
	if zzsym.Param("races", 1) == 1 {
		zzsym.Races()
	}
	zzsym.Delays(zzsym.Param("delays", 2))
	for i := range ws {
		if i%2 == 0 {
			ws[i] = zzGo(s, zzReq("GET", "EIO=3&transport=websocket", zzWsHeader(), nil))
		} else {
			ws[i] = zzGo(s, zzReq("GET", "EIO=3&transport=polling", nil, nil))
		}
	}
	zzsym.Quiesce()
	zzsym.Assert(len(l.open) == n, "each request creates exactly one session")
	seen := map[string]bool{}
	for i, w := range ws {
		var ps []Packet
		if i%2 == 0 {
			zzsym.Assert(w.client != nil, "websocket accepted")
			ps = zzWsGot(w.client)
		} else {
			zzsym.Assert(w.finished() && w.status == 200, "polling accepted")
			ps = zzGot(w)
		}
		zzsym.Assert(len(ps) == 1 && ps[0].pktType == PacketTypeOpen, "the first packet is open")
		var p Parameters
		zzsym.Assert(json.NewDecoder(bytes.NewReader(ps[0].data)).Decode(&p) == nil, "it is JSON")
		zzsym.Assert(!seen[p.SID], "with an id of its own")
		seen[p.SID] = true
		var so *Socket
		for _, x := range l.open {
			if x.Sid() == p.SID {
				so = x
			}
		}
		zzsym.Assert(so != nil, "of a session reported open")
		m := zzMsg('m', byte(i))
		if i%2 == 0 {
			zzWsSend(w.client, m)
		} else {
			w2 := zzPost(s, so, true, m)
			zzsym.Quiesce()
			zzsym.Assert(w2.finished() && w2.status == 200, "post accepted")
		}
		zzsym.Quiesce()
		es := l.of(so, EventMessage)
		zzsym.Assert(len(es) == 1 && string(es[0].data) == string([]byte{'m', byte(i)}), "to which its connection belongs")
	}
	zzsym.Cover("opened")
}
