package engine

import (
	"bytes"
	"encoding/json"
	"time"

	"github.com/gorilla/websocket"
	"github.com/zyxar/socketio/zzsym"
)

func zzMsg(b ...byte) Packet {
	return Packet{msgType: MessageTypeString, pktType: PacketTypeMessage, data: b}
}

// ZZC15emit: goroutines emitting on one session, nothing closed.
func ZZC15emit() {
	gs := zzsym.Param("emitters", 2)
	n := zzsym.Param("messages", 2)
	s, l := zzServer()
	ws := zzsym.Choice("transport", 2) == 0
	var so *Socket
	var c *websocket.Conn
	if ws {
		so, c = zzOpenWs(s, l)
	} else {
		so = zzOpenPoll(s, l)
	}
	kinds := make([]MessageType, gs*n)
	data := make([][]byte, gs*n)
	for i := range data {
		kinds[i] = MessageType(i % 2)
		data[i] = append([]byte{byte(i)}, zzsym.Bytes("data", 1)...)
	}
	if zzsym.Param("races", 1) == 1 {
		zzsym.Races()
	}
	zzsym.Delays(zzsym.Param("delays", 2))
	for g := 0; g < gs; g++ {
		g := g
		go func() {
			for i := g * n; i < g*n+n; i++ {
				zzsym.Assert(so.Emit(EventMessage, kinds[i], data[i]) == nil, "Emit on a live session succeeds")
			}
		}()
	}
	var got []Packet
	if ws {
		zzsym.Quiesce()
		got = zzWsGot(c)
	} else {
		for len(got) < gs*n {
			w := zzPoll(s, so)
			zzsym.Quiesce()
			if !w.finished() {
				break
			}
			zzsym.Assert(w.status == 200, "poll answered")
			got = append(got, zzGot(w)...)
		}
	}
	zzC15order(got, kinds, data, gs, n, gs*n)
	zzsym.Cover("emitted")
}

func zzC15order(got []Packet, kinds []MessageType, data [][]byte, gs, n, atLeast int) {
	zzsym.Assert(len(got) >= atLeast, "nothing lost")
	next := make([]int, gs)
	for _, p := range got {
		zzsym.Assert(p.pktType == PacketTypeMessage && len(p.data) == 2, "only messages, whole")
		i := int(p.data[0])
		zzsym.Assert(i < gs*n, "only what was emitted")
		g := i / n
		zzsym.Assert(next[g] <= i%n, "in order, no duplicates")
		next[g] = i%n + 1
		zzsym.Assert(p.msgType == kinds[i], "kind preserved")
		zzsym.Assert(zzsym.EqBytes(p.data, data[i]), "data preserved")
	}
}

// ZZC15close: closing concurrently with emits, and repeatedly.
func ZZC15close() {
	n := zzsym.Param("messages", 2)
	s, l := zzServer()
	so, c := zzOpenWs(s, l)
	before := zzsym.Choice("emitted before", zzsym.Param("before", 2)+1)
	data := make([][]byte, before+n)
	kinds := make([]MessageType, before+n)
	for i := range data {
		kinds[i] = MessageType(i % 2)
		data[i] = append([]byte{byte(i)}, zzsym.Bytes("data", 1)...)
	}
	closers := 1 + zzsym.Choice("closers", 2)
	peer := zzsym.Choice("peer closes", 2) == 1
	accepted := make([]bool, before+n)
	if zzsym.Param("races", 1) == 1 {
		zzsym.Races()
	}
	zzsym.Delays(zzsym.Param("delays", 2))
	for i := 0; i < before; i++ {
		accepted[i] = so.Emit(EventMessage, kinds[i], data[i]) == nil
		zzsym.Assert(accepted[i], "Emit before Close succeeds")
	}
	emitted := make(chan struct{})
	go func() {
		for i := before; i < before+n; i++ {
			accepted[i] = so.Emit(EventMessage, kinds[i], data[i]) == nil
		}
		close(emitted)
	}()
	if peer {
		zzWsSend(c, Packet{msgType: MessageTypeString, pktType: PacketTypeClose})
	}
	closed := make(chan struct{}, closers)
	for i := 0; i < closers; i++ {
		go func() {
			so.Close()
			zzsym.Assert(so.Emit(EventMessage, MessageTypeString, "late") != nil, "Emit fails after Close")
			closed <- struct{}{}
		}()
	}
	for i := 0; i < closers; i++ {
		<-closed
	}
	<-emitted
	zzsym.Quiesce()
	so.Close()
	zzsym.Assert(so.Emit(EventMessage, MessageTypeString, "late") != nil, "Emit fails after Close")
	want := 0
	for _, a := range accepted {
		if a {
			want++
		}
	}
	got := zzWsGot(c)
	zzC15order(got, kinds, data, 1, before+n, want)
	for _, p := range got {
		zzsym.Assert(accepted[p.data[0]], "refused packets are not sent")
	}
	zzsym.Assert(c.ZZPeerClosed(), "connection closed")
	zzsym.Assert(len(l.of(so, EventClose)) == 1, "reported closed once")
	zzsym.Cover("closed")
}

// ZZC15full: a session whose peer does not read fills up; emitting and closing still return in the end.
func ZZC15full() {
	s, l := zzServer()
	so := zzOpenPoll(s, l)
	n := zzsym.Param("messages", 20)
	done := make(chan int, 1)
	go func() {
		ok := 0
		for i := 0; i < n; i++ {
			if so.Emit(EventMessage, MessageTypeString, []byte{'m', byte(i)}) == nil {
				ok++
			}
		}
		done <- ok
	}()
	zzsym.Quiesce()
	if zzsym.Choice("then", 2) == 0 {
		for i := 0; i < n; i++ {
			w := zzPoll(s, so)
			zzsym.Quiesce()
			zzsym.Assert(w.finished(), "poll answered")
			g := zzGot(w)
			zzsym.Assert(len(g) == 1 && int(g[0].data[1]) == i, "in order")
		}
		zzsym.Assert(<-done == n, "all accepted")
		return
	}
	so.Close()
	<-done
	zzsym.Quiesce()
	zzsym.Assert(so.Emit(EventMessage, MessageTypeString, "late") != nil, "Emit fails after Close")
	zzsym.Assert(zzPoll(s, so) != nil, "")
	zzsym.Cover("closed")
}

// ZZC15args: what Emit makes of its argument.
func ZZC15args() {
	s, l := zzServer()
	so, c := zzOpenWs(s, l)
	kind := MessageType(zzsym.Choice("kind", 2))
	b := zzsym.Bytes("data", zzsym.Choice("len", 3))
	evs := []event{EventOpen, EventClose, EventPing, EventPong, EventMessage}
	types := []PacketType{PacketTypeOpen, PacketTypeClose, PacketTypePing, PacketTypePong, PacketTypeMessage}
	e := zzsym.Choice("event", len(evs))
	var arg interface{}
	want := b
	switch zzsym.Choice("arg", 4) {
	case 0:
		arg = b
	case 1:
		arg = string(b)
	case 2:
		arg = map[string]int{"a": 7}
		want = []byte(`{"a":7}`)
	case 3:
		arg = func() {}
		zzsym.Assert(so.Emit(evs[e], kind, arg) != nil, "an argument that cannot be encoded is refused")
		zzsym.Quiesce()
		zzsym.Assert(len(zzWsGot(c)) == 0, "and not sent")
		return
	}
	zzsym.Assert(so.Emit(evs[e], kind, arg) == nil, "accepted")
	zzsym.Quiesce()
	zzSamePackets(zzWsGot(c), []Packet{{msgType: kind, pktType: types[e], data: want}}, "sent")
	zzsym.Assert(so.Send(arg) == nil, "accepted")
	zzsym.Quiesce()
	zzSamePackets(zzWsGot(c), []Packet{{msgType: MessageTypeString, pktType: PacketTypeMessage, data: want}}, "sent")
}

// ZZC21id: ids and the random bytes they are made of.
func ZZC21id() {
	zzsym.SymRand()
	s, l := zzServer()
	so1, _ := zzOpenWs(s, l)
	r1 := zzsym.RandDrawn()
	so2, _ := zzOpenWs(s, l)
	r := zzsym.RandDrawn()
	r2 := r[len(r1):]
	zzsym.Assert(len(r1) >= 10 && len(r2) >= 10, "at least 80 random bits")
	id1, id2 := so1.Sid(), so2.Sid()
	zzsym.Assert(len(r1) == len(r2) && len(id1) == len(id2), "ids of one shape")
	zzsym.Assert(zzsym.Or(!zzsym.EqString(id1, id2), zzsym.EqBytes(r1, r2)), "ids differ when their random bits do")
	ok := true
	for i := 0; i < len(id1); i++ {
		c := id1[i]
		ok = zzsym.And(ok, zzsym.Or(zzsym.And(c >= '0', c <= '9'), zzsym.Or(zzsym.And(c >= 'a', c <= 'z'), zzsym.Or(zzsym.And(c >= 'A', c <= 'Z'), zzsym.Or(c == '-', c == '_')))))
	}
	zzsym.Assert(ok, "ids are safe in a URL")
	zzsym.Cover("ids")
}

// ZZC21end: every way a session ends, on both transports.
func ZZC21end() {
	s, l := zzServer()
	other, oc := zzOpenWs(s, l)
	live := zzsym.LiveGoroutines()
	ws := zzsym.Choice("transport", 2) == 0
	how := zzsym.Choice("how", 6)
	var so *Socket
	var c *websocket.Conn
	var server *websocket.Conn
	var pend *zzW
	if ws {
		w := zzOpenWsW(s, l)
		so, c, server = l.last(), w.client, w.server
		if zzsym.Choice("close fails", 2) == 1 {
			server.ZZFailClose()
		}
	} else {
		so = zzOpenPoll(s, l)
		if zzsym.Choice("poll pending", 2) == 1 {
			pend = zzPoll(s, so)
			zzsym.Quiesce()
		}
	}
	if zzsym.Param("races", 1) == 1 {
		zzsym.Races()
	}
	zzsym.Delays(zzsym.Param("delays", 2))
	switch how {
	case 0: // the peer sends a close packet
		p := Packet{msgType: MessageTypeString, pktType: PacketTypeClose}
		if ws {
			zzWsSend(c, p)
		} else {
			zzPost(s, so, false, p)
		}
	case 1: // a close packet with something behind it
		p := Packet{msgType: MessageTypeString, pktType: PacketTypeClose}
		if ws {
			zzWsSend(c, p)
			zzWsSend(c, zzMsg('x'))
		} else {
			zzPost(s, so, false, p, zzMsg('x'))
		}
	case 2: // the connection breaks
		if !ws {
			return
		}
		c.Close()
	case 3: // the server closes it
		so.Close()
	case 4: // both ends at the same time
		if ws {
			go c.Close()
		} else {
			zzPost(s, so, false, Packet{msgType: MessageTypeString, pktType: PacketTypeClose})
		}
		so.Close()
	case 5: // the peer sends a close packet while the server has something it cannot write
		if !ws {
			return
		}
		server.ZZFailWrites()
		go so.Emit(EventMessage, MessageTypeString, "x")
		zzWsSend(c, Packet{msgType: MessageTypeString, pktType: PacketTypeClose})
	}
	zzsym.Quiesce()
	zzC21ended(s, l, so, c)
	zzsym.Assert(len(l.of(so, EventMessage)) == 0, "nothing is reported after the close packet")
	if pend != nil {
		zzsym.Assert(pend.finished(), "a waiting poll ends with the session")
	}
	zzsym.Sequential()
	zzsym.Assert(zzsym.LiveGoroutines() == live, "nothing of the session is left running")
	zzWsSend(oc, Packet{msgType: MessageTypeString, pktType: PacketTypePing})
	zzsym.Quiesce()
	zzsym.Assert(oc.ZZPending() == 1 && len(l.of(other, EventClose)) == 0, "the other session goes on")
	zzsym.Cover("ended")
}

func zzC21ended(s *Server, l *zzLog, so *Socket, c *websocket.Conn) {
	zzsym.Assert(len(l.of(so, EventClose)) == 1, "reported closed once")
	if c != nil {
		zzsym.Assert(c.ZZPeerClosed(), "its connection is closed")
	}
	zzsym.Assert(so.Emit(EventMessage, MessageTypeString, "late") != nil, "Emit fails afterwards")
	for _, q := range []string{"EIO=3&transport=polling&sid=", "EIO=3&transport=websocket&sid="} {
		w := zzGo(s, zzReq("GET", q+so.Sid(), zzWsHeader(), nil))
		zzsym.Quiesce()
		zzsym.Assert(w.finished() && w.status >= 400 && w.status < 500 && w.client == nil, "its id is no longer accepted")
	}
}

// ZZC21silence: the heartbeat.
func ZZC21silence() {
	s, l := zzServer()
	transport := zzsym.Choice("transport", 3)
	ws := transport != 1
	var so *Socket
	var c *websocket.Conn
	gaps := []time.Duration{time.Second, zzInterval, zzInterval + zzTimeout - time.Second}
	if transport == 0 {
		so, c = zzOpenWs(s, l)
	} else {
		so = zzOpenPoll(s, l)
	}
	if transport == 2 { // upgraded, in time
		time.Sleep(gaps[zzsym.Choice("gap", len(gaps))])
		c = zzUpgrade(s, so)
		zzsym.Assert(len(l.of(so, EventUpgrade)) == 1, "upgraded")
	}
	beats := zzsym.Choice("heartbeats", 3)
	for i := 0; i < beats; i++ {
		time.Sleep(gaps[zzsym.Choice("gap", len(gaps))])
		zzsym.Quiesce()
		zzsym.Assert(len(l.of(so, EventClose)) == 0, "not dropped while the heartbeat is kept")
		p := Packet{msgType: MessageTypeString, pktType: PacketTypePing}
		if ws {
			zzWsSend(c, p)
			zzsym.Quiesce()
			g := zzWsGot(c)
			zzsym.Assert(len(g) == 1 && g[0].pktType == PacketTypePong, "pinged session answers")
		} else {
			w := zzPost(s, so, true, p)
			zzsym.Quiesce()
			zzsym.Assert(w.finished() && w.status == 200, "post accepted")
			w = zzPoll(s, so)
			zzsym.Quiesce()
			zzsym.Assert(w.finished() && w.status == 200, "poll answered")
			g := zzGot(w)
			zzsym.Assert(len(g) == 1 && g[0].pktType == PacketTypePong, "pinged session answers")
		}
	}
	time.Sleep(zzInterval + zzTimeout - time.Second)
	zzsym.Quiesce()
	zzsym.Assert(len(l.of(so, EventClose)) == 0, "not dropped before interval plus timeout")
	time.Sleep(2 * time.Second)
	zzsym.Quiesce()
	zzC21ended(s, l, so, c)
	zzsym.Cover("timed out")
}

// ZZC21early: a peer that sends, or leaves, the moment its session exists.
func ZZC21early() {
	l := &zzLog{}
	var order []string
	s, err := NewServer(zzInterval, zzTimeout, func(so *Socket) {
		l.mu.Lock()
		l.open = append(l.open, so)
		order = append(order, "open")
		l.mu.Unlock()
	})
	zzsym.Assert(err == nil, "server starts")
	for _, ev := range []event{EventMessage, EventClose} {
		ev := ev
		s.On(ev, Callback(func(so *Socket, typ MessageType, data []byte) {
			l.mu.Lock()
			order = append(order, string(ev))
			l.mu.Unlock()
		}))
	}
	if zzsym.Param("races", 1) == 1 {
		zzsym.Races()
	}
	zzsym.Delays(zzsym.Param("delays", 2))
	w := zzGo(s, zzReq("GET", "EIO=3&transport=websocket", zzWsHeader(), nil))
	<-w.hij
	t, b, rerr := w.client.ReadMessage()
	zzsym.Assert(rerr == nil && t == websocket.TextMessage && b[0] == '0', "first packet is open")
	var p Parameters
	zzsym.Assert(json.NewDecoder(bytes.NewReader(b[1:])).Decode(&p) == nil, "open packet is JSON")
	zzWsSend(w.client, zzMsg('a'))
	zzsym.Quiesce()
	w.client.Close()
	zzsym.Quiesce()
	zzsym.Assert(len(order) == 3 && order[0] == "open" && order[1] == "message" && order[2] == "close", "open, message, close reported in this order")
	zzsym.Cover("early")
}

// ZZC15stall: a connection that takes no more packets, for a while or for good, of a peer that goes on
// sending: what the peer gets is what was emitted up to some point, and if that is not all of it the session has
// ended.
func ZZC15stall() {
	s, l := zzServer()
	other, oc := zzOpenWs(s, l)
	ws := zzsym.Choice("transport", 2) == 0
	var so *Socket
	var c *websocket.Conn
	var got []Packet
	var data [][]byte
	alive := Packet{msgType: MessageTypeString, pktType: PacketTypeNoop}
	send := func(upto int) {
		for len(data) < upto {
			d := []byte{byte(len(data)), zzsym.Byte("data")}
			data = append(data, d)
			so.Emit(EventMessage, MessageTypeBinary, d)
		}
		zzsym.Quiesce()
	}
	if ws {
		w := zzOpenWsW(s, l)
		so, c = l.last(), w.client
		k := zzsym.Choice("writes before", 3)
		send(k)
		fails := zzsym.Choice("fails", 5)
		switch fails {
		case 1:
			w.server.ZZFailWrites()
		case 2:
			c.Close()
		case 3, 4:
			c.ZZStall(true)
		}
		send(k + 1 + zzsym.Choice("writes after", 2))
		if fails == 3 { // the peer reads again in time
			time.Sleep(zzTimeout - time.Second)
			c.ZZStall(false)
			zzsym.Quiesce()
		} else if fails == 4 { // or too late
			time.Sleep(zzTimeout + time.Second)
			c.ZZStall(false)
			zzsym.Quiesce()
			zzsym.Assert(c.ZZPeerClosed(), "a session whose peer does not read ends")
		}
		if fails != 2 {
			for i := 0; i < 4; i++ {
				zzWsSend(c, alive)
				time.Sleep(zzInterval)
			}
			zzsym.Quiesce()
			got = zzWsGot(c)
		}
	} else {
		so = zzOpenPoll(s, l)
		ks := []int{1, 8, 9, zzsym.Param("messages", 12)}
		k := ks[zzsym.Choice("messages", len(ks))]
		send(k)
		for i := zzsym.Choice("silence", 4); i > 0; i-- {
			time.Sleep(zzInterval)
			zzPost(s, so, true, alive)
			zzsym.Quiesce()
		}
		send(k + 1)
		for len(got) < len(data) {
			w := zzPoll(s, so)
			zzsym.Quiesce()
			if !w.finished() || w.status != 200 {
				break
			}
			got = append(got, zzGot(w)...)
		}
	}
	zzsym.Quiesce()
	zzsym.Assert(len(got) <= len(data), "only what was emitted")
	for i, p := range got {
		zzsym.Assert(len(p.data) == 2 && int(p.data[0]) == i && p.data[1] == data[i][1], "what arrives is what was emitted, without a gap")
	}
	if len(got) < len(data) {
		zzC21ended(s, l, so, nil)
		zzsym.Cover("ended")
	} else {
		zzsym.Assert(len(l.of(so, EventClose)) == 0, "a session that lost nothing goes on")
		zzsym.Cover("went on")
	}
	zzsym.Assert(oc.ZZPending() == 0 && len(l.of(other, EventMessage)) == 0, "nothing of it reaches the other session")
}

// ZZC15broken: an upgrade to a websocket that takes no packets when the switch comes.
func ZZC15broken() {
	s, l := zzServer()
	so := zzOpenPoll(s, l)
	k, m := zzsym.Choice("emitted before", 3), zzsym.Choice("emitted after", 3)
	emit := func(i int) {
		so.Emit(EventMessage, MessageTypeString, []byte{byte(i)})
		zzsym.Quiesce()
	}
	for i := 0; i < k; i++ {
		emit(i)
	}
	w := zzGo(s, zzReq("GET", "EIO=3&transport=websocket&sid="+so.Sid(), zzWsHeader(), nil))
	<-w.hij
	ws := w.client
	zzWsSend(ws, Packet{msgType: MessageTypeString, pktType: PacketTypePing, data: []byte("probe")})
	_, b, err := ws.ReadMessage()
	zzsym.Assert(err == nil && string(b) == "3probe", "probe answered")
	w.server.ZZFailWrites()
	zzWsSend(ws, Packet{msgType: MessageTypeString, pktType: PacketTypeUpgrade})
	zzsym.Quiesce()
	for i := 0; i < m; i++ {
		emit(k + i)
	}
	for i := 0; i < 4; i++ {
		zzWsSend(ws, Packet{msgType: MessageTypeString, pktType: PacketTypeNoop})
		time.Sleep(zzInterval)
	}
	zzsym.Quiesce()
	zzsym.Assert(len(zzWsGot(ws)) == 0, "nothing arrives")
	if k+m > 0 {
		zzC21ended(s, l, so, ws)
		zzsym.Cover("ended")
	} else {
		zzsym.Assert(len(l.of(so, EventClose)) == 0, "a session that lost nothing goes on")
	}
}
