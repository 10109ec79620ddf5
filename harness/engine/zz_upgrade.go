package engine

import (
	"sync"
	"time"

	"github.com/gorilla/websocket"
	"github.com/zyxar/socketio/zzsym"
)

// zzClient is a conforming client of one session: it polls until it upgrades,
// lets its last poll and post finish before it sends the upgrade packet, and
// then uses the websocket only.
type zzClient struct {
	s       *Server
	so      *Socket
	mu      sync.Mutex
	got     []Packet // messages in the order received, over either transport
	pausing bool
	polled  chan struct{} // closed when the poll loop has stopped
	bad     int           // polls answered with an error
	ws      *websocket.Conn
	wsEnd   bool
}

func (c *zzClient) keep(p Packet) {
	if p.pktType == PacketTypeMessage {
		c.mu.Lock()
		c.got = append(c.got, p)
		c.mu.Unlock()
	}
}

func (c *zzClient) pollLoop() {
	for {
		w := zzPoll(c.s, c.so)
		<-w.done
		if w.status != 200 {
			c.mu.Lock()
			c.bad++
			c.mu.Unlock()
			break
		}
		for _, p := range zzGot(w) {
			c.keep(p)
		}
		c.mu.Lock()
		stop := c.pausing
		c.mu.Unlock()
		if stop {
			break
		}
	}
	close(c.polled)
}

func (c *zzClient) wsLoop() {
	for {
		t, b, err := c.ws.ReadMessage()
		if err != nil {
			c.mu.Lock()
			c.wsEnd = true
			c.mu.Unlock()
			return
		}
		if len(b) == 0 {
			continue
		}
		if t == websocket.TextMessage {
			c.keep(Packet{msgType: MessageTypeString, pktType: PacketType(b[0] - '0'), data: b[1:]})
		} else {
			c.keep(Packet{msgType: MessageTypeBinary, pktType: PacketType(b[0]), data: b[1:]})
		}
	}
}

// ZZC19out: messages emitted before, during and after a successful upgrade.
func ZZC19out() {
	n := zzsym.Param("messages", 2)
	s, l := zzServer()
	so := zzOpenPoll(s, l)
	before := zzsym.Choice("emitted before", n+1)
	want := make([]Packet, n)
	for i := range want {
		want[i] = Packet{msgType: MessageType(i % 2), pktType: PacketTypeMessage, data: zzsym.Bytes("data", 1)}
	}
	emit := func(p Packet) {
		zzsym.Assert(so.Emit(EventMessage, p.msgType, append([]byte(nil), p.data...)) == nil, "Emit on a live session succeeds")
	}
	for _, p := range want[:before] {
		emit(p)
	}
	zzsym.Quiesce()
	if zzsym.Param("age", 1) == 1 {
		time.Sleep(zzTimeout + time.Second) // the deadline of what has been written before is over
	}
	c := &zzClient{s: s, so: so, polled: make(chan struct{})}
	poll := zzsym.Choice("polling", 2) == 1
	if zzsym.Param("races", 1) == 1 {
		zzsym.Races()
	}
	zzsym.Delays(zzsym.Param("delays", 2))
	if poll {
		go c.pollLoop()
	} else {
		close(c.polled)
	}
	go func() {
		for _, p := range want[before:] {
			emit(p)
		}
	}()
	w := zzGo(s, zzReq("GET", "EIO=3&transport=websocket&sid="+so.Sid(), zzWsHeader(), nil))
	<-w.hij
	c.ws = w.client
	zzsym.Assert(c.ws.WriteMessage(websocket.TextMessage, []byte("2probe")) == nil, "probe sent")
	_, b, err := c.ws.ReadMessage()
	zzsym.Assert(err == nil && string(b) == "3probe", "probe answered")
	c.mu.Lock()
	c.pausing = true
	c.mu.Unlock()
	<-c.polled
	zzsym.Assert(c.ws.WriteMessage(websocket.TextMessage, []byte("5")) == nil, "upgrade sent")
	go c.wsLoop()
	zzsym.Quiesce()
	zzsym.Assert(w.finished(), "upgrade finished")
	zzsym.Assert(c.bad == 0, "no poll before the switch is refused")
	zzSamePackets(c.got, want, "messages received")
	zzsym.Assert(!c.wsEnd, "websocket stays open")
	zzsym.Assert(len(l.of(so, EventClose)) == 0, "not reported closed")
	zzsym.Assert(len(l.of(so, EventUpgrade)) == 1, "upgrade reported once")
	// the session now uses the websocket
	zzsym.Sequential()
	emit(Packet{msgType: MessageTypeString, data: []byte("after")})
	zzWsSend(c.ws, Packet{msgType: MessageTypeString, pktType: PacketTypePing})
	zzsym.Quiesce()
	zzsym.Assert(len(c.got) == n+1 && string(c.got[n].data) == "after", "later messages use the websocket")
	zzsym.Assert(len(l.of(so, EventPing)) == 1, "pings over the websocket are handled")
	zzsym.Assert(len(l.evs) == 2, "nothing else is reported")
	zzsym.Cover("upgraded")
}

// ZZC19in: messages posted before the switch and sent over the websocket after it.
func ZZC19in() {
	n := zzsym.Param("messages", 2)
	s, l := zzServer()
	so := zzOpenPoll(s, l)
	want := make([]Packet, n+1)
	for i := range want {
		want[i] = Packet{msgType: MessageTypeString, pktType: PacketTypeMessage, data: zzsym.Bytes("data", 1)}
	}
	split := zzsym.Choice("posts", n) // one post of split+1 messages, then the others one by one
	if zzsym.Param("races", 1) == 1 {
		zzsym.Races()
	}
	zzsym.Delays(zzsym.Param("delays", 2))
	posted := make(chan struct{})
	go func() {
		ok := true
		first := zzPost(s, so, false, want[:split+1]...)
		<-first.done
		ok = ok && first.status == 200
		for _, p := range want[split+1 : n] {
			x := zzPost(s, so, false, p)
			<-x.done
			ok = ok && x.status == 200
		}
		zzsym.Assert(ok, "posts before the switch are accepted")
		close(posted)
	}()
	w := zzGo(s, zzReq("GET", "EIO=3&transport=websocket&sid="+so.Sid(), zzWsHeader(), nil))
	<-w.hij
	ws := w.client
	zzsym.Assert(ws.WriteMessage(websocket.TextMessage, []byte("2probe")) == nil, "probe sent")
	_, b, err := ws.ReadMessage()
	zzsym.Assert(err == nil && string(b) == "3probe", "probe answered")
	<-posted
	zzsym.Assert(ws.WriteMessage(websocket.TextMessage, []byte("5")) == nil, "upgrade sent")
	zzWsSend(ws, want[n])
	zzsym.Quiesce()
	zzsym.Assert(w.finished(), "upgrade finished")
	got := l.of(so, EventMessage)
	zzsym.Assert(len(got) == len(want), "every message reported once")
	for i := range got {
		zzsym.Assert(zzsym.EqBytes(got[i].data, want[i].data), "messages reported in order")
	}
	zzsym.Assert(len(l.of(so, EventClose)) == 0, "not reported closed")
	zzsym.Assert(!ws.ZZPeerClosed(), "websocket stays open")
	zzsym.Assert(len(l.of(so, EventUpgrade)) == 1 && len(l.evs) == len(want)+1, "the upgrade is reported, and nothing else")
	zzsym.Cover("upgraded")
}

// ZZC19kinds: packets of other types wait to be polled as the session is upgraded.
func ZZC19kinds() {
	s, l := zzServer()
	so := zzOpenPoll(s, l)
	var want []Packet
	pings := 0
	put := func() {
		switch zzsym.Choice("packet", 3) {
		case 0:
			p := Packet{msgType: MessageType(zzsym.Choice("kind", 2)), pktType: PacketTypePing, data: zzsym.Bytes("ping data", zzsym.Choice("ping length", 3))}
			w := zzPost(s, so, true, p)
			zzsym.Quiesce()
			zzsym.Assert(w.finished() && w.status == 200, "posts before the switch are accepted")
			p.pktType = PacketTypePong
			want = append(want, p)
			pings++
		case 1:
			p := Packet{msgType: MessageType(zzsym.Choice("kind", 2)), pktType: PacketTypeMessage, data: zzsym.Bytes("data", zzsym.Choice("length", 3))}
			zzsym.Assert(so.Emit(EventMessage, p.msgType, append([]byte(nil), p.data...)) == nil, "Emit on a live session succeeds")
			zzsym.Quiesce()
			want = append(want, p)
		default:
			p := Packet{msgType: MessageTypeString, pktType: PacketTypePing, data: []byte{'p'}}
			zzsym.Assert(so.Emit(EventPing, p.msgType, append([]byte(nil), p.data...)) == nil, "Emit on a live session succeeds")
			zzsym.Quiesce()
			want = append(want, p)
		}
	}
	n := zzsym.Param("packets", 3)
	early := zzsym.Choice("before the probe", n+1)
	for i := 0; i < early; i++ {
		put()
	}
	w := zzGo(s, zzReq("GET", "EIO=3&transport=websocket&sid="+so.Sid(), zzWsHeader(), nil))
	zzsym.Quiesce()
	ws := w.client
	zzWsSend(ws, Packet{msgType: MessageTypeString, pktType: PacketTypePing, data: []byte("probe")})
	zzsym.Quiesce()
	_, b, err := ws.ReadMessage()
	zzsym.Assert(err == nil && string(b) == "3probe", "probe answered")
	for i := early; i < n; i++ {
		put()
	}
	zzWsSend(ws, Packet{msgType: MessageTypeString, pktType: PacketTypeUpgrade})
	zzsym.Quiesce()
	zzsym.Assert(w.finished(), "upgrade finished")
	zzSamePackets(zzWsGot(ws), want, "packets received")
	zzsym.Assert(len(l.of(so, EventUpgrade)) == 1 && len(l.of(so, EventPing)) == pings && len(l.evs) == 1+pings, "the pings and the upgrade are reported, and nothing else")
	zzsym.Assert(!ws.ZZPeerClosed(), "websocket stays open")
	zzsym.Cover("upgraded")
}

// zzPoller polls like a client whose network takes a moment: it waits after a noop.
func (c *zzClient) slowPollLoop(stop *bool) {
	for {
		w := zzPoll(c.s, c.so)
		<-w.done
		if w.status != 200 {
			c.mu.Lock()
			c.bad++
			c.mu.Unlock()
			return
		}
		noop := false
		for _, p := range zzGot(w) {
			c.keep(p)
			noop = noop || p.pktType == PacketTypeNoop
		}
		c.mu.Lock()
		s := *stop
		c.mu.Unlock()
		if s {
			return
		}
		if noop {
			time.Sleep(time.Second)
		}
	}
}

// ZZC20fail: a candidate connection that fails at any step, then one that succeeds.
func ZZC20fail() {
	s, l := zzServer()
	so := zzOpenPoll(s, l)
	how := 0
	if x := zzsym.Param("silence", 0); x == 2 {
		how = 10
	} else if x == 1 {
		how = 6 + zzsym.Choice("how", 2)
	} else if how = zzsym.Choice("how", 8); how >= 6 {
		how += 2
	}
	n := 3
	want := make([]Packet, n)
	for i := range want {
		want[i] = Packet{msgType: MessageType(i % 2), pktType: PacketTypeMessage, data: append([]byte{byte(i)}, zzsym.Bytes("data", 1)...)}
	}
	emit := func(p Packet) {
		zzsym.Assert(so.Emit(EventMessage, p.msgType, append([]byte(nil), p.data...)) == nil, "Emit on a live session succeeds")
	}
	t := zzsym.Byte("type")
	c := &zzClient{s: s, so: so}
	stop := false
	if zzsym.Param("races", 1) == 1 {
		zzsym.Races()
	}
	zzsym.Delays(zzsym.Param("delays", 1))
	go c.slowPollLoop(&stop)
	go func() {
		emit(want[0])
		emit(want[1])
	}()
	posted := make(chan struct{})
	go func() {
		for i := byte(0); i < 2; i++ {
			w := zzPost(s, so, i == 1, zzMsg('p', i))
			<-w.done
			zzsym.Assert(w.status == 200, "posts are accepted")
		}
		close(posted)
	}()
	w := zzGo(s, zzReq("GET", "EIO=3&transport=websocket&sid="+so.Sid(), zzWsHeader(), nil))
	<-w.hij
	ws := w.client
	probe := Packet{msgType: MessageTypeString, pktType: PacketTypePing, data: []byte("probe")}
	pong := func() {
		zzWsSend(ws, probe)
		_, b, err := ws.ReadMessage()
		zzsym.Assert(err == nil && string(b) == "3probe", "probe answered")
	}
	switch how {
	case 0: // leaves at once
		ws.Close()
	case 1: // anything but a ping first
		zzsym.Assume(t <= 9 && t != 2)
		zzWsSend(ws, Packet{msgType: MessageTypeString, pktType: PacketType(t)})
	case 2: // an empty frame
		ws.WriteMessage(websocket.TextMessage, nil)
	case 3: // cannot be written to
		w.server.ZZFailWrites()
		zzWsSend(ws, probe)
	case 4: // leaves after the probe
		pong()
		ws.Close()
	case 5: // anything but an upgrade second
		zzsym.Assume(t <= 9 && t != 5)
		pong()
		zzWsSend(ws, Packet{msgType: MessageType(zzsym.Choice("kind", 2)), pktType: PacketType(t)})
	case 6, 7, 10: // says nothing
		if how == 7 {
			pong()
		}
		if how == 10 { // nor reads
			ws.ZZStall(true)
			zzWsSend(ws, probe)
		}
		for i := 0; i < 5; i++ {
			time.Sleep(zzInterval)
			x := zzPost(s, so, true, Packet{msgType: MessageTypeString, pktType: PacketTypePing})
			<-x.done
			zzsym.Assert(x.status == 200, "posts are accepted")
		}
	case 8: // sends the probe and leaves without waiting
		zzWsSend(ws, probe)
		ws.Close()
	case 9: // an empty frame second
		pong()
		ws.WriteMessage(websocket.BinaryMessage, nil)
	}
	<-posted
	zzsym.Quiesce()
	zzsym.Assert(w.finished() && ws.ZZPeerClosed(), "the candidate is closed")
	extra := zzWsGot(ws)
	if how == 8 && len(extra) == 1 && extra[0].pktType == PacketTypePong {
		extra = nil
	}
	zzsym.Assert(len(extra) == 0 && w.afterwards == 0, "the candidate gets nothing else")
	zzsym.Sequential()
	// the session goes on
	emit(want[2])
	time.Sleep(2 * time.Second)
	zzsym.Quiesce()
	zzsym.Assert(c.bad == 0, "polls are answered")
	zzSamePackets(c.got, want, "messages polled")
	got := l.of(so, EventMessage)
	zzsym.Assert(len(got) == 2 && got[0].data[1] == 0 && got[1].data[1] == 1, "posted messages are reported once, in order")
	zzsym.Assert(len(l.of(so, EventClose)) == 0, "the session is not closed")
	zzsym.Assert(len(l.of(so, EventUpgrade)) == 0, "no upgrade is reported")
	// a later upgrade succeeds
	w2 := zzGo(s, zzReq("GET", "EIO=3&transport=websocket&sid="+so.Sid(), zzWsHeader(), nil))
	<-w2.hij
	zzWsSend(w2.client, probe)
	zzsym.Quiesce()
	_, b, err := w2.client.ReadMessage()
	zzsym.Assert(err == nil && string(b) == "3probe", "later probe answered")
	c.mu.Lock()
	stop = true
	c.mu.Unlock()
	zzsym.Quiesce()
	zzWsSend(w2.client, Packet{msgType: MessageTypeString, pktType: PacketTypeUpgrade})
	zzsym.Quiesce()
	emit(want[0])
	zzWsSend(w2.client, zzMsg('z'))
	zzsym.Quiesce()
	zzSamePackets(zzWsGot(w2.client), want[:1], "message after the later upgrade")
	zzsym.Assert(len(l.of(so, EventMessage)) == 3 && len(l.of(so, EventUpgrade)) == 1 && len(l.of(so, EventClose)) == 0, "the later upgrade succeeds")
	zzsym.Cover("failed and went on")
}

// ZZC20two: two candidates at the same time; at most one wins and nothing is lost.
func ZZC20two() {
	s, l := zzServer()
	so := zzOpenPoll(s, l)
	want := []Packet{zzMsg(0, 1), zzMsg(1, 2)}
	if zzsym.Param("races", 1) == 1 {
		zzsym.Races()
	}
	zzsym.Delays(zzsym.Param("delays", 1))
	go func() {
		for _, p := range want {
			zzsym.Assert(so.Emit(EventMessage, p.msgType, p.data) == nil, "Emit on a live session succeeds")
		}
	}()
	var w [2]*zzW
	var done [2]chan bool
	for i := range w {
		i := i
		done[i] = make(chan bool, 1)
		w[i] = zzGo(s, zzReq("GET", "EIO=3&transport=websocket&sid="+so.Sid(), zzWsHeader(), nil))
	}
	var ws [2]*websocket.Conn
	for i := range w {
		i := i
		go func() {
			select {
			case <-w[i].hij:
			case <-w[i].done: // the session had been upgraded already
				done[i] <- false
				return
			}
			c := w[i].client
			ws[i] = c
			zzWsSend(c, Packet{msgType: MessageTypeString, pktType: PacketTypePing, data: []byte("probe")})
			_, b, err := c.ReadMessage()
			if err != nil {
				done[i] <- false
				return
			}
			zzsym.Assert(string(b) == "3probe", "probe answered")
			zzWsSend(c, Packet{msgType: MessageTypeString, pktType: PacketTypeUpgrade})
			done[i] <- true
		}()
	}
	<-done[0]
	<-done[1]
	zzsym.Quiesce()
	zzsym.Assert(len(l.of(so, EventUpgrade)) == 1, "one upgrade is reported")
	zzsym.Assert(len(l.of(so, EventClose)) == 0, "the session is not closed")
	zzsym.Assert(w[0].finished() && w[1].finished(), "both requests end")
	open := 0
	for _, c := range ws {
		if c != nil && !c.ZZPeerClosed() {
			open++
			zzSamePackets(zzWsGot(c), want, "messages over the winning connection")
		}
	}
	zzsym.Assert(open == 1, "the losing candidate is closed")
	zzsym.Cover("two candidates")
}

// ZZC20ends: the session ends while a candidate is being probed.
func ZZC20ends() {
	s, l := zzServer()
	so := zzOpenPoll(s, l)
	if zzsym.Param("races", 1) == 1 {
		zzsym.Races()
	}
	zzsym.Delays(zzsym.Param("delays", 2))
	w := zzGo(s, zzReq("GET", "EIO=3&transport=websocket&sid="+so.Sid(), zzWsHeader(), nil))
	ending := make(chan struct{})
	server := zzsym.Choice("ended by", 2) == 0
	accepted := true
	go func() {
		if server {
			so.Close()
		} else {
			x := zzPost(s, so, false, Packet{msgType: MessageTypeString, pktType: PacketTypeClose})
			<-x.done
			accepted = x.status == 200
		}
		close(ending)
	}()
	go func() {
		select {
		case <-w.hij:
			zzWsSend(w.client, Packet{msgType: MessageTypeString, pktType: PacketTypePing, data: []byte("probe")})
			w.client.ReadMessage()
			zzWsSend(w.client, Packet{msgType: MessageTypeString, pktType: PacketTypeUpgrade})
		case <-w.done:
		}
	}()
	<-ending
	zzsym.Quiesce()
	if !accepted { // the switch came first: the session goes on
		zzsym.Assert(len(l.of(so, EventClose)) == 0 && len(l.of(so, EventUpgrade)) == 1, "not closed")
		zzsym.Assert(w.finished() && w.client != nil && !w.client.ZZPeerClosed(), "goes on over the websocket")
		return
	}
	zzsym.Assert(len(l.of(so, EventClose)) == 1, "reported closed once")
	zzsym.Assert(w.finished() && (w.client == nil || w.client.ZZPeerClosed()), "no connection is left open")
	zzsym.Cover("ended while upgrading")
}

// ZZC18upgrade: requests that arrive while the connection of their session is replaced.
func ZZC18upgrade() {
	s, l := zzServer()
	so := zzOpenPoll(s, l)
	n := zzsym.Param("posts", 2)
	each := 1 + zzsym.Choice("messages each", 2)
	if zzsym.Param("races", 1) == 1 {
		zzsym.Races()
	}
	zzsym.Delays(zzsym.Param("delays", 2))
	var accepted []byte
	posted := make(chan struct{})
	go func() {
		for i := 0; i < n; i++ {
			var ps []Packet
			for k := 0; k < each; k++ {
				ps = append(ps, zzMsg(byte(i*each+k)))
			}
			x := zzPost(s, so, false, ps...)
			<-x.done
			if x.status == 200 {
				for k := 0; k < each; k++ {
					accepted = append(accepted, byte(i*each+k))
				}
			} else {
				zzsym.Assert(x.status >= 400, "a request is accepted or refused")
			}
		}
		close(posted)
	}()
	w := zzGo(s, zzReq("GET", "EIO=3&transport=websocket&sid="+so.Sid(), zzWsHeader(), nil))
	<-w.hij
	ws := w.client
	zzsym.Assert(ws.WriteMessage(websocket.TextMessage, []byte("2probe")) == nil, "probe sent")
	_, b, err := ws.ReadMessage()
	zzsym.Assert(err == nil && string(b) == "3probe", "probe answered")
	zzsym.Assert(ws.WriteMessage(websocket.TextMessage, []byte("5")) == nil, "upgrade sent")
	zzWsSend(ws, zzMsg(99))
	<-posted
	zzsym.Quiesce()
	zzsym.Assert(w.finished(), "upgrade finished")
	got := l.of(so, EventMessage)
	k := 0
	for i, e := range got {
		if e.data[0] == 99 {
			zzsym.Assert(i == len(got)-1, "what is sent over the new connection comes last")
			continue
		}
		if k < len(accepted) && e.data[0] == accepted[k] {
			k++
		} else { // the first of the messages of a request that was cut short
			zzsym.Assert(each > 1, "what was refused is not handed over")
		}
	}
	zzsym.Assert(k == len(accepted), "what was accepted is handed over, once, in order")
	zzsym.Assert(len(got) > 0 && got[len(got)-1].data[0] == 99, "the new connection is in use")
	zzsym.Assert(len(l.of(so, EventClose)) == 0, "not reported closed")
	if k == n*each {
		zzsym.Cover("all accepted")
	} else {
		zzsym.Cover("some refused")
	}
}

// ZZC15response: a client that is not there for the response of a poll, and polls on or upgrades.
func ZZC15response() {
	s, l := zzServer()
	so := zzOpenPoll(s, l)
	n := zzsym.Param("messages", 3)
	lost := zzsym.Choice("lost poll", n+1)
	broken := 1 + zzsym.Choice("broken", 4)
	query := "EIO=3&transport=polling&sid=" + so.Sid() + []string{"", "&b64=1", "&j=0"}[zzsym.Choice("encoding", 3)]
	late := zzsym.Choice("emitted late", 2) == 1 // the poll waits for the message
	upgrade := zzsym.Choice("upgrade", 2) == 1
	if zzsym.Param("races", 1) == 1 {
		zzsym.Races()
	}
	zzsym.Delays(zzsym.Param("delays", 1))
	var got []byte
	refused := false
	emit := func(i int) { so.Emit(EventMessage, MessageTypeString, []byte{'0' + byte(i)}) }
	if !late {
		for i := 0; i < n; i++ {
			emit(i)
		}
	}
	for i := 0; i < n; i++ {
		if late {
			go emit(i)
		}
		if i == lost {
			w := zzGoBroken(s, zzReq("GET", query, nil, nil), broken)
			zzsym.Quiesce()
			zzsym.Assert(w.finished(), "the poll whose client left ends")
			if late && broken == 4 {
				zzsym.Cover("left before there was something")
			}
		}
		if upgrade && i >= lost {
			break
		}
		w := zzPoll(s, so)
		zzsym.Quiesce()
		if !w.finished() {
			w.cancel()
			zzsym.Quiesce()
			break
		}
		if w.status != 200 {
			refused = true
			break
		}
		for _, p := range zzGot(w) {
			got = append(got, p.data...)
		}
	}
	if upgrade {
		w := zzGo(s, zzReq("GET", "EIO=3&transport=websocket&sid="+so.Sid(), zzWsHeader(), nil))
		zzsym.Quiesce()
		if w.client == nil {
			refused = true
		} else {
			w.client.WriteMessage(websocket.TextMessage, []byte("2probe"))
			zzsym.Quiesce()
			w.client.WriteMessage(websocket.TextMessage, []byte("5"))
			for i := 0; late && i < n; i++ {
				if i > lost {
					go emit(i)
				}
			}
			zzsym.Quiesce()
			for _, p := range zzWsGot(w.client) {
				if p.pktType == PacketTypeMessage {
					got = append(got, p.data...)
				}
			}
			refused = w.client.ZZPeerClosed()
		}
	}
	if !late { // one emitter
		for i := range got {
			zzsym.Assert(int(got[i]) == '0'+i, "what arrives arrives in order, without a gap")
		}
	}
	seen := map[byte]bool{}
	for _, b := range got {
		zzsym.Assert(!seen[b], "once")
		seen[b] = true
	}
	ends := len(l.of(so, EventClose))
	if len(got) < n {
		zzsym.Assert(ends == 1, "a session that lost a packet ends")
		w := zzPoll(s, so)
		zzsym.Quiesce()
		zzsym.Assert(w.finished() && w.status >= 400, "and is forgotten")
		zzsym.Assert(so.Emit(EventMessage, MessageTypeString, "x") != nil, "Emit fails")
		zzsym.Cover("ended")
	} else {
		zzsym.Assert(ends == 0 && !refused, "a session that lost nothing goes on")
		zzsym.Cover("goes on")
	}
}
