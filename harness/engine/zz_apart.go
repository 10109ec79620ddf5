package engine

import (
	"io"
	"net/http"
	"time"

	"github.com/gorilla/websocket"
	"github.com/zyxar/socketio/zzsym"
)

// zzUpgrade upgrades a polling session whose peer polls no more.
func zzUpgrade(s *Server, so *Socket) *websocket.Conn {
	w := zzGo(s, zzReq("GET", "EIO=3&transport=websocket&sid="+so.Sid(), zzWsHeader(), nil))
	<-w.hij
	c := w.client
	zzWsSend(c, Packet{msgType: MessageTypeString, pktType: PacketTypePing, data: []byte("probe")})
	_, b, err := c.ReadMessage()
	zzsym.Assert(err == nil && string(b) == "3probe", "probe answered")
	zzWsSend(c, Packet{msgType: MessageTypeString, pktType: PacketTypeUpgrade})
	zzsym.Quiesce()
	return c
}

// zzStalled is a body that does not arrive, after some bytes.
type zzStalled struct {
	b    []byte
	wait chan struct{}
}

func (r *zzStalled) Read(p []byte) (int, error) {
	if len(r.b) > 0 {
		n := copy(p, r.b)
		r.b = r.b[n:]
		return n, nil
	}
	<-r.wait
	return 0, io.ErrUnexpectedEOF
}
func (*zzStalled) Close() error { return nil }

var zzStuck = []string{"opening", "message", "ping", "close", "unread websocket", "unread polling", "candidate before probe", "candidate after probe", "poll", "body", "posts", "origin", "unread candidate"}

// ZZC27stuck: sessions of a server on which something of another session is stuck.
func ZZC27stuck() {
	wait := make(chan struct{})
	stuck := zzStuck[zzsym.Choice("stuck", len(zzStuck))]
	l := &zzLog{}
	var bad *Socket
	hold := func(ev string) {
		if stuck == ev {
			<-wait
		}
	}
	s, err := NewServer(zzInterval, zzTimeout, func(so *Socket) {
		l.mu.Lock()
		l.open = append(l.open, so)
		if bad == nil {
			bad = so
		}
		first := bad == so
		l.mu.Unlock()
		if first {
			hold("opening")
		}
	}, zzSlowOrigin(func(origin string) {
		if origin == "slow" {
			hold("origin")
		}
	}))
	zzsym.Assert(err == nil, "server starts")
	for _, ev := range []event{EventMessage, EventClose, EventPing, EventUpgrade} {
		ev := ev
		s.On(ev, Callback(func(so *Socket, typ MessageType, data []byte) {
			l.add(zzEv{so, ev, typ, append([]byte(nil), data...)})
			if so == bad {
				hold(string(ev))
			}
		}))
	}
	var other *Socket
	var oc *websocket.Conn
	before := false
	// the session that goes wrong
	pws := zzsym.Choice("stuck transport", 2) == 0
	switch stuck {
	case "unread polling", "candidate before probe", "candidate after probe", "poll", "body", "posts", "unread candidate":
		zzsym.Assume(!pws)
	case "unread websocket", "origin":
		zzsym.Assume(pws)
	}
	var bc *websocket.Conn
	if pws {
		w := zzGo(s, zzReq("GET", "EIO=3&transport=websocket", zzWsHeader(), nil))
		zzsym.Quiesce()
		bc = w.client
		bc.ZZTake()
	} else {
		zzGo(s, zzReq("GET", "EIO=3&transport=polling", nil, nil))
		zzsym.Quiesce()
	}
	zzsym.Assert(len(l.open) == 1, "session reported open")
	kind := zzsym.Choice("transport", 3)
	open := func() {
		if kind == 0 {
			other, oc = zzOpenWs(s, l)
		} else {
			other = zzOpenPoll(s, l)
		}
		if kind == 2 {
			oc = zzUpgrade(s, other)
		}
	}
	if before = zzsym.Choice("order", 2) == 0; before {
		open()
	}
	send := func(p Packet) {
		if bc != nil {
			zzWsSend(bc, p)
		} else {
			zzPost(s, bad, true, p)
		}
	}
	switch stuck {
	case "message":
		send(zzMsg('m'))
	case "ping":
		send(Packet{msgType: MessageTypeString, pktType: PacketTypePing})
	case "close":
		if zzsym.Choice("end", 2) == 0 {
			send(Packet{msgType: MessageTypeString, pktType: PacketTypeClose})
		} else {
			time.Sleep(zzInterval + zzTimeout + time.Second)
			zzsym.Assume(!before)
		}
	case "unread websocket":
		bc.ZZStall(true)
		go func() {
			for i := 0; i < 12; i++ {
				bad.Send("x")
			}
		}()
		send(Packet{msgType: MessageTypeString, pktType: PacketTypePing})
	case "unread polling":
		go func() {
			for i := 0; i < 20; i++ {
				bad.Send("x")
			}
		}()
		send(Packet{msgType: MessageTypeString, pktType: PacketTypePing})
	case "candidate before probe", "candidate after probe", "unread candidate":
		w := zzGo(s, zzReq("GET", "EIO=3&transport=websocket&sid="+bad.Sid(), zzWsHeader(), nil))
		<-w.hij
		if stuck == "unread candidate" {
			w.client.ZZStall(true)
		}
		if stuck != "candidate before probe" {
			zzWsSend(w.client, Packet{msgType: MessageTypeString, pktType: PacketTypePing, data: []byte("probe")})
		}
	case "poll":
		zzPoll(s, bad)
		zzPoll(s, bad)
	case "body":
		r := zzReq("POST", "EIO=3&transport=polling&sid="+bad.Sid(), map[string][]string{"Content-Type": {"application/octet-stream"}}, nil)
		r.Body = &zzStalled{b: []byte{0, 9, 0xff, '4'}, wait: wait}
		zzGo(s, r)
	case "posts":
		stuck = "message"
		ps := make([]Packet, 12)
		for i := range ps {
			ps[i] = zzMsg('p')
		}
		zzPost(s, bad, true, ps...)
	case "origin":
		h := zzWsHeader()
		h["Origin"] = []string{"slow"}
		q := "transport=websocket"
		if zzsym.Choice("origin of", 2) == 0 {
			q, h = "transport=polling", map[string][]string{"Origin": {"slow"}}
		}
		zzGo(s, zzReq("GET", "EIO=3&"+q, h, nil))
	}
	if stuck == "candidate before probe" || stuck == "candidate after probe" {
		switch zzsym.Choice("also", 3) {
		case 0:
			zzsym.Quiesce()
			zzPoll(s, bad)
		case 1:
			zzsym.Quiesce()
			zzPost(s, bad, true, zzMsg('q'))
		}
	}
	if zzsym.Choice("wait", 2) == 0 {
		zzsym.Quiesce() // what is stuck is stuck before the other does anything
	}
	if zzsym.Param("delays", 0) > 0 {
		if zzsym.Param("races", 1) == 1 {
			zzsym.Races()
		}
		zzsym.Delays(zzsym.Param("delays", 0))
	}
	now := time.Now()
	if !before {
		open()
	}
	// the other session works, without waiting for anything
	got := func() []Packet {
		zzsym.Quiesce()
		if oc != nil {
			return zzWsGot(oc)
		}
		w := zzPoll(s, other)
		zzsym.Quiesce()
		zzsym.Assert(w.finished() && w.status == 200, "the poll of another session is answered")
		return zzGot(w)
	}
	put := func(p Packet) {
		if oc != nil {
			zzWsSend(oc, p)
		} else {
			w := zzPost(s, other, false, p)
			zzsym.Quiesce()
			zzsym.Assert(w.finished() && w.status == 200, "the post of another session is answered")
		}
		zzsym.Quiesce()
	}
	b := zzsym.Byte("data")
	m := zzMsg(b)
	put(m)
	in := l.of(other, EventMessage)
	zzsym.Assert(len(in) == 1 && len(in[0].data) == len(m.data) && zzsym.EqBytes(in[0].data, m.data), "its message is reported")
	sent := make(chan struct{})
	go func() {
		other.Emit(EventMessage, MessageTypeBinary, []byte{b})
		close(sent)
	}()
	ps := got()
	zzsym.Assert(len(ps) == 1 && ps[0].pktType == PacketTypeMessage && len(ps[0].data) == 1 && ps[0].data[0] == b, "a message emitted on it arrives")
	put(Packet{msgType: MessageTypeString, pktType: PacketTypePing, data: []byte{'p'}})
	ps = got()
	zzsym.Assert(len(ps) == 1 && ps[0].pktType == PacketTypePong && len(l.of(other, EventPing)) == 1, "its ping is answered")
	if kind == 1 && zzsym.Choice("upgrade", 2) == 1 {
		oc = zzUpgrade(s, other)
		zzsym.Assert(len(l.of(other, EventUpgrade)) == 1, "it can be upgraded")
	}
	third := zzGo(s, zzReq("GET", "EIO=3&transport=websocket", zzWsHeader(), nil))
	zzsym.Quiesce()
	zzsym.Assert(third.client != nil && third.client.ZZPending() == 1 && l.last() != bad && l.last() != other, "another session can be opened")
	w := zzGo(s, zzReq("GET", "EIO=3&transport=polling&sid=nobody", nil, nil))
	zzsym.Quiesce()
	zzsym.Assert(w.finished() && w.status == 400, "requests are refused")
	if zzsym.Choice("ends", 2) == 0 {
		put(Packet{msgType: MessageTypeString, pktType: PacketTypeClose})
	} else {
		other.Close()
		zzsym.Quiesce()
	}
	zzsym.Assert(len(l.of(other, EventClose)) == 1, "its end is reported")
	w = zzPoll(s, other)
	zzsym.Quiesce()
	zzsym.Assert(w.finished() && w.status == 400, "its id is no longer accepted")
	closed := make(chan struct{})
	go func() {
		s.Close()
		close(closed)
	}()
	zzsym.Quiesce()
	select {
	case <-closed:
	default:
		zzsym.Fail("the server can be closed")
	}
	zzsym.Assert(time.Now().Equal(now), "no time passes")
	close(wait)
	zzsym.Cover(stuck)
}

// zzSlowOrigin is a checker that takes its time.
type zzSlowOrigin func(origin string)

func (f zzSlowOrigin) CheckOrigin(r *http.Request) bool { f(r.Header.Get("Origin")); return true }
