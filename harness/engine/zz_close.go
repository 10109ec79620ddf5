package engine

import (
	"time"

	"github.com/gorilla/websocket"
	"github.com/zyxar/socketio/zzsym"
)

// zzC26tries makes requests that would open sessions.
func zzC26tries(s *Server, n, kinds int) []*zzW {
	ws := make([]*zzW, n)
	for i := range ws {
		switch zzsym.Choice("request", kinds) {
		case 0:
			ws[i] = zzGo(s, zzReq("GET", "EIO=3&transport=websocket", zzWsHeader(), nil))
		case 1:
			ws[i] = zzGo(s, zzReq("GET", "EIO=3&transport=polling", nil, nil))
		case 2:
			ws[i] = zzGo(s, zzReq("GET", "EIO=3&transport=polling&b64=1", nil, nil))
		case 3:
			ws[i] = zzGo(s, zzReq("POST", "EIO=3&transport=polling", nil, []byte("1:6")))
		}
	}
	return ws
}

// zzC26refused: w got no session.
func zzC26refused(w *zzW) bool {
	if !w.finished() {
		return false
	}
	if w.client != nil {
		return w.client.ZZPeerClosed() && w.client.ZZPending() == 0
	}
	return w.status >= 400
}

// ZZC26closed: requests that would open sessions, after the server has been closed.
func ZZC26closed() {
	live := zzsym.LiveGoroutines()
	s, l := zzServer()
	zzsym.Quiesce()
	idle := zzsym.LiveGoroutines()
	var so *Socket
	var c *websocket.Conn
	switch zzsym.Choice("session", 3) {
	case 1:
		so, c = zzOpenWs(s, l)
	case 2:
		so = zzOpenPoll(s, l)
	}
	opened := len(l.open)
	// end ends the session; its own goroutines have to end with it, whoever ends it
	ended := so == nil
	end := func() {
		if ended {
			return
		}
		ended = true
		switch how := zzsym.Choice("end", 4); {
		case how == 0:
			so.Close()
		case how == 1 && c != nil:
			c.Close()
		case how == 1:
			zzPost(s, so, true, Packet{msgType: MessageTypeBinary, pktType: PacketTypeClose})
		case how == 2 && c != nil:
			zzWsSend(c, Packet{msgType: MessageTypeString, pktType: PacketTypeClose})
		case how == 2:
			zzPost(s, so, false, Packet{msgType: MessageTypeString, pktType: PacketTypeClose})
		default:
			time.Sleep(zzInterval + zzTimeout + time.Second)
		}
		zzsym.Quiesce()
		zzsym.Assert(so.Emit(EventMessage, MessageTypeString, "late") != nil, "a session that was open can end")
		zzsym.Assert(c == nil || c.ZZPeerClosed(), "its connection is closed")
		zzsym.Assert(len(l.of(so, EventClose)) == 1, "its end is reported once")
	}
	if zzsym.Choice("ends before", 2) == 1 {
		zzsym.Assume(so != nil)
		end()
		zzsym.Assert(zzsym.LiveGoroutines() == idle, "nothing of it is left running")
	}
	for i := zzsym.Choice("closed", 2); i >= 0; i-- {
		zzsym.Assert(s.Close() == nil, "Close succeeds")
	}
	zzsym.Quiesce()
	after := zzsym.LiveGoroutines()
	if ended {
		zzsym.Assert(after < idle && after == live, "nothing of the server is left running")
	}
	for _, w := range zzC26tries(s, zzsym.Param("requests", 2), 4) {
		zzsym.Quiesce()
		zzsym.Assert(zzC26refused(w), "a request to open a session is refused")
	}
	zzsym.Quiesce()
	zzsym.Assert(len(l.open) == opened, "no session is reported open")
	zzsym.Assert(zzsym.LiveGoroutines() == after, "nothing of the requests is left running")
	end()
	zzsym.Assert(zzsym.LiveGoroutines() == live, "nothing of it is left running")
	zzsym.Cover("refused")
}

// ZZC26race: requests that would open sessions while the server is being closed.
func ZZC26race() {
	live := zzsym.LiveGoroutines()
	s, l := zzServer()
	n := zzsym.Param("requests", 2)
	if zzsym.Param("races", 1) == 1 {
		zzsym.Races()
	}
	zzsym.Delays(zzsym.Param("delays", 2))
	go s.Close()
	ws := zzC26tries(s, n, 3)
	zzsym.Quiesce()
	opened := 0
	for _, w := range ws {
		if zzC26refused(w) {
			zzsym.Cover("refused")
			continue
		}
		opened++
		zzsym.Assert(w.client != nil || w.finished() && w.status == 200, "a request gets a session or is refused")
		if w.client != nil {
			ps := zzWsGot(w.client)
			zzsym.Assert(len(ps) == 1 && ps[0].pktType == PacketTypeOpen, "the session gets its open packet")
		}
		zzsym.Cover("opened")
	}
	zzsym.Assert(len(l.open) == opened, "the sessions reported open are those the peers got")
	zzsym.Sequential()
	zzsym.Assert(s.Close() == nil, "Close succeeds")
	for _, so := range l.open {
		so.Close()
	}
	zzsym.Quiesce()
	zzsym.Assert(zzsym.LiveGoroutines() == live, "nothing is left running")
}
