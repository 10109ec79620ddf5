package socketio

import (
	"github.com/zyxar/socketio/zzsym"
)

// ZZC26server: a closed server reports no connection any more.
func ZZC26server() {
	live := zzsym.LiveGoroutines()
	l := &zzCalls{}
	s := zzServe([]Parser{DefaultParser, MsgpackParser}[zzsym.Choice("parser", 2)])
	l.watch(s.Namespace("/"))
	n := zzsym.Choice("sessions", 2)
	var p *zzPeer
	if n == 1 {
		p = zzAccept(s)
	}
	for i := zzsym.Choice("closed", 2); i >= 0; i-- {
		zzsym.Assert(s.Close() == nil, "Close succeeds")
	}
	zzsym.Quiesce()
	after := zzsym.LiveGoroutines()
	zzsym.Assert(n == 1 || after == live, "nothing of the server is left running")
	w := &zzW{hdr: map[string][]string{}, done: make(chan struct{})}
	go func() {
		s.ServeHTTP(w, zzWsReq())
		close(w.done)
	}()
	<-w.done
	zzsym.Quiesce()
	if w.client != nil {
		zzsym.Assert(w.client.ZZPeerClosed() && w.client.ZZPending() == 0, "a connection made later is closed")
	} else {
		zzsym.Assert(w.status >= 400, "a request made later is refused")
	}
	zzsym.Assert(len(l.of("connect")) == n, "it is not reported connected")
	zzsym.Assert(zzsym.LiveGoroutines() == after, "nothing of it is left running")
	if p != nil {
		p.c.Close()
		zzsym.Quiesce()
		zzsym.Assert(len(l.of("disconnect")) == 1, "the end of an open session is reported")
		zzsym.Assert(zzsym.LiveGoroutines() == live, "nothing of that session is left running")
	}
	zzsym.Cover("refused")
}
