package socketio

import (
	"time"

	"github.com/zyxar/socketio/zzsym"
)

var zzStuck = []string{"connect /", "connect /a", "event", "event with id", "ack", "error packet", "error args", "server error", "disconnect packet", "close packet", "gone", "closed", "silence", "unread", "unread ack", "unread end", "unread closed"}

// ZZC27stuck: sessions of a server of which another session's callback does not return, or whose peer does not read.
func ZZC27stuck() {
	stuck := zzStuck[zzsym.Choice("stuck", len(zzStuck))]
	wait := make(chan struct{})
	s := zzServe(DefaultParser)
	l := &zzCalls{}
	bad := "" // the id of the session that goes wrong
	socks := make(map[string]Socket)
	hold := func(so Socket, kinds ...string) {
		l.mu.Lock()
		if bad == "" {
			bad = so.Sid()
		}
		mine := bad == so.Sid()
		l.mu.Unlock()
		for _, k := range kinds {
			if mine && k == stuck {
				<-wait
			}
		}
	}
	s.OnError(func(err error) {
		if stuck == "server error" {
			<-wait
		}
	})
	for _, n := range []string{"/", "/a"} {
		n := n
		x := s.Namespace(n)
		x.OnConnect(func(so Socket) {
			l.mu.Lock()
			socks[so.Sid()+n] = so
			l.mu.Unlock()
			l.add("connect", so)
			hold(so, "connect "+n)
		})
		x.OnDisconnect(func(so Socket) {
			l.add("disconnect", so)
			hold(so, "disconnect packet", "close packet", "gone", "closed", "silence")
		})
		x.OnError(func(so Socket, err ...interface{}) {
			l.add("error", so, err...)
			hold(so, "error packet", "error args")
		})
		x.OnEvent("ev", func(so Socket, s string) string {
			l.add("event", so, s)
			hold(so, "event", "event with id")
			return s
		})
	}
	p := zzAccept(s) // the session that goes wrong
	before := zzsym.Choice("order", 2) == 0
	var q *zzPeer
	if before {
		q = zzConnect(s)
	}
	p.text("0/a")
	zzsym.Quiesce()
	p.take()
	so := socks[p.sid+"/"]
	switch stuck {
	case "event":
		p.text(`2/a,["ev","x"]`)
	case "event with id":
		p.text(`21["ev","x"]`)
	case "ack":
		so.Emit("q", func() { <-wait })
		p.text(`31[]`)
	case "error packet":
		p.text(`4/a,"e"`)
	case "error args":
		p.text(`2["ev",7]`)
	case "server error":
		p.text(`x`)
	case "disconnect packet":
		p.text(`1/a`)
	case "close packet":
		p.c.WriteMessage(1, []byte("1"))
	case "gone":
		p.c.Close()
	case "closed":
		so.Close()
	case "silence":
		zzsym.Assume(!before)
		time.Sleep(zzInterval + zzTimeout + time.Second)
	case "unread", "unread ack", "unread end", "unread closed":
		p.c.ZZStall(true)
		go func() {
			for i := 0; i < 20; i++ {
				if stuck != "unread ack" {
					so.Emit("out", i)
				} else {
					p.text(`21["ev","x"]`)
				}
			}
		}()
		if stuck == "unread end" {
			zzsym.Quiesce()
			p.c.WriteMessage(1, []byte("1"))
		} else if stuck == "unread closed" {
			zzsym.Quiesce()
			go so.Close()
		}
	}
	if zzsym.Choice("wait", 2) == 0 {
		zzsym.Quiesce()
	}
	if zzsym.Param("delays", 0) > 0 {
		if zzsym.Param("races", 1) == 1 {
			zzsym.Races()
		}
		zzsym.Delays(zzsym.Param("delays", 0))
	}
	now := time.Now()
	if !before {
		q = zzConnect(s)
	}
	mine := func(what string) (n int) {
		for _, c := range l.of(what) {
			if c.sid == q.sid {
				n++
			}
		}
		return
	}
	q.text("0/a")
	zzsym.Quiesce()
	zzsym.Assert(zzJoin(q.texts()) == "0/a," || mine("connect") == 2, "it connects to namespaces")
	word := zzWord("word", 2)
	q.text(`2/a,5["ev","` + word + `"]`)
	zzsym.Quiesce()
	zzsym.Assert(mine("event") == 1 && zzsym.EqString(zzJoin(q.texts()), `3/a,5["`+word+`"]`), "its event is handled and acknowledged")
	acked := 0
	emitted := make(chan error, 1)
	go func() { emitted <- socks[q.sid+"/a"].Emit("out", word, func() { acked++ }) }()
	zzsym.Quiesce()
	zzsym.Assert(len(emitted) == 1 && <-emitted == nil && zzsym.EqString(zzJoin(q.texts()), `2/a,1["out","`+word+`"]`), "an event emitted on it arrives")
	q.text(`3/a,1[]`)
	zzsym.Quiesce()
	zzsym.Assert(acked == 1, "its acknowledgement runs the callback")
	q.text(`2["ev",7]`)
	zzsym.Quiesce()
	zzsym.Assert(mine("error") == 1, "its errors are reported")
	q.text(`1/a`)
	zzsym.Quiesce()
	zzsym.Assert(mine("disconnect") == 1, "it disconnects from namespaces")
	r := zzConnect(s)
	zzsym.Assert(r.sid != q.sid && r.sid != p.sid, "another session can be opened")
	switch zzsym.Choice("ends", 3) {
	case 0:
		q.c.WriteMessage(1, []byte("1"))
	case 1:
		q.c.Close()
	case 2:
		socks[q.sid+"/"].Close()
	}
	zzsym.Quiesce()
	zzsym.Assert(mine("disconnect") == 2 && q.c.ZZPeerClosed(), "its end is reported")
	closed := make(chan struct{})
	go func() {
		s.Close()
		close(closed)
	}()
	zzsym.Quiesce()
	select {
	case <-closed:
	default:
		zzsym.Fail("the server can be closed")
	}
	zzsym.Assert(time.Now().Equal(now), "no time passes")
	close(wait)
	zzsym.Cover(stuck)
}
