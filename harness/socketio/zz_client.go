package socketio

import (
	"errors"
	"net/http"
	"strconv"
	"time"

	"github.com/gorilla/websocket"
	"github.com/zyxar/socketio/zzsym"
)

// ZZC23session: a server that sends everything at once with the handshake, and an end of any kind.
func ZZC23session() {
	c := NewClient()
	e := &zzEnd{client: c, calls: &zzCalls{}, sock: map[string]Socket{}}
	l := e.calls
	for _, n := range []string{"/", "/a", "/b"} {
		x := c.Namespace(n)
		l.watch(x)
		x.OnEvent("ev", func(so Socket, s string) { l.add("ev", so, s) })
	}
	a, b := zzLetter("a"), zzLetter("b")
	how := zzsym.Choice("end", 5)
	frames := []string{zzOpenPacket, "40", "40/a", `42["ev","` + a + `"]`, `42/a,["ev","` + b + `"]`}
	if how == 4 {
		frames = append(frames, "1")
	}
	if zzsym.Param("races", 1) == 1 {
		zzsym.Races()
	}
	zzsym.Delays(zzsym.Param("delays", 2))
	p, err := zzDialTo(c, DefaultParser, frames...)
	zzsym.Assert(err == nil, "Dial succeeds")
	zzsym.Assert(c.Sid() == "abc", "the client has the id announced")
	switch how {
	case 1:
		c.Close()
	case 2:
		p.c.Close()
	case 3:
		go c.Close()
		p.c.WriteMessage(websocket.TextMessage, []byte("1"))
	}
	zzsym.Quiesce()
	if how == 0 { // silence
		zzsym.Sequential()
		time.Sleep(zzInterval + zzTimeout + time.Second)
		zzsym.Quiesce()
	}
	want := []string{"connect /", "connect /a", "ev /", "ev /a"}
	args := []string{"", "", a, b}
	all := how == 0 || how == 4
	for i, x := range l.cs {
		if x.what == "disconnect" || x.what == "error" {
			continue
		}
		zzsym.Assert(i < len(want) && x.what+" "+x.nsp == want[i], "everything is handled once, in order, before the end")
		if x.what == "ev" {
			zzsym.Assert(zzsym.EqString(x.args[0].(string), args[i]), "with its argument")
		}
	}
	cs := l.of("connect")
	zzsym.Assert(!all || len(l.cs) == 6, "nothing is lost")
	zzsym.Assert(len(l.of("error")) == 0, "no errors")
	ds := l.of("disconnect")
	zzsym.Assert(len(ds) == len(cs), "each connected namespace is disconnected, once")
	seen := map[string]bool{}
	for _, d := range ds {
		zzsym.Assert(!seen[d.nsp] && (d.nsp == "/" || d.nsp == "/a" && len(cs) == 2), "each connected namespace is disconnected, once")
		seen[d.nsp] = true
	}
	zzsym.Assert(p.c.ZZPeerClosed(), "the connection is closed")
	for _, n := range []string{"/", "/a"} {
		zzsym.Assert(c.Emit(n, "ev", "x") != nil, "Emit fails afterwards")
	}
	zzsym.Cover("end " + strconv.Itoa(how))
}

// ZZC23refused: Dial fails.
func ZZC23refused() {
	first := []string{"", "1", "2", "3probe", "40", "5", "6", "0", "0{", `0["sid"]`, `0{"sid":1}`, "8", "x", "0{}", `0{"sid":"abc","upgrades":[],"pingInterval":0,"pingTimeout":60000}`}
	k := zzsym.Choice("first", len(first)+1)
	c := NewClient()
	n := 0
	c.Namespace("/").OnConnect(func(Socket) { n++ }).OnDisconnect(func(Socket) { n++ })
	var p *zzPeer
	var err error
	if k == len(first) {
		websocket.ZZDial = func(url string, h http.Header) (*websocket.Conn, error) { return nil, errors.New("refused") }
		err = c.Dial("ws://host/socket.io/", nil, WebsocketTransport, DefaultParser)
	} else {
		p, err = zzDialTo(c, DefaultParser, first[k], zzOpenPacket, "40")
	}
	zzsym.Assert(err != nil, "Dial fails")
	zzsym.Quiesce()
	zzsym.Assert(n == 0, "no callback runs")
	zzsym.Assert(p == nil || p.c.ZZPeerClosed(), "the connection is closed")
	// the client can be used to dial again
	p, err = zzDialTo(c, DefaultParser, zzOpenPacket, "40")
	zzsym.Assert(err == nil, "a later Dial succeeds")
	zzsym.Quiesce()
	zzsym.Assert(n == 1, "connected")
	p.c.Close()
	zzsym.Quiesce()
	zzsym.Assert(n == 2, "disconnected")
	zzsym.Cover("refused")
}
