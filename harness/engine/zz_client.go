package engine

import (
	"encoding/json"
	"errors"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/gorilla/websocket"
	"github.com/zyxar/socketio/zzsym"
)

// zzDialConn has WebsocketTransport dial to the returned connection's other end, which the server has written to.
func zzDialConn(c *Client, prepare func(server *websocket.Conn)) (*Client, *websocket.Conn, *websocket.Conn, error) {
	var srv, cli *websocket.Conn
	websocket.ZZDial = func(url string, h http.Header) (*websocket.Conn, error) {
		zzsym.Assert(strings.Contains(url, "EIO=3") && strings.Contains(url, "transport=websocket"), "version and transport asked for")
		srv, cli = websocket.ZZPair()
		prepare(srv)
		return cli, nil
	}
	c, err := Dial("ws://host/engine.io/", nil, WebsocketTransport)
	return c, srv, cli, err
}

func zzOpenText(sid string, interval, timeout int) string {
	return `0{"sid":"` + sid + `","upgrades":[],"pingInterval":` + strconv.Itoa(interval) + `,"pingTimeout":` + strconv.Itoa(timeout) + `}`
}

// ZZC23dial: what the server may send first.
func ZZC23dial() {
	kind := zzsym.Choice("first", 9)
	n := zzsym.Choice("sid len", 3)
	sid := string(zzsym.Bytes("sid", n))
	for i := 0; i < n; i++ {
		zzsym.Assume(sid[i] >= '0' && sid[i] <= 'z' && sid[i] != '\\')
	}
	t := zzsym.Byte("type")
	good := false
	open := zzOpenText(sid, 25000, 60000)
	c, srv, cli, err := zzDialConn(nil, func(s *websocket.Conn) {
		switch kind {
		case 0:
			s.WriteMessage(websocket.TextMessage, []byte(open))
			good = n > 0
		case 1: // another type, of either kind
			if zzsym.Choice("binary", 2) == 1 {
				zzsym.Assume(t != 0)
				s.WriteMessage(websocket.BinaryMessage, append([]byte{t}, open[1:]...))
			} else {
				zzsym.Assume(t != '0')
				s.WriteMessage(websocket.TextMessage, append([]byte{t}, open[1:]...))
			}
			s.WriteMessage(websocket.TextMessage, []byte(open))
		case 2: // cut short
			s.WriteMessage(websocket.TextMessage, []byte(open[:zzsym.Choice("cut", len(open))]))
			s.WriteMessage(websocket.TextMessage, []byte(open))
		case 3: // garbage that is no JSON object
			b := zzsym.Bytes("garbage", zzsym.Choice("garbage len", zzsym.Param("garbage", 2)+1))
			var p struct {
				SID string `json:"sid"`
			}
			zzsym.Assume(json.Unmarshal(b, &p) != nil || p.SID == "")
			s.WriteMessage(websocket.TextMessage, append([]byte{'0'}, b...))
		case 4: // a field of another type
			bad := []string{`0{"sid":5,"upgrades":[],"pingInterval":25000,"pingTimeout":60000}`,
				`0{"sid":"x","upgrades":[],"pingInterval":"25000","pingTimeout":60000}`,
				`0{"sid":"x","upgrades":[],"pingInterval":25000,"pingTimeout":{}}`,
				`0{}`, `0null`, `0{"sid":"x"}`, `0{"sid":"x","upgrades":[],"pingInterval":25000}`, `0{"sid":"x","upgrades":[],"pingTimeout":60000}`, `0{"upgrades":[],"pingInterval":25000,"pingTimeout":60000}`, `0{"sid":null,"upgrades":[],"pingInterval":25000,"pingTimeout":60000}`,
				`0["x"]`, `0"x"`, open + "}", open + ",", open + open, open + "\x1e2", open + " x", "0[" + open[1:] + "]"}
			s.WriteMessage(websocket.TextMessage, []byte(bad[zzsym.Choice("bad", len(bad))]))
		case 5:
			s.Close()
		case 6: // a probe before the open packet
			s.WriteMessage(websocket.TextMessage, []byte("2probe"))
			s.WriteMessage(websocket.TextMessage, []byte(open))
		case 7: // an interval or a timeout that none can be
			bad := []string{"0", "-1", "-25000", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "9223372036855", "18446744073709552", "null", "1.5", "1e30", "[]", `""`}
			v, w := bad[zzsym.Choice("bad", len(bad))], "25000"
			if zzsym.Choice("which", 2) == 1 {
				v, w = w, v
			}
			s.WriteMessage(websocket.TextMessage, []byte(`0{"sid":"x`+sid+`","upgrades":[],"pingInterval":`+v+`,"pingTimeout":`+w+`}`))
		default: // a longer open packet with fields in another order
			s.WriteMessage(websocket.TextMessage, []byte(`0{"pingTimeout":60000,"maxPayload":1000000,"upgrades":["websocket"],"pingInterval":25000,"sid":"`+sid+`"}`))
			good = n > 0
		}
	})
	zzsym.Quiesce()
	if good {
		zzsym.Assert(err == nil && c != nil, "Dial succeeds")
		zzsym.Assert(zzsym.EqString(c.Sid(), sid), "the client has the id announced")
		zzsym.Assert(!srv.ZZPeerClosed(), "the connection is kept")
		zzsym.Cover("dialled")
	} else {
		zzsym.Assert(err != nil, "Dial fails")
		zzsym.Assert(srv.ZZPeerClosed(), "the connection is closed")
		zzsym.Cover("refused")
	}
	_ = cli
}

// ZZC23dialfail: no connection.
func ZZC23dialfail() {
	e := errors.New("refused")
	websocket.ZZDial = func(url string, h http.Header) (*websocket.Conn, error) { return nil, e }
	_, err := Dial("ws://host/engine.io/", nil, WebsocketTransport)
	zzsym.Assert(err != nil, "Dial fails")
	_, err = Dial("ws://host:bad%zz/", nil, WebsocketTransport)
	zzsym.Assert(err != nil, "Dial fails")
	zzsym.Cover("refused")
}

// zzClientLog is what a client's handlers were called with.
type zzClientLog struct {
	mu  sync.Mutex
	evs []zzEv
	at  []int64
}

func (l *zzClientLog) on(c *Client) {
	for _, ev := range []event{EventMessage, EventClose} {
		ev := ev
		c.On(ev, Callback(func(so *Socket, typ MessageType, data []byte) {
			l.mu.Lock()
			l.evs = append(l.evs, zzEv{so, ev, typ, data})
			l.at = append(l.at, zzsym.NowNano())
			l.mu.Unlock()
		}))
	}
}

func (l *zzClientLog) closes() (n int) {
	l.mu.Lock()
	for _, e := range l.evs {
		if e.ev == EventClose {
			n++
		}
	}
	l.mu.Unlock()
	return
}

// ZZC23ping: pings while the server answers, and after it has fallen silent.
func ZZC23ping() {
	iv := []int{1000, 25000, 7, 90000}[zzsym.Choice("interval", 4)]
	to := []int{5, 60000, 900}[zzsym.Choice("timeout", 3)]
	interval, timeout := time.Duration(iv)*time.Millisecond, time.Duration(to)*time.Millisecond
	l := &zzClientLog{}
	c, srv, _, err := zzDialConn(nil, func(s *websocket.Conn) {
		s.WriteMessage(websocket.TextMessage, []byte(zzOpenText("x", iv, to)))
	})
	zzsym.Assert(err == nil, "Dial succeeds")
	l.on(c)
	n := zzsym.Choice("answered", 4)
	how := zzsym.Choice("how", 3)
	start := zzsym.NowNano()
	last := start
	k := 0
	for {
		t, b, err := srv.ReadMessage()
		if err != nil {
			break
		}
		zzsym.Assert(t == websocket.TextMessage && len(b) > 0 && b[0] == '2', "the client sends pings only")
		k++
		now := zzsym.NowNano()
		zzsym.Assert(now == start+int64(k)*int64(interval), "pings are spaced by the interval")
		if k <= n {
			switch how {
			case 0:
				srv.WriteMessage(websocket.TextMessage, append([]byte{'3'}, b[1:]...))
			case 1:
				srv.WriteMessage(websocket.TextMessage, []byte("4hello"))
			default:
				srv.WriteMessage(websocket.TextMessage, []byte("6"))
			}
			last = now
		}
	}
	zzsym.Assert(zzsym.NowNano() == last+int64(interval+timeout), "a client ends when the server has been silent for interval and timeout, not earlier and not later")
	zzsym.Quiesce()
	zzsym.Assert(l.closes() == 1, "and reports it once")
	for i, e := range l.evs {
		if e.ev == EventMessage {
			zzsym.Assert(how == 1 && i < n, "messages are reported")
		}
	}
	zzsym.Assert(c.Emit(EventMessage, MessageTypeString, "x") != nil, "Emit fails afterwards")
	time.Sleep(3 * interval)
	zzsym.Cover("silent")
}

// ZZC23order: messages sent with the handshake and after it.
func ZZC23order() {
	n := zzsym.Param("messages", 3)
	var ps []Packet
	for i := 0; i < n; i++ {
		ps = append(ps, Packet{msgType: MessageType(zzsym.Choice("kind", 2)), pktType: PacketType(zzsym.Byte("type")), data: append([]byte{byte(i)}, zzsym.Bytes("data", 1)...)})
		zzsym.Assume(ps[i].pktType != PacketTypeClose)
	}
	l := &zzClientLog{}
	c, srv, _, err := zzDialConn(nil, func(s *websocket.Conn) {
		s.WriteMessage(websocket.TextMessage, []byte(zzOpenText("x", 25000, 60000)))
	})
	zzsym.Assert(err == nil, "Dial succeeds")
	l.on(c)
	for _, p := range ps {
		zzWsSend(srv, p)
	}
	zzsym.Quiesce()
	k := 0
	for _, p := range ps {
		if p.pktType == PacketTypeMessage {
			zzsym.Assert(k < len(l.evs) && l.evs[k].ev == EventMessage, "every message is reported, once, in order")
			zzsym.Assert(l.evs[k].typ == p.msgType && zzsym.EqBytes(l.evs[k].data, p.data), "as it was sent")
			k++
			zzsym.Cover("message")
		}
	}
	zzsym.Assert(k == len(l.evs), "nothing else is reported")
	zzsym.Assert(!srv.ZZPeerClosed(), "the connection is kept")
}

// ZZC23end: the connection ends while the client is being used.
func ZZC23end() {
	l := &zzClientLog{}
	c, srv, _, err := zzDialConn(nil, func(s *websocket.Conn) {
		s.WriteMessage(websocket.TextMessage, []byte(zzOpenText("x", 25000, 60000)))
	})
	zzsym.Assert(err == nil, "Dial succeeds")
	l.on(c)
	how := zzsym.Choice("end", 5)
	if zzsym.Param("races", 1) == 1 {
		zzsym.Races()
	}
	zzsym.Delays(zzsym.Param("delays", 2))
	sent := 0
	done := make(chan struct{})
	go func() {
		for i := byte(0); i < 2; i++ {
			if c.Emit(EventMessage, MessageTypeBinary, []byte{i}) != nil {
				break
			}
			sent++
		}
		if how == 0 || how == 3 || how == 4 {
			c.Close()
		}
		close(done)
	}()
	zzWsSend(srv, zzMsg('a'))
	zzWsSend(srv, zzMsg('b'))
	switch how {
	case 1, 3:
		zzWsSend(srv, Packet{msgType: MessageTypeString, pktType: PacketTypeClose})
	case 2:
		srv.Close()
	case 4:
		go c.Close()
	}
	<-done
	zzsym.Quiesce()
	zzsym.Assert(l.closes() == 1, "the end is reported exactly once")
	zzsym.Assert(l.evs[len(l.evs)-1].ev == EventClose, "after everything else")
	for i, e := range l.evs[:len(l.evs)-1] {
		zzsym.Assert(e.ev == EventMessage && i < 2 && string(e.data) == string([]byte{'a' + byte(i)}), "messages are reported in order, once")
	}
	if how == 1 {
		zzsym.Assert(len(l.evs) == 3, "messages before a close packet are reported")
	}
	zzsym.Assert(srv.ZZPeerClosed(), "the connection is closed")
	got := zzWsGot(srv)
	k := 0
	for _, p := range got {
		if p.pktType == PacketTypeMessage {
			zzsym.Assert(string(p.data) == string([]byte{byte(k)}), "emitted packets are sent in order, once")
			k++
		}
	}
	if how != 2 {
		zzsym.Assert(k == sent, "what was emitted before the end is sent")
	}
	zzsym.Assert(c.Emit(EventMessage, MessageTypeString, "x") != nil, "Emit fails afterwards")
	before := srv.ZZPending()
	zzsym.Sequential()
	time.Sleep(60 * time.Second)
	zzsym.Assert(srv.ZZPending() == before, "no pings are sent afterwards")
	zzsym.Assert(c.Close() == nil, "Close can be repeated")
	zzsym.Cover("ended")
}
