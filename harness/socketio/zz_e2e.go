package socketio

import (
	"bytes"
	"errors"
	"io"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"time"

	"github.com/gorilla/websocket"
	"github.com/zyxar/socketio/zzsym"
)

const (
	zzInterval = 25 * time.Second
	zzTimeout  = 60 * time.Second
)

// zzW is a response writer; ZZHijack turns it into a websocket whose other end is client.
type zzW struct {
	mu     sync.Mutex
	hdr    http.Header
	status int
	client *websocket.Conn
	server *websocket.Conn
	done   chan struct{}
	hij    chan struct{} // closed when hijacked, if not nil
}

func (w *zzW) Header() http.Header { return w.hdr }
func (w *zzW) WriteHeader(c int) {
	w.mu.Lock()
	if w.status == 0 {
		w.status = c
	}
	w.mu.Unlock()
}
func (w *zzW) Write(b []byte) (int, error) { w.WriteHeader(200); return len(b), nil }
func (w *zzW) ZZHijack() (*websocket.Conn, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.client != nil {
		return nil, errors.New("already hijacked")
	}
	w.server, w.client = websocket.ZZPair()
	if w.hij != nil {
		close(w.hij)
	}
	return w.server, nil
}

type zzNoBody struct{ io.Reader }

func (zzNoBody) Close() error { return nil }

func zzWsReq() *http.Request {
	return &http.Request{Method: "GET", URL: &url.URL{Path: "/socket.io/", RawQuery: "EIO=3&transport=websocket"}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Connection": {"Upgrade"}, "Upgrade": {"websocket"}, "Sec-Websocket-Version": {"13"}, "Sec-Websocket-Key": {"dGhlIHNhbXBsZSBub25jZQ=="}},
		Body:   zzNoBody{bytes.NewReader(nil)}, Host: "host", RemoteAddr: "1.2.3.4:5"}
}

// zzPeer is the other end of a session: it writes and reads socket.io frames.
type zzPeer struct {
	c   *websocket.Conn
	sid string
}

func (p *zzPeer) text(s string) { p.c.WriteMessage(websocket.TextMessage, []byte("4"+s)) }
func (p *zzPeer) bin(b []byte)  { p.c.WriteMessage(websocket.BinaryMessage, append([]byte{4}, b...)) }

type zzFrame struct {
	bin  bool
	data []byte
}

// take returns the socket.io frames received since, without engine.io packets of other types.
func (p *zzPeer) take() (out []zzFrame) {
	for {
		t, b, ok := p.c.ZZTake()
		if !ok {
			return
		}
		zzsym.Assert(len(b) > 0, "frames carry a packet type")
		if t == websocket.TextMessage && b[0] == '4' {
			out = append(out, zzFrame{false, b[1:]})
		} else if t == websocket.BinaryMessage && b[0] == 4 {
			out = append(out, zzFrame{true, b[1:]})
		}
	}
}

// texts is take for a peer that is to receive text frames only.
func (p *zzPeer) texts() (out []string) {
	for _, f := range p.take() {
		zzsym.Assert(!f.bin, "only text frames expected")
		out = append(out, strings.TrimSuffix(string(f.data), "\n"))
	}
	return
}

func zzJoin(ss []string) string { return strings.Join(ss, " | ") }

// zzServe starts a server.
func zzServe(parser Parser) *Server {
	s, err := NewServer(zzInterval, zzTimeout, parser)
	zzsym.Assert(err == nil, "server starts")
	return s
}

// zzAccept makes the request of a websocket client and returns the client's end.
func zzAccept(h http.Handler) *zzPeer {
	w := &zzW{hdr: make(http.Header), done: make(chan struct{})}
	go func() {
		h.ServeHTTP(w, zzWsReq())
		close(w.done)
	}()
	zzsym.Quiesce()
	zzsym.Assert(w.client != nil, "websocket accepted")
	t, b, ok := w.client.ZZTake()
	zzsym.Assert(ok && t == websocket.TextMessage && len(b) > 0 && b[0] == '0', "first packet is open")
	p := &zzPeer{c: w.client}
	if i := strings.Index(string(b), `"sid":"`); i >= 0 {
		r := string(b[i+7:])
		p.sid = r[:strings.IndexByte(r, '"')]
	}
	return p
}

// zzDialIn makes the request of a websocket client while others run.
func zzDialIn(h http.Handler) *websocket.Conn {
	w := &zzW{hdr: make(http.Header), done: make(chan struct{}), hij: make(chan struct{})}
	go func() {
		h.ServeHTTP(w, zzWsReq())
		close(w.done)
	}()
	<-w.hij
	return w.client
}

// zzConnect is zzAccept with the default parser's CONNECT to the root namespace taken.
func zzConnect(h http.Handler) *zzPeer {
	p := zzAccept(h)
	zzsym.Assert(zzJoin(p.texts()) == "0", "connected to the root namespace")
	return p
}

// zzCall is a callback that ran.
type zzCall struct {
	what string
	nsp  string
	sid  string
	args []interface{}
}

type zzCalls struct {
	mu sync.Mutex
	cs []zzCall
}

func (l *zzCalls) add(what string, so Socket, args ...interface{}) {
	c := zzCall{what: what, args: args}
	if so != nil {
		c.nsp, c.sid = so.Namespace(), so.Sid()
	}
	l.mu.Lock()
	l.cs = append(l.cs, c)
	l.mu.Unlock()
}

func (l *zzCalls) of(what string) (out []zzCall) {
	l.mu.Lock()
	for _, c := range l.cs {
		if c.what == what {
			out = append(out, c)
		}
	}
	l.mu.Unlock()
	return
}

func (l *zzCalls) clear() {
	l.mu.Lock()
	l.cs = nil
	l.mu.Unlock()
}

// watch logs connects, disconnects and errors of a namespace.
func (l *zzCalls) watch(n Namespace) {
	n.OnConnect(func(so Socket) { l.add("connect", so) })
	n.OnDisconnect(func(so Socket) { l.add("disconnect", so) })
	n.OnError(func(so Socket, err ...interface{}) { l.add("error", so, err...) })
}

// zzEnd is one side of a session, the other being its peer.
type zzEnd struct {
	peer   *zzPeer
	client *Client // nil on the server's side
	server *Server
	calls  *zzCalls
	sock   map[string]Socket // as given to OnConnect
}

func (e *zzEnd) nsp(n string) Namespace {
	if e.client != nil {
		return e.client.Namespace(n)
	}
	return e.server.Namespace(n)
}

// watch has connects, disconnects and errors of a namespace logged.
func (e *zzEnd) watch(n string) Namespace {
	x := e.nsp(n)
	e.calls.watch(x)
	x.OnConnect(func(so Socket) {
		e.calls.add("connect", so)
		e.calls.mu.Lock()
		e.sock[n] = so
		e.calls.mu.Unlock()
	})
	return x
}

func zzNewEnd(client bool, parser Parser) *zzEnd {
	e := &zzEnd{calls: &zzCalls{}, sock: make(map[string]Socket)}
	if client {
		e.client = NewClient()
	} else {
		e.server = zzServe(parser)
	}
	return e
}

const zzOpenPacket = `0{"sid":"abc","upgrades":[],"pingInterval":25000,"pingTimeout":60000}`

// zzDialTo makes c dial a server that sends these frames at once.
func zzDialTo(c *Client, parser Parser, frames ...string) (*zzPeer, error) {
	p := &zzPeer{sid: "abc"}
	websocket.ZZDial = func(url string, h http.Header) (*websocket.Conn, error) {
		var cli *websocket.Conn
		p.c, cli = websocket.ZZPair()
		for _, f := range frames {
			p.c.WriteMessage(websocket.TextMessage, []byte(f))
		}
		return cli, nil
	}
	err := c.Dial("ws://host/socket.io/", nil, WebsocketTransport, parser)
	return p, err
}

// start opens the session; the root namespace is connected, other is too if given.
func (e *zzEnd) start(parser Parser, others ...string) {
	if e.client != nil {
		p, err := zzDialTo(e.client, parser, zzOpenPacket)
		zzsym.Assert(err == nil, "dial succeeds")
		e.peer = p
		zzsym.Quiesce()
	} else {
		e.peer = zzAccept(e.server)
	}
	for i, n := range append([]string{"/"}, others...) {
		if i == 0 && e.client == nil {
			continue // the server connects the root namespace by itself
		}
		text, bin, err := parser.Encoder().Encode(&Packet{Type: PacketTypeConnect, Namespace: n})
		zzsym.Assert(err == nil && len(bin) == 0, "CONNECT is one text frame")
		e.peer.text(string(text))
	}
	zzsym.Quiesce()
	e.peer.take()
	zzsym.Assert(len(e.calls.of("connect")) == len(e.sock), "connected")
	e.calls.clear()
}

// send encodes a packet and has the peer send it.
func (e *zzEnd) send(parser Parser, p *Packet) {
	text, bin, err := parser.Encoder().Encode(p)
	zzsym.Assert(err == nil, "packet encodes")
	if len(text) > 0 {
		e.peer.text(string(text))
	}
	for _, b := range bin {
		e.peer.bin(b)
	}
}

// zzParser is one of the two parsers.
func zzParser() Parser {
	if zzsym.Choice("parser", 2) == 1 {
		return MsgpackParser
	}
	return DefaultParser
}
