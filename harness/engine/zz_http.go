package engine

import (
	"bytes"
	"context"
	"errors"
	"io"
	"net/http"
	"net/url"
	"sync"
	"time"

	"github.com/gorilla/websocket"
	"github.com/zyxar/socketio/zzsym"
)

const (
	zzInterval = 25 * time.Second
	zzTimeout  = 60 * time.Second
)

// zzW is a response writer that records what a client would see. Headers are
// frozen by WriteHeader (or the first Write) as net/http does. ZZHijack turns
// it into a websocket whose other end is left in client.
type zzW struct {
	mu         sync.Mutex
	hdr        http.Header
	sent       http.Header
	status     int
	body       []byte
	client     *websocket.Conn
	server     *websocket.Conn // the server's end
	noHijack   bool
	afterwards int // writes after the hijack
	done       chan struct{}
	hij        chan struct{} // closed when hijacked
	cancel     context.CancelFunc
	broken     int // 1: the response cannot be written; 2: only its first byte; 3: the client leaves while it is written
}

func (w *zzW) Header() http.Header { return w.hdr }

func (w *zzW) WriteHeader(code int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.client != nil {
		w.afterwards++
		return
	}
	if w.status == 0 {
		w.status = code
		w.sent = make(http.Header)
		for k, v := range w.hdr {
			w.sent[k] = append([]string(nil), v...)
		}
	}
}

func (w *zzW) Write(b []byte) (int, error) {
	w.mu.Lock()
	hij := w.client != nil
	w.mu.Unlock()
	if hij {
		w.mu.Lock()
		w.afterwards++
		w.mu.Unlock()
		return 0, errors.New("http: connection has been hijacked")
	}
	w.WriteHeader(http.StatusOK)
	w.mu.Lock()
	defer w.mu.Unlock()
	switch {
	case w.broken == 3:
		w.cancel()
	case w.broken == 1 || w.broken == 2 && len(w.body)+len(b) > 1:
		n := w.broken - 1 - len(w.body)
		w.body = append(w.body, b[:n]...)
		return n, errors.New("write: broken pipe")
	}
	w.body = append(w.body, b...)
	return len(b), nil
}

func (w *zzW) ZZHijack() (*websocket.Conn, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.noHijack {
		return nil, errors.New("cannot hijack")
	}
	if w.client != nil {
		return nil, errors.New("already hijacked")
	}
	srv, cli := websocket.ZZPair()
	w.client, w.server = cli, srv
	close(w.hij)
	return srv, nil
}

// finished tells whether the handler has returned.
func (w *zzW) finished() bool {
	select {
	case <-w.done:
		return true
	default:
		return false
	}
}

// contentType is the media type sent, empty if none was.
func (w *zzW) contentType() string {
	if w.sent == nil {
		return ""
	}
	return w.sent.Get("Content-Type")
}

type zzBody struct{ r io.Reader }

func (b zzBody) Read(p []byte) (int, error) { return b.r.Read(p) }
func (b zzBody) Close() error               { return nil }

func zzReq(method, query string, hdr http.Header, body []byte) *http.Request {
	if hdr == nil {
		hdr = make(http.Header)
	}
	return &http.Request{Method: method, URL: &url.URL{Path: "/socket.io/", RawQuery: query}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: hdr, Body: zzBody{bytes.NewReader(body)}, ContentLength: int64(len(body)), Host: "host", RemoteAddr: "1.2.3.4:5"}
}

func zzWsHeader() http.Header {
	return http.Header{"Connection": {"Upgrade"}, "Upgrade": {"websocket"}, "Sec-Websocket-Version": {"13"}, "Sec-Websocket-Key": {"dGhlIHNhbXBsZSBub25jZQ=="}}
}

// zzGo serves the request on a goroutine of its own, as net/http does.
func zzGo(h http.Handler, r *http.Request) *zzW { return zzGoBroken(h, r, 0) }

// zzGoBroken serves a request whose client is not there for the response; 4: it left before.
func zzGoBroken(h http.Handler, r *http.Request, broken int) *zzW {
	w := &zzW{broken: broken, hdr: make(http.Header), done: make(chan struct{}), hij: make(chan struct{})}
	ctx, cancel := context.WithCancel(context.Background())
	w.cancel = cancel
	if broken == 4 {
		cancel()
	}
	go func() {
		h.ServeHTTP(w, r.WithContext(ctx))
		close(w.done)
	}()
	return w
}

type zzEv struct {
	so   *Socket
	ev   event
	typ  MessageType
	data []byte
}

type zzLog struct {
	mu   sync.Mutex
	evs  []zzEv
	open []*Socket
}

func (l *zzLog) add(e zzEv) {
	l.mu.Lock()
	l.evs = append(l.evs, e)
	l.mu.Unlock()
}

func (l *zzLog) of(so *Socket, ev event) (out []zzEv) {
	l.mu.Lock()
	for _, e := range l.evs {
		if e.so == so && e.ev == ev {
			out = append(out, e)
		}
	}
	l.mu.Unlock()
	return
}

func (l *zzLog) on(h interface {
	On(event event, callable Callable)
}) {
	for _, ev := range []event{EventOpen, EventMessage, EventClose, EventError, EventUpgrade, EventPing, EventPong} {
		ev := ev
		h.On(ev, Callback(func(so *Socket, typ MessageType, data []byte) {
			l.add(zzEv{so, ev, typ, append([]byte(nil), data...)})
		}))
	}
}

// zzServer starts a server whose callbacks are logged.
func zzServer(oc ...OriginChecker) (*Server, *zzLog) {
	l := &zzLog{}
	s, err := NewServer(zzInterval, zzTimeout, func(so *Socket) {
		l.mu.Lock()
		l.open = append(l.open, so)
		l.mu.Unlock()
	}, oc...)
	zzsym.Assert(err == nil && s != nil, "server starts")
	l.on(s)
	return s, l
}

func (l *zzLog) last() *Socket {
	l.mu.Lock()
	defer l.mu.Unlock()
	if len(l.open) == 0 {
		return nil
	}
	return l.open[len(l.open)-1]
}

// zzOpenWs opens a websocket session and consumes its open packet.
func zzOpenWs(s *Server, l *zzLog) (*Socket, *websocket.Conn) {
	w := zzOpenWsW(s, l)
	return l.last(), w.client
}

func zzOpenWsW(s *Server, l *zzLog) *zzW {
	n := len(l.open)
	w := zzGo(s, zzReq("GET", "EIO=3&transport=websocket", zzWsHeader(), nil))
	zzsym.Quiesce()
	zzsym.Assert(w.client != nil, "websocket accepted")
	zzsym.Assert(len(l.open) == n+1, "session reported open")
	typ, data, ok := w.client.ZZTake()
	zzsym.Assert(ok && typ == websocket.TextMessage && len(data) > 0 && data[0] == '0', "first packet is open")
	return w
}

// zzOpenPoll opens a polling session, consuming the open packet.
func zzOpenPoll(s *Server, l *zzLog) *Socket {
	n := len(l.open)
	w := zzGo(s, zzReq("GET", "EIO=3&transport=polling", nil, nil))
	zzsym.Quiesce()
	zzsym.Assert(w.finished() && w.status == 200 && len(w.body) > 4 && w.body[0] == 0, "polling accepted")
	zzsym.Assert(len(l.open) == n+1, "session reported open")
	return l.last()
}

func zzPoll(s *Server, so *Socket) *zzW {
	return zzGo(s, zzReq("GET", "EIO=3&transport=polling&sid="+so.Sid(), nil, nil))
}

func zzPost(s *Server, so *Socket, xhr2 bool, ps ...Packet) *zzW {
	var b []byte
	for _, p := range ps {
		b = append(b, zzSpec(p, xhr2)...)
	}
	h := http.Header{"Content-Type": {"text/plain; charset=UTF-8"}}
	if xhr2 {
		h = http.Header{"Content-Type": {"application/octet-stream"}}
	}
	return zzGo(s, zzReq("POST", "EIO=3&transport=polling&sid="+so.Sid(), h, b))
}

// zzGot decodes the binary body of a poll.
func zzGot(w *zzW) []Packet {
	p := Payload{xhr2: true}
	_, err := p.ReadFrom(bytes.NewReader(w.body))
	zzsym.Assert(err == nil, "poll body decodes")
	return p.packets
}

// zzWsPacket is a packet as it travels over a websocket.
func zzWsPacket(p Packet) (int, []byte) {
	if p.msgType == MessageTypeBinary {
		return websocket.BinaryMessage, append([]byte{byte(p.pktType)}, p.data...)
	}
	return websocket.TextMessage, append([]byte{'0' + byte(p.pktType)}, p.data...)
}

func zzWsSend(c *websocket.Conn, p Packet) {
	t, b := zzWsPacket(p)
	c.WriteMessage(t, b)
}

func zzWsGot(c *websocket.Conn) (out []Packet) {
	for {
		t, b, ok := c.ZZTake()
		if !ok {
			return
		}
		zzsym.Assert(len(b) > 0, "websocket frame carries a type")
		if t == websocket.TextMessage {
			out = append(out, Packet{msgType: MessageTypeString, pktType: PacketType(b[0] - '0'), data: b[1:]})
		} else {
			out = append(out, Packet{msgType: MessageTypeBinary, pktType: PacketType(b[0]), data: b[1:]})
		}
	}
}

// zzDecode decodes the body of a poll in one of the two payload encodings.
func zzDecode(w *zzW, xhr2 bool) []Packet {
	p := Payload{xhr2: xhr2}
	_, err := p.ReadFrom(bytes.NewReader(w.body))
	zzsym.Assert(err == nil, "poll body decodes")
	return p.packets
}
