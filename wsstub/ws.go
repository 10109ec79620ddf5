// Package websocket stands in for github.com/gorilla/websocket in the checks:
// an in-memory, message-preserving full-duplex connection with the same API
// surface as the code under test uses.
package websocket

import (
	"errors"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"time"
)

const (
	TextMessage   = 1
	BinaryMessage = 2
	CloseMessage  = 8
)

var (
	ErrBadHandshake = errors.New("websocket: bad handshake")
	ErrCloseSent    = errors.New("websocket: close sent")
	errClosed       = errors.New("use of closed network connection")
	errAbnormal     = errors.New("websocket: close 1006 (abnormal closure): unexpected EOF")
	errWriteClosed  = errors.New("websocket: write to closed connection")
)

type timeoutError struct{}

func (timeoutError) Error() string   { return "i/o timeout" }
func (timeoutError) Timeout() bool   { return true }
func (timeoutError) Temporary() bool { return true }

type addr string

func (addr) Network() string  { return "ws" }
func (a addr) String() string { return string(a) }

type message struct {
	typ  int
	data []byte
}

// half is one direction of a connection.
type half struct {
	mu   sync.Mutex
	q    []message
	wake chan struct{} // closed and replaced whenever something changes
	done bool          // an end was closed
	full bool          // takes no message for now
}

func (h *half) change() {
	close(h.wake)
	h.wake = make(chan struct{})
}

// Conn is one end of the connection.
type Conn struct {
	in, out    *half
	mu         sync.Mutex
	rd, wd     time.Time
	closed     bool
	readErr    error
	writing    bool
	ZZWriteErr error // makes every following write fail
	closeErr   error // what Close returns, having closed the connection
	ZZWrites   int
}

// ZZPair makes a connected pair.
func ZZPair() (*Conn, *Conn) {
	a := &half{wake: make(chan struct{})}
	b := &half{wake: make(chan struct{})}
	return &Conn{in: a, out: b}, &Conn{in: b, out: a}
}

// point marks the start of an operation, where the checks' scheduler may
// switch to another goroutine.
func (c *Conn) point() {
	c.mu.Lock()
	c.mu.Unlock()
}

func (c *Conn) LocalAddr() net.Addr  { return addr("local") }
func (c *Conn) RemoteAddr() net.Addr { return addr("remote") }

// ZZFailWrites makes every following write of this end fail.
func (c *Conn) ZZFailWrites() {
	c.mu.Lock()
	c.ZZWriteErr = errors.New("write: broken pipe")
	c.mu.Unlock()
}

// ZZFailClose makes Close return an error, as that of a TLS connection may; the connection is closed all the same.
func (c *Conn) ZZFailClose() {
	c.mu.Lock()
	c.closeErr = errors.New("close: broken pipe")
	c.mu.Unlock()
}

func (c *Conn) Close() error {
	c.point()
	c.mu.Lock()
	was, err := c.closed, c.closeErr
	c.closed = true
	c.mu.Unlock()
	if was {
		return errClosed
	}
	for _, h := range []*half{c.in, c.out} {
		h.mu.Lock()
		h.done = true
		h.change()
		h.mu.Unlock()
	}
	return err
}

func (c *Conn) SetReadDeadline(t time.Time) error {
	c.point()
	c.mu.Lock()
	c.rd = t
	c.mu.Unlock()
	c.in.mu.Lock()
	c.in.change()
	c.in.mu.Unlock()
	return nil
}
func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	c.wd = t
	c.mu.Unlock()
	return nil
}

func (c *Conn) state() (closed bool, rd time.Time) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed, c.rd
}

type msgReader struct {
	b []byte
}

func (r *msgReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p, r.b)
	r.b = r.b[n:]
	return n, nil
}

// NextReader waits for the next message.
func (c *Conn) NextReader() (int, io.Reader, error) {
	if c.readErr != nil {
		return 0, nil, c.readErr
	}
	m, err := c.next()
	if err != nil {
		c.readErr = err
		return 0, nil, err
	}
	return m.typ, &msgReader{m.data}, nil
}

func (c *Conn) next() (message, error) {
	c.point()
	for {
		closed, rd := c.state()
		if closed {
			return message{}, errClosed
		}
		c.in.mu.Lock()
		if len(c.in.q) > 0 {
			m := c.in.q[0]
			c.in.q = c.in.q[1:]
			c.in.mu.Unlock()
			return m, nil
		}
		done, wake := c.in.done, c.in.wake
		c.in.mu.Unlock()
		if done {
			return message{}, errAbnormal
		}
		if rd.IsZero() {
			<-wake
			continue
		}
		d := rd.Sub(time.Now())
		if d <= 0 {
			return message{}, timeoutError{}
		}
		tm := time.NewTimer(d)
		select {
		case <-wake:
		case <-tm.C:
		}
		tm.Stop()
	}
}

func (c *Conn) ReadMessage() (int, []byte, error) {
	t, r, err := c.NextReader()
	if err != nil {
		return 0, nil, err
	}
	return t, r.(*msgReader).b, nil
}

// ZZPending returns the messages waiting at this end without consuming them.
func (c *Conn) ZZPending() int {
	c.in.mu.Lock()
	defer c.in.mu.Unlock()
	return len(c.in.q)
}

// ZZTake consumes one waiting message; ok is false when there is none.
func (c *Conn) ZZTake() (typ int, data []byte, ok bool) {
	c.in.mu.Lock()
	defer c.in.mu.Unlock()
	if len(c.in.q) == 0 {
		return 0, nil, false
	}
	m := c.in.q[0]
	c.in.q = c.in.q[1:]
	return m.typ, m.data, true
}

// ZZPeerClosed tells whether either end has been closed.
func (c *Conn) ZZPeerClosed() bool {
	c.in.mu.Lock()
	defer c.in.mu.Unlock()
	return c.in.done
}

type msgWriter struct {
	c    *Conn
	typ  int
	b    []byte
	done bool
}

func (w *msgWriter) Write(p []byte) (int, error) {
	if w.done {
		return 0, errWriteClosed
	}
	w.b = append(w.b, p...)
	return len(p), nil
}

func (w *msgWriter) Close() error {
	if w.done {
		return errWriteClosed
	}
	w.done = true
	w.c.mu.Lock()
	w.c.writing = false
	w.c.mu.Unlock()
	return w.c.send(message{w.typ, w.b})
}

// NextWriter returns a writer for the next message.
func (c *Conn) NextWriter(messageType int) (io.WriteCloser, error) {
	c.point()
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return nil, errClosed
	}
	if c.writing {
		panic("concurrent write to websocket connection")
	}
	if messageType != TextMessage && messageType != BinaryMessage {
		return nil, errors.New("websocket: bad write message type")
	}
	c.writing = true
	return &msgWriter{c: c, typ: messageType}, nil
}

func (c *Conn) WriteMessage(messageType int, data []byte) error {
	return c.send(message{messageType, append([]byte(nil), data...)})
}

func (c *Conn) send(m message) error {
	c.point()
	c.mu.Lock()
	closed, wd, werr := c.closed, c.wd, c.ZZWriteErr
	c.ZZWrites++
	c.mu.Unlock()
	if closed {
		return errClosed
	}
	if werr != nil {
		return werr
	}
	if !wd.IsZero() && !time.Now().Before(wd) {
		c.mu.Lock()
		c.ZZWriteErr = timeoutError{} // as in the real one, no write succeeds after that
		c.mu.Unlock()
		return timeoutError{}
	}
	for {
		c.out.mu.Lock()
		if c.out.done || !c.out.full {
			break
		}
		wake := c.out.wake
		c.out.mu.Unlock()
		if wd.IsZero() {
			<-wake
			continue
		}
		tm := time.NewTimer(wd.Sub(time.Now()))
		select {
		case <-wake:
			tm.Stop()
		case <-tm.C:
			c.mu.Lock()
			c.ZZWriteErr = timeoutError{}
			c.mu.Unlock()
			return timeoutError{}
		}
	}
	defer c.out.mu.Unlock()
	if c.out.done {
		return errWriteClosed
	}
	c.out.q = append(c.out.q, m)
	c.out.change()
	return nil
}

// ZZStall has every following write of the other end wait, as when this end does not read, until it is called
// with false or an end is closed.
func (c *Conn) ZZStall(full bool) {
	c.in.mu.Lock()
	c.in.full = full
	c.in.change()
	c.in.mu.Unlock()
}

// Hijacker is implemented by the harness's response writers that can be
// turned into a websocket.
type Hijacker interface {
	ZZHijack() (*Conn, error)
}

// Upgrader has the fields of the real one.
type Upgrader struct {
	HandshakeTimeout                time.Duration
	ReadBufferSize, WriteBufferSize int
	Subprotocols                    []string
	Error                           func(w http.ResponseWriter, r *http.Request, status int, reason error)
	CheckOrigin                     func(r *http.Request) bool
	EnableCompression               bool
}

func hasToken(h http.Header, name, tok string) bool {
	for _, v := range h[name] {
		for _, t := range strings.Split(v, ",") {
			if strings.EqualFold(strings.TrimSpace(t), tok) {
				return true
			}
		}
	}
	return false
}

func (u *Upgrader) fail(w http.ResponseWriter, r *http.Request, status int, reason string) (*Conn, error) {
	err := errors.New(reason)
	if u.Error != nil {
		u.Error(w, r, status, err)
	} else {
		w.Header().Set("Sec-Websocket-Version", "13")
		http.Error(w, http.StatusText(status), status)
	}
	return nil, err
}

func sameOrigin(r *http.Request) bool {
	o := r.Header.Get("Origin")
	if o == "" {
		return true
	}
	u, err := url.Parse(o)
	return err == nil && strings.EqualFold(u.Host, r.Host)
}

func (u *Upgrader) Upgrade(w http.ResponseWriter, r *http.Request, responseHeader http.Header) (*Conn, error) {
	if !hasToken(r.Header, "Connection", "upgrade") || !hasToken(r.Header, "Upgrade", "websocket") {
		return u.fail(w, r, http.StatusBadRequest, "websocket: the client is not using the websocket protocol")
	}
	if r.Method != "GET" {
		return u.fail(w, r, http.StatusMethodNotAllowed, "websocket: request method is not GET")
	}
	checkOrigin := u.CheckOrigin
	if checkOrigin == nil {
		checkOrigin = sameOrigin
	}
	if !checkOrigin(r) {
		return u.fail(w, r, http.StatusForbidden, "websocket: request origin not allowed by Upgrader.CheckOrigin")
	}
	h, ok := w.(Hijacker)
	if !ok {
		return u.fail(w, r, http.StatusInternalServerError, "websocket: response does not implement http.Hijacker")
	}
	c, err := h.ZZHijack()
	if err != nil {
		return u.fail(w, r, http.StatusInternalServerError, err.Error())
	}
	return c, nil
}

// Dialer has the fields used.
type Dialer struct {
	HandshakeTimeout                time.Duration
	ReadBufferSize, WriteBufferSize int
	Subprotocols                    []string
	Jar                             http.CookieJar
	EnableCompression               bool
}

// ZZDial is what Dial calls.
var ZZDial func(url string, h http.Header) (*Conn, error)

var DefaultDialer = &Dialer{}

func (d *Dialer) Dial(urlStr string, requestHeader http.Header) (*Conn, *http.Response, error) {
	if ZZDial == nil {
		return nil, nil, ErrBadHandshake
	}
	c, err := ZZDial(urlStr, requestHeader)
	return c, nil, err
}
