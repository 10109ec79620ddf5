package engine

import (
	"encoding/json"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/gorilla/websocket"
	"github.com/zyxar/socketio/zzsym"
)

type zzOrigin struct {
	ok    bool
	asked *int
}

func (o zzOrigin) CheckOrigin(*http.Request) bool { *o.asked++; return o.ok }

// zzNear is the word, or a word one step away from it: nothing, a byte
// replaced by any other, a byte appended, or the last one dropped.
func zzNear(name, word string) string {
	switch zzsym.Choice(name, 5) {
	case 0:
		return word
	case 1:
		return ""
	case 2:
		return word + string(zzsym.Bytes(name, 1))
	case 3:
		return word[:len(word)-1]
	}
	b := []byte(word)
	at := 0
	if len(b) > 1 {
		at = zzsym.Choice(name+" at", 3) * (len(b) - 1) / 2
	}
	b[at] = zzsym.Byte(name)
	return string(b)
}

// ZZC17admit: which requests are served.
func ZZC17admit() {
	asked := 0
	var ocs []OriginChecker
	allowed := true
	switch vary := zzsym.Choice("checkers", 5); vary {
	case 0:
	case 1, 2:
		allowed = vary == 1
		ocs = []OriginChecker{zzOrigin{allowed, &asked}}
	case 3, 4:
		allowed = false
		ocs = []OriginChecker{zzOrigin{vary == 3, &asked}, nil, zzOrigin{vary == 4, &asked}}
	}
	s, l := zzServer(ocs...)
	var psid, wsid string
	var pso, wso *Socket
	var wc *websocket.Conn
	if allowed {
		pso = zzOpenPoll(s, l)
		wso, wc = zzOpenWs(s, l)
		psid, wsid = pso.Sid(), wso.Sid()
	} else {
		// the checkers would refuse these too, were they asked
		psid, wsid = "psid", "wsid"
	}
	live := zzsym.LiveGoroutines()
	n := len(l.open)

	// at most one or two of the dimensions leave the right value
	eio, transport, sid := Version, transportPolling, ""
	if zzsym.Choice("websocket", 2) == 1 {
		transport = transportWebsocket
	}
	known := transport
	which := zzsym.Choice("session", 3)
	target := pso
	switch which {
	case 1:
		sid = psid
	case 2:
		sid = wsid
		target = wso
	}
	switch zzsym.Choice("dimension", 4) {
	case 0:
		eio = zzNear("EIO", Version)
	case 1:
		transport = zzNear("transport", known)
	case 2:
		if sid == "" {
			sid = string(zzsym.Bytes("sid", zzsym.Choice("sid length", 3)))
		} else {
			sid = zzNear("sid", sid)
		}
	case 3:
	}
	q := url.Values{}
	raw := ""
	for _, kv := range [][2]string{{"EIO", eio}, {"transport", transport}, {"sid", sid}} {
		if kv[1] == "" {
			continue
		}
		if raw != "" {
			raw += "&"
		}
		raw += kv[0] + "=" + kv[1]
	}
	q, _ = url.ParseQuery(raw)
	eio, transport, sid = q.Get("EIO"), q.Get("transport"), q.Get("sid")
	ok := eio == Version && (transport == transportPolling || transport == transportWebsocket)
	fresh, upgrade := false, false
	if ok {
		switch {
		case sid == "":
			fresh = true
		case !allowed:
			ok = false
		case sid == psid:
			upgrade = transport == transportWebsocket
		case sid == wsid:
			target = wso
			ok = transport == transportWebsocket
		default:
			ok = false
		}
	}
	if fresh || upgrade {
		ok = ok && allowed
	}
	method := "GET"
	if !ok {
		method = []string{"GET", "POST", "OPTIONS", "HEAD", "DELETE"}[zzsym.Choice("method", 5)]
	}
	w := zzGo(s, zzReq(method, raw, zzWsHeader(), nil))
	zzsym.Quiesce()
	if !ok {
		zzsym.Assert(w.finished(), "refused at once")
		zzsym.Assert(w.client == nil && w.status >= 400 && w.status < 500, "refused with a 4xx status")
		zzsym.Assert(len(l.open) == n, "no session is created")
		zzsym.Assert(len(l.evs) == 0, "no callback runs")
		zzsym.Assert(zzsym.LiveGoroutines() == live, "nothing is left running")
		zzsym.Cover("refused")
	} else if fresh {
		zzsym.Assert(len(l.open) == n+1, "one session is created")
		so := l.last()
		var first []byte
		if transport == transportPolling {
			zzsym.Assert(w.finished() && w.status == 200, "polling request answered")
			g := zzGot(w)
			zzsym.Assert(len(g) == 1 && g[0].pktType == PacketTypeOpen && g[0].msgType == MessageTypeString, "first packet is the open packet")
			first = g[0].data
		} else {
			zzsym.Assert(w.client != nil, "websocket accepted")
			g := zzWsGot(w.client)
			zzsym.Assert(len(g) == 1 && g[0].pktType == PacketTypeOpen && g[0].msgType == MessageTypeString, "first packet is the open packet")
			first = g[0].data
		}
		zzC17open(first, so.Sid(), transport, zzInterval, zzTimeout)
		zzsym.Assert(so.Sid() != psid && so.Sid() != wsid, "with an id of its own")
		zzsym.Assert(asked == 0 || asked == 3, "checkers are asked") // once for each session opened
		zzsym.Cover("admitted")
	} else {
		zzsym.Assert(len(l.open) == n && len(l.evs) == 0, "no session is created")
		if w.client != nil {
			w.client.Close()
		} else {
			w.cancel()
		}
		zzsym.Quiesce()
		_ = target
		zzsym.Cover("served")
	}
	if allowed {
		zzC17untouched(s, l, pso, wso, wc)
	}
}

// zzC17open checks an open packet.
func zzC17open(data []byte, sid, transport string, interval, timeout time.Duration) {
	var m map[string]interface{}
	zzsym.Assert(json.Unmarshal(data, &m) == nil, "open packet is JSON")
	zzsym.Assert(len(m) == 4, "with four members")
	zzsym.Assert(m["sid"] == interface{}(sid), "session id announced")
	zzsym.Assert(m["pingInterval"] == interface{}(float64(int64(interval/time.Millisecond))), "ping interval in milliseconds")
	zzsym.Assert(m["pingTimeout"] == interface{}(float64(int64(timeout/time.Millisecond))), "ping timeout in milliseconds")
	ups, isList := m["upgrades"].([]interface{})
	zzsym.Assert(isList, "upgrades are a list")
	for _, u := range ups {
		zzsym.Assert(u == interface{}(transportWebsocket), "upgrades known")
	}
	zzsym.Assert(len(ups) <= 1, "upgrades offered once")
	if transport == transportPolling {
		zzsym.Assert(len(ups) == 1, "websocket upgrade offered")
	}
}

// zzC17untouched: sessions that were there before still work.
func zzC17untouched(s *Server, l *zzLog, pso, wso *Socket, wc *websocket.Conn) {
	zzsym.Assert(len(l.of(pso, EventClose)) == 0 && len(l.of(wso, EventClose)) == 0, "not closed")
	zzsym.Assert(pso.Emit(EventMessage, MessageTypeString, "p") == nil && wso.Emit(EventMessage, MessageTypeString, "w") == nil, "live sessions take packets")
	zzsym.Quiesce()
	w := zzPoll(s, pso)
	zzsym.Quiesce()
	zzsym.Assert(w.finished() && w.status == 200, "poll answered")
	g := zzGot(w)
	zzsym.Assert(len(g) == 1 && string(g[0].data) == "p", "live polling session delivers")
	g = zzWsGot(wc)
	zzsym.Assert(len(g) == 1 && string(g[0].data) == "w", "live websocket session delivers")
	zzWsSend(wc, zzMsg('W'))
	zzPost(s, pso, true, zzMsg('P'))
	zzsym.Quiesce()
	e := l.of(wso, EventMessage)
	zzsym.Assert(len(e) == 1 && string(e[0].data) == "W", "live websocket session is heard")
	e = l.of(pso, EventMessage)
	zzsym.Assert(len(e) == 1 && string(e[0].data) == "P", "live polling session is heard")
}

// ZZC17config: the open packet for different configurations.
func ZZC17config() {
	ds := []time.Duration{time.Millisecond, 1500 * time.Microsecond, 25 * time.Second, time.Hour, 999 * time.Millisecond,
		1001 * time.Millisecond, 4350 * time.Millisecond, 1<<31*time.Millisecond + time.Microsecond}
	i, t := ds[zzsym.Choice("interval", len(ds))], ds[zzsym.Choice("timeout", len(ds))]
	var opened []*Socket
	s, err := NewServer(i, t, func(so *Socket) { opened = append(opened, so) })
	zzsym.Assert(err == nil, "server starts")
	transport := []string{transportPolling, transportWebsocket}[zzsym.Choice("transport", 2)]
	q := "EIO=3&transport=" + transport
	if zzsym.Choice("base64", 2) == 1 {
		q += "&b64=1"
	}
	w := zzGo(s, zzReq("GET", q, zzWsHeader(), nil))
	zzsym.Quiesce()
	var first []byte
	if transport == transportPolling {
		p := Payload{xhr2: true}
		if len(q) > 25 {
			p.xhr2 = false
		}
		zzsym.Assert(w.finished() && w.status == 200, "answered")
		first = zzDecode(w, p.xhr2)[0].data
	} else {
		first = zzWsGot(w.client)[0].data
	}
	zzsym.Assert(len(opened) == 1, "one session")
	zzC17open(first, opened[0].Sid(), transport, i, t)
	zzsym.Cover("configured")
}

// ZZC17times: every interval and timeout of up to so many milliseconds, to the digit.
func ZZC17times() {
	n := zzsym.Param("digits", 3)
	val := func(name string) (time.Duration, []byte) {
		k := 1 + zzsym.Choice(name+" digits", n)
		b := zzsym.Bytes(name, k)
		v := 0
		for i, c := range b {
			zzsym.Assume(c >= '0' && c <= '9' && (i > 0 || c != '0'))
			v = v*10 + int(c-'0')
		}
		return time.Duration(v)*time.Millisecond + time.Duration(zzsym.Choice(name+" rest", 2))*999*time.Microsecond, b
	}
	i, id, t, td := 25*time.Second, []byte("25000"), 4350*time.Millisecond, []byte("4350")
	if zzsym.Choice("which", 2) == 0 {
		i, id = val("interval")
	} else {
		t, td = val("timeout")
	}
	s, err := NewServer(i, t, func(so *Socket) {})
	zzsym.Assert(err == nil, "server starts")
	w := zzGo(s, zzReq("GET", "EIO=3&transport=websocket", zzWsHeader(), nil))
	zzsym.Quiesce()
	first := zzWsGot(w.client)[0].data
	for k, d := range map[string][]byte{`"pingInterval":`: id, `"pingTimeout":`: td} {
		at := strings.Index(string(first), k)
		zzsym.Assert(at > 0, "announced")
		at += len(k)
		zzsym.Assert(at+len(d) < len(first) && zzsym.EqBytes(first[at:at+len(d)], d), "the configured value is announced")
		e := first[at+len(d)]
		zzsym.Assert(e == ',' || e == '}', "the configured value is announced")
	}
	zzsym.Cover("announced")
}

// ZZC17dead: ids of sessions that have ended, and requests after another session ended.
func ZZC17dead() {
	s, l := zzServer()
	pso := zzOpenPoll(s, l)
	wso, wc := zzOpenWs(s, l)
	dead := zzOpenPoll(s, l)
	if zzsym.Choice("by", 2) == 0 {
		dead.Close()
	} else {
		zzPost(s, dead, true, Packet{msgType: MessageTypeString, pktType: PacketTypeClose})
	}
	zzsym.Quiesce()
	evs, n, live := len(l.evs), len(l.open), zzsym.LiveGoroutines()
	var w *zzW
	switch zzsym.Choice("request", 3) {
	case 0:
		w = zzPoll(s, dead)
	case 1:
		w = zzPost(s, dead, true, zzMsg('x'))
	case 2:
		w = zzGo(s, zzReq("GET", "EIO=3&transport=websocket&sid="+dead.Sid(), zzWsHeader(), nil))
	}
	zzsym.Quiesce()
	zzsym.Assert(w.finished() && w.client == nil && w.status >= 400 && w.status < 500, "refused with a 4xx status")
	zzsym.Assert(len(l.evs) == evs && len(l.open) == n && zzsym.LiveGoroutines() == live, "nothing happens")
	zzC17untouched(s, l, pso, wso, wc)
	zzsym.Cover("dead")
}

// zzByOrigin accepts requests by their Origin header.
type zzByOrigin struct{ want string }

func (o zzByOrigin) CheckOrigin(r *http.Request) bool { return r.Header.Get("Origin") == o.want }

// ZZC17origin: origins and handshakes of requests that open or upgrade a connection.
func ZZC17origin() {
	const good = "http://a"
	var ocs []OriginChecker
	checked := zzsym.Choice("checkers", 4)
	switch checked {
	case 1:
		ocs = []OriginChecker{zzByOrigin{good}}
	case 2:
		ocs = []OriginChecker{nil, zzByOrigin{good}, zzByOrigin{good}}
	case 3:
		ocs = []OriginChecker{zzByOrigin{good}, zzByOrigin{"http://b"}} // nothing satisfies both
	}
	s, l := zzServer(ocs...)
	do := zzsym.Choice("request", 3)
	var pso *Socket
	if do == 2 {
		if checked == 3 {
			return
		}
		w := zzGo(s, zzReq("GET", "EIO=3&transport=polling", http.Header{"Origin": {good}}, nil))
		zzsym.Quiesce()
		zzsym.Assert(w.finished() && w.status == 200 && len(l.open) == 1, "allowed origin is admitted")
		pso = l.last()
	}
	n, live := len(l.open), zzsym.LiveGoroutines()
	h := http.Header{}
	handshake := true
	if do != 0 {
		h = zzWsHeader()
		switch zzsym.Choice("handshake", 3) {
		case 1:
			h.Del("Upgrade")
			handshake = false
		case 2:
			h.Del("Connection")
			handshake = false
		}
	}
	origin := ""
	if zzsym.Choice("origin given", 2) == 1 {
		origin = zzNear("origin", good)
		h.Set("Origin", origin)
	}
	q := []string{"EIO=3&transport=polling", "EIO=3&transport=websocket", "EIO=3&transport=websocket&sid="}[do]
	if pso != nil {
		q += pso.Sid()
	}
	ok := handshake && (checked == 0 || checked != 3 && origin == good)
	w := zzGo(s, zzReq("GET", q, h, nil))
	zzsym.Quiesce()
	if !ok {
		zzsym.Assert(w.finished() && w.client == nil && w.status >= 400 && w.status < 500, "refused with a 4xx status")
		zzsym.Assert(len(l.open) == n && len(l.evs) == 0 && zzsym.LiveGoroutines() == live, "nothing happens")
		zzsym.Cover("refused")
	} else {
		switch do {
		case 0:
			zzsym.Assert(w.finished() && w.status == 200 && len(l.open) == 1, "allowed origin is admitted")
		case 1:
			zzsym.Assert(w.client != nil && len(l.open) == 1, "allowed origin is admitted")
		case 2:
			zzsym.Assert(w.client != nil && len(l.open) == 1, "allowed origin is admitted")
			w.client.Close()
			zzsym.Quiesce()
		}
		zzsym.Cover("admitted")
	}
	if pso != nil {
		zzsym.Assert(pso.Emit(EventMessage, MessageTypeString, "p") == nil, "live session takes packets")
		w = zzPoll(s, pso)
		zzsym.Quiesce()
		zzsym.Assert(w.finished() && w.status == 200, "poll answered")
		g := zzGot(w)
		zzsym.Assert(len(g) == 1 && string(g[0].data) == "p", "live session delivers")
		zzsym.Assert(len(l.evs) == 0, "no callback runs")
	}
}
