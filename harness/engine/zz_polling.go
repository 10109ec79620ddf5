package engine

import (
	"bytes"
	"mime"
	"net/http"
	"strings"

	"github.com/zyxar/socketio/zzsym"
)

// zzType compares a Content-Type with the one an encoding has.
func zzType(w *zzW, want string) {
	mt, ps, err := mime.ParseMediaType(w.contentType())
	zzsym.Assert(err == nil && mt == want, "content type of the encoding")
	if want != "application/octet-stream" {
		zzsym.Assert(strings.ToLower(ps["charset"]) == "utf-8", "charset of the encoding")
	}
}

// zzUTF8 restricts text to valid UTF-8 of one-byte and two-byte characters.
func zzText(name string, n int) []byte {
	b := zzsym.Bytes(name, n)
	i := 0
	for i < n {
		if n-i >= 3 && zzsym.Choice(name+" wide", 2) == 1 {
			// U+2000..U+203F: among them the two line separators of JavaScript
			zzsym.Assume(b[i] == 0xe2 && b[i+1] == 0x80 && b[i+2] >= 0x80 && b[i+2] <= 0xbf)
			i += 3
			continue
		}
		zzsym.Assume(b[i] < 0x80)
		i++
	}
	return b
}

// ZZC18get: polls in each encoding.
func ZZC18get() {
	s, l := zzServer()
	so := zzOpenPoll(s, l)
	n := zzsym.Param("packets", 2)
	enc := zzsym.Choice("encoding", 6)
	q := []string{"", "&b64=1", "&b64=0", "&b64=", "&j=7", "&j=12&b64=1"}[enc]
	evs := []event{EventMessage, EventPong, EventOpen}
	types := []PacketType{PacketTypeMessage, PacketTypePong, PacketTypeOpen}
	var want []Packet
	e := zzsym.Choice("event", len(evs))
	for i := 0; i < n; i++ {
		p := Packet{msgType: MessageType(zzsym.Choice("kind", 2)), pktType: types[e]}
		ln := zzsym.Choice("len", zzsym.Param("len", 2)+1)
		if p.msgType == MessageTypeString {
			p.data = zzsym.Bytes("data", ln)
			for _, c := range p.data {
				// what needs escaping in JSONP is C24's
				zzsym.Assume(enc < 4 || c >= 'A' && c <= 'Z')
			}
		} else {
			p.data = zzsym.Bytes("data", ln)
		}
		want = append(want, p)
	}
	waiting := zzsym.Choice("poll first", 2) == 1
	var w *zzW
	poll := func() {
		w = zzGo(s, zzReq("GET", "EIO=3&transport=polling&sid="+so.Sid()+q, nil, nil))
		zzsym.Quiesce()
	}
	if waiting {
		poll()
		zzsym.Assert(!w.finished(), "a poll waits for a packet")
	}
	for i := range want {
		zzsym.Assert(so.Emit(evs[e], want[i].msgType, want[i].data) == nil, "accepted")
	}
	zzsym.Quiesce()
	for i := range want {
		if i > 0 || !waiting {
			poll()
		}
		zzsym.Assert(w.finished() && w.status == 200, "poll answered")
		switch enc {
		case 0, 2, 3:
			zzType(w, "application/octet-stream")
			zzsym.Assert(zzsym.EqBytes(w.body, zzSpec(want[i], true)), "binary encoding of the next packet")
		case 1:
			zzType(w, "text/plain")
			zzsym.Assert(zzsym.EqBytes(w.body, zzSpec(want[i], false)), "text encoding of the next packet")
		case 4:
			zzType(w, "text/javascript")
			zzsym.Assert(zzsym.EqBytes(zzJSONP(w.body, "7"), zzSpec(want[i], false)), "JSONP call with the text encoding of the next packet")
		case 5:
			zzType(w, "text/javascript")
			zzsym.Assert(zzsym.EqBytes(zzJSONP(w.body, "12"), zzSpec(want[i], false)), "JSONP call with the text encoding of the next packet")
		}
	}
	poll()
	zzsym.Assert(!w.finished(), "nothing is delivered twice")
	zzsym.Cover("polled")
}

// zzJSONP takes a JSONP body apart and evaluates its string literal as a
// JavaScript engine would, to UTF-8.
func zzJSONP(body []byte, index string) []byte {
	head := []byte("___eio[" + index + "](\"")
	tail := []byte("\");")
	zzsym.Assert(len(body) >= len(head)+len(tail), "JSONP call")
	zzsym.Assert(bytes.Equal(body[:len(head)], head), "JSONP call starts with the index asked for")
	zzsym.Assert(bytes.Equal(body[len(body)-len(tail):], tail), "JSONP call ends with its string")
	lit := body[len(head) : len(body)-len(tail)]
	var out []byte
	hex := func(b []byte) (v rune) {
		for _, c := range b {
			switch {
			case c >= '0' && c <= '9':
				v = v<<4 | rune(c-'0')
			case c >= 'a' && c <= 'f':
				v = v<<4 | rune(c-'a'+10)
			case c >= 'A' && c <= 'F':
				v = v<<4 | rune(c-'A'+10)
			default:
				zzsym.Fail("bad escape")
			}
		}
		return
	}
	for i := 0; i < len(lit); i++ {
		c := lit[i]
		if c == '"' || c == '\n' || c == '\r' {
			zzsym.Fail("the string is left early")
		}
		if c != '\\' {
			if c == 0xe2 && i+2 < len(lit) && lit[i+1] == 0x80 {
				zzsym.Assert(lit[i+2] != 0xa8 && lit[i+2] != 0xa9, "no raw line separator")
			}
			out = append(out, c)
			continue
		}
		i++
		zzsym.Assert(i < len(lit), "the last quote is not escaped")
		switch c = lit[i]; c {
		case 'n':
			out = append(out, '\n')
		case 'r':
			out = append(out, '\r')
		case 't':
			out = append(out, '\t')
		case 'b':
			out = append(out, '\b')
		case 'f':
			out = append(out, '\f')
		case 'v':
			out = append(out, '\v')
		case 'u', 'x':
			k := 2
			if c == 'u' {
				k = 4
			}
			zzsym.Assert(i+k < len(lit)+0 || i+k == len(lit)-1, "whole escape")
			v := hex(lit[i+1 : i+1+k])
			i += k
			switch {
			case v < 0x80:
				out = append(out, byte(v))
			case v < 0x800:
				out = append(out, 0xc0|byte(v>>6), 0x80|byte(v)&0x3f)
			default:
				out = append(out, 0xe0|byte(v>>12), 0x80|byte(v>>6)&0x3f, 0x80|byte(v)&0x3f)
			}
		case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
			zzsym.Fail("octal escape")
		default:
			out = append(out, c)
		}
	}
	return out
}

// zzHeard compares what a session reported with packets.
func zzHeard(l *zzLog, so *Socket, ps []Packet) {
	got := l.of(so, EventMessage)
	zzsym.Assert(len(got) == len(ps), "every packet handed over once")
	for i := range got {
		zzsym.Assert(got[i].typ == ps[i].msgType, "kind handed over")
		zzsym.Assert(zzsym.EqBytes(got[i].data, ps[i].data), "data handed over in order")
	}
}

// ZZC18post: posts in both encodings.
func ZZC18post() {
	s, l := zzServer()
	other := zzOpenPoll(s, l)
	so := zzOpenPoll(s, l)
	n := zzsym.Param("packets", 2)
	posts := zzsym.Param("posts", 2)
	var all []Packet
	for k := 0; k < posts; k++ {
		var ps []Packet
		for i := zzsym.Choice("packets", n+1); i > 0; i-- {
			ps = append(ps, Packet{msgType: MessageType(zzsym.Choice("kind", 2)), pktType: PacketTypeMessage, data: zzsym.Bytes("data", zzsym.Choice("len", zzsym.Param("len", 1)+1))})
		}
		w := zzPost(s, so, zzsym.Choice("binary", 2) == 1, ps...)
		zzsym.Quiesce()
		zzsym.Assert(w.finished() && w.status == 200, "post accepted")
		all = append(all, ps...)
		zzHeard(l, so, all)
	}
	zzsym.Assert(len(l.of(other, EventMessage)) == 0, "other session hears nothing")
	zzsym.Cover("posted")
}

// ZZC18many: bodies of more packets than the session buffers.
func ZZC18many() {
	s, l := zzServer()
	so := zzOpenPoll(s, l)
	var ps []Packet
	for i := 0; i < zzsym.Param("packets", 20); i++ {
		ps = append(ps, zzMsg(byte('A'+i%20), zzsym.Byte("data")))
	}
	if zzsym.Param("races", 1) == 1 {
		zzsym.Races()
	}
	zzsym.Delays(zzsym.Param("delays", 1))
	w := zzPost(s, so, true, ps...)
	zzsym.Quiesce()
	zzsym.Assert(w.finished() && w.status == 200, "post accepted")
	zzHeard(l, so, ps)
	zzsym.Cover("posted")
}

// ZZC18refuse: requests that are not accepted.
func ZZC18refuse() {
	s, l := zzServer()
	so := zzOpenPoll(s, l)
	ps := []Packet{zzMsg('a'), zzMsg('b')}
	xhr2 := zzsym.Choice("binary", 2) == 1
	var body []byte
	for _, p := range ps {
		body = append(body, zzSpec(p, xhr2)...)
	}
	method := "POST"
	mt, cs := "text/plain", "UTF-8"
	if xhr2 {
		mt, cs = "application/octet-stream", ""
	}
	whole := true
	switch zzsym.Choice("dimension", 5) {
	case 0:
		method = zzNear("method", "POST")
	case 1:
		method = []string{"PUT", "HEAD", "DELETE", "OPTIONS", "PATCH", "get", "post"}[zzsym.Choice("other method", 7)]
	case 2:
		mt = zzNear("media type", mt)
	case 3:
		if xhr2 {
			return
		}
		cs = zzNear("charset", "utf-8")
	case 4:
		body = body[:zzsym.Choice("cut", len(body)-1)+1]
		whole = len(body) == len(zzSpec(ps[0], xhr2))
		if whole {
			ps = ps[:1]
		}
	}
	h := http.Header{}
	ct := mt
	if cs != "" {
		ct += "; charset=" + cs
	}
	if ct != "" {
		h.Set("Content-Type", ct)
	}
	gotType, params, err := mime.ParseMediaType(ct)
	ok := method == "POST" && whole && err == nil &&
		(xhr2 && gotType == "application/octet-stream" || !xhr2 && gotType == "text/plain" && strings.ToLower(params["charset"]) == "utf-8")
	if method == "GET" {
		return
	}
	w := zzGo(s, zzReq(method, "EIO=3&transport=polling&sid="+so.Sid(), h, body))
	zzsym.Quiesce()
	zzsym.Assert(w.finished(), "answered")
	if ok {
		zzsym.Assert(w.status == 200, "post accepted")
		zzHeard(l, so, ps)
		zzsym.Cover("accepted")
	} else {
		zzsym.Assert(w.status >= 400, "error status")
		zzHeard(l, so, nil)
		zzsym.Cover("refused")
	}
	zzsym.Assert(len(l.evs) == len(l.of(so, EventMessage)), "no other callback")
	// the session goes on
	zzsym.Assert(so.Emit(EventMessage, MessageTypeString, "p") == nil, "session takes packets")
	zzsym.Quiesce()
	w = zzPoll(s, so)
	zzsym.Quiesce()
	zzsym.Assert(w.finished() && w.status == 200 && string(zzGot(w)[0].data) == "p", "and delivers them")
}

// ZZC18closed: a session that has been closed, with packets on their way.
func ZZC18closed() {
	s, l := zzServer()
	so := zzOpenPoll(s, l)
	conn := so.current()
	if zzsym.Choice("emitted", 2) == 1 {
		so.Emit(EventMessage, MessageTypeString, "p")
		zzsym.Quiesce()
	}
	so.Close()
	h := conn.(http.Handler)
	if zzsym.Choice("settled", 2) == 1 {
		zzsym.Quiesce()
	}
	evs := len(l.of(so, EventMessage))
	var w *zzW
	viaServer := zzsym.Choice("via", 2) == 0
	if viaServer {
		h = s
	}
	if zzsym.Choice("request", 2) == 0 {
		w = zzGo(h, zzReq("GET", "EIO=3&transport=polling&sid="+so.Sid(), nil, nil))
	} else {
		w = zzGo(h, zzReq("POST", "EIO=3&transport=polling&sid="+so.Sid(), http.Header{"Content-Type": {"application/octet-stream"}}, zzSpec(zzMsg('x'), true)))
	}
	zzsym.Quiesce()
	zzsym.Assert(w.finished() && w.status >= 400, "refused")
	zzsym.Assert(len(l.of(so, EventMessage)) == evs, "nothing handed over")
	zzsym.Cover("closed")
}

// ZZC18overlap: polls that overlap, are abandoned, and race with emits.
func ZZC18overlap() {
	s, l := zzServer()
	so := zzOpenPoll(s, l)
	n := zzsym.Param("messages", 3)
	if zzsym.Choice("abandoned poll", 2) == 1 {
		w := zzPoll(s, so)
		zzsym.Quiesce()
		w.cancel()
		zzsym.Quiesce()
		zzsym.Assert(w.finished() && w.status >= 400, "abandoned poll ends")
	}
	if zzsym.Param("races", 1) == 1 {
		zzsym.Races()
	}
	zzsym.Delays(zzsym.Param("delays", 2))
	for i := 0; i < n; i++ {
		i := i
		go so.Emit(EventMessage, MessageTypeString, []byte{byte(i), zzsym.Byte("data")})
	}
	var ws []*zzW
	for i := 0; i < n; i++ {
		ws = append(ws, zzPoll(s, so))
	}
	zzsym.Quiesce()
	seen := 0
	for _, w := range ws {
		zzsym.Assert(w.finished() && w.status == 200, "every poll is answered")
		zzType(w, "application/octet-stream")
		g := zzGot(w)
		zzsym.Assert(len(g) == 1 && len(g[0].data) == 2, "with one packet")
		seen |= 1 << g[0].data[0]
	}
	zzsym.Assert(seen == 1<<uint(n)-1, "each packet goes to one poll")
	w := zzPoll(s, so)
	zzsym.Quiesce()
	zzsym.Assert(!w.finished(), "and to one only")
	zzsym.Cover("overlapping")
}

// ZZC24data: text that needs escaping.
func ZZC24data() {
	s, l := zzServer()
	so := zzOpenPoll(s, l)
	p := Packet{msgType: MessageTypeString, pktType: PacketTypeMessage}
	n := zzsym.Choice("len", zzsym.Param("len", 3)+1)
	p.data = zzText("data", n)
	if zzsym.Choice("binary", 2) == 1 {
		p.msgType = MessageTypeBinary
	}
	w := zzGo(s, zzReq("GET", "EIO=3&transport=polling&sid="+so.Sid()+"&j=0", nil, nil))
	zzsym.Assert(so.Emit(EventMessage, p.msgType, p.data) == nil, "accepted")
	zzsym.Quiesce()
	zzsym.Assert(w.finished() && w.status == 200, "poll answered")
	zzType(w, "text/javascript")
	zzsym.Assert(zzsym.EqBytes(zzJSONP(w.body, "0"), zzSpec(p, false)), "the string is the text encoding of the packet")
	zzsym.Cover("call")
}

// ZZC24index: anything as the index.
// ZZC24long: the answer is long and has characters to escape at its edges.
func ZZC24long() {
	lens := []int{63, 64, 65, 255, 256, 257, 511, 513, 1023, 1025, 4095, 4097, 32767, 65537}
	n := lens[zzsym.Choice("length", zzsym.Param("lengths", 12))]
	s, l := zzServer()
	so := zzOpenPoll(s, l)
	p := Packet{msgType: MessageTypeString, pktType: PacketTypeMessage}
	p.data = make([]byte, n)
	for i := range p.data {
		p.data[i] = 'x'
	}
	at := []int{0, n / 2, n - 1}[zzsym.Choice("at", 3)]
	p.data[at] = zzsym.Byte("data")
	zzsym.Assume(p.data[at] < 0x80)
	if zzsym.Choice("binary", 2) == 1 {
		p.msgType = MessageTypeBinary
	}
	w := zzGo(s, zzReq("GET", "EIO=3&transport=polling&sid="+so.Sid()+"&j=0", nil, nil))
	zzsym.Assert(so.Emit(EventMessage, p.msgType, p.data) == nil, "accepted")
	zzsym.Quiesce()
	zzsym.Assert(w.finished() && w.status == 200, "poll answered")
	zzType(w, "text/javascript")
	zzsym.Assert(zzsym.EqBytes(zzJSONP(w.body, "0"), zzSpec(p, false)), "the string is the text encoding of the packet")
}

func ZZC24index() {
	s, l := zzServer()
	so := zzOpenPoll(s, l)
	n := 1 + zzsym.Choice("len", zzsym.Param("len", 3))
	j := zzsym.Bytes("index", n)
	q := "&j="
	digits := ""
	const hex = "0123456789ABCDEF"
	for i := range j {
		q += "%" + string([]byte{hex[j[i]>>4], hex[j[i]&15]})
		if j[i] >= '0' && j[i] <= '9' {
			digits += string([]byte{j[i]})
		}
	}
	w := zzGo(s, zzReq("GET", "EIO=3&transport=polling&sid="+so.Sid()+q, nil, nil))
	zzsym.Assert(so.Emit(EventMessage, MessageTypeString, "\"") == nil, "accepted")
	zzsym.Quiesce()
	zzsym.Assert(w.finished() && w.status == 200, "poll answered")
	zzType(w, "text/javascript")
	head := "___eio["
	zzsym.Assert(len(w.body) > len(head) && string(w.body[:len(head)]) == head, "JSONP call")
	i := len(head)
	for i < len(w.body) && w.body[i] >= '0' && w.body[i] <= '9' {
		i++
	}
	zzsym.Assert(zzsym.EqString(string(w.body[len(head):i]), digits), "the index is the digits asked for")
	zzsym.Assert(zzsym.EqBytes(zzJSONP(w.body, string(w.body[len(head):i])), zzSpec(zzMsg('"'), false)), "and the rest one call")
	zzsym.Cover("call")
}

// ZZC24open: the open packet of a session begun by JSONP.
func ZZC24open() {
	s, l := zzServer()
	j := []string{"0", "12", "%22", "1)%3Balert(2", "%5D%2F%2F3"}[zzsym.Choice("index", 5)]
	n := []string{"0", "12", "", "12", "3"}
	_ = n
	w := zzGo(s, zzReq("GET", "EIO=3&transport=polling&j="+j, nil, nil))
	zzsym.Quiesce()
	if !w.finished() || w.status != 200 {
		zzsym.Assert(w.finished() && w.status >= 400, "answered")
		return
	}
	i := 7
	for i < len(w.body) && w.body[i] >= '0' && w.body[i] <= '9' {
		i++
	}
	lit := zzJSONP(w.body, string(w.body[7:i]))
	p := Payload{}
	_, err := p.ReadFrom(bytes.NewReader(lit))
	zzsym.Assert(err == nil && len(p.packets) == 1 && p.packets[0].pktType == PacketTypeOpen, "carries the open packet")
	zzC17open(p.packets[0].data, l.last().Sid(), transportPolling, zzInterval, zzTimeout)
	zzsym.Cover("open")
}
