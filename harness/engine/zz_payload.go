package engine

import (
	"bytes"
	"encoding/base64"
	"errors"
	"io"
	"strconv"

	"github.com/zyxar/socketio/zzsym"
)

// zzPlain is an io.Reader (and nothing else) over b that splits it at the
// marked positions.
type zzPlain struct {
	b    []byte
	chop func(max int) int
	eof  bool // io.EOF comes with the last bytes
}

func (r *zzPlain) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if n > len(r.b) {
		n = len(r.b)
	}
	if n > 1 && r.chop != nil {
		n = r.chop(n)
	}
	copy(p, r.b[:n])
	r.b = r.b[n:]
	if r.eof && len(r.b) == 0 {
		return n, io.EOF
	}
	return n, nil
}

// zzByteRd adds io.ByteReader.
type zzByteRd struct{ zzPlain }

func (r *zzByteRd) ReadByte() (byte, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	c := r.b[0]
	r.b = r.b[1:]
	return c, nil
}

func zzPacket(maxLen int) Packet {
	l := zzsym.Choice("len", maxLen+1)
	t := zzsym.Byte("type")
	zzsym.Assume(t <= 6)
	return Packet{msgType: MessageType(zzsym.Choice("kind", 2)), pktType: PacketType(t), data: zzsym.Bytes("data", l)}
}

func zzSamePackets(a, b []Packet, label string) {
	zzsym.Assert(len(a) == len(b), label+": number of packets")
	for i := range a {
		zzsym.Assert(a[i].msgType == b[i].msgType, label+": kind")
		zzsym.Assert(a[i].pktType == b[i].pktType, label+": type")
		zzsym.Assert(zzsym.EqBytes(a[i].data, b[i].data), label+": data")
	}
}

// zzSpec is the engine.io v3 framing of one packet.
func zzSpec(p Packet, xhr2 bool) []byte {
	var out []byte
	if xhr2 {
		out = append(out, byte(p.msgType))
		for _, c := range strconv.Itoa(len(p.data) + 1) {
			out = append(out, byte(c-'0'))
		}
		out = append(out, 0xFF)
		if p.msgType == MessageTypeString {
			out = append(out, '0'+byte(p.pktType))
		} else {
			out = append(out, byte(p.pktType))
		}
		return append(out, p.data...)
	}
	if p.msgType == MessageTypeString {
		out = append(out, strconv.Itoa(len(p.data)+1)...)
		out = append(out, ':', '0'+byte(p.pktType))
		return append(out, p.data...)
	}
	e := zzB64(p.data)
	out = append(out, strconv.Itoa(len(e)+2)...)
	out = append(out, ':', 'b', '0'+byte(p.pktType))
	return append(out, e...)
}

const zzAlphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

// zzB64 is standard base64 written from RFC 4648.
func zzB64(b []byte) []byte {
	var out []byte
	for len(b) > 0 {
		var v uint32
		for i := 0; i < 3; i++ {
			v <<= 8
			if i < len(b) {
				v |= uint32(b[i])
			}
		}
		q := []byte{zzAlphabet[v>>18&63], zzAlphabet[v>>12&63], zzAlphabet[v>>6&63], zzAlphabet[v&63]}
		switch len(b) {
		case 1:
			q[2], q[3] = '=', '='
		case 2:
			q[3] = '='
		}
		out = append(out, q...)
		if len(b) < 3 {
			break
		}
		b = b[3:]
	}
	return out
}

// zzReader wraps b in a reader of a chosen shape and fragmentation.
func zzReader(b []byte, splits int) io.Reader {
	chop := func(max int) int {
		if splits == 0 {
			return max
		}
		splits--
		return 1 + zzsym.Choice("chunk", max)
	}
	switch zzsym.Choice("reader", 4) {
	case 0:
		return &zzPlain{b: b, chop: chop}
	case 1:
		return &zzByteRd{zzPlain{b: b, chop: chop}}
	case 2:
		return &zzByteRd{zzPlain{b: b, chop: chop, eof: true}}
	}
	return bytes.NewReader(b)
}

// ZZC01roundtrip: what is written is read back, whatever the fragmentation.
func ZZC01roundtrip() {
	xhr2 := zzsym.Choice("xhr2", 2) == 1
	n := 1 + zzsym.Choice("packets", zzsym.Param("packets", 2))
	var p Payload
	p.xhr2 = xhr2
	for i := 0; i < n; i++ {
		p.packets = append(p.packets, zzPacket(zzsym.Param("len", 4)))
	}
	var want []Packet
	for _, q := range p.packets {
		q.data = append([]byte(nil), q.data...)
		want = append(want, q)
	}
	var buf bytes.Buffer
	nn, err := p.WriteTo(&buf)
	zzsym.Assert(err == nil, "write succeeds")
	zzsym.Assert(nn == int64(buf.Len()), "written count is the bytes written")
	wire := append([]byte(nil), buf.Bytes()...)
	q := Payload{xhr2: xhr2}
	m, err := q.ReadFrom(zzReader(wire, zzsym.Param("splits", 2)))
	zzsym.Assert(err == nil, "read succeeds")
	zzsym.Assert(m == int64(len(wire)), "read count is the bytes consumed")
	zzSamePackets(q.packets, want, "round trip")
	zzsym.Obs(string(wire))
}

// ZZC01long: lengths around the internal buffer sizes (base64 chunks of 768
// and 1024 bytes, bufio's 4096), contents partly symbolic.
func ZZC01long() {
	lens := []int{255, 256, 600, 766, 767, 768, 769, 1023, 1025, 1535, 1537, 3071, 4090, 4096, 4097, 9000}
	xhr2 := zzsym.Choice("xhr2", 2) == 1
	l := lens[zzsym.Choice("length", len(lens))]
	d := make([]byte, l)
	for i := range d {
		d[i] = byte(i*7 + i>>8)
	}
	for i := 0; i < 3; i++ {
		d[i] = zzsym.Byte("head")
		d[l-1-i] = zzsym.Byte("tail")
	}
	t := zzsym.Byte("type")
	zzsym.Assume(t <= 6)
	want := []Packet{
		{msgType: MessageType(zzsym.Choice("kind", 2)), pktType: PacketType(t), data: d},
		{msgType: MessageType(zzsym.Choice("kind", 2)), pktType: PacketTypeMessage, data: zzsym.Bytes("second", 2)},
	}
	p := Payload{xhr2: xhr2, packets: append([]Packet(nil), want...)}
	var buf bytes.Buffer
	nn, err := p.WriteTo(&buf)
	zzsym.Assert(err == nil, "write succeeds")
	zzsym.Assert(nn == int64(buf.Len()), "written count is the bytes written")
	wire := append([]byte(nil), buf.Bytes()...)
	var r io.Reader
	step := []int{1 << 20, 1000, 511, 1}[zzsym.Choice("chunk", 4)]
	chop := func(max int) int {
		if max > step {
			return step
		}
		return max
	}
	switch zzsym.Choice("reader", 2) {
	case 0:
		r = &zzPlain{b: wire, chop: chop}
	case 1:
		r = &zzByteRd{zzPlain{b: wire, chop: chop}}
	}
	q := Payload{xhr2: xhr2}
	m, err := q.ReadFrom(r)
	zzsym.Assert(err == nil, "read succeeds")
	zzsym.Assert(m == int64(len(wire)), "read count is the bytes consumed")
	zzSamePackets(q.packets, want, "round trip")
	zzsym.Obs(string(wire[:20]))
}

// ZZC01large: packets too large for 16 bits, for 5 digits, for 20 bits.
func ZZC01large() {
	lens := []int{65534, 65535, 65536, 65537, 99998, 99999, 100000, 131071, 1<<20 - 1, 1 << 20, 1<<20 + 7}
	xhr2 := zzsym.Choice("xhr2", 2) == 1
	l := lens[zzsym.Choice("length", len(lens))]
	kind := zzsym.Choice("kind", 2)
	if !xhr2 && kind == 1 && l > 200000 {
		return // base64 of this much takes too many steps
	}
	d := make([]byte, l)
	for i := 0; i < 2; i++ {
		d[i] = zzsym.Byte("head")
		d[l-1-i] = zzsym.Byte("tail")
		zzsym.Assume(d[i] >= 0x80 && d[i] < 0xFF && d[l-1-i] >= 0x80 && d[l-1-i] < 0xFF) // no part of a length
	}
	want := []Packet{
		{msgType: MessageType(kind), pktType: PacketTypeMessage, data: d},
		{msgType: MessageTypeBinary, pktType: PacketTypeMessage, data: zzsym.Bytes("second", 2)},
	}
	p := Payload{xhr2: xhr2, packets: append([]Packet(nil), want...)}
	var buf bytes.Buffer
	nn, err := p.WriteTo(&buf)
	zzsym.Assert(err == nil, "write succeeds")
	zzsym.Assert(nn == int64(buf.Len()), "written count is the bytes written")
	wire := append([]byte(nil), buf.Bytes()...)
	all := func(max int) int { return max }
	var r io.Reader = &zzPlain{b: wire, chop: all}
	if zzsym.Choice("reader", 2) == 1 {
		r = &zzByteRd{zzPlain{b: wire, chop: all}}
	}
	q := Payload{xhr2: xhr2}
	m, err := q.ReadFrom(r)
	zzsym.Assert(err == nil, "read succeeds")
	zzsym.Assert(m == int64(len(wire)), "read count is the bytes consumed")
	zzSamePackets(q.packets, want, "round trip")
}

var errZZ = errors.New("zz: broken writer")

// zzFailWriter accepts n bytes and then fails.
type zzFailWriter struct {
	n   int
	got []byte
}

func (w *zzFailWriter) Write(p []byte) (int, error) {
	if len(p) > w.n {
		k := w.n
		w.got = append(w.got, p[:k]...)
		w.n = 0
		return k, errZZ
	}
	w.got = append(w.got, p...)
	w.n -= len(p)
	return len(p), nil
}

// ZZC01brokenWriter: a writer failing anywhere is reported, with the count of
// bytes that did go out.
func ZZC01brokenWriter() {
	xhr2 := zzsym.Choice("xhr2", 2) == 1
	p := Payload{xhr2: xhr2, packets: []Packet{zzPacket(zzsym.Param("len", 3)), zzPacket(1)}}
	var spec []byte
	for _, q := range p.packets {
		spec = append(spec, zzSpec(q, xhr2)...)
	}
	k := zzsym.Choice("accepted", len(spec)+1)
	w := &zzFailWriter{n: k}
	_, err := p.WriteTo(w)
	zzsym.Assert((err == nil) == (k == len(spec)), "a failed write is reported")
	zzsym.Assert(zzsym.EqBytes(w.got, spec[:k]), "what went out is a prefix of the payload")
}

// zzASCII: the data of text packets in the text encoding is ASCII (see ZZC02characters for the rest).
func zzASCII(q Packet, xhr2 bool) Packet {
	if !xhr2 && q.msgType == MessageTypeString {
		for i := range q.data {
			zzsym.Assume(q.data[i] < 0x80)
		}
	}
	return q
}

// zzCharacter is any one character that takes n bytes in UTF-8, with the number of UTF-16 units it takes.
func zzCharacter(n int) ([]byte, int) {
	b := zzsym.Bytes("char", n)
	for i := 1; i < n; i++ {
		zzsym.Assume(b[i]&0xC0 == 0x80)
	}
	switch n {
	case 1:
		zzsym.Assume(b[0] < 0x80)
	case 2:
		zzsym.Assume(zzsym.And(b[0] >= 0xC2, b[0] <= 0xDF))
	case 3:
		zzsym.Assume(zzsym.And(b[0] >= 0xE1, b[0] <= 0xEC))
	case 4:
		zzsym.Assume(zzsym.And(b[0] >= 0xF1, b[0] <= 0xF3))
		return b, 2
	}
	return b, 1
}

// ZZC02characters: the lengths of the text encoding count characters, as a JavaScript peer has them.
func ZZC02characters() {
	var data []byte
	units := 1
	for i, n := 0, 1+zzsym.Choice("characters", zzsym.Param("characters", 2)); i < n; i++ {
		c, u := zzCharacter(1 + zzsym.Choice("bytes", 4))
		data = append(data, c...)
		units += u
	}
	q := Packet{msgType: MessageTypeString, pktType: PacketTypeMessage, data: data}
	want := append(append([]byte(strconv.Itoa(units)), ':', '4'), data...)
	if zzsym.Choice("decode", 2) == 1 {
		var p Payload
		_, err := p.ReadFrom(bytes.NewReader(want))
		ok := err == nil && len(p.packets) == 1 && len(p.packets[0].data) == len(data)
		zzsym.Assert(ok, "a payload whose lengths count characters is read")
		zzSamePackets(p.packets, []Packet{q}, "decode")
		return
	}
	var buf bytes.Buffer
	_, err := (Payload{packets: []Packet{q}}).WriteTo(&buf)
	zzsym.Assert(err == nil, "write succeeds")
	zzsym.Assert(buf.Len() == len(want), "lengths written count characters")
	zzsym.Assert(zzsym.EqBytes(buf.Bytes(), want), "lengths written count characters")
}

// ZZC02encode: the bytes written are those of the framing.
func ZZC02encode() {
	xhr2 := zzsym.Choice("xhr2", 2) == 1
	n := 1 + zzsym.Choice("packets", zzsym.Param("packets", 2))
	p := Payload{xhr2: xhr2}
	var want []byte
	for i := 0; i < n; i++ {
		q := zzASCII(zzPacket(zzsym.Param("len", 5)), xhr2)
		p.packets = append(p.packets, q)
		want = append(want, zzSpec(q, xhr2)...)
	}
	var buf bytes.Buffer
	_, err := p.WriteTo(&buf)
	zzsym.Assert(err == nil, "write succeeds")
	zzsym.Assert(zzsym.EqBytes(buf.Bytes(), want), "bytes on the wire")
	zzsym.Obs(buf.String())
}

// ZZC02decode: the reader understands the framing, whoever produced it.
func ZZC02decode() {
	xhr2 := zzsym.Choice("xhr2", 2) == 1
	n := zzsym.Choice("packets", zzsym.Param("packets", 2)+1)
	var want []Packet
	var wire []byte
	for i := 0; i < n; i++ {
		q := zzASCII(zzPacket(zzsym.Param("len", 5)), xhr2)
		want = append(want, q)
		wire = append(wire, zzSpec(q, xhr2)...)
	}
	p := Payload{xhr2: xhr2}
	m, err := p.ReadFrom(bytes.NewReader(wire))
	zzsym.Assert(err == nil, "read succeeds")
	zzsym.Assert(m == int64(len(wire)), "read count")
	zzSamePackets(p.packets, want, "decode")
	zzsym.Obs(string(wire))
}

// ZZC02lengths: multi-digit lengths.
func ZZC02lengths() {
	xhr2 := zzsym.Choice("xhr2", 2) == 1
	lens := []int{8, 9, 10, 11, 98, 99, 100, 108, 123, 200, 998, 999, 1000, 1234, 10000, 12345, 65534, 65535, 65536, 99998, 100000, 123456, 1048576}
	l := lens[zzsym.Choice("length", len(lens))]
	kind := zzsym.Choice("kind", 2)
	if !xhr2 && kind == 1 && l > 200000 {
		return // base64 of this much takes too many steps
	}
	d := make([]byte, l)
	d[0], d[l-1], d[l/2] = zzsym.Byte("first"), zzsym.Byte("last"), zzsym.Byte("mid")
	t := zzsym.Byte("type")
	zzsym.Assume(t <= 6)
	q := zzASCII(Packet{msgType: MessageType(kind), pktType: PacketType(t), data: d}, xhr2)
	want := zzSpec(q, xhr2)
	var buf bytes.Buffer
	_, err := (Payload{xhr2: xhr2, packets: []Packet{q}}).WriteTo(&buf)
	zzsym.Assert(err == nil, "write succeeds")
	zzsym.Assert(zzsym.EqBytes(buf.Bytes(), want), "bytes on the wire")
	var p Payload
	p.xhr2 = xhr2
	tail := Packet{pktType: PacketTypePing, data: []byte("probe")}
	_, err = p.ReadFrom(bytes.NewReader(append(want, zzSpec(tail, xhr2)...)))
	zzsym.Assert(err == nil, "read succeeds")
	zzSamePackets(p.packets, []Packet{q, tail}, "decode")
}

// zzRef parses one packet strictly; ok is false if b does not start with a
// complete one.
func zzRef(b []byte, xhr2 bool) (p Packet, rest []byte, ok bool) {
	i, l := 0, 0
	if xhr2 {
		if len(b) == 0 || b[0] > 1 {
			return
		}
		p.msgType = MessageType(b[0])
		i = 1
	}
	digits := 0
	for {
		if i >= len(b) {
			return
		}
		c := b[i]
		i++
		if xhr2 {
			if c == 0xFF {
				break
			}
			if c > 9 {
				return
			}
		} else {
			if c == ':' {
				break
			}
			if c < '0' || c > '9' {
				return
			}
			c -= '0'
		}
		digits++
		l = l*10 + int(c)
		if l > 1<<20 {
			return // longer than any input considered
		}
	}
	if digits == 0 || l < 1 || l > len(b)-i {
		return
	}
	body := b[i : i+l]
	rest = b[i+l:]
	c := body[0]
	body = body[1:]
	if xhr2 {
		if p.msgType == MessageTypeString {
			c -= '0'
		}
	} else {
		if c == 'b' {
			p.msgType = MessageTypeBinary
			if len(body) == 0 {
				return
			}
			c = body[0]
			body = body[1:]
		}
		c -= '0'
	}
	p.pktType = PacketType(c)
	if !xhr2 && p.msgType == MessageTypeBinary {
		d, err := base64.StdEncoding.DecodeString(string(body))
		if err != nil {
			return
		}
		body = d
	}
	p.data = body
	return p, rest, true
}

func zzHostile(xhr2 bool, b []byte) {
	zzsym.AllocLimit(1 << 20)
	in := append([]byte(nil), b...)
	var p Payload
	p.xhr2 = xhr2
	n, err := p.ReadFrom(&zzByteRd{zzPlain{b: b}})
	rest := in
	for i := range p.packets {
		q, r, ok := zzRef(rest, xhr2)
		zzsym.Assert(ok, "a packet was made of bytes that are no packet")
		zzsym.Assert(q.msgType == p.packets[i].msgType, "kind of a decoded packet")
		zzsym.Assert(q.pktType == p.packets[i].pktType, "type of a decoded packet")
		zzsym.Assert(zzsym.EqBytes(q.data, p.packets[i].data), "data of a decoded packet")
		rest = r
	}
	if err == nil {
		zzsym.Assert(len(rest) == 0, "input bytes not accounted for without an error")
		zzsym.Assert(n == int64(len(in)), "count of a clean read")
		zzsym.Obs("ok")
	} else {
		zzsym.Obs("error")
		_, _, ok := zzRef(rest, xhr2)
		zzsym.Assert(!ok, "a well-formed packet was refused")
	}
}

// ZZC03text and ZZC03xhr2: arbitrary bytes.
func ZZC03text() {
	zzHostile(false, zzsym.Bytes("in", zzsym.Choice("n", zzsym.Param("n", 6)+1)))
}
func ZZC03xhr2() {
	zzHostile(true, zzsym.Bytes("in", zzsym.Choice("n", zzsym.Param("n", 6)+1)))
}

// ZZC03huge: long digit strings, with any digits, then a little data.
func ZZC03huge() {
	xhr2 := zzsym.Choice("xhr2", 2) == 1
	nd := []int{7, 9, 10, 12, 18, 19, 20, 21, 25}[zzsym.Choice("digits", 9)]
	var in []byte
	if xhr2 {
		in = append(in, byte(zzsym.Choice("kind", 2)))
	}
	lead := zzsym.Choice("symbolic", 4) // which digits are symbolic: head, middle, tail, those after a prefix of the greatest int
	for i := 0; i < nd; i++ {
		c := byte(0)
		if lead == 3 && i < 18 {
			c = "922337203685477580"[i] - '0'
		} else if d := i - []int{0, nd / 2, nd - 4, 18}[lead]; d >= 0 && d < 4 {
			c = zzsym.Byte("digit")
			zzsym.Assume(c <= 9)
		} else {
			c = []byte{9, 4, 1, 0}[lead]
		}
		if !xhr2 {
			c += '0'
		}
		in = append(in, c)
	}
	if xhr2 {
		in = append(in, 0xFF, zzsym.Byte("type"))
	} else {
		in = append(in, ':')
		if zzsym.Choice("b", 2) == 1 {
			in = append(in, 'b')
		}
		in = append(in, '4')
	}
	in = append(in, "abcd"...)
	zzHostile(xhr2, in)
}

// ZZC03mangled: a well-formed payload cut anywhere, or with one byte replaced.
func ZZC03mangled() {
	xhr2 := zzsym.Choice("xhr2", 2) == 1
	a, b := zzPacket(zzsym.Param("len", 4)), zzPacket(2)
	wire := append(zzSpec(a, xhr2), zzSpec(b, xhr2)...)
	k := zzsym.Choice("at", len(wire))
	if zzsym.Choice("cut", 2) == 1 {
		wire = wire[:k]
	} else {
		wire[k] = zzsym.Byte("byte")
	}
	zzHostile(xhr2, wire)
}

// ZZC03long: arbitrary length bytes before as much data as they may announce.
func ZZC03long() {
	xhr2 := zzsym.Choice("xhr2", 2) == 1
	in := []byte{}
	if xhr2 {
		in = append(in, byte(zzsym.Choice("kind", 2)))
	}
	for i := 1 + zzsym.Choice("digits", zzsym.Param("digits", 2)); i > 0; i-- {
		in = append(in, zzsym.Byte("digit"))
	}
	if xhr2 {
		in = append(in, 0xFF, '4')
	} else {
		in = append(in, ':', '4')
	}
	few := zzsym.Param("data", 26)
	n := zzsym.Choice("data", few+1)
	if n == few {
		n = 260 // as much as a length byte taken for what it is not may announce
	}
	for i := n; i > 0; i-- {
		in = append(in, 'x')
	}
	zzHostile(xhr2, in)
}

// ZZC01many: payloads of many packets, any one of them longer or of another kind than the rest.
func ZZC01many() {
	counts := []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1024}
	n := counts[zzsym.Choice("packets", len(counts))]
	xhr2 := zzsym.Choice("xhr2", 2) == 1
	kind := MessageType(zzsym.Choice("kind", 2))
	at := zzsym.Choice("at", 3) * (n - 1) / 2
	var want []Packet
	for i := 0; i < n; i++ {
		p := Packet{msgType: MessageTypeString, pktType: PacketTypeMessage, data: []byte{byte('a' + i%26), byte('a' + i/26%26)}}
		if i == at {
			t := zzsym.Byte("type")
			zzsym.Assume(t <= 6)
			p = Packet{msgType: kind, pktType: PacketType(t), data: zzsym.Bytes("data", 3)}
		}
		want = append(want, p)
	}
	p := Payload{xhr2: xhr2, packets: append([]Packet(nil), want...)}
	var buf bytes.Buffer
	nn, err := p.WriteTo(&buf)
	zzsym.Assert(err == nil, "write succeeds")
	zzsym.Assert(nn == int64(buf.Len()), "written count is the bytes written")
	wire := append([]byte(nil), buf.Bytes()...)
	var r io.Reader = &zzPlain{b: wire, chop: func(max int) int { return max }}
	if zzsym.Choice("reader", 2) == 1 {
		r = &zzByteRd{zzPlain{b: wire, chop: func(max int) int { return max }}}
	}
	q := Payload{xhr2: xhr2}
	m, err := q.ReadFrom(r)
	zzsym.Assert(err == nil, "read succeeds")
	zzsym.Assert(m == int64(len(wire)), "read count is the bytes consumed")
	zzSamePackets(q.packets, want, "round trip")
}
