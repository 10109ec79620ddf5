package socketio

import (
	"strconv"
	"strings"

	"github.com/zyxar/socketio/zzsym"
)

// zzIDs are acknowledgement ids at the edges of their range.
var zzIDs = []uint64{0, 1, 9, 10, 255, 256, 65535, 65536, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}

// zzAckID is an id for a parser; any there is for msgpack.
func zzAckID(parser Parser) uint64 {
	if parser == MsgpackParser {
		return zzsym.Uint64("id")
	}
	if k := zzsym.Choice("id edge", len(zzIDs)+1); k < len(zzIDs) {
		return zzIDs[k]
	}
	d := zzsym.Byte("id digit")
	zzsym.Assume(d < 10)
	return 40 + uint64(d)
}

// zzReturns registers handlers that return something.
func zzReturns(n Namespace, l *zzCalls, msgpack bool) {
	n.OnEvent("none", func(a string) { l.add("none", nil, a) })
	n.OnEvent("one", func(a string) string { l.add("one", nil, a); return "r" + a })
	n.OnEvent("same", func(a string) string { return a })
	n.OnEvent("two", func(so Socket, a string) (int, string) { l.add("two", so, a); return -7, a })
	n.OnEvent("nil", func(a string) interface{} { l.add("nil", nil, a); return nil })
	if msgpack {
		n.OnEvent("bytes", func(a string) ([]byte, string) { l.add("bytes", nil, a); return []byte{0, 255}, a })
		n.OnEvent("take", func(b []byte, a string) string { l.add("take", nil, a); return a })
	} else {
		n.OnEvent("bytes", func(a string) (*Bytes, string) { l.add("bytes", nil, a); return &Bytes{Data: []byte{0, 255}}, a })
		n.OnEvent("bytes2", func(a string) (string, Bytes, Bytes) {
			l.add("bytes2", nil, a)
			return a, Bytes{Data: []byte(a)}, Bytes{Data: []byte("z")}
		})
		n.OnEvent("take", func(b *Bytes, a string) string { l.add("take", nil, a); return a })
		n.OnEvent("echo", func(b *Bytes, a string) *Bytes { l.add("echo", nil, a); return b })
	}
}

var zzReturnNames = []string{"none", "one", "two", "nil", "bytes", "take", "bytes2", "echo"}

// zzWantAck is the acknowledgement of an event of zzReturns, as JSON and its attachments.
func zzWantAck(name, a string, b []byte) (json string, bin [][]byte) {
	const ph = `{"_placeholder":true,"num":`
	switch name {
	case "none":
		return `[]`, nil
	case "one":
		return `["r` + a + `"]`, nil
	case "two":
		return `[-7,"` + a + `"]`, nil
	case "nil":
		return `[null]`, nil
	case "bytes":
		return `[` + ph + `0},"` + a + `"]`, [][]byte{{0, 255}}
	case "take":
		return `["` + a + `"]`, nil
	case "bytes2":
		return `["` + a + `",` + ph + `0},` + ph + `1}]`, [][]byte{[]byte(a), []byte("z")}
	}
	return `[` + ph + `0}]`, [][]byte{b}
}

func zzLetter(name string) string {
	s := string(zzsym.Bytes(name, 1))
	zzsym.Assume(s[0] >= 'a' && s[0] <= 'z')
	return s
}

// zzEventData are the arguments of an event of zzReturns.
func zzEventData(parser Parser, name, a string, b []byte) []interface{} {
	d := []interface{}{name}
	if name == "take" || name == "echo" {
		if parser == MsgpackParser {
			d = append(d, b)
		} else {
			d = append(d, &Bytes{Data: b})
		}
	}
	return append(d, a)
}

// zzIsAck checks that frames are exactly the acknowledgement of that event.
func zzIsAck(parser Parser, fs []zzFrame, nsp string, id uint64, name, a string, b []byte) {
	json, bin := zzWantAck(name, a, b)
	if parser == DefaultParser {
		zzsym.Assert(len(fs) == 1+len(bin), "one acknowledgement with the attachments returned")
		w := "3"
		if len(bin) > 0 {
			w = "6" + strconv.Itoa(len(bin)) + "-"
		}
		if nsp != "/" {
			w += nsp + ","
		}
		w += strconv.FormatUint(id, 10) + json
		zzsym.Assert(!fs[0].bin && zzsym.EqString(strings.TrimSuffix(string(fs[0].data), "\n"), w), "with the id, the namespace and the values returned")
		for i := range bin {
			zzsym.Assert(fs[1+i].bin && zzsym.EqBytes(fs[1+i].data, bin[i]), "attachments in order")
		}
		return
	}
	zzsym.Assert(len(fs) == 1 && fs[0].bin, "one acknowledgement, in one frame")
	d := parser.Decoder()
	zzsym.Assert(d.Add(MessageTypeBinary, fs[0].data) == nil, "it decodes")
	var p *Packet
	select {
	case p = <-d.Decoded():
	default:
		zzsym.Fail("it decodes to a packet")
	}
	zzsym.Assert(p.Type == PacketTypeAck || p.Type == PacketTypeBinaryAck, "an acknowledgement")
	zzsym.Assert(p.ID != nil && *p.ID == id, "with the id")
	zzsym.Assert(p.Namespace == nsp, "of the namespace")
	var w []byte
	switch name {
	case "none":
		w = []byte{0x90}
	case "one":
		w = append([]byte{0x91, 0xa2, 'r'}, a...)
	case "two":
		w = append([]byte{0x92, 0xf9, 0xa1}, a...)
	case "nil":
		w = []byte{0x91, 0xc0}
	case "bytes":
		w = append([]byte{0x92, 0xc4, 2, 0, 255, 0xa1}, a...)
	case "take":
		w = append([]byte{0x91, 0xa1}, a...)
	}
	zzsym.Assert(zzsym.EqBytes(p.Data.([]byte), w), "with the values returned")
}

// ZZC11ack: an event with or without an id, every kind of return value.
func ZZC11ack() {
	client := zzsym.Choice("client", 2) == 1
	parser := zzParser()
	e := zzNewEnd(client, parser)
	nsp := []string{"/", "/a"}[zzsym.Choice("namespace", 2)]
	zzReturns(e.watch(nsp), e.calls, parser == MsgpackParser)
	e.start(parser, "/a")
	name := zzReturnNames[zzsym.Choice("event", len(zzReturnNames))]
	if parser == MsgpackParser {
		zzsym.Assume(name != "bytes2" && name != "echo")
	}
	a := zzLetter("a")
	b := zzsym.Bytes("b", zzsym.Choice("b len", 2))
	zzsym.Assume(len(b) == 0 || name == "echo" || name == "take")
	p := &Packet{Type: PacketTypeEvent, Namespace: nsp, Data: zzEventData(parser, name, a, b)}
	var id uint64
	with := zzsym.Choice("with id", 2) == 1
	if with {
		id = zzAckID(parser)
		p.ID = &id
	}
	e.send(parser, p)
	zzsym.Quiesce()
	zzsym.Assert(len(e.calls.cs) == 1 && e.calls.cs[0].what == name, "the handler ran, once")
	fs := e.peer.take()
	if with {
		zzIsAck(parser, fs, nsp, id, name, a, b)
		zzsym.Cover("acknowledged")
	} else {
		zzsym.Assert(len(fs) == 0, "not acknowledged")
		zzsym.Cover("without id")
	}
}

// ZZC11sequence: events of two sessions, in any order, with equal ids and without.
func ZZC11sequence() {
	s := zzServe(DefaultParser)
	l := &zzCalls{}
	for _, n := range []string{"/", "/a"} {
		x := s.Namespace(n)
		l.watch(x)
		zzReturns(x, l, false)
	}
	ps := []*zzPeer{zzConnect(s), zzConnect(s)}
	for _, q := range ps {
		q.text("0/a")
	}
	zzsym.Quiesce()
	for _, q := range ps {
		q.take()
	}
	l.clear()
	type sent struct {
		nsp, name, a string
		id           uint64
	}
	want := make([][]sent, 2)
	n := zzsym.Param("events", 3)
	names := []string{"none", "one", "bytes", "unfit"}
	for k := 0; k < n; k++ {
		q := zzsym.Choice("session", 2)
		x := sent{name: names[zzsym.Choice("event", len(names))], a: zzLetter("a"), id: uint64(5 + zzsym.Choice("id", 2))}
		x.nsp = []string{"/", "/a"}[zzsym.Choice("namespace", 2)]
		h := "2"
		if x.nsp != "/" {
			h += x.nsp + ","
		}
		if x.id != 6 {
			h += strconv.FormatUint(x.id, 10)
		}
		if x.name == "unfit" {
			ps[q].text(h + `["one",{}]`)
			continue
		}
		ps[q].text(h + `["` + x.name + `","` + x.a + `"]`)
		if x.id != 6 { // 6 stands for none
			want[q] = append(want[q], x)
		}
	}
	zzsym.Quiesce()
	for q := range ps {
		fs := ps[q].take()
		for _, x := range want[q] {
			k := 1
			if x.name == "bytes" {
				k = 2
			}
			zzsym.Assert(len(fs) >= k, "each event with an id is acknowledged on its session")
			zzIsAck(DefaultParser, fs[:k], x.nsp, x.id, x.name, x.a, nil)
			fs = fs[k:]
		}
		zzsym.Assert(len(fs) == 0, "nothing else is sent")
	}
	zzsym.Cover("done")
}
