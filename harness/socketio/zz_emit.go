package socketio

import (
	"errors"
	"strings"

	"github.com/zyxar/socketio/zzsym"
)

type zzBad struct{}

func (zzBad) MarshalBinary() ([]byte, error) { return []byte("partial"), errors.New("no binary") }

// ZZC05unable: a packet that cannot be encoded is refused and nothing of it is sent.
func ZZC05unable() {
	client := zzsym.Choice("client", 2) == 1
	e := zzNewEnd(client, DefaultParser)
	e.watch("/")
	e.start(DefaultParser)
	n := 1 + zzsym.Choice("arguments", 3)
	at := zzsym.Choice("at", n)
	var args []interface{}
	for i := 0; i < n; i++ {
		switch {
		case i == at && zzsym.Choice("what", 2) == 0:
			args = append(args, zzBad{})
		case i == at:
			args = append(args, make(chan int))
		case zzsym.Choice("binary", 2) == 1:
			args = append(args, &Bytes{Data: zzsym.Bytes("b", 1)})
		default:
			args = append(args, i)
		}
	}
	zzsym.Assert(e.sock["/"].Emit("ev", args...) != nil, "Emit fails")
	zzsym.Quiesce()
	zzsym.Assert(len(e.peer.take()) == 0, "nothing is sent")
	b := zzsym.Bytes("b", 1)
	zzsym.Assert(e.sock["/"].Emit("ev", 1, &Bytes{Data: b}) == nil, "a later Emit succeeds")
	zzsym.Quiesce()
	fs := e.peer.take()
	zzsym.Assert(len(fs) == 2 && !fs[0].bin && strings.TrimSpace(string(fs[0].data)) == `51-["ev",1,{"_placeholder":true,"num":0}]`, "and sends its text frame")
	zzsym.Assert(fs[1].bin && zzsym.EqBytes(fs[1].data, b), "and its attachment")
	zzsym.Cover("refused")
}

// ZZC08wire: what a session that uses the msgpack parser sends.
func ZZC08wire() {
	client := zzsym.Choice("client", 2) == 1
	e := zzNewEnd(client, MsgpackParser)
	n := e.watch("/")
	e.watch("/a")
	b, s := zzsym.Bytes("b", 1), zzLetter("s")
	n.OnEvent("ask", func() ([]byte, string) { return b, s })
	if !client {
		e.peer = zzAccept(e.server)
		zzOneText(e, PacketTypeConnect, "/")
	} else {
		e.start(MsgpackParser)
	}
	switch zzsym.Choice("what", 4) {
	case 0:
		zzsym.Assert(e.sock["/"].Emit("ev", s, b) == nil, "Emit on a connected namespace succeeds")
		zzsym.Quiesce()
		p := zzOneBinary(e)
		zzsym.Assert(p.Type == PacketTypeEvent || p.Type == PacketTypeBinaryEvent, "an event")
		zzsym.Assert(p.ID == nil && p.Namespace == "/", "of the namespace, without id")
		zzsym.Assert(zzsym.EqBytes(p.Data.([]byte), append(append([]byte{0x93, 0xa2, 'e', 'v', 0xa1}, s...), 0xc4, 1, b[0])), "with its arguments")
	case 1:
		id := zzsym.Uint64("id")
		e.send(MsgpackParser, &Packet{Type: PacketTypeEvent, Namespace: "/", ID: &id, Data: []interface{}{"ask"}})
		zzsym.Quiesce()
		p := zzOneBinary(e)
		zzsym.Assert(p.Type == PacketTypeAck || p.Type == PacketTypeBinaryAck, "an acknowledgement")
		zzsym.Assert(p.ID != nil && *p.ID == id && p.Namespace == "/", "with the id and namespace")
		zzsym.Assert(zzsym.EqBytes(p.Data.([]byte), append([]byte{0x92, 0xc4, 1, b[0], 0xa1}, s...)), "with the values returned")
	case 2:
		zzsym.Assert(e.sock["/"].EmitError(s) == nil, "EmitError succeeds")
		zzsym.Quiesce()
		p := zzOneText(e, PacketTypeError, "/")
		v, ok := p.Data.(string)
		zzsym.Assert(ok && zzsym.EqString(v, s), "with its argument")
	default:
		e.send(MsgpackParser, &Packet{Type: PacketTypeConnect, Namespace: "/a"})
		zzsym.Quiesce()
		if client {
			zzsym.Assert(len(e.peer.take()) == 0, "nothing is answered")
		} else {
			zzOneText(e, PacketTypeConnect, "/a")
		}
	}
	zzsym.Cover("sent")
}

func zzOneFrame(e *zzEnd, bin bool) *Packet {
	fs := e.peer.take()
	zzsym.Assert(len(fs) == 1 && fs[0].bin == bin && len(fs[0].data) > 0, "exactly one frame, of the kind for the packet")
	d := MsgpackParser.Decoder()
	t := MessageTypeString
	if bin {
		t = MessageTypeBinary
	}
	zzsym.Assert(d.Add(t, fs[0].data) == nil, "which decodes")
	return <-d.Decoded()
}

func zzOneBinary(e *zzEnd) *Packet { return zzOneFrame(e, true) }

func zzOneText(e *zzEnd, typ PacketType, nsp string) *Packet {
	p := zzOneFrame(e, false)
	zzsym.Assert(p.Type == typ && p.Namespace == nsp && p.ID == nil, "the packet")
	return p
}

// ZZC10concurrent: sessions that open and send at the same time.
func ZZC10concurrent() {
	s := zzServe(DefaultParser)
	l := &zzCalls{}
	a := s.Namespace("/a")
	l.watch(a)
	a.OnEvent("x", func(so Socket, v string, b *Bytes) string { l.add("x", so, v, b.Data); return v })
	a.OnEvent("y", func(v string, so Socket) { l.add("y", so, v) })
	n := zzsym.Param("sessions", 2)
	v, b := zzLetter("v"), zzsym.Bytes("b", 1)
	if zzsym.Param("races", 1) == 1 {
		zzsym.Races()
	}
	zzsym.Delays(zzsym.Param("delays", 1))
	ps := make([]*zzPeer, n)
	for i := range ps {
		i := i
		go func() {
			w := zzDialIn(s)
			p := &zzPeer{c: w}
			ps[i] = p
			p.text("0/a")
			p.text(`51-/a,` + string(rune('1'+i)) + `["x","` + v + string(rune('0'+i)) + `",{"_placeholder":true,"num":0}]`)
			p.bin(append([]byte{byte(i)}, b...))
			p.text(`2/a,["y","` + string(rune('0'+i)) + `"]`)
			p.text(`2/b,["y","1"]`)
		}()
	}
	zzsym.Quiesce()
	for i := range ps {
		k := string(rune('0' + i))
		out := ps[i].take()
		zzsym.Assert(len(out) == 4, "one answer to each CONNECT, acknowledgement and unknown namespace")
		var got []string
		for _, f := range out {
			got = append(got, strings.TrimRight(string(f.data), ",\n"))
		}
		zzsym.Assert(got[0] == "0" && got[1] == "0/a" && zzsym.EqString(got[2], `3/a,`+string(rune('1'+i))+`["`+v+k+`"]`) && got[3] == `4/b,"namespace unavailable"`, "with its own contents, in order")
		sid := ""
		for _, c := range l.cs {
			if c.what == "x" && zzsym.EqString(c.args[0].(string), v+k) {
				zzsym.Assert(sid == "", "handled once")
				sid = c.sid
				zzsym.Assert(zzsym.EqBytes(c.args[1].([]byte), append([]byte{byte(i)}, b...)), "with its own attachment")
			}
		}
		zzsym.Assert(sid != "", "handled")
		var seq []string
		for _, c := range l.cs {
			if c.sid == sid {
				seq = append(seq, c.what)
				if c.what == "y" {
					zzsym.Assert(c.args[0].(string) == k, "each session's events go with its own socket")
				}
			}
		}
		zzsym.Assert(zzJoin(seq) == "connect | x | y", "in order")
	}
	zzsym.Assert(len(l.cs) == 3*n, "nothing else runs")
	zzsym.Cover("done")
}
