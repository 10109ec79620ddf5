package socketio

import (
	"math"
	"reflect"
	"time"

	"github.com/tinylib/msgp/msgp"
	"github.com/zyxar/socketio/zzsym"
)

func zzOf(x interface{}) reflect.Type { return reflect.TypeOf(x) }

// zzFill is a byte string of length n whose first and last bytes are symbolic.
func zzFill(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a' + byte(i%23)
	}
	if n > 0 {
		b[0] = zzsym.Byte("first")
	}
	if n > 1 {
		b[n-1] = zzsym.Byte("last")
	}
	return b
}

var zzLens = []int{0, 1, 2, 31, 32, 33, 255, 256, 257, 65535, 65536}

const zzMsgKinds = 36

// zzMsgArg makes an argument of one of the supported types.
func zzMsgArg(kind int) zzArg {
	switch kind {
	case 0:
		v := zzsym.Bool("v")
		return zzArg{v: v, typ: zzOf(v), same: func(x interface{}) bool { return x.(bool) == v }}
	case 1:
		v := int8(zzsym.Byte("v"))
		return zzArg{v: v, typ: zzOf(v), same: func(x interface{}) bool { return x.(int8) == v }}
	case 2:
		v := int16(zzsym.Uint16("v"))
		return zzArg{v: v, typ: zzOf(v), same: func(x interface{}) bool { return x.(int16) == v }}
	case 3:
		v := int32(zzsym.Uint32("v"))
		return zzArg{v: v, typ: zzOf(v), same: func(x interface{}) bool { return x.(int32) == v }}
	case 4:
		v := int64(zzsym.Uint64("v"))
		return zzArg{v: v, typ: zzOf(v), same: func(x interface{}) bool { return x.(int64) == v }}
	case 5:
		v := int(zzsym.Uint64("v"))
		return zzArg{v: v, typ: zzOf(v), same: func(x interface{}) bool { return x.(int) == v }}
	case 6:
		v := zzsym.Byte("v")
		return zzArg{v: v, typ: zzOf(v), same: func(x interface{}) bool { return x.(uint8) == v }}
	case 7:
		v := zzsym.Uint16("v")
		return zzArg{v: v, typ: zzOf(v), same: func(x interface{}) bool { return x.(uint16) == v }}
	case 8:
		v := zzsym.Uint32("v")
		return zzArg{v: v, typ: zzOf(v), same: func(x interface{}) bool { return x.(uint32) == v }}
	case 9:
		v := zzsym.Uint64("v")
		return zzArg{v: v, typ: zzOf(v), same: func(x interface{}) bool { return x.(uint64) == v }}
	case 10:
		v := uint(zzsym.Uint64("v"))
		return zzArg{v: v, typ: zzOf(v), same: func(x interface{}) bool { return x.(uint) == v }}
	case 11:
		v := zzsym.Float32("v")
		return zzArg{v: v, typ: zzOf(v), same: func(x interface{}) bool {
			return math.Float32bits(x.(float32)) == math.Float32bits(v)
		}}
	case 12:
		v := zzsym.Float64("v")
		return zzArg{v: v, typ: zzOf(v), same: func(x interface{}) bool {
			return math.Float64bits(x.(float64)) == math.Float64bits(v)
		}}
	case 13:
		v := string(zzFill(zzLens[zzsym.Choice("len", zzsym.Param("lens", len(zzLens)))]))
		return zzArg{v: v, typ: zzOf(v), same: func(x interface{}) bool { return zzsym.EqString(x.(string), v) }}
	case 14:
		v := zzFill(zzLens[zzsym.Choice("len", zzsym.Param("lens", len(zzLens)))])
		return zzArg{v: v, typ: zzOf(v), same: func(x interface{}) bool { return zzsym.EqBytes(x.([]byte), v) }}
	case 15:
		n := []int{0, 1, 2, 15, 16, 17}[zzsym.Choice("n", 6)]
		v := make([]int, n)
		for i := range v {
			v[i] = i
		}
		if n > 0 {
			v[n-1] = int(int16(zzsym.Uint16("v")))
		}
		return zzArg{v: v, typ: zzOf(v), same: func(x interface{}) bool {
			y := x.([]int)
			if len(y) != n {
				return false
			}
			for i := range y {
				if y[i] != v[i] {
					return false
				}
			}
			return true
		}}
	case 16:
		v := [3]string{string(zzFill(1)), "", string(zzFill(2))}
		return zzArg{v: v, typ: zzOf(v), same: func(x interface{}) bool { return x.([3]string) == v }}
	case 17:
		v := [][]byte{zzFill(1), {}, zzFill(2)}
		return zzArg{v: v, typ: zzOf(v), same: func(x interface{}) bool {
			y := x.([][]byte)
			return len(y) == 3 && zzsym.EqBytes(y[0], v[0]) && len(y[1]) == 0 && zzsym.EqBytes(y[2], v[2])
		}}
	case 18:
		k, w := string(zzFill(1)), string(zzFill(2))
		v := map[string]string{k: w}
		return zzArg{v: v, typ: zzOf(v), same: func(x interface{}) bool {
			y := x.(map[string]string)
			return len(y) == 1 && y[k] == w
		}}
	case 19:
		w, i := string(zzFill(2)), int64(int8(zzsym.Byte("i")))
		v := map[string]interface{}{"a": w, "b": i, "c": nil, "d": []interface{}{true}}
		return zzArg{v: v, typ: zzOf(v), same: func(x interface{}) bool {
			y := x.(map[string]interface{})
			a, ok1 := y["a"].(string)
			b, ok2 := y["b"].(int64)
			d, ok3 := y["d"].([]interface{})
			return len(y) == 4 && ok1 && a == w && ok2 && b == i && ok3 && len(d) == 1 && d[0] == true && y["c"] == nil
		}}
	case 20:
		u := zzsym.Uint64("v")
		return zzArg{v: &u, typ: zzOf(&u), same: func(x interface{}) bool { return *x.(*uint64) == u }}
	case 21:
		u := zzsym.Uint16("v")
		p := &u
		return zzArg{v: p, typ: zzOf(&p), same: func(x interface{}) bool { return **x.(**uint16) == u }}
	case 22:
		i := int64(int16(zzsym.Uint16("v")))
		v := map[string]interface{}{"k": i}
		return zzArg{v: v, typ: zzOf(map[string]int64{}), same: func(x interface{}) bool {
			y := x.(map[string]int64)
			return len(y) == 1 && y["k"] == i
		}}
	case 23:
		d := int64(zzsym.Uint64("v"))
		return zzArg{v: d, typ: zzOf(time.Duration(0)), same: func(x interface{}) bool { return int64(x.(time.Duration)) == d }}
	case 24:
		re, im := zzsym.Float32("re"), zzsym.Float32("im")
		v := complex(re, im)
		return zzArg{v: v, typ: zzOf(v), same: func(x interface{}) bool {
			y := x.(complex64)
			return math.Float32bits(real(y)) == math.Float32bits(re) && math.Float32bits(imag(y)) == math.Float32bits(im)
		}}
	case 25:
		re, im := zzsym.Float64("re"), zzsym.Float64("im")
		v := complex(re, im)
		return zzArg{v: v, typ: zzOf(v), same: func(x interface{}) bool {
			y := x.(complex128)
			return math.Float64bits(real(y)) == math.Float64bits(re) && math.Float64bits(imag(y)) == math.Float64bits(im)
		}}
	case 26:
		v := string(zzFill(2))
		return zzArg{v: v, typ: zzOf(new(interface{})).Elem(), same: func(x interface{}) bool { y, ok := x.(string); return ok && y == v }}
	case 27:
		return zzArg{v: nil, typ: zzOf(new(interface{})).Elem(), same: func(x interface{}) bool { return x == nil }}
	case 28:
		b := zzFill([]int{0, 1, 3, 16, 17}[zzsym.Choice("ext", 5)])
		return zzArg{v: &zzExt{msgp.RawExtension{Data: b}}, typ: zzOf(&zzExt{}), same: func(x interface{}) bool { return zzsym.EqBytes(x.(*zzExt).Data, b) }}
	case 29:
		a, b := zzFill(1), zzFill(2)
		v := map[string]interface{}{"a": a, "b": b}
		return zzArg{v: v, typ: zzOf(map[string][]byte{}), same: func(x interface{}) bool {
			y := x.(map[string][]byte)
			return len(y) == 2 && zzsym.EqBytes(y["a"], a) && zzsym.EqBytes(y["b"], b)
		}}
	case 30:
		i, j := int(int8(zzsym.Byte("i"))), int(int8(zzsym.Byte("j")))
		v := map[string]interface{}{"a": []int{i, j}, "b": []int{j}, "c": []int{}}
		return zzArg{v: v, typ: zzOf(map[string][]int{}), same: func(x interface{}) bool {
			y := x.(map[string][]int)
			return len(y) == 3 && len(y["a"]) == 2 && y["a"][0] == i && y["a"][1] == j && len(y["b"]) == 1 && y["b"][0] == j && len(y["c"]) == 0
		}}
	case 31:
		i, j := int(int8(zzsym.Byte("i"))), int(int8(zzsym.Byte("j")))
		v := [][]int{{i, j}, {j}, {}, {i}}
		return zzArg{v: v, typ: zzOf(v), same: func(x interface{}) bool {
			y := x.([][]int)
			return len(y) == 4 && len(y[0]) == 2 && y[0][0] == i && y[0][1] == j && len(y[1]) == 1 && y[1][0] == j && len(y[2]) == 0 && len(y[3]) == 1 && y[3][0] == i
		}}
	case 32:
		i, j := string(zzFill(1)), string(zzFill(1))
		v := []map[string]string{{"a": i, "b": j}, {"a": j}, {}}
		return zzArg{v: v, typ: zzOf(v), same: func(x interface{}) bool {
			y := x.([]map[string]string)
			return len(y) == 3 && len(y[0]) == 2 && y[0]["a"] == i && y[0]["b"] == j && len(y[1]) == 1 && y[1]["a"] == j && len(y[2]) == 0
		}}
	case 33:
		i, j := int64(int8(zzsym.Byte("i"))), int64(int8(zzsym.Byte("j")))
		v := []interface{}{i, j, i}
		return zzArg{v: v, typ: zzOf([]*int64{}), same: func(x interface{}) bool {
			y := x.([]*int64)
			return len(y) == 3 && *y[0] == i && *y[1] == j && *y[2] == i
		}}
	case 34:
		i, j := int64(int8(zzsym.Byte("i"))), int64(int8(zzsym.Byte("j")))
		v := map[string]interface{}{"a": map[string]interface{}{"x": i, "y": j}, "b": map[string]interface{}{"x": j}}
		return zzArg{v: v, typ: zzOf(map[string]map[string]int64{}), same: func(x interface{}) bool {
			y := x.(map[string]map[string]int64)
			return len(y) == 2 && len(y["a"]) == 2 && y["a"]["x"] == i && y["a"]["y"] == j && len(y["b"]) == 1 && y["b"]["x"] == j
		}}
	default:
		n := []int{0, 15, 16}[zzsym.Choice("n", 3)]
		v := make([]interface{}, n)
		var last int64
		for i := range v {
			last = int64(i)
			if i == n-1 {
				last = int64(int16(zzsym.Uint16("v")))
			}
			v[i] = last
		}
		return zzArg{v: v, typ: zzOf([]int64{}), same: func(x interface{}) bool {
			y := x.([]int64)
			return len(y) == n && (n == 0 || y[n-1] == last)
		}}
	}
}

type zzExt struct{ msgp.RawExtension }

func (*zzExt) ExtensionType() int8 { return 99 }

func zzMsgpRoundTrip(name, nsp string, id *uint64, typ PacketType, as []zzArg) {
	enc, dec := MsgpackParser.Encoder(), MsgpackParser.Decoder()
	ack := typ == PacketTypeAck || typ == PacketTypeBinaryAck
	data := []interface{}{}
	if !ack {
		data = append(data, name)
	}
	for i := range as {
		data = append(data, as[i].v)
	}
	text, bin, err := enc.Encode(&Packet{Type: typ, Namespace: nsp, ID: id, Data: data})
	zzsym.Assert(err == nil, "packet encodes")
	zzsym.Assert(len(text) == 0 && len(bin) == 1, "one binary frame")
	zzsym.Assert(dec.Add(MessageTypeBinary, bin[0]) == nil, "encoded packet is accepted")
	ps := zzDrain(dec)
	zzsym.Assert(len(ps) == 1, "packet surfaces once")
	p := ps[0]
	zzsym.Assert(p.Type == typ, "type")
	zzsym.Assert(zzsym.EqString(p.Namespace, zzWantNsp(nsp)), "namespace")
	zzSameID(p.ID, id, "id")
	ev, left, b, err := dec.ParseData(p)
	zzsym.Assert(err == nil, "data parses")
	zzsym.Assert(ack || zzsym.EqString(ev, name), "event name")
	zzUnmarshalAndCompare(dec, as, left, b)
}

var zzMsgTypes = []PacketType{PacketTypeEvent, PacketTypeAck, PacketTypeBinaryEvent, PacketTypeBinaryAck}

// ZZC08arg: one argument of every kind, with a neighbour after it.
func ZZC08arg() {
	as := []zzArg{zzMsgArg(zzsym.Choice("kind", zzMsgKinds)), zzMsgArg(6)}
	zzMsgpRoundTrip("ev", "/", nil, zzMsgTypes[zzsym.Choice("type", 2)], as)
}

// ZZC08args: lists of arguments, up to the array header boundary.
func ZZC08args() {
	var as []zzArg
	if zzsym.Choice("many", 2) == 1 {
		as = make([]zzArg, 13+zzsym.Choice("n", 5))
		for i := range as {
			i := i
			if i < len(as)-2 {
				as[i] = zzArg{v: i, typ: zzOf(i), same: func(x interface{}) bool { return x.(int) == i }}
			} else {
				as[i] = zzMsgArg(i % 2)
			}
		}
	} else {
		as = make([]zzArg, zzsym.Choice("n", zzsym.Param("args", 3)+1))
		for i := range as {
			as[i] = zzMsgArg([]int{1, 13, 14, 16, 20, 24}[zzsym.Choice("kind", zzsym.Param("kinds", 6))])
		}
	}
	zzMsgpRoundTrip("ev", "/", nil, zzMsgTypes[zzsym.Choice("type", 2)], as)
}

// ZZC08head: event names, namespaces, ids, types.
func ZZC08head() {
	name := string(zzFill(zzLens[1+zzsym.Choice("namelen", 8)]))
	nsp := zzNspRaw()
	var id *uint64
	if zzsym.Choice("id", 2) == 1 {
		id = newid(zzsym.Uint64("idval"))
	}
	zzMsgpRoundTrip(name, nsp, id, zzMsgTypes[zzsym.Choice("type", 4)], nil)
}

func zzNspRaw() string {
	switch zzsym.Choice("nsp", 5) {
	case 0:
		return ""
	case 4:
		return zzsym.String("nspraw", 1) + "chat"
	case 1:
		return "/"
	case 2:
		return "/" + zzsym.String("nspchar", 3)
	default:
		return "/" + string(zzFill(40))
	}
}

// ZZC08plain: connect, disconnect and error packets.
func ZZC08plain() {
	enc, dec := MsgpackParser.Encoder(), MsgpackParser.Decoder()
	typ := []PacketType{PacketTypeConnect, PacketTypeDisconnect, PacketTypeError}[zzsym.Choice("type", 3)]
	nsp := []string{"", "/", "/chat", "/a,b", "chat"}[zzsym.Choice("nsp", 5)]
	var msg string
	p := &Packet{Type: typ, Namespace: nsp}
	if zzsym.Choice("id", 2) == 1 {
		p.ID = newid(uint64(zzsym.Int("idval", 0, 20)))
	}
	id := p.ID
	if typ == PacketTypeError {
		msg = zzText("msg", 2)
		p.Data = msg
	}
	text, bin, err := enc.Encode(p)
	zzsym.Assert(err == nil, "packet encodes")
	zzsym.Assert(len(text) > 0 && len(bin) == 0, "one text frame")
	zzsym.Assert(dec.Add(MessageTypeString, text) == nil, "encoded packet is accepted")
	ps := zzDrain(dec)
	zzsym.Assert(len(ps) == 1, "packet surfaces once")
	q := ps[0]
	zzsym.Assert(q.Type == typ && q.Namespace == zzWantNsp(nsp), "type and namespace")
	zzSameID(q.ID, id, "id")
	if typ == PacketTypeError {
		s, ok := q.Data.(string)
		zzsym.Assert(ok && zzsym.EqString(s, msg), "data")
	} else {
		zzsym.Assert(q.Data == nil, "no data")
	}
}

// zzMsgpHostile runs a frame through the decoder and into a handler.
func zzMsgpHostile(mt MessageType, frame []byte) {
	zzsym.AllocLimit(1 << 20)
	dec := MsgpackParser.Decoder()
	err := dec.Add(mt, frame)
	ps := zzDrain(dec)
	if err != nil {
		zzsym.Assert(len(ps) == 0, "a rejected frame surfaces nothing")
		zzsym.Obs("rejected")
		return
	}
	for _, p := range ps {
		_, data, bin, err := dec.ParseData(p)
		if err != nil {
			zzsym.Obs("no data")
			continue
		}
		if p.Type != PacketTypeEvent && p.Type != PacketTypeAck && p.Type != PacketTypeBinaryEvent && p.Type != PacketTypeBinaryAck {
			continue
		}
		ran := false
		mark := func() { ran = true }
		fns := []interface{}{
			func(string, int8) { mark() },
			func([]uint16) { mark() },
			func(interface{}) { mark() },
			func(map[string]int) { mark() },
			func(map[string]interface{}, *zzExt) { mark() },
			func([2][]byte, Socket) { mark() },
			func(**uint64, ...string) { mark() },
			func(float64, complex64, time.Time) { mark() },
			func(struct{}) { mark() },
		}
		k := zzsym.Choice("handler", len(fns))
		_, err = newCallback(fns[k]).Call(&nspSock{}, dec, data, bin)
		zzsym.Assert((err == nil) == ran, "the handler runs if and only if its arguments could be decoded")
		if err == nil {
			zzsym.Obs("ran")
		} else {
			zzsym.Obs("bad arguments")
		}
	}
}

// ZZC09frame: arbitrary bytes as a frame.
func ZZC09frame() {
	zzMsgpHostile(MessageTypeBinary, zzsym.Bytes("in", zzsym.Choice("n", zzsym.Param("n", 4)+1)))
}

// ZZC09text: arbitrary bytes as a text frame.
func ZZC09text() {
	zzMsgpHostile(MessageTypeString, zzsym.Bytes("in", zzsym.Choice("n", zzsym.Param("n", 3)+1)))
}

// ZZC09data: a well-formed packet around arbitrary data.
func ZZC09data() {
	n := 1 + zzsym.Choice("n", zzsym.Param("n", 4))
	b := []byte{0x83, 0xa4, 't', 'y', 'p', 'e', 2 + byte(zzsym.Choice("type", 2)), 0xa4, 'd', 'a', 't', 'a'}
	b = append(b, zzsym.Bytes("data", n)...)
	b = append(b, 0xa3, 'n', 's', 'p', 0xa1, '/')
	zzMsgpHostile(MessageTypeBinary, b)
}

// ZZC09event: an event with arbitrary argument bytes.
func ZZC09event() {
	n := 1 + zzsym.Choice("n", zzsym.Param("n", 4))
	b := []byte{0x83, 0xa4, 't', 'y', 'p', 'e', 2, 0xa3, 'n', 's', 'p', 0xa1, '/', 0xa4, 'd', 'a', 't', 'a', 0x90 | byte(1+zzsym.Choice("args", 3)), 0xa1, 'e'}
	b = append(b, zzsym.Bytes("args", n)...)
	zzMsgpHostile(MessageTypeBinary, b)
}

// ZZC09mangled: a real packet with one byte replaced, or cut anywhere.
func ZZC09mangled() {
	args := [][]interface{}{
		{"e", "s", int8(1)},
		{"e", []interface{}{1, 2}},
		{"e", map[string]interface{}{"k": 1}},
		{"e", [2][]byte{{1}, {}}},
	}[zzsym.Choice("packet", 4)]
	_, bin, err := MsgpackParser.Encoder().Encode(&Packet{Type: PacketTypeEvent, Namespace: "/", ID: newid(1), Data: args})
	zzsym.Assert(err == nil, "encodes")
	b := bin[0]
	k := zzsym.Choice("at", len(b))
	if zzsym.Choice("cut", 2) == 1 {
		b = b[:k]
	} else {
		b[k] = zzsym.Byte("byte")
	}
	zzMsgpHostile(MessageTypeBinary, b)
}

// ZZC09nested: deeply nested data.
func ZZC09nested() {
	zzsym.StackLimit(15000)
	depth := []int{1, 20, 5000, 20000, 600000}[zzsym.Choice("depth", 5)]
	lead := []byte{0x91, 0x81, 0xdc}[zzsym.Choice("lead", 3)]
	frame := []byte{0x83, 0xa4, 't', 'y', 'p', 'e', 2, 0xa3, 'n', 's', 'p', 0xa1, '/', 0xa4, 'd', 'a', 't', 'a', 0x92, 0xa1, 'e'}
	for i := 0; i < depth; i++ {
		frame = append(frame, lead)
		switch lead {
		case 0x81:
			frame = append(frame, 0xa0)
		case 0xdc:
			frame = append(frame, 0, 1)
		}
	}
	frame = append(frame, 0xc0)
	dec := MsgpackParser.Decoder()
	err := dec.Add(MessageTypeBinary, frame)
	ps := zzDrain(dec)
	zzsym.Assert((err == nil) == (len(ps) == 1), "accepted if and only if surfaced")
	zzsym.Assert(depth > 20 || err == nil, "moderate nesting is accepted")
	if err != nil {
		return
	}
	_, data, bin, err := dec.ParseData(ps[0])
	zzsym.Assert(err == nil, "data parses")
	ran := false
	_, err = newCallback(func(x interface{}) { ran = true }).Call(&nspSock{}, dec, data, bin)
	zzsym.Assert((err == nil) == ran, "the handler runs if and only if its arguments could be decoded")
}

// ZZC08several: packets encoded one after the other before any is decoded, and
// decoded one after the other before any is looked at.
func ZZC08several() {
	enc, dec := MsgpackParser.Encoder(), MsgpackParser.Decoder()
	n := zzsym.Param("packets", 3)
	var frames, bs [][]byte
	var ss []string
	for i := 0; i < n; i++ {
		b, s := zzsym.Bytes("bin", 1), string(zzsym.Bytes("str", 1))
		text, bin, err := enc.Encode(&Packet{Type: PacketTypeEvent, Namespace: "/", Data: []interface{}{"e", i, s, b, map[string]interface{}{"k": s, s: i}}})
		zzsym.Assert(err == nil && len(text) == 0 && len(bin) == 1, "one binary frame")
		frames, bs, ss = append(frames, bin[0]), append(bs, b), append(ss, s)
	}
	var in [][]reflect.Value
	for _, f := range frames {
		zzsym.Assert(dec.Add(MessageTypeBinary, f) == nil, "encoded packet is accepted")
	}
	for _, p := range zzDrain(dec) {
		ev, data, bin, err := dec.ParseData(p)
		zzsym.Assert(err == nil && ev == "e", "data parses")
		v, err := dec.UnmarshalArgs([]reflect.Type{zzOf(0), zzOf(""), zzOf([]byte{}), zzOf(map[string]interface{}{})}, data, bin)
		zzsym.Assert(err == nil, "arguments unmarshal")
		in = append(in, v)
	}
	zzsym.Assert(len(in) == n, "every packet surfaces once")
	for i, v := range in {
		zzsym.Assert(v[0].Interface().(int) == i, "in order")
		zzsym.Assert(zzsym.EqString(v[1].Interface().(string), ss[i]), "string")
		zzsym.Assert(zzsym.EqBytes(v[2].Interface().([]byte), bs[i]), "bytes")
		m := v[3].Interface().(map[string]interface{})
		x, _ := m["k"].(string)
		zzsym.Assert(ss[i] == "k" || len(m) == 2 && zzsym.EqString(x, ss[i]) && m[ss[i]] == int64(i), "map")
	}
}

// ZZC09large: lists and maps of many elements for parameters of every kind.
func ZZC09large() {
	zzsym.AllocLimit(1 << 24)
	n := []int{3, 16, 256, 257, 32768, 65536, 15, 17, 127, 128, 255, 32767, 65535, 65537}[zzsym.Choice("n", zzsym.Param("sizes", 14))]
	frame := []byte{0x83, 0xa4, 't', 'y', 'p', 'e', 2, 0xa3, 'n', 's', 'p', 0xa1, '/', 0xa4, 'd', 'a', 't', 'a', 0x92, 0xa1, 'e'}
	asMap := zzsym.Choice("map", 2) == 1
	if asMap && n > 300 {
		zzsym.Assume(false)
	}
	if n > 65535 || zzsym.Choice("wide", 2) == 1 {
		frame = append(frame, 0xdd, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
	} else {
		frame = append(frame, 0xdc, byte(n>>8), byte(n))
	}
	if asMap {
		frame[21] += 2
	}
	for i := 0; i < n; i++ {
		if asMap {
			frame = append(frame, 0xa2, byte(i), byte(i>>8))
		}
		if i == n-1 {
			frame = append(frame, zzsym.Byte("last"))
		} else {
			frame = append(frame, byte(i)&0x7f)
		}
	}
	dec := MsgpackParser.Decoder()
	if dec.Add(MessageTypeBinary, frame) != nil {
		zzsym.Obs("rejected")
		return
	}
	p := zzDrain(dec)[0]
	_, data, bin, err := dec.ParseData(p)
	zzsym.Assert(err == nil, "data parses")
	ran, fits := false, 0 // fits is 2 if the elements are too many
	var fn interface{}
	switch zzsym.Choice("handler", 5) {
	case 0:
		fn = func(v []int) { ran = true; zzsym.Assert(len(v) == n, "number of elements") }
	case 1:
		fn = func(v [2]int) { ran = true }
		fits = 2
	case 2:
		fn = func(v map[string]int) { ran = true; zzsym.Assert(len(v) <= n, "number of elements") }
	case 3:
		fn = func(v [256]uint8) { ran = true }
		if n > 256 {
			fits = 2
		}
	default:
		fn = func(v *[]interface{}) { ran = true }
	}
	_, err = newCallback(fn).Call(&nspSock{}, dec, data, bin)
	zzsym.Assert((err == nil) == ran, "the handler runs if and only if its arguments could be decoded")
	zzsym.Assert(fits != 2 || !ran, "what does not fit is reported")
	if ran {
		zzsym.Obs("ran")
	} else {
		zzsym.Obs("bad arguments")
	}
}
