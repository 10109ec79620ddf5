package socketio

import (
	"encoding/json"
	"reflect"
	"strconv"
	"unicode/utf8"

	"github.com/zyxar/socketio/zzsym"
)

// zzDrain returns what the decoder has surfaced so far.
func zzDrain(d Decoder) (out []*Packet) {
	for {
		select {
		case p := <-d.Decoded():
			out = append(out, p)
		default:
			return
		}
	}
}

// zzFeed adds the frames of one packet and returns everything surfaced.
func zzFeed(d Decoder, text []byte, bin [][]byte) (out []*Packet, err error) {
	if err = d.Add(MessageTypeString, text); err != nil {
		return
	}
	out = zzDrain(d)
	for i := range bin {
		zzsym.Assert(len(out) == 0, "packet surfaced before its last attachment")
		if err = d.Add(MessageTypeBinary, bin[i]); err != nil {
			return
		}
		out = append(out, zzDrain(d)...)
	}
	return
}

// zzNsp is a namespace: the default one, or any of up to n bytes after the slash.
func zzNsp(n int) string {
	switch k := zzsym.Choice("nsp", n+4); k {
	case 0:
		return ""
	case 1:
		return "/"
	case 2:
		return "/chat"
	case n + 3: // the slash is left out
		s := zzsym.String("nspchar", n)
		for i := 0; i < len(s); i++ {
			zzsym.Assume(s[i] != ',' && s[i] != '?' && s[i] != '/')
		}
		return s
	default:
		s := zzsym.String("nspchar", k-2)
		for i := 0; i < len(s); i++ {
			zzsym.Assume(s[i] != ',' && s[i] != '?')
		}
		return "/" + s
	}
}

func zzWantNsp(s string) string {
	if s == "" {
		return "/"
	}
	return s
}

// zzSlashed is what a namespace becomes in the default parser's format, which has to tell it from the data.
func zzSlashed(s string) string {
	if s == "" || s[0] != '/' {
		return "/" + s
	}
	return s
}

// zzID is no id, any 8-bit id, or one of the extremes.
func zzID() *uint64 {
	switch zzsym.Choice("id", 4) {
	case 0:
		return nil
	case 1:
		return newid(uint64(zzsym.Byte("idval")))
	case 2:
		return newid(1<<63 + 12345)
	default:
		return newid(1<<64 - 1)
	}
}

func zzSameID(a, b *uint64, label string) {
	zzsym.Assert((a == nil) == (b == nil), label)
	if a != nil {
		zzsym.Assert(*a == *b, label)
	}
}

// zzText is any valid UTF-8 text of n bytes.
func zzText(name string, n int) string {
	s := zzsym.String(name, n)
	zzsym.Assume(utf8.ValidString(s))
	return s
}

// zzArg is an argument with the handler parameter type that receives it and a
// comparison of what was received.
type zzArg struct {
	v    interface{}
	typ  reflect.Type
	same func(interface{}) bool
	bin  []byte
	isB  bool
}

const zzArgKinds = 7

func zzIntArg() zzArg {
	i := int(int8(zzsym.Byte("int")))
	return zzArg{v: i, typ: reflect.TypeOf(0), same: func(x interface{}) bool { return x.(int) == i }}
}

func zzMakeArg(kind, n int) zzArg {
	switch kind {
	case 0:
		b := zzsym.Bytes("bin", n)
		return zzArg{v: &Bytes{Data: b}, typ: reflect.TypeOf(&Bytes{}), bin: b, isB: true, same: func(x interface{}) bool {
			return zzsym.EqBytes(x.(*Bytes).Data, b)
		}}
	case 1:
		s := zzText("str", n)
		return zzArg{v: s, typ: reflect.TypeOf(""), same: func(x interface{}) bool { return zzsym.EqString(x.(string), s) }}
	case 2:
		i := []int{0, -7, 1<<53 - 1}[zzsym.Choice("int", 3)]
		return zzArg{v: i, typ: reflect.TypeOf(0), same: func(x interface{}) bool { return x.(int) == i }}
	case 3:
		b := zzsym.Bool("bool")
		return zzArg{v: b, typ: reflect.TypeOf(false), same: func(x interface{}) bool { return x.(bool) == b }}
	case 4:
		s := zzText("mapval", 1)
		m := map[string]interface{}{"k": s, "l": []interface{}{true, nil}}
		return zzArg{v: m, typ: reflect.TypeOf(m), same: func(x interface{}) bool {
			y := x.(map[string]interface{})
			v, _ := y["k"].(string)
			l, _ := y["l"].([]interface{})
			return len(y) == 2 && v == s && len(l) == 2 && l[0] == true && l[1] == nil
		}}
	case 5: // a value that is BinaryMarshaler by value, received by value
		b := zzsym.Bytes("bin", n)
		return zzArg{v: Bytes{Data: b}, typ: reflect.TypeOf(Bytes{}), bin: b, isB: true, same: func(x interface{}) bool {
			return zzsym.EqBytes(x.(Bytes).Data, b)
		}}
	default:
		return zzArg{v: nil, typ: reflect.TypeOf(new(interface{})).Elem(), same: func(x interface{}) bool { return x == nil }}
	}
}

func zzArgs(max, n int, kinds int) []zzArg {
	as := make([]zzArg, zzsym.Choice("nargs", max+1))
	for i := range as {
		as[i] = zzMakeArg(zzsym.Choice("arg", kinds), n)
	}
	return as
}

func zzUnmarshalAndCompare(au ArgsUnmarshaler, as []zzArg, data []byte, bin [][]byte) {
	types := make([]reflect.Type, len(as))
	for i := range as {
		types[i] = as[i].typ
	}
	in, err := au.UnmarshalArgs(types, data, bin)
	zzsym.Assert(err == nil, "arguments unmarshal")
	zzsym.Assert(len(in) == len(as), "number of arguments")
	for i := range as {
		zzsym.Assert(as[i].same(in[i].Interface()), "argument "+as[i].typ.String())
	}
}

func zzEventOrAck(enc Encoder, dec Decoder, name string, as []zzArg, nsp string, id *uint64, ack bool) {
	var data []interface{}
	nb := 0
	if !ack {
		data = append(data, name)
	}
	for i := range as {
		data = append(data, as[i].v)
		if as[i].isB {
			nb++
		}
	}
	if data == nil {
		data = []interface{}{}
	}
	typ, want := PacketTypeEvent, PacketTypeEvent
	if ack {
		typ, want = PacketTypeAck, PacketTypeAck
	}
	if nb > 0 {
		want += 3
	}
	text, bin, err := enc.Encode(&Packet{Type: typ, Namespace: nsp, ID: id, Data: data})
	zzsym.Assert(err == nil, "packet encodes")
	zzsym.Assert(len(bin) == nb, "one frame per binary argument")
	ps, err := zzFeed(dec, text, bin)
	zzsym.Assert(err == nil, "encoded packet is accepted")
	zzsym.Assert(len(ps) == 1, "packet surfaces once")
	p := ps[0]
	zzsym.Assert(p.Type == want, "type")
	zzsym.Assert(zzsym.EqString(p.Namespace, zzSlashed(nsp)), "namespace")
	zzSameID(p.ID, id, "id")
	ev, left, b, err := dec.ParseData(p)
	zzsym.Assert(err == nil, "data parses")
	if !ack {
		zzsym.Assert(zzsym.EqString(ev, name), "event name")
	}
	zzsym.Assert(len(b) == nb, "number of attachments")
	k := 0
	for i := range as {
		if as[i].isB {
			zzsym.Assert(zzsym.EqBytes(b[k], as[i].bin), "attachment bytes")
			k++
		}
	}
	zzUnmarshalAndCompare(dec, as, left, b)
}

// ZZC04name: event names.
func ZZC04name() {
	name := zzText("name", 1+zzsym.Choice("namelen", zzsym.Param("name", 2)))
	as := []zzArg{zzMakeArg(zzsym.Choice("arg", 2), 1)}
	as = as[:zzsym.Choice("nargs", 2)]
	zzEventOrAck(DefaultParser.Encoder(), DefaultParser.Decoder(), name, as, "/", nil, false)
}

// ZZC04args: argument lists of every mix of kinds, for events and acks.
func ZZC04args() {
	ack := zzsym.Choice("ack", 2) == 1
	var id *uint64
	if ack {
		id = newid(7)
	}
	zzEventOrAck(DefaultParser.Encoder(), DefaultParser.Decoder(), "ev", zzArgs(zzsym.Param("args", 2), zzsym.Param("len", 1), zzArgKinds), "/", id, ack)
}

// ZZC04int: integer arguments.
func ZZC04int() {
	zzEventOrAck(DefaultParser.Encoder(), DefaultParser.Decoder(), "ev", []zzArg{zzIntArg()}, "/", nil, false)
}

// ZZC04head: namespaces and ids.
func ZZC04head() {
	ack := zzsym.Choice("ack", 2) == 1
	nsp, id := zzNsp(zzsym.Param("nsp", 2)), zzID()
	as := []zzArg{zzMakeArg(zzsym.Choice("arg", 2), 1)}
	zzEventOrAck(DefaultParser.Encoder(), DefaultParser.Decoder(), "ev", as, nsp, id, ack)
}

// ZZC04plain: connect, disconnect and error packets.
func ZZC04plain() {
	p := &Packet{Type: []PacketType{PacketTypeConnect, PacketTypeDisconnect, PacketTypeError}[zzsym.Choice("type", 3)], Namespace: zzNsp(zzsym.Param("nsp", 2))}
	nsp, typ := p.Namespace, p.Type
	p.ID = zzID()
	id := p.ID
	var s string
	kind := 0
	if typ == PacketTypeError {
		kind = zzsym.Choice("data", 3)
	}
	switch kind {
	case 1:
		s = zzText("msg", zzsym.Choice("msglen", 3))
		p.Data = s
	case 2:
		s = zzText("msg", 1)
		p.Data = map[string]interface{}{"message": s}
	}
	enc, dec := DefaultParser.Encoder(), DefaultParser.Decoder()
	text, bin, err := enc.Encode(p)
	zzsym.Assert(err == nil, "packet encodes")
	ps, err := zzFeed(dec, text, bin)
	zzsym.Assert(err == nil, "encoded packet is accepted")
	zzsym.Assert(len(ps) == 1, "packet surfaces once")
	q := ps[0]
	zzsym.Assert(q.Type == typ, "type")
	zzsym.Assert(zzsym.EqString(q.Namespace, zzSlashed(nsp)), "namespace")
	zzSameID(q.ID, id, "id")
	switch kind {
	case 0:
		zzsym.Assert(q.Data == nil, "no data")
	case 1:
		r, _ := q.Data.(string)
		zzsym.Assert(zzsym.EqString(r, s), "data")
	case 2:
		m, _ := q.Data.(map[string]interface{})
		r, _ := m["message"].(string)
		zzsym.Assert(len(m) == 1 && r == s, "data")
	}
}

func zzTrim(b []byte) []byte {
	for len(b) > 0 && (b[len(b)-1] == '\n' || b[len(b)-1] == ' ') {
		b = b[:len(b)-1]
	}
	return b
}

// ZZC05frames: the frames written are those of the protocol.
func ZZC05frames() {
	kind := zzsym.Choice("packet", 5)
	typ := []PacketType{PacketTypeConnect, PacketTypeDisconnect, PacketTypeEvent, PacketTypeAck, PacketTypeError}[kind]
	p := &Packet{Type: typ}
	maxArgs := zzsym.Param("args", 2)
	if zzsym.Choice("head", 2) == 1 {
		p.Namespace = zzNsp(1)
		p.ID = zzID()
		maxArgs = 0
	}
	nsp := zzSlashed(p.Namespace)
	id := p.ID
	if zzsym.Choice("received", 2) == 1 { // a packet that came in with attachments and is sent back
		p.buffer = [][]byte{{1}, {2}}
		p.attachments = zzsym.Choice("left", 2)
	}
	var want []byte
	var bins [][]byte
	hasData := false
	switch typ {
	case PacketTypeEvent, PacketTypeAck:
		as := zzArgs(maxArgs, 1, 6)
		hasData = zzsym.Choice("data", 2) == 1
		if !hasData {
			break
		}
		want = append(want, '[')
		var data []interface{}
		if typ == PacketTypeEvent {
			s := "ev"
			if maxArgs == 0 {
				s = zzText("name", 1)
			}
			b, _ := json.Marshal(s)
			want = append(want, b...)
			data = append(data, s)
		}
		for i := range as {
			if len(data) > 0 {
				want = append(want, ',')
			}
			data = append(data, as[i].v)
			if as[i].isB {
				want = append(want, `{"_placeholder":true,"num":`...)
				want = strconv.AppendInt(want, int64(len(bins)), 10)
				want = append(want, '}')
				bins = append(bins, as[i].bin)
			} else {
				b, _ := json.Marshal(as[i].v)
				want = append(want, b...)
			}
		}
		if data == nil {
			data = []interface{}{}
		}
		want = append(want, ']')
		p.Data = data
	case PacketTypeError:
		if zzsym.Choice("data", 2) == 1 {
			s := zzText("msg", 1)
			p.Data = s
			want, _ = json.Marshal(s)
		}
	}
	wtyp := typ
	if len(bins) > 0 {
		wtyp += 3
	}
	head := []byte{'0' + byte(wtyp)}
	if len(bins) > 0 {
		head = strconv.AppendInt(head, int64(len(bins)), 10)
		head = append(head, '-')
	}
	if nsp != "/" {
		head = append(head, nsp...)
		head = append(head, ',')
	}
	if id != nil {
		head = strconv.AppendUint(head, *id, 10)
	}
	want = append(head, want...)
	text, bin, err := DefaultParser.Encoder().Encode(p)
	zzsym.Assert(err == nil, "packet encodes")
	zzsym.Assert(zzsym.EqBytes(zzTrim(text), want), "text frame")
	zzsym.Assert(len(bin) == len(bins), "one frame per binary argument and nothing else")
	for i := range bins {
		zzsym.Assert(zzsym.EqBytes(bin[i], bins[i]), "binary frame")
	}
}

// zzDeclared reads the attachment count a text frame announces.
func zzDeclared(s []byte) int {
	if len(s) == 0 || s[0] != '5' && s[0] != '6' {
		return 0
	}
	n := 0
	for i := 1; i < len(s) && s[i] >= '0' && s[i] <= '9'; i++ {
		n = n*10 + int(s[i]-'0')
		if n > 100 {
			break
		}
	}
	return n
}

// zzAnyFrames feeds arbitrary frames, checking whatever surfaces, and then that the decoder still works.
func zzAnyFrames(dec Decoder, frames int, frame func(i int) (MessageType, []byte)) {
	declared, got := 0, 0
	for i := 0; i < frames; i++ {
		mt, b := frame(i)
		in := append([]byte(nil), b...)
		err := dec.Add(mt, b)
		ps := zzDrain(dec)
		zzsym.Assert(len(ps) <= 1, "one frame surfaces at most one packet")
		if mt == MessageTypeString {
			declared, got = zzDeclared(in), 0
		} else {
			got++
		}
		if len(ps) == 1 {
			zzsym.Assert(err == nil, "a rejected frame surfaces nothing")
			p := ps[0]
			zzsym.Assert(p.Type <= PacketTypeBinaryAck, "surfaced packet has one of the seven types")
			if p.Type >= PacketTypeBinaryEvent {
				zzsym.Assert(declared == got, "binary packet surfaces with its declared attachments")
				_, _, bin, perr := dec.ParseData(p)
				if perr == nil {
					zzsym.Assert(len(bin) == declared, "binary packet has its declared attachments")
				}
				zzsym.Obs("binary")
			} else {
				dec.ParseData(p)
				zzsym.Obs("packet")
			}
		} else if err != nil {
			zzsym.Obs("error")
		}
	}
	// recovery
	x, y := zzsym.Byte("after"), zzsym.Byte("after")
	ps, err := zzFeed(dec, []byte(`52-/n,7["ev",{"_placeholder":true,"num":0},"s",{"_placeholder":true,"num":1}]`), [][]byte{{x}, {y}})
	zzsym.Assert(err == nil && len(ps) == 1, "a well-formed packet that follows is decoded")
	p := ps[0]
	zzsym.Assert(p.Type == PacketTypeBinaryEvent && p.Namespace == "/n" && p.ID != nil && *p.ID == 7, "the packet that follows is intact")
	ev, data, bin, err := dec.ParseData(p)
	zzsym.Assert(err == nil && ev == "ev" && string(data) == `["s"]` && len(bin) == 2 && len(bin[0]) == 1 && bin[0][0] == x && len(bin[1]) == 1 && bin[1][0] == y, "the data that follows is intact")
	zzsym.Assert(dec.Add(MessageTypeBinary, []byte{1}) != nil, "an attachment nobody announced is an error")
}

// ZZC06bytes: frames of arbitrary bytes.
func ZZC06bytes() {
	n := zzsym.Param("n", 4)
	zzAnyFrames(DefaultParser.Decoder(), 1, func(int) (MessageType, []byte) {
		return MessageType(zzsym.Choice("kind", 2)), zzsym.Bytes("frame", zzsym.Choice("len", n+1))
	})
}

// ZZC06sequence: short frames of arbitrary bytes in sequence.
func ZZC06sequence() {
	n := zzsym.Param("n", 2)
	zzAnyFrames(DefaultParser.Decoder(), zzsym.Param("frames", 2), func(int) (MessageType, []byte) {
		return MessageType(zzsym.Choice("kind", 3)), zzsym.Bytes("frame", zzsym.Choice("len", n+1))
	})
}

var zzTemplates = []string{
	`51-["e",{"_placeholder":true,"num":0}]`,
	`62-/n,1[{"_placeholder":true,"num":0},"x",{"_placeholder":true,"num":1}]`,
	`2/n,12["e",{"a":[1,null]}]`,
	`31[true]`,
	`4{"m":"x"}`,
	`0/n?a=b`,
}

// ZZC06mangled: a packet with one byte replaced by any other, or cut anywhere, then attachments and another packet.
func ZZC06mangled() {
	t := []byte(zzTemplates[zzsym.Choice("template", len(zzTemplates))])
	k := zzsym.Choice("at", len(t)+1)
	switch zzsym.Choice("how", 3) {
	case 0:
		zzsym.Assume(k < len(t))
		t[k] = zzsym.Byte("byte")
	case 1:
		t = t[:k]
	case 2:
		t = append(t[:k:k], append([]byte{zzsym.Byte("byte")}, t[k:]...)...)
	}
	follow := zzsym.Choice("follow", 3)
	zzAnyFrames(DefaultParser.Decoder(), 1+follow, func(i int) (MessageType, []byte) {
		if i == 0 {
			return MessageTypeString, t
		}
		return MessageTypeBinary, []byte{zzsym.Byte("bin")}
	})
}

// ZZC06pending: a binary packet cut short by a rejected or accepted frame never takes later attachments for its own.
func ZZC06pending() {
	dec := DefaultParser.Decoder()
	seq := []struct {
		mt MessageType
		b  []byte
	}{
		{MessageTypeString, []byte(`52-["e",{"_placeholder":true,"num":0},{"_placeholder":true,"num":1}]`)},
		{MessageTypeBinary, []byte{1}},
		{MessageTypeString, zzsym.Bytes("frame", zzsym.Choice("len", 3))},
		{MessageTypeBinary, []byte{2}},
	}
	zzAnyFrames(dec, len(seq), func(i int) (MessageType, []byte) { return seq[i].mt, seq[i].b })
}

// ZZC07attachments: binary packets as a peer writes them, frame by frame, several in a row.
func ZZC07attachments() {
	dec := DefaultParser.Decoder()
	packets := zzsym.Param("packets", 2)
	for k := 0; k < packets; k++ {
		ack := zzsym.Choice("ack", 2) == 1
		n := 1 + zzsym.Choice("args", zzsym.Param("args", 3))
		sp := ""
		if zzsym.Choice("space", 2) == 1 {
			sp = " "
		}
		text := ""
		if !ack {
			text = `"ev"`
		}
		var as []zzArg
		var bins [][]byte
		for i := 0; i < n; i++ {
			a := zzMakeArg(zzsym.Choice("arg", 2), 1)
			if a.isB {
				if text != "" {
					text += sp + "," + sp
				}
				text += `{"_placeholder":true,` + sp + `"num":` + strconv.Itoa(len(bins)) + `}`
				bins = append(bins, a.bin)
			} else {
				s := a.v.(string)
				for j := 0; j < len(s); j++ {
					zzsym.Assume(s[j] >= ' ' && s[j] != '"' && s[j] != '\\')
				}
				if text != "" {
					text += sp + "," + sp
				}
				text += `"` + s + `"`
			}
			as = append(as, a)
		}
		if len(bins) == 0 {
			zzsym.Assume(false)
		}
		head := "5"
		if ack {
			head = "6"
		}
		ps, err := zzFeed(dec, []byte(head+strconv.Itoa(len(bins))+"-"+strconv.Itoa(k)+"["+sp+text+"]"), bins)
		zzsym.Assert(err == nil, "packet is accepted")
		zzsym.Assert(len(ps) == 1, "packet surfaces exactly when its last attachment arrives, once")
		p := ps[0]
		zzsym.Assert(p.ID != nil && *p.ID == uint64(k), "its own id")
		zzsym.Assert(p.Type == PacketTypeBinaryEvent && !ack || p.Type == PacketTypeBinaryAck && ack, "its own type")
		ev, data, bin, err := dec.ParseData(p)
		zzsym.Assert(err == nil, "data parses")
		zzsym.Assert(ack || ev == "ev", "event name")
		zzUnmarshalAndCompare(dec, as, data, bin)
	}
}

// zzMany makes a list with n attachments and a few other arguments among them.
func zzMany(n int) (as []zzArg) {
	text := func(s string) zzArg {
		return zzArg{v: s, typ: reflect.TypeOf(""), same: func(x interface{}) bool { return x.(string) == s }}
	}
	at := zzsym.Choice("text at", 4) // nowhere, first, in the middle, last
	if at == 1 {
		as = append(as, text("first"))
	}
	sym := zzsym.Choice("symbolic", 3) * (n - 1) / 2
	for i := 0; i < n; i++ {
		b := []byte{byte(i), byte(i >> 8)}
		if i == sym {
			b = zzsym.Bytes("bin", 2)
		}
		as = append(as, zzArg{v: &Bytes{Data: b}, typ: reflect.TypeOf(&Bytes{}), bin: b, isB: true, same: func(x interface{}) bool {
			return zzsym.EqBytes(x.(*Bytes).Data, b)
		}})
		if at == 2 && i == n/2 {
			as = append(as, text("middle"))
		}
	}
	if at == 3 {
		as = append(as, text("last"))
	}
	return
}

var zzCounts = []int{7, 8, 9, 10, 11, 12, 16, 99, 100, 101, 255, 256, 999, 1000}

// ZZC04many: packets with many attachments.
func ZZC04many() {
	as := zzMany(zzCounts[zzsym.Choice("attachments", zzsym.Param("counts", 7))])
	ack := zzsym.Choice("ack", 2) == 1
	var id *uint64
	if ack {
		id = newid(7)
	}
	zzEventOrAck(DefaultParser.Encoder(), DefaultParser.Decoder(), "ev", as, "/", id, ack)
}

// ZZC07many: the frames of packets with many attachments, whoever encoded them.
func ZZC07many() {
	dec := DefaultParser.Decoder()
	n := zzCounts[zzsym.Choice("attachments", zzsym.Param("counts", 7))]
	as := zzMany(n)
	text := ""
	var bins [][]byte
	for i := range as {
		text += ","
		if as[i].isB {
			text += `{"_placeholder":true,"num":` + strconv.Itoa(len(bins)) + `}`
			bins = append(bins, as[i].bin)
		} else {
			text += `"` + as[i].v.(string) + `"`
		}
	}
	zzsym.Assert(dec.Add(MessageTypeString, []byte("5"+strconv.Itoa(n)+`-["ev"`+text+"]")) == nil, "packet is accepted")
	for i := range bins {
		zzsym.Assert(len(zzDrain(dec)) == 0, "nothing surfaces before the last attachment")
		zzsym.Assert(dec.Add(MessageTypeBinary, bins[i]) == nil, "attachment is accepted")
	}
	ps := zzDrain(dec)
	zzsym.Assert(len(ps) == 1, "packet surfaces with the last attachment, once")
	_, data, bin, err := dec.ParseData(ps[0])
	zzsym.Assert(err == nil, "data parses")
	zzUnmarshalAndCompare(dec, as, data, bin)
}

// ZZC05several: packets encoded one after the other, before any of them is sent.
func ZZC05several() {
	enc := DefaultParser.Encoder()
	type sent struct {
		text, want []byte
		bin, bins  [][]byte
	}
	var all []sent
	n := zzsym.Param("packets", 3)
	for i := 0; i < n; i++ {
		s := sent{}
		l := zzText("name", 1)
		switch zzsym.Choice("packet", 3) {
		case 0:
			b := zzsym.Bytes("bin", zzsym.Choice("size", 2))
			s.text, s.bin = zzEncode(enc, &Packet{Type: PacketTypeEvent, Namespace: "/", Data: []interface{}{"e" + strconv.Itoa(i), &Bytes{Data: b}}})
			s.want, s.bins = []byte(`51-["e`+strconv.Itoa(i)+`",{"_placeholder":true,"num":0}]`), [][]byte{b}
		case 1:
			zzsym.Assume(l[0] >= 'a' && l[0] <= 'z')
			s.text, s.bin = zzEncode(enc, &Packet{Type: PacketTypeEvent, Namespace: "/", Data: []interface{}{l}})
			s.want = []byte(`2["` + l + `"]`)
		default:
			s.text, s.bin = zzEncode(enc, &Packet{Type: PacketTypeConnect, Namespace: "/n" + strconv.Itoa(i)})
			s.want = []byte("0/n" + strconv.Itoa(i) + ",")
		}
		all = append(all, s)
	}
	for _, s := range all {
		zzsym.Assert(zzsym.EqBytes(zzTrim(s.text), s.want), "text frame")
		zzsym.Assert(len(s.bin) == len(s.bins), "number of attachments")
		for i := range s.bin {
			zzsym.Assert(zzsym.EqBytes(s.bin[i], s.bins[i]), "attachment")
		}
	}
}

func zzEncode(enc Encoder, p *Packet) ([]byte, [][]byte) {
	text, bin, err := enc.Encode(p)
	zzsym.Assert(err == nil, "packet encodes")
	return text, bin
}

// zzSized is an attachment of a chosen size with any first and last byte.
func zzSized(sizes int) zzArg {
	b := make([]byte, []int{0, 9, 1, 130, 2, 700, 5000}[zzsym.Choice("size", sizes)])
	for i := range b {
		b[i] = byte(i)
	}
	if len(b) > 0 {
		b[0], b[len(b)-1] = zzsym.Byte("first"), zzsym.Byte("last")
	}
	return zzArg{v: &Bytes{Data: b}, typ: reflect.TypeOf(&Bytes{}), bin: b, isB: true, same: func(x interface{}) bool {
		return zzsym.EqBytes(x.(*Bytes).Data, b)
	}}
}

// ZZC07sizes: packets with attachments of various sizes, empty ones among them, one packet after the other;
// what is surfaced is looked at when all have been added.
func ZZC07sizes() {
	enc, dec := DefaultParser.Encoder(), DefaultParser.Decoder()
	type packet struct {
		as  []zzArg
		p   *Packet
		ack bool
	}
	var all []packet
	late := zzsym.Choice("taken late", 2) == 1 // all packets are added before any is taken
	for k, packets := 0, zzsym.Param("packets", 2); k < packets; k++ {
		q := packet{ack: zzsym.Choice("ack", 2) == 1}
		data := []interface{}{}
		typ, id := PacketTypeAck, newid(uint64(k))
		if !q.ack {
			data, typ = append(data, "ev"), PacketTypeEvent
		}
		for i, n := 0, 1+zzsym.Choice("attachments", zzsym.Param("attachments", 2)); i < n; i++ {
			a := zzSized(zzsym.Param("sizes", 4))
			q.as = append(q.as, a)
			data = append(data, a.v)
		}
		text, bins, err := enc.Encode(&Packet{Type: typ, Namespace: "/", ID: id, Data: data})
		zzsym.Assert(err == nil, "packet encodes")
		var frames [][]byte
		for i := range bins {
			frames = append(frames, append([]byte(nil), bins[i]...))
		}
		zzsym.Assert(len(frames) == len(q.as), "one frame per attachment")
		if late {
			zzsym.Assert(dec.Add(MessageTypeString, append([]byte(nil), text...)) == nil, "packet is accepted")
			for _, f := range frames {
				zzsym.Assert(dec.Add(MessageTypeBinary, f) == nil, "attachment is accepted")
			}
			all = append(all, q)
			continue
		}
		ps, err := zzFeed(dec, append([]byte(nil), text...), frames)
		zzsym.Assert(err == nil, "packet is accepted")
		zzsym.Assert(len(ps) == 1, "packet surfaces exactly when its last attachment arrives, once")
		q.p = ps[0]
		all = append(all, q)
	}
	if late {
		ps := zzDrain(dec)
		zzsym.Assert(len(ps) == len(all), "every packet surfaces once")
		for i := range all {
			all[i].p = ps[i]
		}
	}
	for k, q := range all {
		zzsym.Assert(q.p.ID != nil && *q.p.ID == uint64(k), "its own id")
		zzsym.Assert(q.p.Type == PacketTypeBinaryEvent && !q.ack || q.p.Type == PacketTypeBinaryAck && q.ack, "its own type")
		_, data, bin, err := dec.ParseData(q.p)
		zzsym.Assert(err == nil, "data parses")
		zzUnmarshalAndCompare(dec, q.as, data, bin)
	}
}

// ZZC06counts: attachment counts of many digits.
func ZZC06counts() {
	prefix := []string{"", "0000000000000000000", "1844674407370955161", "922337203685477580", "429496729", "99999999999999999999999"}[zzsym.Choice("prefix", 6)]
	b := []byte("5" + prefix)
	for i, n := 0, 1+zzsym.Choice("digits", 2); i < n; i++ {
		d := zzsym.Byte("digit")
		zzsym.Assume(zzsym.And(d >= '0', d <= '9'))
		b = append(b, d)
	}
	b = append(b, []string{`-["e"]`, `-["e",{"_placeholder":true,"num":0}]`, `-["e",{"_placeholder":true,"num":0},{"_placeholder":true,"num":1}]`, `-`, ``}[zzsym.Choice("rest", 5)]...)
	zzAnyFrames(DefaultParser.Decoder(), 3, func(i int) (MessageType, []byte) {
		if i == 0 {
			return MessageTypeString, b
		}
		return MessageTypeBinary, []byte{byte(i)}
	})
}

// ZZC07undrained: more packets come in than anyone has taken.
func ZZC07undrained() {
	parser := zzParser()
	enc, dec := parser.Encoder(), parser.Decoder()
	n := zzsym.Param("packets", 20)
	binary := zzsym.Choice("binary", 3) // every one, every other, none
	b := zzsym.Bytes("b", 2)
	added := 0
	if zzsym.Param("races", 1) == 1 {
		zzsym.Races()
	}
	zzsym.Delays(zzsym.Param("delays", 1))
	go func() {
		for i := 0; i < n; i++ {
			p := &Packet{Type: PacketTypeEvent, Namespace: "/", ID: newid(uint64(i)), Data: []interface{}{"ev", i}}
			if binary == 0 || binary == 1 && i%2 == 0 {
				var x interface{} = &Bytes{Data: b}
				if parser == MsgpackParser {
					x = b
				}
				p.Data = []interface{}{"ev", x}
			}
			text, bins, err := enc.Encode(p)
			zzsym.Assert(err == nil, "packet encodes")
			if len(text) > 0 {
				typ := MessageTypeString
				if parser == MsgpackParser {
					typ = MessageTypeBinary
				}
				zzsym.Assert(dec.Add(typ, append([]byte(nil), text...)) == nil, "packet is accepted")
			}
			for _, f := range bins {
				zzsym.Assert(dec.Add(MessageTypeBinary, append([]byte(nil), f...)) == nil, "attachment is accepted")
			}
			added++
		}
	}()
	if zzsym.Choice("wait", 2) == 1 {
		zzsym.Quiesce()
	}
	for i := 0; i < n; i++ {
		p := <-dec.Decoded()
		zzsym.Assert(p != nil && p.ID != nil && *p.ID == uint64(i), "every packet surfaces once, in order")
	}
	zzsym.Quiesce()
	zzsym.Assert(added == n && len(dec.Decoded()) == 0, "and nothing else")
	zzsym.Cover("done")
}

// ZZC04long: one part of the packet, its namespace, event name, text or attachment, is long.
func ZZC04long() {
	lens := []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1023, 1024, 1025, 4095, 4097, 65535, 65537}
	n := lens[zzsym.Choice("length", zzsym.Param("lengths", 20))]
	long := func(name string) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('a' + i%25)
		}
		for _, i := range []int{0, n / 2, n - 1} {
			b[i] = zzsym.Byte(name)
			zzsym.Assume(b[i] >= 'a' && b[i] <= 'z')
		}
		return string(b)
	}
	nsp, name, text, bin := "/", "ev", "t", []byte{1}
	switch zzsym.Choice("which", 4) {
	case 0:
		nsp = "/" + long("nsp")
	case 1:
		name = long("name")
	case 2:
		text = long("text")
	case 3:
		bin = []byte(long("bin"))
	}
	ack := zzsym.Choice("ack", 2) == 1
	var id *uint64
	if ack {
		id = newid(7)
	}
	args := []interface{}{text, &Bytes{Data: bin}}
	want := []byte("51-")
	if ack {
		want = []byte("61-")
	}
	if nsp != "/" {
		want = append(append(want, nsp...), ',')
	}
	if ack {
		want = append(want, '7')
	} else {
		args = append([]interface{}{name}, args...)
	}
	want = append(want, '[')
	if !ack {
		want = append(append(append(want, '"'), name...), `",`...)
	}
	want = append(append(append(want, '"'), text...), `",{"_placeholder":true,"num":0}]`...)
	typ := PacketTypeEvent
	if ack {
		typ = PacketTypeAck
	}
	frame, bins, err := DefaultParser.Encoder().Encode(&Packet{Type: typ, Namespace: nsp, ID: id, Data: args})
	zzsym.Assert(err == nil && len(bins) == 1, "packet encodes")
	zzsym.Assert(zzsym.EqBytes(zzTrim(frame), want), "text frame")
	zzsym.Assert(zzsym.EqBytes(bins[0], bin), "binary frame")
	dec := DefaultParser.Decoder()
	ps, err := zzFeed(dec, frame, bins)
	zzsym.Assert(err == nil && len(ps) == 1, "packet surfaces once")
	p := ps[0]
	zzsym.Assert(p.Type == typ+3, "type")
	zzsym.Assert(zzsym.EqString(p.Namespace, nsp), "namespace")
	zzSameID(p.ID, id, "id")
	ev, left, b, err := dec.ParseData(p)
	zzsym.Assert(err == nil && len(b) == 1, "data parses")
	zzsym.Assert(ack || zzsym.EqString(ev, name), "event name")
	vs, err := dec.UnmarshalArgs([]reflect.Type{reflect.TypeOf(""), reflect.TypeOf(&Bytes{})}, left, b)
	zzsym.Assert(err == nil && len(vs) == 2, "arguments")
	zzsym.Assert(zzsym.EqString(vs[0].Interface().(string), text), "text")
	zzsym.Assert(zzsym.EqBytes(vs[1].Interface().(*Bytes).Data, bin), "attachment")
}
