package socketio

import (
	"encoding/json"
	"strconv"
	"sync"

	"github.com/zyxar/socketio/zzsym"
)

// zzWord is a string of at most n letters a..c.
func zzWord(name string, n int) string {
	b := zzsym.Bytes(name, zzsym.Choice(name+" len", n+1))
	for _, c := range b {
		zzsym.Assume(c >= 'a' && c <= 'z')
	}
	return string(b)
}

// ZZC10dispatch: which handler an event runs.
func ZZC10dispatch() {
	s := zzServe(DefaultParser)
	l := &zzCalls{}
	root, a := s.Namespace("/"), s.Namespace("/a")
	l.watch(root)
	l.watch(a)
	root.OnEvent("x", func(so Socket, v string) { l.add("/ x", so, v) })
	root.OnEvent("xy", func(v string) { l.add("/ xy", nil, v) })
	root.OnEvent("yy", func(so Socket) { l.add("/ yy", so) })
	a.OnEvent("x", func(v string, so Socket) { l.add("/a x", so, v) })
	a.OnEvent("z", func(v string) { l.add("/a z", nil, v) })
	p, other := zzConnect(s), zzConnect(s)
	for _, q := range []*zzPeer{p, other} {
		q.text("0/a")
	}
	zzsym.Quiesce()
	p.take()
	other.take()
	l.clear()
	nsp := "/" + zzWord("namespace", zzsym.Param("nsp", 2))
	ev := zzWord("event", zzsym.Param("event", 2))
	zzsym.Assume(ev != "")
	v := zzWord("value", 1)
	head := "2"
	if nsp != "/" {
		head += nsp + ","
	}
	p.text(head + `["` + ev + `","` + v + `"]`)
	zzsym.Quiesce()
	want := ""
	if nsp == "/" && (ev == "x" || ev == "xy" || ev == "yy") || nsp == "/a" && (ev == "x" || ev == "z") {
		want = nsp + " " + ev
	}
	if want == "" {
		zzsym.Assert(len(l.cs) == 0, "no handler runs")
		if nsp != "/" && nsp != "/a" {
			ts := p.texts()
			zzsym.Assert(len(ts) == 1 && zzsym.EqString(ts[0], "4"+nsp+`,"namespace unavailable"`), "an unknown namespace is answered with an error packet for it")
			zzsym.Cover("unknown namespace")
		} else {
			zzsym.Assert(len(p.take()) == 0, "nothing is answered")
			zzsym.Cover("no handler")
		}
	} else {
		zzsym.Assert(len(l.cs) == 1 && l.cs[0].what == want, "exactly the registered handler runs, once")
		c := l.cs[0]
		if want != "/ yy" {
			zzsym.Assert(len(c.args) == 1 && zzsym.EqString(c.args[0].(string), v), "with the argument sent")
		}
		if want != "/ xy" && want != "/a z" {
			zzsym.Assert(c.nsp == nsp && c.sid == p.sid, "with a socket of that session and namespace")
		}
		zzsym.Assert(len(p.take()) == 0, "nothing is answered")
		zzsym.Cover("handled")
	}
	zzsym.Assert(len(other.take()) == 0, "the other session is left alone")
	// the session goes on
	l.clear()
	p.text(`2["x","again"]`)
	other.text(`2/a,["x","again"]`)
	zzsym.Quiesce()
	x := l.of("/ x")
	zzsym.Assert(len(x) == 1 && x[0].sid == p.sid, "later events are handled")
	x = l.of("/a x")
	zzsym.Assert(len(x) == 1 && x[0].sid == other.sid, "other sessions' events are handled")
}

var zzTokens = []string{`"s"`, `1`, `-1`, `1.5`, `300`, `true`, `null`, `[1]`, `["s"]`, `{"A":1}`, `{"A":"s"}`, `""`}

type zzStruct struct{ A int }

// zzTyped registers a handler for each kind of parameter; fits tells, for the
// handler's parameters, whether a JSON argument can be decoded.
func zzTyped(n Namespace, l *zzCalls) {
	n.OnEvent("h0", func(so Socket, a string) { l.add("h0", so, a) })
	n.OnEvent("h1", func(a int) { l.add("h1", nil, a) })
	n.OnEvent("h2", func(a int8, so Socket, b bool) { l.add("h2", so, a, b) })
	n.OnEvent("h3", func(a []int) { l.add("h3", nil, a) })
	n.OnEvent("h4", func(a map[string]int) { l.add("h4", nil, a) })
	n.OnEvent("h5", func(a zzStruct) { l.add("h5", nil, a) })
	n.OnEvent("h6", func(a interface{}) { l.add("h6", nil, a) })
	n.OnEvent("h7", func(a *int) { l.add("h7", nil, *a) })
	n.OnEvent("h8", func(a float64, b string) { l.add("h8", nil, a, b) })
	n.OnEvent("h9", func(a uint8) { l.add("h9", nil, a) })
	n.OnEvent("h10", func() { l.add("h10", nil) })
	n.OnEvent("h11", func(so Socket) { l.add("h11", so) })
}

func zzFitTypes(h int) []func(string) (string, bool) {
	try := func(mk func() interface{}) func(string) (string, bool) {
		return func(tok string) (string, bool) {
			x := mk()
			if tok != "" && json.Unmarshal([]byte(tok), x) != nil {
				return "", false
			}
			b, err := json.Marshal(x)
			zzsym.Assert(err == nil, "harness encodes")
			return string(b), true
		}
	}
	str := try(func() interface{} { return new(string) })
	i := try(func() interface{} { return new(int) })
	i8 := try(func() interface{} { return new(int8) })
	bl := try(func() interface{} { return new(bool) })
	f := try(func() interface{} { return new(float64) })
	switch h {
	case 0:
		return []func(string) (string, bool){str}
	case 1, 7:
		return []func(string) (string, bool){i}
	case 2:
		return []func(string) (string, bool){i8, bl}
	case 3:
		return []func(string) (string, bool){try(func() interface{} { return new([]int) })}
	case 4:
		return []func(string) (string, bool){try(func() interface{} { return new(map[string]int) })}
	case 5:
		return []func(string) (string, bool){try(func() interface{} { return new(zzStruct) })}
	case 6:
		return []func(string) (string, bool){try(func() interface{} { return new(interface{}) })}
	case 8:
		return []func(string) (string, bool){f, str}
	case 9:
		return []func(string) (string, bool){try(func() interface{} { return new(uint8) })}
	}
	return nil
}

// ZZC10args: arguments that fit the parameters of a handler, and arguments that do not.
func ZZC10args() {
	client := zzsym.Choice("client", 2) == 1
	e := zzNewEnd(client, DefaultParser)
	nsp := []string{"/", "/a"}[zzsym.Choice("namespace", 2)]
	zzTyped(e.watch(nsp), e.calls)
	silent := zzsym.Choice("no error callback", 2) == 1
	if silent {
		e.nsp(nsp).OnError(nil)
	}
	e.watch(map[string]string{"/": "/a", "/a": "/"}[nsp])
	e.start(DefaultParser, "/a")
	h := zzsym.Choice("handler", 12)
	fits := zzFitTypes(h)
	n := zzsym.Choice("arguments", zzsym.Param("args", 2)+1)
	head := "2"
	if nsp != "/" {
		head += nsp + ","
	}
	id := zzsym.Choice("id", 2) == 1
	if id {
		head += "7"
	}
	msg := head + `["h` + strconv.Itoa(h) + `"`
	ok := true
	var want []string
	for i := 0; i < n; i++ {
		var tok string
		if i < len(fits) {
			tok = zzTokens[zzsym.Choice("argument", len(zzTokens))]
			v, fit := fits[i](tok)
			ok = ok && fit
			want = append(want, v)
		} else {
			tok = `"extra"`
		}
		msg += "," + tok
	}
	for i := n; i < len(fits); i++ {
		v, _ := fits[i]("")
		want = append(want, v)
	}
	e.peer.text(msg + "]")
	zzsym.Quiesce()
	cs := e.calls.cs
	back := e.peer.texts()
	if !ok && silent {
		zzsym.Assert(len(cs) == 0, "no handler runs")
		zzsym.Assert(len(back) == 0, "not acknowledged")
		return
	}
	if !ok {
		zzsym.Assert(len(cs) == 1 && cs[0].what == "error", "reported to the error callback, once, and to nothing else")
		zzsym.Assert(cs[0].nsp == nsp && cs[0].sid == e.peer.sid, "of the event's namespace")
		zzsym.Assert(len(back) == 0, "not acknowledged")
		zzsym.Cover("does not fit")
		return
	}
	zzsym.Assert(len(cs) == 1 && cs[0].what == "h"+strconv.Itoa(h), "the handler runs once, and nothing else")
	for i := range want {
		b, err := json.Marshal(cs[0].args[i])
		zzsym.Assert(err == nil && string(b) == want[i], "with the arguments sent")
	}
	if h == 0 || h == 2 || h == 11 {
		zzsym.Assert(cs[0].nsp == nsp && cs[0].sid == e.peer.sid, "with a socket of the session and namespace")
	}
	if id {
		w := "3"
		if nsp != "/" {
			w += nsp + ","
		}
		zzsym.Assert(zzJoin(back) == w+"7[]", "acknowledged once")
	} else {
		zzsym.Assert(len(back) == 0, "not acknowledged")
	}
	zzsym.Cover("fits")
}

// ZZC10parsers: events with binary and other arguments through each parser, on either side, one after another.
func ZZC10parsers() {
	client := zzsym.Choice("client", 2) == 1
	parser := zzParser()
	e := zzNewEnd(client, parser)
	nsp := []string{"/", "/a"}[zzsym.Choice("namespace", 2)]
	n := e.watch(nsp)
	l := e.calls
	if parser == DefaultParser {
		n.OnEvent("bin", func(a Bytes, so Socket, s string, b *Bytes) { l.add("bin", so, a.Data, s, b.Data) })
	} else {
		n.OnEvent("bin", func(a []byte, so Socket, s string, b *[]byte) { l.add("bin", so, a, s, *b) })
	}
	n.OnEvent("raw", func(s string, so Socket) { l.add("raw", so, s) })
	e.start(parser, "/a")
	for k := 0; k < zzsym.Param("events", 2); k++ {
		s := string(zzsym.Bytes("s", 1))
		zzsym.Assume(s[0] >= 'a' && s[0] <= 'z')
		var b1, b2 []byte
		if zzsym.Choice("event", 2) == 0 {
			b1, b2 = zzsym.Bytes("b1", zzsym.Choice("b1 len", 3)), zzsym.Bytes("b2", 1)
			var x, y interface{} = &Bytes{Data: b1}, &Bytes{Data: b2}
			if parser != DefaultParser {
				x, y = b1, b2
			}
			e.send(parser, &Packet{Type: PacketTypeEvent, Namespace: nsp, Data: []interface{}{"bin", x, s, y}})
		} else {
			e.send(parser, &Packet{Type: PacketTypeEvent, Namespace: nsp, Data: []interface{}{"raw", s}})
		}
		zzsym.Quiesce()
		zzsym.Assert(len(l.cs) == k+1, "one handler runs once, and nothing else")
		c := l.cs[k]
		zzsym.Assert(c.nsp == nsp && c.sid == e.peer.sid, "with a socket of the session and namespace")
		if b2 != nil {
			zzsym.Assert(c.what == "bin", "the handler of the event")
			zzsym.Assert(zzsym.And(zzsym.EqBytes(c.args[0].([]byte), b1), zzsym.And(zzsym.EqString(c.args[1].(string), s), zzsym.EqBytes(c.args[2].([]byte), b2))), "with the arguments sent")
		} else {
			zzsym.Assert(c.what == "raw", "the handler of the event")
			zzsym.Assert(zzsym.EqString(c.args[0].(string), s), "with the argument sent")
		}
	}
	zzsym.Assert(len(e.peer.take()) == 0, "nothing is answered")
	zzsym.Cover("handled")
}

// ZZC10names: names around those registered, any bytes in them, through the msgpack parser.
func ZZC10names() {
	s := zzServe(MsgpackParser)
	l := &zzCalls{}
	names := []string{"", "/", "/a", "a", "/A", "/a/", "/a?q=1"}
	evs := []string{"x", "X", "x ", "connect", "message", "*"}
	for _, n := range names {
		ns := s.Namespace(n)
		n := n
		ns.OnError(func(so Socket, err ...interface{}) { l.add("error", so, err...) })
		if n == "" {
			continue // no packet is of this namespace
		}
		for _, ev := range evs {
			what := n + " " + ev
			ns.OnEvent(ev, func(so Socket) { l.add(what, so) })
		}
	}
	p := zzAccept(s)
	p.take()
	k := 1
	zzany := func(name string) string { return string(zzsym.Bytes(name, zzsym.Choice(name+" len", k+1))) }
	nsp, ev := "/a", "x"
	switch zzsym.Choice("free", 4) {
	case 0:
		ev = zzany("before") + "x" + zzany("after")
	case 1:
		k = zzsym.Param("free", 2)
		ev = zzany("event")
	case 2:
		nsp = zzany("before") + "a" + zzany("after")
	case 3:
		k = zzsym.Param("free", 2)
		nsp = "/" + zzany("namespace")
	}
	text, bin, err := MsgpackParser.Encoder().Encode(&Packet{Type: PacketTypeEvent, Namespace: nsp, Data: []interface{}{ev}})
	zzsym.Assert(err == nil && len(text) == 0 && len(bin) == 1, "harness encodes")
	p.bin(bin[0])
	zzsym.Quiesce()
	want := ""
	known := false
	for _, n := range names {
		if nsp != n {
			continue
		}
		known = true
		for _, e := range evs {
			if ev == e {
				want = n + " " + e
			}
		}
	}
	back := p.take()
	if want == "" {
		zzsym.Assert(len(l.cs) == 0, "no handler runs")
		zzsym.Assert(!known || len(back) == 0, "nothing is answered")
		zzsym.Assert(known || len(back) == 1 && !back[0].bin && len(back[0].data) > 8, "an unknown namespace is answered with an error packet")
		zzsym.Cover("no handler")
	} else {
		zzsym.Assert(len(l.cs) == 1 && l.cs[0].what == want, "exactly the registered handler runs, once")
		zzsym.Assert(l.cs[0].nsp == nsp && l.cs[0].sid == p.sid, "with a socket of that session and namespace")
		zzsym.Assert(len(back) == 0, "nothing is answered")
		zzsym.Cover("handled")
	}
}

// ZZC10unknown: events of every kind for a namespace the server does not have.
func ZZC10unknown() {
	parser := zzParser()
	s := zzServe(parser)
	l := &zzCalls{}
	for _, n := range []string{"/", "/a"} {
		l.watch(s.Namespace(n))
		zzTyped(s.Namespace(n), l)
	}
	e := &zzEnd{server: s, calls: l, sock: make(map[string]Socket)}
	e.peer = zzAccept(s)
	zzsym.Quiesce()
	e.peer.take()
	l.clear()
	nsp := []string{"/b", "/aa", "/A", "/a/"}[zzsym.Choice("namespace", 4)]
	if zzsym.Choice("connect first", 2) == 1 {
		e.send(parser, &Packet{Type: PacketTypeConnect, Namespace: nsp})
		zzsym.Quiesce()
		e.peer.take()
	}
	p := &Packet{Type: PacketTypeEvent, Namespace: nsp, Data: []interface{}{"h0", "s"}}
	b := zzsym.Bytes("b", 1)
	switch zzsym.Choice("event", 3) {
	case 1:
		p.Data = []interface{}{"h10"}
	case 2:
		p.Type = PacketTypeBinaryEvent
		if parser == DefaultParser {
			p.Data = []interface{}{"h0", &Bytes{Data: b}, &Bytes{Data: b}}
		} else {
			p.Data = []interface{}{"h0", b, b}
		}
	}
	if zzsym.Choice("id", 2) == 1 {
		p.ID = newid(7)
	}
	e.send(parser, p)
	zzsym.Quiesce()
	zzsym.Assert(len(l.cs) == 0, "no callback runs")
	fs := e.peer.take()
	zzsym.Assert(len(fs) == 1 && !fs[0].bin, "one packet is answered")
	dec := parser.Decoder()
	zzsym.Assert(dec.Add(MessageTypeString, fs[0].data) == nil, "it is well formed")
	ps := zzDrain(dec)
	zzsym.Assert(len(ps) == 1 && ps[0].Type == PacketTypeError && ps[0].Namespace == nsp, "an error packet for that namespace")
	e.send(parser, &Packet{Type: PacketTypeEvent, Namespace: "/", Data: []interface{}{"h10"}})
	zzsym.Quiesce()
	zzsym.Assert(len(l.cs) == 1 && l.cs[0].what == "h10", "the session goes on")
	zzsym.Cover("refused")
}

// ZZC10again: registering for an event again replaces the handler; asking for a namespace again gives the same one.
func ZZC10again() {
	client := zzsym.Choice("client", 2) == 1
	parser := zzParser()
	e := zzNewEnd(client, parser)
	nsp := []string{"/", "/a"}[zzsym.Choice("namespace", 2)]
	e.watch("/")
	e.watch("/a")
	reg := func(event string, v int) {
		e.nsp(nsp).OnEvent(event, func(s string) { e.calls.add(event, nil, v) })
	}
	late := zzsym.Choice("registered once connected", 3)
	events := []string{"ev", "ew"}
	want := map[string]int{}
	n := zzsym.Param("registrations", 4)
	for i := 0; i < n; i++ {
		if i == late {
			e.start(parser, "/a")
		}
		i := i + 1
		ev := events[zzsym.Choice("event", 2)]
		if zzsym.Choice("of another type", 2) == 1 {
			e.nsp(nsp).OnEvent(ev, func(so Socket, s string) { e.calls.add(ev, nil, -i) })
			want[ev] = -i
		} else {
			reg(ev, i)
			want[ev] = i
		}
	}
	for _, ev := range events {
		e.send(parser, &Packet{Type: PacketTypeEvent, Namespace: nsp, Data: []interface{}{ev, "x"}})
		zzsym.Quiesce()
		cs := e.calls.cs
		v, ok := want[ev]
		if !ok {
			zzsym.Assert(len(cs) == 0, "an event nobody registered for runs nothing")
		} else {
			zzsym.Assert(len(cs) == 1 && cs[0].what == ev && cs[0].args[0].(int) == v, "the handler registered last runs, once")
		}
		e.calls.clear()
	}
	zzsym.Cover("done")
}

// ZZC06reported: what the decoder refuses is reported to OnError of the server or client, once, and the session goes on.
func ZZC06reported() {
	client := zzsym.Choice("client", 2) == 1
	parser := zzParser()
	e := zzNewEnd(client, parser)
	l := e.calls
	e.watch("/").OnEvent("h", func(so Socket) { l.add("h", so) })
	var mu sync.Mutex
	told, blank := 0, false
	tell := func(nothing bool) {
		mu.Lock()
		told++
		blank = blank || nothing
		mu.Unlock()
	}
	if client {
		e.client.OnError(func(err interface{}) { tell(err == nil) })
	} else {
		e.server.OnError(func(err error) { tell(err == nil) })
	}
	e.start(parser)
	e.peer.take()
	l.clear()
	dec := parser.Decoder()
	refused, surfaced := 0, 0
	for i := 0; i < zzsym.Param("frames", 2); i++ {
		b := zzsym.Bytes("frame", zzsym.Choice("len", zzsym.Param("len", 2)+1))
		var err error
		if zzsym.Choice("binary", 2) == 1 {
			err = dec.Add(MessageTypeBinary, b)
			e.peer.bin(b)
		} else {
			err = dec.Add(MessageTypeString, b)
			e.peer.text(string(b))
		}
		if err != nil {
			refused++
		}
		surfaced += len(zzDrain(dec))
		zzsym.Quiesce()
		zzsym.Assert(told == refused && !blank, "each refused frame is reported once, and no other")
	}
	if surfaced > 0 {
		return
	}
	zzsym.Assert(len(l.cs) == 0, "no callback of the namespace runs")
	e.send(parser, &Packet{Type: PacketTypeEvent, Namespace: "/", Data: []interface{}{"h"}})
	zzsym.Quiesce()
	zzsym.Assert(len(l.cs) == 1 && l.cs[0].what == "h", "the session goes on")
	zzsym.Assert(told == refused, "a good frame is not reported")
	zzsym.Cover("goes on")
}
