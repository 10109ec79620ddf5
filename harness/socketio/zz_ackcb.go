package socketio

import (
	"strings"

	"github.com/gorilla/websocket"
	"github.com/zyxar/socketio/zzsym"
)

// packets reassembles the packets sent to the peer.
func (p *zzPeer) packets(parser Parser) (out []*Packet) {
	d := parser.Decoder()
	for _, f := range p.take() {
		t := MessageTypeString
		if f.bin {
			t = MessageTypeBinary
		}
		zzsym.Assert(d.Add(t, f.data) == nil, "what is sent decodes")
		for {
			select {
			case q := <-d.Decoded():
				out = append(out, q)
				continue
			default:
			}
			break
		}
	}
	return
}

// ack has the peer acknowledge.
func (e *zzEnd) ack(parser Parser, nsp string, id uint64, args ...interface{}) {
	e.send(parser, &Packet{Type: PacketTypeAck, Namespace: nsp, ID: &id, Data: append([]interface{}{}, args...)})
}

// ZZC12match: acknowledgements of any ids to outstanding and to finished emits.
func ZZC12match() {
	client := zzsym.Choice("client", 2) == 1
	parser := zzParser()
	e := zzNewEnd(client, parser)
	e.watch("/")
	e.watch("/a")
	e.watch("/b") // known, never connected
	e.start(parser, "/a")
	nsp := []string{"/", "/a"}[zzsym.Choice("namespace", 2)]
	other := map[string]string{"/": "/a", "/a": "/"}[nsp]
	n := zzsym.Param("emits", 2)
	var ids []uint64
	fired := make([]int, n)
	got := make([]string, n)
	for i := 0; i < n; i++ {
		i := i
		err := e.sock[nsp].Emit("ev", "x", func(s string) { fired[i]++; got[i] = s })
		zzsym.Assert(err == nil, "Emit on a connected namespace succeeds")
		zzsym.Quiesce()
		ps := e.peer.packets(parser)
		zzsym.Assert(len(ps) == 1 && ps[0].Type == PacketTypeEvent && ps[0].Namespace == nsp && ps[0].ID != nil, "one event with an id is sent")
		for _, id := range ids {
			zzsym.Assert(*ps[0].ID != id, "ids of outstanding emits are distinct")
		}
		ids = append(ids, *ps[0].ID)
	}
	want := make([]int, n)
	for k := 0; k < zzsym.Param("acks", 2); k++ {
		a := zzLetter("a")
		to := nsp
		var id uint64
		digits := ""
		switch c := zzsym.Choice("ack", n+2); {
		case c < n:
			id = ids[c]
		case c == n:
			id = ids[0]
			to = []string{other, "/b"}[zzsym.Choice("other", 2)]
		default:
			if parser == MsgpackParser {
				id = zzsym.Uint64("id")
			} else {
				d := zzsym.Byte("id digit")
				zzsym.Assume(d < 10)
				id, digits = uint64(d), string([]byte{'0' + d})
				if zzsym.Choice("id long", 2) == 1 {
					zzsym.Assume(d < 6)
					id += 18446744073709551610
					digits = "1844674407370955161" + digits
				}
			}
		}
		if digits != "" {
			h := "3"
			if to != "/" {
				h += to + ","
			}
			e.peer.text(h + digits + `["` + a + `"]`)
		} else {
			e.ack(parser, to, id, a)
		}
		zzsym.Quiesce()
		for i := range ids {
			if to == nsp && id == ids[i] && want[i] == 0 {
				want[i]++
				zzsym.Assert(fired[i] == 1, "the callback runs when its acknowledgement arrives")
				zzsym.Assert(zzsym.EqString(got[i], a), "with the arguments of the acknowledgement")
				zzsym.Cover("fired")
			}
			zzsym.Assert(fired[i] == want[i], "no callback runs twice or for another acknowledgement")
		}
	}
	zzsym.Assert(len(e.peer.take()) == 0, "nothing is answered")
	zzsym.Cover("done")
}

// ZZC12kinds: what acknowledgements carry.
func ZZC12kinds() {
	client := zzsym.Choice("client", 2) == 1
	e := zzNewEnd(client, DefaultParser)
	e.watch("/")
	e.watch("/a")
	e.start(DefaultParser, "/a")
	nsp := []string{"/", "/a"}[zzsym.Choice("namespace", 2)]
	n := 0
	var gs string
	var gb []byte
	kind := zzsym.Choice("callback", 4)
	var cb interface{}
	switch kind {
	case 0:
		cb = func() { n++ }
	case 1:
		cb = func(so Socket, s string) {
			n++
			gs = s
			zzsym.Assert(so.Namespace() == nsp && so.Sid() == e.peer.sid, "socket of the session and namespace")
		}
	case 2:
		cb = func(s string, b *Bytes) { n++; gs, gb = s, b.Data }
	default:
		cb = func(b Bytes, s string) { n++; gs, gb = s, b.Data }
	}
	var err error
	if zzsym.Choice("emit binary", 2) == 1 {
		err = e.sock[nsp].Emit("ev", &Bytes{Data: []byte("q")}, cb)
	} else {
		err = e.sock[nsp].Emit("ev", cb)
	}
	zzsym.Assert(err == nil, "Emit on a connected namespace succeeds")
	zzsym.Quiesce()
	ps := e.peer.packets(DefaultParser)
	zzsym.Assert(len(ps) == 1 && ps[0].ID != nil, "one event with an id is sent")
	id := *ps[0].ID
	a, b := zzLetter("a"), zzsym.Bytes("b", zzsym.Choice("b len", 3))
	var args []interface{}
	if kind == 2 {
		args = []interface{}{a, &Bytes{Data: b}}
	} else if kind == 3 {
		args = []interface{}{&Bytes{Data: b}, a}
	} else if kind == 1 {
		zzsym.Assume(len(b) == 0)
		args = []interface{}{a}
	} else {
		zzsym.Assume(len(b) == 0)
		args = []interface{}{}
	}
	e.ack(DefaultParser, nsp, id, args...)
	zzsym.Quiesce()
	zzsym.Assert(n == 1, "the callback runs once")
	if kind > 0 {
		zzsym.Assert(zzsym.EqString(gs, a), "with the string")
	}
	if kind > 1 {
		zzsym.Assert(zzsym.EqBytes(gb, b), "with the binary")
	}
	e.ack(DefaultParser, nsp, id, args...)
	zzsym.Quiesce()
	zzsym.Assert(n == 1, "the callback does not run again")
	zzsym.Cover("done")
}

// ZZC12sessions: the same ids are outstanding on two sessions.
func ZZC12sessions() {
	parser := zzParser()
	s := zzServe(parser)
	var socks [2][]Socket
	for k, n := range []string{"/", "/a"} {
		k := k
		s.Namespace(n).OnConnect(func(so Socket) { socks[k] = append(socks[k], so) })
	}
	var es []*zzEnd
	for q := 0; q < 2; q++ {
		e := &zzEnd{peer: zzAccept(s), server: s}
		e.send(parser, &Packet{Type: PacketTypeConnect, Namespace: "/a"})
		zzsym.Quiesce()
		e.peer.take()
		es = append(es, e)
	}
	zzsym.Assert(len(socks[0]) == 2 && len(socks[1]) == 2, "connected")
	names := []string{"/", "/a"}
	var fired, want [2][2]int
	var ids [2][2]uint64
	for q := range es {
		for k := range names {
			q, k := q, k
			zzsym.Assert(socks[k][q].Emit("ev", func() { fired[q][k]++ }) == nil, "Emit on a connected namespace succeeds")
			zzsym.Quiesce()
			ps := es[q].peer.packets(parser)
			zzsym.Assert(len(ps) == 1 && ps[0].ID != nil && ps[0].Namespace == names[k], "one event with an id is sent on the session")
			ids[q][k] = *ps[0].ID
		}
	}
	for j := 0; j < zzsym.Param("acks", 3); j++ {
		q, k := zzsym.Choice("session", 2), zzsym.Choice("ack namespace", 2)
		id := ids[zzsym.Choice("id of", 2)][k]
		es[q].ack(parser, names[k], id)
		zzsym.Quiesce()
		if id == ids[q][k] {
			want[q][k] = 1
		}
		zzsym.Assert(fired == want, "exactly the callbacks whose acknowledgement has arrived on their session ran, once")
	}
	zzsym.Cover("done")
}

// ZZC12concurrent: goroutines emitting with callbacks, while acknowledgements arrive.
func ZZC12concurrent() {
	client := zzsym.Choice("client", 2) == 1
	e := zzNewEnd(client, DefaultParser)
	e.watch("/")
	e.start(DefaultParser)
	gs, n := zzsym.Param("emitters", 2), zzsym.Param("emits", 2)
	fired := make([]int, gs*n)
	so := e.sock["/"]
	if zzsym.Param("races", 1) == 1 {
		zzsym.Races()
	}
	zzsym.Delays(zzsym.Param("delays", 2))
	for g := 0; g < gs; g++ {
		g := g
		go func() {
			for i := g * n; i < g*n+n; i++ {
				i := i
				zzsym.Assert(so.Emit("ev", i, func(j int) {
					fired[i]++
					zzsym.Assert(i == j, "with the arguments of its acknowledgement")
				}) == nil, "Emit on a connected namespace succeeds")
			}
		}()
	}
	// the peer acknowledges each event as it comes, twice
	seen := map[uint64]bool{}
	go func() {
		d := DefaultParser.Decoder()
		for {
			t, b, err := e.peer.c.ReadMessage()
			if err != nil {
				return
			}
			if t != websocket.TextMessage || len(b) == 0 || b[0] != '4' {
				continue
			}
			zzsym.Assert(d.Add(MessageTypeString, b[1:]) == nil, "what is sent decodes")
			p := <-d.Decoded()
			zzsym.Assert(p.ID != nil && !seen[*p.ID], "ids are distinct")
			seen[*p.ID] = true
			s := strings.TrimRight(string(p.Data.([]byte)), "]\n")
			i := int(s[len(s)-1] - '0')
			e.ack(DefaultParser, "/", *p.ID, i)
			e.ack(DefaultParser, "/", *p.ID, i)
		}
	}()
	zzsym.Quiesce()
	zzsym.Assert(len(seen) == gs*n, "every event is sent")
	for i := range fired {
		zzsym.Assert(fired[i] == 1, "every callback runs exactly once")
	}
	zzsym.Cover("done")
}

// ZZC12many: more emits outstanding than a byte, or two, can number.
func ZZC12many() {
	client := zzsym.Choice("client", 2) == 1
	e := zzNewEnd(client, DefaultParser)
	e.watch("/")
	e.start(DefaultParser)
	n := zzsym.Param("emits", 270)
	fired := make([]int, n)
	ids := make([]string, n)
	seen := make(map[string]bool)
	last := 0
	for i := 0; i < n; i++ {
		i := i
		zzsym.Assert(e.sock["/"].Emit("e", func() { fired[i]++; last = i }) == nil, "Emit succeeds")
		zzsym.Quiesce()
		ts := e.peer.texts()
		zzsym.Assert(len(ts) == 1 && strings.HasSuffix(ts[0], `["e"]`) && ts[0][0] == '2' && len(ts[0]) > 6, "one event with an id is sent")
		ids[i] = ts[0][1 : len(ts[0])-5]
		zzsym.Assert(!seen[ids[i]], "ids of outstanding emits are distinct")
		seen[ids[i]] = true
	}
	edges := []int{0, 1, 9, 99, 126, 127, 128, 253, 254, 255, 256, 257, n - 1}
	k := edges[zzsym.Choice("first acknowledged", len(edges))]
	for j := 0; j < n; j++ {
		i := (k + n - j) % n
		e.peer.text("3" + ids[i] + "[]")
		zzsym.Quiesce()
		zzsym.Assert(fired[i] == 1 && last == i, "the callback of the acknowledged emit runs")
	}
	for i := range fired {
		zzsym.Assert(fired[i] == 1, "each callback runs once")
	}
	zzsym.Cover("done")
}

// ZZC12stale: an acknowledgement of an event emitted before its namespace was connected again.
func ZZC12stale() {
	client := zzsym.Choice("client", 2) == 1
	parser := zzParser()
	e := zzNewEnd(client, parser)
	e.watch("/")
	e.watch("/a")
	e.start(parser, "/a")
	nsp := []string{"/a", "/"}[zzsym.Choice("namespace", 2)]
	n := zzsym.Param("emits", 3)
	fired := make([]int, n)
	var ids []uint64
	left := make([]bool, n) // the namespace was disconnected since
	for i := 0; i < n; i++ {
		i := i
		if i > 0 {
			switch zzsym.Choice("before", 3) {
			case 0:
				e.send(parser, &Packet{Type: PacketTypeConnect, Namespace: nsp})
			case 1:
				e.send(parser, &Packet{Type: PacketTypeDisconnect, Namespace: nsp})
				e.send(parser, &Packet{Type: PacketTypeConnect, Namespace: nsp})
				for j := 0; j < i; j++ {
					left[j] = true
				}
			}
			zzsym.Quiesce()
			e.peer.take()
		}
		zzsym.Assert(e.sock[nsp].Emit("ev", func() { fired[i]++ }) == nil, "Emit on a connected namespace succeeds")
		zzsym.Quiesce()
		ps := e.peer.packets(parser)
		zzsym.Assert(len(ps) == 1 && ps[0].ID != nil && ps[0].Namespace == nsp, "one event with an id is sent")
		ids = append(ids, *ps[0].ID)
	}
	want := make([]int, n)
	for j := 0; j < n; j++ {
		k := zzsym.Choice("acknowledged", n)
		e.ack(parser, nsp, ids[k])
		zzsym.Quiesce()
		want[k] = 1
		for i := range fired {
			zzsym.Assert(fired[i] <= want[i], "no callback runs twice or for the acknowledgement of another event")
			zzsym.Assert(fired[i] == want[i] || left[i], "the callback runs when its acknowledgement arrives")
		}
	}
	zzsym.Cover("done")
}

// ZZC12bad: acknowledgements that cannot be decoded, or whose arguments are not what the callback takes.
func ZZC12bad() {
	client := zzsym.Choice("client", 2) == 1
	e := zzNewEnd(client, DefaultParser)
	e.watch("/")
	e.watch("/a")
	e.start(DefaultParser, "/a")
	nsp := []string{"/", "/a"}[zzsym.Choice("namespace", 2)]
	n := 0
	var cb interface{}
	bad := []string{`[`, `["`, `{"a":1}`, `"x"`, `[1`, `7`, `[1,]`, `nul`, `[,1]`}
	switch zzsym.Choice("callback", 4) {
	case 0:
		cb = func() { n++ }
	case 1:
		cb = func(int) { n++ }
		bad = append(bad, `["x"]`, `[{}]`, `[[1]]`, `[1.5]`, `[true]`)
	case 2:
		cb = func(so Socket, s string, k int) { n++ }
		bad = append(bad, `["x","y"]`, `[1,1]`, `["x",[]]`)
	default:
		cb = func(m map[string]int) { n++ }
		bad = append(bad, `[1]`, `["x"]`, `[{"a":"b"}]`)
	}
	zzsym.Assert(e.sock[nsp].Emit("ev", cb) == nil, "Emit on a connected namespace succeeds")
	zzsym.Quiesce()
	ps := e.peer.packets(DefaultParser)
	zzsym.Assert(len(ps) == 1 && ps[0].ID != nil && *ps[0].ID < 10, "one event with an id is sent")
	h := "3"
	if nsp != "/" {
		h += nsp + ","
	}
	e.peer.text(h + string([]byte{'0' + byte(*ps[0].ID)}) + bad[zzsym.Choice("payload", len(bad))])
	zzsym.Quiesce()
	zzsym.Assert(n == 0, "the callback does not run without arguments it takes")
	zzsym.Cover("done")
}
