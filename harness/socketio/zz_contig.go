package socketio

import (
	"strconv"
	"strings"

	"github.com/zyxar/socketio/zzsym"
)

// ZZC14emit: goroutines emitting packets with attachments on a session, whose
// handlers return attachments and which is being connected to a namespace.
func ZZC14emit() {
	client := zzsym.Choice("client", 2) == 1
	e := zzNewEnd(client, DefaultParser)
	n := e.watch("/")
	e.watch("/a")
	e.start(DefaultParser)
	b := zzsym.Bytes("attachments", 8)
	n.OnEvent("ask", func() (*Bytes, int, *Bytes) { return &Bytes{Data: b[0:1]}, 9, &Bytes{Data: b[1:2]} })
	so := e.sock["/"]
	if zzsym.Param("races", 1) == 1 {
		zzsym.Races()
	}
	zzsym.Delays(zzsym.Param("delays", 2))
	ok := func(err error) { zzsym.Assert(err == nil, "Emit on a connected namespace succeeds") }
	go func() {
		ok(so.Emit("x", &Bytes{Data: b[2:3]}, 0, &Bytes{Data: b[3:4]}))
		ok(so.Emit("x", 1))
	}()
	go func() {
		ok(so.Emit("y", 0, &Bytes{Data: b[4:5]}, &Bytes{Data: b[5:6]}))
		ok(so.Emit("y", &Bytes{Data: b[6:8]}, 1))
	}()
	if zzsym.Param("third", 0) == 1 {
		go func() { ok(so.EmitError("e")) }()
	}
	e.peer.text(`20["ask"]`)
	if !client {
		e.peer.text(`0/a`)
	}
	zzsym.Quiesce()
	ph := func(i int) string { return `{"_placeholder":true,"num":` + strconv.Itoa(i) + `}` }
	want := map[string][][]byte{
		`52-["x",` + ph(0) + `,0,` + ph(1) + `]`: {b[2:3], b[3:4]},
		`2["x",1]`:                               nil,
		`52-["y",0,` + ph(0) + `,` + ph(1) + `]`: {b[4:5], b[5:6]},
		`51-["y",` + ph(0) + `,1]`:               {b[6:8]},
		`62-0[` + ph(0) + `,9,` + ph(1) + `]`:    {b[0:1], b[1:2]},
	}
	if !client {
		want["0/a"] = nil
	}
	if zzsym.Param("third", 0) == 1 {
		want[`4"e"`] = nil
	}
	fs := e.peer.take()
	var order string
	for len(fs) > 0 {
		zzsym.Assert(!fs[0].bin, "each attachment follows the packet it belongs to")
		s := strings.TrimRight(string(fs[0].data), "\n,")
		bin, ok := want[s]
		zzsym.Assert(ok, "every packet is one of those emitted, once")
		delete(want, s)
		zzsym.Assert(len(fs) > len(bin), "no attachment is missing")
		for i, x := range bin {
			zzsym.Assert(fs[1+i].bin && zzsym.EqBytes(fs[1+i].data, x), "the attachments of a packet follow it at once, in order")
		}
		fs = fs[1+len(bin):]
		if strings.Contains(s, `"x"`) {
			order += "x" + s[len(s)-2:len(s)-1]
		}
		if strings.Contains(s, `"y"`) {
			order += "y" + s[1:2]
		}
	}
	zzsym.Assert(len(want) == 0, "no packet is lost")
	zzsym.Assert(strings.Index(order, "y2") < strings.Index(order, "y1"), "packets of a goroutine go in order")
	zzsym.Cover("done")
}

// ZZC14close: emits of packets with attachments on a session that is being closed.
func ZZC14close() {
	client := zzsym.Choice("client", 2) == 1
	e := zzNewEnd(client, DefaultParser)
	e.watch("/")
	e.start(DefaultParser)
	so := e.sock["/"]
	if zzsym.Param("races", 1) == 1 {
		zzsym.Races()
	}
	zzsym.Delays(zzsym.Param("delays", 2))
	oks := make([]int, 2)
	for g := 0; g < 2; g++ {
		g := g
		go func() {
			for i := 0; i < zzsym.Param("emits", 2); i++ {
				if so.Emit("x", g, i, &Bytes{Data: []byte{byte(g), byte(i)}}) != nil {
					return
				}
				oks[g]++
			}
		}()
	}
	go so.Close()
	zzsym.Quiesce()
	fs := e.peer.take()
	next := make([]int, 2)
	for len(fs) > 0 {
		zzsym.Assert(!fs[0].bin, "each attachment follows the packet it belongs to")
		s := strings.TrimRight(string(fs[0].data), "\n")
		zzsym.Assert(strings.HasPrefix(s, `51-["x",`) && len(s) > 11, "every packet is one of those emitted")
		g, i := int(s[8]-'0'), int(s[10]-'0')
		zzsym.Assert(i == next[g], "in order, once")
		next[g]++
		if len(fs) == 1 {
			zzsym.Assert(oks[g] < next[g], "only a packet whose Emit failed may be cut short")
			break
		}
		zzsym.Assert(fs[1].bin && string(fs[1].data) == string([]byte{byte(g), byte(i)}), "the attachment of a packet follows it at once")
		fs = fs[2:]
	}
	for g := range oks {
		zzsym.Assert(next[g] >= oks[g], "no accepted packet is lost")
	}
	zzsym.Cover("done")
}
