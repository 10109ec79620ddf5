package engine

import (
	"net/http"
	"strings"

	"github.com/gorilla/websocket"
	"github.com/zyxar/socketio/zzsym"
)

func zzOpenWith(s *Server, l *zzLog, ws bool, h http.Header) (*Socket, *websocket.Conn) {
	n := len(l.open)
	q := "EIO=3&transport=polling"
	if ws {
		q = "EIO=3&transport=websocket"
		for k, v := range zzWsHeader() {
			h[k] = v
		}
	}
	w := zzGo(s, zzReq("GET", q, h, nil))
	zzsym.Quiesce()
	zzsym.Assert(len(l.open) == n+1, "session reported open")
	return l.last(), w.client
}

// zzUpgradeWith upgrades a polling session with a request of these headers.
func zzUpgradeWith(s *Server, so *Socket, h http.Header) {
	for k, v := range zzWsHeader() {
		h[k] = v
	}
	w := zzGo(s, zzReq("GET", "EIO=3&transport=websocket&sid="+so.Sid(), h, nil))
	zzsym.Quiesce()
	zzsym.Assert(w.client != nil, "candidate accepted")
	w.client.WriteMessage(websocket.TextMessage, []byte("2probe"))
	zzsym.Quiesce()
	zzsym.Assert(w.client.ZZPending() == 1, "probe answered")
	w.client.WriteMessage(websocket.TextMessage, []byte("5"))
	zzsym.Quiesce()
	zzsym.Assert(w.finished() && so.transport() == transportWebsocket, "upgraded")
}

func zzVal(name string) string { return "v" + string(zzsym.Bytes(name, 1)) }

// zzValOr is zzVal, or the empty value.
func zzValOr(name string) string {
	if zzsym.Choice(name+" empty", 2) == 1 {
		return ""
	}
	return zzVal(name)
}

// ZZC25session: what a session's headers are, and what they are independent of.
func ZZC25session() {
	s, l := zzServer()
	ws := zzsym.Choice("transport", 2) == 1
	a1, a2, b := zzValOr("a1"), zzVal("a2"), zzVal("b")
	h := http.Header{"X-A": {a1, a2}, "X-B": {b}}
	h2 := http.Header{"X-A": {zzVal("other a")}}
	oa := h2["X-A"][0]
	first := zzsym.Choice("order", 2) == 0
	var so, other *Socket
	if first {
		so, _ = zzOpenWith(s, l, ws, h)
	}
	other, _ = zzOpenWith(s, l, ws, h2)
	if !first {
		so, _ = zzOpenWith(s, l, ws, h)
	}
	same := func() {
		zzsym.Assert(zzsym.EqString(so.GetHeader("X-A"), a1), "first value of the opening request")
		zzsym.Assert(zzsym.EqString(so.GetHeader("x-b"), b), "lookups ignore case")
		zzsym.Assert(so.GetHeader("X-C") == "", "absent headers are empty")
		zzsym.Assert(zzsym.EqString(other.GetHeader("x-A"), oa), "other session keeps its own")
		zzsym.Assert(other.GetHeader("X-B") == "", "other session keeps its own")
	}
	same()
	// the request object changes
	h["X-A"][0] = "changed"
	h["X-A"] = append(h["X-A"][:0], "changed")
	h.Set("X-B", "changed")
	h.Set("X-C", "changed")
	same()
	// later requests carry other headers
	if !ws {
		w := zzGo(s, zzReq("GET", "EIO=3&transport=polling&sid="+so.Sid(), http.Header{"X-A": {"later"}, "X-C": {"later"}}, nil))
		zzsym.Quiesce()
		so.Send("m")
		zzsym.Quiesce()
		zzsym.Assert(w.finished(), "poll answered")
		same()
	}
	// the session's change
	b = zzValOr("new b")
	so.SetHeader([]string{"X-B", "x-b", "X-b"}[zzsym.Choice("case", 3)], b)
	same()
	zzsym.Assert(h.Get("X-B") == "changed", "the request is left alone")
	zzsym.Cover("headers")
}

// ZZC25names: names set and looked up.
func ZZC25names() {
	s, l := zzServer()
	so, _ := zzOpenWith(s, l, zzsym.Choice("transport", 2) == 1, http.Header{})
	n := zzsym.Param("len", 2)
	k1, k2 := zzsym.Bytes("set", n), zzsym.Bytes("asked", n)
	for _, k := range [][]byte{k1, k2} {
		for _, c := range k {
			zzsym.Assume(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z')
		}
	}
	so.SetHeader(string(k1), "v")
	want := ""
	if strings.ToLower(string(k1)) == strings.ToLower(string(k2)) {
		want = "v"
	}
	zzsym.Assert(so.GetHeader(string(k2)) == want, "lookups compare names without case")
	zzsym.Cover("names")
}

// ZZC25upgrade: what an upgrade leaves on a session.
func ZZC25upgrade() {
	s, l := zzServer()
	h := http.Header{"X-A": {zzVal("a")}, "X-B": {zzValOr("b")}}
	a, b, c, d := h.Get("X-A"), h.Get("X-B"), "", ""
	so, _ := zzOpenWith(s, l, false, h)
	other, _ := zzOpenWith(s, l, false, http.Header{"X-A": {"o"}})
	if zzsym.Choice("set", 2) == 1 {
		a = zzVal("a set")
		so.SetHeader("x-a", a)
		c = zzValOr("c set")
		so.SetHeader("x-c", c)
	}
	up := http.Header{}
	if zzsym.Choice("own a", 2) == 1 {
		a = zzValOr("a upgrade")
		up.Set("X-A", a)
	}
	if zzsym.Choice("own c", 2) == 1 {
		c = zzVal("c upgrade")
		up.Set("X-C", c)
	}
	if zzsym.Choice("own d", 2) == 1 {
		d = zzValOr("d upgrade")
		up.Set("X-D", d)
	}
	zzUpgradeWith(s, so, up)
	same := func() {
		zzsym.Assert(zzsym.EqString(so.GetHeader("X-A"), a), "kept, unless the upgrade has its own")
		zzsym.Assert(zzsym.EqString(so.GetHeader("x-b"), b), "kept, unless the upgrade has its own")
		zzsym.Assert(zzsym.EqString(so.GetHeader("X-c"), c), "kept, unless the upgrade has its own")
		zzsym.Assert(zzsym.EqString(so.GetHeader("X-D"), d), "kept, unless the upgrade has its own")
		zzsym.Assert(other.GetHeader("X-A") == "o" && other.GetHeader("X-C") == "", "other session keeps its own")
	}
	same()
	for _, r := range []http.Header{h, up} {
		for _, k := range []string{"X-A", "X-B", "X-C", "X-D"} {
			if len(r[k]) > 0 {
				r[k][0] = "changed"
			}
			r.Set(k, "changed")
		}
	}
	same()
	b = "b2"
	so.SetHeader("X-B", b)
	same()
	zzsym.Cover("upgraded")
}

// ZZC25race: a header set while the session upgrades, and a failed upgrade.
func ZZC25race() {
	s, l := zzServer()
	so, _ := zzOpenWith(s, l, false, http.Header{"X-A": {"a"}})
	fails := zzsym.Choice("fails", 2) == 1
	h := zzWsHeader()
	h.Set("X-D", "d")
	if fails {
		h.Set("X-A", "upgrade")
	}
	w := zzGo(s, zzReq("GET", "EIO=3&transport=websocket&sid="+so.Sid(), h, nil))
	zzsym.Quiesce()
	w.client.WriteMessage(websocket.TextMessage, []byte("2probe"))
	if zzsym.Param("races", 1) == 1 {
		zzsym.Races()
	}
	zzsym.Delays(zzsym.Param("delays", 2))
	set := make(chan struct{})
	v := zzVal("set")
	go func() {
		so.SetHeader("X-A", v)
		zzsym.Assert(zzsym.EqString(so.GetHeader("X-A"), v), "what was set is seen")
		so.SetHeader("X-B", v)
		close(set)
	}()
	if fails {
		w.client.WriteMessage(websocket.TextMessage, []byte("4x"))
	} else {
		w.client.WriteMessage(websocket.TextMessage, []byte("5"))
	}
	<-set
	zzsym.Quiesce()
	zzsym.Assert(w.finished(), "upgrade over")
	zzsym.Assert(zzsym.EqString(so.GetHeader("X-A"), v) && zzsym.EqString(so.GetHeader("X-B"), v), "what was set stays set")
	if fails {
		zzsym.Assert(so.GetHeader("X-D") == "", "a failed upgrade leaves the headers alone")
	} else {
		zzsym.Assert(so.GetHeader("X-D") == "d", "the upgrade's headers are added")
	}
	zzsym.Cover("raced")
}
