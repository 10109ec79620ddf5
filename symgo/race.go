package main

import "strings"

// Happens-before race detection over interpreted memory (vector clocks), enabled per path by the harness.

type vclock []uint32
type access struct {
	g   int
	clk uint32
	at  string
}
type cellRace struct {
	w access
	r []access
}
type raceSt struct {
	cells map[*V]*cellRace
	maps  map[*Map]*cellRace
	atom  map[*V]*vclock
}

func (w *W) raceOn(g *G) {
	w.race = &raceSt{cells: map[*V]*cellRace{}, maps: map[*Map]*cellRace{}, atom: map[*V]*vclock{}}
	for _, x := range w.sc.gs {
		x.vc = nil
		w.raceInitG(nil, x)
	}
}

func join(a *vclock, b vclock) {
	for len(*a) < len(b) {
		*a = append(*a, 0)
	}
	for i, x := range b {
		if x > (*a)[i] {
			(*a)[i] = x
		}
	}
}

func (w *W) raceInitG(parent, g *G) {
	if w.race == nil || g.id < 0 {
		return
	}
	vc := make(vclock, g.id+1)
	if parent != nil && parent.id >= 0 {
		v := vclock(parent.vc)
		join(&vc, v)
		parent.tick()
	}
	g.vc = vc
	g.tick()
}
func (g *G) tick() {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

func (w *W) raceAcquire(g *G, v *vclock) {
	if w.race == nil || g == nil || g.id < 0 {
		return
	}
	vc := vclock(g.vc)
	join(&vc, *v)
	g.vc = vc
}
func (w *W) raceRelease(g *G, v *vclock) {
	if w.race == nil || g == nil || g.id < 0 {
		return
	}
	n := append(vclock(nil), *v...)
	join(&n, g.vc)
	*v = n
	g.tick()
}
func (w *W) raceHandshake(a, b *G) { // a sends to b
	if w.race == nil || a == nil || b == nil || a.id < 0 || b.id < 0 {
		return
	}
	va, vb := append(vclock(nil), a.vc...), append(vclock(nil), b.vc...)
	join(&va, vb)
	join(&vb, a.vc)
	a.vc, b.vc = va, vb
	a.tick()
	b.tick()
}
func (w *W) raceSendBuf(g *G, c *Chan) {
	if w.race == nil {
		return
	}
	var v vclock
	if g != nil && g.id >= 0 {
		w.raceAcquire(g, &c.vcRecv)
		v = append(v, g.vc...)
		g.tick()
	}
	c.vcs = append(c.vcs, v)
}
func (w *W) raceRecvBuf(g *G, c *Chan) {
	if w.race == nil || len(c.vcs) == 0 {
		return
	}
	v := c.vcs[0]
	c.vcs = append([]vclock(nil), c.vcs[1:]...)
	w.raceAcquire(g, &v)
	w.raceRelease(g, &c.vcRecv)
}
func (w *W) raceAtomic(g *G, p *V) {
	if w.race == nil {
		return
	}
	v := w.race.atom[p]
	if v == nil {
		v = &vclock{}
		w.race.atom[p] = v
	}
	w.raceAcquire(g, v)
	w.raceRelease(g, v)
}

func ordered(a access, g *G) bool {
	return a.clk == 0 || a.g == g.id || a.g < len(g.vc) && g.vc[a.g] >= a.clk
}

func (w *W) raceRead(fr *Frame, p *V) {
	if !fr.fn.target || fr.fn.zsym || w.inInit > 0 || fr.g.id < 0 {
		return
	}
	c := w.race.cells[p]
	if c == nil {
		c = &cellRace{}
		w.race.cells[p] = c
	}
	w.raceR(fr, c)
}
func (w *W) raceWrite(fr *Frame, p *V) {
	if !fr.fn.target || fr.fn.zsym || w.inInit > 0 || fr.g.id < 0 {
		return
	}
	c := w.race.cells[p]
	if c == nil {
		c = &cellRace{}
		w.race.cells[p] = c
	}
	w.raceW(fr, c)
}
func (w *W) raceReadM(fr *Frame, m *Map) {
	if !fr.fn.target && !headerFn(fr.fn.name) || fr.fn.zsym || w.inInit > 0 || fr.g.id < 0 {
		return
	}
	c := w.race.maps[m]
	if c == nil {
		c = &cellRace{}
		w.race.maps[m] = c
	}
	w.raceR(fr, c)
}
func (w *W) raceWriteM(fr *Frame, m *Map) {
	if !fr.fn.target && !headerFn(fr.fn.name) || fr.fn.zsym || w.inInit > 0 || fr.g.id < 0 {
		return
	}
	c := w.race.maps[m]
	if c == nil {
		c = &cellRace{}
		w.race.maps[m] = c
	}
	w.raceW(fr, c)
}

func (w *W) posOf(fr *Frame) string {
	if fr.pos.IsValid() {
		return fr.fn.name + " @" + w.posStr(fr)
	}
	return fr.fn.name
}
func (w *W) posStr(fr *Frame) string { return w.callerPos(fr) }

func (w *W) raceR(fr *Frame, c *cellRace) {
	g := fr.g
	if !ordered(c.w, g) {
		w.raceFound(fr, c.w, "write", "read")
	}
	for i := range c.r {
		if c.r[i].g == g.id {
			c.r[i].clk = g.vc[g.id]
			c.r[i].at = w.posOf(fr)
			return
		}
	}
	c.r = append(c.r, access{g.id, g.vc[g.id], w.posOf(fr)})
}
func (w *W) raceW(fr *Frame, c *cellRace) {
	g := fr.g
	if !ordered(c.w, g) {
		w.raceFound(fr, c.w, "write", "write")
	}
	for _, r := range c.r {
		if !ordered(r, g) {
			w.raceFound(fr, r, "read", "write")
		}
	}
	c.w = access{g.id, g.vc[g.id], w.posOf(fr)}
	c.r = nil
}

func (w *W) raceFound(fr *Frame, a access, k1, k2 string) {
	if w.replaying() || w.side["racesOff"] != nil {
		return
	}
	if strings.Contains(a.at, "/zz_") || strings.Contains(w.posOf(fr), "/zz_") {
		return // harness bookkeeping
	}
	w.needModelForReport()
	w.violate("race", fnName(a.at)+" / "+fnName(w.posOf(fr)), "unsynchronised "+k1+" at "+a.at+" and "+k2+" at "+w.posOf(fr), w.model)
}
func fnName(s string) string {
	if i := strings.Index(s, " @"); i > 0 {
		return s[:i]
	}
	return s
}

// headerFn: methods of http.Header, whose map belongs to the code under test.
func headerFn(n string) bool {
	return strings.HasPrefix(n, "(net/http.Header).") || strings.HasPrefix(n, "(net/textproto.MIMEHeader).")
}
