package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// G is one interpreted goroutine, run by its own host goroutine; only one runs at a time.
type G struct {
	id      int
	w       *W
	wake    chan struct{}
	state   int
	why     string
	fr      *Frame // innermost frame
	depth   int
	name    string
	quiesc  bool
	lib     bool // created by a timer
	granted bool
	vc      []uint32
	spin    int // operations on shared objects since g last gave way
	spins   int // times in a row that there was nobody to give way to
}

const (
	gRunnable = iota
	gRunning
	gBlocked
	gDead
)

type sched struct {
	gs           []*G
	runq         []*G
	cur          *G
	main         *G
	killing      bool
	ctl          chan struct{}
	gone         chan struct{}
	sym          bool
	preempt      int
	delay        bool // delay-bounded: every deviation from the round-robin order costs from preempt
	stalls       int  // number of times a goroutine may still be stalled until nothing else can run
	stalled      []*G
	patience     int // handoffs left until a stalled goroutine runs although others can
	selAll       bool
	anytime      int // number of early timer firings still allowed
	inSched      bool
	noYield      int
	quiesceQ     []*G
	timerSeq     int
	blockedAtEnd []string
	liveG        int
}

type killG struct{}

type targetPanic struct {
	v     V // Iface
	stack []string
	fatal bool
}

func (w *W) newG(name string) *G {
	s := &w.sc
	g := &G{id: len(s.gs), w: w, wake: make(chan struct{}, 1), name: name}
	s.gs = append(s.gs, g)
	if len(s.gs) > w.ex.maxG {
		w.ex.maxG = len(s.gs)
	}
	return g
}

func (w *W) runMain() string {
	w.sc = sched{ctl: make(chan struct{}, 1), gone: make(chan struct{})}
	w.outcome = ""
	fn := w.fn(w.ex.entry)
	g := w.newG("main")
	w.sc.main = g
	w.sc.cur = g
	g.state = gRunning
	w.raceInitG(nil, g)
	w.launch(g, func() { w.call(g, nil, fn, nil, nil) })
	g.wake <- struct{}{}
	<-w.sc.ctl
	// unwind every other goroutine
	w.sc.killing = true
	for _, x := range w.sc.gs {
		if x.state != gDead {
			x.wake <- struct{}{}
			<-w.sc.gone
		}
	}
	return w.outcome
}

// launch starts the host goroutine of g; it waits for its first wake-up.
func (w *W) launch(g *G, body func()) {
	w.sc.liveG++
	go func() {
		defer func() {
			r := recover()
			g.state = gDead
			if w.sc.killing {
				w.sc.gone <- struct{}{}
				return
			}
			switch r := r.(type) {
			case nil:
				if g == w.sc.main {
					w.outcome = "done"
					w.finish()
					return
				}
				func() {
					defer func() {
						if r := recover(); r != nil {
							if pe, ok := r.(pathEnd); ok {
								w.outcome = pe.why
							} else {
								w.internal(r)
							}
							w.finish()
						}
					}()
					w.handoff(nil)
				}()
			case pathEnd:
				w.outcome = r.why
				w.finish()
			case *targetPanic:
				if w.allowPanic == 0 {
					w.reportPanic(g, r)
				}
				w.outcome = "panic"
				w.finish()
			case initUnsupported:
				w.ex.note("unsupported in init: " + r.s)
				w.outcome = "unsupported"
				w.finish()
			default:
				w.internal(r)
				w.finish()
			}
		}()
		<-g.wake
		if w.sc.killing {
			panic(killG{})
		}
		body()
	}()
}

func (w *W) finish() { w.sc.ctl <- struct{}{} }

func (w *W) internal(r interface{}) {
	w.outcome = "internal"
	w.ex.note(fmt.Sprintf("internal error: %v", r))
	if w.ex.cfg.Trace {
		fmt.Printf("internal error: %v\n%s\n", r, hostStackTop())
		if w.sc.cur != nil {
			fmt.Println(strings.Join(w.stackOf(w.sc.cur), "\n"))
		}
	}
}

func (w *W) reportPanic(g *G, p *targetPanic) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(pathEnd); !ok {
				w.internal(r)
			}
		}
	}()
	w.needModelForReport()
	msg := w.panicString(p.v)
	site := ""
	for _, s := range p.stack {
		if !strings.Contains(s, "zzsym") && (strings.Contains(s, "github.com/zyxar/socketio") || strings.Contains(s, "tinylib/msgp")) {
			site = s
			if i := strings.Index(s, " @"); i > 0 {
				site = s[:i]
			}
			break
		}
	}
	w.trace = append(w.trace, p.stack...)
	w.violate("panic", shortMsg(msg)+" in "+site, msg+" in goroutine "+g.name+"\n  "+strings.Join(p.stack, "\n  "), w.model)
}

func (w *W) needModelForReport() {
	if w.replaying() { // the prefix has not been replayed completely: cannot happen for a fresh panic
		w.pos = len(w.prefix)
	}
	w.needModel()
}

func shortMsg(s string) string {
	if i := strings.Index(s, "["); i > 0 && strings.HasPrefix(s, "runtime error: ") {
		s = s[:i]
	}
	if len(s) > 80 {
		s = s[:80]
	}
	return strings.TrimSpace(s)
}

func (w *W) spawn(parent *G, name string, body func(g *G)) *G {
	g := w.newG(name)
	g.state = gRunnable
	w.raceInitG(parent, g)
	w.launch(g, func() { body(g) })
	w.sc.runq = append(w.sc.runq, g)
	return g
}

func (w *W) ready(g *G) {
	if g.state != gBlocked {
		return
	}
	g.state = gRunnable
	g.why = ""
	w.sc.runq = append(w.sc.runq, g)
}

// park blocks g until another goroutine makes it ready.
func (w *W) park(g *G, why string) {
	if w.inInit > 0 {
		w.unsupported("blocking in init: " + why)
	}
	g.state = gBlocked
	g.why = why
	g.spin, g.spins = 0, 0
	w.handoff(g)
}

// schedPoint tells whether a visible action of g's innermost function may be
// preceded by a context switch: yes in the code under test, no in library
// code and harness code, whose objects are either private or linearisable
// operations of their own (the websocket stand-in marks its operations by
// calling point).
func (w *W) schedPoint(g *G) bool {
	fr := g.fr
	for fr != nil && fr.fn.f != nil && fr.fn.f.Synthetic != "" {
		fr = fr.caller
	}
	if fr == nil {
		return true
	}
	fn := fr.fn
	if fn.yc == 0 {
		fn.yc = 2
		f := fn.f
		for f.Parent() != nil {
			f = f.Parent()
		}
		switch {
		case f.Pkg == nil:
		case strings.HasSuffix(f.Pkg.Pkg.Path(), "gorilla/websocket"):
			if f.Name() == "point" {
				fn.yc = 1
			}
		case strings.Contains(f.Pkg.Pkg.Path(), "zyxar/socketio") && !strings.HasSuffix(f.Pkg.Pkg.Path(), "/zzsym"):
			file := w.prog.prog.Fset.Position(f.Pos()).Filename
			if i := strings.LastIndexByte(file, '/'); i >= 0 {
				file = file[i+1:]
			}
			if !strings.HasPrefix(file, "zz_") {
				fn.yc = 1
			}
		}
	}
	return fn.yc == 1
}

// yield lets the scheduler decide whether another goroutine runs before g's next visible action.
func (w *W) yield(g *G, what string) {
	s := &w.sc
	if w.inInit == 0 {
		if g.spin++; g.spin >= spinLimit {
			w.giveWay(g, what)
		}
	}
	if !s.sym || w.inInit > 0 || s.noYield > 0 || s.preempt <= 0 && s.anytime <= 0 && s.stalls <= 0 || !w.schedPoint(g) {
		return
	}
	w.ex.schedPt++
	n := len(s.runq)
	canTimer := s.anytime > 0 && w.nextTimer() != nil
	if s.preempt <= 0 && s.stalls <= 0 || (n == 0 && !canTimer) {
		return
	}
	canStall := s.stalls > 0 && n > 0
	if (s.delay || s.preempt <= 0) && n > s.preempt {
		n = s.preempt
	}
	opts := n + 1
	if canTimer {
		opts++
	}
	if canStall {
		opts++
	}
	c := w.choose(opts, "sched")
	if c == 0 {
		return
	}
	if canStall && c == opts-1 {
		s.stalls--
		w.choices = append(w.choices, fmt.Sprintf("stall %s (%s) at %s", g.label(), what, w.where(g)))
		g.state = gRunnable
		s.stalled = append(s.stalled, g)
		s.patience = 100
		next := s.runq[0]
		s.runq = append([]*G(nil), s.runq[1:]...)
		w.switchTo(g, next)
		return
	}
	if c == n+1 {
		s.anytime--
		w.fireTimer()
		return
	}
	if s.delay {
		s.preempt -= c
	} else {
		s.preempt--
	}
	w.choices = append(w.choices, fmt.Sprintf("preempt %s (%s) at %s -> %s", g.label(), what, w.where(g), s.runq[c-1].label()))
	next := s.runq[c-1]
	s.runq = append(append([]*G(nil), s.runq[:c-1]...), s.runq[c:]...)
	g.state = gRunnable
	s.runq = append(s.runq, g)
	w.switchTo(g, next)
}

// spinLimit is the number of operations on shared objects after which a goroutine that does not
// block has to give way: the scheduler is fair.
const spinLimit = 1000

func (w *W) giveWay(g *G, what string) {
	s := &w.sc
	g.spin = 0
	if len(s.runq) > 0 {
		next := s.runq[0]
		s.runq = append([]*G(nil), s.runq[1:]...)
		g.state = gRunnable
		s.runq = append(s.runq, g)
		w.switchTo(g, next)
		return
	}
	g.spins++
	if g.spins < 8 {
		return
	}
	if len(s.quiesceQ) == 0 && w.fireTimer() {
		return
	}
	w.needModelForReport()
	w.violate("livelock", "busy loop", g.label()+" keeps running at "+w.where(g)+" while nothing else has anything to do", w.model)
	w.end("livelock")
}

func (g *G) label() string { return fmt.Sprintf("g%d[%s]", g.id, g.name) }

func (w *W) where(g *G) string {
	st := w.stackOf(g)
	for _, s := range st {
		if strings.Contains(s, "zyxar/socketio") {
			return s
		}
	}
	if len(st) > 0 {
		return st[0]
	}
	return "?"
}

func (w *W) switchTo(g, next *G) {
	w.sc.cur = next
	next.state = gRunning
	if g == next {
		return
	}
	next.wake <- struct{}{}
	if g == nil || g.state == gDead {
		return
	}
	<-g.wake
	if w.sc.killing {
		panic(killG{})
	}
}

// handoff gives the processor to the next goroutine; g is blocked (or nil: finished).
func (w *W) handoff(g *G) {
	s := &w.sc
	for {
		if len(s.stalled) > 0 {
			if s.patience--; s.patience <= 0 { // the scheduler is fair
				s.runq = append(s.stalled[:1:1], s.runq...)
				s.stalled = s.stalled[1:]
				s.patience = 100
			}
		}
		if n := len(s.runq); n > 0 {
			c := 0
			if s.sym && n > 1 && s.noYield == 0 {
				opts := n
				if s.delay && opts > s.preempt+1 {
					opts = s.preempt + 1
				}
				c = w.choose(opts, "sched")
				if s.delay {
					s.preempt -= c
				}
				if opts > 1 {
					w.choices = append(w.choices, "run "+s.runq[c].label())
				}
			}
			next := s.runq[c]
			s.runq = append(append([]*G(nil), s.runq[:c]...), s.runq[c+1:]...)
			w.switchTo(g, next)
			return
		}
		if len(s.stalled) > 0 { // nothing else can run
			g := s.stalled[0]
			s.stalled = s.stalled[1:]
			s.runq = append(s.runq, g)
			continue
		}
		if n := len(s.quiesceQ); n > 0 {
			q := s.quiesceQ[0]
			s.quiesceQ = s.quiesceQ[1:]
			w.ready(q)
			continue
		}
		if w.fireTimer() {
			continue
		}
		var st []string
		for _, x := range s.gs {
			if x.state == gBlocked {
				st = append(st, x.label()+": "+x.why+" at "+w.where(x))
			}
		}
		w.needModelForReport()
		w.violate("deadlock", "deadlock", "all goroutines are blocked\n  "+strings.Join(st, "\n  "), w.model)
		w.end("deadlock")
	}
}

// quiesce waits until every other goroutine is blocked (timers do not advance).
func (w *W) quiesce(g *G) {
	w.sc.quiesceQ = append(w.sc.quiesceQ, g)
	w.park(g, "quiesce")
	// As with testing/synctest.Wait, what the others did before is ordered
	// before what follows here.
	for _, x := range w.sc.gs {
		if x != g && x.id >= 0 {
			v := vclock(append([]uint32(nil), x.vc...))
			w.raceAcquire(g, &v)
			if w.race != nil {
				x.tick()
			}
		}
	}
}

// ---- timers ----

type timerSt struct {
	p      *V
	when   int64
	period int64
	seq    int
	active bool
	f      func() // run by the scheduler
	ch     *Chan
}

func (w *W) nextTimer() *timerSt {
	var best *timerSt
	for _, t := range w.timers {
		if t.active && (best == nil || t.when < best.when || t.when == best.when && t.seq < best.seq) {
			best = t
		}
	}
	return best
}

func (w *W) fireTimer() bool {
	t := w.nextTimer()
	if t == nil {
		return false
	}
	if t.when > w.now {
		w.now = t.when
	}
	if w.now-946684800e9 > 3600e9 {
		w.ex.note("virtual time limit of one hour reached; path dropped")
		w.end("timelimit")
	}
	if t.period > 0 {
		t.when += t.period
		w.sc.timerSeq++
		t.seq = w.sc.timerSeq
	} else {
		t.active = false
		if t.p == nil {
			w.dropTimer(t)
		}
	}
	t.f()
	return true
}

func (w *W) dropTimer(t *timerSt) {
	for k, x := range w.timers {
		if x == t {
			delete(w.timers, k)
		}
	}
}

func (w *W) addTimer(p *V, when, period int64, f func()) *timerSt {
	w.sc.timerSeq++
	t := &timerSt{p: p, when: when, period: period, seq: w.sc.timerSeq, active: true, f: f}
	k := p
	if k == nil {
		var x V
		k = &x
	}
	w.timers[k] = t
	return t
}

func (w *W) sleep(g *G, d int64) {
	if d <= 0 {
		w.yield(g, "sleep")
		return
	}
	w.addTimer(nil, w.now+d, 0, func() { w.ready(g) })
	w.park(g, "sleep")
}

// ---- channels ----

type Chan struct {
	id     int
	cap    int
	buf    []V
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	vcs    []vclock // clocks of buffered messages
	vcRel  vclock
	vcRecv vclock
}
type waiter struct {
	g   *G
	val V
	ok  bool
	idx int
	sel *selSt
	c   *Chan
	rcv *waiter
}
type selSt struct {
	done       bool
	idx        int
	val        V
	ok         bool
	closedSend bool
}

func (w *W) newChan(n int) *Chan {
	return &Chan{cap: n}
}

func deq(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		x := (*q)[0]
		*q = (*q)[1:]
		if !x.sel.done {
			return x
		}
	}
	return nil
}
func peek(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		if !(*q)[0].sel.done {
			return (*q)[0]
		}
		*q = (*q)[1:]
	}
	return nil
}

func (w *W) canSend(c *Chan) bool {
	return c != nil && (c.closed || len(c.buf) < c.cap || peek(&c.recvq) != nil)
}
func (w *W) canRecv(c *Chan) bool {
	return c != nil && (c.closed || len(c.buf) > 0 || peek(&c.sendq) != nil)
}

func (w *W) doSend(g *G, c *Chan, v V) {
	if c.closed {
		w.throwPlain("send on closed channel")
	}
	if r := deq(&c.recvq); r != nil {
		r.sel.done, r.sel.idx, r.sel.val, r.sel.ok = true, r.idx, v, true
		w.raceHandshake(g, r.g)
		w.ready(r.g)
		return
	}
	w.raceSendBuf(g, c)
	c.buf = append(c.buf, v)
}

func (w *W) doRecv(g *G, c *Chan, zeroV func() V) (V, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]V(nil), c.buf[1:]...)
		w.raceRecvBuf(g, c)
		if s := deq(&c.sendq); s != nil {
			w.raceSendBuf(s.g, c)
			c.buf = append(c.buf, s.val)
			s.sel.done, s.sel.idx = true, s.idx
			w.ready(s.g)
		}
		return v, true
	}
	if s := deq(&c.sendq); s != nil {
		s.sel.done, s.sel.idx = true, s.idx
		w.raceHandshake(s.g, g)
		w.ready(s.g)
		return s.val, true
	}
	w.raceAcquire(g, &c.vcRel)
	return zeroV(), false // closed
}

func (w *W) chanSend(g *G, c *Chan, v V) {
	w.yield(g, "send")
	if c == nil {
		w.park(g, "send on nil channel")
		return
	}
	if w.canSend(c) {
		w.doSend(g, c, v)
		return
	}
	st := &selSt{}
	c.sendq = append(c.sendq, &waiter{g: g, val: v, sel: st})
	w.park(g, "chan send")
	if st.closedSend {
		w.throwPlain("send on closed channel")
	}
}

func (w *W) chanRecv(g *G, c *Chan, elem types.Type) (V, bool) {
	w.yield(g, "recv")
	if c == nil {
		w.park(g, "receive on nil channel")
		return nil, false
	}
	zf := func() V { return zero(elem) }
	if w.canRecv(c) {
		return w.doRecv(g, c, zf)
	}
	st := &selSt{}
	c.recvq = append(c.recvq, &waiter{g: g, sel: st})
	w.park(g, "chan receive")
	if !st.ok {
		w.raceAcquire(g, &c.vcRel)
		return zf(), false
	}
	return st.val, true
}

func (w *W) chanClose(g *G, c *Chan) {
	w.yield(g, "close")
	if c == nil {
		w.throwPlain("close of nil channel")
	}
	if c.closed {
		w.throwPlain("close of closed channel")
	}
	c.closed = true
	w.raceRelease(g, &c.vcRel)
	for {
		r := deq(&c.recvq)
		if r == nil {
			break
		}
		r.sel.done, r.sel.idx, r.sel.ok, r.sel.val = true, r.idx, false, nil
		w.raceAcquire(r.g, &c.vcRel)
		w.ready(r.g)
	}
	for {
		s := deq(&c.sendq)
		if s == nil {
			break
		}
		s.sel.done, s.sel.idx, s.sel.closedSend = true, s.idx, true
		w.ready(s.g)
	}
}

type selCase struct {
	c    *Chan
	send bool
	v    V
	elem types.Type
}

// selectOp returns the chosen index (-1 for default), the received value and ok.
func (w *W) selectOp(g *G, cases []selCase, blocking bool) (int, V, bool) {
	w.yield(g, "select")
	var rdy []int
	for i, c := range cases {
		if c.c == nil {
			continue
		}
		if c.send && w.canSend(c.c) || !c.send && w.canRecv(c.c) {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		k := 0
		if len(rdy) > 1 && (w.sc.sym || w.sc.selAll) && w.sc.noYield == 0 {
			k = w.choose(len(rdy), "select")
			w.choices = append(w.choices, fmt.Sprintf("select case %d at %s", rdy[k], w.where(g)))
		}
		i := rdy[k]
		c := cases[i]
		if c.send {
			w.doSend(g, c.c, c.v)
			return i, nil, false
		}
		v, ok := w.doRecv(g, c.c, func() V { return zero(c.elem) })
		return i, v, ok
	}
	if !blocking {
		return -1, nil, false
	}
	st := &selSt{}
	for i, c := range cases {
		if c.c == nil {
			continue
		}
		wt := &waiter{g: g, val: c.v, idx: i, sel: st}
		if c.send {
			c.c.sendq = append(c.c.sendq, wt)
		} else {
			c.c.recvq = append(c.c.recvq, wt)
		}
	}
	w.park(g, "select")
	if st.closedSend {
		w.throwPlain("send on closed channel")
	}
	c := cases[st.idx]
	if !c.send {
		if !st.ok {
			w.raceAcquire(g, &c.c.vcRel)
			return st.idx, zero(c.elem), false
		}
		return st.idx, st.val, true
	}
	return st.idx, nil, false
}

// ---- sync ----

type mutexSt struct {
	locked  bool
	holder  *G
	readers int
	wwait   int
	waitq   []*G // writers (or plain mutex waiters)
	rq      []*G
	vc      vclock
	vcR     vclock
}
type wgSt struct {
	n     int
	waitq []*G
	vc    vclock
}
type condSt struct{ waitq []*G }

func (w *W) mu(p *V) *mutexSt {
	m := w.mutexes[p]
	if m == nil {
		m = &mutexSt{}
		w.mutexes[p] = m
	}
	return m
}

func (w *W) lock(g *G, p *V) {
	w.yield(g, "lock")
	m := w.mu(p)
	for m.locked {
		m.waitq = append(m.waitq, g)
		w.park(g, "mutex lock")
	}
	m.locked = true
	m.holder = g
	w.raceAcquire(g, &m.vc)
}
func (w *W) trylock(g *G, p *V) bool {
	w.yield(g, "trylock")
	m := w.mu(p)
	if m.locked || m.readers > 0 {
		return false
	}
	m.locked = true
	m.holder = g
	w.raceAcquire(g, &m.vc)
	w.raceAcquire(g, &m.vcR)
	return true
}
func (w *W) unlock(g *G, p *V) {
	m := w.mu(p)
	if !m.locked {
		w.fatal("sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.holder = nil
	w.raceRelease(g, &m.vc)
	if len(m.waitq) > 0 {
		x := m.waitq[0]
		m.waitq = m.waitq[1:]
		w.ready(x)
	}
}

func (w *W) rwLock(g *G, p *V) {
	w.yield(g, "rwlock")
	m := w.mu(p)
	m.wwait++
	for m.locked || m.readers > 0 {
		m.waitq = append(m.waitq, g)
		w.park(g, "rwmutex lock")
	}
	m.wwait--
	m.locked = true
	m.holder = g
	w.raceAcquire(g, &m.vc)
	w.raceAcquire(g, &m.vcR)
}
func (w *W) rwUnlock(g *G, p *V) {
	m := w.mu(p)
	if !m.locked {
		w.fatal("sync: Unlock of unlocked RWMutex")
	}
	m.locked = false
	m.holder = nil
	w.raceRelease(g, &m.vc)
	if len(m.rq) > 0 {
		for _, x := range m.rq {
			m.readers++
			x.granted = true
			w.ready(x)
		}
		m.rq = nil
		return
	}
	if len(m.waitq) > 0 {
		x := m.waitq[0]
		m.waitq = m.waitq[1:]
		w.ready(x)
	}
}
func (w *W) rLock(g *G, p *V) {
	w.yield(g, "rlock")
	m := w.mu(p)
	if m.locked || m.wwait > 0 {
		m.rq = append(m.rq, g)
		g.granted = false
		for !g.granted {
			w.park(g, "rwmutex rlock")
		}
	} else {
		m.readers++
	}
	w.raceAcquire(g, &m.vc)
}
func (w *W) rUnlock(g *G, p *V) {
	m := w.mu(p)
	if m.readers <= 0 {
		w.fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	w.raceRelease(g, &m.vcR)
	if m.readers == 0 {
		if len(m.waitq) > 0 {
			x := m.waitq[0]
			m.waitq = m.waitq[1:]
			w.ready(x)
		}
	}
}

func (w *W) wg(p *V) *wgSt {
	m := w.wgs[p]
	if m == nil {
		m = &wgSt{}
		w.wgs[p] = m
	}
	return m
}
func (w *W) wgAdd(g *G, p *V, n int) {
	w.yield(g, "wg")
	m := w.wg(p)
	m.n += n
	if m.n < 0 {
		w.throwPlain("sync: negative WaitGroup counter")
	}
	if n < 0 {
		w.raceRelease(g, &m.vc)
	}
	if m.n == 0 {
		for _, x := range m.waitq {
			w.ready(x)
		}
		m.waitq = nil
	}
}
func (w *W) wgWait(g *G, p *V) {
	w.yield(g, "wgwait")
	m := w.wg(p)
	for m.n > 0 {
		m.waitq = append(m.waitq, g)
		w.park(g, "waitgroup wait")
	}
	w.raceAcquire(g, &m.vc)
}

func (w *W) fatal(msg string) {
	panic(&targetPanic{v: w.mkErr(msg), stack: w.stackOf(w.sc.cur), fatal: true})
}

// blockedReport lists goroutines that are blocked, for diagnostics.
func (w *W) blockedReport() []string {
	var st []string
	for _, x := range w.sc.gs {
		if x.state == gBlocked {
			st = append(st, x.label()+": "+x.why+" at "+w.where(x))
		}
	}
	sort.Strings(st)
	return st
}
