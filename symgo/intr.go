package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intr = func(w *W, fr *Frame, args []V) V

var intrinsics = map[string]intr{}

// skipInit lists packages whose initialisers are never run (their globals keep zero values).
var skipInit = map[string]bool{
	"runtime": true, "internal/runtime/atomic": true, "internal/cpu": true, "syscall": true, "os": true,
	"internal/poll": true, "internal/godebug": true, "crypto/tls": true, "crypto/x509": true, "log/slog": true,
	"internal/syscall/unix": true, "os/signal": true, "crypto/internal/fips140": true, "net": true,
	"crypto/internal/sysrand": true, "os/exec": true, "runtime/debug": true, "testing": true,
	"golang.org/x/sys/cpu": true, "vendor/golang.org/x/sys/cpu": true, "flag": true, "internal/testlog": true,
	"compress/gzip": true, "compress/flate": true, "mime/multipart": false, "crypto/rand": false,
}

func reg(names string, f intr) {
	for _, n := range strings.Fields(names) {
		if intrinsics[n] != nil {
			panic("duplicate intrinsic " + n)
		}
		intrinsics[n] = f
	}
}

func nop(w *W, fr *Frame, args []V) V { return nil }

func cellOf(v V) *V {
	p, ok := v.(*V)
	if !ok {
		panic(fmt.Sprintf("cellOf %T", v))
	}
	return p
}

func (w *W) nilCheck(v V) *V {
	p, ok := v.(*V)
	if !ok {
		w.unsupported(fmt.Sprintf("pointer of kind %T", v))
	}
	if p == nil {
		w.throw("invalid memory address or nil pointer dereference")
	}
	return p
}

func init() {
	// sync
	reg("(*sync.Mutex).Lock (*internal/sync.Mutex).Lock", func(w *W, fr *Frame, a []V) V { w.lock(fr.g, w.nilCheck(a[0])); return nil })
	reg("(*sync.Mutex).Unlock (*internal/sync.Mutex).Unlock", func(w *W, fr *Frame, a []V) V { w.unlock(fr.g, w.nilCheck(a[0])); return nil })
	reg("(*sync.Mutex).TryLock (*internal/sync.Mutex).TryLock (*sync.RWMutex).TryLock", func(w *W, fr *Frame, a []V) V { return w.trylock(fr.g, w.nilCheck(a[0])) })
	reg("(*sync.RWMutex).Lock", func(w *W, fr *Frame, a []V) V { w.rwLock(fr.g, w.nilCheck(a[0])); return nil })
	reg("(*sync.RWMutex).Unlock", func(w *W, fr *Frame, a []V) V { w.rwUnlock(fr.g, w.nilCheck(a[0])); return nil })
	reg("(*sync.RWMutex).RLock", func(w *W, fr *Frame, a []V) V { w.rLock(fr.g, w.nilCheck(a[0])); return nil })
	reg("(*sync.RWMutex).RUnlock", func(w *W, fr *Frame, a []V) V { w.rUnlock(fr.g, w.nilCheck(a[0])); return nil })
	reg("(*sync.RWMutex).TryRLock", func(w *W, fr *Frame, a []V) V {
		w.yield(fr.g, "tryrlock")
		m := w.mu(w.nilCheck(a[0]))
		if m.locked || m.wwait > 0 {
			return false
		}
		m.readers++
		w.raceAcquire(fr.g, &m.vc)
		return true
	})
	reg("(*sync.WaitGroup).Add", func(w *W, fr *Frame, a []V) V {
		w.wgAdd(fr.g, w.nilCheck(a[0]), int(int64(w.concretize(a[1]))))
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(w *W, fr *Frame, a []V) V { w.wgAdd(fr.g, w.nilCheck(a[0]), -1); return nil })
	reg("(*sync.WaitGroup).Wait", func(w *W, fr *Frame, a []V) V { w.wgWait(fr.g, w.nilCheck(a[0])); return nil })
	reg("(*sync.WaitGroup).Go", func(w *W, fr *Frame, a []V) V {
		p := w.nilCheck(a[0])
		w.wgAdd(fr.g, p, 1)
		cl := a[1].(*Closure)
		w.spawn(fr.g, "wg.Go", func(g *G) { w.callV(g, nil, cl, nil); w.wgAdd(g, p, -1) })
		return nil
	})
	condL := func(w *W, fr *Frame, p *V) Iface {
		st := (*p).(Struct)
		for _, f := range st {
			if i, ok := f.(Iface); ok && i.t != nil {
				return i
			}
		}
		return Iface{}
	}
	reg("(*sync.Cond).Wait", func(w *W, fr *Frame, a []V) V {
		p := w.nilCheck(a[0])
		c := w.conds[p]
		if c == nil {
			c = &condSt{}
			w.conds[p] = c
		}
		l := condL(w, fr, p)
		c.waitq = append(c.waitq, fr.g)
		w.invokeName(fr, l, "Unlock")
		fr.g.granted = false
		for !fr.g.granted {
			w.park(fr.g, "cond wait")
		}
		w.invokeName(fr, l, "Lock")
		return nil
	})
	sig := func(all bool) intr {
		return func(w *W, fr *Frame, a []V) V {
			w.yield(fr.g, "cond")
			c := w.conds[w.nilCheck(a[0])]
			if c == nil {
				return nil
			}
			for len(c.waitq) > 0 {
				x := c.waitq[0]
				c.waitq = c.waitq[1:]
				x.granted = true
				w.ready(x)
				if !all {
					break
				}
			}
			return nil
		}
	}
	reg("(*sync.Cond).Signal", sig(false))
	reg("(*sync.Cond).Broadcast", sig(true))
	// A pool hands out what was put in last, so that a use after Put shows.
	reg("(*sync.Pool).Put", func(w *W, fr *Frame, a []V) V {
		p := w.nilCheck(a[0])
		if i, ok := a[1].(Iface); ok && i.t == nil {
			return nil
		}
		it := poolItem{v: a[1]}
		w.raceRelease(fr.g, &it.vc)
		old := w.pools[p]
		w.pools[p] = append(append([]poolItem(nil), old...), it)
		w.undoF(func() { w.pools[p] = old })
		return nil
	})
	reg("(*sync.Pool).Get", func(w *W, fr *Frame, a []V) V {
		p := w.nilCheck(a[0])
		if old := w.pools[p]; len(old) > 0 {
			it := old[len(old)-1]
			w.pools[p] = old[:len(old)-1]
			w.undoF(func() { w.pools[p] = old })
			w.raceAcquire(fr.g, &it.vc)
			return it.v
		}
		st := (*p).(Struct)
		cl, _ := st[len(st)-1].(*Closure)
		if cl == nil {
			return Iface{}
		}
		return w.callV(fr.g, fr, cl, nil)
	})
	smap := func(w *W, v V) *Map {
		p := w.nilCheck(v)
		m := w.smaps[p]
		if m == nil {
			m = newMap()
			w.smaps[p] = m
			w.undoF(func() { delete(w.smaps, p) })
		}
		return m
	}
	reg("(*sync.Map).Load", func(w *W, fr *Frame, a []V) V {
		w.yield(fr.g, "syncmap")
		e := w.mapFind(smap(w, a[0]), a[1])
		if e == nil {
			return Tuple{Iface{}, false}
		}
		return Tuple{e.v, true}
	})
	reg("(*sync.Map).Store", func(w *W, fr *Frame, a []V) V {
		w.yield(fr.g, "syncmap")
		w.mapSet(smap(w, a[0]), a[1], a[2])
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(w *W, fr *Frame, a []V) V {
		w.yield(fr.g, "syncmap")
		m := smap(w, a[0])
		if e := w.mapFind(m, a[1]); e != nil {
			return Tuple{e.v, true}
		}
		w.mapSet(m, a[1], a[2])
		return Tuple{a[2], false}
	})
	reg("(*sync.Map).LoadAndDelete", func(w *W, fr *Frame, a []V) V {
		w.yield(fr.g, "syncmap")
		m := smap(w, a[0])
		if e := w.mapFind(m, a[1]); e != nil {
			v := e.v
			w.mapDelete(m, a[1])
			return Tuple{v, true}
		}
		return Tuple{Iface{}, false}
	})
	reg("(*sync.Map).Delete", func(w *W, fr *Frame, a []V) V {
		w.yield(fr.g, "syncmap")
		w.mapDelete(smap(w, a[0]), a[1])
		return nil
	})
	reg("(*sync.Map).Range", func(w *W, fr *Frame, a []V) V {
		w.yield(fr.g, "syncmap")
		m := smap(w, a[0])
		for _, e := range append([]*mapEnt(nil), m.ents...) {
			if e.dead {
				continue
			}
			if !w.branch(w.callV(fr.g, fr, a[1].(*Closure), []V{e.k, e.v})) {
				break
			}
		}
		return nil
	})

	// atomics
	for _, pfx := range []string{"sync/atomic.", "internal/runtime/atomic."} {
		for _, k := range []struct {
			n string
			w uint8
		}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}} {
			wd := k.w
			reg(pfx+"Load"+k.n, atomicLoad)
			reg(pfx+"Store"+k.n, atomicStore)
			reg(pfx+"Swap"+k.n, atomicSwap)
			reg(pfx+"CompareAndSwap"+k.n, atomicCAS)
			reg(pfx+"Add"+k.n, func(w *W, fr *Frame, a []V) V {
				w.yield(fr.g, "atomic")
				p := w.nilCheck(a[0])
				w.raceAtomic(fr.g, p)
				r := simp(w.ts.Bin(OAdd, w.term(*p, wd), w.term(a[1], wd)))
				w.set(p, r)
				return r
			})
			reg(pfx+"And"+k.n, func(w *W, fr *Frame, a []V) V {
				w.yield(fr.g, "atomic")
				p := w.nilCheck(a[0])
				w.raceAtomic(fr.g, p)
				old := *p
				w.set(p, simp(w.ts.Bin(OBAnd, w.term(old, wd), w.term(a[1], wd))))
				return old
			})
			reg(pfx+"Or"+k.n, func(w *W, fr *Frame, a []V) V {
				w.yield(fr.g, "atomic")
				p := w.nilCheck(a[0])
				w.raceAtomic(fr.g, p)
				old := *p
				w.set(p, simp(w.ts.Bin(OBOr, w.term(old, wd), w.term(a[1], wd))))
				return old
			})
		}
		reg(pfx+"LoadPointer", atomicLoad)
		reg(pfx+"StorePointer", atomicStore)
		reg(pfx+"SwapPointer", atomicSwap)
		reg(pfx+"CompareAndSwapPointer", atomicCAS)
	}
	reg("(*sync/atomic.Value).Load", func(w *W, fr *Frame, a []V) V {
		w.yield(fr.g, "atomic")
		p := w.nilCheck(a[0])
		w.raceAtomic(fr.g, p)
		return (*p).(Struct)[0]
	})
	reg("(*sync/atomic.Value).Store", func(w *W, fr *Frame, a []V) V {
		w.yield(fr.g, "atomic")
		p := w.nilCheck(a[0])
		w.raceAtomic(fr.g, p)
		n := a[1].(Iface)
		if n.t == nil {
			w.throwPlain("sync/atomic: store of nil value into Value")
		}
		if o := (*p).(Struct)[0].(Iface); o.t != nil && !w.sameType(o.t, n.t) {
			w.throwPlain("sync/atomic: store of inconsistently typed value into Value")
		}
		w.set(&(*p).(Struct)[0], n)
		return nil
	})
	reg("(*sync/atomic.Value).Swap", func(w *W, fr *Frame, a []V) V {
		w.yield(fr.g, "atomic")
		p := w.nilCheck(a[0])
		w.raceAtomic(fr.g, p)
		o := (*p).(Struct)[0]
		w.set(&(*p).(Struct)[0], a[1])
		return o
	})
	reg("(*sync/atomic.Value).CompareAndSwap", func(w *W, fr *Frame, a []V) V {
		w.yield(fr.g, "atomic")
		p := w.nilCheck(a[0])
		w.raceAtomic(fr.g, p)
		o := (*p).(Struct)[0]
		if w.branch(w.eq(o, a[1])) {
			w.set(&(*p).(Struct)[0], a[2])
			return true
		}
		return false
	})

	// runtime
	reg("runtime.Gosched", func(w *W, fr *Frame, a []V) V {
		if w.sc.sym {
			w.yield(fr.g, "gosched")
		} else if len(w.sc.runq) > 0 {
			fr.g.state = gRunnable
			w.sc.runq = append(w.sc.runq, fr.g)
			w.handoff(fr.g)
		}
		return nil
	})
	reg("runtime.KeepAlive runtime.SetFinalizer runtime.GC runtime/debug.SetGCPercent runtime/debug.FreeOSMemory internal/race.Acquire internal/race.Release internal/race.Enable internal/race.Disable", nop)
	reg("runtime.NumGoroutine", func(w *W, fr *Frame, a []V) V {
		n := 0
		for _, g := range w.sc.gs {
			if g.state != gDead {
				n++
			}
		}
		return uint64(n)
	})
	reg("runtime.GOMAXPROCS runtime.NumCPU", func(w *W, fr *Frame, a []V) V { return uint64(8) })
	reg("runtime.Callers", func(w *W, fr *Frame, a []V) V { return uint64(0) })
	reg("runtime.Caller", func(w *W, fr *Frame, a []V) V { return Tuple{zeroU, "?", zeroU, false} })
	reg("runtime.Stack", func(w *W, fr *Frame, a []V) V { return uint64(0) })
	reg("runtime/debug.Stack", func(w *W, fr *Frame, a []V) V { return Slice(nil) })
	reg("internal/abi.NoEscape strings.noescape internal/abi.Escape internal/reflectlite.noescape", func(w *W, fr *Frame, a []V) V { return a[0] })
	reg("(*strings.Builder).copyCheck", nop)
	reg("(*internal/godebug.Setting).Value", func(w *W, fr *Frame, a []V) V { return "" })
	reg("(*internal/godebug.Setting).IncNonDefault", nop)
	reg("internal/godebug.New", func(w *W, fr *Frame, a []V) V { p := new(V); *p = Struct{}; return p })
	reg("(*internal/godebug.Setting).Name", func(w *W, fr *Frame, a []V) V { return "" })
	reg("os.Getenv", func(w *W, fr *Frame, a []V) V { return "" })
	reg("os.LookupEnv syscall.Getenv", func(w *W, fr *Frame, a []V) V { return Tuple{"", false} })

	// crypto/rand
	rnd := func(w *W, b Slice) {
		n, _ := w.side["rand"].(int)
		for i := range b {
			if w.side["symrand"] != nil && w.inInit == 0 {
				x := w.newInput("byte", 8, "rand")
				w.set(&b[i], x)
				d, _ := w.side["drawn"].([]V)
				w.side["drawn"] = append(append([]V(nil), d...), x)
			} else {
				n++
				w.set(&b[i], byteV[byte(n*37+n>>8)])
			}
		}
		w.side["rand"] = n
	}
	reg("(*crypto/rand.reader).Read (crypto/internal/rand.reader).Read", func(w *W, fr *Frame, a []V) V {
		s := a[1].(Slice)
		rnd(w, s)
		return Tuple{uint64(len(s)), Iface{}}
	})
	reg("crypto/rand.Read", func(w *W, fr *Frame, a []V) V {
		s := a[0].(Slice)
		rnd(w, s)
		return Tuple{uint64(len(s)), Iface{}}
	})
	mrnd := func(w *W, n uint64) V {
		t := w.newInput("u64", 64, "mathrand")
		w.assume(simp(w.ts.Ult(t.(*Term), w.ts.Const(64, n))))
		return t
	}
	reg("math/rand.Intn math/rand.Int63n math/rand/v2.IntN math/rand/v2.Int64N", func(w *W, fr *Frame, a []V) V { return mrnd(w, w.concretize(a[0])) })
	reg("math/rand.Uint32 math/rand/v2.Uint32", func(w *W, fr *Frame, a []V) V { return w.newInput("u32", 32, "mathrand") })
	reg("math/rand.Uint64 math/rand/v2.Uint64", func(w *W, fr *Frame, a []V) V { return w.newInput("u64", 64, "mathrand") })

	// log
	for _, n := range []string{"Print", "Printf", "Println"} {
		reg("log."+n+" (*log.Logger)."+n, nop)
	}
	reg("(*log.Logger).output log.Output", nop)

	// time
	tnow := func(w *W, fr *Frame, a []V) V {
		return Tuple{uint64(w.now / 1e9), uint64(w.now % 1e9), uint64(w.now - 946684700e9)}
	}
	reg("time.now time.runtimeNow", tnow)
	reg("time.runtimeNano", func(w *W, fr *Frame, a []V) V { return uint64(w.now - 946684700e9) })
	reg("time.runtimeIsBubbled", func(w *W, fr *Frame, a []V) V { return false })
	reg("time.Sleep", func(w *W, fr *Frame, a []V) V {
		w.sleep(fr.g, int64(w.concretize(a[0])))
		return nil
	})
	reg("time.syncTimer", func(w *W, fr *Frame, a []V) V { return (*V)(nil) })
	base := int64(946684700e9)
	mkTimer := func(w *W, fr *Frame, p *V, when, period int64, f *Closure, arg V, ch *Chan) {
		t := w.addTimer(p, when+base, period, func() {
			if ch != nil {
				// channel timers deliver without blocking
				if w.canSend(ch) && !ch.closed && (len(ch.buf) < ch.cap || peek(&ch.recvq) != nil) {
					tm := w.timeValue()
					w.doSend(w.timerG(), ch, tm)
				}
				return
			}
			w.spawn(nil, "timer", func(g *G) { w.callV(g, nil, f, []V{arg, zeroU, zeroU}) })
		})
		t.ch = ch
	}
	reg("time.newTimer", func(w *W, fr *Frame, a []V) V {
		tt := w.prog.lookupType("time", "Timer")
		p := new(V)
		*p = zero(tt)
		st := (*p).(Struct)
		st[1] = true
		var ch *Chan
		if i, ok := a[3].(Iface); ok {
			if c, ok := i.v.(*Chan); ok {
				ch = c
			}
		}
		w.side["timerF"] = a[2]
		mkTimer(w, fr, p, int64(w.concretize(a[0])), int64(w.concretize(a[1])), a[2].(*Closure), a[3], ch)
		return p
	})
	reg("time.stopTimer", func(w *W, fr *Frame, a []V) V {
		w.yield(fr.g, "timer stop")
		p := w.nilCheck(a[0])
		t := w.timers[p]
		if t == nil {
			return false
		}
		act := t.active
		if t.ch != nil && len(t.ch.buf) > 0 {
			t.ch.buf = nil
			act = true
		}
		t.active = false
		return act
	})
	reg("time.resetTimer", func(w *W, fr *Frame, a []V) V {
		w.yield(fr.g, "timer reset")
		p := w.nilCheck(a[0])
		t := w.timers[p]
		if t == nil {
			w.unsupported("reset of unknown timer")
		}
		act := t.active
		if t.ch != nil && len(t.ch.buf) > 0 {
			t.ch.buf = nil
			act = true
		}
		t.when = int64(w.concretize(a[1])) + base
		t.period = int64(w.concretize(a[2]))
		w.sc.timerSeq++
		t.seq = w.sc.timerSeq
		t.active = true
		return act
	})
	reg("(*time.Location).get", func(w *W, fr *Frame, a []V) V {
		p, _ := a[0].(*V)
		if p == nil {
			g := w.prog.prog.ImportedPackage("time").Var("utcLoc")
			return w.global(g)
		}
		return p
	})

	// math
	reg("math.Float64bits internal/strconv.float64bits", func(w *W, fr *Frame, a []V) V {
		switch x := a[0].(type) {
		case float64:
			return math.Float64bits(x)
		case *SymFloat:
			return simp(x.bits)
		}
		panic("Float64bits")
	})
	reg("math.Float64frombits internal/strconv.float64frombits", func(w *W, fr *Frame, a []V) V {
		switch x := a[0].(type) {
		case uint64:
			return math.Float64frombits(x)
		case *Term:
			return &SymFloat{x}
		}
		panic("Float64frombits")
	})
	reg("math.Float32bits internal/strconv.float32bits", func(w *W, fr *Frame, a []V) V {
		switch x := a[0].(type) {
		case float64:
			return uint64(math.Float32bits(float32(x)))
		case *SymFloat:
			return simp(x.bits)
		}
		panic("Float32bits")
	})
	reg("math.Float32frombits internal/strconv.float32frombits", func(w *W, fr *Frame, a []V) V {
		switch x := a[0].(type) {
		case uint64:
			return float64(math.Float32frombits(uint32(x)))
		case *Term:
			return &SymFloat{x}
		}
		panic("Float32frombits")
	})
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt,
		"Log": math.Log, "Log2": math.Log2, "Exp": math.Exp, "Log10": math.Log10, "sqrt": math.Sqrt} {
		f := f
		reg("math."+n, func(w *W, fr *Frame, a []V) V {
			return f(w.concFloat(a[0], types.Typ[types.Float64]).(float64))
		})
	}
	reg("math.Pow", func(w *W, fr *Frame, a []V) V {
		t := types.Typ[types.Float64]
		return math.Pow(w.concFloat(a[0], t).(float64), w.concFloat(a[1], t).(float64))
	})
	reg("math.FMA", func(w *W, fr *Frame, a []V) V { return math.FMA(a[0].(float64), a[1].(float64), a[2].(float64)) })

	// bytealg
	idx := func(w *W, s V, n int, c V, rev bool) V {
		if rev {
			for i := n - 1; i >= 0; i-- {
				if w.branch(w.eq(strByte(s, i), c)) {
					return uint64(i)
				}
			}
		} else {
			for i := 0; i < n; i++ {
				if w.branch(w.eq(strByte(s, i), c)) {
					return uint64(i)
				}
			}
		}
		return ^uint64(0)
	}
	reg("internal/bytealg.IndexByte internal/bytealg.IndexByteString", func(w *W, fr *Frame, a []V) V {
		return idx(w, a[0], strLen(a[0]), a[1], false)
	})
	reg("internal/bytealg.LastIndexByte internal/bytealg.LastIndexByteString", func(w *W, fr *Frame, a []V) V {
		return idx(w, a[0], strLen(a[0]), a[1], true)
	})
	reg("internal/bytealg.Count internal/bytealg.CountString", func(w *W, fr *Frame, a []V) V {
		n := strLen(a[0])
		r := w.ts.Const(64, 0)
		for i := 0; i < n; i++ {
			c := w.boolTerm(w.eq(strByte(a[0], i), a[1]))
			r = w.ts.Bin(OAdd, r, w.ts.Ite(c, w.ts.Const(64, 1), w.ts.Const(64, 0)))
		}
		return simp(r)
	})
	reg("internal/bytealg.Equal", func(w *W, fr *Frame, a []V) V {
		return w.eq(mkStr(a[0].(Slice)), mkStr(a[1].(Slice)))
	})
	reg("internal/bytealg.Compare internal/bytealg.CompareString", func(w *W, fr *Frame, a []V) V {
		x, y := mkStr(strBytes(a[0])), mkStr(strBytes(a[1]))
		lt := w.boolTerm(w.strLess(x, y))
		eq := w.boolTerm(w.eq(x, y))
		return simp(w.ts.Ite(lt, w.ts.Const(64, ^uint64(0)), w.ts.Ite(eq, w.ts.Const(64, 0), w.ts.Const(64, 1))))
	})
	reg("internal/bytealg.Index internal/bytealg.IndexString", func(w *W, fr *Frame, a []V) V {
		n, m := strLen(a[0]), strLen(a[1])
		s, sub := mkStr(strBytes(a[0])), mkStr(strBytes(a[1]))
		for i := 0; i+m <= n; i++ {
			if w.branch(w.eq(strSlice(s, i, i+m), sub)) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	})
	reg("internal/bytealg.Cutover", func(w *W, fr *Frame, a []V) V { return uint64(64) })
	reg("internal/bytealg.MakeNoZero", func(w *W, fr *Frame, a []V) V {
		n := w.makeLen(fr, a[0], types.Typ[types.Int], 1, "len")
		return makeSlice(types.Typ[types.Uint8], n, n)
	})
	reg("internal/stringslite.Clone strings.Clone", func(w *W, fr *Frame, a []V) V { return a[0] })
	reg("bytes.growSlice", func(w *W, fr *Frame, a []V) V {
		b := a[0].(Slice)
		n := int(w.concretize(a[1]))
		c := len(b) + n
		if c < 2*cap(b) {
			c = 2 * cap(b)
		}
		r := makeSlice(types.Typ[types.Uint8], c, c)
		copy(r, b)
		return r[:len(b)]
	})

	// msgp
	reg("github.com/tinylib/msgp/msgp.UnsafeString", func(w *W, fr *Frame, a []V) V { return mkStr(a[0].(Slice)) })
	reg("github.com/tinylib/msgp/msgp.UnsafeBytes", func(w *W, fr *Frame, a []V) V { return Slice(strBytes(a[0])) })

	// regexp: the backtracking matcher gives the same answers as the one-pass one; nothing to do here.

	// unique / weak are avoided
	reg("internal/race.Errors", func(w *W, fr *Frame, a []V) V { return zeroU })
}

func atomicLoad(w *W, fr *Frame, a []V) V {
	w.yield(fr.g, "atomic")
	p := w.nilCheck(a[0])
	w.raceAtomic(fr.g, p)
	return *p
}
func atomicStore(w *W, fr *Frame, a []V) V {
	w.yield(fr.g, "atomic")
	p := w.nilCheck(a[0])
	w.raceAtomic(fr.g, p)
	w.set(p, a[1])
	return nil
}
func atomicSwap(w *W, fr *Frame, a []V) V {
	w.yield(fr.g, "atomic")
	p := w.nilCheck(a[0])
	w.raceAtomic(fr.g, p)
	old := *p
	w.set(p, a[1])
	return old
}
func atomicCAS(w *W, fr *Frame, a []V) V {
	w.yield(fr.g, "atomic")
	p := w.nilCheck(a[0])
	w.raceAtomic(fr.g, p)
	if w.branch(w.eqT(*p, a[1])) {
		w.set(p, a[2])
		return true
	}
	return false
}

func (w *W) timeValue() V {
	fr := &Frame{w: w, g: w.timerG()}
	f := w.prog.lookup("time", "Now")
	fr.fn = w.fn(f)
	return w.call(fr.g, nil, w.fn(f), nil, nil)
}

func (w *W) timerG() *G {
	if g, ok := w.side["timerG"].(*G); ok {
		return g
	}
	g := &G{id: -1, w: w, name: "timer"}
	w.raceInitG(nil, g)
	w.side["timerG"] = g
	return g
}

// invokeName calls a parameterless method by name.
func (w *W) invokeName(fr *Frame, recv Iface, name string) V {
	ms := w.prog.prog.MethodSets.MethodSet(recv.t)
	for i := 0; i < ms.Len(); i++ {
		if m := ms.At(i).Obj().(*types.Func); m.Name() == name {
			return w.invoke(fr, recv, m, []V{nil})
		}
	}
	w.unsupported("no method " + name)
	return nil
}

func (w *W) newInput(kind string, width uint8, name string) V {
	t := w.freshVar(width, name)
	w.inputs = append(w.inputs, input{t.name, kind, t})
	return t
}

// intrinsicFor resolves intrinsics that depend on the package path (the harness API).
func (p *Program) intrinsicFor(f *ssa.Function, name string) intr {
	if f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "/zzsym") {
		if x := zsymIntr[f.Name()]; x != nil && f.Signature.Recv() == nil {
			return x
		}
	}
	if x := reflectIntrinsic(name); x != nil {
		return x
	}
	if name == "reflect.TypeAssert" && len(f.TypeArgs()) == 1 {
		t := f.TypeArgs()[0]
		return func(w *W, fr *Frame, a []V) V {
			v := w.rvMethod(fr, w.rv(a[0]), "Interface", nil).(Iface)
			if v.t != nil {
				if it, ok := t.Underlying().(*types.Interface); ok {
					if w.implements(v, it) {
						return Tuple{v, true}
					}
				} else if w.sameType(v.t, t) {
					return Tuple{copyVal(v.v), true}
				}
			}
			return Tuple{zero(t), false}
		}
	}
	if name == "reflect.TypeFor" && len(f.TypeArgs()) == 1 {
		t := f.TypeArgs()[0]
		return func(w *W, fr *Frame, a []V) V { return w.mkType(t) }
	}
	return nil
}

var zsymIntr = map[string]intr{
	"Byte":   func(w *W, fr *Frame, a []V) V { return w.newInput("byte", 8, str(a[0])) },
	"Uint16": func(w *W, fr *Frame, a []V) V { return w.newInput("u16", 16, str(a[0])) },
	"Uint32": func(w *W, fr *Frame, a []V) V { return w.newInput("u32", 32, str(a[0])) },
	"Uint64": func(w *W, fr *Frame, a []V) V { return w.newInput("u64", 64, str(a[0])) },
	"Bool": func(w *W, fr *Frame, a []V) V {
		t := w.newInput("bool", 8, str(a[0])).(*Term)
		w.assume(simp(w.ts.Ule(t, w.ts.Const(8, 1))))
		return simp(w.ts.Eq(t, w.ts.Const(8, 1)))
	},
	"Int": func(w *W, fr *Frame, a []V) V {
		t := w.newInput("int", 64, str(a[0])).(*Term)
		lo, hi := a[1].(uint64), a[2].(uint64)
		// offset encoding keeps the range unsigned: value = lo + d, d <= hi-lo
		w.assume(simp(w.ts.Ule(t, w.ts.Const(64, hi-lo))))
		wd := uint8(64)
		for wd > 1 && (hi-lo) <= mask(wd-1) {
			wd--
		}
		d := w.ts.ZExt(w.ts.Extract(t, 0, wd), 64)
		return simp(w.ts.Bin(OAdd, d, w.ts.Const(64, lo)))
	},
	"Float64": func(w *W, fr *Frame, a []V) V { return &SymFloat{w.newInput("u64", 64, str(a[0])).(*Term)} },
	"Float32": func(w *W, fr *Frame, a []V) V { return &SymFloat{w.newInput("u32", 32, str(a[0])).(*Term)} },
	"Choice": func(w *W, fr *Frame, a []V) V {
		n := int(w.concretize(a[1]))
		nm := str(a[0])
		if n <= 0 {
			w.end("assume")
		}
		if n == 1 {
			// still consumes an input so that native replay stays aligned
			v := w.freshVar(8, nm)
			w.assume(simp(w.ts.Eq(v, w.ts.Const(8, 0))))
			w.inputs = append(w.inputs, input{v.name, "choice", v})
			return zeroU
		}
		c := w.choose(n, nm)
		v := w.vars[len(w.vars)-1]
		w.inputs = append(w.inputs, input{v.name, "choice", v})
		return uint64(c)
	},
	"Bytes": func(w *W, fr *Frame, a []V) V {
		n := int(w.concretize(a[1]))
		s := make(Slice, n)
		for i := range s {
			s[i] = w.newInput("byte", 8, str(a[0]))
		}
		return s
	},
	"String": func(w *W, fr *Frame, a []V) V {
		n := int(w.concretize(a[1]))
		s := make(Slice, n)
		for i := range s {
			s[i] = w.newInput("byte", 8, str(a[0]))
		}
		return mkStr(s)
	},
	"Concrete": func(w *W, fr *Frame, a []V) V { return w.concretize(a[0]) },
	"Assume":   func(w *W, fr *Frame, a []V) V { w.assume(a[0]); return nil },
	"Assert": func(w *W, fr *Frame, a []V) V {
		w.assert(a[0], "assert", str(a[1]), "assertion failed: "+str(a[1])+" at "+w.callerPos(fr))
		return nil
	},
	"Fail": func(w *W, fr *Frame, a []V) V {
		w.assert(false, "assert", str(a[0]), "failed: "+str(a[0])+" at "+w.callerPos(fr))
		return nil
	},
	"Cover": func(w *W, fr *Frame, a []V) V {
		w.ex.mu.Lock()
		w.ex.labels[str(a[0])]++
		w.ex.mu.Unlock()
		return nil
	},
	"Obs":  func(w *W, fr *Frame, a []V) V { w.obs = append(w.obs, a[0]); return nil },
	"Note": func(w *W, fr *Frame, a []V) V { w.trace = append(w.trace, w.show(a[0], 0)); return nil },
	"Show": func(w *W, fr *Frame, a []V) V {
		if w.ex.cfg.Trace {
			fmt.Println("SHOW", w.show(a[0], 0), w.show(a[1], 0))
		}
		w.trace = append(w.trace, w.show(a[0], 0)+" "+w.show(a[1], 0))
		return nil
	},
	"StackLimit": func(w *W, fr *Frame, a []V) V { w.stackLimit = int(w.concretize(a[0])); return nil },
	"AllocLimit": func(w *W, fr *Frame, a []V) V { w.allocLimit = int64(w.concretize(a[0])); return nil },
	"Concurrent": func(w *W, fr *Frame, a []V) V {
		w.sc.sym = true
		w.sc.preempt = int(w.concretize(a[0]))
		return nil
	},
	"Sequential": func(w *W, fr *Frame, a []V) V { w.sc.sym = false; return nil },
	"Delays": func(w *W, fr *Frame, a []V) V {
		w.sc.sym = true
		w.sc.delay = true
		w.sc.preempt = int(w.concretize(a[0]))
		w.sc.stalls = w.ex.cfg.Args["stalls"]
		return nil
	},
	"EarlyTimers": func(w *W, fr *Frame, a []V) V { w.sc.anytime = int(w.concretize(a[0])); return nil },
	"SelectAll":   func(w *W, fr *Frame, a []V) V { w.sc.selAll = w.branch(a[0]); return nil },
	"MapOrder":    func(w *W, fr *Frame, a []V) V { w.side["maporder"] = true; return nil },
	"SymRand":     func(w *W, fr *Frame, a []V) V { w.side["symrand"] = true; return nil },
	"RandDrawn": func(w *W, fr *Frame, a []V) V {
		d, _ := w.side["drawn"].([]V)
		return Slice(append([]V(nil), d...))
	},
	"Races":   func(w *W, fr *Frame, a []V) V { w.raceOn(fr.g); return nil },
	"Quiesce": func(w *W, fr *Frame, a []V) V { w.quiesce(fr.g); return nil },
	"NowNano": func(w *W, fr *Frame, a []V) V { return uint64(w.now) },
	"Param": func(w *W, fr *Frame, a []V) V {
		if v, ok := w.ex.cfg.Args[str(a[0])]; ok {
			return uint64(int64(v))
		}
		return a[1]
	},
	"Symbolic":   func(w *W, fr *Frame, a []V) V { return true },
	"IsConcrete": func(w *W, fr *Frame, a []V) V { return !isSym(a[0]) },
	// Ite-style helpers avoiding forks in harness code
	"And": func(w *W, fr *Frame, a []V) V { return simp(w.ts.And(w.boolTerm(a[0]), w.boolTerm(a[1]))) },
	"Or":  func(w *W, fr *Frame, a []V) V { return simp(w.ts.Or(w.boolTerm(a[0]), w.boolTerm(a[1]))) },
	"Not": func(w *W, fr *Frame, a []V) V { return w.not(a[0]) },
	"Implies": func(w *W, fr *Frame, a []V) V {
		return simp(w.ts.Or(w.ts.Not(w.boolTerm(a[0])), w.boolTerm(a[1])))
	},
	"EqBytes":  func(w *W, fr *Frame, a []V) V { return w.eq(mkStr(a[0].(Slice)), mkStr(a[1].(Slice))) },
	"EqString": func(w *W, fr *Frame, a []V) V { return w.eq(a[0], a[1]) },
	"LiveGoroutines": func(w *W, fr *Frame, a []V) V {
		n := 0
		for _, g := range w.sc.gs {
			if g.state != gDead {
				n++
			}
		}
		return uint64(n)
	},
}

func (w *W) callerPos(fr *Frame) string {
	if fr != nil && fr.pos.IsValid() {
		p := w.prog.prog.Fset.Position(fr.pos)
		return fmt.Sprintf("%s:%d", shortPath(p.Filename), p.Line)
	}
	return "?"
}

func str(v V) string {
	s, ok := v.(string)
	if !ok {
		return "?"
	}
	return s
}
