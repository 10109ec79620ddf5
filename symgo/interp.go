package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"runtime/debug"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func hostStack() string { return string(debug.Stack()) }

type opnd struct {
	r int
	c V
}

func (o opnd) get(fr *Frame) V {
	if o.r >= 0 {
		return fr.regs[o.r]
	}
	return o.c
}

type ins func(fr *Frame)
type edge struct {
	to   int
	dst  []int
	src  []opnd
	next *block
}
type block struct {
	ins   []ins
	poss  []token.Pos
	term  func(fr *Frame) int
	edges []edge
}

// Fn is a function compiled for one worker.
type Fn struct {
	f        *ssa.Function
	name     string
	nregs    int
	params   []int
	free     []int
	blocks   []block
	recover  int
	hasDefer bool
	native   func(w *W, fr *Frame, args []V) V
	compiled bool
	used     bool
	target   bool
	zsym     bool
	yc       uint8 // scheduling points in this function: 0 not known yet, 1 yes, 2 no
}

type Frame struct {
	w         *W
	g         *G
	fn        *Fn
	caller    *Frame
	regs      []V
	defers    []deferred
	result    V
	panicking *targetPanic
	recovered bool
	pos       token.Pos
	blk       int
}

type deferred struct {
	fn   *Fn
	nat  *Closure
	args []V
	env  []V
	bi   *ssa.Builtin
	sig  types.Type
}

func (w *W) fn(f *ssa.Function) *Fn {
	if x := w.fns[f]; x != nil {
		return x
	}
	x := &Fn{f: f, name: f.String()}
	w.fns[f] = x
	name := x.name
	if o := f.Origin(); o != nil && o != f {
		name = o.String()
	}
	x.native = intrinsics[name]
	if x.native == nil {
		x.native = w.prog.intrinsicFor(f, name)
	}
	pk := f.Package()
	if pk == nil && f.Origin() != nil {
		pk = f.Origin().Package()
	}
	if pk != nil {
		x.target = strings.HasPrefix(pk.Pkg.Path(), targetPrefix)
		x.zsym = strings.HasSuffix(pk.Pkg.Path(), "/zzsym")
		if x.native == nil && f.Synthetic == "package initializer" {
			x.native = func(w *W, fr *Frame, args []V) V { return nil } // inits run lazily
		}
	}
	return x
}

const targetPrefix = "github.com/zyxar/socketio"

// ensureInit runs the initialiser of p once (per worker).
func (w *W) ensureInit(p *ssa.Package) {
	if p == nil || w.inits[p] != 0 {
		return
	}
	w.inits[p] = 1
	initf := p.Func("init")
	if initf == nil || initf.Blocks == nil {
		return
	}
	if skipInit[p.Pkg.Path()] {
		return
	}
	w.inInit++
	saveSteps := w.steps
	saveDefer := w.sc.cur
	defer func() {
		w.inInit--
		w.steps = saveSteps
		if r := recover(); r != nil {
			switch r := r.(type) {
			case initUnsupported:
				w.ex.note("init of " + p.Pkg.Path() + " incomplete: " + r.s)
			case *targetPanic:
				w.ex.note("init of " + p.Pkg.Path() + " panicked: " + w.panicString(r.v))
			default:
				panic(r)
			}
		}
	}()
	x := &Fn{f: initf, name: initf.String()}
	w.compile(x)
	g := w.sc.cur
	if g == nil {
		g = &G{w: w, name: "init"}
	}
	_ = saveDefer
	sv, sd := g.fr, g.depth
	w.call(g, nil, x, nil, nil)
	g.fr, g.depth = sv, sd
}

func (w *W) global(g *ssa.Global) *V {
	if p := w.globs[g]; p != nil {
		return p
	}
	var z V
	z = zero(g.Type().Underlying().(*types.Pointer).Elem())
	p := &z
	w.globs[g] = p
	return p
}

func (w *W) compile(x *Fn) {
	f := x.f
	x.compiled = true
	if f.Blocks == nil {
		w.unsupported("function without body: " + x.name)
		return
	}
	c := &compiler{w: w, x: x, regs: map[ssa.Value]int{}}
	for _, p := range f.Params {
		x.params = append(x.params, c.reg(p))
	}
	for _, p := range f.FreeVars {
		x.free = append(x.free, c.reg(p))
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				c.reg(v)
			}
			if _, ok := i.(*ssa.Defer); ok {
				x.hasDefer = true
			}
		}
	}
	blocks := make([]block, len(f.Blocks))
	for bi, b := range f.Blocks {
		cb := &blocks[bi]
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			case *ssa.If:
				cond := c.op(i.Cond)
				pos := i.Pos()
				_ = pos
				cb.term = func(fr *Frame) int {
					v := cond.get(fr)
					if bb, ok := v.(bool); ok {
						if bb {
							return 0
						}
						return 1
					}
					if fr.w.branch(v) {
						return 0
					}
					return 1
				}
			case *ssa.Jump:
				cb.term = func(fr *Frame) int { return 0 }
			case *ssa.Return:
				switch len(i.Results) {
				case 0:
					cb.term = func(fr *Frame) int { return -1 }
				case 1:
					r := c.op(i.Results[0])
					cb.term = func(fr *Frame) int { fr.result = r.get(fr); return -1 }
				default:
					var rs []opnd
					for _, r := range i.Results {
						rs = append(rs, c.op(r))
					}
					cb.term = func(fr *Frame) int {
						t := make(Tuple, len(rs))
						for k, r := range rs {
							t[k] = r.get(fr)
						}
						fr.result = t
						return -1
					}
				}
			case *ssa.Panic:
				v := c.op(i.X)
				cb.term = func(fr *Frame) int {
					val := v.get(fr)
					panic(&targetPanic{v: val, stack: fr.w.stackOf(fr.g)})
				}
			default:
				n := c.instr(i)
				if n != nil {
					cb.ins = append(cb.ins, n)
					cb.poss = append(cb.poss, i.Pos())
				}
			}
		}
	}
	for bi, b := range f.Blocks {
		for si, s := range b.Succs {
			e := edge{to: s.Index}
			// which predecessor edge of s is this?
			k := 0
			for sj := 0; sj < si; sj++ {
				if b.Succs[sj] == s {
					k++
				}
			}
			pi := -1
			for j, p := range s.Preds {
				if p == b {
					if k == 0 {
						pi = j
						break
					}
					k--
				}
			}
			for _, i := range s.Instrs {
				ph, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				e.dst = append(e.dst, c.reg(ph))
				e.src = append(e.src, c.op(ph.Edges[pi]))
			}
			blocks[bi].edges = append(blocks[bi].edges, e)
		}
	}
	for bi := range blocks {
		for ei := range blocks[bi].edges {
			blocks[bi].edges[ei].next = &blocks[blocks[bi].edges[ei].to]
		}
	}
	x.recover = -1
	if f.Recover != nil {
		x.recover = f.Recover.Index
	}
	x.nregs = c.n
	x.blocks = blocks
}

type compiler struct {
	w    *W
	x    *Fn
	regs map[ssa.Value]int
	n    int
}

func (c *compiler) reg(v ssa.Value) int {
	if r, ok := c.regs[v]; ok {
		return r
	}
	r := c.n
	c.regs[v] = r
	c.n++
	return r
}

func (c *compiler) op(v ssa.Value) opnd {
	switch v := v.(type) {
	case nil:
		return opnd{-1, nil}
	case *ssa.Const:
		return opnd{-1, constVal(v)}
	case *ssa.Global:
		c.w.ensureInit(v.Package())
		return opnd{-1, c.w.global(v)}
	case *ssa.Function:
		return opnd{-1, &Closure{fn: c.w.fn(v)}}
	case *ssa.Builtin:
		return opnd{-1, nil}
	}
	return opnd{c.reg(v), nil}
}

func constVal(c *ssa.Const) V {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case b.Info()&types.IsInteger != 0:
			w, signed, ok := intInfo(t)
			if !ok {
				w, signed = 64, true
			}
			_ = signed
			v := constant.ToInt(c.Value)
			if i, exact := constant.Int64Val(v); exact {
				return uint64(i) & mask(w)
			}
			u, _ := constant.Uint64Val(v)
			return u & mask(w)
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			if b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case b.Info()&types.IsComplex != 0:
			re, _ := constant.Float64Val(constant.Real(c.Value))
			im, _ := constant.Float64Val(constant.Imag(c.Value))
			return complex(re, im)
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			i, _ := constant.Int64Val(c.Value)
			return string(rune(i))
		case b.Kind() == types.UnsafePointer:
			return (*V)(nil)
		}
	}
	panic(fmt.Sprintf("constVal: %v %v", c, t))
}

// ---- calling ----

func (w *W) call(g *G, caller *Frame, x *Fn, args []V, env []V) V {
	if x.native != nil {
		fr := caller
		if fr == nil {
			fr = &Frame{w: w, g: g, fn: x}
		}
		return x.native(w, fr, args)
	}
	if !x.compiled {
		w.compile(x)
	}
	x.used = true
	g.depth++
	if g.depth > w.ex.cfg.MaxDepth && w.stackLimit > 0 {
		if g.depth > w.stackLimit {
			w.assert(false, "stack", "unbounded recursion", fmt.Sprintf("call depth over %d in %s", w.stackLimit, x.name))
			w.end("depth")
		}
	} else if g.depth > w.ex.cfg.MaxDepth {
		w.ex.note("call depth limit reached; path dropped (stack overflow not excluded)")
		w.end("depth")
	}
	fr := &Frame{w: w, g: g, fn: x, caller: caller, regs: make([]V, x.nregs)}
	saved := g.fr
	g.fr = fr
	for i, r := range x.params {
		fr.regs[r] = args[i]
	}
	for i, r := range x.free {
		fr.regs[r] = env[i]
	}
	if x.hasDefer {
		fr.runDeferring()
	} else {
		fr.exec(&x.blocks[0])
	}
	g.fr = saved
	g.depth--
	return fr.result
}

// maxLog bounds the memory of a path: the number of writes that can be undone.
const maxLog = 8000000

func (fr *Frame) exec(b *block) {
	w := fr.w
	for {
		w.steps += int64(len(b.ins)) + 1
		if w.steps > w.ex.cfg.MaxSteps || len(w.log) > maxLog {
			w.ex.note("step limit reached; path dropped (termination not shown)")
			w.end("steps")
		}
		for i, f := range b.ins {
			fr.pos = b.poss[i]
			f(fr)
		}
		k := b.term(fr)
		if k < 0 {
			return
		}
		e := &b.edges[k]
		switch len(e.dst) {
		case 0:
		case 1:
			fr.regs[e.dst[0]] = e.src[0].get(fr)
		default:
			var tmp [8]V
			t := tmp[:0]
			for _, s := range e.src {
				t = append(t, s.get(fr))
			}
			for i, d := range e.dst {
				fr.regs[d] = t[i]
			}
		}
		b = e.next
	}
}

func (fr *Frame) runDeferring() {
	g := fr.g
	depth := g.depth
	done := false
	func() {
		defer func() {
			if done {
				return
			}
			r := recover()
			tp, ok := r.(*targetPanic)
			if !ok || tp.fatal {
				panic(r)
			}
			g.fr = fr
			g.depth = depth
			fr.panicking = tp
			fr.runDefers()
		}()
		fr.exec(&fr.fn.blocks[0])
		done = true
	}()
	if !done {
		// recovered
		fr.panicking = nil
		if fr.fn.recover >= 0 {
			fr.exec(&fr.fn.blocks[fr.fn.recover])
		} else {
			fr.result = zeroResults(fr.fn.f.Signature)
		}
	}
}

func zeroResults(sig *types.Signature) V {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return zero(sig.Results().At(0).Type())
	}
	return zero(sig.Results())
}

// runDefers runs the pending deferred calls; while a panic is active it returns only if it was recovered.
func (fr *Frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.runDefer(d)
	}
	if fr.panicking != nil && !fr.recovered {
		panic(fr.panicking)
	}
	if fr.recovered {
		fr.recovered = false
		fr.panicking = nil
	}
}

func (fr *Frame) runDefer(d deferred) {
	g := fr.g
	ok := false
	depth := g.depth
	defer func() {
		if ok {
			return
		}
		r := recover()
		tp, isT := r.(*targetPanic)
		if !isT || tp.fatal {
			panic(r)
		}
		// a new panic replaces the current one
		g.fr = fr
		g.depth = depth
		fr.panicking = tp
		fr.recovered = false
	}()
	if d.bi != nil {
		fr.w.builtin(fr, d.bi, d.args, nil)
	} else {
		fr.w.callClosure(g, fr, &Closure{fn: d.fn, env: d.env}, d.nat, d.args)
	}
	ok = true
}

func (w *W) callClosure(g *G, fr *Frame, c *Closure, nat *Closure, args []V) V {
	if nat != nil {
		return nat.native(w, g, args)
	}
	return w.call(g, fr, c.fn, args, c.env)
}

// callV calls a function value.
func (w *W) callV(g *G, fr *Frame, c *Closure, args []V) V {
	if c == nil {
		w.throw("invalid memory address or nil pointer dereference")
	}
	if c.native != nil {
		return c.native(w, g, args)
	}
	return w.call(g, fr, c.fn, args, c.env)
}

// ---- runtime errors ----

func (w *W) rtErr(msg string) V {
	return Iface{t: w.prog.rtErrType, v: msg}
}
func (w *W) throw(msg string) {
	var st []string
	if w.sc.cur != nil {
		st = w.stackOf(w.sc.cur)
	}
	panic(&targetPanic{v: w.rtErr(msg), stack: st})
}
func (w *W) throwPlain(msg string) {
	panic(&targetPanic{v: Iface{t: w.prog.plainErrType, v: msg}, stack: w.stackOf(w.sc.cur)})
}
func (w *W) mkErr(msg string) V { return Iface{t: w.prog.plainErrType, v: msg} }

func (w *W) panicString(v V) string {
	i, ok := v.(Iface)
	if !ok {
		return w.show(v, 0)
	}
	if i.t == nil {
		return "nil"
	}
	if i.t == w.prog.rtErrType {
		return rtText(fmt.Sprint(i.v))
	}
	if s, ok := concStr(i.v); ok {
		return s
	}
	// error values: *errors.errorString and the like
	if p, ok := i.v.(*V); ok && p != nil {
		if st, ok := (*p).(Struct); ok && len(st) > 0 {
			if s, ok := concStr(st[0]); ok {
				return s
			}
		}
	}
	return w.show(v, 0)
}

func (w *W) stackOf(g *G) []string {
	var out []string
	for fr := g.fr; fr != nil && len(out) < 14; fr = fr.caller {
		s := fr.fn.name
		if fr.pos.IsValid() {
			p := w.prog.prog.Fset.Position(fr.pos)
			s += fmt.Sprintf(" @%s:%d", shortPath(p.Filename), p.Line)
		}
		out = append(out, s)
	}
	return out
}

func shortPath(p string) string {
	if i := strings.LastIndexByte(p, '/'); i >= 0 {
		if j := strings.LastIndexByte(p[:i], '/'); j >= 0 {
			return p[j+1:]
		}
	}
	return p
}

// ---- memory ----

func (w *W) load(p V) V {
	switch p := p.(type) {
	case *V:
		if p == nil {
			w.throw("invalid memory address or nil pointer dereference")
		}
		v := *p
		switch v.(type) {
		case Struct, Array:
			return copyVal(v)
		}
		return v
	case SymPtr:
		return w.symIndex(p.arr, p.idx, p.w)
	case SymElem:
		st := make(Struct, len(p.ws))
		for k := range st {
			c := p.column(k)
			st[k] = w.symIndex(c.arr, c.idx, c.w)
		}
		return st
	case *SlicePtr:
		if len(p.s) == 0 {
			if cap(p.s) > 0 {
				return p.s[:1][0]
			}
			w.throw("invalid memory address or nil pointer dereference")
		}
		return p.s[0]
	}
	w.unsupported(fmt.Sprintf("load through %T", p))
	return nil
}

func (w *W) storeP(p V, v V) {
	switch p := p.(type) {
	case *V:
		if p == nil {
			w.throw("invalid memory address or nil pointer dereference")
		}
		w.store(p, v)
		return
	case SymPtr:
		for i := range p.arr {
			c := w.ts.Eq(p.idx, w.ts.Const(p.idx.w, uint64(i)))
			if c == w.ts.ff {
				continue
			}
			w.set(&p.arr[i], w.ite(c, v, p.arr[i], p.w))
		}
		return
	case *SlicePtr:
		w.set(&p.s[0], v)
		return
	}
	w.unsupported(fmt.Sprintf("store through %T", p))
}

// ite merges two scalar values of the given width.
func (w *W) ite(c *Term, a, b V, wd uint8) V {
	if c == w.ts.tt {
		return a
	}
	if c == w.ts.ff {
		return b
	}
	switch a.(type) {
	case bool, uint64, *Term:
		switch b.(type) {
		case bool, uint64, *Term:
			return simp(w.ts.Ite(c, w.term(a, wd), w.term(b, wd)))
		}
	}
	if w.branch(c) {
		return a
	}
	return b
}

// symIndex reads arr[idx] for a symbolic in-range idx.
func (w *W) symIndex(arr []V, idx *Term, wd uint8) V {
	conc := true
	scalar := true
	isBool := false
	for _, x := range arr {
		switch x := x.(type) {
		case uint64:
		case bool:
			isBool = true
		case *Term:
			conc = false
			if x.w == 0 {
				isBool = true
			}
		default:
			scalar = false
		}
	}
	if !scalar {
		i := w.concretize(idx)
		return copyVal(arr[i])
	}
	if isBool {
		tab := make([]uint64, len(arr))
		if conc {
			for i, x := range arr {
				tab[i] = b2u(x.(bool))
			}
			return simp(w.ts.Eq(w.ts.Table(idx, tab, 1), w.ts.Const(1, 1)))
		}
		r := w.boolTerm(arr[len(arr)-1])
		for i := len(arr) - 2; i >= 0; i-- {
			r = w.ts.Ite(w.ts.Eq(idx, w.ts.Const(idx.w, uint64(i))), w.boolTerm(arr[i]), r)
		}
		return simp(r)
	}
	if conc {
		tab := make([]uint64, len(arr))
		for i, x := range arr {
			tab[i] = x.(uint64)
		}
		return simp(w.ts.Table(idx, tab, wd))
	}
	hi := len(arr) - 1
	if uint64(hi) > idx.hi {
		hi = int(idx.hi)
	}
	r := w.term(arr[hi], wd)
	for i := hi - 1; i >= int(idx.lo); i-- {
		r = w.ts.Ite(w.ts.Eq(idx, w.ts.Const(idx.w, uint64(i))), w.term(arr[i], wd), r)
	}
	return simp(r)
}

// index checks bounds and returns a concrete index, or a term if symbolic.
func (w *W) index(iv V, it types.Type, n int) (int, *Term) {
	switch x := iv.(type) {
	case uint64:
		wd, signed, _ := intInfo(it)
		i := int64(x)
		if signed {
			i = sext(x, wd)
		}
		if i < 0 || i >= int64(n) {
			w.throw(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	case *Term:
		t := x
		_, signed, _ := intInfo(it)
		if t.w < 64 {
			if signed {
				t = w.ts.SExt(t, 64)
			} else {
				t = w.ts.ZExt(t, 64)
			}
		}
		if !w.branch(simp(w.ts.Ult(t, w.ts.Const(64, uint64(n))))) {
			w.throw(fmt.Sprintf("index out of range [?] with length %d", n))
		}
		if n == 1 {
			return 0, nil
		}
		if t.op == OConst {
			return int(t.k), nil
		}
		return 0, t
	}
	panic(fmt.Sprintf("index %T", iv))
}

// toInt returns the concrete signed value of an integer value.
func (w *W) toInt(v V, t types.Type) int64 {
	u := w.concretize(v)
	wd, signed, ok := intInfo(t)
	if !ok {
		return int64(u)
	}
	if signed {
		return sext(u, wd)
	}
	return int64(u)
}

func bitsOf(t types.Type) uint8 {
	wd, _, ok := intInfo(t)
	if !ok {
		return 64
	}
	return wd
}

var _ = math.Pi

func hostStackTop() string {
	l := strings.Split(hostStack(), "\n")
	if len(l) > 40 {
		l = l[:40]
	}
	return strings.Join(l, "\n")
}
