package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (c *compiler) instr(i ssa.Instruction) ins {
	w := c.w
	_ = w
	var dst int
	if v, ok := i.(ssa.Value); ok {
		dst = c.reg(v)
	}
	switch i := i.(type) {
	case *ssa.Alloc:
		t := i.Type().Underlying().(*types.Pointer).Elem()
		switch t.Underlying().(type) {
		case *types.Struct, *types.Array:
			return func(fr *Frame) {
				p := new(V)
				*p = zero(t)
				fr.regs[dst] = p
			}
		}
		z := zero(t)
		return func(fr *Frame) {
			p := new(V)
			*p = z
			fr.regs[dst] = p
		}
	case *ssa.BinOp:
		x, y := c.op(i.X), c.op(i.Y)
		op := i.Op
		xt, yt := i.X.Type(), i.Y.Type()
		if wd, signed, ok := intInfo(xt); ok {
			m := mask(wd)
			switch op {
			case token.ADD:
				return func(fr *Frame) {
					a, b := x.get(fr), y.get(fr)
					if ua, ok := a.(uint64); ok {
						if ub, ok := b.(uint64); ok {
							fr.regs[dst] = (ua + ub) & m
							return
						}
					}
					fr.regs[dst] = fr.w.binop(op, a, b, xt, yt)
				}
			case token.EQL:
				return func(fr *Frame) {
					a, b := x.get(fr), y.get(fr)
					if ua, ok := a.(uint64); ok {
						if ub, ok := b.(uint64); ok {
							fr.regs[dst] = ua == ub
							return
						}
					}
					fr.regs[dst] = fr.w.binop(op, a, b, xt, yt)
				}
			case token.LSS:
				return func(fr *Frame) {
					a, b := x.get(fr), y.get(fr)
					if ua, ok := a.(uint64); ok {
						if ub, ok := b.(uint64); ok {
							if signed {
								fr.regs[dst] = sext(ua, wd) < sext(ub, wd)
							} else {
								fr.regs[dst] = ua < ub
							}
							return
						}
					}
					fr.regs[dst] = fr.w.binop(op, a, b, xt, yt)
				}
			}
		}
		return func(fr *Frame) {
			fr.regs[dst] = fr.w.binop(op, x.get(fr), y.get(fr), xt, yt)
		}
	case *ssa.UnOp:
		x := c.op(i.X)
		t := i.X.Type()
		switch i.Op {
		case token.MUL:
			glob, isG := i.X.(*ssa.Global)
			if isG && glob.Name() == "init$guard" {
				return func(fr *Frame) { fr.regs[dst] = false }
			}
			return func(fr *Frame) {
				p := x.get(fr)
				if q, ok := p.(*V); ok && q != nil {
					if fr.w.race != nil {
						fr.w.raceRead(fr, q)
					}
					switch v := (*q).(type) {
					case Struct, Array:
						fr.regs[dst] = copyVal(v)
					default:
						fr.regs[dst] = v
					}
					return
				}
				fr.regs[dst] = fr.w.load(p)
			}
		case token.ARROW:
			elem := t.Underlying().(*types.Chan).Elem()
			commaOk := i.CommaOk
			return func(fr *Frame) {
				v, ok := fr.w.chanRecv(fr.g, x.get(fr).(*Chan), elem)
				if commaOk {
					fr.regs[dst] = Tuple{v, ok}
				} else {
					fr.regs[dst] = v
				}
			}
		}
		op := i.Op
		return func(fr *Frame) { fr.regs[dst] = fr.w.unop(op, x.get(fr), t) }
	case *ssa.Call:
		call := c.call(&i.Call)
		return func(fr *Frame) { fr.regs[dst] = call(fr) }
	case *ssa.ChangeInterface:
		x := c.op(i.X)
		return func(fr *Frame) { fr.regs[dst] = x.get(fr) }
	case *ssa.ChangeType:
		x := c.op(i.X)
		return func(fr *Frame) { fr.regs[dst] = x.get(fr) }
	case *ssa.Convert:
		x := c.op(i.X)
		from, to := i.X.Type(), i.Type()
		return func(fr *Frame) { fr.regs[dst] = fr.w.convert(fr, x.get(fr), from, to) }
	case *ssa.MultiConvert:
		x := c.op(i.X)
		from, to := i.X.Type(), i.Type()
		return func(fr *Frame) { fr.regs[dst] = fr.w.convert(fr, x.get(fr), from, to) }
	case *ssa.SliceToArrayPointer:
		x := c.op(i.X)
		n := int(i.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(fr *Frame) {
			s := x.get(fr).(Slice)
			if len(s) < n {
				fr.w.throw(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", len(s), n))
			}
			p := new(V)
			*p = Array(s[:n:n])
			fr.regs[dst] = p
		}
	case *ssa.Defer:
		return c.deferInstr(i)
	case *ssa.Go:
		return c.goInstr(i)
	case *ssa.Extract:
		x := c.op(i.Tuple)
		k := i.Index
		return func(fr *Frame) { fr.regs[dst] = x.get(fr).(Tuple)[k] }
	case *ssa.Field:
		x := c.op(i.X)
		k := i.Field
		return func(fr *Frame) { fr.regs[dst] = copyVal(x.get(fr).(Struct)[k]) }
	case *ssa.FieldAddr:
		x := c.op(i.X)
		k := i.Field
		return func(fr *Frame) {
			p, ok := x.get(fr).(*V)
			if !ok {
				fr.regs[dst] = fr.w.fieldAddrOdd(x.get(fr), k)
				return
			}
			if p == nil {
				fr.w.throw("invalid memory address or nil pointer dereference")
			}
			st, ok := (*p).(Struct)
			if !ok {
				fr.w.unsupported(fmt.Sprintf("field address of %T", *p))
			}
			fr.regs[dst] = &st[k]
		}
	case *ssa.Index:
		x, ix := c.op(i.X), c.op(i.Index)
		it := i.Index.Type()
		xt := i.X.Type()
		wd := scalarWidth(elemOf(xt))
		return func(fr *Frame) {
			v := x.get(fr)
			switch v := v.(type) {
			case Array:
				k, t := fr.w.index(ix.get(fr), it, len(v))
				if t != nil {
					fr.regs[dst] = fr.w.symIndex(v, t, wd)
				} else {
					fr.regs[dst] = copyVal(v[k])
				}
			default:
				fr.regs[dst] = fr.w.strIndex(v, ix.get(fr), it)
			}
		}
	case *ssa.IndexAddr:
		x, ix := c.op(i.X), c.op(i.Index)
		it := i.Index.Type()
		wd := scalarWidth(elemOf(i.X.Type()))
		var ws []uint8
		if wd == noWidth && readOnlyElem(i) {
			ws = scalarFields(elemOf(i.X.Type()))
		}
		return func(fr *Frame) {
			var arr []V
			switch v := x.get(fr).(type) {
			case Slice:
				arr = v
			case *V:
				if v == nil {
					fr.w.throw("invalid memory address or nil pointer dereference")
				}
				switch a := (*v).(type) {
				case Array:
					arr = a
				case Slice:
					arr = a
				default:
					fr.w.unsupported(fmt.Sprintf("index address of %T", *v))
				}
			case *SlicePtr:
				arr = v.s[:cap(v.s)]
			default:
				fr.w.unsupported(fmt.Sprintf("index address of %T", v))
			}
			iv := ix.get(fr)
			if u, ok := iv.(uint64); ok && u < uint64(len(arr)) {
				fr.regs[dst] = &arr[u]
				return
			}
			k, t := fr.w.index(iv, it, len(arr))
			if t != nil {
				if wd == noWidth && ws != nil {
					fr.regs[dst] = SymElem{arr, t, ws}
					return
				} else if wd == noWidth {
					k = int(fr.w.concretize(t))
				} else {
					fr.regs[dst] = SymPtr{arr, t, wd}
					return
				}
			}
			fr.regs[dst] = &arr[k]
		}
	case *ssa.Lookup:
		x, ix := c.op(i.X), c.op(i.Index)
		commaOk := i.CommaOk
		it := i.Index.Type()
		mt, isMap := i.X.Type().Underlying().(*types.Map)
		return func(fr *Frame) {
			if !isMap {
				fr.regs[dst] = fr.w.strIndex(x.get(fr), ix.get(fr), it)
				return
			}
			m := x.get(fr).(*Map)
			k := ix.get(fr)
			if fr.w.race != nil && m != nil {
				fr.w.raceReadM(fr, m)
			}
			fr.w.checkHashable(k)
			e := fr.w.mapFind(m, k)
			var v V
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = zero(mt.Elem())
			}
			if commaOk {
				fr.regs[dst] = Tuple{v, e != nil}
			} else {
				fr.regs[dst] = v
			}
		}
	case *ssa.MakeChan:
		x := c.op(i.Size)
		st := i.Size.Type()
		return func(fr *Frame) {
			n := fr.w.toInt(x.get(fr), st)
			if n < 0 || n > 1<<20 {
				fr.w.throwPlain("makechan: size out of range")
			}
			fr.regs[dst] = fr.w.newChan(int(n))
		}
	case *ssa.MakeClosure:
		fn := fnOf(c.w, i.Fn.(*ssa.Function))
		var ops []opnd
		for _, b := range i.Bindings {
			ops = append(ops, c.op(b))
		}
		return func(fr *Frame) {
			env := make([]V, len(ops))
			for k, o := range ops {
				env[k] = o.get(fr)
			}
			fr.regs[dst] = &Closure{fn: fn, env: env}
		}
	case *ssa.MakeInterface:
		x := c.op(i.X)
		t := i.X.Type()
		return func(fr *Frame) { fr.regs[dst] = Iface{t, copyVal(x.get(fr))} }
	case *ssa.MakeMap:
		var n opnd
		has := i.Reserve != nil
		var nt types.Type
		if has {
			n = c.op(i.Reserve)
			nt = i.Reserve.Type()
		}
		mt := i.Type().Underlying().(*types.Map)
		esz := sizeof(mt.Key()) + sizeof(mt.Elem())
		return func(fr *Frame) {
			if has {
				fr.w.checkAlloc(fr, n.get(fr), nt, esz, "map")
			}
			fr.regs[dst] = newMap()
		}
	case *ssa.MakeSlice:
		l, cp := c.op(i.Len), c.op(i.Cap)
		lt, ct := i.Len.Type(), i.Cap.Type()
		same := i.Len == i.Cap
		et := i.Type().Underlying().(*types.Slice).Elem()
		esz := sizeof(et)
		return func(fr *Frame) {
			n := fr.w.makeLen(fr, l.get(fr), lt, esz, "len")
			m := n
			if !same {
				m = fr.w.makeLen(fr, cp.get(fr), ct, esz, "cap")
				if n > m {
					fr.w.throw("makeslice: cap out of range")
				}
			}
			fr.regs[dst] = makeSlice(et, n, m)
		}
	case *ssa.MapUpdate:
		m, k, v := c.op(i.Map), c.op(i.Key), c.op(i.Value)
		return func(fr *Frame) {
			mp := m.get(fr).(*Map)
			if mp == nil {
				fr.w.throwPlain("assignment to entry in nil map")
			}
			if fr.w.race != nil {
				fr.w.raceWriteM(fr, mp)
			}
			kv := k.get(fr)
			fr.w.checkHashable(kv)
			fr.w.mapSet(mp, copyVal(kv), copyVal(v.get(fr)))
		}
	case *ssa.Next:
		it := c.op(i.Iter)
		isStr := i.IsString
		tt := i.Type().(*types.Tuple)
		return func(fr *Frame) {
			if isStr {
				fr.regs[dst] = fr.w.strNext(fr, it.get(fr).(*StrIter))
				return
			}
			x := it.get(fr).(*MapIter)
			for x.pos < len(x.ents) {
				e := x.ents[x.pos]
				x.pos++
				if !e.dead {
					fr.regs[dst] = Tuple{true, copyVal(e.k), copyVal(e.v)}
					return
				}
			}
			var k, v V
			if !isInvalid(tt.At(1).Type()) {
				k = zero(tt.At(1).Type())
			}
			if !isInvalid(tt.At(2).Type()) {
				v = zero(tt.At(2).Type())
			}
			fr.regs[dst] = Tuple{false, k, v}
		}
	case *ssa.Range:
		x := c.op(i.X)
		return func(fr *Frame) {
			switch v := x.get(fr).(type) {
			case *Map:
				it := &MapIter{m: v}
				if v != nil {
					if fr.w.race != nil {
						fr.w.raceReadM(fr, v)
					}
					it.ents = fr.w.mapOrder(fr, v)
				}
				fr.regs[dst] = it
			default:
				fr.regs[dst] = &StrIter{s: v}
			}
		}
	case *ssa.RunDefers:
		return func(fr *Frame) { fr.runDefers() }
	case *ssa.Select:
		return c.selectInstr(i, dst)
	case *ssa.Send:
		ch, x := c.op(i.Chan), c.op(i.X)
		return func(fr *Frame) { fr.w.chanSend(fr.g, ch.get(fr).(*Chan), copyVal(x.get(fr))) }
	case *ssa.Slice:
		x := c.op(i.X)
		var lo, hi, mx opnd
		hl, hh, hm := i.Low != nil, i.High != nil, i.Max != nil
		var lt, ht, mt types.Type
		if hl {
			lo = c.op(i.Low)
			lt = i.Low.Type()
		}
		if hh {
			hi = c.op(i.High)
			ht = i.High.Type()
		}
		if hm {
			mx = c.op(i.Max)
			mt = i.Max.Type()
		}
		return func(fr *Frame) {
			w := fr.w
			l, h, m := int64(0), int64(-1), int64(-1)
			if hl {
				l = w.sliceIdx(lo.get(fr), lt)
			}
			if hh {
				h = w.sliceIdx(hi.get(fr), ht)
			}
			if hm {
				m = w.sliceIdx(mx.get(fr), mt)
			}
			fr.regs[dst] = w.slice(x.get(fr), l, h, m, hl, hh, hm)
		}
	case *ssa.Store:
		a, v := c.op(i.Addr), c.op(i.Val)
		return func(fr *Frame) {
			p := a.get(fr)
			val := v.get(fr)
			if q, ok := p.(*V); ok && q != nil {
				if fr.w.race != nil {
					fr.w.raceWrite(fr, q)
				}
				switch val.(type) {
				case Struct, Array:
					fr.w.store(q, val)
				default:
					fr.w.set(q, val)
				}
				return
			}
			fr.w.storeP(p, val)
		}
	case *ssa.TypeAssert:
		x := c.op(i.X)
		t := i.AssertedType
		commaOk := i.CommaOk
		xname := typeString(i.X.Type())
		if xname == "" {
			xname = "interface {}"
		}
		_, isI := t.Underlying().(*types.Interface)
		return func(fr *Frame) {
			v := x.get(fr).(Iface)
			ok := false
			if v.t != nil {
				if isI {
					ok = fr.w.implements(v, t.Underlying().(*types.Interface))
				} else {
					ok = fr.w.sameType(v.t, t)
				}
			}
			var r V
			if ok {
				if isI {
					r = v
				} else {
					r = copyVal(v.v)
				}
			} else {
				if !commaOk {
					if v.t == nil {
						fr.w.throw("interface conversion: " + xname + " is nil, not " + typeString(t))
					}
					if isI {
						fr.w.throw("interface conversion: " + typeString(v.t) + " is not " + typeString(t) + ": missing method")
					}
					fr.w.throw("interface conversion: " + xname + " is " + typeString(v.t) + ", not " + typeString(t))
				}
				r = zero(t)
			}
			if commaOk {
				fr.regs[dst] = Tuple{r, ok}
			} else {
				fr.regs[dst] = r
			}
		}
	}
	panic(fmt.Sprintf("instr: %T", i))
}

func isInvalid(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.Invalid
}

const noWidth = 255

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemOf(u.Elem())
	case *types.Basic:
		return types.Typ[types.Uint8]
	}
	return types.Typ[types.Invalid]
}

func scalarWidth(t types.Type) uint8 {
	if wd, _, ok := intInfo(t); ok {
		return wd
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		return 0
	}
	return noWidth
}

// scalarFields returns the widths of the fields of a struct made of scalars.
func scalarFields(t types.Type) []uint8 {
	st, ok := t.Underlying().(*types.Struct)
	if !ok || st.NumFields() == 0 {
		return nil
	}
	var ws []uint8
	for i := 0; i < st.NumFields(); i++ {
		wd := scalarWidth(st.Field(i).Type())
		if wd == noWidth {
			return nil
		}
		ws = append(ws, wd)
	}
	return ws
}

func onlyLoaded(v ssa.Value, fields bool) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return false
			}
		case *ssa.FieldAddr:
			if !fields || !onlyLoaded(r, false) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// readOnlyElem reports whether the element addressed is only ever read.
func readOnlyElem(i *ssa.IndexAddr) bool { return onlyLoaded(i, true) }

func fnOf(w *W, f *ssa.Function) *Fn { return w.fn(f) }

var stdSizes = types.SizesFor("gc", "amd64")

func sizeof(t types.Type) int64 {
	defer func() { recover() }()
	return stdSizes.Sizeof(t)
}

func makeSlice(et types.Type, n, m int) Slice {
	s := make(Slice, m)
	if m > 0 {
		z := zero(et)
		switch z.(type) {
		case Struct, Array:
			s[0] = z
			for i := 1; i < m; i++ {
				s[i] = zero(et)
			}
		default:
			for i := range s {
				s[i] = z
			}
		}
	}
	return s[:n]
}

// makeLen resolves the length of a make, checking it against the runtime's and the harness's limits.
func (w *W) makeLen(fr *Frame, v V, t types.Type, esz int64, what string) int {
	w.checkAlloc(fr, v, t, esz, what)
	n := w.toInt(v, t)
	if n < 0 || esz > 0 && n > (1<<47)/esz {
		w.throw("makeslice: " + what + " out of range")
	}
	if n > 1<<22 {
		w.ex.note(fmt.Sprintf("allocation of %d elements not simulated; path dropped", n))
		w.end("hugealloc")
	}
	return int(n)
}

// checkAlloc asserts that an allocation of v elements of esz bytes stays within the harness's limit.
func (w *W) checkAlloc(fr *Frame, v V, t types.Type, esz int64, what string) {
	if w.allocLimit <= 0 || w.inInit > 0 {
		return
	}
	if esz <= 0 {
		esz = 1
	}
	lim := uint64(w.allocLimit / esz)
	wd := bitsOf(t)
	label := "allocation"
	where := w.where(fr.g)
	switch x := v.(type) {
	case uint64:
		s := sext(x, wd)
		if s > 0 && uint64(s) > lim {
			w.assert(false, "alloc", label+" in "+siteOf(where), fmt.Sprintf("%d elements of %d bytes requested (limit %d bytes) at %s", s, esz, w.allocLimit, where))
		}
	case *Term:
		// negative sizes are caught separately (panic)
		c := w.ts.Or(w.ts.Slt(x, w.ts.Const(x.w, 0)), w.ts.Ule(x, w.ts.Const(x.w, lim)))
		if x.w < 64 && lim > mask(x.w) {
			return
		}
		w.assert(simp(c), "alloc", label+" in "+siteOf(where), fmt.Sprintf("size not bounded (limit %d bytes) at %s", w.allocLimit, where))
	}
}

func siteOf(s string) string {
	for i := 0; i < len(s); i++ {
		if s[i] == ' ' {
			return s[:i]
		}
	}
	return s
}

func (w *W) sliceIdx(v V, t types.Type) int64 {
	if x, ok := v.(*Term); ok {
		return w.toInt(x, t)
	}
	u := v.(uint64)
	wd, signed, _ := intInfo(t)
	if signed {
		return sext(u, wd)
	}
	return int64(u)
}

func (w *W) slice(x V, l, h, m int64, hl, hh, hm bool) V {
	switch s := x.(type) {
	case string, *SymStr:
		n := int64(strLen(s))
		if !hh {
			h = n
		}
		if h < 0 || h > n {
			w.throw(fmt.Sprintf("slice bounds out of range [:%d] with length %d", h, n))
		}
		if l < 0 || l > h {
			w.throw(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
		}
		return strSlice(s, int(l), int(h))
	case Slice:
		return w.sliceArr(s, l, h, m, hh, hm)
	case *V:
		if s == nil {
			w.throw("invalid memory address or nil pointer dereference")
		}
		switch a := (*s).(type) {
		case Array:
			return w.sliceArr(Slice(a[:len(a):len(a)]), l, h, m, hh, hm)
		}
		w.unsupported(fmt.Sprintf("slice of pointer to %T", *s))
	case *SlicePtr:
		full := s.s[:cap(s.s)]
		return w.sliceArr(full, l, h, m, hh, hm)
	}
	w.unsupported(fmt.Sprintf("slice of %T", x))
	return nil
}

func (w *W) sliceArr(s Slice, l, h, m int64, hh, hm bool) V {
	c := int64(cap(s))
	if !hh {
		h = int64(len(s))
	}
	if !hm {
		m = c
	}
	if m < 0 || m > c {
		w.throw(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", m, c))
	}
	if h < 0 || h > m {
		w.throw(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", h, c))
	}
	if l < 0 || l > h {
		w.throw(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
	}
	if s == nil {
		return s
	}
	return s[l:h:m]
}

func (w *W) strIndex(s V, iv V, it types.Type) V {
	n := strLen(s)
	k, t := w.index(iv, it, n)
	if t == nil {
		return strByte(s, k)
	}
	return w.symIndex(strBytes(s), t, 8)
}

func (w *W) fieldAddrOdd(p V, k int) V {
	if e, ok := p.(SymElem); ok {
		return e.column(k)
	}
	w.unsupported(fmt.Sprintf("field address through %T", p))
	return nil
}

func (w *W) checkHashable(k V) {
	if i, ok := k.(Iface); ok && i.t != nil {
		if _, isR := i.v.(RType); isR {
			return
		}
		if !types.Comparable(i.t) {
			w.throw("hash of unhashable type " + i.t.String())
		}
	}
}

// mapOrder returns the iteration order of a map. Insertion order stands for the unspecified order,
// unless the harness asks for every order.
func (w *W) mapOrder(fr *Frame, m *Map) []*mapEnt {
	var live []*mapEnt
	for _, e := range m.ents {
		if !e.dead {
			live = append(live, e)
		}
	}
	if fr.fn.target && len(live) > 1 && len(live) <= 4 && w.side["maporder"] != nil && w.inInit == 0 {
		var out []*mapEnt
		for len(live) > 0 {
			k := w.choose(len(live), "maporder")
			out = append(out, live[k])
			live = append(append([]*mapEnt(nil), live[:k]...), live[k+1:]...)
		}
		return out
	}
	return live
}

func (w *W) implements(v Iface, it *types.Interface) bool {
	if it.NumMethods() == 0 {
		return true
	}
	key := implKey{w.typeID(v.t), w.typeID(it)}
	if r, ok := w.impl[key]; ok {
		return r
	}
	r := types.Implements(v.t, it)
	w.impl[key] = r
	return r
}

type implKey struct{ a, b int }

// ---- calls ----

func (c *compiler) call(cc *ssa.CallCommon) func(fr *Frame) V {
	var args []opnd
	for _, a := range cc.Args {
		args = append(args, c.op(a))
	}
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		m := cc.Method
		return func(fr *Frame) V {
			av := make([]V, len(args)+1)
			for i, a := range args {
				av[i+1] = copyVal(a.get(fr))
			}
			return fr.w.invoke(fr, recv.get(fr).(Iface), m, av)
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		var ts []types.Type
		for _, a := range cc.Args {
			ts = append(ts, a.Type())
		}
		return func(fr *Frame) V {
			av := make([]V, len(args))
			for i, a := range args {
				av[i] = a.get(fr)
			}
			return fr.w.builtin(fr, b, av, ts)
		}
	}
	if f, ok := cc.Value.(*ssa.Function); ok {
		fn := c.w.fn(f)
		return func(fr *Frame) V {
			av := make([]V, len(args))
			for i, a := range args {
				v := a.get(fr)
				switch v.(type) {
				case Struct, Array:
					v = copyVal(v)
				}
				av[i] = v
			}
			return fr.w.call(fr.g, fr, fn, av, nil)
		}
	}
	fv := c.op(cc.Value)
	return func(fr *Frame) V {
		av := make([]V, len(args))
		for i, a := range args {
			av[i] = copyVal(a.get(fr))
		}
		return fr.w.callV(fr.g, fr, fr.w.asClosure(fv.get(fr)), av)
	}
}

func (w *W) asClosure(v V) *Closure {
	c, ok := v.(*Closure)
	if !ok {
		w.unsupported(fmt.Sprintf("call of %T", v))
	}
	return c
}

// invoke calls interface method m on recv; args[0] is a slot for the receiver.
func (w *W) invoke(fr *Frame, recv Iface, m *types.Func, args []V) V {
	if recv.t == nil {
		w.throw("invalid memory address or nil pointer dereference")
	}
	if rt, ok := recv.v.(RType); ok {
		return w.rtypeMethod(fr, rt, m.Name(), args[1:])
	}
	if recv.t == w.prog.rtErrType || recv.t == w.prog.plainErrType {
		switch m.Name() {
		case "Error":
			s := recv.v.(string)
			if recv.t == w.prog.rtErrType {
				s = rtText(s)
			}
			return s
		case "RuntimeError":
			return nil
		}
	}
	fn := w.method(recv.t, m)
	if fn == nil {
		w.unsupported("no method " + m.Name() + " on " + recv.t.String())
	}
	args[0] = copyVal(recv.v)
	return w.call(fr.g, fr, fn, args, nil)
}

func (w *W) method(t types.Type, m *types.Func) *Fn {
	key := methKey{tid: w.typeID(t), name: m.Name()}
	if !m.Exported() {
		key.pkg = m.Pkg()
	}
	if f, ok := w.meth[key]; ok {
		return f
	}
	f := w.prog.prog.LookupMethod(t, m.Pkg(), m.Name())
	var x *Fn
	if f != nil {
		x = w.fn(f)
	}
	w.meth[key] = x
	return x
}

func (c *compiler) deferInstr(i *ssa.Defer) ins {
	cc := &i.Call
	var args []opnd
	var ts []types.Type
	for _, a := range cc.Args {
		args = append(args, c.op(a))
		ts = append(ts, a.Type())
	}
	get := func(fr *Frame, extra int) []V {
		av := make([]V, len(args)+extra)
		for i, a := range args {
			av[i+extra] = copyVal(a.get(fr))
		}
		return av
	}
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		m := cc.Method
		return func(fr *Frame) {
			r := recv.get(fr).(Iface)
			av := get(fr, 1)
			if r.t == nil {
				fr.w.throw("invalid memory address or nil pointer dereference")
			}
			cl := &Closure{native: func(w *W, g *G, args []V) V { return w.invoke(fr, r, m, av) }}
			fr.defers = append(fr.defers, deferred{nat: cl})
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return func(fr *Frame) {
			av := get(fr, 0)
			fr.defers = append(fr.defers, deferred{nat: &Closure{native: func(w *W, g *G, _ []V) V { return w.builtin(fr, b, av, ts) }}})
		}
	}
	fv := c.op(cc.Value)
	return func(fr *Frame) {
		cl := fr.w.asClosure(fv.get(fr))
		av := get(fr, 0)
		if cl == nil {
			fr.defers = append(fr.defers, deferred{nat: &Closure{native: func(w *W, g *G, _ []V) V {
				w.throw("invalid memory address or nil pointer dereference")
				return nil
			}}})
			return
		}
		if cl.native != nil {
			fr.defers = append(fr.defers, deferred{nat: cl, args: av})
			return
		}
		fr.defers = append(fr.defers, deferred{fn: cl.fn, env: cl.env, args: av})
	}
}

func (c *compiler) goInstr(i *ssa.Go) ins {
	cc := &i.Call
	var args []opnd
	var ts []types.Type
	for _, a := range cc.Args {
		args = append(args, c.op(a))
		ts = append(ts, a.Type())
	}
	var fv opnd
	b, isB := cc.Value.(*ssa.Builtin)
	if !isB {
		fv = c.op(cc.Value)
	}
	m := cc.Method
	inv := cc.IsInvoke()
	site := "go"
	if f, ok := cc.Value.(*ssa.Function); ok {
		site = f.Name()
	} else if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		site = mc.Fn.Name()
	}
	if p := c.w.prog.prog.Fset.Position(i.Pos()); p.IsValid() {
		site += fmt.Sprintf("@%s:%d", shortPath(p.Filename), p.Line)
	}
	return func(fr *Frame) {
		w := fr.w
		if w.inInit > 0 {
			w.ex.note("goroutine started in package init ignored: " + site)
			return
		}
		av := make([]V, len(args))
		for i, a := range args {
			av[i] = copyVal(a.get(fr))
		}
		var body func(g *G)
		switch {
		case isB:
			body = func(g *G) { w.builtin(&Frame{w: w, g: g, fn: fr.fn}, b, av, ts) }
		case inv:
			r := fv.get(fr).(Iface)
			if r.t == nil {
				w.throw("invalid memory address or nil pointer dereference")
			}
			body = func(g *G) {
				w.invoke(&Frame{w: w, g: g, fn: fr.fn}, r, m, append([]V{nil}, av...))
			}
		default:
			cl := w.asClosure(fv.get(fr))
			if cl == nil {
				w.fatal("go of nil func value")
			}
			body = func(g *G) { w.callV(g, nil, cl, av) }
		}
		w.spawn(fr.g, site, body)
		w.yield(fr.g, "go")
	}
}

func (c *compiler) selectInstr(i *ssa.Select, dst int) ins {
	type st struct {
		ch, v opnd
		send  bool
		elem  types.Type
	}
	var sts []st
	for _, s := range i.States {
		x := st{ch: c.op(s.Chan), send: s.Dir == types.SendOnly, elem: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if x.send {
			x.v = c.op(s.Send)
		}
		sts = append(sts, x)
	}
	blocking := i.Blocking
	return func(fr *Frame) {
		cases := make([]selCase, len(sts))
		for k, s := range sts {
			cases[k] = selCase{c: s.ch.get(fr).(*Chan), send: s.send, elem: s.elem}
			if s.send {
				cases[k].v = copyVal(s.v.get(fr))
			}
		}
		idx, v, ok := fr.w.selectOp(fr.g, cases, blocking)
		r := Tuple{uint64(int64(idx)), ok}
		for k, s := range sts {
			if s.send {
				continue
			}
			if k == idx {
				r = append(r, v)
			} else {
				r = append(r, zero(s.elem))
			}
		}
		fr.regs[dst] = r
	}
}

func (w *W) builtin(fr *Frame, b *ssa.Builtin, args []V, ts []types.Type) V {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			return uint64(strLen(x))
		case Slice:
			return uint64(len(x))
		case Array:
			return uint64(len(x))
		case *Map:
			if x == nil {
				return uint64(0)
			}
			if w.race != nil {
				w.raceReadM(fr, x)
			}
			return uint64(x.n)
		case *Chan:
			if x == nil {
				return uint64(0)
			}
			w.yield(fr.g, "len")
			return uint64(len(x.buf))
		case *V:
			return uint64(len((*x).(Array)))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return uint64(cap(x))
		case Array:
			return uint64(len(x))
		case *Chan:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.cap)
		case *V:
			return uint64(len((*x).(Array)))
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s := args[0].(Slice)
		var add []V
		switch y := args[1].(type) {
		case Slice:
			add = y
		case string, *SymStr:
			add = strBytes(y)
		default:
			w.unsupported(fmt.Sprintf("append of %T", y))
		}
		var et types.Type
		if ts != nil {
			et = elemOf(ts[0])
		}
		return w.appendSlice(s, add, et)
	case "copy":
		d := args[0].(Slice)
		var src []V
		switch y := args[1].(type) {
		case Slice:
			src = y
		default:
			src = strBytes(y)
		}
		n := min(len(d), len(src))
		w.copySlice(d[:n], src[:n])
		return uint64(n)
	case "close":
		w.chanClose(fr.g, args[0].(*Chan))
		return nil
	case "delete":
		m := args[0].(*Map)
		if m != nil && w.race != nil {
			w.raceWriteM(fr, m)
		}
		w.mapDelete(m, args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x == nil {
				return nil
			}
			for _, e := range append([]*mapEnt(nil), x.ents...) {
				if !e.dead {
					w.mapDelete(x, e.k)
				}
			}
		case Slice:
			et := elemOf(ts[0])
			for i := range x {
				w.store(&x[i], zero(et))
			}
		}
		return nil
	case "panic":
		panic(&targetPanic{v: args[0], stack: w.stackOf(fr.g)})
	case "recover":
		c := fr.caller
		if c != nil && c.panicking != nil && !c.recovered {
			c.recovered = true
			return c.panicking.v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, x := range args[1:] {
			op := lessOp
			lt := w.binop(op, x, r, ts[0], ts[0])
			if b.Name() == "max" {
				lt = w.binop(op, r, x, ts[0], ts[0])
			}
			switch l := lt.(type) {
			case bool:
				if l {
					r = x
				}
			case *Term:
				r = w.ite(l, x, r, scalarWidth(ts[0]))
			}
		}
		return r
	case "Sizeof":
		return uint64(types.SizesFor("gc", "amd64").Sizeof(ts[0]))
	case "Alignof":
		return uint64(types.SizesFor("gc", "amd64").Alignof(ts[0]))
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*V); ok && p == nil {
			w.throw("invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "ssa:deferstack":
		return nil
	case "real":
		re, _ := complexParts(args[0])
		return re
	case "imag":
		_, im := complexParts(args[0])
		return im
	case "complex":
		return mkComplex(args[0], args[1])
	case "String": // unsafe.String
		n := int(w.concretize(args[1]))
		if n == 0 {
			return ""
		}
		switch p := args[0].(type) {
		case *SlicePtr:
			return mkStr(p.s[:n])
		}
		w.unsupported(fmt.Sprintf("unsafe.String of %T", args[0]))
	case "StringData":
		return &SlicePtr{Slice(strBytes(args[0]))}
	case "SliceData":
		return &SlicePtr{args[0].(Slice)}
	case "Slice":
		n := int(w.concretize(args[1]))
		switch p := args[0].(type) {
		case *SlicePtr:
			return p.s[:n:n]
		case *V:
			if p == nil {
				return Slice(nil)
			}
		}
		w.unsupported(fmt.Sprintf("unsafe.Slice of %T", args[0]))
	case "Add":
		w.unsupported("unsafe.Add")
	}
	w.unsupported(fmt.Sprintf("builtin %s(%T)", b.Name(), args[0]))
	return nil
}

const lessOp = token.LSS

func (w *W) appendSlice(s Slice, add []V, et types.Type) V {
	if et == nil {
		et = types.Typ[types.Uint8]
	}
	if len(add) == 0 {
		return s
	}
	n := len(s) + len(add)
	if n <= cap(s) {
		r := s[:n]
		// copy first: add may alias s
		tmp := make([]V, len(add))
		for i, x := range add {
			tmp[i] = copyVal(x)
		}
		for i, x := range tmp {
			w.set(&r[len(s)+i], x)
		}
		return r
	}
	c := growCap(cap(s), n)
	r := make(Slice, n, c)
	copy(r, s)
	for i, x := range add {
		r[len(s)+i] = copyVal(x)
	}
	// moved struct elements get fresh cells
	for i := range s {
		switch s[i].(type) {
		case Struct, Array:
			r[i] = copyVal(s[i])
		}
	}
	if c > n {
		full := r[:c]
		z := zero(et)
		for i := n; i < c; i++ {
			full[i] = z
			switch z.(type) {
			case Struct, Array:
				full[i] = zero(et)
			}
		}
	}
	return r
}

func growCap(old, need int) int {
	c := old
	if need > 2*old {
		c = need
	} else if old < 256 {
		c = 2 * old
	} else {
		for c < need {
			c += (c + 768) / 4
		}
	}
	if c < need {
		c = need
	}
	// byte-slice size classes, roughly
	for _, k := range []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128} {
		if c <= k {
			return k
		}
	}
	return c
}

func (w *W) copySlice(d, src []V) {
	n := len(d)
	if n == 0 {
		return
	}
	tmp := make([]V, n)
	for i := range tmp {
		tmp[i] = copyVal(src[i])
	}
	for i := range tmp {
		w.store(&d[i], tmp[i])
	}
}

func rtText(s string) string {
	if strings.HasPrefix(s, "interface conversion") {
		return s
	}
	return "runtime error: " + s
}
