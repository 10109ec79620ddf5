package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"
)

func (w *W) binop(op token.Token, a, b V, xt, yt types.Type) V {
	if isPtrV(a) || isPtrV(b) {
		if bt, ok := xt.Underlying().(*types.Basic); ok && bt.Kind() == types.Uintptr {
			if u, ok := b.(uint64); ok && u == 0 && (op == token.XOR || op == token.ADD || op == token.SUB || op == token.OR) {
				return a
			}
			a, b = w.addrOf(a), w.addrOf(b)
		}
	}
	switch op {
	case token.EQL:
		return w.eqT(a, b)
	case token.NEQ:
		return w.not(w.eqT(a, b))
	}
	// strings
	switch a.(type) {
	case string, *SymStr:
		switch op {
		case token.ADD:
			return strCat(a, b)
		case token.LSS:
			return w.strLess(a, b)
		case token.GTR:
			return w.strLess(b, a)
		case token.LEQ:
			return w.not(w.strLess(b, a))
		case token.GEQ:
			return w.not(w.strLess(a, b))
		}
	}
	if wd, signed, ok := intInfo(xt); ok {
		ua, ok1 := a.(uint64)
		ub, ok2 := b.(uint64)
		if ok1 && ok2 {
			return w.intop(op, ua, ub, wd, signed, yt)
		}
		return w.symop(op, a, b, wd, signed, yt)
	}
	switch x := a.(type) {
	case float64:
		if y, ok := b.(float64); ok {
			var r float64
			switch op {
			case token.ADD:
				r = x + y
			case token.SUB:
				r = x - y
			case token.MUL:
				r = x * y
			case token.QUO:
				r = x / y
			case token.LSS:
				return x < y
			case token.LEQ:
				return x <= y
			case token.GTR:
				return x > y
			case token.GEQ:
				return x >= y
			}
			if isF32(xt) {
				r = float64(float32(r))
			}
			return r
		}
	case complex128:
		y := b.(complex128)
		switch op {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		}
	case bool, *Term:
		switch op {
		case token.AND, token.LAND:
			return simp(w.ts.And(w.boolTerm(a), w.boolTerm(b)))
		case token.OR, token.LOR:
			return simp(w.ts.Or(w.boolTerm(a), w.boolTerm(b)))
		}
	}
	// symbolic floats: only comparisons by concretising
	if isFloat(xt) {
		return w.binop(op, w.concFloat(a, xt), w.concFloat(b, xt), xt, yt)
	}
	w.unsupported(fmt.Sprintf("binop %v on %T,%T", op, a, b))
	return nil
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isF32(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Float32
}

func (w *W) floatBits(v V) *Term {
	switch x := v.(type) {
	case *SymFloat:
		return x.bits
	case float64:
		return w.ts.Const(64, math.Float64bits(x))
	}
	panic("floatBits")
}

func (w *W) concFloat(v V, t types.Type) V {
	if s, ok := v.(*SymFloat); ok {
		u := w.concretize(s.bits)
		if s.bits.w == 32 {
			return float64(math.Float32frombits(uint32(u)))
		}
		return math.Float64frombits(u)
	}
	return v
}

func (w *W) eqT(a, b V) V {
	// pointers of different representations, nil comparisons
	switch x := a.(type) {
	case *V:
		switch y := b.(type) {
		case *V:
			return x == y
		default:
			_ = y
			return false
		}
	case SymPtr:
		return false
	case *Closure:
		if y, ok := b.(*Closure); ok {
			if x == nil || y == nil {
				return x == nil && y == nil
			}
			return x == y
		}
	}
	return w.eq(a, b)
}

func (w *W) not(v V) V {
	switch x := v.(type) {
	case bool:
		return !x
	case *Term:
		return simp(w.ts.Not(x))
	}
	panic("not")
}

func (w *W) strLess(a, b V) V {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x < y
		}
	}
	na, nb := strLen(a), strLen(b)
	n := min(na, nb)
	r := w.ts.Bool(na < nb)
	for i := n - 1; i >= 0; i-- {
		x, y := w.term(strByte(a, i), 8), w.term(strByte(b, i), 8)
		r = w.ts.Or(w.ts.Ult(x, y), w.ts.And(w.ts.Eq(x, y), r))
	}
	return simp(r)
}

func (w *W) intop(op token.Token, a, b uint64, wd uint8, signed bool, yt types.Type) V {
	m := mask(wd)
	switch op {
	case token.ADD:
		return (a + b) & m
	case token.SUB:
		return (a - b) & m
	case token.MUL:
		return (a * b) & m
	case token.QUO, token.REM:
		if b == 0 {
			w.throw("integer divide by zero")
		}
		if signed {
			x, y := sext(a, wd), sext(b, wd)
			if y == -1 {
				if op == token.QUO {
					return uint64(-x) & m
				}
				return uint64(0)
			}
			if op == token.QUO {
				return uint64(x/y) & m
			}
			return uint64(x%y) & m
		}
		if op == token.QUO {
			return a / b
		}
		return a % b
	case token.AND:
		return a & b
	case token.OR:
		return a | b
	case token.XOR:
		return (a ^ b) & m
	case token.AND_NOT:
		return a &^ b
	case token.SHL, token.SHR:
		bw, bs, _ := intInfo(yt)
		if bs && sext(b, bw) < 0 {
			w.throw("negative shift amount")
		}
		if op == token.SHL {
			if b >= 64 {
				return uint64(0)
			}
			return (a << b) & m
		}
		if signed {
			if b > 63 {
				b = 63
			}
			return uint64(sext(a, wd)>>b) & m
		}
		if b >= 64 {
			return uint64(0)
		}
		return a >> b
	case token.LSS:
		if signed {
			return sext(a, wd) < sext(b, wd)
		}
		return a < b
	case token.LEQ:
		if signed {
			return sext(a, wd) <= sext(b, wd)
		}
		return a <= b
	case token.GTR:
		if signed {
			return sext(a, wd) > sext(b, wd)
		}
		return a > b
	case token.GEQ:
		if signed {
			return sext(a, wd) >= sext(b, wd)
		}
		return a >= b
	}
	panic("intop " + op.String())
}

func (w *W) symop(op token.Token, a, b V, wd uint8, signed bool, yt types.Type) V {
	ts := w.ts
	x := w.term(a, wd)
	if op == token.SHL || op == token.SHR {
		bw, bs, _ := intInfo(yt)
		y := w.term(b, bw)
		if bs {
			if w.branch(simp(ts.Slt(y, ts.Const(bw, 0)))) {
				w.throw("negative shift amount")
			}
		}
		if bw > wd {
			big := ts.Ule(ts.Const(bw, uint64(wd)), y)
			y = ts.Ite(big, ts.Const(wd, uint64(wd)), ts.Extract(y, 0, wd))
		} else if bw < wd {
			y = ts.ZExt(y, wd)
		}
		switch {
		case op == token.SHL:
			return simp(ts.Bin(OShl, x, y))
		case signed:
			return simp(ts.Bin(OAShr, x, y))
		default:
			return simp(ts.Bin(OLShr, x, y))
		}
	}
	y := w.term(b, wd)
	switch op {
	case token.ADD:
		return simp(ts.Bin(OAdd, x, y))
	case token.SUB:
		return simp(ts.Bin(OSub, x, y))
	case token.MUL:
		return simp(ts.Bin(OMul, x, y))
	case token.QUO, token.REM:
		if w.branch(simp(ts.Eq(y, ts.Const(wd, 0)))) {
			w.throw("integer divide by zero")
		}
		if y.op == OConst && !signed && wd == 64 && y.k > 1 && y.k&(y.k-1) != 0 {
			return w.divConst(op, x, y.k)
		}
		var o Op
		switch {
		case op == token.QUO && signed:
			o = OSDiv
		case op == token.QUO:
			o = OUDiv
		case signed:
			o = OSRem
		default:
			o = OURem
		}
		return simp(ts.Bin(o, x, y))
	case token.AND:
		return simp(ts.Bin(OBAnd, x, y))
	case token.OR:
		return simp(ts.Bin(OBOr, x, y))
	case token.XOR:
		return simp(ts.Bin(OBXor, x, y))
	case token.AND_NOT:
		return simp(ts.Bin(OBAnd, x, ts.BNot(y)))
	case token.LSS:
		return simp(w.cmp(x, y, signed, false))
	case token.LEQ:
		return simp(w.cmp(x, y, signed, true))
	case token.GTR:
		return simp(w.cmp(y, x, signed, false))
	case token.GEQ:
		return simp(w.cmp(y, x, signed, true))
	}
	w.unsupported("symop " + op.String())
	return nil
}

// divConst: symbolic 64-bit division by a constant, as is (the solver's own encoding).
func (w *W) divConst(op token.Token, x *Term, k uint64) V {
	o := OUDiv
	if op == token.REM {
		o = OURem
	}
	return simp(w.ts.Bin(o, x, w.ts.Const(64, k)))
}

func (w *W) cmp(x, y *Term, signed, eq bool) *Term {
	switch {
	case signed && eq:
		return w.ts.Sle(x, y)
	case signed:
		return w.ts.Slt(x, y)
	case eq:
		return w.ts.Ule(x, y)
	}
	return w.ts.Ult(x, y)
}

func (w *W) unop(op token.Token, v V, t types.Type) V {
	switch op {
	case token.NOT:
		return w.not(v)
	case token.SUB:
		switch x := v.(type) {
		case uint64:
			return (-x) & mask(bitsOf(t))
		case float64:
			return -x
		case complex128:
			return -x
		case *Term:
			return simp(w.ts.Neg(x))
		case *SymFloat:
			return &SymFloat{w.ts.Bin(OBXor, x.bits, w.ts.Const(x.bits.w, 1<<(x.bits.w-1)))}
		}
	case token.XOR:
		switch x := v.(type) {
		case uint64:
			return ^x & mask(bitsOf(t))
		case *Term:
			return simp(w.ts.BNot(x))
		}
	}
	w.unsupported(fmt.Sprintf("unop %v on %T", op, v))
	return nil
}

func (w *W) convert(fr *Frame, v V, from, to types.Type) V {
	fu, tu := from.Underlying(), to.Underlying()
	if tp, ok := to.(*types.TypeParam); ok {
		tu = tp.Underlying()
	}
	if isPtrV(v) {
		if b, ok := tu.(*types.Basic); ok && b.Info()&types.IsInteger != 0 && b.Kind() != types.Uintptr {
			return w.addrOf(v)
		}
	}
	// unsafe pointers and pointers keep their representation
	switch t := tu.(type) {
	case *types.Pointer:
		return v
	case *types.Slice:
		// string -> []byte / []rune
		if eb, ok := t.Elem().Underlying().(*types.Basic); ok {
			switch v.(type) {
			case string, *SymStr:
				if eb.Kind() == types.Uint8 {
					return Slice(strBytes(v))
				}
				if eb.Kind() == types.Int32 {
					var out Slice
					it := &StrIter{s: v}
					for {
						tp := w.strNext(fr, it).(Tuple)
						if !w.branch(tp[0]) {
							break
						}
						out = append(out, tp[2])
					}
					return out
				}
			}
		}
		return v
	case *types.Basic:
		if t.Kind() == types.UnsafePointer {
			return v
		}
		if t.Info()&types.IsString != 0 {
			switch x := v.(type) {
			case string, *SymStr:
				return x
			case Slice:
				if eb, ok := fu.(*types.Slice).Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Int32 {
					var b []V
					for _, r := range x {
						b = append(b, w.encodeRune(fr, r, 32)...)
					}
					return mkStr(b)
				}
				return mkStr(x)
			case uint64:
				wd, signed, _ := intInfo(from)
				r := int64(x)
				if signed {
					r = sext(x, wd)
				}
				if r < 0 || r > utf8.MaxRune {
					r = utf8.RuneError
				}
				return string(rune(r))
			case *Term:
				tt := x
				if tt.w < 32 {
					tt = w.ts.ZExt(tt, 32)
				} else if tt.w > 32 {
					tt = w.ts.Extract(tt, 0, 32)
				}
				return mkStr(w.encodeRune(fr, simp(tt), 32))
			}
		}
		fw, fsigned, fint := intInfo(from)
		tw, tsigned, tint := intInfo(to)
		switch {
		case fint && tint:
			switch x := v.(type) {
			case uint64:
				if fsigned {
					return uint64(sext(x, fw)) & mask(tw)
				}
				return x & mask(tw)
			case *Term:
				switch {
				case tw == fw:
					return x
				case tw < fw:
					return simp(w.ts.Extract(x, 0, tw))
				case fsigned:
					return simp(w.ts.SExt(x, tw))
				default:
					return simp(w.ts.ZExt(x, tw))
				}
			case *V, *SlicePtr: // uintptr(unsafe.Pointer)
				return v
			}
		case fint && t.Info()&types.IsFloat != 0:
			u := w.concretize(v)
			var f float64
			if fsigned {
				f = float64(sext(u, fw))
			} else {
				f = float64(u)
			}
			if t.Kind() == types.Float32 {
				if fsigned {
					f = float64(float32(sext(u, fw)))
				} else {
					f = float64(float32(u))
				}
			}
			return f
		case tint && isFloat(from):
			f := w.concFloat(v, from).(float64)
			if tsigned {
				return uint64(int64(f)) & mask(tw)
			}
			return uint64(f) & mask(tw)
		case isFloat(from) && t.Info()&types.IsFloat != 0:
			if sf, ok := v.(*SymFloat); ok && (sf.bits.w == 64) == (t.Kind() == types.Float64) {
				return v
			}
			if sf, ok := v.(*SymFloat); ok && sf.bits.w == 32 && t.Kind() == types.Float64 {
				return w.widenFloat(sf.bits)
			}
			f := w.concFloat(v, from).(float64)
			if t.Kind() == types.Float32 {
				return float64(float32(f))
			}
			return f
		case t.Info()&types.IsComplex != 0:
			if sc, ok := v.(*SymComplex); ok {
				return sc
			}
			c := v.(complex128)
			if t.Kind() == types.Complex64 {
				return complex128(complex64(c))
			}
			return c
		}
		if fb, ok := fu.(*types.Basic); ok && fb.Kind() == types.UnsafePointer {
			return v
		}
		if t.Info()&types.IsBoolean != 0 {
			return v
		}
	case *types.Chan, *types.Map, *types.Signature, *types.Struct, *types.Array, *types.Interface:
		return v
	}
	w.unsupported(fmt.Sprintf("convert %v to %v (%T)", from, to, v))
	return nil
}

func (w *W) encodeRune(fr *Frame, r V, wd uint8) []V {
	if u, ok := r.(uint64); ok {
		return strBytes(string(rune(int32(u))))
	}
	f := w.prog.lookup("unicode/utf8", "AppendRune")
	res := w.call(fr.g, fr, w.fn(f), []V{Slice(nil), r}, nil)
	return []V(res.(Slice))
}

func (w *W) strNext(fr *Frame, it *StrIter) V {
	n := strLen(it.s)
	if it.pos >= n {
		return Tuple{false, zeroU, zeroU}
	}
	pos := it.pos
	b := strByte(it.s, pos)
	switch x := b.(type) {
	case uint64:
		if x < utf8.RuneSelf {
			it.pos++
			return Tuple{true, uint64(pos), x}
		}
	case *Term:
		if w.branch(simp(w.ts.Ult(x, w.ts.Const(8, utf8.RuneSelf)))) {
			it.pos++
			return Tuple{true, uint64(pos), simp(w.ts.ZExt(x, 32))}
		}
	}
	rest := strSlice(it.s, pos, min(n, pos+4))
	if s, ok := rest.(string); ok {
		r, sz := utf8.DecodeRuneInString(s)
		it.pos += sz
		return Tuple{true, uint64(pos), uint64(uint32(r))}
	}
	f := w.prog.lookup("unicode/utf8", "DecodeRuneInString")
	res := w.call(fr.g, fr, w.fn(f), []V{rest}, nil).(Tuple)
	it.pos += int(w.concretize(res[1]))
	return Tuple{true, uint64(pos), res[0]}
}

func isPtrV(v V) bool {
	switch v.(type) {
	case *V, *Map, *Chan, *Closure, *SlicePtr:
		return true
	}
	return false
}

// addrOf gives a pointer held in a uintptr a number.
func (w *W) addrOf(v V) V {
	if !isPtrV(v) {
		return v
	}
	switch x := v.(type) {
	case *V:
		if x == nil {
			return zeroU
		}
	case *Map:
		if x == nil {
			return zeroU
		}
	case *Chan:
		if x == nil {
			return zeroU
		}
	case *Closure:
		if x == nil {
			return zeroU
		}
	}
	if w.addrs == nil {
		w.addrs = map[interface{}]uint64{}
	}
	n, ok := w.addrs[v]
	if !ok {
		n = 0xc000000000 + uint64(len(w.addrs)+1)*64
		w.addrs[v] = n
	}
	return n
}

// widenFloat converts the bits of a float32 to a float64.
func (w *W) widenFloat(b *Term) V {
	ts := w.ts
	k := func(v uint64) *Term { return ts.Const(64, v) }
	sign := ts.Bin(OShl, ts.ZExt(ts.Extract(b, 31, 1), 64), k(63))
	exp := ts.ZExt(ts.Extract(b, 23, 8), 64)
	mant := ts.ZExt(ts.Extract(b, 0, 23), 64)
	wide := ts.Bin(OShl, mant, k(29))
	norm := ts.Bin(OBOr, ts.Bin(OShl, ts.Bin(OAdd, exp, k(896)), k(52)), wide)
	special := ts.Bin(OBOr, k(0x7ff<<52), ts.Ite(ts.Eq(mant, k(0)), k(0), ts.Bin(OBOr, wide, k(1<<51))))
	sub := k(0)
	for i := 0; i < 23; i++ { // highest mantissa bit set is i
		m := ts.Bin(OBAnd, ts.Bin(OShl, mant, k(uint64(52-i))), k(1<<52-1))
		v := ts.Bin(OBOr, k(uint64(i-149+1023)<<52), m)
		sub = ts.Ite(ts.Eq(ts.Extract(b, uint64(i), 1), ts.Const(1, 1)), v, sub)
	}
	r := ts.Ite(ts.Eq(exp, k(255)), special, ts.Ite(ts.Eq(exp, k(0)), sub, norm))
	return &SymFloat{ts.Bin(OBOr, r, sign)}
}
