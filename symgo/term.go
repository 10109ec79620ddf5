package main

// Hash-consed bit-vector / boolean terms with light simplification.

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OConcat
	OExtract
	OZExt
	OSExt
)

var opNames = [...]string{"const", "var", "not", "and", "or", "=", "bvult", "bvule", "bvslt", "bvsle", "ite",
	"bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor", "bvnot", "bvneg",
	"bvshl", "bvlshr", "bvashr", "concat", "extract", "zero_extend", "sign_extend"}

// Term is an SMT term; w==0 means Bool.
type Term struct {
	id      int
	op      Op
	w       uint8
	a, b, c *Term
	k       uint64 // constant value; extract low bit
	name    string
	lo, hi  uint64 // unsigned range, BV only
	defd    int    // solver generation in which it is defined
	evEpoch int
	evVal   uint64
	fv      []*Term
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c int
	k       uint64
	name    string
}

type Terms struct {
	tab     map[termKey]*Term
	n       int
	tt, ff  *Term
	epoch   int
	freshes int
}

func newTerms() *Terms {
	ts := &Terms{tab: map[termKey]*Term{}}
	ts.tt = ts.mk(OConst, 0, nil, nil, nil, 1, "")
	ts.ff = ts.mk(OConst, 0, nil, nil, nil, 0, "")
	return ts
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (ts *Terms) mk(op Op, w uint8, a, b, c *Term, k uint64, name string) *Term {
	key := termKey{op: op, w: w, k: k, name: name, a: -1, b: -1, c: -1}
	if a != nil {
		key.a = a.id
	}
	if b != nil {
		key.b = b.id
	}
	if c != nil {
		key.c = c.id
	}
	if t, ok := ts.tab[key]; ok {
		return t
	}
	t := &Term{id: ts.n, op: op, w: w, a: a, b: b, c: c, k: k, name: name}
	ts.n++
	t.setRange()
	ts.tab[key] = t
	return t
}

func (t *Term) setRange() {
	if t.w == 0 {
		return
	}
	m := mask(t.w)
	t.lo, t.hi = 0, m
	switch t.op {
	case OConst:
		t.lo, t.hi = t.k, t.k
	case OZExt:
		t.lo, t.hi = t.a.lo, t.a.hi
	case OIte:
		t.lo, t.hi = min(t.b.lo, t.c.lo), max(t.b.hi, t.c.hi)
	case OAdd:
		s, c := bits.Add64(t.a.hi, t.b.hi, 0)
		if c == 0 && s <= m {
			t.lo, t.hi = t.a.lo+t.b.lo, s
		} else if t.b.op == OConst {
			// x + (-k) without wrap below
			nk := (-t.b.k) & m
			if t.a.lo >= nk && t.b.k != 0 {
				t.lo, t.hi = t.a.lo-nk, t.a.hi-nk
			}
		}
	case OSub:
		if t.a.lo >= t.b.hi {
			t.lo, t.hi = t.a.lo-t.b.hi, t.a.hi-t.b.lo
		}
	case OMul:
		h, l := bits.Mul64(t.a.hi, t.b.hi)
		if h == 0 && l <= m {
			t.lo, t.hi = t.a.lo*t.b.lo, l
		}
	case OUDiv:
		if t.b.lo > 0 {
			t.lo, t.hi = t.a.lo/t.b.hi, t.a.hi/t.b.lo
		}
	case OURem:
		if t.b.lo > 0 {
			t.lo, t.hi = 0, min(t.a.hi, t.b.hi-1)
		}
	case OBAnd:
		t.lo, t.hi = 0, min(t.a.hi, t.b.hi)
	case OBOr, OBXor:
		n := bits.Len64(t.a.hi | t.b.hi)
		t.lo, t.hi = 0, mask(uint8(n))
		if n == 0 {
			t.hi = 0
		}
		if t.op == OBOr {
			t.lo = max(t.a.lo, t.b.lo)
		}
	case OLShr:
		if t.b.op == OConst {
			if t.b.k >= uint64(t.w) {
				t.lo, t.hi = 0, 0
			} else {
				t.lo, t.hi = t.a.lo>>t.b.k, t.a.hi>>t.b.k
			}
		} else {
			t.hi = t.a.hi
		}
	case OShl:
		if t.b.op == OConst && t.b.k < uint64(t.w) && bits.Len64(t.a.hi)+int(t.b.k) <= int(t.w) {
			t.lo, t.hi = t.a.lo<<t.b.k, t.a.hi<<t.b.k
		}
	case OExtract:
		if t.k == 0 && t.a.hi <= m {
			t.lo, t.hi = t.a.lo, t.a.hi
		}
	case OConcat:
		t.lo = t.a.lo<<t.b.w | t.b.lo
		t.hi = t.a.hi<<t.b.w | t.b.hi
	}
}

func (ts *Terms) Bool(b bool) *Term {
	if b {
		return ts.tt
	}
	return ts.ff
}
func (ts *Terms) Const(w uint8, v uint64) *Term {
	return ts.mk(OConst, w, nil, nil, nil, v&mask(w), "")
}
func (ts *Terms) Var(w uint8, name string) *Term { return ts.mk(OVar, w, nil, nil, nil, 0, name) }

func (t *Term) isConst() bool { return t.op == OConst }

func (ts *Terms) Not(a *Term) *Term {
	if a.op == OConst {
		return ts.Bool(a.k == 0)
	}
	if a.op == ONot {
		return a.a
	}
	if a.op == OUlt {
		return ts.Ule(a.b, a.a)
	}
	if a.op == OUle {
		return ts.Ult(a.b, a.a)
	}
	if a.op == OSlt {
		return ts.Sle(a.b, a.a)
	}
	if a.op == OSle {
		return ts.Slt(a.b, a.a)
	}
	return ts.mk(ONot, 0, a, nil, nil, 0, "")
}
func (ts *Terms) And(a, b *Term) *Term {
	if a == b || b == ts.tt {
		return a
	}
	if a == ts.tt {
		return b
	}
	if a == ts.ff || b == ts.ff || ts.Not(a) == b {
		return ts.ff
	}
	if a.id > b.id {
		a, b = b, a
	}
	return ts.mk(OAnd, 0, a, b, nil, 0, "")
}
func (ts *Terms) Or(a, b *Term) *Term {
	if a == b || b == ts.ff {
		return a
	}
	if a == ts.ff {
		return b
	}
	if a == ts.tt || b == ts.tt || ts.Not(a) == b {
		return ts.tt
	}
	if a.id > b.id {
		a, b = b, a
	}
	return ts.mk(OOr, 0, a, b, nil, 0, "")
}
func (ts *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return ts.tt
	}
	if a.op == OConst && b.op == OConst {
		return ts.Bool(a.k == b.k)
	}
	if a.w == 0 {
		if a.op == OConst {
			a, b = b, a
		}
		if b == ts.tt {
			return a
		}
		if b == ts.ff {
			return ts.Not(a)
		}
	} else {
		if a.hi < b.lo || b.hi < a.lo {
			return ts.ff
		}
		if a.op == OConst {
			a, b = b, a
		}
		if a.op == OZExt && b.op == OZExt {
			if a.a.w < b.a.w {
				a, b = b, a
			}
			return ts.Eq(a.a, ts.ZExt(b.a, a.a.w))
		}
		if b.op == OConst {
			switch a.op {
			case OZExt:
				if b.k > mask(a.a.w) {
					return ts.ff
				}
				return ts.Eq(a.a, ts.Const(a.a.w, b.k))
			case OSExt:
				if uint64(sext(b.k&mask(a.a.w), a.a.w))&mask(a.w) != b.k {
					return ts.ff
				}
				return ts.Eq(a.a, ts.Const(a.a.w, b.k))
			case OAdd:
				if a.b.op == OConst {
					return ts.Eq(a.a, ts.Const(a.w, b.k-a.b.k))
				}
			case OBXor:
				if a.b.op == OConst {
					return ts.Eq(a.a, ts.Const(a.w, b.k^a.b.k))
				}
			case OIte:
				if a.b.op == OConst && a.c.op == OConst {
					t, e := a.b.k == b.k, a.c.k == b.k
					switch {
					case t && e:
						return ts.tt
					case t:
						return a.a
					case e:
						return ts.Not(a.a)
					default:
						return ts.ff
					}
				}
				// push equality with a constant into ite (keeps chains small)
				if a.b.op == OConst || a.c.op == OConst {
					return ts.Ite(a.a, ts.Eq(a.b, b), ts.Eq(a.c, b))
				}
			case OConcat:
				return ts.And(ts.Eq(a.a, ts.Const(a.a.w, b.k>>a.b.w)), ts.Eq(a.b, ts.Const(a.b.w, b.k)))
			}
		} else if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
			return ts.Eq(a.a, b.a)
		} else if a.op == OAdd && b.op == OAdd && a.b == b.b {
			return ts.Eq(a.a, b.a)
		}
	}
	if a.id > b.id && b.op != OConst || a.op == OConst {
		a, b = b, a
	}
	return ts.mk(OEq, 0, a, b, nil, 0, "")
}
func (ts *Terms) Ult(a, b *Term) *Term {
	if a == b {
		return ts.ff
	}
	if a.hi < b.lo {
		return ts.tt
	}
	if a.lo >= b.hi {
		return ts.ff
	}
	if a.op == OZExt && b.op == OConst {
		return ts.Ult(a.a, ts.Const(a.a.w, b.k)) // b.k <= a.hi <= mask
	}
	if b.op == OZExt && a.op == OConst {
		return ts.Ult(ts.Const(b.a.w, a.k), b.a)
	}
	if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
		return ts.Ult(a.a, b.a)
	}
	if b.op == OConst && b.k == 1 {
		return ts.Eq(a, ts.Const(a.w, 0))
	}
	return ts.mk(OUlt, 0, a, b, nil, 0, "")
}
func (ts *Terms) Ule(a, b *Term) *Term {
	if a == b {
		return ts.tt
	}
	if a.hi <= b.lo {
		return ts.tt
	}
	if a.lo > b.hi {
		return ts.ff
	}
	if b.op == OConst && a.lo == b.k {
		return ts.Eq(a, b)
	}
	if a.op == OConst && b.hi == a.k {
		return ts.Eq(a, b)
	}
	if a.op == OConst && b.lo == a.k-1 && a.k > 0 {
		return ts.Not(ts.Eq(b, ts.Const(b.w, b.lo)))
	}
	if b.op == OConst && a.hi == b.k+1 && b.k < mask(b.w) {
		return ts.Not(ts.Eq(a, ts.Const(a.w, a.hi)))
	}
	if a.op == OZExt && b.op == OConst {
		return ts.Ule(a.a, ts.Const(a.a.w, b.k))
	}
	if b.op == OZExt && a.op == OConst {
		return ts.Ule(ts.Const(b.a.w, a.k), b.a)
	}
	if a.op == OZExt && b.op == OZExt {
		if a.a.w < b.a.w {
			return ts.Ule(ts.ZExt(a.a, b.a.w), b.a)
		}
		return ts.Ule(a.a, ts.ZExt(b.a, a.a.w))
	}
	return ts.mk(OUle, 0, a, b, nil, 0, "")
}
func (t *Term) nonneg() bool { return t.hi <= mask(t.w)>>1 }
func (ts *Terms) Slt(a, b *Term) *Term {
	if a.nonneg() && b.nonneg() {
		return ts.Ult(a, b)
	}
	if a == b {
		return ts.ff
	}
	if a.op == OConst && b.op == OConst {
		return ts.Bool(sext(a.k, a.w) < sext(b.k, b.w))
	}
	if neg(a) && b.nonneg() {
		return ts.tt
	}
	if a.nonneg() && neg(b) {
		return ts.ff
	}
	return ts.mk(OSlt, 0, a, b, nil, 0, "")
}
func neg(t *Term) bool { return t.lo > mask(t.w)>>1 }
func (ts *Terms) Sle(a, b *Term) *Term {
	if a.nonneg() && b.nonneg() {
		return ts.Ule(a, b)
	}
	if a == b {
		return ts.tt
	}
	if a.op == OConst && b.op == OConst {
		return ts.Bool(sext(a.k, a.w) <= sext(b.k, b.w))
	}
	if neg(a) && b.nonneg() {
		return ts.tt
	}
	if a.nonneg() && neg(b) {
		return ts.ff
	}
	return ts.mk(OSle, 0, a, b, nil, 0, "")
}
func (ts *Terms) Ite(c, a, b *Term) *Term {
	if c == ts.tt {
		return a
	}
	if c == ts.ff {
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a == ts.tt && b == ts.ff {
			return c
		}
		if a == ts.ff && b == ts.tt {
			return ts.Not(c)
		}
		if a == ts.tt {
			return ts.Or(c, b)
		}
		if a == ts.ff {
			return ts.And(ts.Not(c), b)
		}
		if b == ts.ff {
			return ts.And(c, a)
		}
		if b == ts.tt {
			return ts.Or(ts.Not(c), a)
		}
	}
	if c.op == ONot {
		c, a, b = c.a, b, a
	}
	return ts.mk(OIte, a.w, c, a, b, 0, "")
}

func (ts *Terms) Bin(op Op, a, b *Term) *Term {
	w := a.w
	m := mask(w)
	if a.op == OConst && b.op == OConst {
		x, y := a.k, b.k
		var r uint64
		switch op {
		case OAdd:
			r = x + y
		case OSub:
			r = x - y
		case OMul:
			r = x * y
		case OUDiv:
			if y == 0 {
				r = m
			} else {
				r = x / y
			}
		case OURem:
			if y == 0 {
				r = x
			} else {
				r = x % y
			}
		case OSDiv, OSRem:
			sx, sy := sext(x, w), sext(y, w)
			if sy == 0 {
				return ts.mk(op, w, a, b, nil, 0, "")
			}
			if sy == -1 {
				if op == OSDiv {
					r = uint64(-sx)
				}
			} else if op == OSDiv {
				r = uint64(sx / sy)
			} else {
				r = uint64(sx % sy)
			}
		case OBAnd:
			r = x & y
		case OBOr:
			r = x | y
		case OBXor:
			r = x ^ y
		case OShl:
			if y < uint64(w) {
				r = x << y
			}
		case OLShr:
			if y < uint64(w) {
				r = x >> y
			}
		case OAShr:
			if y >= uint64(w) {
				y = uint64(w) - 1
			}
			r = uint64(sext(x, w) >> y)
		}
		return ts.Const(w, r)
	}
	switch op {
	case OAdd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.k == 0 {
				return a
			}
			if a.op == OAdd && a.b.op == OConst {
				return ts.Bin(OAdd, a.a, ts.Const(w, a.b.k+b.k))
			}
		}
	case OSub:
		if a == b {
			return ts.Const(w, 0)
		}
		if b.op == OConst {
			return ts.Bin(OAdd, a, ts.Const(w, -b.k))
		}
	case OMul:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		}
	case OBAnd:
		if a.op == OConst {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.op == OConst {
			if b.k == 0 {
				return b
			}
			if b.k == m {
				return a
			}
			// mask covering the range of a
			if b.k&(b.k+1) == 0 && a.hi <= b.k {
				return a
			}
		}
	case OBOr, OBXor:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.k == 0 {
			return a
		}
		if a == b {
			if op == OBOr {
				return a
			}
			return ts.Const(w, 0)
		}
	case OShl, OLShr, OAShr:
		if b.op == OConst && b.k == 0 {
			return a
		}
		if op != OAShr && b.lo >= uint64(w) {
			return ts.Const(w, 0)
		}
		if op == OLShr && b.op == OConst && a.hi>>b.k == 0 {
			return ts.Const(w, 0)
		}
	case OUDiv:
		if b.op == OConst && b.k == 1 {
			return a
		}
		if b.op == OConst && b.k != 0 && a.hi < b.k {
			return ts.Const(w, 0)
		}
	case OURem:
		if b.op == OConst && b.k == 1 {
			return ts.Const(w, 0)
		}
		if b.op == OConst && a.hi < b.k {
			return a
		}
	case OSDiv:
		if a.nonneg() && b.nonneg() && b.lo > 0 {
			return ts.Bin(OUDiv, a, b)
		}
	case OSRem:
		if a.nonneg() && b.nonneg() && b.lo > 0 {
			return ts.Bin(OURem, a, b)
		}
	}
	if r := ts.narrow(op, a, b); r != nil {
		return r
	}
	return ts.mk(op, w, a, b, nil, 0, "")
}

// narrow computes at the smallest width that holds operands and result.
func (ts *Terms) narrow(op Op, a, b *Term) *Term {
	w := a.w
	if w <= 8 || (a.op != OZExt && a.op != OConst) || (b.op != OZExt && b.op != OConst) {
		return nil
	}
	var hi uint64
	switch op {
	case OAdd:
		hi = a.hi + b.hi
		if hi < a.hi {
			return nil
		}
	case OMul:
		h, l := bits.Mul64(a.hi, b.hi)
		if h != 0 {
			return nil
		}
		hi = l
	case OUDiv, OURem:
		if b.lo == 0 {
			return nil
		}
		hi = a.hi
	case OBAnd, OBOr, OBXor:
		hi = a.hi | b.hi
	default:
		return nil
	}
	for _, h := range []uint64{a.hi, b.hi} {
		if h > hi {
			hi = h
		}
	}
	k := uint8(bits.Len64(hi))
	if k == 0 {
		k = 1
	}
	if k >= w {
		return nil
	}
	return ts.ZExt(ts.Bin(op, ts.low(a, k), ts.low(b, k)), w)
}

// low is the k low bits of a zero-extended term or constant.
func (ts *Terms) low(a *Term, k uint8) *Term {
	if a.op == OConst {
		return ts.Const(k, a.k)
	}
	if a.a.w <= k {
		return ts.ZExt(a.a, k)
	}
	return ts.Extract(a.a, 0, k)
}

func (ts *Terms) BNot(a *Term) *Term {
	if a.op == OConst {
		return ts.Const(a.w, ^a.k)
	}
	return ts.mk(OBNot, a.w, a, nil, nil, 0, "")
}
func (ts *Terms) Neg(a *Term) *Term {
	if a.op == OConst {
		return ts.Const(a.w, -a.k)
	}
	return ts.mk(ONeg, a.w, a, nil, nil, 0, "")
}
func (ts *Terms) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return ts.Const(w, a.k)
	}
	if a.op == OZExt {
		return ts.ZExt(a.a, w)
	}
	return ts.mk(OZExt, w, a, nil, nil, 0, "")
}
func (ts *Terms) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return ts.Const(w, uint64(sext(a.k, a.w)))
	}
	if a.nonneg() {
		return ts.ZExt(a, w)
	}
	return ts.mk(OSExt, w, a, nil, nil, 0, "")
}

// Extract w bits starting at bit lo.
func (ts *Terms) Extract(a *Term, lo uint64, w uint8) *Term {
	if lo == 0 && a.w == w {
		return a
	}
	if a.op == OConst {
		return ts.Const(w, a.k>>lo)
	}
	switch a.op {
	case OZExt, OSExt:
		if lo+uint64(w) <= uint64(a.a.w) {
			return ts.Extract(a.a, lo, w)
		}
		if lo == 0 && a.a.w <= w {
			if a.op == OZExt {
				return ts.ZExt(a.a, w)
			}
			return ts.SExt(a.a, w)
		}
		if a.op == OZExt && lo >= uint64(a.a.w) {
			return ts.Const(w, 0)
		}
	case OExtract:
		return ts.Extract(a.a, a.k+lo, w)
	case OConcat:
		bw := uint64(a.b.w)
		if lo+uint64(w) <= bw {
			return ts.Extract(a.b, lo, w)
		}
		if lo >= bw {
			return ts.Extract(a.a, lo-bw, w)
		}
	case OIte:
		if a.b.op == OConst || a.c.op == OConst {
			return ts.Ite(a.a, ts.Extract(a.b, lo, w), ts.Extract(a.c, lo, w))
		}
	case OBOr:
		return ts.Bin(OBOr, ts.Extract(a.a, lo, w), ts.Extract(a.b, lo, w))
	case OBAnd:
		return ts.Bin(OBAnd, ts.Extract(a.a, lo, w), ts.Extract(a.b, lo, w))
	case OShl:
		if a.b.op == OConst && lo >= a.b.k {
			return ts.Extract(a.a, lo-a.b.k, w)
		}
		if a.b.op == OConst && lo+uint64(w) <= a.b.k {
			return ts.Const(w, 0)
		}
	case OLShr:
		if a.b.op == OConst && lo+a.b.k+uint64(w) <= uint64(a.w) {
			return ts.Extract(a.a, lo+a.b.k, w)
		}
	case OAdd, OSub, OMul:
		if lo == 0 {
			return ts.Bin(a.op, ts.Extract(a.a, 0, w), ts.Extract(a.b, 0, w))
		}
	}
	return ts.mk(OExtract, w, a, nil, nil, lo, "")
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.k != 0 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.k, t.w)
	case OVar:
		return fmt.Sprintf("|%s:%d|", t.name, t.w)
	}
	return fmt.Sprintf("t%d", t.id)
}

// define writes the definitions needed by t (post-order) to sb.
func (t *Term) define(sb *strings.Builder, gen int) {
	if t.defd == gen || t.op == OConst {
		return
	}
	t.defd = gen
	if t.op == OVar {
		fmt.Fprintf(sb, "(declare-const %s %s)\n", t.ref(), sortName(t.w))
		return
	}
	if t.a != nil {
		t.a.define(sb, gen)
	}
	if t.b != nil {
		t.b.define(sb, gen)
	}
	if t.c != nil {
		t.c.define(sb, gen)
	}
	fmt.Fprintf(sb, "(define-fun t%d () %s ", t.id, sortName(t.w))
	switch t.op {
	case OExtract:
		fmt.Fprintf(sb, "((_ extract %d %d) %s)", t.k+uint64(t.w)-1, t.k, t.a.ref())
	case OZExt, OSExt:
		fmt.Fprintf(sb, "((_ %s %d) %s)", opNames[t.op], t.w-t.a.w, t.a.ref())
	default:
		sb.WriteByte('(')
		sb.WriteString(opNames[t.op])
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				sb.WriteByte(' ')
				sb.WriteString(x.ref())
			}
		}
		sb.WriteByte(')')
	}
	sb.WriteString(")\n")
}

// Model maps variable names to values.
type Model map[string]uint64

func (ts *Terms) newEpoch() { ts.epoch++ }

// eval evaluates t under m (call newEpoch when m changes).
func (ts *Terms) eval(t *Term, m Model) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.evEpoch == ts.epoch {
		return t.evVal
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case OVar:
		r = m[t.name]
	case ONot:
		r = 1 - ts.eval(t.a, m)
	case OAnd:
		r = ts.eval(t.a, m)
		if r != 0 {
			r = ts.eval(t.b, m)
		}
	case OOr:
		r = ts.eval(t.a, m)
		if r == 0 {
			r = ts.eval(t.b, m)
		}
	case OIte:
		if ts.eval(t.a, m) != 0 {
			r = ts.eval(t.b, m)
		} else {
			r = ts.eval(t.c, m)
		}
	default:
		x := ts.eval(t.a, m)
		var y uint64
		if t.b != nil {
			y = ts.eval(t.b, m)
		}
		w := t.a.w
		switch t.op {
		case OEq:
			r = b2u(x == y)
		case OUlt:
			r = b2u(x < y)
		case OUle:
			r = b2u(x <= y)
		case OSlt:
			r = b2u(sext(x, w) < sext(y, w))
		case OSle:
			r = b2u(sext(x, w) <= sext(y, w))
		case OAdd:
			r = x + y
		case OSub:
			r = x - y
		case OMul:
			r = x * y
		case OUDiv:
			if y == 0 {
				r = ^uint64(0)
			} else {
				r = x / y
			}
		case OURem:
			if y == 0 {
				r = x
			} else {
				r = x % y
			}
		case OSDiv:
			sx, sy := sext(x, w), sext(y, w)
			if sy == 0 {
				if sx < 0 {
					r = 1
				} else {
					r = ^uint64(0)
				}
			} else if sy == -1 {
				r = uint64(-sx)
			} else {
				r = uint64(sx / sy)
			}
		case OSRem:
			sx, sy := sext(x, w), sext(y, w)
			if sy == 0 {
				r = x
			} else if sy == -1 {
				r = 0
			} else {
				r = uint64(sx % sy)
			}
		case OBAnd:
			r = x & y
		case OBOr:
			r = x | y
		case OBXor:
			r = x ^ y
		case OBNot:
			r = ^x
		case ONeg:
			r = -x
		case OShl:
			if y < uint64(w) {
				r = x << y
			}
		case OLShr:
			if y < uint64(w) {
				r = x >> y
			}
		case OAShr:
			if y >= uint64(w) {
				y = uint64(w) - 1
			}
			r = uint64(sext(x, w) >> y)
		case OConcat:
			r = x<<t.b.w | y
		case OExtract:
			r = x >> t.k
		case OZExt:
			r = x
		case OSExt:
			r = uint64(sext(x, w))
		}
		if t.w != 0 {
			r &= mask(t.w)
		}
	}
	t.evEpoch = ts.epoch
	t.evVal = r
	return r
}

// Table builds a term for tab[idx] where idx is known to be < len(tab); values have width w.
func (ts *Terms) Table(idx *Term, tab []uint64, w uint8) *Term {
	type run struct {
		end   int // exclusive
		base  uint64
		slope bool
		start int
	}
	var runs []run
	lo, hi := int(idx.lo), int(min(idx.hi, uint64(len(tab)-1)))
	for i := lo; i <= hi; {
		// longest constant or slope-1 run
		j := i + 1
		for j <= hi && tab[j] == tab[i] {
			j++
		}
		k := i + 1
		for k <= hi && tab[k] == tab[i]+uint64(k-i) {
			k++
		}
		if k > j {
			runs = append(runs, run{k, tab[i], true, i})
			i = k
		} else {
			runs = append(runs, run{j, tab[i], false, i})
			i = j
		}
	}
	val := func(r run) *Term {
		if !r.slope {
			return ts.Const(w, r.base)
		}
		var iw *Term
		if idx.w >= w {
			iw = ts.Extract(idx, 0, w)
		} else {
			iw = ts.ZExt(idx, w)
		}
		return ts.Bin(OAdd, iw, ts.Const(w, r.base-uint64(r.start)))
	}
	// balanced decision tree on thresholds
	var build func(lo, hi int) *Term
	build = func(lo, hi int) *Term {
		if lo == hi {
			return val(runs[lo])
		}
		mid := (lo + hi) / 2
		return ts.Ite(ts.Ult(idx, ts.Const(idx.w, uint64(runs[mid].end))), build(lo, mid), build(mid+1, hi))
	}
	return build(0, len(runs)-1)
}

func (t *Term) String() string {
	if t.op == OConst || t.op == OVar {
		return t.ref()
	}
	s := "(" + opNames[t.op]
	if t.op == OExtract || t.op == OZExt || t.op == OSExt {
		s += fmt.Sprintf("[%d,%d]", t.k, t.w)
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + x.String()
		}
	}
	return s + ")"
}
