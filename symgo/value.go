package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// V is an interpreted value. Representations:
//
//	bool                      bool or *Term (w=0)
//	integers, uintptr         uint64 (masked to width) or *Term
//	floats                    float64 or *SymFloat
//	complex                   complex128
//	string                    string or *SymStr
//	pointers, unsafe.Pointer  *V, SymPtr, *SlicePtr
//	struct / array / slice    Struct / Array / Slice
//	map / chan / func         *Map / *Chan / *Closure
//	interface                 Iface
//	tuple                     Tuple
//	reflect.Value             RV; reflect.Type dynamic value: RType
type V = interface{}
type Struct []V
type Array []V
type Slice []V
type Tuple []V
type Iface struct {
	t types.Type
	v V
}
type SymStr struct{ b []V }
type Closure struct {
	fn     *Fn
	env    []V
	native func(w *W, g *G, args []V) V
	name   string
}
type SymPtr struct {
	arr []V
	idx *Term
	w   uint8 // element width (0: bool)
}

// SymElem is a read-only pointer to a struct element at a symbolic index.
type SymElem struct {
	arr []V
	idx *Term
	ws  []uint8
}

// SymComplex is a complex number with symbolic parts (float64 or *SymFloat).
type SymComplex struct{ re, im V }

func (p SymElem) column(k int) SymPtr {
	col := make([]V, len(p.arr))
	for i := range col {
		col[i] = p.arr[i].(Struct)[k]
	}
	return SymPtr{col, p.idx, p.ws[k]}
}

type SlicePtr struct{ s Slice } // unsafe.SliceData / StringData result
type SymFloat struct{ bits *Term }
type RType struct{ t types.Type }
type RV struct {
	t    types.Type
	v    V
	addr *V
	ro   bool
}

type mapEnt struct {
	k    V
	v    V
	dead bool
}
type Map struct {
	ents []*mapEnt
	idx  map[interface{}]*mapEnt // concrete keys
	nsym int                     // live entries with symbolic keys
	n    int
}

func newMap() *Map { return &Map{idx: map[interface{}]*mapEnt{}} }

// MapIter is the state of a range over a map.
type MapIter struct {
	m    *Map
	ents []*mapEnt
	pos  int
}
type StrIter struct {
	s   V
	pos int
}

func isSym(v V) bool {
	switch v := v.(type) {
	case *Term:
		return !v.isConst()
	case *SymStr, *SymFloat:
		return true
	case Struct:
		for _, x := range v {
			if isSym(x) {
				return true
			}
		}
	case Array:
		for _, x := range v {
			if isSym(x) {
				return true
			}
		}
	case Iface:
		return isSym(v.v)
	}
	return false
}

func copyVal(v V) V {
	switch v := v.(type) {
	case Struct:
		n := make(Struct, len(v))
		for i := range v {
			n[i] = copyVal(v[i])
		}
		return n
	case Array:
		n := make(Array, len(v))
		for i := range v {
			n[i] = copyVal(v[i])
		}
		return n
	}
	return v
}

// intInfo returns bit width and signedness of an integer type.
func intInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == name && o.Pkg() != nil && o.Pkg().Path() == pkg
}

var zeroU V = uint64(0)

func zero(t types.Type) V {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return (*V)(nil)
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return zeroU
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Kind() == types.UntypedNil:
			return Iface{}
		}
	case *types.Pointer:
		return (*V)(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		if isNamed(t, "reflect", "Value") || isNamed(t, "internal/reflectlite", "Value") {
			return RV{}
		}
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		a := make(Array, n)
		if n > 0 {
			z := zero(u.Elem())
			switch z.(type) {
			case Struct, Array:
				for i := range a {
					a[i] = zero(u.Elem())
				}
			default:
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = zero(u.At(i).Type())
		}
		return tp
	}
	panic(fmt.Sprintf("zero: unsupported type %v", t))
}

// ---- strings ----

func strLen(v V) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	case Slice: // *[]byte viewed as *string
		return len(s)
	}
	panic(fmt.Sprintf("strLen of %T", v))
}

func strByte(v V, i int) V {
	switch s := v.(type) {
	case string:
		return byteV[s[i]]
	case *SymStr:
		return s.b[i]
	case Slice:
		return s[i]
	}
	panic(fmt.Sprintf("strByte of %T", v))
}

var byteV [256]V

func init() {
	for i := range byteV {
		byteV[i] = uint64(i)
	}
}

// mkStr builds a string value from byte values, concrete if possible. The slice is copied.
func mkStr(b []V) V {
	for _, x := range b {
		if _, ok := x.(uint64); !ok {
			c := make([]V, len(b))
			for i, x := range b {
				if t, ok := x.(*Term); ok && t.isConst() {
					x = t.k
				}
				c[i] = x
			}
			return &SymStr{c}
		}
	}
	var sb strings.Builder
	sb.Grow(len(b))
	for _, x := range b {
		sb.WriteByte(byte(x.(uint64)))
	}
	return sb.String()
}

func strSlice(v V, lo, hi int) V {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *SymStr:
		return mkStr(s.b[lo:hi])
	case Slice:
		return mkStr(s[lo:hi])
	}
	panic(fmt.Sprintf("strSlice of %T", v))
}

func strBytes(v V) []V {
	switch s := v.(type) {
	case string:
		b := make([]V, len(s))
		for i := 0; i < len(s); i++ {
			b[i] = byteV[s[i]]
		}
		return b
	case *SymStr:
		return append([]V(nil), s.b...)
	case Slice:
		return append([]V(nil), s...)
	}
	panic(fmt.Sprintf("strBytes of %T", v))
}

func bytesToSlice(b []byte) Slice {
	s := make(Slice, len(b))
	for i, x := range b {
		s[i] = byteV[x]
	}
	return s
}

func strCat(a, b V) V {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
	}
	return mkStr(append(strBytes(a), strBytes(b)...))
}

// concStr returns the concrete Go string of v if it is concrete.
func concStr(v V) (string, bool) {
	switch s := v.(type) {
	case string:
		return s, true
	case Slice:
		if r, ok := mkStr(s).(string); ok {
			return r, true
		}
	}
	return "", false
}

// concBytes returns concrete bytes of a byte slice.
func concBytes(s Slice) ([]byte, bool) {
	b := make([]byte, len(s))
	for i, x := range s {
		u, ok := x.(uint64)
		if !ok {
			return nil, false
		}
		b[i] = byte(u)
	}
	return b, true
}

// ---- map keys ----

type ifaceKey struct {
	tid int
	k   interface{}
}
type compKey struct{ s string }

// mapKey returns a hashable key for concrete v, ok=false if symbolic.
func (w *W) mapKey(v V) (interface{}, bool) {
	switch x := v.(type) {
	case uint64, bool, string, float64, complex128, *V, *Chan, *Map:
		return x, true
	case *Term:
		if x.isConst() {
			if x.w == 0 {
				return x.k != 0, true
			}
			return x.k, true
		}
		return nil, false
	case *SymStr, *SymFloat, SymPtr:
		return nil, false
	case Iface:
		if x.t == nil {
			return ifaceKey{-1, nil}, true
		}
		k, ok := w.mapKey(x.v)
		if !ok {
			return nil, false
		}
		return ifaceKey{w.typeID(x.t), k}, true
	case RType:
		return ifaceKey{-2, w.typeID(x.t)}, true
	case Struct:
		return w.compKey([]V(x))
	case Array:
		return w.compKey([]V(x))
	case *SlicePtr:
		if len(x.s) > 0 {
			return &x.s[0], true
		}
		return x, true
	}
	panic(fmt.Sprintf("mapKey of %T", v))
}

func (w *W) compKey(xs []V) (interface{}, bool) {
	var sb strings.Builder
	for _, e := range xs {
		k, ok := w.mapKey(e)
		if !ok {
			return nil, false
		}
		fmt.Fprintf(&sb, "%T:%v;", k, k)
	}
	return compKey{sb.String()}, true
}

func (w *W) mapFind(m *Map, k V) *mapEnt {
	if m == nil {
		return nil
	}
	ck, ok := w.mapKey(k)
	if ok && m.nsym == 0 {
		return m.idx[ck]
	}
	if ok {
		if e := m.idx[ck]; e != nil {
			return e
		}
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if ok {
			if _, c := w.mapKey(e.k); c {
				continue // concrete vs concrete: already looked up
			}
		}
		if w.branch(w.eq(k, e.k)) {
			return e
		}
	}
	return nil
}

func (w *W) mapSet(m *Map, k, v V) {
	if e := w.mapFind(m, k); e != nil {
		old := e.v
		w.undoF(func() { e.v = old })
		e.v = v
		return
	}
	e := &mapEnt{k: k, v: v}
	m.ents = append(m.ents, e)
	m.n++
	ck, ok := w.mapKey(k)
	if ok {
		m.idx[ck] = e
	} else {
		m.nsym++
	}
	w.undoF(func() {
		if e.dead {
			panic("map undo")
		}
		for i := len(m.ents) - 1; i >= 0; i-- {
			if m.ents[i] == e {
				m.ents = append(m.ents[:i:i], m.ents[i+1:]...)
				break
			}
		}
		m.n--
		if ok {
			delete(m.idx, ck)
		} else {
			m.nsym--
		}
	})
}

func (w *W) mapDelete(m *Map, k V) {
	if m == nil {
		return
	}
	e := w.mapFind(m, k)
	if e == nil {
		return
	}
	e.dead = true
	m.n--
	ck, ok := w.mapKey(e.k)
	if ok {
		delete(m.idx, ck)
	} else {
		m.nsym--
	}
	w.undoF(func() {
		e.dead = false
		m.n++
		if ok {
			m.idx[ck] = e
		} else {
			m.nsym++
		}
	})
}

// ---- equality ----

// eq returns bool or *Term.
func (w *W) eq(a, b V) V {
	ts := w.ts
	switch x := a.(type) {
	case uint64:
		switch y := b.(type) {
		case uint64:
			return x == y
		case *Term:
			return simp(ts.Eq(ts.Const(y.w, x), y))
		}
	case *Term:
		switch y := b.(type) {
		case uint64:
			return simp(ts.Eq(x, ts.Const(x.w, y)))
		case *Term:
			return simp(ts.Eq(x, y))
		case bool:
			return simp(ts.Eq(x, ts.Bool(y)))
		}
	case bool:
		switch y := b.(type) {
		case bool:
			return x == y
		case *Term:
			return simp(ts.Eq(ts.Bool(x), y))
		}
	case float64:
		switch y := b.(type) {
		case float64:
			return x == y
		case *SymFloat:
			return w.floatEq(a, b)
		}
	case *SymFloat:
		return w.floatEq(a, b)
	case complex128:
		if y, ok := b.(*SymComplex); ok {
			return w.both(w.eq(real(x), y.re), w.eq(imag(x), y.im))
		}
		return x == b.(complex128)
	case *SymComplex:
		re, im := complexParts(b)
		return w.both(w.eq(x.re, re), w.eq(x.im, im))
	case string, *SymStr, Slice:
		if s, ok := a.(string); ok {
			if t, ok := b.(string); ok {
				return s == t
			}
		}
		if sl, ok := a.(Slice); ok { // slice compared with nil
			if sl2, ok := b.(Slice); ok {
				if sl == nil || sl2 == nil {
					return sl == nil && sl2 == nil
				}
			}
		}
		n := strLen(a)
		if n != strLen(b) {
			return false
		}
		r := ts.tt
		for i := 0; i < n; i++ {
			r = ts.And(r, w.boolTerm(w.eq(strByte(a, i), strByte(b, i))))
			if r == ts.ff {
				return false
			}
		}
		return simp(r)
	case *V:
		switch y := b.(type) {
		case *V:
			return x == y
		case SymPtr, *SlicePtr:
			return false
		}
	case *SlicePtr:
		switch y := b.(type) {
		case *SlicePtr:
			if len(x.s) == 0 || len(y.s) == 0 {
				return len(x.s) == len(y.s)
			}
			return &x.s[0] == &y.s[0]
		default:
			return false
		}
	case *Map:
		return x == b.(*Map)
	case *Chan:
		return x == b.(*Chan)
	case *Closure:
		y := b.(*Closure)
		return x == y || (x != nil && y != nil && x.fn != nil && x.fn == y.fn && len(x.env) == 0)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			break
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if xr, ok := x.v.(RType); ok {
			if yr, ok := y.v.(RType); ok {
				return types.Identical(xr.t, yr.t)
			}
			return false
		}
		if !w.sameType(x.t, y.t) {
			return false
		}
		if !types.Comparable(x.t) {
			w.throw("comparing uncomparable type " + x.t.String())
		}
		return w.eq(x.v, y.v)
	case RType:
		return types.Identical(x.t, b.(RType).t)
	case Struct:
		y := b.(Struct)
		r := ts.tt
		for i := range x {
			r = ts.And(r, w.boolTerm(w.eq(x[i], y[i])))
			if r == ts.ff {
				return false
			}
		}
		return simp(r)
	case Array:
		y := b.(Array)
		r := ts.tt
		for i := range x {
			r = ts.And(r, w.boolTerm(w.eq(x[i], y[i])))
			if r == ts.ff {
				return false
			}
		}
		return simp(r)
	case RV:
		return false
	}
	w.unsupported(fmt.Sprintf("eq(%T, %T)", a, b))
	return nil
}

func (w *W) floatEq(a, b V) V {
	// IEEE equality approximated by bit equality, with NaN excluded and -0==+0 by forking
	x, y := w.floatBits(a), w.floatBits(b)
	if x.w != y.w {
		w.unsupported("float width mix")
	}
	var expMask, manMask, signMask uint64
	if x.w == 64 {
		expMask, manMask, signMask = 0x7ff<<52, 1<<52-1, 1<<63
	} else {
		expMask, manMask, signMask = 0xff<<23, 1<<23-1, 1<<31
	}
	ts := w.ts
	isNaN := func(t *Term) *Term {
		return ts.And(ts.Eq(ts.Bin(OBAnd, t, ts.Const(t.w, expMask)), ts.Const(t.w, expMask)),
			ts.Not(ts.Eq(ts.Bin(OBAnd, t, ts.Const(t.w, manMask)), ts.Const(t.w, 0))))
	}
	isZero := func(t *Term) *Term {
		return ts.Eq(ts.Bin(OBAnd, t, ts.Const(t.w, ^signMask)), ts.Const(t.w, 0))
	}
	e := ts.Or(ts.Eq(x, y), ts.And(isZero(x), isZero(y)))
	return simp(ts.And(e, ts.And(ts.Not(isNaN(x)), ts.Not(isNaN(y)))))
}

func simp(t *Term) V {
	if t.op == OConst {
		if t.w == 0 {
			return t.k != 0
		}
		return t.k
	}
	return t
}

func (w *W) boolTerm(v V) *Term {
	switch x := v.(type) {
	case bool:
		return w.ts.Bool(x)
	case *Term:
		return x
	}
	panic(fmt.Sprintf("boolTerm of %T", v))
}

func (w *W) term(v V, width uint8) *Term {
	switch x := v.(type) {
	case uint64:
		return w.ts.Const(width, x)
	case *Term:
		return x
	case bool:
		return w.ts.Bool(x)
	}
	panic(fmt.Sprintf("term of %T", v))
}

// ---- printing for diagnostics ----

func (w *W) show(v V, depth int) string {
	if depth > 4 {
		return "..."
	}
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case uint64:
		return fmt.Sprint(x)
	case string:
		return fmt.Sprintf("%q", x)
	case *SymStr:
		var p []string
		for _, b := range x.b {
			if u, ok := b.(uint64); ok {
				p = append(p, fmt.Sprintf("%q", rune(u)))
			} else {
				p = append(p, "?")
			}
		}
		return "sym[" + strings.Join(p, "") + "]"
	case *Term:
		s := x.String()
		if len(s) > 60 {
			s = s[:60] + "…"
		}
		return s
	case Slice:
		var p []string
		for i, e := range x {
			if i > 20 {
				p = append(p, "…")
				break
			}
			p = append(p, w.show(e, depth+1))
		}
		return "[" + strings.Join(p, " ") + "]"
	case Struct:
		var p []string
		for _, e := range x {
			p = append(p, w.show(e, depth+1))
		}
		return "{" + strings.Join(p, " ") + "}"
	case Array:
		return w.show(Slice(x), depth)
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return fmt.Sprintf("%v(%s)", x.t, w.show(x.v, depth+1))
	case *V:
		if x == nil {
			return "nil"
		}
		return "&" + w.show(*x, depth+1)
	case Tuple:
		return w.show(Slice(x), depth)
	}
	return fmt.Sprintf("%T", v)
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = ssa.NaiveForm

func complexParts(v V) (V, V) {
	switch x := v.(type) {
	case complex128:
		return real(x), imag(x)
	case *SymComplex:
		return x.re, x.im
	}
	panic(fmt.Sprintf("complex %T", v))
}

func mkComplex(re, im V) V {
	a, ok1 := re.(float64)
	b, ok2 := im.(float64)
	if ok1 && ok2 {
		return complex(a, b)
	}
	return &SymComplex{re, im}
}

func (w *W) both(a, b V) V { return simp(w.ts.And(w.boolTerm(a), w.boolTerm(b))) }
