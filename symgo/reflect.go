package main

import (
	"fmt"
	"go/types"
	"reflect"
	"regexp"
	"strings"
)

// Host model of package reflect over interpreted values.

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return reflect.Bool
		case types.Int, types.UntypedInt:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32, types.UntypedRune:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64, types.UntypedFloat:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String, types.UntypedString:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func (w *W) mkType(t types.Type) V {
	if t == nil {
		return Iface{}
	}
	return Iface{t: w.prog.rtypePtr, v: RType{t}}
}

var anyRe = regexp.MustCompile(`\bany\b`)

func typeString(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	if strings.Contains(s, "any") {
		s = anyRe.ReplaceAllString(s, "interface {}")
	}
	s = strings.ReplaceAll(s, "interface{", "interface {")
	return strings.ReplaceAll(s, "struct{", "struct {")
}

func rtypeArg(v V) types.Type {
	switch x := v.(type) {
	case Iface:
		if r, ok := x.v.(RType); ok {
			return r.t
		}
	case RType:
		return x.t
	}
	return nil
}

func (w *W) reflectPanic(s string) { w.throwPlain("reflect: " + s) }

func exportedMethods(w *W, t types.Type) []*types.Selection {
	ms := w.prog.prog.MethodSets.MethodSet(t)
	var out []*types.Selection
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			out = append(out, ms.At(i))
		}
	}
	return out
}

func (w *W) rtypeMethod(fr *Frame, r RType, name string, a []V) V {
	t := r.t
	bad := func() { w.reflectPanic(name + " of invalid type " + t.String()) }
	switch name {
	case "Kind":
		return uint64(kindOf(t))
	case "String":
		return typeString(t)
	case "Name":
		switch n := types.Unalias(t).(type) {
		case *types.Named:
			return n.Obj().Name()
		case *types.Basic:
			return n.Name()
		}
		return ""
	case "PkgPath":
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
		return ""
	case "Size":
		return uint64(sizeof(t))
	case "Align", "FieldAlign":
		return uint64(stdSizes.Alignof(t))
	case "Bits":
		return uint64(sizeof(t) * 8)
	case "Comparable":
		return types.Comparable(t)
	case "Elem":
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return w.mkType(u.Elem())
		case *types.Slice:
			return w.mkType(u.Elem())
		case *types.Array:
			return w.mkType(u.Elem())
		case *types.Map:
			return w.mkType(u.Elem())
		case *types.Chan:
			return w.mkType(u.Elem())
		}
		bad()
	case "Key":
		if u, ok := t.Underlying().(*types.Map); ok {
			return w.mkType(u.Key())
		}
		bad()
	case "Len":
		if u, ok := t.Underlying().(*types.Array); ok {
			return uint64(u.Len())
		}
		bad()
	case "NumField":
		if u, ok := t.Underlying().(*types.Struct); ok {
			return uint64(u.NumFields())
		}
		bad()
	case "Field":
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			bad()
		}
		return w.structField(u, int(w.concretize(a[0])))
	case "FieldByName":
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			bad()
		}
		n := str(a[0])
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == n {
				return Tuple{w.structField(u, i), true}
			}
		}
		return Tuple{zero(w.prog.lookupType("reflect", "StructField")), false}
	case "FieldByIndex":
		cur := t
		var sf V
		for _, x := range a[0].(Slice) {
			if p, ok := cur.Underlying().(*types.Pointer); ok {
				cur = p.Elem()
			}
			u := cur.Underlying().(*types.Struct)
			sf = w.structField(u, int(w.concretize(x)))
			cur = u.Field(int(w.concretize(x))).Type()
		}
		return sf
	case "NumMethod":
		if it, ok := t.Underlying().(*types.Interface); ok {
			return uint64(it.NumMethods())
		}
		return uint64(len(exportedMethods(w, t)))
	case "Method":
		ms := exportedMethods(w, t)
		return w.reflectMethod(ms[int(w.concretize(a[0]))], int(w.concretize(a[0])))
	case "MethodByName":
		ms := exportedMethods(w, t)
		for i, m := range ms {
			if m.Obj().Name() == str(a[0]) {
				return Tuple{w.reflectMethod(m, i), true}
			}
		}
		return Tuple{zero(w.prog.lookupType("reflect", "Method")), false}
	case "NumIn":
		if s, ok := t.Underlying().(*types.Signature); ok {
			return uint64(s.Params().Len())
		}
		bad()
	case "NumOut":
		if s, ok := t.Underlying().(*types.Signature); ok {
			return uint64(s.Results().Len())
		}
		bad()
	case "In", "Out":
		s, ok := t.Underlying().(*types.Signature)
		if !ok {
			bad()
		}
		i := int(int64(w.concretize(a[0])))
		tp := s.Params()
		if name == "Out" {
			tp = s.Results()
		}
		if i < 0 || i >= tp.Len() {
			w.throw(fmt.Sprintf("index out of range [%d] with length %d", i, tp.Len()))
		}
		return w.mkType(tp.At(i).Type())
	case "IsVariadic":
		s, ok := t.Underlying().(*types.Signature)
		if !ok {
			bad()
		}
		return s.Variadic()
	case "Implements":
		u := rtypeArg(a[0])
		it, ok := u.Underlying().(*types.Interface)
		if !ok {
			w.reflectPanic("non-interface type passed to Type.Implements")
		}
		return types.Implements(t, it)
	case "AssignableTo":
		return types.AssignableTo(t, rtypeArg(a[0]))
	case "ConvertibleTo":
		return types.ConvertibleTo(t, rtypeArg(a[0]))
	case "OverflowInt", "OverflowUint":
		return w.overflow(t, a[0])
	case "OverflowFloat":
		return false
	case "ChanDir":
		return uint64(3)
	case "common", "uncommon":
		return (*V)(nil)
	}
	w.unsupported("reflect.Type." + name)
	return nil
}

func (w *W) reflectMethod(s *types.Selection, i int) V {
	m := zero(w.prog.lookupType("reflect", "Method")).(Struct)
	m[0] = s.Obj().Name()
	m[2] = w.mkType(s.Type())
	fn := w.prog.prog.MethodValue(s)
	sig := types.NewSignatureType(nil, nil, nil, nil, nil, false)
	m[3] = RV{t: sig, v: &Closure{fn: w.fn(fn)}}
	m[4] = uint64(i)
	return m
}

func (w *W) structField(u *types.Struct, i int) V {
	f := u.Field(i)
	sf := zero(w.prog.lookupType("reflect", "StructField")).(Struct)
	sf[0] = f.Name()
	if !f.Exported() && f.Pkg() != nil {
		sf[1] = f.Pkg().Path()
	}
	sf[2] = w.mkType(f.Type())
	sf[3] = u.Tag(i)
	var fields []*types.Var
	for k := 0; k < u.NumFields(); k++ {
		fields = append(fields, u.Field(k))
	}
	sf[4] = uint64(0)
	func() {
		defer func() { recover() }()
		sf[4] = uint64(stdSizes.Offsetsof(fields)[i])
	}()
	sf[5] = Slice{uint64(i)}
	sf[6] = f.Embedded()
	return sf
}

func (w *W) overflow(t types.Type, x V) V {
	wd, signed, _ := intInfo(t)
	if wd >= 64 {
		return false
	}
	v := w.term(x, 64)
	tr := w.ts.Extract(v, 0, wd)
	var back *Term
	if signed {
		back = w.ts.SExt(tr, 64)
	} else {
		back = w.ts.ZExt(tr, 64)
	}
	return simp(w.ts.Not(w.ts.Eq(back, v)))
}

func (r RV) val() V {
	if r.addr != nil {
		return *r.addr
	}
	return r.v
}

func (w *W) rv(v V) RV {
	switch x := v.(type) {
	case RV:
		return x
	case *V: // *reflect.Value receiver
		return (*x).(RV)
	}
	panic(fmt.Sprintf("rv of %T", v))
}

func (w *W) mustAssign(r RV, what string) {
	if r.t == nil {
		w.reflectPanic("call of reflect.Value." + what + " on zero Value")
	}
	if r.addr == nil {
		w.throwPlain("reflect: reflect.Value." + what + " using unaddressable value")
	}
	if r.ro {
		w.throwPlain("reflect: reflect.Value." + what + " using value obtained using unexported field")
	}
}

// toIfaceVal converts value v of type t for storage in a location of type dst.
func (w *W) assignTo(r RV, dst types.Type) V {
	if r.t == nil {
		w.reflectPanic("call using zero Value argument")
	}
	v := copyVal(r.val())
	if _, ok := dst.Underlying().(*types.Interface); ok {
		if _, src := r.t.Underlying().(*types.Interface); src {
			return v
		}
		if !types.AssignableTo(r.t, dst) {
			w.throwPlain("reflect.Set: value of type " + typeString(r.t) + " is not assignable to type " + typeString(dst))
		}
		return w.boxIface(r.t, v)
	}
	if !types.AssignableTo(r.t, dst) {
		w.throwPlain("reflect.Set: value of type " + typeString(r.t) + " is not assignable to type " + typeString(dst))
	}
	return v
}

func (w *W) boxIface(t types.Type, v V) V { return Iface{t, v} }

func (w *W) signed64(v V, t types.Type) V {
	wd, signed, _ := intInfo(t)
	switch x := v.(type) {
	case uint64:
		if signed {
			return uint64(sext(x, wd))
		}
		return x
	case *Term:
		if signed {
			return simp(w.ts.SExt(x, 64))
		}
		return simp(w.ts.ZExt(x, 64))
	}
	panic("signed64")
}
func (w *W) trunc(v V, t types.Type) V {
	wd, _, _ := intInfo(t)
	switch x := v.(type) {
	case uint64:
		return x & mask(wd)
	case *Term:
		return simp(w.ts.Extract(x, 0, wd))
	}
	panic("trunc")
}

func reflectIntrinsic(name string) intr {
	n := name
	switch {
	case strings.HasPrefix(n, "(reflect.Value)."):
		m := n[len("(reflect.Value)."):]
		return func(w *W, fr *Frame, a []V) V { return w.rvMethod(fr, w.rv(a[0]), m, a[1:]) }
	case strings.HasPrefix(n, "(*reflect.Value)."):
		m := n[len("(*reflect.Value)."):]
		return func(w *W, fr *Frame, a []V) V { return w.rvMethod(fr, w.rv(a[0]), m, a[1:]) }
	case strings.HasPrefix(n, "(internal/reflectlite.Value)."):
		m := n[len("(internal/reflectlite.Value)."):]
		return func(w *W, fr *Frame, a []V) V { return w.rvMethod(fr, w.rv(a[0]), m, a[1:]) }
	case strings.HasPrefix(n, "(*reflect.MapIter)."):
		m := n[len("(*reflect.MapIter)."):]
		return func(w *W, fr *Frame, a []V) V { return w.mapIterMethod(fr, cellOf(a[0]), m, a[1:]) }
	case strings.HasPrefix(n, "(*reflect.rtype)."):
		m := n[len("(*reflect.rtype)."):]
		return func(w *W, fr *Frame, a []V) V {
			if r, ok := a[0].(RType); ok {
				return w.rtypeMethod(fr, r, m, a[1:])
			}
			w.unsupported("rtype method on " + fmt.Sprintf("%T", a[0]))
			return nil
		}
	}
	return nil
}

type mapIterSt struct {
	r   RV
	it  *MapIter
	cur *mapEnt
}

func (w *W) mapIterMethod(fr *Frame, p *V, m string, a []V) V {
	st, ok := w.side["mi"].(map[*V]*mapIterSt)
	if !ok {
		st = map[*V]*mapIterSt{}
		w.side["mi"] = st
	}
	s := st[p]
	if s == nil {
		w.unsupported("reflect.MapIter without MapRange")
	}
	mt := s.r.t.Underlying().(*types.Map)
	switch m {
	case "Next":
		for s.it.pos < len(s.it.ents) {
			e := s.it.ents[s.it.pos]
			s.it.pos++
			if !e.dead {
				s.cur = e
				return true
			}
		}
		s.cur = nil
		return false
	case "Key":
		return RV{t: mt.Key(), v: copyVal(s.cur.k), ro: s.r.ro}
	case "Value":
		return RV{t: mt.Elem(), v: copyVal(s.cur.v), ro: s.r.ro}
	}
	w.unsupported("reflect.MapIter." + m)
	return nil
}

func (w *W) rvMethod(fr *Frame, r RV, m string, a []V) V {
	kind := reflect.Invalid
	if r.t != nil {
		kind = kindOf(r.t)
	}
	bad := func() {
		k := kind.String()
		if r.t == nil {
			w.throwPlain("reflect: call of reflect.Value." + m + " on zero Value")
		}
		w.throwPlain("reflect: call of reflect.Value." + m + " on " + k + " Value")
	}
	switch m {
	case "IsValid":
		return r.t != nil
	case "Kind", "kind":
		return uint64(kind)
	case "Type":
		if r.t == nil {
			bad()
		}
		return w.mkType(r.t)
	case "CanAddr":
		return r.addr != nil
	case "CanSet":
		return r.addr != nil && !r.ro
	case "CanInterface":
		if r.t == nil {
			bad()
		}
		return !r.ro
	case "CanInt":
		return kind >= reflect.Int && kind <= reflect.Int64
	case "CanUint":
		return kind >= reflect.Uint && kind <= reflect.Uintptr
	case "CanFloat":
		return kind == reflect.Float32 || kind == reflect.Float64
	case "CanComplex":
		return kind == reflect.Complex64 || kind == reflect.Complex128
	case "Interface":
		if r.t == nil {
			bad()
		}
		if r.ro {
			w.throwPlain("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		if kind == reflect.Interface {
			return r.val()
		}
		return Iface{r.t, copyVal(r.val())}
	case "String":
		if kind == reflect.String {
			return r.val()
		}
		if r.t == nil {
			return "<invalid Value>"
		}
		return "<" + typeString(r.t) + " Value>"
	case "Bool":
		if kind != reflect.Bool {
			bad()
		}
		return r.val()
	case "Int":
		if kind < reflect.Int || kind > reflect.Int64 {
			bad()
		}
		return w.signed64(r.val(), r.t)
	case "Uint":
		if kind < reflect.Uint || kind > reflect.Uintptr {
			bad()
		}
		return w.signed64(r.val(), r.t)
	case "Float":
		if kind != reflect.Float32 && kind != reflect.Float64 {
			bad()
		}
		v := r.val()
		if sf, ok := v.(*SymFloat); ok && sf.bits.w == 32 {
			return w.concFloat(v, r.t)
		}
		return v
	case "Complex":
		return r.val()
	case "Bytes":
		switch kind {
		case reflect.Slice:
			return r.val()
		case reflect.Array:
			if r.addr != nil {
				x := (*r.addr).(Array)
				return Slice(x[:len(x):len(x)])
			}
		}
		bad()
	case "IsNil":
		switch x := r.val().(type) {
		case *V:
			return x == nil
		case *Map:
			return x == nil
		case *Chan:
			return x == nil
		case *Closure:
			return x == nil
		case Slice:
			return x == nil
		case Iface:
			return x.t == nil
		}
		bad()
	case "IsZero":
		if r.t == nil {
			bad()
		}
		return w.isZero(r.val(), r.t)
	case "Elem":
		switch kind {
		case reflect.Interface:
			i := r.val().(Iface)
			if i.t == nil {
				return RV{}
			}
			return RV{t: i.t, v: i.v, ro: r.ro}
		case reflect.Pointer:
			switch p := r.val().(type) {
			case *V:
				if p == nil {
					return RV{}
				}
				return RV{t: r.t.Underlying().(*types.Pointer).Elem(), addr: p, ro: r.ro}
			}
			w.unsupported("reflect Elem of odd pointer")
		}
		bad()
	case "NumField":
		if kind != reflect.Struct {
			bad()
		}
		return uint64(r.t.Underlying().(*types.Struct).NumFields())
	case "Field":
		if kind != reflect.Struct {
			bad()
		}
		return w.rvField(r, int(w.concretize(a[0])))
	case "FieldByName":
		u := r.t.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == str(a[0]) {
				return w.rvField(r, i)
			}
		}
		return RV{}
	case "FieldByIndex":
		cur := r
		for k, x := range a[0].(Slice) {
			if k > 0 && kindOf(cur.t) == reflect.Pointer {
				cur = w.rvMethod(fr, cur, "Elem", nil).(RV)
			}
			cur = w.rvField(cur, int(w.concretize(x)))
		}
		return cur
	case "Len":
		switch x := r.val().(type) {
		case Slice:
			return uint64(len(x))
		case Array:
			return uint64(len(x))
		case string, *SymStr:
			return uint64(strLen(x))
		case *Map:
			if x == nil {
				return zeroU
			}
			return uint64(x.n)
		case *Chan:
			return uint64(len(x.buf))
		case *V:
			if x != nil {
				if arr, ok := (*x).(Array); ok {
					return uint64(len(arr))
				}
			}
		}
		bad()
	case "Cap":
		switch x := r.val().(type) {
		case Slice:
			return uint64(cap(x))
		case Array:
			return uint64(len(x))
		}
		bad()
	case "Index":
		i := a[0]
		switch kind {
		case reflect.Slice:
			s := r.val().(Slice)
			k, t := w.index(i, types.Typ[types.Int], len(s))
			if t != nil {
				k = int(w.concretize(t))
			}
			return RV{t: r.t.Underlying().(*types.Slice).Elem(), addr: &s[k], ro: r.ro}
		case reflect.Array:
			arr := r.val().(Array)
			k, t := w.index(i, types.Typ[types.Int], len(arr))
			if t != nil {
				k = int(w.concretize(t))
			}
			e := RV{t: r.t.Underlying().(*types.Array).Elem(), ro: r.ro}
			if r.addr != nil {
				e.addr = &arr[k]
			} else {
				e.v = arr[k]
			}
			return e
		case reflect.String:
			return RV{t: types.Typ[types.Uint8], v: w.strIndex(r.val(), i, types.Typ[types.Int])}
		}
		bad()
	case "Addr":
		if r.addr == nil {
			w.throwPlain("reflect.Value.Addr of unaddressable value")
		}
		return RV{t: types.NewPointer(r.t), v: r.addr, ro: r.ro}
	case "Set":
		w.mustAssign(r, "Set")
		w.store(r.addr, w.assignTo(w.rv(a[0]), r.t))
		return nil
	case "SetZero":
		w.mustAssign(r, "SetZero")
		w.store(r.addr, zero(r.t))
		return nil
	case "SetBool", "SetString", "SetBytes", "SetComplex":
		w.mustAssign(r, m)
		if m == "SetBool" && kind != reflect.Bool || m == "SetString" && kind != reflect.String || m == "SetBytes" && kind != reflect.Slice {
			bad()
		}
		w.store(r.addr, a[0])
		return nil
	case "SetFloat":
		w.mustAssign(r, m)
		v := a[0]
		if kind == reflect.Float32 {
			v = float64(float32(w.concFloat(v, types.Typ[types.Float64]).(float64)))
		} else if kind != reflect.Float64 {
			bad()
		}
		w.store(r.addr, v)
		return nil
	case "SetInt":
		w.mustAssign(r, m)
		if kind < reflect.Int || kind > reflect.Int64 {
			bad()
		}
		w.store(r.addr, w.trunc(a[0], r.t))
		return nil
	case "SetUint":
		w.mustAssign(r, m)
		if kind < reflect.Uint || kind > reflect.Uintptr {
			bad()
		}
		w.store(r.addr, w.trunc(a[0], r.t))
		return nil
	case "SetLen":
		w.mustAssign(r, m)
		s := (*r.addr).(Slice)
		n := int(int64(w.concretize(a[0])))
		if n < 0 || n > cap(s) {
			w.throwPlain("reflect: slice length out of range in SetLen")
		}
		w.store(r.addr, s[:n])
		return nil
	case "SetCap":
		w.mustAssign(r, m)
		s := (*r.addr).(Slice)
		n := int(int64(w.concretize(a[0])))
		if n < len(s) || n > cap(s) {
			w.throwPlain("reflect: slice capacity out of range in SetCap")
		}
		w.store(r.addr, s[:len(s):n])
		return nil
	case "Grow":
		w.mustAssign(r, m)
		s := (*r.addr).(Slice)
		n := int(int64(w.concretize(a[0])))
		if n < 0 {
			w.throwPlain("reflect.Value.Grow: negative len")
		}
		w.checkAlloc(fr, a[0], types.Typ[types.Int], sizeof(elemOf(r.t)), "grow")
		if len(s)+n > cap(s) {
			x := makeSlice(elemOf(r.t), len(s)+n, max(growCap(cap(s), len(s)+n), len(s)+n))
			copy(x, s)
			for i := range s {
				x[i] = copyVal(s[i])
			}
			w.store(r.addr, x[:len(s)])
		}
		return nil
	case "Slice":
		lo, hi := int64(w.concretize(a[0])), int64(w.concretize(a[1]))
		switch kind {
		case reflect.Slice, reflect.String:
			return RV{t: r.t, v: w.slice(r.val(), lo, hi, -1, true, true, false)}
		case reflect.Array:
			return RV{t: types.NewSlice(elemOf(r.t)), v: w.slice(r.addr, lo, hi, -1, true, true, false)}
		}
		bad()
	case "MapKeys":
		mp, ok := r.val().(*Map)
		if !ok {
			bad()
		}
		kt := r.t.Underlying().(*types.Map).Key()
		out := Slice{}
		if mp != nil {
			for _, e := range mp.ents {
				if !e.dead {
					out = append(out, RV{t: kt, v: copyVal(e.k), ro: r.ro})
				}
			}
		}
		return out
	case "MapRange":
		mp, ok := r.val().(*Map)
		if !ok {
			bad()
		}
		p := new(V)
		*p = Struct{}
		it := &MapIter{m: mp}
		if mp != nil {
			for _, e := range mp.ents {
				if !e.dead {
					it.ents = append(it.ents, e)
				}
			}
		}
		st, ok := w.side["mi"].(map[*V]*mapIterSt)
		if !ok {
			st = map[*V]*mapIterSt{}
			w.side["mi"] = st
		}
		st[p] = &mapIterSt{r: r, it: it}
		return p
	case "MapIndex":
		mp, ok := r.val().(*Map)
		if !ok {
			bad()
		}
		mt := r.t.Underlying().(*types.Map)
		e := w.mapFind(mp, w.assignTo(w.rv(a[0]), mt.Key()))
		if e == nil {
			return RV{}
		}
		return RV{t: mt.Elem(), v: copyVal(e.v), ro: r.ro}
	case "SetMapIndex":
		mp, ok := r.val().(*Map)
		if !ok {
			bad()
		}
		mt := r.t.Underlying().(*types.Map)
		k := w.assignTo(w.rv(a[0]), mt.Key())
		e := w.rv(a[1])
		if e.t == nil {
			w.mapDelete(mp, k)
			return nil
		}
		if mp == nil {
			w.throwPlain("assignment to entry in nil map")
		}
		w.checkHashable(k)
		w.mapSet(mp, k, w.assignTo(e, mt.Elem()))
		return nil
	case "SetIterKey", "SetIterValue":
		mm := "Key"
		if m == "SetIterValue" {
			mm = "Value"
		}
		v := w.mapIterMethod(fr, cellOf(a[0]), mm, nil).(RV)
		w.store(r.addr, w.assignTo(v, r.t))
		return nil
	case "NumMethod":
		if it, ok := r.t.Underlying().(*types.Interface); ok {
			return uint64(it.NumMethods())
		}
		return uint64(len(exportedMethods(w, r.t)))
	case "Method", "MethodByName":
		ms := exportedMethods(w, r.t)
		for i, s := range ms {
			if m == "Method" && uint64(i) == w.concretize(a[0]) || m == "MethodByName" && s.Obj().Name() == str(a[0]) {
				recv := Iface{r.t, copyVal(r.val())}
				f := s.Obj().(*types.Func)
				return RV{t: f.Type().(*types.Signature), v: &Closure{native: func(w *W, g *G, args []V) V {
					return w.invoke(&Frame{w: w, g: g, fn: fr.fn, caller: g.fr}, recv, f, append([]V{nil}, args...))
				}}}
			}
		}
		return RV{}
	case "Call", "CallSlice":
		if kind != reflect.Func {
			bad()
		}
		return w.rvCall(fr, r, a[0].(Slice), m == "CallSlice")
	case "Convert":
		to := rtypeArg(a[0])
		if !types.ConvertibleTo(r.t, to) {
			w.throwPlain("reflect.Value.Convert: value of type " + typeString(r.t) + " cannot be converted to type " + typeString(to))
		}
		if _, ok := to.Underlying().(*types.Interface); ok {
			return RV{t: to, v: w.assignTo(r, to)}
		}
		return RV{t: to, v: w.convert(fr, copyVal(r.val()), r.t, to), ro: r.ro}
	case "CanConvert":
		return types.ConvertibleTo(r.t, rtypeArg(a[0]))
	case "Comparable":
		if r.t == nil {
			return true
		}
		return types.Comparable(r.t)
	case "Equal":
		o := w.rv(a[0])
		if r.t == nil || o.t == nil {
			return r.t == nil && o.t == nil
		}
		if !types.Identical(r.t, o.t) {
			return false
		}
		return w.eqT(r.val(), o.val())
	case "OverflowInt", "OverflowUint":
		return w.overflow(r.t, a[0])
	case "OverflowFloat":
		if kind == reflect.Float32 {
			f := w.concFloat(a[0], types.Typ[types.Float64]).(float64)
			return reflect.ValueOf(float32(0)).OverflowFloat(f)
		}
		return false
	case "Pointer", "UnsafePointer", "UnsafeAddr", "pointer":
		v := r.val()
		switch x := v.(type) {
		case *V, *Map, *Chan, *Closure:
			return x
		case Slice:
			return &SlicePtr{x}
		}
		bad()
	case "Send", "Recv", "TrySend", "TryRecv", "Close":
		w.unsupported("reflect.Value." + m)
	case "typ", "abiType":
		return (*V)(nil)
	}
	w.unsupported("reflect.Value." + m)
	return nil
}

func (w *W) rvField(r RV, i int) RV {
	u := r.t.Underlying().(*types.Struct)
	f := u.Field(i)
	st, ok := r.val().(Struct)
	if !ok {
		w.unsupported(fmt.Sprintf("reflect field of %T", r.val()))
	}
	e := RV{t: f.Type(), ro: r.ro || !f.Exported()}
	if r.addr != nil {
		e.addr = &st[i]
	} else {
		e.v = st[i]
	}
	return e
}

func (w *W) isZero(v V, t types.Type) V {
	switch x := v.(type) {
	case Struct:
		u := t.Underlying().(*types.Struct)
		r := w.ts.tt
		for i := range x {
			r = w.ts.And(r, w.boolTerm(w.isZero(x[i], u.Field(i).Type())))
		}
		return simp(r)
	case Array:
		r := w.ts.tt
		for i := range x {
			r = w.ts.And(r, w.boolTerm(w.isZero(x[i], elemOf(t))))
		}
		return simp(r)
	case Slice:
		return x == nil
	case Iface:
		return x.t == nil
	case *Map:
		return x == nil
	case *Chan:
		return x == nil
	case *Closure:
		return x == nil
	case *V:
		return x == nil
	case string, *SymStr:
		return strLen(x) == 0
	case *SymFloat:
		return simp(w.ts.Eq(x.bits, w.ts.Const(x.bits.w, 0)))
	case RV:
		return x.t == nil
	}
	return w.eq(v, zero(t))
}

func (w *W) rvCall(fr *Frame, r RV, in Slice, slice bool) V {
	sig := r.t.Underlying().(*types.Signature)
	cl, _ := r.val().(*Closure)
	if cl == nil {
		w.throwPlain("reflect: call of nil function")
	}
	n := sig.Params().Len()
	if sig.Variadic() && !slice {
		if len(in) < n-1 {
			w.throwPlain("reflect: Call with too few input arguments")
		}
		st := sig.Params().At(n - 1).Type().(*types.Slice)
		var rest Slice
		for _, x := range in[n-1:] {
			rest = append(rest, w.assignTo(w.rv(x), st.Elem()))
		}
		in = append(append(Slice(nil), in[:n-1]...), RV{t: st, v: rest})
	} else {
		if slice && !sig.Variadic() {
			w.throwPlain("reflect: CallSlice of non-variadic function")
		}
		if len(in) < n {
			w.throwPlain("reflect: Call with too few input arguments")
		}
		if len(in) > n {
			w.throwPlain("reflect: Call with too many input arguments")
		}
	}
	args := make([]V, n)
	for i := range args {
		x := w.rv(in[i])
		if x.t == nil {
			w.throwPlain("reflect: Call using zero Value argument")
		}
		args[i] = w.assignTo(x, sig.Params().At(i).Type())
	}
	res := w.callV(fr.g, fr, cl, args)
	no := sig.Results().Len()
	out := make(Slice, no)
	switch no {
	case 0:
	case 1:
		out[0] = RV{t: sig.Results().At(0).Type(), v: res}
	default:
		for i := range out {
			out[i] = RV{t: sig.Results().At(i).Type(), v: res.(Tuple)[i]}
		}
	}
	if no == 0 {
		return Slice(nil)
	}
	return out
}

func init() {
	typeOf := func(w *W, fr *Frame, a []V) V {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return w.mkType(i.t)
	}
	reg("reflect.TypeOf internal/reflectlite.TypeOf", typeOf)
	reg("reflect.ValueOf internal/reflectlite.ValueOf", func(w *W, fr *Frame, a []V) V {
		i := a[0].(Iface)
		if i.t == nil {
			return RV{}
		}
		return RV{t: i.t, v: i.v}
	})
	reg("reflect.New", func(w *W, fr *Frame, a []V) V {
		t := rtypeArg(a[0])
		if t == nil {
			w.reflectPanic("New(nil)")
		}
		p := new(V)
		*p = zero(t)
		return RV{t: types.NewPointer(t), v: p}
	})
	reg("reflect.Zero", func(w *W, fr *Frame, a []V) V {
		t := rtypeArg(a[0])
		return RV{t: t, v: zero(t)}
	})
	reg("reflect.PointerTo reflect.PtrTo", func(w *W, fr *Frame, a []V) V { return w.mkType(types.NewPointer(rtypeArg(a[0]))) })
	reg("reflect.SliceOf", func(w *W, fr *Frame, a []V) V { return w.mkType(types.NewSlice(rtypeArg(a[0]))) })
	reg("reflect.MapOf", func(w *W, fr *Frame, a []V) V { return w.mkType(types.NewMap(rtypeArg(a[0]), rtypeArg(a[1]))) })
	reg("reflect.ArrayOf", func(w *W, fr *Frame, a []V) V {
		return w.mkType(types.NewArray(rtypeArg(a[1]), int64(w.concretize(a[0]))))
	})
	reg("reflect.Indirect", func(w *W, fr *Frame, a []V) V {
		r := w.rv(a[0])
		if r.t != nil && kindOf(r.t) == reflect.Pointer {
			return w.rvMethod(fr, r, "Elem", nil)
		}
		return r
	})
	reg("reflect.MakeSlice", func(w *W, fr *Frame, a []V) V {
		t := rtypeArg(a[0])
		et := elemOf(t)
		esz := sizeof(et)
		// negative lengths panic
		for i, nm := range []string{"len", "cap"} {
			v := a[1+i]
			if tm, ok := v.(*Term); ok {
				if w.branch(simp(w.ts.Slt(tm, w.ts.Const(64, 0)))) {
					w.throwPlain("reflect.MakeSlice: negative " + nm)
				}
			} else if int64(v.(uint64)) < 0 {
				w.throwPlain("reflect.MakeSlice: negative " + nm)
			}
		}
		n := w.makeLen(fr, a[1], types.Typ[types.Int], esz, "len")
		c := w.makeLen(fr, a[2], types.Typ[types.Int], esz, "cap")
		if n > c {
			w.throwPlain("reflect.MakeSlice: len > cap")
		}
		return RV{t: t, v: makeSlice(et, n, c)}
	})
	mkMap := func(w *W, fr *Frame, a []V) V {
		t := rtypeArg(a[0])
		if len(a) > 1 {
			mt := t.Underlying().(*types.Map)
			w.checkAlloc(fr, a[1], types.Typ[types.Int], sizeof(mt.Key())+sizeof(mt.Elem()), "map")
		}
		return RV{t: t, v: newMap()}
	}
	reg("reflect.MakeMap reflect.MakeMapWithSize", mkMap)
	reg("reflect.MakeChan", func(w *W, fr *Frame, a []V) V {
		return RV{t: rtypeArg(a[0]), v: w.newChan(int(w.concretize(a[1])))}
	})
	reg("reflect.MakeFunc", func(w *W, fr *Frame, a []V) V {
		t := rtypeArg(a[0])
		f := a[1].(*Closure)
		sig := t.Underlying().(*types.Signature)
		return RV{t: t, v: &Closure{native: func(w *W, g *G, args []V) V {
			in := make(Slice, len(args))
			for i := range args {
				in[i] = RV{t: sig.Params().At(i).Type(), v: args[i]}
			}
			out := w.callV(g, nil, f, []V{in}).(Slice)
			switch len(out) {
			case 0:
				return nil
			case 1:
				return w.assignTo(w.rv(out[0]), sig.Results().At(0).Type())
			}
			tp := make(Tuple, len(out))
			for i := range out {
				tp[i] = w.assignTo(w.rv(out[i]), sig.Results().At(i).Type())
			}
			return tp
		}}}
	})
	reg("reflect.Append", func(w *W, fr *Frame, a []V) V {
		r := w.rv(a[0])
		et := elemOf(r.t)
		var add []V
		for _, x := range a[1].(Slice) {
			add = append(add, w.assignTo(w.rv(x), et))
		}
		return RV{t: r.t, v: w.appendSlice(r.val().(Slice), add, et)}
	})
	reg("reflect.AppendSlice", func(w *W, fr *Frame, a []V) V {
		r := w.rv(a[0])
		return RV{t: r.t, v: w.appendSlice(r.val().(Slice), w.rv(a[1]).val().(Slice), elemOf(r.t))}
	})
	reg("reflect.Copy", func(w *W, fr *Frame, a []V) V {
		get := func(r RV) []V {
			switch x := r.val().(type) {
			case Slice:
				return x
			case Array:
				return x
			case string, *SymStr:
				return strBytes(x)
			}
			panic("reflect.Copy")
		}
		d, s := get(w.rv(a[0])), get(w.rv(a[1]))
		n := min(len(d), len(s))
		w.copySlice(d[:n], s[:n])
		return uint64(n)
	})
	reg("reflect.Swapper internal/reflectlite.Swapper", func(w *W, fr *Frame, a []V) V {
		s := a[0].(Iface).v.(Slice)
		return &Closure{native: func(w *W, g *G, args []V) V {
			i, j := w.concretize(args[0]), w.concretize(args[1])
			x, y := copyVal(s[i]), copyVal(s[j])
			w.store(&s[i], y)
			w.store(&s[j], x)
			return nil
		}}
	})
	reg("reflect.DeepEqual", func(w *W, fr *Frame, a []V) V {
		x, y := a[0].(Iface), a[1].(Iface)
		return w.deepEq(x, y, 0)
	})
	reg("reflect.VisibleFields", func(w *W, fr *Frame, a []V) V { w.unsupported("reflect.VisibleFields"); return nil })
}

// deepEq is reflect.DeepEqual; the result may be symbolic.
func (w *W) deepEq(a, b V, depth int) V {
	if depth > 40 {
		w.unsupported("deep DeepEqual")
	}
	switch x := a.(type) {
	case Iface:
		y := b.(Iface)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if !w.sameType(x.t, y.t) {
			return false
		}
		return w.deepEq(x.v, y.v, depth+1)
	case *V:
		y, ok := b.(*V)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x == nil || y == nil {
			return false
		}
		return w.deepEq(*x, *y, depth+1)
	case Slice:
		y := b.(Slice)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return false
		}
		return w.deepAll(x, y, depth)
	case Array:
		return w.deepAll(x, b.(Array), depth)
	case Struct:
		return w.deepAll(x, b.(Struct), depth)
	case *Map:
		y := b.(*Map)
		if x == nil || y == nil {
			return x == nil && y == nil
		}
		if x.n != y.n {
			return false
		}
		r := w.ts.tt
		for _, e := range x.ents {
			if e.dead {
				continue
			}
			f := w.mapFind(y, e.k)
			if f == nil {
				return false
			}
			r = w.ts.And(r, w.boolTerm(w.deepEq(e.v, f.v, depth+1)))
		}
		return simp(r)
	case *Closure:
		y := b.(*Closure)
		return x == nil && y == nil
	}
	return w.eqT(a, b)
}

func (w *W) deepAll(x, y []V, depth int) V {
	r := w.ts.tt
	for i := range x {
		r = w.ts.And(r, w.boolTerm(w.deepEq(x[i], y[i], depth+1)))
		if r == w.ts.ff {
			return false
		}
	}
	return simp(r)
}
