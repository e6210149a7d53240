package main

import (
	"go/types"
	"strings"
)

// Emulation of package reflect over interpreted values: a reflect.Value is a structV whose first field holds an *rval.

type rval struct {
	t    types.Type
	cell *Value // addressable storage, or nil
	v    Value
	ro   bool
}

func (r *rval) get() Value {
	if r.cell != nil {
		return *r.cell
	}
	return r.v
}

const (
	rkInvalid = iota
	rkBool
	rkInt
	rkInt8
	rkInt16
	rkInt32
	rkInt64
	rkUint
	rkUint8
	rkUint16
	rkUint32
	rkUint64
	rkUintptr
	rkFloat32
	rkFloat64
	rkComplex64
	rkComplex128
	rkArray
	rkChan
	rkFunc
	rkInterface
	rkMap
	rkPointer
	rkSlice
	rkString
	rkStruct
	rkUnsafePointer
)

var basicRK = map[types.BasicKind]int{types.Bool: rkBool, types.Int: rkInt, types.Int8: rkInt8, types.Int16: rkInt16, types.Int32: rkInt32, types.Int64: rkInt64,
	types.Uint: rkUint, types.Uint8: rkUint8, types.Uint16: rkUint16, types.Uint32: rkUint32, types.Uint64: rkUint64, types.Uintptr: rkUintptr,
	types.Float32: rkFloat32, types.Float64: rkFloat64, types.Complex64: rkComplex64, types.Complex128: rkComplex128, types.String: rkString, types.UnsafePointer: rkUnsafePointer}

func rkind(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return basicRK[u.Kind()]
	case *types.Pointer:
		return rkPointer
	case *types.Slice:
		return rkSlice
	case *types.Map:
		return rkMap
	case *types.Chan:
		return rkChan
	case *types.Signature:
		return rkFunc
	case *types.Interface:
		return rkInterface
	case *types.Struct:
		return rkStruct
	case *types.Array:
		return rkArray
	}
	return rkInvalid
}

func (w *Worker) rtypeOf(t types.Type) Value {
	t = w.canon(t)
	o := w.rtypes[t]
	if o == nil {
		o = &rtypeObj{t}
		w.rtypes[t] = o
	}
	rt := w.eng.namedType("reflect", "rtype")
	if rt == nil {
		w.unsupported("package reflect not loaded")
	}
	return Value{p: &ifaceV{t: w.canon(types.NewPointer(rt)), v: Value{p: o}}}
}

func mkRV(r *rval) Value {
	if r == nil {
		return Value{p: structV{Value{}, Value{}, Value{}}}
	}
	return Value{p: structV{Value{p: r}, Value{}, Value{n: 1}}}
}

func (w *Worker) rv(v Value) *rval {
	r, _ := v.p.(structV)[0].p.(*rval)
	return r
}

func (w *Worker) rvOK(v Value, what string) *rval {
	r := w.rv(v)
	if r == nil {
		w.rtPanic("reflect: call of reflect.Value." + what + " on zero Value")
	}
	return r
}

// typeArg reads a reflect.Type interface value (or the *rtype receiver).
func (w *Worker) typeArg(v Value) types.Type {
	switch x := v.p.(type) {
	case *ifaceV:
		if o, ok := x.v.p.(*rtypeObj); ok {
			return o.t
		}
	case *rtypeObj:
		return x.t
	case nil:
		w.nilDeref()
	}
	w.unsupported("reflect.Type of unknown form")
	return nil
}

func (w *Worker) toIface(t types.Type, v Value) Value {
	if rkind(t) == rkInterface {
		return v
	}
	return Value{p: &ifaceV{t: w.canon(t), v: copyVal(v)}}
}

// assignTo converts v of type t for storage in a place of type dst.
func (w *Worker) assignTo(dst, t types.Type, v Value) Value {
	if rkind(dst) == rkInterface {
		if rkind(t) == rkInterface {
			return v
		}
		return w.toIface(t, v)
	}
	if !types.AssignableTo(t, dst) {
		w.rtPanic("reflect.Set: value of type " + t.String() + " is not assignable to type " + dst.String())
	}
	return v
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func typeName(t types.Type) string {
	switch n := t.(type) {
	case *types.Named:
		return n.Obj().Name()
	case *types.Basic:
		return n.Name()
	case *types.Alias:
		return typeName(types.Unalias(t))
	}
	return ""
}

func (w *Worker) structField(t types.Type, i int) Value {
	st := t.Underlying().(*types.Struct)
	f := st.Field(i)
	sf := zero(w.eng.namedType("reflect", "StructField"))
	s := sf.p.(structV)
	s[0] = strV(f.Name())
	if !f.Exported() && f.Pkg() != nil {
		s[1] = strV(f.Pkg().Path())
	}
	s[2] = w.rtypeOf(f.Type())
	s[3] = strV(st.Tag(i))
	s[4] = Value{n: uint64(i * 8)}
	s[5] = Value{p: sliceV{Value{n: uint64(i)}}}
	s[6] = boolV(f.Embedded())
	return sf
}

func (w *Worker) rField(r *rval, i int) *rval {
	st, ok := r.t.Underlying().(*types.Struct)
	if !ok {
		w.rtPanic("reflect: call of reflect.Value.Field on " + r.t.String() + " Value")
	}
	if i < 0 || i >= st.NumFields() {
		w.rtPanic("reflect: Field index out of range")
	}
	f := st.Field(i)
	n := &rval{t: f.Type(), ro: r.ro || !f.Exported() && !f.Embedded()}
	if r.cell != nil {
		n.cell = &r.cell.p.(structV)[i]
	} else {
		n.v = r.v.p.(structV)[i]
	}
	return n
}

func (w *Worker) rElem(r *rval) *rval {
	switch u := r.t.Underlying().(type) {
	case *types.Pointer:
		p := r.get()
		if p.p == nil {
			return nil
		}
		c, ok := p.p.(*Value)
		if !ok {
			w.unsupported("reflect Elem of %T", p.p)
		}
		return &rval{t: u.Elem(), cell: c, ro: r.ro}
	case *types.Interface:
		v := r.get()
		if v.p == nil {
			return nil
		}
		iv := v.p.(*ifaceV)
		return &rval{t: iv.t, v: iv.v, ro: r.ro}
	}
	w.rtPanic("reflect: call of reflect.Value.Elem on " + r.t.String() + " Value")
	return nil
}

func (w *Worker) rSet(r *rval, v Value) {
	if r.cell == nil {
		w.rtPanic("reflect: reflect.Value.Set using unaddressable value")
	}
	if r.ro {
		w.rtPanic("reflect: reflect.Value.Set using value obtained using unexported field")
	}
	w.storeInto(r.cell, copyVal(v), false)
}

func (w *Worker) rLen(r *rval) int {
	v := r.get()
	switch rkind(r.t) {
	case rkArray:
		return len(v.p.(arrayV))
	case rkSlice:
		return len(asSlice(v))
	case rkString:
		return strLen(v)
	case rkMap:
		if v.p == nil {
			return 0
		}
		return v.p.(*mapV).count
	case rkPointer:
		if a, ok := r.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
			return int(a.Len())
		}
	}
	w.rtPanic("reflect: call of reflect.Value.Len on " + r.t.String() + " Value")
	return 0
}

func (w *Worker) rIndex(r *rval, i int) *rval {
	n := w.rLen(r)
	if i < 0 || i >= n {
		w.rtPanic("reflect: slice index out of range")
	}
	v := r.get()
	switch u := r.t.Underlying().(type) {
	case *types.Slice:
		return &rval{t: u.Elem(), cell: &v.p.(sliceV)[i], ro: r.ro}
	case *types.Array:
		if r.cell != nil {
			return &rval{t: u.Elem(), cell: &r.cell.p.(arrayV)[i], ro: r.ro}
		}
		return &rval{t: u.Elem(), v: v.p.(arrayV)[i], ro: r.ro}
	case *types.Basic:
		return &rval{t: types.Typ[types.Uint8], v: strAt(v, i)}
	}
	w.rtPanic("reflect: Index of " + r.t.String())
	return nil
}

func (w *Worker) isNil(r *rval) Value {
	v := r.get()
	switch rkind(r.t) {
	case rkPointer, rkSlice, rkMap, rkChan, rkFunc, rkInterface, rkUnsafePointer:
		return boolV(v.p == nil)
	}
	w.rtPanic("reflect: call of reflect.Value.IsNil on " + r.t.String() + " Value")
	return Value{}
}

func (w *Worker) isZero(t types.Type, v Value) Value {
	switch rkind(t) {
	case rkStruct:
		st := t.Underlying().(*types.Struct)
		acc := boolV(true)
		for i, f := range v.p.(structV) {
			acc = w.andV(acc, w.isZero(st.Field(i).Type(), f))
		}
		return acc
	case rkArray:
		el := t.Underlying().(*types.Array).Elem()
		acc := boolV(true)
		for _, f := range v.p.(arrayV) {
			acc = w.andV(acc, w.isZero(el, f))
		}
		return acc
	case rkPointer, rkSlice, rkMap, rkChan, rkFunc, rkInterface, rkUnsafePointer:
		return boolV(v.p == nil)
	case rkString:
		return boolV(strLen(v) == 0)
	}
	return w.equal(t, v, zero(t), t)
}

// deepEqual follows reflect.DeepEqual; the result may be symbolic.
func (w *Worker) deepEqual(t types.Type, x, y Value, depth int) Value {
	if depth > 200 {
		w.unsupported("DeepEqual too deep")
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if x.p == nil || y.p == nil {
			return boolV(x.p == nil && y.p == nil)
		}
		a, b := x.p.(*ifaceV), y.p.(*ifaceV)
		if a.t != b.t {
			return boolV(false)
		}
		return w.deepEqual(a.t, a.v, b.v, depth+1)
	case *types.Pointer:
		if x.p == nil || y.p == nil {
			return boolV(x.p == nil && y.p == nil)
		}
		if w.ptrEq(x, y) {
			return boolV(true)
		}
		a, ok1 := x.p.(*Value)
		b, ok2 := y.p.(*Value)
		if !ok1 || !ok2 {
			return boolV(false)
		}
		return w.deepEqual(u.Elem(), *a, *b, depth+1)
	case *types.Slice:
		if (x.p == nil) != (y.p == nil) {
			return boolV(false)
		}
		a, b := asSlice(x), asSlice(y)
		if len(a) != len(b) {
			return boolV(false)
		}
		acc := boolV(true)
		for i := range a {
			acc = w.andV(acc, w.deepEqual(u.Elem(), a[i], b[i], depth+1))
		}
		return acc
	case *types.Array:
		a, b := x.p.(arrayV), y.p.(arrayV)
		acc := boolV(true)
		for i := range a {
			acc = w.andV(acc, w.deepEqual(u.Elem(), a[i], b[i], depth+1))
		}
		return acc
	case *types.Struct:
		a, b := x.p.(structV), y.p.(structV)
		acc := boolV(true)
		for i := range a {
			acc = w.andV(acc, w.deepEqual(u.Field(i).Type(), a[i], b[i], depth+1))
		}
		return acc
	case *types.Map:
		if (x.p == nil) != (y.p == nil) {
			return boolV(false)
		}
		if x.p == nil {
			return boolV(true)
		}
		a, b := x.p.(*mapV), y.p.(*mapV)
		if a.count != b.count {
			return boolV(false)
		}
		acc := boolV(true)
		for _, e := range a.entries {
			if !e.live {
				continue
			}
			i := w.mapFind(b, e.k)
			if i < 0 {
				return boolV(false)
			}
			acc = w.andV(acc, w.deepEqual(u.Elem(), e.v, b.entries[i].v, depth+1))
		}
		return acc
	case *types.Signature:
		return boolV(x.p == nil && y.p == nil)
	}
	return w.equal(t, x, y, t)
}

func (w *Worker) exportedMethods(t types.Type) int {
	ms := w.eng.prog.MethodSets.MethodSet(t)
	n := 0
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			n++
		}
	}
	return n
}

func basicKT(t types.Type) kindT { return kindOf(t) }

// widen gives a value of an integer type as int64/uint64.
func (w *Worker) widen(r *rval) Value {
	v := r.get()
	k := kindOf(r.t)
	if k.k != kInt {
		w.rtPanic("reflect: integer accessor on " + r.t.String() + " Value")
	}
	if v.p == nil {
		return Value{n: v.n}
	}
	return w.fromTerm(w.resize(v.p.(*Term), k, 64), kI64)
}

func (w *Worker) narrow(v Value, t types.Type) Value {
	k := kindOf(t)
	if k.k != kInt {
		w.rtPanic("reflect: integer setter on " + t.String() + " Value")
	}
	if v.p == nil {
		return Value{n: norm(v.n, k)}
	}
	return w.fromTerm(w.ctx.Extract(w.toTerm(v, kI64), 0, k.w), k)
}

func init() {
	// functions
	typeOf := func(w *Worker, a []Value) Value {
		if a[0].p == nil {
			return Value{}
		}
		return w.rtypeOf(a[0].p.(*ifaceV).t)
	}
	reg(typeOf, "reflect.TypeOf")
	reg(func(w *Worker, a []Value) Value {
		if a[0].p == nil {
			return mkRV(nil)
		}
		iv := a[0].p.(*ifaceV)
		return mkRV(&rval{t: iv.t, v: iv.v})
	}, "reflect.ValueOf")
	reg(func(w *Worker, a []Value) Value {
		t := w.typeArg(a[0])
		c := new(Value)
		*c = zero(t)
		return mkRV(&rval{t: w.canon(types.NewPointer(t)), v: Value{p: c}})
	}, "reflect.New")
	reg(func(w *Worker, a []Value) Value {
		t := w.typeArg(a[0])
		return mkRV(&rval{t: t, v: zero(t)})
	}, "reflect.Zero")
	reg(func(w *Worker, a []Value) Value {
		t := w.typeArg(a[0])
		n := w.allocLen(a[1], kI64)
		c := w.allocLen(a[2], kI64)
		el := t.Underlying().(*types.Slice).Elem()
		s := make(sliceV, n, c)
		for i := range s[:c] {
			s[:c][i] = zero(el)
		}
		return mkRV(&rval{t: t, v: Value{p: s}})
	}, "reflect.MakeSlice")
	mkMap := func(w *Worker, a []Value) Value {
		t := w.typeArg(a[0])
		m := t.Underlying().(*types.Map)
		return mkRV(&rval{t: t, v: Value{p: w.newMap(m.Key(), m.Elem())}})
	}
	reg(mkMap, "reflect.MakeMap", "reflect.MakeMapWithSize")
	reg(func(w *Worker, a []Value) Value { return w.rtypeOf(types.NewPointer(w.typeArg(a[0]))) }, "reflect.PointerTo", "reflect.PtrTo")
	reg(func(w *Worker, a []Value) Value { return w.rtypeOf(types.NewSlice(w.typeArg(a[0]))) }, "reflect.SliceOf")
	reg(func(w *Worker, a []Value) Value {
		r := w.rvOK(a[0], "Append")
		el := r.t.Underlying().(*types.Slice).Elem()
		var add []Value
		for _, x := range asSlice(a[1]) {
			e := w.rvOK(x, "Append")
			add = append(add, copyVal(w.assignTo(el, e.t, e.get())))
		}
		return mkRV(&rval{t: r.t, v: w.appendVals(asSlice(r.get()), add, r.get().p == nil)})
	}, "reflect.Append")
	reg(func(w *Worker, a []Value) Value {
		d, s := w.rvOK(a[0], "Copy"), w.rvOK(a[1], "Copy")
		var ds []Value
		switch x := d.get().p.(type) {
		case sliceV:
			ds = x
		case arrayV:
			ds = x
		}
		var ss []Value
		switch x := s.get().p.(type) {
		case sliceV:
			ss = x
		case arrayV:
			ss = x
		default:
			if rkind(s.t) == rkString {
				ss = strBytes(s.get())
			}
		}
		n := min(len(ds), len(ss))
		tmp := copyVals(ss[:n])
		for i := 0; i < n; i++ {
			w.storeInto(&ds[i], copyVal(tmp[i]), false)
		}
		return intV(n)
	}, "reflect.Copy")
	reg(func(w *Worker, a []Value) Value {
		if a[0].p == nil || a[1].p == nil {
			return boolV(a[0].p == nil && a[1].p == nil)
		}
		x, y := a[0].p.(*ifaceV), a[1].p.(*ifaceV)
		if x.t != y.t {
			return boolV(false)
		}
		return w.deepEqual(x.t, x.v, y.v, 0)
	}, "reflect.DeepEqual")
	reg(func(w *Worker, a []Value) Value {
		r := w.rv(a[0])
		if r == nil || rkind(r.t) != rkPointer {
			return a[0]
		}
		return mkRV(w.rElem(r))
	}, "reflect.Indirect")

	// Value methods
	m := func(n string, f func(w *Worker, r *rval, a []Value) Value) {
		reg(func(w *Worker, a []Value) Value { return f(w, w.rvOK(a[0], n), a[1:]) }, "(reflect.Value)."+n)
	}
	reg(func(w *Worker, a []Value) Value {
		r := w.rv(a[0])
		if r == nil {
			return Value{}
		}
		return Value{n: uint64(rkind(r.t))}
	}, "(reflect.Value).Kind")
	reg(func(w *Worker, a []Value) Value { return boolV(w.rv(a[0]) != nil) }, "(reflect.Value).IsValid")
	m("Type", func(w *Worker, r *rval, a []Value) Value { return w.rtypeOf(r.t) })
	m("IsNil", func(w *Worker, r *rval, a []Value) Value { return w.isNil(r) })
	m("IsZero", func(w *Worker, r *rval, a []Value) Value { return w.isZero(r.t, r.get()) })
	m("Elem", func(w *Worker, r *rval, a []Value) Value { return mkRV(w.rElem(r)) })
	m("NumField", func(w *Worker, r *rval, a []Value) Value { return intV(r.t.Underlying().(*types.Struct).NumFields()) })
	m("Field", func(w *Worker, r *rval, a []Value) Value { return mkRV(w.rField(r, int(w.concInt(a[0], kI64)))) })
	m("FieldByIndex", func(w *Worker, r *rval, a []Value) Value {
		for k, i := range asSlice(a[0]) {
			if k > 0 && rkind(r.t) == rkPointer {
				r = w.rElem(r)
				if r == nil {
					w.rtPanic("reflect: indirection through nil pointer to embedded struct")
				}
			}
			r = w.rField(r, int(int64(i.n)))
		}
		return mkRV(r)
	})
	m("FieldByName", func(w *Worker, r *rval, a []Value) Value {
		st := r.t.Underlying().(*types.Struct)
		n := w.strArg(a[0])
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return mkRV(w.rField(r, i))
			}
		}
		return mkRV(nil)
	})
	m("Len", func(w *Worker, r *rval, a []Value) Value { return intV(w.rLen(r)) })
	m("Cap", func(w *Worker, r *rval, a []Value) Value {
		if s, ok := r.get().p.(sliceV); ok {
			return intV(cap(s))
		}
		return intV(w.rLen(r))
	})
	m("Index", func(w *Worker, r *rval, a []Value) Value { return mkRV(w.rIndex(r, int(w.concInt(a[0], kI64)))) })
	m("Int", func(w *Worker, r *rval, a []Value) Value { return w.widen(r) })
	m("Uint", func(w *Worker, r *rval, a []Value) Value { return w.widen(r) })
	m("Bool", func(w *Worker, r *rval, a []Value) Value { return r.get() })
	m("Float", func(w *Worker, r *rval, a []Value) Value { return r.get() })
	m("Bytes", func(w *Worker, r *rval, a []Value) Value {
		if ar, ok := r.get().p.(arrayV); ok {
			return Value{p: sliceV(ar)}
		}
		return r.get()
	})
	reg(func(w *Worker, a []Value) Value {
		r := w.rv(a[0])
		if r == nil {
			return strV("<invalid Value>")
		}
		if rkind(r.t) == rkString {
			return r.get()
		}
		return strV("<" + typeStr(r.t) + " Value>")
	}, "(reflect.Value).String")
	m("Interface", func(w *Worker, r *rval, a []Value) Value {
		if r.ro {
			w.rtPanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		return w.toIface(r.t, r.get())
	})
	m("CanInterface", func(w *Worker, r *rval, a []Value) Value { return boolV(!r.ro) })
	reg(func(w *Worker, a []Value) Value { r := w.rv(a[0]); return boolV(r != nil && r.cell != nil) }, "(reflect.Value).CanAddr")
	reg(func(w *Worker, a []Value) Value {
		r := w.rv(a[0])
		return boolV(r != nil && r.cell != nil && !r.ro)
	}, "(reflect.Value).CanSet")
	m("Addr", func(w *Worker, r *rval, a []Value) Value {
		if r.cell == nil {
			w.rtPanic("reflect.Value.Addr of unaddressable value")
		}
		return mkRV(&rval{t: w.canon(types.NewPointer(r.t)), v: Value{p: r.cell}, ro: r.ro})
	})
	m("Set", func(w *Worker, r *rval, a []Value) Value {
		s := w.rvOK(a[0], "Set")
		w.rSet(r, w.assignTo(r.t, s.t, s.get()))
		return Value{}
	})
	m("SetZero", func(w *Worker, r *rval, a []Value) Value { w.rSet(r, zero(r.t)); return Value{} })
	setInt := func(w *Worker, r *rval, a []Value) Value { w.rSet(r, w.narrow(a[0], r.t)); return Value{} }
	m("SetInt", setInt)
	m("SetUint", setInt)
	setAny := func(w *Worker, r *rval, a []Value) Value { w.rSet(r, a[0]); return Value{} }
	m("SetBool", setAny)
	m("SetString", setAny)
	m("SetBytes", setAny)
	m("SetFloat", setAny)
	m("SetLen", func(w *Worker, r *rval, a []Value) Value {
		s := asSlice(r.get())
		n := int(w.concInt(a[0], kI64))
		if n < 0 || n > cap(s) {
			w.rtPanic("reflect: slice length out of range in SetLen")
		}
		if s == nil {
			return Value{}
		}
		w.rSet(r, Value{p: s[:n]})
		return Value{}
	})
	m("Grow", func(w *Worker, r *rval, a []Value) Value {
		s := asSlice(r.get())
		n := int(w.concInt(a[0], kI64))
		if len(s)+n > cap(s) {
			el := r.t.Underlying().(*types.Slice).Elem()
			ns := make(sliceV, len(s), 2*(len(s)+n))
			copy(ns, s)
			for i := len(s); i < cap(ns); i++ {
				ns[:cap(ns)][i] = zero(el)
			}
			w.rSet(r, Value{p: ns})
		}
		return Value{}
	})
	m("Slice", func(w *Worker, r *rval, a []Value) Value {
		i, j := int(w.concInt(a[0], kI64)), int(w.concInt(a[1], kI64))
		switch x := r.get().p.(type) {
		case sliceV:
			if i < 0 || j < i || j > cap(x) {
				w.rtPanic("reflect.Value.Slice: slice index out of bounds")
			}
			return mkRV(&rval{t: r.t, v: Value{p: x[i:j]}})
		case arrayV:
			return mkRV(&rval{t: w.canon(types.NewSlice(r.t.Underlying().(*types.Array).Elem())), v: Value{p: sliceV(r.cell.p.(arrayV)[i:j])}})
		}
		if rkind(r.t) == rkString {
			return mkRV(&rval{t: r.t, v: strSlice(r.get(), i, j)})
		}
		if i == 0 && j == 0 {
			return mkRV(r)
		}
		w.unsupported("reflect Slice")
		return Value{}
	})
	m("NumMethod", func(w *Worker, r *rval, a []Value) Value { return intV(w.exportedMethods(r.t)) })
	m("Comparable", func(w *Worker, r *rval, a []Value) Value { return boolV(types.Comparable(r.t)) })
	m("MapKeys", func(w *Worker, r *rval, a []Value) Value {
		var out sliceV
		if mv, ok := r.get().p.(*mapV); ok {
			for _, e := range mv.entries {
				if e.live {
					out = append(out, mkRV(&rval{t: mv.keyT, v: e.k}))
				}
			}
		}
		if out == nil {
			out = sliceV{}
		}
		return Value{p: out}
	})
	m("MapIndex", func(w *Worker, r *rval, a []Value) Value {
		if mv, ok := r.get().p.(*mapV); ok {
			if i := w.mapFind(mv, w.rvOK(a[0], "MapIndex").get()); i >= 0 {
				return mkRV(&rval{t: mv.elemT, v: mv.entries[i].v})
			}
		}
		return mkRV(nil)
	})
	m("SetMapIndex", func(w *Worker, r *rval, a []Value) Value {
		e := w.rvOK(a[1], "SetMapIndex")
		mt := r.t.Underlying().(*types.Map)
		k := w.rvOK(a[0], "SetMapIndex")
		w.mapUpdate(r.get(), copyVal(w.assignTo(mt.Key(), k.t, k.get())), copyVal(w.assignTo(mt.Elem(), e.t, e.get())))
		return Value{}
	})
	m("Pointer", func(w *Worker, r *rval, a []Value) Value {
		if r.get().p == nil {
			return Value{}
		}
		return Value{n: 4096}
	})
	m("Convert", func(w *Worker, r *rval, a []Value) Value {
		t := w.typeArg(a[0])
		if types.Identical(t.Underlying(), r.t.Underlying()) {
			return mkRV(&rval{t: t, v: copyVal(r.get())})
		}
		if rkind(t) == rkInterface {
			return mkRV(&rval{t: t, v: w.toIface(r.t, r.get())})
		}
		w.unsupported("reflect Convert %s to %s", r.t, t)
		return Value{}
	})
	overflow := func(w *Worker, r *rval, a []Value) Value {
		k := kindOf(r.t)
		x := w.toTerm(a[0], kI64)
		nt := w.ctx.Extract(x, 0, k.w)
		var back *Term
		if k.signed {
			back = w.ctx.Sext(64, nt)
		} else {
			back = w.ctx.Zext(64, nt)
		}
		return w.fromTerm(w.ctx.Not(w.ctx.Eq(back, x)), kBoolT)
	}
	m("OverflowInt", overflow)
	m("OverflowUint", overflow)
	m("CanInt", func(w *Worker, r *rval, a []Value) Value { k := rkind(r.t); return boolV(k >= rkInt && k <= rkInt64) })
	m("CanUint", func(w *Worker, r *rval, a []Value) Value {
		k := rkind(r.t)
		return boolV(k >= rkUint && k <= rkUintptr)
	})

	// Type methods
	ty := func(n string, f func(w *Worker, t types.Type, a []Value) Value) {
		reg(func(w *Worker, a []Value) Value { return f(w, w.typeArg(a[0]), a[1:]) }, "(*reflect.rtype)."+n)
	}
	ty("Kind", func(w *Worker, t types.Type, a []Value) Value { return Value{n: uint64(rkind(t))} })
	ty("Name", func(w *Worker, t types.Type, a []Value) Value { return strV(typeName(t)) })
	ty("String", func(w *Worker, t types.Type, a []Value) Value { return strV(typeStr(t)) })
	ty("PkgPath", func(w *Worker, t types.Type, a []Value) Value {
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return strV(n.Obj().Pkg().Path())
		}
		return strV("")
	})
	ty("Elem", func(w *Worker, t types.Type, a []Value) Value {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return w.rtypeOf(u.Elem())
		case *types.Slice:
			return w.rtypeOf(u.Elem())
		case *types.Array:
			return w.rtypeOf(u.Elem())
		case *types.Map:
			return w.rtypeOf(u.Elem())
		case *types.Chan:
			return w.rtypeOf(u.Elem())
		}
		w.rtPanic("reflect: Elem of invalid type " + t.String())
		return Value{}
	})
	ty("Key", func(w *Worker, t types.Type, a []Value) Value { return w.rtypeOf(t.Underlying().(*types.Map).Key()) })
	ty("Len", func(w *Worker, t types.Type, a []Value) Value {
		return intV(int(t.Underlying().(*types.Array).Len()))
	})
	ty("NumField", func(w *Worker, t types.Type, a []Value) Value {
		return intV(t.Underlying().(*types.Struct).NumFields())
	})
	ty("Field", func(w *Worker, t types.Type, a []Value) Value {
		return w.structField(t, int(w.concInt(a[0], kI64)))
	})
	ty("NumMethod", func(w *Worker, t types.Type, a []Value) Value { return intV(w.exportedMethods(t)) })
	ty("Implements", func(w *Worker, t types.Type, a []Value) Value {
		return boolV(types.Implements(t, w.typeArg(a[0]).Underlying().(*types.Interface)))
	})
	ty("AssignableTo", func(w *Worker, t types.Type, a []Value) Value { return boolV(types.AssignableTo(t, w.typeArg(a[0]))) })
	ty("ConvertibleTo", func(w *Worker, t types.Type, a []Value) Value {
		return boolV(types.ConvertibleTo(t, w.typeArg(a[0])))
	})
	ty("Comparable", func(w *Worker, t types.Type, a []Value) Value { return boolV(types.Comparable(t)) })
	bits := func(t types.Type) int {
		k := kindOf(t)
		if k.k == kBool {
			return 8
		}
		return int(k.w)
	}
	ty("Bits", func(w *Worker, t types.Type, a []Value) Value { return intV(bits(t)) })
	ty("Size", func(w *Worker, t types.Type, a []Value) Value {
		if rkind(t) <= rkComplex128 {
			return intV(bits(t) / 8)
		}
		return intV(8)
	})

	// errors.As and errors.Is avoid internal/reflectlite
	reg(func(w *Worker, a []Value) Value {
		if a[1].p == nil {
			w.rtPanic("errors: target cannot be nil")
		}
		tv := a[1].p.(*ifaceV)
		pt, ok := tv.t.Underlying().(*types.Pointer)
		if !ok || tv.v.p == nil {
			w.rtPanic("errors: target must be a non-nil pointer")
		}
		el := pt.Elem()
		var walk func(e Value, d int) bool
		walk = func(e Value, d int) bool {
			if e.p == nil || d > 50 {
				return false
			}
			iv := e.p.(*ifaceV)
			if iv.t == w.eng.stubT {
				return false
			}
			if it, ok := el.Underlying().(*types.Interface); ok {
				if types.Implements(iv.t, it) {
					w.storeInto(tv.v.p.(*Value), e, false)
					return true
				}
			} else if types.Identical(iv.t, el) {
				w.storeInto(tv.v.p.(*Value), copyVal(iv.v), false)
				return true
			}
			if w.findMethod(iv.t, "As") != nil {
				if w.boolOf(w.callMethod(iv, "As", a[1])) {
					return true
				}
			}
			if c := w.findMethod(iv.t, "Unwrap"); c != nil {
				r := w.callMethod(iv, "Unwrap")
				if s, ok := r.p.(sliceV); ok {
					for _, x := range s {
						if walk(x, d+1) {
							return true
						}
					}
					return false
				}
				return walk(r, d+1)
			}
			return false
		}
		return boolV(walk(a[0], 0))
	}, "errors.As")
	reg(func(w *Worker, a []Value) Value {
		if a[0].p == nil || a[1].p == nil {
			return boolV(a[0].p == nil && a[1].p == nil)
		}
		target := a[1].p.(*ifaceV)
		cmp := types.Comparable(target.t)
		var walk func(e Value, d int) bool
		walk = func(e Value, d int) bool {
			if e.p == nil || d > 50 {
				return false
			}
			iv := e.p.(*ifaceV)
			if cmp && iv.t == target.t && w.boolOf(w.ifaceEq(e, a[1])) {
				return true
			}
			if iv.t == w.eng.stubT {
				return false
			}
			if w.findMethod(iv.t, "Is") != nil {
				if w.boolOf(w.callMethod(iv, "Is", a[1])) {
					return true
				}
			}
			if w.findMethod(iv.t, "Unwrap") != nil {
				r := w.callMethod(iv, "Unwrap")
				if s, ok := r.p.(sliceV); ok {
					for _, x := range s {
						if walk(x, d+1) {
							return true
						}
					}
					return false
				}
				return walk(r, d+1)
			}
			return false
		}
		return boolV(walk(a[0], 0))
	}, "errors.Is")
}

// genericIntr handles instances of generic functions, by the name of their origin.
func (w *Worker) genericIntr(origin string, targs []types.Type, a []Value) (Value, bool) {
	switch origin {
	case "reflect.TypeFor":
		return w.rtypeOf(targs[0]), true
	case "unique.Make":
		// a handle is the address of the one copy of the value
		k, conc := w.keyEnc(targs[0], a[0])
		if !conc {
			w.unsupported("unique.Make of a symbolic value")
		}
		k = typeStr(targs[0]) + "|" + k
		if w.uniq == nil {
			w.uniq = map[string]*Value{}
		}
		p := w.uniq[k]
		if p == nil {
			v := copyVal(a[0])
			p = &v
			w.uniq[k] = p
		}
		return Value{p: structV{{p: p}}}, true
	case "reflect.TypeAssert":
		r := w.rvOK(a[0], "TypeAssert")
		v, t := r.get(), r.t
		if rkind(t) == rkInterface {
			if v.p == nil {
				return tuple(zero(targs[0]), boolV(false)), true
			}
			iv := v.p.(*ifaceV)
			v, t = iv.v, iv.t
		}
		if it, ok := targs[0].Underlying().(*types.Interface); ok {
			if t == w.eng.stubT || types.Implements(t, it) {
				return tuple(w.toIface(t, v), boolV(true)), true
			}
			return tuple(Value{}, boolV(false)), true
		}
		if types.Identical(t, targs[0]) {
			return tuple(copyVal(v), boolV(true)), true
		}
		return tuple(zero(targs[0]), boolV(false)), true
	}
	return Value{}, false
}

var _ = strings.Contains
