package main

import (
	"bytes"
	"encoding/json"
	"go/types"
	"io"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// A model of encoding/json over interpreted values: the encoder follows the documented rules for the kinds used here
// (structs with tags, omitempty, slices, maps with string keys, pointers, integers, booleans, strings, floats), and the
// decoder takes concrete text only. Anything else is reported as not supported.

func (w *Worker) jsonStr(s Value) Value {
	if c, ok := strConc(s); ok {
		b, _ := json.Marshal(c)
		return strV(string(b))
	}
	c := w.ctx
	var out []Value
	out = append(out, Value{n: '"'})
	for _, b := range strBytes(s) {
		if _, tok := b.p.(*strTok); tok || b.p == nil && b.n >= 0x20 && b.n < 0x7f && strings.IndexByte("\"\\<>&", byte(b.n)) < 0 {
			out = append(out, b)
			continue
		}
		if t, ok := b.p.(*Term); ok {
			esc := c.Or(c.Ult(t, c.Const(8, 0x20)), c.Ult(c.Const(8, 0x7e), t))
			for _, x := range []byte("\"\\<>&") {
				esc = c.Or(esc, c.Eq(t, c.Const(8, uint64(x))))
			}
			if !w.branch(esc) {
				out = append(out, b)
				continue
			}
			b = Value{n: w.concretize(t)}
		}
		if b.p != nil || b.n >= 0x80 {
			w.unsupported("JSON string with symbolic non-ASCII text")
		}
		e, _ := json.Marshal(string(rune(b.n)))
		out = append(out, strBytes(strV(string(e[1:len(e)-1])))...)
	}
	out = append(out, Value{n: '"'})
	return mkStr(out)
}

type jsonField struct {
	name      string
	omit, str bool
	path      []int
	t         types.Type
}

func jsonFields(t types.Type) []jsonField {
	st := t.Underlying().(*types.Struct)
	var out []jsonField
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag, has := reflect.StructTag(st.Tag(i)).Lookup("json")
		if tag == "-" {
			continue
		}
		opts := strings.Split(tag, ",")
		if f.Embedded() && (!has || opts[0] == "") {
			ft := f.Type()
			if _, ok := ft.Underlying().(*types.Struct); ok {
				for _, s := range jsonFields(ft) {
					s.path = append([]int{i}, s.path...)
					out = append(out, s)
				}
				continue
			}
		}
		if !f.Exported() {
			continue
		}
		jf := jsonField{name: f.Name(), path: []int{i}, t: f.Type()}
		if opts[0] != "" {
			jf.name = opts[0]
		}
		for _, o := range opts[1:] {
			switch o {
			case "omitempty":
				jf.omit = true
			case "string":
				jf.str = true
			}
		}
		out = append(out, jf)
	}
	return out
}

func (w *Worker) jsonMethod(t types.Type, name string) *fnCode {
	if t == nil {
		return nil
	}
	c := w.findMethod(w.canon(t), name)
	if c == nil || c.fn.Signature.Params().Len() != 0 || c.results.Len() != 2 {
		return nil
	}
	return c
}

// jsonEnc encodes v; err is an error value when a method of a type fails.
func (w *Worker) jsonEnc(t types.Type, v Value, depth int) (Value, Value) {
	if depth > 40 {
		w.unsupported("JSON value too deep")
	}
	if _, ok := v.p.(*stubObj); ok {
		return strV("{}"), Value{}
	}
	isNilPtr := rkind(t) == rkPointer && v.p == nil
	if rkind(t) != rkInterface && !isNilPtr {
		if c := w.jsonMethod(t, "MarshalJSON"); c != nil {
			r := w.callCode(c, []Value{v}, nil).p.(tupleV)
			return mkStr(copyVals(asSlice(r[0]))), r[1]
		}
		if c := w.jsonMethod(t, "MarshalText"); c != nil {
			r := w.callCode(c, []Value{v}, nil).p.(tupleV)
			return w.jsonStr(mkStr(copyVals(asSlice(r[0])))), r[1]
		}
	}
	k := kindOf(t)
	switch rkind(t) {
	case rkBool:
		if w.boolOf(v) {
			return strV("true"), Value{}
		}
		return strV("false"), Value{}
	case rkInt, rkInt8, rkInt16, rkInt32, rkInt64, rkUint, rkUint8, rkUint16, rkUint32, rkUint64, rkUintptr:
		return w.fmtInt(v, k, 10), Value{}
	case rkFloat32, rkFloat64:
		if v.p != nil {
			return strV("0"), Value{}
		}
		b, err := json.Marshal(floatOf(v, k))
		if err != nil {
			return Value{}, errVal(w, err.Error())
		}
		return strV(string(b)), Value{}
	case rkString:
		return w.jsonStr(v), Value{}
	case rkPointer:
		if v.p == nil {
			return strV("null"), Value{}
		}
		c, ok := v.p.(*Value)
		if !ok {
			w.unsupported("JSON of pointer %T", v.p)
		}
		w.raceRead(c)
		return w.jsonEnc(t.Underlying().(*types.Pointer).Elem(), *c, depth+1)
	case rkInterface:
		if v.p == nil {
			return strV("null"), Value{}
		}
		iv := v.p.(*ifaceV)
		return w.jsonEnc(iv.t, iv.v, depth+1)
	case rkSlice, rkArray:
		var el types.Type
		var xs []Value
		if rkind(t) == rkSlice {
			if v.p == nil {
				return strV("null"), Value{}
			}
			el, xs = t.Underlying().(*types.Slice).Elem(), asSlice(v)
			if rkind(el) == rkUint8 {
				p := w.eng.pkgs[rtPkg]
				if p == nil || w.jsonMethod(el, "MarshalJSON") != nil {
					w.unsupported("JSON of bytes")
				}
				if w.race != nil {
					w.raceElems(w.cur.top, v, false)
				}
				b := w.callCode(w.codeFor(p.Func("Base64")), []Value{v}, nil)
				return mkStr(append(append(strBytes(strV("\"")), strBytes(b)...), Value{n: '"'})), Value{}
			}
		} else {
			el, xs = t.Underlying().(*types.Array).Elem(), v.p.(arrayV)
		}
		r := strV("[")
		for i := range xs {
			w.raceRead(&xs[i])
			if i > 0 {
				r = strConcat(r, strV(","))
			}
			e, err := w.jsonEnc(el, xs[i], depth+1)
			if err.p != nil {
				return Value{}, err
			}
			r = strConcat(r, e)
		}
		return strConcat(r, strV("]")), Value{}
	case rkMap:
		if v.p == nil {
			return strV("null"), Value{}
		}
		m := v.p.(*mapV)
		w.raceRead(m)
		type ent struct {
			k string
			v Value
		}
		var es []ent
		for _, e := range m.entries {
			if !e.live {
				continue
			}
			var ks string
			switch {
			case rkind(m.keyT) == rkString:
				ks = string(concOf(w, w.noToks(e.k)))
			case e.k.p == nil && kindOf(m.keyT).k == kInt:
				ks, _ = strConc(w.fmtInt(e.k, kindOf(m.keyT), 10))
			default:
				w.unsupported("JSON map with keys of type %s", m.keyT)
			}
			es = append(es, ent{ks, e.v})
		}
		sort.Slice(es, func(i, j int) bool { return es[i].k < es[j].k })
		r := strV("{")
		for i, e := range es {
			if i > 0 {
				r = strConcat(r, strV(","))
			}
			x, err := w.jsonEnc(m.elemT, e.v, depth+1)
			if err.p != nil {
				return Value{}, err
			}
			r = strConcat(strConcat(strConcat(r, w.jsonStr(strV(e.k))), strV(":")), x)
		}
		return strConcat(r, strV("}")), Value{}
	case rkStruct:
		r := strV("{")
		first := true
		for _, f := range jsonFields(t) {
			fv := v
			for _, i := range f.path {
				fv = fv.p.(structV)[i]
			}
			if f.omit && w.jsonEmpty(f.t, fv) {
				continue
			}
			x, err := w.jsonEnc(f.t, fv, depth+1)
			if err.p != nil {
				return Value{}, err
			}
			if f.str {
				w.unsupported("JSON option string")
			}
			if !first {
				r = strConcat(r, strV(","))
			}
			first = false
			r = strConcat(strConcat(strConcat(r, w.jsonStr(strV(f.name))), strV(":")), x)
		}
		return strConcat(r, strV("}")), Value{}
	}
	return Value{}, errVal(w, "json: unsupported type: "+typeStr(t))
}

func concOf(w *Worker, b []Value) []byte {
	r := make([]byte, len(b))
	for i := range b {
		if t, ok := b[i].p.(*Term); ok {
			r[i] = byte(w.concretize(t))
			continue
		}
		r[i] = byte(b[i].n)
	}
	return r
}

func (w *Worker) jsonEmpty(t types.Type, v Value) bool {
	switch rkind(t) {
	case rkSlice, rkMap, rkArray:
		return w.rLen(&rval{t: t, v: v}) == 0
	case rkString:
		return len(strBytes(v)) == 0
	case rkPointer, rkInterface:
		return v.p == nil
	case rkStruct:
		return false
	}
	return w.boolOf(w.isZero(t, v))
}

func (w *Worker) jsonMarshal(a Value) (Value, Value) {
	if a.p == nil {
		return strV("null"), Value{}
	}
	iv := a.p.(*ifaceV)
	return w.jsonEnc(iv.t, iv.v, 0)
}

func (w *Worker) jsonDec(t types.Type, cell *Value, x any, first *Value) {
	bad := func(what string) {
		if first.p == nil {
			*first = errVal(w, "json: cannot unmarshal "+what+" into Go value of type "+typeStr(t))
		}
	}
	if x == nil {
		switch rkind(t) {
		case rkPointer, rkMap, rkSlice, rkInterface:
			w.storeInto(cell, zero(t), false)
		}
		return
	}
	switch rkind(t) {
	case rkPointer:
		el := t.Underlying().(*types.Pointer).Elem()
		if cell.p == nil {
			n := zero(el)
			w.storeInto(cell, Value{p: &n}, false)
		}
		w.jsonDec(el, cell.p.(*Value), x, first)
	case rkBool:
		if b, ok := x.(bool); ok {
			w.storeInto(cell, boolV(b), false)
			return
		}
		bad("value")
	case rkString:
		if s, ok := x.(string); ok {
			w.storeInto(cell, strV(s), false)
			return
		}
		bad("value")
	case rkInt, rkInt8, rkInt16, rkInt32, rkInt64, rkUint, rkUint8, rkUint16, rkUint32, rkUint64:
		k := kindOf(t)
		n, ok := x.(json.Number)
		if !ok {
			bad("value")
			return
		}
		var u uint64
		var err error
		if k.signed {
			var i int64
			i, err = strconv.ParseInt(string(n), 10, int(k.w))
			u = uint64(i)
		} else {
			u, err = strconv.ParseUint(string(n), 10, int(k.w))
		}
		if err != nil {
			bad("number " + string(n))
			return
		}
		w.storeInto(cell, Value{n: norm(u, k)}, false)
	case rkFloat32, rkFloat64:
		n, ok := x.(json.Number)
		if !ok {
			bad("value")
			return
		}
		size := 64
		if rkind(t) == rkFloat32 {
			size = 32
		}
		f, err := strconv.ParseFloat(string(n), size)
		if err != nil {
			bad("number " + string(n))
			return
		}
		u := math.Float64bits(f)
		if size == 32 {
			u = uint64(math.Float32bits(float32(f)))
		}
		w.storeInto(cell, Value{n: u}, false)
	case rkMap:
		m, ok := x.(map[string]any)
		u := t.Underlying().(*types.Map)
		if !ok {
			bad("value")
			return
		}
		if rkind(u.Key()) != rkString {
			w.unsupported("JSON map with keys of type %s", u.Key())
		}
		if cell.p == nil {
			w.storeInto(cell, Value{p: w.newMap(u.Key(), u.Elem())}, false)
		}
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			v := zero(u.Elem())
			w.jsonDec(u.Elem(), &v, m[k], first)
			w.mapUpdate(*cell, strV(k), v)
		}
	case rkSlice:
		l, ok := x.([]any)
		if !ok {
			bad("value")
			return
		}
		el := t.Underlying().(*types.Slice).Elem()
		r := make(sliceV, len(l))
		for i := range l {
			r[i] = zero(el)
			w.jsonDec(el, &r[i], l[i], first)
		}
		w.storeInto(cell, Value{p: r}, false)
	case rkStruct:
		m, ok := x.(map[string]any)
		if !ok {
			bad("value")
			return
		}
		fs := jsonFields(t)
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fi := -1
			for i := range fs {
				if fs[i].name == k {
					fi = i
				}
			}
			for i := range fs {
				if fi < 0 && strings.EqualFold(fs[i].name, k) {
					fi = i
				}
			}
			if fi < 0 {
				continue
			}
			c := cell
			for _, i := range fs[fi].path {
				c = &c.p.(structV)[i]
			}
			w.jsonDec(fs[fi].t, c, m[k], first)
		}
	default:
		w.unsupported("JSON decoding into %s", t)
	}
}

func init() {
	reg(func(w *Worker, a []Value) Value {
		s, err := w.jsonMarshal(a[0])
		if err.p != nil {
			return tuple(Value{}, err)
		}
		return tuple(Value{p: sliceV(copyVals(w.noToks(s)))}, Value{})
	}, "encoding/json.Marshal")
	reg(func(w *Worker, a []Value) Value {
		// an Encoder keeps its writer in the first field
		s, err := w.jsonMarshal(a[1])
		if err.p != nil {
			return err
		}
		wr := a[0].p.(*Value).p.(structV)[0]
		if wr.p == nil {
			w.nilDeref()
		}
		iv := wr.p.(*ifaceV)
		if _, ok := iv.v.p.(*stubObj); ok {
			return Value{}
		}
		r := w.callMethod(iv, "Write", Value{p: sliceV(copyVals(w.noToks(strConcat(s, strV("\n")))))})
		return r.p.(tupleV)[1]
	}, "(*encoding/json.Encoder).Encode")
	reg(func(w *Worker, a []Value) Value {
		data, ok := concBytes(asSlice(a[0]))
		if !ok {
			w.unsupported("JSON decoding of symbolic text")
		}
		if a[1].p == nil {
			return errVal(w, "json: Unmarshal(nil)")
		}
		iv := a[1].p.(*ifaceV)
		if rkind(iv.t) != rkPointer || iv.v.p == nil {
			return errVal(w, "json: Unmarshal(non-pointer)")
		}
		d := json.NewDecoder(bytes.NewReader(data))
		d.UseNumber()
		var x any
		if err := d.Decode(&x); err != nil {
			if err == io.EOF {
				return errVal(w, "unexpected end of JSON input")
			}
			return errVal(w, err.Error())
		}
		if _, err := d.Token(); err != io.EOF {
			return errVal(w, "invalid character after top-level value")
		}
		var first Value
		w.jsonDec(iv.t.Underlying().(*types.Pointer).Elem(), iv.v.p.(*Value), x, &first)
		return first
	}, "encoding/json.Unmarshal")

	// package flag: a fresh variable holding the default
	for _, n := range []string{"Bool", "String", "Int", "Int64", "Uint", "Uint64", "Float64", "Duration"} {
		reg(func(w *Worker, a []Value) Value {
			v := copyVal(a[1])
			return Value{p: &v}
		}, "flag."+n)
		reg(func(w *Worker, a []Value) Value {
			w.storeInto(a[0].p.(*Value), a[2], false)
			return Value{}
		}, "flag."+n+"Var")
	}
	reg(nop, "flag.Parse")
	reg(func(w *Worker, a []Value) Value { return tuple(Value{}, errVal(w, "exec: not found")) }, "os/exec.LookPath")
}
