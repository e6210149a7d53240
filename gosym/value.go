package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is an interpreted Go value. Scalars live in n (p==nil) or are symbolic (p is *Term).
type Value struct {
	n uint64
	p any
}

type structV []Value
type arrayV []Value
type sliceV []Value
type tupleV []Value

type ifaceV struct {
	t types.Type
	v Value
}

// symStr is a string with at least one symbolic byte or formatting token.
type symStr struct{ b []Value }

// strTok is an injective, variable-length rendering of an integer term inside a symStr.
type strTok struct {
	t      *Term
	signed bool
	base   int
}

type closureV struct {
	fn  *ssa.Function
	env []Value
}

type nativeFn struct {
	name string
	f    func(w *Worker, args []Value) Value
}

type symElemPtr struct {
	base []Value
	idx  *Term
}

// sliceDataPtr is the result of unsafe.SliceData / StringData.
type sliceDataPtr struct {
	s []Value
}

type floatOpaque struct{}

// stubObj stands for an object of a stubbed package.
type stubObj struct{ t types.Type }

type mapEntry struct {
	k, v Value
	live bool
	sym  bool
}

type mapV struct {
	keyT, elemT types.Type
	entries     []*mapEntry
	idx         map[string]int
	nsym        int
	count       int
	base        bool
}

type mapIter struct {
	m     *mapV
	order []int
	i     int
}

type strIter struct {
	s Value
	i int
}

type chanV struct {
	buf    []Value
	cap    int
	closed bool
	recvq  int // goroutines waiting to receive
	// unbuffered handoff
	sendWaiting []*chanSend
	elemT       types.Type
	timer       bool
}

type chanSend struct {
	v    Value
	done bool
}

type kindT struct {
	k      uint8
	w      uint8
	signed bool
}

const (
	kInvalid uint8 = iota
	kBool
	kInt
	kFloat
	kString
	kComplex
	kPtr // pointers, unsafe pointers
	kSlice
	kMap
	kChan
	kFunc
	kIface
	kStruct
	kArray
	kTuple
)

func kindOf(t types.Type) kindT {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return kindT{kBool, 0, false}
		case types.Int, types.Int64, types.UntypedInt:
			return kindT{kInt, 64, true}
		case types.Int8:
			return kindT{kInt, 8, true}
		case types.Int16:
			return kindT{kInt, 16, true}
		case types.Int32, types.UntypedRune:
			return kindT{kInt, 32, true}
		case types.Uint, types.Uint64, types.Uintptr:
			return kindT{kInt, 64, false}
		case types.Uint8:
			return kindT{kInt, 8, false}
		case types.Uint16:
			return kindT{kInt, 16, false}
		case types.Uint32:
			return kindT{kInt, 32, false}
		case types.Float32:
			return kindT{kFloat, 32, true}
		case types.Float64, types.UntypedFloat:
			return kindT{kFloat, 64, true}
		case types.String, types.UntypedString:
			return kindT{kString, 0, false}
		case types.UnsafePointer, types.UntypedNil:
			return kindT{kPtr, 64, false}
		case types.Complex128, types.Complex64, types.UntypedComplex:
			return kindT{kComplex, 0, false}
		}
	case *types.Pointer:
		return kindT{kPtr, 64, false}
	case *types.Slice:
		return kindT{kSlice, 0, false}
	case *types.Map:
		return kindT{kMap, 0, false}
	case *types.Chan:
		return kindT{kChan, 0, false}
	case *types.Signature:
		return kindT{kFunc, 0, false}
	case *types.Interface:
		return kindT{kIface, 0, false}
	case *types.Struct:
		return kindT{kStruct, 0, false}
	case *types.Array:
		return kindT{kArray, 0, false}
	case *types.Tuple:
		return kindT{kTuple, 0, false}
	}
	return kindT{}
}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n := u.NumFields()
		s := make(structV, n)
		for i := 0; i < n; i++ {
			s[i] = zero(u.Field(i).Type())
		}
		return Value{p: s}
	case *types.Array:
		n := int(u.Len())
		a := make(arrayV, n)
		switch kindOf(u.Elem()).k {
		case kStruct, kArray:
			for i := range a {
				a[i] = zero(u.Elem())
			}
		}
		return Value{p: a}
	case *types.Tuple:
		tv := make(tupleV, u.Len())
		for i := range tv {
			tv[i] = zero(u.At(i).Type())
		}
		return Value{p: tv}
	}
	return Value{}
}

func copyVal(v Value) Value {
	switch x := v.p.(type) {
	case structV:
		c := make(structV, len(x))
		for i := range x {
			c[i] = copyVal(x[i])
		}
		return Value{p: c}
	case arrayV:
		c := make(arrayV, len(x))
		for i := range x {
			c[i] = copyVal(x[i])
		}
		return Value{p: c}
	}
	return v
}

// norm normalises a concrete integer to the representation of kind k.
func norm(v uint64, k kindT) uint64 {
	if k.w >= 64 {
		return v
	}
	if k.signed {
		return signExt(v&maskW(k.w), k.w)
	}
	return v & maskW(k.w)
}

func boolV(b bool) Value {
	if b {
		return Value{n: 1}
	}
	return Value{}
}

func intV(i int) Value       { return Value{n: uint64(i)} }
func strV(s string) Value    { return Value{p: s} }
func isSym(v Value) bool     { _, ok := v.p.(*Term); return ok }
func symOf(v Value) *Term    { t, _ := v.p.(*Term); return t }
func isNilP(v Value) bool    { return v.p == nil }
func (v Value) int() int     { v.needConc(); return int(int64(v.n)) }
func (v Value) i64() int64   { v.needConc(); return int64(v.n) }
func (v Value) isTrue() bool { v.needConc(); return v.n != 0 }

func (v Value) needConc() {
	if v.p != nil {
		if _, ok := v.p.(*Term); ok {
			panic(&pathEnd{kind: peUnsupported, msg: "symbolic value where a concrete one is needed"})
		}
	}
}

// --- strings ---

func strLen(v Value) int {
	switch s := v.p.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *symStr:
		for _, b := range s.b {
			if _, ok := b.p.(*strTok); ok {
				panic(&pathEnd{kind: peUnsupported, msg: "len of string with formatted symbolic integer"})
			}
		}
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen: %T", v.p))
}

func strConc(v Value) (string, bool) {
	switch s := v.p.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func strBytes(v Value) []Value {
	switch s := v.p.(type) {
	case nil:
		return nil
	case string:
		r := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			r[i].n = uint64(s[i])
		}
		return r
	case *symStr:
		return s.b
	}
	panic(fmt.Sprintf("strBytes: %T", v.p))
}

func strAt(v Value, i int) Value {
	switch s := v.p.(type) {
	case string:
		return Value{n: uint64(s[i])}
	case *symStr:
		if _, ok := s.b[i].p.(*strTok); ok {
			panic(&pathEnd{kind: peUnsupported, msg: "index into string with formatted symbolic integer"})
		}
		return s.b[i]
	}
	panic("strAt")
}

func strSlice(v Value, lo, hi int) Value {
	switch s := v.p.(type) {
	case nil:
		return Value{}
	case string:
		return Value{p: s[lo:hi]}
	case *symStr:
		return mkStr(s.b[lo:hi])
	}
	panic("strSlice")
}

// mkStr builds a string from bytes (which must not be mutated afterwards).
func mkStr(b []Value) Value {
	for i := range b {
		if b[i].p != nil {
			return Value{p: &symStr{b}}
		}
	}
	bs := make([]byte, len(b))
	for i := range b {
		bs[i] = byte(b[i].n)
	}
	return Value{p: string(bs)}
}

func copyVals(b []Value) []Value {
	r := make([]Value, len(b))
	copy(r, b)
	return r
}

func strConcat(a, b Value) Value {
	if x, ok := strConc(a); ok {
		if y, ok := strConc(b); ok {
			return Value{p: x + y}
		}
	}
	x, y := strBytes(a), strBytes(b)
	r := make([]Value, 0, len(x)+len(y))
	r = append(r, x...)
	r = append(r, y...)
	return mkStr(r)
}

func hasTok(b []Value) bool {
	for i := range b {
		if _, ok := b[i].p.(*strTok); ok {
			return true
		}
	}
	return false
}

func bytesToSlice(b []byte) Value {
	s := make(sliceV, len(b))
	for i, x := range b {
		s[i].n = uint64(x)
	}
	return Value{p: s}
}

func asSlice(v Value) sliceV {
	if v.p == nil {
		return nil
	}
	return v.p.(sliceV)
}

// concBytes returns the concrete bytes of a slice.
func concBytes(s []Value) ([]byte, bool) {
	r := make([]byte, len(s))
	for i := range s {
		if s[i].p != nil {
			return nil, false
		}
		r[i] = byte(s[i].n)
	}
	return r, true
}

// --- path ends ---

type peKind int

const (
	peDone peKind = iota
	peInfeasible
	peExit
	peUnsupported
	peLimit
	pePanic // uncaught panic of the program
	peViolation
	peKilled
	peDeadlock
	peUnknown
)

var peNames = []string{"done", "infeasible", "exit", "unsupported", "limit", "panic", "violation", "killed", "deadlock", "solver-unknown"}

type pathEnd struct {
	kind peKind
	msg  string
}

type goPanic struct {
	v      Value // interface value
	where  string
	goexit bool
}

// --- debugging output ---

func (w *Worker) show(v Value, t types.Type, d int) string {
	if d > 4 {
		return "…"
	}
	if tm, ok := v.p.(*Term); ok {
		return tm.str(4)
	}
	switch kindOf(t).k {
	case kBool:
		return fmt.Sprint(v.n != 0)
	case kInt:
		if kindOf(t).signed {
			return fmt.Sprint(int64(v.n))
		}
		return fmt.Sprint(v.n)
	case kString:
		if s, ok := strConc(v); ok {
			return fmt.Sprintf("%q", s)
		}
		return "<symstr>"
	case kStruct:
		st := t.Underlying().(*types.Struct)
		var sb strings.Builder
		sb.WriteString("{")
		if s, ok := v.p.(structV); ok {
			for i := range s {
				if i > 0 {
					sb.WriteString(" ")
				}
				sb.WriteString(st.Field(i).Name() + ":" + w.show(s[i], st.Field(i).Type(), d+1))
			}
		}
		sb.WriteString("}")
		return sb.String()
	case kSlice, kArray:
		var el types.Type
		var xs []Value
		switch u := t.Underlying().(type) {
		case *types.Slice:
			el = u.Elem()
			xs = asSlice(v)
		case *types.Array:
			el = u.Elem()
			xs = v.p.(arrayV)
		}
		var sb strings.Builder
		sb.WriteString("[")
		for i := range xs {
			if i > 0 {
				sb.WriteString(" ")
			}
			if i > 40 {
				sb.WriteString("…")
				break
			}
			sb.WriteString(w.show(xs[i], el, d+1))
		}
		sb.WriteString("]")
		return sb.String()
	case kPtr:
		if v.p == nil {
			return "nil"
		}
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			if pv, ok := v.p.(*Value); ok {
				return "&" + w.show(*pv, pt.Elem(), d+1)
			}
		}
		return fmt.Sprintf("ptr(%T)", v.p)
	case kIface:
		if v.p == nil {
			return "nil"
		}
		i := v.p.(*ifaceV)
		return fmt.Sprintf("%s(%s)", i.t, w.show(i.v, i.t, d+1))
	case kMap:
		m, _ := v.p.(*mapV)
		if m == nil {
			return "map(nil)"
		}
		var xs []string
		for _, e := range m.entries {
			if e.live {
				xs = append(xs, w.show(e.k, m.keyT, d+1)+":"+w.show(e.v, m.elemT, d+1))
			}
		}
		sort.Strings(xs)
		return "map[" + strings.Join(xs, " ") + "]"
	}
	return fmt.Sprintf("<%s %T>", t, v.p)
}
