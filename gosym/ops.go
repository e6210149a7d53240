package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strconv"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// --- terms and scalars ---

func (w *Worker) toTerm(v Value, k kindT) *Term {
	if t, ok := v.p.(*Term); ok {
		return t
	}
	if v.p != nil {
		w.unsupported("scalar expected, got %T", v.p)
	}
	if k.k == kBool {
		return w.ctx.Bool(v.n != 0)
	}
	return w.ctx.Const(k.w, v.n&maskW(k.w))
}

func (w *Worker) fromTerm(t *Term, k kindT) Value {
	if t.isConst() {
		if t.w == 0 {
			return Value{n: t.k}
		}
		return Value{n: norm(t.k, k)}
	}
	return Value{p: t}
}

var kU8 = kindT{kInt, 8, false}
var kI64 = kindT{kInt, 64, true}
var kU64 = kindT{kInt, 64, false}
var kBoolT = kindT{kBool, 0, false}

// concInt forces an integer to a concrete value, forking over the feasible ones.
func (w *Worker) concInt(v Value, k kindT) int64 {
	t, ok := v.p.(*Term)
	if !ok {
		if v.p != nil {
			w.unsupported("integer expected, got %T", v.p)
		}
		return int64(norm(v.n, k))
	}
	return int64(norm(w.concretize(t), k))
}

func (w *Worker) boolOf(v Value) bool {
	if t, ok := v.p.(*Term); ok {
		return w.branch(t)
	}
	return v.n != 0
}

func (w *Worker) binop(in *instr, x, y Value) Value {
	k := in.k
	switch in.tok {
	case token.EQL:
		return w.equal(in.typ, x, y, in.typ2)
	case token.NEQ:
		return w.notV(w.equal(in.typ, x, y, in.typ2))
	}
	switch k.k {
	case kInt:
		return w.intBin(in.tok, x, y, k, in.k2)
	case kBool:
		if x.p == nil && y.p == nil {
			switch in.tok {
			case token.AND, token.LAND:
				return boolV(x.n != 0 && y.n != 0)
			case token.OR, token.LOR:
				return boolV(x.n != 0 || y.n != 0)
			case token.XOR:
				return boolV(x.n != y.n)
			case token.AND_NOT:
				return boolV(x.n != 0 && y.n == 0)
			}
		}
		a, b := w.toTerm(x, k), w.toTerm(y, k)
		switch in.tok {
		case token.AND, token.LAND:
			return w.fromTerm(w.ctx.And(a, b), k)
		case token.OR, token.LOR:
			return w.fromTerm(w.ctx.Or(a, b), k)
		case token.XOR:
			return w.fromTerm(w.ctx.Not(w.ctx.Eq(a, b)), k)
		case token.AND_NOT:
			return w.fromTerm(w.ctx.And(a, w.ctx.Not(b)), k)
		}
	case kString:
		switch in.tok {
		case token.ADD:
			return strConcat(x, y)
		case token.LSS:
			return w.strLess(x, y, false)
		case token.LEQ:
			return w.strLess(x, y, true)
		case token.GTR:
			return w.strLess(y, x, false)
		case token.GEQ:
			return w.strLess(y, x, true)
		}
	case kFloat:
		return w.floatBin(in.tok, x, y, k)
	}
	w.unsupported("binop %s on %s", in.tok, in.typ)
	return Value{}
}

func (w *Worker) floatBin(tok token.Token, x, y Value, k kindT) Value {
	_, ox := x.p.(floatOpaque)
	_, oy := y.p.(floatOpaque)
	if ox || oy || x.p != nil || y.p != nil {
		switch tok {
		case token.ADD, token.SUB, token.MUL, token.QUO:
			return Value{p: floatOpaque{}}
		}
		w.unsupported("comparison of symbolic floats")
	}
	var a, b float64
	if k.w == 32 {
		a, b = float64(math.Float32frombits(uint32(x.n))), float64(math.Float32frombits(uint32(y.n)))
	} else {
		a, b = math.Float64frombits(x.n), math.Float64frombits(y.n)
	}
	mk := func(f float64) Value {
		if k.w == 32 {
			return Value{n: uint64(math.Float32bits(float32(f)))}
		}
		return Value{n: math.Float64bits(f)}
	}
	switch tok {
	case token.ADD:
		return mk(a + b)
	case token.SUB:
		return mk(a - b)
	case token.MUL:
		return mk(a * b)
	case token.QUO:
		return mk(a / b)
	case token.LSS:
		return boolV(a < b)
	case token.LEQ:
		return boolV(a <= b)
	case token.GTR:
		return boolV(a > b)
	case token.GEQ:
		return boolV(a >= b)
	}
	panic("floatBin")
}

func (w *Worker) intBin(tok token.Token, x, y Value, k, k2 kindT) Value {
	if x.p == nil && y.p == nil {
		a, b := x.n, y.n
		var r uint64
		switch tok {
		case token.ADD:
			r = a + b
		case token.SUB:
			r = a - b
		case token.MUL:
			r = a * b
		case token.QUO:
			if b == 0 {
				w.rtPanic("integer divide by zero")
			}
			if k.signed {
				if int64(b) == -1 {
					r = -a
				} else {
					r = uint64(int64(a) / int64(b))
				}
			} else {
				r = a / b
			}
		case token.REM:
			if b == 0 {
				w.rtPanic("integer divide by zero")
			}
			if k.signed {
				if int64(b) == -1 {
					r = 0
				} else {
					r = uint64(int64(a) % int64(b))
				}
			} else {
				r = a % b
			}
		case token.AND:
			r = a & b
		case token.OR:
			r = a | b
		case token.XOR:
			r = a ^ b
		case token.AND_NOT:
			r = a &^ b
		case token.SHL:
			if k2.signed && int64(b) < 0 {
				w.rtPanic("negative shift amount")
			}
			if b >= 64 {
				r = 0
			} else {
				r = a << b
			}
		case token.SHR:
			if k2.signed && int64(b) < 0 {
				w.rtPanic("negative shift amount")
			}
			if k.signed {
				if b >= 64 {
					b = 63
				}
				r = uint64(int64(a) >> b)
			} else if b >= 64 {
				r = 0
			} else {
				r = a >> b
			}
		case token.LSS:
			if k.signed {
				return boolV(int64(a) < int64(b))
			}
			return boolV(a < b)
		case token.LEQ:
			if k.signed {
				return boolV(int64(a) <= int64(b))
			}
			return boolV(a <= b)
		case token.GTR:
			if k.signed {
				return boolV(int64(a) > int64(b))
			}
			return boolV(a > b)
		case token.GEQ:
			if k.signed {
				return boolV(int64(a) >= int64(b))
			}
			return boolV(a >= b)
		default:
			w.unsupported("int op %s", tok)
		}
		return Value{n: norm(r, k)}
	}
	c := w.ctx
	a := w.toTerm(x, k)
	if tok == token.SHL || tok == token.SHR {
		b := w.toTerm(y, k2)
		if k2.signed {
			if w.branch(c.Slt(b, c.Const(b.w, 0))) {
				w.rtPanic("negative shift amount")
			}
		}
		// bring the amount to the width of a, saturating
		var sh *Term
		if b.w > a.w {
			over := c.Not(c.Ult(b, c.Const(b.w, uint64(a.w))))
			sh = c.Ite(over, c.Const(a.w, uint64(a.w)), c.Extract(b, 0, a.w))
		} else {
			sh = c.Zext(a.w, b)
		}
		if tok == token.SHL {
			return w.fromTerm(c.Bin(OShl, a, sh), k)
		}
		if k.signed {
			return w.fromTerm(c.Bin(OAshr, a, sh), k)
		}
		return w.fromTerm(c.Bin(OLshr, a, sh), k)
	}
	b := w.toTerm(y, k)
	switch tok {
	case token.ADD:
		return w.fromTerm(c.Bin(OAdd, a, b), k)
	case token.SUB:
		return w.fromTerm(c.Bin(OSub, a, b), k)
	case token.MUL:
		return w.fromTerm(c.Bin(OMul, a, b), k)
	case token.QUO, token.REM:
		if w.branch(c.Eq(b, c.Const(b.w, 0))) {
			w.rtPanic("integer divide by zero")
		}
		op := OUdiv
		switch {
		case tok == token.QUO && k.signed:
			op = OSdiv
		case tok == token.REM && k.signed:
			op = OSrem
		case tok == token.REM:
			op = OUrem
		}
		return w.fromTerm(c.Bin(op, a, b), k)
	case token.AND:
		return w.fromTerm(c.Bin(OBAnd, a, b), k)
	case token.OR:
		return w.fromTerm(c.Bin(OBOr, a, b), k)
	case token.XOR:
		return w.fromTerm(c.Bin(OBXor, a, b), k)
	case token.AND_NOT:
		return w.fromTerm(c.Bin(OBAnd, a, c.Bin(OBXor, b, c.Const(b.w, maskW(b.w)))), k)
	case token.LSS:
		return w.fromTerm(w.lt(a, b, k), kBoolT)
	case token.GTR:
		return w.fromTerm(w.lt(b, a, k), kBoolT)
	case token.LEQ:
		return w.fromTerm(w.le(a, b, k), kBoolT)
	case token.GEQ:
		return w.fromTerm(w.le(b, a, k), kBoolT)
	}
	w.unsupported("int op %s", tok)
	return Value{}
}

func (w *Worker) lt(a, b *Term, k kindT) *Term {
	if k.signed {
		return w.ctx.Slt(a, b)
	}
	return w.ctx.Ult(a, b)
}
func (w *Worker) le(a, b *Term, k kindT) *Term {
	if k.signed {
		return w.ctx.Sle(a, b)
	}
	return w.ctx.Ule(a, b)
}

func (w *Worker) notV(v Value) Value {
	if t, ok := v.p.(*Term); ok {
		return w.fromTerm(w.ctx.Not(t), kBoolT)
	}
	return boolV(v.n == 0)
}

func (w *Worker) unop(in *instr, x Value) Value {
	k := in.k
	switch in.tok {
	case token.NOT:
		return w.notV(x)
	case token.SUB:
		if k.k == kFloat {
			if x.p != nil {
				return Value{p: floatOpaque{}}
			}
			if k.w == 32 {
				return Value{n: uint64(math.Float32bits(-math.Float32frombits(uint32(x.n))))}
			}
			return Value{n: math.Float64bits(-math.Float64frombits(x.n))}
		}
		if x.p == nil {
			return Value{n: norm(-x.n, k)}
		}
		t := w.toTerm(x, k)
		return w.fromTerm(w.ctx.Bin(OSub, w.ctx.Const(t.w, 0), t), k)
	case token.XOR:
		if x.p == nil {
			return Value{n: norm(^x.n, k)}
		}
		t := w.toTerm(x, k)
		return w.fromTerm(w.ctx.Bin(OBXor, t, w.ctx.Const(t.w, maskW(t.w))), k)
	}
	w.unsupported("unop %s", in.tok)
	return Value{}
}

func (w *Worker) convert(in *instr, x Value) Value {
	k, k2 := in.k, in.k2
	switch {
	case k.k == kInt && k2.k == kInt:
		if x.p == nil {
			return Value{n: norm(x.n, k2)}
		}
		t := w.toTerm(x, k)
		return w.fromTerm(w.resize(t, k, k2.w), k2)
	case k.k == kInt && k2.k == kFloat:
		if x.p != nil {
			return Value{p: floatOpaque{}}
		}
		var f float64
		if k.signed {
			f = float64(int64(x.n))
		} else {
			f = float64(x.n)
		}
		if k2.w == 32 {
			return Value{n: uint64(math.Float32bits(float32(f)))}
		}
		return Value{n: math.Float64bits(f)}
	case k.k == kFloat && k2.k == kInt:
		if x.p != nil {
			w.unsupported("symbolic float to int")
		}
		f := math.Float64frombits(x.n)
		if k.w == 32 {
			f = float64(math.Float32frombits(uint32(x.n)))
		}
		if k2.signed {
			return Value{n: norm(uint64(int64(f)), k2)}
		}
		return Value{n: norm(uint64(f), k2)}
	case k.k == kFloat && k2.k == kFloat:
		if x.p != nil {
			return x
		}
		if k.w == k2.w {
			return x
		}
		if k.w == 32 {
			return Value{n: math.Float64bits(float64(math.Float32frombits(uint32(x.n))))}
		}
		return Value{n: uint64(math.Float32bits(float32(math.Float64frombits(x.n))))}
	case k.k == kString && k2.k == kSlice:
		el := in.typ2.Underlying().(*types.Slice).Elem()
		if kindOf(el).w == 8 {
			if hasTok(strBytes(x)) {
				return Value{p: sliceV(copyVals(w.expandToks(strBytes(x))))}
			}
			b := strBytes(x)
			r := make(sliceV, len(b))
			copy(r, b)
			return Value{p: r}
		}
		s, ok := strConc(x)
		if !ok {
			// symbolic []rune: ASCII only by forking
			var r sliceV
			it := &strIter{s: x}
			for {
				_, rn, ok := w.nextRune(it)
				if !ok {
					break
				}
				r = append(r, rn)
			}
			return Value{p: r}
		}
		r := sliceV{}
		for _, c := range s {
			r = append(r, Value{n: uint64(int64(c))})
		}
		return Value{p: r}
	case k.k == kSlice && k2.k == kString:
		el := in.typ.Underlying().(*types.Slice).Elem()
		s := asSlice(x)
		if kindOf(el).w == 8 {
			return mkStr(copyVals(s))
		}
		res := Value{}
		for i := range s {
			res = strConcat(res, w.runeStr(s[i]))
		}
		return res
	case k.k == kInt && k2.k == kString:
		return w.runeStr(w.fromTermOr(x, k))
	case k.k == kString && k2.k == kString:
		return x
	case k.k == kPtr && k2.k == kPtr:
		return x
	case k.k == kSlice && k2.k == kSlice, k.k == kFunc, k.k == kMap, k.k == kChan, k.k == kStruct:
		return x
	case k.k == kPtr && k2.k == kInt: // unsafe.Pointer to uintptr
		if x.p == nil {
			return Value{}
		}
		return Value{n: 0xc000000000}
	case k.k == kSlice && k2.k == kArray:
		n := int(in.typ2.Underlying().(*types.Array).Len())
		s := asSlice(x)
		if len(s) < n {
			w.rtPanic("cannot convert slice to array: length too short")
		}
		return copyVal(Value{p: arrayV(s[:n])})
	}
	w.unsupported("convert %s to %s", in.typ, in.typ2)
	return Value{}
}

func (w *Worker) fromTermOr(x Value, k kindT) Value { return x }

// runeStr is string(r) for a rune value.
func (w *Worker) runeStr(x Value) Value {
	if x.p == nil {
		return strV(string(rune(int64(x.n))))
	}
	t := x.p.(*Term)
	c := w.ctx
	if w.branch(c.Ult(t, c.Const(t.w, 0x80))) {
		return mkStr([]Value{w.fromTerm(c.Extract(t, 0, 8), kU8)})
	}
	v := w.concretize(t)
	return strV(string(rune(int64(signExt(v, t.w)))))
}

func (w *Worker) resize(t *Term, k kindT, nw uint8) *Term {
	switch {
	case nw == t.w:
		return t
	case nw < t.w:
		return w.ctx.Extract(t, 0, nw)
	case k.signed:
		return w.ctx.Sext(nw, t)
	}
	return w.ctx.Zext(nw, t)
}

// --- equality ---

func (w *Worker) equal(t types.Type, x, y Value, t2 types.Type) Value {
	k := kindOf(t)
	k2 := kindOf(t2)
	// comparison between interface and concrete types does not occur in SSA (operands are converted)
	_ = k2
	switch k.k {
	case kInt:
		if x.p == nil && y.p == nil {
			return boolV(x.n == y.n)
		}
		return w.fromTerm(w.ctx.Eq(w.toTerm(x, k), w.toTerm(y, k)), kBoolT)
	case kBool:
		if x.p == nil && y.p == nil {
			return boolV(x.n == y.n)
		}
		return w.fromTerm(w.ctx.Eq(w.toTerm(x, k), w.toTerm(y, k)), kBoolT)
	case kFloat:
		if x.p != nil || y.p != nil {
			w.unsupported("symbolic float comparison")
		}
		if k.w == 32 {
			return boolV(math.Float32frombits(uint32(x.n)) == math.Float32frombits(uint32(y.n)))
		}
		return boolV(math.Float64frombits(x.n) == math.Float64frombits(y.n))
	case kString:
		return w.strEq(x, y)
	case kPtr, kChan, kMap, kSlice, kFunc:
		return boolV(w.ptrEq(x, y))
	case kIface:
		return w.ifaceEq(x, y)
	case kStruct:
		st := t.Underlying().(*types.Struct)
		a, b := x.p.(structV), y.p.(structV)
		acc := boolV(true)
		for i := range a {
			if st.Field(i).Name() == "_" {
				continue
			}
			ft := st.Field(i).Type()
			acc = w.andV(acc, w.equal(ft, a[i], b[i], ft))
			if acc.p == nil && acc.n == 0 {
				return acc
			}
		}
		return acc
	case kArray:
		et := t.Underlying().(*types.Array).Elem()
		a, b := x.p.(arrayV), y.p.(arrayV)
		acc := boolV(true)
		for i := range a {
			acc = w.andV(acc, w.equal(et, a[i], b[i], et))
			if acc.p == nil && acc.n == 0 {
				return acc
			}
		}
		return acc
	}
	w.unsupported("equality on %s", t)
	return Value{}
}

func (w *Worker) ptrEq(x, y Value) bool {
	if x.p == nil || y.p == nil {
		return x.p == nil && y.p == nil && x.n == y.n
	}
	switch a := x.p.(type) {
	case sliceV, structV, arrayV:
		return false // only comparison with nil is legal
	case sliceDataPtr:
		b, ok := y.p.(sliceDataPtr)
		return ok && len(a.s) > 0 && len(b.s) > 0 && &a.s[0] == &b.s[0]
	}
	switch y.p.(type) {
	case sliceV, structV, arrayV, sliceDataPtr:
		return false
	}
	return x.p == y.p
}

func (w *Worker) andV(a, b Value) Value {
	if a.p == nil {
		if a.n == 0 {
			return a
		}
		return b
	}
	if b.p == nil {
		if b.n == 0 {
			return b
		}
		return a
	}
	return w.fromTerm(w.ctx.And(a.p.(*Term), b.p.(*Term)), kBoolT)
}

func (w *Worker) orV(a, b Value) Value {
	return w.notV(w.andV(w.notV(a), w.notV(b)))
}

func (w *Worker) ifaceEq(x, y Value) Value {
	if x.p == nil || y.p == nil {
		return boolV(x.p == nil && y.p == nil)
	}
	a, b := x.p.(*ifaceV), y.p.(*ifaceV)
	if a == b {
		return boolV(true)
	}
	if a.t != b.t {
		return boolV(false)
	}
	if !types.Comparable(a.t) {
		w.rtPanic("comparing uncomparable type " + a.t.String())
	}
	return w.equal(a.t, a.v, b.v, a.t)
}

// strEq compares strings that may contain symbolic bytes and formatted integers.
func (w *Worker) strEq(x, y Value) Value {
	if a, ok := strConc(x); ok {
		if b, ok := strConc(y); ok {
			return boolV(a == b)
		}
	}
	a, b := strBytes(x), strBytes(y)
	if hasTok(a) || hasTok(b) {
		return w.tokEq(a, b)
	}
	return w.bytesEqV(a, b)
}

func (w *Worker) bytesEqV(a, b []Value) Value {
	if len(a) != len(b) {
		return boolV(false)
	}
	for i := range a {
		if a[i].p == nil && b[i].p == nil && a[i].n != b[i].n {
			return boolV(false)
		}
	}
	acc := w.ctx.True
	for i := range a {
		if a[i].p == nil && b[i].p == nil {
			continue
		}
		acc = w.ctx.And(acc, w.ctx.Eq(w.toTerm(a[i], kU8), w.toTerm(b[i], kU8)))
	}
	return w.fromTerm(acc, kBoolT)
}

// tokEq: positionally identical shapes compare token by token; otherwise the tokens are expanded.
func (w *Worker) tokEq(a, b []Value) Value {
	if len(a) == len(b) {
		acc := boolV(true)
		ok := true
		for i := range a {
			ta, aok := a[i].p.(*strTok)
			tb, bok := b[i].p.(*strTok)
			if aok != bok {
				ok = false
				break
			}
			if aok {
				if ta.base != tb.base || ta.signed != tb.signed || ta.t.w != tb.t.w {
					ok = false
					break
				}
				// a token must be delimited by a non-digit on the right in both
				if i+1 < len(a) && !(nonDigit(a[i+1]) && nonDigit(b[i+1])) {
					ok = false
					break
				}
				acc = w.andV(acc, w.fromTerm(w.ctx.Eq(ta.t, tb.t), kBoolT))
				continue
			}
			acc = w.andV(acc, w.bytesEqV(a[i:i+1], b[i:i+1]))
		}
		if ok {
			return acc
		}
	}
	return w.bytesEqV(w.expandToks(a), w.expandToks(b))
}

func nonDigit(v Value) bool {
	if v.p != nil {
		return false
	}
	c := byte(v.n)
	return !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F' || c == '-')
}

// expandToks replaces formatted integers by concrete digits, forking on their values.
func (w *Worker) expandToks(a []Value) []Value {
	if !hasTok(a) {
		return a
	}
	var out []Value
	for i := range a {
		if t, ok := a[i].p.(*strTok); ok {
			if w.ghost.symDigits && t.base == 10 {
				out = append(out, w.digitsOf(t)...)
				continue
			}
			v := w.concretize(t.t)
			var s string
			if t.signed {
				s = strconv.FormatInt(int64(signExt(v, t.t.w)), t.base)
			} else {
				s = strconv.FormatUint(v, t.base)
			}
			out = append(out, strBytes(strV(s))...)
			continue
		}
		out = append(out, a[i])
	}
	return out
}

type digKey struct {
	t      *Term
	signed bool
}

type digitNum struct {
	n   int
	neg bool
	d   []Value
	t   *Term
}

// digitsOf renders a decimal token with one symbolic byte per digit, forking on the sign and the number of digits only.
func (w *Worker) digitsOf(k *strTok) []Value {
	key := digKey{k.t, k.signed}
	if d, ok := w.ghost.digits[key]; ok {
		return d
	}
	c := w.ctx
	var out []Value
	t := c.Zext(64, k.t)
	if k.signed {
		t = c.Sext(64, k.t)
		if w.branch(c.Slt(t, c.Const(64, 0))) {
			out = append(out, Value{n: '-'})
			t = c.Bin(OSub, c.Const(64, 0), t)
		}
	}
	n := 1
	for p := uint64(10); n < 20; n, p = n+1, p*10 {
		if w.branch(c.Ult(t, c.Const(64, p))) {
			break
		}
	}
	if n == 20 {
		w.unsupported("number of 20 digits")
	}
	wd := uint8(math.Ceil(float64(n)*math.Log2(10))) + 1
	wd = min(wd, 64)
	sum := c.Const(wd, 0)
	all := c.True
	neg := len(out) > 0
	for i := 0; i < n; i++ {
		d := c.Var(w.freshName("digit"), 8)
		lo := uint64('0')
		if i == 0 && n > 1 {
			lo = '1'
		}
		all = c.And(all, c.And(c.Ule(c.Const(8, lo), d), c.Ule(d, c.Const(8, '9'))))
		dv := c.Bin(OSub, d, c.Const(8, '0'))
		if wd > 8 {
			dv = c.Zext(wd, dv)
		} else {
			dv = c.Extract(dv, 0, wd)
		}
		sum = c.Bin(OAdd, c.Bin(OMul, sum, c.Const(wd, 10)), dv)
		out = append(out, Value{p: d})
	}
	low := t
	if wd < 64 {
		low = c.Extract(t, 0, wd)
	}
	all = c.And(all, c.Eq(sum, low))
	// decimal notation is unique: two numbers of equal length are equal exactly when their digits are
	for _, o := range w.ghost.digitNums {
		if o.n != n || o.neg != neg {
			continue
		}
		e := c.True
		for i := range o.d {
			if o.d[i].p != nil {
				e = c.And(e, c.Eq(o.d[i].p.(*Term), out[i].p.(*Term)))
			}
		}
		q := c.Eq(o.t, t)
		all = c.And(all, c.Or(c.And(e, q), c.And(c.Not(e), c.Not(q))))
	}
	w.doAssume(w.fromTerm(all, kBoolT))
	w.ghost.digitNums = append(w.ghost.digitNums, digitNum{n, neg, out, t})
	w.ghost.digits[key] = out
	return out
}

func (w *Worker) strLess(x, y Value, orEq bool) Value {
	if a, ok := strConc(x); ok {
		if b, ok := strConc(y); ok {
			if orEq {
				return boolV(a <= b)
			}
			return boolV(a < b)
		}
	}
	return w.fromTerm(w.lexLess(w.expandToks(strBytes(x)), w.expandToks(strBytes(y)), orEq), kBoolT)
}

func (w *Worker) lexLess(a, b []Value, orEq bool) *Term {
	c := w.ctx
	n := min(len(a), len(b))
	var r *Term
	switch {
	case len(a) < len(b):
		r = c.True
	case len(a) == len(b):
		r = c.Bool(orEq)
	default:
		r = c.False
	}
	for i := n - 1; i >= 0; i-- {
		x, y := w.toTerm(a[i], kU8), w.toTerm(b[i], kU8)
		r = c.Or(c.Ult(x, y), c.And(c.Eq(x, y), r))
	}
	return r
}

// --- memory ---

func (w *Worker) loadSlow(x Value, in *instr) Value {
	switch p := x.p.(type) {
	case nil:
		w.nilDeref()
	case *symElemPtr:
		return w.symRead(p.base, p.idx, in.k)
	case sliceDataPtr:
		if len(p.s) == 0 {
			w.nilDeref()
		}
		return p.s[0]
	}
	w.unsupported("load through %T", x.p)
	return Value{}
}

func (w *Worker) symRead(base []Value, idx *Term, k kindT) Value {
	if k.k != kInt && k.k != kBool {
		i := w.concretize(idx)
		return copyVal(base[i])
	}
	lo, hi := idx.lo, idx.hi
	if hi >= uint64(len(base)) {
		hi = uint64(len(base)) - 1
	}
	c := w.ctx
	r := w.toTerm(base[hi], k)
	for i := int64(hi) - 1; i >= int64(lo); i-- {
		r = c.Ite(c.Eq(idx, c.Const(idx.w, uint64(i))), w.toTerm(base[i], k), r)
	}
	return w.fromTerm(r, k)
}

func (w *Worker) storeSlow(x Value, v Value, in *instr) {
	switch p := x.p.(type) {
	case nil:
		w.nilDeref()
	case *symElemPtr:
		if in.k.k != kInt && in.k.k != kBool {
			i := w.concretize(p.idx)
			w.storeInto(&p.base[i], v, false)
			return
		}
		c := w.ctx
		nv := w.toTerm(v, in.k)
		hi := min(p.idx.hi, uint64(len(p.base)-1))
		for i := p.idx.lo; i <= hi; i++ {
			old := w.toTerm(p.base[i], in.k)
			w.set(&p.base[i], w.fromTerm(c.Ite(c.Eq(p.idx, c.Const(p.idx.w, i)), nv, old), in.k))
		}
		return
	}
	w.unsupported("store through %T", x.p)
}

// boundsCheck returns the index as a concrete int or as a term known to be in range.
func (w *Worker) boundsCheck(y Value, k kindT, n int) (int, *Term) {
	if t, ok := y.p.(*Term); ok {
		c := w.ctx
		ext := w.resize(t, k, 64)
		if !w.branch(c.Ult(ext, c.Const(64, uint64(n)))) {
			w.rtPanic("index out of range")
		}
		return -1, ext
	}
	i := int64(norm(y.n, k))
	if !k.signed && k.w == 64 && y.n > math.MaxInt64 {
		i = -1
	}
	if i < 0 || i >= int64(n) {
		w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
	}
	return int(i), nil
}

func (w *Worker) indexAddr(in *instr, x, y Value) Value {
	var base []Value
	if in.k.k == kSlice {
		base = asSlice(x)
	} else {
		p, ok := x.p.(*Value)
		if !ok {
			if x.p == nil {
				w.nilDeref()
			}
			w.unsupported("index address of %T", x.p)
		}
		base = p.p.(arrayV)
	}
	if y.p == nil {
		if y.n < uint64(len(base)) {
			return Value{p: &base[y.n]}
		}
		w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(y.n), len(base)))
	}
	i, t := w.boundsCheck(y, in.k2, len(base))
	if t == nil {
		return Value{p: &base[i]}
	}
	if t.lo == t.hi {
		return Value{p: &base[t.lo]}
	}
	switch base[0].p.(type) {
	case structV, arrayV:
		return Value{p: &base[w.concretize(t)]}
	}
	return Value{p: &symElemPtr{base: base, idx: t}}
}

// plain renders the numbers in a text as digits, where the harness asked for symbolic digits.
func (w *Worker) plain(x Value) Value {
	if s, ok := x.p.(*symStr); ok && w.ghost.symDigits && hasTok(s.b) {
		return mkStr(w.expandToks(s.b))
	}
	return x
}

func (w *Worker) index(in *instr, x, y Value) Value {
	if in.k.k == kString {
		x = w.plain(x)
		n := strLen(x)
		i, t := w.boundsCheck(y, in.k2, n)
		if t == nil {
			return strAt(x, i)
		}
		return w.symRead(strBytes(x), t, kU8)
	}
	a, ok := x.p.(arrayV)
	if !ok {
		w.unsupported("index of %T", x.p)
	}
	i, t := w.boundsCheck(y, in.k2, len(a))
	if t == nil {
		return a[i]
	}
	return w.symRead(a, t, kindOf(in.typ))
}

func (w *Worker) makeSlice(in *instr, l, c Value) Value {
	n := w.allocLen(l, in.k)
	m := w.allocLen(c, in.k2)
	if n < 0 {
		w.rtPanic("makeslice: len out of range")
	}
	if m < n {
		w.rtPanic("makeslice: cap out of range")
	}
	if m > 1<<26 {
		panic(&pathEnd{kind: peLimit, msg: fmt.Sprintf("allocation of %d elements %s", m, w.where())})
	}
	s := make(sliceV, n, m)
	if !in.flat {
		full := s[:m]
		for i := range full {
			full[i] = copyVal(in.zero)
		}
	}
	return Value{p: s}
}

func (w *Worker) allocLen(v Value, k kindT) int {
	return int(w.concInt(v, k))
}

func (w *Worker) slice(fr *frame, in *instr) Value {
	x := w.get(fr, &in.x)
	if in.k.k == kString {
		x = w.plain(x)
	}
	opt := func(i int, def int) int {
		o := &in.args[i]
		if o.reg == -2 {
			return def
		}
		v := w.get(fr, o)
		if v.p == nil {
			if v.n > math.MaxInt32 {
				return -1
			}
			return int(v.n)
		}
		// Decide the out-of-range case once instead of enumerating values.
		t := v.p.(*Term)
		lim := uint64(0)
		switch in.k.k {
		case kString:
			lim = uint64(strLen(x))
		case kSlice:
			lim = uint64(cap(asSlice(x)))
		default:
			if p, ok := x.p.(*Value); ok {
				lim = uint64(len(p.p.(arrayV)))
			}
		}
		if t.w < 64 {
			t = w.ctx.Zext(64, t)
		}
		if w.branch(w.ctx.Ult(w.ctx.Const(64, lim), t)) {
			return -1
		}
		return int(w.concretize(t))
	}
	if in.k.k == kString {
		n := strLen(x)
		lo := opt(0, 0)
		hi := opt(1, n)
		if hi < 0 || hi > n || lo < 0 || lo > hi {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n))
		}
		return strSlice(x, lo, hi)
	}
	var s []Value
	isNil := false
	if in.k.k == kSlice {
		if x.p == nil {
			isNil = true
		} else {
			s = x.p.(sliceV)
		}
	} else {
		p, ok := x.p.(*Value)
		if !ok {
			w.nilDeref()
		}
		s = p.p.(arrayV)
	}
	lo := opt(0, 0)
	hi := opt(1, len(s))
	mx := opt(2, cap(s))
	if mx < 0 || mx > cap(s) || hi < 0 || hi > mx || lo < 0 || lo > hi {
		w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cap(s)))
	}
	if isNil {
		return Value{}
	}
	return Value{p: sliceV(s[lo:hi:mx])}
}

// --- builtins ---

func (w *Worker) appendVals(dst sliceV, src []Value, nilOK bool) Value {
	if len(src) == 0 {
		if dst == nil {
			return Value{}
		}
		return Value{p: dst}
	}
	n := len(dst)
	if cap(dst)-n >= len(src) {
		r := dst[:n+len(src)]
		// in-place growth writes shared backing memory
		for i := range src {
			w.set(&r[n+i], copyVal(src[i]))
		}
		return Value{p: r}
	}
	nc := n + len(src)
	if nc < 2*n {
		nc = 2 * n
	}
	if nc < 4 {
		nc = 4
	}
	r := make(sliceV, n+len(src), nc)
	copy(r, dst)
	for i := range src {
		r[n+i] = copyVal(src[i])
	}
	// elements moved: the old backing array keeps its own aggregates
	if n > 0 {
		switch dst[0].p.(type) {
		case structV, arrayV:
			for i := 0; i < n; i++ {
				r[i] = copyVal(dst[i])
			}
		}
	}
	if len(src) > 0 {
		switch src[0].p.(type) {
		case structV, arrayV:
			// spare capacity must hold aggregates too
			full := r[:cap(r)]
			for i := len(r); i < len(full); i++ {
				full[i] = zeroLike(src[0])
			}
		}
	}
	return Value{p: r}
}

func zeroLike(v Value) Value {
	switch x := v.p.(type) {
	case structV:
		r := make(structV, len(x))
		for i := range x {
			r[i] = zeroLike(x[i])
		}
		return Value{p: r}
	case arrayV:
		r := make(arrayV, len(x))
		for i := range x {
			r[i] = zeroLike(x[i])
		}
		return Value{p: r}
	}
	return Value{}
}

func (w *Worker) builtin(in *instr, name string, args []Value) Value {
	switch name {
	case "len":
		return w.length(args[0], in.k)
	case "cap":
		switch x := args[0].p.(type) {
		case nil:
			return Value{}
		case sliceV:
			return intV(cap(x))
		case arrayV:
			return intV(len(x))
		case *chanV:
			return intV(x.cap)
		case *Value:
			return intV(len(x.p.(arrayV)))
		}
	case "append":
		dst := asSlice(args[0])
		if len(args) == 1 {
			return args[0]
		}
		if in.k2.k == kString {
			b := strBytes(args[1])
			if hasTok(b) {
				b = w.expandToks(b)
			}
			return w.appendVals(dst, b, true)
		}
		return w.appendVals(dst, asSlice(args[1]), true)
	case "copy":
		dst := asSlice(args[0])
		var src []Value
		if in.k2.k == kString {
			src = strBytes(args[1])
			if hasTok(src) {
				src = w.expandToks(src)
			}
		} else {
			src = asSlice(args[1])
		}
		n := min(len(dst), len(src))
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			w.storeInto(&dst[i], tmp[i], false)
		}
		return intV(n)
	case "delete":
		if args[0].p == nil {
			return Value{}
		}
		m := args[0].p.(*mapV)
		if e := w.mapFind(m, args[1]); e >= 0 {
			w.mapWritable(m)
			m.entries[e].live = false
			m.count--
			if m.entries[e].sym {
				m.nsym--
			} else {
				delete(m.idx, w.keyStr(m.keyT, m.entries[e].k))
			}
		}
		return Value{}
	case "clear":
		switch x := args[0].p.(type) {
		case *mapV:
			w.mapWritable(x)
			x.entries = nil
			x.idx = map[string]int{}
			x.nsym, x.count = 0, 0
		case sliceV:
			for i := range x {
				w.storeInto(&x[i], zeroLike(x[i]), false)
			}
		}
		return Value{}
	case "panic":
		panic(&goPanic{v: args[0], where: w.where()})
	case "recover":
		fr := w.cur.top
		if fr.deferOf != nil && fr.deferOf.panicking != nil && !fr.deferOf.recovered {
			if fr.deferOf.panicking.goexit {
				return Value{}
			}
			fr.deferOf.recovered = true
			return fr.deferOf.panicking.v
		}
		return Value{}
	case "print", "println":
		return Value{}
	case "close":
		w.chanClose(args[0])
		return Value{}
	case "min", "max":
		k := in.k
		r := args[0]
		for _, a := range args[1:] {
			var c Value
			if k.k == kString {
				c = w.strLess(a, r, false)
				if name == "max" {
					c = w.strLess(r, a, false)
				}
				if w.boolOf(c) {
					r = a
				}
				continue
			}
			if k.k == kFloat {
				op := token.LSS
				if name == "max" {
					op = token.GTR
				}
				if w.boolOf(w.floatBin(op, a, r, k)) {
					r = a
				}
				continue
			}
			if name == "min" {
				c = w.intBin(token.LSS, a, r, k, k)
			} else {
				c = w.intBin(token.GTR, a, r, k, k)
			}
			if t, ok := c.p.(*Term); ok {
				r, _ = w.scalarIte(t, a, r, k)
			} else if c.n != 0 {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if args[0].p == nil {
			w.nilDeref()
		}
		return args[0]
	case "String": // unsafe.String(ptr, len)
		n := int(w.concInt(args[1], in.k2))
		if n == 0 {
			return Value{}
		}
		return mkStr(copyVals(w.ptrSlice(args[0], n)))
	case "StringData":
		return Value{p: sliceDataPtr{strBytes(args[0])}}
	case "SliceData":
		s := asSlice(args[0])
		if args[0].p == nil {
			return Value{}
		}
		return Value{p: sliceDataPtr{s[:cap(s)]}}
	case "Slice":
		n := int(w.concInt(args[1], in.k2))
		if args[0].p == nil {
			return Value{}
		}
		return Value{p: sliceV(w.ptrSlice(args[0], n))}
	case "real", "imag", "complex":
	}
	w.unsupported("builtin %s on %T", name, func() any {
		if len(args) > 0 {
			return args[0].p
		}
		return nil
	}())
	return Value{}
}

func (w *Worker) ptrSlice(p Value, n int) []Value {
	switch x := p.p.(type) {
	case sliceDataPtr:
		if n <= len(x.s) {
			return x.s[:n:n]
		}
	case *Value:
		if a, ok := x.p.(arrayV); ok && n <= len(a) {
			return a[:n:n]
		}
		if n == 1 {
			return []Value{*x}
		}
		// pointer to the first element of a slice: not representable
	}
	w.unsupported("unsafe slice of %d elements from %T", n, p.p)
	return nil
}

func (w *Worker) length(x Value, k kindT) Value {
	x = w.plain(x)
	switch s := x.p.(type) {
	case nil:
		return Value{}
	case string:
		return intV(len(s))
	case *symStr:
		if hasTok(s.b) {
			return intV(len(w.expandToks(s.b)))
		}
		return intV(len(s.b))
	case sliceV:
		return intV(len(s))
	case arrayV:
		return intV(len(s))
	case *mapV:
		return intV(s.count)
	case *chanV:
		return intV(len(s.buf))
	case *Value:
		return intV(len(s.p.(arrayV)))
	}
	w.unsupported("len of %T", x.p)
	return Value{}
}

// --- maps ---

func (w *Worker) newMap(kt, et types.Type) *mapV {
	return &mapV{keyT: kt, elemT: et, idx: map[string]int{}, base: w.initDepth > 0}
}

// mapWritable saves the map for undo when it belongs to the base heap or is shared.
func (w *Worker) mapWritable(m *mapV) {
	if !m.base || w.initDepth > 0 {
		return
	}
	old := *m
	cp := make([]*mapEntry, len(m.entries))
	for i, e := range m.entries {
		c := *e
		cp[i] = &c
	}
	ci := make(map[string]int, len(m.idx))
	for k, v := range m.idx {
		ci[k] = v
	}
	w.journal = append(w.journal, jent{m: m, mold: &old})
	m.entries = cp
	m.idx = ci
	m.base = false
}

// keyStr encodes a concrete key injectively; ok is false when it has symbolic parts.
func (w *Worker) keyStr(t types.Type, v Value) string {
	s, ok := w.keyEnc(t, v)
	if !ok {
		return ""
	}
	return s
}

func (w *Worker) keyEnc(t types.Type, v Value) (string, bool) {
	switch kindOf(t).k {
	case kInt, kBool, kFloat:
		if v.p != nil {
			return "", false
		}
		return "i" + strconv.FormatUint(v.n, 16), true
	case kString:
		s, ok := strConc(v)
		if !ok {
			return "", false
		}
		return "s" + strconv.Itoa(len(s)) + ":" + s, true
	case kPtr, kChan:
		return fmt.Sprintf("p%p", v.p), true
	case kIface:
		if v.p == nil {
			return "n", true
		}
		iv := v.p.(*ifaceV)
		if !types.Comparable(iv.t) {
			w.rtPanic("hash of unhashable type " + iv.t.String())
		}
		s, ok := w.keyEnc(iv.t, iv.v)
		return fmt.Sprintf("f%p/%s", iv.t, s), ok
	case kStruct:
		st := t.Underlying().(*types.Struct)
		r := "{"
		sv := v.p.(structV)
		for i := range sv {
			s, ok := w.keyEnc(st.Field(i).Type(), sv[i])
			if !ok {
				return "", false
			}
			r += s + ","
		}
		return r + "}", true
	case kArray:
		et := t.Underlying().(*types.Array).Elem()
		av := v.p.(arrayV)
		r := make([]byte, 0, len(av)*4)
		for i := range av {
			s, ok := w.keyEnc(et, av[i])
			if !ok {
				return "", false
			}
			r = append(r, s...)
			r = append(r, ',')
		}
		return string(r), true
	}
	w.unsupported("map key of type %s", t)
	return "", false
}

// mapFind returns the index of the live entry equal to k, or -1; it forks on symbolic comparisons.
func (w *Worker) mapFind(m *mapV, k Value) int {
	ks, conc := w.keyEnc(m.keyT, k)
	if conc {
		if i, ok := m.idx[ks]; ok {
			return i
		}
		if m.nsym == 0 {
			return -1
		}
	}
	for i, e := range m.entries {
		if !e.live || (conc && !e.sym) {
			continue
		}
		if w.boolOf(w.equal(m.keyT, e.k, k, m.keyT)) {
			return i
		}
	}
	return -1
}

func (w *Worker) mapUpdate(mv, k, v Value) {
	if mv.p == nil {
		w.rtPanic("assignment to entry in nil map")
	}
	m, ok := mv.p.(*mapV)
	if !ok {
		w.unsupported("map update of %T", mv.p)
	}
	i := w.mapFind(m, k)
	w.mapWritable(m)
	if i >= 0 {
		m.entries[i].v = v
		return
	}
	ks, conc := w.keyEnc(m.keyT, k)
	m.entries = append(m.entries, &mapEntry{k: k, v: v, live: true, sym: !conc})
	if conc {
		m.idx[ks] = len(m.entries) - 1
	} else {
		m.nsym++
	}
	m.count++
}

func (w *Worker) lookup(in *instr, x, y Value) Value {
	if in.k.k == kString {
		x = w.plain(x)
		n := strLen(x)
		i, t := w.boundsCheck(y, in.k2, n)
		if t == nil {
			return strAt(x, i)
		}
		return w.symRead(strBytes(x), t, kU8)
	}
	v := in.zero
	found := false
	if x.p != nil {
		m, ok := x.p.(*mapV)
		if !ok {
			w.unsupported("lookup in %T", x.p)
		}
		if i := w.mapFind(m, y); i >= 0 {
			v = m.entries[i].v
			found = true
		}
	}
	if in.commaOk {
		return Value{p: tupleV{v, boolV(found)}}
	}
	return v
}

func (w *Worker) rangeIter(in *instr, x Value) Value {
	if in.k.k == kString {
		return Value{p: &strIter{s: x}}
	}
	it := &mapIter{}
	if x.p != nil {
		it.m = x.p.(*mapV)
		for i, e := range it.m.entries {
			if e.live {
				it.order = append(it.order, i)
			}
		}
		if w.mapOrder && len(it.order) > 1 && len(it.order) <= w.eng.maxMapPerm && w.initDepth == 0 && w.mapOrderApplies() {
			// every iteration order is explored
			rest := it.order
			var out []int
			for len(rest) > 1 {
				c := w.choose(len(rest), "maporder")
				out = append(out, rest[c])
				nr := append([]int{}, rest[:c]...)
				rest = append(nr, rest[c+1:]...)
			}
			it.order = append(out, rest...)
		}
	}
	return Value{p: it}
}

// mapOrderApplies limits order forking to code of the repository under test.
func (w *Worker) mapOrderApplies() bool {
	return w.cur.top != nil && w.cur.top.code.isRepo
}

func (w *Worker) next(in *instr, x Value) Value {
	switch it := x.p.(type) {
	case *strIter:
		i, r, ok := w.nextRune(it)
		return Value{p: tupleV{boolV(ok), intV(i), r}}
	case *mapIter:
		for it.i < len(it.order) {
			e := it.m.entries[it.order[it.i]]
			it.i++
			if e.live {
				return Value{p: tupleV{boolV(true), e.k, e.v}}
			}
		}
		return Value{p: tupleV{boolV(false), zero0(in.typ), zero0(in.typ2)}}
	}
	w.unsupported("next on %T", x.p)
	return Value{}
}

func zero0(t types.Type) Value {
	if t == nil {
		return Value{}
	}
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return Value{}
	}
	return zero(t)
}

// nextRune decodes the next rune of a possibly symbolic string.
func (w *Worker) nextRune(it *strIter) (int, Value, bool) {
	if s, ok := strConc(it.s); ok {
		if it.i >= len(s) {
			return 0, Value{}, false
		}
		r, n := utf8.DecodeRuneInString(s[it.i:])
		i := it.i
		it.i += n
		return i, Value{n: uint64(int64(r))}, true
	}
	b := strBytes(it.s)
	if hasTok(b) {
		b = w.expandToks(b)
		it.s = mkStr(b)
		return w.nextRune(it)
	}
	if it.i >= len(b) {
		return 0, Value{}, false
	}
	i := it.i
	if t, ok := b[i].p.(*Term); ok {
		c := w.ctx
		if w.branch(c.Ult(t, c.Const(8, 0x80))) {
			it.i++
			return i, w.fromTerm(c.Zext(32, t), kindT{kInt, 32, true}), true
		}
	} else if b[i].n < 0x80 {
		it.i++
		return i, Value{n: b[i].n}, true
	}
	r, n := w.decodeRune(b[i:])
	it.i += n
	return i, r, true
}

// decodeRune decodes a non-ASCII rune symbolically.
func (w *Worker) decodeRune(b []Value) (Value, int) {
	c := w.ctx
	at := func(i int) *Term { return w.toTerm(b[i], kU8) }
	inr := func(t *Term, lo, hi uint64) *Term {
		return c.And(c.Ule(c.Const(8, lo), t), c.Ule(t, c.Const(8, hi)))
	}
	bad := func() (Value, int) { return Value{n: 0xFFFD}, 1 }
	k32 := kindT{kInt, 32, true}
	z := func(t *Term, mask uint64, sh uint64) *Term {
		return c.Bin(OShl, c.Zext(32, c.Bin(OBAnd, t, c.Const(8, mask))), c.Const(32, sh))
	}
	or := func(x, y *Term) *Term { return c.Bin(OBOr, x, y) }
	b0 := at(0)
	if w.branch(inr(b0, 0xC2, 0xDF)) {
		if len(b) < 2 || !w.branch(inr(at(1), 0x80, 0xBF)) {
			return bad()
		}
		return w.fromTerm(or(z(b0, 0x1F, 6), z(at(1), 0x3F, 0)), k32), 2
	}
	if w.branch(inr(b0, 0xE0, 0xEF)) {
		if len(b) < 3 {
			return bad()
		}
		ok := c.And(inr(at(1), 0x80, 0xBF), inr(at(2), 0x80, 0xBF))
		ok = c.And(ok, c.Or(c.Not(c.Eq(b0, c.Const(8, 0xE0))), c.Ule(c.Const(8, 0xA0), at(1))))
		ok = c.And(ok, c.Or(c.Not(c.Eq(b0, c.Const(8, 0xED))), c.Ule(at(1), c.Const(8, 0x9F))))
		if !w.branch(ok) {
			return bad()
		}
		return w.fromTerm(or(or(z(b0, 0x0F, 12), z(at(1), 0x3F, 6)), z(at(2), 0x3F, 0)), k32), 3
	}
	if w.branch(inr(b0, 0xF0, 0xF4)) {
		if len(b) < 4 {
			return bad()
		}
		ok := c.And(c.And(inr(at(1), 0x80, 0xBF), inr(at(2), 0x80, 0xBF)), inr(at(3), 0x80, 0xBF))
		ok = c.And(ok, c.Or(c.Not(c.Eq(b0, c.Const(8, 0xF0))), c.Ule(c.Const(8, 0x90), at(1))))
		ok = c.And(ok, c.Or(c.Not(c.Eq(b0, c.Const(8, 0xF4))), c.Ule(at(1), c.Const(8, 0x8F))))
		if !w.branch(ok) {
			return bad()
		}
		return w.fromTerm(or(or(z(b0, 0x07, 18), z(at(1), 0x3F, 12)), or(z(at(2), 0x3F, 6), z(at(3), 0x3F, 0))), k32), 4
	}
	return bad()
}

// --- type assertions ---

func (w *Worker) implements(t types.Type, it *types.Interface) bool {
	if t == w.eng.stubT {
		return true
	}
	return types.Implements(t, it)
}

func (w *Worker) typeAssert(in *instr, x Value) Value {
	ok := false
	var v Value
	if x.p != nil {
		iv := x.p.(*ifaceV)
		if in.k.k == kIface {
			if w.implements(iv.t, in.typ.Underlying().(*types.Interface)) {
				ok = true
				v = x
				if so, is := iv.v.p.(*stubObj); is {
					v = Value{p: &ifaceV{t: w.eng.stubT, v: Value{p: so}}}
				}
			}
		} else if iv.t == in.typ {
			ok = true
			v = iv.v
		}
	}
	if in.commaOk {
		if !ok {
			v = in.zero
		}
		return Value{p: tupleV{v, boolV(ok)}}
	}
	if !ok {
		ts := "nil"
		if x.p != nil {
			ts = x.p.(*ifaceV).t.String()
		}
		w.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", ts, in.typ))
	}
	return v
}

var _ = ssa.BuilderMode(0)
