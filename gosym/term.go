package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Term is a hash-consed bit-vector (w 1..64) or boolean (w==0) term.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBAnd
	OBOr
	OBXor
	OShl
	OLshr
	OAshr
	OExtract // k = lo, w = width
	OZext
	OSext
	OConcat
)

type Term struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c *Term
	name    string
	id      int32
	lo, hi  uint64 // unsigned range (BV only)
	// evaluation cache
	evalStamp int64
	evalVal   uint64
	defined   int64 // solver session in which it is defined
	sup       uint8 // 0 unknown, 1 one variable (sup1), 2 none or several
	sup1      *Term
}

type termKey struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c int32
	name    string
}

// TermCtx owns the terms of one worker.
type TermCtx struct {
	tab   map[termKey]*Term
	next  int32
	True  *Term
	False *Term
	stamp int64
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: make(map[termKey]*Term, 1<<14), stamp: 1}
	c.False = c.mk(&Term{op: OConst, w: 0, k: 0})
	c.True = c.mk(&Term{op: OConst, w: 0, k: 1})
	return c
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func maskW(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (c *TermCtx) mk(t *Term) *Term {
	key := termKey{t.op, t.w, t.k, tid(t.a), tid(t.b), tid(t.c), t.name}
	if x, ok := c.tab[key]; ok {
		return x
	}
	t.id = c.next
	c.next++
	c.setRange(t)
	c.tab[key] = t
	return t
}

func (c *TermCtx) setRange(t *Term) {
	if t.w == 0 {
		return
	}
	m := maskW(t.w)
	t.lo, t.hi = 0, m
	switch t.op {
	case OConst:
		t.lo, t.hi = t.k, t.k
	case OZext:
		t.lo, t.hi = t.a.lo, t.a.hi
	case OIte:
		t.lo, t.hi = min(t.b.lo, t.c.lo), max(t.b.hi, t.c.hi)
	case OAdd:
		hi, cy := bits.Add64(t.a.hi, t.b.hi, 0)
		if cy == 0 && hi <= m {
			t.lo, t.hi = t.a.lo+t.b.lo, hi
		}
	case OSub:
		if t.a.lo >= t.b.hi {
			t.lo, t.hi = t.a.lo-t.b.hi, t.a.hi-t.b.lo
		}
	case OMul:
		h, l := bits.Mul64(t.a.hi, t.b.hi)
		if h == 0 && l <= m {
			t.lo, t.hi = t.a.lo*t.b.lo, l
		}
	case OBAnd:
		t.lo, t.hi = 0, min(t.a.hi, t.b.hi)
	case OBOr, OBXor:
		n := bits.Len64(t.a.hi | t.b.hi)
		t.hi = maskW(uint8(n))
		if t.op == OBOr {
			t.lo = max(t.a.lo, t.b.lo)
		}
	case OUdiv:
		if t.b.op == OConst && t.b.k != 0 {
			t.lo, t.hi = t.a.lo/t.b.k, t.a.hi/t.b.k
		}
	case OUrem:
		if t.b.op == OConst && t.b.k != 0 {
			t.hi = min(t.a.hi, t.b.k-1)
		}
	case OLshr:
		if t.b.op == OConst && t.b.k < 64 {
			t.lo, t.hi = t.a.lo>>t.b.k, t.a.hi>>t.b.k
		} else {
			t.hi = t.a.hi
		}
	case OShl:
		if t.b.op == OConst && t.b.k < 64 && bits.Len64(t.a.hi)+int(t.b.k) <= int(t.w) {
			t.lo, t.hi = t.a.lo<<t.b.k, t.a.hi<<t.b.k
		}
	case OExtract:
		if t.k == 0 && t.a.hi <= m {
			t.lo, t.hi = t.a.lo, t.a.hi
		}
	case OConcat:
		t.lo, t.hi = t.a.lo<<t.b.w|t.b.lo, t.a.hi<<t.b.w|t.b.hi
	}
	if t.op != OVar && t.op != OConst && t.lo > t.hi {
		t.lo, t.hi = 0, m
	}
}

func (c *TermCtx) Const(w uint8, v uint64) *Term {
	return c.mk(&Term{op: OConst, w: w, k: v & maskW(w)})
}
func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

// Var makes a variable; lo/hi optional known unsigned range is not tracked here.
func (c *TermCtx) Var(name string, w uint8) *Term {
	return c.mk(&Term{op: OVar, w: w, name: name})
}

func (t *Term) isConst() bool { return t.op == OConst }

func (c *TermCtx) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return c.Bool(a.k == 0)
	case ONot:
		return a.a
	case OUlt:
		return c.Ule(a.b, a.a)
	case OUle:
		return c.Ult(a.b, a.a)
	case OSlt:
		return c.Sle(a.b, a.a)
	case OSle:
		return c.Slt(a.b, a.a)
	}
	return c.mk(&Term{op: ONot, a: a})
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a == c.False || b == c.False {
		return c.False
	}
	if a == c.True {
		return b
	}
	if b == c.True || a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return c.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OAnd, a: a, b: b})
}

func (c *TermCtx) Or(a, b *Term) *Term {
	if a == c.True || b == c.True {
		return c.True
	}
	if a == c.False {
		return b
	}
	if b == c.False || a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return c.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OOr, a: a, b: b})
}

func (c *TermCtx) Ite(cond, a, b *Term) *Term {
	if cond == c.True || a == b {
		return a
	}
	if cond == c.False {
		return b
	}
	if a.w == 0 {
		if a == c.True {
			return c.Or(cond, b)
		}
		if a == c.False {
			return c.And(c.Not(cond), b)
		}
		if b == c.True {
			return c.Or(c.Not(cond), a)
		}
		if b == c.False {
			return c.And(cond, a)
		}
		// keep as boolean combination
		return c.Or(c.And(cond, a), c.And(c.Not(cond), b))
	}
	if cond.op == ONot {
		return c.Ite(cond.a, b, a)
	}
	if b.op == OIte && b.a == cond {
		b = b.c
	}
	if a.op == OIte && a.a == cond {
		a = a.b
	}
	if a == b {
		return a
	}
	// ite(c1, x, ite(c2, x, y)) => ite(c1|c2, x, y)
	if b.op == OIte && b.b == a {
		return c.Ite(c.Or(cond, b.a), a, b.c)
	}
	return c.mk(&Term{op: OIte, w: a.w, a: cond, b: a, c: b})
}

// constIte reports whether t is a tree of ites with constant leaves of limited depth.
func constIte(t *Term, depth int) bool {
	if t.op == OConst {
		return true
	}
	if t.op != OIte || depth == 0 {
		return false
	}
	return constIte(t.b, depth-1) && constIte(t.c, depth-1)
}

func (c *TermCtx) mapIte(t *Term, f func(*Term) *Term) *Term {
	if t.op == OIte {
		return c.Ite(t.a, c.mapIte(t.b, f), c.mapIte(t.c, f))
	}
	return f(t)
}

const iteDepth = 40

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.w == 0 {
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.k == 1 {
				return a
			}
			return c.Not(a)
		}
		return c.Or(c.And(a, b), c.And(c.Not(a), c.Not(b)))
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(a.k == b.k)
	}
	if a.hi < b.lo || b.hi < a.lo {
		return c.False
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		switch a.op {
		case OZext:
			return c.Eq(a.a, c.Const(a.a.w, b.k))
		case OSext:
			s := signExt(b.k&maskW(a.a.w), a.a.w) & maskW(a.w)
			if s != b.k {
				return c.False
			}
			return c.Eq(a.a, c.Const(a.a.w, b.k))
		case OIte:
			if constIte(a, iteDepth) {
				return c.mapIte(a, func(l *Term) *Term { return c.Bool(l.k == b.k) })
			}
			if a.b.op == OConst && a.b.k != b.k {
				return c.And(c.Not(a.a), c.Eq(a.c, b))
			}
			if a.c.op == OConst && a.c.k != b.k {
				return c.And(a.a, c.Eq(a.b, b))
			}
		case OAdd:
			if a.b.op == OConst {
				return c.Eq(a.a, c.Const(a.w, b.k-a.b.k))
			}
		case OSub:
			if a.a.op == OConst {
				return c.Eq(a.b, c.Const(a.w, a.a.k-b.k))
			}
		case OBXor:
			if a.b.op == OConst {
				return c.Eq(a.a, c.Const(a.w, b.k^a.b.k))
			}
		case OConcat:
			return c.And(c.Eq(a.a, c.Const(a.a.w, b.k>>a.b.w)), c.Eq(a.b, c.Const(a.b.w, b.k)))
		}
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return c.Eq(a.a, b.a)
	}
	if a.op == OConcat && b.op == OConcat && a.a.w == b.a.w {
		return c.And(c.Eq(a.a, b.a), c.Eq(a.b, b.b))
	}
	if a.op != OConst && b.op != OConst && a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OEq, a: a, b: b})
}

func signExt(v uint64, w uint8) uint64 {
	if w >= 64 {
		return v
	}
	s := 64 - w
	return uint64(int64(v<<s) >> s)
}

func (c *TermCtx) Ult(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.hi < b.lo {
		return c.True
	}
	if a.lo >= b.hi {
		return c.False
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return c.Ult(a.a, b.a)
	}
	if b.op == OConst {
		if a.op == OZext {
			return c.Ult(a.a, c.Const(a.a.w, b.k)) // a.hi>=b.k so it fits
		}
		if constIte(a, iteDepth) {
			return c.mapIte(a, func(l *Term) *Term { return c.Bool(l.k < b.k) })
		}
		if b.k == 1 {
			return c.Eq(a, c.Const(a.w, 0))
		}
		if a.op == OConcat && b.k&maskW(a.b.w) == 0 {
			return c.Ult(a.a, c.Const(a.a.w, b.k>>a.b.w))
		}
	}
	if a.op == OConst {
		if b.op == OZext {
			return c.Ult(c.Const(b.a.w, a.k), b.a)
		}
		if constIte(b, iteDepth) {
			return c.mapIte(b, func(l *Term) *Term { return c.Bool(a.k < l.k) })
		}
		if a.k == maskW(a.w)-1 {
			return c.Eq(b, c.Const(b.w, maskW(b.w)))
		}
	}
	return c.mk(&Term{op: OUlt, a: a, b: b})
}

func (c *TermCtx) Ule(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.hi <= b.lo {
		return c.True
	}
	if a.lo > b.hi {
		return c.False
	}
	if b.op == OConst {
		return c.Ult(a, c.Const(a.w, b.k+1)) // b.k < max here because a.hi > b.k
	}
	if a.op == OConst {
		return c.Ult(c.Const(a.w, a.k-1), b)
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return c.Ule(a.a, b.a)
	}
	return c.mk(&Term{op: OUle, a: a, b: b})
}

func nonNeg(t *Term) bool { return t.hi < uint64(1)<<(t.w-1) }
func allNeg(t *Term) bool { return t.lo >= uint64(1)<<(t.w-1) }

func (c *TermCtx) Slt(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(int64(signExt(a.k, a.w)) < int64(signExt(b.k, b.w)))
	}
	if nonNeg(a) && nonNeg(b) || allNeg(a) && allNeg(b) {
		return c.Ult(a, b)
	}
	if nonNeg(a) && allNeg(b) {
		return c.False
	}
	if allNeg(a) && nonNeg(b) {
		return c.True
	}
	if b.op == OConst && constIte(a, iteDepth) {
		return c.mapIte(a, func(l *Term) *Term { return c.Slt(l, b) })
	}
	if a.op == OConst && constIte(b, iteDepth) {
		return c.mapIte(b, func(l *Term) *Term { return c.Slt(a, l) })
	}
	return c.mk(&Term{op: OSlt, a: a, b: b})
}

func (c *TermCtx) Sle(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(int64(signExt(a.k, a.w)) <= int64(signExt(b.k, b.w)))
	}
	if nonNeg(a) && nonNeg(b) || allNeg(a) && allNeg(b) {
		return c.Ule(a, b)
	}
	if nonNeg(a) && allNeg(b) {
		return c.False
	}
	if allNeg(a) && nonNeg(b) {
		return c.True
	}
	if b.op == OConst && constIte(a, iteDepth) {
		return c.mapIte(a, func(l *Term) *Term { return c.Sle(l, b) })
	}
	if a.op == OConst && constIte(b, iteDepth) {
		return c.mapIte(b, func(l *Term) *Term { return c.Sle(a, l) })
	}
	return c.mk(&Term{op: OSle, a: a, b: b})
}

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	m := maskW(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUdiv:
		if y == 0 {
			return m
		}
		return x / y
	case OUrem:
		if y == 0 {
			return x
		}
		return x % y
	case OSdiv:
		sx, sy := int64(signExt(x, w)), int64(signExt(y, w))
		if sy == 0 {
			if sx < 0 {
				return 1
			}
			return m
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case OSrem:
		sx, sy := int64(signExt(x, w)), int64(signExt(y, w))
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(int64(signExt(x, w))>>y) & m
	}
	panic("evalBin")
}

func (c *TermCtx) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.op == OConst && b.op == OConst {
		return c.Const(w, evalBin(op, w, a.k, b.k))
	}
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if a.op == OConst {
			a, b = b, a
		}
	}
	if b.op == OConst && constIteSmall(a) {
		return c.mapIte(a, func(l *Term) *Term { return c.Bin(op, l, b) })
	}
	bc := b.op == OConst
	m := maskW(w)
	switch op {
	case OAdd:
		if bc && b.k == 0 {
			return a
		}
		if bc && a.op == OAdd && a.b.op == OConst {
			return c.Bin(OAdd, a.a, c.Const(w, a.b.k+b.k))
		}
		if !bc && a.id > b.id {
			a, b = b, a
		}
	case OSub:
		if bc {
			if b.k == 0 {
				return a
			}
			return c.Bin(OAdd, a, c.Const(w, -b.k))
		}
		if a == b {
			return c.Const(w, 0)
		}
	case OMul:
		if bc {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
			if b.k&(b.k-1) == 0 {
				return c.Bin(OShl, a, c.Const(w, uint64(bits.TrailingZeros64(b.k))))
			}
		}
	case OUdiv:
		if bc && b.k == 1 {
			return a
		}
		if bc && b.k != 0 && b.k&(b.k-1) == 0 {
			return c.Bin(OLshr, a, c.Const(w, uint64(bits.TrailingZeros64(b.k))))
		}
	case OUrem:
		if bc && b.k != 0 && b.k&(b.k-1) == 0 {
			return c.Bin(OBAnd, a, c.Const(w, b.k-1))
		}
		if bc && b.k != 0 && a.hi < b.k {
			return a
		}
	case OSdiv, OSrem:
		if nonNeg(a) && nonNeg(b) {
			if op == OSdiv {
				return c.Bin(OUdiv, a, b)
			}
			return c.Bin(OUrem, a, b)
		}
	case OBAnd:
		if a == b {
			return a
		}
		if bc {
			if b.k == 0 {
				return b
			}
			if b.k == m {
				return a
			}
			if a.op == OZext {
				if b.k&maskW(a.a.w) == maskW(a.a.w) {
					return a
				}
				return c.Zext(w, c.Bin(OBAnd, a.a, c.Const(a.a.w, b.k)))
			}
			if a.op == OBAnd && a.b.op == OConst {
				return c.Bin(OBAnd, a.a, c.Const(w, a.b.k&b.k))
			}
			// low mask: zext(extract)
			if b.k&(b.k+1) == 0 {
				n := uint8(bits.Len64(b.k))
				return c.Zext(w, c.Extract(a, 0, n))
			}
			if a.op == OConcat {
				return c.Concat(c.Bin(OBAnd, a.a, c.Const(a.a.w, b.k>>a.b.w)), c.Bin(OBAnd, a.b, c.Const(a.b.w, b.k)))
			}
		}
	case OBOr:
		if a == b {
			return a
		}
		if bc {
			if b.k == 0 {
				return a
			}
			if b.k == m {
				return b
			}
		}
		// disjoint concat: (x << n) | zext(y)
		if r := c.orConcat(a, b); r != nil {
			return r
		}
		if r := c.orConcat(b, a); r != nil {
			return r
		}
		if !bc && a.id > b.id {
			a, b = b, a
		}
	case OBXor:
		if a == b {
			return c.Const(w, 0)
		}
		if bc && b.k == 0 {
			return a
		}
		if bc && a.op == OBXor && a.b.op == OConst {
			return c.Bin(OBXor, a.a, c.Const(w, a.b.k^b.k))
		}
	case OShl:
		if bc {
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(w) {
				return c.Const(w, 0)
			}
			// concat(extract(a, 0, w-k), 0)
			return c.Concat(c.Extract(a, 0, w-uint8(b.k)), c.Const(uint8(b.k), 0))
		}
	case OLshr:
		if bc {
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(w) {
				return c.Const(w, 0)
			}
			return c.Zext(w, c.Extract(a, uint8(b.k), w-uint8(b.k)))
		}
	case OAshr:
		if nonNeg(a) {
			return c.Bin(OLshr, a, b)
		}
		if bc && b.k == 0 {
			return a
		}
		if bc {
			k := b.k
			if k >= uint64(w) {
				k = uint64(w) - 1
			}
			return c.Sext(w, c.Extract(a, uint8(k), w-uint8(k)))
		}
	}
	return c.mk(&Term{op: op, w: w, a: a, b: b})
}

func constIteSmall(t *Term) bool {
	return t.op == OIte && constIte(t, 6)
}

// orConcat recognises hi|lo where hi has zero low bits covering lo's range.
func (c *TermCtx) orConcat(a, b *Term) *Term {
	if a.op == OConcat && a.b.op == OConst && a.b.k == 0 && b.hi <= maskW(a.b.w) {
		return c.Concat(a.a, c.Extract(b, 0, a.b.w))
	}
	if a.op == OConcat && b.op == OConcat && a.b.w == b.b.w {
		return c.Concat(c.Bin(OBOr, a.a, b.a), c.Bin(OBOr, a.b, b.b))
	}
	if a.op == OConcat && b.op == OZext && b.a.w <= a.b.w {
		return c.Concat(a.a, c.Bin(OBOr, a.b, c.Zext(a.b.w, b.a)))
	}
	return nil
}

func (c *TermCtx) Concat(a, b *Term) *Term {
	w := a.w + b.w
	if a.op == OConst && b.op == OConst {
		return c.Const(w, a.k<<b.w|b.k)
	}
	if a.op == OConst && a.k == 0 {
		return c.Zext(w, b)
	}
	if a.op == OZext {
		return c.Zext(w, c.Concat(a.a, b))
	}
	// merge adjacent extracts
	if a.op == OExtract && b.op == OExtract && a.a == b.a && a.k == b.k+uint64(b.w) {
		return c.Extract(a.a, uint8(b.k), w)
	}
	if b.op == OConcat && b.a.op == OExtract && a.op == OExtract && a.a == b.a.a && a.k == b.a.k+uint64(b.a.w) {
		return c.Concat(c.Extract(a.a, uint8(b.a.k), a.w+b.a.w), b.b)
	}
	if a.op == OConcat && a.b.op == OConst && b.op == OConst {
		return c.Concat(a.a, c.Const(a.b.w+b.w, a.b.k<<b.w|b.k))
	}
	return c.mk(&Term{op: OConcat, w: w, a: a, b: b})
}

func (c *TermCtx) Extract(a *Term, lo uint8, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	switch a.op {
	case OConst:
		return c.Const(w, a.k>>lo)
	case OExtract:
		return c.Extract(a.a, lo+uint8(a.k), w)
	case OZext:
		if lo+w <= a.a.w {
			return c.Extract(a.a, lo, w)
		}
		if lo >= a.a.w {
			return c.Const(w, 0)
		}
		return c.Zext(w, c.Extract(a.a, lo, a.a.w-lo))
	case OSext:
		if lo+w <= a.a.w {
			return c.Extract(a.a, lo, w)
		}
	case OConcat:
		if lo+w <= a.b.w {
			return c.Extract(a.b, lo, w)
		}
		if lo >= a.b.w {
			return c.Extract(a.a, lo-a.b.w, w)
		}
		return c.Concat(c.Extract(a.a, 0, w-(a.b.w-lo)), c.Extract(a.b, lo, a.b.w-lo))
	case OBAnd, OBOr, OBXor:
		return c.Bin(a.op, c.Extract(a.a, lo, w), c.Extract(a.b, lo, w))
	case OAdd, OSub, OMul:
		if lo == 0 {
			return c.Bin(a.op, c.Extract(a.a, 0, w), c.Extract(a.b, 0, w))
		}
	case OIte:
		if constIte(a, 12) || a.b.op == OConst || a.c.op == OConst {
			return c.Ite(a.a, c.Extract(a.b, lo, w), c.Extract(a.c, lo, w))
		}
	}
	return c.mk(&Term{op: OExtract, w: w, k: uint64(lo), a: a})
}

func (c *TermCtx) Zext(w uint8, a *Term) *Term {
	if w == a.w {
		return a
	}
	switch a.op {
	case OConst:
		return c.Const(w, a.k)
	case OZext:
		return c.Zext(w, a.a)
	case OIte:
		if constIte(a, iteDepth) {
			return c.mapIte(a, func(l *Term) *Term { return c.Const(w, l.k) })
		}
	}
	return c.mk(&Term{op: OZext, w: w, a: a})
}

func (c *TermCtx) Sext(w uint8, a *Term) *Term {
	if w == a.w {
		return a
	}
	if a.op == OConst {
		return c.Const(w, signExt(a.k, a.w))
	}
	if nonNeg(a) {
		return c.Zext(w, a)
	}
	if a.op == OIte && constIte(a, iteDepth) {
		return c.mapIte(a, func(l *Term) *Term { return c.Const(w, signExt(l.k, l.w)) })
	}
	if a.op == OSext {
		return c.Sext(w, a.a)
	}
	return c.mk(&Term{op: OSext, w: w, a: a})
}

// Eval evaluates t under a model (missing vars are 0).
// onlyVar is the variable a term depends on, when there is exactly one.
func (t *Term) onlyVar() *Term {
	if t.sup != 0 {
		if t.sup == 1 {
			return t.sup1
		}
		return nil
	}
	t.sup = 1
	if t.op == OVar {
		t.sup1 = t
		return t
	}
	for _, k := range []*Term{t.a, t.b, t.c} {
		if k == nil || k.op == OConst {
			continue
		}
		x := k.onlyVar()
		if x == nil || t.sup1 != nil && x != t.sup1 {
			t.sup, t.sup1 = 2, nil
			return nil
		}
		t.sup1 = x
	}
	return t.sup1
}

func (c *TermCtx) newStamp() { c.stamp++ }

func (c *TermCtx) Eval(t *Term, m map[string]uint64) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.evalStamp == c.stamp {
		return t.evalVal
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case OVar:
		r = m[t.name] & maskWB(t.w)
	case ONot:
		r = 1 - c.Eval(t.a, m)
	case OAnd:
		r = c.Eval(t.a, m)
		if r == 1 {
			r = c.Eval(t.b, m)
		}
	case OOr:
		r = c.Eval(t.a, m)
		if r == 0 {
			r = c.Eval(t.b, m)
		}
	case OIte:
		if c.Eval(t.a, m) == 1 {
			r = c.Eval(t.b, m)
		} else {
			r = c.Eval(t.c, m)
		}
	case OEq:
		r = b2u(c.Eval(t.a, m) == c.Eval(t.b, m))
	case OUlt:
		r = b2u(c.Eval(t.a, m) < c.Eval(t.b, m))
	case OUle:
		r = b2u(c.Eval(t.a, m) <= c.Eval(t.b, m))
	case OSlt:
		r = b2u(int64(signExt(c.Eval(t.a, m), t.a.w)) < int64(signExt(c.Eval(t.b, m), t.b.w)))
	case OSle:
		r = b2u(int64(signExt(c.Eval(t.a, m), t.a.w)) <= int64(signExt(c.Eval(t.b, m), t.b.w)))
	case OExtract:
		r = (c.Eval(t.a, m) >> t.k) & maskW(t.w)
	case OZext:
		r = c.Eval(t.a, m)
	case OSext:
		r = signExt(c.Eval(t.a, m), t.a.w) & maskW(t.w)
	case OConcat:
		r = c.Eval(t.a, m)<<t.b.w | c.Eval(t.b, m)
	default:
		r = evalBin(t.op, t.w, c.Eval(t.a, m), c.Eval(t.b, m))
	}
	t.evalStamp = c.stamp
	t.evalVal = r
	return r
}

func maskWB(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return maskW(w)
}

var opName = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat"}

func sortStr(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// ref prints a reference to a term already defined.
func (t *Term) ref() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.k == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.k, t.w)
	case OVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

func (t *Term) body() string {
	switch t.op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.k+uint64(t.w)-1, t.k, t.a.ref())
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	}
	var sb strings.Builder
	sb.WriteString("(")
	sb.WriteString(opName[t.op])
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteString(" ")
			sb.WriteString(x.ref())
		}
	}
	sb.WriteString(")")
	return sb.String()
}

// String renders the full term, for debugging.
func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	if t.op == OConst || t.op == OVar {
		return t.ref()
	}
	if d == 0 {
		return "…"
	}
	var sb strings.Builder
	sb.WriteString("(")
	switch t.op {
	case OExtract:
		fmt.Fprintf(&sb, "ext[%d+%d]", t.k, t.w)
	case OZext:
		fmt.Fprintf(&sb, "zx%d", t.w)
	case OSext:
		fmt.Fprintf(&sb, "sx%d", t.w)
	default:
		sb.WriteString(opName[t.op])
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteString(" ")
			sb.WriteString(x.str(d - 1))
		}
	}
	sb.WriteString(")")
	return sb.String()
}
