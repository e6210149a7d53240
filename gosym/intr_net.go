package main

import "fmt"

// Exact closed forms of small standard library loops over masks and bits, used when the argument is symbolic
// so that they do not fork; concrete arguments run the library code itself.

func (w *Worker) leadingZeros(t *Term, width int) *Term {
	c := w.ctx
	r := c.Const(64, uint64(width))
	for i := 0; i < width; i++ {
		// bits from the lowest to the highest: the highest set bit decides
		r = c.Ite(c.Eq(c.Extract(t, uint8(i), 1), c.Const(1, 1)), c.Const(64, uint64(width-1-i)), r)
	}
	return r
}

func init() {
	bitFn := func(name string, k kindT, f func(w *Worker, t *Term, width int) *Term) {
		reg(func(w *Worker, a []Value) Value {
			return w.fromTerm(f(w, w.toTerm(a[0], k), int(k.w)), kI64)
		}, name)
	}
	k32, k16 := kindT{kInt, 32, false}, kindT{kInt, 16, false}
	lz := func(w *Worker, t *Term, width int) *Term { return w.leadingZeros(t, width) }
	ln := func(w *Worker, t *Term, width int) *Term {
		return w.ctx.Bin(OSub, w.ctx.Const(64, uint64(width)), w.leadingZeros(t, width))
	}
	tz := func(w *Worker, t *Term, width int) *Term {
		c := w.ctx
		r := c.Const(64, uint64(width))
		for i := width - 1; i >= 0; i-- {
			r = c.Ite(c.Eq(c.Extract(t, uint8(i), 1), c.Const(1, 1)), c.Const(64, uint64(i)), r)
		}
		return r
	}
	oc := func(w *Worker, t *Term, width int) *Term {
		c := w.ctx
		r := c.Const(64, 0)
		for i := 0; i < width; i++ {
			r = c.Bin(OAdd, r, c.Zext(64, c.Extract(t, uint8(i), 1)))
		}
		return r
	}
	for _, x := range []struct {
		s string
		k kindT
	}{{"8", kU8}, {"16", k16}, {"32", k32}, {"64", kU64}, {"", kU64}} {
		bitFn("math/bits.LeadingZeros"+x.s, x.k, lz)
		bitFn("math/bits.Len"+x.s, x.k, ln)
		bitFn("math/bits.TrailingZeros"+x.s, x.k, tz)
		bitFn("math/bits.OnesCount"+x.s, x.k, oc)
	}
	reg(func(w *Worker, a []Value) Value {
		// net.simpleMaskLength: number of leading ones, or -1 when a one follows a zero
		c := w.ctx
		one := c.Const(1, 1)
		n := c.Const(64, 0)
		if m := w.ghost.masks[maskKey(asSlice(a[0]))]; m != nil {
			return w.fromTerm(m, kI64)
		}
		seenZero, bad := c.Bool(false), c.Bool(false)
		for _, b := range asSlice(a[0]) {
			t := w.toTerm(b, kU8)
			for i := 7; i >= 0; i-- {
				bit := c.Eq(c.Extract(t, uint8(i), 1), one)
				bad = c.Or(bad, c.And(seenZero, bit))
				seenZero = c.Or(seenZero, c.Not(bit))
				n = c.Ite(seenZero, n, c.Bin(OAdd, n, c.Const(64, 1)))
			}
		}
		return w.fromTerm(c.Ite(bad, c.Const(64, ^uint64(0)), n), kI64)
	}, "net.simpleMaskLength")
	reg(func(w *Worker, a []Value) Value {
		ip := asSlice(a[0])
		switch len(ip) {
		case 4:
			return a[0]
		case 16:
			c := w.ctx
			m := c.Bool(true)
			for i, b := range ip[:12] {
				want := uint64(0)
				if i >= 10 {
					want = 0xff
				}
				m = c.And(m, c.Eq(w.toTerm(b, kU8), c.Const(8, want)))
			}
			if w.boolOf(w.fromTerm(m, kBoolT)) {
				return Value{p: ip[12:16]}
			}
		}
		return Value{}
	}, "(net.IP).To4")
	reg(func(w *Worker, a []Value) Value {
		ones, bits := a[0], a[1]
		nb := w.concInt(bits, kI64)
		if nb != 32 && nb != 128 {
			return Value{}
		}
		c := w.ctx
		t := w.toTerm(ones, kI64)
		if !w.boolOf(w.fromTerm(c.And(c.Sle(c.Const(64, 0), t), c.Sle(t, c.Const(64, uint64(nb)))), kBoolT)) {
			return Value{}
		}
		r := make(sliceV, nb/8)
		n := c.Extract(t, 0, 8)
		for i := range r {
			lo := uint64(8 * i)
			v := c.Const(8, 0)
			// the number of ones selects the byte
			for k := uint64(1); k <= 8; k++ {
				v = c.Ite(c.Ule(c.Const(8, lo+k), n), c.Const(8, uint64(uint8(0xff<<(8-k)))), v)
			}
			r[i] = w.fromTerm(v, kU8)
		}
		if t.op != OConst {
			if w.ghost.masks == nil {
				w.ghost.masks = map[string]*Term{}
			}
			w.ghost.masks[maskKey(r)] = t
		}
		return Value{p: r}
	}, "net.CIDRMask")
}

// maskKey identifies a mask by its byte terms (terms are hash-consed), so the length of a mask made by CIDRMask is
// known without solving.
func maskKey(b []Value) string {
	var sb []byte
	for _, v := range b {
		if t := symOf(v); t != nil {
			sb = fmt.Appendf(sb, "t%d,", t.id)
		} else {
			sb = fmt.Appendf(sb, "%d,", v.n)
		}
	}
	return string(sb)
}
