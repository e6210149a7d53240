package main

import (
	"crypto"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
	"go/types"
	"math"
	"math/big"
)

// Ideal cryptography.
//
// Hash functions: concrete data is hashed for real; data with symbolic bytes gets a fresh digest of its own, except
// that equal data has equal digests (collision freedom).
//
// RSA PKCS #1 v1.5: a signature verifies exactly when the same key signed the same DigestInfo with this result
// (unforgeability); when everything is concrete and no such entry exists, the real verification is run.

func realDigest(alg int, b []byte) []byte {
	switch crypto.Hash(alg) {
	case crypto.SHA1:
		h := sha1.Sum(b)
		return h[:]
	case crypto.SHA224:
		h := sha256.Sum224(b)
		return h[:]
	case crypto.SHA384:
		h := sha512.Sum384(b)
		return h[:]
	case crypto.SHA512:
		h := sha512.Sum512(b)
		return h[:]
	}
	h := sha256.Sum256(b)
	return h[:]
}

func rawBytes(b []byte) []Value {
	r := make([]Value, len(b))
	for i := range b {
		r[i] = Value{n: uint64(b[i])}
	}
	return r
}

// iteBytes is c ? a : b, byte by byte.
func (w *Worker) iteBytes(c Value, a, b []Value) []Value {
	t, ok := c.p.(*Term)
	if !ok {
		if c.n != 0 {
			return a
		}
		return b
	}
	r := make([]Value, len(a))
	for i := range a {
		r[i] = w.fromTerm(w.ctx.Ite(t, w.toTerm(a[i], kU8), w.toTerm(b[i], kU8)), kU8)
	}
	return r
}

func diffCells(a, b []Value) int {
	n := 0
	for i := range a {
		if a[i] != b[i] {
			n++
		}
	}
	return n
}

func (w *Worker) hashOf(alg int, in []Value) []Value {
	if hasTok(in) {
		in = w.expandToks(in)
	}
	key := fmt.Sprint(alg)
	var out []Value
	cb, conc := concBytes(in)
	if conc {
		out = rawBytes(realDigest(alg, cb))
	} else {
		out = rawBytes(realDigest(alg, []byte(fmt.Sprintf("ideal digest %d of unknown data", len(w.ghost.hashes[key])))))
	}
	for _, h := range w.ghost.hashes[key] {
		if len(h.in) != len(in) {
			continue
		}
		if conc {
			if _, c := concBytes(h.in); c {
				continue
			}
		}
		eq := w.bytesEqV(h.in, in)
		if !isSym(eq) {
			if eq.n != 0 {
				return copyVals(h.out)
			}
			continue
		}
		if v, known := w.known(symOf(eq)); known {
			if v {
				return copyVals(h.out)
			}
			continue
		}
		if diffCells(h.in, in) <= 2 { // two cases are cheaper than digests that depend on a condition
			if w.boolOf(eq) {
				return copyVals(h.out)
			}
			continue
		}
		out = w.iteBytes(eq, h.out, out)
	}
	w.ghost.hashes[key] = append(w.ghost.hashes[key], ghostHash{copyVals(in), copyVals(out)})
	return copyVals(out)
}

// bigOf reads a concrete *big.Int.
func (w *Worker) bigOf(p Value) (*big.Int, bool) {
	c, ok := p.p.(*Value)
	if !ok || c == nil {
		return nil, false
	}
	s, ok := c.p.(structV)
	if !ok {
		return nil, false
	}
	x := new(big.Int)
	abs := asSlice(s[1])
	buf := make([]byte, 8*len(abs))
	for i, v := range abs {
		if v.p != nil {
			return nil, false
		}
		binary.BigEndian.PutUint64(buf[8*(len(abs)-1-i):], v.n)
	}
	x.SetBytes(buf)
	if s[0].p != nil {
		return nil, false
	}
	if s[0].n != 0 {
		x.Neg(x)
	}
	return x, true
}

// keyOf reads a modulus; one with symbolic parts is compared with the keys that have signed something.
func (w *Worker) keyOf(p Value) (*big.Int, bool) {
	if n, ok := w.bigOf(p); ok {
		return n, true
	}
	c, ok := p.p.(*Value)
	if !ok || c == nil {
		return nil, false
	}
	abs := asSlice(c.p.(structV)[1])
	seen := map[string]bool{}
	for _, e := range w.ghost.sigs {
		if seen[e.key] {
			continue
		}
		seen[e.key] = true
		n, _ := new(big.Int).SetString(e.key, 10)
		words := n.Bits()
		if len(words) != len(abs) {
			continue
		}
		eq := boolV(true)
		for i := range words {
			k := Value{n: uint64(words[i])}
			if abs[i].p == nil {
				eq = w.andV(eq, boolV(abs[i].n == k.n))
			} else {
				eq = w.andV(eq, w.fromTerm(w.ctx.Eq(w.toTerm(abs[i], kU64), w.toTerm(k, kU64)), kBoolT))
			}
		}
		if w.boolOf(eq) {
			return n, true
		}
	}
	return nil, false
}

func (w *Worker) pubOf(p Value) (*rsa.PublicKey, bool) {
	c, ok := p.p.(*Value)
	if !ok || c == nil {
		w.nilDeref()
	}
	s := c.p.(structV)
	if s[0].p == nil {
		return nil, false
	}
	n, ok := w.keyOf(s[0])
	if !ok {
		return nil, false
	}
	if s[1].p != nil {
		if !w.boolOf(w.fromTerm(w.ctx.Eq(w.toTerm(s[1], kI64), w.toTerm(Value{n: 65537}, kI64)), kBoolT)) {
			return nil, false
		}
		return &rsa.PublicKey{N: n, E: 65537}, true
	}
	return &rsa.PublicKey{N: n, E: int(s[1].n)}, true
}

var hashPrefix = map[int]string{
	3: "\x30\x21\x30\x09\x06\x05\x2b\x0e\x03\x02\x1a\x05\x00\x04\x14",
	5: "\x30\x31\x30\x0d\x06\x09\x60\x86\x48\x01\x65\x03\x04\x02\x01\x05\x00\x04\x20",
	6: "\x30\x41\x30\x0d\x06\x09\x60\x86\x48\x01\x65\x03\x04\x02\x02\x05\x00\x04\x30",
	7: "\x30\x51\x30\x0d\x06\x09\x60\x86\x48\x01\x65\x03\x04\x02\x03\x05\x00\x04\x40",
	0: "",
}

var hashLens = map[int]int{3: 20, 5: 32, 6: 48, 7: 64}

func (w *Worker) digestInfo(hash Value, hashed []Value) ([]Value, bool) {
	if hash.p != nil {
		w.unsupported("symbolic hash identifier")
	}
	h := int(hash.n)
	pre, ok := hashPrefix[h]
	if !ok {
		return nil, false
	}
	if n, ok := hashLens[h]; ok && n != len(hashed) {
		return nil, false
	}
	return append(rawBytes([]byte(pre)), hashed...), true
}

// signIdeal records that the key signed t and returns the signature.
func (w *Worker) signIdeal(pub *rsa.PublicKey, t []Value) []Value {
	k := (pub.N.BitLen() + 7) / 8
	key := pub.N.String()
	sig := make([]byte, 0, k)
	seed := []byte(key)
	if cb, ok := concBytes(t); ok {
		seed = append(seed, cb...)
	} else {
		seed = append(seed, fmt.Sprintf("unknown %d", len(w.ghost.sigs))...)
	}
	for i := 0; len(sig) < k; i++ {
		h := sha512.Sum512(append(seed, byte(i)))
		sig = append(sig, h[:]...)
	}
	sig = sig[:k]
	sig[0] = 1 // below every modulus
	out := rawBytes(sig)
	for _, e := range w.ghost.sigs {
		if e.key != key || len(e.data) != len(t) {
			continue
		}
		eq := w.bytesEqV(e.data, t)
		if !isSym(eq) && eq.n != 0 {
			return copyVals(e.sig)
		}
		if isSym(eq) {
			out = w.iteBytes(eq, e.sig, out)
		}
	}
	w.ghost.sigs = append(w.ghost.sigs, ghostSig{key: key, data: copyVals(t), sig: copyVals(out)})
	return copyVals(out)
}

// verifyIdeal is the condition under which sig is a signature over t by the key.
func (w *Worker) verifyIdeal(pub *rsa.PublicKey, t, sig []Value) Value {
	key := pub.N.String()
	acc := boolV(false)
	for _, e := range w.ghost.sigs {
		if e.key != key || len(e.data) != len(t) || len(e.sig) != len(sig) {
			continue
		}
		acc = w.orV(acc, w.andV(w.bytesEqV(e.data, t), w.bytesEqV(e.sig, sig)))
		if !isSym(acc) && acc.n != 0 {
			return acc
		}
	}
	return acc
}

func init() {
	newHash := func(alg uint64) intrinsic {
		return func(w *Worker, a []Value) Value {
			return w.newHash(alg)
		}
	}
	reg(newHash(5), "crypto/sha256.New")
	reg(newHash(3), "crypto/sha1.New")
	reg(newHash(6), "crypto/sha512.New384")
	reg(newHash(7), "crypto/sha512.New")
	reg(func(w *Worker, a []Value) Value { return w.newHash(uint64(a[0].int())) }, "(crypto.Hash).New")
	reg(func(w *Worker, a []Value) Value {
		_, ok := hashLens[a[0].int()]
		return boolV(ok)
	}, "(crypto.Hash).Available")
	sum := func(alg int) intrinsic {
		return func(w *Worker, a []Value) Value {
			return Value{p: arrayV(w.hashOf(alg, asSlice(a[0])))}
		}
	}
	reg(sum(5), "crypto/sha256.Sum256")
	reg(sum(3), "crypto/sha1.Sum")
	reg(sum(6), "crypto/sha512.Sum384")
	reg(sum(7), "crypto/sha512.Sum512")
	reg(func(w *Worker, a []Value) Value {
		return Value{p: sliceV(w.hashOf(a[0].int(), asSlice(a[1])))}
	}, rtPkg+".digest")

	// func SignPKCS1v15(random io.Reader, priv *PrivateKey, hash crypto.Hash, hashed []byte) ([]byte, error)
	reg(func(w *Worker, a []Value) Value {
		c, ok := a[1].p.(*Value)
		if !ok {
			w.nilDeref()
		}
		pub, ok := w.pubOf(Value{p: &c.p.(structV)[0]})
		if !ok {
			w.unsupported("signing with a symbolic key")
		}
		t, ok := w.digestInfo(a[2], asSlice(a[3]))
		if !ok {
			return tuple(Value{}, errVal(w, "crypto/rsa: input must be hashed message"))
		}
		if len(t)+11 > (pub.N.BitLen()+7)/8 {
			return tuple(Value{}, errVal(w, "crypto/rsa: message too long for RSA key size"))
		}
		return tuple(Value{p: sliceV(w.signIdeal(pub, t))}, Value{})
	}, "crypto/rsa.SignPKCS1v15")
	// func VerifyPKCS1v15(pub *PublicKey, hash crypto.Hash, hashed []byte, sig []byte) error
	reg(func(w *Worker, a []Value) Value {
		bad := errVal(w, "crypto/rsa: verification error")
		pub, ok := w.pubOf(a[0])
		if !ok {
			return bad
		}
		t, ok := w.digestInfo(a[1], asSlice(a[2]))
		if !ok {
			return errVal(w, "crypto/rsa: input must be hashed message")
		}
		sig := asSlice(a[3])
		v := w.verifyIdeal(pub, t, sig)
		if !isSym(v) && v.n == 0 {
			if hb, ok := concBytes(asSlice(a[2])); ok {
				if sb, ok := concBytes(sig); ok && rsa.VerifyPKCS1v15(pub, crypto.Hash(a[1].int()), hb, sb) == nil {
					return Value{}
				}
			}
			return bad
		}
		if w.boolOf(v) {
			return Value{}
		}
		return bad
	}, "crypto/rsa.VerifyPKCS1v15")
	// (*big.Int).Exp with an RSA-sized modulus is the public key operation on a signature
	reg(func(w *Worker, a []Value) Value {
		if len(a) != 4 || a[3].p == nil {
			return notHandledV
		}
		k := 0
		n, ok := w.keyOf(a[3])
		if ok {
			k = (n.BitLen() + 7) / 8
		} else if c, isP := a[3].p.(*Value); isP && c != nil {
			k = 8 * len(asSlice(c.p.(structV)[1]))
		}
		if k < 64 {
			return notHandledV
		}
		setBytes := func(b []Value) Value {
			fn := w.findMethod(w.canon(types.NewPointer(w.eng.namedType("math/big", "Int"))), "SetBytes")
			return w.callCode(fn, []Value{a[0], {p: sliceV(b)}}, nil)
		}
		// the result for a value nobody signed: some value without structure
		nobody := func() Value {
			g := make([]Value, k-1)
			for i := range g {
				g[i] = Value{n: uint64(0x11 + i%7)}
			}
			return setBytes(g)
		}
		e, eok := w.bigOf(a[2])
		if !ok || !eok { // a key that is only partly known signed nothing
			return nobody()
		}
		key := n.String()
		x, ok := w.bigOf(a[1])
		xb := asSlice(w.callCode(w.findMethod(w.canon(types.NewPointer(w.eng.namedType("math/big", "Int"))), "Bytes"), []Value{a[1]}, nil))
		if e.IsInt64() && e.Int64() == 65537 {
			for _, s := range w.ghost.sigs {
				sb := s.sig
				for len(sb) > 0 && sb[0].p == nil && sb[0].n == 0 {
					sb = sb[1:]
				}
				if s.key != key || len(sb) != len(xb) {
					continue
				}
				if !w.boolOf(w.bytesEqV(sb, xb)) {
					continue
				}
				em := make([]Value, 0, k)
				em = append(em, Value{n: 0}, Value{n: 1})
				for i := 0; i < k-len(s.data)-3; i++ {
					em = append(em, Value{n: 0xff})
				}
				em = append(append(em, Value{n: 0}), s.data...)
				return setBytes(em)
			}
		}
		if ok {
			r := new(big.Int).Exp(x, e, n)
			return setBytes(rawBytes(r.Bytes()))
		}
		return nobody()
	}, "(*math/big.Int).Exp")
}

func (w *Worker) newHash(alg uint64) Value {
	p := w.eng.pkgs[rtPkg]
	if p == nil {
		w.unsupported("hash state without the harness package")
	}
	return w.callCode(w.codeFor(p.Func("newIdealHash")), []Value{{n: alg}}, nil)
}

func init() {
	// decimal text of a big.Int: concrete values directly, one symbolic word as a decimal token
	str := func(w *Worker, p Value, base int) (Value, bool) {
		if p.p == nil {
			return strV("<nil>"), true
		}
		if x, ok := w.bigOf(p); ok {
			return strV(x.Text(base)), true
		}
		s := p.p.(*Value).p.(structV)
		abs := asSlice(s[1])
		if len(abs) == 1 && s[0].p == nil {
			r := w.fmtInt(abs[0], kU64, base)
			if s[0].n != 0 {
				r = strConcat(strV("-"), r)
			}
			return r, true
		}
		return Value{}, false
	}
	reg(func(w *Worker, a []Value) Value {
		if r, ok := str(w, a[0], 10); ok {
			return r
		}
		return notHandledV
	}, "(*math/big.Int).String")
	reg(func(w *Worker, a []Value) Value {
		if isSym(a[1]) || a[1].n < 2 || a[1].n > 62 {
			return notHandledV
		}
		if r, ok := str(w, a[0], int(a[1].n)); ok {
			return r
		}
		return notHandledV
	}, "(*math/big.Int).Text")
	f1 := func(f func(float64) float64) intrinsic {
		return func(w *Worker, a []Value) Value {
			if a[0].p != nil {
				w.unsupported("symbolic float")
			}
			return Value{n: math.Float64bits(f(math.Float64frombits(a[0].n)))}
		}
	}
	reg(f1(math.Log), "math.Log")
	reg(f1(math.Exp), "math.Exp")
	reg(f1(math.Sqrt), "math.Sqrt")
	reg(f1(math.Floor), "math.Floor")
	reg(f1(math.Ceil), "math.Ceil")
	reg(f1(math.Trunc), "math.Trunc")
}

func init() {
	// text of a symbolic time, which is only ever shown to people (String promises no stable format)
	reg(func(w *Worker, a []Value) Value {
		if s, ok := a[0].p.(structV); ok {
			for _, f := range s {
				if isSym(f) {
					return strV("<time>")
				}
			}
		}
		return notHandledV
	}, "(time.Time).String")
}
