package main

import (
	"crypto/sha512"
	"fmt"
	"math/big"
)

// ECDSA signatures are ideal and, as with real ones, no two are the same: a signature verifies with the key that made it
// and the digest it was made for, and with nothing else.

func (w *Worker) ecKeyOf(pub Value) (string, bool) {
	c, ok := pub.p.(*Value)
	if !ok || c == nil {
		w.nilDeref()
	}
	x, ok := w.bigOf(c.p.(structV)[1])
	if !ok {
		return "", false
	}
	return x.String(), true
}

func init() {
	// func (priv *PrivateKey) Sign(random io.Reader, digest []byte, opts crypto.SignerOpts) ([]byte, error)
	sign := func(w *Worker, priv Value, digest []Value) []byte {
		c, ok := priv.p.(*Value)
		if !ok || c == nil {
			w.nilDeref()
		}
		key, ok := w.ecKeyOf(Value{p: &c.p.(structV)[0]})
		if !ok {
			w.unsupported("signing with an unknown ECDSA key")
		}
		h := sha512.Sum512([]byte(fmt.Sprintf("%s %d", key, len(w.ghost.ecsigs))))
		h[0], h[32] = 1, 1
		w.ghost.ecsigs = append(w.ghost.ecsigs, ghostSig{key: key, data: copyVals(digest), sig: rawBytes(h[:32])})
		der := append([]byte{0x30, 68, 2, 32}, h[:32]...)
		return append(append(der, 2, 32), h[32:]...)
	}
	reg(func(w *Worker, a []Value) Value {
		return tuple(Value{p: sliceV(rawBytes(sign(w, a[0], asSlice(a[2]))))}, Value{})
	}, "(*crypto/ecdsa.PrivateKey).Sign")
	// func SignASN1(rand io.Reader, priv *PrivateKey, hash []byte) ([]byte, error)
	reg(func(w *Worker, a []Value) Value {
		return tuple(Value{p: sliceV(rawBytes(sign(w, a[1], asSlice(a[2]))))}, Value{})
	}, "crypto/ecdsa.SignASN1")
	// func Verify(pub *PublicKey, hash []byte, r, s *big.Int) bool
	reg(func(w *Worker, a []Value) Value {
		key, ok := w.ecKeyOf(a[0])
		r, ok2 := w.bigOf(a[2])
		if !ok || !ok2 {
			w.unsupported("verifying an unknown ECDSA signature")
		}
		acc := boolV(false)
		for _, e := range w.ghost.ecsigs {
			b, _ := concBytes(e.sig)
			if e.key == key && new(big.Int).SetBytes(b).Cmp(r) == 0 && len(e.data) == len(asSlice(a[1])) {
				acc = w.orV(acc, w.bytesEqV(e.data, asSlice(a[1])))
			}
		}
		return acc
	}, "crypto/ecdsa.Verify")
}

// What is added to an error report runs with it, although the report itself goes nowhere.
func init() {
	within := func(w *Worker, f Value) Value {
		if c, ok := f.p.(*closureV); ok && c != nil {
			w.callFn(f, []Value{w.sentryScope()})
		}
		return Value{}
	}
	reg(func(w *Worker, a []Value) Value { return within(w, a[0]) }, "github.com/getsentry/sentry-go.WithScope", "github.com/getsentry/sentry-go.ConfigureScope")
	reg(func(w *Worker, a []Value) Value { return within(w, a[1]) }, "(*github.com/getsentry/sentry-go.Hub).WithScope", "(*github.com/getsentry/sentry-go.Hub).ConfigureScope")
}

func (w *Worker) sentryScope() Value {
	cell := zero(w.eng.namedType("github.com/getsentry/sentry-go", "Scope"))
	return Value{p: &cell}
}
