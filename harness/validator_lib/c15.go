package librpki

import (
	"crypto/rsa"
	"crypto/x509"
	"math/big"

	"github.com/cloudflare/cfrpki/verifrt"
)

// c15Key is an RSA key whose modulus has nl unconstrained octets (the first not zero) and an exponent from a list or any up to a limit.
func zvC15Key(name string, nl int) *rsa.PublicKey {
	b := verifrt.Bytes(name+"n", nl)
	if nl > 0 {
		verifrt.Assume(b[0] != 0)
	}
	var e int
	if verifrt.Param("exp", 31) == 0 {
		e = []int{65537, 3, 128, 1<<31 - 1}[verifrt.Choice(name+"exp", 4)]
	} else {
		e = verifrt.Int(name+"e", 1, 1<<uint(verifrt.Param("exp", 31))-1)
	}
	return &rsa.PublicKey{N: new(big.Int).SetBytes(b), E: e}
}

func zvC15URIs(k, n int) []string {
	var uris []string
	for i := 0; i < k; i++ {
		u := verifrt.Bytes("uri"+string(rune('0'+i)), n)
		for j, c := range u {
			verifrt.Assume(c > 0x20 && c < 0x7f)
			if j == 0 {
				verifrt.Assume(c != '#')
			}
		}
		uris = append(uris, string(u))
	}
	return uris
}

func zvSameKey(a interface{}, b *rsa.PublicKey) bool {
	k, ok := a.(*rsa.PublicKey)
	return ok && k.E == b.E && k.N.Cmp(b.N) == 0
}

// VerifC15RoundTrip: encoding a locator and parsing it again.
func VerifC15RoundTrip() {
	key := zvC15Key("k", verifrt.Choice("modlen", verifrt.Param("n", 4))+1)
	uris := zvC15URIs(verifrt.Choice("uris", 3), 2)
	var in interface{} = key
	if verifrt.Choice("form", 2) == 1 {
		in = *key
	}
	tal, err := CreateTAL(uris, in)
	verifrt.Assert(err == nil, "a locator is made from an RSA key")
	if err != nil {
		return
	}
	var enc []byte
	switch s := verifrt.Choice("split", 5); s {
	case 0:
		enc, err = EncodeTAL(tal)
	default:
		enc, err = EncodeTALSize(tal, []int{0, 0, 1, 4, 7}[s])
	}
	verifrt.Assert(err == nil, "the locator is encoded")
	if err != nil {
		return
	}
	dec, err := DecodeTAL(enc)
	verifrt.Assert(err == nil, "an encoded locator is parsed")
	if err != nil {
		return
	}
	verifrt.Assert(len(dec.URI) == len(uris), "the number of URIs is kept")
	for i := range uris {
		verifrt.Assert(i < len(dec.URI) && verifrt.StrEq(dec.URI[i], uris[i]), "the URIs are kept in order")
	}
	verifrt.Assert(zvSameKey(dec.PublicKey, key), "the key is kept")
	cert := &x509.Certificate{PublicKeyAlgorithm: x509.RSA, PublicKey: key}
	verifrt.Assert(tal.CheckCertificate(cert) && dec.CheckCertificate(cert), "both locators match a certificate with the key")
	again, err := EncodeTAL(dec)
	verifrt.Assert(err == nil, "a parsed locator is encoded again")
	if err == nil {
		dec, err = DecodeTAL(again)
		verifrt.Assert(err == nil && zvSameKey(dec.PublicKey, key), "the key is kept again")
	}
	verifrt.Reach("round-trip")
}

// VerifC15Parse: texts as RFC 8630 has them.
func VerifC15Parse() {
	eol := []string{"\n", "\r\n"}[verifrt.Choice("eol", 2)]
	text := ""
	nlines := verifrt.Choice("lines", verifrt.Param("lines", 3)+1)
	var want []string
	for i := 0; i < nlines; i++ {
		u := zvC15URIs(1, verifrt.Choice("urilen", 3)+1)[0]
		if verifrt.Choice("comment", 2) == 1 {
			text += "#" + u + eol
		} else {
			text += u + eol
			want = append(want, u)
		}
	}
	text += eol
	key := verifrt.PubKey(0)
	e := []byte{1, 0, 1}
	if nlines <= verifrt.Param("small", 1) && verifrt.Choice("small", 2) == 1 {
		key = zvC15Key("k", 3)
		verifrt.Assume(key.N.Bit(23) == 0)
		e = nil
	}
	var spki []byte
	if e != nil {
		spki = verifrt.SPKI(0)
	} else {
		nb := key.N.Bytes()
		verifrt.Assume(key.E >= 1<<24)
		eb := []byte{byte(key.E >> 24), byte(key.E >> 16), byte(key.E >> 8), byte(key.E)}
		spki = verifrt.Seq(verifrt.Seq(verifrt.OID(verifrt.OidRSA...), verifrt.Null()), verifrt.BitStr(verifrt.Seq(verifrt.TLV(2, nb), verifrt.TLV(2, eb))))
	}
	b := verifrt.Base64(spki)
	w := []int{64, 1000, 5}[verifrt.Choice("width", 3)]
	for len(b) > w {
		text += b[:w] + eol
		b = b[w:]
	}
	text += b
	if verifrt.Choice("final", 2) == 1 {
		text += eol
	}
	tal, err := DecodeTAL([]byte(text))
	verifrt.Assert(err == nil, "the text is parsed")
	if err != nil {
		return
	}
	verifrt.Assert(len(tal.URI) == len(want), "all URIs and nothing else")
	for i := range want {
		verifrt.Assert(i < len(tal.URI) && verifrt.StrEq(tal.URI[i], want[i]), "the URIs are those of the text, in order")
	}
	verifrt.Assert(zvSameKey(tal.PublicKey, key), "the key is that of the text")
	if len(want) > 0 {
		verifrt.Assert(verifrt.StrEq(tal.GetURI(), want[0]), "the first URI")
	}
	_ = tal.GetRsyncURI()
	_ = tal.HasRsync()
	verifrt.Reach("parsed")
}

func zvC15Use(data []byte) {
	tal, err := DecodeTAL(data)
	if err != nil {
		verifrt.Reach("refused")
		return
	}
	verifrt.Reach("parsed")
	verifrt.Assert(tal.PublicKey != nil, "a parsed locator has a key")
	_ = tal.GetURI()
	_ = tal.HasRsync()
	_ = tal.GetRsyncURI()
	tal.CheckCertificate(&x509.Certificate{PublicKeyAlgorithm: x509.RSA, PublicKey: verifrt.PubKey(0)})
	if _, err := EncodeTAL(tal); err == nil {
		verifrt.Assert(tal.OID.Equal(RSA), "only RSA keys are encoded")
	}
}

// VerifC15Bytes: any short text, before and after a blank line.
func VerifC15Bytes() {
	data := verifrt.Bytes("data", verifrt.Choice("len", verifrt.Param("n", 5)+1))
	switch verifrt.Choice("place", 3) {
	case 1:
		data = append([]byte("u\n\n"), data...)
	case 2:
		data = append(append([]byte("u\n"), data...), []byte("\n"+verifrt.Base64(verifrt.SPKI(0)))...)
	}
	zvC15Use(data)
}

// VerifC15DER: a key structure with parts left out, empty or arbitrary.
func VerifC15DER() {
	alg := [][]byte{verifrt.OID(verifrt.OidRSA...), nil, verifrt.OID(1, 2, 3), verifrt.Null()}[verifrt.Choice("alg", 4)]
	var key []byte
	switch verifrt.Choice("key", 6) {
	case 0:
		key = verifrt.Bytes("key", verifrt.Choice("len", 4))
	case 1:
		key = verifrt.Seq()
	case 2:
		key = verifrt.Seq(verifrt.TLV(2, verifrt.Bytes("n", verifrt.Choice("nlen", 3))))
	case 3:
		key = verifrt.Seq(verifrt.TLV(2, verifrt.Bytes("n", 1)), verifrt.TLV(2, verifrt.Bytes("e", verifrt.Choice("elen", 3))))
	case 4:
		key = verifrt.Seq(verifrt.TLV(2, []byte{0x80}), verifrt.TLV(2, []byte{0xff}))
	case 5:
		key = verifrt.Seq(verifrt.TLV(2, []byte{5}), verifrt.TLV(2, []byte{1, 2, 3, 4, 5, 6, 7, 8, 9}))
	}
	bits := verifrt.BitStr(key)
	if verifrt.Choice("nobits", 2) == 1 {
		bits = verifrt.TLV(3, verifrt.Bytes("bits", verifrt.Choice("bitslen", 2)))
	}
	zvC15Use([]byte("u\n\n" + verifrt.Base64(verifrt.Seq(verifrt.Seq(alg), bits))))
}

// VerifC15Match: a certificate matches exactly when it has the same key.
func VerifC15Match() {
	n := verifrt.Param("n", 9)
	a, b := zvC15Key("a", verifrt.Choice("alen", n)+1), zvC15Key("b", verifrt.Choice("blen", n)+1)
	tal := &RPKITAL{Algorithm: x509.RSA, OID: RSA, PublicKey: a}
	switch verifrt.Choice("form", 3) {
	case 1:
		tal.PublicKey = *a
	case 2:
		var err error
		tal, err = CreateTAL([]string{"u"}, a)
		verifrt.Assert(err == nil, "a locator is made from an RSA key")
		if err != nil {
			return
		}
	}
	cert := &x509.Certificate{PublicKeyAlgorithm: x509.RSA, PublicKey: b}
	other := verifrt.Choice("alg", 3)
	switch other {
	case 1:
		cert = &x509.Certificate{PublicKeyAlgorithm: x509.ECDSA, PublicKey: nil}
	case 2:
		cert = &x509.Certificate{PublicKeyAlgorithm: x509.UnknownPublicKeyAlgorithm, PublicKey: nil}
	}
	same := other == 0 && verifrt.And(a.E == b.E, a.N.Cmp(b.N) == 0)
	verifrt.Assert(tal.CheckCertificate(cert) == same, "a certificate matches exactly when it has the same key")
	if same {
		verifrt.Reach("match")
	} else {
		verifrt.Reach("differ")
	}
}
