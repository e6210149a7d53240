package verifrt

import (
	"crypto"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"encoding/hex"
	"hash"
	"math/big"
)

// keyN and the exponent 65537 are read from the PKCS#1 encoding.
func keyN(i int) []byte {
	b, _ := hex.DecodeString(keyDER[i])
	return keyField(b, 1)
}

// keyField returns the content of the n-th INTEGER of a PKCS#1 private key.
func keyField(b []byte, n int) []byte {
	b = content(b)
	for ; n > 0; n-- {
		_, b = split(b)
	}
	v, _ := split(b)
	for len(v) > 1 && v[0] == 0 {
		v = v[1:]
	}
	return v
}

func content(b []byte) []byte { v, _ := split(b); return v }

func split(b []byte) ([]byte, []byte) {
	n, o := int(b[1]), 2
	if n > 0x80 {
		k := n & 0x7f
		n = 0
		for ; k > 0; k-- {
			n = n<<8 | int(b[o])
			o++
		}
	}
	return b[o : o+n], b[o+n:]
}

// PubKey is the i-th fixed public key.
func PubKey(i int) *rsa.PublicKey {
	return &rsa.PublicKey{N: new(big.Int).SetBytes(keyN(i)), E: 65537}
}

// PrivKey is the i-th fixed private key (under the engine it holds only the public part; signing is ideal there).
func PrivKey(i int) *rsa.PrivateKey {
	if Symbolic() {
		return &rsa.PrivateKey{PublicKey: *PubKey(i)}
	}
	b, _ := hex.DecodeString(keyDER[i])
	k, err := x509.ParsePKCS1PrivateKey(b)
	if err != nil {
		panic(err)
	}
	return k
}

// Sign makes an RSA PKCS #1 v1.5 SHA-256 signature with the i-th key.
func Sign(i int, data []byte) []byte {
	h := sha256.Sum256(data)
	s, err := rsa.SignPKCS1v15(nil, PrivKey(i), crypto.SHA256, h[:])
	if err != nil {
		panic(err)
	}
	return s
}

func SHA256(b []byte) []byte {
	h := sha256.Sum256(b)
	return h[:]
}

// idealHash is what the engine substitutes for hash states.
type idealHash struct {
	buf []byte
	alg int
}

func newIdealHash(alg int) hash.Hash { return &idealHash{alg: alg} }

func (h *idealHash) Write(p []byte) (int, error) {
	h.buf = append(h.buf, p...)
	return len(p), nil
}
func (h *idealHash) Sum(b []byte) []byte { return append(b, digest(h.alg, h.buf)...) }
func (h *idealHash) Reset()              { h.buf = nil }
func (h *idealHash) Size() int           { return len(digest(h.alg, nil)) }
func (h *idealHash) BlockSize() int      { return 64 }

func digest(alg int, b []byte) []byte {
	switch crypto.Hash(alg) {
	case crypto.SHA1:
		h := sha1.Sum(b)
		return h[:]
	case crypto.SHA384:
		h := sha512.Sum384(b)
		return h[:]
	case crypto.SHA512:
		h := sha512.Sum512(b)
		return h[:]
	}
	h := sha256.Sum256(b)
	return h[:]
}
