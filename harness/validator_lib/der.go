package librpki

import "github.com/cloudflare/cfrpki/verifrt"

// vTLV is a definite-length element with concrete structure (contents may be symbolic).
func zvVTLV(tag byte, parts ...[]byte) []byte {
	n := 0
	for _, p := range parts {
		n += len(p)
	}
	out := []byte{tag}
	switch {
	case n < 128:
		out = append(out, byte(n))
	case n < 256:
		out = append(out, 0x81, byte(n))
	default:
		out = append(out, 0x82, byte(n>>8), byte(n))
	}
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

func zvVSeq(parts ...[]byte) []byte { return zvVTLV(0x30, parts...) }

// vBits is a bit string of n bytes with the given number of unused bits.
func zvVBits(unused byte, b []byte) []byte { return zvVTLV(3, []byte{unused}, b) }

// vSymBits returns a symbolic bit string of at most max bits: encoding, value bytes (padded to size), bit length.
func zvVSymBits(name string, max, size int, step int) ([]byte, []byte, int) {
	bl := verifrt.Choice(name+".bits", max/step+1) * step
	return zvVFixedBits(name, bl, size)
}

func zvVFixedBits(name string, bl, size int) ([]byte, []byte, int) {
	nb := (bl + 7) / 8
	b := verifrt.Bytes(name+".b", nb)
	if bl%8 != 0 {
		verifrt.Assume(b[nb-1]&(0xff>>uint(bl%8)) == 0)
	}
	full := make([]byte, size)
	copy(full, b)
	return zvVBits(byte(nb*8-bl), b), full, bl
}

// vUint is the minimal DER integer of v with the given content length (1..5), as concrete structure.
func zvVUint(v uint64, n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i++ {
		b[n-1-i] = byte(v >> uint(8*i))
	}
	return zvVTLV(2, b)
}

// vSymUint returns a symbolic non-negative integer below 2^(8n-1), minimally encoded in n bytes, 1 <= n <= 5.
func zvVSymUint(name string, maxBytes int) ([]byte, uint64) {
	n := verifrt.Choice(name+".len", maxBytes) + 1
	v := verifrt.U64(name)
	verifrt.Assume(v>>uint(8*n-1) == 0)
	if n > 1 {
		verifrt.Assume(v>>uint(8*n-9) != 0)
	}
	return zvVUint(v, n), v
}
