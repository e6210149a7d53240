package pki

import "github.com/cloudflare/cfrpki/verifrt"

const (
	zvRNone = iota
	zvRInherit
	zvRExplicit
)

// c01Elem is one explicit range, bounds as big-endian bytes.
type zvC01Elem struct{ lo, hi []byte }

// c01Set is what one certificate says about one family (or about AS numbers).
type zvC01Set struct {
	kind  int
	elems []zvC01Elem
}

func zvC01LE(a, b []byte) bool { return !verifrt.BytesLess(b, a) }

// c01Inside: the range lies inside one of the elements.
func zvC01Inside(x zvC01Elem, set []zvC01Elem) bool {
	in := false
	for _, e := range set {
		in = verifrt.Or(in, verifrt.And(zvC01LE(e.lo, x.lo), zvC01LE(x.hi, e.hi)))
	}
	return in
}

// c01Element makes an explicit element of one family and its encoding.
// size 4: IPv4, 16: IPv6 (outside ::/8), 5: AS numbers.
func zvC01Element(name string, size int) (zvC01Elem, []byte) {
	if size == 5 {
		// AS numbers in the 32-bit range, as 5-octet integers with a leading zero
		a := verifrt.Bytes(name+".as", 4)
		verifrt.Assume(a[0] >= 0x80)
		e := zvC01Elem{lo: a, hi: a}
		if verifrt.Choice(name+".form", 2) == 0 {
			return e, verifrt.TLV(2, []byte{0}, a)
		}
		b := verifrt.Bytes(name+".asmax", 4)
		verifrt.Assume(zvC01LE(a, b))
		e.hi = b
		return e, verifrt.Seq(verifrt.TLV(2, []byte{0}, a), verifrt.TLV(2, []byte{0}, b))
	}
	a := verifrt.Bytes(name+".addr", size)
	if size == 16 {
		if verifrt.Param("mapped", 0) == 1 {
			verifrt.Assume(verifrt.BytesEq(a[:12], []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff}))
		} else {
			verifrt.Assume(a[0] != 0)
		}
	}
	if verifrt.Choice(name+".form", 2) == 0 {
		lens := []int{0, 7, 8, 24, 32}
		if size == 16 {
			lens = []int{8, 32, 48, 128}
		}
		if verifrt.Param("plens", 0) == 1 {
			lens = []int{8, 24}
			if size == 16 && verifrt.Param("mapped", 0) == 1 {
				lens = []int{64, 104}
			}
		}
		pl := lens[verifrt.Choice(name+".plen", len(lens))]
		lo, hi := make([]byte, size), make([]byte, size)
		for i := range lo {
			switch {
			case 8*i+8 <= pl:
				lo[i], hi[i] = a[i], a[i]
			case 8*i < pl:
				lo[i] = a[i] & ^byte(0xff>>uint(pl-8*i))
				hi[i] = a[i] | 0xff>>uint(pl-8*i)
			default:
				hi[i] = 0xff
			}
		}
		return zvC01Elem{lo, hi}, verifrt.Prefix(a, pl)
	}
	b := verifrt.Bytes(name+".max", size)
	verifrt.Assume(zvC01LE(a, b))
	return zvC01Elem{a, b}, verifrt.Seq(verifrt.BitStr(a), verifrt.BitStr(b))
}

// c01Make chooses what a certificate says about a family.
func zvC01Make(name string, size, maxElems, kinds int) (zvC01Set, []byte) {
	k := verifrt.Choice(name+".kind", kinds+maxElems)
	switch {
	case k < maxElems:
		var s zvC01Set
		s.kind = zvRExplicit
		var encs [][]byte
		for i := 0; i <= k; i++ {
			e, enc := zvC01Element(name, size)
			if i > 0 {
				// canonical form: increasing and not adjacent
				p := s.elems[i-1].hi
				verifrt.Assume(verifrt.BytesLess(p, e.lo))
				adj := true
				carry := 1
				for j := len(p) - 1; j >= 0; j-- {
					x := int(p[j]) + carry
					adj = verifrt.And(adj, byte(x) == e.lo[j])
					carry = x >> 8
				}
				verifrt.Assume(!adj)
			}
			s.elems = append(s.elems, e)
			encs = append(encs, enc)
		}
		return s, verifrt.Seq(encs...)
	case k == maxElems:
		return zvC01Set{kind: zvRInherit}, verifrt.Null()
	}
	return zvC01Set{kind: zvRNone}, nil
}

// VerifC01Chain: trust anchor, then a chain of certificates; one resource space varies, the others are inherited.
func VerifC01Chain() {
	size := []int{4, 16, 5}[verifrt.Param("space", 0)]
	depth := verifrt.Param("depth", 3)
	leafElems := verifrt.Param("leaf", 1)
	caElems := verifrt.Param("elems", 1)
	v := zvVValidator()
	inherit := verifrt.Null()
	var eff []zvC01Elem // resources the last accepted certificate holds
	for i := 0; i <= depth; i++ {
		n := caElems
		kinds := 2
		if i == depth {
			n = leafElems
		}
		if i == 0 {
			kinds = 0
			if verifrt.Param("tainherit", 0) == 1 {
				kinds = 2
			}
		}
		set, enc := zvC01Make("r", size, n, kinds)
		spec := verifrt.CertSpec{Serial: []byte{byte(i + 1)}, Issuer: "x", Subject: "y", Key: i % 3, SKI: zvVKey(i), CA: true, Signer: 0}
		if i > 0 {
			spec.AKI = zvVKey(i - 1)
			spec.Signer = (i - 1) % 3
		}
		switch size {
		case 4:
			spec.IPs, spec.AS = verifrt.IPExt(enc, inherit), verifrt.ASExt(inherit)
		case 16:
			spec.IPs, spec.AS = verifrt.IPExt(inherit, enc), verifrt.ASExt(inherit)
		default:
			spec.IPs = verifrt.IPExt(inherit, inherit)
			if enc != nil {
				spec.AS = verifrt.ASExt(enc)
			}
		}
		ok, _ := zvVAdd(v, TYPE_CER, string([]byte{'a' + byte(i)}), i == 0, nil, verifrt.Cert(spec))
		covered := true
		if i > 0 {
			for _, e := range set.elems {
				covered = verifrt.And(covered, zvC01Inside(e, eff))
			}
		}
		verifrt.Assert(ok == covered, "accepted exactly when every stated range lies inside the issuer's resources")
		verifrt.Assert(zvVValid(v, zvVKey(i)) == ok, "listed as valid exactly when accepted")
		if !ok {
			verifrt.Reach("refused")
			return
		}
		if set.kind != zvRInherit {
			eff = set.elems
		}
	}
	verifrt.Reach("accepted")
}

// VerifC01Mixed: resources of one family never authorise resources of the other.
func VerifC01Mixed() {
	v := zvVValidator()
	var ta [2]zvC01Set
	var enc [2][]byte
	for f, size := range []int{4, 16} {
		ta[f], enc[f] = zvC01Make("ta", size, 1, 2)
		verifrt.Assume(ta[f].kind != zvRInherit)
	}
	ok, _ := zvVAdd(v, TYPE_CER, "ta", true, nil, verifrt.Cert(verifrt.CertSpec{Serial: []byte{1}, Issuer: "x", Subject: "y", Key: 0, SKI: zvVKey(0), CA: true,
		IPs: verifrt.IPExt(enc[0], enc[1]), AS: zvVAllAS}))
	verifrt.Assert(ok, "the trust anchor is accepted")
	parent := 0
	if verifrt.Choice("between", 2) == 1 {
		ok, _ := zvVAdd(v, TYPE_CER, "ca", false, nil, verifrt.Cert(verifrt.CertSpec{Serial: []byte{2}, Issuer: "y", Subject: "z", Key: 1, SKI: zvVKey(1), AKI: zvVKey(0), CA: true,
			IPs: verifrt.IPExt(verifrt.Null(), verifrt.Null()), AS: verifrt.ASExt(verifrt.Null())}))
		verifrt.Assert(ok, "a certificate that inherits everything is accepted")
		parent = 1
	}
	f := verifrt.Choice("family", 2)
	e, el := zvC01Element("r", []int{4, 16}[f])
	blk := verifrt.IPExt(verifrt.Seq(el), nil)
	if f == 1 {
		blk = verifrt.IPExt(nil, verifrt.Seq(el))
	}
	ok, _ = zvVAdd(v, TYPE_CER, "leaf", false, nil, verifrt.Cert(verifrt.CertSpec{Serial: []byte{3}, Issuer: "z", Subject: "l", Key: 2, SKI: zvVKey(2), AKI: zvVKey(parent), CA: true,
		IPs: blk, Signer: parent}))
	if ok {
		verifrt.Assert(zvC01Inside(e, ta[f].elems), "an accepted range lies inside the issuer's resources of the same family")
		verifrt.Reach("accepted")
	} else {
		verifrt.Reach("refused")
	}
}
