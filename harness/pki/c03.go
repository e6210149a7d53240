package pki

import "github.com/cloudflare/cfrpki/verifrt"

// c03Node is one certificate (possibly of a signed object) of the tree.
type zvC03Node struct {
	zvVSpec
	parent int // index, -1: the trust anchor
	added  bool
	valid  bool // what the validator must say now
}

// c03Serial is a positive integer of n octets; the top octet is neither zero nor above 127.
func zvC03Serial(name string, n int) []byte {
	b := verifrt.Bytes(name, n)
	verifrt.Assume(b[0] > 0)
	verifrt.Assume(b[0] < 0x80)
	return b
}

// VerifC03: two CAs under the trust anchor, one of them with a CA and a signed object below; CRLs at any point.
func VerifC03() {
	v := zvVValidator()
	zvVTA(v, "", "")
	slen := verifrt.Param("serial", 2)
	leafKind := zvKEE
	if verifrt.Param("good", 0) == 0 {
		leafKind = verifrt.Choice("leaf.kind", 3) + zvKEE
	}
	nodes := []*zvC03Node{
		{zvVSpec: zvVSpec{kind: zvKCA, ski: zvVKey(1), aki: zvVKey(0), key: 1, signer: 0, path: "A", serial: zvC03Serial("A.serial", slen)}, parent: -1},
		{zvVSpec: zvVSpec{kind: zvKCA, ski: zvVKey(2), aki: zvVKey(0), key: 2, signer: 0, path: "B", serial: zvC03Serial("B.serial", slen)}, parent: -1},
		{zvVSpec: zvVSpec{kind: zvKCA, ski: zvVKey(3), aki: zvVKey(1), key: 3, signer: 1, path: "C", serial: zvC03Serial("C.serial", slen)}, parent: 0},
		{zvVSpec: zvVSpec{kind: leafKind, ski: zvVKey(4), aki: zvVKey(3), key: 4, signer: 3, path: "D", serial: zvC03Serial("D.serial", slen)}, parent: 2},
		{zvVSpec: zvVSpec{kind: zvKEE, ski: zvVKey(5), aki: zvVKey(2), key: 5, signer: 2, path: "E", serial: zvC03Serial("E.serial", slen)}, parent: 1},
	}
	if verifrt.Param("leafparent", 0) == 1 {
		nodes[3].aki, nodes[3].signer, nodes[3].parent = zvVKey(1), 1, 0
	}
	taValid := true
	type rev struct {
		issuer int // index into nodes, -1 trust anchor
		serial []byte
	}
	var revoked []rev
	isRevoked := func(n *zvC03Node) bool {
		r := false
		for _, x := range revoked {
			if x.issuer == n.parent {
				r = verifrt.Or(r, verifrt.BytesEq(x.serial, n.serial))
			}
		}
		return r
	}
	standing := func(i int) bool {
		if i < 0 {
			return taValid
		}
		return nodes[i].valid
	}
	check := func(what string) {
		for _, n := range nodes {
			verifrt.Assert(zvVListed(v, n.kind, n.ski) == n.valid, what)
			verifrt.Assert(zvVValid(v, n.ski) == n.valid, what)
		}
		verifrt.Assert(zvVValid(v, zvVKey(0)), "the trust anchor stays")
	}
	crls := verifrt.Param("crls", 1)
	perCRL := verifrt.Param("revoked", 1)
	var at []int
	for i := 0; i < crls; i++ {
		at = append(at, verifrt.Choice("when", len(nodes)+1))
	}
	for step := 0; step <= len(nodes); step++ {
		for i := 0; i < crls; i++ {
			if at[i] != step {
				continue
			}
			signer := verifrt.Choice("crl.signer", 3)
			aki, flip := zvVKey(signer), false
			if verifrt.Param("good", 0) == 0 {
				aki = verifrt.Bytes("crl.aki", 20)
				flip = verifrt.Choice("crl.flip", 2) == 1
			}
			var items []verifrt.RevokedItem
			var serials [][]byte
			for k := 0; k < perCRL; k++ {
				s := zvC03Serial("crl.serial", slen)
				serials = append(serials, s)
				items = append(items, verifrt.RevokedItem{Serial: s})
			}
			data := verifrt.CRL(verifrt.CRLSpec{Issuer: "i", AKI: aki, Revoked: items, Signer: signer, FlipSig: flip})
			f := &PKIFile{Type: TYPE_CRL, Path: "x.crl", Parent: &PKIFile{Type: TYPE_MFT, Path: "m", Parent: &PKIFile{Type: TYPE_CER, Path: "p"}}}
			ok := zvC03AddCRL(v, f, data)
			good := false
			for j, k := range []int{0, 1, 2} {
				if signer == k && !flip && standing(j-1) && verifrt.BytesEq(aki, zvVKey(k)) {
					good = true
					for _, s := range serials {
						revoked = append(revoked, rev{j - 1, s})
					}
				}
			}
			verifrt.Assert(ok == good, "a CRL counts exactly when a valid CA with its key identifier signed it")
			for _, n := range nodes { // parents come first
				if n.added && n.valid && (isRevoked(n) || !standing(n.parent)) {
					n.valid = false
					verifrt.Reach("revoked")
				}
			}
			check("after a CRL, exactly the revoked certificates and what is below them are not valid")
		}
		if step == len(nodes) {
			break
		}
		n := nodes[step]
		ok := zvVOffer(v, n.zvVSpec)
		n.added = true
		n.valid = standing(n.parent) && !isRevoked(n)
		verifrt.Assert(ok == n.valid, "a certificate is accepted exactly when it is not revoked and its issuer is valid")
		if !n.valid {
			verifrt.Reach("refused")
		}
		check("adding a certificate changes nothing else")
	}
	verifrt.Reach("end")
}

// c03AddCRL offers the CRL to the validator.
func zvC03AddCRL(v *Validator, f *PKIFile, data []byte) bool {
	crl, err := zvParseCRL(data)
	if err != nil {
		return false
	}
	ok, _, _ := v.AddCRL(crl)
	return ok
}

// VerifC03Other: the CRL of one CA never touches certificates of another, whatever the key identifiers and serials.
func VerifC03Other() {
	v := zvVValidator()
	zvVTA(v, "", "")
	base := []byte{0x41, 0x42}
	skiA := base
	skiB := append(append([]byte{}, base...), verifrt.Bytes("more", verifrt.Choice("extra", 3))...)
	if len(skiB) == len(skiA) {
		skiB = verifrt.Bytes("skiB", 2)
		verifrt.Assume(!verifrt.BytesEq(skiA, skiB))
	}
	verifrt.Assume(!verifrt.BytesEq(skiB, zvVKey(0)))
	okA := zvVOffer(v, zvVSpec{kind: zvKCA, ski: skiA, aki: zvVKey(0), key: 1, path: "A", serial: []byte{2}})
	okB := zvVOffer(v, zvVSpec{kind: zvKCA, ski: skiB, aki: zvVKey(0), key: 2, path: "B", serial: []byte{3}})
	verifrt.Assert(okA && okB, "both CAs are accepted")
	list := [][]byte{{3}, {23}, {123}, {12}}
	sx, sc := list[verifrt.Choice("x.serial", 4)], list[verifrt.Choice("crl.serial", 4)]
	x := zvVSpec{kind: zvKEE, ski: zvVKey(3), aki: skiA, key: 3, signer: 1, path: "X", serial: sx}
	crl := func() {
		data := verifrt.CRL(verifrt.CRLSpec{Issuer: "i", AKI: skiB, Revoked: []verifrt.RevokedItem{{Serial: sc}}, Signer: 2})
		verifrt.Assert(zvC03AddCRL(v, nil, data), "the CRL is accepted")
	}
	first := verifrt.Choice("order", 2) == 1
	if first {
		crl()
	}
	ok := zvVOffer(v, x)
	verifrt.Assert(ok, "a certificate of another CA is accepted")
	if !first {
		crl()
	}
	verifrt.Assert(zvVValid(v, zvVKey(3)), "a certificate of another CA stays valid")
	verifrt.Reach("end")
}
