package pki

import (
	"time"

	"github.com/cloudflare/cfrpki/verifrt"
)

const (
	zvKCA  = iota // CA certificate
	zvKEE         // certificate that is not a CA
	zvKROA        // ROA with its end-entity certificate
	zvKMFT        // manifest with its end-entity certificate
)

// vSpec is one object offered to the validator.
type zvVSpec struct {
	kind     int
	serial   []byte
	ski, aki []byte
	key      int // subject key
	signer   int
	flip     bool // corrupt the signature of the certificate
	flipCMS  bool // corrupt the signature of the signed object
	badHash  bool // wrong message digest
	nb, na   string
	path     string
	parent   *PKIFile
	crldp    []string
	sia      []verifrt.SIAItem
	content  []byte // manifest content
	repo     string
	hash     []byte
}

var zvVInheritIP = verifrt.IPExt(verifrt.Null(), verifrt.Null())
var zvVInheritAS = verifrt.ASExt(verifrt.Null())

func zvVMftContent(files []verifrt.MftFile) []byte {
	return verifrt.Manifest([]byte{1}, "20230101000000Z", "20250101000000Z", files)
}

func zvVROAContent() []byte {
	return verifrt.ROAContent([]byte{1}, [][]byte{verifrt.ROAAddr(verifrt.Prefix([]byte{10, 0}, 16), nil)}, nil)
}

// vEncode encodes an object and tells the type of its file.
func zvVEncode(s zvVSpec) (int, []byte) {
	if s.serial == nil {
		s.serial = []byte{1}
	}
	c := verifrt.CertSpec{Serial: s.serial, Issuer: "i", Subject: "s", Key: s.key, SKI: s.ski, AKI: s.aki, CA: s.kind == zvKCA,
		NotBefore: s.nb, NotAfter: s.na, Signer: s.signer, FlipSig: s.flip, IPs: zvVInheritIP, AS: zvVInheritAS, CRLDP: s.crldp, SIA: s.sia}
	switch s.kind {
	case zvKROA:
		c.AS = nil
		c.IPs = verifrt.IPExt(verifrt.Seq(verifrt.Prefix([]byte{10, 0}, 16)), nil)
	}
	cert := verifrt.Cert(c)
	switch s.kind {
	case zvKROA, zvKMFT:
		m := verifrt.CMSSpec{ContentType: verifrt.OidROA, Content: zvVROAContent(), Cert: cert, SKI: s.ski, Signer: s.key, FlipSig: s.flipCMS}
		typ := TYPE_ROA
		if s.kind == zvKMFT {
			typ = TYPE_MFT
			m.ContentType, m.Content = verifrt.OidMft, s.content
			if m.Content == nil {
				m.Content = zvVMftContent(nil)
			}
		}
		if s.badHash {
			m.Digest = verifrt.SHA256([]byte("something else"))
		}
		return typ, verifrt.CMS(m)
	}
	return TYPE_CER, cert
}

func zvVOffer(v *Validator, s zvVSpec) bool {
	typ, data := zvVEncode(s)
	ok, _ := zvVAdd(v, typ, s.path, false, s.parent, data)
	return ok
}

// vTA adds the trust anchor: key 0, vKey(0), all resources.
func zvVTA(v *Validator, nb, na string) bool {
	data := verifrt.Cert(verifrt.CertSpec{Serial: []byte{1}, Issuer: "ta", Subject: "ta", Key: 0, SKI: zvVKey(0), CA: true, NotBefore: nb, NotAfter: na, IPs: zvVAllIP, AS: zvVAllAS})
	ok, _ := zvVAdd(v, TYPE_CER, "rsync://h/ta/ta.cer", true, nil, data)
	return ok
}

// vListed: the object is among the valid ones of its kind.
func zvVListed(v *Validator, kind int, ski []byte) bool {
	switch kind {
	case zvKROA:
		_, ok := v.ValidROA[string(ski)]
		return ok
	case zvKMFT:
		_, ok := v.ValidManifest[string(ski)]
		return ok
	}
	return zvVValid(v, ski)
}

var zvVWindows = [][2]string{
	{"20200101000000Z", "20300101000000Z"},
	{"20240101000000Z", "20240101000000Z"},
	{"20250101000001Z", "20300101000000Z"},
	{"20100101000000Z", "20200229235959Z"},
}
var zvVWindowSecs = [][2]int64{
	{1577836800, 1893456000},
	{1704067200, 1704067200},
	{1735689601, 1893456000},
	{1262304000, 1583020799},
}

func zvVTime() int64 {
	t := verifrt.I64("now")
	verifrt.Assume(t >= 946684800)
	verifrt.Assume(t <= 4102444800)
	return t
}

// VerifC02Issuer: trust anchor, an intermediate CA that may be bad, then one object; each with its issuer, signer and window.
func VerifC02Issuer() {
	verifrt.SetNow(zvVNow)
	v := NewValidator()
	now := zvVNow + int64(0)
	if verifrt.Param("time", 1) == 1 {
		now = zvVTime()
	}
	v.Time = time.Unix(now, 0).UTC()
	within := func(w int) bool {
		return verifrt.And(zvVWindowSecs[w][0] <= now, now <= zvVWindowSecs[w][1])
	}
	nw := verifrt.Param("windows", 4)
	tw := 0
	if verifrt.Param("tawin", 0) == 1 {
		tw = verifrt.Choice("ta.window", nw)
	}
	taOK := zvVTA(v, zvVWindows[tw][0], zvVWindows[tw][1])
	verifrt.Assert(taOK == within(tw), "the trust anchor is accepted exactly inside its validity window")
	verifrt.Assert(zvVValid(v, zvVKey(0)) == taOK, "the trust anchor is listed exactly when accepted")

	// intermediate certificate: key 1
	ca := zvVSpec{kind: verifrt.Choice("mid.kind", 2), ski: zvVKey(1), aki: zvVKey(0), key: 1, path: "mid"}
	timed := verifrt.Param("time", 1) == 1
	if !timed {
		ca.signer = verifrt.Choice("mid.signer", 2)
	}
	mw := verifrt.Choice("mid.window", nw)
	ca.nb, ca.na = zvVWindows[mw][0], zvVWindows[mw][1]
	midOK := zvVOffer(v, ca)
	verifrt.Assert(midOK == verifrt.And(taOK, verifrt.And(ca.signer == 0, within(mw))), "intermediate accepted exactly when signed by the current trust anchor and current")
	verifrt.Assert(zvVValid(v, zvVKey(1)) == midOK, "intermediate listed exactly when accepted")

	// the object: key 2, with any key identifiers
	o := zvVSpec{kind: verifrt.Choice("kind", 4), ski: verifrt.Bytes("ski", 20), aki: verifrt.Bytes("aki", 20), key: 2, path: "obj"}
	taken := verifrt.Or(verifrt.BytesEq(o.ski, zvVKey(0)), verifrt.BytesEq(o.ski, zvVKey(1)))
	byTA, byMid := verifrt.BytesEq(o.aki, zvVKey(0)), verifrt.BytesEq(o.aki, zvVKey(1))
	o.signer = verifrt.Choice("signer", 3)
	w := verifrt.Choice("window", nw)
	o.nb, o.na = zvVWindows[w][0], zvVWindows[w][1]
	inner := true
	defects := 4
	if timed {
		defects = 1
	}
	switch verifrt.Choice("defect", defects) {
	case 1:
		o.flip = true
	case 2:
		o.flipCMS = true
		inner = o.kind < zvKROA
	case 3:
		o.badHash = true
		inner = o.kind < zvKROA
	}
	ok := zvVOffer(v, o)
	good := verifrt.Or(verifrt.And(byTA, verifrt.And(taOK, o.signer == 0)),
		verifrt.And(byMid, verifrt.And(midOK, verifrt.And(ca.kind == zvKCA, o.signer == 1))))
	good = verifrt.And(!taken, verifrt.And(good, verifrt.And(!o.flip, within(w))))
	verifrt.Assert(ok == verifrt.And(good, inner), "object accepted exactly when signed by its valid current CA, current and sound")
	if !taken {
		verifrt.Assert(zvVListed(v, o.kind, o.ski) == ok, "object listed exactly when accepted")
		if !good {
			verifrt.Assert(!zvVValid(v, o.ski), "the certificate of a rejected object is not listed")
		}
	} else if o.kind >= zvKROA {
		verifrt.Assert(!zvVListed(v, o.kind, o.ski), "an object with a key identifier in use is not listed")
	}
	verifrt.Assert(zvVValid(v, zvVKey(0)) == taOK, "the trust anchor keeps its standing")
	verifrt.Assert(zvVValid(v, zvVKey(1)) == midOK, "the intermediate keeps its standing")
	if ok {
		verifrt.Reach("accepted")
	} else {
		verifrt.Reach("refused")
	}
}

// VerifC02TAL: a trust anchor fetched for a locator must carry the key of the locator and be self-signed.
func VerifC02TAL() {
	v := zvVValidator()
	uri := "rsync://h/ta/ta.cer"
	k := verifrt.Choice("tal.key", 3)
	spki := verifrt.SPKI(k)
	text := []byte(uri + "\n\n" + verifrt.Base64(spki) + "\n")
	talFile := &PKIFile{Type: TYPE_TAL, Path: "ta.tal"}
	ok, files, _, err := v.AddResource(talFile, text)
	verifrt.Assert(ok && err == nil && len(files) == 1, "the locator is accepted")
	if !ok || len(files) != 1 {
		return
	}
	verifrt.Assert(files[0].Path == uri && files[0].Trust && files[0].Type == TYPE_CER && files[0].Parent == talFile, "the locator names its certificate")
	other := verifrt.Choice("cert.key", 3)
	signer := verifrt.Choice("cert.signer", 3)
	flip := verifrt.Choice("flip", 2) == 1
	ca := verifrt.Choice("ca", 2) == 0
	data := verifrt.Cert(verifrt.CertSpec{Serial: []byte{1}, Issuer: "ta", Subject: "ta", Key: other, SKI: zvVKey(0), CA: ca, IPs: zvVAllIP, AS: zvVAllAS, Signer: signer, FlipSig: flip})
	ok, _, _, _ = v.AddResource(files[0], data)
	good := other == k && signer == other && !flip && ca
	verifrt.Assert(ok == good, "the trust anchor is accepted exactly when it is self-signed with the key of the locator")
	verifrt.Assert(zvVValid(v, zvVKey(0)) == good, "the trust anchor is listed exactly when accepted")
	if good {
		verifrt.Reach("accepted")
	} else {
		verifrt.Reach("refused")
	}
}

// VerifC02Dup: a second certificate with a key identifier already in use never replaces nor upgrades the first.
func VerifC02Dup() {
	v := zvVValidator()
	zvVTA(v, "", "")
	o := zvVSpec{kind: zvKCA, ski: zvVKey(1), aki: zvVKey(0), key: 1, path: "a", signer: verifrt.Choice("signer", 2)}
	first := zvVOffer(v, o)
	p := zvVSpec{kind: verifrt.Choice("kind", 4), ski: zvVKey(1), aki: zvVKey(0), key: 2, path: "b", signer: verifrt.Choice("signer2", 2), serial: []byte{2}}
	second := zvVOffer(v, p)
	if first {
		verifrt.Assert(!second, "the key identifier of a valid certificate is taken")
	}
	child := zvVSpec{kind: zvKROA, ski: zvVKey(2), aki: zvVKey(1), key: 3, path: "c", signer: 1 + verifrt.Choice("signer3", 2)}
	ok := zvVOffer(v, child)
	if ok {
		verifrt.Assert(first && child.signer == 1, "a child is signed by the certificate that holds the key identifier")
		verifrt.Reach("accepted")
	} else {
		verifrt.Reach("refused")
	}
	verifrt.Assert(zvVListed(v, zvKROA, zvVKey(2)) == ok, "listed exactly when accepted")
}
