package librpki

import (
	"bytes"
	"crypto/rand"
	"encoding/asn1"
	"math/big"
	"net"
	"time"

	"github.com/cloudflare/cfrpki/verifrt"
)

// c14Content is the content of a ROA, a manifest or an XML message, with unconstrained values.
func zvC14Content(kind int) (ctype []int, content []byte) {
	switch kind {
	case 0:
		a := verifrt.Bytes("addr", 2)
		as := verifrt.Bytes("asn", 2)
		verifrt.Assume(as[0]>>7 == 0 && as[0] != 0)
		return verifrt.OidROA, verifrt.ROAContent(as, [][]byte{verifrt.ROAAddr(verifrt.Prefix(a, 16), nil)}, nil)
	case 1:
		name := verifrt.Bytes("name", 2)
		verifrt.Assume(name[0] < 0x80 && name[1] < 0x80)
		return verifrt.OidMft, verifrt.Manifest([]byte{1}, "20230101000000Z", "20290101000000Z", []verifrt.MftFile{{Name: string(name) + ".roa", Hash: verifrt.SHA256([]byte("x"))}})
	}
	return []int{1, 2, 840, 113549, 1, 9, 16, 1, 28}, append([]byte("<msg>"), verifrt.Bytes("text", 3)...)
}

// c14Decode decodes and tells whether the object is inner-valid.
func zvC14Decode(kind int, data []byte) (inner, ok bool) {
	cf := &DecoderConfig{}
	switch kind {
	case 0:
		r, err := cf.DecodeROA(data)
		if err != nil {
			return false, false
		}
		verifrt.Assert(r.InnerValid == (r.InnerValidityError == nil), "the error agrees with the verdict")
		return r.InnerValid, true
	case 1:
		r, err := cf.DecodeManifest(data)
		if err != nil {
			return false, false
		}
		verifrt.Assert(r.InnerValid == (r.InnerValidityError == nil), "the error agrees with the verdict")
		return r.InnerValid, true
	}
	r, err := DecodeXML(data)
	if err != nil {
		return false, false
	}
	verifrt.Assert(r.InnerValid == (r.InnerValidityError == nil), "the error agrees with the verdict")
	return r.InnerValid, true
}

func zvC14Cert(key int) []byte {
	return verifrt.Cert(verifrt.CertSpec{Serial: []byte{5}, Issuer: "i", Subject: "s", Key: key, Signer: 0, SKI: []byte{1, 2, 3, 4}, AKI: []byte{9, 9}, IPs: zvVC14IP})
}

var zvVC14IP = verifrt.IPExt(verifrt.Seq(verifrt.Prefix([]byte{0}, 0)), nil)

// VerifC14Fields: digest, signed attributes, signer and embedded key chosen independently.
func VerifC14Fields() {
	kind := verifrt.Choice("kind", 3)
	ctype, content := zvC14Content(kind)
	budget := verifrt.Param("odd", 2) // choices that may differ from the good ones at the same time
	odd := func(name string, n int) int {
		if budget == 0 {
			return 0
		}
		c := verifrt.Choice(name, n)
		if c > 0 {
			budget--
		}
		return c
	}
	// the digest attribute: of the content, or of any other content of this length or shorter, or not a digest
	other := append([]byte{}, content...)
	digest := verifrt.SHA256(content)
	switch odd("digest", 5) {
	case 1:
		other[len(other)-1] = verifrt.U8("last")
		digest = verifrt.SHA256(other)
	case 2:
		digest = verifrt.SHA256(content[:len(content)-1])
	case 3:
		digest = digest[:verifrt.Choice("short", 4)*10+1]
	case 4:
		digest[verifrt.Choice("at", 4)*10] ^= verifrt.U8("flip")
	}
	attrs := verifrt.Attrs(ctype, digest)
	missing := false
	switch odd("attrs", 5) {
	case 1: // no digest
		attrs = verifrt.Seq(verifrt.OID(verifrt.OidCtype...), verifrt.Set(verifrt.OID(ctype...)))
		missing = true
	case 2: // two values
		attrs = verifrt.Seq(verifrt.OID(verifrt.OidDigest...), verifrt.Set(verifrt.Octets(digest), verifrt.Octets(digest)))
		missing = true
	case 3: // another attribute has the value
		attrs = verifrt.Seq(verifrt.OID(1, 2, 840, 113549, 1, 9, 9), verifrt.Set(verifrt.Octets(digest)))
		missing = true
	case 4: // only the digest
		attrs = verifrt.Seq(verifrt.OID(verifrt.OidDigest...), verifrt.Set(verifrt.Octets(digest)))
	}
	// what is signed
	signed := verifrt.Set(attrs)
	if odd("signed", 2) == 1 {
		signed = verifrt.Set(verifrt.Attrs(ctype, verifrt.SHA256(other)))
	}
	if odd("tag", 2) == 1 { // the tag of the wire form instead of SET OF
		signed = append([]byte{0xa0}, signed[1:]...)
	}
	signer, key := odd("signer", 2)+1, odd("key", 2)+1
	sig := verifrt.Sign(signer, signed)
	want := verifrt.And(signer == key, verifrt.And(!missing, verifrt.And(verifrt.BytesEq(digest, verifrt.SHA256(content)), verifrt.BytesEq(signed, verifrt.Set(attrs)))))
	switch odd("sig", 4) {
	case 1:
		f := verifrt.U8("sigflip")
		sig[verifrt.Choice("sigat", 8)*18] ^= f
		want = verifrt.And(want, f == 0)
	case 2:
		sig = sig[1:]
		want = false
	case 3:
		sig = append([]byte{0}, sig...)
		want = false
	}
	si := verifrt.Seq([]byte{2, 1, 3}, verifrt.TLV(0x80, []byte{1, 2, 3, 4}), verifrt.Seq(verifrt.OID(verifrt.OidSHA256...)), verifrt.TLV(0xa0, attrs), verifrt.SigAlg(), verifrt.Octets(sig))
	econtent := verifrt.Octets(content)
	if kind < 2 && odd("parts", 2) == 1 { // constructed octet string in two parts
		econtent = verifrt.TLV(0x24, verifrt.Octets(content[:5]), verifrt.Octets(content[5:]))
	}
	inner, ok := zvC14Decode(kind, verifrt.SignedData(ctype, econtent, zvC14Cert(key), si))
	verifrt.Assert(ok, "the object decodes")
	verifrt.Assert(inner == want, "inner-valid exactly if digest and signature match")
	if inner {
		verifrt.Reach("valid")
	} else {
		verifrt.Reach("invalid")
	}
}

// VerifC14Mutate: an inner-valid object with one octet replaced.
func VerifC14Mutate() {
	kind := verifrt.Param("kind", 0)
	var ctype []int
	var content []byte
	switch kind {
	case 0:
		ctype, content = verifrt.OidROA, verifrt.ROAContent([]byte{5}, [][]byte{verifrt.ROAAddr(verifrt.Prefix([]byte{10, 1}, 16), []byte{20})}, nil)
	case 1:
		ctype, content = verifrt.OidMft, verifrt.Manifest([]byte{1}, "20230101000000Z", "20290101000000Z", []verifrt.MftFile{{Name: "a.roa", Hash: verifrt.SHA256([]byte("x"))}})
	default:
		ctype, content = []int{1, 2, 840, 113549, 1, 9, 16, 1, 28}, []byte("<msg>")
	}
	cert := zvC14Cert(1)
	attrs := verifrt.Attrs(ctype, verifrt.SHA256(content))
	sig := verifrt.Sign(1, verifrt.Set(attrs))
	data := verifrt.CMS(verifrt.CMSSpec{ContentType: ctype, Content: content, Cert: cert, SKI: []byte{1, 2, 3, 4}, Signer: 1})
	spki := verifrt.SPKI(1)
	keyBits := spki[len(spki)-140:] // modulus and exponent
	places := [][]byte{content, attrs, sig, keyBits}
	step := verifrt.Param("step", 1)
	var pos int
	where := verifrt.Choice("where", 5)
	if where < 4 {
		p := places[where]
		st := step
		if where < 2 {
			st = verifrt.Param("fine", 1)
		}
		off := bytes.Index(data, p)
		if off < 0 {
			verifrt.Assert(false, "the parts are found")
			return
		}
		pos = off + verifrt.Choice("pos", (len(p)+st-1)/st)*st
	} else {
		pos = verifrt.Choice("pos", (len(data)+step-1)/step) * step
	}
	inside := false
	for _, p := range places {
		if off := bytes.Index(data, p); pos >= off && pos < off+len(p) {
			inside = true
		}
	}
	orig := data[pos]
	if inside && orig >= '0' && orig <= '9' && kind == 1 && where == 0 {
		// digits of times: every other digit, not every octet
		x := verifrt.U8("byte")
		verifrt.Assume(x >= '0' && x <= '9')
		data[pos] = '0' + byte(verifrt.Choice("digit", 10))
		verifrt.Assume(x == data[pos])
	} else {
		data[pos] = verifrt.U8("byte")
	}
	changed := data[pos] != orig
	inner, ok := zvC14Decode(kind, data)
	verifrt.Assert(verifrt.Or(changed, verifrt.And(ok, inner)), "the unchanged object is inner-valid")
	if inside {
		verifrt.Assert(!verifrt.And(changed, inner), "a change to content, attributes, signature or key is noticed")
	}
	if inner {
		verifrt.Reach("valid")
	} else {
		verifrt.Reach("invalid")
	}
}

// VerifC14Sign: what the library signs is inner-valid and decodes to what was signed.
func VerifC14Sign() {
	kind := verifrt.Choice("kind", 3)
	cert := zvC14Cert(1)
	when := time.Unix([]int64{1704067200, 946684800, 1709164800}[verifrt.Choice("when", 3)], 0).UTC()
	var content interface{}
	var encap []byte
	var entry *ROAEntry
	asn := 0
	text := verifrt.Bytes("text", 4)
	switch kind {
	case 0:
		a := verifrt.Bytes("addr", 2)
		asn = verifrt.Int("asn", 0, 1<<15)
		entry = &ROAEntry{IPNet: &net.IPNet{IP: net.IP{a[0], a[1], 0, 0}, Mask: net.CIDRMask(16, 32)}, MaxLength: verifrt.Int("max", 16, 32)}
		roa, err := EncodeROAEntries(asn, []*ROAEntry{entry})
		verifrt.Assert(err == nil, "the ROA encodes")
		if err != nil {
			return
		}
		encap, err = ROAToEncap(roa)
		verifrt.Assert(err == nil, "the content is found")
		content = roa
	case 1:
		mft, err := EncodeManifestContent(ManifestContent{
			ManifestNumber: big.NewInt(7), ThisUpdate: when, NextUpdate: when.Add(time.Hour), FileHashAlg: SHA256OID,
			FileList: []File{{Name: "a.roa", Hash: asn1.BitString{Bytes: append(append([]byte{}, text...), make([]byte, 28)...), BitLength: 256}}}})
		verifrt.Assert(err == nil, "the manifest encodes")
		if err != nil {
			return
		}
		encap, err = ManifestToEncap(mft)
		verifrt.Assert(err == nil, "the content is found")
		content = mft
	case 2:
		x, err := EncodeXMLData(text)
		verifrt.Assert(err == nil, "the message encodes")
		if err != nil {
			return
		}
		encap = text
		content = x
	}
	cms, err := EncodeCMS(nil, content, when)
	verifrt.Assert(err == nil, "the object encodes")
	if err != nil {
		return
	}
	err = cms.Sign(rand.Reader, []byte{1, 2, 3, 4}, encap, verifrt.PrivKey(1), cert)
	verifrt.Assert(err == nil, "the object is signed")
	if err != nil {
		return
	}
	data, err := asn1.Marshal(*cms)
	verifrt.Assert(err == nil, "the object is written")
	if err != nil {
		return
	}
	switch kind {
	case 0:
		r, err := (&DecoderConfig{}).DecodeROA(data)
		verifrt.Assert(err == nil && r.InnerValid, "a signed ROA is inner-valid")
		if err != nil {
			return
		}
		verifrt.Assert(r.ASN == asn && len(r.Entries) == 1 && r.SigningTime.Equal(when), "the ROA is the one signed")
		verifrt.Assert(len(r.Entries) == 1 && r.Entries[0].MaxLength == entry.MaxLength && r.Entries[0].IPNet.IP.Equal(entry.IPNet.IP), "the entry is the one signed")
	case 1:
		r, err := (&DecoderConfig{}).DecodeManifest(data)
		verifrt.Assert(err == nil && r.InnerValid, "a signed manifest is inner-valid")
		if err != nil {
			return
		}
		verifrt.Assert(len(r.Content.FileList) == 1 && verifrt.BytesEq(r.Content.FileList[0].GetHash()[:4], text), "the manifest is the one signed")
	case 2:
		r, err := DecodeXML(data)
		verifrt.Assert(err == nil && r.InnerValid, "a signed message is inner-valid")
		if err != nil {
			return
		}
		verifrt.Assert(verifrt.BytesEq(r.Content, text), "the message is the one signed")
	}
	verifrt.Reach("signed")
}

// cubeRoot is the largest integer whose cube is at most x.
func zvCubeRoot(x *big.Int) *big.Int {
	r := new(big.Int).Lsh(big.NewInt(1), uint(x.BitLen()/3+1))
	three := big.NewInt(3)
	for { // Newton from above
		t := new(big.Int).Mul(r, r)
		t.Div(x, t)
		t.Add(t, r)
		t.Add(t, r)
		t.Div(t, three)
		if t.Cmp(r) >= 0 {
			return r
		}
		r = t
	}
}

// VerifC14Forged: a signature made without the private key, for a key with public exponent 3.
func VerifC14Forged() {
	kind := verifrt.Choice("kind", 3)
	ctype, content := verifrt.OidROA, verifrt.ROAContent([]byte{5}, [][]byte{verifrt.ROAAddr(verifrt.Prefix([]byte{10, 1}, 16), []byte{20})}, nil)
	switch kind {
	case 1:
		ctype, content = verifrt.OidMft, verifrt.Manifest([]byte{1}, "20230101000000Z", "20290101000000Z", []verifrt.MftFile{{Name: "a.roa", Hash: verifrt.SHA256([]byte("x"))}})
	case 2:
		ctype, content = []int{1, 2, 840, 113549, 1, 9, 16, 1, 28}, []byte("<msg>")
	}
	n := make([]byte, 256) // some odd modulus of 2048 bits; nobody needs its factors
	for i := range n {
		n[i] = 0xc5
	}
	spki := verifrt.Seq(verifrt.Seq(verifrt.OID(verifrt.OidRSA...), verifrt.Null()), verifrt.BitStr(verifrt.Seq(verifrt.UintMag(n), []byte{2, 1, 3})))
	good := zvC14Cert(1)
	own := verifrt.SPKI(1)
	at := bytes.Index(good, own)
	tbs := append(append(append([]byte{}, good[:at]...), spki...), good[at+len(own):]...)
	// the outer lengths of the certificate
	_, body := zvC14Len(tbs, len(spki)-len(own))
	cert := body
	attrs := verifrt.Attrs(ctype, verifrt.SHA256(content))
	hash := verifrt.SHA256(verifrt.Set(attrs))
	info := verifrt.Seq(verifrt.Seq(verifrt.OID(verifrt.OidSHA256...), verifrt.Null()), verifrt.Octets(hash))
	head := [][]byte{{0, 1, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0}, {1, 1, 0xff, 0}, {0, 2, 0xff, 0}}[verifrt.Choice("head", 3)]
	block := make([]byte, 256)
	copy(block, append(append([]byte{}, head...), info...))
	for i := len(head) + len(info); i < len(block); i++ {
		block[i] = 0xff
	}
	sig := zvCubeRoot(new(big.Int).SetBytes(block)).Bytes()
	full := make([]byte, 256)
	copy(full[256-len(sig):], sig)
	si := verifrt.Seq([]byte{2, 1, 3}, verifrt.TLV(0x80, []byte{1, 2, 3, 4}), verifrt.Seq(verifrt.OID(verifrt.OidSHA256...)), verifrt.TLV(0xa0, attrs), verifrt.SigAlg(), verifrt.Octets(full))
	inner, ok := zvC14Decode(kind, verifrt.SignedData(ctype, verifrt.Octets(content), cert, si))
	verifrt.Assert(ok, "the object decodes")
	verifrt.Assert(!inner, "a forged signature is noticed")
	verifrt.Reach("forged")
}

// c14Len writes a certificate again whose TBS part has grown by d octets.
func zvC14Len(cert []byte, d int) (int, []byte) {
	// 30 82 xx xx 30 82 yy yy ...
	out := append([]byte{}, cert...)
	for _, i := range []int{2, 6} {
		n := int(out[i])<<8 | int(out[i+1])
		n += d
		out[i], out[i+1] = byte(n>>8), byte(n)
	}
	return d, out
}
