package pki

import (
	"github.com/getsentry/sentry-go"

	librpki "github.com/cloudflare/cfrpki/validator/lib"
	"github.com/cloudflare/cfrpki/verifrt"
)

// c22Setup: trust anchor with a CA below; strictness chosen.
func zvC22Setup() *Validator {
	v := zvVValidator()
	v.DecoderConfig = &librpki.DecoderConfig{ValidateStrict: verifrt.Choice("strict", 2) == 0}
	zvVTA(v, "", "")
	verifrt.Assert(zvVOffer(v, zvVSpec{kind: zvKCA, ski: zvVKey(1), aki: zvVKey(0), key: 1, signer: 0, path: "rsync://h/A.cer"}), "a good CA is accepted")
	return v
}

// c22File is the place the object comes from.
func zvC22File(typ int) *PKIFile {
	f := &PKIFile{Type: typ, Path: "x"}
	switch verifrt.Choice("file", verifrt.Param("places", 4)) {
	case 0: // listed on the manifest of the CA
		f.Parent = &PKIFile{Type: TYPE_MFT, Path: "m", Parent: &PKIFile{Type: TYPE_CER, Path: "rsync://h/A.cer"}}
	case 1: // named by a certificate without a parent
		f.Parent = &PKIFile{Type: TYPE_CER, Path: "rsync://h/A.cer"}
	case 2: // on its own
	case 3: // named by a certificate found on a manifest
		f.Parent = &PKIFile{Type: TYPE_CER, Path: "c", Parent: &PKIFile{Type: TYPE_MFT, Path: "m", Parent: &PKIFile{Type: TYPE_CER, Path: "rsync://h/A.cer"}}}
	}
	return f
}

func zvC22Offer(v *Validator, f *PKIFile, data []byte) {
	ok, _, _, err := v.AddResource(f, data)
	if err != nil {
		// what octorpki does with it
		_ = err.Error()
		if e, ok := err.(interface {
			AddFileErrorInfo(*PKIFile, *SeekFile)
		}); ok {
			var seek *SeekFile
			if len(data)%2 == 0 {
				seek = &SeekFile{Data: data}
			}
			e.AddFileErrorInfo(f, seek)
		}
		if e, ok := err.(interface{ StackTrace() []Frame }); ok { // when reports are on
			_ = e.StackTrace()
		}
		if e, ok := err.(interface{ SetSentryScope(*sentry.Scope) }); ok {
			e.SetSentryScope(sentry.NewScope())
		}
	}
	if ok {
		verifrt.Reach("accepted")
	} else {
		verifrt.Reach("refused")
	}
}

// c22Later: the validator still takes good objects.
func zvC22Later(v *Validator) {
	if _, taken := v.Objects[string(zvVKey(9))]; zvVValid(v, zvVKey(1)) && !taken {
		verifrt.Assert(zvVOffer(v, zvVSpec{kind: zvKCA, ski: zvVKey(9), aki: zvVKey(0), key: 2, signer: 0, path: "later", serial: []byte{0x7f, 1, 2}}), "later objects are still accepted")
	}
}

// VerifC22Bytes: any short byte string as any type of object.
func VerifC22Bytes() {
	v := zvC22Setup()
	n := verifrt.Choice("len", verifrt.Param("n", 5)+1)
	f := zvC22File([]int{TYPE_CER, TYPE_ROA, TYPE_MFT, TYPE_CRL, TYPE_TAL, TYPE_UNKNOWN}[verifrt.Choice("type", 6)])
	zvC22Offer(v, f, verifrt.Bytes("data", n))
	zvC22Later(v)
}

func zvC22Opt(name string, good []byte) []byte {
	switch verifrt.Choice(name, 4) {
	case 0:
		return good
	case 1:
		return nil
	case 2:
		return verifrt.Null()
	default:
		return verifrt.Seq()
	}
}

// VerifC22CRL: revocation lists with odd key identifiers, serials and shapes.
func VerifC22CRL() {
	v := zvC22Setup()
	f := zvC22File(TYPE_CRL)
	var aki []byte
	switch verifrt.Choice("aki", 5) {
	case 0:
		aki = zvVKey(1)
	case 1: // extension left out
	case 2:
		aki = []byte{}
	case 3:
		aki = verifrt.Bytes("key", 1)
	case 4:
		aki = verifrt.Bytes("key", 20)
	}
	var rev []verifrt.RevokedItem
	if verifrt.Choice("revoked", 2) == 1 {
		rev = append(rev, verifrt.RevokedItem{Serial: verifrt.Bytes("serial", 1)})
	}
	zvC22Offer(v, f, verifrt.CRL(verifrt.CRLSpec{Issuer: "i", AKI: aki, Revoked: rev, Signer: verifrt.Choice("signer", 2)}))
	zvC22Later(v)
}

// VerifC22Cert: certificates without the usual extensions or with empty ones.
func VerifC22Cert() {
	v := zvC22Setup()
	f := zvC22File(TYPE_CER)
	f.Trust = verifrt.Choice("trust", 2) == 1
	c := verifrt.CertSpec{Serial: []byte{5}, Issuer: "i", Subject: "s", Key: 2, Signer: 1, SKI: zvVKey(2), AKI: zvVKey(1), CA: true}
	switch verifrt.Choice("ski", 3) {
	case 1:
		c.SKI = nil
	case 2:
		c.SKI = []byte{}
	}
	switch verifrt.Choice("aki", 3) {
	case 1:
		c.AKI = nil
	case 2:
		c.AKI = zvVKey(2)
	}
	c.NoBasic = verifrt.Choice("nobasic", 2) == 1
	c.IPs = zvC22Opt("ips", zvVInheritIP)
	c.AS = zvC22Opt("as", zvVInheritAS)
	zvC22Offer(v, f, verifrt.Cert(c))
	// a child of it
	ca := zvVSpec{kind: zvKEE, ski: zvVKey(3), aki: zvVKey(2), key: 3, signer: 2, path: "child"}
	zvVOffer(v, ca)
	zvC22Later(v)
}

// VerifC22CMS: signed objects with parts left out or replaced.
func VerifC22CMS() {
	v := zvC22Setup()
	budget := verifrt.Param("odd", 2) // parts that may be odd at the same time
	dev := func(name string, n int) int {
		if budget == 0 {
			return 0
		}
		c := verifrt.Choice(name, n)
		if c > 0 {
			budget--
		}
		return c
	}
	kind := zvKROA + verifrt.Choice("kind", 2)
	typ, ctype, content := TYPE_ROA, verifrt.OidROA, zvVROAContent()
	if kind == zvKMFT {
		typ, ctype, content = TYPE_MFT, verifrt.OidMft, zvVMftContent(nil)
	}
	f := zvC22File(typ)
	cert := verifrt.Cert(verifrt.CertSpec{Serial: []byte{5}, Issuer: "i", Subject: "s", Key: 2, Signer: 1, SKI: zvVKey(2), AKI: zvVKey(1), IPs: zvVInheritIP})
	digest := verifrt.SHA256(content)
	attrs := verifrt.Attrs(ctype, digest)
	sig := verifrt.Sign(2, verifrt.Set(attrs))
	alg := verifrt.SigAlg()
	switch dev("attrs", 5) {
	case 1:
		attrs = nil
	case 2: // no values
		attrs = verifrt.Seq(verifrt.OID(verifrt.OidDigest...), verifrt.Set())
	case 3: // signing time without and with a wrong value
		attrs = append(verifrt.Seq(verifrt.OID(verifrt.OidSignTime...), verifrt.Set()), verifrt.Seq(verifrt.OID(verifrt.OidSignTime...), verifrt.Set(verifrt.Null()))...)
	case 4:
		attrs = verifrt.Seq()
	}
	switch dev("sig", 3) {
	case 1:
		sig = nil
	case 2:
		sig = []byte{0}
	}
	switch dev("alg", 3) {
	case 1:
		alg = verifrt.Seq()
	case 2:
		alg = verifrt.Seq(verifrt.OID(verifrt.OidRSA...))
	}
	si := verifrt.Seq([]byte{2, 1, 3}, verifrt.TLV(0x80, zvVKey(2)), verifrt.Seq(verifrt.OID(verifrt.OidSHA256...)), verifrt.TLV(0xa0, attrs), alg, verifrt.Octets(sig))
	if dev("signers", 2) == 1 {
		si = nil
	}
	switch dev("cert", 3) {
	case 1:
		cert = nil
	case 2:
		cert = verifrt.Seq()
	}
	var econtent []byte
	switch dev("content", 6) {
	case 0:
		econtent = verifrt.Octets(content)
	case 1:
	case 2:
		econtent = verifrt.Octets(nil)
	case 3:
		econtent = verifrt.Octets(verifrt.Seq())
	case 4: // constructed octet string in two parts
		econtent = verifrt.TLV(0x24, verifrt.Octets(content[:5]), verifrt.Octets(content[5:]))
	case 5:
		econtent = verifrt.TLV(0x24, verifrt.Octets(content[:5]), []byte{4, 100})
	}
	zvC22Offer(v, f, verifrt.SignedData(ctype, econtent, cert, si))
	zvC22Later(v)
}

// VerifC22Mutate: a good object with one octet replaced by any other.
func VerifC22Mutate() {
	v := zvC22Setup()
	typ := verifrt.Param("type", TYPE_ROA)
	var data []byte
	switch typ {
	case TYPE_CER:
		_, data = zvVEncode(zvVSpec{kind: zvKCA, ski: zvVKey(2), aki: zvVKey(1), key: 2, signer: 1, sia: zvC22SIA, crldp: []string{"rsync://h/x.crl"}})
	case TYPE_ROA:
		_, data = zvVEncode(zvVSpec{kind: zvKROA, ski: zvVKey(2), aki: zvVKey(1), key: 2, signer: 1})
	case TYPE_MFT:
		_, data = zvVEncode(zvVSpec{kind: zvKMFT, ski: zvVKey(2), aki: zvVKey(1), key: 2, signer: 1, content: zvVMftContent([]verifrt.MftFile{{Name: "a.roa", Hash: make([]byte, 32)}})})
	case TYPE_CRL:
		data = verifrt.CRL(verifrt.CRLSpec{Issuer: "i", AKI: zvVKey(1), Revoked: []verifrt.RevokedItem{{Serial: []byte{9}}}, Signer: 1})
	}
	step := verifrt.Param("step", 1)
	i := verifrt.Choice("pos", (len(data)+step-1)/step)*step + verifrt.Param("from", 0)
	if i >= len(data) {
		return
	}
	for j := 0; j+15 < len(data); j++ { // times are left alone: their digits are the library's business
		if data[j] == 0x18 && data[j+1] == 15 && data[j+2] == '2' && i > j+1 && i < j+17 {
			return
		}
		if data[j] == 0x17 && data[j+1] == 13 && data[j+2] == '2' && i > j+1 && i < j+15 {
			return
		}
	}
	data[i] = verifrt.U8("byte")
	zvC22Offer(v, zvC22File(typ), data)
	zvC22Later(v)
}

var zvC22SIA = []verifrt.SIAItem{{Method: verifrt.OidCARepo, URI: []byte("rsync://h/A/")}, {Method: verifrt.OidSIAMft, URI: []byte("rsync://h/A/m.mft")}}
