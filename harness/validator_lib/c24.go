package librpki

import (
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"math/big"
	"time"

	"github.com/cloudflare/cfrpki/verifrt"
)

var zvC24Times = []int64{1704067200, 946684799, 1709164800, 2524607999, 2524608000, 253402300799}

// c24Big is a number of exactly n unconstrained octets (the first not zero), or zero for n = 0.
func zvC24Big(name string, n int) *big.Int {
	b := verifrt.Bytes(name, n)
	if n > 0 {
		verifrt.Assume(b[0] != 0)
	}
	return new(big.Int).SetBytes(b)
}

func zvC24Size(name string) int {
	return []int{1, 0, 8, 9, 20}[verifrt.Choice(name, verifrt.Param("sizes", 5))]
}

func zvC24Time(name string) time.Time {
	t := time.Unix(zvC24Times[verifrt.Choice(name, verifrt.Param("times", len(zvC24Times)))], 0)
	if verifrt.Choice(name+"zone", 2) == 1 {
		return t.In(time.FixedZone("x", 19800))
	}
	return t.UTC()
}

// VerifC24 creates a list and reads it back with the standard library and with an independent parse.
func VerifC24() {
	issuer := &x509.Certificate{
		Version: 3, KeyUsage: x509.KeyUsageCRLSign, BasicConstraintsValid: true, IsCA: true,
		Subject:   pkix.Name{CommonName: "issuer"},
		PublicKey: verifrt.PubKey(1), PublicKeyAlgorithm: x509.RSA,
		AuthorityKeyId: []byte{9, 9, 9},
	}
	skiLen := []int{20, 0, 1}[verifrt.Choice("ski", verifrt.Param("skis", 3))]
	ski := verifrt.Bytes("skid", skiLen)
	issuer.SubjectKeyId = ski
	k := verifrt.Choice("revoked", verifrt.Param("k", 2)+1)
	var rev []pkix.RevokedCertificate
	for i := 0; i < k; i++ {
		n := string(rune('0' + i))
		rev = append(rev, pkix.RevokedCertificate{SerialNumber: zvC24Big("serial"+n, zvC24Size("len"+n)), RevocationTime: zvC24Time("rev" + n)})
	}
	now, expiry := zvC24Time("now"), zvC24Time("expiry")
	num := zvC24Big("number", zvC24Size("numlen"))
	data, err := CreateCRL(issuer, rand.Reader, verifrt.PrivKey(1), rev, now, expiry, num)
	verifrt.Assert(err == nil, "the list is created")
	if err != nil {
		return
	}
	crl, err := x509.ParseDERCRL(data)
	verifrt.Assert(err == nil, "the list is parsed")
	if err != nil {
		return
	}
	t := crl.TBSCertList
	verifrt.Assert(len(t.RevokedCertificates) == k, "as many entries as asked for")
	for i := range rev {
		if i >= len(t.RevokedCertificates) {
			break
		}
		verifrt.Assert(t.RevokedCertificates[i].SerialNumber.Cmp(rev[i].SerialNumber) == 0, "the serial asked for")
		verifrt.Assert(t.RevokedCertificates[i].RevocationTime.Equal(rev[i].RevocationTime), "the revocation time asked for")
	}
	verifrt.Assert(t.ThisUpdate.Equal(now) && t.NextUpdate.Equal(expiry), "the update times asked for")
	var gotKey, gotNum bool
	for _, e := range t.Extensions {
		switch {
		case e.Id.Equal(asn1.ObjectIdentifier{2, 5, 29, 35}):
			gotKey = true
			want := verifrt.Seq(verifrt.TLV(0x80, ski))
			verifrt.Assert(len(e.Value) == len(want) && verifrt.BytesEq(e.Value, want), "the key identifier is that of the issuer")
		case e.Id.Equal(asn1.ObjectIdentifier{2, 5, 29, 20}):
			gotNum = true
			n := new(big.Int)
			rest, err := asn1.Unmarshal(e.Value, &n)
			verifrt.Assert(err == nil && len(rest) == 0 && n.Cmp(num) == 0, "the number asked for")
		}
	}
	verifrt.Assert(gotKey == (skiLen > 0) && gotNum, "number, and key identifier if the issuer has one")
	verifrt.Assert(issuer.CheckCRLSignature(crl) == nil, "the signature verifies with the key of the issuer")
	other := *issuer
	other.PublicKey = verifrt.PubKey(2)
	verifrt.Assert(other.CheckCRLSignature(crl) != nil, "the signature does not verify with another key")
	verifrt.Assert(t.Issuer.String() == issuer.Subject.ToRDNSequence().String(), "the issuer is named")
	verifrt.Reach("created")
}

// VerifC24Change: no octet of the signed part can be changed.
func VerifC24Change() {
	issuer := &x509.Certificate{Version: 3, KeyUsage: x509.KeyUsageCRLSign, BasicConstraintsValid: true, IsCA: true,
		Subject: pkix.Name{CommonName: "issuer"}, PublicKey: verifrt.PubKey(1), PublicKeyAlgorithm: x509.RSA, SubjectKeyId: []byte{1, 2, 3}}
	at := time.Unix(1704067200, 0)
	data, err := CreateCRL(issuer, rand.Reader, verifrt.PrivKey(1), []pkix.RevokedCertificate{{SerialNumber: big.NewInt(5), RevocationTime: at}}, at, at.Add(time.Hour), big.NewInt(3))
	if err != nil {
		verifrt.Assert(false, "the list is created")
		return
	}
	crl, err := x509.ParseDERCRL(data)
	if err != nil {
		verifrt.Assert(false, "the list is parsed")
		return
	}
	raw := append([]byte{}, crl.TBSCertList.Raw...)
	i := verifrt.Choice("at", len(raw))
	x := verifrt.U8("octet")
	verifrt.Assume(x != raw[i])
	raw[i] = x
	crl.TBSCertList.Raw = raw
	verifrt.Assert(issuer.CheckCRLSignature(crl) != nil, "the signature covers the whole list")
	verifrt.Reach("changed")
}
