package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/x509"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"net"
	"time"

	librpki "github.com/cloudflare/cfrpki/validator/lib"
	"github.com/cloudflare/cfrpki/validator/pki"
	"github.com/cloudflare/cfrpki/verifrt"
	"github.com/cloudflare/gortr/prefixfile"
)

// zvECKey is a key pair; in the executor a key is known by its number.
func zvECKey(n int64) *ecdsa.PrivateKey {
	k := &ecdsa.PrivateKey{D: big.NewInt(1000 + n)}
	k.X, k.Y = big.NewInt(n), big.NewInt(n)
	if !verifrt.Symbolic() {
		k.Curve = elliptic.P256()
		k.X, k.Y = k.Curve.ScalarBaseMult(k.D.Bytes())
	}
	return k
}

// zvSigned tells whether the two signatures of a list are those of key over what the list says.
func zvSigned(l *prefixfile.ROAList, key *ecdsa.PrivateKey) (bool, bool) {
	_, err := hex.DecodeString(l.Metadata.Signature)
	verifrt.Assert(err == nil && l.Metadata.Signature != "" && l.Metadata.SignatureDate != "", "a list without signatures is published although signing is on")
	data, dated, err := l.CheckFile(&key.PublicKey)
	verifrt.Assert(err == nil, "the signatures of the list cannot be read")
	return data, dated
}

// VerifC30List: lists computed one after the other, from any ROAs; each is signed for what it says.
func VerifC30List() {
	verifrt.SymbolicDigits()
	verifrt.FSVirtual()
	*Basepath = verifrt.FSRoot() + "/cache"
	*ValidityDuration = time.Duration(1+verifrt.Choice("validity", 2)) * time.Hour
	*Sign = verifrt.Bool("sign")
	*CacheHeader = false
	*WaitStable = false
	s := zvNewOcto()
	s.Key = zvECKey(1)
	other := zvECKey(2)
	s.Filter = verifrt.Bool("filter")
	s.Tals = []*pki.PKIFile{{Path: "one.tal"}}
	var old *prefixfile.ROAList
	now := int64(zvONow)
	for round := 0; round < verifrt.Param("rounds", 2); round++ {
		if round > 0 {
			now += []int64{0, 3600}[verifrt.Choice(fmt.Sprintf("passed%d", round), 2)]
		}
		verifrt.SetNow(now)
		sm := pki.NewSimpleManager()
		sm.Validator = pki.NewValidator()
		n := verifrt.Param("roas", 1)
		if round > 0 {
			n = verifrt.Int(fmt.Sprintf("roas%d", round), 0, verifrt.Param("more", 1))
		}
		for i := 0; i < n; i++ {
			id := fmt.Sprintf("r%d.%d", round, i)
			roa := &librpki.RPKIROA{InnerValid: true, Certificate: &librpki.RPKICertificate{Certificate: &x509.Certificate{SubjectKeyId: zvOKey(i), AuthorityKeyId: zvOKey(9), SerialNumber: big.NewInt(1), NotBefore: zvBaseTime, NotAfter: zvBaseTime}}}
			roa.ASN = int(verifrt.U32(id + ".asn"))
			verifrt.Assume(roa.ASN >= 1<<30)
			for e := 0; e < verifrt.Param("entries", 2); e++ {
				plen := []int{24, 16, 28}[verifrt.Choice(fmt.Sprintf("%s.len%d", id, e), 3)]
				p := &net.IPNet{IP: net.IP{10, byte(e), 0, 0}, Mask: net.CIDRMask(plen, 32)}
				if e == 1 && verifrt.Bool(id+".same") {
					p = roa.Valids[0].IPNet
				}
				roa.Valids = append(roa.Valids, &librpki.ROAEntry{IPNet: p, MaxLength: verifrt.Int(fmt.Sprintf("%s.max%d", id, e), 28, 29)})
			}
			sm.Validator.ValidROA[string(zvOKey(i))] = &pki.Resource{Type: pki.TYPE_ROA, Resource: roa}
		}
		l := s.generateROAList([]*pki.SimpleManager{sm}, &zvSpan{s.tracer.(*zvTracer)})
		s.setROAList(l)
		r := zvNewRecorder()
		s.ServeROAs(r, zvRequest(""))
		if !*Sign {
			verifrt.Reach("unsigned")
			verifrt.Assert(l.Metadata.Signature == "" && l.Metadata.SignatureDate == "", "a signature although signing is off")
			continue
		}
		for _, d := range l.Data {
			_, ok := d.ASN.(string)
			verifrt.Assert(ok, "an AS number is not given as text: readers would compute another digest")
		}
		data, dated := zvSigned(l, s.Key)
		verifrt.Assert(data, "the data of the list are not what was signed")
		verifrt.Assert(dated, "the times of the list are not what was signed")
		data, dated = zvSigned(l, other)
		verifrt.Assert(!data && !dated, "the list is signed with another key")
		want, err := json.Marshal(l)
		verifrt.Assert(err == nil && verifrt.BytesEq(r.body, append(want, '\n')), "the list is not served as it was signed")
		if round > 0 {
			d, _ := zvSigned(old, s.Key)
			verifrt.Assert(d, "computing a list broke the signature of the one before")
		}
		old = l
		verifrt.Reach("signed")
		verifrt.ObserveInt("payloads", len(l.Data))
	}
}
