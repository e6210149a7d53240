package pki

import (
	"crypto/x509"
	"crypto/x509/pkix"

	"github.com/cloudflare/cfrpki/verifrt"
)

// vKey is the key identifier number i.
func zvVKey(i int) []byte {
	return []byte{0xa0 + byte(i), 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20}
}

// vNow is inside the default validity window of the generated objects (2024).
const zvVNow = 1704067200

func zvVValidator() *Validator {
	verifrt.SetNow(zvVNow)
	return NewValidator()
}

func zvVAdd(v *Validator, typ int, path string, trust bool, parent *PKIFile, data []byte) (bool, *PKIFile) {
	f := &PKIFile{Type: typ, Path: path, Trust: trust, Parent: parent}
	ok, _, _, _ := v.AddResource(f, data)
	return ok, f
}

func zvVValid(v *Validator, ski []byte) bool {
	_, ok := v.ValidObjects[string(ski)]
	return ok
}

var zvVAllIP = verifrt.IPExt(verifrt.Seq(verifrt.Prefix([]byte{0}, 0)), verifrt.Seq(verifrt.Prefix([]byte{0}, 0)))
var zvVAllAS = verifrt.ASExt(verifrt.Seq(verifrt.Seq([]byte{2, 1, 0}, []byte{2, 5, 0, 0xff, 0xff, 0xff, 0xff})))

func zvParseCRL(data []byte) (*pkix.CertificateList, error) { return x509.ParseDERCRL(data) }
