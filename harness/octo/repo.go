package main

import (
	"github.com/cloudflare/cfrpki/validator/pki"
	"github.com/cloudflare/cfrpki/verifrt"
)

// A repository in the cache directory, made of encoded and signed objects.

var (
	zvOAllIP     = verifrt.IPExt(verifrt.Seq(verifrt.Prefix([]byte{0}, 0)), verifrt.Seq(verifrt.Prefix([]byte{0}, 0)))
	zvOAllAS     = verifrt.ASExt(verifrt.Seq(verifrt.Seq([]byte{2, 1, 0}, []byte{2, 5, 0, 0xff, 0xff, 0xff, 0xff})))
	zvOInheritIP = verifrt.IPExt([]byte{5, 0}, []byte{5, 0})
	zvOInheritAS = verifrt.ASExt([]byte{5, 0})
)

func zvOKey(i int) []byte {
	return []byte{0xa0 + byte(i), 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20}
}

const zvONow = 1704067200 // 2024, inside the default validity windows

// oFile is an object below the publication point of a CA.
type zvOFile struct {
	name string
	data []byte
}

func zvOSIA(dir, notify string) []verifrt.SIAItem {
	l := []verifrt.SIAItem{{Method: verifrt.OidCARepo, URI: []byte(dir)}, {Method: verifrt.OidSIAMft, URI: []byte(dir + "m.mft")}}
	if notify != "" {
		l = append(l, verifrt.SIAItem{Method: []int{1, 3, 6, 1, 5, 5, 7, 48, 13}, URI: []byte(notify)})
	}
	return l
}

// oROASigned signs a ROA with number idx below the CA with number ca, with the key signer.
func zvOROASigned(idx, ca, signer int, ips, content []byte) []byte {
	cert := verifrt.Cert(verifrt.CertSpec{Serial: []byte{byte(idx)}, Issuer: "i", Subject: "roa", Key: 5, SKI: zvOKey(idx), AKI: zvOKey(ca), IPs: ips, Signer: signer})
	return verifrt.CMS(verifrt.CMSSpec{ContentType: verifrt.OidROA, Content: content, Cert: cert, SKI: zvOKey(idx), Signer: 5})
}

func zvOMft(idx, ca int, files []zvOFile) []byte {
	return zvOMftWindow(idx, ca, files, "20200101000000Z", "20300101000000Z")
}

func zvOMftWindow(idx, ca int, files []zvOFile, this, next string) []byte {
	cert := verifrt.Cert(verifrt.CertSpec{Serial: []byte{byte(idx)}, Issuer: "i", Subject: "mft", Key: 4, SKI: zvOKey(idx), AKI: zvOKey(ca), IPs: zvOInheritIP, AS: zvOInheritAS, Signer: ca})
	var l []verifrt.MftFile
	for _, f := range files {
		l = append(l, verifrt.MftFile{Name: f.name, Hash: verifrt.SHA256(f.data)})
	}
	return verifrt.CMS(verifrt.CMSSpec{ContentType: verifrt.OidMft, Content: verifrt.Manifest([]byte{1}, this, next, l), Cert: cert, SKI: zvOKey(idx), Signer: 4})
}

func zvOCA(idx, issuer int, ips, as []byte, dir, notify string) []byte {
	c := verifrt.CertSpec{Serial: []byte{byte(idx + 1)}, Issuer: "i", Subject: "s", Key: idx, SKI: zvOKey(idx), CA: true, IPs: ips, AS: as, SIA: zvOSIA(dir, notify), Signer: issuer}
	if idx != issuer {
		c.AKI = zvOKey(issuer)
	}
	return verifrt.Cert(c)
}

func zvOPath(uri string) string { return zvOBase() + "/" + uri[len("rsync://"):] }

func zvOPut(uri string, data []byte) { verifrt.FSPut(zvOPath(uri), data) }

// oTAL writes the locator number n of the trust anchor certificate at uri, whose key is number key.
func zvOTAL(n, key int, uris string) *pki.PKIFile {
	p := verifrt.FSRoot() + "/tal" + string(rune('0'+n)) + ".tal"
	verifrt.FSPut(p, []byte(uris+"\n\n"+verifrt.Base64(verifrt.SPKI(key))+"\n"))
	return &pki.PKIFile{Path: p, Type: pki.TYPE_TAL}
}
