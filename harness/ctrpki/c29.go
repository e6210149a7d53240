package main

import (
	"io"
	"net/http"
	"os"
	"sync"

	"github.com/cloudflare/cfrpki/verifenv"
	"github.com/cloudflare/cfrpki/verifrt"
)

func zvOBase() string { return verifrt.FSRoot() + "/cache" }

// VerifC29Tool: the one-shot submission tool on a mirror with a trust anchor, a CA and a ROA.
func VerifC29Tool() {
	verifrt.FSVirtual()
	verifrt.ExitIsBug()
	verifrt.SetNow(1704067200)
	*UseManifest = true
	*ValidTime = "now"
	*CertificateTransparency = "https://log.example/x/"
	asn := verifrt.Bytes("asn", 2)
	verifrt.Assume(asn[0] > 0)
	verifrt.Assume(asn[0] < 0x80)
	ip10 := verifrt.IPExt(verifrt.Seq(verifrt.Prefix([]byte{10}, 8)), nil)
	ee := verifrt.Cert(verifrt.CertSpec{Serial: []byte{9}, Issuer: "i", Subject: "roa", Key: 5, SKI: zvOKey(13), AKI: zvOKey(1), IPs: ip10, Signer: 1})
	roa := verifrt.CMS(verifrt.CMSSpec{ContentType: verifrt.OidROA, Content: verifrt.ROAContent(asn, [][]byte{verifrt.ROAAddr(verifrt.TLV(3, []byte{0}, []byte{10, 1}), nil)}, nil), Cert: ee, SKI: zvOKey(13), Signer: 5})
	ca := verifrt.Cert(verifrt.CertSpec{Serial: []byte{2}, Issuer: "i", Subject: "s", Key: 1, SKI: zvOKey(1), AKI: zvOKey(0), CA: true, IPs: ip10, AS: zvOInheritAS, SIA: zvOSIA("rsync://h/m/c/", ""), Signer: 0})
	var own []byte // the anchor's authority key identifier
	anchor := 0
	if verifrt.Param("small", 0) == 0 {
		anchor = verifrt.Choice("anchor", 3)
	}
	switch anchor {
	case 1:
		own = zvOKey(0)
	case 2:
		own = zvOKey(7) // of nobody
	}
	ta := verifrt.Cert(verifrt.CertSpec{Serial: []byte{1}, Issuer: "i", Subject: "s", Key: 0, SKI: zvOKey(0), AKI: own, CA: true, IPs: zvOAllIP, AS: zvOAllAS, SIA: zvOSIA("rsync://h/m/", ""), Signer: 0})
	mc := verifrt.Cert(verifrt.CertSpec{Serial: []byte{12}, Issuer: "i", Subject: "mft", Key: 4, SKI: zvOKey(12), AKI: zvOKey(1), IPs: zvOInheritIP, AS: zvOInheritAS, Signer: 1})
	mft := verifrt.CMS(verifrt.CMSSpec{ContentType: verifrt.OidMft, Content: verifrt.Manifest([]byte{1}, "20200101000000Z", "20300101000000Z", []verifrt.MftFile{{Name: "r.roa", Hash: verifrt.SHA256(roa)}}), Cert: mc, SKI: zvOKey(12), Signer: 4})
	tc := verifrt.Cert(verifrt.CertSpec{Serial: []byte{10}, Issuer: "i", Subject: "mft", Key: 4, SKI: zvOKey(10), AKI: zvOKey(0), IPs: zvOInheritIP, AS: zvOInheritAS, Signer: 0})
	top := verifrt.CMS(verifrt.CMSSpec{ContentType: verifrt.OidMft, Content: verifrt.Manifest([]byte{1}, "20200101000000Z", "20300101000000Z", []verifrt.MftFile{{Name: "c.cer", Hash: verifrt.SHA256(ca)}}), Cert: tc, SKI: zvOKey(10), Signer: 4})
	zvOPut("rsync://h/m/ta.cer", ta)
	zvOPut("rsync://h/m/m.mft", top)
	zvOPut("rsync://h/m/c.cer", ca)
	zvOPut("rsync://h/m/c/m.mft", mft)
	zvOPut("rsync://h/m/c/r.roa", roa)
	*MapDir = "rsync://h/=" + zvOBase() + "/h/"
	first := zvOTAL(1, 0, "rsync://h/m/ta.cer").Path
	*RootTAL = first
	small := verifrt.Param("small", 0) == 1
	locators := 0
	if !small {
		locators = verifrt.Choice("locators", 3)
	}
	switch locators {
	case 1:
		*RootTAL = first + "," + verifrt.FSRoot() + "/missing.tal"
	case 2:
		*RootTAL = zvOTAL(2, 2, "rsync://h/m/gone.cer").Path + "," + first
	}
	*CertificateTransparencyThreads = verifrt.Int("threads", 0, 2)

	text := func(certs ...[]byte) string {
		s := `{"chain":[`
		for i, c := range certs {
			if i > 0 {
				s += ","
			}
			s += `"` + verifrt.Base64(c) + `"`
		}
		return s + "]}"
	}
	want := []string{text(ta), text(tc, ta), text(ca, ta), text(mc, ca, ta), text(ee, ca, ta)}
	got := make([]int, len(want))
	gone := ""
	lost := []int{}
	switch verifrt.Choice("gone", 3) {
	case 1:
		gone, lost = "rsync://h/m/c/r.roa", []int{4}
	case 2:
		gone, lost = "rsync://h/m/c.cer", []int{2, 3, 4}
	}
	var mu sync.Mutex
	http.DefaultTransport = &verifenv.Transport{Serve: func(req *http.Request) (*http.Response, error) {
		if !verifrt.Symbolic() {
			mu.Lock()
			defer mu.Unlock()
		}
		verifrt.Assert(req.Method == "POST" && req.URL.String() == "https://log.example/x/ct/v1/add-chain", "a chain is sent elsewhere")
		b, err := io.ReadAll(req.Body)
		verifrt.Assert(err == nil, "the request has no body")
		if gone != "" { // while the chains are sent
			verifrt.Reach("gone")
			os.Remove(zvOPath(gone))
			gone = ""
		}
		known := false
		for i, w := range want {
			if verifrt.StrEq(string(b), w) {
				got[i]++
				known = true
			}
		}
		verifrt.Assert(known, "what is sent is not the chain of a valid certificate")
		return verifenv.Response(req, 400, &verifenv.Body{Data: "no", Total: 2}), nil
	}}
	verifrt.InterleaveDelay(verifrt.Param("preempt", 0))
	main()
	for i, n := range got {
		opt := false
		for _, l := range lost {
			opt = opt || l == i
		}
		verifrt.Assert(n == 1 || opt && n == 0, "not every chain has been sent exactly once when the program ends")
	}
	verifrt.Reach("done")
}
