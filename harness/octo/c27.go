package main

import (
	"crypto/x509"
	"errors"
	"fmt"
	"io"
	"net/http"
	"sync"

	librpki "github.com/cloudflare/cfrpki/validator/lib"
	"github.com/cloudflare/cfrpki/validator/pki"
	"github.com/cloudflare/cfrpki/verifenv"
	"github.com/cloudflare/cfrpki/verifrt"
)

// VerifC27Chains: n valid certificates below a trust anchor, each issued by any earlier one; the chains to be submitted.
func VerifC27Chains() {
	n := verifrt.Param("n", 4)
	s := zvNewOcto()
	sm := pki.NewSimpleManager()
	sm.Validator = pki.NewValidator()
	parent := make([]int, n)
	files := make([]*pki.PKIFile, n)
	for i := 0; i < n; i++ {
		files[i] = &pki.PKIFile{Path: fmt.Sprintf("rsync://h/m/%d.cer", i), Type: pki.TYPE_CER}
		parent[i] = -1
		var aki []byte
		if i > 0 {
			parent[i] = verifrt.Int("parent", 0, i-1)
			aki = zvOKey(0)
			aki[0] += byte(parent[i])
		} else {
			switch verifrt.Choice("anchor", 3) {
			case 1:
				aki = zvOKey(0)
			case 2:
				aki = zvOKey(n) // of nobody
			}
		}
		c := &librpki.RPKICertificate{Certificate: &x509.Certificate{SubjectKeyId: zvOKey(i), AuthorityKeyId: aki}}
		sm.Validator.ValidObjects[string(zvOKey(i))] = &pki.Resource{Type: pki.TYPE_CER, Resource: c, File: files[i]}
	}
	chains := s.ct([]*pki.SimpleManager{nil, sm}, 1)
	verifrt.Assert(len(chains) == n, "not one chain for each certificate")
	seen := make([]bool, n)
	for _, c := range chains {
		verifrt.Assert(len(c) > 0, "an empty chain")
		leaf := -1
		for i, f := range files {
			if c[0] == f {
				leaf = i
			}
		}
		verifrt.Assert(leaf >= 0 && !seen[leaf], "two chains for one certificate")
		seen[leaf] = true
		k := 0
		for i := leaf; i >= 0; i = parent[i] {
			verifrt.Assert(k < len(c) && c[k] == files[i], "the chain does not follow the issuers")
			k++
		}
		verifrt.Assert(k == len(c), "the chain does not end with the trust anchor")
		if k > 2 {
			verifrt.Reach("long chain")
		}
	}
	verifrt.Reach("done")
}

// VerifC27Send: a round of submissions: each chain whose objects can be read is posted once, with the bytes in the cache.
func VerifC27Send() {
	verifrt.ExitIsBug()
	verifrt.FSVirtual()
	*Basepath = verifrt.FSRoot() + "/cache"
	s := zvNewOcto()
	s.CTPath = "https://log.example/x"
	ip10 := verifrt.IPExt(verifrt.Seq(verifrt.Prefix([]byte{10}, 8)), nil)
	ee := verifrt.Cert(verifrt.CertSpec{Serial: []byte{9}, Issuer: "i", Subject: "roa", Key: 5, SKI: zvOKey(9), AKI: zvOKey(0), IPs: ip10, Signer: 0})
	asn := verifrt.Bytes("asn", 2)
	verifrt.Assume(asn[0] > 0)
	verifrt.Assume(asn[0] < 0x80)
	roa := verifrt.CMS(verifrt.CMSSpec{ContentType: verifrt.OidROA, Content: verifrt.ROAContent(asn, [][]byte{verifrt.ROAAddr(verifrt.TLV(3, []byte{0}, []byte{10, 1}), nil)}, nil), Cert: ee, SKI: zvOKey(9), Signer: 5})
	ta := verifrt.TLV(4, verifrt.Bytes("ta", 3)) // sent as it is
	zvOPut("rsync://h/m/r.roa", roa)
	zvOPut("rsync://h/m/ta.cer", ta)
	zvOPut("rsync://h/m/bad.roa", []byte{0x30, 0})
	leaf := &pki.PKIFile{Path: "rsync://h/m/r.roa", Type: pki.TYPE_ROA}
	anchor := &pki.PKIFile{Path: "rsync://h/m/ta.cer", Type: pki.TYPE_CER}
	goodLeaf, goodTA := `{"chain":["`+verifrt.Base64(ee)+`","`+verifrt.Base64(ta)+"\"]}\n", `{"chain":["`+verifrt.Base64(ta)+"\"]}\n"
	var data [][]*pki.PKIFile
	wantLeaf, wantTA := 0, 0
	for i := 0; i < verifrt.Param("chains", 2); i++ {
		switch verifrt.Choice("chain", 6) {
		case 0:
			data = append(data, []*pki.PKIFile{leaf, anchor})
			wantLeaf++
		case 1:
			data = append(data, []*pki.PKIFile{anchor})
			wantTA++
		case 2: // gone
			data = append(data, []*pki.PKIFile{{Path: "rsync://h/m/gone.cer", Type: pki.TYPE_CER}, anchor})
		case 3:
			data = append(data, []*pki.PKIFile{{Path: "rsync://h/m/gone.roa", Type: pki.TYPE_ROA}, anchor})
		case 4: // not what it was
			data = append(data, []*pki.PKIFile{{Path: "rsync://h/m/bad.roa", Type: pki.TYPE_MFT}, anchor})
		case 5: // the issuer is gone
			data = append(data, []*pki.PKIFile{leaf, {Path: "rsync://h/m/gone.cer", Type: pki.TYPE_CER}})
		}
	}
	answer := verifrt.Choice("answer", 4)
	var mu sync.Mutex // not for the schedules explored, where the harness runs undisturbed
	gotLeaf, gotTA, open := 0, 0, []*verifenv.Body{}
	http.DefaultTransport = &verifenv.Transport{Serve: func(req *http.Request) (*http.Response, error) {
		if !verifrt.Symbolic() {
			mu.Lock()
			defer mu.Unlock()
		}
		verifrt.Assert(req.Method == "POST" && req.URL.String() == "https://log.example/x/ct/v1/add-chain", "a chain is sent elsewhere")
		b, err := io.ReadAll(req.Body)
		verifrt.Assert(err == nil, "the request has no body")
		if verifrt.StrEq(string(b), goodLeaf) {
			gotLeaf++
		} else {
			verifrt.Assert(verifrt.StrEq(string(b), goodTA), "what is sent is not a chain of the certificates in the cache")
			gotTA++
		}
		if answer == 1 {
			return nil, errors.New("refused")
		}
		body := &verifenv.Body{Data: "{}", Total: 2}
		if answer == 2 {
			body.Err = io.ErrUnexpectedEOF
		}
		open = append(open, body)
		if answer == 3 {
			return verifenv.Response(req, 500, body), nil
		}
		return verifenv.Response(req, 200, body), nil
	}}
	verifrt.InterleaveDelay(verifrt.Param("preempt", 1))
	s.SendCertificateTransparency(&zvSpan{s.tracer.(*zvTracer)}, data, verifrt.Int("threads", 1, 2), 5)
	verifrt.Assert(verifrt.Settle() == 0, "a sender outlives the round")
	verifrt.Assert(gotLeaf == wantLeaf && gotTA == wantTA, "not every complete chain is sent exactly once")
	for _, b := range open {
		verifrt.Assert(b.Done, "an answer is left open")
	}
	if wantLeaf > 0 {
		verifrt.Reach("sent")
	}
	if wantLeaf+wantTA < len(data) {
		verifrt.Reach("left out")
	}
}
