package main

import (
	"errors"
	"io"
	"net/http"

	"github.com/cloudflare/cfrpki/validator/lib"
	"github.com/cloudflare/cfrpki/verifenv"
	"github.com/cloudflare/cfrpki/verifrt"
)

// VerifC20TAL: the trust anchor certificate is that of the first complete download with status 200, in the order of the locator.
func VerifC20TAL() {
	verifrt.ExitIsBug()
	zvCacheSetup()
	s := zvNewOcto()
	*RRDPFailover = verifrt.Bool("failover")
	const rsync = "rsync://h/m/ta.cer"
	uris := []string{"https://a.example/ta.cer", "http://b.example/ta.cer"}
	pos := verifrt.Int("rsyncAt", 0, 3) // 3: none
	tal := &librpki.RPKITAL{}
	for i := 0; i <= len(uris); i++ {
		if pos == i {
			tal.URI = append(tal.URI, rsync)
		}
		if i < len(uris) {
			tal.URI = append(tal.URI, uris[i])
		}
	}
	good := make([]bool, 2)
	kinds := make([]int, 2)
	status := make([]int, 2)
	for i := range uris {
		kinds[i] = verifrt.Int("kind", 0, 3)
		status[i] = verifrt.Int("status", 100, 999)
		verifrt.Assume(verifrt.Or(status[i] < 300, status[i] > 399))
		good[i] = kinds[i] == 0 && status[i] == 200
	}
	asked := 0
	s.HTTPFetcher.Client.Transport = &verifenv.Transport{Serve: func(req *http.Request) (*http.Response, error) {
		for i, u := range uris {
			if req.URL.String() != u {
				continue
			}
			asked++
			verifrt.Assert(req.Method == "GET", "not a GET")
			b := &verifenv.Body{Data: "cert" + string(rune('0'+i)), Total: 5}
			switch kinds[i] {
			case 1:
				return nil, errors.New("no route")
			case 2:
				b.Err = errors.New("connection reset")
			case 3:
				b.Err = io.ErrUnexpectedEOF
			}
			return verifenv.Response(req, status[i], b), nil
		}
		return nil, errors.New("unknown host")
	}}
	s.TalsFetch["tal"] = tal
	s.mainTAL(s.tracer.StartSpan("x"))
	zvCheckConfined()
	data, err := zvReadCached(rsync)
	switch {
	case pos == 3:
		verifrt.Assert(err != nil, "a file was stored without a place to store it")
	case good[0] || good[1]:
		verifrt.Reach("stored")
		want := "cert0"
		if !good[0] {
			want = "cert1"
		}
		verifrt.Assert(err == nil && string(data) == want, "the trust anchor of the first good download is not stored")
	default:
		verifrt.Reach("failed")
		verifrt.Assert(err != nil, "the data of a failed download is stored")
	}
	_, job := s.rsyncFetchJobManager.get()[rsync]
	verifrt.Assert(job == (pos != 3 && *RRDPFailover && !good[0] && !good[1]), "rsync failover of a trust anchor")
	verifrt.Assert(asked >= 1, "nothing was downloaded")
}

// VerifC22URI: any URI in an RRDP document, and what follows is still processed.
func VerifC22URI() {
	verifrt.ExitIsBug()
	zvCacheSetup()
	*MaxConcurrentRetrievals = 1
	*RRDPFile = ""
	s := zvNewOcto()
	s.setRRDPDomain("https://h/n.xml", "rsync://h/")
	s.setRRDPFetch("https://h/n.xml", "rsync://h/m")
	uri := zvC09Starts[verifrt.Int("start", 0, len(zvC09Starts)-1)] + verifrt.Str("uri", verifrt.Int("len", 0, verifrt.Param("n", 3)))
	for i := 0; i < len(uri); i++ {
		c := uri[i]
		verifrt.Assume(verifrt.And(verifrt.And(c > ' ', c < 127), verifrt.And(verifrt.And(c != '<', c != '"'), c != '&')))
	}
	where := verifrt.Int("where", 0, 3)
	snapURI, item := "https://h/s.xml", "rsync://h/m/x"
	withdraw := ""
	switch where {
	case 0:
		snapURI = uri
	case 1:
		item = uri
	case 2:
		withdraw = `<withdraw uri="` + uri + `" hash="00"/>`
	}
	if where == 3 {
		s.setRRDPDomain(uri, "rsync://h/")
		s.setRRDPFetch(uri, "rsync://h/m2")
	}
	s.HTTPFetcher.Client.Transport = &verifenv.Transport{Serve: func(req *http.Request) (*http.Response, error) {
		doc := ""
		switch req.URL.String() {
		case "https://h/n.xml":
			doc = `<notification xmlns="http://www.ripe.net/rpki/rrdp" version="1" session_id="A" serial="1"><snapshot uri="` + snapURI + `" hash="00"/></notification>`
		case "https://h/s.xml":
			doc = `<snapshot xmlns="http://www.ripe.net/rpki/rrdp" version="1" session_id="A" serial="1"><publish uri="` + item + `">MQ==</publish><publish uri="rsync://h/m/last">MQ==</publish>` + withdraw + `</snapshot>`
		default:
			return nil, errors.New("no such document")
		}
		return verifenv.Response(req, 200, &verifenv.Body{Data: doc, Total: int64(len(doc))}), nil
	}}
	s.doRRDP(s.tracer.StartSpan("x"))
	zvCheckConfined()
	_, err := zvReadCached("rsync://h/m/last")
	if where >= 2 {
		verifrt.Assert(err == nil, "a hostile URI keeps other objects from being stored")
	}
	if err == nil {
		verifrt.Reach("continued")
	} else {
		verifrt.Reach("given up")
	}
}
