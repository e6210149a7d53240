package main

import (
	"errors"
	"net/http"
	"strings"

	"github.com/cloudflare/cfrpki/validator/pki"
	"github.com/cloudflare/cfrpki/verifenv"
	"github.com/cloudflare/cfrpki/verifrt"
)

// VerifC10Callback: an object published or withdrawn over a source bound to rsync://h/.
func VerifC10Callback() {
	verifrt.ExitIsBug()
	zvCacheSetup()
	verifrt.FSPut(*Basepath+"/g/f", []byte("g"))
	s := zvNewOcto()
	starts := []string{"", "rsync://", "rsync://h", "rsync://h/", "rsync://g/rsync://h/", "rsync://g/", "rsync://h/../g/", "rsync://h/..", " rsync://h/", "rsync://h/./"}
	uri := starts[verifrt.Int("start", 0, len(starts)-1)] + verifrt.Str("uri", verifrt.Int("len", 0, verifrt.Param("n", 3)))
	withdraw := verifrt.Bool("withdraw")
	snapshot := verifrt.Bool("snapshot")
	err := s.ReceiveRRDPFileCallback("https://h/n.xml", "https://h/s.xml", uri, []byte("new"), withdraw, snapshot, 1, "rsync://h/")
	zvCheckConfined()
	changed := []string{}
	hf, gf := false, false
	for _, e := range verifrt.FSList() {
		switch {
		case e.Dir:
		case e.Path == "/v/root/secret":
		case e.Path == "/v/root/cache/h/f":
			hf = true
			if string(e.Data) != "f" {
				changed = append(changed, e.Path)
			}
		case e.Path == "/v/root/cache/g/f":
			gf = string(e.Data) == "g"
		default:
			changed = append(changed, e.Path)
		}
	}
	verifrt.Assert(gf, "a file of another host was changed")
	if !hf {
		changed = append(changed, "/v/root/cache/h/f")
	}
	if len(changed) == 0 {
		verifrt.Reach("ignored")
	}
	for _, p := range changed {
		verifrt.Reach("changed")
		verifrt.Assert(strings.HasPrefix(p, "/v/root/cache/h/"), "a path of another host was changed")
		verifrt.Assert(strings.HasPrefix(uri, "rsync://h/"), "an object outside the bound host is stored")
	}
	verifrt.Assert(len(changed) <= 1, "more than one file was changed")
	if strings.HasPrefix(uri, "rsync://h/") {
		rest := uri[len("rsync://"):]
		if zvWellFormed(rest) && !strings.HasPrefix(rest, "h/f/") {
			verifrt.Assert(err == nil, "an object of the bound host is refused")
			if !withdraw {
				verifrt.Assert(len(changed) == 1 && changed[0] == "/v/root/cache/"+rest, "an object of the bound host is not stored")
			}
		}
	} else {
		verifrt.Assert(err == nil, "an object that is to be ignored fails the synchronisation")
	}
}

var zvC10Hosts = []string{"h", "g", "h.g"}

type zvClaim struct {
	host, notify string
	module       string
}

// VerifC10Bind: a trust anchor and certificates found in two rounds name RRDP sources and rsync hosts.
func VerifC10Bind() {
	verifrt.ExitIsBug()
	verifrt.FSVirtual()
	*Basepath = verifrt.FSRoot() + "/cache"
	*Sign = false
	*MaxConcurrentRetrievals = 1
	*RRDPFile = ""
	verifrt.SetNow(zvONow)
	k := verifrt.Param("k", 2)
	var claims []zvClaim
	var certs []zvOFile
	for i := 1; i <= k; i++ {
		c := zvClaim{host: zvC10Hosts[verifrt.Int("host", 0, len(zvC10Hosts)-1)]}
		c.notify = []string{"", "https://n/1.xml", "https://n/2.xml"}[verifrt.Int("notify", 0, 2)]
		c.module = "rsync://" + c.host + "/m" + string(rune('0'+i))
		claims = append(claims, c)
		certs = append(certs, zvOFile{"c" + string(rune('0'+i)) + ".cer", zvOCA(i, 0, zvOAllIP, zvOAllAS, c.module+"/", c.notify)})
	}
	zvOPut("rsync://t/m/ta.cer", zvOCA(0, 0, zvOAllIP, zvOAllAS, "rsync://t/m/", ""))
	for _, f := range certs {
		zvOPut("rsync://t/m/"+f.name, f.data)
	}
	s := zvNewOcto()
	s.Tals = []*pki.PKIFile{zvOTAL(1, 0, "rsync://t/m/ta.cer")}
	s.TalNames = []string{"T"}

	bound := map[string]string{} // by the specification
	jobs := map[string]bool{"rsync://t/m": true}
	// the first round sees the first few, the second all in either order
	r1 := verifrt.Int("first", 0, k)
	for round := 0; round < 2; round++ {
		l := certs[:r1]
		cl := claims[:r1]
		if round == 1 {
			l, cl = certs, claims
			if k == 2 && verifrt.Bool("swap") {
				l, cl = []zvOFile{certs[1], certs[0]}, []zvClaim{claims[1], claims[0]}
			}
		}
		zvOPut("rsync://t/m/m.mft", zvOMft(10+round, 0, l))
		s.mainValidation(&zvSpan{s.tracer.(*zvTracer)})
		for _, c := range cl {
			if c.notify != "" {
				h, ok := bound[c.notify]
				if ok && h != c.host {
					verifrt.Reach("conflict")
					continue
				}
				bound[c.notify] = c.host
			}
			jobs[c.module] = true
		}
		for _, u := range []string{"https://n/1.xml", "https://n/2.xml"} {
			h, ok := bound[u]
			d, got := s.getRRDPDomain(u)
			verifrt.Assert(got == ok, "a source is bound without or not bound in spite of a certificate naming it")
			m, sched := s.getRRDPFetch()[u]
			verifrt.Assert(sched == ok, "a source is fetched without or not fetched in spite of a certificate naming it")
			if ok {
				verifrt.Assert(d == "rsync://"+h+"/", "a source is bound to another host than the first that claimed it")
				verifrt.Assert(strings.HasPrefix(m, "rsync://"+h+"/"), "a source is fetched for another host than the one it is bound to")
			}
		}
		pend := s.rsyncFetchJobManager.get()
		for _, c := range claims {
			_, ok := pend[c.module]
			verifrt.Assert(ok == jobs[c.module], "rsync is scheduled for a certificate that names the source of another host, or not for a good one")
		}
	}

	// what the sources publish
	foreign := []string{"rsync://h/m1/x", "rsync://g/m1/x", "rsync://h.g/m1/x", "rsync://t/m/ta.cer", "rsync://g/rsync://h/y"}
	s.HTTPFetcher.Client.Transport = &verifenv.Transport{Serve: func(req *http.Request) (*http.Response, error) {
		u := req.URL.String()
		doc := ""
		switch {
		case u == "https://n/1.xml" || u == "https://n/2.xml":
			doc = `<notification xmlns="http://www.ripe.net/rpki/rrdp" version="1" session_id="A" serial="1"><snapshot uri="` + u + `.s" hash="00"/></notification>`
		case strings.HasSuffix(u, ".s"):
			doc = `<snapshot xmlns="http://www.ripe.net/rpki/rrdp" version="1" session_id="A" serial="1">`
			for _, f := range foreign {
				doc += `<publish uri="` + f + `">` + []string{"MQ==", "Mg=="}[u[10]-'1'] + `</publish>`
			}
			doc += `</snapshot>`
		default:
			return nil, errors.New("no such document")
		}
		return verifenv.Response(req, 200, &verifenv.Body{Data: doc, Total: int64(len(doc))}), nil
	}}
	before := map[string]string{}
	for _, e := range verifrt.FSList() {
		if !e.Dir {
			before[e.Path] = string(e.Data)
		}
	}
	s.doRRDP(s.tracer.StartSpan("x"))
	hosts := map[string][]string{}
	for u, h := range bound {
		hosts[h] = append(hosts[h], []string{"1", "2"}[u[10]-'1'])
	}
	for _, e := range verifrt.FSList() {
		if e.Dir || before[e.Path] == string(e.Data) {
			continue
		}
		verifrt.Reach("published")
		h := strings.Split(strings.TrimPrefix(e.Path, "/v/root/cache/"), "/")[0]
		ok := false
		for _, v := range hosts[h] {
			ok = ok || v == string(e.Data)
		}
		verifrt.Assert(ok, "a source published under a host it is not bound to")
	}
	for h := range hosts {
		_, err := zvReadCached("rsync://" + h + "/m1/x")
		verifrt.Assert(err == nil, "an object published under the bound host is not stored")
	}
}
