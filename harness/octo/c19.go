package main

import (
	"errors"
	"net/http"
	"sort"
	"sync"

	"github.com/cloudflare/cfrpki/verifenv"
	"github.com/cloudflare/cfrpki/verifrt"
)

type zvSource struct {
	rrdp, rsync string
	kind        int // 0 good; 1 no answer, 2 refused, 3 broken, 4 too large; 5..8 the same for the snapshot only
	asked       int
}

const zvC19Snap = `<snapshot xmlns="http://www.ripe.net/rpki/rrdp" version="1" session_id="A" serial="1"></snapshot>`

// serveSources answers for the sources and counts the notifications asked for.
func zvServeSources(s *OctoRPKI, l []*zvSource, mark func(d int)) {
	s.HTTPFetcher.Client.Transport = &verifenv.Transport{Serve: func(req *http.Request) (*http.Response, error) {
		u := req.URL.String()
		mark(1)
		defer mark(-1)
		for _, c := range l {
			doc, kind := zvC19Snap, c.kind
			if kind > 4 {
				kind -= 4
			}
			if u == c.rrdp {
				c.asked++
				if c.kind > 4 {
					kind = 0
				}
				doc = `<notification xmlns="http://www.ripe.net/rpki/rrdp" version="1" session_id="A" serial="1"><snapshot uri="` + u + `.s" hash="00"/></notification>`
			} else if u != c.rrdp+".s" {
				continue
			}
			status := 200
			b := &verifenv.Body{Data: doc, Total: int64(len(doc))}
			switch kind {
			case 1:
				return nil, errors.New("no route")
			case 2:
				status = 503
			case 3:
				b.Data, b.Total = "broken", 6
			case 4:
				b.Total = 1000000001
			}
			return verifenv.Response(req, status, b), nil
		}
		return nil, errors.New("unknown host")
	}}
}

func zvC19Setup(k int) (*OctoRPKI, []*zvSource) {
	verifrt.ExitIsBug()
	verifrt.FSVirtual()
	*Basepath = verifrt.FSRoot() + "/cache"
	*RRDPFile = ""
	s := zvNewOcto()
	var l []*zvSource
	for i := 1; i <= k; i++ {
		d := string(rune('0' + i))
		c := &zvSource{rrdp: "https://h" + d + "/n.xml", rsync: "rsync://h" + d + "/m"}
		l = append(l, c)
		s.setRRDPDomain(c.rrdp, "rsync://h"+d+"/")
		s.setRRDPFetch(c.rrdp, c.rsync)
		s.rsyncFetchJobManager.set(c.rsync, c.rrdp)
	}
	return s, l
}

func zvSameSet(a, b []string) bool {
	sort.Strings(a)
	sort.Strings(b)
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// VerifC19Pool: a round of RRDP and of rsync under every schedule.
func VerifC19Pool() {
	k := verifrt.Int("jobs", 0, verifrt.Param("jobs", 2))
	*MaxConcurrentRetrievals = uint(verifrt.Int("workers", 1, verifrt.Param("workers", 2)))
	s, l := zvC19Setup(k)
	for _, c := range l {
		if verifrt.Bool("fails") {
			c.kind = 1
		}
	}
	*RRDPFailover = true
	busy := 0
	var mu sync.Mutex // not for the schedules explored, where the harness runs undisturbed
	zvServeSources(s, l, func(d int) {
		if !verifrt.Symbolic() {
			mu.Lock()
			defer mu.Unlock()
		}
		busy += d
	})
	var results []verifenv.RsyncResult
	for _, c := range l {
		results = append(results, verifenv.RsyncResult{URI: c.rsync, Out: "a.cer\n", Code: 0})
	}
	*RsyncBin = verifenv.Rsync(results)
	sp := s.tracer.StartSpan("x")
	part := verifrt.Param("part", 3)
	verifrt.Interleave(verifrt.Param("preempt", 1))
	if part&1 != 0 {
		s.mainRRDP(sp)
		verifrt.Assert(busy == 0, "the round ends while a fetch is under way")
		for _, c := range l {
			verifrt.Assert(c.asked == 1, "a source is not fetched exactly once")
		}
		verifrt.Assert(verifrt.Settle() == 0, "a worker outlives the round")
		for _, c := range l {
			_, done := s.getRRDPInfo()[c.rsync]
			verifrt.Assert(done == (c.kind == 0), "the state of a source is not recorded exactly when it was fetched")
		}
	}
	var want []string
	for _, c := range l {
		if part&1 == 0 || c.kind != 0 {
			want = append(want, c.rsync)
		}
	}
	if part&2 != 0 {
		s.mainRsync(sp)
		verifrt.Assert(zvSameSet(verifenv.RsyncRuns(), want), "rsync is not run exactly once for each repository left")
		verifrt.Assert(verifrt.Settle() == 0, "a worker outlives the round")
	}
	verifrt.Reach("done")
}

// VerifC19Failover: which repositories are left for rsync after RRDP, and what is remembered of the others.
func VerifC19Failover() {
	k := verifrt.Param("jobs", 2)
	s, l := zvC19Setup(k)
	*MaxConcurrentRetrievals = 1
	*RRDPFailover = verifrt.Bool("failover")
	for _, c := range l {
		c.kind = verifrt.Int("kind", 0, verifrt.Param("kinds", 8))
	}
	*RRDPFile = verifrt.FSRoot() + "/rrdp.json"
	switch verifrt.Int("file", 0, 2) {
	case 1:
		verifrt.FSPut(*RRDPFile, []byte(`{"rsync://h1/m":{"Rsync":"rsync://h1/m","Path":"https://h1/n.xml","SessionID":"A","Serial":7}}`))
	case 2:
		verifrt.FSPut(*RRDPFile, []byte(`{"rsync://h1/m":{"Rsync":"rsync://h1/`))
	}
	zvServeSources(s, l, func(int) {})
	s.doRRDP(s.tracer.StartSpan("x"))
	pend := s.rsyncFetchJobManager.get()
	for _, c := range l {
		_, left := pend[c.rsync]
		verifrt.Assert(left == (c.kind != 0 && c.kind != 4 && c.kind != 8 && *RRDPFailover), "failover to rsync")
		if left {
			verifrt.Reach("left")
		} else {
			verifrt.Reach("not left")
		}
	}
}

// VerifC08State: what is remembered of each source after a round, here and by the next process.
func VerifC08State() {
	k := verifrt.Param("jobs", 2)
	s, l := zvC19Setup(k)
	*MaxConcurrentRetrievals = 1
	*RRDPFailover = true
	for _, c := range l {
		c.kind = verifrt.Int("kind", 0, verifrt.Param("kinds", 8))
	}
	*RRDPFile = verifrt.FSRoot() + "/rrdp.json"
	old := RRDPInfo{RsyncURL: "rsync://h1/m", Path: "https://h1/n.xml", SessionID: "A", Serial: 7}
	if verifrt.Bool("otherSession") {
		old.SessionID = "B"
	}
	file := verifrt.Int("file", 0, 3)
	switch file {
	case 1:
		verifrt.FSPut(*RRDPFile, []byte(`{"rsync://h1/m":{"rsync":"rsync://h1/m","path":"https://h1/n.xml","sessionid":"`+old.SessionID+`","serial":7}}`))
	case 2:
		verifrt.FSPut(*RRDPFile, []byte(`{"rsync://h1/m":{"rsync":"rsync://h1/`))
	case 3:
		s.RRDPInfo[old.RsyncURL] = old
		if err := s.saveRRDPInfo(*RRDPFile); err != nil {
			panic(err)
		}
		s.RRDPInfo = map[string]RRDPInfo{}
	}
	zvServeSources(s, l, func(int) {})
	s.doRRDP(s.tracer.StartSpan("x"))
	next := zvNewOcto()
	err := next.LoadRRDPInfo(*RRDPFile)
	verifrt.Assert(err == nil, "the saved state cannot be loaded")
	for _, o := range []*OctoRPKI{s, next} {
		info := o.getRRDPInfo()
		for i, c := range l {
			got, ok := info[c.rsync]
			switch {
			case c.kind == 0:
				verifrt.Reach("advanced")
				verifrt.Assert(ok && got == RRDPInfo{RsyncURL: c.rsync, Path: c.rrdp, SessionID: "A", Serial: 1}, "the state of a synchronised source is not remembered")
			case i == 0 && (file == 1 || file == 3):
				verifrt.Reach("kept")
				verifrt.Assert(ok && got.SessionID == old.SessionID && got.Serial == 7, "the state of a source advanced or was lost although it was not synchronised")
			default:
				verifrt.Assert(!ok, "a state is remembered for a source that was never synchronised")
			}
		}
	}
}
