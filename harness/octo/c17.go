package main

import (
	"encoding/json"
	"time"

	"github.com/cloudflare/cfrpki/verifrt"
	"github.com/cloudflare/gortr/prefixfile"
)

// VerifC17Gate: every combination of the stability flags and the wait setting decides the status of each page.
func VerifC17Gate() {
	s := zvNewOcto()
	stable, prev := verifrt.Bool("stable"), verifrt.Bool("prev")
	s.Stable.Store(stable)
	s.HasPreviousStable.Store(prev)
	*WaitStable = verifrt.Bool("wait")
	*CacheHeader = verifrt.Bool("cache")
	*ValidityDuration = time.Hour
	s.LastComputed = zvBaseTime
	verifrt.SetNow(zvBaseTime.Unix() + 60)
	tag := ""
	if verifrt.Bool("withTag") {
		tag = "00"
	}
	ok := verifrt.Or(verifrt.Or(stable, prev), !*WaitStable)
	for _, page := range []int{0, 1, 2} {
		r := zvNewRecorder()
		want := ok
		switch page {
		case 0:
			s.ServeROAs(r, zvRequest(tag))
		case 1:
			s.ServeResources(r, zvRequest(tag))
		case 2:
			s.ServeHealth(r, zvRequest(tag))
			want = verifrt.Or(stable, prev)
		}
		if want {
			verifrt.Reach("served")
			verifrt.Assert(r.status() == 200, "page refused although a stable state was reached or waiting is off")
		} else {
			verifrt.Reach("refused")
			verifrt.Assert(r.status() == 503, "page served although no stable state was reached")
			verifrt.Assert(r.h.Get("Etag") == "", "tag issued for a refused page")
		}
		verifrt.ObserveInt("status", r.status())
	}
}

func zvSymList(name string) *prefixfile.ROAList {
	l := newROAList()
	l.Metadata.Generated = int(verifrt.Int(name+".generated", verifrt.Param("genmin", 999999990), verifrt.Param("genmax", 4294967296)))
	l.Metadata.Counts = verifrt.Int(name+".counts", 0, verifrt.Param("countmax", 999))
	l.Metadata.Valid = int(zvBaseTime.Unix()) + 3600
	if verifrt.Bool(name + ".payload") {
		l.Data = append(l.Data, prefixfile.ROAJson{Prefix: "192.0.2.0/24", ASN: "AS64500", Length: uint8(24), TA: "ta"})
	}
	return l
}

// VerifC17Tag: a tag is honoured exactly for the list it was issued for.
func VerifC17Tag() {
	verifrt.SymbolicDigits()
	s := zvNewOcto()
	s.Stable.Store(true)
	s.LastComputed = zvBaseTime
	*ValidityDuration = time.Hour
	verifrt.SetNow(zvBaseTime.Unix() + 60)
	a := zvSymList("a")
	s.setROAList(a)
	r1 := zvNewRecorder()
	s.ServeROAs(r1, zvRequest(""))
	tag := r1.h.Get("Etag")
	verifrt.Assert(r1.status() == 200 && tag != "", "the list is not served with a tag")
	zvCheckBody(r1.body, a)

	// the same list again
	r2 := zvNewRecorder()
	s.ServeROAs(r2, zvRequest(tag))
	verifrt.Assert(r2.status() == 304 && len(r2.body) == 0, "the tag of the current list is not honoured")

	// another list
	b := zvSymList("b")
	s.setROAList(b)
	r3 := zvNewRecorder()
	s.ServeROAs(r3, zvRequest(tag))
	same := verifrt.And(a.Metadata.Generated == b.Metadata.Generated, a.Metadata.Counts == b.Metadata.Counts)
	if r3.status() == 304 {
		verifrt.Reach("not modified")
		verifrt.Assert(same, "304 for a list of another generation")
		verifrt.Assert(len(r3.body) == 0, "304 with a body")
	} else {
		verifrt.Reach("modified")
		verifrt.Assert(r3.status() == 200, "unexpected status")
		verifrt.Assert(!same, "the tag is not honoured for the same generation")
		zvCheckBody(r3.body, b)
		verifrt.Assert(r3.h.Get("Etag") != tag, "two generations share a tag")
	}

	// anything else is never honoured
	other := "W/" + tag
	switch verifrt.Int("other", 0, 3) {
	case 1:
		other = tag[:len(tag)-1]
	case 2:
		other = tag + "0"
	case 3:
		other = "*0"
	}
	r4 := zvNewRecorder()
	s.ServeROAs(r4, zvRequest(other))
	verifrt.Assert(r4.status() == 200, "a tag that was never issued is honoured")
	zvCheckBody(r4.body, b)
}

func zvCheckBody(got []byte, l *prefixfile.ROAList) {
	want, err := json.Marshal(l)
	verifrt.Assert(err == nil, "the list cannot be encoded")
	verifrt.Assert(verifrt.BytesEq(got, append(want, '\n')), "the body is not the current list")
}
