package main

import (
	"encoding/json"
	"strconv"
	"strings"
	"time"

	"github.com/cloudflare/cfrpki/validator/pki"
	"github.com/cloudflare/cfrpki/verifrt"
	"github.com/cloudflare/gortr/prefixfile"
)

// c25Repo is a repository of one trust anchor with n ROAs of one prefix each.
func zvC25Repo(host string, idx, n int) {
	ip10 := verifrt.IPExt(verifrt.Seq(verifrt.Prefix([]byte{10}, 8)), nil)
	dir := "rsync://" + host + "/m/"
	var files []zvOFile
	for i := 0; i < n; i++ {
		asn := []byte{0x40, 0, 1, byte(16*idx + i)}
		if verifrt.Param("sym", 1) == 1 {
			asn = verifrt.Bytes("asn", 4)
			verifrt.Assume(asn[0] >= 0x40)
			verifrt.Assume(asn[0] < 0x80)
		}
		d := zvOROASigned(10+i, idx, idx, ip10, verifrt.ROAContent(asn, [][]byte{verifrt.ROAAddr(verifrt.TLV(3, []byte{0}, []byte{10, byte(100 + 10*idx + i)}), nil)}, nil))
		name := "r" + strconv.Itoa(i) + ".roa"
		zvOPut(dir+name, d)
		files = append(files, zvOFile{name, d})
	}
	zvOPut(dir+"ta.cer", zvOCA(idx, idx, zvOAllIP, zvOAllAS, dir, ""))
	zvOPut(dir+"m.mft", zvOMft(30+idx, idx, files))
}

func zvC25JSON(v interface{}) string {
	b, err := json.Marshal(v)
	verifrt.Assert(err == nil, "cannot be encoded")
	return string(b) + "\n"
}

func zvC25Tag(s *OctoRPKI) string {
	r := zvNewRecorder()
	s.ServeROAs(r, zvRequest(""))
	return r.h.Get("Etag")
}

// VerifC25Pages: requests while a validation run replaces the list.
func VerifC25Pages() {
	verifrt.SymbolicDigits()
	verifrt.FSVirtual()
	*Basepath = verifrt.FSRoot() + "/cache"
	*Sign = false
	*WaitStable = false
	*CacheHeader = true
	*ValidityDuration = time.Hour
	verifrt.SetNow(zvONow)
	before, after := verifrt.Param("before", 1), verifrt.Param("after", 2)
	if after < 0 {
		after = verifrt.Choice("after", 2)
	}
	zvC25Repo("a", 0, before)
	s := zvNewOcto()
	s.Tals = []*pki.PKIFile{zvOTAL(1, 0, "rsync://a/m/ta.cer"), zvOTAL(2, 2, "rsync://b/m/ta.cer")}
	s.TalNames = []string{"A", "B"}
	tas := verifrt.Param("tas", 2)
	s.Tals, s.TalNames = s.Tals[:tas], s.TalNames[:tas]
	span := &zvSpan{s.tracer.(*zvTracer)}
	s.mainValidation(span)
	oldList, oldTag, oldRes := s.getROAList(), zvC25Tag(s), zvC25JSON(s.Resources)
	zvC25Repo("a", 0, after)
	more := tas - 1
	if more > 0 {
		zvC25Repo("b", 2, 1)
	}
	const age = 600
	verifrt.SetNow(zvONow + age)
	page := verifrt.Param("page", -1)
	if page < 0 {
		page = verifrt.Choice("page", 3)
	}
	verifrt.InterleaveDelay(verifrt.Param("preempt", 1))
	done := make(chan bool)
	go func() {
		s.mainValidation(span)
		close(done)
	}()
	r := zvNewRecorder()
	r2 := zvNewRecorder()
	switch page {
	case 0:
		s.ServeROAs(r, zvRequest(""))
		s.ServeROAs(r2, zvRequest(""))
	case 1:
		s.ServeInfo(r, zvRequest(""))
	case 2:
		s.ServeResources(r, zvRequest(""))
	}
	<-done
	newList, newTag := s.getROAList(), zvC25Tag(s)
	verifrt.Assert(len(oldList.Data) == before && len(newList.Data) == after+more, "the list is not that of the repository")
	switch page {
	case 0:
		isNew := zvC25Roas(r, oldList, newList, oldTag, newTag, age)
		isNew2 := zvC25Roas(r2, oldList, newList, oldTag, newTag, age)
		verifrt.Assert(!isNew || isNew2, "the old list is served after the new one")
	case 1:
		var info InfoResult
		verifrt.Assert(json.Unmarshal(r.body, &info) == nil, "the info page is not a document")
		n := len(info.ROAsTALs)
		verifrt.Assert(n == tas && info.ROAsTALs[0].TA == "A", "the info page lacks a trust anchor")
		c := [2]int{info.ROAsTALs[0].Count, 0}
		if n > 1 {
			verifrt.Assert(info.ROAsTALs[1].TA == "B", "the info page lacks a trust anchor")
			c[1] = info.ROAsTALs[1].Count
		}
		verifrt.Assert(c == [2]int{before, 0} || c == [2]int{after, more}, "the counts on the info page are of no validation")
		switch info.LastValidation {
		case zvONow:
			verifrt.Reach("old info")
			verifrt.Assert(info.ROACount == before, "the count is not that of the validation shown")
		case zvONow + age:
			verifrt.Reach("new info")
			verifrt.Assert(info.ROACount == after+more, "the count is not that of the validation shown")
		default:
			verifrt.Assert(false, "the info page shows a time of no validation")
		}
	case 2:
		newRes := zvC25JSON(s.Resources)
		if body := string(r.body); verifrt.StrEq(body, oldRes) {
			verifrt.Reach("old resources")
		} else {
			verifrt.Reach("new resources")
			verifrt.Assert(verifrt.StrEq(body, newRes), "the resources are of no validation")
		}
	}
}

func zvC25Roas(r *zvRecorder, old, new *prefixfile.ROAList, oldTag, newTag string, age int) bool {
	body := string(r.body)
	isNew := verifrt.StrEq(body, zvC25JSON(new))
	if !isNew {
		verifrt.Assert(verifrt.StrEq(body, zvC25JSON(old)), "the list served is of no validation")
	}
	want, left := oldTag, 3600-age
	if isNew {
		verifrt.Reach("new list")
		want, left = newTag, 3600
	} else {
		verifrt.Reach("old list")
	}
	verifrt.Assert(r.h.Get("Etag") == want, "the tag is not that of the list served")
	cc := r.h.Get("Cache-Control")
	if cc == "" {
		return isNew
	}
	verifrt.Assert(strings.HasPrefix(cc, "max-age="), "unexpected cache header")
	n, err := strconv.Atoi(cc[8:])
	verifrt.Assert(err == nil && n <= left, "the list may be cached for longer than it is valid")
	return isNew
}
