package pki

import (
	"errors"
	"time"

	"github.com/cloudflare/cfrpki/verifrt"
)

// vLog is a silent logger.
type zvVLog struct{}

func (zvVLog) Debugf(string, ...interface{}) {}
func (zvVLog) Printf(string, ...interface{}) {}
func (zvVLog) Errorf(string, ...interface{}) {}
func (zvVLog) Warnf(string, ...interface{})  {}

const (
	zvFPresent = iota
	zvFMissing
	zvFError
)

// vRepo is an in-memory repository.
type zvVRepo struct {
	data   map[string][]byte
	status map[string]int
	asked  []string
}

func (r *zvVRepo) GetFile(f *PKIFile) (*SeekFile, error) {
	p := f.ComputePath()
	r.asked = append(r.asked, p)
	d, ok := r.data[p]
	switch {
	case !ok || r.status[p] == zvFMissing:
		return nil, nil
	case r.status[p] == zvFError:
		return nil, errors.New("unreadable")
	}
	return &SeekFile{File: p, Data: d, Sha256: verifrt.SHA256(d)}, nil
}

func (r *zvVRepo) GetRepository(f *PKIFile, cb CallbackExplore) error { return nil }

// c04CA is a CA with a manifest.
type zvC04CA struct {
	name   string
	parent int // index, -1 for the trust anchor
	idx    int // key identifier and key
	files  []*zvC04File
	this   string
	next   string
	thisS  int64
	nextS  int64
	valid  bool
}

// c04File is a file listed on a manifest.
type zvC04File struct {
	name string
	ca   int // index of the CA whose certificate it is, -1: a ROA
	idx  int
	data []byte
	hash []byte
}

var zvC04Windows = []struct {
	this, next   string
	thisS, nextS int64
}{
	{"20200101000000Z", "20300101000000Z", 1577836800, 1893456000},
	{"20240101000000Z", "20240101235959Z", 1704067200, 1704153599},
}

func zvC04Hash(data []byte) []byte {
	switch verifrt.Choice("hash", verifrt.Param("hashforms", 2)) {
	case 0:
		return verifrt.Bytes("listed", 32)
	case 1:
		return nil
	case 2:
		return verifrt.SHA256(data)[:31]
	default:
		return append(verifrt.SHA256(data), 0)
	}
}

// VerifC04: trust anchor with CAs A and B; A has a ROA and a CA C with a ROA; B has a ROA.
// Up to two listed files are faulty (missing, unreadable, or listed with any hash) and one manifest has another window.
func VerifC04() {
	now := int64(zvVNow)
	if verifrt.Param("time", 0) == 1 {
		now = verifrt.I64("now")
		// within the validity of the certificates
		verifrt.Assume(now >= 1577836800)
		verifrt.Assume(now <= 1893456000)
	}
	verifrt.SetNow(zvVNow)
	sm := NewSimpleManager()
	sm.Validator = NewValidator()
	sm.Log = zvVLog{}
	verifrt.SetNow(now)
	sm.Validator.Time = time.Unix(now, 0).UTC()
	sm.StrictManifests = verifrt.Param("strictmft", 1) == 1
	sm.StrictHash = verifrt.Param("stricthash", 1) == 1
	repo := &zvVRepo{data: map[string][]byte{}, status: map[string]int{}}
	sm.FileSeeker = repo

	cas := []*zvC04CA{{name: "ta", parent: -1, idx: 0}, {name: "A", parent: 0, idx: 1}, {name: "B", parent: 0, idx: 2}, {name: "C", parent: 1, idx: 3}}
	cas[0].files = []*zvC04File{{name: "A.cer", ca: 1, idx: 1}, {name: "B.cer", ca: 2, idx: 2}}
	cas[1].files = []*zvC04File{{name: "r.roa", ca: -1, idx: 11}, {name: "C.cer", ca: 3, idx: 3}}
	cas[2].files = []*zvC04File{{name: "q.roa", ca: -1, idx: 12}}
	cas[3].files = []*zvC04File{{name: "s.roa", ca: -1, idx: 13}}
	if verifrt.Choice("order", 2) == 1 {
		f := cas[1].files
		f[0], f[1] = f[1], f[0]
	}
	var all []*zvC04File
	for i, c := range cas {
		for _, f := range c.files {
			dir := "rsync://h/" + c.name + "/"
			if f.ca < 0 {
				_, f.data = zvVEncode(zvVSpec{kind: zvKROA, ski: zvVKey(f.idx), aki: zvVKey(c.idx), key: 5, signer: c.idx})
			} else {
				d := cas[f.ca].name
				_, f.data = zvVEncode(zvVSpec{kind: zvKCA, ski: zvVKey(f.idx), aki: zvVKey(c.idx), key: f.idx, signer: c.idx, sia: zvC04SIA(d)})
			}
			f.hash = verifrt.SHA256(f.data)
			repo.data[dir+f.name] = f.data
			all = append(all, f)
		}
		c.this, c.next, c.thisS, c.nextS = zvC04Windows[0].this, zvC04Windows[0].next, zvC04Windows[0].thisS, zvC04Windows[0].nextS
		_ = i
	}
	status := map[*zvC04File]int{}
	for k := 0; k < verifrt.Param("faults", 2); k++ {
		f := all[verifrt.Choice("fault.file", len(all))]
		if _, dup := status[f]; dup {
			continue
		}
		switch verifrt.Choice("fault", 3) {
		case 0:
			status[f] = zvFMissing
		case 1:
			status[f] = zvFError
		default:
			status[f] = zvFPresent
			f.hash = zvC04Hash(f.data)
		}
	}
	w := zvC04Windows[1]
	m := cas[verifrt.Choice("short", len(cas))]
	m.this, m.next, m.thisS, m.nextS = w.this, w.next, w.thisS, w.nextS
	for i, c := range cas {
		dir := "rsync://h/" + c.name + "/"
		var list []verifrt.MftFile
		for _, f := range c.files {
			list = append(list, verifrt.MftFile{Name: f.name, Hash: f.hash})
			repo.status[dir+f.name] = status[f]
		}
		_, repo.data[dir+"m.mft"] = zvVEncode(zvVSpec{kind: zvKMFT, ski: zvVKey(20 + i), aki: zvVKey(c.idx), key: 4, signer: c.idx,
			content: verifrt.Manifest([]byte{1}, c.this, c.next, list)})
	}
	repo.data["rsync://h/ta.cer"] = verifrt.Cert(verifrt.CertSpec{Serial: []byte{1}, Issuer: "ta", Subject: "ta", Key: 0, SKI: zvVKey(0), CA: true, IPs: zvVAllIP, AS: zvVAllAS, SIA: zvC04SIA("ta")})
	sm.AddInitial([]*PKIFile{{Type: TYPE_CER, Path: "rsync://h/ta.cer", Trust: true}})
	sm.Explore(false, verifrt.Param("addinvalid", 0) == 1)

	used := func(f *zvC04File) bool {
		return verifrt.And(status[f] == zvFPresent, verifrt.Or(!sm.StrictHash, verifrt.BytesEq(f.hash, verifrt.SHA256(f.data))))
	}
	v := sm.Validator
	for i, c := range cas {
		ok := true
		if i > 0 {
			p := cas[c.parent]
			ok = p.valid
			for _, f := range p.files {
				if f.ca == i {
					ok = verifrt.And(ok, used(f))
				}
			}
		}
		for _, f := range c.files {
			if sm.StrictManifests {
				ok = verifrt.And(ok, used(f))
			}
			if sm.StrictHash && status[f] == zvFPresent {
				ok = verifrt.And(ok, verifrt.And(c.thisS <= now, now <= c.nextS))
			}
		}
		c.valid = ok
		verifrt.Assert(zvVValid(v, zvVKey(c.idx)) == ok, "a CA is valid exactly when its own manifest and those above hold")
		verifrt.Assert(zvVListed(v, zvKMFT, zvVKey(20+i)) == ok, "a manifest is valid exactly when its CA is")
		for _, f := range c.files {
			if f.ca < 0 {
				verifrt.Assert(zvVListed(v, zvKROA, zvVKey(f.idx)) == verifrt.And(ok, used(f)), "a ROA is valid exactly when it is used and its CA is valid")
				if zvVListed(v, zvKROA, zvVKey(f.idx)) {
					verifrt.Reach("roa-valid")
				} else {
					verifrt.Reach("roa-dropped")
				}
			}
		}
	}
	verifrt.Assert(len(sm.ToExplore) == 0, "exploration ends with nothing left")
}

func zvC04SIA(dir string) []verifrt.SIAItem {
	return []verifrt.SIAItem{{Method: verifrt.OidCARepo, URI: []byte("rsync://h/" + dir + "/")}, {Method: verifrt.OidSIAMft, URI: []byte("rsync://h/" + dir + "/m.mft")}}
}
