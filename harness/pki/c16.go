package pki

import (
	"github.com/cloudflare/cfrpki/verifrt"
)

// c16Repo counts what exploration asks for and looks the content up by path.
type zvC16Repo struct {
	paths   []string // known paths
	data    [][]byte
	asked   []string // paths requested, in order
	listed  []string // repositories requested, in order
	limit   int
	members func(repo string) []int
}

func (r *zvC16Repo) find(p string) int {
	for i := range r.paths {
		if r.paths[i] == p {
			return i
		}
	}
	return -1
}

func (r *zvC16Repo) GetFile(f *PKIFile) (*SeekFile, error) {
	p := f.ComputePath()
	r.asked = append(r.asked, p)
	verifrt.Assert(len(r.asked) <= r.limit, "no more requests than there are names: exploration ends")
	i := r.find(p)
	if i < 0 {
		return nil, nil
	}
	return &SeekFile{File: p, Data: r.data[i], Sha256: verifrt.SHA256(r.data[i])}, nil
}

func (r *zvC16Repo) GetRepository(f *PKIFile, cb CallbackExplore) error {
	r.listed = append(r.listed, f.Repo)
	verifrt.Assert(len(r.listed) <= r.limit, "no more repositories than there are names: exploration ends")
	if r.members == nil {
		return nil
	}
	for _, i := range r.members(f.Repo) {
		p := r.paths[i]
		cb(&PKIFile{Parent: f, Type: DetermineType(p), Repo: f.Repo, Path: p}, &SeekFile{File: f.Path, Data: r.data[i], Sha256: verifrt.SHA256(r.data[i])}, false)
	}
	return nil
}

// c16Obj is one object of the graph and what it names.
type zvC16Obj struct {
	path  string
	kind  int
	ski   []byte
	names []string // paths it names
}

func zvC16Join(repo, name string) string {
	if repo[len(repo)-1] == '/' {
		return repo + name
	}
	return repo + "/" + name
}

// VerifC16: a trust anchor and two CAs, each naming one of the manifests (its own or another's) in one of the
// publication points; every manifest lists files with names of any character, repeats and cycles included.
func VerifC16() {
	slash := []string{"/", ""}[verifrt.Choice("slash", verifrt.Param("slash", 1))]
	repos := []string{"rsync://h/r" + slash, "rsync://h/s/"}
	nlist := verifrt.Param("names", 2)
	addInvalid := verifrt.Param("addinvalid", 0) == 1
	bad := verifrt.Choice("bad", 1+verifrt.Param("bad", 4)) // 0: nothing, 1..4: a.cer, b.cer, a.mft, b.mft wrongly signed

	mftPath := []string{"rsync://h/r/t.mft", "rsync://h/r/a.mft", "rsync://h/r/b.mft"}
	cerPath := []string{"rsync://h/ta.cer", "rsync://h/r/a.cer", "rsync://h/r/b.cer"}
	rp := &zvC16Repo{limit: 1000}
	var objs []*zvC16Obj
	initial := []*PKIFile{{Type: TYPE_CER, Path: cerPath[0], Trust: true}}
	// the certificates, and the publication point under which each manifest is first seen
	type sia struct{ repo, mft int }
	sias := make([]sia, 3)
	for i := range cerPath {
		sias[i] = sia{0, i}
		if i > 0 {
			sias[i].mft = []int{i, 0, 3 - i}[verifrt.Choice("mft", verifrt.Param("mfts", 3))]
			sias[i].repo = verifrt.Choice("repo", verifrt.Param("repos", 2))
		}
		s := []verifrt.SIAItem{{Method: verifrt.OidCARepo, URI: []byte(repos[sias[i].repo])}, {Method: verifrt.OidSIAMft, URI: []byte(mftPath[sias[i].mft])}}
		o := &zvC16Obj{path: cerPath[i], kind: zvKCA, ski: zvVKey(i), names: []string{mftPath[sias[i].mft]}}
		var data []byte
		if i == 0 {
			data = verifrt.Cert(verifrt.CertSpec{Serial: []byte{1}, Issuer: "ta", Subject: "ta", Key: 0, SKI: zvVKey(0), CA: true, IPs: zvVAllIP, AS: zvVAllAS, SIA: s})
		} else {
			crl := []string(nil)
			if verifrt.Choice("crl", verifrt.Param("crls", 2)) == 1 {
				crl = []string{"rsync://h/r/x.crl"}
				o.names = append(o.names, crl[0])
			}
			_, data = zvVEncode(zvVSpec{kind: zvKCA, ski: zvVKey(i), aki: zvVKey(0), key: i, signer: 0, sia: s, crldp: crl, flip: bad == i})
		}
		objs = append(objs, o)
		rp.paths, rp.data = append(rp.paths, o.path), append(rp.data, data)
	}
	// the manifests
	lists := make([][]string, 3)
	for i := range mftPath {
		var files []verifrt.MftFile
		n := nlist
		if i == 0 {
			n = 2
		}
		for k := 0; k < n; k++ {
			var name string
			if i == 0 {
				name = []string{"a.cer", "b.cer"}[k]
				if k == 0 {
					name = verifrt.Str("t0", 1) + ".cer"
				}
			} else {
				if verifrt.Choice("listed", 2) == 0 {
					break
				}
				name = verifrt.Str("f", 1) + []string{".cer", ".roa"}[verifrt.Choice("ext", 2)]
			}
			verifrt.Assume(name[0] < 0x80)
			verifrt.Assume(name[0] != '/')
			lists[i] = append(lists[i], name)
			files = append(files, verifrt.MftFile{Name: name, Hash: nil})
		}
		_, data := zvVEncode(zvVSpec{kind: zvKMFT, ski: zvVKey(20 + i), aki: zvVKey(i), key: 4, signer: i, content: zvVMftContent(files), flip: i > 0 && bad == i+2})
		o := &zvC16Obj{path: mftPath[i], kind: zvKMFT, ski: zvVKey(20 + i)}
		objs = append(objs, o)
		rp.paths, rp.data = append(rp.paths, o.path), append(rp.data, data)
	}

	sm := NewSimpleManager()
	sm.Validator = zvVValidator()
	sm.Log = zvVLog{}
	sm.FileSeeker = rp
	sm.StrictManifests = false // a missing file makes its CA not valid only later (C04)
	sm.StrictHash = false      // hashes cannot be right in a cycle (C04)
	rp.limit = 3 + 2 + 3*(nlist+2)
	sm.AddInitial(initial)
	if verifrt.Choice("again", verifrt.Param("again", 1)) == 1 {
		sm.AddInitial([]*PKIFile{{Type: TYPE_CER, Path: cerPath[0], Trust: true}})
	}
	count := sm.Explore(false, addInvalid)

	v := sm.Validator
	// a manifest is read below the publication point of the first certificate that named it
	follow := map[string]bool{} // concrete object paths whose names are followed
	firstRepo := map[int]string{}
	for _, p := range rp.asked {
		for i, o := range objs {
			if o.path != p {
				continue
			}
			ok := zvVListed(v, o.kind, o.ski)
			if !ok && !addInvalid {
				continue
			}
			follow[o.path] = true
			if i < 3 {
				if _, dup := firstRepo[sias[i].mft]; !dup {
					firstRepo[sias[i].mft] = repos[sias[i].repo]
				}
			}
		}
	}
	for i := range mftPath {
		o := objs[3+i]
		o.names = nil
		for _, n := range lists[i] {
			if r, ok := firstRepo[i]; ok {
				o.names = append(o.names, zvC16Join(r, n))
			}
		}
	}
	times := func(p string) int {
		n := 0
		for _, a := range rp.asked {
			if a == p {
				n++
			}
		}
		return n
	}
	named := []string{cerPath[0]}
	for _, o := range objs {
		if follow[o.path] {
			named = append(named, o.names...)
		}
	}
	for _, p := range named {
		verifrt.Assert(times(p) == 1, "a file named by a followed object is requested exactly once")
	}
	for _, a := range rp.asked {
		ok := false
		for _, p := range named {
			if p == a {
				ok = true
			}
		}
		verifrt.Assert(ok, "only files named by a followed object are requested")
	}
	verifrt.Assert(count == len(rp.asked) && !sm.HasMore(), "exploration counts each file and leaves none")
	// nothing that is good and whose names are all good is left out
	if bad == 0 {
		verifrt.Assert(zvVValid(v, zvVKey(0)) && zvVListed(v, zvKMFT, zvVKey(20)) && zvVValid(v, zvVKey(2)), "the well-signed objects are found and valid")
	}
	if times("rsync://h/r/a.cer") == 1 {
		verifrt.Reach("a")
	}
	if len(rp.asked) > 6 {
		verifrt.Reach("many")
	}
	verifrt.Reach("end")
	// a second exploration finds nothing to do
	n := len(rp.asked)
	sm.AddInitial(initial)
	verifrt.Assert(sm.Explore(false, addInvalid) == 0 && len(rp.asked) == n, "files explored before are not explored again")
}

// VerifC16Repo: the same without manifests: each publication point is listed once.
func VerifC16Repo() {
	slash := []string{"/", ""}[verifrt.Choice("slash", 2)]
	repos := []string{"rsync://h/r" + slash, "rsync://h/s" + slash, "rsync://h/t" + slash}
	n := verifrt.Param("cas", 3)
	bad := verifrt.Choice("bad", n)
	rp := &zvC16Repo{limit: 10}
	where := make([]int, n) // the publication point each certificate names
	home := make([]int, n)  // the publication point it lies in, -1 for the trust anchor
	for i := 0; i < n; i++ {
		where[i] = verifrt.Choice("where", len(repos))
		if i > 0 {
			home[i] = verifrt.Choice("home", len(repos))
		} else {
			home[i] = -1
		}
		s := []verifrt.SIAItem{{Method: verifrt.OidCARepo, URI: []byte(repos[where[i]])}, {Method: verifrt.OidSIAMft, URI: []byte("rsync://h/m" + string(rune('0'+i)) + ".mft")}}
		var data []byte
		p := "rsync://h/ta.cer"
		if i == 0 {
			data = verifrt.Cert(verifrt.CertSpec{Serial: []byte{1}, Issuer: "ta", Subject: "ta", Key: 0, SKI: zvVKey(0), CA: true, IPs: zvVAllIP, AS: zvVAllAS, SIA: s})
		} else {
			p = repos[home[i]] + string(rune('a'+i)) + ".cer"
			_, data = zvVEncode(zvVSpec{kind: zvKCA, ski: zvVKey(i), aki: zvVKey(0), key: i, signer: 0, sia: s, flip: bad == i})
		}
		rp.paths, rp.data = append(rp.paths, p), append(rp.data, data)
	}
	rp.members = func(repo string) []int {
		var l []int
		for i := 1; i < n; i++ {
			if repos[home[i]] == repo {
				l = append(l, i)
			}
		}
		return l
	}
	sm := NewSimpleManager()
	sm.Validator = zvVValidator()
	sm.Log = zvVLog{}
	sm.FileSeeker = rp
	sm.StrictManifests = false // a missing file makes its CA not valid only later (C04)
	sm.StrictHash = false      // hashes cannot be right in a cycle (C04)
	sm.AddInitial([]*PKIFile{{Type: TYPE_CER, Path: rp.paths[0], Trust: true}})
	sm.Explore(true, false)

	// expected: from the trust anchor on, the points named by good certificates found so far
	seen := make([]bool, len(repos))
	seen[where[0]] = true
	for round := 0; round < n; round++ {
		for i := 1; i < n; i++ {
			if seen[home[i]] && (bad == 0 || bad != i) {
				seen[where[i]] = true
			}
		}
	}
	for r := range repos {
		t := 0
		for _, l := range rp.listed {
			if l == repos[r] {
				t++
			}
		}
		want := 0
		if seen[r] {
			want = 1
		}
		verifrt.Assert(t == want, "a publication point is listed once if a followed certificate names it")
	}
	for i := 1; i < n; i++ {
		verifrt.Assert(zvVValid(sm.Validator, zvVKey(i)) == (seen[home[i]] && bad != i), "the certificates of the listed publication points are valid")
	}
	verifrt.Assert(len(rp.asked) == 1 && !sm.HasMore(), "only the trust anchor is read as a file")
	if len(rp.listed) == 3 {
		verifrt.Reach("three")
	}
	verifrt.Reach("repo")
}
