package main

import (
	"strings"

	"github.com/cloudflare/cfrpki/sync/lib"
	"github.com/cloudflare/cfrpki/validator/lib"
	"github.com/cloudflare/cfrpki/verifenv"
	"github.com/cloudflare/cfrpki/verifrt"
)

// cacheSetup makes a cache directory with one file beside and one below it.
func zvCacheSetup() {
	verifrt.FSVirtual()
	*Basepath = verifrt.FSRoot() + "/cache"
	verifrt.FSPut(verifrt.FSRoot()+"/secret", []byte("s"))
	verifrt.FSPut(*Basepath+"/h/f", []byte("f"))
}

// checkConfined: outside the cache directory nothing has changed.
func zvCheckConfined() {
	dirs := 0
	for _, e := range verifrt.FSList() {
		p := e.Path
		switch {
		case p == "/v" || p == "/v/root" || p == "/v/root/cache":
			verifrt.Assert(e.Dir, "a directory above the cache was replaced")
			dirs++
		case p == "/v/root/secret":
			verifrt.Assert(!e.Dir && string(e.Data) == "s", "a file outside the cache directory was changed")
			dirs++
		default:
			verifrt.Assert(strings.HasPrefix(p, "/v/root/cache/"), "something was created outside the cache directory")
		}
	}
	verifrt.Assert(dirs >= 3, "something outside the cache directory was removed")
}

func zvCacheFiles() (n int, other []*verifrt.FSEntry) {
	for _, e := range verifrt.FSList() {
		if e.Dir || e.Path == "/v/root/secret" {
			continue
		}
		n++
		if e.Path != "/v/root/cache/h/f" || string(e.Data) != "f" {
			other = append(other, e)
		}
	}
	return
}

// wellFormed: rsync://host/path with non-empty elements, none of them . or ..
func zvWellFormed(rest string) bool {
	parts := strings.Split(rest, "/")
	if len(parts) < 2 {
		return false
	}
	for _, p := range parts {
		if p == "" || p == "." || p == ".." {
			return false
		}
		// names that merely end in two dots, other separators and NUL are left open
		if strings.HasSuffix(p, "..") || strings.Contains(p, "..\\") || strings.IndexByte(p, 0) >= 0 {
			return false
		}
	}
	return true
}

var zvC09Starts = []string{"", "rsync://", "rsync://h/", "rsync://h/../", "rsync://h/f/", "rsync://h/a/..", "rsync:///", "rsync://h/a\\..", "rsync://h/..\\", "rsyn://h/"}

// c09URI is one of a few beginnings followed by any bytes.
func zvC09URI() string {
	start := zvC09Starts[verifrt.Int("start", 0, len(zvC09Starts)-1)]
	n := verifrt.Int("len", 0, verifrt.Param("n", 4))
	return start + verifrt.Str("uri", n)
}

// VerifC09Write: any URI given to the write path.
func VerifC09Write() {
	verifrt.ExitIsBug()
	zvCacheSetup()
	s := zvNewOcto()
	uri := zvC09URI()
	withdraw := verifrt.Param("withdraw", 0) == 1
	if verifrt.Param("withdraw", 0) == 2 {
		withdraw = verifrt.Bool("withdraw")
	}
	var err error
	if withdraw {
		err = s.ReceiveRRDPFileCallback("https://h/n.xml", "https://h/s.xml", uri, []byte("new"), true, false, 1)
	} else {
		err = s.WriteRsyncFileOnDisk(uri, []byte("new"))
	}
	zvCheckConfined()
	n, other := zvCacheFiles()
	if !strings.HasPrefix(uri, "rsync://") {
		verifrt.Assert(err != nil, "a URI that is not an rsync URI is accepted")
	}
	if withdraw {
		verifrt.Assert(len(other) == 0, "a withdrawal writes a file")
		if n == 0 {
			verifrt.Reach("removed")
			verifrt.Assert(err == nil, "a withdrawal is refused but done")
		}
		if uri == "rsync://h/f" {
			verifrt.Assert(n == 0, "a withdrawn object is still there")
		}
		return
	}
	if err != nil {
		verifrt.Reach("refused")
		verifrt.Assert(len(other) == 0 && n == 1, "a refused URI changed a file")
		rest := strings.TrimPrefix(uri, "rsync://")
		// h/f is a file, h a directory
		verifrt.Assert(rest == uri || !zvWellFormed(rest) || strings.HasPrefix(rest, "h/f/"), "a well-formed URI is refused")
		return
	}
	verifrt.Reach("written")
	verifrt.Assert(len(other) == 1, "not exactly one file was written")
	e := other[0]
	verifrt.Assert(string(e.Data) == "new", "the file does not have the content given")
	rest := uri[len("rsync://"):]
	if zvWellFormed(rest) {
		verifrt.Reach("stored")
		verifrt.Assert(e.Path == "/v/root/cache/"+rest, "the file is not at cache directory, host, path")
		local := syncpki.GetLocalPath(uri, map[string]string{"rsync://": *Basepath})
		verifrt.Assert(strings.HasSuffix(local, "/v/root/cache/"+rest), "the file is read from another place")
	}
}

// VerifC09Rsync: the directory rsync is pointed at, for any URL.
func VerifC09Rsync() {
	verifrt.ExitIsBug()
	zvCacheSetup()
	s := zvNewOcto()
	*RsyncBin = verifenv.Rsync(nil)
	uri := []string{"rsync://", "rsync://h/", "rsync://h/../", "rsync://h/a/..", "rsync:///"}[verifrt.Int("start", 0, 4)] + verifrt.Str("uri", verifrt.Int("len", 0, verifrt.Param("n", 4)))
	verifrt.Assume(len(uri) > 8)
	for i := 8; i < len(uri); i++ {
		verifrt.Assume(verifrt.And(uri[i] > ' ', uri[i] < 127))
	}
	s.rsyncFetchJobManager.set(uri, "")
	s.mainRsync(s.tracer.StartSpan("x"))
	zvCheckConfined()
	rest := uri[8:]
	runs := verifenv.RsyncRuns()
	if len(runs) > 0 {
		verifrt.Reach("run")
		verifrt.Assert(len(runs) == 1 && runs[0] == uri, "rsync is run for another URL")
		verifrt.Assert(!zvHasParent(rest), "rsync is run for a URL that leaves its directory")
	} else {
		verifrt.Reach("refused")
		verifrt.Assert(!zvWellFormed(rest) || strings.HasPrefix(rest+"/", "h/f/"), "rsync is not run for a well-formed URL")
	}
}

func zvHasParent(rest string) bool {
	for _, p := range strings.Split(rest, "/") {
		if p == ".." {
			return true
		}
	}
	return false
}

// VerifC09TAL: the trust anchor certificate of a locator is stored in the cache directory or nowhere.
func VerifC09TAL() {
	verifrt.ExitIsBug()
	zvCacheSetup()
	s := zvNewOcto()
	*RRDPFailover = verifrt.Bool("failover")
	*RsyncBin = verifenv.Rsync(nil)
	f := s.HTTPFetcher
	f.Client.Transport = &verifenv.Transport{Serve: zvServeBody("new")}
	uri := zvC09URI()
	tal := &librpki.RPKITAL{URI: []string{"https://h/ta.cer"}}
	if verifrt.Bool("first") {
		tal.URI = append([]string{uri}, tal.URI...)
	} else {
		tal.URI = append(tal.URI, uri)
	}
	verifrt.Assume(!strings.HasPrefix(uri, "http"))
	s.TalsFetch["tal"] = tal
	s.mainTAL(s.tracer.StartSpan("x"))
	zvCheckConfined()
	n, other := zvCacheFiles()
	verifrt.Assert(n-len(other) == 1 || len(other) == 1 && other[0].Path == "/v/root/cache/h/f", "another file was removed")
	verifrt.Assert(len(other) <= 1, "more than one file was written")
	if len(other) == 1 {
		verifrt.Reach("written")
	} else {
		verifrt.Reach("refused")
		rest := strings.TrimPrefix(uri, "rsync://")
		verifrt.Assert(rest == uri || !zvWellFormed(rest) || strings.HasPrefix(rest, "h/f/"), "a well-formed trust anchor is not stored")
	}
	for u := range s.rsyncFetchJobManager.get() {
		verifrt.Assert(*RRDPFailover && u == uri, "another URL is scheduled for rsync")
	}
}
