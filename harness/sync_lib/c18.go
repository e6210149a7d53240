package syncpki

import (
	"strings"

	"github.com/cloudflare/cfrpki/validator/pki"
	"github.com/cloudflare/cfrpki/verifrt"
)

// c18Split cuts a text at slashes (independent of the code under test).
func zvC18Split(s string) []string {
	var out []string
	cur := ""
	for i := 0; i < len(s); i++ {
		if s[i] == '/' {
			out = append(out, cur)
			cur = ""
			continue
		}
		cur += s[i : i+1]
	}
	return append(out, cur)
}

// VerifC18Module: host and module of any text after the scheme, and of any other text.
func VerifC18Module() {
	n := verifrt.Param("n", 6)
	rsync := verifrt.Choice("scheme", 2) == 0
	s := verifrt.Str("rest", verifrt.Choice("len", n+1))
	u := "rsync://" + s
	if !rsync {
		u = []string{"", "https://", "rsync:/"}[verifrt.Choice("other", 3)] + s
		if strings.HasPrefix(u, "rsync://") {
			return
		}
	}
	mod, host, err := ExtractRsyncDomainModule(u)
	p := zvC18Split(s)
	if !rsync || len(p) < 2 || p[0] == "" || p[1] == "" {
		verifrt.Assert(err != nil, "a URI without host and module is refused")
		verifrt.Reach("refused")
		return
	}
	verifrt.Assert(err == nil, "a URI with host and module is taken")
	verifrt.Assert(verifrt.StrEq(mod, "rsync://"+p[0]+"/"+p[1]), "the first two elements")
	verifrt.Assert(verifrt.StrEq(host, "rsync://"+p[0]+"/"), "the first element")
	verifrt.Reach("module")
}

// VerifC18Local: the local path of a URI, and its folder and file parts.
func VerifC18Local() {
	n := verifrt.Param("n", 9)
	s := verifrt.Str("rest", verifrt.Choice("len", n+1))
	dir := []string{"cache/", "cache", "/c", "rsync://"}[verifrt.Choice("dir", 4)]
	want := strings.TrimSuffix(dir, "/") + "/"
	u := "rsync://" + s
	verifrt.MapOrder(true)
	m := map[string]string{"rsync://": dir}
	if verifrt.Choice("two", 2) == 1 { // a second, longer mapping
		m["rsync://h/"] = "other"
		if strings.HasPrefix(s, "h/") {
			verifrt.Assert(verifrt.StrEq(GetLocalPath(u, m), "other/"+s[2:]), "the longest mapped prefix is replaced")
			verifrt.Reach("longest")
			return
		}
	}
	if dir == "rsync://" {
		want = dir
	}
	got := GetLocalPath(u, m)
	verifrt.Assert(verifrt.StrEq(got, want+s), "only the scheme prefix is replaced")
	f, err := ExtractFilePathFromRsyncURL(u)
	verifrt.Assert(err == nil && verifrt.StrEq(f, s), "the file path is what follows the scheme")
	d, err := ExtractFoldersPathFromRsyncURL(u)
	p := zvC18Split(s)
	verifrt.Assert(err == nil && verifrt.StrEq(d, strings.Join(p[:len(p)-1], "/")), "the folders are all elements but the last")
	// a file listed on a manifest
	file := &pki.PKIFile{Path: s, Parent: &pki.PKIFile{Type: pki.TYPE_MFT, Repo: "rsync://h/m/"}}
	if m["rsync://h/"] == "" {
		verifrt.Assert(verifrt.StrEq(ReplacePath(file, m), want+"h/m/"+s), "the local path of a listed file")
	}
	verifrt.Reach("mapped")
	other := verifrt.Str("plain", verifrt.Choice("plainlen", 4))
	if strings.HasPrefix(other, "rsync://") {
		return
	}
	verifrt.Assert(verifrt.StrEq(GetLocalPath(other, m), other), "a path that is not a URI stays")
	_, err = ExtractFilePathFromRsyncURL(other)
	_, err2 := ExtractFoldersPathFromRsyncURL(other)
	verifrt.Assert(err != nil && err2 != nil, "what is not an rsync URI is refused")
}

// VerifC18Map: the mapping option.
func VerifC18Map() {
	k, v := verifrt.Str("k", verifrt.Choice("klen", 3)), verifrt.Str("v", verifrt.Choice("vlen", 3))
	for _, s := range []string{k, v} {
		for i := 0; i < len(s); i++ {
			verifrt.Assume(s[i] != ',' && s[i] != '=')
		}
	}
	m := ParseMapDirectory(k + "=" + v)
	verifrt.Assert(len(m) == 1 && verifrt.StrEq(m[k], v), "a pair is kept")
	m = ParseMapDirectory("rsync://a/=x," + k + "=" + v + ",rsync://b/=y")
	if k != "rsync://a/" && k != "rsync://b/" {
		verifrt.Assert(len(m) == 3 && verifrt.StrEq(m[k], v) && m["rsync://a/"] == "x" && m["rsync://b/"] == "y", "every pair is kept")
	}
	verifrt.Reach("parsed")
}
