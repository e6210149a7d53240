package syncpki

import (
	"strings"

	"github.com/cloudflare/cfrpki/verifrt"
)

// c21URI is an rsync URI of lo..hi elements of one unconstrained octet each (no slash), with or without a trailing slash.
func zvC21URI(name string, lo, hi int) string {
	n := lo + verifrt.Choice(name+"n", hi-lo+1)
	u := "rsync:/"
	for i := 0; i < n; i++ {
		e := verifrt.Bytes(name+string(rune('a'+i)), 1)
		verifrt.Assume(e[0] != '/')
		u += "/" + string(e)
	}
	if verifrt.Choice(name+"slash", 2) == 1 {
		u += "/"
	}
	return u
}

// below: u is r or lies below r at an element boundary.
func zvC21Below(u, r string) bool {
	return u == r || strings.HasPrefix(u, strings.TrimSuffix(r, "/")+"/")
}

// VerifC21 reduces k URIs in every iteration order of the maps.
func VerifC21() {
	k := verifrt.Choice("k", verifrt.Param("k", 2)) + 1
	verifrt.MapOrder(verifrt.Param("order", 0) == 1)
	m := make(map[string]SubMap)
	var uris []string
	for i := 0; i < k; i++ {
		u := zvC21URI("u"+string(rune('0'+i)), 2, verifrt.Param("elems", 4))
		uris = append(uris, u)
		AddInMap(u, m)
	}
	roots := ReduceMap(m)
	for _, u := range uris {
		covered := false
		for _, r := range roots {
			if zvC21Below(u, r) {
				covered = true
			}
		}
		verifrt.Assert(covered, "every URI is covered by a root")
	}
	for _, r := range roots {
		found := false
		for _, u := range uris {
			if zvC21Below(u, r) {
				found = true
			}
		}
		verifrt.Assert(found, "every root is a prefix of a URI")
		rest := strings.TrimPrefix(r, "rsync://")
		verifrt.Assert(len(rest) >= 3 && rest != r && strings.IndexByte(rest, '/') == 1 && rest[2] != '/', "no root is just a host")
	}
	for i := range roots {
		for j := 0; j < i; j++ {
			verifrt.Assert(roots[i] != roots[j], "no root twice")
		}
	}
	verifrt.Reach("reduced")
}

// VerifC21Other: what is not an rsync URI is not downloaded.
func VerifC21Other() {
	m := make(map[string]SubMap)
	s := verifrt.Str("text", verifrt.Choice("len", 12))
	verifrt.Assume(!strings.HasPrefix(s, "rsync://"))
	AddInMap(s, m)
	verifrt.Assert(len(ReduceMap(m)) == 0, "no root for what is not an rsync URI")
	verifrt.Reach("other")
}
