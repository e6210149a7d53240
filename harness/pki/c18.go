package pki

import (
	librpki "github.com/cloudflare/cfrpki/validator/lib"
	"github.com/cloudflare/cfrpki/verifrt"
)

// VerifC18Path: where a file listed on a manifest lives, and its type.
func VerifC18Path() {
	n := verifrt.Param("n", 6)
	repo := verifrt.Str("repo", verifrt.Choice("repolen", n))
	name := verifrt.Str("name", verifrt.Choice("namelen", n+2))
	want := repo + "/" + name
	if len(repo) > 0 && repo[len(repo)-1] == '/' {
		want = repo + name
	}
	typ := []int{TYPE_MFT, TYPE_CER, TYPE_TAL, TYPE_UNKNOWN}[verifrt.Choice("parent", 4)]
	f := &PKIFile{Path: name, Parent: &PKIFile{Type: typ, Repo: repo}}
	if typ != TYPE_MFT {
		want = name
	}
	verifrt.Assert(verifrt.StrEq(f.ComputePath(), want), "a listed file is joined with the publication point by one slash")
	f.Parent = nil
	verifrt.Assert(verifrt.StrEq(f.ComputePath(), name), "a file without parent keeps its path")
	verifrt.Reach("path")
}

// VerifC18Type: the type of an object follows the extension of its name and nothing else.
func VerifC18Type() {
	name := verifrt.Str("name", verifrt.Choice("namelen", verifrt.Param("n", 9)+1))
	t := DetermineType(name)
	is := func(ext string) bool {
		return len(name) > 4 && verifrt.StrEq(name[len(name)-4:], ext)
	}
	want := TYPE_UNKNOWN
	switch {
	case is(".cer"):
		want = TYPE_CER
	case is(".roa"):
		want = TYPE_ROA
	case is(".crl"):
		want = TYPE_CRL
	case is(".mft"):
		want = TYPE_MFT
	}
	verifrt.Assert(t == want, "the type follows the extension")
	if want != TYPE_UNKNOWN {
		verifrt.Reach("typed")
	}
}

// VerifC18Listed: the files of a manifest and of a certificate.
func VerifC18Listed() {
	n := verifrt.Choice("files", 3)
	mft := &librpki.RPKIManifest{}
	bad := false
	for i := 0; i < n; i++ {
		name := verifrt.Str("name"+string(rune('0'+i)), verifrt.Choice("len"+string(rune('0'+i)), 5))
		for j := 0; j+2 < len(name); j++ {
			if name[j] == '.' && name[j+1] == '.' && (name[j+2] == '/' || name[j+2] == '\\') {
				bad = true
			}
		}
		f := librpki.File{Name: name}
		f.Hash.Bytes = verifrt.Bytes("hash"+string(rune('0'+i)), 2)
		mft.Content.FileList = append(mft.Content.FileList, f)
	}
	files, err := ExtractPathManifest(mft)
	verifrt.Assert((err != nil) == bad, "refused exactly if a name leads to a parent directory")
	if err != nil {
		verifrt.Reach("refused")
		return
	}
	verifrt.Assert(len(files) == n, "every listed file and no other")
	for i, f := range files {
		l := mft.Content.FileList[i]
		verifrt.Assert(verifrt.StrEq(f.Path, l.Name) && f.Type == DetermineType(l.Name) && verifrt.BytesEq(f.ManifestHash, l.Hash.Bytes), "name, type and hash of the listed file")
	}
	verifrt.Reach("listed")
}
