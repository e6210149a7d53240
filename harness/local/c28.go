package main

import (
	"encoding/json"
	"os"
	"strconv"
	"time"

	"github.com/cloudflare/cfrpki/verifrt"
)

func zvOBase() string { return verifrt.FSRoot() + "/cache" }

func zvLUnix(date string) int64 {
	t, err := time.Parse("20060102150405Z", date)
	if err != nil {
		panic(err)
	}
	return t.Unix()
}

type zvLWindow struct{ from, to string }

func (w zvLWindow) holds(t int64) bool {
	return verifrt.And(zvLUnix(w.from) <= t, t <= zvLUnix(w.to))
}

// VerifC28Local: the list the offline validator writes, for any validation time.
func VerifC28Local() {
	verifrt.SymbolicDigits()
	verifrt.FSVirtual()
	const wall = 1900000000
	verifrt.SetNow(wall)
	// the windows overlap in every way
	ca := zvLWindow{"20210101000000Z", "20270101000000Z"}
	mft := zvLWindow{"20220101000000Z", "20250101000000Z"}
	mftCert := zvLWindow{"20211231235959Z", "20260101000000Z"}
	roa := zvLWindow{"20230101000000Z", "20240601000000Z"}
	anchor := zvLWindow{"20190101000000Z", "20390101000000Z"}

	t := int64(wall)
	kind := verifrt.Choice("time", 4)
	if kind != 3 {
		verifrt.ExitIsBug()
	}
	switch kind {
	case 0:
		t = verifrt.I64("at")
		verifrt.Assume(t >= 1500000000)
		verifrt.Assume(t < 2300000000)
		*ValidTime = strconv.FormatInt(t, 10)
	case 1:
		*ValidTime = "now"
	case 2:
		var dates = []string{"2022-12-31T23:59:59Z", "2023-01-01T00:00:00Z", "2024-06-01T00:00:00Z", "2024-06-01T01:00:01+01:00", "2024-12-01T00:00:00-05:00"}
		*ValidTime = dates[verifrt.Choice("date", len(dates))]
		d, err := time.Parse(time.RFC3339, *ValidTime)
		if err != nil {
			panic(err)
		}
		t = d.Unix()
	case 3: // no time at all: the program stops, it does not write a list
		verifrt.Reach("no time")
		*ValidTime = []string{"", "yesterday", "2024-06-01"}[verifrt.Choice("text", 3)]
	}
	*UseManifest = verifrt.Bool("manifests")
	*StrictHash = verifrt.Bool("hash")
	*StrictManifests = verifrt.Bool("strict")
	*StrictCms = false
	dir := "rsync://h/m/c/"
	if verifrt.Bool("bare") {
		dir = "rsync://h/m/c"
	}

	asn := verifrt.Bytes("asn", 4)
	verifrt.Assume(asn[0] >= 0x40)
	verifrt.Assume(asn[0] < 0x80)
	as := "AS" + strconv.FormatUint(uint64(asn[0])<<24|uint64(asn[1])<<16|uint64(asn[2])<<8|uint64(asn[3]), 10)
	ip10 := verifrt.IPExt(verifrt.Seq(verifrt.Prefix([]byte{10}, 8)), nil)
	ee := verifrt.Cert(verifrt.CertSpec{Serial: []byte{9}, Issuer: "i", Subject: "roa", Key: 5, SKI: zvOKey(13), AKI: zvOKey(1), IPs: ip10, Signer: 1, NotBefore: roa.from, NotAfter: roa.to})
	addr := verifrt.ROAAddr(verifrt.TLV(3, []byte{0}, []byte{10, 1}), []byte{24})
	signed := verifrt.CMS(verifrt.CMSSpec{ContentType: verifrt.OidROA, Content: verifrt.ROAContent(asn, [][]byte{addr}, nil), Cert: ee, SKI: zvOKey(13), Signer: 5})
	ca1 := verifrt.Cert(verifrt.CertSpec{Serial: []byte{2}, Issuer: "i", Subject: "s", Key: 1, SKI: zvOKey(1), AKI: zvOKey(0), CA: true, IPs: ip10, AS: zvOInheritAS, SIA: []verifrt.SIAItem{{Method: verifrt.OidCARepo, URI: []byte(dir)}, {Method: verifrt.OidSIAMft, URI: []byte("rsync://h/m/c/m.mft")}}, Signer: 0, NotBefore: ca.from, NotAfter: ca.to})
	ta := verifrt.Cert(verifrt.CertSpec{Serial: []byte{1}, Issuer: "i", Subject: "s", Key: 0, SKI: zvOKey(0), CA: true, IPs: zvOAllIP, AS: zvOAllAS, SIA: zvOSIA("rsync://h/m/", ""), Signer: 0, NotBefore: anchor.from, NotAfter: anchor.to})
	mc := verifrt.Cert(verifrt.CertSpec{Serial: []byte{12}, Issuer: "i", Subject: "mft", Key: 4, SKI: zvOKey(12), AKI: zvOKey(1), IPs: zvOInheritIP, AS: zvOInheritAS, Signer: 1, NotBefore: mftCert.from, NotAfter: mftCert.to})
	list := verifrt.CMS(verifrt.CMSSpec{ContentType: verifrt.OidMft, Content: verifrt.Manifest([]byte{1}, mft.from, mft.to, []verifrt.MftFile{{Name: "r.roa", Hash: verifrt.SHA256(signed)}}), Cert: mc, SKI: zvOKey(12), Signer: 4})
	tc := verifrt.Cert(verifrt.CertSpec{Serial: []byte{10}, Issuer: "i", Subject: "mft", Key: 4, SKI: zvOKey(10), AKI: zvOKey(0), IPs: zvOInheritIP, AS: zvOInheritAS, Signer: 0, NotBefore: anchor.from, NotAfter: anchor.to})
	top := verifrt.CMS(verifrt.CMSSpec{ContentType: verifrt.OidMft, Content: verifrt.Manifest([]byte{1}, anchor.from, anchor.to, []verifrt.MftFile{{Name: "c.cer", Hash: verifrt.SHA256(ca1)}}), Cert: tc, SKI: zvOKey(10), Signer: 4})

	zvOPut("rsync://h/m/ta.cer", ta)
	zvOPut("rsync://h/m/m.mft", top)
	zvOPut("rsync://h/m/c.cer", ca1)
	zvOPut("rsync://h/m/c/m.mft", list)
	zvOPut("rsync://h/m/c/r.roa", signed)
	*MapDir = "rsync://h/=" + zvOBase() + "/h/,rsync://h/other/=/nowhere/"
	first := zvOTAL(1, 0, "rsync://h/m/ta.cer").Path
	*RootTAL = first
	copies := 1
	revoked := false
	switch verifrt.Choice("locators", 4) {
	case 1: // another one, whose anchor is not there
		*RootTAL = zvOTAL(2, 2, "rsync://h/m/gone.cer").Path + "," + first
	case 2: // a file that is missing
		*RootTAL = first + "," + verifrt.FSRoot() + "/missing.tal"
	case 3: // the ROA is revoked by a list that is in the directory, but not on the manifest
		zvOPut("rsync://h/m/c/a.crl", verifrt.CRL(verifrt.CRLSpec{Issuer: "i", AKI: zvOKey(1), Revoked: []verifrt.RevokedItem{{Serial: []byte{9}}}, Signer: 1}))
		revoked = !*UseManifest
	}
	*Output = verifrt.FSRoot() + "/output.json"

	main()

	verifrt.Assert(kind != 3, "a list is written for a time that is none")
	want := verifrt.And(anchor.holds(t), verifrt.And(ca.holds(t), roa.holds(t)))
	if *UseManifest {
		want = verifrt.And(want, mftCert.holds(t))
		if *StrictHash {
			want = verifrt.And(want, mft.holds(t))
		}
	}
	want = verifrt.And(want, !revoked)
	out, err := os.ReadFile(*Output)
	verifrt.Assert(err == nil, "no list is written")
	exp := `{"roas":[]}` + "\n"
	if want {
		verifrt.Reach("listed")
		b, err := json.Marshal(OutputROAs{[]OutputROA{{as, "10.1.0.0/16", 24, "rsync://h/m/c/r.roa"}}})
		verifrt.Assert(err == nil && copies == 1, "cannot be encoded")
		exp = string(b) + "\n"
	} else {
		verifrt.Reach("not listed")
	}
	verifrt.Assert(verifrt.StrEq(string(out), exp), "the list is not that of the ROAs valid at the time asked for")
}
