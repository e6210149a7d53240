package main

import (
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"net"
	"time"

	"github.com/cloudflare/cfrpki/api/schemas"
	librpki "github.com/cloudflare/cfrpki/validator/lib"
	"github.com/cloudflare/cfrpki/validator/pki"
	"github.com/cloudflare/cfrpki/verifrt"
)

// c26Obj is an entry the list of resources should have.
type zvC26Obj struct {
	kind, path, ta string
	data           []byte
	ski, aki       []byte
	serial         int
	files          []string
	asn            int
	sia            []string
}

func zvC26Hash(b []byte) string { return hex.EncodeToString(verifrt.SHA256(b)) }

func zvC26Check(got []*schemas.OutputRes, want []zvC26Obj) {
	verifrt.Assert(len(got) == len(want), "the resources are not as many as the valid objects")
	for _, x := range want {
		n := 0
		for _, r := range got {
			if r.Path != x.path || r.Type != x.kind {
				continue
			}
			n++
			verifrt.Assert(r.TA == x.ta, "a resource of another trust anchor")
			verifrt.Assert(verifrt.StrEq(r.Hash, zvC26Hash(x.data)), "the hash is not that of the object")
			verifrt.Assert(r.SubjectKeyId == hex.EncodeToString(x.ski) && r.AuthorityKeyId == hex.EncodeToString(x.aki), "wrong key identifiers")
			verifrt.Assert(r.Serial == fmt.Sprint(x.serial), "wrong serial number")
			verifrt.Assert(r.ValidFrom < r.ValidTo && r.ValidFrom > 1000000000, "wrong validity")
			verifrt.Assert(len(r.FileList) == len(x.files), "wrong list of files")
			for i, f := range x.files {
				verifrt.Assert(r.FileList[i] == f, "wrong list of files")
			}
			verifrt.Assert(len(r.SIAs) == len(x.sia), "wrong access locations")
			for i, f := range x.sia {
				verifrt.Assert(r.SIAs[i] == f, "wrong access locations")
			}
			if x.kind == "roa" {
				verifrt.Assert(int(r.ASN) == x.asn, "wrong AS number")
				verifrt.Assert(len(r.ROAs) == 1 && r.ROAs[0].MaxLength == 16, "wrong prefixes of a ROA")
			}
			if x.kind == "manifest" {
				verifrt.Assert(r.ManifestNumber == "1" && r.ThisUpdate == 1577836800 && r.NextUpdate == 1893456000, "wrong manifest")
			}
		}
		verifrt.Assert(n == 1, "a valid object is not listed exactly once")
		verifrt.Reach(x.kind)
	}
}

func zvC26SIA(dir, notify string) []string {
	l := []string{dir, dir + "m.mft"}
	if notify != "" {
		l = append(l, notify)
	}
	return l
}

// VerifC26Pipeline: from the cache to /resources.json and the info page.
func VerifC26Pipeline() {
	verifrt.SymbolicDigits()
	verifrt.FSVirtual()
	*Basepath = verifrt.FSRoot() + "/cache"
	*Sign = false
	*WaitStable = false
	verifrt.SetNow(zvONow)
	fault := verifrt.Choice("fault", 7)
	ip10 := verifrt.IPExt(verifrt.Seq(verifrt.Prefix([]byte{10}, 8)), nil)
	roa := func(name string, idx, ca int) ([]byte, int) {
		asn := verifrt.Bytes(name+".asn", 4)
		verifrt.Assume(asn[0] >= 0x40)
		verifrt.Assume(asn[0] < 0x80)
		var a int64
		for _, b := range asn {
			a <<= 8
			a |= int64(b)
		}
		a <<= 32
		a >>= 32
		return zvOROASigned(idx, ca, ca, ip10, verifrt.ROAContent(asn, [][]byte{verifrt.ROAAddr(verifrt.TLV(3, []byte{0}, []byte{10, byte(100 + idx)}), nil)}, nil)), int(a)
	}
	const note = "https://h/notify.xml"
	childNote := ""
	if verifrt.Bool("rrdp") {
		childNote = note
	}
	childDir := "rsync://a/m/c/"
	if verifrt.Bool("own") {
		childDir = "rsync://c/m/"
	}
	// the first trust anchor and its child
	r0, asn0 := roa("r0", 11, 0)
	r1, asn1 := roa("r1", 13, 1)
	c := zvOCA(1, 0, ip10, zvOInheritAS, childDir, childNote)
	if fault == 1 { // an expired child
		c = verifrt.Cert(verifrt.CertSpec{Serial: []byte{2}, Issuer: "i", Subject: "s", Key: 1, SKI: zvOKey(1), AKI: zvOKey(0), CA: true, IPs: ip10, AS: zvOInheritAS, SIA: zvOSIA(childDir, childNote), NotAfter: "20231231000000Z"})
	}
	ta := zvOCA(0, 0, zvOAllIP, zvOAllAS, "rsync://a/m/", note)
	mft0 := zvOMft(10, 0, []zvOFile{{"r.roa", r0}, {"c.cer", c}})
	mft1 := zvOMft(12, 1, []zvOFile{{"r.roa", r1}})
	if fault == 6 {
		mft1 = zvOMftWindow(12, 1, []zvOFile{{"r.roa", r1}}, "20200101000000Z", "20231231000000Z")
	}
	if fault != 2 {
		zvOPut("rsync://a/m/ta.cer", ta)
	}
	zvOPut("rsync://a/m/m.mft", mft0)
	zvOPut("rsync://a/m/r.roa", r0)
	zvOPut("rsync://a/m/c.cer", c)
	if fault != 3 {
		zvOPut(childDir+"m.mft", mft1)
	}
	if fault == 4 {
		zvOPut(childDir+"r.roa", r0)
	} else if fault != 5 {
		zvOPut(childDir+"r.roa", r1)
	}
	// the second
	tb := zvOCA(2, 2, zvOAllIP, zvOAllAS, "rsync://b/m/", "")
	mftb := zvOMft(14, 2, nil)
	zvOPut("rsync://b/m/ta.cer", tb)
	zvOPut("rsync://b/m/m.mft", mftb)

	s := zvNewOcto()
	s.Tals = []*pki.PKIFile{zvOTAL(1, 0, "rsync://a/m/ta.cer"), zvOTAL(2, 2, "rsync://b/m/ta.cer")}
	s.TalNames = []string{"A", "B"}
	verifrt.MapOrder(verifrt.Param("order", 0) == 1)
	s.mainValidation(&zvSpan{s.tracer.(*zvTracer)})
	verifrt.MapOrder(false)

	want := []zvC26Obj{
		{kind: "certificate", path: "rsync://b/m/ta.cer", ta: "B", data: tb, ski: zvOKey(2), serial: 3, sia: zvC26SIA("rsync://b/m/", "")},
		{kind: "manifest", path: "rsync://b/m/m.mft", ta: "B", data: mftb, ski: zvOKey(14), aki: zvOKey(2), serial: 14},
	}
	if fault != 2 {
		want = append(want,
			zvC26Obj{kind: "certificate", path: "rsync://a/m/ta.cer", ta: "A", data: ta, ski: zvOKey(0), serial: 1, sia: zvC26SIA("rsync://a/m/", note)},
			zvC26Obj{kind: "manifest", path: "rsync://a/m/m.mft", ta: "A", data: mft0, ski: zvOKey(10), aki: zvOKey(0), serial: 10, files: []string{"r.roa", "c.cer"}},
			zvC26Obj{kind: "roa", path: "rsync://a/m/r.roa", ta: "A", data: r0, ski: zvOKey(11), aki: zvOKey(0), serial: 11, asn: asn0})
		if fault == 0 || fault == 3 {
			want = append(want, zvC26Obj{kind: "certificate", path: "rsync://a/m/c.cer", ta: "A", data: c, ski: zvOKey(1), aki: zvOKey(0), serial: 2, sia: zvC26SIA(childDir, childNote)})
			if fault == 0 {
				want = append(want,
					zvC26Obj{kind: "manifest", path: childDir + "m.mft", ta: "A", data: mft1, ski: zvOKey(12), aki: zvOKey(1), serial: 12, files: []string{"r.roa"}},
					zvC26Obj{kind: "roa", path: childDir + "r.roa", ta: "A", data: r1, ski: zvOKey(13), aki: zvOKey(1), serial: 13, asn: asn1})
			}
		}
	}
	res := s.Resources
	verifrt.Assert(res != nil && res.Metadata.Generated == zvONow, "wrong time in the metadata")
	zvC26Check(res.Resources, want)

	// the pages
	r := zvNewRecorder()
	s.ServeResources(r, zvRequest(""))
	exp, err := json.Marshal(res)
	verifrt.Assert(err == nil && verifrt.BytesEq(r.body, append(exp, '\n')), "/resources.json is not the list of resources")
	i := zvNewRecorder()
	s.ServeInfo(i, zvRequest(""))
	var info InfoResult
	verifrt.Assert(json.Unmarshal(i.body, &info) == nil, "the info page is not a document")
	roas := 0
	for _, x := range want {
		if x.kind == "roa" {
			roas++
		}
	}
	verifrt.Assert(info.ROACount == roas, "wrong count of ROAs on the info page")
	verifrt.Assert(len(info.ROAsTALs) == 2 && info.ROAsTALs[0] == (ROAsTAL{"A", roas}) && info.ROAsTALs[1] == (ROAsTAL{"B", 0}), "wrong counts on the info page")
	verifrt.Assert(len(info.TAs) == 2 && info.TAs[0].TA == "A" && info.TAs[1].TA == "B", "wrong trust anchors on the info page")
	repos := map[string][]string{}
	if fault != 2 {
		repos["rsync://a/m"] = []string{note}
		if fault == 0 || fault == 3 {
			if childDir == "rsync://c/m/" {
				repos["rsync://c/m"] = []string{childNote}
				if childNote != "" { // two directories claim the notification file
					repos["rsync://c/m"] = nil
					repos["rsync://a/m"] = nil
				}
			} else {
				repos["rsync://a/m"] = append(repos["rsync://a/m"], childNote)
			}
		}
	}
	total := 0
	for m, notes := range repos {
		if notes == nil {
			continue
		}
		total++
		n := 0
		for _, x := range info.TAs[0].Sia {
			if x.Rsync == m {
				n++
				ok := false
				for _, y := range notes {
					ok = ok || x.RRDP == y
				}
				verifrt.Assert(ok, "wrong RRDP address on the info page")
			}
		}
		verifrt.Assert(n == 1, "a repository is not on the info page exactly once")
	}
	if len(repos) == total {
		verifrt.Assert(len(info.TAs[0].Sia) == total, "too many repositories on the info page")
	}
	verifrt.Assert(len(info.TAs[1].Sia) == 1 && info.TAs[1].Sia[0] == SIA{"rsync://b/m", ""}, "wrong repository of the second trust anchor on the info page")
}

// VerifC26Fields: how the resources of a certificate and the entries of a ROA are written.
func VerifC26Fields() {
	verifrt.SymbolicDigits()
	verifrt.FSVirtual()
	*Basepath = verifrt.FSRoot() + "/cache"
	*Sign = false
	verifrt.SetNow(zvONow)
	s := zvNewOcto()
	s.Tals = []*pki.PKIFile{{Path: "one.tal"}}
	sm := pki.NewSimpleManager()
	sm.Validator = pki.NewValidator()
	x := &x509.Certificate{SubjectKeyId: zvOKey(1), AuthorityKeyId: zvOKey(0), SerialNumber: big.NewInt(7), Subject: pkix.Name{CommonName: "name"},
		NotBefore: time.Unix(1600000000, 0), NotAfter: time.Unix(1800000000, 0)}
	cer := &librpki.RPKICertificate{Certificate: x}
	as1, as2 := int(verifrt.U32("as1")), int(verifrt.U32("as2"))
	o := verifrt.U8("octet")
	verifrt.Assume(o >= 100)
	ip := net.IP{10, o, 0, 0}
	nas, nip := verifrt.Choice("nas", 3), verifrt.Choice("nip", 3)
	for i := 0; i < 2; i++ {
		switch (nas + i) % 3 {
		case 0:
			cer.ASNums = append(cer.ASNums, &librpki.ASN{ASN: as1})
		case 1:
			cer.ASNums = append(cer.ASNums, &librpki.ASNRange{Min: as1, Max: as2})
		case 2:
			cer.ASNums = append(cer.ASNums, &librpki.ASNull{})
		}
		switch (nip + i) % 3 {
		case 0:
			cer.IPAddresses = append(cer.IPAddresses, &librpki.IPNet{IPNet: &net.IPNet{IP: ip, Mask: net.CIDRMask(16, 32)}})
		case 1:
			cer.IPAddresses = append(cer.IPAddresses, &librpki.IPAddressRange{Min: ip, Max: net.IP{10, 255, 1, 2}})
		case 2:
			cer.IPAddresses = append(cer.IPAddresses, &librpki.IPAddressNull{Family: 2})
		}
	}
	// each of the objects: its file there, gone or unknown
	files := map[string][]byte{}
	put := func(name string, typ int) *pki.PKIFile {
		f := &pki.PKIFile{Path: "rsync://h/m/" + name, Type: typ}
		switch verifrt.Choice(name, 3) {
		case 0:
			data := verifrt.Bytes(name+".data", 3)
			zvOPut(f.Path, data)
			files[f.Path] = data
		case 1:
			files[f.Path] = nil
		case 2:
			return nil
		}
		return f
	}
	file := put("x.cer", pki.TYPE_CER)
	sm.Validator.ValidObjects[string(zvOKey(1))] = &pki.Resource{Type: pki.TYPE_CER, Resource: cer, File: file}
	roa := &librpki.RPKIROA{ASN: as2, SigningTime: time.Unix(1650000000, 0), Certificate: &librpki.RPKICertificate{Certificate: x}}
	max := verifrt.Int("max", 16, 32)
	roa.Valids = []*librpki.ROAEntry{{IPNet: &net.IPNet{IP: ip, Mask: net.CIDRMask(16, 32)}, MaxLength: max}}
	roa.Entries = append(roa.Valids, &librpki.ROAEntry{IPNet: &net.IPNet{IP: net.IP{192, 0, 2, 0}, Mask: net.CIDRMask(24, 32)}, MaxLength: 24})
	sm.Validator.ValidROA[string(zvOKey(2))] = &pki.Resource{Type: pki.TYPE_ROA, Resource: roa, File: put("x.roa", pki.TYPE_ROA)}
	sm.Validator.ValidROA[string(zvOKey(4))] = &pki.Resource{Type: pki.TYPE_ROA, Resource: roa, File: put("y.roa", pki.TYPE_ROA)}
	mft := &librpki.RPKIManifest{Certificate: &librpki.RPKICertificate{Certificate: x}}
	mft.Content.ManifestNumber = big.NewInt(9)
	mft.Content.ThisUpdate, mft.Content.NextUpdate = time.Unix(1660000000, 0), time.Unix(1670000000, 0)
	sm.Validator.ValidManifest[string(zvOKey(3))] = &pki.Resource{Type: pki.TYPE_MFT, Resource: mft, File: put("x.mft", pki.TYPE_MFT)}
	verifrt.MapOrder(true)

	s.generateROAList([]*pki.SimpleManager{sm}, &zvSpan{s.tracer.(*zvTracer)})
	l := s.Resources.Resources
	verifrt.MapOrder(false)
	verifrt.Assert(len(l) == 4, "the resources are not as many as the valid objects")
	unknown := 4 - len(files)
	seen := map[string]bool{}
	for _, r := range l {
		data, ok := files[r.Path]
		if r.Path == "" {
			unknown--
		} else {
			verifrt.Assert(ok && !seen[r.Path], "wrong path")
			seen[r.Path] = true
		}
		hash := ""
		if data != nil {
			verifrt.Reach("hash")
			hash = zvC26Hash(data)
		}
		verifrt.Assert(verifrt.StrEq(r.Hash, hash), "wrong hash")
		verifrt.Assert(r.TA == "one.tal" && r.Name == "name" && r.Serial == "7" && r.ValidFrom == 1600000000 && r.ValidTo == 1800000000, "wrong certificate data")
		verifrt.Assert(r.SubjectKeyId == hex.EncodeToString(zvOKey(1)) && r.AuthorityKeyId == hex.EncodeToString(zvOKey(0)), "wrong key identifiers")
		switch r.Type {
		case "certificate":
			verifrt.Reach("certificate")
			verifrt.Assert(len(r.ASNs) == 2 && len(r.IPs) == 2, "resources of a certificate are missing")
			for i := 0; i < 2; i++ {
				a, p := r.ASNs[i], r.IPs[i]
				switch (nas + i) % 3 {
				case 0:
					verifrt.Assert(int(a.ASN) == as1 && a.Range == nil && !a.Inherit, "wrong AS number")
				case 1:
					verifrt.Assert(a.ASN == 0 && len(a.Range) == 2 && int(a.Range[0]) == as1 && int(a.Range[1]) == as2 && !a.Inherit, "wrong range of AS numbers")
				case 2:
					verifrt.Assert(a.ASN == 0 && a.Range == nil && a.Inherit, "wrong inherited AS numbers")
				}
				switch (nip + i) % 3 {
				case 0:
					verifrt.Assert(verifrt.StrEq(p.Prefix, ip.String()+"/16") && p.Range == nil && p.Inherit == 0, "wrong prefix")
				case 1:
					verifrt.Assert(p.Prefix == "" && len(p.Range) == 2 && verifrt.StrEq(p.Range[0], ip.String()) && p.Range[1] == "10.255.1.2" && p.Inherit == 0, "wrong range of addresses")
				case 2:
					verifrt.Assert(p.Prefix == "" && p.Range == nil && p.Inherit == 2, "wrong inherited addresses")
				}
			}
		case "roa":
			verifrt.Reach("roa")
			verifrt.Assert(int(r.ASN) == as2 && r.Emitted == 1650000000, "wrong AS number or time of a ROA")
			verifrt.Assert(len(r.ROAs) == 1 && r.ROAs[0].MaxLength == max && verifrt.StrEq(r.ROAs[0].Prefix, ip.String()+"/16"), "wrong prefixes of a ROA")
		case "manifest":
			verifrt.Reach("manifest")
			verifrt.Assert(r.ManifestNumber == "9" && r.ThisUpdate == 1660000000 && r.NextUpdate == 1670000000, "wrong manifest")
		default:
			verifrt.Assert(false, "a resource of an unknown type")
		}
	}
	verifrt.Assert(unknown == 0 && len(seen) == len(files), "an object is not listed exactly once")
}
