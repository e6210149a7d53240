package main

import (
	"crypto/x509"
	"fmt"
	"math/big"
	"net"
	"time"

	"github.com/cloudflare/gortr/prefixfile"

	librpki "github.com/cloudflare/cfrpki/validator/lib"
	"github.com/cloudflare/cfrpki/validator/pki"
	"github.com/cloudflare/cfrpki/verifrt"
)

// payload is what should be published.
type zvPayload struct {
	prefix string
	max    int
	asn    int
	ta     string
	keep   bool // not removed by the filter
}

func zvSamePayload(a, b zvPayload) bool {
	return verifrt.And(verifrt.StrEq(a.prefix, b.prefix), verifrt.And(a.max == b.max, a.asn == b.asn))
}

// checkList compares the published list with the expected payloads.
func zvCheckList(l *prefixfile.ROAList, want []zvPayload) {
	verifrt.Assert(l.Metadata.Counts == len(l.Data), "the count in the metadata is not the number of payloads")
	var got []zvPayload
	for _, d := range l.Data {
		g := zvPayload{prefix: d.Prefix, max: int(d.Length), ta: d.TA}
		asn := fmt.Sprint(d.ASN)
		g.asn = -1
		found := false
		for _, x := range want {
			if verifrt.And(x.keep, verifrt.And(verifrt.StrEq(x.prefix, d.Prefix), verifrt.And(x.max == int(d.Length), verifrt.And(x.ta == d.TA, verifrt.StrEq(fmt.Sprintf("AS%d", x.asn), asn))))) {
				found = true
				g.asn = x.asn
				break
			}
		}
		verifrt.Assert(found, "a payload is published that no valid ROA has")
		for _, o := range got {
			verifrt.Assert(!zvSamePayload(o, g), "a payload is published twice")
		}
		got = append(got, g)
	}
	for _, x := range want {
		if !x.keep {
			verifrt.Reach("filtered")
			continue
		}
		ok := false
		for _, g := range got {
			if zvSamePayload(g, x) {
				ok = true
				break
			}
		}
		verifrt.Assert(ok, "a payload of a valid ROA is not published")
		verifrt.Reach("published")
	}
	verifrt.ObserveInt("payloads", len(l.Data))
}

// oPrefix is a prefix with one symbolic octet; its length comes from a list.
func zvOPrefix(name string, v6 bool) (*net.IPNet, []byte, int) {
	b := verifrt.U8(name + ".octet")
	if verifrt.Param("wide", 1) == 0 {
		verifrt.Assume(b >= 100)
	}
	if v6 {
		lens := zvFirst([]int{48, 49, 32, 128, 0, 47, 64}, verifrt.Param("lens", 2))
		plen := lens[verifrt.Choice(name+".len", len(lens))]
		a := make(net.IP, 16)
		a[0], a[1] = 0x20, 0x01
		a[4] = b
		m := net.CIDRMask(plen, 128)
		return &net.IPNet{IP: a.Mask(m), Mask: m}, a, plen
	}
	lens := zvFirst([]int{24, 25, 16, 32, 0, 8, 23}, verifrt.Param("lens", 2))
	plen := lens[verifrt.Choice(name+".len", len(lens))]
	a := net.IP{10, b, 0, 0}
	if verifrt.Param("octet", 1) == 0 {
		a = net.IP{b, 1, 2, 3}
	}
	m := net.CIDRMask(plen, 32)
	return &net.IPNet{IP: a.Mask(m), Mask: m}, a, plen
}

// VerifC05List: two trust anchors with valid ROAs; the published list is exactly their entries.
func VerifC05List() {
	verifrt.SymbolicDigits()
	verifrt.FSVirtual()
	*Basepath = verifrt.FSRoot() + "/cache"
	*Sign = false
	*ValidityDuration = time.Hour
	verifrt.SetNow(zvONow)
	s := zvNewOcto()
	s.Tals = []*pki.PKIFile{{Path: "one.tal"}, {Path: "two.tal"}}
	names := []string{"one.tal", "two.tal"}
	if verifrt.Bool("names") {
		s.TalNames = []string{"A", "B"}
		names = s.TalNames
	}
	s.Filter = verifrt.Bool("filter")
	var want []zvPayload
	var ms []*pki.SimpleManager
	n := 0
	for t := 0; t < 2; t++ {
		sm := pki.NewSimpleManager()
		sm.Validator = pki.NewValidator()
		ms = append(ms, sm)
		k := verifrt.Param("roas", 1)
		if t == 1 {
			k = verifrt.Param("roas2", 1)
		}
		for r := 0; r < k; r++ {
			n++
			roa := &librpki.RPKIROA{InnerValid: true, Certificate: &librpki.RPKICertificate{Certificate: &x509.Certificate{SubjectKeyId: zvOKey(n), AuthorityKeyId: zvOKey(0), SerialNumber: big.NewInt(int64(n)), NotBefore: zvBaseTime, NotAfter: zvBaseTime}}}
			roa.ASN = int(verifrt.U32(fmt.Sprintf("asn%d", n)))
			if verifrt.Param("wide", 1) == 0 {
				verifrt.Assume(roa.ASN >= 1<<31)
			}
			for e := 0; e < verifrt.Param("entries", 1); e++ {
				id := fmt.Sprintf("e%d.%d", n, e)
				p, _, plen := zvOPrefix(id, verifrt.Bool(id+".v6"))
				top := 8 * len(p.IP)
				max := verifrt.Int(id+".max", plen, top)
				roa.Valids = append(roa.Valids, &librpki.ROAEntry{IPNet: p, MaxLength: max})
				limit := 24
				if top == 128 {
					limit = 48
				}
				want = append(want, zvPayload{p.String(), max, roa.ASN, names[t], !s.Filter || plen <= limit})
			}
			// an entry that is not valid is never published
			roa.Invalids = append(roa.Invalids, &librpki.ROAEntry{IPNet: &net.IPNet{IP: net.IP{192, 0, 2, 0}, Mask: net.CIDRMask(24, 32)}, MaxLength: 24})
			roa.Entries = append(append(roa.Entries, roa.Valids...), roa.Invalids...)
			sm.Validator.ValidROA[string(zvOKey(n))] = &pki.Resource{Type: pki.TYPE_ROA, Resource: roa}
		}
	}
	l := s.generateROAList(ms, &zvSpan{s.tracer.(*zvTracer)})
	zvCheckList(l, want)
	verifrt.Assert(l.Metadata.Generated == zvONow && l.Metadata.Valid == zvONow+3600, "wrong times in the metadata")
}

// oRoa is a ROA for one IPv4 prefix of 16 bits under 10.0.0.0/8, with any maximum length, AS number and second octet.
func zvORoa(name string, idx, ca, signer int) ([]byte, zvPayload, bool) {
	p := []byte{10, verifrt.U8(name + ".octet")}
	asn := verifrt.Bytes(name+".asn", 4)
	if verifrt.Param("wide", 1) == 0 {
		verifrt.Assume(p[1] >= 100)
		verifrt.Assume(asn[0] >= 0x40)
	}
	verifrt.Assume(asn[0] > 0)
	verifrt.Assume(asn[0] < 0x80)
	if verifrt.Param("first", 0) == 1 {
		p[0] = verifrt.U8(name + ".first")
		verifrt.Assume(p[0] >= 10)
		verifrt.Assume(p[0] < 20)
	}
	max := 16
	var enc []byte
	if verifrt.Bool(name + ".hasmax") {
		b := verifrt.U8(name + ".max")
		verifrt.Assume(b < 0x80)
		enc = []byte{b}
		max = int(b)
	}
	data := zvOROASigned(idx, ca, signer, verifrt.IPExt(verifrt.Seq(verifrt.Prefix([]byte{10}, 8)), nil), verifrt.ROAContent(asn, [][]byte{verifrt.ROAAddr(verifrt.TLV(3, []byte{0}, p), enc)}, nil))
	n := &net.IPNet{IP: net.IP{p[0], p[1], 0, 0}, Mask: net.CIDRMask(16, 32)}
	var a int64 // computed as encoding/asn1 does: the solver compares the digits of equal terms
	for _, b := range asn {
		a <<= 8
		a |= int64(b)
	}
	a <<= 32
	a >>= 32
	return data, zvPayload{n.String(), max, int(a), "", true}, verifrt.And(p[0] == 10, max >= 16, max <= 32)
}

// VerifC05Pipeline: two trust anchors and a child CA in the cache; whatever is wrong with one object, the list that
// validation publishes is exactly the payloads of the ROAs that stay valid.
func VerifC05Pipeline() {
	verifrt.SymbolicDigits()
	verifrt.FSVirtual()
	*Basepath = verifrt.FSRoot() + "/cache"
	*Sign = false
	verifrt.SetNow(zvONow)
	fault := verifrt.Choice("fault", 12)
	ip10 := verifrt.IPExt(verifrt.Seq(verifrt.Prefix([]byte{10}, 8)), nil)

	// below the second trust anchor
	rb, pb, okB := zvORoa("rb", 15, 2, 2)
	zvOPut("rsync://b/m/ta.cer", zvOCA(2, 2, zvOAllIP, zvOAllAS, "rsync://b/m/", ""))
	zvOPut("rsync://b/m/m.mft", zvOMft(14, 2, []zvOFile{{"r.roa", rb}}))
	zvOPut("rsync://b/m/r.roa", rb)
	// below the child of the first
	r2, p2, ok2 := zvORoa("r2", 13, 1, 1)
	zvOPut("rsync://a/m/c/m.mft", zvOMft(12, 1, []zvOFile{{"r.roa", r2}}))
	zvOPut("rsync://a/m/c/r.roa", r2)
	// the first
	signer := 0
	if fault == 6 {
		signer = 3
	}
	ra, pa, okA := zvORoa("ra", 11, 0, signer)
	c := zvOCA(1, 0, ip10, zvOInheritAS, "rsync://a/m/c/", "")
	switch fault {
	case 8:
		c = verifrt.Cert(verifrt.CertSpec{Serial: []byte{2}, Issuer: "i", Subject: "s", Key: 1, SKI: zvOKey(1), AKI: zvOKey(0), CA: true, IPs: ip10, AS: zvOInheritAS, SIA: zvOSIA("rsync://a/m/c/", ""), NotAfter: "20231231000000Z"})
	case 9:
		c = zvOCA(1, 0, verifrt.IPExt(verifrt.Seq(verifrt.Prefix([]byte{192}, 8)), nil), zvOInheritAS, "rsync://a/m/c/", "")
	}
	files := []zvOFile{{"r.roa", ra}, {"c.cer", c}}
	if fault == 7 || fault == 11 {
		serial := []byte{11}
		if fault == 11 {
			serial = []byte{2}
		}
		crl := verifrt.CRL(verifrt.CRLSpec{Issuer: "i", AKI: zvOKey(0), Revoked: []verifrt.RevokedItem{{Serial: serial}}, Signer: 0})
		files = append(files, zvOFile{"x.crl", crl})
		if verifrt.Bool("crlfirst") {
			files = []zvOFile{files[2], files[0], files[1]}
		}
		zvOPut("rsync://a/m/x.crl", crl)
	}
	keyA := 0
	if fault == 2 {
		keyA = 3
	}
	if fault != 1 {
		zvOPut("rsync://a/m/ta.cer", zvOCA(0, 0, zvOAllIP, zvOAllAS, "rsync://a/m/", ""))
	}
	if fault == 10 {
		zvOPut("rsync://a/m/m.mft", zvOMftWindow(10, 0, files, "20200101000000Z", "20231231000000Z"))
	} else if fault != 3 {
		zvOPut("rsync://a/m/m.mft", zvOMft(10, 0, files))
	}
	zvOPut("rsync://a/m/c.cer", c)
	switch fault {
	case 4:
		zvOPut("rsync://a/m/r.roa", r2)
	case 5:
	default:
		zvOPut("rsync://a/m/r.roa", ra)
	}

	s := zvNewOcto()
	s.Tals = []*pki.PKIFile{zvOTAL(1, keyA, "rsync://a/m/ta.cer"), zvOTAL(2, 2, "rsync://b/m/ta.cer")}
	s.TalNames = []string{"A", "B"}
	if verifrt.Bool("synced") {
		s.Fetcher.SetRepositories(map[string]time.Time{"rsync://a/m": zvBaseTime, "rsync://b/m": zvBaseTime})
	}
	keep := func(p zvPayload, ta string, entryOK bool, from int) []zvPayload {
		for _, f := range []int{1, 2, 3, 4, 5, 10} {
			if fault == f && from < 2 {
				return nil
			}
		}
		if (fault == 6 || fault == 7) && from == 0 || (fault == 8 || fault == 9 || fault == 11) && from == 1 || !entryOK {
			return nil
		}
		p.ta = ta
		return []zvPayload{p}
	}
	want := append(append(keep(pa, "A", okA, 0), keep(p2, "A", ok2, 1)...), keep(pb, "B", okB, 2)...)
	s.mainValidation(&zvSpan{s.tracer.(*zvTracer)})
	l := s.getROAList()
	zvCheckList(l, want)
	verifrt.Reach("checked")
}
