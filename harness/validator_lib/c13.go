package librpki

import (
	"encoding/asn1"
	"math/big"
	"net"
	"time"

	"github.com/cloudflare/cfrpki/verifrt"
)

// c13IP makes one resource and says what it stands for.
func zvC13IP(v6, inheritOK bool) (IPCertificateInformation, zvC12Want, bool) {
	size := 4
	if v6 {
		size = 16
	}
	kinds := 2
	if inheritOK {
		kinds = 3
	}
	addr := func(name string) net.IP {
		b := verifrt.Bytes(name, size)
		if v6 {
			verifrt.Assume(net.IP(b).To4() == nil)
		}
		return net.IP(b)
	}
	form16 := func(ip net.IP) net.IP {
		if !v6 && verifrt.Choice("form16", 2) == 1 {
			return ip.To16()
		}
		return ip
	}
	switch verifrt.Choice("kind", kinds) {
	case 0:
		step := verifrt.Param("step", 1)
		if v6 {
			step = verifrt.Param("step6", 8)
		}
		pl := verifrt.Choice("plen", size*8/step+1) * step
		a := addr("net")
		lo, hi := make([]byte, size), make([]byte, size)
		for i := range lo {
			m := byte(0)
			switch {
			case 8*i+8 <= pl:
				m = 0xff
			case 8*i < pl:
				m = ^byte(0xff >> uint(pl-8*i))
			}
			lo[i] = a[i] & m
			hi[i] = a[i] | ^m
		}
		if v6 {
			// the prefix may not fall into the IPv4-mapped range either
			verifrt.Assume(net.IP(lo).To4() == nil)
		}
		return &IPNet{IPNet: &net.IPNet{IP: a, Mask: net.CIDRMask(pl, size*8)}}, zvC12Want{v6: v6, lo: lo, hi: hi}, false
	case 1:
		a, b := addr("min"), addr("max")
		return &IPAddressRange{Min: form16(a), Max: form16(b)}, zvC12Want{v6: v6, lo: a, hi: b}, false
	}
	f := uint8(1)
	if v6 {
		f = 2
	}
	return &IPAddressNull{Family: f}, zvC12Want{inherit: true, v6: v6}, true
}

// VerifC13IP: lists of up to k resources in any order of families.
func VerifC13IP() {
	n := verifrt.Choice("n", verifrt.Param("k", 2)+1)
	var list []IPCertificateInformation
	var want4, want6 []zvC12Want
	inherit := [2]bool{}
	for i := 0; i < n; i++ {
		v6 := verifrt.Choice("family", 2) == 1
		f := 0
		w := &want4
		if v6 {
			f, w = 1, &want6
		}
		if inherit[f] {
			return // an inherited family has no other element
		}
		r, x, inh := zvC13IP(v6, len(*w) == 0)
		inherit[f] = inh
		list = append(list, r)
		*w = append(*w, x)
	}
	ext, err := EncodeIPAddressBlock(list)
	verifrt.Assert(err == nil, "resources encode")
	verifrt.Assert(ext.Id.Equal(IpAddrBlock) && ext.Critical, "a critical address block extension")
	got, err := DecodeIPAddressBlock(ext.Value)
	verifrt.Assert(err == nil, "encoded resources decode")
	want := append(want4, want6...)
	verifrt.Assert(len(got) == len(want), "one decoded resource per encoded one")
	for i := range want {
		zvC12Check(got[i], want[i])
	}
	verifrt.Reach("round-trip")
	// and what was decoded encodes to the same bytes again
	again, err := EncodeIPAddressBlock(got)
	verifrt.Assert(err == nil, "decoded resources encode")
	verifrt.Assert(verifrt.BytesEq(again.Value, ext.Value), "decoded resources encode to the same bytes")
}

func zvC13Num(name string) uint64 {
	v := uint64(verifrt.U32(name))
	verifrt.Assume(v>>uint(verifrt.Param("asbits", 32)) == 0)
	return v
}

func zvC13AS(name string, k int) ([]ASNCertificateInformation, []zvC12ASWant) {
	n := verifrt.Choice(name+".n", k+2)
	if n == k+1 {
		return []ASNCertificateInformation{&ASNull{}}, []zvC12ASWant{{inherit: true}}
	}
	var list []ASNCertificateInformation
	var want []zvC12ASWant
	for i := 0; i < n; i++ {
		a := zvC13Num(name + ".as")
		if verifrt.Choice(name+".kind", 2) == 0 {
			list = append(list, &ASN{ASN: int(a)})
			want = append(want, zvC12ASWant{lo: a, hi: a})
			continue
		}
		b := zvC13Num(name + ".max")
		list = append(list, &ASNRange{Min: int(a), Max: int(b)})
		want = append(want, zvC12ASWant{lo: a, hi: b})
	}
	return list, want
}

// VerifC13AS: AS numbers and routing domain identifiers.
func VerifC13AS() {
	k := verifrt.Param("k", 2)
	nums, wn := zvC13AS("num", k)
	var rdi []ASNCertificateInformation
	var wr []zvC12ASWant
	if verifrt.Choice("rdi", 2) == 1 {
		rdi, wr = zvC13AS("rdi", verifrt.Param("krdi", 1))
	}
	ext, err := EncodeASN(nums, rdi)
	verifrt.Assert(err == nil, "AS resources encode")
	gn, gr, err := DecodeASN(ext.Value)
	verifrt.Assert(err == nil, "encoded AS resources decode")
	zvC12CheckAS(gn, wn)
	zvC12CheckAS(gr, wr)
	verifrt.Reach("round-trip")
}

// VerifC13ROA: ROA content with up to k entries of either family.
func VerifC13ROA() {
	n := verifrt.Choice("n", verifrt.Param("k", 2)+1)
	asn := verifrt.U32("asn")
	type item struct {
		lo     []byte
		pl     int
		maxlen int
	}
	var want [2][]item
	var entries []*ROAEntry
	for i := 0; i < n; i++ {
		f := verifrt.Choice("family", 2)
		size, step := 4, verifrt.Param("step", 1)
		if f == 1 {
			size, step = 16, verifrt.Param("step6", 8)
		}
		pl := verifrt.Choice("plen", size*8/step+1) * step
		a := verifrt.Bytes("net", size)
		if f == 1 {
			verifrt.Assume(net.IP(a).To4() == nil)
		}
		maxlen := verifrt.Int("maxlen", 0, 255)
		entries = append(entries, &ROAEntry{IPNet: &net.IPNet{IP: a, Mask: net.CIDRMask(pl, size*8)}, MaxLength: maxlen})
		lo := make([]byte, size)
		for j := range lo {
			if 8*j+8 <= pl {
				lo[j] = a[j]
			} else if 8*j < pl {
				lo[j] = a[j] & ^byte(0xff>>uint(pl-8*j))
			}
		}
		want[f] = append(want[f], item{lo, pl, maxlen})
	}
	roa, err := EncodeROAEntries(int(asn), entries)
	verifrt.Assert(err == nil && roa.OID.Equal(RoaOID), "a ROA encodes")
	content, err := ROAToEncap(roa)
	verifrt.Assert(err == nil, "the content is extracted")
	var rc ROAContent
	rest, err := asn1.Unmarshal(content, &rc)
	verifrt.Assert(err == nil && len(rest) == 0, "the content is one well-formed element")
	got, gotAS, err := ConvertROAEntries(rc)
	verifrt.Assert(err == nil, "the content converts back")
	verifrt.Assert(gotAS == int(asn), "same origin AS")
	all := append(want[0], want[1]...)
	verifrt.Assert(len(got) == len(all), "one entry per entry")
	for i, w := range all {
		verifrt.Assert(verifrt.BytesEq([]byte(got[i].IPNet.IP), w.lo), "same prefix")
		s, bits := got[i].IPNet.Mask.Size()
		verifrt.Assert(s == w.pl && bits == 8*len(w.lo), "same prefix length")
		verifrt.Assert(got[i].MaxLength == w.maxlen, "same maximum length")
	}
	verifrt.Reach("round-trip")
}

// VerifC13SIA: access descriptions with any name bytes and several object identifiers.
func VerifC13SIA() {
	n := verifrt.Choice("n", verifrt.Param("k", 2)+1)
	var list []*SIA
	oids := []asn1.ObjectIdentifier{CertRepository, CertRRDP, SIAManifest, SignedObject}
	for i := 0; i < n; i++ {
		o := oids[verifrt.Choice("oid", 4)]
		if verifrt.Choice("custom", 2) == 1 {
			o = asn1.ObjectIdentifier{1, 3, verifrt.Int("arc", 0, 1<<20)}
		}
		nl := verifrt.Choice("len", verifrt.Param("len", 6)+1)
		list = append(list, &SIA{AccessMethod: o, GeneralName: verifrt.Bytes("name", nl)})
	}
	ext, err := EncodeSIA(list)
	verifrt.Assert(err == nil && ext.Id.Equal(SubjectInfoAccess), "access descriptions encode")
	got, err := DecodeSubjectInformationAccess(ext.Value)
	verifrt.Assert(err == nil, "access descriptions decode")
	verifrt.Assert(len(got) == n, "one description each")
	for i := range got {
		verifrt.Assert(got[i].AccessMethod.Equal(list[i].AccessMethod), "same method")
		verifrt.Assert(verifrt.BytesEq(got[i].GeneralName, list[i].GeneralName), "same name")
	}
	verifrt.Reach("round-trip")
}

// VerifC13Manifest: manifest content: number, times, file names and hashes.
func VerifC13Manifest() {
	n := verifrt.Choice("n", verifrt.Param("k", 2)+1)
	nb := []int{0, 1, 8, 20, 2, 9, 7, 16, 19}[verifrt.Choice("numlen", verifrt.Param("numlen", 4))]
	number := new(big.Int).SetBytes(verifrt.Bytes("number", nb))
	times := []int64{951782399, 951782400, 1600000000, 2524607999, 2524608000, 253402300799}
	ti := verifrt.Choice("t1", len(times))
	t1 := time.Unix(times[ti], 0).UTC()
	t2 := time.Unix(times[(ti+1+verifrt.Choice("t2", verifrt.Param("t2", 1)))%len(times)], 0).UTC()
	mc := ManifestContent{ManifestNumber: number, ThisUpdate: t1, NextUpdate: t2, FileHashAlg: SHA256OID}
	for i := 0; i < n; i++ {
		nl := verifrt.Choice("namelen", verifrt.Param("len", 4)+1)
		name := verifrt.Bytes("name", nl)
		for _, c := range name {
			verifrt.Assume(c < 0x80)
		}
		mc.FileList = append(mc.FileList, File{Name: string(name), Hash: asn1.BitString{Bytes: verifrt.Bytes("hash", 32), BitLength: 256}})
	}
	mft, err := EncodeManifestContent(mc)
	verifrt.Assert(err == nil && mft.OID.Equal(ManifestOID), "a manifest encodes")
	content, err := ManifestToEncap(mft)
	verifrt.Assert(err == nil, "the content is extracted")
	var got ManifestContent
	rest, err := asn1.Unmarshal(content, &got)
	verifrt.Assert(err == nil && len(rest) == 0, "the content decodes")
	verifrt.Assert(got.ManifestNumber.Cmp(number) == 0, "same number")
	verifrt.Assert(got.ThisUpdate.Equal(t1), "same thisUpdate")
	verifrt.Assert(got.NextUpdate.Equal(t2), "same nextUpdate")
	verifrt.Assert(len(got.FileList) == n, "one file each")
	for i, f := range got.FileList {
		verifrt.Assert(verifrt.StrEq(f.Name, mc.FileList[i].Name), "same name")
		verifrt.Assert(verifrt.BytesEq(f.GetHash(), mc.FileList[i].Hash.Bytes), "same hash")
	}
	verifrt.Reach("round-trip")
}

// VerifC13Access: one location, as the CA of a certificate or as the object a certificate was made for; a policy.
func VerifC13Access() {
	n := verifrt.Choice("len", verifrt.Param("len", 4)+1)
	path := verifrt.Bytes("path", n)
	for _, c := range path {
		verifrt.Assume(c < 0x80)
	}
	if verifrt.Bool("long") { // lengths of one and of two octets
		pad := make([]byte, verifrt.Param("pad", 120))
		for i := range pad {
			pad[i] = 'a'
		}
		path = append(pad, path...)
	}
	n = len(path)
	authority := verifrt.Bool("authority")
	ext, err := EncodeInfoAccess(authority, string(path))
	verifrt.Assert(err == nil, "a location encodes")
	id, method := SubjectInfoAccess, SignedObject
	if authority {
		id, method = AuthorityInfoAccess, CAIssuer
	}
	verifrt.Assert(ext.Id.Equal(id) && !ext.Critical, "a location is put into another extension")
	got, err := DecodeSubjectInformationAccess(ext.Value)
	verifrt.Assert(err == nil && len(got) == 1, "the location is not read back")
	verifrt.Assert(got[0].AccessMethod.Equal(method), "the location is read back with another method")
	verifrt.Assert(verifrt.BytesEq(got[0].GeneralName, path), "another location is read back")

	if n > 0 {
		pol, err := EncodePolicyInformation(string(path))
		verifrt.Assert(err == nil && pol.Critical && pol.Id.Equal(CertPolicy), "a policy encodes")
		want := verifrt.Seq(verifrt.Seq(verifrt.OID(1, 3, 6, 1, 5, 5, 7, 14, 2), verifrt.Seq(verifrt.Seq(verifrt.OID(1, 3, 6, 1, 5, 5, 7, 2, 1), verifrt.TLV(0x16, path)))))
		verifrt.Assert(verifrt.BytesEq(pol.Value, want), "the policy is not RFC 7318's with the statement asked for")
	}

	// key identifiers as extensions hold them
	key := verifrt.Bytes("key", verifrt.Choice("keylen", 3)*10)
	k, err := DecodeKeyIdentifier(verifrt.TLV(4, key))
	verifrt.Assert(err == nil && verifrt.BytesEq(k, key), "another key identifier is read")
	k, err = DecodeKeyAuthority(verifrt.Seq(verifrt.TLV(0x80, key)))
	verifrt.Assert(err == nil && verifrt.BytesEq(k, key), "another authority key identifier is read")
	verifrt.Reach("round-trip")
}
