package librpki

import (
	"encoding/asn1"
	"net"

	"github.com/cloudflare/cfrpki/verifrt"
)

// VerifC06Validate: every well-formed prefix of either family and every maximum length.
func VerifC06Validate() {
	v6 := verifrt.Choice("family", 2) == 1
	width := 32
	ip := net.IP(verifrt.Bytes("ip4", 4))
	if v6 {
		width = 128
		ip = net.IP(verifrt.Bytes("ip16", 16))
	}
	plen := verifrt.Int("plen", 0, width)
	maxlen := int(verifrt.I64("maxlen"))
	e := &ROAEntry{IPNet: &net.IPNet{IP: ip, Mask: net.CIDRMask(plen, width)}, MaxLength: maxlen}
	err := e.Validate()
	limit := width
	if v6 && ip.To4() != nil {
		// ::ffff:0:0/96 stands for IPv4 and is held to the IPv4 width
		limit = 32
		verifrt.Reach("mapped")
	}
	good := verifrt.And(plen <= maxlen, maxlen <= limit)
	if good {
		verifrt.Reach("good")
	} else {
		verifrt.Reach("bad")
	}
	verifrt.Assert((err == nil) == good, "accepted exactly when prefix length <= max length <= width")
	r := &RPKIROA{Entries: []*ROAEntry{{IPNet: &net.IPNet{IP: net.IP{10, 0, 0, 0}, Mask: net.CIDRMask(8, 32)}, MaxLength: 8}, e}}
	if verifrt.Choice("order", 2) == 1 {
		r.Entries[0], r.Entries[1] = r.Entries[1], r.Entries[0]
	}
	verifrt.Assert((r.ValidateEntries() == nil) == good, "one rejected entry rejects the ROA")
}

// VerifC06Convert: entries read from decoded ROA content, maximum length present or absent.
func VerifC06Convert() {
	v6 := verifrt.Choice("family", 2) == 1
	width, fam := 32, byte(1)
	if v6 {
		width, fam = 128, 2
	}
	// the bit string of the prefix: any length up to one byte over the width
	nbytes := verifrt.Choice("bytes", width/8+2)
	unused := 0
	if nbytes > 0 {
		unused = verifrt.Int("unused", 0, 7)
	}
	plen := nbytes*8 - unused
	b := verifrt.Bytes("prefix", nbytes)
	maxlen := int(verifrt.I64("maxlen"))
	if verifrt.Choice("absent", 2) == 1 {
		maxlen = -1
	}
	entries, asn, err := ConvertROAEntries(ROAContent{ASID: 64500, IpAddrBlocks: []ROAAddressFamily{{AddressFamily: []byte{0, fam},
		Addresses: []ROAIPAddresses{{Address: asn1.BitString{Bytes: b, BitLength: plen}, MaxLength: maxlen}}}}})
	ok := err == nil && len(entries) == 1 && entries[0].Validate() == nil
	eff := maxlen
	if maxlen < 0 { // the decoder's sign for an absent field
		eff = plen
	}
	if ok {
		verifrt.Reach("accepted")
		verifrt.Assert(asn == 64500, "origin AS kept")
		verifrt.Assert(verifrt.And(plen <= width, plen <= eff, eff <= width), "accepted entries satisfy prefix length <= max length <= width")
		verifrt.Assert(entries[0].MaxLength == eff, "max length kept, prefix length when absent")
		n, w := entries[0].IPNet.Mask.Size()
		verifrt.Assert(verifrt.And(n == plen, w == width), "prefix length kept")
	} else {
		verifrt.Reach("refused")
		mapped := v6 && len(entries) == 1 && entries[0].IPNet.IP.To4() != nil
		if !mapped {
			verifrt.Reach("refused-plain")
			verifrt.Assert(verifrt.Or(plen > width, eff < plen, eff > width), "valid entries are accepted")
		}
	}
}
