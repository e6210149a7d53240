From cd5178fbf7f34128327fd87d8f7f975d2036210b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:28 +0000
Subject: [PATCH 01/42] fix: ber2der: reject truncated input instead of
 indexing past its end

---
 validator/lib/ber.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/validator/lib/ber.go b/validator/lib/ber.go
index 32c81b5..f79d4d9 100644
--- a/validator/lib/ber.go
+++ b/validator/lib/ber.go
@@ -138,15 +138,21 @@ func encodeLength(out *bytes.Buffer, length int) (err error) {
 func readObject(ber []byte, offset int) (asn1Object, int, error) {
 	//fmt.Printf("\n====> Starting readObject at offset: %d\n\n", offset)
 	tagStart := offset
+	if len(ber) <= offset {
+		return nil, 0, errors.New("ber2der: unexpected end of data")
+	}
 	b := ber[offset]
 	offset++
 	tag := b & 0x1F // last 5 bits
 	if tag == 0x1F {
 		tag = 0
-		for ber[offset] >= 0x80 {
+		for offset < len(ber) && ber[offset] >= 0x80 {
 			tag = tag*128 + ber[offset] - 0x80
 			offset++
 		}
+		if len(ber) <= offset {
+			return nil, 0, errors.New("ber2der: invalid BER tag")
+		}
 		tag = tag*128 + ber[offset] - 0x80
 		offset++
 	}
@@ -174,6 +180,9 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 		if numberOfBytes > 4 { // int is only guaranteed to be 32bit
 			return nil, 0, errors.New("ber2der: BER tag length too long")
 		}
+		if len(ber)-offset < numberOfBytes {
+			return nil, 0, errors.New("ber2der: BER tag length is more than available data")
+		}
 		if numberOfBytes == 4 && (int)(ber[offset]) > 0x7F {
 			return nil, 0, errors.New("ber2der: BER tag length is negative")
 		}
-- 
2.43.0


From 61363b857c9c9b40185451d0f7d574c5c7f179aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:31 +0000
Subject: [PATCH 02/42] fix: ber2der: accept an indefinite-length element
 without content

---
 validator/lib/ber.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/validator/lib/ber.go b/validator/lib/ber.go
index f79d4d9..9b8b8c2 100644
--- a/validator/lib/ber.go
+++ b/validator/lib/ber.go
@@ -222,14 +222,6 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 	} else {
 		var subObjects []asn1Object
 		for (offset < contentEnd) || indefinite {
-			var subObj asn1Object
-			var err error
-			subObj, offset, err = readObject(ber, offset)
-			if err != nil {
-				return nil, 0, err
-			}
-			subObjects = append(subObjects, subObj)
-
 			if indefinite {
 				terminated, err := isIndefiniteTermination(ber, offset)
 				if err != nil {
@@ -240,6 +232,14 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 					break
 				}
 			}
+
+			var subObj asn1Object
+			var err error
+			subObj, offset, err = readObject(ber, offset)
+			if err != nil {
+				return nil, 0, err
+			}
+			subObjects = append(subObjects, subObj)
 		}
 		obj = asn1Structured{
 			tagBytes: ber[tagStart:tagEnd],
-- 
2.43.0


From 60df88461f64465dd844355da337e3ef9e47aeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 03/42] fix: ber2der: limit the nesting depth instead of
 exhausting the stack

---
 validator/lib/ber.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/validator/lib/ber.go b/validator/lib/ber.go
index 9b8b8c2..5f83008 100644
--- a/validator/lib/ber.go
+++ b/validator/lib/ber.go
@@ -12,6 +12,10 @@ import (
 
 var encodeIndent = 0
 
+// maxNesting bounds the depth of nested elements: readObject is recursive and
+// a deeper input could exhaust the stack.
+const maxNesting = 1000
+
 type asn1Object interface {
 	encodeTo(writer *bytes.Buffer) error
 }
@@ -64,7 +68,7 @@ func BER2DER(ber []byte) ([]byte, error) {
 	//fmt.Printf("--> ber2der: Transcoding %d bytes\n", len(ber))
 	out := new(bytes.Buffer)
 
-	obj, _, err := readObject(ber, 0)
+	obj, _, err := readObject(ber, 0, 0)
 	if err != nil {
 		return nil, err
 	}
@@ -135,8 +139,11 @@ func encodeLength(out *bytes.Buffer, length int) (err error) {
 	return
 }
 
-func readObject(ber []byte, offset int) (asn1Object, int, error) {
+func readObject(ber []byte, offset int, depth int) (asn1Object, int, error) {
 	//fmt.Printf("\n====> Starting readObject at offset: %d\n\n", offset)
+	if depth > maxNesting {
+		return nil, 0, errors.New("ber2der: elements are nested too deep")
+	}
 	tagStart := offset
 	if len(ber) <= offset {
 		return nil, 0, errors.New("ber2der: unexpected end of data")
@@ -235,7 +242,7 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 
 			var subObj asn1Object
 			var err error
-			subObj, offset, err = readObject(ber, offset)
+			subObj, offset, err = readObject(ber, offset, depth+1)
 			if err != nil {
 				return nil, 0, err
 			}
-- 
2.43.0


From 15b7dd6be83dd195c3289bedc63a6029476131cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:05 +0000
Subject: [PATCH 04/42] fix: reject address blocks with an over-long prefix or
 an unknown family

---
 validator/lib/cert.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/validator/lib/cert.go b/validator/lib/cert.go
index fec9fd5..9b52d68 100644
--- a/validator/lib/cert.go
+++ b/validator/lib/cert.go
@@ -252,6 +252,9 @@ func DecodeIP(addrfamily []byte, addr asn1.BitString) (*net.IPNet, error) {
 		if addrfamily[1] == 2 {
 			size = 16
 		}
+		if addr.BitLength > size*8 {
+			return nil, fmt.Errorf("prefix length %d is longer than an address of %d bytes", addr.BitLength, size)
+		}
 		ipaddr := make([]byte, size)
 		copy(ipaddr, addr.Bytes)
 		mask := net.CIDRMask(addr.BitLength, size*8)
@@ -271,15 +274,15 @@ func DecodeIPMinMax(addrfamily []byte, addr asn1.BitString, max bool) (net.IP, e
 		if addrfamily[1] == 2 {
 			size = 16
 		}
+		if addr.BitLength > size*8 {
+			return nil, errors.New(fmt.Sprintf("Error converting ip address %v %v", addr.BitLength, size))
+		}
 		ipaddr := make([]byte, size)
 		copy(ipaddr, addr.Bytes)
 		if max {
 			for i := addr.BitLength/8 + 1; i < len(ipaddr); i++ {
 				ipaddr[i] = 0xFF
 			}
-			if addr.BitLength/8 > len(ipaddr) {
-				return nil, errors.New(fmt.Sprintf("Error converting ip address %v %v", addr.BitLength, len(ipaddr)))
-			}
 			if addr.BitLength/8 < len(ipaddr) {
 				ipaddr[addr.BitLength/8] |= 0xFF >> uint(8-(8*(addr.BitLength/8+1)-addr.BitLength))
 			}
@@ -328,7 +331,10 @@ func DecodeIPAddressBlock(data []byte) ([]IPCertificateInformation, error) {
 						return ipaddresses, err
 					}
 
-					a, _ := DecodeIP(ipaddrfam.AddressFamily, addrRange)
+					a, err := DecodeIP(ipaddrfam.AddressFamily, addrRange)
+					if err != nil {
+						return ipaddresses, err
+					}
 					ipaddresses = append(ipaddresses, &IPNet{
 						IPNet: a,
 					})
@@ -344,8 +350,14 @@ func DecodeIPAddressBlock(data []byte) ([]IPCertificateInformation, error) {
 						return ipaddresses, err
 					}
 
-					a, _ := DecodeIPMinMax(ipaddrfam.AddressFamily, addrRange.Min, false)
+					a, err := DecodeIPMinMax(ipaddrfam.AddressFamily, addrRange.Min, false)
+					if err != nil {
+						return ipaddresses, err
+					}
 					b, err := DecodeIPMinMax(ipaddrfam.AddressFamily, addrRange.Max, true)
+					if err != nil {
+						return ipaddresses, err
+					}
 					ipaddresses = append(ipaddresses, &IPAddressRange{
 						Min: a,
 						Max: b,
-- 
2.43.0


From c20c36e31fa833574128e95566b67a887c2f9343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 05/42] fix: check the first octet of the address family
 identifier

---
 validator/lib/cert.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/validator/lib/cert.go b/validator/lib/cert.go
index 9b52d68..fec45cb 100644
--- a/validator/lib/cert.go
+++ b/validator/lib/cert.go
@@ -247,7 +247,7 @@ func (an *ASNull) ASN1() ([]byte, error) {
 }
 
 func DecodeIP(addrfamily []byte, addr asn1.BitString) (*net.IPNet, error) {
-	if len(addrfamily) >= 2 && (addrfamily[1] == 1 || addrfamily[1] == 2) {
+	if len(addrfamily) >= 2 && addrfamily[0] == 0 && (addrfamily[1] == 1 || addrfamily[1] == 2) {
 		size := 4
 		if addrfamily[1] == 2 {
 			size = 16
@@ -269,7 +269,7 @@ func DecodeIP(addrfamily []byte, addr asn1.BitString) (*net.IPNet, error) {
 }
 
 func DecodeIPMinMax(addrfamily []byte, addr asn1.BitString, max bool) (net.IP, error) {
-	if len(addrfamily) >= 2 && (addrfamily[1] == 1 || addrfamily[1] == 2) {
+	if len(addrfamily) >= 2 && addrfamily[0] == 0 && (addrfamily[1] == 1 || addrfamily[1] == 2) {
 		size := 4
 		if addrfamily[1] == 2 {
 			size = 16
@@ -309,10 +309,10 @@ func DecodeIPAddressBlock(data []byte) ([]IPCertificateInformation, error) {
 	for _, ipaddrfam := range blk {
 		if ipaddrfam.IPAddressChoice.Tag == asn1.TagNull {
 			var family uint8
-			if len(ipaddrfam.AddressFamily) == 2 && ipaddrfam.AddressFamily[1] == 1 {
+			if len(ipaddrfam.AddressFamily) == 2 && ipaddrfam.AddressFamily[0] == 0 && ipaddrfam.AddressFamily[1] == 1 {
 				family = 1
 			}
-			if len(ipaddrfam.AddressFamily) == 2 && ipaddrfam.AddressFamily[1] == 2 {
+			if len(ipaddrfam.AddressFamily) == 2 && ipaddrfam.AddressFamily[0] == 0 && ipaddrfam.AddressFamily[1] == 2 {
 				family = 2
 			}
 			ipaddresses = append(ipaddresses, &IPAddressNull{Family: family})
-- 
2.43.0


From 288d1cd5673c09c41e61ded0a9b5d263e40dc4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:15 +0000
Subject: [PATCH 06/42] fix: reject AS numbers outside 0..4294967295

---
 validator/lib/cert.go | 18 ++++++++++++++++++
 validator/lib/roa.go  |  3 +++
 2 files changed, 21 insertions(+)

diff --git a/validator/lib/cert.go b/validator/lib/cert.go
index fec45cb..13f00bc 100644
--- a/validator/lib/cert.go
+++ b/validator/lib/cert.go
@@ -8,6 +8,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"math"
 	"net"
 	"sort"
 	"time"
@@ -369,6 +370,14 @@ func DecodeIPAddressBlock(data []byte) ([]IPCertificateInformation, error) {
 	return ipaddresses, nil
 }
 
+// checkASN returns an error if a decoded integer is not an AS number (RFC 6793).
+func checkASN(asn int) error {
+	if asn < 0 || int64(asn) > math.MaxUint32 {
+		return fmt.Errorf("%d is not an AS number", asn)
+	}
+	return nil
+}
+
 func DecodeASIdentifier(data asn1.RawValue) ([]ASNCertificateInformation, error) {
 	var asitmp asn1.RawValue
 	asns := make([]ASNCertificateInformation, 0)
@@ -395,6 +404,12 @@ func DecodeASIdentifier(data asn1.RawValue) ([]ASNCertificateInformation, error)
 				if err != nil {
 					return asns, err
 				}
+				if err := checkASN(asrange.Min); err != nil {
+					return asns, err
+				}
+				if err := checkASN(asrange.Max); err != nil {
+					return asns, err
+				}
 				asns = append(asns, &asrange)
 			} else if asidor.Tag == asn1.TagInteger {
 				var asid int
@@ -402,6 +417,9 @@ func DecodeASIdentifier(data asn1.RawValue) ([]ASNCertificateInformation, error)
 				if err != nil {
 					return asns, err
 				}
+				if err := checkASN(asid); err != nil {
+					return asns, err
+				}
 				asns = append(asns, &ASN{ASN: asid})
 			}
 
diff --git a/validator/lib/roa.go b/validator/lib/roa.go
index 2952d3b..147a1de 100644
--- a/validator/lib/roa.go
+++ b/validator/lib/roa.go
@@ -218,6 +218,9 @@ func (roa *RPKIROA) ValidateIPRoaCertificate(cert *RPKICertificate) ([]*ROAEntry
 func ConvertROAEntries(roacontent ROAContent) ([]*ROAEntry, int, error) {
 	entries := make([]*ROAEntry, 0)
 	asn := roacontent.ASID
+	if err := checkASN(asn); err != nil {
+		return entries, asn, err
+	}
 	//fmt.Printf("ROAContent %v %v AS: %v\n", len(fullbytes), err, roacontent.ASID)
 	for _, addrblock := range roacontent.IpAddrBlocks {
 		for _, addr := range addrblock.Addresses {
-- 
2.43.0


From 40ee2da2838c99af71c98cdf6731705656117e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:43 +0000
Subject: [PATCH 07/42] fix: encode the bounds of an IPv4 range given in its
 4-byte form

---
 validator/lib/cert.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/validator/lib/cert.go b/validator/lib/cert.go
index 13f00bc..566e6b5 100644
--- a/validator/lib/cert.go
+++ b/validator/lib/cert.go
@@ -106,15 +106,15 @@ func (ipr *IPAddressRange) GetRange() (net.IP, net.IP, bool) {
 }
 
 func IPToBitString(ip net.IP) asn1.BitString {
-	blen := 32
-	bitsplit := 12
-	if ip.To4() == nil {
-		blen = 128
-		bitsplit = 0
+	if ip4 := ip.To4(); ip4 != nil {
+		return asn1.BitString{
+			Bytes:     []byte(ip4),
+			BitLength: 32,
+		}
 	}
 	return asn1.BitString{
-		Bytes:     []byte(ip)[bitsplit:],
-		BitLength: blen,
+		Bytes:     []byte(ip),
+		BitLength: 128,
 	}
 }
 
-- 
2.43.0


From 438c1c85838b9b981f2b91c7c0fab679494a628a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:46 +0000
Subject: [PATCH 08/42] fix: resolve inherited resources through the whole
 chain of issuers

---
 validator/pki/pki.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 53ba3df..87e2525 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -499,8 +499,8 @@ func (v *Validator) ValidateCertificate(cert *librpki.RPKICertificate, trust boo
 	// Check IPs
 	validIPs, invalidIPs, checkParent := cert.ValidateIPCertificate(parentCert)
 	chain := parent.Parent
+	key := parentCert.Certificate.AuthorityKeyId
 	for chain != nil && len(checkParent) > 0 {
-		key := parentCert.Certificate.AuthorityKeyId
 		upperCert, found := v.ValidObjects[string(key)]
 		if !found {
 			//return errors.New(fmt.Sprintf("One of the parents (%x) of %x is not valid", key, ski))
@@ -515,14 +515,17 @@ func (v *Validator) ValidateCertificate(cert *librpki.RPKICertificate, trust boo
 		validIPs = append(validIPs, validTmp...)
 		invalidIPs = append(invalidIPs, invalidTmp...)
 		checkParent = checkParentTmp
+		key = chainCert.Certificate.AuthorityKeyId
 		chain = chain.Parent
 	}
+	// Inherited up to the trust anchor, which holds no such resources
+	invalidIPs = append(invalidIPs, checkParent...)
 
 	// Check ASNs
 	validASNs, invalidASNs, checkParentASN := cert.ValidateASNCertificate(parentCert)
 	chain = parent.Parent
+	key = parentCert.Certificate.AuthorityKeyId
 	for chain != nil && len(checkParentASN) > 0 {
-		key := parentCert.Certificate.AuthorityKeyId
 		upperCert, found := v.ValidObjects[string(key)]
 		if !found {
 			return NewCertificateErrorParent(cert, parentCert, errors.New(fmt.Sprintf("ancestor %x is not valid", key)))
@@ -535,8 +538,10 @@ func (v *Validator) ValidateCertificate(cert *librpki.RPKICertificate, trust boo
 		validASNs = append(validASNs, validTmp...)
 		invalidASNs = append(invalidASNs, invalidTmp...)
 		checkParentASN = checkParentTmp
+		key = chainCert.Certificate.AuthorityKeyId
 		chain = chain.Parent
 	}
+	invalidASNs = append(invalidASNs, checkParentASN...)
 
 	if len(invalidIPs) > 0 || len(invalidASNs) > 0 {
 		//return errors.New(fmt.Sprintf("%x contains invalid ASNs: %v", ski, invalidsASN))
-- 
2.43.0


From 149da0309a7f8c7400fafe9e76a78da6cab5302a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:39 +0000
Subject: [PATCH 09/42] fix: do not take IPv6 resources in ::ffff:0:0/96 for
 IPv4 resources

---
 validator/lib/cert.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/validator/lib/cert.go b/validator/lib/cert.go
index 566e6b5..f27e2b0 100644
--- a/validator/lib/cert.go
+++ b/validator/lib/cert.go
@@ -50,6 +50,10 @@ func (ipn *IPNet) String() string {
 }
 
 func (ipn *IPNet) IsIPInRange(ip net.IP) (bool, bool) {
+	// Contains takes ::ffff:0:0/96 for IPv4
+	if len(ip) != len(ipn.IPNet.IP) {
+		return false, false
+	}
 	return ipn.IPNet.Contains(ip), false
 }
 
-- 
2.43.0


From a32021160d3062e5b0e5228560999d7b5c7b646c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:48 +0000
Subject: [PATCH 10/42] fix: require the trust anchor to be correctly
 self-signed

---
 validator/pki/pki.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 87e2525..d0f891c 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -471,6 +471,10 @@ func (v *Validator) ValidateCertificate(cert *librpki.RPKICertificate, trust boo
 	}
 
 	if trust {
+		// A trust anchor is self-signed (RFC 8630)
+		if err := cert.Validate(cert); err != nil {
+			return NewCertificateErrorParent(cert, cert, err)
+		}
 		return nil
 	}
 
-- 
2.43.0


From a61a2162d8f104f7e3e65a1752d1b14680ce94c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:44 +0000
Subject: [PATCH 11/42] fix: revoke every certificate with a listed serial
 number, of that issuer only

---
 validator/pki/pki.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index d0f891c..09beb5b 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -7,6 +7,7 @@ import (
 	"encoding/asn1"
 	"errors"
 	"fmt"
+	"math/big"
 	"strings"
 	"time"
 
@@ -421,6 +422,11 @@ func (v *Validator) AddTAL(tal *librpki.RPKITAL) ([]*PKIFile, *Resource, error)
 	return files, res, nil
 }
 
+// serialKey identifies a certificate by issuer and serial number.
+func serialKey(aki []byte, serial *big.Int) string {
+	return string(aki) + "/" + serial.String()
+}
+
 func (v *Validator) AddCert(cert *librpki.RPKICertificate, trust bool) (bool, []*PKIFile, *Resource, error) {
 	pathCert := ExtractPathCert(cert)
 
@@ -452,7 +458,7 @@ func (v *Validator) AddCert(cert *librpki.RPKICertificate, trust bool) (bool, []
 	if hasParent && parent != nil && valid {
 		parent.Childs = append(parent.Childs, res)
 
-		v.CertsSerial[aki+cert.Certificate.SerialNumber.String()] = res
+		v.CertsSerial[serialKey(cert.Certificate.AuthorityKeyId, cert.Certificate.SerialNumber)] = res
 	}
 
 	if valid {
@@ -495,7 +501,7 @@ func (v *Validator) ValidateCertificate(cert *librpki.RPKICertificate, trust boo
 	}
 
 	// Check presence in revocation lists
-	_, revoked := v.Revoked[string(aki)+cert.Certificate.SerialNumber.String()]
+	_, revoked := v.Revoked[serialKey(aki, cert.Certificate.SerialNumber)]
 	if revoked {
 		return NewCertificateErrorRevocation(cert)
 	}
@@ -678,16 +684,13 @@ func (v *Validator) AddCRL(crl *pkix.CertificateList) (bool, *Resource, error) {
 		} else {
 			v.ValidCRL[string(aki)] = res
 			for _, revoked := range crl.TBSCertList.RevokedCertificates {
-				key := string(aki) + revoked.SerialNumber.String()
-				child, found := v.CertsSerial[key]
-				if found {
-					childConv := child.Resource.(*librpki.RPKICertificate)
-					if childConv.Certificate.SerialNumber.Cmp(revoked.SerialNumber) == 0 {
-						v.InvalidateObject(childConv.Certificate.SubjectKeyId)
-					}
+				v.Revoked[serialKey(aki, revoked.SerialNumber)] = true
+			}
+			for _, child := range parent.Childs {
+				childConv, ok := child.Resource.(*librpki.RPKICertificate)
+				if ok && v.Revoked[serialKey(aki, childConv.Certificate.SerialNumber)] {
+					v.InvalidateObject(childConv.Certificate.SubjectKeyId)
 				}
-
-				v.Revoked[key] = true
 			}
 			parent.Childs = append(parent.Childs, res)
 		}
-- 
2.43.0


From 6fd059512ae23f5651ea95a3ba83c4cc94fd3ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 12/42] fix: a manifest below an invalidated certificate is not
 valid either

---
 validator/pki/pki.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 09beb5b..97d4679 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -389,6 +389,7 @@ func (v *Validator) InvalidateObject(keyid []byte) {
 		res, hasCert := v.Objects[ski]
 		delete(v.ValidObjects, ski)
 		delete(v.ValidROA, ski)
+		delete(v.ValidManifest, ski)
 		delete(v.ValidCRL, ski)
 		invalidated[ski] = true
 
-- 
2.43.0


From a509947b2e6550fc002b7d229eb803a70f59db8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 13/42] fix: do not index the signer information of a CMS
 object that has none

---
 validator/lib/cms.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/validator/lib/cms.go b/validator/lib/cms.go
index a1a87a9..08a5fce 100644
--- a/validator/lib/cms.go
+++ b/validator/lib/cms.go
@@ -330,6 +330,9 @@ func (cms *CMS) CheckSignaturesMatch() (bool, error) {
 
 // Won't validate if signedattributes is empty
 func (cms *CMS) Validate(encap []byte, cert *x509.Certificate) error {
+	if len(cms.SignedData.SignerInfos) == 0 {
+		return errors.New("CMS has no signer information")
+	}
 	signedAttributes := cms.SignedData.SignerInfos[0].SignedAttrs
 
 	var messageDigest []byte
@@ -417,6 +420,9 @@ func (cms *CMS) GetRPKICertificate() (*RPKICertificate, error) {
 
 func (cms *CMS) GetSigningTime() (time.Time, error) {
 	var signingTime time.Time
+	if len(cms.SignedData.SignerInfos) == 0 {
+		return signingTime, errors.New("CMS has no signer information")
+	}
 	signedAttributes := cms.SignedData.SignerInfos[0].SignedAttrs
 	for _, sAttr := range signedAttributes {
 		if sAttr.AttrType.Equal(SigningTime) && len(sAttr.AttrValue) > 0 {
-- 
2.43.0


From e0ee3d89c45e0cbd453015bfb16d8b04578389d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 14/42] fix: reject a CRL of an unknown issuer instead of
 dereferencing nil

---
 validator/pki/pki.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 97d4679..b5665cd 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -357,12 +357,15 @@ func (v *Validator) AddResource(pkifile *PKIFile, data []byte) (bool, []*PKIFile
 			return false, nil, nil, err
 		}
 		valid, res, err := v.AddCRL(crl)
-		if pkifile.Parent.Parent.Path != res.Parent.File.Path {
-			return false, nil, nil, fmt.Errorf("CRL %s does not match with the parent %s", pkifile.Path, pkifile.Parent.Parent.Path)
-		}
 		if res == nil {
 			return valid, nil, res, fmt.Errorf("Resource is empty: %v", err)
 		}
+		if res.Parent == nil {
+			return false, nil, nil, fmt.Errorf("CRL %s has an unknown issuer", pkifile.Path)
+		}
+		if pkifile.Parent != nil && pkifile.Parent.Parent != nil && res.Parent.File != nil && pkifile.Parent.Parent.Path != res.Parent.File.Path {
+			return false, nil, nil, fmt.Errorf("CRL %s does not match with the parent %s", pkifile.Path, pkifile.Parent.Parent.Path)
+		}
 		res.File = pkifile
 
 		v.ObjectsPath[pkifile.Path] = res
-- 
2.43.0


From a7aad11e357b3f6111c45a9403fa084df76826d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:31 +0000
Subject: [PATCH 15/42] fix: pad the key of an encoded trust anchor locator, as
 its decoder and RFC 8630 expect

---
 validator/lib/tal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validator/lib/tal.go b/validator/lib/tal.go
index 58658e8..f1e2b52 100644
--- a/validator/lib/tal.go
+++ b/validator/lib/tal.go
@@ -170,7 +170,7 @@ func EncodeTALSize(tal *RPKITAL, split int) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	key := base64.RawStdEncoding.EncodeToString(keyBytesData)
+	key := base64.StdEncoding.EncodeToString(keyBytesData)
 	if split > 0 {
 		keySplit := make([]string, len(key)/split+1)
 		for i := 0; i < len(key)/split+1; i++ {
-- 
2.43.0


From c33f526035dd9bad21b616e3fefddb2cfa36a969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:31 +0000
Subject: [PATCH 16/42] fix: accept the RSA key of a TAL by value and by
 reference

---
 validator/lib/tal.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/validator/lib/tal.go b/validator/lib/tal.go
index f1e2b52..a0490c3 100644
--- a/validator/lib/tal.go
+++ b/validator/lib/tal.go
@@ -59,12 +59,26 @@ func (tal *RPKITAL) GetURI() string {
 	return uri
 }
 
+// A created TAL holds the key by value and a decoded one by reference
+func rsaPublicKey(key interface{}) (*rsa.PublicKey, bool) {
+	switch keyt := key.(type) {
+	case *rsa.PublicKey:
+		return keyt, keyt != nil
+	case rsa.PublicKey:
+		return &keyt, true
+	}
+	return nil, false
+}
+
 func (tal *RPKITAL) CheckCertificate(cert *x509.Certificate) bool {
 	if tal.Algorithm == cert.PublicKeyAlgorithm {
 		switch tal.Algorithm {
 		case x509.RSA:
-			a := tal.PublicKey.(*rsa.PublicKey)
-			b := cert.PublicKey.(*rsa.PublicKey)
+			a, aok := rsaPublicKey(tal.PublicKey)
+			b, bok := rsaPublicKey(cert.PublicKey)
+			if !aok || !bok {
+				return false
+			}
 			if a.N.Cmp(b.N) == 0 && a.E == b.E {
 				return true
 			}
@@ -139,8 +153,11 @@ func EncodeTALSize(tal *RPKITAL, split int) ([]byte, error) {
 	var bs asn1.BitString
 	var err error
 	if tal.OID.Equal(RSA) {
-		keyRaw := tal.PublicKey.(rsa.PublicKey)
-		bs, err = BundleRSAPublicKey(keyRaw)
+		keyRaw, ok := rsaPublicKey(tal.PublicKey)
+		if !ok {
+			return nil, errors.New("Public key is not RSA")
+		}
+		bs, err = BundleRSAPublicKey(*keyRaw)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From ebbe60ca244e69e9126f070e417a1aad3407ed46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:57 +0000
Subject: [PATCH 17/42] fix: check the whole padding of CMS signatures

---
 validator/lib/cms.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/validator/lib/cms.go b/validator/lib/cms.go
index 08a5fce..4cec8c4 100644
--- a/validator/lib/cms.go
+++ b/validator/lib/cms.go
@@ -370,12 +370,10 @@ func (cms *CMS) Validate(encap []byte, cert *x509.Certificate) error {
 		return errors.New("Public key is not RSA")
 	}
 
-	decryptedHash, err := DecryptSignatureRSA(cms.SignedData.SignerInfos[0].Signature, pubKey)
+	// Checks all of the padding: only looking for the hash in the decrypted signature would accept forgeries for small exponents
+	err = rsa.VerifyPKCS1v15(pubKey, crypto.SHA256, signedAttributesHash, cms.SignedData.SignerInfos[0].Signature)
 	if err != nil {
-		return errors.New(fmt.Sprintf("CMS signature decoding error: %v", err))
-	}
-	if !bytes.Equal(signedAttributesHash, decryptedHash) {
-		return errors.New(fmt.Sprintf("CMS encrypted digest (%x) and calculated digest (%x) are different", decryptedHash, signedAttributesHash))
+		return errors.New(fmt.Sprintf("CMS signature does not match the calculated digest (%x): %v", signedAttributesHash, err))
 	}
 
 	return nil
-- 
2.43.0


From d721cc0e54b117889a8fb17701156f4a8de30abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:08 +0000
Subject: [PATCH 18/42] fix: count a repository that is added after one below
 it

---
 sync/lib/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync/lib/utils.go b/sync/lib/utils.go
index dfb7ca2..b23765e 100644
--- a/sync/lib/utils.go
+++ b/sync/lib/utils.go
@@ -46,8 +46,8 @@ func AddInMap(item string, m map[string]SubMap) {
 		}
 		if !ok {
 			mm.Subitem = make(map[string]SubMap)
-			curm[s] = mm
 		}
+		curm[s] = mm
 		curm = mm.Subitem
 	}
 }
-- 
2.43.0


From 89969fba41db86f8c050ddd939e63c3126b1ea9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:08 +0000
Subject: [PATCH 19/42] fix: refuse rsync URLs without a host or a module

---
 sync/lib/utils.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sync/lib/utils.go b/sync/lib/utils.go
index b23765e..addc29e 100644
--- a/sync/lib/utils.go
+++ b/sync/lib/utils.go
@@ -21,9 +21,12 @@ type SubMap struct {
 }
 
 func ExtractRsyncDomainModule(rsync string) (string, string, error) {
+	if !isRsyncURL(rsync) {
+		return "", "", fmt.Errorf("%q is not an rsync URL", rsync)
+	}
 	if len(rsync) > len("rsync://") {
 		rsyncDomain := strings.Split(rsync[8:], "/")
-		if len(rsyncDomain) < 2 {
+		if len(rsyncDomain) < 2 || rsyncDomain[0] == "" || rsyncDomain[1] == "" {
 			return "", "", errors.New("rsync url does not contain module")
 		}
 		return fmt.Sprintf("rsync://%s/%s", rsyncDomain[0], rsyncDomain[1]), fmt.Sprintf("rsync://%s/", rsyncDomain[0]), nil
-- 
2.43.0


From d0cf17ba955ed5ea13e9ae75185baf2c878540a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:08 +0000
Subject: [PATCH 20/42] fix: map only the prefix of a path to the local tree

---
 sync/lib/fetch.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/sync/lib/fetch.go b/sync/lib/fetch.go
index be2fed2..7e42a5d 100644
--- a/sync/lib/fetch.go
+++ b/sync/lib/fetch.go
@@ -35,14 +35,24 @@ func (s *LocalFetch) SetRepositories(repositories map[string]time.Time) {
 func GetLocalPath(pathRep string, replace map[string]string) string {
 	sep := fmt.Sprintf("%c", os.PathSeparator)
 
-	for repKey, repVal := range replace {
-		if !strings.HasSuffix(repVal, sep) {
-			repVal += sep
+	// The longest prefix of the path that is mapped decides
+	var key string
+	var found bool
+	for repKey := range replace {
+		if strings.HasPrefix(pathRep, repKey) && (!found || len(repKey) > len(key)) {
+			key = repKey
+			found = true
 		}
+	}
+	if !found {
+		return pathRep
+	}
 
-		pathRep = strings.Replace(pathRep, repKey, repVal, -1)
+	repVal := replace[key]
+	if !strings.HasSuffix(repVal, sep) {
+		repVal += sep
 	}
-	return pathRep
+	return repVal + strings.TrimPrefix(pathRep, key)
 }
 
 func ReplacePath(file *pki.PKIFile, replace map[string]string) string {
-- 
2.43.0


From 369297c86da68dbf7ea0862b9ba383947822ba13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:08 +0000
Subject: [PATCH 21/42] fix: list the local copy of a repository, not its URL

---
 sync/lib/fetch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync/lib/fetch.go b/sync/lib/fetch.go
index 7e42a5d..2c9df78 100644
--- a/sync/lib/fetch.go
+++ b/sync/lib/fetch.go
@@ -128,7 +128,7 @@ func (s *LocalFetch) GetFileConv(file *pki.PKIFile, derEncoding bool) (*pki.Seek
 
 func (s *LocalFetch) GetRepository(file *pki.PKIFile, callback pki.CallbackExplore) error {
 	newPath := GetLocalPath(file.Repo, s.MapDirectory)
-	files, err := ioutil.ReadDir(file.Repo)
+	files, err := ioutil.ReadDir(newPath)
 	if err != nil {
 		return fmt.Errorf("Unable to read dir %q: %v", file.Repo, err)
 	}
-- 
2.43.0


From d8dd40e6f6b5b142fa2ca00aa7a9742aefc5674e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:23 +0000
Subject: [PATCH 22/42] fix: write the one-off output when the iteration limit
 ends exploration

---
 cmd/octorpki/octorpki.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index a4b2d6b..0a4ebb6 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -1565,6 +1565,14 @@ func (s *OctoRPKI) validationLoop() {
 		// Reduce
 		changed := s.MainReduce()
 		s.Stable.Store(!changed && s.stats.iterations.Load() > 1)
+
+		// GHSA-g5gj-9ggf-9vmq: Prevent infinite repository traversal
+		if iterationsUntilStable > *MaxIterations {
+			// GHSA-pmw9-567p-68pc: Do not crash when MaxIterations is reached
+			log.Warning("Max iterations has been reached. Defining current state as stable and stoppping deeper validation. This number can be adjusted with -max.iterations")
+			s.Stable.Store(true)
+		}
+
 		s.HasPreviousStable.Store(s.Stable.Load())
 
 		if *Mode == "oneoff" && (s.Stable.Load() || !*WaitStable) {
@@ -1574,13 +1582,6 @@ func (s *OctoRPKI) validationLoop() {
 		span.SetTag("stable", s.Stable.Load())
 		span.Finish()
 
-		// GHSA-g5gj-9ggf-9vmq: Prevent infinite repository traversal
-		if iterationsUntilStable > *MaxIterations {
-			// GHSA-pmw9-567p-68pc: Do not crash when MaxIterations is reached
-			log.Warning("Max iterations has been reached. Defining current state as stable and stoppping deeper validation. This number can be adjusted with -max.iterations")
-			s.Stable.Store(true)
-		}
-
 		if *Mode == "oneoff" && s.Stable.Load() {
 			log.Info("Stable, terminating")
 			break
-- 
2.43.0


From 281d76b1e1a63659b9f6334fd0ef6c0833bc671b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:23 +0000
Subject: [PATCH 23/42] fix: keep serving the ROA list after a stable state was
 reached

---
 cmd/octorpki/octorpki.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 0a4ebb6..e40b74d 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -1573,7 +1573,9 @@ func (s *OctoRPKI) validationLoop() {
 			s.Stable.Store(true)
 		}
 
-		s.HasPreviousStable.Store(s.Stable.Load())
+		if s.Stable.Load() {
+			s.HasPreviousStable.Store(true)
+		}
 
 		if *Mode == "oneoff" && (s.Stable.Load() || !*WaitStable) {
 			s.mustOutput()
-- 
2.43.0


From 7dc0a91058754704b6dc367cda7bc5d1e58efeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:07 +0000
Subject: [PATCH 24/42] fix: count the ROAs that are published

---
 cmd/octorpki/octorpki.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index e40b74d..2d4cb6c 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -772,7 +772,6 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 	roalist := &prefixfile.ROAList{
 		Data: make([]prefixfile.ROAJson, 0),
 	}
-	var counts int
 	resourcesjson := &schemas.ResourcesJSON{
 		Resources: make([]*schemas.OutputRes, 0),
 	}
@@ -929,7 +928,6 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 					TA:     talname,
 				}
 				roalist.Data = append(roalist.Data, oroa)
-				counts++
 				counttal++
 
 				curResource.ROAs = append(curResource.ROAs, &schemas.OutputROA{
@@ -1000,7 +998,6 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 	s.LastComputed = curTime
 	validTime := curTime.Add(*ValidityDuration)
 	roalist.Metadata = prefixfile.MetaData{
-		Counts:    counts,
 		Generated: int(curTime.Unix()),
 		Valid:     int(validTime.Unix()),
 	}
@@ -1010,6 +1007,7 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 	}
 
 	roalist.Data = filterDuplicates(roalist.Data)
+	roalist.Metadata.Counts = len(roalist.Data)
 	if *Sign {
 		s.signROAList(roalist, span)
 	}
-- 
2.43.0


From 48d0da778c89c506dc06040d2bbb7a20c96a658a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:21 +0000
Subject: [PATCH 25/42] fix: report a failed withdrawal in an RRDP delta

---
 sync/lib/rrdp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync/lib/rrdp.go b/sync/lib/rrdp.go
index c47eb12..eb154d2 100644
--- a/sync/lib/rrdp.go
+++ b/sync/lib/rrdp.go
@@ -351,7 +351,7 @@ func (s *RRDPSystem) FetchRRDP(cbArgs ...interface{}) error {
 					if err != nil {
 						return err
 					}
-					s.Callback(s.Path, root.Snapshot.URI, v.URI, vdec, true, false, elNode.Serial, cbArgs...)
+					err = s.Callback(s.Path, root.Snapshot.URI, v.URI, vdec, true, false, elNode.Serial, cbArgs...)
 					if err != nil {
 						return err
 					}
-- 
2.43.0


From e7d37765ad3eef29d7e857c0611c540d98e5f68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:21 +0000
Subject: [PATCH 26/42] fix: use the RRDP snapshot when the serial went
 backwards

---
 sync/lib/rrdp.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sync/lib/rrdp.go b/sync/lib/rrdp.go
index eb154d2..853c7a6 100644
--- a/sync/lib/rrdp.go
+++ b/sync/lib/rrdp.go
@@ -237,7 +237,8 @@ func (s *RRDPSystem) FetchRRDP(cbArgs ...interface{}) error {
 		}
 	}
 
-	if lastSerial == 0 || lastSessionID != curSessionID || missingFiles {
+	// A serial that went backwards cannot be reached with deltas either
+	if lastSerial == 0 || lastSessionID != curSessionID || missingFiles || curSerial < lastSerial {
 		if s.Log != nil {
 			s.Log.Infof("RRDP: %s downloading snapshot at: %s", s.Path, root.Snapshot.URI)
 		}
-- 
2.43.0


From a8cecc1eeb642e4ac518ae073bc727430da6ba60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:23 +0000
Subject: [PATCH 27/42] fix: refuse RRDP documents that are not well-formed or
 of another kind

---
 sync/lib/rrdp.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/sync/lib/rrdp.go b/sync/lib/rrdp.go
index 853c7a6..9e5cb91 100644
--- a/sync/lib/rrdp.go
+++ b/sync/lib/rrdp.go
@@ -6,6 +6,7 @@ import (
 	"encoding/xml"
 	"errors"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"net/http"
 	"strings"
@@ -71,12 +72,15 @@ func ParseRoot(data string) (Notification, error) {
 	r := bytes.NewBufferString(data)
 	decoder := xml.NewDecoder(r)
 
+	var found bool
 	for {
-		t, _ := decoder.Token()
-		if t == nil {
-			// EOF
+		t, err := decoder.Token()
+		if err == io.EOF {
 			break
 		}
+		if err != nil {
+			return n, fmt.Errorf("XML is not well-formed: %v", err)
+		}
 
 		switch se := t.(type) {
 		case xml.StartElement:
@@ -87,9 +91,13 @@ func ParseRoot(data string) (Notification, error) {
 				if err != nil {
 					return n, errors.New("XML does not conform to schema")
 				}
+				found = true
 			}
 		}
 	}
+	if !found {
+		return n, errors.New("XML does not contain a notification")
+	}
 	return n, nil
 }
 
@@ -102,17 +110,22 @@ func ParseNode(data string) ([]Cert, []Cert, error) {
 	byteStr := bytes.NewBufferString(data)
 	decoder := xml.NewDecoder(byteStr)
 
+	var found bool
 	for {
-		t, _ := decoder.Token()
-		if t == nil {
+		t, err := decoder.Token()
+		if err == io.EOF {
 			break
 		}
+		if err != nil {
+			return publish, withdraw, fmt.Errorf("XML is not well-formed: %v", err)
+		}
 
 		switch se := t.(type) {
 		case xml.StartElement:
 			name := se.Name.Local
 			switch name {
 			case "delta":
+				found = true
 				err := decoder.DecodeElement(&d, &se)
 
 				for _, v := range d.Publish {
@@ -129,6 +142,7 @@ func ParseNode(data string) ([]Cert, []Cert, error) {
 					return publish, withdraw, errors.New("XML does not conform to schema")
 				}
 			case "snapshot":
+				found = true
 				err := decoder.DecodeElement(&s, &se)
 
 				for _, v := range s.Publish {
@@ -147,6 +161,9 @@ func ParseNode(data string) ([]Cert, []Cert, error) {
 			}
 		}
 	}
+	if !found {
+		return publish, withdraw, errors.New("XML contains neither a snapshot nor a delta")
+	}
 	return publish, withdraw, nil
 }
 
-- 
2.43.0


From 66b799e7e8edf2aa68ce805438d92e03a619c41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:14 +0000
Subject: [PATCH 28/42] fix: check the URI of an object before touching the
 cache, and report failures instead of exiting

---
 cmd/octorpki/octorpki.go | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 2d4cb6c..0432358 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -324,29 +324,33 @@ func ExtractRsyncDomain(rsyncURL string) (string, error) {
 }
 
 func (s *OctoRPKI) WriteRsyncFileOnDisk(rsyncURL string, data []byte) error {
-	fPath := mustExtractFoldersPathFromRsyncURL(rsyncURL)
-	mustMkdirAll(fPath)
-	filePath := mustExtractFilePathFromRsyncURL(rsyncURL)
+	filePath, err := syncpki.ExtractFilePathFromRsyncURL(rsyncURL)
+	if err != nil {
+		return fmt.Errorf("Unable to extract file path from rsync url: %v", err)
+	}
 
 	// GHSA-8459-6rc9-8vf8: Prevent parent directory writes outside of Basepath
 	if strings.Contains(filePath, "../") || strings.Contains(filePath, "..\\") {
 		return fmt.Errorf("Path %q contains illegal path element", filePath)
 	}
 
-	fp := filepath.Join(*Basepath, filePath)
-	err := ioutil.WriteFile(fp, data, 0600)
+	fPath, err := syncpki.ExtractFoldersPathFromRsyncURL(rsyncURL)
 	if err != nil {
-		return fmt.Errorf("Unable to write file %q: %v", fp, err)
+		return fmt.Errorf("Failed to extract folder path from rsync URL: %v", err)
 	}
 
-	return nil
-}
+	err = os.MkdirAll(filepath.Join(*Basepath, fPath), os.ModePerm)
+	if err != nil {
+		return fmt.Errorf("Failed to create directories: %v", err)
+	}
 
-func mustMkdirAll(fPath string) {
-	err := os.MkdirAll(filepath.Join(*Basepath, fPath), os.ModePerm)
+	fp := filepath.Join(*Basepath, filePath)
+	err = ioutil.WriteFile(fp, data, 0600)
 	if err != nil {
-		log.Fatalf("Failed to create directories: %v", err)
+		return fmt.Errorf("Unable to write file %q: %v", fp, err)
 	}
+
+	return nil
 }
 
 func (s *OctoRPKI) ReceiveRRDPFileCallback(main string, url string, path string, data []byte, withdraw bool, snapshot bool, serial int64, args ...interface{}) error {
@@ -529,15 +533,6 @@ func (s *OctoRPKI) mainRsync(pSpan opentracing.Span) {
 	MetricOperationTime.With(prometheus.Labels{"type": "rsync"}).Observe(float64(t2.Sub(t1).Seconds()))
 }
 
-func mustExtractFoldersPathFromRsyncURL(rsyncURL string) string {
-	downloadPath, err := syncpki.ExtractFoldersPathFromRsyncURL(rsyncURL)
-	if err != nil {
-		log.Fatalf("Failed to extract folder path from rsync URL: %v", err)
-	}
-
-	return downloadPath
-}
-
 func mustExtractFilePathFromRsyncURL(rsyncURL string) string {
 	fPath, err := syncpki.ExtractFilePathFromRsyncURL(rsyncURL)
 	if err != nil {
-- 
2.43.0


From 95e8455ea7b0165b57809ea0f0b1756ed23620d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:17 +0000
Subject: [PATCH 29/42] fix: refuse to synchronise an rsync URL with parent
 directory elements

---
 cmd/octorpki/octorpki.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 0432358..1559096 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -533,13 +533,20 @@ func (s *OctoRPKI) mainRsync(pSpan opentracing.Span) {
 	MetricOperationTime.With(prometheus.Labels{"type": "rsync"}).Observe(float64(t2.Sub(t1).Seconds()))
 }
 
-func mustExtractFilePathFromRsyncURL(rsyncURL string) string {
+// rsyncDownloadPath is the directory of the cache an rsync URL is synchronised to
+func rsyncDownloadPath(rsyncURL string) (string, error) {
 	fPath, err := syncpki.ExtractFilePathFromRsyncURL(rsyncURL)
 	if err != nil {
-		log.Fatalf("Unable to extract file path from rsync url: %v", err)
+		return "", fmt.Errorf("Unable to extract file path from rsync url: %v", err)
 	}
 
-	return fPath
+	for _, element := range strings.Split(fPath, "/") {
+		if element == ".." {
+			return "", fmt.Errorf("Path %q contains illegal path element", fPath)
+		}
+	}
+
+	return filepath.Join(*Basepath, fPath), nil
 }
 
 func (s *OctoRPKI) fetchRsync(uri string, span opentracing.Span) {
@@ -549,9 +556,12 @@ func (s *OctoRPKI) fetchRsync(uri string, span opentracing.Span) {
 	rSpan.SetTag("type", "rsync")
 
 	log.Infof("Rsync sync %v", uri)
-	downloadPath := mustExtractFilePathFromRsyncURL(uri)
+	path, err := rsyncDownloadPath(uri)
+	if err != nil {
+		s.rsyncError(uri, path, err, rSpan)
+		return
+	}
 
-	path := filepath.Join(*Basepath, downloadPath)
 	ctxRsync, cancelRsync := context.WithTimeout(context.Background(), *RsyncTimeout)
 	defer cancelRsync()
 
-- 
2.43.0


From 0f9850b230401c1c5452a9b18c8a0b2d5015ec23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:18 +0000
Subject: [PATCH 30/42] fix: compare the host bound to an RRDP source with the
 start of the object URI

---
 cmd/octorpki/octorpki.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 1559096..bb78b20 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -356,7 +356,7 @@ func (s *OctoRPKI) WriteRsyncFileOnDisk(rsyncURL string, data []byte) error {
 func (s *OctoRPKI) ReceiveRRDPFileCallback(main string, url string, path string, data []byte, withdraw bool, snapshot bool, serial int64, args ...interface{}) error {
 	if len(args) > 0 {
 		rsync, ok := args[0].(string)
-		if ok && !strings.Contains(path, rsync) {
+		if ok && !strings.HasPrefix(path, rsync) {
 			log.Errorf("rrdp: %s is outside directory %s", path, rsync)
 			return nil
 		}
-- 
2.43.0


From 03e736fc46b6877619b0a2b5f49dc8425031418d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:42 +0000
Subject: [PATCH 31/42] fix: remove an object withdrawn over RRDP instead of
 emptying it

---
 cmd/octorpki/octorpki.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index bb78b20..dd2cf0e 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -353,6 +353,26 @@ func (s *OctoRPKI) WriteRsyncFileOnDisk(rsyncURL string, data []byte) error {
 	return nil
 }
 
+func (s *OctoRPKI) removeRsyncFileFromDisk(rsyncURL string) error {
+	filePath, err := syncpki.ExtractFilePathFromRsyncURL(rsyncURL)
+	if err != nil {
+		return fmt.Errorf("Unable to extract file path from rsync url: %v", err)
+	}
+
+	// Prevent removals outside of Basepath
+	if strings.Contains(filePath, "../") || strings.Contains(filePath, "..\\") {
+		return fmt.Errorf("Path %q contains illegal path element", filePath)
+	}
+
+	fp := filepath.Join(*Basepath, filePath)
+	err = os.Remove(fp)
+	if err != nil && !os.IsNotExist(err) {
+		return fmt.Errorf("Unable to remove file %q: %v", fp, err)
+	}
+
+	return nil
+}
+
 func (s *OctoRPKI) ReceiveRRDPFileCallback(main string, url string, path string, data []byte, withdraw bool, snapshot bool, serial int64, args ...interface{}) error {
 	if len(args) > 0 {
 		rsync, ok := args[0].(string)
@@ -362,6 +382,14 @@ func (s *OctoRPKI) ReceiveRRDPFileCallback(main string, url string, path string,
 		}
 	}
 
+	if withdraw {
+		err := s.removeRsyncFileFromDisk(path)
+		if err != nil {
+			return fmt.Errorf("Unable to remove withdrawn file %q from disk: %v", path, err)
+		}
+		return nil
+	}
+
 	err := s.WriteRsyncFileOnDisk(path, data)
 	if err != nil {
 		return fmt.Errorf("Unable to write sync file %q on disk: %v", path, err)
-- 
2.43.0


From fc428e99bc63c8408d9f1ebf6bb77df3a4a136f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:57 +0000
Subject: [PATCH 32/42] fix: answer the ROA and info pages from one published
 list

While a validation ran, ServeROAs read LastComputed and ServeInfo read
ROAList and the statistics without a lock: the info page could show the
counts of an unfinished validation, and a list could be given a lifetime
that belongs to another.
---
 cmd/octorpki/octorpki.go | 49 +++++++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index dd2cf0e..308e578 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -278,11 +278,33 @@ func (s *OctoRPKI) setRRDPDomain(path string, domain string) {
 }
 
 type octoRPKIStats struct {
+	mu                 sync.RWMutex // protects ValidationDuration and ROAsTALsCount
 	ValidationDuration time.Duration
 	iterations         atomic.Uint64
 	ROAsTALsCount      []ROAsTAL
 }
 
+func (st *octoRPKIStats) setValidationDuration(d time.Duration) {
+	st.mu.Lock()
+	defer st.mu.Unlock()
+
+	st.ValidationDuration = d
+}
+
+func (st *octoRPKIStats) setROAsTALsCount(counts []ROAsTAL) {
+	st.mu.Lock()
+	defer st.mu.Unlock()
+
+	st.ROAsTALsCount = counts
+}
+
+func (st *octoRPKIStats) get() (time.Duration, []ROAsTAL) {
+	st.mu.RLock()
+	defer st.mu.RUnlock()
+
+	return st.ValidationDuration, st.ROAsTALsCount
+}
+
 func newOctoRPKIStats() *octoRPKIStats {
 	return &octoRPKIStats{
 		ROAsTALsCount: make([]ROAsTAL, 0),
@@ -810,7 +832,7 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 	}
 	resourcesMap := make(map[string]*schemas.OutputRes)
 	resourcesjson.Metadata.Generated = int(time.Now().UTC().UnixNano() / 1000000000)
-	s.stats.ROAsTALsCount = make([]ROAsTAL, 0)
+	roasTALsCount := make([]ROAsTAL, 0)
 	for i, tal := range s.Tals {
 		eSpan := s.tracer.StartSpan("extract", opentracing.ChildOf(span.Context()))
 		eSpan.SetTag("tal", tal.Path)
@@ -972,7 +994,7 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 			resourcesjson.Resources = append(resourcesjson.Resources, curResource)
 		}
 
-		s.stats.ROAsTALsCount = append(s.stats.ROAsTALsCount, ROAsTAL{TA: talname, Count: counttal})
+		roasTALsCount = append(roasTALsCount, ROAsTAL{TA: talname, Count: counttal})
 		MetricROAsCount.With(prometheus.Labels{"ta": talname}).Set(float64(counttal))
 
 		// Complete: Manifests
@@ -1027,6 +1049,7 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 
 		eSpan.Finish()
 	}
+	s.stats.setROAsTALsCount(roasTALsCount)
 	curTime := time.Now()
 	s.LastComputed = curTime
 	validTime := curTime.Add(*ValidityDuration)
@@ -1165,8 +1188,8 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) [][]*pki.PKIFile {
 	s.setROAList(s.generateROAList(pkiManagers, span))
 
 	t2 := time.Now()
-	s.stats.ValidationDuration = t2.Sub(t1)
-	MetricOperationTime.With(prometheus.Labels{"type": "validation"}).Observe(float64(s.stats.ValidationDuration.Seconds()))
+	s.stats.setValidationDuration(t2.Sub(t1))
+	MetricOperationTime.With(prometheus.Labels{"type": "validation"}).Observe(t2.Sub(t1).Seconds())
 	MetricLastValidation.Set(float64(s.LastComputed.Unix()))
 
 	return ctData
@@ -1238,7 +1261,10 @@ func (s *OctoRPKI) ServeROAs(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	upTo := s.LastComputed.Add(*ValidityDuration)
+	// The list may be replaced at any time: everything about it is taken from this one.
+	roaList := s.getROAList()
+
+	upTo := time.Unix(int64(roaList.Metadata.Valid), 0)
 	maxAge := int(upTo.Sub(time.Now()).Seconds())
 
 	w.Header().Set("Content-Type", "application/json")
@@ -1247,8 +1273,6 @@ func (s *OctoRPKI) ServeROAs(w http.ResponseWriter, r *http.Request) {
 		w.Header().Set("Cache-Control", fmt.Sprintf("max-age=%v", maxAge))
 	}
 
-	roaList := s.getROAList()
-
 	etag := sha256.New()
 	etag.Write([]byte(fmt.Sprintf("%v/%v", roaList.Metadata.Generated, roaList.Metadata.Counts)))
 	etagSum := etag.Sum(nil)
@@ -1343,13 +1367,16 @@ func (s *OctoRPKI) ServeInfo(w http.ResponseWriter, r *http.Request) {
 		})
 	}
 
+	roaList := s.getROAList()
+	validationDuration, roasTALsCount := s.stats.get()
+
 	ir := InfoResult{
 		TAs:                ias,
-		ROACount:           len(s.ROAList.Data),
-		ROAsTALs:           s.stats.ROAsTALsCount,
+		ROACount:           len(roaList.Data),
+		ROAsTALs:           roasTALsCount,
 		Stable:             s.Stable.Load(),
-		LastValidation:     int(s.LastComputed.Unix()),
-		ValidationDuration: s.stats.ValidationDuration.Seconds(),
+		LastValidation:     roaList.Metadata.Generated,
+		ValidationDuration: validationDuration.Seconds(),
 		Iteration:          int(s.stats.iterations.Load()),
 	}
 	enc := json.NewEncoder(w)
-- 
2.43.0


From c1df2811d6985cf7800369bfe4025f3f1358383c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:38 +0000
Subject: [PATCH 33/42] fix: end a Certificate Transparency chain at its trust
 anchor

A trust anchor that names itself as its issuer was sent twice, and one
that names another key added a nil file, which ended the program.
---
 cmd/octorpki/octorpki.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 308e578..b2c509f 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -1216,15 +1216,15 @@ func (s *OctoRPKI) ct(pkiManagers []*pki.SimpleManager, i int) [][]*pki.PKIFile
 		curPathCT := make([]*pki.PKIFile, 1)
 		curPathCT[0] = curPath
 
-		var ok bool
-		for curAki != "" && !ok {
-			ok = skiDone[curAki]
+		for curAki != "" && !skiDone[curAki] {
 			skiDone[curAki] = true
 
-			curPath = skiToPath[curAki]
-			if curAki != "" {
-				curPathCT = append(curPathCT, curPath)
+			var ok bool
+			curPath, ok = skiToPath[curAki]
+			if !ok {
+				break
 			}
+			curPathCT = append(curPathCT, curPath)
 			curAki = skiToAki[curAki]
 		}
 		pathCT = append(pathCT, curPathCT)
-- 
2.43.0


From 21ab45fda5c12ee8a82e5e9ff9300bc6fb4b35fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:19 +0000
Subject: [PATCH 34/42] fix: leave out a Certificate Transparency chain with an
 unreadable object

Reading the object failed or found nothing, and the program ended with a
nil dereference; where it did not, the chain was sent without the object.
The answers of the log are closed.
---
 cmd/octorpki/ct.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/cmd/octorpki/ct.go b/cmd/octorpki/ct.go
index e2c19cd..03ce57b 100644
--- a/cmd/octorpki/ct.go
+++ b/cmd/octorpki/ct.go
@@ -32,6 +32,7 @@ func SingleSendCertificateTransparency(httpclient *http.Client, path string, msg
 
 	resp, err := httpclient.Post(fmt.Sprintf("%v/ct/v1/add-chain", path), "application/json", buf)
 	if err == nil {
+		defer resp.Body.Close()
 		respStr, _ := io.ReadAll(resp.Body)
 		log.Debugf("Sent %v certs %v %v %v", len(msg.Chain), path, string(respStr), err)
 	}
@@ -74,31 +75,39 @@ func (s *OctoRPKI) SendCertificateTransparency(pSpan opentracing.Span, ctData []
 	var iterations int
 	for _, certs := range ctData {
 		chain := make([][]byte, 0)
+		complete := true
 
 		for _, cert := range certs {
 			var dataBytes []byte
 			data, err := s.Fetcher.GetFile(cert)
+			if err == nil && data == nil {
+				err = fmt.Errorf("%v is not available", cert.Path)
+			}
+			if err != nil {
+				log.Error(err)
+				complete = false
+				break
+			}
+
 			if cert.Type == pki.TYPE_ROA || cert.Type == pki.TYPE_MFT {
 				cms, err := librpki.DecodeCMS(data.Data)
 				if err != nil {
 					log.Error(err)
-					continue
+					complete = false
+					break
 				}
 				dataBytes = cms.SignedData.Certificates.Bytes
 			} else {
 				dataBytes = data.Data
 			}
 
-			if err != nil {
-				log.Error(err)
-				continue
-			}
-
 			chain = append(chain, dataBytes)
 		}
 
-		dataChan <- &ct.AddChainRequest{
-			Chain: chain,
+		if complete {
+			dataChan <- &ct.AddChainRequest{
+				Chain: chain,
+			}
 		}
 
 		iterations++
-- 
2.43.0


From f014a3051e218149b6d01ab6d7577dba7902affd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:55 +0000
Subject: [PATCH 35/42] fix: list a valid object whose file is gone without its
 hash

GetFileConv returns nothing for a file that does not exist, and the
program ended with a nil dereference while computing the list.
---
 cmd/octorpki/octorpki.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index b2c509f..5ae44b0 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -854,7 +854,7 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 				if obj.File != nil {
 					path = obj.File.ComputePath()
 					resData, err := s.Fetcher.GetFileConv(obj.File, false)
-					if err == nil {
+					if err == nil && resData != nil {
 						hashBytes := sha256.Sum256(resData.Data)
 						hash = hex.EncodeToString(hashBytes[:])
 					}
@@ -942,7 +942,7 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 			if obj.File != nil {
 				path = obj.File.ComputePath()
 				resData, err := s.Fetcher.GetFileConv(obj.File, false)
-				if err == nil {
+				if err == nil && resData != nil {
 					hashBytes := sha256.Sum256(resData.Data)
 					hash = hex.EncodeToString(hashBytes[:])
 				}
@@ -1006,7 +1006,7 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 			if obj.File != nil {
 				path = obj.File.ComputePath()
 				resData, err := s.Fetcher.GetFileConv(obj.File, false)
-				if err == nil {
+				if err == nil && resData != nil {
 					hashBytes := sha256.Sum256(resData.Data)
 					hash = hex.EncodeToString(hashBytes[:])
 				}
-- 
2.43.0


From 7a88427b5658020a6864d2f604245231da8cd40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:38 +0000
Subject: [PATCH 36/42] fix: compare the manifest's validity window with the
 validation time

Explore compared it with the wall clock, so that validating at another
time (localrpki -valid.time) invalidated every CA whose manifest is not
current now.
---
 validator/pki/pki.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index b5665cd..27bf193 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -887,7 +887,7 @@ func (sm *SimpleManager) Explore(notMFT bool, addInvalidChilds bool) int {
 					if ok && res != nil && res.Resource != nil {
 						cert, ok := res.Resource.(*librpki.RPKIManifest)
 						if ok {
-							if time.Now().After(cert.Content.NextUpdate) || time.Now().Before(cert.Content.ThisUpdate) {
+							if sm.Validator.Time.After(cert.Content.NextUpdate) || sm.Validator.Time.Before(cert.Content.ThisUpdate) {
 								sm.InvalidateManifestParent(file, nil)
 							}
 						} else {
-- 
2.43.0


From c437137a7e86f1d9421c12264f73f4133137d312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:38 +0000
Subject: [PATCH 37/42] fix: name files of an explored directory relative to it

LocalFetch.GetRepository gave them their full URI, to which ComputePath
adds the directory again, and read them beside a directory whose URI has
no trailing slash.
---
 sync/lib/fetch.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sync/lib/fetch.go b/sync/lib/fetch.go
index 2c9df78..0720879 100644
--- a/sync/lib/fetch.go
+++ b/sync/lib/fetch.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io/ioutil"
 	"os"
+	"path/filepath"
 	"strings"
 	"time"
 
@@ -138,7 +139,7 @@ func (s *LocalFetch) GetRepository(file *pki.PKIFile, callback pki.CallbackExplo
 			continue
 		}
 
-		data, sha256, err := FetchFile(newPath+fileDir.Name(), true)
+		data, sha256, err := FetchFile(filepath.Join(newPath, fileDir.Name()), true)
 		if err != nil {
 			return fmt.Errorf("FetchFile failed: %v", err)
 		}
@@ -164,7 +165,7 @@ func (s *LocalFetch) GetRepository(file *pki.PKIFile, callback pki.CallbackExplo
 				Parent: file,
 				Type:   extension,
 				Repo:   file.Repo,
-				Path:   file.Repo + fileDir.Name(),
+				Path:   fileDir.Name(),
 			},
 			&pki.SeekFile{
 				File:   file.Path,
-- 
2.43.0


From ddeb2c9d230a26fea6c321c420a62fbad4c25231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:38 +0000
Subject: [PATCH 38/42] fix: refuse a validation time that cannot be understood

localrpki validated at year 1 and wrote an empty list.
---
 cmd/localrpki/localrpki.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/localrpki/localrpki.go b/cmd/localrpki/localrpki.go
index f734efe..312e34f 100644
--- a/cmd/localrpki/localrpki.go
+++ b/cmd/localrpki/localrpki.go
@@ -63,6 +63,8 @@ func main() {
 	} else if vttmp, err := time.Parse(time.RFC3339, *ValidTime); err == nil {
 		vt = vttmp
 		log.Infof("Setting time to %v (RFC3339)", vt)
+	} else {
+		log.Fatalf("%q is not a validation time", *ValidTime)
 	}
 
 	rootTALs := strings.Split(*RootTAL, ",")
-- 
2.43.0


From 5b589a5750e26802d9521cfa6788ef3af499c5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:31 +0000
Subject: [PATCH 39/42] fix: ctrpki: end a chain with its trust anchor

A trust anchor with its own authority key identifier was sent twice in
each chain, and one with an unknown identifier gave a nil entry.
---
 cmd/ctrpki/ctrpki.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cmd/ctrpki/ctrpki.go b/cmd/ctrpki/ctrpki.go
index 9cfbe10..3a912d6 100644
--- a/cmd/ctrpki/ctrpki.go
+++ b/cmd/ctrpki/ctrpki.go
@@ -137,15 +137,15 @@ func main() {
 			curPathCT := make([]*pki.PKIFile, 1)
 			curPathCT[0] = curPath
 
-			var ok bool
-			for curAki != "" && !ok {
-				ok = skiDone[curAki]
+			for curAki != "" && !skiDone[curAki] {
 				skiDone[curAki] = true
 
-				curPath = skiToPath[curAki]
-				if curAki != "" {
-					curPathCT = append(curPathCT, curPath)
+				var ok bool
+				curPath, ok = skiToPath[curAki]
+				if !ok {
+					break
 				}
+				curPathCT = append(curPathCT, curPath)
 				curAki = skiToAki[curAki]
 			}
 			pathCT = append(pathCT, curPathCT)
-- 
2.43.0


From 19dd1fa30e593a0d70d6ca079af0448ef68dc903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:31 +0000
Subject: [PATCH 40/42] fix: ctrpki: send each chain once with several TALs

All TALs shared one validator, so the chains of one were sent again for
each TAL after it.
---
 cmd/ctrpki/ctrpki.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/cmd/ctrpki/ctrpki.go b/cmd/ctrpki/ctrpki.go
index 3a912d6..127349f 100644
--- a/cmd/ctrpki/ctrpki.go
+++ b/cmd/ctrpki/ctrpki.go
@@ -59,17 +59,15 @@ func main() {
 		MapDirectory: mapDir,
 	}
 
-	validator := pki.NewValidator()
-
+	var vt time.Time
 	if *ValidTime == "now" {
-		validator.Time = time.Now().UTC()
+		vt = time.Now().UTC()
 	} else if ts, err := strconv.ParseInt(*ValidTime, 10, 64); err == nil {
-		vt := time.Unix(int64(ts), 0)
+		vt = time.Unix(int64(ts), 0)
 		log.Infof("Setting time to %v (timestamp)", vt)
-		validator.Time = vt
-	} else if vt, err := time.Parse(time.RFC3339, *ValidTime); err == nil {
+	} else if vttmp, err := time.Parse(time.RFC3339, *ValidTime); err == nil {
+		vt = vttmp
 		log.Infof("Setting time to %v (RFC3339)", vt)
-		validator.Time = vt
 	}
 
 	ctclient, err := client.New(*CertificateTransparency, http.DefaultClient, jsonclient.Options{
@@ -103,6 +101,9 @@ func main() {
 	rootTALs := strings.Split(*RootTAL, ",")
 	ctData := make([][]*pki.PKIFile, 0)
 	for _, tal := range rootTALs {
+		validator := pki.NewValidator()
+		validator.Time = vt
+
 		manager := pki.NewSimpleManager()
 		manager.Validator = validator
 		manager.FileSeeker = &s
-- 
2.43.0


From 362c0ce71c00929d15daea910c21b671413be9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:31 +0000
Subject: [PATCH 41/42] fix: ctrpki: leave out chains with an unreadable object

Such an object crashed the program or was silently dropped from its
chain.
---
 cmd/ctrpki/ctrpki.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/cmd/ctrpki/ctrpki.go b/cmd/ctrpki/ctrpki.go
index 127349f..1493d9c 100644
--- a/cmd/ctrpki/ctrpki.go
+++ b/cmd/ctrpki/ctrpki.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/hex"
 	"flag"
+	"fmt"
 	"net/http"
 	"runtime"
 	"strconv"
@@ -159,29 +160,38 @@ func main() {
 	var itera int
 	for _, certs := range ctData {
 		chain := make([]ct.ASN1Cert, 0)
+		complete := true
 
 		for _, cert := range certs {
 			var dataBytes []byte
 			data, err := s.GetFile(cert)
+			if err == nil && data == nil {
+				err = fmt.Errorf("%v is not available", cert.Path)
+			}
+			if err != nil {
+				log.Error(err)
+				complete = false
+				break
+			}
+
 			if cert.Type == pki.TYPE_ROA || cert.Type == pki.TYPE_MFT {
 				cms, err := librpki.DecodeCMS(data.Data)
 				if err != nil {
 					log.Error(err)
-					continue
+					complete = false
+					break
 				}
 				dataBytes = cms.SignedData.Certificates.Bytes
 			} else {
 				dataBytes = data.Data
 			}
 
-			if err != nil {
-				log.Error(err)
-				continue
-			}
 			chain = append(chain, ct.ASN1Cert{Data: dataBytes})
 		}
 
-		if threads > 0 {
+		if !complete {
+			log.Errorf("Leaving out an incomplete chain")
+		} else if threads > 0 {
 			dataChan <- chain
 		} else {
 			_, err := ctclient.AddChain(context.Background(), chain)
-- 
2.43.0


From dde358fc213cd63e02d883affe6d629dbd46327f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:31 +0000
Subject: [PATCH 42/42] fix: ctrpki: send the queued chains before exiting

The threads were told to stop while chains were still queued; they chose
at random between the two.
---
 cmd/ctrpki/ctrpki.go | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/cmd/ctrpki/ctrpki.go b/cmd/ctrpki/ctrpki.go
index 1493d9c..3b56f29 100644
--- a/cmd/ctrpki/ctrpki.go
+++ b/cmd/ctrpki/ctrpki.go
@@ -9,6 +9,7 @@ import (
 	"runtime"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	syncpki "github.com/cloudflare/cfrpki/sync/lib"
@@ -30,20 +31,16 @@ var (
 	CertificateTransparencyThreads = flag.Int("ct.threads", 50, "Number of threads to send to the CT Log")
 )
 
-func BatchCertificateTransparency(ctclient *client.LogClient, chain chan []ct.ASN1Cert, q chan bool) {
+func BatchCertificateTransparency(ctclient *client.LogClient, chain chan []ct.ASN1Cert, wg *sync.WaitGroup) {
+	defer wg.Done()
 	log.Debugf("Starting BatchCertificateTransparency")
-	for {
-		select {
-		case msg := <-chain:
-			_, err := ctclient.AddChain(context.Background(), msg)
-			if err != nil {
-				log.Error(err)
-			}
-		case <-q:
-			log.Debugf("Closing thread")
-			return
+	for msg := range chain {
+		_, err := ctclient.AddChain(context.Background(), msg)
+		if err != nil {
+			log.Error(err)
 		}
 	}
+	log.Debugf("Closing thread")
 }
 
 func main() {
@@ -81,22 +78,17 @@ func main() {
 
 	threads := *CertificateTransparencyThreads
 
-	qList := make([]chan bool, threads)
+	var wg sync.WaitGroup
 	dataChan := make(chan []ct.ASN1Cert, threads)
-	if threads > 0 {
-		for i := 0; i < threads; i++ {
-			q := make(chan bool)
-			qList[i] = q
-			go BatchCertificateTransparency(ctclient, dataChan, q)
-		}
+	for i := 0; i < threads; i++ {
+		wg.Add(1)
+		go BatchCertificateTransparency(ctclient, dataChan, &wg)
 	}
 
+	// Send what is queued before leaving
 	defer func() {
-		if threads > 0 {
-			for i := 0; i < threads; i++ {
-				qList[i] <- true
-			}
-		}
+		close(dataChan)
+		wg.Wait()
 	}()
 
 	rootTALs := strings.Split(*RootTAL, ",")
-- 
2.43.0

