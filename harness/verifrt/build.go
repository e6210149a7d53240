package verifrt

// Builders of RPKI objects in DER, written from the RFCs and independent of the code under test.
// Structure is concrete; contents may be symbolic.

func TLV(tag byte, parts ...[]byte) []byte {
	n := 0
	for _, p := range parts {
		n += len(p)
	}
	out := []byte{tag}
	switch {
	case n < 128:
		out = append(out, byte(n))
	case n < 256:
		out = append(out, 0x81, byte(n))
	default:
		out = append(out, 0x82, byte(n>>8), byte(n))
	}
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

func Seq(parts ...[]byte) []byte { return TLV(0x30, parts...) }
func Set(parts ...[]byte) []byte { return TLV(0x31, parts...) }
func Octets(b []byte) []byte     { return TLV(4, b) }
func BitStr(b []byte) []byte     { return TLV(3, []byte{0}, b) }
func Null() []byte               { return []byte{5, 0} }

// Uint is a non-negative INTEGER from big-endian bytes whose top bit is taken as magnitude.
func Uint(b []byte) []byte {
	if len(b) == 0 {
		b = []byte{0}
	}
	return TLV(2, b)
}

// UintMag adds the leading zero a magnitude with the top bit set needs (concrete bytes only).
func UintMag(b []byte) []byte {
	if len(b) > 0 && b[0] >= 0x80 {
		return TLV(2, []byte{0}, b)
	}
	return TLV(2, b)
}

func OID(arcs ...int) []byte {
	b := base128(nil, arcs[0]*40+arcs[1])
	for _, a := range arcs[2:] {
		b = base128(b, a)
	}
	return TLV(6, b)
}

func base128(b []byte, v int) []byte {
	n := 1
	for x := v >> 7; x > 0; x >>= 7 {
		n++
	}
	for i := n - 1; i >= 0; i-- {
		c := byte(v>>uint(7*i)) & 0x7f
		if i > 0 {
			c |= 0x80
		}
		b = append(b, c)
	}
	return b
}

var (
	OidSHA256    = []int{2, 16, 840, 1, 101, 3, 4, 2, 1}
	OidRSA       = []int{1, 2, 840, 113549, 1, 1, 1}
	OidRSASHA256 = []int{1, 2, 840, 113549, 1, 1, 11}
	OidCARepo    = []int{1, 3, 6, 1, 5, 5, 7, 48, 5}
	OidSIAMft    = []int{1, 3, 6, 1, 5, 5, 7, 48, 10}
	OidRRDP      = []int{1, 3, 6, 1, 5, 5, 7, 48, 13}
	OidSigned    = []int{1, 3, 6, 1, 5, 5, 7, 48, 11}
	OidROA       = []int{1, 2, 840, 113549, 1, 9, 16, 1, 24}
	OidMft       = []int{1, 2, 840, 113549, 1, 9, 16, 1, 26}
	OidCtype     = []int{1, 2, 840, 113549, 1, 9, 3}
	OidDigest    = []int{1, 2, 840, 113549, 1, 9, 4}
	OidSignTime  = []int{1, 2, 840, 113549, 1, 9, 5}
	OidSigData   = []int{1, 2, 840, 113549, 1, 7, 2}
)

// SigAlg is sha256WithRSAEncryption.
func SigAlg() []byte { return Seq(OID(OidRSASHA256...), Null()) }

func name(cn string) []byte {
	return Seq(Set(Seq(OID(2, 5, 4, 3), TLV(0x13, []byte(cn)))))
}

func gtime(s string) []byte { return TLV(0x18, []byte(s)) }

// SPKI is the subject public key info of the i-th fixed key.
func SPKI(i int) []byte {
	return Seq(Seq(OID(OidRSA...), Null()), BitStr(Seq(UintMag(keyN(i)), TLV(2, []byte{1, 0, 1}))))
}

type SIAItem struct {
	Method []int
	URI    []byte
}

type CertSpec struct {
	Serial    []byte // content octets of a positive INTEGER
	Issuer    string
	Subject   string
	NotBefore string // YYYYMMDDhhmmssZ
	NotAfter  string
	Key       int
	SKI, AKI  []byte // nil: extension left out
	CA        bool
	NoBasic   bool
	IPs       []byte // extension value, nil: left out
	AS        []byte
	SIA       []SIAItem
	CRLDP     []string
	Signer    int
	FlipSig   bool
}

func ext(critical bool, value []byte, oid ...int) []byte {
	if critical {
		return Seq(OID(oid...), []byte{1, 1, 0xff}, Octets(value))
	}
	return Seq(OID(oid...), Octets(value))
}

// Cert encodes and signs a certificate.
func Cert(c CertSpec) []byte {
	if c.NotBefore == "" {
		c.NotBefore = "20200101000000Z"
	}
	if c.NotAfter == "" {
		c.NotAfter = "20300101000000Z"
	}
	var exts [][]byte
	if c.SKI != nil {
		exts = append(exts, ext(false, Octets(c.SKI), 2, 5, 29, 14))
	}
	if c.AKI != nil {
		exts = append(exts, ext(false, Seq(TLV(0x80, c.AKI)), 2, 5, 29, 35))
	}
	if !c.NoBasic {
		if c.CA {
			exts = append(exts, ext(true, Seq([]byte{1, 1, 0xff}), 2, 5, 29, 19))
			exts = append(exts, ext(true, TLV(3, []byte{1, 6}), 2, 5, 29, 15))
		} else {
			exts = append(exts, ext(true, TLV(3, []byte{7, 0x80}), 2, 5, 29, 15))
		}
	}
	if len(c.CRLDP) > 0 {
		var dps [][]byte
		for _, u := range c.CRLDP {
			dps = append(dps, Seq(TLV(0xa0, TLV(0xa0, TLV(0x86, []byte(u))))))
		}
		exts = append(exts, ext(false, Seq(dps...), 2, 5, 29, 31))
	}
	if len(c.SIA) > 0 {
		var items [][]byte
		for _, s := range c.SIA {
			items = append(items, Seq(OID(s.Method...), TLV(0x86, s.URI)))
		}
		exts = append(exts, ext(false, Seq(items...), 1, 3, 6, 1, 5, 5, 7, 1, 11))
	}
	if c.IPs != nil {
		exts = append(exts, ext(true, c.IPs, 1, 3, 6, 1, 5, 5, 7, 1, 7))
	}
	if c.AS != nil {
		exts = append(exts, ext(true, c.AS, 1, 3, 6, 1, 5, 5, 7, 1, 8))
	}
	tbs := Seq(
		TLV(0xa0, []byte{2, 1, 2}), TLV(2, c.Serial), SigAlg(), name(c.Issuer),
		Seq(gtime(c.NotBefore), gtime(c.NotAfter)), name(c.Subject), SPKI(c.Key),
		TLV(0xa3, Seq(exts...)))
	sig := Sign(c.Signer, tbs)
	if c.FlipSig {
		sig[len(sig)-1] ^= 1
	}
	return Seq(tbs, SigAlg(), BitStr(sig))
}

type RevokedItem struct {
	Serial []byte
	Time   string
}

type CRLSpec struct {
	Issuer  string
	AKI     []byte
	Number  []byte
	Revoked []RevokedItem
	Signer  int
	FlipSig bool
	This    string
	Next    string
}

// CRL encodes and signs a certificate revocation list.
func CRL(c CRLSpec) []byte {
	if c.This == "" {
		c.This = "20200101000000Z"
	}
	if c.Next == "" {
		c.Next = "20300101000000Z"
	}
	var rs [][]byte
	for _, r := range c.Revoked {
		if r.Time == "" {
			r.Time = "20200102000000Z"
		}
		rs = append(rs, Seq(TLV(2, r.Serial), gtime(r.Time)))
	}
	parts := [][]byte{{2, 1, 1}, SigAlg(), name(c.Issuer), gtime(c.This), gtime(c.Next)}
	if len(rs) > 0 {
		parts = append(parts, Seq(rs...))
	}
	num := c.Number
	if num == nil {
		num = []byte{1}
	}
	var exts [][]byte
	if c.AKI != nil {
		exts = append(exts, ext(false, Seq(TLV(0x80, c.AKI)), 2, 5, 29, 35))
	}
	exts = append(exts, ext(false, TLV(2, num), 2, 5, 29, 20))
	parts = append(parts, TLV(0xa0, Seq(exts...)))
	tbs := Seq(parts...)
	sig := Sign(c.Signer, tbs)
	if c.FlipSig {
		sig[len(sig)-1] ^= 1
	}
	return Seq(tbs, SigAlg(), BitStr(sig))
}

type CMSSpec struct {
	ContentType []int
	Content     []byte // DER content
	Cert        []byte
	SKI         []byte
	Signer      int
	Digest      []byte // nil: the right one
	FlipSig     bool
	NoSigner    bool
}

// Attrs are the signed attributes of the object, in DER order.
func Attrs(contentType []int, digest []byte) []byte {
	var out []byte
	for _, a := range [][]byte{
		Seq(OID(OidCtype...), Set(OID(contentType...))),
		Seq(OID(OidSignTime...), Set(TLV(0x17, []byte("200101000000Z")))),
		Seq(OID(OidDigest...), Set(Octets(digest))),
	} {
		out = append(out, a...)
	}
	return out
}

// CMS wraps content in a signed object.
func CMS(c CMSSpec) []byte {
	dg := c.Digest
	if dg == nil {
		dg = SHA256(c.Content)
	}
	attrs := Attrs(c.ContentType, dg)
	sig := Sign(c.Signer, Set(attrs))
	if c.FlipSig {
		sig[len(sig)-1] ^= 1
	}
	si := Seq([]byte{2, 1, 3}, TLV(0x80, c.SKI), Seq(OID(OidSHA256...)), TLV(0xa0, attrs), SigAlg(), Octets(sig))
	if c.NoSigner {
		si = nil
	}
	return SignedData(c.ContentType, Octets(c.Content), c.Cert, si)
}

// SignedData is the outer structure from its parts.
func SignedData(ctype []int, econtent, cert, signers []byte) []byte {
	return Seq(OID(OidSigData...), TLV(0xa0, Seq(
		[]byte{2, 1, 3}, Set(Seq(OID(OidSHA256...))),
		Seq(OID(ctype...), TLV(0xa0, econtent)),
		TLV(0xa0, cert), Set(signers))))
}

type MftFile struct {
	Name string
	Hash []byte
}

// Manifest is the content of a manifest.
func Manifest(number []byte, this, next string, files []MftFile) []byte {
	var fs [][]byte
	for _, f := range files {
		fs = append(fs, Seq(TLV(0x16, []byte(f.Name)), BitStr(f.Hash)))
	}
	return Seq(TLV(2, number), gtime(this), gtime(next), OID(OidSHA256...), Seq(fs...))
}

// Prefix4 is an IPv4 prefix as a bit string; bits past plen are cleared.
func Prefix(addr []byte, plen int) []byte {
	n := (plen + 7) / 8
	b := make([]byte, n)
	copy(b, addr)
	if plen%8 != 0 {
		b[n-1] &= ^byte(0xff >> uint(plen%8))
	}
	return TLV(3, []byte{byte(n*8 - plen)}, b)
}

// IPExt is an address block extension with one block per family given (nil: left out).
func IPExt(v4, v6 []byte) []byte {
	var blocks [][]byte
	if v4 != nil {
		blocks = append(blocks, Seq(Octets([]byte{0, 1}), v4))
	}
	if v6 != nil {
		blocks = append(blocks, Seq(Octets([]byte{0, 2}), v6))
	}
	return Seq(blocks...)
}

// ASExt is an AS identifier extension.
func ASExt(asnum []byte) []byte { return Seq(TLV(0xa0, asnum)) }

// ROAContent: one address family list per family (nil: left out), each made of ROAAddr elements.
func ROAContent(asn []byte, v4, v6 [][]byte) []byte {
	var fams [][]byte
	if v4 != nil {
		fams = append(fams, Seq(Octets([]byte{0, 1}), Seq(v4...)))
	}
	if v6 != nil {
		fams = append(fams, Seq(Octets([]byte{0, 2}), Seq(v6...)))
	}
	return Seq(TLV(2, asn), Seq(fams...))
}

// ROAAddr is a prefix with optional maximum length (content octets of the INTEGER).
func ROAAddr(prefix, maxlen []byte) []byte {
	if maxlen == nil {
		return Seq(prefix)
	}
	return Seq(prefix, TLV(2, maxlen))
}

const b64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

// Base64 is the standard encoding with padding.
func Base64(b []byte) string {
	var out []byte
	for i := 0; i < len(b); i += 3 {
		var x [3]byte
		n := copy(x[:], b[i:])
		v := int(x[0])<<16 | int(x[1])<<8 | int(x[2])
		for j := 0; j < 4; j++ {
			if j <= n {
				out = append(out, b64[(v>>uint(18-6*j))&63])
			} else {
				out = append(out, '=')
			}
		}
	}
	return string(out)
}
