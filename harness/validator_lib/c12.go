package librpki

import (
	"net"

	"github.com/cloudflare/cfrpki/verifrt"
)

type zvC12Want struct {
	inherit bool
	v6      bool
	lo, hi  []byte
}

// c12Elem encodes one address element and says what it denotes.
func zvC12Elem(name string, v6 bool) ([]byte, zvC12Want) {
	size := 4
	if v6 {
		size = 16
	}
	step := verifrt.Param("step", 1)
	if v6 {
		step = verifrt.Param("step6", 8)
	}
	if verifrt.Choice(name+".kind", 2) == 0 {
		enc, b, bl := zvVSymBits(name, size*8, size, step)
		return enc, zvC12Want{v6: v6, lo: b, hi: zvC12Fill(b, bl)}
	}
	e1, b1, _ := zvVSymBits(name+".min", size*8, size, step)
	e2, b2, bl2 := zvVSymBits(name+".max", size*8, size, step)
	return zvVSeq(e1, e2), zvC12Want{v6: v6, lo: b1, hi: zvC12Fill(b2, bl2)}
}

// c12Fill sets every bit from position bl on.
func zvC12Fill(b []byte, bl int) []byte {
	out := make([]byte, len(b))
	for i := range b {
		switch {
		case 8*i >= bl:
			out[i] = 0xff
		case 8*i+8 <= bl:
			out[i] = b[i]
		default:
			out[i] = b[i] | 0xff>>uint(bl-8*i)
		}
	}
	return out
}

func zvC12SameIP(got net.IP, want []byte) bool {
	if len(got) == 16 && len(want) == 4 {
		if got.To4() == nil {
			return false
		}
		got = got.To4()
	}
	return verifrt.BytesEq([]byte(got), want)
}

func zvC12Check(got IPCertificateInformation, w zvC12Want) {
	lo, hi, inherit := got.GetRange()
	verifrt.Assert(inherit == w.inherit, "inherit marker")
	af := uint8(1)
	if w.v6 {
		af = 2
	}
	if w.inherit {
		verifrt.Assert(got.GetAfi() == af, "family of the inherit marker")
		return
	}
	verifrt.Assert(zvC12SameIP(lo, w.lo), "first address")
	verifrt.Assert(zvC12SameIP(hi, w.hi), "last address")
	if len(lo) == 4 || lo.To4() == nil { // ::ffff:0:0/96 stands for IPv4 in this library
		verifrt.Assert(got.GetAfi() == af, "family")
	}
}

func zvC12Family(v6 bool, n int) []byte {
	if v6 {
		return []byte{0, 2}
	}
	return []byte{0, 1}
}

// VerifC12IP: well-formed extensions: up to two families with up to k elements each, or inherit.
func VerifC12IP() {
	k := verifrt.Param("k", 1)
	fams := verifrt.Choice("families", 2) + 1
	if fams > verifrt.Param("fams", 2) {
		return
	}
	var want []zvC12Want
	var blocks [][]byte
	first6 := verifrt.Choice("first", 2) == 1
	for f := 0; f < fams; f++ {
		v6 := first6 != (f == 1)
		var choice []byte
		n := verifrt.Choice("count", k+2)
		if n == k+1 {
			choice = []byte{5, 0}
			want = append(want, zvC12Want{inherit: true, v6: v6})
			verifrt.Reach("inherit")
		} else {
			var es [][]byte
			for i := 0; i < n; i++ {
				e, w := zvC12Elem("e", v6)
				es = append(es, e)
				want = append(want, w)
			}
			choice = zvVSeq(es...)
		}
		blocks = append(blocks, zvVSeq(zvVTLV(4, zvC12Family(v6, f)), choice))
	}
	got, err := DecodeIPAddressBlock(zvVSeq(blocks...))
	verifrt.Assert(err == nil, "a well-formed extension is decoded")
	verifrt.Assert(len(got) == len(want), "one result per element")
	verifrt.Reach("decoded")
	for i := range want {
		zvC12Check(got[i], want[i])
	}
}

// VerifC12Hostile: one family block with symbolic family octets (0..3 of them) and an element whose
// bit strings may be longer than an address, or an inherit marker.
func VerifC12Hostile() {
	fam := verifrt.Bytes("family", verifrt.Choice("famlen", 4))
	isV4 := len(fam) >= 2 && verifrt.And(fam[0] == 0, fam[1] == 1)
	isV6 := len(fam) >= 2 && verifrt.And(fam[0] == 0, fam[1] == 2)
	kind := verifrt.Choice("kind", 3)
	if kind == 2 {
		got, err := DecodeIPAddressBlock(zvVSeq(zvVSeq(zvVTLV(4, fam), []byte{5, 0})))
		if err != nil {
			return
		}
		for _, g := range got {
			v4 := verifrt.Bytes("ip4", 4)
			ok, inherit := g.IsIPInRange(net.IP(v4))
			verifrt.Assert(!ok, "an inherit marker contains no address")
			if inherit {
				verifrt.Assert(isV4, "only an IPv4 inherit marker inherits IPv4")
			}
			_ = g.String()
		}
		verifrt.Reach("inherit")
		return
	}
	max := 17 * 8
	n1 := verifrt.Choice("nbytes", max/8+1)
	unused := 0
	if n1 > 0 {
		unused = verifrt.Choice("unused", 8)
	}
	b1 := verifrt.Bytes("b1", n1)
	if unused > 0 {
		verifrt.Assume(b1[n1-1]<<uint(8-unused) == 0)
	}
	enc := zvVBits(byte(unused), b1)
	bl := n1*8 - unused
	size := 0
	if isV4 {
		size = 4
	} else if isV6 {
		size = 16
	}
	full := make([]byte, 17)
	copy(full, b1)
	want := zvC12Want{v6: size == 16, lo: full[:size]}
	if kind == 1 {
		// the other bound is a fixed, valid one
		other := zvVBits(0, []byte{0x7f})
		o := make([]byte, 17)
		o[0] = 0x7f
		if verifrt.Choice("side", 2) == 0 {
			enc = zvVSeq(enc, other)
			want.hi = zvC12Fill(o[:size], 8)
		} else {
			enc = zvVSeq(other, enc)
			want.hi = zvC12Fill(full[:size], bl)
			want.lo = o[:size]
		}
	} else {
		want.hi = zvC12Fill(full[:size], bl)
	}
	got, err := DecodeIPAddressBlock(zvVSeq(zvVSeq(zvVTLV(4, fam), zvVSeq(enc))))
	if err != nil {
		verifrt.Assert(size == 0 || bl > size*8, "a well-formed element is decoded")
		verifrt.Reach("rejected")
		return
	}
	for _, g := range got {
		verifrt.Assert(size != 0, "an element of an unknown family yields nothing")
		verifrt.Assert(bl <= size*8, "an over-long element yields nothing")
		zvC12Check(g, want)
		if n1 <= 4 { // the text of longer IPv6 addresses has too many forms
			_ = g.String()
		}
		verifrt.Reach("decoded")
	}
}

// VerifC12Bytes: arbitrary bytes never crash the decoders or the use of what they return.
func VerifC12Bytes() {
	n := verifrt.Choice("n", verifrt.Param("n", 6)+1)
	b := verifrt.Bytes("data", n)
	ip := net.IP(verifrt.Bytes("ip", 4))
	if verifrt.Choice("which", 2) == 0 {
		got, err := DecodeIPAddressBlock(b)
		if err == nil {
			verifrt.Reach("ip-decoded")
		}
		for _, g := range got {
			g.GetRange()
			g.IsIPInRange(ip)
			g.GetAfi()
			_ = g.String()
		}
		return
	}
	nums, rdi, err := DecodeASN(b)
	if err == nil {
		verifrt.Reach("as-decoded")
	}
	for _, l := range [][]ASNCertificateInformation{nums, rdi} {
		for _, g := range l {
			g.GetRange()
			g.IsASNInRange(1)
			_ = g.String()
		}
	}
}

type zvC12ASWant struct {
	inherit bool
	lo, hi  uint64
}

func zvC12ASList(name string, k int) ([]byte, []zvC12ASWant) {
	n := verifrt.Choice(name+".count", k+2)
	if n == k+1 {
		return []byte{5, 0}, []zvC12ASWant{{inherit: true}}
	}
	var es [][]byte
	var want []zvC12ASWant
	for i := 0; i < n; i++ {
		e, v := zvVSymUint(name, verifrt.Param("asbytes", 5))
		verifrt.Assume(v <= 0xffffffff)
		if verifrt.Choice(name+".kind", 2) == 0 {
			es = append(es, e)
			want = append(want, zvC12ASWant{lo: v, hi: v})
			continue
		}
		e2, v2 := zvVSymUint(name, verifrt.Param("asbytes", 5))
		verifrt.Assume(v2 <= 0xffffffff)
		es = append(es, zvVSeq(e, e2))
		want = append(want, zvC12ASWant{lo: v, hi: v2})
	}
	return zvVSeq(es...), want
}

func zvC12CheckAS(got []ASNCertificateInformation, want []zvC12ASWant) {
	verifrt.Assert(len(got) == len(want), "one AS result per element")
	for i, w := range want {
		lo, hi, inherit := got[i].GetRange()
		verifrt.Assert(inherit == w.inherit, "AS inherit marker")
		if !w.inherit {
			verifrt.Assert(verifrt.And(uint64(lo) == w.lo, uint64(hi) == w.hi), "AS bounds")
			x := verifrt.U32("as")
			in, inh := got[i].IsASNInRange(int(x))
			verifrt.Assert(!inh, "an explicit AS element is no inherit marker")
			verifrt.Assert(in == verifrt.And(uint64(x) >= w.lo, uint64(x) <= w.hi), "exactly the AS numbers in between")
		}
	}
}

// VerifC12AS: well-formed AS identifier extensions, AS numbers and routing domains.
func VerifC12AS() {
	k := verifrt.Param("k", 1)
	var parts [][]byte
	var nums, rdi []zvC12ASWant
	which := verifrt.Choice("which", verifrt.Param("which", 3))
	if which != 1 {
		e, w := zvC12ASList("num", k)
		parts = append(parts, zvVTLV(0xa0, e))
		nums = w
	}
	if which != 0 {
		e, w := zvC12ASList("rdi", k)
		parts = append(parts, zvVTLV(0xa1, e))
		rdi = w
	}
	gn, gr, err := DecodeASN(zvVSeq(parts...))
	verifrt.Assert(err == nil, "a well-formed AS extension is decoded")
	zvC12CheckAS(gn, nums)
	zvC12CheckAS(gr, rdi)
	verifrt.Reach("decoded")
}

// VerifC12ASHostile: integers of 0..9 content bytes, single or as a bound.
func VerifC12ASHostile() {
	b := verifrt.Bytes("int", verifrt.Choice("len", 10))
	enc := zvVTLV(2, b)
	if verifrt.Choice("kind", 2) == 1 {
		if verifrt.Choice("side", 2) == 0 {
			enc = zvVSeq(enc, zvVUint(1, 1))
		} else {
			enc = zvVSeq(zvVUint(1, 1), enc)
		}
	}
	tag := byte(0xa0)
	if verifrt.Choice("rdi", 2) == 1 {
		tag = 0xa1
	}
	gn, gr, err := DecodeASN(zvVSeq(zvVTLV(tag, zvVSeq(enc))))
	if err != nil {
		verifrt.Reach("rejected")
		return
	}
	for _, g := range append(gn, gr...) {
		lo, hi, _ := g.GetRange()
		verifrt.Assert(verifrt.And(lo >= 0, hi >= 0, lo <= 0xffffffff, hi <= 0xffffffff), "a value that is no AS number is not decoded")
		_ = g.String()
		verifrt.Reach("decoded")
	}
}
