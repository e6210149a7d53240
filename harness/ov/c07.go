package ov

import (
	"net"

	"github.com/cloudflare/cfrpki/verifrt"
)

type zvC07Item struct {
	v6     bool
	addr   []byte
	plen   int
	maxlen int
	asn    uint32
}

func (i *zvC07Item) GetASN() uint32 { return i.asn }
func (i *zvC07Item) GetMaxLen() int { return i.maxlen }
func (i *zvC07Item) GetPrefix() *net.IPNet {
	w := 32
	if i.v6 {
		w = 128
	}
	return &net.IPNet{IP: net.IP(i.addr), Mask: net.CIDRMask(i.plen, w)}
}

// word is the address bytes lo..lo+3 as a number.
func zvC07Word(b []byte, lo int) uint32 {
	return uint32(b[lo])<<24 | uint32(b[lo+1])<<16 | uint32(b[lo+2])<<8 | uint32(b[lo+3])
}

// covers: the payload's prefix contains the route's prefix.
func zvC07Covers(p, r *zvC07Item) bool {
	if p.v6 != r.v6 {
		return false
	}
	cond := p.plen <= r.plen
	for lo := 0; lo < len(p.addr); lo += 4 {
		diff := zvC07Word(p.addr, lo) ^ zvC07Word(r.addr, lo)
		// bits of this word below the payload's length
		n := p.plen - 8*lo
		inRange := verifrt.Or(n <= 0, verifrt.And(n < 32, (uint64(diff)>>(uint(32-n)&63)) == 0), verifrt.And(n >= 32, diff == 0))
		cond = verifrt.And(cond, inRange)
	}
	return cond
}

// c07Lens are prefix lengths at and around the points where the tree changes shape.
func zvC07Lens(v6 bool) []int {
	set := verifrt.Param("lens", 0)
	wide := set == 1
	switch {
	case set == 2 && v6:
		return []int{0, 64, 65, 128}
	case set == 2:
		return []int{0, 8, 9, 32}
	case set == 4 && v6:
		return []int{48}
	case set == 4:
		return []int{0, 8}
	case set == 3 && v6:
		return []int{1, 64, 65}
	case set == 3:
		return []int{1, 8, 9}
	case v6 && wide:
		return []int{0, 1, 2, 32, 48, 63, 64, 65, 66, 96, 127, 128}
	case v6:
		return []int{0, 1, 48, 64, 65, 128}
	case wide:
		return []int{0, 1, 2, 7, 8, 9, 16, 23, 24, 25, 31, 32}
	}
	return []int{0, 1, 8, 9, 24, 32}
}

func zvC07New(name string, v6 bool, symLen bool) *zvC07Item {
	n, w := 4, 32
	if v6 {
		n, w = 16, 128
	}
	i := &zvC07Item{v6: v6, addr: verifrt.Bytes(name+".addr", n)}
	if symLen {
		i.plen = verifrt.Int(name+".plen", 0, w)
	} else {
		lens := zvC07Lens(v6)
		i.plen = lens[verifrt.Choice(name+".len", len(lens))]
	}
	if v6 {
		// addresses in ::ffff:0:0/96 stand for IPv4 in this library
		verifrt.Assume(verifrt.Or(zvC07Word(i.addr, 0) != 0, zvC07Word(i.addr, 4) != 0, zvC07Word(i.addr, 8) != 0xffff))
	}
	i.asn = 64500
	if verifrt.Param("shape", 0) == 0 {
		i.asn = verifrt.U32(name + ".asn")
	}
	return i
}

func zvC07Run(n int, symLen bool, fam func(i int) bool) {
	var vrps []*zvC07Item
	var list []AbstractROA
	for i := 0; i < n; i++ {
		v := zvC07New([]string{"p0", "p1", "p2", "p3"}[i], fam(i), symLen)
		if verifrt.Param("shape", 0) == 1 {
			v.maxlen, v.asn = 0, uint32(i)
		} else {
			v.maxlen = int(verifrt.U8([]string{"p0", "p1", "p2", "p3"}[i] + ".maxlen"))
		}
		vrps = append(vrps, v)
		list = append(list, v)
	}
	route := zvC07New("route", fam(n), symLen)
	matching, state, err := NewOV(list).Validate(route)
	verifrt.Assert(err == nil, "a route with a prefix is classified")
	covered, valid := false, false
	found := 0
	for _, v := range vrps {
		c := zvC07Covers(v, route)
		ok := verifrt.And(c, v.asn == route.asn, route.plen <= v.maxlen)
		covered = verifrt.Or(covered, c)
		valid = verifrt.Or(valid, ok)
		reported := false
		for _, m := range matching {
			if m.(*zvC07Item) == v {
				verifrt.Assert(!reported, "a covering payload is reported once")
				reported = true
				found++
			}
		}
		verifrt.Assert(reported == c, "the payloads reported are exactly the covering ones")
	}
	verifrt.Assert(found == len(matching), "nothing else is reported")
	verifrt.Assert((state == STATE_VALID) == valid, "Valid exactly when a payload matches")
	verifrt.Assert((state == STATE_UNKNOWN) == !covered, "NotFound exactly when no payload covers the prefix")
	verifrt.Assert(verifrt.Or(state == STATE_VALID, state == STATE_INVALID, state == STATE_UNKNOWN), "a verdict is given")
	switch state {
	case STATE_VALID:
		verifrt.Reach("valid")
	case STATE_INVALID:
		verifrt.Reach("invalid")
	default:
		verifrt.Reach("notfound")
	}
	verifrt.ObserveInt("state", state)
	verifrt.ObserveInt("matching", len(matching))
}

// VerifC07V4All: up to n IPv4 payloads, every prefix length of 0..32 at once.
func VerifC07V4All() {
	zvC07Run(verifrt.Choice("n", verifrt.Param("n", 1)+1), true, func(int) bool { return false })
}

// VerifC07V6All: up to n IPv6 payloads, every prefix length of 0..128 at once.
func VerifC07V6All() {
	zvC07Run(verifrt.Choice("n", verifrt.Param("n", 1)+1), true, func(int) bool { return true })
}

// VerifC07V4: n IPv4 payloads with prefix lengths from the list.
func VerifC07V4() {
	zvC07Run(verifrt.Param("n", 2), false, func(int) bool { return false })
}

// VerifC07V6: n IPv6 payloads with prefix lengths from the list.
func VerifC07V6() {
	zvC07Run(verifrt.Param("n", 2), false, func(int) bool { return true })
}

// VerifC07Mixed: payloads and route of either family.
func VerifC07Mixed() {
	zvC07Run(verifrt.Param("n", 2), false, func(int) bool { return verifrt.Choice("family", 2) == 1 })
}
