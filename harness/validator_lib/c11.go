package librpki

import (
	"bytes"

	"github.com/cloudflare/cfrpki/verifrt"
)

// Reference reading of X.690, written apart from the converter: a list of events
// (tag bytes, primitive contents, end of constructed).
type zvC11Event struct {
	kind  int // 0 primitive, 1 open, 2 close
	bytes []byte
	body  []byte
}

// c11Read reads one element at pos; der demands definite minimal lengths. It returns the position after it, or -1.
func zvC11Read(in []byte, pos, end int, der bool, ev *[]zvC11Event) int {
	start := pos
	if pos >= end {
		return -1
	}
	constructed := in[pos]&0x20 != 0
	if in[pos]&0x1f == 0x1f {
		pos++
		for pos < end && in[pos] >= 0x80 {
			pos++
		}
		if pos >= end {
			return -1
		}
	}
	pos++
	tag := in[start:pos]
	if pos >= end {
		return -1
	}
	l := in[pos]
	pos++
	if l == 0x80 {
		if der || !constructed {
			return -1
		}
		*ev = append(*ev, zvC11Event{kind: 1, bytes: tag})
		for {
			if pos+2 > end {
				return -1
			}
			if in[pos] == 0 && in[pos+1] == 0 {
				*ev = append(*ev, zvC11Event{kind: 2})
				return pos + 2
			}
			pos = zvC11Read(in, pos, end, der, ev)
			if pos < 0 {
				return -1
			}
		}
	}
	length := int(l)
	if l > 0x80 {
		k := int(l & 0x7f)
		if k > 4 || pos+k > end || in[pos] == 0 {
			return -1
		}
		length = 0
		for i := 0; i < k; i++ {
			if length > end {
				return -1
			}
			length = length<<8 | int(in[pos+i])
		}
		pos += k
		if der && length < 0x80 {
			return -1
		}
	}
	if length > end-pos {
		return -1
	}
	if !constructed {
		*ev = append(*ev, zvC11Event{kind: 0, bytes: tag, body: in[pos : pos+length]})
		return pos + length
	}
	*ev = append(*ev, zvC11Event{kind: 1, bytes: tag})
	stop := pos + length
	for pos < stop {
		pos = zvC11Read(in, pos, stop, der, ev)
		if pos < 0 {
			return -1
		}
	}
	*ev = append(*ev, zvC11Event{kind: 2})
	return pos
}

func zvC11Check(in []byte) {
	out, err := BER2DER(in)
	var want []zvC11Event
	end := zvC11Read(in, 0, len(in), false, &want)
	if end >= 0 {
		verifrt.Assert(err == nil, "well-formed BER is converted")
	}
	if err != nil {
		verifrt.ObserveStr("err", err.Error())
		return
	}
	var got []zvC11Event
	verifrt.Assert(zvC11Read(out, 0, len(out), true, &got) == len(out), "output is one element with definite minimal lengths")
	if end >= 0 {
		verifrt.Reach("well-formed")
		verifrt.Assert(len(got) == len(want), "same structure")
		for i := range want {
			verifrt.Assert(got[i].kind == want[i].kind, "same kind of element")
			verifrt.Assert(bytes.Equal(got[i].bytes, want[i].bytes), "same tag")
			verifrt.Assert(bytes.Equal(got[i].body, want[i].body), "same contents")
		}
	}
	var der []zvC11Event
	if zvC11Read(in, 0, len(in), true, &der) == len(in) {
		verifrt.Reach("der")
		verifrt.Assert(bytes.Equal(in, out), "DER comes out unchanged")
	}
	out2, err2 := BER2DER(out)
	verifrt.Assert(err2 == nil, "result converts again")
	verifrt.Assert(bytes.Equal(out, out2), "idempotent")
	verifrt.ObserveBytes("out", out)
}

// VerifC11Total: arbitrary bytes of every length up to n.
func VerifC11Total() {
	n := verifrt.Choice("len", verifrt.Param("n", 4)+1)
	zvC11Check(verifrt.Bytes("in", n))
}

// VerifC11Long: a primitive of a length near a length-encoding boundary, its length given in each form (also one off),
// alone or inside an indefinite or definite element; the tag and the outer content bytes are symbolic.
func VerifC11Long() {
	sizes := []int{0, 1, 126, 127, 128, 129, 255, 256, 257}
	k := sizes[verifrt.Choice("size", len(sizes))]
	body := make([]byte, k)
	for i := range body {
		body[i] = byte(i)
	}
	if k > 0 {
		body[0] = verifrt.U8("first")
		body[k-1] = verifrt.U8("last")
	}
	tag := verifrt.U8("tag")
	verifrt.Assume(tag&0x1f != 0x1f && tag&0x20 == 0)
	verifrt.Assume(tag != 0)
	inner := []byte{tag}
	declared := k + verifrt.Choice("delta", 3) - 1
	if declared < 0 {
		return
	}
	form := verifrt.Choice("form", 5)
	if form == 0 {
		if declared >= 128 {
			return
		}
		inner = append(inner, byte(declared))
	} else {
		inner = append(inner, byte(0x80+form))
		for i := form - 1; i >= 0; i-- {
			inner = append(inner, byte(declared>>uint(8*i)))
		}
	}
	inner = append(inner, body...)
	var in []byte
	switch verifrt.Choice("outer", 3) {
	case 0:
		in = inner
	case 1:
		in = append([]byte{0x30, 0x80}, inner...)
		in = append(in, 0, 0)
	case 2:
		in = append([]byte{0x30, 0x82, byte(len(inner) >> 8), byte(len(inner))}, inner...)
	}
	zvC11Check(in)
}
