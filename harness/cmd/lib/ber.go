//go:build go1.22

package main

import (
	"bytes"
	"encoding/hex"
	"fmt"

	librpki "github.com/cloudflare/cfrpki/validator/lib"
	"github.com/cloudflare/cfrpki/verifharness/gen"
	"github.com/cloudflare/cfrpki/verifharness/pbt"
)

// ---- a BER value, drawn as a tree -----------------------------------------

type berNode struct {
	tag     []byte // identifier octets, constructed bit set as needed
	constr  bool
	kids    []*berNode
	content []byte
	indef   bool
	lenLen  int // long form octets (0: minimal)
}

func drawBER(t *pbt.T, depth int, budget *int) *berNode {
	n := &berNode{}
	*budget--
	n.constr = depth > 0 && t.Chance(2, 3)
	class := byte(t.Intn(4)) << 6
	num := 0
	switch t.Intn(5) {
	case 0, 1, 2:
		num = t.Range(1, 30)
	case 3:
		num = t.Range(31, 300)
	default:
		num = pbt.Pick(t, 31, 127, 128, 16383, 16384, 1<<21, 1<<28)
	}
	b0 := class
	if n.constr {
		b0 |= 0x20
	}
	if num < 31 {
		n.tag = []byte{b0 | byte(num)}
	} else {
		var rest []byte
		for v := num; ; v >>= 7 {
			c := byte(v & 0x7f)
			if len(rest) > 0 {
				c |= 0x80
			}
			rest = append([]byte{c}, rest...)
			if v < 128 {
				break
			}
		}
		n.tag = append([]byte{b0 | 0x1f}, rest...)
	}
	if n.constr {
		k := t.Intn(4)
		for i := 0; i < k && *budget > 0; i++ {
			n.kids = append(n.kids, drawBER(t, depth-1, budget))
		}
		n.indef = t.Bool()
	} else {
		sz := 0
		switch t.Intn(6) {
		case 0:
			sz = 0
		case 1, 2, 3:
			sz = t.Intn(12)
		case 4:
			sz = t.Range(120, 140)
		default:
			sz = pbt.Pick(t, 127, 128, 255, 256, 257, 65535, 65536)
		}
		if sz > 300 {
			n.content = bytes.Repeat([]byte{byte(t.Intn(256))}, sz)
		} else {
			n.content = t.Bytes(sz)
			if t.Chance(1, 4) {
				for i := range n.content {
					n.content[i] = 0
				}
			}
		}
	}
	if t.Chance(1, 3) {
		n.lenLen = t.Range(1, 4)
	}
	return n
}

func berLen(n, lenLen int) []byte {
	m := gen.Length(n)
	if n < 128 && lenLen >= 1 && n > 0 {
		return []byte{0x81, byte(n)}
	}
	return m
}

func (n *berNode) encode(der bool) []byte {
	var c []byte
	if n.constr {
		for _, k := range n.kids {
			c = append(c, k.encode(der)...)
		}
	} else {
		c = n.content
	}
	out := append([]byte(nil), n.tag...)
	switch {
	case der:
		out = append(out, gen.Length(len(c))...)
		out = append(out, c...)
	case n.indef:
		out = append(out, 0x80)
		out = append(out, c...)
		out = append(out, 0, 0)
	default:
		out = append(out, berLen(len(c), n.lenLen)...)
		out = append(out, c...)
	}
	return out
}

func (n *berNode) depth() int {
	d := 0
	for _, k := range n.kids {
		if x := k.depth() + 1; x > d {
			d = x
		}
	}
	return d
}

func drawTree(t *pbt.T) *berNode {
	budget := t.Range(1, 40)
	n := drawBER(t, t.Range(0, 6), &budget)
	// sometimes wrap deeply
	if t.Chance(1, 10) {
		k := t.Range(1, 150)
		ind := t.Bool()
		for i := 0; i < k; i++ {
			n = &berNode{tag: []byte{0x30}, constr: true, kids: []*berNode{n}, indef: ind}
		}
	}
	return n
}

func hx(b []byte) string {
	if len(b) > 80 {
		return hex.EncodeToString(b[:80]) + fmt.Sprintf("...(%d bytes)", len(b))
	}
	return hex.EncodeToString(b)
}

func berConvert(t *pbt.T) {
	n := drawTree(t)
	ber, der := n.encode(false), n.encode(true)
	if !bytes.Equal(ber, der) {
		t.NonTrivial("%x", ber)
		t.Label("ber differs from der")
	}
	if n.depth() > 50 {
		t.Label("deep")
	}
	t.Sample("ber %s -> der %s", hx(ber), hx(der))
	in := append([]byte(nil), ber...)
	got, err := librpki.BER2DER(in)
	if err != nil {
		t.Failf("BER2DER(%s) refused well-formed BER: %v", hx(ber), err)
	}
	if !bytes.Equal(got, der) {
		t.Failf("BER2DER(%s) = %s, want %s", hx(ber), hx(got), hx(der))
	}
	if !bytes.Equal(in, ber) {
		t.Failf("BER2DER changed its input")
	}
	again, err := librpki.BER2DER(der)
	if err != nil || !bytes.Equal(again, der) {
		t.Failf("BER2DER of DER %s = %s, %v", hx(der), hx(again), err)
	}
	if t.Chance(1, 3) {
		junk := append(append([]byte(nil), ber...), t.Bytes(t.Range(1, 9))...)
		got, err := librpki.BER2DER(junk)
		if err == nil && !bytes.Equal(got, der) {
			t.Failf("bytes after the object entered the result: BER2DER(%s) = %s, want %s or an error", hx(junk), hx(got), hx(der))
		}
	}
}

func berTruncate(t *pbt.T) {
	n := drawTree(t)
	ber := n.encode(false)
	if len(ber) == 0 {
		t.Discard()
	}
	cut := t.Intn(len(ber))
	if t.Bool() {
		cut = len(ber) - 1 - t.Intn(min(len(ber), 8))
	}
	in := ber[:cut:cut]
	t.NonTrivial("%x", in)
	t.Sample("%s cut to %d of %d bytes", hx(ber), cut, len(ber))
	got, err := librpki.BER2DER(in)
	if err == nil {
		t.Failf("BER2DER accepted %s, the first %d of the %d bytes of a value, as %s", hx(in), cut, len(ber), hx(got))
	}
}

// refBER parses BER independently: the DER form, the bytes used, whether it is
// well-formed, and whether the input is one where accepting is a matter of taste.
type refParser struct {
	taste bool
}

func (p *refParser) value(b []byte, depth int) (der []byte, used int, ok bool) {
	if depth > 200 {
		p.taste = true
	}
	if len(b) < 2 {
		return nil, 0, false
	}
	i := 1
	if b[0]&0x1f == 0x1f {
		if b[1] == 0x80 || b[1] < 31 {
			p.taste = true
		}
		for i < len(b) && b[i] >= 0x80 {
			i++
		}
		if i > 6 {
			p.taste = true // tag number beyond 32 bits
		}
		if i >= len(b) {
			return nil, 0, false
		}
		i++
	}
	if b[0]&0xdf == 0 {
		p.taste = true // tag 0: end-of-contents out of place
	}
	tag := b[:i]
	if i >= len(b) {
		return nil, 0, false
	}
	l := b[i]
	i++
	n := 0
	if l == 0x80 {
		if b[0]&0x20 == 0 {
			return nil, 0, false
		}
		var c []byte
		for {
			if len(b)-i < 2 {
				return nil, 0, false
			}
			if b[i] == 0 && b[i+1] == 0 {
				i += 2
				break
			}
			d, u, ok := p.value(b[i:], depth+1)
			if !ok {
				return nil, 0, false
			}
			c = append(c, d...)
			i += u
		}
		return append(append(append([]byte(nil), tag...), gen.Length(len(c))...), c...), i, true
	}
	if l > 0x80 {
		k := int(l & 0x7f)
		if k > len(b)-i {
			return nil, 0, false
		}
		if k > 3 || b[i] == 0 {
			p.taste = true
		}
		if k > 8 {
			return nil, 0, false
		}
		for _, c := range b[i : i+k] {
			if n > 1<<40 {
				return nil, 0, false
			}
			n = n<<8 | int(c)
		}
		i += k
	} else {
		n = int(l)
	}
	if n > len(b)-i {
		return nil, 0, false
	}
	body := b[i : i+n]
	i += n
	c := body
	if b[0]&0x20 != 0 {
		c = nil
		for len(body) > 0 {
			d, u, ok := p.value(body, depth+1)
			if !ok {
				return nil, 0, false
			}
			c = append(c, d...)
			body = body[u:]
		}
	}
	return append(append(append([]byte(nil), tag...), gen.Length(len(c))...), c...), i, true
}

func berDifferential(t *pbt.T) {
	var in []byte
	if t.Chance(1, 3) {
		// dense alphabet
		k := t.Range(1, 24)
		for i := 0; i < k; i++ {
			in = append(in, pbt.Pick(t, byte(0x30), 0x80, 0, 0x24, 4, 1, 2, 3, 5, 0x81, 0x82, 0x1f, 0x3f, 0xa0, 0x7f, 0xff, 8, 10))
		}
	} else {
		in = drawTree(t).encode(false)
		if len(in) > 4000 {
			in = in[:4000]
		}
		for i := t.Range(1, 4); i > 0 && len(in) > 0; i-- {
			p := t.Intn(len(in))
			switch t.Intn(5) {
			case 0:
				in[p] = byte(t.Intn(256))
			case 1:
				in[p]++
			case 2:
				in[p]--
			case 3:
				in = append(in[:p:p], in[p+1:]...)
			default:
				in = append(in[:p:p], append([]byte{pbt.Pick(t, byte(0), 0x80, 0x30, 1)}, in[p:]...)...)
			}
		}
	}
	if len(in) == 0 {
		t.Discard()
	}
	p := &refParser{}
	want, _, ok := p.value(in, 0)
	got, err := librpki.BER2DER(append([]byte(nil), in...))
	t.Label("well-formed=%v taste=%v", ok, p.taste)
	t.NonTrivial("%x", in)
	t.Sample("%s well-formed=%v", hx(in), ok)
	if err == nil && !ok && !p.taste {
		t.Failf("BER2DER accepted malformed BER %s as %s", hx(in), hx(got))
	}
	if err != nil && ok && !p.taste {
		t.Failf("BER2DER refused well-formed BER %s: %v", hx(in), err)
	}
	if err == nil && ok && !bytes.Equal(got, want) {
		t.Failf("BER2DER(%s) = %s, want %s", hx(in), hx(got), hx(want))
	}
}

func propC12() pbt.Property {
	return pbt.Property{
		ID:   "C12",
		Rule: "non-trivial: distinct inputs whose BER form differs from DER, that are truncated, or that were edited",
		Assumptions: []string{
			"length octets with leading zeros, more than three length octets, padded or oversized tag numbers, universal tag 0 outside its place and nesting beyond 200 may be refused or accepted",
		},
		Suites: []pbt.Suite{
			{Name: "convert", Rule: "random BER tree (classes, high tags, indefinite and non-minimal lengths, nesting to 150) against its DER encoding", Quick: 40000, Thorough: 2000000, Prop: berConvert, Isolate: true},
			{Name: "truncate", Rule: "every proper prefix of a BER value must be refused", Quick: 40000, Thorough: 2000000, Prop: berTruncate, Isolate: true},
			{Name: "differential", Rule: "edited BER against an independent parser", Quick: 80000, Thorough: 4000000, Prop: berDifferential, Isolate: true},
		},
	}
}
