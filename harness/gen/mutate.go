//go:build go1.22

package gen

import (
	"crypto/rsa"
	"math/big"

	"github.com/cloudflare/cfrpki/verifharness/pbt"
)

// Node is a TLV of a DER value, for structure-aware mutation. Octet and bit
// strings that hold DER themselves are taken apart too.
type Node struct {
	Tag  []byte
	Prim []byte  // when Kids is nil
	Kids []*Node // contents taken apart
	Pre  []byte  // octets before the kids (the unused-bits octet)
	Len  []byte  // length octets to write, instead of the right ones
	EOC  bool    // indefinite length
	Raw  []byte  // written instead of everything
}

// ParseDER takes a DER value apart; ok only if all of it is well-formed.
func ParseDER(b []byte, depth int) (l []*Node, ok bool) {
	for len(b) > 0 {
		if len(b) < 2 || b[0]&0x1f == 0x1f || depth > 40 {
			return nil, false
		}
		n := &Node{Tag: b[:1]}
		ln, h := int(b[1]), 2
		if ln >= 0x80 {
			k := ln & 0x7f
			if k == 0 || k > 3 || len(b) < 2+k {
				return nil, false
			}
			ln = 0
			for i := 0; i < k; i++ {
				ln = ln<<8 | int(b[2+i])
			}
			h += k
		}
		if len(b) < h+ln {
			return nil, false
		}
		c := b[h : h+ln]
		b = b[h+ln:]
		switch {
		case n.Tag[0]&0x20 != 0:
			kids, ok := ParseDER(c, depth+1)
			if !ok {
				return nil, false
			}
			n.Kids = kids
			if kids == nil {
				n.Kids = []*Node{}
			}
		case n.Tag[0] == 4 && len(c) > 1 && c[0] >= 2:
			if kids, ok := ParseDER(c, depth+1); ok {
				n.Kids = kids
			} else {
				n.Prim = c
			}
		case n.Tag[0] == 3 && len(c) > 2 && c[0] == 0 && c[1] == 0x30:
			if kids, ok := ParseDER(c[1:], depth+1); ok {
				n.Kids, n.Pre = kids, c[:1]
			} else {
				n.Prim = c
			}
		default:
			n.Prim = c
		}
		l = append(l, n)
	}
	return l, true
}

// Bytes encodes the node.
func (n *Node) Bytes() []byte {
	if n.Raw != nil {
		return n.Raw
	}
	var c []byte
	if n.Kids != nil {
		c = append(c, n.Pre...)
		for _, k := range n.Kids {
			c = append(c, k.Bytes()...)
		}
	} else {
		c = n.Prim
	}
	out := append([]byte(nil), n.Tag...)
	switch {
	case n.EOC:
		out = append(out, 0x80)
		return append(append(out, c...), 0, 0)
	case n.Len != nil:
		out = append(out, n.Len...)
	default:
		out = append(out, Length(len(c))...)
	}
	return append(out, c...)
}

func (n *Node) all(l *[]*Node) {
	*l = append(*l, n)
	for _, k := range n.Kids {
		k.all(l)
	}
}

func (n *Node) clone() *Node {
	c := *n
	if n.Kids != nil {
		c.Kids = make([]*Node, len(n.Kids))
		for i, k := range n.Kids {
			c.Kids[i] = k.clone()
		}
	}
	return &c
}

// Mutation is one step; positions are taken modulo the number of nodes, so
// that a mutation drawn once can be applied to any value.
type Mutation struct {
	Op, At, At2, N int
	Data           []byte
}

var mutOps = []string{"tag", "tag byte", "empty", "truncate", "content", "extend", "delete", "duplicate", "swap", "replace", "graft", "length", "indefinite", "nest", "repeat", "byte", "integer", "wrap", "primitive", "special"}

func (m Mutation) String() string { return mutOps[m.Op] }

// DrawMutations draws up to max mutations.
func DrawMutations(t *pbt.T, max int) []Mutation {
	var l []Mutation
	for n := 1 + t.Size(max-1); n > 0; n-- {
		m := Mutation{Op: t.Intn(len(mutOps)), At: t.Intn(1 << 16), At2: t.Intn(1 << 16), N: t.Intn(1 << 16)}
		switch mutOps[m.Op] {
		case "content", "extend":
			m.Data = t.Bytes(t.Size(40))
		case "length":
			m.Data = pbt.Pick(t, []byte{0}, []byte{1}, []byte{0x7f}, []byte{0x80}, []byte{0x81, 0xff}, []byte{0x82, 0xff, 0xff}, []byte{0x84, 0x7f, 0xff, 0xff, 0xff}, []byte{0x84, 0xff, 0xff, 0xff, 0xff}, []byte{0x88, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, []byte{0x88, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, []byte{0xff}, []byte{0x85, 1, 0, 0, 0, 0}, []byte{0x83, 0, 0, 1})
		case "special":
			m.Data = pbt.Pick(t, specials...)
		}
		l = append(l, m)
	}
	return l
}

// specials replace whole nodes.
var specials = [][]byte{
	{5, 0}, {4, 0}, {3, 0}, {3, 1, 0}, {3, 1, 7}, {3, 1, 8}, {3, 2, 0xff, 0}, {2, 0}, {2, 1, 0x80}, {6, 0}, {0x30, 0}, {0x31, 0}, {0xa0, 0}, {0x16, 0}, {0x18, 0}, {0x17, 0}, {1, 0},
	{0x24, 0x80, 0, 0}, {0x30, 0x80, 0, 0}, {0x24, 0}, {0x04, 0x80}, {0x1f, 0x81, 0x80, 0x00, 0}, {0, 0},
	TLV(6, []byte{0x80}), TLV(6, []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}),
	TLV(3, append([]byte{0}, make([]byte, 5)...)), TLV(3, append([]byte{0}, make([]byte, 17)...)), TLV(3, append([]byte{0}, make([]byte, 40)...)),
	TLV(2, []byte{0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}), TLV(2, []byte{0x80, 0, 0, 0, 0, 0, 0, 0}), TLV(2, append([]byte{0x7f}, make([]byte, 30)...)), TLV(2, append([]byte{0x80}, make([]byte, 30)...)), TLV(2, []byte{0xff}), TLV(2, []byte{0}),
	Octets([]byte{0, 1}), Octets([]byte{0, 2}), Octets([]byte{0}), Octets([]byte{0, 3}), Octets([]byte{0, 1, 1}), Octets([]byte{0, 2, 1, 1}),
	TLV(0x18, []byte("00000000000000Z")), TLV(0x18, []byte("99991231235959Z")), TLV(0x17, []byte("991231235959Z")),
	Seq(TLV(3, []byte{0, 10}), TLV(3, []byte{0, 9})), Seq(Int(-1)), Seq(Int(5), Int(4)),
	TLV(0x16, []byte("\x00")), TLV(0x16, []byte("../../x")), TLV(0x16, []byte("\xff\xfe")),
	BitStr(AddrBytes(2, U128{0, 0xffff0a000000}), 128),
}

func mutate(l []*Node, m Mutation) []*Node {
	var ns []*Node
	for _, n := range l {
		n.all(&ns)
	}
	if len(ns) == 0 {
		return l
	}
	n, n2 := ns[m.At%len(ns)], ns[m.At2%len(ns)]
	flat := func() []byte {
		if n.Kids == nil {
			return append([]byte(nil), n.Prim...)
		}
		c := append([]byte(nil), n.Pre...)
		for _, k := range n.Kids {
			c = append(c, k.Bytes()...)
		}
		return c
	}
	set := func(c []byte) { n.Prim, n.Kids, n.Pre = c, nil, nil }
	switch mutOps[m.Op] {
	case "tag":
		n.Tag = []byte{[]byte{1, 2, 3, 4, 5, 6, 0x0c, 0x13, 0x16, 0x17, 0x18, 0x30, 0x31, 0x24, 0x23, 0x80, 0x81, 0x86, 0xa0, 0xa1, 0xa3, 0, 0x0a}[m.N%23]}
	case "tag byte":
		n.Tag = []byte{byte(m.N)}
		if m.N&0x1f == 0x1f {
			n.Tag = append(n.Tag, byte(m.N>>8))
		}
	case "empty":
		set(nil)
	case "truncate":
		if c := flat(); len(c) > 0 {
			set(c[:m.N%len(c)])
		}
	case "content":
		set(m.Data)
	case "extend":
		if n.Kids != nil {
			n.Kids = append(n.Kids, &Node{Raw: append([]byte{}, m.Data...)})
		} else {
			n.Prim = append(append([]byte(nil), n.Prim...), m.Data...)
		}
	case "delete", "duplicate", "swap":
		if len(n.Kids) == 0 {
			break
		}
		i, j := m.N%len(n.Kids), m.At2%len(n.Kids)
		switch mutOps[m.Op] {
		case "delete":
			n.Kids = append(append([]*Node{}, n.Kids[:i]...), n.Kids[i+1:]...)
		case "duplicate":
			n.Kids = append(append(append([]*Node{}, n.Kids[:j]...), n.Kids[i].clone()), n.Kids[j:]...)
		default:
			n.Kids[i], n.Kids[j] = n.Kids[j], n.Kids[i]
		}
	case "replace":
		*n = *n2.clone()
	case "graft":
		if n.Kids != nil {
			n.Kids = append(n.Kids, n2.clone())
		}
	case "length":
		n.Len = m.Data
	case "indefinite":
		n.EOC = true
	case "nest":
		b := n.Bytes()
		tag := byte(0x30)
		if len(n.Tag) > 0 {
			tag = n.Tag[0] | 0x20
		}
		for i := m.N % 300; i >= 0; i-- {
			b = TLV(tag, b)
		}
		n.Raw = b
	case "repeat":
		b := n.Bytes()
		k := 1 + m.N%200
		if len(b)*k > 1<<16 {
			k = 2
		}
		var c []byte
		for i := 0; i < k; i++ {
			c = append(c, b...)
		}
		n.Raw = c
	case "byte":
		if c := flat(); len(c) > 0 {
			c[m.N%len(c)] ^= byte(1 + m.At2%255)
			set(c)
		}
	case "integer":
		n.Tag = []byte{2}
		v := big.NewInt(int64(m.N) - 300)
		if m.N&1 == 1 {
			v.Lsh(v, uint(m.At2%140))
		}
		*n = Node{Raw: BigInt(v)}
	case "wrap":
		b := n.Bytes()
		*n = Node{Raw: TLV([]byte{4, 0x30, 0x31, 0xa0, 0x24}[m.N%5], b)}
	case "primitive":
		if len(n.Tag) > 0 {
			n.Tag = []byte{n.Tag[0] ^ 0x20}
		}
	case "special":
		*n = Node{Raw: m.Data}
	}
	return l
}

// Mutate applies the mutations to a DER value (at the level of its structure
// where it has any).
func Mutate(der []byte, ms []Mutation) []byte {
	l, ok := ParseDER(der, 0)
	if !ok {
		l = []*Node{{Raw: der}}
	}
	for _, m := range ms {
		l = mutate(l, m)
	}
	var out []byte
	for _, n := range l {
		out = append(out, n.Bytes()...)
	}
	return out
}

// Resign signs the first part of a SEQUENCE of three (a certificate or CRL)
// again after edit.
func Resign(der []byte, k *rsa.PrivateKey, edit func(tbs []byte) []byte) []byte {
	l, ok := ParseDER(der, 0)
	if !ok || len(l) != 1 || len(l[0].Kids) != 3 {
		return der
	}
	tbs := edit(l[0].Kids[0].Bytes())
	sig := Sign(k, tbs)
	return Seq(tbs, l[0].Kids[1].Bytes(), BitStr(sig, 8*len(sig)))
}
