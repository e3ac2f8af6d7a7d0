//go:build go1.22

// Command ov checks route origin validation: C20.
package main

import (
	"bytes"
	"fmt"
	"net"
	"sort"
	"strings"
	"sync"

	"github.com/cloudflare/cfrpki/ov"
	"github.com/cloudflare/cfrpki/verifharness/gen"
	"github.com/cloudflare/cfrpki/verifharness/pbt"
)

func main() { pbt.Main(propC20()) }

const v4, v6 = gen.AFI(1), gen.AFI(2)

// vrp is a payload: the library sees only the three methods.
type vrp struct {
	p      gen.Prefix
	as     uint32
	maxLen int
	net    *net.IPNet
	n      int
}

func (v *vrp) GetASN() uint32        { return v.as }
func (v *vrp) GetMaxLen() int        { return v.maxLen }
func (v *vrp) GetPrefix() *net.IPNet { return v.net }
func (v *vrp) String() string        { return fmt.Sprintf("#%d AS%d %s-%d", v.n, v.as, v.p, v.maxLen) }

type route struct {
	p   gen.Prefix
	as  uint32
	net *net.IPNet
}

func (r *route) GetASN() uint32        { return r.as }
func (r *route) GetPrefix() *net.IPNet { return r.net }

// ipnet is the prefix in one of the forms net.IPNet allows for it.
func ipnet(t *pbt.T, p gen.Prefix) *net.IPNet {
	ip := net.IP(append([]byte(nil), gen.AddrBytes(p.F, p.A)...))
	if p.F == v4 && t.Chance(1, 3) {
		ip = ip.To16() // as net.ParseIP gives it
	}
	return &net.IPNet{IP: ip, Mask: net.CIDRMask(p.Plen, p.F.Bits())}
}

// drawP draws prefixes that nest, touch and diverge at every bit.
func drawP(t *pbt.T, pool []gen.Prefix, mapped bool) gen.Prefix {
	if len(pool) == 0 || t.Chance(1, 8) {
		if mapped {
			switch t.Intn(3) {
			case 0: // around ::ffff:0:0/96
				l := t.Range(70, 128)
				a := gen.U128{Lo: 0xffff<<32 | uint64(uint32(t.Uint64()))}
				return gen.Prefix{F: v6, A: a.And(gen.HostMask(v6, l).Not()), Plen: l}
			}
		}
		return gen.DrawPrefix(t, pbt.Pick(t, v4, v4, v6))
	}
	p := pbt.Pick(t, pool...)
	bits := p.F.Bits()
	cut := func(l int) gen.Prefix {
		return gen.Prefix{F: p.F, A: p.A.And(gen.HostMask(p.F, l).Not()), Plen: l}
	}
	one := func(pos int) gen.U128 { // bit at position pos counted from the left
		n := bits - 1 - pos
		if n >= 64 {
			return gen.U128{Hi: 1 << uint(n-64)}
		}
		return gen.U128{Lo: 1 << uint(n)}
	}
	var q gen.Prefix
	switch t.Intn(6) {
	case 0:
		q = p
	case 1:
		q = cut(t.Intn(p.Plen + 1))
	case 2: // more specific
		l := t.Range(p.Plen, bits)
		if t.Bool() && p.Plen+8 < bits {
			l = p.Plen + t.Range(1, 8)
		}
		q = gen.Prefix{F: p.F, Plen: l, A: p.A.Or(gen.FromBytes(t.Bytes(bits / 8)).And(gen.HostMask(p.F, p.Plen))).And(gen.HostMask(p.F, l).Not())}
		if t.Bool() { // the first or last one
			q.A = p.A
			if t.Bool() {
				q.A = p.A.Or(gen.HostMask(p.F, p.Plen)).And(gen.HostMask(p.F, l).Not())
			}
		}
	case 3: // differing in one bit
		if p.Plen == 0 {
			return p
		}
		b := one(t.Intn(p.Plen))
		q = p
		if q.A.And(b) == (gen.U128{}) {
			q.A = q.A.Or(b)
		} else {
			q.A = q.A.And(b.Not())
		}
	case 4: // the same bits in the other family
		if p.F == v4 {
			q = gen.Prefix{F: v6, A: gen.U128{Hi: p.A.Lo << 32}, Plen: p.Plen}
		} else {
			l := p.Plen
			if l > 32 {
				l = 32
			}
			q = gen.Prefix{F: v4, A: gen.U128{Lo: p.A.Hi >> 32}.And(gen.HostMask(v4, l).Not()), Plen: l}
			q.A.Hi, q.A.Lo = 0, q.A.Lo&0xffffffff
		}
	default:
		q = gen.DrawPrefix(t, p.F)
	}
	if !mapped && q.F == v6 && gen.Mapped(q.A) {
		return p
	}
	return q
}

// covers is bit by bit, on the octets.
func covers(a, b gen.Prefix) bool {
	if a.F != b.F || a.Plen > b.Plen {
		return false
	}
	x, y := gen.AddrBytes(a.F, a.A), gen.AddrBytes(b.F, b.A)
	for i := 0; i < a.Plen; i++ {
		if (x[i/8]^y[i/8])&(0x80>>uint(i%8)) != 0 {
			return false
		}
	}
	return true
}

func origin(mapped bool) func(t *pbt.T) {
	return func(t *pbt.T) {
		var pool []gen.Prefix
		ases := []uint32{0, 1, 65000, 4294967295}
		as := func() uint32 {
			if t.Chance(1, 6) {
				return uint32(t.Uint64())
			}
			return pbt.Pick(t, ases...)
		}
		max := 24
		if t.Thorough {
			max = 120
		}
		var vs []*vrp
		for i := t.Range(0, max); i > 0; i-- {
			var v vrp
			if len(vs) > 0 && t.Chance(1, 6) {
				v = *pbt.Pick(t, vs...) // a duplicate, or another AS or length
				if t.Bool() {
					v.as = as()
				}
			} else {
				v.p = drawP(t, pool, mapped)
				pool = append(pool, v.p)
				v.as = as()
				v.maxLen = v.p.Plen
			}
			if t.Bool() {
				v.maxLen = t.Range(v.p.Plen, v.p.F.Bits())
			}
			v.net = ipnet(t, v.p)
			v.n = len(vs)
			vs = append(vs, &v)
		}
		order := t.Perm(len(vs))
		in := make([]ov.AbstractROA, len(vs))
		for i, j := range order {
			in[i] = vs[j]
		}
		o := ov.NewOV(in)
		var routes []*route
		for i := t.Range(1, 10); i > 0; i-- {
			r := &route{p: drawP(t, pool, mapped), as: as()}
			r.net = ipnet(t, r.p)
			routes = append(routes, r)
		}
		check := func(r *route) string {
			cp, cm := append(net.IP(nil), r.net.IP...), append(net.IPMask(nil), r.net.Mask...)
			got, state, err := o.Validate(r)
			if err != nil {
				return fmt.Sprintf("error %v", err)
			}
			if !bytes.Equal(cp, r.net.IP) || !bytes.Equal(cm, r.net.Mask) {
				return "the route was altered"
			}
			want, match := []string{}, false
			for _, v := range vs {
				if covers(v.p, r.p) {
					want = append(want, v.String())
					if v.as == r.as && r.as != 0 && r.p.Plen <= v.maxLen {
						match = true
					}
				}
			}
			st := "NotFound"
			if match {
				st = "Valid"
			} else if len(want) > 0 {
				st = "Invalid"
			}
			if ov.StateToName[state] != st {
				return fmt.Sprintf("%s, want %s (covering: %v)", ov.StateToName[state], st, want)
			}
			have := []string{}
			for _, g := range got {
				have = append(have, g.(*vrp).String())
			}
			sort.Strings(have)
			sort.Strings(want)
			if strings.Join(have, "|") != strings.Join(want, "|") {
				return fmt.Sprintf("covering payloads %v, want %v", have, want)
			}
			return st + " " + fmt.Sprint(len(want))
		}
		rep := make([]string, len(routes))
		if t.Chance(1, 4) { // all at once
			var wg sync.WaitGroup
			for i := range routes {
				wg.Add(1)
				go func(i int) { defer wg.Done(); rep[i] = check(routes[i]) }(i)
			}
			wg.Wait()
		} else {
			for i, r := range routes {
				rep[i] = check(r)
			}
		}
		nt := false
		for i, r := range routes {
			switch w := strings.Fields(rep[i]); {
			case len(w) == 2 && (w[0] == "Valid" || w[0] == "Invalid" || w[0] == "NotFound"):
				t.Label("%s", w[0])
				nt = nt || w[1] != "0"
			default:
				t.Failf("route AS%d %s: %s; payloads %v", r.as, r.p, rep[i], vs)
			}
		}
		if nt {
			t.NonTrivial("%v %v", vs, rep)
			t.Sample("payloads %v; route AS%d %s: %s", vs, routes[0].as, routes[0].p, rep[0])
		}
	}
}

func propC20() pbt.Property {
	return pbt.Property{
		ID:   "C20",
		Rule: "non-trivial: at least one route is covered by a payload; distinct payload sets and verdicts",
		Suites: []pbt.Suite{
			{Name: "origin", Rule: "0-24 (120) payloads that nest, touch, diverge in one bit, or repeat; 1-10 routes derived from them; a bit-by-bit RFC 6811 oracle", Quick: 60000, Thorough: 2000000, Prop: origin(false)},
			{Name: "mapped", Rule: "the same with IPv6 prefixes in and around ::ffff:0:0/96", Quick: 20000, Thorough: 500000, Prop: origin(true)},
		},
	}
}
