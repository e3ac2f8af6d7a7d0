//go:build go1.22

package main

import (
	"fmt"
	"strings"
	"time"

	librpki "github.com/cloudflare/cfrpki/validator/lib"
	"github.com/cloudflare/cfrpki/validator/pki"
	"github.com/cloudflare/cfrpki/verifharness/gen"
	"github.com/cloudflare/cfrpki/verifharness/pbt"
)

var chainTime = time.Date(2020, 6, 1, 0, 0, 0, 0, time.UTC)

// node of a hierarchy that is fed to the validator directly.
type node struct {
	id     int
	parent *node
	cert   gen.Cert
	res    gen.Resources
	eff    *gen.Eff
	ok     bool // according to the model
	ca     bool
	kids   int
}

// drawRes draws resources for a certificate of the issuer: contained, a little
// outside, of another family, adjacent to or spanning blocks, or inheriting.
func drawRes(t *pbt.T, e *gen.Eff, ta bool) gen.Resources {
	var r gen.Resources
	mode := t.Intn(4) // 0,1: contained; 2: maybe not; 3: random
	ip := func(f gen.AFI) *gen.IPSet {
		switch t.Intn(6) {
		case 0:
			return nil
		case 1, 2:
			return &gen.IPSet{F: f, Inherit: true}
		}
		s := &gen.IPSet{F: f}
		for i := t.Range(1, 3); i > 0; i-- {
			if ta || mode == 3 && t.Bool() || len(e.IP[f]) == 0 {
				if mode < 2 && !ta {
					continue
				}
				s.Blocks = append(s.Blocks, gen.DrawBlock(t, f))
				continue
			}
			x := e.IP[f][t.Intn(len(e.IP[f]))]
			b := gen.SubBlock(t, x)
			if mode >= 2 && t.Chance(1, 3) {
				b = widen(t, b, x, e.IP[f])
			}
			s.Blocks = append(s.Blocks, b)
		}
		if len(s.Blocks) == 0 {
			return nil
		}
		return s
	}
	r.V4, r.V6 = ip(1), ip(2)
	switch t.Intn(6) {
	case 0:
	case 1, 2:
		r.AS = &gen.ASSet{Inherit: true}
	default:
		s := &gen.ASSet{}
		for i := t.Range(1, 3); i > 0; i-- {
			if ta || mode == 3 && t.Bool() || len(e.AS) == 0 {
				if mode < 2 && !ta {
					continue
				}
				s.Blocks = append(s.Blocks, gen.DrawASBlock(t))
				continue
			}
			x := e.AS[t.Intn(len(e.AS))]
			b := gen.SubAS(t, x)
			if mode >= 2 && t.Chance(1, 3) {
				switch t.Intn(3) {
				case 0:
					if x.Max < 1<<32-1 {
						b.Max = x.Max + 1
					}
				case 1:
					if x.Min > 0 {
						b.Min = x.Min - 1
					}
				case 2:
					b.Max = e.AS[t.Intn(len(e.AS))].Max // spans blocks
					if b.Max < b.Min {
						b.Min, b.Max = b.Max, b.Min
					}
				}
				b.Range = b.Range || b.Min != b.Max
			}
			s.Blocks = append(s.Blocks, b)
		}
		if len(s.Blocks) > 0 {
			r.AS = s
		}
	}
	return r
}

// widen makes a block reach over the issuer's block x.
func widen(t *pbt.T, b, x gen.Block, all []gen.Block) gen.Block {
	one := gen.U128{Lo: 1}
	n := b
	n.Plen = -1
	switch t.Intn(4) {
	case 0:
		if x.Max != gen.HostMask(b.F, 0) {
			n.Max = x.Max.Add(one)
		}
	case 1:
		if x.Min != (gen.U128{}) {
			n.Min = x.Min.Sub(one)
		}
	case 2: // up to the end of another block
		y := all[t.Intn(len(all))]
		if y.Max.Cmp(n.Min) >= 0 {
			n.Max = y.Max
		}
	case 3: // just beside it
		if x.Max != gen.HostMask(b.F, 0) {
			n.Min, n.Max = x.Max.Add(one), x.Max.Add(one)
		}
	}
	return n
}

// c03Chains feeds hierarchies of certificates to a validator.
func c03Chains(t *pbt.T) {
	ks := gen.Keys()
	first := t.Intn(len(ks))
	max := 12
	if t.Thorough {
		max = 30
	}
	v := pki.NewValidator()
	v.Time = chainTime
	var nodes []*node
	rejected, inheritDeep := 0, 0
	n := t.Range(2, max)
	for i := 0; i < n; i++ {
		nd := &node{id: i, ca: true}
		key := ks[(first+i)%len(ks)]
		if i == 0 {
			nd.res = drawRes(t, nil, true)
			if t.Chance(7, 8) { // mostly a trust anchor that lists something
				for _, f := range []gen.AFI{1, 2} {
					if s := nd.res.Fam(f); s == nil || s.Inherit {
						n := &gen.IPSet{F: f, Blocks: []gen.Block{gen.DrawBlock(t, f), gen.DrawBlock(t, f)}}
						if f == 1 {
							nd.res.V4 = n
						} else {
							nd.res.V6 = n
						}
					}
				}
				if nd.res.AS == nil || nd.res.AS.Inherit {
					nd.res.AS = &gen.ASSet{Blocks: []gen.ASBlock{gen.DrawASBlock(t)}}
				}
			}
			nd.eff = gen.EffOf(nd.res, nil)
			nd.ok = true
		} else {
			var cas []*node
			for _, x := range nodes {
				if x.ca {
					cas = append(cas, x)
				}
			}
			nd.parent = cas[len(cas)-1]
			if t.Chance(1, 3) {
				nd.parent = cas[t.Intn(len(cas))]
			}
			nd.ca = !t.Chance(1, 4)
			nd.res = drawRes(t, nd.parent.eff, false)
			nd.eff = gen.EffOf(nd.res, nd.parent.eff)
			nd.ok = nd.parent.ok && gen.Within(nd.res, nd.parent.eff)
		}
		nd.cert = gen.Cert{
			Serial: gen.Serial(t), Subject: fmt.Sprintf("n%d", i), Issuer: fmt.Sprintf("n%d", i),
			NotBefore: chainTime.AddDate(-1, 0, 0), NotAfter: chainTime.AddDate(1, 0, 0),
			Key: &key.PublicKey, SKI: gen.KeyID(&key.PublicKey), CA: nd.ca, Res: nd.res, Signer: key,
		}
		if nd.parent != nil {
			pk := ks[(first+nd.parent.id)%len(ks)]
			nd.cert.Issuer = nd.parent.cert.Subject
			nd.cert.AKI = nd.parent.cert.SKI
			nd.cert.Signer = pk
		}
		c, err := librpki.DecodeCertificate(nd.cert.DER())
		if err != nil {
			t.Failf("certificate %d (%s): %v", i, nd.res, err)
		}
		valid, _, _, err := v.AddCert(c, i == 0)
		up := "trust anchor"
		if nd.parent != nil {
			up = fmt.Sprintf("issued by n%d", nd.parent.id)
		}
		t.Logf("n%d: %s, %s: valid=%v want %v", i, up, nd.res, valid, nd.ok)
		if valid != nd.ok {
			t.Failf("n%d (%s, %s) valid=%v, want %v: %v", i, up, nd.res, valid, nd.ok, err)
		}
		if _, in := v.ValidObjects[string(nd.cert.SKI)]; in != nd.ok {
			t.Failf("n%d among the valid objects: %v, want %v", i, in, nd.ok)
		}
		if !nd.ok {
			rejected++
		} else if nd.parent != nil && nd.parent.parent != nil && inherits(nd.parent.res) && !inherits(nd.res) {
			inheritDeep++
		}
		nodes = append(nodes, nd)
	}
	if rejected > 0 || inheritDeep > 0 {
		var l []string
		for _, x := range nodes {
			p := -1
			if x.parent != nil {
				p = x.parent.id
			}
			l = append(l, fmt.Sprintf("%d%v", p, x.ok))
		}
		t.NonTrivial("%s", strings.Join(l, " "))
	}
	t.Label("rejections: %v", rejected > 0)
	t.Label("resources held through inheritance: %v", inheritDeep > 0)
	t.Sample("%d certificates, %d rejected; last: %s", n, rejected, nodes[n-1].res)
}

func inherits(r gen.Resources) bool {
	return r.V4 != nil && r.V4.Inherit || r.V6 != nil && r.V6.Inherit || r.AS != nil && r.AS.Inherit
}

// c03ROA compares which entries the library counts as covered.
func c03ROA(t *pbt.T) {
	ks := gen.Keys()
	key, issuer := ks[t.Intn(len(ks))], ks[0]
	res := drawRes(t, &gen.Eff{}, true)
	var entries []gen.ROAEntry
	var all []gen.Block
	for _, f := range []gen.AFI{1, 2} {
		if s := res.Fam(f); s != nil {
			all = append(all, s.Blocks...)
		}
	}
	for i := t.Range(1, 6); i > 0; i-- {
		var p gen.Prefix
		if len(all) > 0 && t.Chance(3, 4) {
			p = gen.SubPrefix(t, all[t.Intn(len(all))])
			if p.Plen > 0 && t.Chance(1, 3) { // one bit shorter
				p.Plen--
				p.A = p.A.And(gen.HostMask(p.F, p.Plen).Not())
			}
		} else {
			p = gen.DrawPrefix(t, gen.AFI(1+t.Intn(2)))
		}
		entries = append(entries, gen.ROAEntry{P: p, MaxLen: pbt.Pick(t, -1, p.Plen, p.F.Bits())})
	}
	if len(entries) == 0 {
		t.Discard()
	}
	ct := gen.Cert{Serial: gen.Serial(t), Subject: "ee", Issuer: "ca", NotBefore: chainTime, NotAfter: chainTime.AddDate(1, 0, 0),
		Key: &key.PublicKey, SKI: gen.KeyID(&key.PublicKey), AKI: gen.KeyID(&issuer.PublicKey), Signer: issuer, Res: res}
	o := gen.CMS{Type: gen.OidROA, Content: gen.ROAContent(1, entries), EE: ct.DER(), SKI: ct.SKI, Signer: key, SigningTime: chainTime}
	dc := librpki.DecoderConfig{ValidateStrict: true}
	roa, err := dc.DecodeROA(o.DER())
	if err != nil {
		t.Failf("DecodeROA: %v (certificate %s)", err, res)
	}
	isIn := func(l []*librpki.ROAEntry, e *librpki.ROAEntry) bool {
		for _, x := range l {
			if x == e {
				return true
			}
		}
		return false
	}
	i, covered := 0, 0
	for _, f := range []gen.AFI{1, 2} {
		for _, e := range entries {
			if e.P.F != f {
				continue
			}
			if i >= len(roa.Entries) {
				t.Failf("%d entries decoded, want %d", len(roa.Entries), len(entries))
			}
			x := roa.Entries[i]
			i++
			set := res.Fam(f)
			if set != nil && set.Inherit {
				if isIn(roa.Invalids, x) {
					t.Failf("%s: not covered though the certificate inherits (%s)", e.P, res)
				}
				continue
			}
			want := false
			if set != nil {
				for _, b := range set.Blocks {
					want = want || b.Contains(gen.PrefixBlock(e.P))
				}
			}
			if want {
				covered++
			}
			if got := isIn(roa.Valids, x); got != want {
				t.Failf("%s counts as covered: %v, want %v (certificate %s)", e.P, got, want, res)
			}
			if !want && isIn(roa.CheckParent, x) {
				t.Failf("%s is left to the issuer though the certificate does not inherit (%s)", e.P, res)
			}
		}
	}
	t.NonTrivial("%d of %d %v", covered, len(entries), inherits(res))
	t.Label("some covered: %v, some not: %v", covered > 0, covered < len(entries))
	t.Sample("%d entries, %d covered by %s", len(entries), covered, res)
}

func propC03() pbt.Property {
	return pbt.Property{
		ID:   "C03",
		Rule: "chains: non-trivial when a certificate is to be refused, or lists resources its issuer only holds through inheritance; signature: the hierarchy with its verdicts",
		Suites: []pbt.Suite{
			{Name: "chains", Rule: "hierarchies of up to 12 (30) certificates with contained, overlapping, adjacent, spanning, foreign and inherited resources: accepted exactly if contained in one block of what the issuer effectively holds", Quick: 12000, Thorough: 300000, Prop: c03Chains},
			{Name: "roa", Rule: "entries in, beside and around the resources of the end-entity certificate: covered exactly if in one of its blocks", Quick: 12000, Thorough: 300000, Prop: c03ROA},
		},
	}
}
