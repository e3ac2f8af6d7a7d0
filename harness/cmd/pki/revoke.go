//go:build go1.22

package main

import (
	"crypto/x509"
	"fmt"
	"math/big"
	"strings"

	librpki "github.com/cloudflare/cfrpki/validator/lib"
	"github.com/cloudflare/cfrpki/validator/pki"
	"github.com/cloudflare/cfrpki/verifharness/gen"
	"github.com/cloudflare/cfrpki/verifharness/pbt"
)

// object of a revocation history: certificates, ROAs, manifests.
type object struct {
	kind    string // ca, ee, roa, mft
	parent  *object
	key     int
	serial  *big.Int
	der     []byte
	added   bool
	revoked bool // by an applied CRL
	desc    string
}

// valid says whether the object should be valid now.
func (o *object) valid() bool {
	for x := o; x != nil; x = x.parent {
		if !x.added || x.revoked {
			return false
		}
	}
	return true
}

type crl struct {
	issuer *object
	good   bool
	revs   []*big.Int
	der    []byte
	desc   string
}

// c04History adds certificates, signed objects and CRLs in any order in which
// issuers come first, and compares what is valid after each step.
func c04History(t *pbt.T) {
	ks := gen.Keys()
	first := t.Intn(len(ks))
	kid := func(i int) []byte { return gen.KeyID(&ks[(first+i)%len(ks)].PublicKey) }
	max := 12
	if t.Thorough {
		max = 24
	}
	n := t.Range(3, max)
	full := gen.Resources{V4: &gen.IPSet{F: 1, Blocks: []gen.Block{gen.PrefixBlock(gen.Prefix{F: 1})}}, AS: &gen.ASSet{Blocks: []gen.ASBlock{{Max: 1<<32 - 1, Range: true}}}}
	var objs []*object
	serials := []*big.Int{big.NewInt(1), big.NewInt(2), big.NewInt(12), gen.Serial(t)}
	for i := 0; i < n; i++ {
		o := &object{kind: "ca", key: i, serial: serials[t.Intn(len(serials))]}
		if t.Chance(1, 3) {
			o.serial = gen.Serial(t)
		}
		if i > 0 {
			var cas []*object
			for _, x := range objs {
				if x.kind == "ca" {
					cas = append(cas, x)
				}
			}
			o.parent = cas[t.Intn(len(cas))]
			o.kind = pbt.Pick(t, "ca", "ca", "ee", "roa", "mft")
		}
		k := ks[(first+i)%len(ks)]
		c := gen.Cert{Serial: o.serial, Subject: fmt.Sprintf("o%d", i), Issuer: fmt.Sprintf("o%d", i), NotBefore: chainTime.AddDate(-1, 0, 0), NotAfter: chainTime.AddDate(1, 0, 0),
			Key: &k.PublicKey, SKI: kid(i), CA: o.kind == "ca", Res: full, Signer: k}
		if o.parent != nil {
			c.Issuer = fmt.Sprintf("o%d", o.parent.key)
			c.AKI = kid(o.parent.key)
			c.Signer = ks[(first+o.parent.key)%len(ks)]
			o.desc = fmt.Sprintf("%s o%d of o%d serial %v", o.kind, i, o.parent.key, o.serial)
		} else {
			o.desc = fmt.Sprintf("TA o%d", i)
		}
		o.der = c.DER()
		if o.kind == "roa" || o.kind == "mft" {
			cms := gen.CMS{EE: o.der, SKI: c.SKI, Signer: k, SigningTime: chainTime}
			if o.kind == "roa" {
				cms.Type = gen.OidROA
				cms.Content = gen.ROAContent(uint32(i), []gen.ROAEntry{{P: gen.Prefix{F: 1, A: gen.U128{Lo: 10 << 24}, Plen: 8}, MaxLen: -1}})
			} else {
				cms.Type = gen.OidManifest
				cms.Content = gen.ManifestContent(big.NewInt(1), chainTime.AddDate(0, 0, -1), chainTime.AddDate(0, 0, 1), nil)
			}
			o.der = cms.DER()
		}
		objs = append(objs, o)
	}
	var crls []*crl
	for i := t.Range(1, 4); i > 0; i-- {
		var cas []*object
		for _, x := range objs {
			if x.kind == "ca" {
				cas = append(cas, x)
			}
		}
		is := cas[t.Intn(len(cas))]
		c := &crl{issuer: is, good: true}
		for j := t.Range(0, 3); j > 0; j-- {
			if t.Chance(3, 4) { // of some object, its own or another CA's
				c.revs = append(c.revs, objs[t.Intn(n)].serial)
			} else {
				c.revs = append(c.revs, gen.Serial(t))
			}
		}
		for _, x := range objs {
			if x.parent == is && t.Chance(1, 4) {
				c.revs = append(c.revs, x.serial)
			}
		}
		d := gen.CRL{Issuer: fmt.Sprintf("o%d", is.key), This: chainTime, Next: chainTime.AddDate(0, 1, 0), Revoked: c.revs, AKI: kid(is.key), Signer: ks[(first+is.key)%len(ks)]}
		what := "CRL"
		if t.Chance(1, 3) {
			c.good = false
			switch t.Intn(4) {
			case 0:
				d.TamperSig = true
				what = "badly signed CRL"
			case 1:
				o := t.Intn(n + 2)
				if o == is.key {
					o = n + 2
				}
				d.Signer = ks[(first+o)%len(ks)]
				what = fmt.Sprintf("CRL signed by o%d", o)
			case 2:
				d.AKI = t.Bytes(20)
				what = "CRL of an unknown issuer"
			case 3:
				d.AKI = nil
				what = "CRL without issuer identifier"
			}
		}
		var l []string
		for _, r := range c.revs {
			l = append(l, r.String())
		}
		c.desc = fmt.Sprintf("%s of o%d: %s", what, is.key, strings.Join(l, ","))
		c.der = d.DER()
		crls = append(crls, c)
	}

	v := pki.NewValidator()
	v.Time = chainTime
	check := func(after string) {
		for _, o := range objs {
			if !o.added {
				continue
			}
			ski := string(kid(o.key))
			want := o.valid()
			if _, got := v.ValidObjects[ski]; got != want {
				t.Failf("after %s: %s valid=%v, want %v", after, o.desc, got, want)
			}
			_, inROA := v.ValidROA[ski]
			_, inMft := v.ValidManifest[ski]
			if inROA != (want && o.kind == "roa") || inMft != (want && o.kind == "mft") {
				t.Failf("after %s: %s among the valid ROAs: %v, manifests: %v, want valid=%v", after, o.desc, inROA, inMft, want)
			}
		}
	}
	addObj := func(o *object) bool {
		var valid bool
		switch o.kind {
		case "roa":
			r, err := v.DecoderConfig.DecodeROA(append([]byte(nil), o.der...))
			if err != nil {
				t.Failf("DecodeROA: %v", err)
			}
			valid, _, _ = v.AddROA(&pki.PKIFile{Type: pki.TYPE_ROA}, r)
		case "mft":
			m, err := v.DecoderConfig.DecodeManifest(append([]byte(nil), o.der...))
			if err != nil {
				t.Failf("DecodeManifest: %v", err)
			}
			valid, _, _, _ = v.AddManifest(&pki.PKIFile{Type: pki.TYPE_MFT}, m)
		default:
			c, err := librpki.DecodeCertificate(o.der)
			if err != nil {
				t.Failf("DecodeCertificate: %v", err)
			}
			valid, _, _, _ = v.AddCert(c, o.parent == nil)
		}
		return valid
	}
	// serials revoked per issuer
	applied := map[*object]map[string]bool{}
	revokedBefore, effective := 0, 0
	pendO, pendC := append([]*object(nil), objs...), append([]*crl(nil), crls...)
	for len(pendO)+len(pendC) > 0 {
		// ready objects: whose issuer was added
		var ready []int
		for i, o := range pendO {
			if o.parent == nil || o.parent.added {
				ready = append(ready, i)
			}
		}
		k := t.Intn(len(ready) + len(pendC))
		if k < len(ready) {
			o := pendO[ready[k]]
			pendO = append(pendO[:ready[k]:ready[k]], pendO[ready[k]+1:]...)
			o.added = true
			if o.parent != nil && applied[o.parent][o.serial.String()] {
				o.revoked = true
				revokedBefore++
			}
			got := addObj(o)
			t.Logf("add %s", o.desc)
			if got != o.valid() {
				t.Failf("%s added: valid=%v, want %v", o.desc, got, o.valid())
			}
			check("adding " + o.desc)
			if t.Chance(1, 12) { // again
				addObj(o)
				t.Logf("add %s again", o.desc)
				check("adding again " + o.desc)
			}
			continue
		}
		k -= len(ready)
		c := pendC[k]
		pendC = append(pendC[:k:k], pendC[k+1:]...)
		p, err := x509.ParseDERCRL(c.der)
		if err != nil {
			t.Failf("CRL: %v", err)
		}
		_, _, _ = v.AddCRL(p)
		t.Logf("add %s", c.desc)
		if c.good && c.issuer.valid() {
			if applied[c.issuer] == nil {
				applied[c.issuer] = map[string]bool{}
			}
			for _, r := range c.revs {
				applied[c.issuer][r.String()] = true
			}
			for _, o := range objs {
				if o.added && o.parent == c.issuer && applied[c.issuer][o.serial.String()] && !o.revoked {
					o.revoked = true
					effective++
				}
			}
		}
		check("adding " + c.desc)
	}
	if revokedBefore+effective > 0 {
		t.NonTrivial("%d objects, %d CRLs, %d before, %d after", n, len(crls), revokedBefore, effective)
	}
	t.Label("revoked before: %v, after: %v", revokedBefore > 0, effective > 0)
	t.Sample("%d objects; %d revoked after, %d before they were added; %s", n, effective, revokedBefore, crls[0].desc)
}

// c04Tree compares whole trees: what correct CRLs revoke is gone, the rest is not.
func c04Tree(t *pbt.T) {
	o := treeOpts(t)
	o.MinROAs = t.Intn(2)
	tr := gen.DrawTree(t, o)
	k := 0
	for _, c := range tr.CAs {
		for _, x := range c.Kids {
			if t.Chance(1, 4) {
				c.Revoked = append(c.Revoked, x.Serial)
				tr.Faults = append(tr.Faults, fmt.Sprintf("ca%d revoked", x.ID))
				k++
			}
		}
		for _, r := range c.ROAs {
			if t.Chance(1, 4) {
				c.Revoked = append(c.Revoked, r.Serial)
				tr.Faults = append(tr.Faults, r.Name+" revoked")
				k++
			}
		}
	}
	if t.Chance(1, 2) {
		tr.Hurt(t, gen.CRLs, t.Range(1, 2))
	}
	tr.Build(0)
	h := strict(tr)
	drawMode(t, tr, &h)
	ps := tr.Model(h.Settings)
	no, _, yes := verdicts(ps)
	logTree(t, tr, h)
	out := validate(tr, h)
	if no > 0 && yes > 0 {
		t.NonTrivial("%s|%d", shape(tr), k)
	}
	t.Sample("%s; %s; %d payloads due, %d revoked", shape(tr), strings.Join(tr.Faults, ", "), yes, no)
	b := boundsOf(ps)
	checkMax(t, "output", out.counts, b, ps)
	checkMin(t, "output", out.counts, b, ps)
}

func propC04() pbt.Property {
	return pbt.Property{
		ID:   "C04",
		Rule: "history: non-trivial when a CRL revokes something added before or after it; tree: when some payloads are revoked and some are not",
		Suites: []pbt.Suite{
			{Name: "history", Rule: "3-12 (24) certificates, ROAs and manifests with colliding serial numbers and 1-4 CRLs (some badly signed, foreign or anonymous) added in any order with issuers first: valid after each step exactly what a set-based model says", Quick: 6000, Thorough: 250000, Prop: c04History},
			{Name: "tree", Rule: "whole trees in which CRLs on manifests in any order revoke a quarter of all certificates, or fail to", Quick: 2000, Thorough: 60000, Prop: c04Tree},
		},
	}
}
