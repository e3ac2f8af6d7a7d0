//go:build go1.22

package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/cloudflare/cfrpki/verifharness/gen"
	"github.com/cloudflare/cfrpki/verifharness/pbt"
)

func treeOpts(t *pbt.T) gen.TreeOpts {
	o := gen.TreeOpts{TAs: 2, CAs: 6, ROAs: 3, Depth: 5}
	if t.Thorough {
		o.CAs, o.TAs = 10, 3
	}
	switch t.Intn(6) {
	case 0: // a chain
		o.Depth, o.ROAs, o.TAs = 10, 1, 1
	case 1: // a wide one
		o.Depth = 1
	case 2:
		o.MinROAs = 2
	}
	return o
}

func drawHow(t *pbt.T, tr *gen.Tree) how {
	h := strict(tr)
	if t.Chance(1, 3) {
		h.StrictManifests, h.StrictHash, h.StrictCMS = t.Bool(), t.Bool(), t.Bool()
	}
	if t.Chance(1, 4) {
		h.Time = h.Time.Add(time.Duration(t.Intn(1000)) * time.Millisecond / 2)
	}
	drawMode(t, tr, &h)
	return h
}

func drawMode(t *pbt.T, tr *gen.Tree, h *how) {
	h.absent = t.Bool()
	h.joint = len(tr.TAs) > 1 && t.Chance(1, 3)
	h.order = t.Perm(len(tr.TAs))
	if t.Chance(1, 8) {
		h.disk = os.TempDir()
	}
}

func kindSig(kinds []string) string {
	l := append([]string(nil), kinds...)
	sort.Strings(l)
	return strings.Join(l, "+")
}

func shape(tr *gen.Tree) string {
	d, r := 0, 0
	for _, c := range tr.CAs {
		if x := c.Depth(); x > d {
			d = x
		}
		r += len(c.ROAs)
	}
	return fmt.Sprintf("%dTA %dCA depth %d %d ROAs", len(tr.TAs), len(tr.CAs), d, r)
}

func verdicts(ps []gen.Payload) (no, maybe, yes int) {
	for _, p := range ps {
		switch p.V {
		case gen.No:
			no++
		case gen.Maybe:
			maybe++
		default:
			yes++
		}
	}
	return
}

const allFaults = gen.SelfROA | gen.SelfCA | gen.Listing | gen.Point | gen.CRLs | gen.Hostile | gen.Anchor

// c01Sound: nothing is output that the model does not allow.
func c01Sound(class int) func(t *pbt.T) {
	return func(t *pbt.T) {
		tr := gen.DrawTree(t, treeOpts(t))
		_, kinds := tr.Hurt(t, class, t.Range(1, 6))
		tr.Build(0)
		h := drawHow(t, tr)
		ps := tr.Model(h.Settings)
		no, maybe, _ := verdicts(ps)
		logTree(t, tr, h)
		out := validate(tr, h)
		if no > 0 {
			t.NonTrivial("%s|%s", shape(tr), kindSig(kinds))
		}
		for _, k := range kinds {
			t.Label("%s", k)
		}
		t.Label("payloads that must not appear: %v", no > 0)
		t.Label("output empty: %v", len(out.counts) == 0)
		t.Sample("%s; %s; %d payloads forbidden, %d open, %d output", shape(tr), strings.Join(tr.Faults, ", "), no, maybe, out.total())
		checkMax(t, "output", out.counts, boundsOf(ps), ps)
	}
}

func propC01() pbt.Property {
	return pbt.Property{
		ID:   "C01",
		Rule: "a case is non-trivial when the tree contains payloads that must not be output; signature: the shape of the tree and the kinds of faults",
		Suites: []pbt.Suite{
			{Name: "faulty", Rule: "trees of 1-3 trust anchors with 1-6 faults of any kind (certificate, CMS, listing, CRL, trust anchor, hostile), any strictness, memory or disk, joint or separate trust anchors: every payload output is one the reference model allows, not more often", Quick: 2500, Thorough: 80000, Prop: c01Sound(allFaults)},
			{Name: "objects", Rule: "the same with faults of ROAs and CA certificates only, so that the rest stays alive", Quick: 2500, Thorough: 80000, Prop: c01Sound(gen.SelfROA | gen.SelfCA)},
		},
	}
}

// c02Complete: everything valid is output, exactly as often as it is listed.
func c02Complete(class, faults int) func(t *pbt.T) {
	return func(t *pbt.T) {
		tr := gen.DrawTree(t, treeOpts(t))
		var kinds []string
		if faults > 0 {
			_, kinds = tr.Hurt(t, class, t.Range(1, faults))
		}
		tr.Build(0)
		h := strict(tr)
		h.StrictCMS = !t.Chance(1, 4)
		drawMode(t, tr, &h)
		ps := tr.Model(h.Settings)
		no, maybe, yes := verdicts(ps)
		logTree(t, tr, h)
		out := validate(tr, h)
		if yes > 0 {
			t.NonTrivial("%s|%s", shape(tr), kindSig(kinds))
		}
		for _, k := range kinds {
			t.Label("%s", k)
		}
		t.Sample("%s; %s; %d payloads due, %d open, %d not, %d output", shape(tr), strings.Join(tr.Faults, ", "), yes, maybe, no, out.total())
		b := boundsOf(ps)
		checkMin(t, "output", out.counts, b, ps)
		if faults == 0 {
			checkMax(t, "output", out.counts, b, ps)
		}
	}
}

func propC02() pbt.Property {
	return pbt.Property{
		ID:   "C02",
		Rule: "a case is non-trivial when payloads are due; signature: the tree's shape and the kinds of faults",
		Suites: []pbt.Suite{
			{Name: "valid", Rule: "valid trees (any shape, prefixes, ranges, inheritance, segmented and indefinite-length objects, duplicate listings): exactly one payload per ROA entry", Quick: 2500, Thorough: 80000, Prop: c02Complete(0, 0)},
			{Name: "selfcontained", Rule: "1-4 ROAs, child CA certificates or CRLs invalid by themselves: all payloads not under them are output", Quick: 2500, Thorough: 80000, Prop: c02Complete(gen.SelfROA|gen.SelfCA|gen.CRLs, 4)},
		},
	}
}

// c05Strict: nothing of a CA with an inconsistent manifest is output.
func c05Strict(t *pbt.T) {
	o := treeOpts(t)
	if t.Bool() {
		o.MinROAs = 1
	}
	tr := gen.DrawTree(t, o)
	at, kinds := tr.Hurt(t, gen.Listing, t.Range(1, 3))
	if t.Chance(1, 4) {
		tr.Hurt(t, allFaults&^gen.Listing, t.Range(1, 2))
	}
	tr.Build(0)
	h := strict(tr)
	h.StrictCMS = t.Bool()
	drawMode(t, tr, &h)
	ps := tr.Model(h.Settings)
	logTree(t, tr, h)
	b := newBounds()
	held := 0
	for _, p := range ps {
		below := false
		for _, c := range at {
			below = below || p.ROA.CA.Below(c)
		}
		if below {
			held++
			b.add(payloadOf(p.VRP), gen.No)
		} else {
			b.add(payloadOf(p.VRP), gen.Maybe)
		}
	}
	out := validate(tr, h)
	if held > 0 {
		t.NonTrivial("%s|%s", shape(tr), kindSig(kinds))
	}
	for _, k := range kinds {
		t.Label("%s", k)
	}
	t.Sample("%s; %s; %d payloads below", shape(tr), strings.Join(tr.Faults, ", "), held)
	checkMax(t, "strict", out.counts, b, ps)
}

// c05Lax: without strict manifests a file lost is the only loss.
func c05Lax(t *pbt.T) {
	tr := gen.DrawTree(t, treeOpts(t))
	_, kinds := tr.Hurt(t, gen.Listing, t.Range(1, 3))
	tr.Build(0)
	h := strict(tr)
	h.StrictManifests = false
	h.StrictHash = t.Bool()
	drawMode(t, tr, &h)
	ps := tr.Model(h.Settings)
	_, _, yes := verdicts(ps)
	logTree(t, tr, h)
	out := validate(tr, h)
	if yes > 0 {
		t.NonTrivial("%s|%s", shape(tr), kindSig(kinds))
	}
	for _, k := range kinds {
		t.Label("%s", k)
	}
	t.Sample("%s; %s; strict hashes %v; %d payloads due, %d output", shape(tr), strings.Join(tr.Faults, ", "), h.StrictHash, yes, out.total())
	b := boundsOf(ps)
	checkMin(t, "lax", out.counts, b, ps)
	checkMax(t, "lax", out.counts, b, ps)
}

func propC05() pbt.Property {
	return pbt.Property{
		ID:   "C05",
		Rule: "strict: non-trivial when ROAs lie below the inconsistent manifest; lax: when payloads are due; signature: the shape of the tree and the kinds of faults",
		Suites: []pbt.Suite{
			{Name: "strict", Rule: "1-3 listing faults (absent file of any type, wrong hash of any length, altered content, second entry with another hash, manifest outside its period) at any CA and any place in the listing: nothing below that CA is output", Quick: 3000, Thorough: 100000, Prop: c05Strict},
			{Name: "lax", Rule: "the same without strict manifests, hashes checked or not: only the file itself is lost", Quick: 2500, Thorough: 80000, Prop: c05Lax},
		},
	}
}

// c06Isolation: what is not below the faulty CAs does not change.
func c06Isolation(class, faults int) func(t *pbt.T) {
	return func(t *pbt.T) {
		o := treeOpts(t)
		if t.Bool() {
			o.MinROAs = 1
		}
		tr := gen.DrawTree(t, o)
		tr.Build(0)
		h := drawHow(t, tr)
		base := validate(tr, h)
		basePs := tr.Model(h.Settings)
		due := map[payload]int{}
		for _, p := range basePs {
			if p.V == gen.Yes {
				due[payloadOf(p.VRP)]++
			}
		}
		for p, n := range due {
			if base.counts[p] != n {
				t.Discard() // not this property's business
			}
		}
		at, kinds := tr.Hurt(t, class, t.Range(1, faults))
		tr.Build(0)
		logTree(t, tr, h)
		ps := tr.Model(h.Settings)
		b := newBounds()
		clear, own := 0, 0
		add := func(l []gen.Payload, after bool) {
			for _, p := range l {
				below := false
				for _, c := range at {
					below = below || p.ROA.CA.Below(c)
				}
				switch {
				case below && after:
					own++
					b.add(payloadOf(p.VRP), gen.Maybe)
				case !below && !after && p.V == gen.Yes:
					clear++
					b.add(payloadOf(p.VRP), gen.Yes)
				case !below && !after && p.V == gen.Maybe:
					b.add(payloadOf(p.VRP), gen.Maybe)
				}
			}
		}
		add(basePs, false)
		add(ps, true)
		if clear > 0 && len(kinds) > 0 {
			t.NonTrivial("%s|%s", kindSig(kinds), shape(tr))
		}
		for _, k := range kinds {
			t.Label("%s", k)
		}
		t.Sample("%s; %s; %d unrelated payloads, %d below the faults", shape(tr), strings.Join(tr.Faults, ", "), clear, own)
		out := validate(tr, h)
		checkMin(t, "unrelated payloads", out.counts, b, basePs)
		checkMax(t, "unrelated payloads", out.counts, b, basePs)
	}
}

// c06KeyClaim lets a CA issue a valid certificate for the key of another CA.
// The validator finds certificates by key identifier, so that the second of two
// valid certificates for one key is refused: known finding "ski-claim".
// Anything else that is lost is a violation.
func c06KeyClaim(t *pbt.T) {
	o := treeOpts(t)
	o.MinROAs = 1
	tr := gen.DrawTree(t, o)
	c := tr.CAs[t.Intn(len(tr.CAs))]
	var ys []*gen.CANode
	for _, y := range tr.CAs {
		if !y.Below(c) && !c.Below(y) && y.Parent != nil {
			ys = append(ys, y)
		}
	}
	if len(ys) == 0 {
		t.Discard()
	}
	y := ys[t.Intn(len(ys))]
	tr.Build(0)
	h := strict(tr)
	drawMode(t, tr, &h)
	ps := tr.Model(h.Settings)
	base := validate(tr, h)
	checkMin(t, "before", base.counts, boundsOf(ps), ps)
	k := tr.ClaimKey(t, c, y)
	tr.Build(0)
	logTree(t, tr, h)
	out := validate(tr, h)
	others := newBounds()
	for _, p := range ps {
		if !p.ROA.CA.Below(c) && !p.ROA.CA.Below(y) {
			others.add(payloadOf(p.VRP), p.V)
		}
	}
	checkMin(t, "payloads of CAs other than the one whose key was claimed", out.counts, others, ps)
	all := newBounds()
	due := 0
	for _, p := range ps {
		if !p.ROA.CA.Below(c) {
			all.add(payloadOf(p.VRP), p.V)
			due++
		}
	}
	lost := 0
	for p, n := range all.min {
		if out.counts[p] < n {
			lost++
		}
	}
	if lost > 0 {
		t.Known("ski-claim", "a CA can issue a valid certificate for another CA's public key, and that CA's own certificate is then refused as a conflict")
	}
	if due > 0 {
		t.NonTrivial("%s", shape(tr))
	}
	t.Label("victim's payloads lost: %v", lost > 0)
	t.Sample("%s; ca%d issues ca%d with the key of ca%d; %d of %d payloads lost", shape(tr), c.ID, k.ID, y.ID, lost, due)
}

func propC06() pbt.Property {
	return pbt.Property{
		ID:   "C06",
		Rule: "a case is non-trivial when payloads are due outside the subtrees of the faulty CAs; signature: kinds of faults and the tree's shape",
		Suites: []pbt.Suite{
			{Name: "any", Rule: "a valid tree, then the same tree with 1-4 faults of any kind: the payloads of CAs not below a faulty one are the same", Quick: 2500, Thorough: 80000, Prop: c06Isolation(allFaults, 4)},
			{Name: "hostile", Rule: "1-3 hostile constructions (copies of others' objects, foreign directories and manifests, nested paths, claimed key identifiers, CRLs with others' serial numbers, loops, random bit flips under correct hashes)", Quick: 4000, Thorough: 120000, Prop: c06Isolation(gen.Hostile, 3)},
			{Name: "keyclaim", Rule: "a CA issues a valid certificate for the key of an unrelated CA (known finding ski-claim): nothing but that CA's subtree may be lost", Quick: 600, Thorough: 20000, Prop: c06KeyClaim},
		},
	}
}
