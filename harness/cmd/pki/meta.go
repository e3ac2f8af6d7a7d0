//go:build go1.22

package main

import (
	"os"
	"strings"
	"time"

	"github.com/cloudflare/cfrpki/verifharness/gen"
	"github.com/cloudflare/cfrpki/verifharness/pbt"
)

// c13Boundary validates at times around the ends of the periods in the tree.
func c13Boundary(t *pbt.T) {
	o := treeOpts(t)
	o.MinROAs = t.Intn(2)
	tr := gen.DrawTree(t, o)
	tr.Build(0)
	var ends []time.Time
	win := func(w gen.Window) { ends = append(ends, w.From, w.To) }
	for _, c := range tr.CAs {
		win(c.Win)
		win(c.MftWin)
		win(c.MftEE.Win)
		for _, r := range c.ROAs {
			win(r.Win)
		}
	}
	for i := 0; i < 3; i++ {
		h := strict(tr)
		h.StrictHash = !t.Chance(1, 6)
		drawMode(t, tr, &h)
		e := ends[t.Intn(len(ends))]
		off := pbt.Pick(t, 0, time.Second, -time.Second, time.Millisecond, -time.Millisecond, time.Nanosecond, -time.Nanosecond, time.Hour, -24*time.Hour)
		h.Time = e.Add(off)
		if t.Chance(1, 4) {
			h.Time = h.Time.In(time.FixedZone("x", t.Range(-12, 12)*3600))
		}
		ps := tr.Model(h.Settings)
		no, _, yes := verdicts(ps)
		logTree(t, tr, h)
		out := validate(tr, h)
		if len(ps) > 0 {
			t.NonTrivial("%v %v %v %s", off, no > 0, yes > 0, shape(tr))
		}
		t.Label("offset %v", off)
		t.Label("due %v, not %v", yes > 0, no > 0)
		t.Sample("%s; %v after an end; %d payloads due, %d not", shape(tr), off, yes, no)
		b := boundsOf(ps)
		checkMax(t, "output", out.counts, b, ps)
		checkMin(t, "output", out.counts, b, ps)
	}
}

// c13Shift moves every date and the validation time.
func c13Shift(t *pbt.T) {
	tr := gen.DrawTree(t, treeOpts(t))
	if t.Bool() {
		tr.Hurt(t, allFaults, t.Range(1, 3))
	}
	tr.Build(0)
	h := drawHow(t, tr)
	h.Time = h.Time.Add(time.Duration(t.Range(-1<<25, 1<<25)) * time.Second)
	logTree(t, tr, h)
	a := validate(tr, h)
	var d time.Duration
	switch t.Intn(4) {
	case 0:
		d = time.Duration(t.Range(-1<<29, 1<<29)) * time.Second // 17 years
	case 1:
		d = time.Duration(t.Range(-1<<20, 1<<20)) * time.Second
	case 2:
		d = time.Now().UTC().Truncate(time.Second).Sub(tr.Time) // to the present
	case 3:
		d = time.Duration(t.Range(60, 200)) * 365 * 24 * time.Hour // other encodings
	}
	tr.Build(d)
	h2 := h
	h2.Time = h.Time.Add(d)
	b := validate(tr, h2)
	t.Logf("shifted by %v", d)
	if len(a.counts) > 0 {
		t.NonTrivial("%s %d", shape(tr), d/(365*24*time.Hour))
	}
	t.Label("output empty: %v", len(a.counts) == 0)
	t.Sample("%s; shifted by %v; %d payloads", shape(tr), d, a.total())
	sameCounts(t, "before and after the shift", a.counts, b.counts)
}

func propC13() pbt.Property {
	return pbt.Property{
		ID:   "C13",
		Rule: "boundary: non-trivial when the tree has payloads; shift: when there is output; signature: offset, outcome and shape, or shape and shift",
		Suites: []pbt.Suite{
			{Name: "boundary", Rule: "valid trees at three times each, at or next to (1 ns to 1 day) an end of a period of one of their objects, in any time zone: exactly the payloads the model says are current", Quick: 2000, Thorough: 60000, Prop: c13Boundary},
			{Name: "shift", Rule: "trees, possibly with faults, with all dates and the validation time moved by up to 200 years: the same output", Quick: 2000, Thorough: 60000, Prop: c13Shift},
		},
	}
}

// c14Order validates the same content in other orders.
func c14Order(class int) func(t *pbt.T) {
	return func(t *pbt.T) {
		o := treeOpts(t)
		if t.Bool() {
			o.TAs = 3
		}
		tr := gen.DrawTree(t, o)
		var kinds []string
		if class != 0 {
			_, kinds = tr.Hurt(t, class, t.Range(1, 3))
		}
		tr.Build(0)
		h := drawHow(t, tr)
		logTree(t, tr, h)
		a := validate(tr, h)
		what := ""
		h2 := h
		switch t.Intn(5) {
		case 0:
			what = "other manifest orders"
			for _, c := range tr.CAs {
				c.Order = t.Perm(len(c.Order))
			}
			tr.Build(0)
		case 1:
			what = "trust anchors in another order"
			h2.order = t.Perm(len(tr.TAs))
		case 2:
			what = "trust anchors together instead of separately"
			h2.joint = !h.joint
		case 3:
			what = "again"
			if t.Bool() {
				what = "explored repeatedly"
				h2.repeat = 2
			}
		case 4:
			what = "files listed repeatedly"
			for _, c := range tr.CAs {
				c.CRLFile.Dup = t.Bool()
				for _, r := range c.ROAs {
					r.File.Dup = t.Bool()
				}
				for _, k := range c.Kids {
					k.File.Dup = t.Bool()
				}
			}
			tr.Build(0)
		}
		if t.Chance(1, 4) {
			h2.disk = os.TempDir()
			if h.disk != "" {
				h2.disk = ""
			}
			what += ", memory instead of disk or the reverse"
		}
		b := validate(tr, h2)
		t.Logf("then: %s; %s", what, h2)
		if len(a.counts) > 0 {
			t.NonTrivial("%s|%s|%s", what, shape(tr), kindSig(kinds))
		}
		t.Label("%s", what)
		t.Label("output empty: %v", len(a.counts) == 0)
		t.Sample("%s; %s; %s; %d payloads", shape(tr), strings.Join(tr.Faults, ", "), what, a.total())
		sameCounts(t, what, a.counts, b.counts)
	}
}

// c14Dirs compares walking by manifest and by directory.
func c14Dirs(t *pbt.T) {
	o := treeOpts(t)
	o.NoFlat = true
	tr := gen.DrawTree(t, o)
	k := 0
	for _, c := range tr.CAs {
		for _, x := range c.Kids {
			if t.Chance(1, 8) {
				c.Revoked = append(c.Revoked, x.Serial)
				k++
			}
		}
		for _, r := range c.ROAs {
			if t.Chance(1, 8) {
				c.Revoked = append(c.Revoked, r.Serial)
				k++
			}
		}
	}
	if t.Chance(1, 3) {
		tr.Hurt(t, gen.SelfROA, 1)
	}
	tr.Build(0)
	h := strict(tr)
	drawMode(t, tr, &h)
	logTree(t, tr, h)
	a := validate(tr, h)
	h.dirs = true
	if t.Chance(1, 3) {
		h.disk = os.TempDir()
	}
	b := validate(tr, h)
	if len(a.counts) > 0 {
		t.NonTrivial("%s, %d revoked", shape(tr), k)
	}
	t.Label("on disk: %v", h.disk != "")
	t.Sample("%s; %d revoked; %d payloads", shape(tr), k, a.total())
	sameCounts(t, "by manifest and by directory", a.counts, b.counts)
}

func propC14() pbt.Property {
	return pbt.Property{
		ID:   "C14",
		Rule: "non-trivial when there is output; signature: the change of order, the tree's shape and the kinds of faults",
		Suites: []pbt.Suite{
			{Name: "order", Rule: "valid trees validated again with permuted manifests or trust anchors, together or separately, repeatedly, with duplicate listings, from memory or disk: the same payloads", Quick: 2000, Thorough: 60000, Prop: c14Order(0)},
			{Name: "faulty", Rule: "the same with 1-3 faults of any kind", Quick: 2500, Thorough: 80000, Prop: c14Order(allFaults)},
			{Name: "dirs", Rule: "trees whose publication points have directories of their own, some certificates revoked: by manifest and by directory the same payloads", Quick: 1500, Thorough: 40000, Prop: c14Dirs},
		},
	}
}
