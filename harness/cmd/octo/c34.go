//go:build go1.22

package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/cloudflare/cfrpki/verifharness/gen"
	"github.com/cloudflare/cfrpki/verifharness/pbt"
	"github.com/cloudflare/cfrpki/verifharness/prog"
)

func propC34() pbt.Property {
	return pbt.Property{
		ID:    "C34",
		Setup: prog.Setup,
		Rule:  "a run counts when two payloads are due, or there is a fault in the repositories or the configuration; signature: the tree, the faults, the strictness",
		Assumptions: []string{
			"rsync is replaced by a program of the harness that copies as rsync -rl does (no other rsync is installed)",
			"HTTP instead of HTTPS, on the loopback interface",
			"octorpki runs as uid 65534 in a scratch directory",
			"what the reference model leaves open (gen.Maybe) may be listed or not",
		},
		Suites: []pbt.Suite{
			{Name: "manifests", Quick: 1200, Thorough: 20000, Hang: 150 * time.Second, Prop: func(t *pbt.T) { c34(t, false) },
				Rule: "one-off runs over trees with up to four faults, all combinations of the strictness, broken TALs, and certificates with locations that are none; the list against the model"},
			{Name: "directories", Quick: 500, Thorough: 5000, Hang: 150 * time.Second, Prop: func(t *pbt.T) { c34(t, true) },
				Rule: "the same with -manifest.use=false, with revocations, invalid ROAs and manifests of no use"},
		},
	}
}

func c34(t *pbt.T, dirs bool) {
	c := &octoCase{env: prog.New(t), o: drawOcto(t, "oneoff")}
	c.o.RRDP, c.o.Failover = !t.Chance(1, 4), true
	to := gen.TreeOpts{TAs: 3, CAs: 7, ROAs: 3, Depth: 4, Wide: true, NoFlat: dirs, MinROAs: t.Intn(2), Hosts: hosts[:t.Range(1, 3)]}
	to.Notify = prog.NotifyFor(t, c.env, pbt.Pick(t, 0, 3, 8))
	tr := gen.DrawTree(t, to)
	var kinds []string
	switch {
	case dirs:
		for _, x := range tr.CAs {
			for _, k := range x.Kids {
				if t.Chance(1, 12) {
					x.Revoked = append(x.Revoked, k.Serial)
					kinds = append(kinds, "revoked CA")
				}
			}
			for _, r := range x.ROAs {
				if t.Chance(1, 12) {
					x.Revoked = append(x.Revoked, r.Serial)
					kinds = append(kinds, "revoked ROA")
				}
			}
		}
		// manifests that are of no use, which are not to be used
		if t.Bool() {
			for _, x := range tr.CAs {
				x, w := x, x.MftWin
				old := t.Chance(1, 3)
				some := t.Intn(4)
				switch t.Intn(5) {
				case 0:
					x.MftFile.Edit = func(d []byte) []byte { return d[:len(d)/2] }
				case 1:
					x.MftFile.Edit = func(d []byte) []byte { return nil }
				case 2:
					if old {
						w = gen.Window{From: w.From.AddDate(-3, 0, 0), To: w.From.AddDate(-2, 0, 0)}
					}
					x.MftEdit = func(o *gen.CMS) {
						o.Content = gen.ManifestContent(x.MftNum, w.From, w.To, []gen.FileHash{{"none.roa", make([]byte, 32)}}[:some%2])
					}
				}
			}
			kinds = append(kinds, "manifests of no use")
		}
		if t.Chance(1, 3) {
			_, k := tr.Hurt(t, gen.SelfROA, 1)
			kinds = append(kinds, k...)
		}
	case t.Chance(4, 5):
		_, kinds = tr.Hurt(t, gen.SelfROA|gen.SelfCA|gen.Listing|gen.Point|gen.CRLs|gen.Anchor|gen.Container, t.Range(1, 4))
	}
	// a certificate that says nothing of use about where its files are
	lost := map[*gen.CANode]bool{}
	if t.Chance(1, 3) {
		for n := t.Range(1, 3); n > 0; n-- {
			x := pbt.Pick(t, tr.CAs...)
			if x.Parent == nil || len(x.Kids) > 0 || x.RawSIA != nil {
				continue
			}
			lost[x] = true
			x.RawSIA = []gen.Access{{gen.OidCaRepository, pbt.Pick(t, "rsync://", "rsync://h0.example", "http://h0.example/m/", "rsync:/h0.example/m/", "x", "")}, {gen.OidRpkiManifest, x.Dir + x.MftName}}
			if x.Notify != "" {
				x.RawSIA = append(x.RawSIA, gen.Access{gen.OidRpkiNotify, x.Notify})
			}
			kinds = append(kinds, "no repository")
		}
	}
	if !dirs {
		c.o.LaxManifests, c.o.LaxHash = t.Bool(), t.Bool()
	}
	st := gen.Settings{StrictManifests: !c.o.LaxManifests, StrictHash: !c.o.LaxHash, StrictCMS: c.o.StrictCMS, Time: tr.Time}
	c.site = prog.NewSite(t, c.env, tr, st, pbt.Pick(t, 0, 4, 8))
	c.site.AddEpoch()
	// the configuration
	bad := 0
	var names []string
	of := map[int]string{}
	for i, l := range c.site.TALs {
		of[i] = fmt.Sprintf("ta%d", i)
		names = append(names, of[i])
		c.o.TALs = append(c.o.TALs, l.File)
	}
	for t.Chance(1, 5) {
		f := ""
		switch t.Intn(5) {
		case 0:
			f = "tals/none.tal"
		case 1:
			c.env.Write("dir/x", nil)
			f = "dir"
		case 2:
			f = c.env.Write("broken.tal", t.Bytes(t.Intn(100)))
		case 3:
			f = c.env.Write("empty.tal", nil)
		default:
			x := tr.TALs[t.Intn(len(tr.TALs))]
			f = c.env.Write("cut.tal", x[:t.Intn(len(x)/2)])
		}
		k := t.Intn(len(names) + 1)
		names = append(names[:k], append([]string{fmt.Sprintf("bad%d", bad)}, names[k:]...)...)
		c.o.TALs = append(c.o.TALs[:k], append([]string{f}, c.o.TALs[k:]...)...)
		bad++
	}
	c.o.Names = names
	if dirs {
		c.o.Extra = append(c.o.Extra, "-manifest.use=false")
	}
	if t.Chance(1, 4) {
		c.o.Extra = append(c.o.Extra, "-loglevel", pbt.Pick(t, "debug", "error", "fatal"))
	}
	p, out := c.oneoff(t)
	l, err := prog.ParseList(out)
	if err != nil {
		c.fail(t, p, "output: %v", err)
	}
	var may, must []gen.Payload
	for _, x := range tr.Model(st) {
		if x.V == gen.Yes && lost[x.ROA.CA] {
			x.V = gen.Maybe
		}
		if x.V != gen.No {
			may = append(may, x)
		}
		if x.V == gen.Yes {
			must = append(must, x)
		}
	}
	plain := c.o
	plain.Names = nil // ta0, ta1, … of the anchors
	if err := prog.CompareWithin(l, c.site.Want(plain, must), c.site.Want(plain, may)); err != nil {
		c.fail(t, p, "output: %v", err)
	}
	if len(must) >= 2 || len(kinds) > 0 || bad > 0 {
		var b strings.Builder
		for _, x := range tr.CAs {
			fmt.Fprintf(&b, "%d.%d ", len(x.Kids), len(x.ROAs))
		}
		t.NonTrivial("%s%v %v %v %v %d", b.String(), kinds, st.StrictManifests, st.StrictHash, st.StrictCMS, bad)
	}
	for _, k := range kinds {
		t.Label("%s", k)
	}
	if bad > 0 {
		t.Label("broken TALs")
	}
	t.Sample(fmt.Sprintf("%d CAs, %v, %d TALs not usable; strict %v %v %v; %d due, %d listed", len(tr.CAs), tr.Faults, bad, st.StrictManifests, st.StrictHash, st.StrictCMS, len(must), len(l.Data)))
}
