//go:build go1.22

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/netip"
	"os"
	"strings"
	"time"

	"github.com/cloudflare/cfrpki/verifharness/gen"
	"github.com/cloudflare/cfrpki/verifharness/pbt"
	"github.com/cloudflare/cfrpki/verifharness/prog"
)

func propC26() pbt.Property {
	return pbt.Property{
		ID:    "C26",
		Setup: prog.Setup,
		Rule:  "a run counts when at least two payloads are due, or faults or broken TALs are there; signature: shape, faults, settings, TALs",
		Assumptions: []string{
			"the model of C01 and C02 for what is valid",
		},
		Suites: []pbt.Suite{
			{Name: "manifest", Quick: 1500, Thorough: 30000, Hang: 150 * time.Second, Prop: c26(false),
				Rule: "localrpki over generated repositories with 0-3 faults, any strictness, times, directory maps, and TALs some of which are missing or broken: exit status, the JSON list with its paths, against the model"},
			{Name: "directory", Quick: 500, Thorough: 10000, Hang: 150 * time.Second, Prop: c26(true),
				Rule: "the same with -manifest.use=false over repositories where every publication point has a directory of its own"},
		},
	}
}

type line struct {
	AS     uint32
	Prefix netip.Prefix
	MaxLen int
	Path   string
}

func (l line) String() string { return fmt.Sprintf("AS%d %s-%d %s", l.AS, l.Prefix, l.MaxLen, l.Path) }

// parsePrefix reads a prefix as localrpki writes it; IPv4-mapped ones are in
// the output as IPv6.
func parseList(b []byte) ([]line, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.DisallowUnknownFields()
	var x struct {
		ROAs *[]struct {
			ASN       *string `json:"asn"`
			Prefix    *string `json:"prefix"`
			MaxLength *int    `json:"maxLength"`
			Path      *string `json:"path"`
		} `json:"roas"`
	}
	if err := d.Decode(&x); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fmt.Errorf("more after the list")
	}
	if rest, _ := readAll(d); strings.TrimSpace(rest) != "" {
		return nil, fmt.Errorf("after the list: %q", rest)
	}
	if x.ROAs == nil {
		return nil, fmt.Errorf("no list")
	}
	var out []line
	for i, r := range *x.ROAs {
		if r.ASN == nil || r.Prefix == nil || r.MaxLength == nil || r.Path == nil {
			return nil, fmt.Errorf("entry %d is not complete", i)
		}
		var as uint32
		if n, err := fmt.Sscanf(*r.ASN, "AS%d", &as); n != 1 || err != nil || fmt.Sprintf("AS%d", as) != *r.ASN {
			return nil, fmt.Errorf("AS number %q", *r.ASN)
		}
		p, err := netip.ParsePrefix(*r.Prefix)
		if err != nil {
			return nil, err
		}
		if p != p.Masked() {
			return nil, fmt.Errorf("prefix %q", *r.Prefix)
		}
		out = append(out, line{as, p, *r.MaxLength, *r.Path})
	}
	return out, nil
}

func readAll(d *json.Decoder) (string, error) {
	var b bytes.Buffer
	_, err := b.ReadFrom(d.Buffered())
	return b.String(), err
}

func c26(dirs bool) func(t *pbt.T) {
	return func(t *pbt.T) {
		e := prog.New(t)
		wide := t.Chance(1, 4)
		o := drawOpts(t, wide)
		o.NoFlat = dirs
		tr := gen.DrawTree(t, o)
		var kinds []string
		if dirs {
			for _, c := range tr.CAs {
				for _, x := range c.Kids {
					if t.Chance(1, 12) {
						c.Revoked = append(c.Revoked, x.Serial)
						kinds = append(kinds, "revoked CA")
					}
				}
				for _, r := range c.ROAs {
					if t.Chance(1, 12) {
						c.Revoked = append(c.Revoked, r.Serial)
						kinds = append(kinds, "revoked ROA")
					}
				}
			}
			if t.Chance(1, 3) {
				_, k := tr.Hurt(t, gen.SelfROA, 1)
				kinds = append(kinds, k...)
			}
		} else if t.Chance(2, 3) {
			_, kinds = tr.Hurt(t, allFaults, t.Range(1, 3))
		}
		st := gen.Settings{StrictManifests: true, StrictHash: true, Time: tr.Time}
		if !dirs && t.Bool() {
			st.StrictManifests, st.StrictHash = t.Bool(), t.Bool()
		}
		st.StrictCMS = t.Chance(1, 3)
		tr.Build(0)
		m := layout(t, e, tr.Files)
		tals := trusts(t, e, tr, true)
		args := append([]string{"-tal.root", talArg(tals), "-map.dir", m}, atTime(t, st.Time, wide)...)
		args = append(args, yes(t, "strict.manifests", st.StrictManifests, true)...)
		args = append(args, yes(t, "strict.hash", st.StrictHash, true)...)
		args = append(args, yes(t, "strict.cms", st.StrictCMS, false)...)
		args = append(args, yes(t, "manifest.use", !dirs, true)...)
		if t.Chance(1, 4) {
			args = append(args, "-loglevel", pbt.Pick(t, "debug", "error", "fatal", "nonsense"))
		}
		output := "output.json"
		switch t.Intn(4) {
		case 0:
			output = e.Work + "/other.json"
			args = append(args, "-output", output)
		case 1: // what is there is replaced
			e.Write("output.json", bytes.Repeat([]byte("{\"roas\":[]}"), 9000))
		case 2:
			output = ""
			args = append(args, "-output=")
		}
		p := e.StartSplit("localrpki", args...)
		fail := func(f string, a ...interface{}) {
			t.Logf("%s", tr)
			t.Logf("localrpki %q", args)
			t.Logf("%s", p.Tail(3000))
			t.Failf(f, a...)
		}
		if !p.Wait(100 * time.Second) {
			p.Stacks()
			fail("localrpki has not ended after 100 s")
		}
		if p.Code != 0 || p.Crashed() {
			fail("localrpki ended with status %d", p.Code)
		}
		data := []byte(p.Stdout())
		if output != "" {
			if strings.TrimSpace(p.Stdout()) != "" {
				fail("on the standard output: %.200q", p.Stdout())
			}
			if !strings.HasPrefix(output, "/") {
				output = e.Work + "/" + output
			}
			var err error
			if data, err = os.ReadFile(output); err != nil {
				fail("no output: %v", err)
			}
		}
		got, err := parseList(data)
		if err != nil {
			fail("output: %v: %.300q", err, data)
		}
		mn, mx := map[line]int{}, map[line]int{}
		due := 0
		for _, x := range tr.Model(st) {
			l := line{x.AS, netip.PrefixFrom(gen.Addr(x.P.F, x.P.A), x.P.Plen), x.MaxLen, x.URI}
			switch x.V {
			case gen.Yes:
				mn[l]++
				mx[l]++
				due++
			case gen.Maybe:
				mx[l]++
			}
		}
		have := map[line]int{}
		for _, l := range got {
			have[l]++
		}
		for l, n := range have {
			if n > mx[l] {
				fail("%s: %d times in the output, at most %d allowed", l, n, mx[l])
			}
		}
		for l, n := range mn {
			if have[l] < n {
				fail("%s: %d times in the output instead of %d", l, have[l], n)
			}
		}
		bad := len(tals) - len(tr.TAs)
		if due >= 2 || len(kinds) > 0 || bad > 0 {
			t.NonTrivial("%s %v %v %d", shape(tr), kinds, st.StrictManifests && st.StrictHash, bad)
		}
		for _, k := range kinds {
			t.Label("%s", k)
		}
		t.Label("broken TALs: %v", bad > 0)
		t.Sample("%s; %v; %d TALs not usable; strict %v %v %v; %d due, %d output", shape(tr), tr.Faults, bad, st.StrictManifests, st.StrictHash, st.StrictCMS, due, len(got))
	}
}
