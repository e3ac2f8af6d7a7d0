//go:build go1.22

package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"net/netip"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/cloudflare/cfrpki/verifharness/gen"
	"github.com/cloudflare/cfrpki/verifharness/pbt"
	"github.com/cloudflare/cfrpki/verifharness/prog"
)

func propC28() pbt.Property {
	return pbt.Property{
		ID:    "C28",
		Setup: prog.Setup,
		Rule:  "a history counts when at least one snapshot with ROAs of a stable state was compared; signature: the iterations, the objects by kind, the counts and the failures shown",
		Assumptions: []string{
			"what each iteration fetched is inferred from the log of the fetches by the model that C19 checks",
			"what a snapshot shows is compared when /infos gave the same iteration, and a stable state, twice before it and after it",
			"whether a certificate is listed whose publication point is not in order, and the manifest of it, is left open",
		},
		Suites: []pbt.Suite{
			{Name: "served", Quick: 450, Thorough: 6000, Hang: 150 * time.Second, Prop: c28Served,
				Rule: "the serving mode on trees with any resources, faults of objects and of fetches, in 1-3 epochs; after each epoch the list, /resources.json, /infos and /metrics of one stable state are compared with the model of it and with one another"},
		},
	}
}

type snapshot struct {
	iter                            int
	list, resources, infos, metrics []byte
}

type c28Infos struct {
	Stable    bool    `json:"stable"`
	Iteration int     `json:"iteration"`
	Last      int     `json:"validation-last"`
	Duration  float64 `json:"validation-duration"`
	TAs       []struct {
		Name string `json:"name"`
		SIA  []struct {
			Rsync string `json:"rsync"`
			RRDP  string `json:"rrdp"`
		} `json:"sia"`
	} `json:"tas"`
	PerTAL []struct {
		TA    string `json:"ta"`
		Count int    `json:"count"`
	} `json:"roas-tal-count"`
	Count int `json:"roas-count"`
}

type c28Resource struct {
	Type    string   `json:"type"`
	Name    string   `json:"name"`
	SKI     string   `json:"subject-key-id"`
	AKI     string   `json:"authority-key-id"`
	Path    string   `json:"path"`
	Hash    string   `json:"hash"`
	TA      string   `json:"ta"`
	SIAs    []string `json:"sia"`
	IPs     []c28IP  `json:"ips"`
	ASNs    []c28ASN `json:"asns"`
	ROAs    []c28ROA `json:"roas"`
	ASN     uint32   `json:"asn"`
	Emitted int64    `json:"emitted"`
	From    int64    `json:"validfrom"`
	To      int64    `json:"validto"`
	Serial  string   `json:"serial"`
	Files   []string `json:"mft-files"`
	Number  string   `json:"mft-number"`
	This    int64    `json:"mft-thisupdate"`
	Next    int64    `json:"mft-nextupdate"`
}

type c28IP struct {
	Prefix  string   `json:"prefix"`
	Range   []string `json:"ip-range"`
	Inherit int      `json:"inherit"`
}

type c28ASN struct {
	ASN     uint32   `json:"asn"`
	Range   []uint32 `json:"asn-range"`
	Inherit bool     `json:"inherit"`
}

type c28ROA struct {
	Prefix string `json:"prefix"`
	Max    int    `json:"max-length"`
}

func c28Served(t *pbt.T) {
	c := newCase(t, "server", gen.TreeOpts{TAs: 2, CAs: 6, ROAs: 4, Depth: 4}, 2)
	c.o.Refresh = time.Duration(pbt.Pick(t, 40, 80, 150)) * time.Millisecond
	c.o.Port = prog.FreePort()
	c.o.Failover = !t.Chance(1, 5)
	slow := t.Chance(1, 12)
	if slow { // time to ask again
		c.o.Refresh = 3 * time.Second
	}
	if t.Chance(1, 4) {
		c.o.Names = pbt.Pick(t, []string{"only"}, []string{"a", "b", "c"})
	}
	if t.Chance(1, 4) {
		c.o.Wait = false
	}
	if t.Chance(1, 3) {
		c.o.LaxManifests, c.site.St.StrictManifests = true, false
	}
	epochs := t.Range(1, 3)
	for i := 0; i < epochs; i++ {
		broken := map[*gen.CANode]string{}
		if t.Chance(1, 3) {
			broken[pbt.Pick(t, c.site.Tr.CAs...)] = pbt.Pick(t, "expired", "crl")
		}
		if c.o.LaxManifests {
			broken = nil
		}
		for k := t.Intn(3); i > 0 && k > 0; k-- {
			ca := pbt.Pick(t, c.site.Tr.CAs...)
			if len(ca.ROAs) > 0 && t.Bool() {
				ca.ROAs = ca.ROAs[1:]
			} else {
				c.site.Tr.DrawROA(t, gen.TreeOpts{Wide: true}, ca)
			}
		}
		if c.site.AddBroken(broken).Unsure {
			t.Discard()
		}
	}
	c.site.SetResets(t, t.Range(0, epochs))
	if t.Bool() {
		drawFaults(t, c.site, false)
	}
	p := c.env.Start("octorpki", c.o.Args(c.env, c.site)...)
	get := func(path string) []byte {
		code, _, b, err := prog.Get(fmt.Sprintf("http://127.0.0.1:%d%s", c.o.Port, path), 30*time.Second)
		if err != nil || code != 200 {
			return nil
		}
		return b
	}
	infos := func() (*c28Infos, []byte) {
		b := get("/infos")
		var i c28Infos
		if b == nil || json.Unmarshal(b, &i) != nil {
			return nil, nil
		}
		return &i, b
	}
	var snaps []snapshot
	deadline := time.Now().Add(40 * time.Second)
	after, last := 0, 0
	for tries := 0; len(snaps) < epochs; tries++ {
		if !p.Running() {
			c.fail(t, p, "octorpki ended by itself with status %d", p.Code)
		}
		if time.Now().After(deadline) {
			if len(snaps) == 0 {
				c.fail(t, p, "no stable state within 40 s")
			}
			break
		}
		a, ab := infos()
		if a == nil || !a.Stable || a.Iteration <= after {
			time.Sleep(time.Millisecond)
			continue
		}
		// a reply that was begun before the state was stable may mix what was
		// before and after
		a1 := a
		if a, ab = infos(); a == nil || !a.Stable || a.Iteration != a1.Iteration {
			continue
		}
		s := snapshot{iter: a.Iteration, infos: ab, list: get("/output.json"), resources: get("/resources.json"), metrics: get("/metrics")}
		b, _ := infos()
		if b == nil || !b.Stable || b.Iteration != a.Iteration {
			continue
		}
		// it is set a moment after the rest
		if strings.Contains(string(s.metrics), "\nstate 0") && last < 50 {
			last++
			time.Sleep(time.Millisecond)
			continue
		}
		last = 0
		if slow && len(snaps) == 0 {
			time.Sleep(1100 * time.Millisecond)
			if a2, _ := infos(); a2 != nil && a2.Stable && a2.Iteration == a.Iteration && a2.Last != a.Last {
				c.fail(t, p, "/infos shows %d as the time of the validation in iteration %d, and %d 1.1 s later", a.Last, a.Iteration, a2.Last)
			}
			t.Label("asked again")
		}
		snaps = append(snaps, s)
		c.site.Next()
		// the iteration that has begun may have fetched before
		after = a.Iteration + 1
	}
	p.Kill()
	log := c.site.Log()
	its, err := c.site.Explain(c.o, log, false)
	if err != nil {
		c.fail(t, p, "%v", err)
	}
	var sig []string
	for _, s := range snaps {
		if s.iter > len(its) || its[s.iter-1].Open {
			if len(its) == 0 || its[len(its)-1].Open || its[len(its)-1].Start != its[len(its)-1].End {
				c.fail(t, p, "/infos shows iteration %d, whereas the fetches are those of %d", s.iter, len(its))
			}
			t.Label("iterations without fetches")
			continue
		}
		if !its[s.iter-1].Stable {
			c.fail(t, p, "/infos shows a stable state in iteration %d, which found %v", s.iter, its[s.iter-1].New)
		}
		part := log[:its[s.iter-1].End]
		if k, err := c.site.Explain(c.o, part, false); err != nil || len(k) < s.iter {
			t.Discard()
		}
		g, err := c.compare(t, s, part)
		if err != nil {
			c.fail(t, p, "iteration %d (events up to %d): %v", s.iter, its[s.iter-1].End, err)
		}
		if g != "" {
			sig = append(sig, g)
		}
	}
	if len(sig) > 0 {
		t.NonTrivial(fmt.Sprint(len(its), sig))
	}
	t.Sample(fmt.Sprintf("%d iterations, %d epochs; %s", len(its), epochs, strings.Join(sig, "; ")))
}

// compare a snapshot with the state that the model has reached.
func (c *octoCase) compare(t *pbt.T, s snapshot, log []prog.Event) (string, error) {
	objs := c.site.Objects()
	var loads []gen.Payload
	per := make([]int, len(c.site.TALs))
	kinds := map[string]int{}
	open := false
	for _, o := range objs {
		kinds[o.Kind]++
		if o.V != gen.Yes {
			if o.Kind == "roa" {
				open = true
			}
			continue
		}
		if o.Here != nil {
			for _, l := range o.Here.Loads {
				if l.V == gen.Yes {
					loads = append(loads, l)
					per[o.TAL]++
				}
			}
		}
	}
	if open {
		return "", nil
	}
	// the list
	list, err := prog.ParseList(s.list)
	if err == nil {
		err = prog.Compare(list, c.site.Want(c.o, loads))
	}
	if err != nil {
		return "", fmt.Errorf("list: %v", err)
	}
	// infos
	var in c28Infos
	if err := json.Unmarshal(s.infos, &in); err != nil {
		return "", err
	}
	if in.Count != len(list.Data) {
		return "", fmt.Errorf("/infos shows %d payloads, the list has %d: %s", in.Count, len(list.Data), s.infos)
	}
	if in.Last != list.Generated {
		return "", fmt.Errorf("/infos shows the validation of %d, the list is of %d", in.Last, list.Generated)
	}
	if in.Duration <= 0 || in.Duration > 60 {
		return "", fmt.Errorf("/infos shows a validation of %v s", in.Duration)
	}
	if len(in.PerTAL) != len(per) || len(in.TAs) != len(per) {
		return "", fmt.Errorf("/infos shows %d and %d trust anchors of %d: %s", len(in.PerTAL), len(in.TAs), len(per), s.infos)
	}
	names := make([]string, len(per))
	same := map[string]int{}
	for i := range per {
		names[i] = c.site.NameOf(c.o, i)
		same[names[i]]++
	}
	for i, x := range in.PerTAL {
		if x.TA != names[i] || x.Count != per[i] {
			return "", fmt.Errorf("/infos shows %d payloads of %q, it should be %d of %q", x.Count, x.TA, per[i], names[i])
		}
	}
	// the repositories
	uses := map[string]map[int]bool{}
	announced := map[string]map[string]bool{}
	must := map[string]bool{}
	for _, o := range objs {
		if o.Kind != "certificate" {
			continue
		}
		m := prog.Module(o.CA.Dir)
		if uses[m] == nil {
			uses[m], announced[m] = map[int]bool{}, map[string]bool{}
		}
		uses[m][o.TAL] = true
		announced[m][o.CA.Notify] = true
		must[m] = true
	}
	shown := map[string]bool{}
	for i, x := range in.TAs {
		if x.Name != names[i] {
			return "", fmt.Errorf("/infos names a trust anchor %q, not %q", x.Name, names[i])
		}
		for _, r := range x.SIA {
			if !uses[r.Rsync][i] {
				return "", fmt.Errorf("/infos shows %s below %s, where no certificate names it", r.Rsync, x.Name)
			}
			if !announced[r.Rsync][r.RRDP] {
				return "", fmt.Errorf("/infos shows %s with %q, announced is %v", r.Rsync, r.RRDP, announced[r.Rsync])
			}
			if shown[r.Rsync] {
				return "", fmt.Errorf("/infos shows %s twice", r.Rsync)
			}
			shown[r.Rsync] = true
		}
	}
	for m := range must {
		if !shown[m] {
			return "", fmt.Errorf("/infos does not show %s: %s", m, s.infos)
		}
	}
	// metrics
	mt, err := parseMetrics(string(s.metrics))
	if err != nil {
		return "", err
	}
	for i, n := range names {
		if v, ok := mt["roas{ta="+strconv.Quote(n)+"}"]; same[n] == 1 && (!ok || v != float64(per[i])) {
			return "", fmt.Errorf("/metrics shows %v payloads of %q, there are %d", v, n, per[i])
		}
	}
	if mt["state"] != 1 {
		return "", fmt.Errorf("/metrics shows state %v, which is stable", mt["state"])
	}
	if v := mt["last_validation"]; v != float64(list.Generated) {
		return "", fmt.Errorf("/metrics shows the validation of %v, the list is of %d", v, list.Generated)
	}
	if v := mt["last_stable_validation"]; v != float64(list.Generated) {
		return "", fmt.Errorf("/metrics shows the stable validation of %v, the list is of %d", v, list.Generated)
	}
	rrdp, rsync, serial := map[string]float64{}, map[string]float64{}, map[string]float64{}
	for _, e := range log {
		switch {
		case e.Kind == 'n' && !e.OK:
			rrdp[e.Key]++
		case e.Kind == 'n':
			serial[e.Key] = float64(e.Serial)
		case e.Kind == 'r' && (!e.OK || strings.HasPrefix(e.Fault, "p")):
			rsync[e.Key]++
		}
	}
	for _, k := range []struct {
		name string
		want map[string]float64
	}{{"rrdp_errors", rrdp}, {"rsync_errors", rsync}, {"rrdp_serial", serial}} {
		got := map[string]float64{}
		for n, v := range mt {
			if strings.HasPrefix(n, k.name+"{address=") {
				a, err := strconv.Unquote(strings.TrimSuffix(strings.TrimPrefix(n, k.name+"{address="), "}"))
				if err != nil {
					return "", err
				}
				got[a] = v
			}
		}
		if !reflect.DeepEqual(got, k.want) {
			return "", fmt.Errorf("/metrics shows as %s %v, it should be %v", k.name, got, k.want)
		}
	}
	// resources
	var rs struct {
		Metadata struct {
			Generated int `json:"generated"`
		} `json:"metadata"`
		Resources []c28Resource `json:"resources"`
	}
	if err := json.Unmarshal(s.resources, &rs); err != nil {
		return "", fmt.Errorf("/resources.json: %v", err)
	}
	if d := list.Generated - rs.Metadata.Generated; d < 0 || d > 60 {
		return "", fmt.Errorf("/resources.json is of %d, the list is of %d", rs.Metadata.Generated, list.Generated)
	}
	want := map[string][]prog.Object{}
	for _, o := range objs {
		k := o.Kind + " " + o.URI + " " + names[o.TAL]
		want[k] = append(want[k], o)
	}
	got := map[string]int{}
	for i := range rs.Resources {
		r := &rs.Resources[i]
		k := r.Type + " " + r.Path + " " + r.TA
		w := want[k]
		if got[k]++; got[k] > len(w) {
			return "", fmt.Errorf("/resources.json lists %s (%d times), which is not valid", k, got[k])
		}
		if w[0].V != gen.Yes && w[0].Kind == "manifest" {
			continue
		}
		if err := match(r, w[0]); err != nil {
			return "", fmt.Errorf("/resources.json shows of %s: %v", k, err)
		}
	}
	for k, w := range want {
		if w[0].V == gen.Yes && got[k] != len(w) {
			return "", fmt.Errorf("/resources.json lists %s %d times of %d", k, got[k], len(w))
		}
	}
	if len(rrdp)+len(rsync) > 0 {
		t.Label("failures shown")
	}
	if len(names) > 1 {
		t.Label("more than one trust anchor")
	}
	if kinds["roa"] == 0 {
		return "", nil
	}
	return fmt.Sprint(s.iter, kinds, per, len(list.Data), len(rrdp), len(rsync)), nil
}

func blockIP(b gen.Block) c28IP {
	if b.Plen >= 0 {
		return c28IP{Prefix: b.String()}
	}
	return c28IP{Range: []string{gen.Addr(b.F, b.Min).String(), gen.Addr(b.F, b.Max).String()}}
}

// canon writes addresses in one way, and keeps the families apart.
func canon(x c28IP) string {
	if x.Prefix != "" {
		p, err := netip.ParsePrefix(x.Prefix)
		if err != nil {
			return "bad " + x.Prefix
		}
		return p.String()
	}
	if len(x.Range) == 2 {
		a, e1 := netip.ParseAddr(x.Range[0])
		b, e2 := netip.ParseAddr(x.Range[1])
		if e1 != nil || e2 != nil {
			return fmt.Sprint("bad ", x.Range)
		}
		return a.String() + "-" + b.String()
	}
	return fmt.Sprint("inherit ", x.Inherit)
}

func match(r *c28Resource, o prog.Object) error {
	ct := o.Cert
	str := func(what, got, want string) error {
		if got != want {
			return fmt.Errorf("%s %q, it is %q", what, got, want)
		}
		return nil
	}
	num := func(what string, got, want int64) error {
		if got != want {
			return fmt.Errorf("%s %d, it is %d", what, got, want)
		}
		return nil
	}
	errs := []error{
		str("hash", r.Hash, prog.Hash(o.Data)),
		str("name", r.Name, ct.Subject),
		str("subject key", r.SKI, hex.EncodeToString(ct.SKI)),
		str("authority key", r.AKI, hex.EncodeToString(ct.AKI)),
		str("serial", r.Serial, ct.Serial.String()),
		num("begin", r.From, ct.NotBefore.Unix()),
		num("end", r.To, ct.NotAfter.Unix()),
	}
	switch o.Kind {
	case "certificate":
		var a, b, x, y []string
		for _, s := range ct.SIA {
			a = append(a, s.URI)
		}
		errs = append(errs, str("access", fmt.Sprint(r.SIAs), fmt.Sprint(a)))
		for f, set := range []*gen.IPSet{ct.Res.V4, ct.Res.V6} {
			if set == nil {
				continue
			}
			if set.Inherit {
				b = append(b, canon(c28IP{Inherit: f + 1}))
			}
			for _, k := range set.Blocks {
				b = append(b, canon(blockIP(k)))
			}
		}
		for _, k := range r.IPs {
			x = append(x, canon(k))
		}
		sort.Strings(b)
		sort.Strings(x)
		errs = append(errs, str("addresses", fmt.Sprint(x), fmt.Sprint(b)))
		if ct.Res.AS != nil {
			if ct.Res.AS.Inherit {
				y = append(y, fmt.Sprint(c28ASN{Inherit: true}))
			}
			for _, k := range ct.Res.AS.Blocks {
				n := c28ASN{ASN: k.Min}
				if k.Range {
					n = c28ASN{Range: []uint32{k.Min, k.Max}}
				}
				y = append(y, fmt.Sprint(n))
			}
		}
		var z []string
		for _, k := range r.ASNs {
			z = append(z, fmt.Sprint(k))
		}
		sort.Strings(y)
		sort.Strings(z)
		errs = append(errs, str("AS numbers", fmt.Sprint(z), fmt.Sprint(y)))
	case "roa":
		var a, b []string
		for _, l := range o.Here.Loads {
			if l.V == gen.Yes {
				e := prog.EntryOf(l.VRP)
				a = append(a, fmt.Sprintf("%s-%d", e.Prefix, e.MaxLen))
			}
		}
		for _, l := range r.ROAs {
			p, err := netip.ParsePrefix(l.Prefix)
			if err != nil {
				return err
			}
			b = append(b, fmt.Sprintf("%s-%d", p, l.Max))
		}
		sort.Strings(a)
		sort.Strings(b)
		errs = append(errs, str("payloads", fmt.Sprint(b), fmt.Sprint(a)),
			num("AS", int64(r.ASN), int64(o.Here.AS)))
		if o.Here.Obj.CMSEdit == nil {
			errs = append(errs, num("signing time", r.Emitted, o.Here.Obj.Signed().Unix()))
		}
	case "manifest":
		errs = append(errs, str("files", fmt.Sprintf("%q", r.Files), fmt.Sprintf("%q", o.Names)),
			str("number", r.Number, o.CA.MftNum.String()),
			num("this update", r.This, o.CA.MftWin.From.Unix()),
			num("next update", r.Next, o.CA.MftWin.To.Unix()))
	}
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

func parseMetrics(s string) (map[string]float64, error) {
	m := map[string]float64{}
	for _, l := range strings.Split(s, "\n") {
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		i := strings.LastIndexByte(l, ' ')
		if i < 0 {
			return nil, fmt.Errorf("metrics line %q", l)
		}
		v, err := strconv.ParseFloat(l[i+1:], 64)
		if err != nil && l[i+1:] != "NaN" || math.IsInf(v, 0) {
			return nil, fmt.Errorf("metrics line %q", l)
		}
		m[l[:i]] = v
	}
	return m, nil
}
