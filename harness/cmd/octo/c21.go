//go:build go1.22

package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha256"
	"crypto/x509"
	"encoding/asn1"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/cloudflare/gortr/prefixfile"

	"github.com/cloudflare/cfrpki/verifharness/gen"
	"github.com/cloudflare/cfrpki/verifharness/pbt"
	"github.com/cloudflare/cfrpki/verifharness/prog"
)

func propC21() pbt.Property {
	return pbt.Property{
		ID:    "C21",
		Setup: prog.Setup,
		Rule:  "a run counts when the list has at least two entries and duplicates, filtered prefixes, a signature or several trust anchors were involved; signature: numbers of payloads, duplicates, filtered ones, the settings",
		Assumptions: []string{
			"ECDSA and SHA-256 of the Go library",
			"the format of the signatures is the one of GoRTR, written down again in the harness",
		},
		Suites: []pbt.Suite{
			{Name: "file", Quick: 1000, Thorough: 9000, Hang: 150 * time.Second, Prop: c21File,
				Rule: "one-off runs over trees with repeated payloads in several trust anchors; the list against the model, its metadata, and its signatures checked with an implementation of the harness; altered lists must not verify"},
			{Name: "served", Quick: 260, Thorough: 2500, Hang: 150 * time.Second, Prop: c21Served,
				Rule: "the same over HTTP, with conditional requests and changing repositories"},
		},
	}
}

var curves = []elliptic.Curve{elliptic.P256(), elliptic.P256(), elliptic.P224(), elliptic.P384(), elliptic.P521()}

type listCase struct {
	*octoCase
	tals     []int // of site.TALs, in the order of the command line
	names    []string
	key      *ecdsa.PrivateKey
	validity time.Duration
	dups     int
}

// repeat draws ROAs with payloads that another ROA has.
func repeat(t *pbt.T, tr *gen.Tree, to gen.TreeOpts) int {
	n := 0
	for i := t.Intn(5); i > 0; i-- {
		from := pbt.Pick(t, tr.CAs...)
		if len(from.ROAs) == 0 {
			continue
		}
		r := pbt.Pick(t, from.ROAs...)
		var cand []*gen.CANode
		for _, c := range tr.CAs {
			e, ok := c.Eff(), true
			for _, en := range r.Entries {
				ok = ok && e.Holds(gen.PrefixBlock(en.P))
			}
			if ok {
				cand = append(cand, c)
				if c.TA != r.CA.TA {
					cand = append(cand, c, c, c)
				}
			}
		}
		if len(cand) == 0 {
			continue
		}
		x := tr.DrawROA(t, to, pbt.Pick(t, cand...))
		if x == nil {
			break
		}
		x.AS = r.AS
		if t.Chance(1, 5) {
			x.AS++
		}
		x.Entries = nil
		x.Res = gen.Resources{}
		for _, en := range r.Entries {
			if t.Chance(1, 6) && len(r.Entries) > 1 {
				continue
			}
			switch t.Intn(6) {
			case 0:
				if en.MaxLen < 0 {
					en.MaxLen = en.P.Plen
				} else if en.MaxLen == en.P.Plen {
					en.MaxLen = -1
				}
			case 1:
				en.MaxLen = en.P.Plen + t.Intn(en.P.F.Bits()-en.P.Plen+1)
			}
			x.Entries = append(x.Entries, en)
			if t.Chance(1, 8) {
				x.Entries = append(x.Entries, en)
			}
		}
		for _, f := range []gen.AFI{1, 2} {
			s := &gen.IPSet{F: f}
			for _, en := range x.Entries {
				if en.P.F == f {
					s.Blocks = append(s.Blocks, gen.PrefixBlock(en.P))
				}
			}
			if len(s.Blocks) == 0 {
				continue
			}
			if f == 1 {
				x.Res.V4 = s
			} else {
				x.Res.V6 = s
			}
		}
		if len(x.Entries) == 0 {
			x.Entries = append(x.Entries, r.Entries[0])
			x.Res = gen.Resources{}
			s := &gen.IPSet{F: r.Entries[0].P.F, Blocks: []gen.Block{gen.PrefixBlock(r.Entries[0].P)}}
			if s.F == 1 {
				x.Res.V4 = s
			} else {
				x.Res.V6 = s
			}
		}
		n++
	}
	return n
}

func newList(t *pbt.T, mode string) *listCase {
	l := &listCase{octoCase: &octoCase{env: prog.New(t), o: drawOcto(t, mode)}}
	to := gen.TreeOpts{TAs: 3, CAs: 4, ROAs: 3, Depth: 3, Wide: true, MinROAs: t.Intn(2), Hosts: hosts[:t.Range(1, 3)]}
	to.Notify = prog.NotifyFor(t, l.env, pbt.Pick(t, 0, 0, 4))
	if t.Chance(1, 3) {
		to.Notify = prog.Shared(t, to.Notify, 4)
	}
	tr := gen.DrawTree(t, to)
	l.dups = repeat(t, tr, to)
	if t.Chance(1, 4) {
		tr.Hurt(t, gen.SelfROA|gen.SelfCA|gen.Listing|gen.Point|gen.Anchor|gen.Container, t.Range(1, 2))
		if t.Bool() {
			l.o.LaxManifests, l.o.LaxHash = t.Bool(), t.Bool()
		}
	}
	l.o.RRDP, l.o.Failover = true, true
	st := gen.Settings{StrictManifests: !l.o.LaxManifests, StrictHash: !l.o.LaxHash, StrictCMS: l.o.StrictCMS, Time: tr.Time}
	l.site = prog.NewSite(t, l.env, tr, st, pbt.Pick(t, 0, 4))
	if l.site.AddEpoch().Unsure {
		t.Discard()
	}
	for i := range l.site.TALs {
		l.tals = append(l.tals, i)
		if t.Chance(1, 12) {
			l.tals = append(l.tals, i) // configured twice
		}
	}
	pbt.Shuffle(t, l.tals)
	for _, i := range l.tals {
		l.o.TALs = append(l.o.TALs, l.site.TALs[i].File)
	}
	n := len(l.tals)
	if t.Chance(1, 4) {
		n = t.Range(1, n+1)
	}
	for i := 0; i < n; i++ {
		l.o.Names = append(l.o.Names, pbt.Pick(t, "RIPE", "ARIN \"x\" é", "TA <&>", "a/b")+fmt.Sprint(i))
	}
	l.names = l.o.Names
	if n != len(l.tals) {
		l.names = l.o.TALs
		t.Label("names by path")
	}
	if t.Chance(2, 3) {
		k, err := ecdsa.GenerateKey(pbt.Pick(t, curves...), rand.Reader)
		if err != nil {
			panic(err)
		}
		der, err := x509.MarshalECPrivateKey(k)
		if err != nil {
			panic(err)
		}
		l.key = k
		b := pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: der})
		if t.Chance(1, 4) {
			b = append([]byte("a key\n"), b...)
		}
		l.o.Sign = l.env.Write("key/sign.pem", b)
	}
	l.validity = time.Hour
	if t.Chance(3, 4) {
		l.validity = pbt.Pick(t, time.Second, 2500*time.Millisecond, time.Minute, 24*time.Hour, 10*365*24*time.Hour, time.Duration(t.Range(1, 100000))*time.Second)
		l.o.Validity = l.validity
	}
	return l
}

// want: entry → names of its trust anchors.
func (l *listCase) want(ps []gen.Payload) (map[prog.Entry]map[string]bool, int, int) {
	m := map[prog.Entry]map[string]bool{}
	filtered, dup := 0, 0
	for _, p := range ps {
		if l.o.Filter && (p.P.F == 1 && p.P.Plen > 24 || p.P.F == 2 && p.P.Plen > 48) {
			filtered++
			continue
		}
		e := prog.EntryOf(p.VRP)
		if m[e] == nil {
			m[e] = map[string]bool{}
		} else {
			dup++
		}
		for i, k := range l.tals {
			if l.site.TALs[k].TA == p.ROA.CA.TA {
				m[e][l.names[i]] = true
			}
		}
	}
	return m, filtered, dup
}

func payloads(ep *prog.Epoch) []gen.Payload {
	var l []gen.Payload
	for _, x := range ep.Loads {
		l = append(l, x...)
	}
	return l
}

// verify checks the signatures of a list as its users do, with what is
// written in the list.
func verify(b []byte, pub *ecdsa.PublicKey) (content, dated bool, err error) {
	var j struct {
		Metadata struct {
			Generated     json.Number `json:"generated"`
			Valid         json.Number `json:"valid"`
			Signature     string      `json:"signature"`
			SignatureDate string      `json:"signatureDate"`
		} `json:"metadata"`
		Roas []struct {
			Prefix string      `json:"prefix"`
			Max    json.Number `json:"maxLength"`
			ASN    string      `json:"asn"`
		} `json:"roas"`
	}
	if err := json.Unmarshal(b, &j); err != nil {
		return false, false, err
	}
	var s []string
	for _, r := range j.Roas {
		s = append(s, r.Prefix+","+r.Max.String()+","+r.ASN+",")
	}
	sort.Strings(s)
	all := strings.Join(s, "")
	valid := j.Metadata.Valid
	if valid == "" {
		valid = "0"
	}
	check := func(sig, text string) (bool, error) {
		raw, err := hex.DecodeString(sig)
		if err != nil {
			return false, err
		}
		var v struct{ R, S *big.Int }
		if rest, err := asn1.Unmarshal(raw, &v); err != nil || len(rest) > 0 {
			return false, fmt.Errorf("not a signature: %x", raw)
		}
		h := sha256.Sum256([]byte(text))
		return ecdsa.Verify(pub, h[:], v.R, v.S), nil
	}
	if content, err = check(j.Metadata.SignatureDate, all); err != nil {
		return
	}
	dated, err = check(j.Metadata.Signature, j.Metadata.Generated.String()+","+all+valid.String())
	return
}

// theirs is what GoRTR says to the same.
func theirs(b []byte, pub *ecdsa.PublicKey) (bool, bool, error) {
	var l prefixfile.ROAList
	if err := json.Unmarshal(b, &l); err != nil {
		return false, false, err
	}
	return l.CheckFile(pub)
}

// alter changes the content of a list.
func alter(t *pbt.T, b []byte) ([]byte, string) {
	var m map[string]interface{}
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	if err := d.Decode(&m); err != nil {
		panic(err)
	}
	meta := m["metadata"].(map[string]interface{})
	roas := m["roas"].([]interface{})
	num := func(v interface{}, by int64) json.Number {
		n, _ := v.(json.Number)
		i, _ := n.Int64()
		return json.Number(strconv.FormatInt(i+by, 10))
	}
	what := ""
	pick := func() map[string]interface{} { return roas[t.Intn(len(roas))].(map[string]interface{}) }
	k := t.Intn(7)
	if len(roas) == 0 && k < 4 {
		k = 4
	}
	switch k {
	case 0:
		r := pick()
		what, r["maxLength"] = "maximum length", num(r["maxLength"], 1)
	case 1:
		r := pick()
		what, r["asn"] = "AS", r["asn"].(string)+"0"
	case 2:
		r := pick()
		p := r["prefix"].(string)
		i := strings.Index(p, "/")
		n, _ := strconv.Atoi(p[i+1:])
		if n == 0 {
			n = 9
		}
		what, r["prefix"] = "prefix", p[:i+1]+fmt.Sprint(n-1)
	case 3:
		i := t.Intn(len(roas))
		what, m["roas"] = "an entry removed", append(append([]interface{}(nil), roas[:i]...), roas[i+1:]...)
	case 4:
		what, m["roas"] = "an entry added", append(roas, map[string]interface{}{"prefix": "198.51.100.0/24", "maxLength": 24, "asn": "AS64511", "ta": "x"})
	case 5:
		what, meta["generated"] = "time of generation", num(meta["generated"], 1)
	case 6:
		what, meta["valid"] = "time of expiry", num(meta["valid"], 3600)
	}
	out, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	return out, what
}

// check checks a list but for its payloads.
func (l *listCase) check(t *pbt.T, p *prog.Proc, body []byte, from, to time.Time) *prog.List {
	x, err := prog.ParseList(body)
	if err != nil {
		l.fail(t, p, "the list cannot be read: %v", err)
	}
	if x.Counts != len(x.Data) {
		l.fail(t, p, "counts is %d; %d entries are listed", x.Counts, len(x.Data))
	}
	if g := int64(x.Generated); g < from.Unix()-1 || g > to.Unix()+1 {
		l.fail(t, p, "generated is %d, not in %d to %d", g, from.Unix(), to.Unix())
	}
	d := time.Duration(x.Valid-x.Generated) * time.Second
	if d < l.validity.Truncate(time.Second) || d > l.validity.Truncate(time.Second)+time.Second {
		l.fail(t, p, "the list is valid for %v, configured was %v", d, l.validity)
	}
	if l.key == nil {
		if x.Signature != "" || x.SignatureDate != "" {
			l.fail(t, p, "signed without a key")
		}
		return x
	}
	a, b, err := verify(body, &l.key.PublicKey)
	if err != nil || !a || !b {
		l.fail(t, p, "signatures of the list: content %v, with times %v, %v (key on %s)", a, b, err, l.key.Curve.Params().Name)
	}
	a, b, err = theirs(body, &l.key.PublicKey)
	if err != nil || !a || !b {
		l.fail(t, p, "signatures of the list, for GoRTR: content %v, with times %v, %v", a, b, err)
	}
	other, err := ecdsa.GenerateKey(l.key.Curve, rand.Reader)
	if err != nil {
		panic(err)
	}
	if a, b, _ := verify(body, &other.PublicKey); a || b {
		l.fail(t, p, "signatures verify with another key")
	}
	for i := 0; i < 3; i++ {
		body, what := alter(t, body)
		for _, f := range []func([]byte, *ecdsa.PublicKey) (bool, bool, error){verify, theirs} {
			a, b, _ := f(body, &l.key.PublicKey)
			if b || a && what != "time of generation" && what != "time of expiry" {
				l.fail(t, p, "after a change (%s), signatures verify: content %v, with times %v", what, a, b)
			}
		}
	}
	return x
}

func (l *listCase) note(t *pbt.T, x *prog.List, filtered, dup int) {
	tas := map[string]bool{}
	for _, n := range x.TA {
		tas[n] = true
	}
	if len(x.Data) >= 2 && (dup > 0 || filtered > 0 || l.key != nil || len(tas) > 1) {
		curve := "-"
		if l.key != nil {
			curve = l.key.Curve.Params().Name
		}
		t.NonTrivial(fmt.Sprintf("%d %d %d %d %s %v %v", len(x.Data), dup, filtered, len(tas), curve, l.o.Filter, l.validity))
	}
	if dup > 0 {
		t.Label("duplicates")
	}
	if filtered > 0 {
		t.Label("filtered")
	}
	if l.key != nil {
		t.Label("signed")
	}
	if len(tas) > 1 {
		t.Label("several trust anchors")
	}
	if len(x.Data) == 0 {
		t.Label("empty list")
	}
	t.Sample(fmt.Sprintf("%d entries of %d trust anchors, %d duplicates, %d filtered, signed %v", len(x.Data), len(tas), dup, filtered, l.key != nil))
}

func c21File(t *pbt.T) {
	l := newList(t, "oneoff")
	t1 := time.Now()
	p, out := l.oneoff(t)
	x := l.check(t, p, out, t1, time.Now())
	want, filtered, dup := l.want(payloads(l.site.Epochs[0]))
	if err := prog.Compare(x, want); err != nil {
		l.fail(t, p, "output: %v", err)
	}
	l.note(t, x, filtered, dup)
}

func c21Served(t *pbt.T) {
	l := newList(t, "server")
	l.o.Refresh = 50 * time.Millisecond
	l.o.Port = prog.FreePort()
	path := pbt.Pick(t, "output.json", "/output.json", "a/rpki.json")
	l.o.Output = path
	url := fmt.Sprintf("http://127.0.0.1:%d/%s", l.o.Port, strings.TrimPrefix(path, "/"))
	cache := t.Chance(3, 4)
	if !cache {
		l.o.Extra = append(l.o.Extra, "-http.cache=false")
	}
	to := gen.TreeOpts{Wide: true}
	changes := t.Intn(3)
	for i := 0; i < changes; i++ {
		for n := t.Intn(3); n > 0; n-- {
			ca := pbt.Pick(t, l.site.Tr.CAs...)
			if len(ca.ROAs) > 0 && t.Bool() {
				ca.ROAs = ca.ROAs[1:]
			} else {
				l.site.Tr.DrawROA(t, to, ca)
			}
		}
		if t.Chance(1, 3) {
			repeat(t, l.site.Tr, to)
		}
		if l.site.AddEpoch().Unsure {
			t.Discard()
		}
	}
	t1 := time.Now()
	p := l.env.Start("octorpki", l.o.Args(l.env, l.site)...)
	etag := ""
	var last []byte
	for i := 0; i <= changes; i++ {
		if i > 0 {
			l.site.Next()
		}
		want, filtered, dup := l.want(payloads(l.site.Epochs[i]))
		var why error
		var x *prog.List
		for deadline := time.Now().Add(30 * time.Second); ; {
			if !p.Running() {
				l.fail(t, p, "octorpki ended by itself with status %d", p.Code)
			}
			if time.Now().After(deadline) {
				l.fail(t, p, "state %d: no right list after 30 s; last: %v", i, why)
			}
			var h []string
			if etag != "" && t.Bool() {
				h = []string{"If-None-Match", etag}
			}
			code, hd, b, err := prog.Get(url, 10*time.Second, h...)
			if err != nil || code == 503 {
				why = fmt.Errorf("status %d, %v", code, err)
				time.Sleep(5 * time.Millisecond)
				continue
			}
			now := time.Now()
			if code == 304 && h != nil {
				b = last // by the promise of the status
			} else if code != 200 {
				l.fail(t, p, "status %d for the list", code)
			} else {
				etag, last = hd.Get("Etag"), b
			}
			x = l.check(t, p, b, t1, now)
			cc := hd.Get("Cache-Control")
			switch {
			case cc != "" && !cache:
				l.fail(t, p, "Cache-Control: %s with -http.cache=false", cc)
			case cc != "":
				var age int64
				if n, _ := fmt.Sscanf(cc, "max-age=%d", &age); n != 1 {
					l.fail(t, p, "Cache-Control: %s", cc)
				}
				if now.Unix()+age > int64(x.Valid)+2 {
					l.fail(t, p, "Cache-Control allows %d s at %d for a list valid until %d", age, now.Unix(), x.Valid)
				}
			}
			if why = prog.Compare(x, want); why == nil {
				break
			}
			if changes == 0 {
				l.fail(t, p, "served: %v", why)
			}
			time.Sleep(5 * time.Millisecond)
		}
		l.note(t, x, filtered, dup)
	}
	// asked again with what was given
	if etag != "" {
		code, _, b, err := prog.Get(url, 10*time.Second, "If-None-Match", etag)
		if err == nil && code == 304 && len(b) > 0 {
			l.fail(t, p, "304 with content")
		}
		if code == 304 {
			t.Label("not modified")
		}
		other := []byte(etag)
		at := t.Intn(len(other))
		if k := strings.IndexByte("0123456789abcdef", other[at]); k >= 0 {
			other[at] = "0123456789abcdef"[(k+t.Range(1, 15))%16]
		} else {
			other = append(other, '0')
		}
		for _, tag := range []string{"0000" + etag, etag + "0", etag[:t.Range(1, len(etag)-1)], etag[:len(etag)-1], string(other)} {
			code, _, _, err = prog.Get(url, 10*time.Second, "If-None-Match", tag)
			if err == nil && code == 304 {
				l.fail(t, p, "304 for %q, when the entity tag is %q", tag, etag)
			}
		}
	}
}
