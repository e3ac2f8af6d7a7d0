//go:build go1.22

package main

import (
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/cloudflare/cfrpki/verifharness/gen"
	"github.com/cloudflare/cfrpki/verifharness/pbt"
	"github.com/cloudflare/cfrpki/verifharness/prog"
)

func propC23() pbt.Property {
	return pbt.Property{
		ID:    "C23",
		Setup: prog.Setup,
		Rule:  "a run counts when at least three chains are due; signature: program, shape, faults, threads, answers of the log",
		Assumptions: []string{
			"the model of C01 and C02 for what is valid",
			"certificate signatures are checked with crypto/x509",
			"a log is asked over plain HTTP",
		},
		Suites: []pbt.Suite{
			{Name: "ctrpki", Quick: 1200, Thorough: 25000, Hang: 150 * time.Second, Prop: c23Local(false),
				Rule: "ctrpki over generated repositories with 0-3 faults, 0-60 threads: what an add-chain endpoint receives, against the chains of the valid certificates"},
			{Name: "octorpki", Quick: 350, Thorough: 5000, Hang: 200 * time.Second, Prop: c23Octo,
				Rule: "octorpki -ct, serving or one-off, fetching by RRDP and rsync, the log failing or not: the same"},
			{Name: "failing", Quick: 150, Thorough: 2500, Hang: 200 * time.Second, Prop: c23Local(true),
				Rule: "ctrpki with a log that refuses, fails, breaks off, answers nonsense, late or never, for some of the chains or all: every chain is submitted nevertheless, and the program ends"},
		},
	}
}

// chain of certificates, leaf first.
type chain []string

func (c chain) key() string { return strings.Join(c, "\x00") }

// due are the chains of a tree with verdicts, by leaf.
type due struct {
	chain
	v    gen.Tri
	what string
}

func chainsOf(tr *gen.Tree, st gen.Settings) map[string]*due {
	m := map[string]*due{}
	cert := func(c *gen.CANode) string {
		if c.Parent == nil {
			return string(tr.Files[c.TA.URI])
		}
		return string(tr.Files[c.Parent.Dir+c.File.Name])
	}
	up := func(c *gen.CANode) chain {
		var l chain
		for ; c != nil; c = c.Parent {
			l = append(l, cert(c))
		}
		return l
	}
	weaker := func(a, b gen.Tri) gen.Tri {
		if a < b {
			return a
		}
		return b
	}
	for _, c := range tr.CAs {
		alive, point := c.Alive(st), c.Point(st)
		v := alive
		if point != gen.Yes && v == gen.Yes {
			v = gen.Maybe // invalid objects below can make the publisher one that does not count
		}
		l := up(c)
		m[l[0]] = &due{l, v, fmt.Sprintf("ca%d", c.ID)}
		v = weaker(alive, point)
		l = append(chain{string(c.MftEECert())}, up(c)...)
		m[l[0]] = &due{l, v, fmt.Sprintf("manifest of ca%d", c.ID)}
		for _, r := range c.ROAs {
			l := append(chain{string(r.EECert())}, up(c)...)
			v := r.Verdict(st)
			if v == gen.No {
				// its certificate can be valid when only what it says is not
				x := *r
				x.Entries = nil
				if x.Soft {
					x.CMSBad = gen.Yes
				}
				if x.Verdict(st) != gen.No {
					v = gen.Maybe
				}
			}
			m[l[0]] = &due{l, v, fmt.Sprintf("%s of ca%d", r.File.Name, c.ID)}
		}
	}
	return m
}

// ctLog is an add-chain endpoint.
type ctLog struct {
	mu     sync.Mutex
	got    []chain
	bad    []string
	faults map[string]string // by leaf
	all    []string          // or, by leaf, in turn
	times  map[string]int
	now    int
	most   int // at the same time
	quit   chan struct{}
	first  func()          // called before the first answer
	gone   map[string]bool // certificates whose files have been removed
	cut    int             // chains due without them
}

const sct = `{"sct_version":0,"id":"AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA=","timestamp":1700000000000,"extensions":"","signature":"BAMAAA=="}`

func (l *ctLog) serve(p string, w http.ResponseWriter, r *http.Request) {
	l.mu.Lock()
	if p != "log/ct/v1/add-chain" || r.Method != "POST" {
		l.bad = append(l.bad, r.Method+" "+p)
		l.mu.Unlock()
		http.Error(w, "no", 404)
		return
	}
	l.now++
	if l.now > l.most {
		l.most = l.now
	}
	l.mu.Unlock()
	defer func() {
		l.mu.Lock()
		l.now--
		l.mu.Unlock()
	}()
	body, err := io.ReadAll(r.Body)
	var x struct {
		Chain []string `json:"chain"`
	}
	if err == nil {
		err = json.Unmarshal(body, &x)
	}
	var c chain
	for _, s := range x.Chain {
		b, e := base64.StdEncoding.DecodeString(s)
		if e != nil {
			err = e
		}
		c = append(c, string(b))
	}
	l.mu.Lock()
	if err != nil || len(c) == 0 {
		l.bad = append(l.bad, fmt.Sprintf("%v in %.100q", err, body))
		l.mu.Unlock()
		http.Error(w, "bad", 400)
		return
	}
	if len(l.got) == 0 && l.first != nil {
		l.first()
	}
	l.got = append(l.got, c)
	l.times[c[0]]++
	n := l.times[c[0]]
	f := l.faults[c[0]]
	if f == "" && len(l.all) > 0 {
		f = l.all[len(l.got)%len(l.all)]
	}
	l.mu.Unlock()
	switch f {
	case "":
	case "400", "401", "404", "413", "500", "502", "204", "301":
		var n int
		fmt.Sscan(f, &n)
		if n == 301 {
			w.Header().Set("Location", "http://127.0.0.1:1/")
		}
		w.WriteHeader(n)
		return
	case "503", "429", "408":
		if n == 1 {
			var n int
			fmt.Sscan(f, &n)
			w.Header().Set("Retry-After", "0")
			w.WriteHeader(n)
			return
		}
	case "503always", "408always":
		var n int
		fmt.Sscan(f[:3], &n)
		if n == 408 {
			time.Sleep(100 * time.Millisecond)
		}
		w.WriteHeader(n)
		return
	case "nonsense":
		io.WriteString(w, "<html>not JSON</html>")
		return
	case "empty":
		return
	case "other":
		io.WriteString(w, `{"sct_version":7,"id":"!","timestamp":-1,"extensions":5,"signature":"AA=="}`)
		return
	case "close":
		panic(http.ErrAbortHandler)
	case "cut":
		prog.Cut(w, []byte(sct))
	case "late":
		time.Sleep(time.Duration(len(c[0])%300) * time.Millisecond)
	case "never":
		select {
		case <-r.Context().Done():
		case <-l.quit:
		}
		panic(http.ErrAbortHandler)
	case "long":
		for i := 0; i < 40; i++ {
			io.WriteString(w, strings.Repeat(" ", 20000))
		}
	}
	w.Header().Set("Content-Type", "application/json")
	io.WriteString(w, sct)
}

func newLog(t *pbt.T) *ctLog {
	l := &ctLog{faults: map[string]string{}, times: map[string]int{}, quit: make(chan struct{})}
	t.Cleanup(func() { close(l.quit) })
	return l
}

// again tells the faults after which clients come again.
func again(f string, ctrpki bool) bool {
	if !ctrpki {
		return false
	}
	switch f {
	case "503", "429", "408", "503always", "408always", "nonsense", "empty", "close", "cut", "never", "204", "other", "301":
		return true
	}
	return false
}

// drawLog draws how the log fails.
func (l *ctLog) drawFaults(t *pbt.T, dues map[string]*due, few bool) string {
	kinds := []string{"400", "401", "404", "413", "500", "502", "204", "503", "429", "408", "late", "long", "other", "nonsense", "empty", "close", "cut", "never", "503always", "408always", "301"}
	if t.Chance(1, 4) {
		for i := t.Range(1, 3); i > 0; i-- {
			l.all = append(l.all, pbt.Pick(t, kinds[:11]...))
		}
		return "all " + strings.Join(l.all, " ")
	}
	most := len(dues)
	if few {
		most = 4
	}
	var names []string
	// in a fixed order
	var leaves []string
	for k := range dues {
		leaves = append(leaves, k)
	}
	sort.Strings(leaves)
	for i := t.Range(1, max(1, most)); i > 0; i-- {
		k := pbt.Pick(t, leaves...)
		f := pbt.Pick(t, kinds...)
		l.faults[k] = f
		names = append(names, f)
	}
	sort.Strings(names)
	return strings.Join(names, " ")
}

// check compares what the log received with the chains due. times: how often
// each chain may come (0: any number).
func (l *ctLog) check(dues map[string]*due, times int, ctrpki bool, fail func(f string, a ...interface{})) (n int) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if len(l.bad) > 0 {
		fail("requests that are none: %v", l.bad)
	}
	seen := map[string]int{}
	for _, c := range l.got {
		seen[c[0]]++
		d := dues[c[0]]
		if d == nil {
			if err := proper(c, dues); err != nil {
				fail("a chain of %d certificates with an unknown leaf: %v", len(c), err)
			}
			continue
		}
		if d.v == gen.No {
			fail("%s: not valid, but submitted", d.what)
		}
		if c.key() != d.key() {
			fail("%s: the chain has %d certificates (%v) instead of %d", d.what, len(c), names(c, dues), len(d.chain))
		}
	}
	for k, d := range dues {
		if d.v == gen.Yes {
			n++
		}
		f := l.faults[k]
		many := again(f, ctrpki)
		for _, a := range l.all {
			many = many || again(a, ctrpki)
		}
		without := false
		for _, x := range d.chain {
			without = without || l.gone[x]
		}
		if without { // it comes completely or not at all
			l.cut++
			continue
		}
		if d.v == gen.Yes && seen[k] == 0 {
			fail("%s: valid, but not submitted", d.what)
		}
		if times > 0 && !many && (seen[k] > times || d.v == gen.Yes && seen[k] != times) {
			fail("%s: submitted %d times instead of %d", d.what, seen[k], times)
		}
	}
	return n
}

func names(c chain, dues map[string]*due) []string {
	var l []string
	for _, x := range c {
		if d := dues[x]; d != nil {
			l = append(l, d.what)
		} else {
			l = append(l, fmt.Sprintf("unknown, %d octets", len(x)))
		}
	}
	return l
}

// proper checks that every certificate of a chain is signed by the next, and
// the last one is a trust anchor of the tree.
func proper(c chain, dues map[string]*due) error {
	for i, x := range c {
		cert, err := x509.ParseCertificate([]byte(x))
		if err != nil {
			return fmt.Errorf("certificate %d: %v", i, err)
		}
		if i+1 == len(c) {
			if d := dues[x]; d == nil || len(d.chain) != 1 {
				return fmt.Errorf("it does not end with a trust anchor")
			}
			break
		}
		next, err := x509.ParseCertificate([]byte(c[i+1]))
		if err != nil {
			return fmt.Errorf("certificate %d: %v", i+1, err)
		}
		if err := next.CheckSignature(cert.SignatureAlgorithm, cert.RawTBSCertificate, cert.Signature); err != nil {
			return fmt.Errorf("certificate %d is not signed by the next: %v", i, err)
		}
	}
	return nil
}

func c23Local(failing bool) func(t *pbt.T) {
	return func(t *pbt.T) {
		e := prog.New(t)
		wide := t.Chance(1, 4)
		o := drawOpts(t, wide)
		tr := gen.DrawTree(t, o)
		var kinds []string
		if t.Bool() && !failing {
			_, kinds = tr.Hurt(t, allFaults, t.Range(1, 3))
		}
		st := gen.Settings{StrictManifests: true, StrictHash: true, StrictCMS: true, Time: tr.Time}
		tr.Build(0)
		dues := chainsOf(tr, st)
		m := layout(t, e, tr.Files)
		tals := trusts(t, e, tr, t.Chance(1, 3))
		l := newLog(t)
		e.HTTP = l.serve
		threads := pbt.Pick(t, 0, 1, 1, 2, 3, 8, 50, 60, -1)
		args := append([]string{"-tal.root", talArg(tals), "-map.dir", m, "-ct", e.URL + "/log", "-ct.threads", fmt.Sprint(threads)}, atTime(t, st.Time, wide)...)
		args = append(args, yes(t, "manifest.use", true, true)...)
		how := ""
		if failing {
			how = l.drawFaults(t, dues, true)
			args = append(args, "-ct.timeout", fmt.Sprint(t.Range(1, 2)))
		}
		p := e.Start("ctrpki", args...)
		fail := func(f string, a ...interface{}) {
			t.Logf("%s", tr)
			t.Logf("ctrpki %q; log: %s", args, how)
			t.Logf("%s", p.Tail(3000))
			t.Failf(f, a...)
		}
		if !p.Wait(140 * time.Second) {
			p.Stacks()
			fail("ctrpki has not ended after 140 s")
		}
		if p.Code != 0 || p.Crashed() {
			fail("ctrpki ended with status %d", p.Code)
		}
		n := l.check(dues, 1, true, fail)
		if n >= 3 {
			t.NonTrivial("ctrpki %s %v %d %s", shape(tr), kinds, threads, how)
		}
		for _, k := range kinds {
			t.Label("%s", k)
		}
		t.Label("threads %d", threads)
		t.Sample("%s; %v; %d threads; log: %s; %d chains due, %d submissions, up to %d at a time", shape(tr), tr.Faults, threads, how, n, len(l.got), l.most)
	}
}

var hosts = []string{"h0.example", "h1.example:8873", "h2.example"}

func c23Octo(t *pbt.T) {
	e := prog.New(t)
	o := prog.Octo{RRDP: true, Failover: true, Mode: pbt.Pick(t, "server", "oneoff"), Filter: t.Bool(), Wait: true,
		Concurrent: pbt.Pick(t, 1, 2, 100), Output: "output.json", Refresh: time.Hour, StrictCMS: t.Chance(1, 3)}
	to := drawOpts(t, true)
	to.Hosts = hosts[:t.Range(1, 3)]
	to.Notify = prog.NotifyFor(t, e, pbt.Pick(t, 0, 3, 5, 8))
	tr := gen.DrawTree(t, to)
	var kinds []string
	if t.Chance(1, 3) {
		_, kinds = tr.Hurt(t, gen.SelfROA|gen.SelfCA|gen.Listing|gen.Point|gen.Anchor, t.Range(1, 2))
	}
	st := gen.Settings{StrictManifests: true, StrictHash: true, StrictCMS: o.StrictCMS, Time: tr.Time}
	site := prog.NewSite(t, e, tr, st, pbt.Pick(t, 0, 4))
	site.AddEpoch()
	dues := chainsOf(tr, st)
	l := newLog(t)
	site.More = l.serve
	threads := pbt.Pick(t, 0, 1, 2, 8, 50, -3)
	if t.Chance(1, 4) {
		threads = pbt.Pick(t, 0, 1, 2)
		l.gone = map[string]bool{}
		var files []string
		for i := t.Range(1, 3); i > 0; i-- {
			c := pbt.Pick(t, tr.CAs...)
			switch k := t.Intn(3); {
			case k == 0 && c.Parent != nil:
				files = append(files, c.Parent.Dir+c.File.Name)
				l.gone[string(tr.Files[files[len(files)-1]])] = true
			case k == 1 && len(c.ROAs) > 0:
				r := pbt.Pick(t, c.ROAs...)
				files = append(files, c.Dir+r.File.Name)
				l.gone[string(r.EECert())] = true
			default:
				files = append(files, c.Dir+c.MftName)
				l.gone[string(c.MftEECert())] = true
			}
		}
		l.first = func() {
			for _, f := range files {
				os.Remove(filepath.Join(e.Work, "cache", filepath.FromSlash(path.Clean("/"+strings.TrimPrefix(f, "rsync://")))))
			}
		}
	}
	o.Extra = []string{"-ct", "-ct.addr", e.URL + "/log", fmt.Sprintf("-ct.threads=%d", threads)}
	how := ""
	if t.Chance(1, 3) {
		how = l.drawFaults(t, dues, true)
		o.Extra = append(o.Extra, "-ct.timeout", fmt.Sprint(t.Range(1, 2)))
	}
	times := 1
	if o.Mode == "oneoff" && t.Chance(1, 3) {
		o.Wait = false
		times = 0
		l.first, l.gone = nil, nil
	}
	if o.Mode == "server" {
		o.Port = prog.FreePort()
	}
	p := e.Start("octorpki", o.Args(e, site)...)
	fail := func(f string, a ...interface{}) {
		t.Logf("%s", tr)
		t.Logf("octorpki %q; log: %s", o.Args(e, site), how)
		t.Logf("%s", p.Tail(3000))
		t.Failf(f, a...)
	}
	end := time.Now().Add(140 * time.Second)
	stable := func() bool {
		if o.Mode != "server" {
			return false
		}
		code, _, b, err := prog.Get(fmt.Sprintf("http://127.0.0.1:%d/metrics", o.Port), 5*time.Second)
		return err == nil && code == 200 && strings.Contains(string(b), "\nstate 1\n") || strings.Contains(p.Output(), "Stable state. Revalidating")
	}
	for !stable() && p.Running() && time.Now().Before(end) {
		time.Sleep(20 * time.Millisecond)
	}
	switch {
	case p.Running() && o.Mode == "server":
		if time.Now().After(end) {
			p.Stacks()
			fail("no stable state after 140 s")
		}
		p.Kill()
	case p.Running():
		p.Stacks()
		fail("octorpki -mode oneoff has not ended after 140 s")
	case o.Mode == "server" || p.Code != 0 || p.Crashed():
		fail("octorpki ended with status %d", p.Code)
	}
	n := l.check(dues, times, false, fail)
	if l.cut > 0 {
		t.Label("files removed during submission")
	}
	if n >= 3 {
		t.NonTrivial("octorpki %s %s %v %d %s", o.Mode, shape(tr), kinds, threads, how)
	}
	for _, k := range kinds {
		t.Label("%s", k)
	}
	t.Label("%s, waiting %v", o.Mode, o.Wait)
	t.Sample("octorpki -mode %s; %s; %v; %d threads; log: %s; %d chains due, %d submissions, up to %d at a time", o.Mode, shape(tr), tr.Faults, threads, how, n, len(l.got), l.most)
}
