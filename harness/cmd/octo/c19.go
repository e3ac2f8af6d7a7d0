//go:build go1.22

package main

import (
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/cloudflare/cfrpki/verifharness/gen"
	"github.com/cloudflare/cfrpki/verifharness/pbt"
	"github.com/cloudflare/cfrpki/verifharness/prog"
)

func propC19() pbt.Property {
	return pbt.Property{
		ID:    "C19",
		Setup: prog.Setup,
		Rule:  "a program run counts when it fetched from at least two sources; signature: the kinds, outcomes and faults of the fetches, and the settings",
		Assumptions: []string{
			"rsync is replaced by a program of the harness that copies as rsync -rl does (no other rsync is installed)",
			"HTTP instead of HTTPS, on the loopback interface",
			"octorpki runs as uid 65534 in a scratch directory",
		},
		Suites: []pbt.Suite{
			{Name: "loop", Quick: 600, Thorough: 9000, Hang: 150 * time.Second, Prop: c19Loop,
				Rule: "one-off runs over trees spread over RRDP and rsync repositories with transient and lasting failures; the log of all fetches against a model of the loop, and the output"},
			{Name: "server", Quick: 120, Thorough: 2500, Hang: 150 * time.Second, Prop: c19Server,
				Rule: "the same with the serving mode over several revalidations"},
			{Name: "restart", Quick: 150, Thorough: 4000, Hang: 150 * time.Second, Prop: c19Restart,
				Rule: "one-off runs one after another on the same cache, while publication points change, break and are repaired"},
			{Name: "shared", Quick: 300, Thorough: 5000, Hang: 150 * time.Second, Prop: c19Shared,
				Rule: "one-off runs over hosts that share RRDP repositories; the final list against the whole tree"},
		},
	}
}

var hosts = []string{"h0.example", "h1.example:8873", "h2.example"}

// pick draws faults for the first fetches of a source.
func pickFaults(t *pbt.T, from []string, lasting bool) []string {
	n := t.Range(1, 3)
	if lasting {
		n = 60
	}
	one := t.Bool()
	f := pbt.Pick(t, from...)
	var l []string
	for i := 0; i < n; i++ {
		switch {
		case one:
			l = append(l, f)
		case i < 6 && t.Chance(1, 4):
			l = append(l, "")
		case i < 6:
			l = append(l, pbt.Pick(t, from...))
		default:
			l = append(l, f)
		}
	}
	return l
}

// faults draws the failures of a site.
func drawFaults(t *pbt.T, s *prog.Site, slow bool) {
	num := pbt.Pick(t, 0, 2, 2, 4)
	for _, u := range s.URLs() {
		if t.Chance(num, 8) {
			s.Faults["n"+u] = pickFaults(t, prog.NoteFaults, t.Bool())
		}
	}
	rs := s.Modules()
	for _, l := range s.TALs {
		if l.Rsync() != "" {
			rs = append(rs, l.Rsync())
		}
		for _, u := range l.URIs {
			if strings.HasPrefix(u, "http") && t.Chance(num, 8) {
				s.Faults["t"+u] = pickFaults(t, prog.TAFaults, t.Bool())
			}
		}
	}
	for _, m := range rs {
		if t.Chance(num, 12) {
			s.Faults["r"+m] = pickFaults(t, prog.RsyncFaults, t.Chance(1, 3))
		}
	}
	if slow && len(rs) > 0 {
		s.Faults["r"+pbt.Pick(t, rs...)] = []string{pbt.Pick(t, "hang", "hold")}
	}
}

type octoCase struct {
	env  *prog.Env
	site *prog.Site
	o    prog.Octo
}

func drawOcto(t *pbt.T, mode string) prog.Octo {
	o := prog.Octo{RRDP: !t.Chance(1, 7), Failover: !t.Chance(1, 6), Mode: mode, Filter: t.Bool(), Wait: true,
		Concurrent: pbt.Pick(t, 1, 2, 3, 100), Output: "output.json"}
	if t.Chance(1, 3) {
		o.StrictCMS = true
	}
	return o
}

// newCase draws a site.
func newCase(t *pbt.T, mode string, to gen.TreeOpts, hurt int) *octoCase {
	c := &octoCase{env: prog.New(t), o: drawOcto(t, mode)}
	to.Wide = true
	if to.Hosts == nil {
		to.Hosts = hosts[:t.Range(1, 3)]
	}
	to.Notify = prog.NotifyFor(t, c.env, pbt.Pick(t, 0, 3, 5, 8))
	tr := gen.DrawTree(t, to)
	st := gen.Settings{StrictManifests: true, StrictHash: true, StrictCMS: c.o.StrictCMS, Time: tr.Time}
	for i := 0; i < hurt && t.Chance(1, 4); i++ {
		tr.Hurt(t, gen.SelfROA|gen.SelfCA|gen.Listing|gen.Point|gen.Anchor, 1)
	}
	c.site = prog.NewSite(t, c.env, tr, st, pbt.Pick(t, 0, 4, 8))
	return c
}

func (c *octoCase) logTo(t *pbt.T, p *prog.Proc) {
	t.Logf("tree: %s", c.site.Tr)
	for _, ca := range c.site.Tr.CAs {
		t.Logf("  ca%d at %s, RRDP %q", ca.ID, ca.Dir, ca.Notify)
	}
	for _, l := range c.site.TALs {
		t.Logf("  TAL %v", l.URIs)
	}
	t.Logf("faults: %v", c.site.Faults)
	t.Logf("options: %v", c.o.Args(c.env, c.site))
	for i, e := range c.site.Log() {
		t.Logf("  event %d: %s", i, e)
	}
	if p != nil {
		t.Logf("output of the program: %s", p.Tail(3000))
	}
}

func (c *octoCase) fail(t *pbt.T, p *prog.Proc, f string, a ...interface{}) {
	c.logTo(t, p)
	t.Failf(f, a...)
}

// oneoff runs the program to its end.
func (c *octoCase) oneoff(t *pbt.T) (*prog.Proc, []byte) {
	p := c.env.Start("octorpki", c.o.Args(c.env, c.site)...)
	if !p.Wait(90 * time.Second) {
		p.Stacks()
		c.fail(t, p, "octorpki -mode oneoff has not ended after 90 s")
	}
	if p.Code != 0 {
		c.fail(t, p, "octorpki -mode oneoff ended with status %d", p.Code)
	}
	b, err := os.ReadFile(c.env.Work + "/output.json")
	if err != nil {
		c.fail(t, p, "octorpki -mode oneoff left no output: %v", err)
	}
	if bad := c.env.BadTargets(); bad != nil {
		c.fail(t, p, "rsync was to write to %v", bad)
	}
	return p, b
}

func (c *octoCase) signature(log []prog.Event) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%v%v%d", c.o.RRDP, c.o.Failover, c.o.Concurrent)
	ids := map[string]int{}
	for _, e := range log {
		k, ok := ids[e.Key]
		if !ok {
			k = len(ids)
			ids[e.Key] = k
		}
		fmt.Fprintf(&b, " %c%d%v%s", e.Kind, k, e.OK, e.Fault)
	}
	return b.String()
}

func (c *octoCase) labels(t *pbt.T, log []prog.Event, its []prog.Iter) {
	n, fail, over := 0, 0, 0
	src := map[string]bool{}
	failed := map[string]bool{}
	for _, e := range log {
		src[e.Key] = true
		if !e.OK {
			fail++
			if e.Kind == 'n' {
				failed[e.Key] = true
			}
		}
		if e.Kind == 'r' {
			n++
		}
		if e.Kind == 't' && e.OK && e.Bad {
			over++
		}
	}
	if len(src) >= 2 {
		t.NonTrivial(c.signature(log))
	}
	if fail > 0 {
		t.Label("failures")
	}
	if len(failed) > 0 && n > 0 && c.o.Failover {
		t.Label("failover")
	}
	if len(failed) > 0 && !c.o.Failover {
		t.Label("no failover")
	}
	if !c.o.RRDP {
		t.Label("RRDP off")
	}
	if len(its) > 3 {
		t.Label("4 or more iterations")
	}
}

func c19Loop(t *pbt.T) {
	c := newCase(t, "oneoff", gen.TreeOpts{TAs: 3, CAs: 8, ROAs: 2, Depth: 5}, 2)
	slow := t.Chance(1, 25)
	drawFaults(t, c.site, slow)
	if slow {
		c.o.RsyncTimeout = 700 * time.Millisecond
	}
	ep := c.site.AddEpoch()
	if ep.Unsure {
		t.Discard()
	}
	p, out := c.oneoff(t)
	log := c.site.Log()
	its, err := c.site.Explain(c.o, log, true)
	if err != nil {
		c.fail(t, p, "%v", err)
	}
	c.labels(t, log, its)
	if slow {
		t.Label("hanging rsync")
	}
	l, err := prog.ParseList(out)
	if err != nil {
		c.fail(t, p, "output: %v", err)
	}
	if err := prog.Compare(l, c.site.Want(c.o, its[len(its)-1].Loads)); err != nil {
		c.fail(t, p, "output: %v", err)
	}
	if len(l.Data) > 0 {
		t.Label("payloads")
	}
	t.Sample(fmt.Sprintf("%d CAs, %d RRDP repositories, %d fetches in %d iterations, %d payloads", len(c.site.Tr.CAs), len(c.site.Repos), len(log), len(its), len(l.Data)))
}

func c19Server(t *pbt.T) {
	c := newCase(t, "server", gen.TreeOpts{TAs: 2, CAs: 6, ROAs: 2, Depth: 4}, 1)
	var moves map[*gen.CANode][]string
	what := ""
	if t.Bool() {
		moves = drawMoves(t, c)
	}
	drawFaults(t, c.site, false)
	c.o.Refresh = 20 * time.Millisecond
	c.o.Port = prog.FreePort()
	ep := c.site.AddEpoch()
	if ep.Unsure {
		t.Discard()
	}
	if moves != nil {
		for i := t.Range(1, 4); i > 0; i-- {
			what += move(t, c, moves, len(c.site.Epochs))
			c.site.AddEpoch()
		}
		c.o.Concurrent = 1 // so that nothing is being fetched while a round begins
		at, every := t.Range(2, 4), t.Range(1, 3)
		c.site.OnGen = func(n int) {
			if n >= at && (n-at)%every == 0 {
				c.site.Next()
			}
		}
	}
	p := c.env.Start("octorpki", c.o.Args(c.env, c.site)...)
	want := t.Range(20, 120)
	for i := 0; c.site.Logged() < want && i < 400 && p.Running(); i++ {
		time.Sleep(5 * time.Millisecond)
	}
	if !p.Running() {
		c.fail(t, p, "octorpki ended by itself with status %d", p.Code)
	}
	p.Kill()
	log := c.site.Log()
	its, err := c.site.Explain(c.o, log, false)
	if err != nil {
		t.Logf("%s", what)
		c.fail(t, p, "%v", err)
	}
	if len(log) < 2 {
		if len(c.site.TALs) > 0 && !c.o.Failover && !hasHTTP(c.site) {
			t.Discard() // nothing can be fetched
		}
		c.fail(t, p, "only %d fetches in 2 s", len(log))
	}
	c.labels(t, log, its)
	t.Sample(fmt.Sprintf("%d fetches in %d iterations", len(log), len(its)))
}

func hasHTTP(s *prog.Site) bool {
	for _, l := range s.TALs {
		for _, u := range l.URIs {
			if strings.HasPrefix(u, "http") {
				return true
			}
		}
	}
	return false
}

// drawMoves draws where CAs may move to; all of these publish them from the
// beginning on.
func drawMoves(t *pbt.T, c *octoCase) map[*gen.CANode][]string {
	moves := map[*gen.CANode][]string{}
	for _, ca := range c.site.Tr.CAs {
		if ca.Parent == nil || !t.Chance(1, 3) {
			continue
		}
		us := []string{"", ca.Notify}
		for k := t.Range(1, 2); k > 0; k-- {
			us = append(us, fmt.Sprintf("%s/r/m%d-%s/notification.xml", pbt.Pick(t, c.env.URL, c.env.TLS), k, strings.ReplaceAll(prog.Host(ca.Dir), ":", "-")))
		}
		for _, u := range us {
			for _, x := range c.site.Tr.CAs {
				if u != "" && x.Dir == ca.Dir {
					c.site.Also(x, u)
				}
			}
		}
		moves[ca] = us
	}
	return moves
}

// move makes certificates name other RRDP repositories.
func move(t *pbt.T, c *octoCase, moves map[*gen.CANode][]string, i int) (what string) {
	for _, ca := range c.site.Tr.CAs {
		if us := moves[ca]; us != nil && t.Chance(1, 3) {
			if u := pbt.Pick(t, us...); u != ca.Notify {
				ca.Notify = u
				what += fmt.Sprintf("epoch %d: ca%d at %q now; ", i, ca.ID, u)
				t.Label("repository moved")
			}
		}
	}
	return what
}

func c19Restart(t *pbt.T) {
	to := gen.TreeOpts{TAs: 2, CAs: 7, ROAs: 2, Depth: 4, Wide: true}
	c := newCase(t, "oneoff", to, 0)
	tr := c.site.Tr
	runs := t.Range(2, 5)
	var what strings.Builder
	moves := map[*gen.CANode][]string{}
	if t.Bool() {
		moves = drawMoves(t, c)
	}
	for i := 0; i < runs; i++ {
		if i > 0 {
			what.WriteString(move(t, c, moves, i))
			for n := t.Intn(3); n > 0; n-- {
				ca := pbt.Pick(t, tr.CAs...)
				if len(ca.ROAs) > 0 && t.Bool() {
					ca.ROAs = ca.ROAs[1:]
				} else {
					tr.DrawROA(t, to, ca)
				}
			}
		}
		broken := map[*gen.CANode]string{}
		if i < runs-1 || t.Bool() {
			for n := t.Intn(3); n > 0; n-- {
				ca := pbt.Pick(t, tr.CAs...)
				how := pbt.Pick(t, "expired", "crl")
				if len(ca.Kids) > 0 && t.Bool() {
					how = "kid"
				}
				broken[ca] = how
				fmt.Fprintf(&what, "run %d: ca%d broken (%s); ", i, ca.ID, how)
			}
		}
		c.site.AddBroken(broken)
	}
	c.site.SetResets(t, t.Range(1, runs))
	if t.Chance(1, 3) {
		drawFaults(t, c.site, false)
	}
	total := 0
	for i := 0; i < runs; i++ {
		if i > 0 {
			c.site.Next()
			c.site.Keep()
			if b, err := os.ReadFile(c.env.Work + "/rrdp.json"); err == nil && t.Chance(1, 6) { // a lost write
				os.Truncate(c.env.Work+"/rrdp.json", int64(t.Intn(len(b)+1)))
				t.Label("state file cut off")
			}
		}
		from := c.site.Logged()
		p, out := c.oneoff(t)
		log := c.site.Log()[from:]
		its, err := c.site.Explain(c.o, log, true)
		if err != nil {
			t.Logf("%s", what.String())
			c.fail(t, p, "run %d (from event %d): %v", i, from, err)
		}
		l, err := prog.ParseList(out)
		if err == nil {
			err = prog.Compare(l, c.site.Want(c.o, its[len(its)-1].Loads))
		}
		if err != nil {
			t.Logf("%s", what.String())
			c.fail(t, p, "output of run %d (from event %d): %v", i, from, err)
		}
		total += len(its)
	}
	log := c.site.Log()
	c.labels(t, log, nil)
	if what.Len() > 0 {
		t.Label("broken points")
	}
	t.Sample(fmt.Sprintf("%d runs, %d fetches in %d iterations; %s", runs, len(log), total, what.String()))
}

// c19Shared: whoever claims a repository, everything is fetched in the end.
func c19Shared(t *pbt.T) {
	c := newShared(t, gen.TreeOpts{TAs: 3, CAs: 8, ROAs: 2, Depth: 4, Wide: true}, 8)
	c.o.RRDP, c.o.Failover = true, true
	if t.Bool() {
		for _, u := range c.site.URLs() {
			if t.Chance(1, 4) {
				c.site.Faults["n"+u] = pickFaults(t, prog.NoteFaults, t.Bool())
			}
		}
	}
	ep := c.site.AddEpoch()
	if ep.Unsure {
		t.Discard()
	}
	p, out := c.oneoff(t)
	l, err := prog.ParseList(out)
	if err == nil {
		err = prog.Compare(l, c.site.Want(c.o, payloads(ep)))
	}
	if err != nil {
		c.fail(t, p, "output: %v", err)
	}
	c.labels(t, c.site.Log(), nil)
	claims := map[string]map[string]bool{}
	for _, ca := range c.site.Tr.CAs {
		if ca.Notify != "" {
			if claims[ca.Notify] == nil {
				claims[ca.Notify] = map[string]bool{}
			}
			claims[ca.Notify][prog.Host(ca.Dir)] = true
			if len(claims[ca.Notify]) == 2 {
				t.Label("shared repository")
			}
		}
	}
	t.Sample(fmt.Sprintf("%d CAs, %d RRDP repositories, %d fetches, %d payloads", len(c.site.Tr.CAs), len(c.site.Repos), len(c.site.Log()), len(l.Data)))
}
