//go:build go1.22

package main

import (
	"fmt"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/cloudflare/cfrpki/verifharness/gen"
	"github.com/cloudflare/cfrpki/verifharness/pbt"
	"github.com/cloudflare/cfrpki/verifharness/prog"
)

func propC31() pbt.Property {
	return pbt.Property{
		ID:    "C31",
		Setup: prog.Setup,
		Rule:  "a case counts when a run was cut short or could not write; signature: how the runs ended, and after how many fetches, and what is published how",
		Assumptions: []string{
			"rsync is replaced by a program of the harness that puts each file in place at once, as rsync does",
			"a publication directory is published by one RRDP repository (a URL may serve several hosts, and a host's directories may have different URLs)",
			"a killed process loses nothing it wrote, except where the case cuts the state file off",
			"octorpki runs as uid 65534 in a scratch directory",
		},
		Suites: []pbt.Suite{
			{Name: "killed", Quick: 800, Thorough: 12000, Hang: 200 * time.Second, Prop: func(t *pbt.T) { c31(t, false) },
				Rule: "runs that are killed after a drawn number of fetches and some time, while what is published changes; then a one-off run, whose list is compared with the model of what is published"},
			{Name: "full disk", Quick: 500, Thorough: 8000, Hang: 200 * time.Second, Prop: func(t *pbt.T) { c31(t, true) },
				Rule: "the same with runs that cannot write files beyond a size; they may be killed too"},
		},
	}
}

func c31(t *pbt.T, disk bool) {
	to := gen.TreeOpts{TAs: 2, CAs: 6, ROAs: 3, Depth: 4, Wide: true, MinROAs: t.Intn(2)}
	c := newShared(t, to, 3)
	tr := c.site.Tr
	c.o.RRDP, c.o.Failover = true, true
	runs := t.Range(1, 4)
	for i := 0; i <= runs; i++ {
		if i > 0 {
			for n := t.Intn(4); n > 0; n-- {
				ca := pbt.Pick(t, tr.CAs...)
				if len(ca.ROAs) > 0 && t.Bool() {
					ca.ROAs = ca.ROAs[1:]
				} else {
					tr.DrawROA(t, to, ca)
				}
			}
		}
		if c.site.AddEpoch().Unsure {
			t.Discard()
		}
	}
	c.site.SetResets(t, t.Range(1, runs))
	if t.Chance(1, 4) {
		drawFaults(t, c.site, false)
	}
	var mu sync.Mutex
	left := -1
	var reached chan struct{}
	c.site.Before = func(byte, string) {
		mu.Lock()
		defer mu.Unlock()
		if left--; left == -1 {
			close(reached)
		}
	}
	what := ""
	counts := false
	for i := 0; i < runs; i++ {
		mode := pbt.Pick(t, "oneoff", "server")
		c.o.Mode, c.o.Refresh, c.o.Port = mode, 50*time.Millisecond, prog.FreePort()
		mu.Lock()
		after := t.Range(0, 12)
		left, reached = after, make(chan struct{})
		hit := reached
		mu.Unlock()
		delay := time.Duration(t.Intn(4000)) * time.Microsecond
		if disk {
			c.env.FileSize = t.Range(1, 2500)
			if t.Bool() {
				c.env.FileSize = t.Range(900, 1900)
			}
		}
		from := c.site.Logged()
		p := c.env.Start("octorpki", c.o.Args(c.env, c.site)...)
		how := "killed"
		select {
		case <-hit:
			if mode == "server" && t.Chance(1, 3) {
				delay += 60 * time.Millisecond
			}
			select {
			case <-p.Done():
			case <-time.After(delay):
			}
		case <-p.Done():
		case <-time.After(time.Duration(t.Range(500, 3000)) * time.Millisecond): // less than that to fetch
		}
		if !p.Running() {
			how = "ended"
			if p.Crashed() || p.Code != 0 && !disk {
				c.fail(t, p, "run %d (from event %d) ended with status %d", i, from, p.Code)
			}
		}
		p.Kill()
		if how == "killed" || disk {
			counts = true
		}
		what += fmt.Sprintf("%s %s after %d fetches and %s", mode, how, c.site.Logged()-from, delay)
		if disk {
			what += fmt.Sprintf(" with files of at most %d octets", c.env.FileSize)
		}
		what += "; "
		if b, err := os.ReadFile(c.env.Work + "/rrdp.json"); err == nil && t.Chance(1, 8) { // a lost write
			n := t.Intn(len(b) + 1)
			os.Truncate(c.env.Work+"/rrdp.json", int64(n))
			what += fmt.Sprintf("state file cut off at %d; ", n)
			t.Label("state file cut off")
		}
		t.Label("runs " + how)
		if t.Chance(3, 4) {
			c.site.Next()
		}
	}
	for c.site.Next() {
	}
	c.site.Heal()
	from := c.site.Logged()
	c.env.FileSize = 0
	c.o.Mode = "oneoff"
	os.Remove(c.env.Work + "/output.json")
	p, out := c.oneoff(t)
	l, err := prog.ParseList(out)
	if err == nil {
		err = prog.Compare(l, c.site.Want(c.o, payloads(c.site.Epochs[len(c.site.Epochs)-1])))
	}
	if err != nil {
		t.Logf("%s", what)
		c.fail(t, p, "output of the last run (from event %d), after %s%v", from, what, err)
	}
	if counts {
		var pub []string
		for _, u := range c.site.URLs() {
			pub = append(pub, u)
		}
		t.NonTrivial(what + strings.Join(pub, " "))
	}
	t.Sample(fmt.Sprintf("%s%d payloads", what, len(l.Data)))
}

// newShared draws a site whose hosts may share RRDP repositories.
func newShared(t *pbt.T, to gen.TreeOpts, num int) *octoCase {
	c := &octoCase{env: prog.New(t), o: drawOcto(t, "oneoff")}
	to.Hosts = hosts[:t.Range(1, 3)]
	to.Notify = prog.NotifyFor(t, c.env, pbt.Pick(t, 0, 3, 5, 8))
	if t.Chance(num, 8) {
		to.Notify = prog.Shared(t, to.Notify, 4)
	}
	tr := gen.DrawTree(t, to)
	of := map[string]string{} // no file is published by two RRDP repositories
	for _, ca := range tr.CAs {
		if ca.Notify != "" {
			if of[ca.Dir] == "" {
				of[ca.Dir] = ca.Notify
			}
			ca.Notify = of[ca.Dir]
		}
	}
	c.site = prog.NewSite(t, c.env, tr, gen.Settings{StrictManifests: true, StrictHash: true, StrictCMS: c.o.StrictCMS, Time: tr.Time}, pbt.Pick(t, 0, 4, 8))
	return c
}
