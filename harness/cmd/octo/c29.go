//go:build go1.22

package main

import (
	"fmt"
	"io"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/cloudflare/cfrpki/verifharness/gen"
	"github.com/cloudflare/cfrpki/verifharness/pbt"
	"github.com/cloudflare/cfrpki/verifharness/prog"
)

func propC29() pbt.Property {
	return pbt.Property{
		ID:    "C29",
		Setup: prog.Setup,
		Rule:  "a history counts when requests were answered in at least two iterations, or when more than one chain was submitted by more than one thread; signature: the accesses, the endpoints asked and the settings",
		Assumptions: []string{
			"the race detector of Go tells of every pair of accesses of which one writes and which nothing orders, among those that the run performs; it has no false alarms",
			"the programs are those of the other checks, built with -race",
		},
		Suites: []pbt.Suite{
			{Name: "octorpki", Quick: 300, Thorough: 4000, Hang: 150 * time.Second, Prop: c29Octo,
				Rule: "the serving mode, fetching by RRDP, HTTPS and rsync at once with failures, over 1-3 epochs, sometimes submitting to a log, while every endpoint is asked by up to four clients"},
			{Name: "repositories", Quick: 300, Thorough: 4000, Hang: 150 * time.Second, Prop: c29Many,
				Rule: "the same with 6-14 RRDP repositories"},
			{Name: "ctrpki", Quick: 60, Thorough: 1200, Hang: 150 * time.Second, Prop: c29CT,
				Rule: "ctrpki with 2-50 threads over generated repositories, the log failing or not"},
		},
	}
}

// race is the first report of the race detector, if any.
func race(p *prog.Proc) string {
	out := p.Output()
	i := strings.Index(out, "WARNING: DATA RACE")
	if i < 0 {
		return ""
	}
	out = out[i:]
	if k := strings.Index(out, "\n=========="); k > 0 {
		out = out[:k]
	}
	if len(out) > 5000 {
		out = out[:5000]
	}
	return out
}

func ctLog(t *pbt.T) func(path string, w http.ResponseWriter, r *http.Request) {
	bad := t.Intn(4)
	var n atomic.Int64
	return func(path string, w http.ResponseWriter, r *http.Request) {
		io.Copy(io.Discard, r.Body)
		switch k := n.Add(1); {
		case bad == 1 && k%3 == 0:
			http.Error(w, "no", 500)
		case bad == 2 && k%2 == 0:
			panic(http.ErrAbortHandler)
		default:
			io.WriteString(w, `{"sct_version":0,"id":"AAAA","timestamp":1,"extensions":"","signature":"AAAA"}`)
		}
	}
}

func c29Octo(t *pbt.T) {
	c29Server(t, newCase(t, "server", gen.TreeOpts{TAs: 3, CAs: 7, ROAs: 2, Depth: 4, Hosts: hosts}, 0))
}

// c29Many has the program fetch many RRDP repositories at once and log
// nothing: what logs are written with orders the accesses around.
func c29Many(t *pbt.T) {
	c := &octoCase{env: prog.New(t), o: drawOcto(t, "server")}
	var many []string
	for i := t.Range(6, 14); i > 0; i-- {
		many = append(many, fmt.Sprintf("m%d.example", i))
	}
	tr := gen.DrawTree(t, gen.TreeOpts{TAs: 1, CAs: 0, ROAs: 1, Depth: 1, Wide: true, Hosts: many[:1], Notify: func(h string) string {
		return c.env.URL + "/r/" + h + "/notification.xml"
	}})
	for i := range many[1:] {
		gen.AddTA(t, tr, gen.TreeOpts{ROAs: 1, Depth: 1, Wide: true, Hosts: many[i+1 : i+2], Notify: func(h string) string {
			return pbt.Pick(t, c.env.URL, c.env.URL, c.env.TLS) + "/r/" + h + "/notification.xml"
		}})
	}
	c.site = prog.NewSite(t, c.env, tr, gen.Settings{StrictManifests: true, StrictHash: true, StrictCMS: c.o.StrictCMS, Time: tr.Time}, 8)
	c29Server(t, c)
}

func c29Server(t *pbt.T, c *octoCase) {
	c.o.Refresh = time.Duration(pbt.Pick(t, 1, 20, 60)) * time.Millisecond
	c.o.Port = prog.FreePort()
	c.o.Concurrent = pbt.Pick(t, 2, 3, 4, 100)
	c.o.Wait = t.Bool()
	if t.Chance(2, 3) {
		c.o.Extra = append(c.o.Extra, "-loglevel", "error")
	}
	if t.Chance(1, 4) {
		c.o.MaxIter = t.Range(1, 4)
	}
	if t.Chance(1, 3) {
		c.site.More = ctLog(t)
		c.o.Extra = append(c.o.Extra, "-ct", "-ct.addr", c.env.URL+"/log", fmt.Sprintf("-ct.threads=%d", t.Range(1, 8)))
	}
	epochs := t.Range(1, 3)
	grow(t, c, epochs)
	c.site.SetResets(t, t.Range(0, epochs))
	drawFaults(t, c.site, false)
	paths := []string{"/output.json", "/resources.json", "/infos", "/health", "/metrics"}
	asked := make([]string, t.Range(1, 4))
	for i := range asked {
		asked[i] = pbt.Pick(t, paths...)
	}
	match := t.Bool()
	iters := t.Range(3, 8)
	p := c.env.Start("octorpki-race", c.o.Args(c.env, c.site)...)
	var stop atomic.Bool
	var ok atomic.Int64
	var wg sync.WaitGroup
	states := make([]map[string]bool, len(asked))
	for i := range asked {
		states[i] = map[string]bool{}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for k := i; !stop.Load(); k++ {
				path := asked[k%len(asked)]
				var h []string
				if match && path == "/output.json" {
					h = append(h, "If-None-Match", strings.Repeat("0", 64))
				}
				code, _, b, err := prog.Get(fmt.Sprintf("http://127.0.0.1:%d%s", c.o.Port, path), 30*time.Second, h...)
				if err != nil {
					time.Sleep(3 * time.Millisecond)
					continue
				}
				ok.Add(1)
				if len(b) > 200 {
					b = b[:200]
				}
				states[i][fmt.Sprint(path, code, string(b))] = true
			}
		}(i)
	}
	start := time.Now()
	deadline := start.Add(60 * time.Second)
	seen := 0
	late := false
	for {
		// about the number of iterations, which the log may not tell
		n := int(time.Since(start) / (80*time.Millisecond + c.o.Refresh))
		for ; seen < n; seen++ {
			if seen > 0 && seen%2 == 0 {
				c.site.Next()
			}
		}
		if n >= iters && ok.Load() > 0 || !p.Running() || race(p) != "" {
			break
		}
		if time.Now().After(deadline) {
			late = true
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	stop.Store(true)
	wg.Wait()
	running := p.Running()
	p.Kill()
	if r := race(p); r != "" {
		t.Logf("options: %v", c.o.Args(c.env, c.site))
		t.Logf("asked: %v", asked)
		t.Logf("%s", r)
		t.Failf("octorpki has a data race")
	}
	if !running {
		c.fail(t, p, "octorpki ended by itself with status %d", p.Code)
	}
	if late {
		t.Label("no reply")
	}
	different := 0
	for _, m := range states {
		different += len(m)
	}
	if different >= 2 {
		t.NonTrivial(fmt.Sprint(asked, match, c.signature(c.site.Log())))
	}
	t.Sample(fmt.Sprintf("about %d iterations, %d replies of %v, %d different", seen, ok.Load(), asked, different))
}

func c29CT(t *pbt.T) {
	e := prog.New(t)
	tr := gen.DrawTree(t, gen.TreeOpts{TAs: 1, CAs: 6, ROAs: 3, Depth: 4, Wide: true})
	tr.Build(0)
	for u, d := range tr.Files {
		e.Write("repo/"+strings.TrimPrefix(u, "rsync://"), d)
	}
	var tals []string
	for i, b := range tr.TALs {
		tals = append(tals, e.Write(fmt.Sprintf("tal/%d.tal", i), b))
	}
	var got atomic.Int64
	log := ctLog(t)
	e.HTTP = func(path string, w http.ResponseWriter, r *http.Request) {
		got.Add(1)
		log(path, w, r)
	}
	threads := pbt.Pick(t, 2, 3, 8, 50)
	args := []string{"-tal.root", strings.Join(tals, ","), "-map.dir", "rsync://=" + e.Work + "/repo/", "-ct", e.URL + "/log",
		"-ct.threads", fmt.Sprint(threads), "-ct.timeout", "5", "-valid.time", tr.Time.Format(time.RFC3339)}
	p := e.Start("ctrpki-race", args...)
	if !p.Wait(100 * time.Second) {
		p.Stacks()
		t.Logf("%s", p.Tail(3000))
		t.Failf("ctrpki has not ended after 100 s")
	}
	if r := race(p); r != "" {
		t.Logf("ctrpki %q", args)
		t.Logf("%s", r)
		t.Failf("ctrpki has a data race")
	}
	if n := got.Load(); n > 1 {
		t.NonTrivial(fmt.Sprint(threads, n, tr))
		t.Sample(fmt.Sprintf("%d requests by %d threads", n, threads))
	}
}
