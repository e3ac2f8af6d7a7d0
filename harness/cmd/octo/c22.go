//go:build go1.22

package main

import (
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/cloudflare/cfrpki/verifharness/gen"
	"github.com/cloudflare/cfrpki/verifharness/pbt"
	"github.com/cloudflare/cfrpki/verifharness/prog"
)

func propC22() pbt.Property {
	return pbt.Property{
		ID:    "C22",
		Setup: prog.Setup,
		Rule:  "a history counts when the endpoints were asked in at least two different states of the loop; signature: the sequence of iterations (stable, new repositories, payloads) and the answers",
		Assumptions: []string{
			"what iterations there were, and what they found, is inferred from the log of the fetches by the model that C19 checks",
			"the replies are attributed to states by the fetches that had begun before and after",
		},
		Suites: []pbt.Suite{
			{Name: "served", Quick: 300, Thorough: 5000, Hang: 150 * time.Second, Prop: c22Served,
				Rule: "the serving mode while publication points break, recover and grow; list, health and resources are asked all the time, and repeatedly while the harness holds back a fetch"},
			{Name: "refresh", Quick: 120, Thorough: 2500, Hang: 150 * time.Second, Prop: c22Refresh,
				Rule: "the serving mode with drawn -refresh, asked for its state all the time; no iteration begins within that time of a stable one"},
			{Name: "limit", Quick: 300, Thorough: 4000, Hang: 150 * time.Second, Prop: c22Limit,
				Rule: "one-off runs on deep chains of repositories with small iteration limits and on shallow ones; the end, its iteration and the output"},
		},
	}
}

// obs is a reply of the program.
type obs struct {
	path   string
	code   int
	body   []byte
	begun  int // fetches that had begun before the request
	logged int // fetches logged at the reply
}

type watcher struct {
	mu   sync.Mutex
	c    *octoCase
	obs  []obs
	up   atomic.Bool
	gone atomic.Bool // the harness ends the program
	lost error
}

func (w *watcher) ask(path string, held bool) int {
	begun, up := w.c.site.Logged(), w.up.Load()
	if held {
		begun++
	}
	code, _, b, err := prog.Get(fmt.Sprintf("http://127.0.0.1:%d%s", w.c.o.Port, path), 30*time.Second)
	end := w.c.site.Logged()
	w.mu.Lock()
	defer w.mu.Unlock()
	if err != nil {
		if up && !w.gone.Load() && w.lost == nil {
			w.lost = err
		}
		return 0
	}
	w.up.Store(true)
	w.obs = append(w.obs, obs{path, code, b, begun, end})
	return code
}

// grow breaks publication points for a while, so that what is below comes
// into sight later.
func grow(t *pbt.T, c *octoCase, n int) string {
	var what strings.Builder
	for i := 0; i < n; i++ {
		broken := map[*gen.CANode]string{}
		for k := t.Intn(3); k > 0; k-- {
			ca := pbt.Pick(t, c.site.Tr.CAs...)
			if i == 0 && len(c.site.Tr.TAs) > 0 && t.Chance(1, 3) {
				ca = pbt.Pick(t, c.site.Tr.TAs...).CA
			}
			how := pbt.Pick(t, "expired", "crl")
			if len(ca.Kids) > 0 && t.Bool() {
				how = "kid"
			}
			broken[ca] = how
			fmt.Fprintf(&what, "epoch %d: ca%d broken (%s); ", i, ca.ID, how)
		}
		if i > 0 {
			for k := t.Intn(3); k > 0; k-- {
				ca := pbt.Pick(t, c.site.Tr.CAs...)
				if len(ca.ROAs) > 0 && t.Bool() {
					ca.ROAs = ca.ROAs[1:]
				} else {
					c.site.Tr.DrawROA(t, gen.TreeOpts{Wide: true}, ca)
				}
			}
		}
		if c.site.AddBroken(broken).Unsure {
			t.Discard()
		}
	}
	return what.String()
}

func c22Served(t *pbt.T) {
	c := newCase(t, "server", gen.TreeOpts{TAs: 2, CAs: 7, ROAs: 2, Depth: 5}, 0)
	c.o.Refresh = time.Duration(pbt.Pick(t, 1, 20, 60)) * time.Millisecond
	c.o.Port = prog.FreePort()
	c.o.Failover = true
	c.o.Wait = !t.Chance(1, 6)
	if t.Chance(1, 4) {
		c.o.MaxIter = t.Range(1, 4)
	}
	epochs := 1
	if t.Chance(3, 4) {
		epochs = t.Range(2, 4)
		c.o.Concurrent = 1 // between two fetches the harness may change what is published
	}
	what := grow(t, c, epochs)
	c.site.SetResets(t, t.Range(0, epochs))
	if t.Chance(1, 3) {
		drawFaults(t, c.site, false)
	}
	w := &watcher{c: c}
	// what happens at the arrival of fetches
	script := make([]int, t.Range(8, 40))
	left := epochs - 1
	for i := range script {
		switch k := t.Intn(10); {
		case k < 2 && left > 0:
			script[i] = 1
			left--
		case k < 4:
			script[i] = 2 // ask while it waits
		case k == 5:
			script[i] = 3
		}
	}
	var nth atomic.Int64
	var stop atomic.Bool
	c.site.Before = func(kind byte, key string) {
		i := int(nth.Add(1)) - 1
		if i >= len(script) || stop.Load() {
			return
		}
		switch script[i] {
		case 1:
			c.site.Next()
			fallthrough
		case 2:
			for k := 0; k < 2; k++ {
				w.ask("/output.json", c.o.Concurrent == 1)
				w.ask("/health", c.o.Concurrent == 1)
			}
		case 3:
			time.Sleep(4 * time.Millisecond)
		}
	}
	p := c.env.Start("octorpki", c.o.Args(c.env, c.site)...)
	deadline := time.Now().Add(40 * time.Second)
	fail := func(f string, a ...interface{}) {
		stop.Store(true)
		t.Logf("%s", what)
		c.fail(t, p, f, a...)
	}
	ready := false
	for k := 0; ; k++ {
		code := w.ask(pbt.Pick(t, "/output.json", "/output.json", "/health", "/resources.json"), false)
		if int(nth.Load()) >= len(script) && code == 200 {
			ready = true
			break
		}
		if !p.Running() {
			fail("octorpki ended by itself with status %d", p.Code)
		}
		if time.Now().After(deadline) {
			break
		}
		time.Sleep(time.Millisecond)
	}
	stop.Store(true)
	for k := 0; k < 5; k++ {
		w.ask("/output.json", false)
		time.Sleep(time.Millisecond)
	}
	w.gone.Store(true)
	p.Kill()
	log := c.site.Log()
	if !ready {
		fail("after %d fetches and 40 s there is still no list", len(log))
	}
	if w.lost != nil {
		fail("a request failed: %v", w.lost)
	}
	its, err := c.site.Explain(c.o, log, false)
	if err != nil {
		fail("%v", err)
	}
	if len(its) > 0 && its[len(its)-1].Open {
		its = its[:len(its)-1]
	}
	var lists []map[prog.Entry]map[string]bool
	for _, it := range its {
		lists = append(lists, c.site.Want(c.o, it.Loads))
	}
	started := func(i, n int) bool { return i < len(its) && its[i].Start < n }
	states := map[string]bool{}
	var seq []string
	w.mu.Lock()
	defer w.mu.Unlock()
	for k, o := range w.obs {
		var got *prog.List
		if o.path == "/output.json" && o.code == 200 {
			if got, err = prog.ParseList(o.body); err != nil {
				fail("reply %d to %s: %v", k, o.path, err)
			}
		}
		if o.code != 200 && o.code != 503 {
			fail("reply %d to %s: status %d", k, o.path, o.code)
		}
		if o.code == 503 && (strings.Contains(string(o.body), "roas") || strings.Contains(string(o.body), "{")) {
			fail("reply %d to %s: 503 with %.100q", k, o.path, o.body)
		}
		ok := false
		var why []string
		for j := -1; j < len(its); j++ {
			if j >= 0 && its[j].End > o.logged {
				break
			}
			if started(j+2, o.begun) {
				continue
			}
			stable := j >= 0 && its[j].Stable
			wantCode := 503
			if stable || !c.o.Wait && o.path != "/health" {
				wantCode = 200
			}
			if wantCode != o.code {
				why = append(why, fmt.Sprintf("after iteration %d (of events %s) status %d", j+1, span(its, j), wantCode))
				continue
			}
			if got != nil {
				var l map[prog.Entry]map[string]bool
				if j >= 0 {
					l = lists[j]
				}
				if err := prog.Compare(got, l); err != nil {
					why = append(why, fmt.Sprintf("after iteration %d (of events %s): %v", j+1, span(its, j), err))
					continue
				}
				if got.Counts != len(got.Data) {
					fail("reply %d: counts is %d of %d", k, got.Counts, len(got.Data))
				}
			}
			ok = true
			s := fmt.Sprintf("%d%v", j, stable)
			if !states[s] {
				states[s] = true
				n := 0
				if j >= 0 {
					n = len(lists[j])
				}
				seq = append(seq, fmt.Sprintf("%v/%d/%d/%d", stable, len(states), n, o.code))
			}
			if stable && j > 0 {
				for i := 0; i < j; i++ {
					if its[i].Stable && len(its[j-1].New) > 0 {
						t.Label("again stable after growth")
						break
					}
				}
			}
			if !stable && j >= 1 {
				for i := 0; i < j; i++ {
					if its[i].Stable {
						t.Label("asked while exploring again")
						break
					}
				}
			}
			break
		}
		if !ok {
			fail("reply %d to %s (%d fetches begun before, %d logged after it): status %d, %.300q; expected one of:\n  %s", k, o.path, o.begun, o.logged, o.code, o.body, strings.Join(why, "\n  "))
		}
	}
	if len(states) >= 2 {
		t.NonTrivial(fmt.Sprint(c.o.Wait, c.o.MaxIter, seq))
	}
	if !c.o.Wait {
		t.Label("not waiting")
	}
	t.Sample(fmt.Sprintf("%d replies in %d states, %d iterations, %d epochs: %v", len(w.obs), len(states), len(its), epochs, seq))
}

func span(its []prog.Iter, j int) string {
	if j < 0 {
		return "none"
	}
	return fmt.Sprintf("%d-%d", its[j].Start, its[j].End)
}

func c22Limit(t *pbt.T) {
	var hs []string
	for i := 0; i < 12; i++ {
		hs = append(hs, fmt.Sprintf("h%d.example", i))
	}
	to := gen.TreeOpts{TAs: 1, CAs: t.Range(2, 24), ROAs: 1, Depth: 24, Hosts: hs, NoFlat: true}
	c := newCase(t, "oneoff", to, 0)
	if t.Chance(3, 4) {
		c.o.MaxIter = t.Range(1, 8)
	}
	c.o.Wait = !t.Chance(1, 4)
	c.o.Failover = true
	if t.Chance(1, 3) {
		drawFaults(t, c.site, false)
	}
	if c.site.AddEpoch().Unsure {
		t.Discard()
	}
	p, out := c.oneoff(t)
	log := c.site.Log()
	its, err := c.site.Explain(c.o, log, true)
	if err != nil {
		c.fail(t, p, "%v", err)
	}
	last := its[len(its)-1]
	if !last.Stable {
		c.fail(t, p, "the program ended after iteration %d, which found %v and was within the limit", len(its), last.New)
	}
	l, err := prog.ParseList(out)
	if err == nil {
		err = prog.Compare(l, c.site.Want(c.o, last.Loads))
	}
	if err != nil {
		c.fail(t, p, "output, of iteration %d: %v", len(its), err)
	}
	if l.Counts != len(l.Data) {
		c.fail(t, p, "counts is %d of %d", l.Counts, len(l.Data))
	}
	limited := len(last.New) > 0
	if limited {
		t.Label("ended by the limit")
	}
	if len(its) > 6 {
		t.Label("more than 6 iterations")
	}
	if len(its) >= 3 {
		t.NonTrivial(fmt.Sprintf("%d %v %d %d %v", len(its), limited, c.o.MaxIter, len(l.Data), c.signature(log)))
	}
	t.Sample(fmt.Sprintf("%d CAs, limit %d: ended after %d iterations, by the limit: %v, %d payloads", len(c.site.Tr.CAs), c.o.MaxIter, len(its), limited, len(l.Data)))
}
