//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"time"

	"github.com/cloudflare/cfrpki/verifharness/gen"
	"github.com/cloudflare/cfrpki/verifharness/pbt"
	"github.com/cloudflare/cfrpki/verifharness/prog"
)

// c22Refresh looks at when validations begin. The bounds hold however slow
// the machine is: what is stable became so after the last time it was seen
// not to be, and the next iteration had begun when its number is seen.
func c22Refresh(t *pbt.T) {
	var hs []string
	for i := 0; i < 8; i++ {
		hs = append(hs, fmt.Sprintf("h%d.example", i))
	}
	c := newCase(t, "server", gen.TreeOpts{TAs: 1, CAs: t.Range(1, 8), ROAs: 1, Depth: 8, Hosts: hs, NoFlat: true}, 0)
	c.o.Failover = true
	c.o.Port = prog.FreePort()
	c.o.Wait = t.Chance(3, 4)
	c.o.Refresh = time.Duration(t.Range(80, 400)) * time.Millisecond
	later := t.Bool()
	if later { // what is below a point comes into sight after a while
		if c.site.AddBroken(map[*gen.CANode]string{pbt.Pick(t, c.site.Tr.CAs[:t.Range(1, len(c.site.Tr.CAs))]...): "expired"}).Unsure {
			t.Discard()
		}
	}
	if c.site.AddEpoch().Unsure {
		t.Discard()
	}
	p := c.env.Start("octorpki", c.o.Args(c.env, c.site)...)
	type info struct {
		Stable    bool `json:"stable"`
		Iteration int  `json:"iteration"`
	}
	url := fmt.Sprintf("http://127.0.0.1:%d/infos", c.o.Port)
	var unstable time.Time // it was not stable yet at this time
	began := time.Now()
	unstable = began
	seen, stable, pauses := 0, 0, 0 // the iteration, and how often it was seen to be stable
	rounds := t.Range(2, 4)
	prev := began
	var gaps []string
	for pauses < rounds {
		if !p.Running() {
			c.fail(t, p, "octorpki ended by itself with status %d", p.Code)
		}
		if time.Since(began) > 60*time.Second {
			c.fail(t, p, "after 60 s, with -refresh %v, there were %d pauses, and the iteration is %d", c.o.Refresh, pauses, seen)
		}
		asked := time.Now()
		code, _, b, err := prog.Get(url, 20*time.Second)
		if err != nil || code != 200 {
			time.Sleep(time.Millisecond) // it may be stable before it answers
			continue
		}
		var x info
		if err := json.Unmarshal(b, &x); err != nil {
			c.fail(t, p, "/infos: %v: %q", err, b)
		}
		now := time.Now()
		if x.Iteration < seen {
			c.fail(t, p, "/infos shows iteration %d after %d", x.Iteration, seen)
		}
		if x.Iteration > seen {
			// Stable is read before the iteration: one reply may show the
			// state of the iteration before, two cannot.
			if stable > 1 {
				gap := now.Sub(unstable)
				if gap < c.o.Refresh {
					c.fail(t, p, "iteration %d had begun %v after iteration %d was not stable yet, with -refresh %v", x.Iteration, gap, seen, c.o.Refresh)
				}
				gaps = append(gaps, gap.Round(10*time.Millisecond).String())
				pauses++
				c.site.Next()
			}
			seen, stable = x.Iteration, 0
		}
		if x.Stable {
			if stable == 0 {
				unstable = prev
			}
			stable++
		} else {
			stable = 0
		}
		prev = asked
		time.Sleep(time.Millisecond)
	}
	p.Kill()
	log := c.site.Log()
	its, err := c.site.Explain(c.o, log, false)
	if err != nil {
		c.fail(t, p, "%v", err)
	}
	// fetches of trust anchors by rsync may be attributed to the wrong one of
	// two iterations
	ta := map[string]bool{}
	for _, l := range c.site.TALs {
		for _, u := range l.URIs {
			ta[u] = true
		}
	}
	for i := 0; i+1 < len(its); i++ {
		if !its[i].Stable {
			continue
		}
		var from, to *prog.Event
		for k := its[i].Start; k < its[i].End; k++ {
			if !ta[log[k].Key] {
				from = &log[k]
			}
		}
		for k := its[i+1].Start; k < len(log) && to == nil && (its[i+1].Open || k < its[i+1].End); k++ {
			if !ta[log[k].Key] {
				to = &log[k]
			}
		}
		if from == nil || to == nil {
			continue
		}
		if gap := to.At.Sub(from.At); gap < c.o.Refresh {
			c.fail(t, p, "the first fetch of iteration %d was %v after the last one of iteration %d, after which it is stable, with -refresh %v", i+2, gap, i+1, c.o.Refresh)
		}
		t.Label("pause between fetches")
	}
	t.NonTrivial("%d %v %d", c.o.Refresh/(20*time.Millisecond), c.o.Wait, seen)
	t.Sample(fmt.Sprintf("-refresh %v, %d iterations; %v", c.o.Refresh, seen, gaps))
}
