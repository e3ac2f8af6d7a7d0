//go:build go1.22

// Package pbt is a small property-based testing engine.
//
// A case is a pure function of a finite sequence of choices ("choice
// sequence"): every random decision a generator makes is drawn through T, which
// records it.  Shrinking edits the recorded sequence (drops, zeroes and lowers
// choices) and re-runs the case, so any generator shrinks without extra code,
// and the shrunk sequence is the replay file.
package pbt

import (
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---- random source -------------------------------------------------------

type splitmix struct{ s uint64 }

func (r *splitmix) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// T is the handle a property uses to draw choices and to report.
type T struct {
	rng     *splitmix // nil when replaying
	prefix  []uint64  // choices to replay
	pos     int
	choices []uint64

	labels  map[string]int
	nontriv []string
	known   map[string]string
	sample  string
	// Thorough is set in the thorough tier: generators may draw larger cases.
	Thorough bool
	cleanup  []func()
	log      []string
}

type failure struct{ msg string }
type discard struct{}

const maxChoices = 1 << 20

// draw returns a value in [0,n).
func (t *T) draw(n uint64) uint64 {
	var v uint64
	if t.pos < len(t.prefix) {
		v = t.prefix[t.pos]
		if n != 0 {
			v %= n
		}
	} else if t.rng != nil {
		v = t.rng.next()
		if n != 0 {
			v %= n
		}
	} else {
		v = 0
	}
	t.pos++
	if t.pos > maxChoices {
		panic(discard{})
	}
	t.choices = append(t.choices, v)
	return v
}

// Intn draws a value in [0,n). Smaller is simpler.
func (t *T) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(t.draw(uint64(n)))
}

// Range draws a value in [lo,hi].
func (t *T) Range(lo, hi int) int { return lo + t.Intn(hi-lo+1) }

// Uint64 draws any 64-bit value, small ones with raised probability.
func (t *T) Uint64() uint64 { return t.draw(0) }

// Bool draws a fair coin; false is simpler.
func (t *T) Bool() bool { return t.Intn(2) == 1 }

// Chance is true with probability num/den; false is simpler.
func (t *T) Chance(num, den int) bool { return t.Intn(den) >= den-num }

// Bytes draws n bytes.
func (t *T) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i += 7 {
		v := t.draw(1 << 56)
		for j := i; j < n && j < i+7; j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
	return b
}

// Size draws a size in [0,max] with small sizes more likely.
func (t *T) Size(max int) int {
	if max <= 0 {
		return 0
	}
	m := max
	switch t.Intn(4) {
	case 0:
		m = max / 8
	case 1:
		m = max / 4
	case 2:
		m = max / 2
	}
	if m < 1 {
		m = 1
	}
	return t.Intn(m + 1)
}

// Pick draws one of the given values; earlier is simpler.
func Pick[V any](t *T, vs ...V) V { return vs[t.Intn(len(vs))] }

// Weighted draws an index with the given weights.
func (t *T) Weighted(ws ...int) int {
	tot := 0
	for _, w := range ws {
		tot += w
	}
	v := t.Intn(tot)
	for i, w := range ws {
		if v < w {
			return i
		}
		v -= w
	}
	return 0
}

// Perm draws a permutation of [0,n); the identity is simplest.
func (t *T) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + t.Intn(n-i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Shuffle permutes a slice in place.
func Shuffle[V any](t *T, s []V) {
	for i := 0; i < len(s)-1; i++ {
		j := i + t.Intn(len(s)-i)
		s[i], s[j] = s[j], s[i]
	}
}

// Failf ends the case as a violation.
func (t *T) Failf(format string, a ...interface{}) {
	panic(failure{fmt.Sprintf(format, a...)})
}

// Discard ends the case without a verdict.
func (t *T) Discard() { panic(discard{}) }

// Label counts an event for the distribution report.
func (t *T) Label(format string, a ...interface{}) {
	if t.labels == nil {
		t.labels = map[string]int{}
	}
	s := format
	if len(a) > 0 {
		s = fmt.Sprintf(format, a...)
	}
	t.labels[s] = 1
}

// NonTrivial marks the case as non-trivial, with a signature that tells
// distinct cases apart.
func (t *T) NonTrivial(format string, a ...interface{}) {
	t.nontriv = append(t.nontriv, fmt.Sprintf(format, a...))
}

// Sample offers a printable form of the case.
func (t *T) Sample(format string, a ...interface{}) { t.sample = fmt.Sprintf(format, a...) }

// Logf adds a line to what is shown with a failure.
func (t *T) Logf(format string, a ...interface{}) { t.log = append(t.log, fmt.Sprintf(format, a...)) }

// Known records that the case hit a listed known finding.
func (t *T) Known(key, what string) {
	if t.known == nil {
		t.known = map[string]string{}
	}
	t.known[key] = what
}

// Cleanup registers a function to run after the case.
func (t *T) Cleanup(f func()) { t.cleanup = append(t.cleanup, f) }

// ---- running -------------------------------------------------------------

// Suite is one generator plus oracle.
type Suite struct {
	Name     string
	Rule     string
	Quick    int // number of cases
	Thorough int
	Workers  int // 0: all cores
	Prop     func(*T)
	// Isolate: write each case's choices to a file before running it, so that
	// a fatal runtime error (stack overflow, ...) can be attributed.
	Isolate bool
	// Hang: a case running longer than this is a violation (0: never).
	Hang time.Duration
	// ShrinkTime bounds shrinking.
	ShrinkTime time.Duration
}

// Outcome of one case.
type Outcome struct {
	Failed    bool
	Discarded bool
	Msg       string
	Log       []string
	Choices   []uint64
	T         *T
}

// RunCase runs one case from a seed or a choice sequence.
func RunCase(prop func(*T), seed uint64, prefix []uint64, useRng, thorough bool) (out Outcome) {
	t := &T{prefix: prefix, Thorough: thorough}
	if useRng {
		t.rng = &splitmix{seed}
		t.rng.next()
	}
	out.T = t
	defer func() {
		for i := len(t.cleanup) - 1; i >= 0; i-- {
			t.cleanup[i]()
		}
	}()
	defer func() {
		out.Choices = t.choices
		out.Log = t.log
		if r := recover(); r != nil {
			switch f := r.(type) {
			case failure:
				out.Failed = true
				out.Msg = f.msg
			case discard:
				out.Discarded = true
			default:
				out.Failed = true
				st := string(debug.Stack())
				out.Msg = fmt.Sprintf("panic: %v", r)
				out.Log = append(out.Log, trimStack(st))
			}
		}
	}()
	prop(t)
	return
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	// drop the frames of the recovery itself
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") && i+2 < len(lines) {
			lines = lines[i+2:]
			break
		}
	}
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

// Stats of a suite.
type Stats struct {
	Suite       string
	Rule        string
	Evaluations int
	Discarded   int
	Distinct    int
	Labels      map[string]int
	Samples     []string
	Known       map[string]string
	first       Outcome
	Failure     *Failure
	WallS       float64
}

// Failure is a shrunk counterexample.
type Failure struct {
	Suite   string
	Case    int
	Msg     string
	Log     []string
	Choices []uint64
	Shrinks int
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func caseSeed(seed uint64, suite string, i int) uint64 {
	r := splitmix{seed*0x9e3779b97f4a7c15 ^ hash64(suite)}
	a := r.next()
	r2 := splitmix{a + uint64(i)*0xd1342543de82ef95}
	return r2.next()
}

// InFlight is called (if not nil) with worker number, case number and seed
// before each isolated case.
type InFlight func(worker, caseNo int, seed uint64, done bool)

// RunSuite runs n cases of a suite.
func RunSuite(s Suite, seed uint64, n int, thorough bool, workers int, deadline time.Time, inflight InFlight, hang func(caseNo int, seed uint64)) *Stats {
	start := time.Now()
	st := &Stats{Suite: s.Name, Rule: s.Rule, Labels: map[string]int{}, Known: map[string]string{}}
	if s.Workers > 0 && s.Workers < workers {
		workers = s.Workers
	}
	var mu sync.Mutex
	distinct := map[uint64]struct{}{}
	var next int64 = -1
	best := int64(1) << 60 // lowest failing case
	var bestOut Outcome
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				i := atomic.AddInt64(&next, 1)
				if i >= int64(n) || i > atomic.LoadInt64(&best) {
					return
				}
				if !deadline.IsZero() && i > 20 && time.Now().After(deadline) {
					return
				}
				cs := caseSeed(seed, s.Name, int(i))
				if inflight != nil {
					inflight(w, int(i), cs, false)
				}
				var timer *time.Timer
				if s.Hang > 0 && hang != nil {
					timer = time.AfterFunc(s.Hang, func() { hang(int(i), cs) })
				}
				out := RunCase(s.Prop, cs, nil, true, thorough)
				if timer != nil {
					timer.Stop()
				}
				if inflight != nil {
					inflight(w, int(i), cs, true)
				}
				mu.Lock()
				st.Evaluations++
				if out.Discarded {
					st.Discarded++
				}
				for l := range out.T.labels {
					st.Labels[l]++
				}
				for k, v := range out.T.known {
					st.Known[k] = v
				}
				for _, sig := range out.T.nontriv {
					distinct[hash64(sig)] = struct{}{}
				}
				if len(out.T.nontriv) > 0 && out.T.sample != "" && len(st.Samples) < 4 && i < 64 {
					smp := out.T.sample
					if len(smp) > 1500 {
						smp = smp[:1500] + "..."
					}
					st.Samples = append(st.Samples, smp)
				}
				if out.Failed && i < best {
					atomic.StoreInt64(&best, i)
					bestOut = out
				}
				mu.Unlock()
			}
		}(w)
	}
	wg.Wait()
	sort.Strings(st.Samples)
	st.Distinct = len(distinct)
	if best < int64(1)<<60 {
		st.Failure = &Failure{Suite: s.Name, Case: int(best), Msg: bestOut.Msg, Log: bestOut.Log, Choices: bestOut.Choices}
		st.first = bestOut
	}
	st.WallS = time.Since(start).Seconds()
	return st
}

// ShrinkFailure makes the failure of a suite smaller.
func ShrinkFailure(s Suite, st *Stats, thorough bool) {
	lim := s.ShrinkTime
	if lim == 0 {
		lim = 20 * time.Second
	}
	if os.Getenv("VERIF_NOSHRINK") != "" {
		lim = 0
	}
	f := st.Failure
	f.Choices, f.Msg, f.Log, f.Shrinks = Shrink(s.Prop, st.first, thorough, lim)
}

// Shrink minimises the choice sequence of a failing case.
func Shrink(prop func(*T), first Outcome, thorough bool, limit time.Duration) ([]uint64, string, []string, int) {
	best := append([]uint64(nil), first.Choices...)
	msg, lg := first.Msg, first.Log
	end := time.Now().Add(limit)
	tries := 0
	hung := false
	try := func(c []uint64) bool {
		if hung || time.Now().After(end) {
			return false
		}
		tries++
		// a simpler case may be one that does not end: it is left behind
		ch := make(chan Outcome, 1)
		go func() { ch <- RunCase(prop, 0, c, false, thorough) }()
		var out Outcome
		select {
		case out = <-ch:
		case <-time.After(time.Until(end) + 30*time.Second):
			hung = true
		}
		if hung || !out.Failed {
			return false
		}
		oc := out.Choices
		// trailing zeroes are implied
		for len(oc) > 0 && oc[len(oc)-1] == 0 {
			oc = oc[:len(oc)-1]
		}
		if !simpler(oc, best) {
			return false
		}
		best = append([]uint64(nil), oc...)
		msg, lg = out.Msg, out.Log
		return true
	}
	for {
		before := append([]uint64(nil), best...)
		// delete blocks
		for size := len(best) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best); {
				c := append(append([]uint64(nil), best[:i]...), best[i+size:]...)
				if !try(c) {
					i += size
				}
				if time.Now().After(end) {
					break
				}
			}
		}
		// zero blocks
		for size := len(best) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best); i += size {
				allz := true
				for _, v := range best[i : i+size] {
					if v != 0 {
						allz = false
					}
				}
				if allz {
					continue
				}
				c := append([]uint64(nil), best...)
				for j := i; j < i+size; j++ {
					c[j] = 0
				}
				try(c)
			}
		}
		// lower single values
		for i := 0; i < len(best); i++ {
			if best[i] == 0 {
				continue
			}
			lo, hi := uint64(0), best[i]
			for lo < hi && i < len(best) {
				mid := lo + (hi-lo)/2
				c := append([]uint64(nil), best...)
				c[i] = mid
				if try(c) {
					if i >= len(best) {
						break
					}
					hi = best[i]
				} else {
					lo = mid + 1
				}
				if time.Now().After(end) {
					break
				}
			}
		}
		if time.Now().After(end) || equal(before, best) {
			break
		}
	}
	return best, msg, lg, tries
}

func equal(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func simpler(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}
