//go:build go1.22

package prog

import (
	"encoding/json"
	"fmt"
	"net/netip"
	"sort"
	"strings"

	"github.com/cloudflare/cfrpki/verifharness/gen"
)

// Iter is an iteration of octorpki's loop, as the model explains it.
type Iter struct {
	Start, End int // events
	Stable     bool
	New        []string // repositories seen for the first time
	Loads      []gen.Payload
	Open       bool // the log ends in it
}

type state struct {
	known  map[string]bool
	jobs   map[string]map[string]bool
	taJobs map[*TAL]bool
	ta     map[*TAL]string // "", good, bad
	need   map[*TAL]bool
	avail  map[*gen.CANode]int
	prev   map[string]bool
}

// alive tells whether the certificate of a CA is valid with what has been
// fetched.
func (s *Site) alive(st *state, c *gen.CANode) bool {
	if c.Parent == nil {
		for _, l := range s.TALs {
			if l.TA.CA == c {
				return st.ta[l] == "good" && s.Epochs[0].Alive[c]
			}
		}
		return false
	}
	if !s.alive(st, c.Parent) {
		return false
	}
	e, ok := st.avail[c.Parent]
	return ok && !s.Epochs[e].Broken[c.Parent] && s.Epochs[e].Kids[c.Parent][c] && s.Epochs[e].Alive[c]
}

// notify is the notification URL that the certificate of a CA names which has
// been fetched.
func (s *Site) notify(st *state, c *gen.CANode) string {
	if c.Parent == nil {
		return s.Epochs[0].Notify[c]
	}
	return s.Epochs[st.avail[c.Parent]].Notify[c]
}

func (s *Site) loads(st *state) []gen.Payload {
	var l []gen.Payload
	for _, c := range s.Tr.CAs {
		if e, ok := st.avail[c]; ok && !s.Epochs[e].Broken[c] && s.alive(st, c) {
			l = append(l, s.Epochs[e].Loads[c]...)
		}
	}
	return l
}

// Keep makes Explain begin with the cache that the last run left.
func (s *Site) Keep() { s.init = s.final }

// Explain divides a log into iterations and says what each had to fetch, and
// what it had to output. ended: the program has come to its end by itself.
func (s *Site) Explain(o Octo, log []Event, ended bool) ([]Iter, error) {
	st := &state{known: map[string]bool{}, jobs: map[string]map[string]bool{}, taJobs: map[*TAL]bool{}, ta: map[*TAL]string{}, need: map[*TAL]bool{}, avail: map[*gen.CANode]int{}, prev: map[string]bool{}}
	if s.init != nil {
		for c, e := range s.init.avail {
			st.avail[c] = e
		}
		for l, v := range s.init.ta {
			st.ta[l] = v
		}
	}
	s.final = st
	var out []Iter
	pos, since := 0, 0
	for n := 1; ; n++ {
		since++
		it := Iter{Start: pos}
		if n > 2 && pos < len(log) && pos == out[len(out)-1].Start {
			return out, fmt.Errorf("iteration %d (from event %d): %s, which was to be fetched by RRDP or not at all", n-1, pos, log[pos])
		}
		if n > 1 && pos >= len(log) {
			if !ended || out[len(out)-1].Stable {
				return out, nil
			}
			if n > 200 {
				return out, nil
			}
		}
		where := fmt.Sprintf("iteration %d (from event %d)", n, pos)
		// RRDP
		if o.RRDP {
			got := map[string]bool{}
			for len(got) < len(st.known) {
				if pos >= len(log) {
					if ended {
						return out, fmt.Errorf("%s: the program ended although %s had not been fetched by RRDP", where, left(st.known, got))
					}
					it.Open = true
					return append(out, it), nil
				}
				e := log[pos]
				if e.Kind != 'n' || !st.known[e.Key] || got[e.Key] {
					return out, fmt.Errorf("%s: %s has not been fetched by RRDP; instead: %s", where, left(st.known, got), e)
				}
				got[e.Key] = true
				pos++
				if e.OK {
					for _, r := range s.Repos[e.Key].CAs {
						for _, c := range s.Tr.CAs {
							if c.Dir == r.Dir {
								st.avail[c] = e.Epoch
							}
						}
					}
				}
				if e.OK || !o.Failover {
					for m, us := range st.jobs {
						delete(us, e.Key)
						if len(us) == 0 {
							delete(st.jobs, m)
						}
					}
				}
			}
		}
		if n > 1 && pos < len(log) && log[pos].Kind == 'n' && (len(st.known) == 0 || !o.RRDP) {
			return out, fmt.Errorf("%s: %s, which no valid certificate announces", where, log[pos])
		}
		// trust anchor certificates
		got := map[*TAL]bool{}
		for l := range st.need {
			if l.hasHTTP() {
				continue // the others leave nothing in the log
			}
			got[l] = true
			if o.Failover && l.Rsync() != "" {
				st.taJobs[l] = true
			}
		}
		for len(got) < len(st.need) {
			if pos >= len(log) && !ended {
				it.Open = true
				return append(out, it), nil
			}
			if pos >= len(log) || log[pos].Kind != 't' {
				return out, fmt.Errorf("%s: the certificate of a trust anchor that has none was not fetched (%s)", where, at(log, pos))
			}
			var l *TAL
			for x := range st.need {
				for _, u := range x.URIs {
					if u == log[pos].Key {
						l = x
					}
				}
			}
			if l == nil || got[l] {
				return out, fmt.Errorf("%s: %s, which is not needed", where, log[pos])
			}
			got[l] = true
			ok := false
			for _, u := range l.URIs {
				if !strings.HasPrefix(u, "http") {
					continue
				}
				if pos >= len(log) && !ended {
					it.Open = true
					return append(out, it), nil
				}
				if pos >= len(log) || log[pos].Key != u {
					return out, fmt.Errorf("%s: trust anchor certificate %s was not fetched in its turn (%s)", where, u, at(log, pos))
				}
				e := log[pos]
				pos++
				if e.OK {
					st.ta[l] = "good"
					if e.Bad {
						st.ta[l] = "bad"
					}
					ok = true
					break
				}
			}
			if !ok && o.Failover && l.Rsync() != "" {
				st.taJobs[l] = true
			}
		}
		// rsync
		req, may := map[string]bool{}, map[string]bool{}
		for m := range st.jobs {
			req[m] = true
		}
		for l := range st.taJobs {
			if st.need[l] {
				req[l.Rsync()] = true
			} else {
				may[l.Rsync()] = true
			}
		}
		done := map[string]bool{}
		for pos < len(log) && log[pos].Kind == 'r' {
			e := log[pos]
			if done[e.Key] || !req[e.Key] && !may[e.Key] {
				break // it belongs to the next iteration, or is a violation there
			}
			done[e.Key] = true
			pos++
			if !e.OK {
				continue
			}
			for l := range st.taJobs {
				if l.Rsync() == e.Key {
					st.ta[l] = "good"
				}
			}
			for _, c := range s.Tr.CAs {
				if Module(c.Dir) == e.Key {
					st.avail[c] = e.Epoch
				}
			}
		}
		for r := range req {
			if !done[r] {
				if pos >= len(log) && !ended {
					it.Open = true
					return append(out, it), nil
				}
				return out, fmt.Errorf("%s: %s has not been fetched by rsync (%s)", where, r, at(log, pos))
			}
		}
		it.End = pos
		// validation
		st.need = map[*TAL]bool{}
		for _, l := range s.TALs {
			if !s.alive(st, l.TA.CA) {
				st.need[l] = true
			}
		}
		mods := map[string]map[string]bool{}
		for _, c := range s.Tr.CAs {
			if !s.alive(st, c) {
				continue
			}
			m := Module(c.Dir)
			if mods[m] == nil {
				mods[m] = map[string]bool{}
			}
			notify := s.notify(st, c)
			mods[m][notify] = true
			reps := []string{m}
			if notify != "" {
				st.known[notify] = true
			}
			if o.RRDP {
				reps = append(reps, m+" "+notify)
			}
			for _, r := range reps {
				if !st.prev[r] {
					st.prev[r] = true
					it.New = append(it.New, r)
				}
			}
		}
		for m, us := range mods {
			st.jobs[m] = us
		}
		it.Stable = len(it.New) == 0 && n > 1
		max := o.MaxIter
		if max == 0 {
			max = 32
		}
		if since > max {
			it.Stable = true
		}
		if it.Stable {
			since = 0
		}
		it.Loads = s.loads(st)
		out = append(out, it)
	}
}

func (l *TAL) hasHTTP() bool {
	for _, u := range l.URIs {
		if strings.HasPrefix(u, "http") {
			return true
		}
	}
	return false
}

func at(log []Event, pos int) string {
	if pos >= len(log) {
		return "end of the log"
	}
	return "instead: " + log[pos].String()
}

func left(a, b map[string]bool) string {
	var l []string
	for k := range a {
		if !b[k] {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

// Entry of a list, as programs write it.
type Entry struct {
	AS     string
	Prefix netip.Prefix
	MaxLen int
}

func (e Entry) String() string { return fmt.Sprintf("%s %s-%d", e.AS, e.Prefix, e.MaxLen) }

// List is a payload list as programs write it.
type List struct {
	Counts, Generated, Valid int
	Signature, SignatureDate string
	Data                     []Entry
	TA                       []string
	Text                     []string // prefixes as written
}

// ParseList reads a list, strictly.
func ParseList(b []byte) (*List, error) {
	var j struct {
		Metadata struct {
			Counts        int    `json:"counts"`
			Generated     int    `json:"generated"`
			Valid         int    `json:"valid"`
			Signature     string `json:"signature"`
			SignatureDate string `json:"signatureDate"`
		} `json:"metadata"`
		Roas []struct {
			Prefix string      `json:"prefix"`
			Max    int         `json:"maxLength"`
			ASN    interface{} `json:"asn"`
			TA     string      `json:"ta"`
		} `json:"roas"`
	}
	if err := json.Unmarshal(b, &j); err != nil {
		return nil, err
	}
	if !strings.Contains(string(b), "\"roas\":[") {
		return nil, fmt.Errorf("there is no list in %.80q", b)
	}
	l := &List{Counts: j.Metadata.Counts, Generated: j.Metadata.Generated, Valid: j.Metadata.Valid, Signature: j.Metadata.Signature, SignatureDate: j.Metadata.SignatureDate}
	for _, r := range j.Roas {
		p, err := netip.ParsePrefix(r.Prefix)
		if err != nil {
			return nil, err
		}
		as, ok := r.ASN.(string)
		if !ok {
			return nil, fmt.Errorf("asn is %v", r.ASN)
		}
		l.Data = append(l.Data, Entry{as, p, r.Max})
		l.TA = append(l.TA, r.TA)
		l.Text = append(l.Text, r.Prefix)
	}
	return l, nil
}

// NameOf is the name of a TAL in what octorpki writes.
func (s *Site) NameOf(o Octo, i int) string {
	switch {
	case o.Names == nil:
		return fmt.Sprintf("ta%d", i)
	case len(o.Names) == len(s.TALs):
		return o.Names[i]
	}
	return s.TALs[i].File
}

// Object is something octorpki holds valid after an iteration.
type Object struct {
	Kind  string // certificate, roa, manifest
	URI   string
	Data  []byte
	TAL   int
	V     gen.Tri
	CA    *gen.CANode // of the certificate, or the issuer
	Here  *ROAHere
	Names []string
	Cert  gen.Cert
}

// Objects lists what there is after the last iteration that Explain found.
func (s *Site) Objects() []Object {
	var l []Object
	st := s.final
	for i, tal := range s.TALs {
		for _, c := range s.Tr.CAs {
			if c.TA != tal.TA || !s.alive(st, c) {
				continue
			}
			o := Object{Kind: "certificate", TAL: i, CA: c, V: gen.Yes, Cert: c.CertOf(0)}
			if c.Parent == nil {
				o.URI = tal.Place()
				o.Data = s.Epochs[0].Files[tal.TA.URI]
			} else {
				o.URI = c.Parent.Dir + c.File.Name
				o.Data = s.Epochs[st.avail[c.Parent]].Files[o.URI]
			}
			n, ok := st.avail[c]
			if !ok || s.Epochs[n].Broken[c] {
				o.V = gen.Maybe
			} else if v := s.Epochs[n].Point[c]; v != gen.Yes {
				o.V = gen.Maybe
			}
			l = append(l, o)
			if !ok || o.V == gen.Maybe {
				if ok {
					// what it says is not in force, however it is shown
					ep := s.Epochs[n]
					l = append(l, Object{Kind: "manifest", URI: c.Dir + c.MftName, Data: ep.Files[c.Dir+c.MftName], TAL: i, CA: c, V: gen.Maybe, Names: ep.Names[c], Cert: c.MftCertOf()})
				}
				continue
			}
			ep := s.Epochs[n]
			l = append(l, Object{Kind: "manifest", URI: c.Dir + c.MftName, Data: ep.Files[c.Dir+c.MftName], TAL: i, CA: c, V: gen.Yes, Names: ep.Names[c], Cert: c.MftCertOf()})
			for k := range ep.ROAs[c] {
				h := &ep.ROAs[c][k]
				if h.V == gen.No || h.Obj.Opaque != nil {
					continue
				}
				u := c.Dir + h.Name
				l = append(l, Object{Kind: "roa", URI: u, Data: ep.Files[u], TAL: i, CA: c, V: h.V, Here: h, Cert: h.Obj.CertOf()})
			}
		}
	}
	return l
}

// Alive lists the CAs whose certificates are valid after the last iteration
// that Explain found.
func (s *Site) Alive() []*gen.CANode {
	var l []*gen.CANode
	for _, c := range s.Tr.CAs {
		if s.alive(s.final, c) {
			l = append(l, c)
		}
	}
	return l
}

// EntryOf formats a payload of the model.
func EntryOf(v gen.VRP) Entry {
	return Entry{fmt.Sprintf("AS%d", v.AS), netip.PrefixFrom(gen.Addr(v.P.F, v.P.A), v.P.Plen), v.MaxLen}
}

// Want is the list to be output for payloads: entry → names of trust anchors.
func (s *Site) Want(o Octo, ps []gen.Payload) map[Entry]map[string]bool {
	m := map[Entry]map[string]bool{}
	for _, p := range ps {
		if o.Filter && (p.P.F == 1 && p.P.Plen > 24 || p.P.F == 2 && p.P.Plen > 48) {
			continue
		}
		e := EntryOf(p.VRP)
		if m[e] == nil {
			m[e] = map[string]bool{}
		}
		for i, l := range s.TALs {
			if l.TA == p.ROA.CA.TA {
				m[e][s.NameOf(o, i)] = true
			}
		}
	}
	return m
}

// Compare a list with what is wanted.
func Compare(l *List, want map[Entry]map[string]bool) error { return CompareWithin(l, want, want) }

// CompareWithin compares a list with what must and what may be in it.
func CompareWithin(l *List, want, may map[Entry]map[string]bool) error {
	got := map[Entry]bool{}
	for i, e := range l.Data {
		if got[e] {
			return fmt.Errorf("%s is listed twice", e)
		}
		got[e] = true
		ta, ok := may[e]
		if !ok {
			return fmt.Errorf("%s is listed, which is not a payload", e)
		}
		if !ta[l.TA[i]] {
			return fmt.Errorf("%s has trust anchor %q", e, l.TA[i])
		}
	}
	var miss []string
	for e := range want {
		if !got[e] {
			miss = append(miss, e.String())
		}
	}
	if miss != nil {
		sort.Strings(miss)
		return fmt.Errorf("%s (of %d) is not listed", miss[0], len(miss))
	}
	return nil
}
