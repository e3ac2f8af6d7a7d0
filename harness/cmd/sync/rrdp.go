//go:build go1.22

package main

import (
	"bytes"
	"errors"
	"fmt"
	"sort"
	"strings"

	syncpki "github.com/cloudflare/cfrpki/sync/lib"

	"github.com/cloudflare/cfrpki/verifharness/pbt"
)

// client is the local copy and its position.
type client struct {
	t       *pbt.T
	srv     *server
	sys     *syncpki.RRDPSystem
	session string
	serial  int64
	copy    map[string][]byte
	partial bool // the last update was interrupted

	// of the current fetch
	notify   string            // the notification served
	over     map[string]string // documents served instead of the honest ones
	fail     map[string]bool   // requests that fail
	failAt   int               // the event whose callback fails, -1 for none
	requests []string
	events   []event
	fresh    map[string][]byte // what the snapshot published
}

type event struct {
	uri                string
	data               []byte
	withdraw, snapshot bool
	serial             int64
}

var errInjected = errors.New("injected failure")

func (c *client) GetXML(url string) (string, error) {
	c.requests = append(c.requests, url)
	if c.fail[url] {
		return "", errInjected
	}
	if url == notifyURL {
		return c.notify, nil
	}
	if d, ok := c.over[url]; ok {
		return d, nil
	}
	if d, ok := c.srv.docs[url]; ok {
		return d, nil
	}
	return "", fmt.Errorf("%s: status is 404", url)
}

func (c *client) callback(main, url, path string, data []byte, withdraw, snapshot bool, serial int64, args ...interface{}) error {
	if main != notifyURL {
		c.t.Failf("an event names %q as its source", main)
	}
	if len(args) != 2 || args[0] != "arg" || args[1] != 7 {
		c.t.Failf("the arguments of the callback are %v", args)
	}
	if len(c.events) == c.failAt {
		c.events = append(c.events, event{})
		return errInjected
	}
	c.events = append(c.events, event{path, append([]byte(nil), data...), withdraw, snapshot, serial})
	if withdraw {
		delete(c.copy, path)
		delete(c.fresh, path)
		return nil
	}
	c.copy[path] = append([]byte(nil), data...)
	if snapshot {
		c.fresh[path] = c.copy[path]
	}
	return nil
}

// fetch runs one update; a success makes the snapshot, if one was used, the copy.
func (c *client) fetch() error {
	t := c.t
	c.requests, c.events, c.fresh = nil, nil, map[string][]byte{}
	if c.sys == nil || t.Bool() { // a new process knows the position only
		c.sys = &syncpki.RRDPSystem{Path: notifyURL, Fetcher: c, Callback: c.callback, SessionID: c.session, Serial: c.serial}
	}
	err := c.sys.FetchRRDP("arg", 7)
	if err == nil && c.snapshotUsed() {
		c.copy = c.fresh
	}
	return err
}

func (c *client) snapshotUsed() bool {
	for _, r := range c.requests {
		if strings.HasSuffix(r, "/snapshot.xml") {
			return true
		}
	}
	return false
}

func sameFiles(a, b map[string][]byte) string {
	var l []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			l = append(l, k+" should not be there")
		} else if !bytes.Equal(v, w) {
			l = append(l, fmt.Sprintf("%s holds %x, want %x", k, v, w))
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			l = append(l, k+" is missing")
		}
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

// truth is the server's state at a position of its history.
func (s *server) truth(id string, serial int64) (map[string][]byte, bool) {
	for _, x := range s.sessions {
		if x.id == id {
			st := x.at(serial)
			return st, st != nil
		}
	}
	return nil, false
}

// deltaPath tells whether an honest notification brings the client up to date
// through deltas.
func (c *client) deltaPath(n *note) bool {
	if c.serial == 0 || c.session != n.ses.id || c.serial > n.serial {
		return false
	}
	for i := c.serial + 1; i <= n.serial; i++ {
		if !n.has(i) {
			return false
		}
	}
	return true
}

// checkPosition: after a failure the position is the old one, or that of a
// delta that was applied completely.
func (c *client) checkPosition(hist []string) {
	id, n := c.sys.SessionID, c.sys.Serial
	if id == c.session && n == c.serial {
		return
	}
	t := c.t
	if id != c.session || n < c.serial {
		t.Failf("%s: a failed fetch moved the position from %s/%d to %s/%d", strings.Join(hist, ", "), c.session, c.serial, id, n)
	}
	st, ok := c.srv.truth(id, n)
	if !ok {
		t.Failf("%s: a failed fetch moved the position from %d to %d, which never existed", strings.Join(hist, ", "), c.serial, n)
	}
	if d := sameFiles(c.copy, st); d != "" && !c.snapshotUsed() {
		t.Failf("%s: a failed fetch moved the position from %d to %d, but %s", strings.Join(hist, ", "), c.serial, n, d)
	}
}

func newClient(t *pbt.T, srv *server) *client {
	return &client{t: t, srv: srv, copy: map[string][]byte{}, failAt: -1}
}

// step lets the server go on.
func (s *server) step(hist *[]string) {
	t := s.t
	if t.Chance(1, 8) {
		s.reset()
		*hist = append(*hist, fmt.Sprintf("session %s from %d", s.cur().id, s.cur().first))
	} else if n := t.Intn(4); n > 0 {
		for i := 0; i < n; i++ {
			s.advance()
		}
		*hist = append(*hist, fmt.Sprintf("serial %d", s.cur().last()))
	}
	s.window = t.Size(8)
	s.gap = t.Chance(1, 8)
}

// honest is a fetch with honest documents, possibly interrupted.
func (c *client) honest(n *note, interrupt bool, hist *[]string) {
	t := c.t
	c.notify, c.over, c.fail, c.failAt = n.xml(), nil, map[string]bool{}, -1
	if interrupt {
		switch t.Intn(3) {
		case 0:
			urls := []string{notifyURL, n.snap[0]}
			for _, d := range n.deltas {
				urls = append(urls, d.url)
			}
			u := pbt.Pick(t, urls...)
			c.fail[u] = true
			*hist = append(*hist, "fetch where "+u[strings.LastIndex(u[:len(u)-13], "/")+1:]+" fails")
		case 1:
			c.failAt = t.Intn(8)
			*hist = append(*hist, fmt.Sprintf("fetch whose event %d fails", c.failAt))
		default:
			c.failAt = t.Intn(3)
			*hist = append(*hist, fmt.Sprintf("fetch whose event %d fails", c.failAt))
		}
	} else {
		*hist = append(*hist, fmt.Sprintf("fetch at %s/%d with %d deltas", n.id, n.serial, len(n.deltas)))
	}
	h := strings.Join(*hist, ", ")
	current := c.session == n.ses.id && c.serial == n.serial
	viaDeltas := c.deltaPath(n)
	err := c.fetch()
	hit := c.failAt >= 0 && len(c.events) > c.failAt
	for _, r := range c.requests {
		hit = hit || c.fail[r]
	}
	if err == nil && c.failAt >= 0 && len(c.events) > c.failAt {
		t.Failf("%s: success is reported although a file could not be stored", h)
	}
	if err != nil {
		if !hit {
			t.Failf("%s: fails: %v", h, err)
		}
		c.checkPosition(*hist)
		c.session, c.serial = c.sys.SessionID, c.sys.Serial
		c.partial = true
		t.Label("interrupted")
		return
	}
	if c.sys.SessionID != n.ses.id || c.sys.Serial != n.serial {
		t.Failf("%s: the position is %s/%d, want %s/%d", h, c.sys.SessionID, c.sys.Serial, n.ses.id, n.serial)
	}
	if d := sameFiles(c.copy, n.ses.at(n.serial)); d != "" {
		t.Failf("%s: the local copy differs from the server's files: %s", h, d)
	}
	c.partial = false
	seen := map[string]int{}
	var nodes []string
	for _, r := range c.requests {
		seen[r]++
		if r != notifyURL {
			nodes = append(nodes, r)
		}
	}
	switch {
	case hit: // recovered in some way
	case current:
		if len(c.events) > 0 || len(nodes) > 0 {
			t.Failf("%s: %d events and requests %v although the client is up to date", h, len(c.events), nodes)
		}
		t.Label("current")
	case viaDeltas:
		var want []string
		k := 0
		for i := c.serial + 1; i <= n.serial; i++ {
			want = append(want, deltaURL(n.ses, i))
			d := n.ses.deltas[i-n.ses.first]
			for j := 0; j < len(d); j++ {
				if k >= len(c.events) {
					t.Failf("%s: only %d events", h, len(c.events))
				}
				e := c.events[k]
				k++
				if e.snapshot || e.serial != i {
					t.Failf("%s: event %d is labelled serial %d, snapshot %v, want serial %d", h, k, e.serial, e.snapshot, i)
				}
			}
		}
		if k != len(c.events) {
			t.Failf("%s: %d events, want %d", h, len(c.events), k)
		}
		if strings.Join(nodes, " ") != strings.Join(want, " ") {
			t.Failf("%s: requests %v, want %v", h, nodes, want)
		}
		t.Label("deltas")
		if len(want) > 1 {
			t.Label("deltas, several")
		}
	default:
		if len(nodes) != 1 || nodes[0] != n.snap[0] {
			t.Failf("%s: requests %v, want the snapshot", h, nodes)
		}
		for _, e := range c.events {
			if !e.snapshot || e.withdraw || e.serial != n.serial {
				t.Failf("%s: event of %s is labelled serial %d, snapshot %v, withdraw %v", h, e.uri, e.serial, e.snapshot, e.withdraw)
			}
		}
		t.Label("snapshot")
	}
	c.session, c.serial = c.sys.SessionID, c.sys.Serial
}

// follow is a client following a server through any history.
func follow(t *pbt.T) {
	srv := newServer(t)
	c := newClient(t, srv)
	hist := []string{fmt.Sprintf("session %s from %d", srv.cur().id, srv.cur().first)}
	for i := t.Range(1, 8); i > 0; i-- {
		srv.step(&hist)
		ses := srv.cur()
		serial := ses.last()
		back := t.Chance(1, 10) && serial > ses.first && !c.partial
		if back { // an older state comes back
			serial = ses.first + int64(t.Intn(int(serial-ses.first)))
		}
		c.honest(srv.note(ses, serial), t.Chance(1, 3) && !back, &hist)
	}
	c.honest(srv.note(srv.cur(), srv.cur().last()), false, &hist)
	t.NonTrivial("%s", strings.Join(hist, ", "))
	t.Sample("%s", strings.Join(hist, ", "))
}

// corruption changes one document, or the notification, of a fetch. It
// returns a description, and whether what is served is no notification.
func (c *client) corrupt(n *note) (string, bool) {
	t := c.t
	c.over, c.fail, c.failAt = map[string]string{}, map[string]bool{}, -1
	junk := func(doc string) (string, string) {
		switch t.Intn(12) {
		case 0:
			return "", "empty"
		case 1:
			k := t.Intn(len(strings.TrimSpace(doc)))
			return doc[:k], fmt.Sprintf("cut to %d bytes of %d", k, len(doc))
		case 2:
			return "<html><body>404</body></html>", "an HTML page"
		case 3:
			return string(t.Bytes(t.Range(1, 50))), "random bytes"
		case 4:
			return doc + pbt.Pick(t, "<publish/>", "garbage", doc), "followed by more"
		case 5:
			return "<x>" + strings.TrimPrefix(doc[strings.Index(doc, "<"):], "") + "</x>", "inside another element"
		case 6:
			i := strings.Index(doc, `serial="`)
			return doc[:i] + `serial="x` + doc[i+8:], "with a serial that is no number"
		case 7:
			i := strings.LastIndex(doc, "</")
			return doc[:i] + "</x>", "with the wrong end tag"
		case 8:
			return strings.Replace(strings.Replace(doc, "<snapshot", "<snapshut", 1), "</snapshot", "</snapshut", 1), "of an unknown kind"
		case 9:
			return "{\"error\": \"busy\"}", "JSON"
		case 10:
			return " \n", "blank"
		default:
			i := strings.Index(doc, "xmlns=") // inside the root element's tag
			return doc[t.Range(i-3, len(doc)-1):], "without its beginning"
		}
	}
	if t.Chance(2, 5) { // the notification itself
		switch k := t.Intn(8); k {
		case 0, 1:
			doc := n.xml()
			x, what := junk(doc)
			if x == doc || what == "of an unknown kind" {
				break
			}
			c.notify = x
			return "the notification is " + what, true
		case 2:
			c.notify = c.srv.docs[n.snap[0]]
			return "the notification is the snapshot", true
		case 3:
			n.num = fmt.Sprint(n.serial + int64(t.Range(1, 3)))
			c.notify = n.xml()
			return "the notification gives serial " + n.num, false
		case 4:
			n.id = pbt.Pick(t, "other", "", c.srv.sessions[0].id)
			c.notify = n.xml()
			return "the notification gives session " + n.id, false
		case 5:
			if len(n.deltas) > 0 { // one delta is passed off as another
				i := t.Intn(len(n.deltas))
				n.deltas[i].serial += int64(pbt.Pick(t, 1, -1, 2))
				c.notify = n.xml()
				return fmt.Sprintf("the notification gives the delta %s as that of %d", n.deltas[i].url, n.deltas[i].serial), false
			}
		case 6:
			if len(n.deltas) > 1 {
				i, j := t.Intn(len(n.deltas)), t.Intn(len(n.deltas))
				n.deltas[i].serial, n.deltas[j].serial = n.deltas[j].serial, n.deltas[i].serial
				c.notify = n.xml()
				return "the notification swaps two deltas", i == j && false
			}
		case 7:
			ses := pbt.Pick(t, c.srv.sessions...)
			k := ses.first + int64(t.Intn(len(ses.states)))
			n.snap = [2]string{snapURL(ses, k), c.srv.hashes[snapURL(ses, k)]}
			c.notify = n.xml()
			return fmt.Sprintf("the notification gives the snapshot of %s/%d", ses.id, k), false
		}
	}
	// a document; every document the client may want is affected when many is set
	urls := []string{n.snap[0]}
	for _, d := range n.deltas {
		urls = append(urls, d.url)
	}
	u := pbt.Pick(t, urls...)
	doc := c.srv.docs[u]
	hashed := t.Bool() // the notification has the hash of what is served
	var served, what string
	serial := n.serial
	var delta *noteDelta
	for i := range n.deltas {
		if n.deltas[i].url == u {
			delta = &n.deltas[i]
			serial = delta.serial
		}
	}
	switch t.Intn(7) {
	case 0, 1:
		served, what = junk(doc)
	case 2:
		if hashed = false; true {
			b := []byte(doc)
			b[t.Intn(len(b))] ^= byte(1 << uint(t.Intn(8)))
			served, what = string(b), "with a bit changed"
		}
	case 3: // of another serial or session
		id, k := n.id, serial
		if t.Bool() {
			id = pbt.Pick(t, "other", "", c.srv.sessions[0].id+"x")
		} else {
			k += int64(pbt.Pick(t, 1, -1, 5))
		}
		if delta == nil {
			served = c.srv.snapshotDoc(id, k, n.ses.at(n.serial))
		} else {
			served = c.srv.deltaDoc(id, k, n.ses.deltas[serial-n.ses.first])
		}
		what = fmt.Sprintf("of %s/%d", id, k)
	case 4: // of the other kind
		if delta == nil {
			served = c.srv.deltaDoc(n.id, serial, n.ses.deltas[serial-n.ses.first])
		} else {
			served = c.srv.snapshotDoc(n.id, serial, n.ses.at(serial))
		}
		what = "of the other kind"
	case 5: // with content that is no base64
		i := strings.Index(doc, "<publish")
		if i < 0 {
			i = strings.LastIndex(doc, "</")
			served = doc[:i] + `<publish uri="rsync://h.example/m/new.roa">*</publish>` + doc[i:]
		} else {
			i = strings.LastIndex(doc, "</publish>")
			served = doc[:i] + pbt.Pick(t, "*", "=", "A===", "Zm9v!") + doc[i:]
		}
		what = "with content that is no base64"
	default: // another document
		var other []string
		for x := range c.srv.docs {
			if x != u && c.srv.docs[x] != doc {
				other = append(other, x)
			}
		}
		if len(other) == 0 {
			served, what = "", "empty"
			break
		}
		sort.Strings(other)
		o := pbt.Pick(t, other...)
		served, what = c.srv.docs[o], "replaced by "+o
	}
	if served == doc {
		t.Discard()
	}
	c.over[u] = served
	if hashed {
		h := hexHash([]byte(served), false)
		if delta != nil {
			delta.hash = h
		} else {
			n.snap[1] = h
		}
		what += ", with its hash in the notification"
	} else if t.Chance(1, 6) {
		h := pbt.Pick(t, "", "0", strings.Repeat("0", 64), "zz")
		if delta != nil {
			delta.hash = h
		} else {
			n.snap[1] = h
		}
		what += ", with the hash " + h + " in the notification"
	}
	c.notify = n.xml()
	return u + " is " + what, false
}

// corrupted is a history in which some fetches meet bad documents.
func corrupted(t *pbt.T) {
	srv := newServer(t)
	c := newClient(t, srv)
	hist := []string{fmt.Sprintf("session %s from %d", srv.cur().id, srv.cur().first)}
	met := false
	for i := t.Range(1, 6); i > 0; i-- {
		srv.step(&hist)
		ses := srv.cur()
		n := srv.note(ses, ses.last())
		if t.Chance(1, 3) {
			c.honest(n, false, &hist)
			continue
		}
		what, noNote := c.corrupt(n)
		hist = append(hist, "fetch where "+what)
		h := strings.Join(hist, ", ")
		before := sameFiles(c.copy, nil)
		err := c.fetch()
		asked := noNote
		for _, r := range c.requests {
			if _, ok := c.over[r]; ok {
				asked = true
			}
		}
		met = met || asked || len(c.over) == 0
		if err != nil {
			c.checkPosition(hist)
			c.session, c.serial = c.sys.SessionID, c.sys.Serial
			t.Label("refused")
			continue
		}
		if noNote {
			t.Failf("%s: success is reported", h)
		}
		st, ok := srv.truth(c.sys.SessionID, c.sys.Serial)
		if !ok {
			t.Failf("%s: success is reported at %s/%d, which never existed", h, c.sys.SessionID, c.sys.Serial)
		}
		if d := sameFiles(c.copy, st); d != "" {
			t.Failf("%s: success is reported, but the local copy differs from the server's files: %s (before: %s)", h, d, before)
		}
		if asked && !c.snapshotUsed() {
			t.Failf("%s: success is reported without the snapshot although the document was used", h)
		}
		t.Label("not affected or recovered")
		c.session, c.serial = c.sys.SessionID, c.sys.Serial
	}
	c.honest(srv.note(srv.cur(), srv.cur().last()), false, &hist)
	if met {
		t.NonTrivial("%s", strings.Join(hist, ", "))
		t.Sample("%s", strings.Join(hist, ", "))
	}
}

func propC16() pbt.Property {
	return pbt.Property{
		ID:          "C16",
		Rule:        "non-trivial: distinct histories",
		Assumptions: []string{"an update that was interrupted while files were stored is not followed by a state older than the one it was meant to reach", "a session identifier is never used again after the server gave it up", "the files of a snapshot, whose events are marked as such, replace the local copy when the fetch succeeds"},
		Suites: []pbt.Suite{
			{Name: "follow", Rule: "1-8 updates of a client that follows an RFC 8182 server through publishes, updates, withdrawals, session resets, rollbacks, changing delta windows and interrupted fetches, in several XML styles", Quick: 20000, Thorough: 1000000, Prop: follow},
		},
	}
}

func propC17() pbt.Property {
	return pbt.Property{
		ID:          "C17",
		Rule:        "non-trivial: distinct histories in which the client met a corrupted document",
		Assumptions: []string{"a session identifier is never used again after the server gave it up"},
		Suites: []pbt.Suite{
			{Name: "corrupted", Rule: "1-6 updates, two thirds of them with one corrupted document: 12 kinds of malformed documents, changed bits, other serials, sessions or kinds, content that is no base64, documents swapped, with and without a matching hash in the notification; or a corrupted notification. Then an honest update", Quick: 20000, Thorough: 1000000, Prop: corrupted},
		},
	}
}
