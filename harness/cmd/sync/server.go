//go:build go1.22

package main

import (
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"sort"
	"strings"

	"github.com/cloudflare/cfrpki/verifharness/pbt"
)

const rrdpNS = "http://www.ripe.net/rpki/rrdp"

// change is one element of a delta.
type change struct {
	uri      string
	data     []byte
	withdraw bool
	old      []byte // what it replaces, nil when it is new
}

// session is the history of one RRDP session: states[i] is the state at
// serial first+i, deltas[i] leads to it (deltas[0] is unknown to clients).
type session struct {
	id     string
	first  int64
	states []map[string][]byte
	deltas [][]change
}

func (s *session) last() int64 { return s.first + int64(len(s.states)) - 1 }

func (s *session) at(serial int64) map[string][]byte {
	if serial < s.first || serial > s.last() {
		return nil
	}
	return s.states[serial-s.first]
}

// server is an RRDP server written from RFC 8182, with its whole history.
type server struct {
	t        *pbt.T
	sessions []*session
	docs     map[string]string // snapshot and delta documents by URL
	hashes   map[string]string
	gap      bool // the notification leaves out a delta in the middle
	window   int
	ascii    bool
}

const notifyURL = "https://rrdp.example/notification.xml"

func newServer(t *pbt.T) *server {
	s := &server{t: t, docs: map[string]string{}, hashes: map[string]string{}}
	s.ascii = t.Chance(1, 3)
	s.reset()
	return s
}

func (s *server) cur() *session { return s.sessions[len(s.sessions)-1] }

func (s *server) uri() string {
	t := s.t
	if t.Chance(1, 10) {
		return "rsync://h.example/m/" + pbt.Pick(t, "a&b.roa", "sp ace.cer", "q'\"<>.mft", "é.crl", "a/b/c/d.roa", "%2e%2e.cer")
	}
	return fmt.Sprintf("rsync://h.example/m/%s%d.%s", pbt.Pick(t, "", "d/", "d/e/"), t.Intn(5), pbt.Pick(t, "roa", "cer", "mft", "crl"))
}

func (s *server) content() []byte {
	t := s.t
	n := t.Size(60)
	if t.Chance(1, 12) {
		n = t.Range(100, 3000)
	}
	return t.Bytes(n)
}

// count of the files in a step.
func (s *server) count() int {
	if s.t.Chance(1, 20) {
		return s.t.Range(7, 50)
	}
	return s.t.Size(6)
}

// reset starts a new session.
func (s *server) reset() {
	t := s.t
	ses := &session{id: fmt.Sprintf("%08x-%d", uint32(t.Uint64()), len(s.sessions)), first: pbt.Pick(t, int64(1), int64(1), int64(t.Range(1, 4)), int64(t.Range(1, 1<<40)))}
	st := map[string][]byte{}
	if len(s.sessions) > 0 && t.Bool() { // the same files
		for k, v := range s.cur().states[len(s.cur().states)-1] {
			st[k] = v
		}
	}
	for i := s.count(); i > 0; i-- {
		st[s.uri()] = s.content()
	}
	ses.states = append(ses.states, st)
	ses.deltas = append(ses.deltas, nil)
	s.sessions = append(s.sessions, ses)
	s.render(ses, ses.first)
}

// advance publishes the next serial.
func (s *server) advance() {
	t := s.t
	ses := s.cur()
	old := ses.at(ses.last())
	st := map[string][]byte{}
	var uris []string
	for k, v := range old {
		st[k] = v
		uris = append(uris, k)
	}
	sort.Strings(uris)
	var d []change
	used := map[string]bool{}
	for i := s.count(); i > 0; i-- {
		u := s.uri()
		if len(uris) > 0 && t.Bool() {
			u = pbt.Pick(t, uris...)
		}
		if used[u] {
			continue
		}
		used[u] = true
		c := change{uri: u}
		if o, ok := st[u]; ok {
			c.old = append([]byte{}, o...)
			c.withdraw = t.Bool()
		}
		if c.withdraw {
			delete(st, u)
		} else {
			c.data = s.content()
			st[u] = c.data
		}
		d = append(d, c)
	}
	ses.states = append(ses.states, st)
	ses.deltas = append(ses.deltas, d)
	s.render(ses, ses.last())
}

func snapURL(ses *session, n int64) string {
	return fmt.Sprintf("https://rrdp.example/%s/%d/snapshot.xml", ses.id, n)
}
func deltaURL(ses *session, n int64) string {
	return fmt.Sprintf("https://rrdp.example/%s/%d/delta.xml", ses.id, n)
}

func xesc(s string, ascii bool) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r == '<':
			b.WriteString("&lt;")
		case r == '>':
			b.WriteString("&gt;")
		case r == '&':
			b.WriteString("&amp;")
		case r == '"':
			b.WriteString("&quot;")
		case r == '\'':
			b.WriteString("&#39;")
		case ascii && r > 126:
			fmt.Fprintf(&b, "&#%d;", r)
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

func (s *server) b64(data []byte) string {
	t := s.t
	x := base64.StdEncoding.EncodeToString(data)
	if t.Bool() {
		return x
	}
	nl := pbt.Pick(t, "\n", "\n  ", "\r\n", "\n\t", " ")
	w := pbt.Pick(t, 64, 76, 5)
	var b strings.Builder
	b.WriteString(nl)
	for len(x) > w {
		b.WriteString(x[:w] + nl)
		x = x[w:]
	}
	b.WriteString(x + nl)
	return b.String()
}

func hexHash(data []byte, upper bool) string {
	h := sha256.Sum256(data)
	x := hex.EncodeToString(h[:])
	if upper {
		x = strings.ToUpper(x)
	}
	return x
}

func (s *server) head() string {
	t := s.t
	if s.ascii {
		return pbt.Pick(t, "<?xml version=\"1.0\" encoding=\"US-ASCII\"?>\n", "<?xml version=\"1.0\" encoding=\"us-ascii\"?>")
	}
	return pbt.Pick(t, "", "<?xml version=\"1.0\"?>\n", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\"?>", "<!-- generated -->\n")
}

// root is the start tag of a document.
func (s *server) root(name, ses string, serial int64) string {
	as := []string{`xmlns="` + rrdpNS + `"`, `version="1"`, `session_id="` + ses + `"`, fmt.Sprintf(`serial="%d"`, serial)}
	pbt.Shuffle(s.t, as)
	return "<" + name + " " + strings.Join(as, pbt.Pick(s.t, " ", "\n  ")) + ">"
}

func (s *server) publish(uri string, data, old []byte) string {
	h := ""
	if old != nil {
		h = ` hash="` + hexHash(old, s.t.Bool()) + `"`
	}
	return `<publish uri="` + xesc(uri, s.ascii) + `"` + h + `>` + s.b64(data) + `</publish>`
}

func (s *server) snapshotDoc(ses string, serial int64, st map[string][]byte) string {
	var b strings.Builder
	b.WriteString(s.head() + s.root("snapshot", ses, serial) + "\n")
	var uris []string
	for u := range st {
		uris = append(uris, u)
	}
	sort.Strings(uris)
	pbt.Shuffle(s.t, uris)
	for _, u := range uris {
		b.WriteString(s.publish(u, st[u], nil) + "\n")
	}
	b.WriteString("</snapshot>" + pbt.Pick(s.t, "", "\n"))
	return b.String()
}

func (s *server) deltaDoc(ses string, serial int64, d []change) string {
	var b strings.Builder
	b.WriteString(s.head() + s.root("delta", ses, serial) + "\n")
	for _, c := range d {
		if c.withdraw {
			b.WriteString(`<withdraw uri="` + xesc(c.uri, s.ascii) + `" hash="` + hexHash(c.old, s.t.Bool()) + `"` + pbt.Pick(s.t, "/>", "></withdraw>") + "\n")
		} else {
			b.WriteString(s.publish(c.uri, c.data, c.old) + "\n")
		}
	}
	b.WriteString("</delta>" + pbt.Pick(s.t, "", "\n"))
	return b.String()
}

func (s *server) add(url, doc string) {
	s.docs[url] = doc
	s.hashes[url] = hexHash([]byte(doc), s.t.Chance(1, 4))
}

func (s *server) render(ses *session, n int64) {
	s.add(snapURL(ses, n), s.snapshotDoc(ses.id, n, ses.at(n)))
	if n > ses.first || s.t.Bool() { // some servers have an empty first delta
		s.add(deltaURL(ses, n), s.deltaDoc(ses.id, n, ses.deltas[n-ses.first]))
	}
}

// note is what a notification says.
type note struct {
	ses    *session
	serial int64
	snap   [2]string // URL, hash
	deltas []noteDelta
	head   string
	id     string // the session and serial as written
	num    string
}

type noteDelta struct {
	serial    int64
	url, hash string
}

// note is the notification of a serial.
func (s *server) note(ses *session, serial int64) *note {
	t := s.t
	n := &note{ses: ses, serial: serial, id: ses.id, num: fmt.Sprint(serial), head: s.head()}
	n.snap = [2]string{snapURL(ses, serial), s.hashes[snapURL(ses, serial)]}
	for i := serial; i > serial-int64(s.window) && i >= ses.first; i-- {
		u := deltaURL(ses, i)
		if s.docs[u] != "" {
			n.deltas = append(n.deltas, noteDelta{i, u, s.hashes[u]})
		}
	}
	if s.gap && len(n.deltas) > 1 {
		i := t.Intn(len(n.deltas))
		n.deltas = append(n.deltas[:i], n.deltas[i+1:]...)
	}
	switch t.Intn(3) {
	case 0:
		pbt.Shuffle(t, n.deltas)
	case 1:
		for i, j := 0, len(n.deltas)-1; i < j; i, j = i+1, j-1 {
			n.deltas[i], n.deltas[j] = n.deltas[j], n.deltas[i]
		}
	}
	return n
}

func (n *note) has(serial int64) bool {
	for _, d := range n.deltas {
		if d.serial == serial {
			return true
		}
	}
	return false
}

func (n *note) xml() string {
	var b strings.Builder
	b.WriteString(n.head)
	fmt.Fprintf(&b, "<notification xmlns=%q version=\"1\" session_id=%q serial=%q>\n", rrdpNS, n.id, n.num)
	fmt.Fprintf(&b, "  <snapshot uri=%q hash=%q/>\n", n.snap[0], n.snap[1])
	for _, d := range n.deltas {
		fmt.Fprintf(&b, "  <delta serial=\"%d\" uri=%q hash=%q />\n", d.serial, d.url, d.hash)
	}
	b.WriteString("</notification>\n")
	return b.String()
}
