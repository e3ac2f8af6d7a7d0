//go:build go1.22

package prog

import (
	"crypto/sha1"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"net/http"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/cloudflare/cfrpki/verifharness/gen"
	"github.com/cloudflare/cfrpki/verifharness/pbt"
)

// Event is one fetch of a source.
type Event struct {
	At     time.Time
	Kind   byte   // 'n' notification file, 't' trust anchor certificate over HTTP, 'r' rsync
	Key    string // URL or rsync URI
	OK     bool
	Bad    bool // succeeded, but delivered something else
	Epoch  int
	Fault  string
	Dest   string
	Serial int // of the RRDP repository
}

func (e Event) String() string {
	return fmt.Sprintf("%c %s ok=%v epoch=%d %s", e.Kind, e.Key, e.OK, e.Epoch, e.Fault)
}

// Epoch is a state of everything published.
type Epoch struct {
	Files  map[string][]byte
	Kids   map[*gen.CANode]map[*gen.CANode]bool
	Alive  map[*gen.CANode]bool
	Loads  map[*gen.CANode][]gen.Payload
	Unsure bool // the model leaves something open
	Broken map[*gen.CANode]bool
	Point  map[*gen.CANode]gen.Tri  // the publication point
	Names  map[*gen.CANode][]string // what the manifest lists
	ROAs   map[*gen.CANode][]ROAHere
	Notify map[*gen.CANode]string // the notification URL its certificate names
}

// ROAHere is a ROA in an epoch.
type ROAHere struct {
	Name  string
	Obj   *gen.ROAObj
	V     gen.Tri
	AS    uint32
	Loads []gen.Payload // those of the model
}

// Repo is an RRDP repository.
type Repo struct {
	URL     string
	CAs     []*gen.CANode
	session string
	serial  int
	state   map[string][]byte
	docs    map[string][]byte // by path
	note    string
	last    *Event
	fault   string
	resets  map[int]bool // epochs that start a new session
}

// Site is all repositories of a tree, with the programs' accesses.
type Site struct {
	Env    *Env
	Tr     *gen.Tree
	St     gen.Settings
	Epochs []*Epoch
	Repos  map[string]*Repo // by notification URL
	Faults map[string][]string
	TALs   []*TAL
	// OnGen is called when a new round of fetching seems to begin.
	OnGen func(n int)
	// Before is called when a fetch arrives, before it is logged.
	Before func(kind byte, key string)
	// More answers other HTTP requests.
	More func(path string, w http.ResponseWriter, r *http.Request)

	mu    sync.Mutex
	cur   int
	log   []*Event
	nth   map[string]int
	seen  map[string]bool
	agent map[string]string
	rsync bool
	gens  int
	init  *state // what earlier runs left
	final *state
}

// TAL is a configured trust anchor.
type TAL struct {
	TA   *gen.TANode
	URIs []string
	File string
}

// Rsync is the rsync URI of the certificate (GetRsyncURI for those without).
func (l *TAL) Rsync() string {
	for _, u := range l.URIs {
		if strings.HasPrefix(u, "rsync://") {
			return u
		}
	}
	return ""
}

// Place is the URI the certificate is stored under.
func (l *TAL) Place() string {
	if r := l.Rsync(); r != "" {
		return r
	}
	return fmt.Sprintf("rsync://rfc8630/certs/%x.cer", sha1.Sum([]byte(l.URIs[len(l.URIs)-1])))
}

// Module of a URI.
func Module(uri string) string {
	p := strings.SplitN(strings.TrimPrefix(uri, "rsync://"), "/", 3)
	if len(p) < 2 {
		return uri
	}
	return "rsync://" + p[0] + "/" + p[1]
}

// Host of a URI.
func Host(uri string) string {
	return strings.SplitN(strings.TrimPrefix(uri, "rsync://"), "/", 2)[0]
}

// SiteOpts says how a tree is published.
type SiteOpts struct {
	RRDP  int // of 8: how often a CA announces RRDP
	HTTP  int // of 8: how often a TAL has HTTP URIs
	Hurt  int
	Owned bool // a URL belongs to one host (else: the same)
}

// NotifyFor is to be given to TreeOpts.Notify: it draws notification URLs.
func NotifyFor(t *pbt.T, e *Env, num int) func(host string) string {
	hosts := map[string]string{}
	return func(host string) string {
		if !t.Chance(num, 8) {
			return ""
		}
		k, ok := hosts[host]
		if !ok {
			k = fmt.Sprintf("%s/r/%d", pbt.Pick(t, e.URL, e.TLS, e.TLS), len(hosts))
			hosts[host] = k
		}
		if t.Chance(1, 4) {
			k += "x" // another repository for the same host
		}
		return k + "/notification.xml"
	}
}

// Shared makes several hosts name the same notification URLs.
func Shared(t *pbt.T, notify func(string) string, num int) func(string) string {
	var last string
	return func(host string) string {
		n := notify(host)
		if n != "" && last != "" && t.Chance(num, 8) {
			return last
		}
		if n != "" {
			last = n
		}
		return n
	}
}

// NewSite publishes a tree (drawn with NotifyFor).
func NewSite(t *pbt.T, e *Env, tr *gen.Tree, st gen.Settings, http int) *Site {
	s := &Site{Env: e, Tr: tr, St: st, Repos: map[string]*Repo{}, Faults: map[string][]string{}, nth: map[string]int{}, seen: map[string]bool{}}
	for _, c := range tr.CAs {
		if c.Notify == "" {
			continue
		}
		r := s.Repos[c.Notify]
		if r == nil {
			r = &Repo{URL: c.Notify, resets: map[int]bool{}}
			s.Repos[c.Notify] = r
		}
		r.CAs = append(r.CAs, c)
	}
	for i, ta := range tr.TAs {
		l := &TAL{TA: ta, URIs: []string{ta.URI}}
		if t.Chance(http, 8) {
			n := t.Range(1, 3)
			l.URIs = nil
			at := t.Intn(n + 2)
			for k := 0; k < n; k++ {
				if k == at {
					l.URIs = append(l.URIs, ta.URI)
				}
				l.URIs = append(l.URIs, fmt.Sprintf("%s/ta/%d-%d.cer", pbt.Pick(t, e.URL, e.TLS, e.TLS), i, k))
			}
			if at == n {
				l.URIs = append(l.URIs, ta.URI)
			}
		}
		uris := l.URIs
		ta.TALText = func(uri string, key []byte) string {
			return strings.Join(uris, "\n") + "\n\n" + base64.StdEncoding.EncodeToString(key) + "\n"
		}
		s.TALs = append(s.TALs, l)
	}
	e.HTTP = s.serve
	e.Rsync = s.doRsync
	return s
}

// Also makes another RRDP repository publish a CA, from the beginning on (to
// be called before the first epoch is added).
func (s *Site) Also(c *gen.CANode, url string) {
	r := s.Repos[url]
	if r == nil {
		r = &Repo{URL: url, resets: map[int]bool{}}
		s.Repos[url] = r
	}
	for _, x := range r.CAs {
		if x == c {
			return
		}
	}
	r.CAs = append(r.CAs, c)
}

// AddEpoch builds the tree as it is now.
func (s *Site) AddEpoch() *Epoch { return s.AddBroken(nil) }

// AddBroken does so with some publication points that are not in order: by
// an outdated manifest, or by a file that is not the one listed.
func (s *Site) AddBroken(broken map[*gen.CANode]string) *Epoch {
	s.Tr.Build(0)
	ep := &Epoch{Files: s.Tr.Files, Broken: map[*gen.CANode]bool{}, Kids: map[*gen.CANode]map[*gen.CANode]bool{}, Alive: map[*gen.CANode]bool{}, Loads: map[*gen.CANode][]gen.Payload{},
		Point: map[*gen.CANode]gen.Tri{}, Names: map[*gen.CANode][]string{}, ROAs: map[*gen.CANode][]ROAHere{}, Notify: map[*gen.CANode]string{}}
	for _, c := range s.Tr.CAs {
		ep.Notify[c] = c.Notify
		m := map[*gen.CANode]bool{}
		for _, k := range c.Kids {
			m[k] = true
		}
		ep.Kids[c] = m
		switch c.Alive(s.St) {
		case gen.Yes:
			ep.Alive[c] = true
		case gen.Maybe:
			ep.Unsure = true
		}
		ep.Point[c] = c.Point(s.St)
		ep.Names[c] = c.ListedNames()
		for _, r := range c.ROAs {
			ep.ROAs[c] = append(ep.ROAs[c], ROAHere{Name: r.File.Name, Obj: r, V: r.Verdict(s.St), AS: r.AS})
		}
	}
	for _, p := range s.Tr.Model(s.St) {
		for i := range ep.ROAs[p.ROA.CA] {
			if h := &ep.ROAs[p.ROA.CA][i]; h.Obj == p.ROA {
				h.Loads = append(h.Loads, p)
			}
		}
		switch p.V {
		case gen.Yes:
			ep.Loads[p.ROA.CA] = append(ep.Loads[p.ROA.CA], p)
		case gen.Maybe:
			ep.Unsure = true
		}
	}
	for c, how := range broken {
		ep.Broken[c] = true
		if how == "expired" {
			w := c.MftWin
			c.MftWin = gen.Window{From: time.Date(2009, 1, 1, 0, 0, 0, 0, time.UTC), To: time.Date(2010, 1, 1, 0, 0, 0, 0, time.UTC)}
			defer func(c *gen.CANode, w gen.Window) { c.MftWin = w }(c, w)
		}
	}
	if broken != nil {
		s.Tr.Build(0)
		ep.Files = s.Tr.Files
		for c, how := range broken {
			switch how {
			case "crl":
				ep.Files[c.Dir+c.CRLName] = []byte("not what the manifest lists")
			case "kid":
				for k := range ep.Kids[c] {
					ep.Files[c.Dir+k.File.Name] = append([]byte("x"), ep.Files[c.Dir+k.File.Name]...)
				}
			}
		}
	}
	if len(s.Epochs) == 0 {
		for i, l := range s.TALs {
			l.File = s.Env.Write(fmt.Sprintf("tal/%d.tal", i), s.Tr.TALs[i])
		}
	}
	s.Epochs = append(s.Epochs, ep)
	if len(s.Epochs) == 1 {
		for _, r := range s.Repos {
			r.reset(ep, 0)
		}
	}
	return ep
}

// content of a repository.
func (r *Repo) content(ep *Epoch) map[string][]byte {
	m := map[string][]byte{}
	for _, c := range r.CAs {
		for u, d := range ep.Files {
			if strings.HasPrefix(u, c.Dir) && !strings.Contains(u[len(c.Dir):], "/") {
				m[u] = d
			}
		}
	}
	return m
}

// Hash is the hexadecimal SHA-256.
func Hash(b []byte) string { return hash(b) }

func hash(b []byte) string {
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:])
}

var xmlEsc = strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", "\"", "&quot;", "'", "&#39;")

// Esc escapes text for XML.
func Esc(s string) string { return xmlEsc.Replace(s) }

const rrdpNS = "http://www.ripe.net/rpki/rrdp"

func (r *Repo) base() string { return strings.TrimSuffix(r.URL, "notification.xml") }

func (r *Repo) snapshot() {
	var b strings.Builder
	fmt.Fprintf(&b, "<snapshot xmlns=%q version=\"1\" session_id=%q serial=\"%d\">\n", rrdpNS, r.session, r.serial)
	var us []string
	for u := range r.state {
		us = append(us, u)
	}
	sort.Strings(us)
	for _, u := range us {
		fmt.Fprintf(&b, "<publish uri=\"%s\">%s</publish>\n", Esc(u), base64.StdEncoding.EncodeToString(r.state[u]))
	}
	b.WriteString("</snapshot>\n")
	r.docs[fmt.Sprintf("%s-%d-snapshot.xml", r.session, r.serial)] = []byte(b.String())
}

func (r *Repo) notify(first int) {
	var b strings.Builder
	fmt.Fprintf(&b, "<notification xmlns=%q version=\"1\" session_id=%q serial=\"%d\">\n", rrdpNS, r.session, r.serial)
	n := fmt.Sprintf("%s-%d-snapshot.xml", r.session, r.serial)
	fmt.Fprintf(&b, "<snapshot uri=%q hash=%q/>\n", r.base()+n, hash(r.docs[n]))
	for i := r.serial; i > 0; i-- {
		n := fmt.Sprintf("%s-%d-delta.xml", r.session, i)
		if d, ok := r.docs[n]; ok {
			fmt.Fprintf(&b, "<delta serial=\"%d\" uri=%q hash=%q/>\n", i, r.base()+n, hash(d))
		}
	}
	b.WriteString("</notification>\n")
	r.note = b.String()
}

func (r *Repo) reset(ep *Epoch, n int) {
	r.session = fmt.Sprintf("s%d-%s", n, hash([]byte(r.URL))[:8])
	r.serial = n + 1
	if r.docs == nil {
		r.docs = map[string][]byte{} // those of earlier sessions stay, for who has just read of them
	}
	r.state = r.content(ep)
	r.snapshot()
	r.notify(r.serial)
}

// advance to an epoch with a delta.
func (r *Repo) advance(ep *Epoch) {
	next := r.content(ep)
	var us []string
	for u := range r.state {
		us = append(us, u)
	}
	for u := range next {
		if _, ok := r.state[u]; !ok {
			us = append(us, u)
		}
	}
	sort.Strings(us)
	r.serial++
	var b strings.Builder
	fmt.Fprintf(&b, "<delta xmlns=%q version=\"1\" session_id=%q serial=\"%d\">\n", rrdpNS, r.session, r.serial)
	for _, u := range us {
		o, had := r.state[u]
		d, has := next[u]
		switch {
		case had && !has:
			fmt.Fprintf(&b, "<withdraw uri=\"%s\" hash=\"%s\"/>\n", Esc(u), hash(o))
		case has && !had:
			fmt.Fprintf(&b, "<publish uri=\"%s\">%s</publish>\n", Esc(u), base64.StdEncoding.EncodeToString(d))
		case string(o) != string(d):
			fmt.Fprintf(&b, "<publish uri=\"%s\" hash=\"%s\">%s</publish>\n", Esc(u), hash(o), base64.StdEncoding.EncodeToString(d))
		}
	}
	b.WriteString("</delta>\n")
	r.docs[fmt.Sprintf("%s-%d-delta.xml", r.session, r.serial)] = []byte(b.String())
	r.state = next
	r.snapshot()
	r.notify(1)
}

// SetResets draws which repositories start a new session at an epoch.
func (s *Site) SetResets(t *pbt.T, epoch int) {
	for _, u := range s.URLs() {
		if t.Chance(1, 4) {
			s.Repos[u].resets[epoch] = true
		}
	}
}

// URLs of the RRDP repositories.
func (s *Site) URLs() []string {
	var l []string
	for u := range s.Repos {
		l = append(l, u)
	}
	sort.Strings(l)
	return l
}

// Modules of the CAs.
func (s *Site) Modules() []string {
	m := map[string]bool{}
	for _, c := range s.Tr.CAs {
		m[Module(c.Dir)] = true
	}
	var l []string
	for u := range m {
		l = append(l, u)
	}
	sort.Strings(l)
	return l
}

// Next changes to the next epoch (from OnGen).
func (s *Site) Next() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.cur+1 >= len(s.Epochs) {
		return false
	}
	s.cur++
	ep := s.Epochs[s.cur]
	for _, r := range s.Repos {
		if r.resets[s.cur] {
			r.reset(ep, s.cur*100)
		} else {
			r.advance(ep)
		}
	}
	return true
}

// Heal ends all faults.
func (s *Site) Heal() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Faults = map[string][]string{}
}

// Log of the fetches so far.
func (s *Site) Log() []Event {
	s.mu.Lock()
	defer s.mu.Unlock()
	l := make([]Event, len(s.log))
	for i, e := range s.log {
		l[i] = *e
	}
	return l
}

// Logged counts the fetches so far.
func (s *Site) Logged() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.log)
}

// enter logs a fetch and tells its fault.
func (s *Site) enter(kind byte, key string) *Event {
	if s.Before != nil {
		s.Before(kind, key)
	}
	s.mu.Lock()
	id := string(kind) + key
	if kind == 'n' && (s.rsync || s.seen[key] || s.gens == 0) {
		s.gens++
		s.seen = map[string]bool{}
		s.rsync = false
		if s.OnGen != nil {
			s.seen[key] = true
			n := s.gens
			s.mu.Unlock()
			s.OnGen(n)
			s.mu.Lock()
		}
	}
	s.seen[key] = true
	if kind == 'r' {
		s.rsync = true
	}
	defer s.mu.Unlock()
	n := s.nth[id]
	s.nth[id]++
	f := ""
	if fs := s.Faults[id]; n < len(fs) {
		f = fs[n]
	}
	ev := &Event{Kind: kind, Key: key, OK: f == "", Epoch: s.cur, Fault: f, At: time.Now()}
	s.log = append(s.log, ev)
	return ev
}

// Cut answers with less than announced.
func Cut(w http.ResponseWriter, data []byte) {
	w.Header().Set("Content-Length", fmt.Sprint(len(data)+1))
	w.WriteHeader(200)
	w.Write(data[:len(data)/2])
	if f, ok := w.(http.Flusher); ok {
		f.Flush()
	}
	panic(http.ErrAbortHandler)
}

// Break answers according to a fault; false when it is not a fault of the
// transfer.
func Break(w http.ResponseWriter, f string, data []byte) bool {
	switch f {
	case "404", "403", "500", "503", "410", "204", "206":
		var c int
		fmt.Sscan(f, &c)
		w.WriteHeader(c)
		if c != 204 {
			w.Write(data)
		}
	case "close":
		panic(http.ErrAbortHandler)
	case "cut":
		Cut(w, data)
	case "garbage":
		w.Write([]byte("<html>Not what you expect</html>"))
	case "empty":
	case "half":
		w.Write(data[:len(data)/2])
	case "big":
		w.Write(data)
		w.Write(make([]byte, 1<<20))
	default:
		return false
	}
	return true
}

// Note* are the faults of notification files, snapshots and rsync.
var (
	NoteFaults  = []string{"404", "403", "500", "503", "204", "206", "close", "cut", "garbage", "empty", "half", "wrong", "doc404", "doccut", "dochash", "docgarbage", "docsession", "docserial"}
	TAFaults    = []string{"404", "403", "500", "503", "204", "206", "close", "cut", "big", "garbage", "empty", "half"}
	RsyncFaults = []string{"x5", "x10", "x12", "x30", "x35", "x1", "p23", "p24", "noise"}
)

// Agents gives the User-Agents of the requests, each with a path it asked for.
func (s *Site) Agents() map[string]string {
	s.mu.Lock()
	defer s.mu.Unlock()
	m := map[string]string{}
	for a, p := range s.agent {
		m[a] = p
	}
	return m
}

func (s *Site) serve(p string, w http.ResponseWriter, r *http.Request) {
	s.mu.Lock()
	if s.agent == nil {
		s.agent = map[string]string{}
	}
	s.agent[r.UserAgent()] = p
	s.mu.Unlock()
	url := s.Env.URL + "/" + p
	if r.TLS != nil {
		url = s.Env.TLS + "/" + p
	}
	switch {
	case s.Repos[url] != nil:
		repo := s.Repos[url]
		ev := s.enter('n', url)
		s.mu.Lock()
		repo.last, repo.fault = ev, ""
		ev.Epoch = s.cur // Next may have come in between
		note := repo.note
		ev.Serial = repo.serial
		if strings.HasPrefix(ev.Fault, "doc") {
			repo.fault = ev.Fault
			ev.OK = true // unless a document is asked for
		}
		s.mu.Unlock()
		if ev.Fault == "wrong" {
			note = strings.ReplaceAll(note, "notification", "snapshot")
		}
		if Break(w, ev.Fault, []byte(note)) {
			return
		}
		w.Write([]byte(note))
	case strings.HasPrefix(p, "r/"):
		i := strings.LastIndex(url, "/")
		repo := s.Repos[url[:i+1]+"notification.xml"]
		if repo == nil {
			http.Error(w, "no such repository", 404)
			return
		}
		s.mu.Lock()
		doc, f := repo.docs[url[i+1:]], repo.fault
		if f != "" && repo.last != nil {
			repo.last.OK = false
		}
		s.mu.Unlock()
		if doc == nil {
			http.Error(w, "no such document", 404)
			return
		}
		switch f {
		case "dochash":
			doc = append([]byte("\n"), doc...)
		case "docsession":
			doc = []byte(strings.Replace(string(doc), "session_id=\"", "session_id=\"other-", 1))
		case "docserial":
			doc = []byte(strings.Replace(string(doc), "serial=\"", "serial=\"9", 1))
		default:
			if f != "" && Break(w, strings.TrimPrefix(f, "doc"), doc) {
				return
			}
		}
		w.Write(doc)
	case strings.HasPrefix(p, "ta/"):
		var i, k int
		if n, _ := fmt.Sscanf(p, "ta/%d-%d.cer", &i, &k); n != 2 || i >= len(s.TALs) {
			http.Error(w, "no such trust anchor", 404)
			return
		}
		ev := s.enter('t', url)
		s.mu.Lock()
		ev.Epoch = s.cur
		data := s.Epochs[s.cur].Files[s.TALs[i].TA.URI]
		switch ev.Fault {
		case "garbage", "empty", "half":
			ev.OK, ev.Bad = true, true
		}
		if data == nil {
			ev.OK, ev.Fault = false, "404"
		}
		s.mu.Unlock()
		if Break(w, ev.Fault, data) {
			return
		}
		w.Write(data)
	default:
		if s.More != nil {
			s.More(p, w, r)
			return
		}
		http.Error(w, "nothing here", 404)
	}
}

func (s *Site) doRsync(run RsyncRun) RsyncDo {
	ev := s.enter('r', strings.TrimSuffix(run.Source, "/"))
	s.mu.Lock()
	defer s.mu.Unlock()
	ev.Dest = run.Dest
	ev.Epoch = s.cur
	fs, ok := Fetch(run, s.Epochs[s.cur].Files, nil)
	do := RsyncDo{Files: fs}
	switch {
	case ev.Fault == "hang" || ev.Fault == "hold":
		return RsyncDo{Hang: 20 * time.Second, Child: ev.Fault == "hold"}
	case strings.HasPrefix(ev.Fault, "x"):
		do.Files = nil
		fmt.Sscan(ev.Fault[1:], &do.Exit)
		do.Stderr = "rsync error: some error\n"
	case strings.HasPrefix(ev.Fault, "p"):
		fmt.Sscan(ev.Fault[1:], &do.Exit)
		ev.OK = true
	case ev.Fault == "noise":
		do.Noise = strings.Repeat("deleting some/file.roa\n*** motd ***\n.roa\n", 40)
		ev.OK = true
	}
	if !ok {
		do.Exit = 5
		ev.OK = false
		do.Stderr = "@ERROR: Unknown module\n"
	}
	return do
}

// Octo holds the settings of an octorpki run.
type Octo struct {
	RRDP, Failover bool
	Mode           string
	Filter         bool
	Wait           bool
	MaxIter        int
	RsyncTimeout   time.Duration
	Refresh        time.Duration
	Concurrent     int
	Names          []string
	Sign           string // key file
	Validity       time.Duration
	Output         string
	Port           int
	LaxManifests   bool
	LaxHash        bool
	StrictCMS      bool
	TALs           []string
	Extra          []string
}

// Args are the command line arguments.
func (o Octo) Args(e *Env, s *Site) []string {
	tals := o.TALs
	if tals == nil {
		for _, l := range s.TALs {
			tals = append(tals, l.File)
		}
	}
	names := o.Names
	if names == nil {
		for i := range tals {
			names = append(names, fmt.Sprintf("ta%d", i))
		}
	}
	a := []string{
		"-cache", e.Work + "/cache", "-rrdp.file", e.Work + "/rrdp.json",
		"-tal.root", strings.Join(tals, ","), "-tal.name", strings.Join(names, ","),
		"-rsync.bin", os.Getenv(envBase) + "/rsync", fmt.Sprintf("-rrdp=%v", o.RRDP), fmt.Sprintf("-rrdp.failover=%v", o.Failover),
		"-mode", o.Mode, fmt.Sprintf("-filter=%v", o.Filter), fmt.Sprintf("-output.wait=%v", o.Wait),
		"-output.roa", o.Output,
	}
	if o.MaxIter > 0 {
		a = append(a, "-max.iterations", fmt.Sprint(o.MaxIter))
	}
	if o.RsyncTimeout > 0 {
		a = append(a, "-rsync.timeout", o.RsyncTimeout.String())
	}
	if o.Refresh > 0 {
		a = append(a, "-refresh", o.Refresh.String())
	}
	if o.Concurrent > 0 {
		a = append(a, "-max_concurrent_retrievals", fmt.Sprint(o.Concurrent))
	}
	if o.Sign != "" {
		a = append(a, "-output.sign=true", "-output.sign.key", o.Sign)
	} else {
		a = append(a, "-output.sign=false")
	}
	if o.Validity > 0 {
		a = append(a, "-output.sign.validity", o.Validity.String())
	}
	if o.Port > 0 {
		a = append(a, "-http.addr", fmt.Sprintf("127.0.0.1:%d", o.Port))
	}
	if o.LaxManifests {
		a = append(a, "-strict.manifests=false")
	}
	if o.LaxHash {
		a = append(a, "-strict.hash=false")
	}
	if o.StrictCMS {
		a = append(a, "-strict.cms=true")
	}
	return append(a, o.Extra...)
}
