//go:build go1.22

package main

import (
	"encoding/base64"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/cloudflare/cfrpki/verifharness/gen"
	"github.com/cloudflare/cfrpki/verifharness/pbt"
	"github.com/cloudflare/cfrpki/verifharness/prog"
)

func propC18() pbt.Property {
	return pbt.Property{
		ID:    "C18",
		Setup: prog.Setup,
		Rule:  "a case counts when at least two events were applied, one of them to a file that another event names too or with a URI that is to be refused; signature: the kinds of the events, in order, and what they name",
		Assumptions: []string{
			"rsync is replaced by a program of the harness that copies as rsync -rlt does, with and without --safe-links",
			"octorpki runs as uid 65534 in a scratch directory whose files are compared before and after",
		},
		Suites: []pbt.Suite{
			{Name: "exact", Quick: 600, Thorough: 6000, Hang: 120 * time.Second, Prop: c18Exact,
				Rule: "histories of snapshots and deltas of one or two repositories, with URIs of other hosts, other schemes and parent directories; the files of the cache after every iteration against a model"},
			{Name: "hostile", Quick: 600, Thorough: 6000, Hang: 120 * time.Second, Prop: c18Hostile,
				Rule: "hostile URIs in events, certificates, TALs and notification files, symbolic links in rsync modules: what is outside of the cache does not change, and the program goes on"},
			{Name: "killed", Quick: 150, Thorough: 2000, Hang: 120 * time.Second, Prop: c18Killed,
				Rule: "the program is killed at random points, also while it writes, and started again; after a complete run the cache holds what the repositories hold"},
		},
	}
}

// event of a snapshot or delta.
type event struct {
	withdraw bool
	uri      string
	data     []byte
	kind     string
}

func (e event) String() string {
	if e.withdraw {
		return fmt.Sprintf("withdraw %q (%s)", e.uri, e.kind)
	}
	return fmt.Sprintf("publish %q %d octets (%s)", e.uri, len(e.data), e.kind)
}

// feed is an RRDP repository that says anything.
type feed struct {
	mu      sync.Mutex
	url     string
	session int
	serial  int
	first   int // oldest delta offered
	docs    map[string]string
	note    string
	state   map[string][]byte
	extra   string // in the notification
}

func (f *feed) body(kind string, es []event) string {
	var b strings.Builder
	fmt.Fprintf(&b, "<%s xmlns=\"http://www.ripe.net/rpki/rrdp\" version=\"1\" session_id=\"ses%d\" serial=\"%d\">\n", kind, f.session, f.serial)
	for _, e := range es {
		if e.withdraw {
			fmt.Fprintf(&b, "<withdraw uri=\"%s\" hash=\"%064x\"/>\n", prog.Esc(e.uri), 1)
		} else {
			fmt.Fprintf(&b, "<publish uri=\"%s\">%s</publish>\n", prog.Esc(e.uri), base64.StdEncoding.EncodeToString(e.data))
		}
	}
	fmt.Fprintf(&b, "</%s>\n", kind)
	return b.String()
}

// restart begins a session with a snapshot of the given events.
func (f *feed) restart(es []event) {
	f.session++
	f.serial = 1 + f.session*3
	f.first = f.serial + 1
	f.docs = map[string]string{"snapshot.xml": f.body("snapshot", es)}
	f.notify()
}

// next adds a delta; the snapshot becomes that of full.
func (f *feed) next(es, full []event) {
	if f.docs == nil {
		f.restart(full)
		return
	}
	f.serial++
	f.docs[fmt.Sprintf("%d.xml", f.serial)] = f.body("delta", es)
	f.docs["snapshot.xml"] = f.body("snapshot", full)
	f.notify()
}

func (f *feed) notify() {
	var b strings.Builder
	base := f.url[:strings.LastIndex(f.url, "/")+1]
	fmt.Fprintf(&b, "<notification xmlns=\"http://www.ripe.net/rpki/rrdp\" version=\"1\" session_id=\"ses%d\" serial=\"%d\">\n", f.session, f.serial)
	fmt.Fprintf(&b, "<snapshot uri=\"%ssnapshot.xml\" hash=\"%s\"/>\n", base, prog.Hash([]byte(f.docs["snapshot.xml"])))
	for i := f.serial; i >= f.first; i-- {
		n := fmt.Sprintf("%d.xml", i)
		fmt.Fprintf(&b, "<delta serial=\"%d\" uri=\"%s%s\" hash=\"%s\"/>\n", i, base, n, prog.Hash([]byte(f.docs[n])))
	}
	b.WriteString(f.extra)
	b.WriteString("</notification>\n")
	f.note = b.String()
}

// world is a running case of C18: trust anchors whose repositories are feeds.
type world struct {
	t     *pbt.T
	env   *prog.Env
	site  *prog.Site
	o     prog.Octo
	feeds []*feed
	hosts []string
	links map[string]string // symbolic links of rsync modules
	// onRound is called when a new iteration asks for the first notification
	onRound func(n int)
	// onDoc is called for every document
	onDoc func(name string)

	plain bool // rsync works for trust anchors only

	mu     sync.Mutex
	seen   map[string]bool
	rounds int
	dests  []string
}

const taHost = "ta.example"

// newWorld makes n trust anchors with a repository each.
func newWorld(t *pbt.T, mode string, n int, hosts []string) *world {
	w := &world{t: t, env: prog.New(t), hosts: hosts, links: map[string]string{}, seen: map[string]bool{}}
	tr := gen.DrawTree(t, gen.TreeOpts{TAs: 1, CAs: 0, ROAs: 0, Depth: 1, Wide: true, Hosts: hosts[:1], NoFlat: true,
		Notify: func(string) string { return w.env.URL + "/f/0/n.xml" }})
	for len(tr.TAs) < n {
		i := len(tr.TAs)
		gen.AddTA(t, tr, gen.TreeOpts{Wide: true, Hosts: hosts[i : i+1], NoFlat: true,
			Notify: func(string) string { return w.env.URL + fmt.Sprintf("/f/%d/n.xml", i) }})
	}
	for i, ta := range tr.TAs {
		ta.URI = fmt.Sprintf("rsync://%s/ta%d/root%d.cer", taHost, i, i)
		w.feeds = append(w.feeds, &feed{url: fmt.Sprintf("%s/f/%d/n.xml", w.env.URL, i), state: map[string][]byte{}})
	}
	st := gen.Settings{StrictManifests: true, StrictHash: true, Time: tr.Time}
	w.site = prog.NewSite(t, w.env, tr, st, 0)
	w.site.Repos = map[string]*prog.Repo{}
	w.o = prog.Octo{RRDP: true, Failover: true, Mode: mode, Filter: true, Wait: true, Concurrent: 1, Output: "output.json", Refresh: time.Millisecond}
	w.env.HTTP = w.serve
	w.env.Rsync = w.rsync
	return w
}

func (w *world) serve(p string, rw http.ResponseWriter, r *http.Request) {
	var i int
	var name string
	if n, _ := fmt.Sscanf(p, "f/%d/%s", &i, &name); n != 2 || i >= len(w.feeds) {
		http.Error(rw, "nothing here", 404)
		return
	}
	f := w.feeds[i]
	if name == "n.xml" {
		w.mu.Lock()
		if w.rounds == 0 || w.seen[p] {
			w.seen = map[string]bool{}
			w.rounds++
			if w.onRound != nil {
				w.onRound(w.rounds)
			}
		}
		w.seen[p] = true
		w.mu.Unlock()
	}
	f.mu.Lock()
	d := f.note
	if name != "n.xml" {
		d = f.docs[name]
	}
	f.mu.Unlock()
	if w.onDoc != nil {
		w.onDoc(name)
	}
	if d == "" {
		http.Error(rw, "no such document", 404)
		return
	}
	rw.Write([]byte(d))
}

func (w *world) rsync(run prog.RsyncRun) prog.RsyncDo {
	w.mu.Lock()
	w.dests = append(w.dests, run.Dest)
	w.mu.Unlock()
	if w.plain && !strings.HasPrefix(run.Source, "rsync://"+taHost+"/") {
		return prog.RsyncDo{Exit: 5}
	}
	fs, ok := prog.Fetch(run, w.site.Epochs[0].Files, w.links)
	if !ok {
		return prog.RsyncDo{Exit: 5}
	}
	return prog.RsyncDo{Files: fs}
}

func (w *world) cache() string { return w.env.Work + "/cache" }

// start the program; everything outside of what it may write is noted.
func (w *world) outside() map[string]string {
	return prog.Disk(w.env.Root, w.cache(), w.env.Work+"/rrdp.json", w.env.Work+"/output.json", w.env.Work+"/tmp")
}

// contained checks what has been touched outside of the cache.
func (w *world) contained(before map[string]string, p *prog.Proc) error {
	if d := prog.Diff(before, w.outside()); d != nil {
		return fmt.Errorf("outside of the cache: %s", strings.Join(d, ", "))
	}
	if b := w.env.BadTargets(); b != nil {
		return fmt.Errorf("rsync was to write to %v", b)
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, d := range w.dests {
		if !prog.Inside(w.cache(), d) {
			return fmt.Errorf("rsync was to write to %s, outside of the cache", d)
		}
	}
	return nil
}

func (w *world) fail(p *prog.Proc, f string, a ...interface{}) {
	w.t.Logf("options: %v", w.o.Args(w.env, w.site))
	for _, l := range w.site.TALs {
		w.t.Logf("TAL: %q", l.URIs)
	}
	for _, c := range w.site.Tr.CAs {
		w.t.Logf("CA at %q, repository %q, RRDP %q, access %q", c.Dir, c.Repo, c.Notify, c.RawSIA)
	}
	if len(w.links) > 0 {
		w.t.Logf("links: %v", w.links)
	}
	if p != nil {
		w.t.Logf("output of the program: %s", p.Tail(2500))
	}
	w.t.Failf(f, a...)
}

var oddNames = []string{"a", "b.roa", "c.cer", "ca.mft", "x y.roa", "...", "..a", "a..", ".hidden", "%2e%2e", "%2F", "-rf", "--delete", "~", "*", "&amp;", "<x>", "\"q\"", "é", "日本.roa", "a:b", "a@b", "#frag", "?q=1", "CON", "$HOME", "`id`", ";", "|", "rsync:", "0", strings.Repeat("n", 255), "tmp", "cache"}

func c18Exact(t *pbt.T) {
	n := t.Range(1, 2)
	hs := []string{"h0.example", "h1.example:8873", "h0.example.org", "10.0.0.1", "rfc8630"}
	pbt.Shuffle(t, hs)
	hs = hs[:2]
	w := newWorld(t, "server", n, hs)
	w.plain = true
	w.site.AddEpoch()
	// the events
	type round struct {
		restart bool
		docs    [][]event
		refused bool
	}
	foreign := func(i int, name string) (string, string) {
		h := hs[i]
		other := hs[1-i]
		return pbt.Pick(t,
			"rsync://"+other+"/"+name, "rsync://"+h+".evil/"+name, "rsync://x"+h+"/"+name, "rsync://user@"+h+"/"+name,
			"RSYNC://"+h+"/"+name, "http://"+h+"/"+name, "https://"+h+"/"+name, "file:///"+name, h+"/"+name, "/"+h+"/"+name,
			"rsync:/"+h+"/"+name, "rsync:///"+name, "rsync://"+taHost+"/ta0/root0.cer", "rsync://"+strings.ToUpper(h)+"x/"+name,
			" rsync://"+h+"/"+name, "rsync://"+other+"/rsync://"+h+"/"+name, "//"+h+"/"+name, "rsync://"+h+":1/"+name,
			w.env.Work+"/cache/"+h+"/"+name, "", name, "rsync://"), "foreign"
	}
	parent := func(i int, name string) (string, string) {
		return pbt.Pick(t, "rsync://"+hs[i]+"/../"+name, "rsync://"+hs[i]+"/m/../"+name, "rsync://"+hs[i]+"/../../"+name,
			"rsync://"+hs[i]+"/m/x/..", "rsync://"+hs[i]+"/../"+hs[1-i]+"/"+name, "rsync://"+hs[i]+"/m/a/../../b/"+name,
			"rsync://"+hs[i]+"/../../../../"+name, "rsync://"+hs[i]+"/../../rrdp.json"), "parent"
	}
	var dirs, files [2][]string
	for i := range hs[:n] {
		dirs[i] = []string{"m/"}
		for k := t.Range(1, 4); k > 0; k-- {
			d := pbt.Pick(t, dirs[i]...) + pbt.Pick(t, oddNames...) + "d/"
			if t.Chance(1, 4) {
				d = pbt.Pick(t, oddNames...) + "m/"
			}
			if len(d) < 700 && !strings.Contains(d, strings.Repeat("n", 255)) {
				dirs[i] = append(dirs[i], d)
			}
		}
		seen := map[string]bool{}
		for k := t.Range(1, 7); k > 0; k-- {
			f := pbt.Pick(t, dirs[i]...) + pbt.Pick(t, oddNames...)
			if !seen[f] {
				seen[f] = true
				files[i] = append(files[i], f)
			}
		}
	}
	var sig strings.Builder
	touched := map[string]int{}
	refused := 0
	draw := func(i int, snapshot bool) ([]event, bool) {
		var es []event
		bad := false
		names := append([]string(nil), files[i]...) // each is named once in a document
		pbt.Shuffle(t, names)
		bad = t.Chance(1, 12)
		for k := t.Intn(7); k > 0 && len(names) > 0; k-- {
			f := names[0]
			e := event{uri: "rsync://" + hs[i] + "/" + f, kind: "own", data: t.Bytes(t.Intn(40))}
			if t.Chance(1, 20) {
				e.data = t.Bytes(t.Intn(5000))
			}
			if !snapshot && t.Chance(2, 5) {
				e.withdraw, e.data = true, nil
			}
			if bad || t.Chance(1, 4) {
				e.uri, e.kind = foreign(i, f)
				refused++
			} else {
				touched[f]++
				names = names[1:]
			}
			es = append(es, e)
			fmt.Fprintf(&sig, "%v%s%d,", e.withdraw, e.kind, len(f))
		}
		if bad { // what comes after it may or may not be applied
			e := event{data: t.Bytes(3), withdraw: !snapshot && t.Bool()}
			e.uri, e.kind = parent(i, pbt.Pick(t, files[i]...))
			refused++
			es = append(es, e)
			fmt.Fprintf(&sig, "%v%s,", e.withdraw, e.kind)
		}
		return es, bad
	}
	rounds := make([][2]round, t.Range(2, 9))
	for k := range rounds {
		for i := range w.feeds {
			r := round{}
			if k == 0 || rounds[k-1][i].refused || t.Chance(1, 6) {
				r.restart = true
				es, bad := draw(i, true)
				r.docs, r.refused = [][]event{es}, bad
			} else {
				for m := t.Intn(4); m > 0 && !r.refused; m-- {
					es, bad := draw(i, false)
					r.docs = append(r.docs, es)
					r.refused = bad
				}
			}
			rounds[k][i] = r
			sig.WriteByte(';')
		}
	}
	// the model
	want := map[string]string{}
	ever := map[string]bool{}
	mkdir := func(p string) {
		for p != "." && p != "/" {
			ever[p] = true
			p = filepath.Dir(p)
		}
	}
	apply := func(i int, e event) {
		if e.kind != "own" {
			return
		}
		p := strings.TrimPrefix(e.uri, "rsync://")
		if e.withdraw {
			delete(want, p)
			return
		}
		want[p] = "file:" + string(e.data)
		mkdir(filepath.Dir(p))
	}
	for _, ta := range w.site.Tr.TAs {
		p := strings.TrimPrefix(ta.URI, "rsync://")
		want[p] = "file:" + string(w.site.Epochs[0].Files[ta.URI])
		mkdir(filepath.Dir(p))
		mkdir(strings.TrimPrefix(prog.Module(ta.CA.Dir), "rsync://"))
	}
	var state [2]map[string][]byte
	var verdict error
	var at int
	done := make(chan struct{})
	step := func(k int) { // publish round k and bring the model there
		for i, f := range w.feeds {
			r := rounds[k][i]
			for _, d := range r.docs {
				if r.restart {
					f.restart(d)
					state[i] = map[string][]byte{}
				}
				for _, e := range d {
					apply(i, e)
					if e.withdraw {
						delete(state[i], e.uri)
					} else {
						state[i][e.uri] = e.data
					}
				}
				if !r.restart {
					var full []event
					for u, b := range state[i] {
						full = append(full, event{uri: u, data: b})
					}
					f.next(d, full)
				}
			}
		}
	}
	w.onRound = func(n int) {
		if n > 1 && verdict == nil {
			d := prog.Disk(w.cache())
			got := map[string]string{}
			for p, c := range d {
				if c == "directory" {
					if !ever[p] {
						verdict = fmt.Errorf("a directory %q was made", p)
					}
					continue
				}
				got[p] = c
			}
			for p := range want {
				if _, ok := got[p]; !ok {
					verdict = fmt.Errorf("%q is missing", p)
				}
			}
			for p, c := range got {
				if x, ok := want[p]; !ok {
					verdict = fmt.Errorf("%q is there, which is not published", p)
				} else if x != c {
					verdict = fmt.Errorf("%q is %.40q instead of %.40q", p, c, x)
				}
			}
			at = n - 2
		}
		if n > len(rounds) || verdict != nil {
			select {
			case <-done:
			default:
				close(done)
			}
			return
		}
		step(n - 1)
	}
	before := w.outside()
	w.o.Port = prog.FreePort()
	p := w.env.Start("octorpki", w.o.Args(w.env, w.site)...)
	explain := func() {
		for k := range rounds {
			for i := range w.feeds {
				for _, d := range rounds[k][i].docs {
					t.Logf("round %d, %s, restart=%v: %v", k, hs[i], rounds[k][i].restart, d)
				}
			}
		}
	}
	select {
	case <-done:
	case <-p.Done():
		explain()
		w.fail(p, "octorpki ended by itself with status %d", p.Code)
	case <-time.After(60 * time.Second):
		p.Stacks()
		explain()
		w.fail(p, "not through with %d rounds after 60 s", len(rounds))
	}
	p.Kill()
	if verdict != nil {
		explain()
		w.fail(p, "after round %d: %v", at, verdict)
	}
	if err := w.contained(before, p); err != nil {
		explain()
		w.fail(p, "%v", err)
	}
	many := false
	for _, c := range touched {
		if c > 1 {
			many = true
		}
	}
	if many || refused > 0 {
		t.NonTrivial(sig.String())
	}
	if refused > 0 {
		t.Label("refused URIs")
	}
	if many {
		t.Label("files named repeatedly")
	}
	t.Sample(fmt.Sprintf("%d repositories, %d rounds, %d files named, %d refused URIs", n, len(rounds), len(touched), refused))
}

// hostile URIs for host h.
func hostileURI(t *pbt.T, w *world, h string) string {
	up := strings.Repeat("../", t.Range(1, 6))
	name := pbt.Pick(t, "x", "canary", "x.cer", "m0/d0/x.roa", "tal/0.tal", "rrdp.json", "output.json", "")
	switch t.Intn(14) {
	case 0:
		return "rsync://" + h + "/" + up + name
	case 1:
		return "rsync://" + h + "/m0/" + up + name
	case 2:
		return "rsync://" + up + name
	case 3:
		return "rsync://../" + h + "/" + name
	case 4:
		return "rsync:///" + w.env.Work + "/" + name
	case 5:
		return w.env.Work + "/" + name
	case 6:
		return "file://" + w.env.Work + "/" + name
	case 7:
		return "rsync://" + h + "/" + strings.Repeat("d/", t.Range(1, 300)) + name
	case 8:
		return "rsync://" + h + "/m0/" + strings.Repeat("l", t.Range(240, 5000))
	case 9:
		return "rsync://" + h + pbt.Pick(t, "", "/", "//", "/.", "/..", "/m0", "/m0/", "/m0//", "/m0/.", "/m0/..", "/./m0/x", "//m0/x", "/m0/./x/", "/m0/d0")
	case 10:
		return "rsync://" + h + "/" + strings.ReplaceAll("m0/"+up+name, "/", "\\")
	case 11:
		return pbt.Pick(t, "", "rsync://", "rsync:", "x", ".", "..", "/", "../", "-e sh", "--rsh=touch x", "rsync://-x/m/f", "rsync://h/--server", "RSYNC://"+h+"/m0/x", "rsync:// /m/ ", "rsync://"+h+"/\x7f/x", "rsync://.", "rsync://..", "rsync://./x/y", "rsync://../x", "rsync://../x/y")
	case 12:
		return "rsync://" + h + "/m0/" + pbt.Pick(t, oddNames...) + "/" + pbt.Pick(t, oddNames...) + pbt.Pick(t, "", "/")
	}
	return "rsync://" + h + "/m0/" + pbt.Pick(t, "a", "a/b", "a/b/c", "link/x", "link", "link2/../x", "d0/link/y", "link/a/b")
}

func c18Hostile(t *pbt.T) {
	n := t.Range(1, 2)
	hs := []string{"h0.example", "h1.example"}
	w := newWorld(t, pbt.Pick(t, "server", "oneoff"), n, hs)
	tr := w.site.Tr
	var sig strings.Builder
	mode := t.Intn(8)
	evil := func() string { return hostileURI(t, w, hs[0]) }
	// certificates
	if mode&1 != 0 {
		c := tr.CAs[0]
		c.RawSIA = []gen.Access{{gen.OidCaRepository, pbt.Pick(t, c.Repo, evil(), evil())}, {gen.OidRpkiManifest, pbt.Pick(t, c.Dir+c.MftName, evil(), evil())}}
		note := c.Notify
		if t.Chance(1, 3) {
			note = pbt.Pick(t, evil(), "file:///etc/passwd", "http://127.0.0.1:1/x", "http://", "http://[::1", "gopher://x/", w.env.URL+"/../../n.xml", strings.Repeat("h", 3000))
		}
		c.RawSIA = append(c.RawSIA, gen.Access{gen.OidRpkiNotify, note})
		fmt.Fprintf(&sig, "sia%q", c.RawSIA)
		t.Label("hostile certificate")
	}
	// TALs
	if mode&2 != 0 {
		l := w.site.TALs[0]
		u := evil()
		if !strings.HasPrefix(u, "rsync://") || strings.ContainsAny(u, "\n ") {
			u = "rsync://" + hs[0] + "/../../../x/y.cer"
		}
		l.URIs = []string{u, w.env.URL + "/ta/0-0.cer"}
		pbt.Shuffle(t, l.URIs)
		if t.Bool() {
			l.URIs = []string{u}
		}
		uris := l.URIs
		tr.TAs[0].TALText = func(uri string, key []byte) string {
			return strings.Join(uris, "\n") + "\n\n" + base64.StdEncoding.EncodeToString(key) + "\n"
		}
		if strings.HasPrefix(u, "rsync://") {
			tr.TAs[0].URI = u
		}
		fmt.Fprintf(&sig, "tal%q", u)
		t.Label("hostile TAL")
	}
	ep := w.site.AddEpoch()
	// links
	if mode&4 != 0 {
		for k := t.Range(1, 3); k > 0; k-- {
			at := "rsync://" + hs[0] + "/m0/" + pbt.Pick(t, "link", "link2", "d0/link", "a", "a/b", "x.roa")
			to := pbt.Pick(t, w.env.Work, w.env.Root, w.env.Work+"/canary", w.env.Root+"/nowhere", "../../..", "../../../canary", "..", "../x", ".", "../../../../../../..", "d0", "link", "../../"+hs[1]+"/m0", "nowhere")
			w.links[at] = to
			fmt.Fprintf(&sig, "link%s-%s", at[12:], to)
		}
		ep.Files["rsync://"+hs[0]+"/m0/readme"] = []byte("x")
		if t.Bool() {
			w.o.RRDP = t.Bool()
		}
		t.Label("links")
	}
	// events
	total := 0
	draw := func(h string) []event {
		var es []event
		for k := t.Intn(7); k > 0; k-- {
			e := event{uri: hostileURI(t, w, h), data: t.Bytes(t.Intn(30)), withdraw: t.Chance(1, 3), kind: "hostile"}
			if strings.ContainsAny(e.uri, "\x7f") {
				e.uri = "x"
			}
			es = append(es, e)
			fmt.Fprintf(&sig, "%v%q", e.withdraw, e.uri)
			total++
		}
		return es
	}
	type doc struct {
		restart bool
		es      []event
	}
	var all []doc
	rounds := t.Range(2, 6)
	plan := make([][]doc, rounds)
	for k := range plan {
		for i := range w.feeds {
			d := doc{k == 0 || t.Chance(1, 2), draw(hs[i])}
			plan[k] = append(plan[k], d)
			all = append(all, d)
		}
	}
	publish := func(k int) {
		for i, f := range w.feeds {
			d := plan[k][i]
			if d.restart {
				f.restart(d.es)
			} else {
				f.next(d.es, d.es)
			}
		}
	}
	done := make(chan struct{})
	fin := func() {
		select {
		case <-done:
		default:
			close(done)
		}
	}
	w.onRound = func(n int) {
		if n > rounds {
			fin()
			return
		}
		publish(n - 1)
	}
	w.env.Write("canary", []byte("canary"))
	w.env.Write("d/canary", []byte("canary"))
	for i, dir := range []string{w.env.Root, filepath.Join(w.env.Root, "a"), filepath.Join(w.env.Root, "a/b"), filepath.Join(w.env.Root, "a/b/c")} {
		for _, f := range []string{"canary", "x", "x.cer"} {
			os.WriteFile(filepath.Join(dir, f), []byte(fmt.Sprint("outside ", i)), 0666)
			os.Chmod(filepath.Join(dir, f), 0666)
		}
		os.Chmod(dir, 0777)
	}
	os.MkdirAll(w.cache(), 0777)
	os.Chown(w.cache(), 65534, 65534)
	before := w.outside()
	explain := func() {
		for k := range plan {
			t.Logf("round %d: %v", k, plan[k])
		}
	}
	if w.o.Mode == "server" {
		w.o.Port = prog.FreePort()
		p := w.env.Start("octorpki", w.o.Args(w.env, w.site)...)
		// without a usable RRDP URL nothing will be asked for
		late := time.After(time.Duration(600) * time.Millisecond)
		alive := false
	loop:
		for {
			select {
			case <-done:
				break loop
			case <-p.Done():
				explain()
				w.fail(p, "octorpki ended by itself with status %d", p.Code)
			case <-late:
				if code, _, _, err := prog.Get(fmt.Sprintf("http://127.0.0.1:%d/infos", w.o.Port), 20*time.Second); err != nil || code != 200 {
					if !alive { // perhaps it has not got to listening yet
						alive = true
						late = time.After(5 * time.Second)
						continue
					}
					p.Stacks()
					explain()
					w.fail(p, "octorpki does not answer any more: %d %v", code, err)
				}
				break loop
			}
		}
		p.Kill()
		if err := w.contained(before, p); err != nil {
			explain()
			w.fail(p, "%v", err)
		}
	} else {
		for k := 0; k < rounds && k < 3; k++ {
			w.mu.Lock()
			w.rounds, w.seen = k, map[string]bool{"f/0/n.xml": true, "f/1/n.xml": true}
			w.mu.Unlock()
			p := w.env.Start("octorpki", w.o.Args(w.env, w.site)...)
			if !p.Wait(90 * time.Second) {
				p.Stacks()
				explain()
				w.fail(p, "octorpki -mode oneoff has not ended after 90 s")
			}
			if p.Code != 0 || p.Crashed() {
				explain()
				w.fail(p, "octorpki -mode oneoff ended with status %d", p.Code)
			}
			if err := w.contained(before, p); err != nil {
				explain()
				w.fail(p, "run %d: %v", k, err)
			}
		}
	}
	if total > 1 {
		t.NonTrivial(sig.String())
	}
	t.Sample(fmt.Sprintf("%d hostile events, mode %d, %s", total, mode, w.o.Mode))
}

func c18Killed(t *pbt.T) {
	hs := []string{"h0.example", "h1.example"}
	n := t.Range(1, 2)
	w := newWorld(t, "server", n, hs)
	w.site.AddEpoch()
	var sig strings.Builder
	state := make([]map[string][]byte, n)
	full := func(i int) []event {
		var es []event
		var us []string
		for u := range state[i] {
			us = append(us, u)
		}
		sort.Strings(us)
		for _, u := range us {
			es = append(es, event{uri: u, data: state[i][u]})
		}
		return es
	}
	change := func(i int) {
		f := w.feeds[i]
		f.mu.Lock()
		defer f.mu.Unlock()
		var es []event
		named := map[string]bool{}
		for k := t.Range(1, 12); k > 0; k-- {
			u := fmt.Sprintf("rsync://%s/m/d%d/f%d.roa", hs[i], t.Intn(3), t.Intn(6))
			if named[u] {
				continue
			}
			named[u] = true
			e := event{uri: u, data: t.Bytes(t.Intn(200))}
			if t.Chance(1, 8) {
				e.data = t.Bytes(300000)
			}
			if _, ok := state[i][u]; ok && t.Chance(1, 3) {
				e.withdraw = true
				delete(state[i], u)
			} else {
				state[i][u] = e.data
			}
			es = append(es, e)
		}
		if f.docs == nil || t.Chance(1, 8) {
			f.restart(full(i))
		} else {
			f.next(es, full(i))
		}
	}
	for i := range state {
		state[i] = map[string][]byte{}
		change(i)
	}
	before := w.outside()
	kills := t.Range(1, 5)
	for k := 0; k < kills; k++ {
		for i := range state {
			for m := t.Intn(3); m > 0; m-- {
				change(i)
			}
		}
		after := t.Range(0, 6) // documents
		delay := time.Duration(t.Intn(3000)) * time.Microsecond
		reached := make(chan struct{})
		var once sync.Once
		w.onDoc = func(string) {
			w.mu.Lock()
			after--
			hit := after < 0
			w.mu.Unlock()
			if hit {
				once.Do(func() { close(reached) })
			}
		}
		w.o.Port = prog.FreePort()
		p := w.env.Start("octorpki", w.o.Args(w.env, w.site)...)
		select {
		case <-reached:
		case <-p.Done():
			w.fail(p, "run %d: octorpki ended by itself with status %d", k, p.Code)
		case <-time.After(60 * time.Second):
			p.Stacks()
			w.fail(p, "run %d: nothing fetched after 60 s", k)
		}
		time.Sleep(delay)
		p.Kill()
		if err := w.contained(before, p); err != nil {
			w.fail(p, "run %d: %v", k, err)
		}
		fmt.Fprintf(&sig, "%d/%d,", after, delay/100)
		if b, err := os.ReadFile(w.env.Work + "/rrdp.json"); err == nil && t.Chance(1, 8) { // a lost write
			os.Truncate(w.env.Work+"/rrdp.json", int64(t.Intn(len(b)+1)))
			t.Label("state file cut off")
		} else if err == nil && t.Chance(1, 10) {
			w.env.Write("rrdp.json", []byte(pbt.Pick(t, "null", "{}", "[]", "\x00\x00\x00", "{\"x\":null}", "0")))
			t.Label("another state file")
		}
	}
	for i := range state {
		if t.Bool() {
			change(i)
		}
	}
	w.onDoc = nil
	w.o.Mode = "oneoff"
	w.o.Port = 0
	p := w.env.Start("octorpki", w.o.Args(w.env, w.site)...)
	if !p.Wait(90 * time.Second) {
		p.Stacks()
		w.fail(p, "octorpki -mode oneoff has not ended after 90 s")
	}
	if p.Code != 0 {
		w.fail(p, "octorpki -mode oneoff ended with status %d", p.Code)
	}
	total := 0
	for i := range state {
		for u, d := range state[i] {
			total++
			b, err := os.ReadFile(filepath.Join(w.cache(), strings.TrimPrefix(u, "rsync://")))
			if err != nil {
				w.fail(p, "after the last run: %v", err)
			}
			if string(b) != string(d) {
				w.fail(p, "after the last run %s holds %d octets, not the %d published", u, len(b), len(d))
			}
		}
	}
	if err := w.contained(before, p); err != nil {
		w.fail(p, "%v", err)
	}
	if total > 0 {
		t.NonTrivial(sig.String())
	}
	t.Sample(fmt.Sprintf("%d repositories, killed %d times, %d files", n, kills, total))
}
