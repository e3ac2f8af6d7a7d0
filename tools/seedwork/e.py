MAIN='''package main

import (
%s
)

'''
def main(*imps): return MAIN % '\n'.join('\t'+(i if ' ' in i else '"%s"'%i) for i in imps)
OCTO='cmd/octorpki/octorpki.go'
RACE=open('/tmp/seedwork/demo.sh').read().replace('go test -count=1','CGO_ENABLED=1 go test -race -count=1').replace('@PKG@','cmd/octorpki')
RRDPDEMO=main('crypto/sha256','fmt','encoding/base64','net/http','net/http/httptest','os','sort','testing','github.com/opentracing/opentracing-go')+'''
// server publishes files in steps: a snapshot, then deltas.
type server struct {
	url   string
	steps []map[string]string
}

func publish(m map[string]string) (s string) {
	var us []string
	for u := range m {
		us = append(us, u)
	}
	sort.Strings(us)
	for _, u := range us {
		d := m[u]
		s += fmt.Sprintf("<publish uri=%q>%s</publish>", u, base64.StdEncoding.EncodeToString([]byte(d)))
	}
	return
}

const head = `xmlns="http://www.ripe.net/rpki/rrdp" version="1" session_id="s"`

func (v *server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	all := map[string]string{}
	docs := map[string]string{}
	n := len(v.steps)
	deltas := ""
	for i, m := range v.steps {
		for u, d := range m {
			all[u] = d
		}
		if i > 0 {
			x := fmt.Sprintf("<delta %s serial=\\"%d\\">%s</delta>", head, i+1, publish(m))
			docs[fmt.Sprintf("/d%d.xml", i+1)] = x
			deltas += fmt.Sprintf("<delta serial=\\"%d\\" uri=\\"%s/d%d.xml\\" hash=\\"%x\\"/>", i+1, v.url, i+1, sha256.Sum256([]byte(x)))
		}
	}
	snap := fmt.Sprintf("<snapshot %s serial=\\"%d\\">%s</snapshot>", head, n, publish(all))
	docs["/s.xml"] = snap
	docs["/n.xml"] = fmt.Sprintf("<notification %s serial=\\"%d\\"><snapshot uri=\\"%s/s.xml\\" hash=\\"%x\\"/>%s</notification>", head, n, v.url, sha256.Sum256([]byte(snap)), deltas)
	fmt.Fprint(w, docs[r.URL.Path])
}

func TestDemo(t *testing.T) {
	for _, broken := range []int{0, 1, 2, 3, 9} { // the step that cannot be written at first
		dir := t.TempDir()
		*Basepath = dir + "/"
		v := &server{}
		h := httptest.NewServer(v)
		v.url = h.URL
		s := NewOctoRPKI(nil, nil)
		n := h.URL + "/n.xml"
		s.setRRDPDomain(n, "rsync://h.example/")
		s.setRRDPFetch(n, "rsync://h.example/m")
		span := opentracing.StartSpan("x")
		for i := 0; i < 4; i++ {
			v.steps = append(v.steps, map[string]string{
				fmt.Sprintf("rsync://h.example/m/a%d.roa", i): fmt.Sprint("a", i),
				fmt.Sprintf("rsync://h.example/m/b%d.roa", i): fmt.Sprint("b", i),
			})
			bad := fmt.Sprintf("%s/h.example/m/b%d.roa", dir, i)
			if i == broken {
				if err := os.MkdirAll(bad, 0755); err != nil {
					t.Fatal(err)
				}
				s.fetchRRDP(n, "rsync://h.example/m", span)
				if err := os.Remove(bad); err != nil {
					t.Fatal(err)
				}
			}
			s.fetchRRDP(n, "rsync://h.example/m", span)
			for k := 0; k <= i; k++ {
				for _, f := range []string{"a", "b"} {
					b, err := os.ReadFile(fmt.Sprintf("%s/h.example/m/%s%d.roa", dir, f, k))
					if err != nil || string(b) != fmt.Sprint(f, k) {
						t.Errorf("step %d could not be written at first; after step %d: %s%d.roa is %q, %v", broken, i, f, k, b, err)
					}
				}
			}
		}
		h.Close()
	}
}
'''
KINDS='''package pki_test

import (
	"testing"

	pki "github.com/cloudflare/cfrpki/validator/pki"
)

type quiet struct{}

func (quiet) Debugf(string, ...interface{}) {}
func (quiet) Printf(string, ...interface{}) {}
func (quiet) Errorf(string, ...interface{}) {}
func (quiet) Warnf(string, ...interface{})  {}
func (quiet) Infof(string, ...interface{})  {}
func (quiet) Debug(...interface{})          {}
func (quiet) Print(...interface{})          {}
func (quiet) Error(...interface{})          {}
func (quiet) Warn(...interface{})           {}
func (quiet) Info(...interface{})           {}

// reports of an exploration: file and kind.
func reports(w *world) map[string]string {
	m := w.manager()
	m.ReportErrors, m.StrictManifests, m.StrictHash = true, true, true
	m.Log = quiet{}
	out := map[string]string{}
	done := make(chan bool)
	go func() {
		for err := range m.Errors {
			switch e := err.(type) {
			case *pki.CertificateError:
				out[e.File.ComputePath()] += pki.ErrorTypeToName[e.EType] + " "
			case *pki.ResourceError:
				out[e.File.ComputePath()] += pki.ErrorTypeToName[e.EType] + " "
			case *pki.FileError:
				out[e.File.ComputePath()] += pki.ErrorTypeToName[e.EType] + " "
			}
		}
		close(done)
	}()
	m.PutFiles([]*pki.PKIFile{{Path: "ta.tal", Type: pki.TYPE_TAL}})
	m.Explore(false, false)
	m.Close()
	<-done
	return out
}

'''
SEEDS=[
dict(id='c18-host-prefix',prop='C18',pkg='cmd/octorpki',
 edits=[('sync/lib/utils.go','fmt.Sprintf("rsync://%s/", rsyncDomain[0]), nil','fmt.Sprintf("rsync://%s", rsyncDomain[0]), nil')],
 needs='an RRDP repository that publishes a file of a host whose name begins with the name of its own host',
 breaks='the file of the other host is written',
 demo=main('testing','os','path/filepath','syncpki "github.com/cloudflare/cfrpki/sync/lib"')+'''func TestDemo(t *testing.T) {
	dir := t.TempDir()
	*Basepath = dir + "/"
	s := NewOctoRPKI(nil, nil)
	_, own, err := syncpki.ExtractRsyncDomainModule("rsync://h.example/m/d/x.cer")
	if err != nil {
		t.Fatal(err)
	}
	for _, u := range []string{"rsync://h.example/m/a.roa", "rsync://h.example.org/m/b.roa", "rsync://h.example:873/m/c.roa", "rsync://other.example/m/d.roa"} {
		s.ReceiveRRDPFileCallback("n", "s", u, []byte("x"), false, true, 1, own)
	}
	n := 0
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			n++
			if p != filepath.Join(dir, "h.example/m/a.roa") {
				t.Errorf("%s was written", p)
			}
		}
		return nil
	})
	if n == 0 {
		t.Error("nothing was written")
	}
}
'''),
dict(id='c20-length-zero',prop='C20',pkg='ov',
 edits=[('ov/ov.go','mask <= roa.GetMaxLen()','(mask <= roa.GetMaxLen() || roa.GetMaxLen() == 0)')],
 needs='a payload for a default route with maximum length 0',
 breaks='every route of its AS is valid',
 demo='''package ov_test

import (
	"net"
	"testing"

	"github.com/cloudflare/cfrpki/ov"
)

type vrp struct {
	prefix *net.IPNet
	asn    uint32
	max    int
}

func (v vrp) GetASN() uint32        { return v.asn }
func (v vrp) GetMaxLen() int        { return v.max }
func (v vrp) GetPrefix() *net.IPNet { return v.prefix }

func cidr(s string) *net.IPNet {
	_, n, err := net.ParseCIDR(s)
	if err != nil {
		panic(err)
	}
	return n
}

func TestDemo(t *testing.T) {
	o := ov.NewOV([]ov.AbstractROA{vrp{cidr("0.0.0.0/0"), 1, 0}, vrp{cidr("10.0.0.0/8"), 2, 16}})
	for _, c := range []struct {
		p    string
		as   uint32
		want int
	}{{"0.0.0.0/0", 1, ov.STATE_VALID}, {"10.0.0.0/8", 1, ov.STATE_INVALID}, {"10.0.0.0/8", 2, ov.STATE_VALID}, {"192.0.2.0/24", 1, ov.STATE_INVALID}, {"10.0.0.0/17", 2, ov.STATE_INVALID}} {
		if _, got, _ := o.Validate(vrp{cidr(c.p), c.as, 0}); got != c.want {
			t.Errorf("%s of %d: %v", c.p, c.as, got)
		}
	}
}
'''),
dict(id='c21-large-as',prop='C21',pkg='cmd/octorpki',kit='octo',
 edits=[(OCTO,'ASN:    fmt.Sprintf("AS%v", roa.ASN),','ASN:    fmt.Sprintf("AS%v", int32(roa.ASN)),')],
 needs='a ROA for an AS number of 2147483648 or more',
 breaks='its payloads are listed with a negative AS number',
 demo=main('testing','github.com/opentracing/opentracing-go','syncpki "github.com/cloudflare/cfrpki/sync/lib"','pki "github.com/cloudflare/cfrpki/validator/pki"')+'''func TestDemo(t *testing.T) {
	w := newWorld()
	ta := w.add(nil, "ta", prefixes("10.0.0.0/8"), asns(1, 4294967295))
	ta.roa("a.roa", 7, []entry{{"10.1.0.0/16", 16}}, nil)
	ta.roa("b.roa", 4200000000, []entry{{"10.2.0.0/16", 16}}, nil)
	w.publish()
	s, dir := w.octo(t)
	s.Fetcher = syncpki.NewLocalFetch(dir + "/src/")
	m := w.manager()
	m.PutFiles([]*pki.PKIFile{{Path: "ta.tal", Type: pki.TYPE_TAL}})
	m.Explore(false, false)
	l, _ := s.generateROAList([]*pki.SimpleManager{m}, opentracing.StartSpan("x"))
	want := map[string]string{"10.1.0.0/16": "AS7", "10.2.0.0/16": "AS4200000000"}
	for _, r := range l.Data {
		if a, _ := r.ASN.(string); want[r.Prefix] != a {
			t.Errorf("%s: %v", r.Prefix, r.ASN)
		}
	}
	if len(l.Data) != 2 {
		t.Error(l.Data)
	}
}
'''),
dict(id='c25-two-dots',prop='C25',pkg='sync/lib',
 edits=[('sync/lib/fetch.go','switch fullnameSplit[len(fullnameSplit)-1] {','switch fullnameSplit[1%len(fullnameSplit)] {')],
 needs='a file with another dot in its name',
 breaks='it is listed with the wrong type',
 demo='''package syncpki_test

import (
	"os"
	"path/filepath"
	"testing"

	syncpki "github.com/cloudflare/cfrpki/sync/lib"
	pki "github.com/cloudflare/cfrpki/validator/pki"
)

func TestDemo(t *testing.T) {
	base := t.TempDir() + "/"
	dir := base + "h.example/m"
	if err := os.MkdirAll(dir, 0755); err != nil {
		t.Fatal(err)
	}
	want := map[string]int{"a.roa": pki.TYPE_ROA, "as1.v2.roa": pki.TYPE_ROA, "b.cer": pki.TYPE_CER, "c.roa.crl": pki.TYPE_CRL, "d.1.mft": pki.TYPE_MFT}
	for n := range want {
		if err := os.WriteFile(filepath.Join(dir, n), []byte(n), 0644); err != nil {
			t.Fatal(err)
		}
	}
	f := syncpki.NewLocalFetch(base)
	got := 0
	err := f.GetRepository(&pki.PKIFile{Repo: "rsync://h.example/m/"}, func(file *pki.PKIFile, data *pki.SeekFile, _ bool) {
		got++
		if k := want[filepath.Base(file.Path)]; k != file.Type {
			t.Errorf("%s has type %d instead of %d", file.Path, file.Type, k)
		}
	})
	if err != nil || got != len(want) {
		t.Error(got, err)
	}
}
'''),
dict(id='c26-time-zone',prop='C26',pkg='cmd/localrpki',
 edits=[('cmd/localrpki/localrpki.go','time.Parse(time.RFC3339, *ValidTime)','time.Parse("2006-01-02T15:04:05Z", *ValidTime)')],
 needs='a validation time with an offset from UTC',
 breaks='the time is not understood, and everything is judged at year 1: nothing is valid',
 kit='local',
 demo=main('testing','time')+'''func TestDemo(t *testing.T) {
	w := newWorld()
	ta := w.add(nil, "ta", prefixes("10.0.0.0/8"), asns(1, 70000))
	ta.roa("a.roa", 1, []entry{{"10.1.0.0/16", 16}}, nil)
	w.publish()
	expect(t, "UTC", w.local(t, "-valid.time", now.Format(time.RFC3339)), "10.1.0.0/16-16 AS1")
	expect(t, "offset", w.local(t, "-valid.time", now.In(time.FixedZone("", 5*3600+1800)).Format(time.RFC3339)), "10.1.0.0/16-16 AS1")
	expect(t, "past", w.local(t, "-valid.time", "2001-01-01T00:00:00+01:00"))
}
'''),
dict(id='c28-inherited-family',prop='C28',pkg='cmd/octorpki',kit='octo',
 edits=[(OCTO,'Inherit: int(ipc.Family),','Inherit: 1,')],
 needs='a certificate that inherits IPv6 resources',
 breaks='it is shown as one that inherits IPv4 resources',
 demo=main('testing','github.com/opentracing/opentracing-go','syncpki "github.com/cloudflare/cfrpki/sync/lib"','pki "github.com/cloudflare/cfrpki/validator/pki"')+'''func TestDemo(t *testing.T) {
	w := newWorld()
	ta := w.add(nil, "ta", prefixes("10.0.0.0/8", "2001:db8::/32"), asns(1, 70000))
	w.add(ta, "four", prefixes("inherit4"), asns(1, 1))
	w.add(ta, "six", prefixes("10.0.0.0/9", "inherit6"), asns(1, 1))
	w.publish()
	s, dir := w.octo(t)
	s.Fetcher = syncpki.NewLocalFetch(dir + "/src/")
	m := w.manager()
	m.PutFiles([]*pki.PKIFile{{Path: "ta.tal", Type: pki.TYPE_TAL}})
	m.Explore(false, false)
	_, res := s.generateROAList([]*pki.SimpleManager{m}, opentracing.StartSpan("x"))
	count := map[int]int{}
	for _, r := range res.Resources {
		if r.Type == "certificate" {
			for _, i := range r.IPs {
				count[i.Inherit]++
			}
		}
	}
	if count[1] != 1 || count[2] != 1 || count[0] != 3 {
		t.Errorf("inherited: %v", count)
	}
}
'''),
dict(id='c29-rrdp-info',prop='C29',pkg='cmd/octorpki',sh=RACE,
 edits=[(OCTO,'''	s.RRDPInfoMu.RLock()
	defer s.RRDPInfoMu.RUnlock()

	info := s.RRDPInfo[path]
''','''	info := s.RRDPInfo[path]
''')],
 needs='two RRDP repositories fetched at once, one beginning when the other ends',
 breaks='the map of serials is read while it is written',
 demo=main('sync','testing','net/http','net/http/httptest','github.com/opentracing/opentracing-go','fmt')+'''func TestDemo(t *testing.T) {
	const x = `xmlns="http://www.ripe.net/rpki/rrdp" version="1" session_id="s" serial="1"`
	var url string
	h := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if r.URL.Path == "/s.xml" {
			fmt.Fprintf(w, "<snapshot %s></snapshot>", x)
			return
		}
		fmt.Fprintf(w, "<notification %s><snapshot uri=\\"%s/s.xml\\" hash=\\"%s\\"/></notification>", x, url, hash(fmt.Sprintf("<snapshot %s></snapshot>", x)))
	}))
	defer h.Close()
	url = h.URL
	*Basepath = t.TempDir() + "/"
	s := NewOctoRPKI(nil, nil)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 30; i++ {
				s.fetchRRDP(fmt.Sprintf("%s/%d/%d/n.xml", url, g, i), "rsync://h.example/m", opentracing.StartSpan("x"))
			}
		}(g)
	}
	wg.Wait()
	if len(s.getRRDPInfo()) != 120 {
		t.Error(len(s.getRRDPInfo()))
	}
}
''',files={'hash_test.go':'package main\n\nimport (\n\t"crypto/sha256"\n\t"encoding/hex"\n)\n\nfunc hash(s string) string {\n\th := sha256.Sum256([]byte(s))\n\treturn hex.EncodeToString(h[:])\n}\n'}),
dict(id='c29-authorities',prop='C29',pkg='cmd/octorpki',sh=RACE,
 edits=[(OCTO,'''	s.InfoAuthoritiesLock.Lock()
	defer s.InfoAuthoritiesLock.Unlock()
''','''	s.InfoAuthoritiesLock.RLock()
	defer s.InfoAuthoritiesLock.RUnlock()
''')],
 needs='the information page being asked for at the end of a validation',
 breaks='it reads what the validation is writing',
 demo=main('net/http/httptest','sync','testing')+'''func TestDemo(t *testing.T) {
	s := NewOctoRPKI(nil, nil)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; i < 300; i++ {
			s.setInfoAuthorities([][]SIA{{{"rsync://h.example/m", ""}}})
		}
	}()
	for i := 0; i < 300; i++ {
		s.ServeInfo(httptest.NewRecorder(), httptest.NewRequest("GET", "/infos", nil))
	}
	wg.Wait()
}
'''),
dict(id='c30-kind-resource',prop='C30',pkg='validator/pki',kit=True,
 edits=[('validator/pki/errors.go','''		if errC, ok := err.(*CertificateError); ok {
			rw.EType = errC.EType
''','''		if errC, ok := err.(*CertificateError); ok && errC.EType < ERROR_CERTIFICATE_RESOURCE {
			rw.EType = errC.EType
''')],
 needs='a ROA whose certificate has resources its issuer does not have',
 breaks='the reason is reported as unknown',
 demo=KINDS+'''func TestDemo(t *testing.T) {
	w := newWorld()
	ta := w.add(nil, "ta", prefixes("10.0.0.0/8"), asns(1, 70000))
	ta.roa("a.roa", 1, []entry{{"10.1.0.0/16", 16}}, nil)
	ta.roa("b.roa", 1, []entry{{"11.1.0.0/16", 16}}, prefixes("11.0.0.0/8"))
	ta.revoked = append(ta.revoked, ta.roa("c.roa", 1, []entry{{"10.2.0.0/16", 16}}, nil))
	w.publish()
	got := reports(w)
	if got[ta.dir()+"b.roa"] != "resource " || got[ta.dir()+"c.roa"] != "revocation " || len(got) != 2 {
		t.Error(got)
	}
}
'''),
dict(id='c30-blamed-file',prop='C30',pkg='validator/pki',kit=True,
 edits=[('validator/pki/pki.go','''				err := NewCertificateErrorManifestRevocation(cert, mftError, file.Parent, file)
				sm.reportErrorFile(err, file.Parent.Parent, nil)''','''				err := NewCertificateErrorManifestRevocation(cert, mftError, file.Parent, file)
				sm.reportErrorFile(err, file, nil)''')],
 needs='a certification authority that is dropped because a file on its manifest has another hash',
 breaks='the report names the file instead of the certificate that is dropped',
 demo=KINDS+'''func TestDemo(t *testing.T) {
	w := newWorld()
	ta := w.add(nil, "ta", prefixes("10.0.0.0/8"), asns(1, 70000))
	sub := w.add(ta, "sub", prefixes("10.0.0.0/9"), asns(1, 70000))
	sub.roa("a.roa", 1, []entry{{"10.1.0.0/16", 16}}, nil)
	sub.lies = map[string][]byte{"a.roa": make([]byte, 32)}
	w.publish()
	got := reports(w)
	if got[sub.dir()+"a.roa"] != "hash " || got[ta.dir()+"sub.cer"] != "manifest " {
		t.Error(got)
	}
}
'''),
dict(id='c31-serial-first',prop='C31',pkg='cmd/octorpki',
 edits=[('sync/lib/rrdp.go','			s.fetches = append(s.fetches, elNode.URI)\n','			s.fetches = append(s.fetches, elNode.URI)\n			s.Serial = serial\n'),(OCTO,'		s.rrdpError(rsyncURL, path, err, rSpan, rrdpSystem)\n		return\n','''		s.rrdpError(rsyncURL, path, err, rSpan, rrdpSystem)

		// what was applied need not be fetched again
		s.RRDPInfoMu.Lock()
		defer s.RRDPInfoMu.Unlock()
		if info, ok := s.RRDPInfo[path]; ok {
			info.Serial = rrdpSystem.Serial
			s.RRDPInfo[path] = info
		}
		return
''')],
 needs='a delta that cannot be fetched or written',
 breaks='it counts as applied, and its files stay out of date until the next snapshot',
 demo=RRDPDEMO),
dict(id='c31-snapshot-write',prop='C31',pkg='cmd/octorpki',
 edits=[(OCTO,'''		return fmt.Errorf("Unable to write sync file %q on disk: %v", path, err)''','''		if !snapshot {
			return fmt.Errorf("Unable to write sync file %q on disk: %v", path, err)
		}
		log.Errorf("Unable to write sync file %q on disk: %v", path, err)''')],
 needs='a file of a snapshot that cannot be written, such as on a full disk',
 breaks='the snapshot counts as applied, and the file is missing until the next one',
 demo=RRDPDEMO),
]
