MAIN='''package main

import (
%s
)

'''
def main(*imps): return MAIN % '\n'.join('\t'+(i if ' ' in i else '"%s"'%i) for i in imps)
RUN='''#!/bin/bash
# Runs the demonstration beside this file as a test of the package; cwd is the repository.
'''
LOG='log "github.com/sirupsen/logrus"'
SEEDS=[
dict(id='c18-withdraw-anywhere',prop='C18',pkg='cmd/octorpki',
 edits=[('cmd/octorpki/octorpki.go','''	if len(args) > 0 {
		rsync, ok := args[0].(string)
		if ok && !strings.HasPrefix(path, rsync) {''','''	if len(args) > 0 && len(data) > 0 {
		rsync, ok := args[0].(string)
		if ok && !strings.HasPrefix(path, rsync) {''')],
 needs='a withdraw, or the publication of an empty file, whose URI is of another host than the repository',
 breaks='an RRDP repository removes or empties the files of other hosts',
 demo=main('os','testing')+'''func TestDemo(t *testing.T) {
	dir := t.TempDir() + "/"
	*Basepath = dir
	s := NewOctoRPKI(nil, nil)
	must := func(err error) {
		if err != nil {
			t.Fatal(err)
		}
	}
	must(s.WriteRsyncFileOnDisk("rsync://good.example/m/a.roa", []byte("good")))
	host := "rsync://evil.example/"
	cb := func(uri string, data []byte, withdraw bool) {
		must(s.ReceiveRRDPFileCallback("https://evil.example/n.xml", "https://evil.example/d.xml", uri, data, withdraw, false, 2, host))
	}
	cb("rsync://evil.example/m/b.roa", []byte("x"), false)
	cb("rsync://good.example/m/a.roa", []byte("bad"), false)
	check := func() {
		b, err := os.ReadFile(dir + "good.example/m/a.roa")
		if err != nil || string(b) != "good" {
			t.Errorf("%q %v", b, err)
		}
	}
	check()
	cb("rsync://good.example/m/a.roa", []byte{}, false)
	check()
	cb("rsync://good.example/m/a.roa", nil, true)
	check()
}
'''),
dict(id='c19-first-uri-only',prop='C19',pkg='cmd/octorpki',
 edits=[('cmd/octorpki/octorpki.go','''		success, successURL := s.fetchTALurl(tal, uri, path, tSpan)
		if success {
			return success, successURL
		}
''','''		success, successURL := s.fetchTALurl(tal, uri, path, tSpan)
		if success || strings.HasPrefix(uri, "https://") {
			return success, successURL
		}
''')],
 needs='a TAL with several HTTPS URIs of which the first does not answer',
 breaks='a trust anchor certificate is not fetched from the second HTTPS URI, so that without failover nothing below it is output',
 demo=main('net/http','net/http/httptest','testing','github.com/opentracing/opentracing-go','librpki "github.com/cloudflare/cfrpki/validator/lib"')+'''func TestDemo(t *testing.T) {
	*Basepath = t.TempDir() + "/"
	good := httptest.NewTLSServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.Write([]byte("certificate")) }))
	defer good.Close()
	bad := httptest.NewTLSServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(500) }))
	defer bad.Close()
	s := NewOctoRPKI(nil, nil)
	s.HTTPFetcher.Client = good.Client()
	span := opentracing.StartSpan("x")
	for _, l := range [][]string{{good.URL}, {bad.URL, good.URL}, {"rsync://a.example/m/ta.cer", bad.URL, bad.URL, good.URL}} {
		ok, _ := s._fetchTAL(&librpki.RPKITAL{URI: l}, "x.tal", span)
		if !ok {
			t.Errorf("not fetched from %v", l)
		}
	}
	if ok, _ := s._fetchTAL(&librpki.RPKITAL{URI: []string{bad.URL}}, "x.tal", span); ok {
		t.Error("fetched from nowhere")
	}
}
'''),
dict(id='c21-one-length',prop='C21',pkg='cmd/octorpki',
 edits=[('cmd/octorpki/filter.go','''		k := roa.String()
		_, present := existingsROAs[k]''','''		k := fmt.Sprintf("%v/%v", roa.Prefix, roa.ASN)
		_, present := existingsROAs[k]'''),('cmd/octorpki/filter.go','import "github.com/cloudflare/gortr/prefixfile"','import (\n\t"fmt"\n\n\t"github.com/cloudflare/gortr/prefixfile"\n)')],
 needs='two payloads with the same prefix and AS and different maximum lengths, with filtering on',
 breaks='one of them is missing from the list',
 demo=main('testing','github.com/cloudflare/gortr/prefixfile')+'''func TestDemo(t *testing.T) {
	l := []prefixfile.ROAJson{
		{Prefix: "10.0.0.0/16", Length: 16, ASN: "AS1"},
		{Prefix: "10.0.0.0/16", Length: 24, ASN: "AS1"},
		{Prefix: "10.0.0.0/16", Length: 24, ASN: "AS1"},
		{Prefix: "2001:db8::/32", Length: 24, ASN: "AS11"},
	}
	if n := len(filterDuplicates(FilterInvalidPrefixLen(FilterDuplicates(l)))); n != 3 {
		t.Errorf("%d payloads", n)
	}
}
'''),
dict(id='c22-limit-counts-all',prop='C22',pkg='cmd/octorpki',kit='octo',
 edits=[('cmd/octorpki/octorpki.go','''			spanActive = true
			iterationsUntilStable = 0
''','''			spanActive = true
''')],
 needs='a server that has been running for more iterations than -max.iterations in total, and a new repository then',
 breaks='once the limit has been reached over all its life, the program takes every iteration for a stable one and serves partial lists',
 demo=main('testing','time')+'''func TestDemo(t *testing.T) {
	w := newWorld()
	ta := w.add(nil, "ta", prefixes("10.0.0.0/8"), asns(1, 70000))
	ta.roa("a.roa", 1, []entry{{"10.1.0.0/16", 16}}, nil)
	w.publish()
	*MaxIterations = 6
	s, dir := w.octo(t)
	go s.validationLoop()
	wait := func(what string, n int) {
		for end := time.Now().Add(30 * time.Second); len(s.list()) != n; time.Sleep(time.Millisecond) {
			if time.Now().After(end) {
				t.Fatal(what, s.list())
			}
		}
	}
	wait("first", 1)
	time.Sleep(time.Second) // many stable states
	if s.list() == nil {
		wait("still", 1)
	}
	ta.content, ta.listed = map[string][]byte{}, nil
	w.hosts["child"] = "other.example"
	child := w.add(ta, "child", prefixes("10.2.0.0/16"), asns(1, 70000))
	child.roa("b.roa", 2, []entry{{"10.2.0.0/16", 16}}, nil)
	w.publish()
	w.lay(dir)
	// the next list served that is not the old one is the complete new one
	for end := time.Now().Add(30 * time.Second); ; time.Sleep(time.Millisecond / 4) {
		l := s.list()
		if len(l) == 1 && l[0] == "10.2.0.0/16-16 AS2" {
			break
		}
		if l != nil && len(l) == 0 {
			t.Fatal("a partial list is served")
		}
		if time.Now().After(end) {
			t.Fatal("no new list", l)
		}
	}
}
'''),
dict(id='c23-progress',prop='C23',pkg='cmd/octorpki',kit='octo',
 edits=[('cmd/octorpki/ct.go','len(ctData) > 0 && len(ctData) >= 20 && iterations','len(ctData) > 0 && len(ctData) >= 10 && iterations')],
 needs='between 10 and 19 certificate chains',
 breaks='the program crashes when it submits them',
 demo=main('fmt','net/http','net/http/httptest','sync/atomic','testing','github.com/opentracing/opentracing-go','github.com/cloudflare/cfrpki/validator/pki')+'''func TestDemo(t *testing.T) {
	var got int64
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { atomic.AddInt64(&got, 1) }))
	defer srv.Close()
	w := newWorld()
	s, _ := w.octo(t)
	s.CTPath = srv.URL
	for _, n := range []int{0, 1, 5, 12, 19, 20, 25, 50} {
		var chains [][]*pki.PKIFile
		for i := 0; i < n; i++ {
			uri := fmt.Sprintf("rsync://repo.example/r/%d.cer", i)
			must(s.WriteRsyncFileOnDisk(uri, []byte(uri)))
			chains = append(chains, []*pki.PKIFile{{Path: uri, Type: pki.TYPE_CER}})
		}
		got = 0
		s.SendCertificateTransparency(opentracing.StartSpan("x"), chains, 3, 5)
		if got != int64(n) {
			t.Errorf("%d of %d chains", got, n)
		}
	}
}
'''),
dict(id='c26-time-32-bit',prop='C26',pkg='cmd/localrpki',
 edits=[('cmd/localrpki/localrpki.go','strconv.ParseInt(*ValidTime, 10, 64)','strconv.ParseInt(*ValidTime, 10, 32)')],
 needs='a validation time after January 2038 given as a timestamp',
 breaks='the time is not understood, and everything is judged at year 1: nothing is valid',
 kit='local',year=2040,
 demo=main('strconv','testing','time')+'''func TestDemo(t *testing.T) {
	w := newWorld()
	ta := w.add(nil, "ta", prefixes("10.0.0.0/8"), asns(1, 70000))
	ta.roa("a.roa", 1, []entry{{"10.1.0.0/16", 16}}, nil)
	w.publish()
	expect(t, "RFC 3339", w.local(t, "-valid.time", now.Format(time.RFC3339)), "10.1.0.0/16-16 AS1")
	expect(t, "timestamp", w.local(t, "-valid.time", strconv.FormatInt(now.Unix(), 10)), "10.1.0.0/16-16 AS1")
	expect(t, "past", w.local(t, "-valid.time", "1700000000"))
}
'''),
dict(id='c27-client-errors',prop='C27',pkg='sync/lib',
 edits=[('sync/lib/rrdp.go','if res.StatusCode != http.StatusOK {','if res.StatusCode/100 != http.StatusOK/100 {')],
 needs='a server that answers with a status such as 204 or 206',
 breaks='an empty or partial document is accepted',
 demo='''package syncpki_test

import (
	"net/http"
	"net/http/httptest"
	"testing"

	syncpki "github.com/cloudflare/cfrpki/sync/lib"
)

func TestDemo(t *testing.T) {
	for _, status := range []int{200, 201, 203, 204, 206, 300, 304, 404, 500, 503} {
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			w.WriteHeader(status)
			if status != 204 && status != 304 {
				w.Write([]byte("<part"))
			}
		}))
		s, err := syncpki.NewHTTPFetcher("x").GetXML(srv.URL)
		if (err == nil) != (status == 200) || (err != nil && s != "") {
			t.Errorf("%d: %q %v", status, s, err)
		}
		srv.Close()
	}
}
'''),
]
