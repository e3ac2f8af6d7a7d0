//go:build go1.22

package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	syncpki "github.com/cloudflare/cfrpki/sync/lib"

	"github.com/cloudflare/cfrpki/verifharness/pbt"
)

func propC32() pbt.Property {
	return pbt.Property{
		ID:   "C32",
		Rule: "a run counts when rsync named at least two files of which one is reported and one is not, or when it failed or hung; a URL when it has a module; signature: URL, lines, end",
		Assumptions: []string{
			"a shell script stands for rsync: what the real one prints is one line per name, at most 4096 octets, without carriage returns",
		},
		Suites: []pbt.Suite{
			{Name: "run", Quick: 4000, Thorough: 60000, Hang: 60 * time.Second, Prop: rsyncRun,
				Rule: "a stand-in for rsync that prints names, deletions, and other lines, in pieces, fails, hangs, or leaves processes behind that hold its output"},
			{Name: "urls", Quick: 60000, Thorough: 1000000, Prop: rsyncURLs,
				Rule: "URLs of 0-6 elements, odd ones included"},
			{Name: "reduction", Quick: 20000, Thorough: 300000, Prop: rsyncReduce,
				Rule: "up to 12 URLs of few hosts and elements, in any order, repeated ones included"},
		},
	}
}

// stand-in for rsync. $dir/args gets a line per start, $dir/how says what to do.
const fakeRsync = `#!/bin/sh
here=${0%/*}
for a in "$@"; do printf '%s\n' "$a" >> "$here/args"; done
echo "--" >> "$here/args"
. "$here/how"
`

// fakeBin is the stand-in: written once, before anything is started, because a
// file that a forked process has open for writing cannot be started.
var fakeBin = sync.OnceValue(func() string {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	name := filepath.Join(filepath.Dir(self), "fake-rsync")
	tmp := fmt.Sprintf("%s.%d", name, os.Getpid())
	if err := os.WriteFile(tmp, []byte(fakeRsync), 0755); err != nil {
		panic(err)
	}
	if err := os.Rename(tmp, name); err != nil {
		panic(err)
	}
	return name
})

func word(t *pbt.T) string {
	var b strings.Builder
	for i := t.Range(1, 6); i > 0; i-- {
		b.WriteString(pbt.Pick(t, "a", "b", "0", "A", "-", "_", "c.er", "roa", "é", " ", "%2e", "#", "x", "y", "z"))
	}
	return b.String()
}

func rsyncRun(t *pbt.T) {
	fakeBin()
	dir := tmpDir(t)
	// the URL
	host := pbt.Pick(t, "h.example", "h.example:8873", "x")
	parts := []string{host}
	for i := t.Range(1, 4); i > 0; i-- {
		parts = append(parts, word(t))
	}
	uri := "rsync://" + strings.Join(parts, "/")
	base := uri
	if t.Bool() {
		uri += "/"
	} else if len(parts) > 2 {
		base = "rsync://" + strings.Join(parts[:len(parts)-1], "/")
	}
	// what it prints
	var lines []string
	var want []syncpki.FileStat
	other := 0
	for i := t.Size(12); i > 0; i-- {
		if t.Chance(1, 6) {
			lines = append(lines, pbt.Pick(t, "", "receiving incremental file list", "sent 20 bytes  received 30 bytes  1.0 bytes/sec", "./", "created directory x", "sub/", "deleting old/"))
			other++
			continue
		}
		var es []string
		for k := t.Size(3); k >= 0; k-- {
			es = append(es, word(t))
		}
		name := strings.Join(es, "/")
		if t.Chance(1, 20) {
			name = strings.Repeat("n", t.Range(200, 4000)) + name
		}
		ext := pbt.Pick(t, ".cer", ".cer", ".mft", ".crl", ".roa", ".gbr", ".cer", ".txt", ".CER", ".cer.tmp", "cer", ".xml", ".roa~", "/")
		name += ext
		known := ext == ".cer" || ext == ".mft" || ext == ".crl" || ext == ".roa" || ext == ".gbr"
		line, deleted := name, t.Chance(1, 4)
		if deleted {
			line = "deleting " + name
		}
		lines = append(lines, line)
		if known {
			want = append(want, syncpki.FileStat{Path: base + "/" + name, Deleted: deleted})
		} else {
			other++
		}
	}
	// how it ends
	how := pbt.Pick(t, "ok", "ok", "ok", "ok", "fails", "error output", "pieces")
	if t.Chance(1, 30) {
		how = pbt.Pick(t, "hangs", "child hangs", "silent", "leaves a child")
	}
	switch {
	case t.Chance(1, 40):
		how = "no program"
	case t.Chance(1, 40):
		how = "no binary"
	case t.Chance(1, 40):
		how = "in the way"
	}
	out := strings.Join(lines, "\n")
	if len(lines) > 0 && !t.Chance(1, 5) {
		out += "\n"
	}
	bin := filepath.Join(dir, "rsync")
	put := func(name, data string, mode os.FileMode) {
		if err := os.WriteFile(filepath.Join(dir, name), []byte(data), mode); err != nil {
			panic(err)
		}
	}
	k := t.Intn(len(out) + 1)
	put("out", out, 0644)
	put("out1", out[:k], 0644)
	put("out2", out[k:], 0644)
	code := 0
	script := `cat "$here/out"; `
	switch how {
	case "fails":
		code = pbt.Pick(t, 1, 5, 10, 12, 23, 24, 30)
		script += fmt.Sprintf("exit %d", code)
	case "error output":
		code = pbt.Pick(t, 0, 0, 23)
		script = `i=0; while [ $i -lt 40 ]; do echo "rsync: x.cer: a message deleting y.cer" >&2; i=$((i+1)); done; ` + script + fmt.Sprintf("exit %d", code)
	case "pieces":
		script = `cat "$here/out1"; sleep 0.01; cat "$here/out2"`
	case "hangs":
		script += "exec sleep 30"
	case "silent":
		script = "exec sleep 30"
	case "child hangs":
		script += "sleep 30; true"
	case "leaves a child":
		script += "sleep 30 & exit 0"
	}
	put("how", script+"\n", 0644)
	if err := os.Symlink(fakeBin(), bin); err != nil {
		panic(err)
	}
	target := filepath.Join(dir, "to", word(t), "m")
	use := bin
	switch how {
	case "no program":
		use = filepath.Join(dir, "absent")
	case "no binary":
		use = ""
	case "in the way":
		put("to", "", 0644)
	}
	limit := 40 * time.Second
	bad := how == "hangs" || how == "child hangs" || how == "silent" || how == "leaves a child"
	if bad {
		limit = time.Duration(t.Range(300, 700)) * time.Millisecond
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	start := time.Now()
	got, err := syncpki.RunRsync(ctx, uri, use, target)
	took := time.Since(start)
	fail := func(f string, a ...interface{}) {
		t.Logf("URI %q, directory %q, rsync: %s (status %d)", uri, target, how, code)
		t.Logf("output: %q", out)
		var g []syncpki.FileStat
		for _, x := range got {
			g = append(g, *x)
		}
		t.Logf("reported: %+v, error %v, after %v", g, err, took)
		t.Failf(f, a...)
	}
	// it has been started once, with the URI and the directory
	args, _ := os.ReadFile(filepath.Join(dir, "args"))
	started := strings.Count(string(args), "\n--\n")
	switch how {
	case "no program", "no binary", "in the way":
		if err == nil {
			fail("no error although rsync cannot have run")
		}
		if started != 0 {
			fail("rsync was started %d times", started)
		}
		t.NonTrivial("%s", how)
		t.Label("%s", how)
		return
	}
	if started != 1 {
		if bad && started == 0 && took >= limit {
			t.Discard() // it did not come to its first line in time
		}
		fail("rsync was started %d times", started)
	}
	if a := strings.Split(string(args), "\n"); len(a) < 4 || a[len(a)-4] != uri || a[len(a)-3] != target {
		fail("rsync was started with %q", a)
	}
	if fi, e := os.Stat(target); e != nil || !fi.IsDir() {
		fail("the directory has not been made: %v", e)
	}
	if bad {
		if took > limit+15*time.Second {
			fail("RunRsync returned %v after its time of %v", took-limit, limit)
		}
		if err == nil && how != "leaves a child" {
			fail("no error although rsync did not end")
		}
		t.NonTrivial("%s %v", how, len(lines))
		t.Label("%s", how)
		return
	}
	if (err != nil) != (code != 0) {
		fail("rsync ended with status %d, RunRsync with error %v", code, err)
	}
	var have []syncpki.FileStat
	for _, g := range got {
		if g == nil {
			fail("a nil entry")
		}
		have = append(have, *g)
	}
	if !reflect.DeepEqual(have, want) {
		fail("want %+v", want)
	}
	if len(want) > 0 && other > 0 || code != 0 {
		t.NonTrivial("%q %d %q", uri, code, lines)
	}
	t.Label("%s", how)
	t.Sample("%s: %d lines, %d files, %s, status %d", uri, len(lines), len(want), how, code)
}

func rsyncURLs(t *pbt.T) {
	n := t.Intn(7)
	var parts []string
	for i := 0; i < n; i++ {
		if t.Chance(1, 8) {
			parts = append(parts, pbt.Pick(t, "", ".", "..", "...", "rsync:", "rsync://"))
		} else {
			parts = append(parts, word(t))
		}
	}
	scheme := "rsync://"
	if t.Chance(1, 6) {
		scheme = pbt.Pick(t, "", "rsync:/", "https://", "RSYNC://", "rsync:", "xrsync://", " rsync://")
	}
	rest := strings.Join(parts, "/")
	url := scheme + rest
	ok := strings.HasPrefix(url, "rsync://")
	if ok {
		rest = url[len("rsync://"):]
		parts = strings.Split(rest, "/")
	}
	fail := func(f string, a ...interface{}) {
		t.Logf("URL %q", url)
		t.Failf(f, a...)
	}
	file, err := syncpki.ExtractFilePathFromRsyncURL(url)
	if (err == nil) != ok || ok && file != rest {
		fail("path %q, %v", file, err)
	}
	folders, err := syncpki.ExtractFoldersPathFromRsyncURL(url)
	if (err == nil) != ok || ok && folders != strings.Join(parts[:len(parts)-1], "/") {
		fail("folders %q, %v", folders, err)
	}
	module, domain, err := syncpki.ExtractRsyncDomainModule(url)
	hasModule := ok && len(parts) >= 2
	for i := 0; hasModule && i < 2; i++ {
		if parts[i] == "" || parts[i] == "." || parts[i] == ".." {
			hasModule = false
		}
	}
	if (err == nil) != hasModule {
		fail("module %q, domain %q, %v", module, domain, err)
	}
	if hasModule {
		if module != "rsync://"+parts[0]+"/"+parts[1] || domain != "rsync://"+parts[0]+"/" {
			fail("module %q, domain %q", module, domain)
		}
		// of itself, and of everything below it
		for _, u := range []string{module, module + "/", module + "/x/y.roa"} {
			m, d, err := syncpki.ExtractRsyncDomainModule(u)
			if err != nil || m != module || d != domain {
				fail("module of %q: %q, %q, %v", u, m, d, err)
			}
		}
		t.NonTrivial("%s", url)
	}
	// the line that rsync prints
	line := pbt.Pick(t, "", "", "deleting ", "Deleting ", " deleting ", "deleting") + rest
	name, deleted, err := syncpki.FilterMatch(line)
	wantName, wantDel := line, false
	if strings.HasPrefix(line, "deleting ") {
		wantName, wantDel = line[len("deleting "):], true
	}
	if err != nil || name != wantName || deleted != wantDel {
		fail("FilterMatch(%q) = %q, %v, %v", line, name, deleted, err)
	}
	t.Label("module %v", hasModule)
	t.Sample("%s: module %v", url, hasModule)
}

// rsyncReduce: what ReduceMap makes of URLs is, for each module, the deepest
// path that all its URLs have in common.
func rsyncReduce(t *pbt.T) {
	m := map[string]syncpki.SubMap{}
	common := map[string][]string{}
	var urls []string
	for i := t.Size(12); i >= 0; i-- {
		es := []string{pbt.Pick(t, "a", "b", "c.example:873")}
		for k := t.Range(1, 5); k > 0; k-- {
			es = append(es, pbt.Pick(t, "a", "a", "a", "b", "ab", ""))
		}
		u := pbt.Pick(t, "rsync://", "rsync://", "rsync://", "rsync://", "rsync://", "https://", "rsync:/") + strings.Join(es, "/")
		urls = append(urls, u)
		if !strings.HasPrefix(u, "rsync://") {
			continue
		}
		k := es[0] + "/" + es[1]
		if c, ok := common[k]; ok {
			n := 0
			for n < len(c) && n < len(es) && c[n] == es[n] {
				n++
			}
			es = es[:n]
		}
		common[k] = es
	}
	for _, u := range urls {
		syncpki.AddInMap(u, m)
	}
	got := syncpki.ReduceMap(m)
	want := []string{}
	for _, es := range common {
		want = append(want, "rsync://"+strings.Join(es, "/"))
	}
	sort.Strings(got)
	sort.Strings(want)
	if len(got)+len(want) > 0 && !reflect.DeepEqual(got, want) {
		t.Logf("URLs: %q", urls)
		t.Failf("reduced to %q, want %q", got, want)
	}
	if len(want) > 0 && len(want) < len(urls) {
		t.NonTrivial("%q", urls)
	}
	t.Sample("%d URLs, %d after the reduction", len(urls), len(want))
}
