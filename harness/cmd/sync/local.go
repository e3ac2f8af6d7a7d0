//go:build go1.22

package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	syncpki "github.com/cloudflare/cfrpki/sync/lib"
	"github.com/cloudflare/cfrpki/validator/pki"

	"github.com/cloudflare/cfrpki/verifharness/gen"
	"github.com/cloudflare/cfrpki/verifharness/pbt"
)

// content draws the octets of a file: DER, BER, or nothing of the kind. der is
// what a reader of DER gets.
func fileContent(t *pbt.T) (data, der []byte) {
	switch t.Intn(4) {
	case 0:
		d := gen.Seq(gen.Octets(t.Bytes(t.Size(40))), gen.Int(int64(t.Intn(1000))))
		return d, d
	case 1:
		d := gen.Seq(gen.Octets(t.Bytes(t.Size(40))), gen.Seq(gen.Int(int64(t.Intn(1000)))))
		return gen.BERize(d), d
	case 2: // text, or a broken file: passed on as it is
		d := append([]byte{0x30, 0x82}, t.Bytes(t.Size(20))...)
		if len(d) > 3 {
			d[2], d[3] = 0xff, 0xff
		}
		return d, d
	default:
		d := gen.Seq(gen.Octets(t.Bytes(t.Range(1, 2000))))
		return d, d
	}
}

// tmpDir is a scratch directory of the case.
func tmpDir(t *pbt.T) string {
	d, err := os.MkdirTemp("", "vh-local-")
	if err != nil {
		panic(err)
	}
	t.Cleanup(func() { os.RemoveAll(d) })
	return d
}

type mapping struct{ prefix, dir string }

// mapPath is the file a URI stands for: the longest prefix decides.
func mapPath(ms []mapping, uri string) (string, bool) {
	best := -1
	for i, m := range ms {
		if strings.HasPrefix(uri, m.prefix) && (best < 0 || len(m.prefix) > len(ms[best].prefix)) {
			best = i
		}
	}
	if best < 0 {
		return uri, false
	}
	return strings.TrimSuffix(ms[best].dir, "/") + "/" + uri[len(ms[best].prefix):], true
}

func drawMap(t *pbt.T, root string) []mapping {
	ms := []mapping{{"rsync://", root + "/all"}}
	if t.Chance(1, 3) {
		ms = nil
	}
	for _, p := range []string{"rsync://h0.example/", "rsync://h0.example/m/", "rsync://h0.example/m/d/", "rsync://h1.example/m", "https://x/"} {
		if t.Chance(1, 3) {
			ms = append(ms, mapping{p, root + "/" + fmt.Sprintf("map%d", len(ms)) + pbt.Pick(t, "", "/")})
		}
	}
	if len(ms) == 0 {
		ms = append(ms, mapping{"rsync://h0.example/m/", root + "/only"})
	}
	return ms
}

var fileNames = []string{"a.roa", "b.cer", "c.mft", "d.crl", "e", "f.txt", "a.roa.cer", ".roa", "x.ROA", "sp ace.roa", "é.mft", "roafile", "..x.cer", "a..b.crl", "%2e%2e.roa"}

func typeOf(name string) int {
	switch {
	case strings.HasSuffix(name, ".roa"):
		return pki.TYPE_ROA
	case strings.HasSuffix(name, ".cer"):
		return pki.TYPE_CER
	case strings.HasSuffix(name, ".mft"):
		return pki.TYPE_MFT
	case strings.HasSuffix(name, ".crl"):
		return pki.TYPE_CRL
	}
	return pki.TYPE_UNKNOWN
}

func hash(b []byte) []byte { h := sha256.Sum256(b); return h[:] }

// localFiles fills mapped directories, and asks for files.
func localFiles(t *pbt.T) {
	root := tmpDir(t)
	ms := drawMap(t, root)
	md := map[string]string{}
	for _, m := range ms {
		md[m.prefix] = m.dir
	}
	f := syncpki.NewLocalFetch(root + "/all")
	f.MapDirectory = md
	mode := t.Intn(3) // without repositories, with all of them, with some
	repos := map[string]bool{}
	switch mode {
	case 0:
		f = &syncpki.LocalFetch{Basepath: root + "/all", MapDirectory: md}
	default:
		for _, r := range []string{"rsync://h0.example/m", "rsync://h1.example/m", "rsync://h2.example/m"} {
			if mode == 1 || t.Bool() {
				repos[r] = true
			}
		}
		f.SetRepositories(stamps(repos))
	}
	type file struct{ data, der []byte }
	disk := map[string]file{}
	put := func(path string) {
		path = filepath.Clean(path)
		if _, ok := disk[path]; ok || !strings.HasPrefix(path, root+"/") {
			return
		}
		for p := range disk {
			if strings.HasPrefix(p, path+"/") || strings.HasPrefix(path, p+"/") {
				return
			}
		}
		if st, err := os.Stat(path); err == nil && st.IsDir() {
			return
		}
		if err := os.MkdirAll(filepath.Dir(path), 0755); err != nil {
			return
		}
		d, der := fileContent(t)
		if os.WriteFile(path, d, 0644) == nil {
			disk[path] = file{d, der}
		}
	}
	uri := func() string {
		return pbt.Pick(t, "rsync://h0.example/m/", "rsync://h0.example/m/d/", "rsync://h0.example/", "rsync://h1.example/m/", "rsync://h2.example/m/e/", "https://x/", "rsync://h0.example/m/d/e/") + pbt.Pick(t, fileNames...)
	}
	var uris []string
	for i := t.Range(1, 12); i > 0; i-- {
		u := uri()
		uris = append(uris, u)
		if p, ok := mapPath(ms, u); ok && t.Chance(4, 5) {
			put(p)
		} else if ok && t.Chance(1, 3) {
			os.MkdirAll(p, 0755) // a directory in the place of a file
		}
	}
	// files outside of the mapped directories
	put(root + "/secret.roa")
	put(root + "/d/a.roa")
	var asked []string
	for i := t.Range(1, 12); i > 0; i-- {
		u := uri()
		if t.Chance(2, 3) {
			u = pbt.Pick(t, uris...)
		}
		if t.Chance(1, 6) { // leading out
			k := strings.LastIndex(u, "/")
			u = u[:k+1] + pbt.Pick(t, "../", "../../", "../../../", "d/../../../", "../../../../", "./../") + pbt.Pick(t, "secret.roa", "d/a.roa", "m/a.roa", "a.roa")
		} else if t.Chance(1, 12) {
			u = pbt.Pick(t, root+"/secret.roa", "file://"+root+"/secret.roa", "secret.roa")
		}
		pf := &pki.PKIFile{Type: pbt.Pick(t, pki.TYPE_ROA, pki.TYPE_CER, pki.TYPE_MFT, pki.TYPE_CRL, pki.TYPE_TAL), Path: u}
		how := "alone"
		switch t.Intn(3) {
		case 0:
			pf.Parent = &pki.PKIFile{Type: pki.TYPE_CER, Path: "rsync://h0.example/m/p.cer"}
			how = "of a certificate"
		case 1: // relative to the manifest's repository
			k := strings.LastIndex(u, "/")
			if i := strings.Index(u, "/../"); i >= 0 {
				k = i
			}
			if k > 8 {
				repo := u[:k]
				if t.Bool() {
					repo += "/"
				}
				pf.Parent = &pki.PKIFile{Type: pki.TYPE_MFT, Path: "rsync://h0.example/m/p.mft", Repo: repo, Parent: &pki.PKIFile{Type: pki.TYPE_CER}}
				pf.Path = u[k+1:]
				how = "of a manifest"
			}
		}
		if pf.Type == pki.TYPE_TAL {
			pf.Parent, pf.Path, how = nil, u, "TAL"
		}
		conv := pf.Type != pki.TYPE_TAL
		var sf *pki.SeekFile
		var err error
		if t.Bool() {
			sf, err = f.GetFile(pf)
		} else {
			conv = t.Bool()
			sf, err = f.GetFileConv(pf, conv)
		}
		p, mapped := mapPath(ms, u)
		what := fmt.Sprintf("%s (%s, %s) with %v, repositories %v", strings.ReplaceAll(u, root, "ROOT"), how, pki.TypeToName[pf.Type], ms, repos)
		what = strings.ReplaceAll(what, root, "ROOT")
		asked = append(asked, what)
		outside := strings.Contains("/"+u+"/", "/../")
		if outside || !mapped {
			// never content, unless it is the name of a local file given by the user
			if err == nil && sf != nil && (outside && mapped || pf.Parent != nil) {
				t.Failf("%s: %q is read, which is outside of the mapped directories", what, sf.Data)
			}
			t.Label("outside")
			continue
		}
		fl, there := disk[filepath.Clean(p)]
		_, serr := os.Stat(p)
		switch {
		case there:
			if err != nil || sf == nil {
				t.Failf("%s: the file exists, but: %v, %v", what, sf, err)
			}
			want := fl.data
			if conv {
				want = fl.der
			}
			if !bytes.Equal(sf.Data, want) {
				t.Failf("%s: content %x, want %x", what, sf.Data, want)
			}
			if !bytes.Equal(sf.Sha256, hash(fl.data)) {
				t.Failf("%s: hash %x, want %x", what, sf.Sha256, hash(fl.data))
			}
			t.Label("read")
		case os.IsNotExist(serr):
			if sf != nil && len(sf.Data) > 0 || err != nil {
				t.Failf("%s: there is no such file, but: %+v, %v", what, sf, err)
			}
			t.Label("absent")
		default: // a directory, or below a file
			known := mode == 0
			if !known {
				base := strings.Split(u, "/")
				known = len(base) > 3 && repos[strings.Join(base[:4], "/")]
			}
			if known && err == nil {
				t.Failf("%s: it cannot be read, but no error is reported: %+v", what, sf)
			}
			if sf != nil && err == nil {
				t.Failf("%s: it cannot be read, but: %+v", what, sf)
			}
			t.Label("unreadable")
		}
	}
	t.NonTrivial("%s", strings.Join(asked, "; "))
	t.Sample("%s", asked[0])
}

// listing lists directories.
func listing(t *pbt.T) {
	root := tmpDir(t)
	ms := drawMap(t, root)
	md := map[string]string{}
	for _, m := range ms {
		md[m.prefix] = m.dir
	}
	f := syncpki.NewLocalFetch(root + "/all")
	f.MapDirectory = md
	repo := pbt.Pick(t, "rsync://h0.example/m/d", "rsync://h0.example/m", "rsync://h1.example/m", "rsync://h0.example/m/d/e", "rsync://h3.example/q") + pbt.Pick(t, "", "/")
	dir, mapped := mapPath(ms, strings.TrimSuffix(repo, "/")+"/")
	if !mapped {
		t.Discard()
	}
	exists := !t.Chance(1, 12)
	type file struct{ data, der []byte }
	disk := map[string]file{}
	if exists {
		if err := os.MkdirAll(dir, 0755); err != nil {
			panic(err)
		}
		for i := t.Size(8); i > 0; i-- {
			n := pbt.Pick(t, fileNames...)
			if _, err := os.Lstat(filepath.Join(dir, n)); err == nil {
				continue
			}
			switch t.Intn(8) {
			case 0:
				os.MkdirAll(filepath.Join(dir, n), 0755)
				os.WriteFile(filepath.Join(dir, n, "inner.roa"), []byte("inner"), 0644)
			default:
				d, der := fileContent(t)
				if err := os.WriteFile(filepath.Join(dir, n), d, 0644); err != nil {
					panic(err)
				}
				disk[n] = file{d, der}
			}
		}
	}
	os.MkdirAll(root+"/all/h0.example", 0755)
	os.WriteFile(root+"/all/h0.example/other.roa", []byte("other"), 0644)
	parent := &pki.PKIFile{Type: pbt.Pick(t, pki.TYPE_CER, pki.TYPE_MFT, pki.TYPE_CAREPO), Path: "rsync://h0.example/m/p", Repo: repo}
	got := map[string]int{}
	bad := ""
	err := f.GetRepository(parent, func(pf *pki.PKIFile, sf *pki.SeekFile, addInvalid bool) {
		u := pf.ComputePath()
		base := strings.TrimSuffix(repo, "/") + "/"
		n := strings.TrimPrefix(u, base)
		got[n]++
		fl, ok := disk[n]
		switch {
		case !strings.HasPrefix(u, base) || !ok:
			bad = fmt.Sprintf("delivers %q", u)
		case pf.Type != typeOf(n):
			bad = fmt.Sprintf("%s is a %s", n, pki.TypeToName[pf.Type])
		case pf.Parent != parent:
			bad = fmt.Sprintf("%s has parent %v", n, pf.Parent)
		case !bytes.Equal(sf.Data, fl.der):
			bad = fmt.Sprintf("%s holds %x, want %x", n, sf.Data, fl.der)
		case !bytes.Equal(sf.Sha256, hash(fl.data)):
			bad = fmt.Sprintf("the hash of %s is %x", n, sf.Sha256)
		}
		// the path leads back to the file
		if again, err := f.GetFile(pf); bad == "" && (err != nil || again == nil || !bytes.Equal(again.Data, fl.der)) {
			bad = fmt.Sprintf("%s cannot be read back: %v %v", u, again, err)
		}
	})
	var names []string
	for n := range disk {
		names = append(names, n)
	}
	sort.Strings(names)
	what := strings.ReplaceAll(fmt.Sprintf("listing %s (%s) of %q with %v", repo, pki.TypeToName[parent.Type], names, ms), root, "ROOT")
	if bad != "" {
		t.Failf("%s: %s", what, strings.ReplaceAll(bad, root, "ROOT"))
	}
	if !exists {
		if err == nil {
			t.Failf("%s: the directory does not exist, but no error is reported", what)
		}
		t.Label("absent")
		return
	}
	if err != nil {
		t.Failf("%s: %v", what, err)
	}
	for _, n := range names {
		if got[n] != 1 {
			t.Failf("%s: %s is delivered %d times", what, n, got[n])
		}
	}
	if len(names) > 0 {
		t.NonTrivial("%s", what)
		t.Sample("%s", what)
	}
}

// mapOption is the -map.dir option.
func mapOption(t *pbt.T) {
	want := map[string]string{}
	var parts []string
	for i := t.Size(5); i > 0; i-- {
		k := pbt.Pick(t, "rsync://", "rsync://h/", "rsync://h/m/", "https://x/") + pbt.Pick(t, "", "a", "b/")
		v := pbt.Pick(t, "", "/tmp/x", "cache/", "./y z")
		want[k] = v
		parts = append(parts, k+"="+v)
	}
	in := strings.Join(parts, ",")
	got := syncpki.ParseMapDirectory(in)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		t.Failf("%q is parsed as %v, want %v", in, got, want)
	}
	if len(parts) > 0 {
		t.NonTrivial("%s", in)
		t.Sample("%s", in)
	}
	if len(want) == 0 {
		return
	}
	var ms []mapping
	for k, v := range want {
		ms = append(ms, mapping{k, v})
	}
	u := pbt.Pick(t, "rsync://h/m/a.roa", "rsync://h/m/b/a.roa", "rsync://h/a", "rsync://rsync://h/m/", "https://x/a/rsync://h/m/", "other", "rsync://h/mm/a")
	w, _ := mapPath(ms, u)
	for i := 0; i < 4; i++ {
		if g := syncpki.GetLocalPath(u, got); g != w {
			t.Failf("%s is mapped to %s by %v, want %s", u, g, got, w)
		}
		if g := syncpki.ReplacePath(&pki.PKIFile{Path: u}, got); g != w {
			t.Failf("%s is mapped to %s by %v, want %s", u, g, got, w)
		}
	}
}

func propC25() pbt.Property {
	return pbt.Property{
		ID:   "C25",
		Rule: "non-trivial: distinct requests and listings of at least one file",
		Suites: []pbt.Suite{
			{Name: "files", Rule: "1-6 overlapping mappings, up to 12 files of DER, BER and other content, and requests for existing, absent, unreadable and outside paths, directly, from a certificate and relative to a manifest", Quick: 6000, Thorough: 200000, Prop: localFiles},
			{Name: "listing", Rule: "directories of up to 8 entries, with sub-directories, listed for certificates, manifests and repositories", Quick: 6000, Thorough: 200000, Prop: listing},
			{Name: "mapping", Rule: "the directory option, and the mapping of URIs by the longest prefix", Quick: 20000, Thorough: 500000, Prop: mapOption},
		},
	}
}
