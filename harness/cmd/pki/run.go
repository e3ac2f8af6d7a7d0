//go:build go1.22

package main

import (
	"crypto/sha256"
	"errors"
	"fmt"
	"net/netip"
	"os"
	"path/filepath"
	"sort"
	"strings"

	syncpki "github.com/cloudflare/cfrpki/sync/lib"
	librpki "github.com/cloudflare/cfrpki/validator/lib"
	"github.com/cloudflare/cfrpki/validator/pki"
	"github.com/cloudflare/cfrpki/verifharness/gen"
	"github.com/cloudflare/cfrpki/verifharness/pbt"
)

// payload as validation outputs it.
type payload struct {
	AS     int
	Prefix netip.Prefix
	MaxLen int
}

func (p payload) String() string { return fmt.Sprintf("AS%d %s-%d", p.AS, p.Prefix, p.MaxLen) }

func payloadOf(v gen.VRP) payload {
	return payload{int(v.AS), netip.PrefixFrom(gen.Addr(v.P.F, v.P.A), v.P.Plen), v.MaxLen}
}

// memory is a FileSeeker over a file set.
type memory struct {
	files  map[string][]byte
	absent bool // report absent files as errors
	gets   int
}

func sum(b []byte) []byte { h := sha256.Sum256(b); return h[:] }

func (m *memory) GetFile(f *pki.PKIFile) (*pki.SeekFile, error) {
	m.gets++
	if m.gets > 100000 {
		panic("more than 100000 files asked for")
	}
	b, ok := m.files[f.ComputePath()]
	if !ok {
		if m.absent {
			return nil, errors.New("no such file")
		}
		return nil, nil
	}
	h := sum(b)
	d := append([]byte(nil), b...)
	if f.Type != pki.TYPE_TAL {
		if c, err := librpki.BER2DER(d); err == nil {
			d = c
		}
	}
	return &pki.SeekFile{File: f.Path, Data: d, Sha256: h}, nil
}

func (m *memory) GetRepository(f *pki.PKIFile, cb pki.CallbackExplore) error {
	dir := strings.TrimSuffix(f.Repo, "/") + "/"
	var names []string
	for p := range m.files {
		if strings.HasPrefix(p, dir) && !strings.Contains(p[len(dir):], "/") {
			names = append(names, p[len(dir):])
		}
	}
	if len(names) == 0 {
		return errors.New("no such directory")
	}
	sort.Strings(names)
	for _, n := range names {
		b := m.files[dir+n]
		d := append([]byte(nil), b...)
		if c, err := librpki.BER2DER(d); err == nil {
			d = c
		}
		item := &pki.PKIFile{Parent: f, Type: pki.DetermineType(n), Repo: f.Repo, Path: n}
		if f.Type != pki.TYPE_MFT {
			item.Path = dir + n
		}
		cb(item, &pki.SeekFile{File: item.Path, Data: d, Sha256: sum(b)}, false)
	}
	return nil
}

// how a tree is validated.
type how struct {
	gen.Settings
	dirs   bool // by directory listing
	joint  bool // all trust anchors with one validator
	disk   string
	absent bool
	order  []int           // of the trust anchors
	repeat int             // times the same validator explores
	api    bool            // files are read through the API
	lost   map[string]bool // files that are not there
}

func (h how) String() string {
	return fmt.Sprintf("time %s, strict manifests %v, hashes %v, CMS %v, dirs %v, joint %v, disk %v, absent files as errors %v, TA order %v",
		h.Time.Format("2006-01-02T15:04:05.999Z"), h.StrictManifests, h.StrictHash, h.StrictCMS, h.dirs, h.joint, h.disk != "", h.absent, h.order)
}

func strict(tr *gen.Tree) how {
	return how{Settings: gen.Settings{StrictManifests: true, StrictHash: true, StrictCMS: true, Time: tr.Time}}
}

// result of a validation: how often each payload is output, and the paths of
// the valid ROAs.
type result struct {
	counts map[payload]int
	paths  map[string]int
	vs     []*pki.Validator
	sms    []*pki.SimpleManager
}

func (r *result) add(v *pki.Validator, sm *pki.SimpleManager) {
	r.vs, r.sms = append(r.vs, v), append(r.sms, sm)
	for _, res := range v.ValidROA {
		roa := res.Resource.(*librpki.RPKIROA)
		for _, e := range roa.Valids {
			a, ok := netip.AddrFromSlice(e.IPNet.IP)
			ones, bits := e.IPNet.Mask.Size()
			if !ok {
				panic(fmt.Sprintf("address %v", e.IPNet))
			}
			if bits == 32 {
				a = a.Unmap()
			}
			r.counts[payload{roa.ASN, netip.PrefixFrom(a, ones), e.MaxLength}]++
		}
		f := sm.PathOfResource[res]
		if f != nil {
			r.paths[f.ComputePath()]++
		}
	}
}

func (r *result) total() int {
	n := 0
	for _, c := range r.counts {
		n += c
	}
	return n
}

// writeDisk lays a file set out below dir.
func writeDisk(dir string, files map[string][]byte) {
	for p, b := range files {
		f := filepath.Join(dir, strings.TrimPrefix(p, "rsync://"))
		if os.MkdirAll(filepath.Dir(f), 0777) != nil || os.WriteFile(f, b, 0666) != nil {
			panic("cannot write " + f)
		}
	}
}

// validate runs the validation of the tree as built.
func validate(tr *gen.Tree, h how) *result {
	files := make(map[string][]byte, len(tr.Files)+len(tr.TALs))
	for k, v := range tr.Files {
		if !h.lost[k] {
			files[k] = v
		}
	}
	order := h.order
	if order == nil {
		for i := range tr.TALs {
			order = append(order, i)
		}
	}
	var seeker pki.FileSeeker
	talPath := func(i int) string { return fmt.Sprintf("tal:%d", i) }
	if h.api {
		dir, err := os.MkdirTemp("", "a")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		for i, tal := range tr.TALs {
			if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("t%d.tal", i)), tal, 0666); err != nil {
				panic(err)
			}
		}
		talPath = func(i int) string { return filepath.Join(dir, fmt.Sprintf("t%d.tal", i)) }
		f, end := remote(&apiRepo{files: files, lost: h.lost})
		defer end()
		seeker = f
	} else if h.disk != "" {
		dir, err := os.MkdirTemp(h.disk, "v")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		writeDisk(filepath.Join(dir, "c"), tr.Files)
		for i, tal := range tr.TALs {
			if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("t%d.tal", i)), tal, 0666); err != nil {
				panic(err)
			}
		}
		talPath = func(i int) string { return filepath.Join(dir, fmt.Sprintf("t%d.tal", i)) }
		seeker = &syncpki.LocalFetch{MapDirectory: map[string]string{"rsync://": filepath.Join(dir, "c")}}
	} else {
		for i, tal := range tr.TALs {
			files[talPath(i)] = tal
		}
		seeker = &memory{files: files, absent: h.absent}
	}
	out := &result{counts: map[payload]int{}, paths: map[string]int{}}
	mk := func() (*pki.Validator, *pki.SimpleManager) {
		v := pki.NewValidator()
		v.Time = h.Time
		v.DecoderConfig.ValidateStrict = h.StrictCMS
		sm := pki.NewSimpleManager()
		sm.Validator = v
		sm.FileSeeker = seeker
		if !h.StrictManifests { // otherwise the default
			sm.StrictManifests = false
		}
		if !h.StrictHash {
			sm.StrictHash = false
		}
		sm.Log = quiet{}
		return v, sm
	}
	explore := func(sm *pki.SimpleManager, is ...int) {
		for n := 0; n <= h.repeat; n++ {
			var l []*pki.PKIFile
			for _, i := range is {
				l = append(l, &pki.PKIFile{Path: talPath(i), Type: pki.TYPE_TAL})
			}
			sm.AddInitial(l)
			sm.Explore(h.dirs, false)
		}
	}
	if h.joint {
		v, sm := mk()
		explore(sm, order...)
		out.add(v, sm)
		return out
	}
	for _, i := range order {
		v, sm := mk()
		explore(sm, i)
		out.add(v, sm)
	}
	return out
}

type quiet struct{}

func (quiet) Debugf(string, ...interface{}) {}
func (quiet) Printf(string, ...interface{}) {}
func (quiet) Errorf(string, ...interface{}) {}
func (quiet) Warnf(string, ...interface{})  {}

// bounds of how often each payload may be output.
type bounds struct{ min, max map[payload]int }

func newBounds() *bounds { return &bounds{map[payload]int{}, map[payload]int{}} }

func (b *bounds) add(p payload, v gen.Tri) {
	switch v {
	case gen.Yes:
		b.min[p]++
		b.max[p]++
	case gen.Maybe:
		b.max[p]++
	}
}

func boundsOf(ps []gen.Payload) *bounds {
	b := newBounds()
	for _, p := range ps {
		b.add(payloadOf(p.VRP), p.V)
	}
	return b
}

// describe says which ROAs could have been the source of a payload.
func describe(ps []gen.Payload, p payload) string {
	var l []string
	for _, x := range ps {
		if payloadOf(x.VRP) == p {
			l = append(l, fmt.Sprintf("%s of ca%d: %s", x.URI, x.ROA.CA.ID, x.V))
		}
	}
	if l == nil {
		return "no ROA contains it"
	}
	return strings.Join(l, "; ")
}

func checkMax(t *pbt.T, what string, out map[payload]int, b *bounds, ps []gen.Payload) {
	for _, p := range sorted(out) {
		if n := out[p]; n > b.max[p] {
			t.Failf("%s: %s is output %d times, at most %d allowed (%s)", what, p, n, b.max[p], describe(ps, p))
		}
	}
}

func checkMin(t *pbt.T, what string, out map[payload]int, b *bounds, ps []gen.Payload) {
	for _, p := range sorted(b.min) {
		if n := b.min[p]; out[p] < n {
			t.Failf("%s: %s is output %d times instead of %d (%s)", what, p, out[p], n, describe(ps, p))
		}
	}
}

func sorted(m map[payload]int) []payload {
	var l []payload
	for p := range m {
		l = append(l, p)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	return l
}

func sameCounts(t *pbt.T, what string, a, b map[payload]int) {
	for _, p := range sorted(a) {
		if a[p] != b[p] {
			t.Failf("%s: %s is output %d times, then %d times", what, p, a[p], b[p])
		}
	}
	for _, p := range sorted(b) {
		if a[p] != b[p] {
			t.Failf("%s: %s is output %d times, then %d times", what, p, a[p], b[p])
		}
	}
}

func logTree(t *pbt.T, tr *gen.Tree, h how) {
	t.Logf("tree: %s", tr)
	for _, c := range tr.CAs {
		for _, r := range c.ROAs {
			var l []string
			for _, e := range r.Entries {
				l = append(l, fmt.Sprintf("%s-%d", e.P, e.MaxLen))
			}
			t.Logf("  ca%d %s: AS%d %s; certificate %s", c.ID, r.Name, r.AS, strings.Join(l, " "), r.Res)
		}
	}
	t.Logf("settings: %s", h)
}
