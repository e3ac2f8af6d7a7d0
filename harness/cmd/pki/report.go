//go:build go1.22

package main

import (
	"fmt"
	"strings"

	"github.com/getsentry/sentry-go"

	"github.com/cloudflare/cfrpki/validator/pki"
	"github.com/cloudflare/cfrpki/verifharness/gen"
	"github.com/cloudflare/cfrpki/verifharness/pbt"
)

// C30: what validation refuses is reported.

func propC30() pbt.Property {
	return pbt.Property{
		ID:   "C30",
		Rule: "the validation read a file and refused it, so that there is something to report",
		Assumptions: []string{
			"the repository is explored by its manifests, as is the default",
			"the manager has a log, as in all programs of the repository: without one it does not report",
			"a file was accepted when it was read if the manager recorded what it holds (ResourceOfPath); what is only dropped later, because of its issuer, is not reported by itself",
		},
		Suites: []pbt.Suite{
			{Name: "reports", Quick: 4000, Thorough: 80000, Prop: c30Reports,
				Rule: "trees with 1-5 faults of all classes, in all settings: each file read is accepted or reported once, and nothing else is reported"},
			{Name: "reasons", Quick: 4000, Thorough: 80000, Prop: c30Reasons,
				Rule: "trees with one fault of a known kind: the object at fault is reported with that kind, no other object is"},
		},
	}
}

// report as read from the channel.
type report struct {
	err   error
	kind  int
	file  *pki.PKIFile
	inner *pki.PKIFile
	sum   []byte
}

func (r report) String() string {
	f := "no file"
	if r.file != nil {
		f = r.file.ComputePath()
	}
	return fmt.Sprintf("%s: %s: %v", f, pki.ErrorTypeToName[r.kind], r.err)
}

// read is a file that was handed to the validation, or asked for.
type read struct {
	file *pki.PKIFile
	data *pki.SeekFile
	err  error
}

// recorder notes what a seeker hands out.
type recorder struct {
	pki.FileSeeker
	reads []read
}

func (r *recorder) GetFile(f *pki.PKIFile) (*pki.SeekFile, error) {
	d, err := r.FileSeeker.GetFile(f)
	r.reads = append(r.reads, read{f, d, err})
	return d, err
}

// explored is what one manager did.
type explored struct {
	sm      *pki.SimpleManager
	reads   []read
	reports []report
}

func exploreAll(t *pbt.T, tr *gen.Tree, h how) []explored {
	files := make(map[string][]byte, len(tr.Files)+len(tr.TALs))
	for k, v := range tr.Files {
		files[k] = v
	}
	for i, tal := range tr.TALs {
		files[fmt.Sprintf("tal:%d", i)] = tal
	}
	var out []explored
	groups := [][]int{}
	if h.joint {
		groups = append(groups, h.order)
	} else {
		for _, i := range h.order {
			groups = append(groups, []int{i})
		}
	}
	for _, g := range groups {
		rec := &recorder{FileSeeker: &memory{files: files, absent: h.absent}}
		sm := pki.NewSimpleManager()
		sm.Validator = pki.NewValidator()
		sm.Validator.Time = h.Time
		sm.Validator.DecoderConfig.ValidateStrict = h.StrictCMS
		sm.FileSeeker = rec
		sm.StrictManifests, sm.StrictHash = h.StrictManifests, h.StrictHash
		sm.ReportErrors = true
		sm.Log = quiet{}
		done := make(chan []report)
		go func() {
			var l []report
			for err := range sm.Errors {
				r := report{err: err}
				switch e := err.(type) {
				case *pki.CertificateError:
					r.kind, r.file, r.inner = e.EType, e.File, e.InnerFile
					if e.SeekFile != nil {
						r.sum = e.SeekFile.Sha256
					}
				case *pki.FileError:
					r.kind, r.file, r.inner = e.EType, e.File, e.InnerFile
					if e.SeekFile != nil {
						r.sum = e.SeekFile.Sha256
					}
				case *pki.ResourceError:
					r.kind, r.file = e.EType, e.File
					if e.SeekFile != nil {
						r.sum = e.SeekFile.Sha256
					}
				}
				l = append(l, r)
			}
			done <- l
		}()
		var l []*pki.PKIFile
		for _, i := range g {
			l = append(l, &pki.PKIFile{Path: fmt.Sprintf("tal:%d", i), Type: pki.TYPE_TAL})
		}
		sm.AddInitial(l)
		sm.Explore(false, false)
		sm.Close()
		e := explored{sm: sm, reads: rec.reads, reports: <-done}
		for _, r := range e.reports {
			t.Logf("reported: %v", r)
			if r.err == nil {
				t.Failf("a report without an error")
			}
			if strings.TrimSpace(r.err.Error()) == "" {
				t.Failf("an empty report about %v", r.file)
			}
			if r.file == nil {
				t.Failf("a report that does not name the file: %v", r.err)
			}
			if s, ok := r.err.(interface{ SetSentryScope(*sentry.Scope) }); ok {
				s.SetSentryScope(sentry.NewScope())
			}
		}
		out = append(out, e)
	}
	return out
}

// aboutPublisher says whether the report is about the certificate whose
// publication is at fault.
func (r report) aboutPublisher() bool {
	return r.kind == pki.ERROR_CERTIFICATE_MANIFEST || r.kind == pki.ERROR_CERTIFICATE_CRL
}

// publisher of a file that a manifest lists.
func publisher(f *pki.PKIFile) *pki.PKIFile {
	if f.Parent == nil || f.Parent.Type != pki.TYPE_MFT || f.Parent.Parent == nil || f.Parent.Parent.Type != pki.TYPE_CER {
		return nil
	}
	return f.Parent.Parent
}

// judge checks the reports of one manager; it returns how many files were refused.
func (e explored) judge(t *pbt.T, h how) int {
	own := map[*pki.PKIFile][]report{}
	blamed := map[*pki.PKIFile]int{}
	for _, r := range e.reports {
		if r.aboutPublisher() {
			if r.inner == nil {
				t.Failf("%s is reported for its publication, but not for which file", r.file.ComputePath())
			}
			if r.file.Type != pki.TYPE_CER || r.inner.Parent == nil || r.inner.Parent.Parent != r.file {
				t.Failf("%s is reported for %s, which it did not publish", r.file.ComputePath(), r.inner.ComputePath())
			}
			if e.sm.ResourceOfPath[r.file] == nil {
				t.Failf("%s is reported for what it published, but was not accepted itself", r.file.ComputePath())
			}
			blamed[r.inner]++
			continue
		}
		own[r.file] = append(own[r.file], r)
	}
	seen := map[*pki.PKIFile]bool{}
	refused := 0
	for _, r := range e.reads {
		if seen[r.file] {
			continue
		}
		seen[r.file] = true
		name := r.file.ComputePath()
		l := own[r.file]
		delete(own, r.file)
		bad := r.err != nil
		badHash := false
		if r.err == nil && r.data != nil && h.StrictHash && r.file.ManifestHash != nil && string(r.data.Sha256) != string(r.file.ManifestHash) {
			bad, badHash = true, true
		}
		if h.StrictManifests && (bad || r.data == nil) && publisher(r.file) != nil && e.sm.ResourceOfPath[publisher(r.file)] != nil && blamed[r.file] == 0 {
			t.Failf("%s is not in order, but its publisher %s is not reported for it", name, publisher(r.file).ComputePath())
		}
		if r.err == nil && r.data == nil { // absent
			if len(l) > 0 {
				t.Failf("%s is absent and reported: %v", name, l[0])
			}
			continue
		}
		accepted := !bad && e.sm.ResourceOfPath[r.file] != nil
		if accepted && len(l) > 0 {
			t.Failf("%s was accepted, but reported: %v", name, l[0])
		}
		if accepted {
			continue
		}
		refused++
		if len(l) == 0 {
			t.Failf("%s was refused, but not reported", name)
		}
		if len(l) > 1 {
			t.Failf("%s is reported %d times: %v, %v", name, len(l), l[0], l[1])
		}
		want := -1
		switch {
		case badHash:
			want = pki.ERROR_CERTIFICATE_HASH
		case r.err != nil:
			want = pki.ERROR_FILE
		}
		if want >= 0 && l[0].kind != want {
			t.Failf("%s is reported as %q instead of %q: %v", name, pki.ErrorTypeToName[l[0].kind], pki.ErrorTypeToName[want], l[0].err)
		}
		if r.data != nil && string(l[0].sum) != string(r.data.Sha256) {
			t.Failf("%s is reported with the hash %x instead of %x", name, l[0].sum, r.data.Sha256)
		}
	}
	for f, l := range own {
		if !seen[f] {
			t.Failf("%s was not read, but is reported: %v", f.ComputePath(), l[0])
		}
	}
	for f := range blamed {
		if !seen[f] {
			t.Failf("%s was not read, but its publisher is reported for it", f.ComputePath())
		}
	}
	return refused
}

func c30Reports(t *pbt.T) {
	tr := gen.DrawTree(t, treeOpts(t))
	_, kinds := tr.Hurt(t, gen.SelfROA|gen.SelfCA|gen.Listing|gen.Point|gen.CRLs|gen.Hostile|gen.Anchor|gen.Container, t.Range(1, 5))
	tr.Build(0)
	h := drawHow(t, tr)
	h.disk = ""
	logTree(t, tr, h)
	refused := 0
	for _, e := range exploreAll(t, tr, h) {
		refused += e.judge(t, h)
	}
	if refused > 0 {
		t.NonTrivial(fmt.Sprintf("%s/%d/%v%v", kindSig(kinds), refused, h.StrictManifests, h.StrictHash))
	}
	t.Sample(fmt.Sprintf("%v: %d files refused and reported", kinds, refused))
}

// reasons by which a fault is reported, by the end of its name.
var c30Kinds = map[string][]int{
	"expired":     {pki.ERROR_CERTIFICATE_EXPIRATION},
	"notyet":      {pki.ERROR_CERTIFICATE_EXPIRATION},
	"badsig":      {pki.ERROR_CERTIFICATE_PARENT},
	"wrongsigner": {pki.ERROR_CERTIFICATE_PARENT},
	"revoked":     {pki.ERROR_CERTIFICATE_REVOCATION},
	"overclaim":   {pki.ERROR_CERTIFICATE_RESOURCE},
	"garbage":     {pki.ERROR_FILE},
}

func c30Reasons(t *pbt.T) {
	tr := gen.DrawTree(t, treeOpts(t))
	_, kinds := tr.Hurt(t, gen.SelfROA|gen.SelfCA, 1)
	tr.Build(0)
	h := strict(tr)
	h.StrictCMS = t.Bool()
	h.absent = t.Bool()
	h.joint = len(tr.TAs) > 1 && t.Chance(1, 3)
	h.order = t.Perm(len(tr.TAs))
	logTree(t, tr, h)
	if len(kinds) == 0 {
		t.Discard()
	}
	part := strings.Split(kinds[0], "-")
	want := c30Kinds[part[len(part)-1]]

	// the verdict on each object by itself
	self := map[string]gen.Tri{}
	for _, c := range tr.CAs {
		if c.Parent != nil {
			v := c.EE.OK(c.Parent, h.Settings)
			if c.File.Verdict != nil && c.File.Verdict(h.StrictCMS) != gen.Yes {
				v = gen.No
			}
			if v == gen.Yes && c.Alive(h.Settings) == gen.No {
				v = gen.Maybe
			}
			self[c.Parent.Dir+c.File.Name] = v
		}
		if c.Alive(h.Settings) == gen.No { // it may have been accepted, and revoked after that
			self[c.Dir+c.MftName], self[c.Dir+c.CRLName] = gen.Maybe, gen.Maybe
		}
		for _, x := range c.Extra { // of types the validation does not know
			self[c.Dir+x.Name] = gen.Maybe
		}
		for _, r := range c.ROAs {
			v := r.EE.OK(c, h.Settings)
			if r.CMSBad != gen.Yes || h.StrictCMS && r.StrictV != gen.Yes || r.File.Verdict != nil {
				if v = gen.Maybe; r.CMSBad == gen.No || r.File.Verdict != nil && r.File.Verdict(h.StrictCMS) == gen.No {
					v = gen.No
				}
			}
			if v == gen.Yes && (r.Res.V4 != nil && r.Res.V4.Inherit || r.Res.V6 != nil && r.Res.V6.Inherit || r.Res.V4 == nil && r.Res.V6 == nil) {
				v = gen.Maybe
			}
			if r.Verdict(h.Settings) == gen.No && v == gen.Yes {
				v = gen.Maybe // of a CA at fault, or with entries at fault
			}
			self[c.Dir+r.File.Name] = v
		}
	}
	found := 0
	for _, e := range exploreAll(t, tr, h) {
		e.judge(t, h)
		for _, r := range e.reports {
			if r.aboutPublisher() {
				t.Failf("a publication is reported though all are in order: %v", r)
			}
			v, known := self[r.file.ComputePath()]
			if !known {
				t.Failf("a report about another file than certificates, ROAs and those of unknown type, which are all in order: %v", r)
			}
			if v == gen.Yes {
				t.Failf("%s is in order, but reported: %v", r.file.ComputePath(), r)
			}
			if v != gen.No {
				continue
			}
			found++
			ok := want == nil
			for _, k := range want {
				ok = ok || k == r.kind
			}
			if !ok {
				t.Failf("%s (%s) is reported as %q: %v", r.file.ComputePath(), kinds[0], pki.ErrorTypeToName[r.kind], r.err)
			}
		}
	}
	t.Label(kinds[0])
	if found > 0 {
		t.NonTrivial(fmt.Sprintf("%s/%s/%d", kinds[0], shape(tr), found))
	}
	t.Sample(fmt.Sprintf("%v: %d reports", tr.Faults, found))
}
