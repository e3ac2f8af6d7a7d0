//go:build go1.22

package main

import (
	"bytes"
	"context"
	"fmt"
	"net"
	"os"
	"path"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"

	api "github.com/cloudflare/cfrpki/sync/api"
	librpki "github.com/cloudflare/cfrpki/validator/lib"
	"github.com/cloudflare/cfrpki/validator/pki"
	"github.com/cloudflare/cfrpki/verifharness/gen"
	"github.com/cloudflare/cfrpki/verifharness/pbt"
)

// apiRepo is what the server of a case publishes.
type apiRepo struct {
	files map[string][]byte
	lost  map[string]bool // answered with an error
	code  codes.Code      // which (0: Unavailable)
	list  []string        // order of the listing
	cut   int             // the listing breaks off after cut-1 files (0: does not)
	stall bool            // instead of breaking off, it stops
	asked []string

	// of the other calls
	in    []interface{}
	sias  []*api.SIA
	state *api.RRDPInfo
}

func (r *apiRepo) err() error {
	c := r.code
	if c == codes.OK {
		c = codes.Unavailable
	}
	return status.Error(c, "out of order")
}

var (
	apiOnce   sync.Once
	apiClient api.RPKIAPIClient
	apiMu     sync.Mutex
	apiRepos  = map[string]*apiRepo{}
	apiNext   int
)

// remote publishes the repository; what reads it is to be used until end.
func remote(r *apiRepo) (f *api.APIFetch, end func()) {
	apiOnce.Do(func() {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		s := grpc.NewServer()
		api.RegisterRPKIAPIServer(s, apiServer{})
		go s.Serve(l)
		c, err := grpc.Dial(l.Addr().String(), grpc.WithInsecure(), grpc.WithBlock())
		if err != nil {
			panic(err)
		}
		apiClient = api.NewRPKIAPIClient(c)
	})
	apiMu.Lock()
	defer apiMu.Unlock()
	apiNext++
	id := fmt.Sprint(apiNext)
	apiRepos[id] = r
	ctx, cancel := context.WithCancel(metadata.AppendToOutgoingContext(context.Background(), "case", id))
	return &api.APIFetch{Client: apiClient, Ctx: ctx}, func() {
		cancel()
		apiMu.Lock()
		defer apiMu.Unlock()
		delete(apiRepos, id)
	}
}

type apiServer struct{}

func repoOf(ctx context.Context) *apiRepo {
	md, _ := metadata.FromIncomingContext(ctx)
	apiMu.Lock()
	defer apiMu.Unlock()
	if v := md.Get("case"); len(v) == 1 && apiRepos[v[0]] != nil {
		return apiRepos[v[0]]
	}
	return &apiRepo{code: codes.Canceled}
}

func (apiServer) GetResource(ctx context.Context, q *api.ResourceQuery) (*api.ResourceData, error) {
	r := repoOf(ctx)
	apiMu.Lock()
	r.asked = append(r.asked, q.Path)
	apiMu.Unlock()
	if r.lost[q.Path] {
		return nil, r.err()
	}
	b, ok := r.files[q.Path]
	if !ok {
		return nil, status.Error(codes.NotFound, "no such file")
	}
	return &api.ResourceData{Path: q.Path, Data: b}, nil
}

func (apiServer) GetRepository(q *api.ResourceQuery, s api.RPKIAPI_GetRepositoryServer) error {
	r := repoOf(s.Context())
	dir := strings.TrimSuffix(q.Path, "/") + "/"
	names := r.list
	if names == nil {
		for p := range r.files {
			if strings.HasPrefix(p, dir) && !strings.Contains(p[len(dir):], "/") {
				names = append(names, p)
			}
		}
		sort.Strings(names)
	}
	for i, n := range names {
		if r.cut == i+1 {
			break
		}
		if err := s.Send(&api.ResourceData{Path: n, Data: r.files[n]}); err != nil {
			return err
		}
	}
	if r.cut > 0 {
		if r.stall {
			<-s.Context().Done()
			return s.Context().Err()
		}
		return r.err()
	}
	return nil
}

func (r *apiRepo) note(m interface{}) {
	apiMu.Lock()
	defer apiMu.Unlock()
	r.in = append(r.in, m)
}

func (apiServer) GetFetchRRDP(q *api.FetchQuery, s api.RPKIAPI_GetFetchRRDPServer) error {
	r := repoOf(s.Context())
	r.note(q)
	for _, x := range r.sias {
		s.Send(x)
	}
	return nil
}

func (apiServer) GetFetch(q *api.FetchQuery, s api.RPKIAPI_GetFetchServer) error {
	r := repoOf(s.Context())
	r.note(q)
	for _, x := range r.sias {
		s.Send(x)
	}
	return nil
}

func (apiServer) PublishFile(ctx context.Context, m *api.ResourceData) (*api.OperationResponse, error) {
	repoOf(ctx).note(m)
	return &api.OperationResponse{}, nil
}

func (apiServer) DeleteFile(ctx context.Context, m *api.ResourceData) (*api.OperationResponse, error) {
	repoOf(ctx).note(m)
	return &api.OperationResponse{}, nil
}

func (apiServer) PostSIA(ctx context.Context, m *api.SIA) (*api.OperationResponse, error) {
	repoOf(ctx).note(m)
	return &api.OperationResponse{}, nil
}

func (apiServer) PostRRDP(ctx context.Context, m *api.RRDPInfo) (*api.OperationResponse, error) {
	repoOf(ctx).note(m)
	return &api.OperationResponse{}, nil
}

func (apiServer) GetRRDPInfo(ctx context.Context, m *api.RRDPInfoQuery) (*api.RRDPInfo, error) {
	r := repoOf(ctx)
	r.note(m)
	return r.state, nil
}

// asRead is what a reader is to make of a file.
func asRead(b []byte) []byte {
	if d, err := librpki.BER2DER(append([]byte(nil), b...)); err == nil {
		return d
	}
	return b
}

// c33File draws the content of a file: DER, BER or neither.
func c33File(t *pbt.T) []byte {
	switch t.Intn(6) {
	case 0:
		return nil
	case 1:
		return t.Bytes(t.Size(60))
	case 2: // indefinite lengths
		b := t.Bytes(t.Intn(60))
		return append(append([]byte{0x30, 0x80, 0x04, byte(len(b))}, b...), 0, 0)
	case 3: // cut off
		b := t.Bytes(t.Intn(60))
		return append([]byte{0x30, byte(len(b) + 1 + t.Intn(40)), 0x04, byte(len(b))}, b...)
	case 4: // followed by something
		b := t.Bytes(t.Intn(60))
		return append(append([]byte{0x04, byte(len(b))}, b...), t.Bytes(t.Intn(4))...)
	}
	b := t.Bytes(t.Intn(120))
	return append([]byte{0x30, 0x81, byte(len(b) + 3), 0x04, 0x81, byte(len(b))}, b...)
}

var c33Types = map[string]int{".roa": pki.TYPE_ROA, ".mft": pki.TYPE_MFT, ".crl": pki.TYPE_CRL, ".cer": pki.TYPE_CER}

// c33Files reads single files and listings.
func c33Files(t *pbt.T) {
	repo := "rsync://" + pbt.Pick(t, "h", "h.example") + "/" + pbt.Pick(t, "m", "m/d", "m/d.cer/e")
	r := &apiRepo{files: map[string][]byte{}, lost: map[string]bool{}}
	var names []string
	for n := 1 + t.Size(7); n > 0; n-- {
		p := fmt.Sprintf("%s/%d%s", repo, len(names), pbt.Pick(t, ".roa", ".mft", ".crl", ".cer", ".roa.old", "", ".ROA", ".gbr", "roa", "é.cer"))
		r.files[p] = c33File(t)
		names = append(names, p)
	}
	r.list = names
	kind := pbt.Pick(t, "file", "file", "listing", "tal")
	slash := pbt.Pick(t, "", "/")
	what := kind
	f, end := remote(r)
	defer end()
	within := time.Duration(0)
	switch kind {
	case "tal":
		d, err := os.MkdirTemp("", "t")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(d)
		b := c33File(t)
		p := d + "/x.tal"
		if t.Chance(3, 4) {
			if os.WriteFile(p, b, 0600) != nil {
				panic(p)
			}
		} else {
			what += " absent"
		}
		s, err := f.GetFile(&pki.PKIFile{Type: pki.TYPE_TAL, Path: p})
		if (err != nil || s == nil) != (what != kind) {
			t.Failf("%s: %v %v", what, s, err)
		}
		if what == kind && (!bytes.Equal(s.Data, b) || !bytes.Equal(s.Sha256, sum(b))) {
			t.Failf("a TAL of %x is read as %x with the hash %x", b, s.Data, s.Sha256)
		}
	case "file":
		p := pbt.Pick(t, names...)
		pf := &pki.PKIFile{Path: p, Type: pbt.Pick(t, pki.TYPE_CER, pki.TYPE_CRL, pki.TYPE_ROA, pki.TYPE_MFT)}
		switch t.Intn(3) {
		case 0: // listed by a manifest
			pf.Path = path.Base(p)
			pf.Parent = &pki.PKIFile{Type: pki.TYPE_MFT, Repo: repo + slash, Path: repo + "/m.mft"}
			what += " of a manifest"
		case 1:
			pf.Parent = &pki.PKIFile{Type: pki.TYPE_CER, Repo: repo, Path: repo + "/c.cer"}
		}
		bad := true
		switch t.Intn(8) {
		case 0:
			r.lost[p] = true
			r.code = codes.Code(t.Range(1, 16))
			what += " refused with " + r.code.String()
		case 1:
			delete(r.files, p)
			what += " absent"
		default:
			bad = false
		}
		s, err := f.GetFile(pf)
		if len(r.asked) != 1 || r.asked[0] != p {
			t.Failf("%s: %q was asked for, not %q", what, r.asked, p)
		}
		if bad {
			if err == nil && (s != nil || !strings.HasSuffix(what, "absent") && !strings.HasSuffix(what, codes.NotFound.String())) {
				t.Failf("%s: no error, and %v", what, s)
			}
			break
		}
		if err != nil || s == nil {
			t.Failf("%s: %v %v (%x)", what, s, err, r.files[p])
		}
		if want := asRead(r.files[p]); !bytes.Equal(s.Data, want) || !bytes.Equal(s.Sha256, sum(r.files[p])) {
			t.Failf("%s of %x: read as %x with the hash %x", what, r.files[p], s.Data, s.Sha256)
		}
		what += fmt.Sprintf(" of %x", r.files[p])
	case "listing":
		dir := &pki.PKIFile{Type: pki.TYPE_CER, Path: repo + "/c.cer", Repo: repo + slash}
		if t.Bool() {
			dir.Type = pki.TYPE_MFT
			what += " for a manifest"
		}
		n := len(names)
		if t.Chance(1, 3) {
			n = t.Intn(len(names) + 1)
			r.cut = n + 1
			r.code = codes.Code(t.Range(1, 16))
			if t.Chance(1, 6) {
				r.stall = true
				within = time.Duration(t.Range(2, 30)) * time.Millisecond
				ctx, cancel := context.WithTimeout(f.Ctx, within)
				defer cancel()
				f.Ctx = ctx
			}
			what += fmt.Sprintf(" broken off (%s, stopped %v)", r.code, r.stall)
		}
		type item struct {
			p string
			f *pki.PKIFile
			s *pki.SeekFile
		}
		var got []item
		t0 := time.Now()
		err := f.GetRepository(dir, func(pf *pki.PKIFile, s *pki.SeekFile, x bool) {
			got = append(got, item{pf.ComputePath(), pf, s})
		})
		if (err != nil) != (r.cut > 0) {
			t.Failf("%s after %d of %d files: error %v", what, n, len(names), err)
		}
		if d := time.Since(t0); d > within+20*time.Second {
			t.Failf("%s took %s", what, d)
		}
		if len(got) > n || len(got) < n && within == 0 {
			t.Failf("%s: %d files of %d", what, len(got), n)
		}
		for i, g := range got {
			b := r.files[names[i]]
			typ, known := c33Types[path.Ext(names[i])]
			if !known {
				typ = pki.TYPE_UNKNOWN
			}
			if strings.HasSuffix(names[i], "roa") && path.Ext(names[i]) == "" { // no dot in the name
				typ = g.f.Type
			}
			if g.p != names[i] || g.f.Type != typ || g.f.Parent != dir {
				t.Failf("%s: %q is given as %q of type %d, not %d", what, names[i], g.p, g.f.Type, typ)
			}
			if !bytes.Equal(g.s.Data, asRead(b)) || !bytes.Equal(g.s.Sha256, sum(b)) {
				t.Failf("%s: %q of %x is given as %x with the hash %x", what, names[i], b, g.s.Data, g.s.Sha256)
			}
			what += fmt.Sprintf(" %x", b)
		}
	}
	t.Label("%s", strings.Split(what, " ")[0])
	t.NonTrivial("%s", what)
	t.Sample("%s", what)
}

// c33Trees validates what is read through the API.
func c33Trees(class int) func(t *pbt.T) {
	return func(t *pbt.T) {
		o := treeOpts(t)
		o.NoFlat = class == 0 && t.Bool()
		tr := gen.DrawTree(t, o)
		var kinds []string
		if class != 0 {
			_, kinds = tr.Hurt(t, class, t.Range(1, 3))
		}
		tr.Build(0)
		h := drawHow(t, tr)
		h.disk = ""
		h.dirs = o.NoFlat
		if t.Chance(1, 3) {
			h.lost = map[string]bool{}
			ps := make([]string, 0, len(tr.Files))
			for p := range tr.Files {
				ps = append(ps, p)
			}
			sort.Strings(ps)
			for n := t.Range(1, 3); n > 0; n-- {
				h.lost[ps[t.Intn(len(ps))]] = true
			}
		}
		logTree(t, tr, h)
		a := validate(tr, h)
		h.api = true
		b := validate(tr, h)
		if len(a.counts) > 0 {
			t.NonTrivial("%s|%s|%d", shape(tr), kindSig(kinds), len(h.lost))
		}
		t.Label("output empty: %v", len(a.counts) == 0)
		t.Label("files lost: %v", h.lost != nil)
		t.Sample("%s; %s; %d files lost; %d payloads", shape(tr), strings.Join(tr.Faults, ", "), len(h.lost), a.total())
		sameCounts(t, "directly and through the API", a.counts, b.counts)
	}
}

func word(t *pbt.T) string {
	return pbt.Pick(t, "", "x", "rsync://h/m/", "https://h/notification.xml", "é\x00\n", strings.Repeat("long ", 1000), fmt.Sprint(t.Intn(1000)))
}

// c33Messages makes each other call.
func c33Messages(t *pbt.T) {
	r := &apiRepo{state: &api.RRDPInfo{RRDP: word(t), SessionID: word(t), Serial: int64(t.Intn(1<<62)) - 1<<61}}
	for n := t.Intn(5); n > 0; n-- {
		r.sias = append(r.sias, &api.SIA{RSYNC: word(t), RRDP: word(t)})
	}
	f, end := remote(r)
	defer end()
	var sent interface{}
	var err error
	call := t.Intn(7)
	stream := func(recv func() (*api.SIA, error)) {
		for i := 0; ; i++ {
			m, err := recv()
			if err != nil {
				if i != len(r.sias) {
					t.Failf("%d messages of %d: %v", i, len(r.sias), err)
				}
				return
			}
			if i >= len(r.sias) || m.RSYNC != r.sias[i].RSYNC || m.RRDP != r.sias[i].RRDP {
				t.Failf("message %d of %d is %v", i, len(r.sias), m)
			}
		}
	}
	switch call {
	case 0, 1:
		m := &api.ResourceData{Path: word(t), Data: t.Bytes(t.Size(3000))}
		sent = m
		if call == 0 {
			_, err = f.Client.PublishFile(f.Ctx, m)
		} else {
			_, err = f.Client.DeleteFile(f.Ctx, m)
		}
	case 2:
		m := &api.SIA{RSYNC: word(t), RRDP: word(t)}
		sent = m
		_, err = f.Client.PostSIA(f.Ctx, m)
	case 3:
		m := &api.RRDPInfo{RRDP: word(t), SessionID: word(t), Serial: int64(t.Intn(1<<62)) - 1<<61}
		sent = m
		_, err = f.Client.PostRRDP(f.Ctx, m)
	case 4:
		m := &api.RRDPInfoQuery{RRDP: word(t)}
		sent = m
		var x *api.RRDPInfo
		x, err = f.Client.GetRRDPInfo(f.Ctx, m)
		if err == nil && (x.RRDP != r.state.RRDP || x.SessionID != r.state.SessionID || x.Serial != r.state.Serial) {
			t.Failf("%v arrives as %v", r.state, x)
		}
	case 5, 6:
		m := &api.FetchQuery{Path: word(t)}
		sent = m
		if call == 5 {
			var s api.RPKIAPI_GetFetchClient
			if s, err = f.Client.GetFetch(f.Ctx, m); err == nil {
				stream(s.Recv)
			}
		} else {
			var s api.RPKIAPI_GetFetchRRDPClient
			if s, err = f.Client.GetFetchRRDP(f.Ctx, m); err == nil {
				stream(s.Recv)
			}
		}
	}
	if err != nil {
		t.Failf("%T: %v", sent, err)
	}
	apiMu.Lock()
	defer apiMu.Unlock()
	if len(r.in) != 1 || reflect.TypeOf(r.in[0]) != reflect.TypeOf(sent) || fmt.Sprint(r.in[0]) != fmt.Sprint(sent) {
		t.Failf("%T %v arrives as %v", sent, sent, r.in)
	}
	t.Label("%T", sent)
	t.NonTrivial("%d %v %v", call, sent, r.sias)
	t.Sample("%T", sent)
}

func propC33() pbt.Property {
	return pbt.Property{
		ID:   "C33",
		Rule: "files: every case, signature: the kind of access and the files; validation: when there is output, signature: the tree's shape, faults and number of lost files; messages: every case",
		Assumptions: []string{
			"the server is one of the harness, reached by gRPC through the loopback interface; it gives files their full URI",
		},
		Suites: []pbt.Suite{
			{Name: "files", Rule: "single files and listings of DER, BER and other content, with absent files, refusals with every status, and streams that break off or stop: content, hash, type, path and outcome as the server has them", Quick: 24000, Thorough: 800000, Prop: c33Files},
			{Name: "validation", Rule: "valid trees, some files refused by the server: the same payloads as when they are read directly", Quick: 1200, Thorough: 40000, Prop: c33Trees(0)},
			{Name: "faulty", Rule: "the same with 1-3 faults of any kind", Quick: 1600, Thorough: 60000, Prop: c33Trees(allFaults)},
			{Name: "messages", Rule: "the other calls of the API: what is sent arrives", Quick: 8000, Thorough: 200000, Prop: c33Messages},
		},
	}
}
