//go:build go1.22

// Package prog runs the commands of the repository under test, unprivileged
// and in scratch directories, with servers and an rsync of its own.
package prog

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"log"
	"math/big"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/cloudflare/cfrpki/verifharness/pbt"
)

const (
	envBase  = "VERIF_PROG_BASE"
	envRsync = "VERIF_FAKE_RSYNC"
	nobody   = 65534
)

// Prepare is called first thing in main. It becomes rsync when it was started
// as such; otherwise it copies the binaries to where everyone can start them.
func Prepare(names ...string) {
	if u := os.Getenv(envRsync); u != "" {
		rsyncMain(u)
	}
	if os.Getenv(envBase) != "" {
		return
	}
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	for i := 0; ; i++ {
		dir := fmt.Sprintf("/tmp/verif-prog-%d-%d", os.Getpid(), i)
		if err = os.Mkdir(dir, 0755); err == nil {
			os.Setenv(envBase, dir)
			break
		}
		if i > 100 {
			panic(err)
		}
	}
	b := os.Getenv(envBase)
	pbt.AtExit = append(pbt.AtExit, func() { os.RemoveAll(b) })
	os.Chmod(b, 0755)
	for _, n := range append(names, filepath.Base(self)) {
		to := n
		if n == filepath.Base(self) {
			to = "rsync"
		}
		if err := copyFile(filepath.Join(filepath.Dir(self), n), filepath.Join(b, to)); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.RemoveAll(b)
			os.Exit(2)
		}
	}
}

func copyFile(from, to string) error {
	in, err := os.Open(from)
	if err != nil {
		return err
	}
	defer in.Close()
	out, err := os.OpenFile(to, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0755)
	if err != nil {
		return err
	}
	if _, err := io.Copy(out, in); err != nil {
		return err
	}
	os.Chmod(to, 0755)
	return out.Close()
}

var (
	serverURL string
	tlsURL    string
	envs      sync.Map // id → *Env
	nextID    atomic.Int64
	nextPort  atomic.Int64
	asRoot    atomic.Bool // could not change the user
)

// Setup starts the server the programs talk to.
func Setup() error {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return err
	}
	serverURL = "http://" + ln.Addr().String()
	nextPort.Store(int64(os.Getpid()) * 97 % 20000)
	srv := &http.Server{Handler: http.HandlerFunc(dispatch)}
	srv.SetKeepAlivesEnabled(false) // clients repeat requests that a kept connection loses
	go srv.Serve(ln)
	return setupTLS(srv)
}

// setupTLS serves the same by HTTPS, with a certificate the programs trust.
func setupTLS(srv *http.Server) error {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return err
	}
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		return err
	}
	c := &x509.Certificate{
		SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "verif"}, NotBefore: time.Unix(1e9, 0), NotAfter: time.Unix(4e9, 0),
		IPAddresses: []net.IP{{127, 0, 0, 1}}, IsCA: true, BasicConstraintsValid: true,
		KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
	}
	der, err := x509.CreateCertificate(rand.Reader, c, c, &key.PublicKey, key)
	if err != nil {
		return err
	}
	trusted := filepath.Join(os.Getenv(envBase), "trusted.pem")
	if err := os.WriteFile(trusted, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0644); err != nil {
		return err
	}
	os.Chmod(trusted, 0644)
	tlsURL = "https://" + ln.Addr().String()
	conf := &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}, NextProtos: []string{"http/1.1"}}
	t := &http.Server{Handler: srv.Handler, ErrorLog: log.New(io.Discard, "", 0)}
	t.SetKeepAlivesEnabled(false)
	go t.Serve(tls.NewListener(ln, conf))
	return nil
}

func dispatch(w http.ResponseWriter, r *http.Request) {
	p := strings.SplitN(strings.TrimPrefix(r.URL.Path, "/"), "/", 2)
	v, ok := envs.Load(p[0])
	if !ok || len(p) < 2 {
		http.Error(w, "no such case", 404)
		return
	}
	e := v.(*Env)
	if p[1] == "rsync" {
		e.serveRsync(w, r)
		return
	}
	e.mu.Lock()
	h := e.HTTP
	e.mu.Unlock()
	if h == nil {
		http.Error(w, "nothing here", 404)
		return
	}
	h(p[1], w, r)
}

// FreePort finds a port outside of the range the system hands out.
func FreePort() int {
	for i := 0; i < 5000; i++ {
		p := 10000 + int(nextPort.Add(1)%20000)
		ln, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", p))
		if err == nil {
			ln.Close()
			return p
		}
	}
	panic("no free port")
}

// Env is the surroundings of one case.
type Env struct {
	ID   string
	Root string // everything the case may touch
	Work string // the working directory of its programs, deep inside
	URL  string
	TLS  string // the same by HTTPS

	// HTTP answers requests below URL.
	HTTP func(path string, w http.ResponseWriter, r *http.Request)
	// Rsync decides what an rsync run does.
	Rsync func(run RsyncRun) RsyncDo

	// FileSize limits the files the programs can write, like a full disk.
	FileSize int

	mu    sync.Mutex
	procs []*Proc
	Bad   []string // synchronisation targets outside of Root
}

// New makes the surroundings of a case.
func New(t *pbt.T) *Env {
	id := fmt.Sprintf("c%d", nextID.Add(1))
	e := &Env{ID: id, URL: serverURL + "/" + id, TLS: tlsURL + "/" + id}
	e.Root = filepath.Join(os.Getenv(envBase), fmt.Sprintf("%d-%s", os.Getpid(), id))
	e.Work = filepath.Join(e.Root, "a/b/c/work")
	if err := os.MkdirAll(filepath.Join(e.Work, "tmp"), 0755); err != nil {
		panic(err)
	}
	e.own(e.Root)
	envs.Store(id, e)
	t.Cleanup(e.Close)
	return e
}

func (e *Env) own(dir string) {
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		os.Lchown(p, nobody, nobody)
		return nil
	})
}

// Close ends what still runs and removes the files.
func (e *Env) Close() {
	e.mu.Lock()
	ps := e.procs
	e.mu.Unlock()
	for _, p := range ps {
		p.Kill()
	}
	envs.Delete(e.ID)
	os.RemoveAll(e.Root)
}

// Write makes a file below the working directory.
func (e *Env) Write(name string, data []byte) string {
	p := filepath.Join(e.Work, name)
	if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(p, data, 0644); err != nil {
		panic(err)
	}
	e.own(filepath.Join(e.Work, strings.SplitN(name, "/", 2)[0]))
	return p
}

// Proc is a started program.
type Proc struct {
	cmd  *exec.Cmd
	out  capped
	std  *bytes.Buffer       // the standard output when it is kept apart
	user *syscall.Credential // when not the usual one
	Code int
	done chan struct{}
	err  error
}

// capped keeps the beginning and the end of an output.
type capped struct {
	mu         sync.Mutex
	head, tail []byte
}

func (c *capped) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	n := len(p)
	if len(c.head) < 8000 {
		k := min(len(p), 8000-len(c.head))
		c.head = append(c.head, p[:k]...)
		p = p[k:]
	}
	c.tail = append(c.tail, p...)
	if len(c.tail) > 32000 {
		c.tail = append([]byte(nil), c.tail[len(c.tail)-16000:]...)
	}
	return n, nil
}

func (c *capped) String() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.tail) == 0 {
		return string(c.head)
	}
	return string(c.head) + "\n[...]\n" + string(c.tail)
}

// Start runs a program of the repository (or the copied rsync).
func (e *Env) Start(name string, args ...string) *Proc {
	return e.start(&Proc{done: make(chan struct{})}, name, args)
}

// StartSplit does so, keeping the standard output apart.
func (e *Env) StartSplit(name string, args ...string) *Proc {
	return e.start(&Proc{done: make(chan struct{}), std: new(bytes.Buffer)}, name, args)
}

// StartAs does so as another user and group; it returns nil where the harness
// cannot change the user.
func (e *Env) StartAs(uid, gid uint32, name string, args ...string) *Proc {
	if os.Getuid() != 0 || asRoot.Load() {
		return nil
	}
	p := e.start(&Proc{done: make(chan struct{}), std: new(bytes.Buffer), user: &syscall.Credential{Uid: uid, Gid: gid}}, name, args)
	if asRoot.Load() {
		p.Kill()
		return nil
	}
	return p
}

// Stdout of a program that StartSplit started, and that has ended.
func (p *Proc) Stdout() string { return p.std.String() }

func (e *Env) start(p *Proc, name string, args []string) *Proc {
	for try := 0; ; try++ {
		a := args
		if asRoot.Load() && name == "octorpki" {
			a = append([]string{"-allow.root"}, args...)
		}
		file := filepath.Join(os.Getenv(envBase), name)
		if e.FileSize > 0 {
			a = append([]string{fmt.Sprintf("--fsize=%d", e.FileSize), "--", file}, a...)
			file = "/usr/bin/prlimit"
		}
		c := exec.Command(file, a...)
		c.Dir = e.Work
		c.Env = []string{
			"PATH=/usr/bin:/bin", "HOME=" + e.Work, "TMPDIR=" + filepath.Join(e.Work, "tmp"),
			envRsync + "=" + e.URL + "/rsync", "GOTRACEBACK=all",
			"SSL_CERT_FILE=" + filepath.Join(os.Getenv(envBase), "trusted.pem"), "SSL_CERT_DIR=/nonexistent", "GORACE=history_size=3",
		}
		c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		if os.Getuid() == 0 && !asRoot.Load() {
			c.SysProcAttr.Credential = &syscall.Credential{Uid: nobody, Gid: nobody}
			if p.user != nil {
				c.SysProcAttr.Credential = p.user
			}
		}
		c.Stdout, c.Stderr = &p.out, &p.out
		if p.std != nil {
			p.std.Reset()
			c.Stdout = p.std
		}
		c.WaitDelay = 2 * time.Second
		err := c.Start()
		if err != nil && errors.Is(err, syscall.EPERM) && !asRoot.Load() {
			asRoot.Store(true)
			continue
		}
		if err != nil && try < 5 { // out of processes for a moment
			time.Sleep(100 * time.Millisecond)
			continue
		}
		if err != nil {
			panic(fmt.Sprintf("cannot start %s: %v", name, err))
		}
		p.cmd = c
		break
	}
	e.mu.Lock()
	e.procs = append(e.procs, p)
	e.mu.Unlock()
	go func() {
		p.err = p.cmd.Wait()
		p.Code = p.cmd.ProcessState.ExitCode()
		close(p.done)
	}()
	return p
}

// Done is closed when the program has ended.
func (p *Proc) Done() <-chan struct{} { return p.done }

// Running tells whether the program has not ended.
func (p *Proc) Running() bool {
	select {
	case <-p.done:
		return false
	default:
		return true
	}
}

// Wait waits for the end of the program.
func (p *Proc) Wait(d time.Duration) bool {
	select {
	case <-p.done:
		return true
	case <-time.After(d):
		return false
	}
}

// Kill ends the program, and what it started, at once.
func (p *Proc) Kill() {
	if p.cmd == nil {
		return
	}
	syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL)
	<-p.done
}

// Stacks makes a Go program show where it is, and ends it.
func (p *Proc) Stacks() {
	syscall.Kill(p.cmd.Process.Pid, syscall.SIGQUIT)
	p.Wait(2 * time.Second)
	p.Kill()
}

// Output is what the program has written so far.
func (p *Proc) Output() string { return p.out.String() }

// Crashed tells whether a Go program ended with a panic or a runtime error.
func (p *Proc) Crashed() bool {
	o := p.Output()
	return strings.Contains(o, "panic: ") || strings.Contains(o, "fatal error: ") || strings.Contains(o, "goroutine 1 [")
}

// Tail is the end of the output.
func (p *Proc) Tail(n int) string {
	o := p.Output()
	if len(o) > n {
		o = "..." + o[len(o)-n:]
	}
	return o
}

// Disk lists what is below a directory: files with content, links with target,
// directories. Paths in skip (and below) are left out.
func Disk(root string, skip ...string) map[string]string {
	m := map[string]string{}
	filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		for _, s := range skip {
			if p == s {
				if d != nil && d.IsDir() {
					return filepath.SkipDir
				}
				return nil
			}
		}
		if err != nil || p == root {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		switch {
		case d.IsDir():
			m[rel] = "directory"
		case d.Type()&fs.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			m[rel] = "link to " + l
		default:
			b, _ := os.ReadFile(p)
			m[rel] = "file:" + string(b)
		}
		return nil
	})
	return m
}

// Diff names the differences between two directory trees.
func Diff(a, b map[string]string) []string {
	var l []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			l = append(l, "removed "+k)
		} else if v != w {
			l = append(l, "changed "+k)
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok {
			l = append(l, fmt.Sprintf("created %s (%.40q)", k, v))
		}
	}
	sort.Strings(l)
	return l
}

// Get fetches a page of a started server.
func Get(url string, d time.Duration, header ...string) (int, http.Header, []byte, error) {
	c := &http.Client{Timeout: d, Transport: &http.Transport{DisableKeepAlives: true}}
	req, err := http.NewRequest("GET", url, nil)
	if err != nil {
		return 0, nil, nil, err
	}
	for i := 0; i+1 < len(header); i += 2 {
		req.Header.Set(header[i], header[i+1])
	}
	res, err := c.Do(req)
	if err != nil {
		return 0, nil, nil, err
	}
	defer res.Body.Close()
	var b bytes.Buffer
	if _, err := io.Copy(&b, res.Body); err != nil {
		return 0, nil, nil, err
	}
	return res.StatusCode, res.Header, b.Bytes(), nil
}
