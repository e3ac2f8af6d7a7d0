//go:build go1.22

package prog

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// RsyncRun is how rsync was started.
type RsyncRun struct {
	Args []string
	Cwd  string
	// as rsync understands it
	Opts   []string
	Source string
	Dest   string // absolute
	Links  bool   // links are copied ...
	Safe   bool   // ... unless they lead out of the copied tree
}

// Node is a file of an rsync server, or a symbolic link.
type Node struct {
	Data []byte
	Link string
}

// RsyncDo is what rsync does.
type RsyncDo struct {
	Files  map[string]Node // by path below the destination
	Exit   int
	Hang   time.Duration // before it ends
	Child  bool          // leave a process behind that holds the output open
	Noise  string        // more output
	Stderr string
}

// Fetch is what an rsync server with the given files (by URI) sends.
func Fetch(run RsyncRun, files map[string][]byte, links map[string]string) (map[string]Node, bool) {
	out := map[string]Node{}
	src := run.Source
	uri := strings.TrimRight(src, "/")
	if d, ok := files[src]; ok {
		out[path.Base(src)] = Node{Data: d}
		return out, true
	}
	found := false
	base := ""
	if !strings.HasSuffix(src, "/") && strings.Count(strings.TrimPrefix(uri, "rsync://"), "/") > 1 {
		base = path.Base(uri) + "/"
	}
	for u, d := range files {
		if strings.HasPrefix(u, uri+"/") {
			found = true
			out[base+u[len(uri)+1:]] = Node{Data: d}
		}
	}
	for u, to := range links {
		if strings.HasPrefix(u, uri+"/") {
			found = true
			rel := u[len(uri)+1:]
			if run.Links && !(run.Safe && unsafe(rel, to)) {
				out[base+rel] = Node{Link: to}
			}
		}
	}
	return out, found
}

// unsafe is rsync's rule for links that lead out of the copied tree.
func unsafe(rel, to string) bool {
	if to == "" || strings.HasPrefix(to, "/") {
		return true
	}
	depth := 0
	for _, p := range strings.Split(path.Dir(rel), "/") {
		if p == ".." {
			return true
		}
		if p != "." && p != "" {
			depth++
		}
	}
	for _, p := range strings.Split(to, "/") {
		switch p {
		case "..":
			depth--
			if depth < 0 {
				return true
			}
		case ".", "":
		default:
			depth++
		}
	}
	return false
}

func parseRun(args []string, cwd string) RsyncRun {
	r := RsyncRun{Args: args, Cwd: cwd}
	var pos []string
	end := false
	for _, a := range args {
		switch {
		case !end && a == "--":
			end = true
		case !end && strings.HasPrefix(a, "-") && a != "-":
			r.Opts = append(r.Opts, a)
			if !strings.HasPrefix(a, "--") && strings.ContainsAny(a, "la") {
				r.Links = true
			}
			switch a {
			case "--links", "--archive":
				r.Links = true
			case "--safe-links":
				r.Safe = true
			case "--no-links", "--no-l":
				r.Links = false
			}
		default:
			pos = append(pos, a)
		}
	}
	if len(pos) == 2 {
		r.Source, r.Dest = pos[0], pos[1]
		if !filepath.IsAbs(r.Dest) {
			r.Dest = filepath.Join(cwd, r.Dest)
		} else {
			r.Dest = filepath.Clean(r.Dest)
		}
	}
	return r
}

// Inside tells whether a path, links resolved, is root or below.
func Inside(root, p string) bool {
	real := p
	rest := ""
	for {
		if r, err := filepath.EvalSymlinks(real); err == nil {
			real = filepath.Join(r, rest)
			break
		}
		if real == "/" {
			break
		}
		rest = filepath.Join(filepath.Base(real), rest)
		real = filepath.Dir(real)
	}
	root, _ = filepath.EvalSymlinks(root)
	return real == root || strings.HasPrefix(real, root+"/")
}

func (e *Env) serveRsync(w http.ResponseWriter, r *http.Request) {
	var in struct {
		Args []string
		Cwd  string
	}
	body, _ := io.ReadAll(r.Body)
	if json.Unmarshal(body, &in) != nil {
		http.Error(w, "bad request", 400)
		return
	}
	run := parseRun(in.Args, in.Cwd)
	do := RsyncDo{Exit: 1}
	if run.Dest != "" {
		if !Inside(e.Root, run.Dest) {
			e.mu.Lock()
			e.Bad = append(e.Bad, run.Dest)
			e.mu.Unlock()
		} else {
			e.mu.Lock()
			h := e.Rsync
			e.mu.Unlock()
			if h != nil {
				do = h(run)
			}
		}
	}
	b, err := json.Marshal(struct {
		RsyncDo
		Dest, Root string
	}{do, run.Dest, e.Root})
	if err != nil {
		panic(err)
	}
	w.Write(b)
}

// BadTargets are the synchronisation targets outside of the case's directory.
func (e *Env) BadTargets() []string {
	e.mu.Lock()
	defer e.mu.Unlock()
	return append([]string(nil), e.Bad...)
}

// rsyncMain is the rsync the programs under test start.
func rsyncMain(u string) {
	if os.Getenv("VERIF_RSYNC_CHILD") != "" { // holds the output open
		time.Sleep(8 * time.Second)
		os.Exit(0)
	}
	cwd, _ := os.Getwd()
	in, _ := json.Marshal(map[string]interface{}{"Args": os.Args[1:], "Cwd": cwd})
	res, err := http.Post(u, "application/json", bytes.NewReader(in))
	if err != nil {
		fmt.Fprintln(os.Stderr, "rsync:", err)
		os.Exit(10)
	}
	body, err := io.ReadAll(res.Body)
	var do struct {
		RsyncDo
		Dest, Root string
	}
	if err != nil || json.Unmarshal(body, &do) != nil {
		fmt.Fprintln(os.Stderr, "rsync: no answer")
		os.Exit(11)
	}
	fmt.Println("receiving incremental file list")
	var names []string
	for n := range do.Files {
		names = append(names, n)
	}
	sort.Strings(names)
	bad := false
	for _, n := range names {
		f := do.Files[n]
		p := filepath.Join(do.Dest, n)
		if !strings.HasPrefix(p, do.Dest+"/") || !Inside(do.Root, filepath.Dir(p)) {
			fmt.Fprintln(os.Stderr, "rsync: refusing", p)
			bad = true
			continue
		}
		fmt.Println(n)
		if put(do.Dest, n, f) != nil {
			bad = true
		}
	}
	if do.Noise != "" {
		fmt.Print(do.Noise)
	}
	if do.Stderr != "" {
		fmt.Fprint(os.Stderr, do.Stderr)
	}
	fmt.Printf("\nsent 1 bytes  received 1 bytes  1.00 bytes/sec\ntotal size is 1  speedup is 1.00\n")
	if do.Child {
		c := exec.Command(os.Args[0])
		c.Env = append(os.Environ(), "VERIF_RSYNC_CHILD=1")
		c.Stdout, c.Stderr = os.Stdout, os.Stderr
		c.Start()
	}
	time.Sleep(do.Hang)
	if bad && do.Exit == 0 {
		do.Exit = 23
	}
	os.Exit(do.Exit)
}

// put does as the receiving rsync: what is in the way of a file, and links
// among its directories below the destination, are replaced.
func put(dest, name string, f Node) error {
	cur := dest
	parts := strings.Split(name, "/")
	for _, d := range parts[:len(parts)-1] {
		cur = filepath.Join(cur, d)
		if st, err := os.Lstat(cur); err == nil && !st.IsDir() {
			os.Remove(cur)
		}
		if err := os.Mkdir(cur, 0755); err != nil && !os.IsExist(err) {
			return err
		}
	}
	p := filepath.Join(dest, name)
	if f.Link != "" {
		os.Remove(p)
		return os.Symlink(f.Link, p)
	}
	tmp := filepath.Join(filepath.Dir(p), ".~"+filepath.Base(p))
	if len(filepath.Base(tmp)) > 255 {
		tmp = filepath.Join(filepath.Dir(p), ".~tmp")
	}
	if err := os.WriteFile(tmp, f.Data, 0644); err != nil {
		return err
	}
	if err := os.Rename(tmp, p); err != nil {
		os.Remove(tmp)
		return err
	}
	return nil
}
