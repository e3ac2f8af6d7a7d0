//go:build go1.22

package pbt

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Property is a listed property with the suites that decide it.
type Property struct {
	ID          string
	Suites      []Suite
	Rule        string
	Assumptions []string
	// Setup runs once in the child before any suite.
	Setup func() error
}

// Replay is the content of a replay file.
type Replay struct {
	Property string   `json:"property"`
	Suite    string   `json:"suite"`
	Message  string   `json:"message"`
	Log      []string `json:"log,omitempty"`
	Choices  []uint64 `json:"choices"`
	CaseSeed uint64   `json:"case_seed,omitempty"`
	UseSeed  bool     `json:"use_seed,omitempty"`
	Seed     uint64   `json:"seed"`
	Tier     string   `json:"tier"`
}

const (
	exitViolation = 1
	exitError     = 2
)

// AtExit runs before the check binary exits (not in the children).
var AtExit []func()

func exit(code int) {
	for _, f := range AtExit {
		f()
	}
	os.Exit(code)
}

type result struct {
	Stats []*Stats
}

// Main is the entry point of a check binary.
//
//	check -prop ID -tier quick|thorough -seed N -verif DIR [-replay FILE] [-suite S] [-n N]
func Main(props ...Property) {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "tier")
	seed := flag.Uint64("seed", 1, "seed")
	verif := flag.String("verif", "/verif", "verification directory")
	replay := flag.String("replay", "", "replay file")
	only := flag.String("suite", "", "only this suite")
	n := flag.Int("n", 0, "override the number of cases")
	child := flag.String("child", "", "internal: result file")
	budget := flag.Duration("budget", 0, "wall clock budget over all suites")
	list := flag.Bool("list", false, "list suites")
	scale := flag.Float64("scale", 1, "multiply the number of cases")
	flag.Parse()
	if *list {
		for _, p := range props {
			for _, s := range p.Suites {
				fmt.Println(p.ID, s.Name, s.Quick, s.Thorough)
			}
		}
		exit(0)
	}
	var p *Property
	for i := range props {
		if props[i].ID == *prop {
			p = &props[i]
		}
	}
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		exit(exitError)
	}
	if *replay != "" {
		watchMemory(6 << 30)
		exit(doReplay(p, *replay))
	}
	thorough := *tier == "thorough"
	if *budget == 0 {
		*budget = 420 * time.Second
		if thorough {
			*budget = 780 * time.Second
		}
	}
	if *child != "" {
		runChild(p, *child, *seed, thorough, *only, *n, *scale, *budget)
		return
	}
	exit(parent(p, *verif, *tier, *seed, *only, *n, *scale, *budget))
}

func doReplay(p *Property, file string) int {
	data, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	var r Replay
	if err := json.Unmarshal(data, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	if p.Setup != nil {
		if err := p.Setup(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return exitError
		}
	}
	for _, s := range p.Suites {
		if s.Name != r.Suite {
			continue
		}
		var out Outcome
		if r.UseSeed {
			out = RunCase(s.Prop, r.CaseSeed, nil, true, r.Tier == "thorough")
		} else {
			out = RunCase(s.Prop, 0, r.Choices, false, r.Tier == "thorough")
		}
		if out.Failed {
			fmt.Printf("FAILS: %s\n%s\n", out.Msg, strings.Join(out.Log, "\n"))
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, file)
			return exitViolation
		}
		fmt.Println("holds on this case")
		return 0
	}
	fmt.Fprintln(os.Stderr, "no such suite", r.Suite)
	return exitError
}

func workers() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	return n
}

func runChild(p *Property, outFile string, seed uint64, thorough bool, only string, n int, scale float64, budget time.Duration) {
	if p.Setup != nil {
		if err := p.Setup(); err != nil {
			fmt.Fprintln(os.Stderr, "setup:", err)
			os.Exit(exitError)
		}
	}
	watchMemory(14 << 30)
	var res result
	start := time.Now()
	nsuites := 0
	for _, s := range p.Suites {
		if only == "" || s.Name == only {
			nsuites++
		}
	}
	k := 0
	for _, s := range p.Suites {
		if only != "" && s.Name != only {
			continue
		}
		k++
		cases := s.Quick
		if thorough {
			cases = s.Thorough
			if cases == 0 {
				cases = s.Quick * 20
			}
		}
		cases = int(float64(cases) * scale)
		if n > 0 {
			cases = n
		}
		// share what is left of the budget evenly among the suites to come
		left := budget - time.Since(start)
		deadline := time.Now().Add(left / time.Duration(nsuites-k+1))
		if s.Hang == 0 {
			s.Hang = defaultHang
		}
		inf := newInFlight(outFile, s.Name)
		hang := func(c int, cs uint64) {
			f, err := os.OpenFile(outFile+".hang", os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
			if err == nil {
				fmt.Fprintf(f, "%s %d %d\n", s.Name, c, cs)
				f.Close()
			}
			buf := make([]byte, 1<<20)
			m := runtime.Stack(buf, true)
			os.Stderr.Write(buf[:m])
			os.Exit(77)
		}
		st := RunSuite(s, seed, cases, thorough, workers(), deadline, inf, hang)
		res.Stats = append(res.Stats, st)
		if st.Failure != nil {
			// what there is, in case the process dies of a smaller case
			write(outFile, res)
			ShrinkFailure(s, st, thorough)
			break
		}
	}
	write(outFile, res)
}

func write(outFile string, res result) {
	b, err := json.Marshal(res)
	if err == nil {
		err = os.WriteFile(outFile+".new", b, 0644)
	}
	if err == nil {
		err = os.Rename(outFile+".new", outFile)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(exitError)
	}
}

// defaultHang is how long a case of a suite may take that does not say.
const defaultHang = 120 * time.Second

// watchMemory ends the process once its heap and stacks exceed lim: the cases
// in flight are then run again, each alone.
func watchMemory(lim uint64) {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}, {Name: "/memory/classes/heap/stacks:bytes"}}
	go func() {
		for {
			time.Sleep(50 * time.Millisecond)
			metrics.Read(sample)
			if n := sample[0].Value.Uint64() + sample[1].Value.Uint64(); n > lim {
				fmt.Fprintf(os.Stderr, "fatal error: more than %d GB of memory are in use\n", lim>>30)
				os.Exit(78)
			}
		}
	}()
}

// newInFlight keeps, per worker, a small file with the case being run.
func newInFlight(base, suite string) InFlight {
	var mu sync.Mutex
	files := map[int]*os.File{}
	return func(w, c int, cs uint64, done bool) {
		mu.Lock()
		f := files[w]
		if f == nil {
			f, _ = os.Create(fmt.Sprintf("%s.w%d", base, w))
			files[w] = f
		}
		mu.Unlock()
		if f == nil {
			return
		}
		d := 0
		if done {
			d = 1
		}
		f.WriteAt([]byte(fmt.Sprintf("%-24s %20d %20d %d\n", suite, c, cs, d)), 0)
	}
}

func parent(p *Property, verif, tier string, seed uint64, only string, n int, scale float64, budget time.Duration) int {
	start := time.Now()
	tmp, err := os.MkdirTemp("", "vh-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	defer os.RemoveAll(tmp)
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	out := filepath.Join(tmp, "result.json")
	args := []string{"-prop", p.ID, "-tier", tier, "-seed", strconv.FormatUint(seed, 10), "-child", out, "-suite", only, "-n", strconv.Itoa(n), "-scale", fmt.Sprint(scale), "-budget", budget.String(), "-verif", verif}
	cmd := exec.Command(self, args...)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all")
	logf, err := os.Create(filepath.Join(tmp, "log"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	cmd.Stdout = logf
	cmd.Stderr = logf
	runErr := cmd.Run()
	logf.Close()
	var res result
	data, rerr := os.ReadFile(out)
	if rerr == nil {
		rerr = json.Unmarshal(data, &res)
	}
	if rerr != nil {
		// The child died. Find out whether one case is responsible.
		st := blame(p, self, tmp, out, tier, seed, start)
		if st == nil {
			fmt.Fprintf(os.Stderr, "check process failed without a case to blame: %v\n", runErr)
			tail(filepath.Join(tmp, "log"), 60)
			return exitError
		}
		res.Stats = append(res.Stats, st)
	}
	return report(p, verif, tier, seed, res, time.Since(start).Seconds())
}

// blame re-runs the cases in flight when the child died, each alone.
func blame(p *Property, self, tmp, out, tier string, seed uint64, start time.Time) *Stats {
	type inflight struct {
		suite string
		c     int
		cs    uint64
		hang  bool
	}
	var list []inflight
	if data, err := os.ReadFile(out + ".hang"); err == nil {
		for _, l := range strings.Split(strings.TrimSpace(string(data)), "\n") {
			f := strings.Fields(l)
			if len(f) == 3 {
				c, _ := strconv.Atoi(f[1])
				cs, _ := strconv.ParseUint(f[2], 10, 64)
				list = append(list, inflight{f[0], c, cs, true})
			}
		}
	}
	ms, _ := filepath.Glob(out + ".w*")
	for _, m := range ms {
		data, err := os.ReadFile(m)
		if err != nil {
			continue
		}
		f := strings.Fields(string(data))
		if len(f) == 4 && f[3] == "0" {
			c, _ := strconv.Atoi(f[1])
			cs, _ := strconv.ParseUint(f[2], 10, 64)
			list = append(list, inflight{f[0], c, cs, false})
		}
	}
	sort.SliceStable(list, func(i, j int) bool {
		if list[i].hang != list[j].hang {
			return list[i].hang
		}
		return list[i].c < list[j].c
	})
	for _, in := range list {
		var s *Suite
		for i := range p.Suites {
			if p.Suites[i].Name == in.suite {
				s = &p.Suites[i]
			}
		}
		if s == nil {
			continue
		}
		r := Replay{Property: p.ID, Suite: in.suite, CaseSeed: in.cs, UseSeed: true, Seed: seed, Tier: tier}
		rf := filepath.Join(tmp, "blame.json")
		b, _ := json.Marshal(r)
		os.WriteFile(rf, b, 0644)
		cmd := exec.Command(self, "-prop", p.ID, "-replay", rf)
		lim := 3 * time.Minute
		if left := 860*time.Second - time.Since(start); tier == "quick" && left < lim {
			lim = left
		}
		if lim < 20*time.Second {
			lim = 20 * time.Second
		}
		outb, done := runLimited(cmd, lim)
		msg := ""
		switch {
		case !done:
			msg = "the case does not finish"
		case cmd.ProcessState.ExitCode() == 0:
			continue
		case cmd.ProcessState.ExitCode() == exitViolation:
			msg = "the case fails: " + firstLine(outb)
		case strings.Contains(outb, "fatal error:") || strings.Contains(outb, "goroutine stack exceeds"):
			msg = "the process dies: " + grepLine(outb, "fatal error:", "goroutine stack exceeds")
		default:
			continue // not attributable to the code under test
		}
		return &Stats{Suite: in.suite, Rule: s.Rule, Evaluations: in.c + 1, Labels: map[string]int{}, Known: map[string]string{},
			Failure: &Failure{Suite: in.suite, Case: in.c, Msg: msg, Log: strings.Split(headTail(outb, 40), "\n"), Choices: []uint64{in.cs}, Shrinks: -1}}
	}
	return nil
}

func runLimited(cmd *exec.Cmd, lim time.Duration) (string, bool) {
	var sb strings.Builder
	var mu sync.Mutex
	pr, pw, err := os.Pipe()
	if err != nil {
		return "", true
	}
	cmd.Stdout, cmd.Stderr = pw, pw
	if err := cmd.Start(); err != nil {
		return err.Error(), true
	}
	pw.Close()
	go func() {
		r := bufio.NewReader(pr)
		for {
			l, err := r.ReadString('\n')
			mu.Lock()
			if sb.Len() < 1<<20 {
				sb.WriteString(l)
			}
			mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
	ch := make(chan error, 1)
	go func() { ch <- cmd.Wait() }()
	select {
	case <-ch:
		time.Sleep(50 * time.Millisecond)
		mu.Lock()
		defer mu.Unlock()
		return sb.String(), true
	case <-time.After(lim):
		cmd.Process.Kill()
		<-ch
		mu.Lock()
		defer mu.Unlock()
		return sb.String(), false
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func grepLine(s string, pats ...string) string {
	for _, l := range strings.Split(s, "\n") {
		for _, p := range pats {
			if strings.Contains(l, p) {
				return l
			}
		}
	}
	return firstLine(s)
}

func headTail(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func tail(file string, n int) {
	data, err := os.ReadFile(file)
	if err != nil {
		return
	}
	l := strings.Split(string(data), "\n")
	if len(l) > n {
		l = l[len(l)-n:]
	}
	fmt.Fprintln(os.Stderr, strings.Join(l, "\n"))
}

// KnownFindings reads the committed list of known findings: lines
// "known: property=<id> key=<key> <text>".
func KnownFindings(verif, id string) map[string]string {
	out := map[string]string{}
	data, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(data), "\n") {
		f := strings.SplitN(strings.TrimSpace(l), " ", 4)
		if len(f) == 4 && f[0] == "known:" && f[1] == "property="+id && strings.HasPrefix(f[2], "key=") {
			out[strings.TrimPrefix(f[2], "key=")] = f[3]
		}
	}
	return out
}

func report(p *Property, verif, tier string, seed uint64, res result, wall float64) int {
	ev := map[string]interface{}{}
	total, distinct, disc := 0, 0, 0
	var samples []interface{}
	suites := []interface{}{}
	known := map[string]string{}
	var rules []string
	var fail *Failure
	for _, st := range res.Stats {
		total += st.Evaluations
		distinct += st.Distinct
		disc += st.Discarded
		for _, s := range st.Samples {
			samples = append(samples, st.Suite+": "+s)
		}
		rules = append(rules, st.Suite+": "+st.Rule)
		for k, v := range st.Known {
			known[k] = v
		}
		suites = append(suites, map[string]interface{}{
			"name": st.Suite, "evaluations": st.Evaluations, "discarded": st.Discarded,
			"distinct_nontrivial": st.Distinct, "labels": st.Labels, "wall_s": st.WallS,
		})
		if st.Failure != nil && fail == nil {
			fail = st.Failure
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	listed := KnownFindings(verif, p.ID)
	viol := 0
	if fail == nil {
		var keys []string
		for k := range known {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			if txt, ok := listed[k]; ok {
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", p.ID, k, txt)
			} else {
				fail = &Failure{Suite: "known-findings", Msg: "unlisted finding " + k + ": " + known[k]}
			}
		}
	}
	code := 0
	if fail != nil {
		viol = 1
		code = exitViolation
		r := Replay{Property: p.ID, Suite: fail.Suite, Message: fail.Msg, Log: fail.Log, Choices: fail.Choices, Seed: seed, Tier: tier}
		if fail.Shrinks < 0 && len(fail.Choices) == 1 {
			r.UseSeed = true
			r.CaseSeed = fail.Choices[0]
			r.Choices = nil
		}
		dir := filepath.Join(verif, "replays")
		os.MkdirAll(dir, 0755)
		file := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", p.ID, fail.Suite, seed))
		b, _ := json.MarshalIndent(r, "", " ")
		if err := os.WriteFile(file, b, 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
		fmt.Printf("%s/%s case %d: %s\n", p.ID, fail.Suite, fail.Case, fail.Msg)
		for i, l := range fail.Log {
			if i > 60 {
				break
			}
			fmt.Println("  " + l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, file)
	}
	ev["property"] = p.ID
	ev["tier"] = tier
	ev["seed"] = seed
	ev["level"] = "exploration"
	ev["coverage"] = map[string]interface{}{
		"evaluations": total, "distinct_nontrivial": distinct, "discarded": disc,
		"rule": p.Rule + " | " + strings.Join(rules, " | "), "samples": samples, "suites": suites,
		"known_findings_hit": len(known),
	}
	if len(p.Assumptions) > 0 {
		ev["assumptions"] = p.Assumptions
	}
	ev["wall_s"] = wall
	ev["violations"] = viol
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	if code == 0 {
		fmt.Printf("%s %s seed=%d: held on %d cases (%d distinct non-trivial, %d discarded) in %.1fs\n", p.ID, tier, seed, total, distinct, disc, wall)
	}
	return code
}
