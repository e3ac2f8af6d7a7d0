//go:build go1.22

package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/cloudflare/cfrpki/verifharness/gen"
	"github.com/cloudflare/cfrpki/verifharness/pbt"
	"github.com/cloudflare/cfrpki/verifharness/prog"
)

// layout puts the files of a tree into directories, and tells the -map.dir
// argument that finds them there.
func layout(t *pbt.T, e *prog.Env, files map[string][]byte) string {
	var uris []string
	for u := range files {
		uris = append(uris, u)
	}
	sort.Strings(uris)
	prefixes := map[string]string{}
	add := func(p string) {
		if _, ok := prefixes[p]; ok {
			return
		}
		dir := fmt.Sprintf("repo/%d", len(prefixes))
		switch t.Intn(6) {
		case 0:
			dir = e.Work + "/" + dir
		case 1:
			dir = "./" + dir
		case 2:
			dir = "repo//x y/" + fmt.Sprint(len(prefixes))
		}
		if t.Bool() {
			dir += "/"
		}
		prefixes[p] = dir
	}
	switch t.Intn(4) {
	case 0:
		add("rsync://")
	case 1:
		for _, u := range uris {
			add(prog.Module(u) + "/")
		}
	case 2:
		for _, u := range uris {
			add("rsync://" + prog.Host(u))
		}
	default:
		add("rsync://")
		for i := t.Intn(5); i > 0 && len(uris) > 0; i-- {
			u := pbt.Pick(t, uris...)
			switch t.Intn(3) {
			case 0:
				add(prog.Module(u) + "/")
			case 1:
				add(u[:strings.LastIndex(u, "/")+1])
			default:
				add("rsync://" + prog.Host(u) + "/")
			}
		}
	}
	for _, u := range uris {
		best := ""
		for p := range prefixes {
			if strings.HasPrefix(u, p) && len(p) > len(best) {
				best = p
			}
		}
		e.Write(strings.TrimPrefix(strings.TrimSuffix(prefixes[best], "/")+"/"+u[len(best):], e.Work+"/"), files[u])
	}
	var args []string
	for p, d := range prefixes {
		args = append(args, p+"="+d)
	}
	sort.Strings(args)
	pbt.Shuffle(t, args)
	return strings.Join(args, ",")
}

// atTime draws how the validation time is given; wide trees may do without.
func atTime(t *pbt.T, tm time.Time, wide bool) []string {
	if wide {
		if t.Bool() {
			return nil
		}
		return []string{"-valid.time", "now"}
	}
	switch t.Intn(3) {
	case 0:
		return []string{"-valid.time", fmt.Sprint(tm.Unix())}
	case 1:
		return []string{"-valid.time=" + tm.UTC().Format(time.RFC3339)}
	}
	zone := time.FixedZone("", (t.Intn(57)-28)*1800)
	return []string{"-valid.time", tm.In(zone).Format(time.RFC3339Nano)}
}

// trust is a TAL of the command line.
type trust struct {
	i    int // of the tree's, or -1
	file string
}

// trusts draws the TALs of the command line: those of the tree, with some that
// are not there or not TALs.
func trusts(t *pbt.T, e *prog.Env, tr *gen.Tree, bad bool) []trust {
	var l []trust
	for _, i := range t.Perm(len(tr.TALs)) {
		name := fmt.Sprintf("tals/%d.tal", i)
		switch t.Intn(5) {
		case 0:
			name = fmt.Sprintf("t a l s/%d", i)
		case 1:
			name = fmt.Sprintf("%d=x.tal", i)
		}
		p := e.Write(name, tr.TALs[i])
		if t.Bool() {
			p = name
		}
		l = append(l, trust{i, p})
	}
	for bad && t.Chance(1, 3) {
		b := trust{-1, ""}
		switch t.Intn(6) {
		case 0:
			b.file = "tals/none.tal"
		case 1:
			e.Write("dir/x", nil)
			b.file = "dir"
		case 2:
			b.file = e.Write("broken.tal", t.Bytes(t.Intn(100)))
		case 3:
			b.file = e.Write("empty.tal", nil)
		case 4:
			b.file = ""
		default: // cut short
			x := tr.TALs[t.Intn(len(tr.TALs))]
			b.file = e.Write("cut.tal", x[:t.Intn(len(x)/2)])
		}
		k := t.Intn(len(l) + 1)
		l = append(l[:k], append([]trust{b}, l[k:]...)...)
	}
	return l
}

func talArg(l []trust) string {
	var s []string
	for _, x := range l {
		s = append(s, x.file)
	}
	return strings.Join(s, ",")
}

func yes(t *pbt.T, name string, v, def bool) []string {
	if v == def && t.Bool() {
		return nil
	}
	return []string{fmt.Sprintf("-%s=%v", name, v)}
}

func shape(tr *gen.Tree) string {
	d, r := 0, 0
	for _, c := range tr.CAs {
		if x := c.Depth(); x > d {
			d = x
		}
		r += len(c.ROAs)
	}
	return fmt.Sprintf("%d TAs, %d CAs, depth %d, %d ROAs", len(tr.TAs), len(tr.CAs), d, r)
}

const allFaults = gen.SelfROA | gen.SelfCA | gen.Listing | gen.Point | gen.CRLs | gen.Anchor

func drawOpts(t *pbt.T, wide bool) gen.TreeOpts {
	o := gen.TreeOpts{TAs: 3, CAs: 6, ROAs: 3, Depth: 5, Wide: wide}
	switch t.Intn(6) {
	case 0:
		o.Depth, o.ROAs, o.TAs = 10, 1, 1
	case 1:
		o.Depth = 1
	case 2:
		o.MinROAs = 2
	case 3:
		o.CAs, o.ROAs, o.MinROAs = 9, 5, 1
	}
	return o
}
