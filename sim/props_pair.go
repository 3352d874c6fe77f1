package main

import (
	"encoding/json"
	"fmt"
	"path"
	"regexp"
	"sort"
	"strings"

	"verifsim/simk"
)

// ---------------------------------------------------------------- C22

// Two runs of the command share the file system and run at the same time. A
// schedule gives the operation up to which each one goes before the other one
// takes its turn. Each process is simulated with the changes made by the other
// one applied at its switching points; the two simulations are repeated until
// the changes of both are those the other one was given: then, they are the two
// sides of one interleaved execution.

type pair struct {
	w     [2]*World
	nodes []simk.Node
}

func newPair(c *Case) *pair {
	p := &pair{w: [2]*World{c.W, c.W2}}
	seen := map[string]bool{}
	for _, w := range p.w {
		for _, n := range w.nodes() {
			if !seen[n.Path] {
				seen[n.Path] = true
				p.nodes = append(p.nodes, n)
			}
		}
	}
	return p
}

func (p *pair) plan(i int, faults []simk.Fault) *simk.Plan {
	q := p.w[i].plan()
	q.Nodes = p.nodes
	q.Faults = faults
	q.Journal = true
	return q
}

// turn describes what the other run did (operations from, excluded, to to)
// before the operation at.
type turn struct{ at, from, to int }

func turns(sched []int, i int) (r []turn) {
	// run 0 goes up to sched[0], run 1 up to sched[1], run 0 up to sched[2]...
	const all = 1 << 30
	last := [2]int{}
	for k := 0; k <= len(sched)+1; k++ {
		who := k % 2
		to := all
		if k < len(sched) {
			to = max(sched[k], last[who])
		}
		if who != i {
			r = append(r, turn{last[i] + 1, last[who], to})
		}
		last[who] = to
		if to == all && who != i {
			break
		}
	}
	return
}

func actors(j []simk.Change, ts []turn) (fs []simk.Fault) {
	for _, t := range ts {
		var acts []simk.Act
		for _, c := range j {
			if c.Step > t.from && c.Step <= t.to {
				acts = append(acts, c.Act)
			}
		}
		if len(acts) > 0 {
			fs = append(fs, simk.Fault{Kind: simk.FActor, Step: t.at, Acts: acts})
		}
	}
	return
}

// run returns the two sides of an interleaved execution.
func (p *pair) run(b *Bench, sched []int, faults [2][]simk.Fault) (o [2]*RunOut, ok bool) {
	var last [2]string
	var journal [2][]simk.Change
	for round := 0; round < 12; round++ {
		same := true
		for i := 0; i < 2; i++ {
			fs := append(actors(journal[1-i], turns(sched, i)), faults[i]...)
			o[i] = b.exec(b.cli, p.plan(i, fs))
			journal[i] = o[i].Journal
			k, _ := json.Marshal(journal[i])
			if round == 0 || string(k) != last[i] {
				same, last[i] = false, string(k)
			}
		}
		if same {
			return o, true
		}
	}
	return o, false
}

// final is the tree at the end of both.
func (p *pair) final(o [2]*RunOut, sched []int) tree {
	t := treeOf(o[1].Nodes)
	// what run 0 does when run 1 has ended
	for _, u := range turns(sched, 1) {
		if u.at <= o[1].Steps {
			continue
		}
		for _, c := range o[0].Journal {
			if c.Step > u.from && c.Step <= u.to {
				t.apply(&c.Act)
			}
		}
	}
	return t
}

func (t tree) apply(a *simk.Act) {
	e, ok := t[a.P]
	switch a.Kind {
	case simk.AWrite:
		if !ok {
			e = entry{Mode: simk.IFREG | a.M}
		}
		e.Data = string(a.D)
		t[a.P] = e
	case simk.ARemove:
		for p := range t {
			if p != a.P && inDir(p, a.P) {
				return
			}
		}
		delete(t, a.P)
	case simk.AMkdir:
		if !ok {
			t[a.P] = entry{Mode: simk.IFDIR | a.M}
		}
	case simk.ALink:
		if !ok {
			t[a.P] = entry{Mode: simk.IFLNK | 0777, Target: a.P2}
		}
	case simk.AChmod:
		if ok {
			e.Mode = e.Mode&0170000 | a.M
			t[a.P] = e
		}
	}
}

func changed(from, to tree) map[string]bool {
	r := map[string]bool{}
	for p, e := range to {
		if o, ok := from[p]; !ok || o != e {
			r[p] = true
		}
	}
	for p := range from {
		if _, ok := to[p]; !ok {
			r[p] = true
		}
	}
	return r
}

func evalPair(b *Bench, c *Case) *Violation {
	p := newPair(c)
	init := treeOf(p.nodes)
	var alone [2]*RunOut
	var trees [2]tree
	var delta [2]map[string]bool
	for i := range alone {
		alone[i] = b.exec(b.cli, p.plan(i, nil))
		if a := abnormal(alone[i]); a != "" {
			return &Violation{Class: "abnormal", Msg: a, Trace: alone[i].Trace}
		}
		trees[i] = treeOf(alone[i].Nodes)
		delta[i] = changed(init, trees[i])
	}
	for f := range delta[0] {
		if delta[1][f] && !trees[0][f].isDir() {
			return nil // their results are not distinct
		}
	}
	for k := 1; k < len(c.Sched); k++ {
		if k > 1 && c.Sched[k] < c.Sched[k-2] {
			return nil
		}
	}
	o, ok := p.run(b, c.Sched, [2][]simk.Fault{c.Faults, nil})
	b.st.mu.Lock()
	if !ok {
		b.st.Probes["schedules without a common execution"]++
	} else {
		b.st.Probes["interleaved executions"]++
		b.st.Probes["switches between the runs"] += int64(len(c.Sched))
	}
	b.st.mu.Unlock()
	if !ok {
		return nil
	}
	b.sample(c, o[0])
	b.sample(c, o[1])
	final := p.final(o, c.Sched)
	for i := range o {
		if i == 0 && len(c.Faults) > 0 {
			continue
		}
		name := [2]string{"the first run", "the second run"}[i]
		if a := abnormal(o[i]); a != "" {
			return &Violation{Class: "abnormal", Msg: name + ": " + a, Trace: o[i].Trace}
		}
		if o[i].Code != alone[i].Code {
			return &Violation{Class: "status", Msg: fmt.Sprintf("%s ends with %d, and with %d alone: %s", name, o[i].Code, alone[i].Code, clip(string(o[i].Err))), Trace: o[i].Trace}
		}
		if string(o[i].Out) != string(alone[i].Out) {
			return &Violation{Class: "stdout", Msg: name + ": " + diffAt(string(o[i].Out), string(alone[i].Out)), Trace: o[i].Trace}
		}
		for _, f := range sorted(pathsOf(delta[i])) {
			w, isW := trees[i][f]
			g, isG := final[f]
			if w.isDir() && isW && (isG && g.isDir()) {
				continue
			}
			if !isW && isG && g.isDir() {
				continue
			}
			if isW != isG || w != g {
				return &Violation{Class: "files", Msg: fmt.Sprintf("%s: %s is %s, and %s alone", name, f, descr(g, isG), descr(w, isW)), Trace: o[i].Trace}
			}
		}
	}
	if len(c.Faults) == 0 {
		for _, f := range final.keys() {
			if _, ok := init[f]; !ok && !delta[0][f] && !delta[1][f] {
				return &Violation{Class: "left", Msg: "left behind: " + f, Trace: o[0].Trace}
			}
		}
		for f := range init {
			if _, ok := final[f]; !ok && !delta[0][f] && !delta[1][f] {
				return &Violation{Class: "left", Msg: "removed: " + f, Trace: o[0].Trace}
			}
		}
	}
	return nil
}

func descr(e entry, ok bool) string {
	switch {
	case !ok:
		return "absent"
	case e.isDir():
		return "a folder"
	}
	return oct(e.Mode) + " " + quote(clip(e.Data))
}

func pathsOf(m map[string]bool) (r []string) {
	for k := range m {
		r = append(r, k)
	}
	return
}

var moved = regexp.MustCompile(`/w\b`)

// relocate gives the same world in other folders.
func relocate(w *World) *World {
	b, _ := json.Marshal(w)
	n := &World{}
	if err := json.Unmarshal([]byte(moved.ReplaceAllString(string(b), "/v")), n); err != nil {
		panic(err)
	}
	return n
}

func cloneWorld(w *World) *World { return (&Case{W: w}).clone().W }

func pairCase(r *rng) *Case {
	p := defaultProfile()
	p.MaxFiles, p.Run, p.Include, p.Print, p.Code, p.Save, p.Big = 4, 25, 15, 12, 15, 15, 3
	if r.p(30) {
		p.Terraform = 60
	}
	p.Errors = r.p(25)
	c := &Case{}
	switch r.n(3) {
	case 0: // different sources
		c.Kind, c.W = "apart", cliWorld(r, p, nil)
		c.W2 = relocate(cliWorld(r, p, nil))
		if r.p(40) {
			c.W.Target, c.W2.Target = "/s/out/one", "/s/out/two"
		}
	case 1: // the same sources, different targets
		p.Save, p.Print = 0, 0
		c.Kind, c.W = "targets", cliWorld(r, p, nil)
		c.W2 = cloneWorld(c.W)
		c.W.Target, c.W2.Target = "/s/out/one", "/s/out/two"
		if r.p(30) {
			c.W.Target, c.W2.Target = "/s/one", "/s/two"
		}
	default: // the same folders, different templates
		p.Save, p.Print, p.Plain, p.Overwrite, p.Target, p.Args, p.Exclude, p.Terraform = 0, 0, false, 0, 0, 0, 0, 0
		p.MaxFiles = 7
		c.Kind, c.W = "shared", cliWorld(r, p, nil)
		if r.p(50) {
			c.W.Target = "/s/out"
		}
		c.W2 = cloneWorld(c.W)
		c.W.ArgFiles, c.W2.ArgFiles, c.W2.ArgCode = nil, nil, nil
		for i := range c.W.Files {
			f := &c.W.Files[i]
			if !isTemplateName(f.Path) || !inDir(f.Path, c.W.srcDir()) {
				continue
			}
			w := c.W
			if r.p(50) {
				w = c.W2
			}
			w.ArgFiles = append(w.ArgFiles, strings.TrimPrefix(f.Path, w.srcDir()+"/"))
		}
		if len(c.W.ArgFiles) == 0 || len(c.W2.ArgFiles) == 0 {
			return pairCase(r)
		}
	}
	c.W2.Seed = r.next() >> 1
	if r.p(45) { // both save in the same new folder
		d := pick(r, "/s", "/s/saved", "/s/a/b", "/tmp", "/tmp/new")
		if strings.Count(d, "/") > 1 {
			c.W.Dirs = append(c.W.Dirs, path.Dir(d))
		}
		for i, w := range []*World{c.W, c.W2} {
			w.ArgCode = append(w.ArgCode, []Frag{{Src: fmt.Sprintf("{{ save `%s/of%d.txt` `content of %d` }}.{{ load `%s/of%d.txt` }}", d, i, i, d, i)}})
		}
	}
	return c
}

// pairSched draws the turns of the two runs.
func pairSched(r *rng, o [2]*RunOut, k int) (s []int) {
	var at [2][]int
	for i := range o {
		var hot []int
		for _, e := range o[i].Trace {
			switch e.Op {
			case simk.OpMkdir, simk.OpCreate, simk.OpUnlink, simk.OpRmdir, simk.OpRename, simk.OpFork, simk.OpChmod:
				hot = append(hot, e.Step, e.Step-1)
			case simk.OpStat, simk.OpOpen, simk.OpAccess:
				if e.Errno != 0 || strings.HasPrefix(e.Path, "/tmp") || strings.HasPrefix(e.Path, "/s") {
					hot = append(hot, e.Step)
				}
			}
		}
		for n := 0; n < k; n++ {
			if len(hot) > 0 && r.p(75) {
				at[i] = append(at[i], hot[r.n(len(hot))])
			} else {
				at[i] = append(at[i], r.rangeN(1, max(2, o[i].Steps)))
			}
		}
		sort.Ints(at[i])
	}
	if r.p(20) {
		at[0][0] = 0 // the second one starts first
	}
	for n := 0; n < k; n++ {
		s = append(s, at[0][n], at[1][n])
	}
	if r.p(50) {
		s = s[:len(s)-1]
	}
	return
}

func init() {
	register(&Prop{
		ID: "C22", Level: "exploration", Needs: "cli", Quick: 260, Thor: 40000, Real: realCLI, Stubs: stubCLI, Assume: cliAssume,
		Rule: "executions (distinct operation traces) of one of two runs interleaved at operations drawn by the seed",
		Explore: func(b *Bench, r *rng, idx int, eval func(*Case) bool) {
			c := pairCase(r)
			p := newPair(c)
			var alone [2]*RunOut
			for i := range alone {
				alone[i] = b.exec(b.cli, p.plan(i, nil))
			}
			n := 7
			if b.thorough() {
				n = 40
			}
			m := &faultMix{errno: 4, short: 1, torn: 2, crash: 8}
			faults := sampleFaults(r, alone[0].Trace, m, n/2)
			for k := 0; k < n+len(faults); k++ {
				x := *c
				x.Sched = pairSched(r, alone, pick(r, 1, 1, 2, 2, 3, 5))
				if k >= n {
					x.Faults = faults[k-n]
				}
				if !eval(&x) {
					return
				}
			}
		},
		Eval: evalPair,
		Shrink: func(c *Case) (out []*Case) {
			for i := 0; i+1 < len(c.Sched); i++ {
				n := c.clone()
				n.Sched = append(append([]int{}, c.Sched[:i]...), c.Sched[i+2:]...)
				out = append(out, n)
			}
			add := func(f func(w *World)) {
				n := c.clone()
				f(n.W2)
				if n.W2.sane() {
					out = append(out, n)
				}
			}
			for i := range c.W2.Files {
				add(func(w *World) { w.Files = drop(w.Files, i) })
			}
			for i := range c.W2.ArgFiles {
				add(func(w *World) { w.ArgFiles = drop(w.ArgFiles, i) })
			}
			for i := range c.W2.ArgCode {
				add(func(w *World) { w.ArgCode = drop(w.ArgCode, i) })
			}
			return
		},
	})
}
