package main

import (
	"fmt"
	"path"
	"strings"
	"verifsim/simk"
)

// ---------------------------------------------------------------- C18

func tildes(r *rng) string { return strings.Repeat("~", r.rangeN(1, 9)) + " " + genWord(r) + "\n" }

// tfWorld: several folders of terraform templates, with neighbours that are
// not formatted, some of them not valid.
func tfWorld(r *rng) *World {
	w := &World{Seed: r.next() >> 1, Cwd: "/w/src", StdinKind: simk.InNull, Terraform: !r.p(8), Recursive: true, Print: r.p(12)}
	w.Overwrite = r.p(40)
	if r.p(40) {
		w.Target = pick(r, "/w/out", "../out", "../../w/out/deep")
	}
	names := []string{"", "net", "db", "net/sub", "a b", "zone[1]", "app", "é", "mod.tf"}
	shuffle(r, names)
	n := r.rangeN(1, pick(r, 3, 5, 8))
	bad := r.p(55)
	used := map[string]bool{}
	add := func(p string, fs []Frag) {
		if !used[p] {
			used[p] = true
			w.Files = append(w.Files, WFile{Path: p, Mode: pick(r, uint32(0644), 0600, 0664), Frags: fs})
		}
	}
	body := func() (fs []Frag) {
		for k := r.rangeN(1, 3); k > 0; k-- {
			if r.p(50) {
				x := genWord(r)
				t := strings.Repeat("~", r.rangeN(1, 6))
				fs = append(fs, Frag{Src: fmt.Sprintf("{{ print \"%s\" }}%s\n", x, t), Out: x + t + "\n"})
			} else {
				fs = append(fs, lit(tildes(r)))
			}
		}
		if bad && r.p(25) {
			fs = append(fs, lit("INVALID\n"))
		}
		if r.p(7) {
			fs = append(fs, Frag{Src: "{{ raise \"no\" }}\n", Err: "no"})
		}
		return
	}
	for _, d := range names[:min(n, len(names))] {
		dir := path.Join("/w/src", d)
		for k := r.rangeN(1, 3); k > 0; k-- {
			add(path.Join(dir, pick(r, "main.tf", "vars.tfvars", "x.tf.json", "other.tf", "backend.tf")+pick(r, ".gt", ".gt", ".template")), body())
		}
		if r.p(40) {
			add(path.Join(dir, "own.tf"), []Frag{lit(tildes(r))})
		}
		if bad && r.p(15) {
			add(path.Join(dir, "broken.tf"), []Frag{lit("~~~~ INVALID\n")})
		}
		if w.Target != "" && r.p(30) {
			add(path.Join(w.tgtDir(), d, "there.tf"), []Frag{lit(tildes(r))})
		}
		if r.p(20) {
			add(path.Join(dir, "note.txt.gt"), body())
		}
	}
	for _, d := range []string{"quiet", "net/quiet", "texts"} {
		if r.p(60) {
			add(path.Join("/w/src", d, "alone.tf"), []Frag{lit(tildes(r))})
			if r.p(60) {
				add(path.Join("/w/src", d, "main.txt.gt"), body())
			}
		}
	}
	if r.p(30) {
		w.Patterns = append(w.Patterns, "*.tf")
	}
	return w
}

func tfForkDir(e *simk.Event) (string, bool) {
	if e.Op != simk.OpFork || !strings.HasPrefix(e.Path2, "terraform") && !strings.Contains(e.Path2, "/terraform") {
		return "", false
	}
	_, d, ok := strings.Cut(e.Path2, simk.DirMark)
	return path.Clean(d), ok
}

func evalC18(b *Bench, c *Case) *Violation {
	w := c.W
	plain := *w
	plain.Terraform = false
	x := plain.expect() // before the formatter
	y := w.expect()
	o := b.runWorld(w, c.Faults)
	b.sample(c, o)
	fail := func(class, format string, a ...any) *Violation {
		return &Violation{Class: class, Msg: fmt.Sprintf(format, a...), Trace: o.Trace}
	}
	if a := abnormal(o); a != "" {
		return fail("abnormal", "%s", a)
	}
	if recovered(o) {
		return fail("abort", "the run was aborted: %s", clip(string(o.Err)))
	}
	badDir := map[string]bool{}
	loose := 0
	for _, e := range effective(o) {
		if d, ok := tfForkDir(e); ok {
			badDir[d] = true
		} else if !(e.Fault == simk.FShort || e.Fault == simk.FErrno && e.Errno == int64(simk.EINTR)) {
			loose++
		}
	}
	got := treeOf(o.Nodes).filesOnly(workRoots...)
	base, want := x.Tree.filesOnly(workRoots...), y.Tree.filesOnly(workRoots...)
	formatted := w.Terraform && !w.Print
	invalid := map[string]bool{}
	if formatted {
		for p, e := range base {
			if isTF(p) && x.TFDirs[path.Dir(p)] && strings.Contains(e.Data, "INVALID") {
				invalid[path.Dir(p)] = true
			}
		}
	}
	unformatted := map[string]bool{}
	for _, p := range base.keys() {
		e, ok := got[p]
		if !ok {
			return fail("lost", "%s is missing after the run", p)
		}
		d := path.Dir(p)
		if e.Mode != base[p].Mode {
			return fail("mode", "%s: mode %o instead of %o", p, e.Mode, base[p].Mode)
		}
		if !formatted || !isTF(p) || !x.TFDirs[d] {
			if e.Data != base[p].Data || e.Target != base[p].Target {
				return fail("touched", "%s, which is not concerned by the formatting: %s", p, diffAt(e.Data, base[p].Data))
			}
			continue
		}
		if strings.Contains(base[p].Data, "INVALID") {
			if e.Data != base[p].Data {
				return fail("altered", "%s, refused by the formatter, was altered: %s", p, diffAt(e.Data, base[p].Data))
			}
			continue
		}
		vs := tfVariants(p, base[p].Data)
		if !oneOf(e.Data, vs) {
			return fail("altered", "%s: %s", p, diffAt(e.Data, want[p].Data))
		}
		if e.Data != vs[2] && e.Data != vs[3] {
			unformatted[d] = true
			if !badDir[d] && !invalid[d] && loose == 0 {
				return fail("unformatted", "%s is not formatted (found, expected %s), although the formatter met no failure in its folder", p, diffAt(e.Data, vs[2]))
			}
		}
	}
	for _, p := range got.keys() {
		if _, ok := base[p]; !ok {
			return fail("extra", "unexpected file %s", p)
		}
	}
	extra := 0
	for d := range unformatted {
		if !badDir[d] && !invalid[d] {
			extra++
		}
	}
	if extra > loose {
		return fail("unformatted", "%d folders are not formatted although only %d operations failed", extra, loose)
	}
	for i := range o.Trace {
		if d, ok := tfForkDir(&o.Trace[i]); ok && !w.Print && !x.TFDirs[d] {
			return fail("touched", "the formatter was started in %s, which received no terraform file", d)
		}
	}
	if len(unformatted) > 0 || len(invalid) > 0 || x.Code != 0 {
		if o.Code == 0 {
			return fail("exit", "exit 0 although folders could not be formatted: %v %v, or a template failed", keysSet(unformatted), keysSet(invalid))
		}
		for _, d := range append(keysSet(unformatted), keysSet(invalid)...) {
			if !strings.Contains(string(o.Err), d) && !strings.Contains(string(o.Err), path.Base(d)) && (badDir[d] || invalid[d]) {
				return fail("unnamed", "the failure in %s is not reported: %s", d, clip(string(o.Err)))
			}
		}
	} else if o.Code != 0 && len(effective(o)) == 0 && !(w.Print && w.Terraform) {
		return fail("exit", "exit %d although nothing failed: %s", o.Code, clip(string(o.Err)))
	}
	if w.Print && w.Terraform && loose == 0 {
		if !printedTF(string(o.Out), x.Items, func(it *Item) bool {
			p, _ := w.resultPath(it.Abs, it.Result)
			return isTF(p)
		}) {
			return fail("stdout", "standard output %s, apart from the formatting", diffAt(string(o.Out), x.Stdout))
		}
		for _, e := range effective(o) {
			if o.Code == 0 && e.Fault != simk.FShort && !(e.Fault == simk.FErrno && e.Errno == int64(simk.EINTR)) {
				return fail("exit", "exit 0 although the formatter failed")
			}
		}
	}
	if !w.Print && string(o.Out) != x.Stdout {
		return fail("stdout", "standard output %s", diffAt(string(o.Out), x.Stdout))
	}
	return nil
}

// printedTF tells whether the output holds every rendering in order, each
// terraform file formatted or not.
func printedTF(out string, items []Item, tf func(it *Item) bool) bool {
	if len(items) == 0 {
		return out == ""
	}
	vs := []string{items[0].Stdout}
	if tf(&items[0]) && items[0].Action == "print" {
		raw := items[0].Result
		vs = append(vs, raw, simk.TFPass(raw), simk.TFPass(simk.TFPass(raw)))
	}
	for _, v := range vs {
		if strings.HasPrefix(out, v) && printedTF(out[len(v):], items[1:], tf) {
			return true
		}
	}
	return false
}

func keysSet(m map[string]bool) (r []string) {
	for k := range m {
		r = append(r, k)
	}
	return sorted(r)
}

func init() {
	register(&Prop{
		ID: "C18", Level: "exploration", Needs: "cli", Quick: 480, Thor: 60000, Real: realCLI, Stubs: stubCLI, Assume: cliAssume,
		Rule: "executions (distinct operation traces) in which the start, the execution or the pipes of a formatter were made to fail",
		Explore: func(b *Bench, r *rng, idx int, eval func(*Case) bool) {
			w := tfWorld(r)
			if !w.sane() {
				return
			}
			if !eval(&Case{Kind: "plain", W: w}) {
				return
			}
			o := b.runWorld(w, nil)
			var forks []int
			for i := range o.Trace {
				if _, ok := tfForkDir(&o.Trace[i]); ok {
					forks = append(forks, i)
				}
			}
			if len(forks) == 0 {
				return
			}
			var singles [][]simk.Fault
			proc := func(i int) simk.Fault {
				return at(o.Trace, i, simk.FProc, pick(r, int64(1), 2, 126, 255, 141, int64(r.rangeN(1, 255)), 256+9, 256+15, 256+11), pick(r, int64(-1), 0, 3, -2, -3, -4))
			}
			for _, i := range forks {
				singles = append(singles, []simk.Fault{proc(i)}, []simk.Fault{at(o.Trace, i, simk.FErrno, pick(r, errnosFor(simk.OpFork)...), 0)})
				if r.p(40) { // every time in that folder
					f := proc(i)
					f.Path, f.Skip, f.Count = o.Trace[i].Path2, 0, 1<<20
					singles = append(singles, []simk.Fault{f})
				}
			}
			// the other operations around the formatter
			first := forks[0] - 8
			m := &faultMix{errno: 5, short: 1, eintr: 1}
			for i := max(0, first); i < len(o.Trace); i++ {
				e := &o.Trace[i]
				near := e.Op == simk.OpPipe || e.Op == simk.OpPipeRead || e.Op == simk.OpOpen && e.Path == "/dev/null" || i > forks[0] && (e.Op == simk.OpStat || e.Op == simk.OpAccess) && strings.HasSuffix(e.Path, "/terraform")
				if !near {
					continue
				}
				if f, ok := randFault(r, o.Trace, i, m); ok && r.p(40) {
					singles = append(singles, []simk.Fault{f})
				}
			}
			shuffle(r, singles)
			n := 16
			if b.thorough() {
				n = 60
			}
			for _, fs := range singles[:min(n, len(singles))] {
				if !eval(&Case{Kind: "faulted", W: w, Faults: fs}) {
					return
				}
			}
			for _, fs := range combine(r, singles, n/2, 4) {
				if !eval(&Case{Kind: "faulted", W: w, Faults: fs}) {
					return
				}
			}
			v := *w
			v.Seed = r.next() >> 1
			eval(&Case{Kind: "plain", W: &v})
		},
		Eval: evalC18,
	})
}
