package main

import (
	"fmt"
	"path"
	"strings"
	"verifsim/simk"
)

var cliAssume = []string{
	"the simulated kernel implements the system calls used with Linux semantics, with one durable state: what a system call completed is what survives a kill of the process (no page cache loss)",
	"child programs are models (mini shell, terraform fmt)",
	"gotemplate is compiled from /repo's working tree with go1.26.10; the standard library is real above the system call layer",
}

// normalised access to the bits of the model that several checks need.

// itemByPath maps every path an item reads or writes to its index.
func itemByPath(x *Expect) map[string]int {
	m := map[string]int{}
	for i := range x.Items {
		it := &x.Items[i]
		if it.Abs == "" {
			continue
		}
		m[it.Abs] = i
		if it.Out != "" {
			m[it.Out] = i
		}
		if it.Rename {
			m[it.Abs+".original"] = i
		}
	}
	return m
}

// tfVariants are the states a formatter may leave a content in.
func tfVariants(p, s string) []string {
	if !isTF(p) {
		return []string{s}
	}
	a := simk.TFPass(s)
	return []string{s, a, simk.TFPass(a), simk.TFPass(simk.TFPass(a))}
}

func oneOf(s string, l []string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// firstTemplateOpen is the index of the first event opening a source file that
// is processed; what comes before is discovery.
func firstTemplateOpen(x *Expect, tr []simk.Event) int {
	abs := map[string]bool{}
	for i := range x.Items {
		if x.Items[i].Abs != "" {
			abs[x.Items[i].Abs] = true
		}
	}
	for i := range tr {
		if tr[i].Op == simk.OpOpen && abs[tr[i].Path] {
			return i
		}
	}
	return len(tr)
}

// afterSelection keeps the events that are not part of the search for
// templates (whose I/O errors are outside the claims, see DESIGN.md).
func afterSelection(w *World, x *Expect, tr []simk.Event) func(e *simk.Event) bool {
	first := firstTemplateOpen(x, tr)
	step := 1 << 30
	if first < len(tr) {
		step = tr[first].Step
	}
	src := w.srcDir()
	return func(e *simk.Event) bool {
		if e.Step >= step {
			return true
		}
		if inDir(e.Path, src) || inDir(src, e.Path) {
			return false
		}
		return true
	}
}

// checkSurvival is the C01 oracle on a final state.
func checkSurvival(w *World, x *Expect, o *RunOut) *Violation {
	final := treeOf(o.Nodes)
	init := w.initialTree()
	exempt := map[string]bool{}
	byAbs := map[string]*Item{}
	for i := range x.Items {
		it := &x.Items[i]
		if it.Abs != "" {
			byAbs[it.Abs] = it
		}
		if it.Out != "" && it.Out != it.Abs {
			exempt[it.Out] = true
		}
		for _, s := range it.Saves {
			exempt[s.K] = true
		}
	}
	for _, p := range init.keys() {
		e := init[p]
		if exempt[p] {
			continue // a previous output, replaced by the new one
		}
		holds := func(q string) bool {
			f, ok := final[q]
			if !ok || f.Mode&0170000 != e.Mode&0170000 || f.Target != e.Target {
				return false
			}
			if w.Terraform && x.TFDirs[path.Dir(p)] {
				return oneOf(f.Data, tfVariants(p, e.Data))
			}
			return f.Data == e.Data
		}
		if holds(p) {
			continue
		}
		it := byAbs[p]
		if it != nil && it.Rename && holds(p+".original") {
			continue
		}
		class := "lost"
		if it := byAbs[strings.TrimSuffix(p, ".original")]; it != nil && it.Rename && p == it.Abs+".original" {
			if f, ok := final[p]; ok && f.Data == init[it.Abs].Data {
				class = "backup-replaced" // the backup of a previous run
			}
		}
		if it != nil && it.Action == "write" && (it.Remove || it.Out == it.Abs && !it.Rename) {
			if f, ok := final[it.Out]; ok && oneOf(f.Data, tfVariants(it.Out, it.Result)) {
				continue
			}
			if it.Out == it.Abs && !it.Remove && w.Overwrite {
				class = "inplace-overwrite"
			}
		}
		got := "absent"
		if f, ok := final[p]; ok {
			got = "holding " + quote(clip(f.Data))
		}
		return &Violation{Class: class, Msg: fmt.Sprintf("the content of %s (%s) is no longer stored anywhere: its path is %s", p, quote(clip(e.Data)), got), Trace: o.Trace}
	}
	return nil
}

func writesSomething(w *World) bool {
	x := w.expect()
	for i := range x.Items {
		if x.Items[i].Action == "write" {
			return true
		}
	}
	return false
}

func treeBytes(w *World) (n int64) {
	for _, k := range w.nodes() {
		n += int64(len(k.Data))
	}
	return
}

func init() {
	register(&Prop{
		ID: "C01", Level: "exploration", Needs: "cli", Quick: 260, Thor: 40000, Real: realCLI, Stubs: stubCLI, Assume: cliAssume,
		Rule: "executions (distinct operation traces) in which at least one injected fault changed the result of an operation or killed the process",
		Explore: func(b *Bench, r *rng, idx int, eval func(*Case) bool) {
			p := defaultProfile()
			p.Errors, p.Print, p.Stdin, p.Save, p.Overwrite = r.p(30), 4, 3, 8, 60
			if r.p(10) {
				p.Terraform = 60
			}
			w := cliWorld(r, p, writesSomething)
			o := b.runWorld(w, nil)
			m := &faultMix{errno: 4, short: 1, torn: 3, crash: 7}
			n := 28
			if b.thorough() {
				n = 60
			}
			singles := sampleFaults(r, o.Trace, m, n)
			// the end of the run is where files are replaced and removed
			lo := firstTemplateOpen(w.expect(), o.Trace)
			singles = append(singles, sampleFaults(r, o.Trace[min(lo, len(o.Trace)):], m, 0)...)
			for _, f := range append(singles, combine(r, singles, 6, 3)...) {
				if !eval(&Case{Kind: "fault", W: w, Faults: f}) {
					return
				}
			}
			// full disk
			for k := 0; k < 3; k++ {
				c := *w
				c.Capacity = treeBytes(w) + int64(r.n(6000))
				if !eval(&Case{Kind: "full disk", W: &c}) {
					return
				}
			}
		},
		Eval: func(b *Bench, c *Case) *Violation {
			o := b.runWorld(c.W, c.Faults)
			b.sample(c, o)
			return checkSurvival(c.W, c.W.expect(), o)
		},
		Direct: func() []*Case {
			w := &World{Seed: 5, Cwd: "/w/src", StdinKind: simk.InNull, Overwrite: true, Patterns: []string{"*.txt"}, Files: []WFile{{Path: "/w/src/data.txt", Mode: 0644, Frags: []Frag{{Src: "{{ add 1 2 }}", Out: "3"}, {Src: " precious\n", Out: " precious\n"}}}}}
			v := &World{Seed: 6, Cwd: "/w/src", StdinKind: simk.InNull, Patterns: []string{"*.txt"}, Files: append([]WFile{textFile("/w/src/data.txt.original", "kept by a previous run\n")}, w.Files...)}
			return []*Case{{Kind: "fault", W: w, Faults: []simk.Fault{{Ops: 1 << simk.OpWrite, Path: "/w/src/data.txt", Count: 1, Kind: simk.FCrashBefore}}}, {Kind: "plain", W: v}}
		},
	})

	register(&Prop{
		ID: "C02", Level: "exploration", Needs: "cli", Quick: 260, Thor: 40000, Real: realCLI, Stubs: stubCLI, Assume: cliAssume,
		Rule: "executions (distinct operation traces) in which at least one injected fault changed the result of an operation",
		Explore: func(b *Bench, r *rng, idx int, eval func(*Case) bool) {
			p := defaultProfile()
			p.Errors, p.Print, p.Save = r.p(20), 25, 8
			if r.p(12) {
				p.Terraform = 60
			}
			w := cliWorld(r, p, nil)
			if r.p(10) {
				w.OutTTY = false
			}
			if idx%500 == 100 {
				// as many failures as there are exit codes
				w = &World{Seed: r.next() >> 1, Cwd: "/w/src", StdinKind: simk.InNull}
				for i := 0; i < 256; i++ {
					w.Files = append(w.Files, WFile{Path: fmt.Sprintf("/w/src/f%d.gt", i), Mode: 0644, Frags: []Frag{pickS(r, errFrags)}})
				}
				eval(&Case{Kind: "plain", W: w})
				return
			}
			if !eval(&Case{Kind: "plain", W: w}) {
				return
			}
			x := w.expect()
			o := b.runWorld(w, nil)
			m := &faultMix{errno: 6, short: 2, torn: 4, eintr: 1, filter: afterSelection(w, x, o.Trace)}
			n := 24
			if b.thorough() {
				n = 60
			}
			singles := sampleFaults(r, o.Trace, m, n)
			// operations that deliver outputs get more attention
			outs := &faultMix{errno: 5, short: 1, torn: 4, filter: func(e *simk.Event) bool {
				return e.Op == simk.OpStdout || x.Outs[e.Path] || e.Op == simk.OpClose && x.Outs[e.Path]
			}}
			singles = append(singles, sampleFaults(r, o.Trace, outs, n/2)...)
			for _, f := range append(singles, combine(r, singles, 5, 3)...) {
				if !eval(&Case{Kind: "fault", W: w, Faults: f}) {
					return
				}
			}
			for k := 0; k < 2; k++ {
				c := *w
				c.Capacity = treeBytes(w) + int64(r.n(6000))
				if !eval(&Case{Kind: "full disk", W: &c}) {
					return
				}
			}
		},
		Eval: func(b *Bench, c *Case) *Violation {
			x := c.W.expect()
			o := b.runWorld(c.W, c.Faults)
			b.sample(c, o)
			if a := abnormal(o); a != "" {
				return &Violation{Class: "abnormal", Msg: a, Trace: o.Trace}
			}
			if o.Code == 0 {
				if x.Code != 0 {
					return &Violation{Class: "dishonest", Msg: "exit 0 although a template fails", Trace: o.Trace}
				}
				v := checkExact(c.W, x, o, true)
				if v != nil && len(c.Faults) > 0 && checkExact(c.W, c.W.expectIgnored(o), o, true) == nil {
					v = nil
				}
				if v != nil {
					v.Class, v.Msg = "dishonest", "exit 0 but "+v.Class+": "+v.Msg
					return v
				}
				for i := range o.Trace {
					e := &o.Trace[i]
					if e.FX && e.Fault == simk.FErrno && e.Op == simk.OpClose && e.Arg != 0 && e.Errno != int64(simk.EINTR) && x.Outs[e.Path] {
						return &Violation{Class: "close", Msg: "exit 0 although closing " + e.Path + " after writing it failed", Trace: o.Trace}
					}
				}
				return nil
			}
			if len(c.Faults) == 0 && c.W.Capacity == 0 && x.Code == 0 {
				return &Violation{Class: "spurious", Msg: fmt.Sprintf("exit %d without any fault: %s", o.Code, clip(string(o.Err))), Trace: o.Trace}
			}
			benign := c.W.Capacity == 0
			for i := range c.Faults {
				if c.Faults[i].Kind != simk.FShort {
					benign = false
				}
			}
			if benign && x.Code == 0 {
				return &Violation{Class: "spurious", Msg: fmt.Sprintf("exit %d although transfers were only split: %s", o.Code, clip(string(o.Err))), Trace: o.Trace}
			}
			return nil
		},
	})

	register(&Prop{
		ID: "C03", Level: "exploration", Needs: "cli", Quick: 260, Thor: 40000, Real: realCLI, Stubs: stubCLI, Assume: cliAssume,
		Rule: "executions (distinct operation traces) of batches holding a failing template, with an injected fault on the files of one member when the kind is fault",
		Explore: func(b *Bench, r *rng, idx int, eval func(*Case) bool) {
			p := defaultProfile()
			p.Errors, p.MaxFiles, p.Print, p.Code = r.p(60), 9, 20, 20
			if r.p(20) {
				p.Terraform = 80
			}
			w := cliWorld(r, p, func(w *World) bool { return len(w.expect().Items) >= 2 })
			if r.p(20) {
				crowd(r, w)
			}
			if !eval(&Case{Kind: "plain", W: w}) {
				return
			}
			x := w.expect()
			o := b.runWorld(w, nil)
			by := itemByPath(x)
			first := firstTemplateOpen(x, o.Trace)
			if first >= len(o.Trace) {
				return
			}
			step := o.Trace[first].Step
			m := &faultMix{errno: 6, torn: 3, filter: func(e *simk.Event) bool {
				if e.Step < step {
					return false
				}
				if _, ok := by[e.Path]; ok {
					return true
				}
				// creation of the folder of an output
				return e.Op == simk.OpMkdir && inDir(e.Path, w.tgtDir())
			}}
			n := 24
			if b.thorough() {
				n = 50
			}
			for _, f := range sampleFaults(r, o.Trace, m, n) {
				if r.p(40) {
					f[0].Count = 100 // the failure lasts
				}
				if !eval(&Case{Kind: "fault", W: w, Faults: f}) {
					return
				}
			}
		},
		Eval: evalC03,
	})

	register(&Prop{
		ID: "C04", Level: "exploration", Needs: "cli", Quick: 220, Thor: 30000, Real: realCLI, Stubs: stubCLI, Assume: cliAssume,
		Rule: "interrupted executions (distinct operation traces with an effective fault) followed by a fault-free run of the same command on the state left behind",
		Explore: func(b *Bench, r *rng, idx int, eval func(*Case) bool) {
			p := defaultProfile()
			p.Print, p.Stdin, p.Save, p.Shebang = 0, 0, 8, 3
			p.Terraform = 0
			if r.p(10) {
				p.Terraform = 60
			}
			if r.p(60) {
				p.Target = 100
			} else {
				p.Target, p.Plain = 0, false
			}
			w := cliWorld(r, p, func(w *World) bool {
				if w.Target == "" && (len(w.ArgFiles) > 0 && w.Overwrite) {
					return false // the command names files that its success consumes
				}
				return writesSomething(w)
			})
			o := b.runWorld(w, nil)
			m := &faultMix{errno: 3, short: 0, torn: 2, crash: 7}
			n := 22
			if b.thorough() {
				n = 50
			}
			singles := sampleFaults(r, o.Trace, m, n)
			for _, f := range append(singles, combine(r, singles, 3, 3)...) {
				if !eval(&Case{Kind: "rerun", W: w, Faults: f}) {
					return
				}
			}
			if len(singles) > 1 {
				for k := 0; k < 6; k++ {
					if !eval(&Case{Kind: "rerun", W: w, Faults: pickS(r, singles), Later: [][]simk.Fault{pickS(r, singles)}}) {
						return
					}
				}
			}
		},
		Eval: func(b *Bench, c *Case) *Violation {
			x := c.W.expect()
			if x.Code != 0 {
				return nil
			}
			o := b.runWorld(c.W, c.Faults)
			b.sample(c, o)
			if o.Fatal || o.Timeout {
				return &Violation{Class: "abnormal", Msg: abnormal(o)}
			}
			for _, f := range c.Later {
				o = b.runOn(c.W, o.Nodes, f)
				if o.Fatal || o.Timeout {
					return &Violation{Class: "abnormal", Msg: abnormal(o)}
				}
			}
			last := b.runOn(c.W, o.Nodes, nil)
			if a := abnormal(last); a != "" {
				return &Violation{Class: "abnormal", Msg: "re-run: " + a, Trace: last.Trace}
			}
			if last.Code != 0 {
				return &Violation{Class: "rerun-fails", Msg: fmt.Sprintf("the re-run ends with exit %d: %s", last.Code, clip(string(last.Err))), Trace: o.Trace}
			}
			got := treeOf(last.Nodes).filesOnly(workRoots...)
			want := x.Tree.filesOnly(workRoots...)
			if d := want.diff(got, true); d != "" {
				class := "diverges"
				if c.W.Terraform && c.W.Overwrite && c.W.Target == "" && onlyUnformatted(x, got) {
					class = "tf-unformatted"
				}
				return &Violation{Class: class, Msg: "after the re-run " + d, Trace: o.Trace}
			}
			return nil
		},
		Direct: func() []*Case {
			w := &World{Seed: 5, Cwd: "/w/src", StdinKind: simk.InNull, Overwrite: true, Terraform: true, Files: []WFile{{Path: "/w/src/main.tf.gt", Mode: 0644, Frags: []Frag{{Src: "{{ add 1 2 }}", Out: "3"}, {Src: " ~~~~ tf\n", Out: " ~~~~ tf\n"}}}}}
			return []*Case{{Kind: "rerun", W: w, Faults: []simk.Fault{{Ops: 1 << simk.OpUnlink, Path: "/w/src/main.tf.gt", Count: 1, Kind: simk.FCrashAfter}}}}
		},
	})

	register(&Prop{
		ID: "C05", Level: "exploration", Needs: "cli", Quick: 260, Thor: 40000, Real: realCLI, Stubs: stubCLI, Assume: cliAssume,
		Rule: "executions (distinct operation traces), with an effective injected fault, whose every mutating operation and final state were checked",
		Explore: func(b *Bench, r *rng, idx int, eval func(*Case) bool) {
			p := defaultProfile()
			p.Errors, p.Print, p.Save, p.Run, p.Log = r.p(40), 25, 8, 20, 15
			if r.p(12) {
				p.Terraform = 60
			}
			w := cliWorld(r, p, nil)
			if !eval(&Case{Kind: "plain", W: w}) {
				return
			}
			o := b.runWorld(w, nil)
			m := &faultMix{errno: 5, short: 1, torn: 2, crash: 3, eintr: 1}
			n := 24
			if b.thorough() {
				n = 50
			}
			singles := sampleFaults(r, o.Trace, m, n)
			for _, f := range append(singles, combine(r, singles, 4, 3)...) {
				if !eval(&Case{Kind: "fault", W: w, Faults: f}) {
					return
				}
			}
		},
		Eval: evalC05,
	})
}

// onlyUnformatted tells whether the only differences are consumed terraform
// templates whose output was stored but not formatted.
func onlyUnformatted(x *Expect, got tree) bool {
	raw := map[string]string{}
	for i := range x.Items {
		if x.Items[i].Out != "" && x.Items[i].Remove && isTF(x.Items[i].Out) {
			raw[x.Items[i].Out] = x.Items[i].Result
		}
	}
	want := x.Tree.filesOnly(workRoots...)
	if len(want) != len(got) {
		return false
	}
	for p, e := range want {
		g, ok := got[p]
		if !ok || g.Mode != e.Mode {
			return false
		}
		if g.Data != e.Data && !(isTF(p) && oneOf(g.Data, tfVariants(p, raw[p])) && raw[p] != "") {
			// other terraform files of the same folder are formatted at the same time
			if !(isTF(p) && x.TFDirs[path.Dir(p)]) {
				return false
			}
		}
	}
	return true
}

func evalC03(b *Bench, c *Case) *Violation {
	w := c.W
	x := w.expect()
	o := b.runWorld(w, c.Faults)
	b.sample(c, o)
	if a := abnormal(o); a != "" {
		return &Violation{Class: "abnormal", Msg: a, Trace: o.Trace}
	}
	if recovered(o) {
		return &Violation{Class: "abort", Msg: "the run was aborted by a panic: " + clip(string(o.Err)), Trace: o.Trace}
	}
	by := itemByPath(x)
	victim := map[int]bool{}
	fired := false
	for i := range o.Trace {
		e := &o.Trace[i]
		if !e.FX || e.Fault == 0 {
			continue
		}
		fired = true
		if k, ok := by[e.Path]; ok {
			victim[k] = true
			continue
		}
		for k := range x.Items { // folders of outputs
			if x.Items[k].Out != "" && inDir(x.Items[k].Out, e.Path) {
				victim[k] = true
			}
		}
	}
	// every other template exactly as expected
	want, got := x.Tree.filesOnly(workRoots...), treeOf(o.Nodes).filesOnly(workRoots...)
	stdout := string(o.Out)
	failing := false
	for i := range x.Items {
		it := &x.Items[i]
		if it.Status == "error" {
			failing = true
			if it.Name != "" && !strings.Contains(string(o.Err), it.Name) {
				return &Violation{Class: "unnamed", Msg: "the failure of " + it.Name + " is not reported with its name: " + clip(string(o.Err)), Trace: o.Trace}
			}
		}
		if it.Status == "ignored" && !victim[i] && !strings.Contains(string(o.Err), it.Name) {
			return &Violation{Class: "unnamed", Msg: "the ignored failure of " + it.Name + " is not reported with its name: " + clip(string(o.Err)), Trace: o.Trace}
		}
		if victim[i] {
			for _, p := range []string{it.Abs, it.Out, it.Abs + ".original"} {
				delete(want, p)
				delete(got, p)
			}
			continue
		}
		if it.Stdout != "" {
			k := strings.Index(stdout, it.Stdout)
			if k < 0 {
				return &Violation{Class: "others", Msg: fmt.Sprintf("the output of template %q (%s) is missing from standard output %s", it.Name, quote(clip(it.Stdout)), quote(clip(string(o.Out)))), Trace: o.Trace}
			}
			stdout = stdout[k+len(it.Stdout):]
		}
	}
	if w.Terraform {
		// A folder is formatted because a result was placed in it: when the
		// only such result failed, its other files stay as they were.
		before := w.initialTree()
		for k := range victim {
			for p, e := range before {
				if out := x.Items[k].Out; out != "" && path.Dir(out) == path.Dir(p) && isTF(p) && got[p].Data == e.Data {
					if t, ok := want[p]; ok && oneOf(t.Data, tfVariants(p, e.Data)) {
						want[p] = got[p]
					}
				}
			}
		}
	}
	if d := want.diff(got, true); d != "" {
		return &Violation{Class: "others", Msg: "templates that did not fail are affected: " + d, Trace: o.Trace}
	}
	if !fired {
		if v := checkExact(w, x, o, true); v != nil {
			return v
		}
	}
	if failing && o.Code == 0 {
		return &Violation{Class: "exit", Msg: "exit 0 although a template failed", Trace: o.Trace}
	}
	if !failing && !fired && o.Code != 0 {
		return &Violation{Class: "exit", Msg: fmt.Sprintf("exit %d although no template failed: %s", o.Code, clip(string(o.Err))), Trace: o.Trace}
	}
	if fired && o.Code == 0 {
		if v := checkExact(w, x, o, true); v != nil {
			v.Class = "exit"
			v.Msg = "exit 0 although a template failed: " + v.Msg
			return v
		}
	}
	if fired && !failing && o.Code != 0 && len(victim) > 0 {
		named := false
		for k := range victim {
			it := &x.Items[k]
			for _, n := range []string{it.Name, path.Base(it.Abs), path.Base(it.Out)} {
				if n != "" && n != "." && strings.Contains(string(o.Err), n) {
					named = true
				}
			}
			for d := path.Dir(it.Out); it.Out != "" && len(d) > len("/w"); d = path.Dir(d) {
				if strings.Contains(string(o.Err), d) {
					named = true // one of the folders of its result
				}
			}
		}
		if !named {
			return &Violation{Class: "unnamed", Msg: "the failing template is not named: " + clip(string(o.Err)), Trace: o.Trace}
		}
	}
	return nil
}

var mutating = map[int]bool{simk.OpCreate: true, simk.OpWrite: true, simk.OpMkdir: true, simk.OpUnlink: true, simk.OpRmdir: true, simk.OpRename: true, simk.OpChmod: true, simk.OpTrunc: true, simk.OpLink: true, simk.OpUtime: true, simk.OpChildWrite: true}

func evalC05(b *Bench, c *Case) *Violation {
	w := c.W
	x := w.expect()
	o := b.runWorld(w, c.Faults)
	b.sample(c, o)
	if o.Fatal || o.Timeout {
		return &Violation{Class: "abnormal", Msg: abnormal(o)}
	}
	write, remove := map[string]bool{}, map[string]bool{}
	var newDirs []string
	log := ""
	for i, a := range w.Extra {
		if a == "--internal-log-file-path" {
			log = w.Extra[i+1]
			write[log] = true
		}
	}
	content := map[string][]string{} // acceptable complete contents
	for i := range x.Items {
		it := &x.Items[i]
		for _, s := range it.Saves {
			write[s.K] = true
		}
		if it.Action != "write" {
			continue
		}
		write[it.Out] = true
		content[it.Out] = append(content[it.Out], it.Result)
		newDirs = append(newDirs, path.Dir(it.Out))
		if it.Rename {
			write[it.Abs+".original"] = true
			remove[it.Abs] = true
		}
		if it.Remove {
			remove[it.Abs] = true
		}
	}
	init := w.initialTree()
	tf := func(p string) bool { return w.Terraform && isTF(p) && x.TFDirs[path.Dir(p)] }
	okDir := func(p string) bool {
		for _, d := range newDirs {
			if inDir(d, p) {
				return true
			}
		}
		return false
	}
	for i := range o.Trace {
		e := &o.Trace[i]
		if !mutating[e.Op] || e.Errno != 0 && e.Ret <= 0 || strings.HasPrefix(e.Path, "/tmp/") {
			continue
		}
		bad := false
		switch e.Op {
		case simk.OpMkdir:
			bad = !okDir(e.Path)
		case simk.OpUnlink, simk.OpRmdir:
			_, was := init[e.Path]
			bad = was && !remove[e.Path]
		case simk.OpRename:
			_, was := init[e.Path]
			_, was2 := init[e.Path2]
			bad = was && !remove[e.Path] || was2 && !write[e.Path2]
		default:
			_, was := init[e.Path]
			bad = was && !write[e.Path] && !tf(e.Path)
		}
		if bad {
			return &Violation{Class: "operation", Msg: fmt.Sprintf("%s %s %s is not part of the announced outputs", simk.OpNames[e.Op], e.Path, e.Path2), Trace: o.Trace}
		}
	}
	crashed := o.End == simk.EndCrash
	final := treeOf(o.Nodes)
	for _, p := range final.keys() {
		e := final[p]
		if strings.HasPrefix(p, "/tmp/") {
			continue
		}
		f, was := init[p]
		if e.isDir() {
			continue // checked above through mkdir
		}
		if strings.HasPrefix(p, "/bin/") {
			continue
		}
		switch {
		case write[p]:
			if p == log || len(content[p]) == 0 {
				continue
			}
			if was && f.Mode != e.Mode && !remove[p] {
				return &Violation{Class: "mode", Msg: fmt.Sprintf("%s: mode changed from %o to %o", p, f.Mode, e.Mode), Trace: o.Trace}
			}
		case !was:
			if crashed {
				continue // a private temporary file may remain when killed
			}
			return &Violation{Class: "extra", Msg: "unexpected file " + p, Trace: o.Trace}
		default:
			same := e.Data == f.Data || tf(p) && oneOf(e.Data, tfVariants(p, f.Data))
			if !same || e.Mode != f.Mode || e.Target != f.Target {
				return &Violation{Class: "altered", Msg: fmt.Sprintf("%s was altered: %s", p, quote(clip(e.Data))), Trace: o.Trace}
			}
		}
	}
	for _, p := range init.keys() {
		if _, ok := final[p]; !ok && !remove[p] {
			return &Violation{Class: "removed", Msg: p + " was removed", Trace: o.Trace}
		}
	}
	return nil
}

// crowd adds many failing templates to a batch.
func crowd(r *rng, w *World) {
	v := cloneWorld(w)
	fs := []Frag{}
	for i := range v.Files {
		f := &v.Files[i]
		if _, errs := render(f.Frags); len(errs) > 0 && isTemplateName(f.Path) && f.Link == "" {
			fs = f.Frags
		}
	}
	if len(fs) == 0 {
		return
	}
	for k := r.rangeN(8, 30); k > 0; k-- {
		p := path.Join(v.srcDir(), pick(r, "aa", "mm", "zz")+itoa(k)+".txt.gt")
		v.Files = append(v.Files, WFile{Path: p, Mode: 0644, Frags: fs})
		if len(v.ArgFiles) > 0 {
			v.ArgFiles = append(v.ArgFiles, path.Base(p))
		}
	}
	if v.sane() {
		*w = *v
	}
}
