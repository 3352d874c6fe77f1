package main

import (
	"fmt"
	"path"
	"strings"

	"verifsim/simk"
)

// ---------------------------------------------------------------- C21

// exitWorld draws a batch in which one of the templates asks to exit.
func exitWorld(r *rng) *World {
	p := defaultProfile()
	p.Save, p.Run, p.Include, p.Print, p.Code, p.Stdin = 20, 10, 20, 25, 25, 15
	p.Errors = r.p(25)
	if r.p(25) {
		p.Terraform = 60
	}
	for {
		w := cliWorld(r, p, nil)
		var all []*[]Frag
		for i := range w.Files {
			f := &w.Files[i]
			if isTemplateName(f.Path) && f.Link == "" {
				all = append(all, &f.Frags)
			}
		}
		code := len(all)
		for i := range w.ArgCode {
			all = append(all, &w.ArgCode[i])
		}
		if len(w.Stdin) > 0 {
			all = append(all, &w.Stdin)
		}
		if len(all) == 0 {
			continue
		}
		k := r.n(len(all))
		fs := all[k]
		bad := false
		for _, f := range *fs {
			bad = bad || f.Err != "" || strings.Contains(f.Src, "no-gotemplate!") || strings.Contains(f.Src, "pause!")
		}
		if bad {
			continue
		}
		n := pick(r, 0, 1, 2, 3, 7, 42, 128, 255)
		f := Frag{Src: pick(r, "{{ exit %d }}", "{{ exit %d }}", "{{ if true }}{{ exit %d }}{{ end }}", "{{ include `{{ exit %d }}` }}", "@exit(%d)\n", "{{ range to 3 }}{{ if eq . 2 }}{{ exit %d }}{{ end }}{{ end }}")}
		if k >= code && strings.HasPrefix(f.Src, "@") {
			f.Src = "{{ exit %d }}"
		}
		if r.p(15) {
			f.Src, n = "{{ fatal \"stop\" }}", 1
		} else {
			f.Src = fmt.Sprintf(f.Src, n)
		}
		f.Err = "exit=" + itoa(n)
		at := r.n(len(*fs) + 1)
		if at == 0 && len(*fs) > 0 && strings.HasPrefix((*fs)[0].Src, "#!") {
			at = 1
		}
		*fs = append(append(append([]Frag{}, (*fs)[:at]...), f), (*fs)[at:]...)
		if !w.sane() {
			continue
		}
		return w
	}
}

func evalExit(b *Bench, c *Case) *Violation {
	w := c.W
	x := w.expect()
	o := b.runWorld(w, c.Faults)
	b.sample(c, o)
	if a := abnormal(o); a != "" {
		return &Violation{Class: "abnormal", Msg: a, Trace: o.Trace}
	}
	if v := checkTemps(o); v != nil {
		return v
	}
	stops := false
	for i := range x.Items {
		stops = stops || strings.HasPrefix(x.Items[i].Status, "exit=")
	}
	if !stops {
		return nil
	}
	if benign(o) {
		if o.Code != x.Code {
			return &Violation{Class: "status", Msg: fmt.Sprintf("exit %d, the template asked for %d: %s", o.Code, x.Code, clip(string(o.Err))), Trace: o.Trace}
		}
		return checkExact(w, x, o, true)
	}
	return checkStopped(w, x, o)
}

// checkStopped: under failures, what comes after the exit is still as it was,
// and the rest is as it was or as expected.
func checkStopped(w *World, x *Expect, o *RunOut) *Violation {
	hit := map[string]bool{}
	for _, e := range effective(o) {
		hit[e.Path], hit[e.Path2] = true, true
	}
	skip := func(p string) bool {
		for h := range hit {
			if h != "" && (h == p || strings.HasPrefix(h, p+"/") || path.Base(h) == path.Base(p)) {
				return true
			}
		}
		return false
	}
	last := &x.Items[len(x.Items)-1]
	if last.Abs != "" && skip(last.Abs) || o.Code != x.Code || o.Code == 1 {
		return nil // the template may not have reached its exit
	}
	init, want, got := w.initialTree(), x.Tree, treeOf(o.Nodes).filesOnly(workRoots...)
	for p := range init {
		for h := range hit {
			if h != "" && strings.HasPrefix(p, h+"/") {
				return nil // a folder could not be read: the selection may differ
			}
		}
	}
	for _, p := range got.keys() {
		if skip(p) || got[p].Data == want[p].Data && got[p].Target == want[p].Target || isTF(p) {
			continue
		}
		if i, ok := init[p]; ok && i.Data == got[p].Data && i.Target == got[p].Target {
			continue
		}
		ok := false
		for i := range x.Items {
			// an interrupted change of another name of the same content
			it := &x.Items[i]
			for _, q := range []string{it.Abs, it.Out, it.Abs + ".original"} {
				if q == p && (skip(it.Abs) || it.Out != "" && skip(it.Out)) {
					ok = true
				}
			}
			for _, s := range it.Saves {
				ok = ok || s.K == p
			}
			// a plain file which failed because of the failure is copied as it is
			ok = ok || !it.IsTmpl && it.Abs != "" && it.Out == p && got[p].Data == init[it.Abs].Data
		}
		if !ok {
			return &Violation{Class: "after", Msg: fmt.Sprintf("exit %d as asked by a template, and %s holds %s", o.Code, p, quote(clip(got[p].Data))), Trace: o.Trace}
		}
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C21", Level: "exploration", Needs: "cli", Quick: 300, Thor: 40000, Real: realCLI, Stubs: stubCLI, Assume: cliAssume,
		Rule: "executions (distinct operation traces) of batches in which a template asks to exit and in which an injected fault changed the result of an operation",
		Explore: func(b *Bench, r *rng, idx int, eval func(*Case) bool) {
			w := exitWorld(r)
			if !eval(&Case{Kind: "exit", W: w}) {
				return
			}
			o := b.runWorld(w, nil)
			n := 12
			if b.thorough() {
				n = 40
			}
			m := &faultMix{errno: 4, short: 2, torn: 2, eintr: 2}
			singles := sampleFaults(r, o.Trace, m, n)
			for _, f := range append(singles, combine(r, singles, 3, 3)...) {
				if !eval(&Case{Kind: "exit", W: w, Faults: f}) {
					return
				}
			}
		},
		Eval: evalExit,
	})
}

var _ = simk.EIO
