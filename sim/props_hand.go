package main

import (
	"fmt"
	"path"
	"strings"
	"verifsim/simk"
)

// ---------------------------------------------------------------- C15

// What templates are made of: the text and what it gives.
var handGood = []Frag{
	{Src: "plain text\n", Out: "plain text\n"}, {Src: "{{ add 1 2 }}\n", Out: "3\n"}, {Src: "{{ upper `abc` }}", Out: "ABC"}, {Src: "{{ .v }}", Out: "val"}, {Src: "@v\n", Out: "val\n"},
	{Src: "{{/* comment */}}", Out: ""}, {Src: "{{ if true }}yes{{ end }}", Out: "yes"}, {Src: "{{ range list 1 2 3 }}{{ . }},{{ end }}", Out: "1,2,3,"}, {Src: "\n\n", Out: "\n\n"}, {Src: "é日本 ", Out: "é日本 "},
	{Src: "{{ set . `v` 3 }}", Out: ""}, {Src: "{{ define `x` }}{{ end }}", Out: ""}, {Src: "{{ print `a` | printf `%s-%s` `b` }}", Out: "b-a"}, {Src: "{{ $x := 4 }}{{ $x }}", Out: "4"},
	{Src: "{{ include `/w/inc.txt` }}", Out: "INC5"}, {Src: "{{ include `/w/inc.txt` }}", Out: "INC5"},
}

var handBad = []string{
	`{{ raise "oops" }}`, `{{ fail "bad" }}`, `{{ .a.b.c }}`, `{{ undefined 1 }}`, `{{ if }}`, `{{ .missing }}`, `{{ index (list 1) 4 }}`, "{{ fail `1` }}\n{{ fail `2` }}\n{{ fail `3` }}", `{{ end }}`, `{{ include "/w/none" }}`, `{{ atoi "x" 3 4 }} {{ 3 }}`, `{{ $u }}`, `{{ assert false "asserted" }}`,
}

func handTemplate(r *rng) (fs []Frag) {
	if r.p(8) {
		return []Frag{lit(pick(r, "", "plain\n", "   \n", "no code at all\nhere\n"))}
	}
	set := false
	for n := r.rangeN(1, 5); n > 0; n-- {
		f := pickS(r, handGood)
		if strings.Contains(f.Src, "set .") {
			if set {
				continue
			}
			set = true
		}
		if set && strings.Contains(f.Src, "v") && !strings.Contains(f.Src, "set") {
			continue // it would give the value set
		}
		fs = append(fs, f)
	}
	if r.p(30) {
		i := r.n(len(fs) + 1)
		bad := Frag{Src: pickS(r, handBad) + "\n", Err: "*"}
		fs = append(fs[:i:i], append([]Frag{bad}, fs[i:]...)...)
	}
	if r.p(12) {
		fs = append([]Frag{lit("#! /bin/sh\n")}, fs...)
	} else if src, _, _ := fragsText(fs); r.p(10) && strings.Contains(src, "{{") {
		fs = append([]Frag{{Src: "#! gotemplate\n"}}, fs...) // goes to standard output
	}
	return
}

func fragsText(fs []Frag) (src, out string, bad bool) {
	for _, f := range fs {
		src += f.Src
		out += f.Out
		bad = bad || f.Err != ""
	}
	return
}

// A handler does something for every template.
func handRule(r *rng, name string) (l LRule, any bool) {
	l.Name = name
	switch r.n(12) {
	case 0, 1:
		l.Append = pick(r, "appended", "\n# footer\n", " ")
	case 2, 3:
		s := pick(r, "replaced\n", "", "  \n", "#! /bin/sh\necho replaced\n", "{{ not evaluated }} @v\n", "<no value>", strings.Repeat("big ", 5000))
		l.Result = &s
	case 4:
		l.Err = pick(r, "vetoed by handler", "refused")
	case 5, 6:
		l.Swallow = true
	case 7:
		l.Swallow = true
		s := "rescued\n"
		l.Result = &s
	default:
		return l, false
	}
	l.Changed = r.p(60)
	return l, true
}

func handCase(r *rng) (*World, *Script) {
	w := envWorld(r)
	w.Patterns, w.Print = nil, false
	w.Files = append(w.Files, textFile("/w/inc.txt", "INC{{ add 2 3 }}"))
	tgt := pick(r, "/w/src", "/w/out", "/w/out")
	s := &Script{}
	opts := map[string]bool{}
	if r.p(40) {
		opts["overwrite"] = true
	}
	if r.p(20) {
		opts["print"] = true
	}
	if r.p(15) {
		opts["strict"] = true
	}
	var files []string
	var hs []LRule
	n := r.rangeN(1, 6)
	st := LStep{Op: "templates", ID: "t", Src: "/w/src", Tgt: tgt}
	for i := 0; i < n; i++ {
		fs := handTemplate(r)
		src, _, _ := fragsText(fs)
		name := path.Join("/w/src", pick(r, "", "", "sub", "sub/deep"), fmt.Sprintf("t%d", i)+pick(r, ".txt.gt", ".txt.gt", ".template", ".gt", ".txt", ".json", ".sh.gt", ".tf.txt"))
		switch {
		case r.p(6):
			files = append(files, name) // does not exist
		case r.p(6) && strings.Contains(src, "{{"):
			files = append(files, src) // code
			name = "."
		default:
			w.Files = append(w.Files, WFile{Path: name, Mode: uint32(pick(r, 0644, 0600, 0755)), Frags: fs})
			files = append(files, name)
			if r.p(5) && tgt != "/w/src" {
				files = append(files, name)
			}
		}
		if r.p(50) {
			if l, ok := handRule(r, name); ok {
				hs = append(hs, l)
			}
		}
	}
	if r.p(25) {
		if l, ok := handRule(r, "*"); ok {
			hs = []LRule{l}
		}
	}
	st.Files, st.Handler = files, hs
	s.Steps = []LStep{{Op: "new", ID: "t", Folder: "/w/src", Options: opts, Context: map[string]any{"v": "val"}}, {Op: "mark", Text: "start"}, st}
	return w, s
}

// evalHand compares a batch with what it must leave, given what the handler does.
func evalHand(b *Bench, c *Case) *Violation {
	w := c.W
	if len(c.Script.Steps) != 3 || c.Script.Steps[2].Op != "templates" || c.Script.Steps[0].Op != "new" {
		return nil
	}
	st := &c.Script.Steps[2]
	opts := c.Script.Steps[0].Options
	o, outs := b.runScript(b.lib, w, c.Script, c.Faults)
	b.sample(c, o)
	if o.Fatal || o.Timeout || o.End != simk.EndExit || len(outs) != 3 {
		return nil // other properties
	}
	fail := func(class, format string, a ...any) *Violation {
		return &Violation{Class: class, Msg: fmt.Sprintf(format, a...), Trace: o.Trace}
	}
	out := &outs[2]
	if out.Panic != "" || outs[0].Err != "" {
		return nil
	}
	start := markAt(o.Trace, "start")
	if start < 0 || disturbed(o.Trace, []int{start})[-1] {
		return nil
	}
	pos := make([]int, len(st.Files))
	at := start
	for i, f := range st.Files {
		for at++; at < len(o.Trace) && o.Trace[at].Path != f && !(strings.Contains(f, "{{") && o.Trace[at].Op == simk.OpOpen && strings.HasSuffix(o.Trace[at].Path, f)); at++ {
		}
		if at == len(o.Trace) {
			if len(c.Faults) > 0 {
				return nil // where the templates start is unknown
			}
			at = start
		}
		pos[i] = at
	}
	hit := disturbed(o.Trace, pos)
	anyHit := len(hit) > 0
	after := treeOf(o.Nodes).filesOnly("/w")
	before := treeOf(w.nodes()).filesOnly("/w")
	next := 0 // call
	stdout, exactOut := "", !anyHit
	want := map[string]*entryWant{}
	var reported []string
	failures := 0
	free := map[string]bool{} // files of which nothing is known
	for i, name := range st.Files {
		code := strings.Contains(name, "{{")
		src, rendered, bad := name, "", false
		exists := code
		mode := uint32(0)
		if code {
			// the same text was drawn from known pieces
			rendered, bad = handRender(name)
			name = "."
		} else if f := w.file(name); f != nil {
			exists = true
			src, rendered, bad = fragsText(f.Frags)
			mode = f.Mode
		}
		strict := opts["strict"] || code || strings.HasSuffix(name, ".gt") || strings.HasSuffix(name, ".template")
		touched := hit[i]
		var call *LCall
		if next < len(out.Calls) && out.Calls[next].Name == name && out.Calls[next].Orig == src {
			call = &out.Calls[next]
			next++
		}
		if !exists {
			if call != nil {
				return fail("called", "the handler was called for %s, which does not exist", name)
			}
			failures++
			continue
		}
		paths := handPaths(name, opts["overwrite"], tgtOf(st))
		if call == nil {
			if !touched {
				return fail("call", "the handler was not called for %s with its original content at its turn (call %d of %s)", name, next, callNames(out.Calls))
			}
			// it could not be read
			failures++
			for _, p := range paths {
				free[p] = true
			}
			continue
		}
		if !strict && bad {
			rendered, bad = src, false
		}
		if touched && !strict && call.Status == "" && call.Result == src {
			rendered, bad = src, false // a failure of I/O, ignored
		}
		changed := rendered != src
		if touched && call.Status != "" && !bad {
			bad = true // a failure of I/O
		}
		switch {
		case bad && call.Status == "":
			return fail("status", "the handler was told that %s has no error, but it fails", name)
		case !bad && call.Status != "":
			return fail("status", "the handler was told that %s fails, but it does not: %s", name, clipN(call.Status, 200))
		case !bad && call.Result != rendered:
			return fail("result", "the handler was given another result of %s: %s", name, diffAt(rendered, call.Result))
		case !bad && call.Changed != changed:
			return fail("changed", "the handler was told that changed is %v for %s: %s", call.Changed, name, diffAt(src, rendered))
		}
		// what the handler leaves
		left, leftErr := call.Result, call.Status
		changed = call.Changed
		for _, l := range st.Handler {
			if l.Name != name && l.Name != "*" {
				continue
			}
			if l.Result != nil {
				left = *l.Result
			}
			left += l.Append
			changed = changed || l.Changed
			if l.Err != "" {
				leftErr = l.Err
			} else if l.Swallow {
				leftErr = ""
			}
			break
		}
		if leftErr != "" {
			failures++
			if !strings.Contains(out.Err, leftErr) {
				return fail("error", "the error left by the handler for %s (%s) is not reported: %s", name, clipN(leftErr, 100), clipN(out.Err, 200))
			}
			for _, p := range paths {
				if _, ok := want[p]; !ok {
					want[p] = &entryWant{asBefore: true, who: name}
				}
			}
			continue
		}
		if touched {
			// it is stored, or an error is reported
			for _, p := range paths {
				free[p] = true
			}
			exactOut = false
			continue
		}
		// it is stored
		if code {
			if strings.TrimRight(left, " \t") != "" {
				stdout += strings.TrimSuffix(left, "\n") + "\n"
			}
			continue
		}
		target := paths[0]
		isT := strings.HasSuffix(name, ".gt") || strings.HasSuffix(name, ".template")
		inPlace := tgtOf(st) == "/w/src"
		if isT && strings.TrimSpace(left)+path.Ext(strings.TrimSuffix(strings.TrimSuffix(path.Base(name), ".gt"), ".template")) == "" {
			for _, p := range paths {
				want[p] = &entryWant{asBefore: true, who: name}
			}
			continue
		}
		if opts["print"] || strings.HasPrefix(src, "#! gotemplate") {
			stdout += left
			for _, p := range paths {
				want[p] = &entryWant{asBefore: true, who: name}
			}
			continue
		}
		if inPlace && !changed {
			for _, p := range paths {
				want[p] = &entryWant{asBefore: true, who: name}
			}
			continue
		}
		if strings.HasPrefix(left, "#!") {
			mode = 0755
		}
		want[target] = &entryWant{data: left, mode: mode, who: name}
		reported = append(reported, target)
		if inPlace {
			switch {
			case !isT && !opts["overwrite"]:
				want[name+".original"] = &entryWant{data: src, who: name}
			case isT && opts["overwrite"]:
				want[name] = &entryWant{gone: true, who: name}
			case isT:
				want[name] = &entryWant{asBefore: true, who: name}
			}
		}
	}
	if next != len(out.Calls) {
		return fail("call", "the handler was called for something else: %s", callNames(out.Calls[next:]))
	}
	if failures > 0 && out.Err == "" {
		return fail("error", "%d templates failed, but no error is reported", failures)
	}
	if failures == 0 && out.Err != "" && !anyHit {
		return fail("error", "an error is reported although every template was accepted: %s", clipN(out.Err, 200))
	}
	for p, x := range want {
		if free[p] {
			continue
		}
		g, there := after[p]
		was, had := before[p]
		switch {
		case x.gone:
			if there {
				return fail("stored", "%s is still there although its result was stored", p)
			}
		case x.asBefore:
			if had != there || had && g.Data != was.Data {
				return fail("stored", "%s was changed by %s, which must not store anything there: %s", p, x.who, diffAt(was.Data, g.Data))
			}
		case !there:
			return fail("stored", "%s, result of %s, was not written", p, x.who)
		case g.Data != x.data:
			return fail("stored", "%s is not what the handler left for %s: %s", p, x.who, diffAt(x.data, g.Data))
		case x.mode != 0 && g.Mode&0777 != x.mode&0777 && !had:
			return fail("stored", "%s has mode %o instead of %o", p, g.Mode&0777, x.mode&0777)
		}
	}
	if !anyHit {
		if fmt.Sprint(out.Files) != fmt.Sprint(reported) && len(out.Files)+len(reported) > 0 {
			return fail("reported", "the files reported are %v instead of %v", out.Files, reported)
		}
		for p := range after {
			if _, ok := before[p]; !ok && want[p] == nil {
				return fail("stored", "%s was created, which is not the result of any template", p)
			}
		}
	} else {
		// what is reported was stored
		for _, p := range out.Files {
			if _, ok := after[p]; !ok {
				return fail("reported", "%s is reported, but is not there", p)
			}
		}
		for _, p := range reported {
			if !free[p] && !strings.Contains(" "+strings.Join(out.Files, " ")+" ", " "+p+" ") {
				return fail("reported", "%s was stored, but is not reported", p)
			}
		}
	}
	if exactOut && string(o.Out) != stdout {
		return fail("printed", "standard output is not what the handler left: %s", diffAt(stdout, string(o.Out)))
	}
	return nil
}

type entryWant struct {
	data           string
	mode           uint32
	gone, asBefore bool
	who            string
}

func tgtOf(st *LStep) string { return st.Tgt }

func callNames(calls []LCall) string {
	var s []string
	for _, c := range calls {
		s = append(s, c.Name)
	}
	return fmt.Sprint(s)
}

// handPaths are the files a template may touch; the first is its result.
func handPaths(name string, overwrite bool, tgt string) []string {
	if name == "." {
		return nil
	}
	res := name
	for _, e := range []string{".gt", ".template"} {
		res = strings.TrimSuffix(res, e)
	}
	res = path.Join(tgt, strings.TrimPrefix(res, "/w/src"))
	if res0 := strings.TrimSuffix(strings.TrimSuffix(name, ".gt"), ".template"); res0 != name && !overwrite {
		e := path.Ext(res)
		res = strings.TrimSuffix(res, e) + ".generated" + e
	}
	if tgt == "/w/src" {
		return []string{res, name, name + ".original"}
	}
	return []string{res}
}

// handRender gives what a text made of known pieces gives.
func handRender(s string) (out string, bad bool) {
	for s != "" {
		best := -1
		for i, f := range handGood {
			if strings.HasPrefix(s, f.Src) && (best < 0 || len(f.Src) > len(handGood[best].Src)) {
				best = i
			}
		}
		if best >= 0 {
			out += handGood[best].Out
			s = s[len(handGood[best].Src):]
			continue
		}
		if strings.HasPrefix(s, "#! gotemplate\n") {
			s = s[14:]
			continue
		}
		if strings.HasPrefix(s, "#! /bin/sh\n") {
			out += "#! /bin/sh\n"
			s = s[11:]
			continue
		}
		return out, true
	}
	return
}

func init() {
	register(&Prop{
		ID: "C15", Level: "exploration", Needs: "lib", Quick: 1000, Thor: 60000, Real: realCLI, Stubs: stubCLI, Assume: cliAssume,
		Rule: "executions (distinct operation traces) of batches with handlers that observe, alter, veto and rescue results, compared with the batch model",
		Explore: func(b *Bench, r *rng, idx int, eval func(*Case) bool) {
			w, s := handCase(r)
			c := &Case{Kind: "lib", W: w, Script: s}
			if !eval(c) {
				return
			}
			o, _ := b.runScript(b.lib, w, s, nil)
			from := markAt(o.Trace, "start")
			seen := map[string]bool{}
			for _, f := range s.Steps[2].Files {
				if seen[f] {
					return // which of the two a fault touches is not known
				}
				seen[f] = true
			}
			if from < 0 || o.Fatal || o.Timeout || o.End != simk.EndExit {
				return
			}
			n := 8
			if b.thorough() {
				n = 24
			}
			first := o.Trace[from].Step
			m := &faultMix{errno: 6, torn: 2, short: 2, eintr: 2, filter: func(e *simk.Event) bool { return e.Step > first }}
			for _, fs := range sampleFaults(r, o.Trace, m, n) {
				if !eval(&Case{Kind: "lib", W: w, Script: s, Faults: fs}) {
					return
				}
			}
		},
		Eval: evalHand,
	})
}
