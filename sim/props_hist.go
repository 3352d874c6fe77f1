package main

import (
	"fmt"
	"path"
	"strings"
	"verifsim/simk"
)

// ---------------------------------------------------------------- C13

// histContext is what every template of a history starts from.
func histContext() map[string]any {
	return map[string]any{
		"v1": 1, "v2": "two", "vf": 1.5, "vt": true,
		"d":  map[string]any{"a": 1, "b": map[string]any{"c": 2, "e": []any{1, map[string]any{"f": "g"}}}, "n": nil},
		"l":  []any{map[string]any{"a": 1}, map[string]any{"a": 2, "k": []any{5, 6}}},
		"ll": []any{[]any{1, 2}, []any{3, map[string]any{"z": 1}}},
		"s":  []any{"x", "y", "z"},
	}
}

// Things a template does; # is replaced by the number of the template, so that
// definitions, which do persist, never meet.
var histChanges = []string{
	`{{ set . "v1" 99 }}`, `@v1 := 99;`, `@{v1} := 98`, `{{ set . "v2" (list 1 2) }}`, `@v2 := "razor";`, `{{ set . "new" 3 }}`, `@new := 7;`, `@d.a := 55;`, `@d.zz := 56;`,
	`{{ set .d "a" "changed" }}`, `{{ set .d.b "c" "deep" }}`, `{{ set .d "added" (dict "q" 1) }}`, `{{ unset . "v1" }}`, `{{ unset . "v2" }}`, `{{ unset .d "a" }}`, `{{ unset . "d" }}`,
	`{{ set (index .l 0) "a" 9 }}`, `{{ set (index .l 1) "extra" "in list" }}`, `{{ unset (index .l 1) "k" }}`, `{{ range .l }}{{ set . "q" 1 }}{{ end }}`, `{{ set (index (index .ll 1) 1) "z" 44 }}`, `{{ set (index .d.b.e 1) "f" "changed" }}`,
	`{{ $m := merge .d (dict "zz" 3 "b" (dict "y" 1)) }}{{ len $m }}`, `{{ $m := merge (dict "b" (dict "w" 1)) .d }}{{ set $m.b "c" 77 }}`, `{{ .d.Pop "a" }}`, `{{ $x := .d.Set "m" 1 }}`, `{{ $x := .s.Set 0 "S" }}`, `{{ $x := (index .ll 0).Set 0 "S" }}`, `{{ $x := .l.Append 3 }}`, `{{ $x := append .s "w" }}{{ len $x }}`, `{{ $x := .d.Flush }}`, `{{ $x := .Flush "v1" }}`, `{{ $x := .d.Add "a" 2 }}`, `{{ $x := .Merge (dict "mm" 1) }}`,
	"{{ include `{{ set ._ \"a\" 9 }}i` }}", "{{ include `{{ set ._.d \"a\" 9 }}i` }}", "{{ include `{{ set . \"v1\" 9 }}i` . }}", "{{ include `{{ set .x \"a\" 9 }}i` (dict \"x\" .d) }}", "{{ include `{{ set .d \"a\" 9 }}i` }}", "{{ include `{{ set (index .l 0) \"a\" 9 }}i` . }}", "{{ include `{{ .v1 }}` .d }}", "{{ include `{{ .a }}` (index .l 0) }}", `{{ include "/w/inc/mut.inc" . }}`, `{{ include "/w/inc/mut.inc" }}`, `{{ include "/w/inc/def.inc" }}`, "{{ include `inline {{ add 1 2 }}` }}",
	`{{ define "tpl#" }}{{ set . "v1" 5 }}T{{ end }}{{ template "tpl#" . }}`, `{{ define "tpl#" }}{{ set ._ "v1" 5 }}T{{ end }}{{ include "tpl#" 1 }}`,
	"{{ func \"fn#\" \"include\" `{{ set .d \"a\" 8 }}{{ .p }}` (dict \"args\" (list \"p\")) }}", "{{ func \"fg#\" \"include\" `{{ set ._ \"v1\" 8 }}{{ .p }}` (dict \"args\" (list \"p\") \"def\" (dict \"p\" 3)) }}{{ include `{{ fg# 4 }}` }}", "{{ alias \"al#\" \"include\" `{{ set ._.d \"a\" 3 }}al` }}{{ include `{{ al# }}` }}",
	`{{ data "x: {{ set . \"v1\" 3 }}1" }}`, "{{ $x := data `{{ set ._ \"v2\" 3 }}{}` }}", "{{ $x := fromYaml (include `a: {{ unset ._ \"s\" }}1`) }}",
	`{{ with $.d }}{{ set . "w" 1 }}{{ end }}`, `{{ $copy := . }}{{ set $copy "v1" "aliased" }}`, `{{ $c := userContext }}{{ set $c "v1" 0 }}`, `{{ $c := userContext }}{{ set $c.d "a" 0 }}{{ set (index $c.l 0) "a" 0 }}`, `{{ set . "NL" "x" }}`, `{{ set . "true" "no" }}`, `{{ unset . "NEWLINE" }}`,
	`{{ $p := pick . "d" }}{{ set $p.d "a" 12 }}`, `{{ $p := omit . "v1" }}{{ set $p.d "a" 13 }}`, `{{ $v := .GetValues }}{{ range $v }}{{ if eq (kindOf .) "map" }}{{ set . "val" 1 }}{{ end }}{{ end }}`, `{{ $r := .s.Reverse }}{{ $x := $r.Set 0 "R" }}`, `{{ $u := .l.Unique }}{{ set (index $u 0) "a" "U" }}`, `{{ $x := slice .l 0 1 }}{{ range $x }}{{ set . "sl" 1 }}{{ end }}`, `{{ ellipsis "set" (list .d "a" "el") }}`,
	"{{ run `echo {{ set ._ \"v1\" 3 }}run` }}", `{{ exec "echo [1, 2]" }}`, `{{ substitute "x" "/x/y" }}`, "{{ $x := toJson . }}", "{{ range $k, $v := . }}{{ set $ (print $k \"x\") 1 }}{{ end }}",
}

// Things that fail, before or after some change was made.
var histFailures = []string{
	`{{ raise "oops" }}`, `{{ fail "oops" }}`, `{{ assert false "no" }}`, `{{ .nothing.x.y }}`, `{{ add "x" }}`, `{{ index .l 9 }}`, `{{ undefinedFunction 1 }}`, `{{ $undefinedVar }}`, `{{ if }}`, `{{ unclosed`, `{{ .missing }}`, `text <no value> text {{ 1 }}`, `{{ .nil }} <nil>`, "{{ include `{{ set . \"v1\" 4 }}{{ raise \"inside\" }}` }}", "{{ include `{{ set ._ \"v1\" 4 }}{{ .missing.x }}` }}", `{{ include "/w/none" }}`, `{{ load "/w/none" }}`, `{{ run "false" }}`, `{{ run "sh -c 'exit 3'" }}`, `{{ template "none" }}`, `{{ set .d "a" (raise "x") }}`, "{{ set . \"v1\" 71 }}{{ raise \"x\" }}", "{{ set . \"v1\" 72 }}\n{{ .missing.y }}\n{{ set .d \"a\" 3 }}", "@v1 := 73;\n{{ fail \"y\" }}\n@v2 := 1;", "{{ set (index .l 0) \"a\" 4 }}\n{{ fail \"z\" }}", `{{ data "a: [" }}`, `{{ json "{" }}`, "{{ range .l }}\n{{ set . \"a\" 0 }}{{ raise \"r\" }}\n{{ end }}", `{{ end }}`, `{{ define "tpl#x" }}`, "{{ set . \"v1\" 74 }}{{ .d.b.none.none }}", "{{ func \"ff#\" \"include\" \"{{ raise `f` }}\" (dict) }}{{ include `{{ ff# }}` }}",
}

// Things that show what the template sees.
var histProbes = []string{
	`v1={{ .v1 }}`, `v2={{ .v2 }}`, `d={{ toJson .d }}`, `l={{ toJson .l }}`, `ll={{ toJson .ll }}`, `s={{ toJson .s }}`, `all={{ toJson . }}`, `user={{ toJson userContext }}`, `keys={{ keys . }}`, `new={{ default "unset" .new }}`, `new={{ .new }}`, `has={{ hasKey . "new" }}`, `m={{ isSet .missing }}`, `@v1 @d.a @v2`, `@(v1 + 1)`, `nl={{ .NL }}|{{ .true }}`, "inc={{ include `{{ .v1 }}` . }}", "inc={{ include `{{ ._.v1 }} {{ toJson ._.d }}` }}", "inc={{ include `{{ toJson . }}` (dict \"a\" 1) }}", "inc={{ include `{{ .missing }}` }}", "inc={{ include `{{ default 4 .missing }}` . }}", "inc={{ include `{{ .v1 }}` }}", `inc={{ include "/w/inc/show.inc" . }}`, `inc={{ include "/w/inc/show.inc" }}`, `inc={{ include "inline" }}`, "al={{ run `echo {{ ._.v1 }}` }}", "{{ define \"pr#\" }}{{ .v1 }}{{ end }}{{ template \"pr#\" . }}{{ include \"pr#\" . }}", "{{ func \"pf#\" \"include\" `{{ toJson .d }}{{ .v1 }}` (dict) }}{{ include `{{ pf# }}` }}", "data={{ toJson (data `{a: {{ .v1 }}}` .) }}", `wd={{ current }}`, "@{{ not code }} a@b.com @@x", "t={{ range .l }}{{ toJson . }},{{ end }}", `{{ if .new }}leak{{ end }}{{ with .d.zz }}leak{{ end }}`, "`multi\nline` {{ print `a\nb` }}", "@(print `multi\n@v1`)",
}

var histHeads = []string{"", "", "", "", "", "", "#! gotemplate\n", "#! /usr/bin/env gotemplate\n", "#! /bin/sh\n", "# gotemplate-pause!\n{{ paused }} @v1\n# gotemplate-resume!\n", "# razor-pause!\n@v1 {{ .v1 }}\n# razor-resume!\n", "# no-razor!\n@v1\n", "# no-gotemplate!\n", "# force-gotemplate!\n", "# gotemplate-pause!\n{{ never ended\n", "# razor-pause!\n"}

func histText(r *rng, i int) string {
	var b strings.Builder
	b.WriteString(pickS(r, histHeads))
	for k := r.rangeN(1, 5); k > 0; k-- {
		switch x := r.n(100); {
		case x < 45:
			b.WriteString(pickS(r, histChanges))
		case x < 58:
			b.WriteString(pickS(r, histFailures))
		default:
			b.WriteString(pickS(r, histProbes))
		}
		b.WriteString(pick(r, "\n", "\n", " "))
	}
	b.WriteString(pickS(r, histProbes) + "\n")
	return histNumber(b.String(), i)
}

func histNumber(s string, i int) string {
	for _, p := range []string{"tpl", "fn", "fg", "ff", "al", "pr", "pf"} {
		s = strings.ReplaceAll(s, p+"#", p+itoa(i))
	}
	return s
}

func histWorld(r *rng) (*World, []string) {
	w := envWorld(r)
	w.Patterns = nil
	var paths []string
	for i := 0; i < r.rangeN(2, 5); i++ {
		p := path.Join("/w/src", pick(r, "", "", "sub", "sub/deep"), fmt.Sprintf("t%d", i)+pick(r, ".txt.gt", ".txt.gt", ".template", ".txt", ".sh.gt", ".json"))
		w.Files = append(w.Files, WFile{Path: p, Mode: 0644, Frags: []Frag{lit(histText(r, i))}})
		paths = append(paths, p)
	}
	if i := r.n(len(paths)); r.p(35) {
		// the last one reads another one, which has no reason to be different because it has been processed
		k := len(paths) - 1
		if i != k && !histDefines(w.Files[i].Src()) {
			w.Files[k].Frags = append(w.Files[k].Frags, lit(fmt.Sprintf("{{ %s %q }}\n", pick(r, "load", "include", "include", "run"), pick(r, paths[i], paths[i], path.Base(paths[i]), strings.TrimPrefix(paths[i], "/w/src/")))))
		}
	}
	w.Files = append(w.Files,
		textFile("/w/inc/mut.inc", "{{ set . \"v1\" \"by include\" }}{{ if ._ }}{{ set ._ \"v2\" \"by include\" }}{{ end }}mut"),
		textFile("/w/inc/show.inc", "{{ toJson . }}"), textFile("/w/inc/def.inc", "{{ define \"incdef\" }}x{{ end }}def {{ add 1 1 }}"))
	if r.p(25) {
		w.Files = append(w.Files, textFile("/w/src/ext.gte", "{{ func \"ext1\" \"include\" `{{ set ._ \"v1\" 9 }}{{ .p }}` (dict \"args\" (list \"p\")) }}{{ set . \"fromExt\" (dict \"a\" 1) }}{{ define \"exttpl\" }}{{ set . \"v1\" 3 }}E{{ end }}{{ alias \"ext2\" \"run\" \"echo {{ set . `z` 1 }}\" }}"))
		for i := range paths {
			if r.p(50) {
				w.Files[i].Frags = append(w.Files[i].Frags, lit(pick(r, "{{ ext1 3 }}", "{{ template \"exttpl\" . }}", "{{ set .fromExt \"a\" 2 }}", "{{ toJson .fromExt }}", "{{ ext2 }}", "{{ include \"exttpl\" . }}")+"\n"))
			}
		}
	}
	return w, paths
}

// histScript: the same history by library calls.
func histScript(r *rng, w *World, paths []string) *Script {
	opts := map[string]bool{}
	for _, o := range []string{"strict", "novalue", "print", "disabled"} {
		if r.p(12) {
			opts[o] = true
		}
	}
	s := &Script{Steps: []LStep{{Op: "new", ID: "t", Folder: "/w/src", Options: opts, Context: histContext(), Delims: pick(r, "", "", "", "{{,}},@")}}}
	tgt := pick(r, "/w/src", "/w/out", "/w/out")
	if histReads(w, paths) {
		tgt = "/w/out" // the sources stay what they are
	}
	if r.p(30) {
		s.Steps = append(s.Steps, LStep{Op: "templates", ID: "t", Src: "/w/src", Tgt: tgt, Files: paths})
		if i := r.n(len(paths)); r.p(50) && tgt == "/w/out" && !histDefines(w.Files[i].Src()) {
			s.Steps = append(s.Steps, LStep{Op: "content", ID: "t", Text: w.Files[i].Src(), Src: "/w/src/again.gt"})
		}
		return s
	}
	for i, p := range paths {
		switch r.n(4) {
		case 0:
			s.Steps = append(s.Steps, LStep{Op: "templates", ID: "t", Src: "/w/src", Tgt: tgt, Files: []string{p}})
		case 1:
			s.Steps = append(s.Steps, LStep{Op: "template", ID: "t", Src: "/w/src", Tgt: tgt, Files: []string{p}})
		default:
			s.Steps = append(s.Steps, LStep{Op: "content", ID: "t", Text: w.Files[i].Src(), Src: pick(r, p, p, "x.gt", "sub/x.gt", "y.txt")})
		}
	}
	return s
}

// histDefines: functions defined by a template, which persist.
func histDefines(s string) bool {
	return strings.Contains(s, "{{ func ") || strings.Contains(s, "{{ alias ")
}

// histReads: a template reads another one.
func histReads(w *World, paths []string) bool {
	for _, p := range paths {
		for i := range paths {
			if strings.Contains(w.Files[i].Src(), path.Base(p)) {
				return true
			}
		}
	}
	return false
}

func marked(steps []LStep) *Script {
	s := &Script{}
	for i, st := range steps {
		s.Steps = append(s.Steps, LStep{Op: "mark", Text: fmt.Sprintf("span%d", i)}, st)
		if i == 0 || st.Op != "new" {
			s.Steps = append(s.Steps, LStep{Op: "dump", ID: "t"})
		}
	}
	s.Steps = append(s.Steps, LStep{Op: "mark", Text: "end"})
	return s
}

func same(s string) string { return address.ReplaceAllString(normal([]byte(s)), "ADDR") }

// changesOf lists what a run did to the files.
func changesOf(w *World, o *RunOut) map[string]string {
	before, after := treeOf(w.nodes()).filesOnly("/w"), treeOf(o.Nodes).filesOnly("/w")
	m := map[string]string{}
	for p, e := range after {
		if b, ok := before[p]; !ok || b != e {
			m[p] = fmt.Sprintf("%o %s", e.Mode, normal([]byte(e.Data)))
		}
	}
	for p := range before {
		if _, ok := after[p]; !ok {
			m[p] = "removed"
		}
	}
	return m
}

// disturbed tells which of the spans delimited by the given trace positions a fault touched.
func disturbed(tr []simk.Event, starts []int) map[int]bool {
	m := map[int]bool{}
	for i := range tr {
		if tr[i].Fault == 0 {
			continue
		}
		k := -1
		for j, s := range starts {
			if s >= 0 && s <= i {
				k = j
			}
		}
		m[k] = true
	}
	return m
}

func markAt(tr []simk.Event, name string) int {
	for i := range tr {
		if tr[i].Op == simk.OpMark && tr[i].Path == name {
			return i
		}
	}
	return -1
}

func evalHist(b *Bench, c *Case) *Violation {
	w, steps := c.W, c.Script.Steps
	if len(steps) == 0 || steps[0].Op != "new" {
		return nil
	}
	o, outs := b.runScript(b.lib, w, marked(steps), c.Faults)
	b.sample(c, o)
	if o.Fatal || o.Timeout || o.End != simk.EndExit || len(outs) != 3*len(steps)+1 {
		return nil // other properties
	}
	fail := func(class, format string, a ...any) *Violation {
		return &Violation{Class: class, Msg: fmt.Sprintf(format, a...), Trace: o.Trace}
	}
	starts := make([]int, len(steps))
	for i := range steps {
		starts[i] = markAt(o.Trace, fmt.Sprintf("span%d", i))
	}
	hit := disturbed(o.Trace, starts)
	if hit[0] || hit[-1] {
		return nil // the instance itself was built differently
	}
	out := func(k int) *LOut { return &outs[3*k+1] }
	dump := func(k int) string { return outs[3*k+2].Result }
	all, stdout := map[string]string{}, ""
	complete := true
	for k := 1; k < len(steps); k++ {
		if d := dump(k); d != dump(0) {
			return fail("context", "the context given by the user was changed by step %d (%s): %s", k, steps[k].Op, diffAt(dump(0), d))
		}
		st := steps[k]
		files := [][]string{st.Files}
		touched := []bool{hit[k]}
		if st.Op == "templates" && len(st.Files) > 1 {
			files, touched = nil, nil
			pos := make([]int, len(st.Files))
			at := starts[k]
			for i, f := range st.Files {
				files = append(files, []string{f})
				for at < len(o.Trace) && o.Trace[at].Path != f {
					at++
				}
				pos[i] = at
			}
			h := disturbed(o.Trace, append([]int{starts[k]}, pos...))
			for i := range pos {
				touched = append(touched, h[i+1])
			}
			if h[0] && hit[k] {
				continue
			}
		}
		for i := range files {
			if touched[i] {
				complete = false
				continue
			}
			st.Files = files[i]
			ref, routs := b.runScript(b.lib, w, marked([]LStep{steps[0], st}), nil)
			if ref.Fatal || ref.Timeout || ref.End != simk.EndExit || len(routs) != 7 {
				return nil
			}
			name := st.Src
			if len(st.Files) > 0 {
				name = st.Files[0]
			}
			got, want := out(k), &routs[4]
			if len(files) == 1 {
				if g, x := same(got.Result), same(want.Result); g != x {
					return fail("result", "%s (step %d, %s) renders differently after the previous ones: %s", name, k, st.Op, diffAt(x, g))
				}
				if g, x := same(got.Err), same(want.Err); g != x {
					return fail("error", "%s (step %d, %s) ends differently after the previous ones: error %s", name, k, st.Op, diffAt(x, g))
				}
				if g, x := got.Panic, want.Panic; g != x {
					return fail("error", "%s (step %d, %s) ends differently after the previous ones: panic %s", name, k, st.Op, diffAt(x, g))
				}
				if g, x := fmt.Sprint(got.Files), fmt.Sprint(want.Files); g != x {
					return fail("files", "%s (step %d, %s) reports other files after the previous ones: %s, alone %s", name, k, st.Op, g, x)
				}
			}
			if len(want.Calls) > 1 {
				continue
			}
			for _, x := range want.Calls {
				var g *LCall
				for j := range got.Calls {
					if got.Calls[j].Name == x.Name {
						g = &got.Calls[j]
					}
				}
				if g == nil {
					return fail("call", "the handler was not called for %s, which was processed after others", x.Name)
				}
				if same(g.Result) != same(x.Result) || g.Changed != x.Changed || same(g.Status) != same(x.Status) || g.Orig != x.Orig {
					return fail("result", "%s (step %d) is processed differently after the previous ones: result %s; changed %v, alone %v; error %s", name, k, diffAt(same(x.Result), same(g.Result)), g.Changed, x.Changed, diffAt(same(x.Status), same(g.Status)))
				}
			}
			stdout += string(ref.Out)
			for p, x := range changesOf(w, ref) {
				all[p] = x
			}
		}
	}
	changes := changesOf(w, o)
	for p, x := range all {
		if g, ok := changes[p]; !ok || g != x {
			if complete {
				return fail("files", "%s is not what the template gives when it is processed alone: %s", p, diffAt(x, changes[p]))
			}
		}
	}
	if !complete {
		return nil
	}
	for p, g := range changes {
		if _, ok := all[p]; !ok {
			return fail("files", "%s is not changed by any of the templates when they are processed alone: %s", p, clipN(g, 200))
		}
	}
	if g, x := normal(o.Out), normal([]byte(stdout)); g != x {
		return fail("stdout", "standard output is not what the templates print when they are processed alone: %s", diffAt(x, g))
	}
	return nil
}

// evalHistCLI: the command with several templates, and with each of them.
func evalHistCLI(b *Bench, c *Case) *Violation {
	w := c.W
	o := b.runWorld(w, nil)
	b.sample(c, o)
	if abnormal(o) != "" {
		return nil
	}
	fail := func(class, format string, a ...any) *Violation {
		return &Violation{Class: class, Msg: fmt.Sprintf(format, a...), Trace: o.Trace}
	}
	all, stdout, code := map[string]string{}, "", 0
	for i := range w.ArgFiles {
		x := *w
		x.ArgFiles = []string{w.ArgFiles[i]}
		ref := b.runWorld(&x, nil)
		if abnormal(ref) != "" {
			return nil
		}
		stdout += string(ref.Out)
		code |= ref.Code
		for p, d := range changesOf(w, ref) {
			all[p] = d
		}
	}
	if o.Code != code {
		return fail("exit", "exit %d; the templates alone give %d", o.Code, code)
	}
	if g, x := normal(o.Out), normal([]byte(stdout)); g != x {
		return fail("stdout", "standard output is not what the templates print when they are processed alone: %s", diffAt(x, g))
	}
	changes := changesOf(w, o)
	for p, x := range all {
		if changes[p] != x {
			return fail("files", "%s is not what the template gives when it is processed alone: %s", p, diffAt(x, changes[p]))
		}
	}
	for p, g := range changes {
		if _, ok := all[p]; !ok {
			return fail("files", "%s is not changed by any of the templates when they are processed alone: %s", p, clipN(g, 200))
		}
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C13", Level: "exploration", Needs: "cli lib", Quick: 500, Thor: 60000, Real: realCLI, Stubs: stubCLI, Assume: cliAssume,
		Rule: "executions (distinct operation traces) of histories of two to five templates; each is compared with every template processed alone by a fresh process",
		Explore: func(b *Bench, r *rng, idx int, eval func(*Case) bool) {
			w, paths := histWorld(r)
			if idx%3 == 2 {
				for _, p := range paths {
					w.ArgFiles = append(w.ArgFiles, strings.TrimPrefix(p, "/w/src/"))
				}
				if histReads(w, paths) {
					w.Target = "/w/out"
				}
				w.Files = append(w.Files, textFile("/w/in/ctx.yaml", histYAML))
				w.Imports = []string{"/w/in/ctx.yaml"}
				w.Strict, w.AcceptNo, w.StdinKind = r.p(10), r.p(10), simk.InTTY
				eval(&Case{Kind: "cli", W: w})
				return
			}
			s := histScript(r, w, paths)
			if !eval(&Case{Kind: "lib", W: w, Script: s}) {
				return
			}
			o, _ := b.runScript(b.lib, w, marked(s.Steps), nil)
			if o.Fatal || o.Timeout || o.End != simk.EndExit {
				return
			}
			n := 4
			if b.thorough() {
				n = 12
			}
			from := markAt(o.Trace, "span1")
			m := &faultMix{errno: 6, torn: 1, short: 1, eintr: 1}
			if from < 0 {
				return
			}
			first := o.Trace[from].Step
			m.filter = func(e *simk.Event) bool { return e.Step > first }
			for _, fs := range sampleFaults(r, o.Trace, m, n) {
				if !eval(&Case{Kind: "lib", W: w, Script: s, Faults: fs}) {
					return
				}
			}
		},
		Eval: func(b *Bench, c *Case) *Violation {
			if c.Kind == "cli" {
				return evalHistCLI(b, c)
			}
			return evalHist(b, c)
		},
	})
}

const histYAML = `v1: 1
v2: two
vf: 1.5
vt: true
d: {a: 1, b: {c: 2, e: [1, {f: g}]}, n: null}
l: [{a: 1}, {a: 2, k: [5, 6]}]
ll: [[1, 2], [3, {z: 1}]]
s: [x, y, z]
`
