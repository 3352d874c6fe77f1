package main

import (
	"fmt"
	"path"
	"regexp"
	"strings"
	"verifsim/simk"
)

// checkNoWrong accepts a run that delivered only a part of its outputs: every
// file below the work folder still has its initial content or has the expected
// one, and standard output is made of complete expected outputs.
func checkNoWrong(w *World, x *Expect, o *RunOut) *Violation {
	init := w.initialTree()
	final := treeOf(o.Nodes).filesOnly(workRoots...)
	backup := map[string]string{}
	for i := range x.Items {
		if x.Items[i].Rename {
			backup[x.Items[i].Abs+".original"] = x.Items[i].Abs
		}
	}
	for _, p := range final.keys() {
		e := final[p]
		if i, ok := init[p]; ok && i.Data == e.Data && i.Target == e.Target {
			continue
		}
		if t, ok := x.Tree[p]; ok && (t.Data == e.Data || isTF(p) && oneOf(e.Data, tfVariants(p, t.Data))) {
			continue
		}
		if a, ok := backup[p]; ok && init[a].Data == e.Data {
			continue
		}
		return &Violation{Class: "wrong", Msg: fmt.Sprintf("exit %d and %s holds %s, which is neither its initial nor its expected content", o.Code, p, quote(clip(e.Data))), Trace: o.Trace}
	}
	var outs []string
	for i := range x.Items {
		if s := x.Items[i].Stdout; s != "" {
			outs = append(outs, s)
		}
	}
	if !subSequence(string(o.Out), outs) {
		return &Violation{Class: "wrong", Msg: fmt.Sprintf("exit %d and standard output is %s, expected (parts of) %s", o.Code, quote(clip(string(o.Out))), quote(clip(x.Stdout))), Trace: o.Trace}
	}
	return nil
}

// subSequence tells whether s is the concatenation, in order, of some of parts.
func subSequence(s string, parts []string) bool {
	seen := map[[2]int]bool{}
	var rec func(k, from int) bool
	rec = func(k, from int) bool {
		if k == len(s) {
			return true
		}
		if seen[[2]int{k, from}] {
			return false
		}
		seen[[2]int{k, from}] = true
		for j := from; j < len(parts); j++ {
			if strings.HasPrefix(s[k:], parts[j]) && rec(k+len(parts[j]), j+1) {
				return true
			}
		}
		return false
	}
	return rec(0, 0)
}

// effective lists the faults that changed something in a run.
func effective(o *RunOut) (r []*simk.Event) {
	for i := range o.Trace {
		if e := &o.Trace[i]; e.FX && e.Fault != 0 {
			r = append(r, e)
		}
	}
	return
}

// benign tells whether every effective fault is one that programs must absorb:
// split transfers, interrupted calls.
func benign(o *RunOut) bool {
	for _, e := range effective(o) {
		switch {
		case e.Fault == simk.FShort || e.Fault == simk.FClock || e.Fault == simk.FActor:
		case e.Fault == simk.FErrno && e.Errno == int64(simk.EINTR) && e.Op != simk.OpClose:
		default:
			return false
		}
	}
	return true
}

// honest is the oracle shared by the checks where a fault must lead either to
// the exact result or to a reported failure without any wrong output.
func honest(w *World, x *Expect, o *RunOut) *Violation {
	if a := abnormal(o); a != "" {
		return &Violation{Class: "abnormal", Msg: a, Trace: o.Trace}
	}
	if o.Code == 0 {
		if x.Code != 0 {
			return &Violation{Class: "dishonest", Msg: "exit 0 although a failure is expected", Trace: o.Trace}
		}
		if v := checkExact(w, x, o, true); v != nil {
			v.Class, v.Msg = "dishonest", "exit 0 but "+v.Class+": "+v.Msg
			return v
		}
		return nil
	}
	if x.Code == 0 && w.Capacity == 0 && benign(o) {
		return &Violation{Class: "spurious", Msg: fmt.Sprintf("exit %d without any failure: %s", o.Code, clip(string(o.Err))), Trace: o.Trace}
	}
	return checkNoWrong(w, x, o)
}

func textFile(p, s string) WFile {
	return WFile{Path: p, Mode: 0644, Frags: []Frag{{Src: s, Out: s}}}
}

func lit(s string) Frag { return Frag{Src: s, Out: s} }

// envWorld is a plain world holding the given templates in /w/src.
func envWorld(r *rng, bodies ...[]Frag) *World {
	w := &World{Seed: r.next() >> 1, Cwd: "/w/src", StdinKind: pick(r, simk.InTTY, simk.InNull), Clock: int64(r.n(1000)) * 1e9}
	if r.p(40) {
		w.Target = "/w/out"
	}
	w.Overwrite, w.Print = r.p(30), r.p(25)
	for i, fs := range bodies {
		w.Files = append(w.Files, WFile{Path: fmt.Sprintf("/w/src/%c.txt.gt", 'a'+i), Mode: 0644, Frags: fs})
	}
	return w
}

// ---------------------------------------------------------------- C07

type cmdGen struct {
	files map[string]WFile
	n     int
}

func (g *cmdGen) file(p, s string) { g.files[p] = textFile(p, s) }

func (g *cmdGen) frag(r *rng) Frag {
	g.n++
	n := g.n
	tok := fmt.Sprintf("tok%d", n)
	switch r.n(17) {
	case 0:
		return Frag{Src: fmt.Sprintf(`{{ run "echo" "-n" "%s" }}`, tok), Out: tok}
	case 1:
		return Frag{Src: fmt.Sprintf(`{{ run "echo -n %s ; echo -n more" }}`, tok), Out: tok + "more"}
	case 2:
		return Frag{Src: fmt.Sprintf(`{{ run "echo -n pre" "%s" }}`, tok), Out: "pre " + tok}
	case 3:
		p := fmt.Sprintf("/w/scripts/s%d.sh", n)
		g.file(p, "#! /bin/bash\necho -n script $1\necho \n")
		return Frag{Src: fmt.Sprintf(`{{ run "%s" "%s" }}`, p, tok), Out: "script " + tok + "\n"}
	case 4:
		p := fmt.Sprintf("/w/data/d%d.json", n)
		g.file(p, fmt.Sprintf(`{"key": "%s", "list": [1, 2, 3]}`, tok))
		return Frag{Src: fmt.Sprintf(`{{ $x := exec "cat %s" }}{{ $x.key }}{{ len $x.list }}`, p), Out: tok + "3"}
	case 5:
		return Frag{Src: `{{ add 1 (exec "echo 41") }}`, Out: "42"}
	case 6:
		k := pick(r, 20, 300, 300, 3000, 3000, 30000, 30000, 20000+r.n(300000))
		return Frag{Src: fmt.Sprintf(`{{ run "seq %d" }}`, k), Out: seqText(k)}
	case 7:
		g.file("/w/src/alias.gte", `{{ alias "greet" "run" "echo -n hello" }}{{ alias "obj" "exec" "cat /w/data/obj.yaml" }}{{ localAlias "loc" "run" "echo -n local ; echo -n again" }}`)
		g.file("/w/data/obj.yaml", "name: fromyaml\n")
		switch r.n(4) {
		case 0:
			return Frag{Src: `{{ greet }}`, Out: "hello"}
		case 1:
			return Frag{Src: fmt.Sprintf(`{{ greet "%s" }}`, tok), Out: "hello " + tok + "\n"[:0]}
		case 2:
			return Frag{Src: `{{ obj.name }}`, Out: "fromyaml"}
		}
		return Frag{Src: `{{ loc }}`, Out: "localagain"}
	case 8:
		return Frag{Src: "{{ run `#! /bin/sh\necho -n first" + tok + "\necho -n second` }}", Out: "first" + tok + "second"}
	case 9:
		// the command is itself a template
		return Frag{Src: fmt.Sprintf(`{{ run "echo -n {{ .n }} %s" (dict "n" 12) }}`, tok), Out: "12 " + tok}
	case 10:
		p := fmt.Sprintf("/w/scripts/t%d.sh", n)
		g.file(p, "#! /bin/sh\necho -n {{ .v }}-"+tok+"\n")
		return Frag{Src: fmt.Sprintf(`{{ run "%s" (dict "v" "val") }}`, p), Out: "val-" + tok}
	case 11:
		return Frag{Src: fmt.Sprintf(`{{ run "echo -n good%d ; echo noise%d >&2" }}`, n, n), Out: fmt.Sprintf("good%d", n)}
	case 12:
		return Frag{Src: `{{ run "true" }}`, Out: ""}
	case 13:
		return Frag{Src: fmt.Sprintf(`@run("echo -n %s")`, tok), Out: tok}
	case 14:
		p := fmt.Sprintf("/w/data/e%d.txt", n)
		g.file(p, "line 1\nline 2\n"+tok)
		return Frag{Src: fmt.Sprintf(`{{ run "cat" "%s" }}`, p), Out: "line 1\nline 2\n" + tok}
	case 15:
		return Frag{Src: fmt.Sprintf("{{ range exec `echo '[\"%s\", \"z\"]'` }}<{{ . }}>{{ end }}", tok), Out: "<" + tok + "><z>"}
	default:
		return Frag{Src: fmt.Sprintf(`{{ len (run "seq %d") }}`, n*7), Out: itoa(len(seqText(n * 7)))}
	}
}

func seqText(n int) string {
	var b strings.Builder
	for i := 1; i <= n; i++ {
		b.WriteString(itoa(i))
		b.WriteByte('\n')
	}
	return b.String()
}

// failing commands; Err "token:x" tells what the report must include.
func (g *cmdGen) failFrag(r *rng) Frag {
	g.n++
	tok := fmt.Sprintf("oops%d", g.n)
	say := "echo " + tok + " >&2"
	switch r.n(4) {
	case 0:
		say = "echo first line >&2 ; " + say
	case 1:
		say = "echo >&2 ; echo first line >&2 ; " + say + " ; echo last >&2"
	}
	status := pick(r, 1, 2, 3, 126, 127, 130, 137, 141, 143, 255, r.rangeN(1, 255))
	switch r.n(10) {
	case 0:
		return Frag{Src: fmt.Sprintf(`{{ run "echo -n part ; %s ; exit %d" }}`, say, status), Err: "token:" + tok}
	case 1:
		return Frag{Src: fmt.Sprintf(`{{ exec "echo '{' ; %s ; exit %d" }}`, say, status), Err: "token:" + tok}
	case 2:
		return Frag{Src: fmt.Sprintf(`{{ run "%s ; kill9" }}`, say), Err: "token:" + tok}
	case 3:
		return Frag{Src: fmt.Sprintf(`{{ run "nosuchcommand%d" }}`, g.n), Err: fmt.Sprintf("token:nosuchcommand%d", g.n)}
	case 4:
		p := fmt.Sprintf("/w/scripts/f%d.sh", g.n)
		g.file(p, "#! /bin/bash\necho some output\n"+strings.ReplaceAll(say, " ; ", "\n")+fmt.Sprintf("\nexit %d\n", status))
		return Frag{Src: fmt.Sprintf(`{{ run "%s" "arg" }}`, p), Err: "token:" + tok}
	case 5:
		return Frag{Src: "{{ run `#! /bin/nointerpreter\necho x` }}", Err: "token:nointerpreter"}
	case 6:
		return Frag{Src: `{{ run "false" }}`, Err: "exec"}
	case 7:
		return Frag{Src: fmt.Sprintf(`{{ run "cat" "/w/data/missing%d" }}`, g.n), Err: fmt.Sprintf("token:missing%d: No such file", g.n)}
	case 8:
		g.file("/w/src/bad.gte", `{{ alias "broken" "run" "echo -n half ; echo aliasoops >&2 ; false" }}`)
		return Frag{Src: `{{ broken }}`, Err: "token:aliasoops"}
	default:
		return Frag{Src: fmt.Sprintf(`{{ run "echo a ; unknowncmd%d" }}`, g.n), Err: fmt.Sprintf("token:unknowncmd%d", g.n)}
	}
}

// cmdWorld: templates whose actions run commands.
func cmdWorld(r *rng, single, fail bool) *World {
	g := &cmdGen{files: map[string]WFile{}}
	var bodies [][]Frag
	nf := r.rangeN(1, 3)
	if single {
		nf = 1
	}
	bad := r.n(nf)
	for i := 0; i < nf; i++ {
		var fs []Frag
		k := r.rangeN(1, 3)
		if single {
			k = 1
		}
		at := -1
		if fail && i == bad {
			at = r.n(k)
		}
		fs = append(fs, lit(fmt.Sprintf("begin%d ", i)))
		for j := 0; j < k; j++ {
			if j == at {
				fs = append(fs, g.failFrag(r))
			} else {
				fs = append(fs, g.frag(r))
			}
			sep := pick(r, "\n", " | ", "\n\n")
			if strings.Contains(fs[len(fs)-1].Src, "\n") {
				sep = "\n" // the error report works by line
			}
			fs = append(fs, lit(sep))
		}
		if r.p(60) {
			fs = append(fs, lit("end\n"))
		}
		bodies = append(bodies, fs)
	}
	if single && r.p(50) {
		bodies = append(bodies, []Frag{{Src: "{{ add 1 1 }} other\n", Out: "2 other\n"}})
	}
	w := envWorld(r, bodies...)
	var names []string
	for p := range g.files {
		names = append(names, p)
	}
	for _, p := range sorted(names) {
		w.Files = append(w.Files, g.files[p])
	}
	return w
}

var noiseLine = regexp.MustCompile(`(?m)(noise[0-9]+|^sh: .*command not found)\n`)

var tempName = regexp.MustCompile(`/tmp/(exec_|gotemplate-)[0-9]+`)

// ---------------------------------------------------------------- C06

var bareLines = [][]string{
	{"--help"}, {"help"}, {"--version"}, {"-v"}, {"--help-man"}, {"list"}, {"list", "-a", "-l"}, {"list", "--category"}, {"list", "-t"}, {"list", "-f", "include"},
	{"--nosuchflag"}, {"run", "--nosuchflag"}, {"--delimiters", "a,b,c,d"}, {"--import", "/w/absent.yaml"}, {"--source", "/w/absent"}, {"--source", "/w/absent", "--ignore-missing-source"},
	{"--type", "Q"}, {"--substitute", "bad"}, {"--substitute", "/(/x"}, {"--exclude", "["}, {"--patterns", "["}, {"-R", "x"}, {"{{ exit 3 }}"}, {"{{ exit 0 }}"}, {"{{ fatal \"stop\" }}"}, {"{{ panic \"stop\" }}"},
	{"{{ run `echo a ; echo b` }}{{ exit 4 }}"}, {"{{ raise \"x\" }}"}, {"{{ run `#! /bin/nowhere\nx` }}"}, {"{{ run `echo x ; exit 3` }}"}, {"absent.gt"}, {"{{ if"}, {"--var", "x=/w/absent", "{{ .x }}"}, {"--template-log-level", "bad", "{{ 1 }}"}, {"-L", "bad", "{{ 1 }}"}, {"--log-level=debug", "{{ 1 }}"}, {"{{ fatalf \"%d\" 3 }}"}, {"-F", "/w/nodir/x.log", "{{ 1 }}"},
}

func checkTemps(o *RunOut) *Violation {
	if o.Fatal || o.Timeout || o.End != simk.EndExit {
		return nil
	}
	for _, e := range effective(o) {
		if !strings.HasPrefix(e.Path, "/tmp") {
			continue
		}
		switch e.Op {
		case simk.OpUnlink, simk.OpRmdir, simk.OpReaddir, simk.OpStat, simk.OpFstat:
			return nil
		case simk.OpOpen:
			if !strings.Contains(e.Path, "exec_") {
				return nil
			}
		}
	}
	var left []string
	for _, n := range o.Nodes {
		if strings.HasPrefix(n.Path, "/tmp/") {
			left = append(left, n.Path)
		}
	}
	if len(left) > 0 {
		return &Violation{Class: "temporary", Msg: fmt.Sprintf("exit %d and %s remains", o.Code, strings.Join(left, ", ")), Trace: o.Trace}
	}
	return nil
}

// ---------------------------------------------------------------- C08

type inputCase struct {
	w     *World
	paths []string // the input whose reading may fail
}

// inputWorld builds a world with one input of a random kind.
func inputWorld(r *rng) *inputCase {
	tok := fmt.Sprintf("v%d", r.n(1000))
	pad, tail := "", ""
	if r.p(30) {
		pad = strings.Repeat("# padding padding padding\n", r.rangeN(10, 400))
	}
	if r.p(30) {
		tail = strings.Repeat("# padding padding padding\n", r.rangeN(10, 400))
	}
	body := func(fs ...Frag) []Frag { return append(append([]Frag{lit("before ")}, fs...), lit(" after\n")) }
	yaml := pad + "key: " + tok + "\nother: [1, 2]\n" + tail
	use := Frag{Src: pick(r, "{{ .key }}", "@(key)"), Out: tok}
	def := Frag{Src: `{{ default "none" .key }}`, Out: tok}
	var w *World
	add := func(p, s string) string { w.Files = append(w.Files, textFile(p, s)); return p }
	ic := &inputCase{}
	deep := ""
	if r.p(35) {
		deep = "/priv"
	}
	ext := pick(r, ".yaml", ".yml", ".json", ".hcl", "")
	switch ext {
	case ".json":
		yaml = `{"key": "` + tok + `"}` + strings.Repeat("\n", len(pad))
	case ".hcl":
		yaml = pad + `key = "` + tok + "\"\n" + tail
	}
	k := r.n(16)
	switch k {
	case 0, 1, 2:
		fr := def
		if r.p(40) {
			fr = use
		}
		w = envWorld(r, body(fr))
		p := add("/w/in"+deep+"/vars"+ext, yaml)
		switch k {
		case 0:
			w.Imports = append(w.Imports, p)
		case 1:
			w.ImportsIf = append(w.ImportsIf, p)
		default:
			w.Imports = append(w.Imports, p)
			w.Extra = append(w.Extra, pick(r, "--ignore-missing-import", "--ignore-missing-paths"))
		}
		ic.paths = append(ic.paths, p)
	case 3, 4:
		w = envWorld(r, body(Frag{Src: "{{ .data.key }}", Out: tok}))
		if r.p(30) {
			w = envWorld(r, body(Frag{Src: `{{ if .data }}loaded{{ end }}`, Out: "loaded"}))
		}
		p := add("/w/in"+deep+"/data"+ext, yaml)
		if k == 3 {
			w.Vars = append(w.Vars, KV{"data", p})
		} else {
			w.Extra = append(w.Extra, "--var", p)
		}
		ic.paths = append(ic.paths, p)
	case 5, 6:
		w = envWorld(r, body(Frag{Src: `{{ myalias }}`, Out: "inc " + tok + " 3"}))
		p := add("/w/in"+deep+"/part.inc", "inc "+tok+" {{ add 1 2 }}")
		add("/w/src/zz.gte", fmt.Sprintf(`{{ %s "myalias" "%s" "%s" }}`, pick(r, "alias", "localAlias"), pick(r, "include", "template"), p))
		ic.paths = append(ic.paths, p)
	case 7, 8:
		p := "/w/in" + deep + "/part.inc"
		w = envWorld(r, body(Frag{Src: fmt.Sprintf(`{{ include "%s" }}`, p), Out: "inc " + tok + " 3"}))
		if r.p(50) {
			// the length of what was included
			w = envWorld(r, body(Frag{Src: fmt.Sprintf(`{{ $t := include "%s" }}{{ len $t }}`, p), Out: itoa(len("inc " + tok + " 3"))}))
		}
		add(p, "inc "+tok+" {{ add 1 2 }}")
		ic.paths = append(ic.paths, p)
	case 9, 10:
		p := "/w/in" + deep + "/script.sh"
		w = envWorld(r, body(Frag{Src: fmt.Sprintf(`{{ %s "%s" "arg" }}`, pick(r, "run", "exec"), p), Out: "said " + tok + " arg"}))
		add(p, "#! /bin/bash\necho -n said "+tok+" $1\n")
		ic.paths = append(ic.paths, p)
	case 11, 12:
		p := "/w/src/ext.gte"
		if r.p(40) {
			p = "/w/src/lib" + deep + "/ext.gte"
		}
		w = envWorld(r, body(Frag{Src: `{{ myext }}`, Out: "ext" + tok}))
		if r.p(50) {
			w = envWorld(r, body(Frag{Src: `{{ include "exttpl" }}`, Out: "ext" + tok}))
		}
		if r.p(35) {
			// nothing fails without the extension, the result is only different
			w = envWorld(r, body(Frag{Src: pick(r, `{{ default "none" .fromExt }}`, `{{ with .fromExt }}{{ . }}{{ else }}none{{ end }}`), Out: "ext" + tok}))
		}
		if r.p(30) {
			p = "/w/ext/my.gte"
			w.Env = append(w.Env, "GOTEMPLATE_PATH=/w/ext")
		}
		add(p, `{{ alias "myext" "include" "ext`+tok+`" }}{{ define "exttpl" }}ext`+tok+`{{ end }}{{ set . "fromExt" "ext`+tok+`" }}`)
		ic.paths = append(ic.paths, p)
	case 13:
		w = envWorld(r, body(Frag{Src: "{{ add 1 2 }}", Out: "3"}), body(Frag{Src: "{{ add 3 2 }}", Out: "5"}))
		ic.paths = append(ic.paths, "/w/src/b.txt.gt")
	case 14:
		w = envWorld(r, body(Frag{Src: "{{ add 1 2 }}", Out: "3"}))
		p := add("/w/src/code{{"+pick(r, "x", "1", "\"q\"", "add 1 1")+"}}.gt", "from file {{ add 1 1 }}\n")
		w.file(p).Frags = []Frag{lit("from file "), {Src: "{{ add 1 1 }}", Out: "2"}, lit("\n")}
		ic.paths = append(ic.paths, p)
	default:
		p := "/w/in" + deep + "/data.txt"
		w = envWorld(r, body(Frag{Src: fmt.Sprintf(`{{ load "%s" }}`, p), Out: "loaded " + tok}))
		add(p, "loaded "+tok)
		ic.paths = append(ic.paths, p)
	}
	ic.w = w
	return ic
}

// ---------------------------------------------------------------- C09

func stdinWorld(r *rng) *World {
	big := ""
	if r.p(50) {
		big = strings.Repeat(pick(r, "0123456789abcde\n", "é日本 wide text\n"), r.rangeN(1, pick(r, 9000, 9000, 9000, 9000, 9000, 9000, 9000, 9000, 9000, 120000)))
	}
	var w *World
	switch r.n(6) {
	case 0, 1, 2:
		w = envWorld(r)
		w.Stdin = []Frag{lit(pick(r, "in ", "in ", "in ", "\ufeffin ")), {Src: "{{ add 40 2 }}", Out: "42"}, lit(" middle "), lit(big), {Src: "@(6 * 7)", Out: "42"}, lit("\nlast line" + pick(r, "", "\n", "\n\n", "  "))}
		if r.p(40) {
			w.Files = append(w.Files, WFile{Path: "/w/src/a.txt.gt", Mode: 0644, Frags: []Frag{{Src: "{{ 1 }}", Out: "1"}, lit(" file\n")}})
			w.ArgFiles = []string{"a.txt.gt"}
		}
	case 3:
		w = envWorld(r, []Frag{{Src: "{{ .key }}/{{ .last }}", Out: "val/end"}, lit("\n")})
		w.StdinRaw = "key: val\n" + comment(big) + "last: end\n"
		w.Extra = append(w.Extra, "--import=-") // kingpin drops the value of "--import -"
		w.ArgFiles = []string{"a.txt.gt"}
	case 4:
		w = envWorld(r, []Frag{{Src: "{{ .data.key }}/{{ .data.last }}", Out: "val/end"}, lit("\n")})
		w.StdinRaw = `{"key": "val", "filler": "` + strings.ReplaceAll(big, "\n", " ") + `", "last": "end"}`
		w.Vars = []KV{{"data", "-"}}
		w.ArgFiles = []string{"a.txt.gt"}
	default:
		// both: read once
		w = envWorld(r, []Frag{{Src: "{{ .data.key }}/{{ .last }}", Out: "val/end"}, lit("\n")})
		w.StdinRaw = "key: val\n" + comment(big) + "last: end\n"
		w.Vars = []KV{{"data", "-"}}
		w.Extra = append(w.Extra, "--import=-") // kingpin drops the value of "--import -"
		w.ArgFiles = []string{"a.txt.gt"}
	}
	w.StdinKind = pick(r, simk.InPipe, simk.InPipe, simk.InFile)
	w.InChunk = pick(r, 0, 0, 1, 2, 3, 7, 100, 511, 513, 4096)
	n := len(w.StdinRaw) + len(srcOf(w.Stdin))
	if w.InChunk > 0 && n/w.InChunk > 8000 {
		w.InChunk = n/8000 + 1
	}
	return w
}

func comment(s string) string {
	if s == "" {
		return ""
	}
	return "# " + strings.ReplaceAll(strings.TrimRight(s, "\n"), "\n", "\n# ") + "\n"
}

// ---------------------------------------------------------------- C10

// saveWorld: sequences of save and load of a few files in one template.
func saveWorld(r *rng) *World {
	store := map[string]string{}
	var names []string
	w := &World{}
	pre := map[string]string{}
	for i := 0; i < r.n(3); i++ {
		p := fmt.Sprintf("/w/store0/old%d.dat", i)
		pre[p] = pick(r, "", "", "", "\ufeff", "a\r\nb\r\n") + genText(r) + strings.Repeat("old content\n", pick(r, 0, 1, 1, 500, 500, 500, 500, 500, 500, 500, r.n(pick(r, 500, 500, 150000))))
		store[p] = pre[p]
		names = append(names, p)
	}
	var bodies [][]Frag
	nf := r.rangeN(1, 2)
	bases := []string{"x.txt", "y.json", "z", "with space.txt", "é.txt"}
	for f := 0; f < nf; f++ {
		// each template has its own files: it is not concerned by the failures of
		// another one
		top := fmt.Sprintf("/w/store%d", f)
		newDir := fmt.Sprintf("%s/new%d", top, r.n(9))
		if f > 0 {
			names = nil
		}
		w.Dirs = append(w.Dirs, top)
		fs := []Frag{lit(fmt.Sprintf("t%d\n", f))}
		steps := r.rangeN(2, 7)
		for s := 0; s < steps; s++ {
			switch r.n(10) {
			case 8, 9:
				// a file that was loaded is replaced by another content, often of
				// the same length, and loaded again
				if len(names) == 0 {
					continue
				}
				p := pickS(r, names)
				d := store[p]
				if len(d) > 3000 {
					continue
				}
				ld := func() {
					fs = append(fs, Frag{Src: fmt.Sprintf("<{{ %s %q }}>", pick(r, "load", "load", "read"), p), Out: "<" + store[p] + ">", Needs: []string{"load:" + p + "=" + store[p]}})
				}
				for k := r.rangeN(1, 3); k > 0; k-- {
					ld()
					if r.p(80) {
						d = sameLength(r, d)
					} else {
						d = genText(r)
					}
					fs = append(fs, Frag{Src: fmt.Sprintf("{{ %s %q %q }}", pick(r, "save", "write"), p, d), Save: p, SaveD: d})
					store[p] = d
				}
				ld()
			case 0, 1, 2:
				p := pick(r, top+"/", top+"/", newDir+"/", fmt.Sprintf("/w/src/gen%d/", f)) + pickS(r, bases)
				if len(names) > 0 && r.p(50) {
					p = pickS(r, names)
				}
				d := genText(r)
				if r.p(15) {
					d = pick(r, "\ufeffmarked", "one\r\ntwo\r\n", "nul\x00byte", "\n\n lead and trail \t\n", "tab\tand \"quotes\" and \\ back", "\r", "no end\r\n\r\n")
				}
				fr := Frag{}
				switch r.n(5) {
				case 0:
					k := r.rangeN(1, 5000)
					d = strings.Repeat(pick(r, "a", "ab", "line\n"), k)
					u := d[:len(d)/k]
					fr.Src = fmt.Sprintf("{{ save %q (join \"\" (repeat %d %q)) }}", p, k, u)
				case 1:
					d = pick(r, "12", "true", "1.5")
					fr.Src = fmt.Sprintf("{{ save %q %s }}", p, d)
				case 2:
					d = ""
					fr.Src = fmt.Sprintf("{{ save %q \"\" }}", p)
				default:
					fr.Src = fmt.Sprintf("{{ %s %q %q }}", pick(r, "save", "write", "writeTo"), p, d)
				}
				if _, ok := store[p]; !ok {
					names = append(names, p)
				}
				store[p] = d
				fr.Save, fr.SaveD = p, d
				fs = append(fs, fr)
			case 3, 4, 5:
				if len(names) == 0 {
					continue
				}
				p := pickS(r, names)
				d := store[p]
				if len(d) > 3000 || r.p(25) {
					fs = append(fs, Frag{Src: fmt.Sprintf("<{{ len (load %q) }}>", p), Out: fmt.Sprintf("<%d>", len(d)), Needs: []string{"load:" + p + "=" + d}})
				} else {
					fs = append(fs, Frag{Src: fmt.Sprintf("<{{ %s %q }}>", pick(r, "load", "read", "readFrom"), p), Out: "<" + d + ">", Needs: []string{"load:" + p + "=" + d}})
				}
			case 6:
				if len(names) == 0 {
					continue
				}
				p := pickS(r, names)
				fs = append(fs, Frag{Src: fmt.Sprintf("{{ exists %q }},{{ size %q }},{{ isFile %q }}", p, p, p), Out: fmt.Sprintf("true,%d,true", len(store[p])), Needs: []string{"load:" + p + "=" + store[p]}})
			default:
				// copy: what was loaded is saved elsewhere
				if len(names) == 0 {
					continue
				}
				p, q := pickS(r, names), top+"/copy"+itoa(r.n(3))
				d := store[p]
				fr := Frag{Src: fmt.Sprintf("{{ save %q (load %q) }}", q, p), Save: q, SaveD: d, Needs: []string{"copy:" + p}}
				if r.p(50) {
					fr.Src = fmt.Sprintf("{{ save %q (load %q true) }}", q, p)
				}
				if _, ok := store[q]; !ok {
					names = append(names, q)
				}
				store[q] = d
				fs = append(fs, fr)
			}
			fs = append(fs, lit("\n"))
		}
		bodies = append(bodies, fs)
	}
	dirs := w.Dirs
	*w = *envWorld(r, bodies...)
	w.Dirs = dirs
	for _, p := range sorted(keysOf(pre)) {
		w.Files = append(w.Files, textFile(p, pre[p]))
	}
	return w
}

// refusedWorld adds an operation that cannot be done at the end of a template:
// its failure is the one of the template.
func refusedWorld(r *rng, w *World) *World {
	c := *w
	c.Files = append([]WFile(nil), w.Files...)
	var at []int
	for i := range c.Files {
		for _, f := range c.Files[i].Frags {
			if f.Save != "" {
				at = append(at, i)
				break
			}
		}
	}
	if len(at) == 0 {
		return w
	}
	f := &c.Files[at[r.n(len(at))]]
	p := f.Path
	src := pick(r,
		fmt.Sprintf("{{ %s %q \"data\" }}", pick(r, "save", "write"), "/w/store0/no/such/"+pick(r, "x.txt", "y")),
		fmt.Sprintf("{{ save %q (repeat 9 \"data\") }}", pick(r, "/w/store0/no/such/deep/z", "/w/no/such/a.json")),
		fmt.Sprintf("{{ save %q \"data\" }}", pick(r, "/w/store0", "/w/src", "/w/store0/", p+"/no")),
		fmt.Sprintf("{{ load %q }}", pick(r, "/w/store0", "/w/store0/none.txt", "/w/store0/no/such", "/w/src", p+"/no")),
		fmt.Sprintf("{{ load %q true }}", pick(r, "/w/store0", "/w/store0/none.txt")),
		fmt.Sprintf("{{ save \"/w/store0/copy9\" (load %q) }}", pick(r, "/w/store0/none.txt", "/w/store0")))
	f.Frags = append(append([]Frag(nil), f.Frags...), Frag{Src: src, Err: "refused"})
	return &c
}

// sameLength gives another text of the same length.
func sameLength(r *rng, d string) string {
	b := []byte(d)
	for n, i := r.rangeN(1, 4), 0; n > 0 && i < 60 && len(b) > 0; i++ {
		k := r.n(len(b))
		if c := b[k]; c >= 'a' && c <= 'z' || c >= '0' && c <= '9' {
			if b[k] = byte('a' + r.n(26)); b[k] != c {
				n--
			}
		}
	}
	if string(b) == d {
		return strings.Repeat("~", len(b))
	}
	return string(b)
}

func keysOf(m map[string]string) (r []string) {
	for k := range m {
		r = append(r, k)
	}
	return
}

// coherent tells whether the loads of a (possibly reduced) world give what the
// fragments expect.
func coherent(w *World) bool {
	store := map[string]string{}
	for i := range w.Files {
		store[w.Files[i].Path] = w.Files[i].Src()
	}
	for i := range w.Files {
		for _, f := range w.Files[i].Frags {
			for _, n := range f.Needs {
				if p, d, ok := strings.Cut(strings.TrimPrefix(n, "load:"), "="); ok && strings.HasPrefix(n, "load:") {
					if c, ok := store[p]; !ok || c != d {
						return false
					}
				}
				if p, ok := strings.CutPrefix(n, "copy:"); ok {
					if c, ok := store[p]; !ok || c != f.SaveD {
						return false
					}
				}
			}
			if f.Save != "" {
				store[f.Save] = f.SaveD
			}
		}
	}
	return true
}

// checkSaves: under failures, every stored file holds what one of the saves
// stored, or its previous content; a file under the hand of a failing save may
// hold anything when the run reports its failure.
func checkSaves(w *World, x *Expect, o *RunOut) *Violation {
	if o.Code == 0 {
		return nil // checked exactly
	}
	allowed := map[string]map[string]bool{}
	touch := func(p, d string) {
		if allowed[p] == nil {
			allowed[p] = map[string]bool{}
		}
		allowed[p][d] = true
	}
	for i := range w.Files {
		touch(w.Files[i].Path, w.Files[i].Src())
		for _, f := range w.Files[i].Frags {
			if f.Save != "" {
				touch(f.Save, f.SaveD)
			}
		}
	}
	for i := range x.Items {
		if it := &x.Items[i]; it.Out != "" {
			touch(it.Out, it.Result)
		}
	}
	hit := map[string]bool{}
	for _, e := range effective(o) {
		hit[e.Path] = true
	}
	// a template is executed again to find its other errors: a copy of a file
	// that could not be stored is not defined, and the source of a copy may have
	// been replaced since the first execution
	for k := 0; k < 8; k++ {
		for i := range w.Files {
			for _, f := range w.Files[i].Frags {
				for _, n := range f.Needs {
					if c, ok := strings.CutPrefix(n, "copy:"); ok {
						hit[f.Save] = hit[f.Save] || hit[c]
						for d := range allowed[c] {
							touch(f.Save, d)
						}
					}
				}
			}
		}
	}
	final := treeOf(o.Nodes).filesOnly(workRoots...)
	for _, p := range final.keys() {
		if hit[p] || w.Capacity > 0 {
			continue
		}
		if !allowed[p][final[p].Data] {
			return &Violation{Class: "content", Msg: fmt.Sprintf("%s holds %s, which no save stored", p, quote(clip(final[p].Data))), Trace: o.Trace}
		}
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C06", Level: "exploration", Needs: "cli lib", Quick: 240, Thor: 40000, Real: realCLI, Stubs: stubCLI, Assume: cliAssume,
		Rule: "executions (distinct operation traces) in which an injected fault changed the result of an operation and whose final state was searched for temporary files; library calls are checked for open descriptors and connections",
		Explore: func(b *Bench, r *rng, idx int, eval func(*Case) bool) {
			var w *World
			kind := "run"
			switch r.n(8) {
			case 0, 1, 2:
				w = cmdWorld(r, false, r.p(30))
				if r.p(25) {
					w.Files[0].Frags = append(w.Files[0].Frags, Frag{Src: pick(r, "{{ exit 3 }}", "{{ exit 0 }}", "{{ fatal \"stop\" }}", "{{ panic \"stop\" }}"), Err: "exit"})
				}
			case 3, 4:
				w = envWorld(r, []Frag{{Src: "{{ add 1 2 }}", Out: "3"}, lit("\n")})
				w.Bare = pickS(r, bareLines)
				kind = "line"
			case 5:
				lw, s := scriptFds(r)
				c := &Case{Kind: "library", W: lw, Script: s}
				if !eval(c) {
					return
				}
				o, _ := b.runScript(b.lib, lw, s, nil)
				singles := sampleFaults(r, o.Trace, &faultMix{errno: 6, short: 1, torn: 3, eintr: 1, filter: func(e *simk.Event) bool { return e.Op != simk.OpMark }}, 25)
				for i := range o.Trace {
					if o.Trace[i].Op == simk.OpDial {
						singles = append(singles, []simk.Fault{netFault(r, o.Trace, i)})
					}
				}
				for _, f := range append(singles, combine(r, singles, 5, 3)...) {
					if !eval(&Case{Kind: "library", W: lw, Script: s, Faults: f}) {
						return
					}
				}
				return
			default:
				p := defaultProfile()
				p.Errors, p.Run, p.Print = r.p(40), 30, 40
				if r.p(40) {
					p.Terraform = 60
				}
				w = cliWorld(r, p, nil)
			}
			if !eval(&Case{Kind: kind, W: w}) {
				return
			}
			o := b.runWorld(w, nil)
			n := 22
			if b.thorough() {
				n = 60
			}
			m := &faultMix{errno: 6, short: 1, torn: 3, eintr: 1}
			tmp := &faultMix{errno: 6, torn: 4, filter: func(e *simk.Event) bool {
				return strings.HasPrefix(e.Path, "/tmp") || e.Op == simk.OpFork || e.Op == simk.OpPipe
			}}
			singles := append(sampleFaults(r, o.Trace, m, n), sampleFaults(r, o.Trace, tmp, n/2)...)
			for _, f := range append(singles, combine(r, singles, 5, 3)...) {
				if r.p(10) {
					f[0].Count = 100
				}
				if !eval(&Case{Kind: kind, W: w, Faults: f}) {
					return
				}
			}
		},
		Eval: func(b *Bench, c *Case) *Violation {
			if c.Script != nil {
				return evalLibFds(b, c)
			}
			o := b.runWorld(c.W, c.Faults)
			b.sample(c, o)
			return checkTemps(o)
		},
	})

	register(&Prop{
		ID: "C07", Level: "exploration", Needs: "cli", Quick: 240, Thor: 40000, Real: realCLI, Stubs: stubCLI, Assume: cliAssume,
		Rule: "executions (distinct operation traces) of templates running commands in which an injected fault changed the result of an operation or of a command",
		Explore: func(b *Bench, r *rng, idx int, eval func(*Case) bool) {
			single := r.p(50)
			w := cmdWorld(r, single, r.p(30))
			kind := "commands"
			if single {
				kind = "single"
			}
			if !eval(&Case{Kind: kind, W: w}) {
				return
			}
			o := b.runWorld(w, nil)
			n := 18
			if b.thorough() {
				n = 50
			}
			var singles [][]simk.Fault
			for i := range o.Trace {
				if o.Trace[i].Op != simk.OpFork {
					continue
				}
				for k := 0; k < 3; k++ {
					singles = append(singles, []simk.Fault{at(o.Trace, i, simk.FProc, pick(r, int64(1), 2, 126, 127, 255, 130, 137, 141, 143, int64(r.rangeN(1, 255)), 256+9, 256+15, 256+11, 256+13), pick(r, int64(-1), -1, 0, 1, int64(r.n(40)), int64(r.n(20000))))})
				}
				singles = append(singles, []simk.Fault{at(o.Trace, i, simk.FErrno, pick(r, int64(simk.EAGAIN), simk.ENOMEM, simk.EACCES, simk.ENOENT), 0)})
			}
			m := &faultMix{errno: 6, short: 2, torn: 4, eintr: 1, filter: func(e *simk.Event) bool {
				return e.Op == simk.OpPipe || e.Op == simk.OpPipeRead || e.Op == simk.OpWait || strings.HasPrefix(e.Path, "/tmp") || strings.HasPrefix(e.Path, "/w/scripts") || strings.HasPrefix(e.Path, "/w/data") || e.Path == "/dev/null"
			}}
			singles = append(singles, sampleFaults(r, o.Trace, m, n)...)
			for _, f := range append(singles, combine(r, singles, 5, 3)...) {
				if !eval(&Case{Kind: kind, W: w, Faults: f}) {
					return
				}
			}
		},
		Eval: func(b *Bench, c *Case) *Violation {
			x := c.W.expect()
			o := b.runWorld(c.W, c.Faults)
			b.sample(c, o)
			// what a successful command writes on its standard error is logged,
			// wherever that is
			o.Out = noiseLine.ReplaceAll(o.Out, nil)
			if v := honest(c.W, x, o); v != nil {
				return v
			}
			forced := false
			for _, e := range effective(o) {
				if e.Fault == simk.FProc {
					forced = true
				}
			}
			if forced && o.Code == 0 {
				return &Violation{Class: "status", Msg: "exit 0 although a command ended with a non-zero status or a signal", Trace: o.Trace}
			}
			if x.Code != 0 && len(effective(o)) == 0 {
				for i := range x.Items {
					for _, f := range x.Items[i].Frags {
						if t, ok := strings.CutPrefix(f.Err, "token:"); ok && !strings.Contains(string(o.Err), t) {
							return &Violation{Class: "report", Msg: "the error does not include what the command wrote on its standard error (" + t + "): " + clip(string(o.Err)), Trace: o.Trace}
						}
					}
				}
			}
			// what a command wrote on its standard error before it failed is reported
			if c.Kind == "single" && forced && len(effective(o)) == 1 && x.Code == 0 {
				e := effective(o)[0]
				for i := range c.W.Files {
					src := c.W.Files[i].Src()
					if k := strings.Index(src, "echo noise"); k >= 0 && c.Faults[e.FIdx].Arg2 < 0 {
						t := strings.Fields(src[k+5:])[0]
						if !strings.Contains(string(o.Err), t) {
							return &Violation{Class: "report", Msg: "the error does not include what the command wrote on its standard error (" + t + "): " + clip(string(o.Err)), Trace: o.Trace}
						}
					}
				}
			}
			return nil
		},
	})

	register(&Prop{
		ID: "C08", Level: "exploration", Needs: "cli", Quick: 420, Thor: 60000, Real: realCLI, Stubs: stubCLI, Assume: cliAssume,
		Rule: "executions (distinct operation traces) in which an operation on an existing input failed, by an injected errno or by permission bits",
		Explore: func(b *Bench, r *rng, idx int, eval func(*Case) bool) {
			ic := inputWorld(r)
			w := ic.w
			if !eval(&Case{Kind: "input", W: w}) {
				return
			}
			o := b.runWorld(w, nil)
			in := map[string]bool{}
			for _, p := range ic.paths {
				in[p] = true
			}
			n := 10
			if b.thorough() {
				n = 25
			}
			step := 1 << 30
			if i := firstTemplateOpen(w.expect(), o.Trace); i < len(o.Trace) {
				step = o.Trace[i].Step
			}
			m := &faultMix{errno: 1, filter: func(e *simk.Event) bool {
				if !in[e.Path] {
					return false
				}
				if isTemplateName(e.Path) {
					return e.Step >= step
				}
				if strings.HasSuffix(e.Path, ".gte") {
					// the search for extensions is not the reading of one
					return e.Op != simk.OpStat && e.Op != simk.OpReaddir
				}
				return e.Op != simk.OpFork
			}}
			for _, f := range sampleFaults(r, o.Trace, m, n) {
				if f[0].Arg == simk.ENOENT {
					continue
				}
				if r.p(50) {
					f[0].Skip, f[0].Count = 0, 100
				}
				if !eval(&Case{Kind: "input", W: w, Faults: f}) {
					return
				}
				// the whole file is out of reach
				g := simk.Fault{Ops: 1<<simk.OpOpen | 1<<simk.OpStat | 1<<simk.OpAccess | 1<<simk.OpRead, Path: f[0].Path, Kind: simk.FErrno, Arg: pick(r, int64(simk.EIO), simk.EACCES)}
				if !strings.HasSuffix(g.Path, ".gte") && !isTemplateName(g.Path) {
					if !eval(&Case{Kind: "input", W: w, Faults: []simk.Fault{g}}) {
						return
					}
				}
			}
			// permission bits
			c := *w
			c.NonRoot = true
			c.Files = append([]WFile{}, w.Files...)
			for i := range c.Files {
				if in[c.Files[i].Path] {
					c.Files[i].Mode = 0
				}
			}
			if !eval(&Case{Kind: "perm", W: &c}) {
				return
			}
			if d := path.Dir(ic.paths[0]); strings.HasPrefix(d, "/w/in") {
				c2 := *w
				c2.NonRoot = true
				if !eval(&Case{Kind: "perm", W: &c2, Note: d}) {
					return
				}
			}
		},
		Eval: func(b *Bench, c *Case) *Violation {
			x := c.W.expect()
			p := c.W.plan()
			p.Faults = c.Faults
			if c.Kind == "perm" {
				for i := range p.Nodes {
					if p.Nodes[i].Path == c.Note {
						p.Nodes[i].Mode &^= 0777
						c.Note = c.Note + ""
					}
				}
				if c.Note != "" {
					p.Nodes = append(p.Nodes, simk.Node{Path: c.Note, Mode: simk.IFDIR})
				}
			}
			o := b.exec(b.cli, p)
			b.sample(c, o)
			if a := abnormal(o); a != "" {
				return &Violation{Class: "abnormal", Msg: a, Trace: o.Trace}
			}
			if c.Kind == "perm" {
				if o.Code == 0 {
					return &Violation{Class: "dropped", Msg: "exit 0 although an input cannot be read: output " + quote(clip(string(o.Out))), Trace: o.Trace}
				}
				return checkNoWrong(c.W, x, o)
			}
			for _, e := range effective(o) {
				if e.Op == simk.OpRead && e.Fault == simk.FErrno && e.Errno != int64(simk.EINTR) && o.Code == 0 {
					return &Violation{Class: "dropped", Msg: "exit 0 although reading " + e.Path + " failed", Trace: o.Trace}
				}
			}
			return honest(c.W, x, o)
		},
	})

	register(&Prop{
		ID: "C09", Level: "exploration", Needs: "cli", Quick: 260, Thor: 40000, Real: realCLI, Stubs: stubCLI, Assume: cliAssume,
		Rule: "executions (distinct operation traces) reading standard input with distinct chunking, interruptions and failures",
		Explore: func(b *Bench, r *rng, idx int, eval func(*Case) bool) {
			w := stdinWorld(r)
			if !eval(&Case{Kind: "chunks", W: w}) {
				return
			}
			o := b.runWorld(w, nil)
			n := 10
			m := &faultMix{errno: 6, short: 4, eintr: 3, filter: func(e *simk.Event) bool { return e.Op == simk.OpStdin }}
			singles := sampleFaults(r, o.Trace, m, n)
			for _, f := range append(singles, combine(r, singles, 4, 4)...) {
				if !eval(&Case{Kind: "fault", W: w, Faults: f}) {
					return
				}
			}
			// pauses and interruptions all along
			storm := simk.Fault{Ops: 1 << simk.OpStdin, Kind: simk.FErrno, Arg: simk.EINTR, Skip: r.n(3), Count: r.rangeN(1, 40)}
			pause := simk.Fault{Ops: 1 << simk.OpStdin, Kind: simk.FClock, Arg: int64(r.n(1000)) * 1e9}
			eval(&Case{Kind: "storm", W: w, Faults: []simk.Fault{storm, pause}})
		},
		Eval: func(b *Bench, c *Case) *Violation {
			x := c.W.expect()
			o := b.runWorld(c.W, c.Faults)
			b.sample(c, o)
			if v := honest(c.W, x, o); v != nil {
				return v
			}
			failed := false
			for _, e := range effective(o) {
				if e.Op == simk.OpStdin && e.Fault == simk.FErrno && e.Errno != int64(simk.EINTR) {
					failed = true
				}
			}
			total := int64(len(c.W.StdinRaw) + len(srcOf(c.W.Stdin)))
			if failed {
				if o.Code == 0 {
					return &Violation{Class: "lost-input", Msg: "exit 0 although reading standard input failed", Trace: o.Trace}
				}
				// nothing is rendered from the part already received
				if s := string(o.Out); len(c.W.Stdin) > 0 && strings.Contains(s, "in 42") {
					return &Violation{Class: "partial", Msg: "a part of standard input was rendered: " + quote(clip(s)), Trace: o.Trace}
				}
			} else if o.Code == 0 && o.StdinRead != total {
				return &Violation{Class: "consumption", Msg: fmt.Sprintf("%d of %d bytes of standard input were read", o.StdinRead, total), Trace: o.Trace}
			}
			return nil
		},
	})

	register(&Prop{
		ID: "C10", Level: "exploration", Needs: "cli", Quick: 400, Thor: 40000, Real: realCLI, Stubs: stubCLI, Assume: cliAssume,
		Rule: "executions (distinct operation traces) of sequences of save and load in which an injected fault changed the result of an operation",
		Explore: func(b *Bench, r *rng, idx int, eval func(*Case) bool) {
			w := saveWorld(r)
			if !eval(&Case{Kind: "plain", W: w}) {
				return
			}
			o := b.runWorld(w, nil)
			n := 20
			if b.thorough() {
				n = 50
			}
			saved := map[string]bool{}
			for i := range w.Files {
				for _, f := range w.Files[i].Frags {
					if f.Save != "" {
						saved[f.Save] = true
					}
				}
			}
			m := &faultMix{errno: 6, short: 2, torn: 4, eintr: 1, filter: func(e *simk.Event) bool {
				return saved[e.Path] || strings.HasPrefix(e.Path, "/w/store") || strings.HasPrefix(e.Path, "/w/src/gen")
			}}
			singles := sampleFaults(r, o.Trace, m, n)
			for _, f := range append(singles, combine(r, singles, 4, 3)...) {
				if !eval(&Case{Kind: "fault", W: w, Faults: f}) {
					return
				}
			}
			c := *w
			c.Capacity = treeBytes(w) + int64(r.n(4000))
			if !eval(&Case{Kind: "full disk", W: &c}) {
				return
			}
			bad := refusedWorld(r, w)
			if !eval(&Case{Kind: "refused", W: bad}) {
				return
			}
			o = b.runWorld(bad, nil)
			for _, f := range sampleFaults(r, o.Trace, m, n/5) {
				if !eval(&Case{Kind: "refused", W: bad, Faults: f}) {
					return
				}
			}
		},
		Eval: func(b *Bench, c *Case) *Violation {
			if !coherent(c.W) {
				return nil
			}
			refused := ""
			for i := range c.W.Files {
				for _, f := range c.W.Files[i].Frags {
					if f.Err != "" {
						refused = f.Src
					}
				}
			}
			x := c.W.expect()
			o := b.runWorld(c.W, c.Faults)
			b.sample(c, o)
			if a := abnormal(o); a != "" {
				return &Violation{Class: "abnormal", Msg: a, Trace: o.Trace}
			}
			if refused != "" {
				if o.Code == 0 {
					return &Violation{Class: "refused", Msg: fmt.Sprintf("exit 0 although %s cannot be done: %s", refused, clip(string(o.Err))), Trace: o.Trace}
				}
				for p := range treeOf(o.Nodes) {
					if strings.Contains(p, "/no/") || strings.HasSuffix(p, "/no") || strings.Contains(p, "none.txt") {
						return &Violation{Class: "refused", Msg: fmt.Sprintf("%s was created by the failing template", p), Trace: o.Trace}
					}
				}
				return checkSaves(c.W, x, o)
			}
			if o.Code == 0 {
				if v := checkExact(c.W, x, o, false); v != nil {
					v.Class, v.Msg = "unfaithful", "exit 0 but "+v.Class+": "+v.Msg
					return v
				}
				return nil
			}
			if c.W.Capacity == 0 && benign(o) {
				return &Violation{Class: "spurious", Msg: fmt.Sprintf("exit %d without any failure: %s", o.Code, clip(string(o.Err))), Trace: o.Trace}
			}
			return checkSaves(c.W, x, o)
		},
	})
}
