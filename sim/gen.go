package main

import (
	"fmt"
	"path"
	"strings"
	"verifsim/simk"
)

// Profile bounds what the generator may use.
type Profile struct {
	MaxFiles  int
	Errors    bool // failing templates
	Plain     bool // non-template files matched by patterns
	Target    int  // percent of worlds with a distinct target folder
	Overwrite int
	Print     int
	Recursive int
	Args      int // explicit template file arguments
	Code      int // code on the command line
	Stdin     int // standard input as template
	Exclude   int
	Shebang   int
	Terraform int
	Save      int
	Run       int
	Include   int
	Vars      int
	Imports   int
	Big       int
	Shadow    int // pre-existing files at result paths
	Capacity  int
	Log       int
	Brackets  int
}

func defaultProfile() Profile {
	return Profile{MaxFiles: 6, Errors: false, Plain: true, Target: 35, Overwrite: 40, Print: 15, Recursive: 50, Args: 20, Code: 15, Stdin: 10, Exclude: 15, Shebang: 10, Save: 0, Run: 10, Include: 20, Vars: 50, Imports: 30, Big: 15, Shadow: 25}
}

var words = []string{"alpha", "beta", "gamma", "delta", "omega", "value", "config", "name", "quick", "brown", "naïve", "日本", "zeta", "x=1", "a/b", "k: v", "100%", "don't", "\"q\"", "#c", "<tag>", "red", "bold", "Blue", "*", "~", "$HOME", "`x`", "\\n", "%d", "[x]"}

func genText(r *rng) string {
	n := r.rangeN(1, 5)
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(pickS(r, words))
	}
	return b.String()
}

type fragCtx struct {
	w       *World
	p       *Profile
	vars    []KV // visible variables
	incs    []string
	inDir   string // folder of the template
	codeArg bool
	noSave  bool
	uniq    *int
}

func (c *fragCtx) frag(r *rng) Frag {
	for {
		switch r.n(16) {
		case 0, 1:
			a, b := r.n(100), r.n(100)
			return Frag{Src: fmt.Sprintf("{{ add %d %d }}", a, b), Out: itoa(a + b)}
		case 2:
			a, b := r.n(20), r.n(20)
			return Frag{Src: fmt.Sprintf("@(%d * %d)", a, b), Out: itoa(a * b)}
		case 3:
			n := r.n(5)
			return Frag{Src: fmt.Sprintf("{{ range $i := until %d }}<{{ $i }}>{{ end }}", n), Out: func() (s string) {
				for i := 0; i < n; i++ {
					s += "<" + itoa(i) + ">"
				}
				return
			}()}
		case 4:
			s := pick(r, "abc", "Hello", "mixedCase", "z9")
			return Frag{Src: fmt.Sprintf("{{ %q | upper }}", s), Out: strings.ToUpper(s)}
		case 5:
			t := r.n(2)
			return Frag{Src: fmt.Sprintf("{{ if eq %d 1 }}yes{{ else }}no{{ end }}", t), Out: []string{"no", "yes"}[t]}
		case 6:
			return Frag{Src: "{{/* note */}}", Out: ""}
		case 7, 8:
			if len(c.vars) == 0 {
				continue
			}
			v := pickS(r, c.vars)
			src := "{{ ." + v.K + " }}"
			if r.p(50) {
				src = "@(" + v.K + ")"
			}
			return Frag{Src: src, Out: v.V, Needs: []string{"var:" + v.K}}
		case 9:
			if len(c.incs) == 0 || !r.p(c.p.Include*2) {
				continue
			}
			f := pickS(r, c.incs)
			o, _ := render(c.w.file(f).Frags)
			return Frag{Src: fmt.Sprintf("{{ include %q }}", f), Out: o, Needs: []string{"file:" + f}}
		case 10:
			if !r.p(c.p.Run * 3) {
				continue
			}
			s := pick(r, "run out", "one two", "r1")
			return Frag{Src: fmt.Sprintf("{{ run %q }}", "echo -n "+s+" ; true"), Out: s}
		case 11:
			if c.noSave || !r.p(c.p.Save*3) {
				continue
			}
			*c.uniq++
			p := fmt.Sprintf("/w/saved/s%d.dat", *c.uniq)
			d := genText(r) + "\n"
			return Frag{Src: fmt.Sprintf("{{ save %q %q }}", p, d), Out: "", Save: p, SaveD: d}
		case 12:
			s := pick(r, "one", "two")
			return Frag{Src: fmt.Sprintf("{{ $v := %q }}{{ $v }}/{{ len $v }}", s), Out: s + "/3"}
		case 13:
			return Frag{Src: `{{ join "-" (list 1 2 3) }}`, Out: "1-2-3"}
		case 14:
			return Frag{Src: "{{- \"trim\" -}}", Out: "trim"}
		case 15:
			if r.p(50) {
				return Frag{Src: "me@@here", Out: "me@here"}
			}
			return Frag{Src: `{{ toJson (dict "b" 1 "a" "x") }}`, Out: `{"a":"x","b":1}`}
		}
	}
}

var errFrags = []Frag{
	{Src: "{{ raise \"kaboom\" }}", Err: "raise"},
	{Src: "{{ if }}", Err: "parse"},
	{Src: "{{ noSuchFunction 1 }}", Err: "undef"},
	{Src: "{{ index (list 1) 7 }}", Err: "exec"},
	{Src: "{{ .undefinedValue }}", Err: "novalue"},
	{Src: "{{ div 1 0 }}", Err: "exec"},
	{Src: "@(int(\"x\" + 1))", Err: "exec"},
	{Src: "{{ run \"false\" }}", Err: "exec"},
	{Src: "{{ assert false \"assertion no\" }}", Err: "raise"},
	{Src: "{{ load \"/w/absent.file\" }}", Err: "exec"},
	{Src: "{{ include \"/w/absent.file\" }}", Err: "exec"},
	{Src: "{{ template \"nowhere\" . }}", Err: "exec"},
}

// body generates the fragments of one file. code: at least one action.
func (c *fragCtx) body(r *rng, code, fail bool) (fs []Frag) {
	n := r.rangeN(1, 5)
	at := -1
	if code || fail {
		at = r.n(n)
	}
	trimNext := false
	for i := 0; i < n; i++ {
		var f Frag
		switch {
		case i == at && fail:
			f = pickS(r, errFrags)
		case i == at || (code && r.p(40)):
			f = c.frag(r)
			for fail && f.Save != "" {
				f = c.frag(r) // whether a failing template saves first is not specified
			}
		default:
			t := genText(r)
			f = Frag{Src: t, Out: t}
		}
		if strings.HasPrefix(f.Src, "{{-") {
			// trimmed markers eat white space: isolate them with brackets
			f = Frag{Src: "[" + f.Src + "]", Out: "[" + f.Out + "]"}
		}
		_ = trimNext
		fs = append(fs, f)
		if i < n-1 {
			s := pick(r, "\n", " ", "\n\n", "; ", "|")
			if strings.HasPrefix(f.Src, "@") && s == "; " {
				s = ", " // a semicolon ends a razor expression
			}
			fs = append(fs, Frag{Src: s, Out: s})
		}
	}
	if r.p(70) {
		fs = append(fs, Frag{Src: "\n", Out: "\n"})
	}
	if code && r.p(c.p.Big) {
		n := r.rangeN(300, 2500)
		switch {
		case c.codeArg:
		case r.p(4):
			n = r.rangeN(10000, 75000)
		case r.p(10):
			n = r.rangeN(2500, 10000)
		}
		s := strings.Repeat("0123456789abcde\n", n)
		fs = append(fs, Frag{Src: s, Out: s})
	}
	return
}

var tmplNames = []string{"a.txt.gt", "b.gt", "conf.yaml.gt", "c.template", "d.json.template", "x.sh.gt", "Makefile.gt", "e.md.gt", "long name.txt.gt", "f.generated.txt.gt", "été.txt.gt"}
var plainNames = []string{"data.txt", "notes.txt", "run.sh", "list.txt", "page.txt"}
var keepNames = []string{"keep.md", "a.txt.original", "image.bin", ".hidden", "old.gte.bak", "sub.gt.bak"}
var subDirs = []string{"", "", "sub", "lib", "sub/deep", "a b", "sub/deep/er"}

func genWorld(r *rng, p Profile) *World {
	w := &World{Seed: r.next() >> 1, Cwd: "/w/src", RunWord: r.p(30), StdinKind: pick(r, simk.InTTY, simk.InTTY, simk.InNull), Clock: int64(r.n(1000)) * 1e9}
	if r.p(25) {
		w.Cwd, w.Source = "/w", pick(r, "src", "/w/src", "./src")
	}
	if r.p(p.Target) {
		w.Target = pick(r, "/w/out", "../out", "/w/out/deep")
		if w.Cwd == "/w" {
			w.Target = pick(r, "/w/out", "out", "out/deep")
		}
	}
	src := w.srcDir()
	w.Overwrite = r.p(p.Overwrite)
	w.Print = r.p(p.Print)
	if r.p(p.Recursive) {
		if r.p(70) {
			w.Recursive = true
		} else {
			w.Depth = r.rangeN(1, 3)
		}
	}
	w.Terraform = r.p(p.Terraform)
	uniq := 0
	c := &fragCtx{w: w, p: &p, uniq: &uniq}
	// variables
	if r.p(p.Vars) {
		for i := r.rangeN(1, 3); i > 0; i-- {
			kv := KV{fmt.Sprintf("var%d", i), pick(r, "12", "hello", "some-value", "v1.2", "true")}
			w.Vars = append(w.Vars, kv)
			c.vars = append(c.vars, kv)
		}
	}
	if r.p(p.Imports) {
		format := r.n(3)
		kv := KV{"imp" + itoa(format), pick(r, "fromfile", "77", "deep.value")}
		name := []string{"/w/vars.json", "/w/vars.yaml", "/w/vars.hcl"}[format]
		txt := []string{`{"` + kv.K + `": "` + kv.V + `", "other": [1,2]}`, kv.K + `: "` + kv.V + "\"\nother: [1, 2]\n", kv.K + ` = "` + kv.V + "\"\n"}[format]
		w.Files = append(w.Files, WFile{Path: name, Mode: 0644, Frags: []Frag{{Src: txt, Out: txt}}})
		if r.p(70) {
			w.Imports = append(w.Imports, name)
		} else {
			w.ImportsIf = append(w.ImportsIf, name)
		}
		c.vars = append(c.vars, kv)
		if r.p(35) {
			// another file defines the same name before: its value is overridden
			over := WFile{Path: "/w/over.yaml", Mode: 0644, Frags: []Frag{lit(kv.K + ": overridden\n")}}
			w.Files = append(w.Files, over)
			if len(w.ImportsIf) > 0 || r.p(30) {
				w.ImportsIf = append([]string{over.Path}, w.ImportsIf...)
			} else {
				w.Imports = append([]string{over.Path}, w.Imports...)
			}
		}
	}
	// include file
	if r.p(p.Include) {
		c.p = &Profile{}
		fs := c.body(r, true, false)
		c.p = &p
		w.Files = append(w.Files, WFile{Path: "/w/inc/part.inc", Mode: 0644, Frags: fs})
		c.incs = append(c.incs, "/w/inc/part.inc")
	}
	if p.Save > 0 {
		w.Dirs = append(w.Dirs, "/w/saved")
	}
	used := map[string]bool{}
	addFile := func(rel string, fs []Frag, mode uint32) string {
		abs := path.Join(src, rel)
		if used[abs] {
			return ""
		}
		used[abs] = true
		w.Files = append(w.Files, WFile{Path: abs, Mode: mode, Frags: fs})
		return abs
	}
	n := r.rangeN(1, p.MaxFiles)
	usePlain := p.Plain && r.p(50)
	explicit := r.p(p.Args)
	for i := 0; i < n; i++ {
		dir := pickS(r, subDirs)
		plain := usePlain && r.p(45)
		names := tmplNames
		if plain {
			names = plainNames
		}
		if p.Terraform > 0 && r.p(60) {
			names = []string{"main.tf.gt", "vars.tfvars.gt", "mod.tf.json.gt", "other.tf.gt"}
			if plain {
				names = []string{"plain.tf"}
			}
		}
		name := pickS(r, names)
		fail := p.Errors && r.p(30)
		code := !r.p(12)
		c.inDir = path.Join(src, dir)
		c.noSave = plain // what an ignored failure leaves saved is not specified
		fs := c.body(r, code, fail)
		c.noSave = false
		switch {
		case r.p(p.Shebang) && code:
			fs = append([]Frag{{Src: "#! /usr/bin/env gotemplate\n", Out: ""}}, fs...)
		case r.p(8):
			fs = append([]Frag{{Src: "#!/bin/bash\n", Out: "#!/bin/bash\n"}}, fs...)
		case r.p(4) && code:
			fs = append([]Frag{{Src: pick(r, "{{ `#!/bin/sh` }}\n", "{{ print \"#!\" \"/bin/sh\" }}\n", "{{/* a script */}}#!/bin/sh\n"), Out: "#!/bin/sh\n"}}, fs...)
		case r.p(5) && code && !fail:
			// nothing but blanks
			fs = []Frag{{Src: pick(r, "{{/* nothing */}}", "{{ if false }}text{{ end }}", "{{ $x := 1 }}", "{{ define `part` }}content{{ end }}"), Out: ""}, lit(pick(r, "", "\n", " \n\n"))}
		}
		if strings.Contains(name, ".tf") {
			t := strings.Repeat("~", r.rangeN(1, 9)) + " tf\n"
			fs = append(fs, Frag{Src: t, Out: t})
		}
		mode := pick(r, uint32(0644), 0644, 0600, 0755, 0664, 0640)
		rel := path.Join(dir, name)
		if addFile(rel, fs, mode) == "" {
			continue
		}
		if explicit && r.p(60) {
			w.ArgFiles = append(w.ArgFiles, rel)
		}
	}
	if usePlain {
		w.Patterns = append(w.Patterns, pick(r, "*.txt", "*.txt,*.sh", "*.sh"))
		if p.Terraform > 0 {
			w.Patterns = append(w.Patterns, "*.tf")
		}
		if r.p(30) && len(w.Patterns) > 0 {
			w.Patterns = append(w.Patterns, "*.gt")
		}
	}
	for i := r.n(4); i > 0; i-- {
		t := genText(r) + "\n"
		addFile(path.Join(pickS(r, subDirs), pickS(r, keepNames)), []Frag{{Src: t, Out: t}}, 0644)
	}
	if r.p(p.Exclude) {
		w.Exclude = append(w.Exclude, pick(r, "*.txt.gt", "sub/**", "**/b.gt", "lib/*", "a b/**, c.template", "**/*.template"))
	}
	if r.p(p.Code) {
		for i := r.rangeN(1, 2); i > 0; i-- {
			c.codeArg = true // arguments have a limited size
			w.ArgCode = append(w.ArgCode, c.body(r, true, p.Errors && r.p(25)))
			c.codeArg = false
		}
	}
	if r.p(p.Stdin) {
		w.StdinKind = pick(r, simk.InPipe, simk.InFile)
		w.Stdin = c.body(r, true, p.Errors && r.p(15))
	} else if r.p(15) {
		w.StdinKind = simk.InPipe
		w.Env = append(w.Env, "GOTEMPLATE_NO_STDIN=1")
		w.StdinRaw = "ignored"
	}
	if p.Errors {
		w.Strict = r.p(30)
	}
	if r.p(p.Log) {
		w.Extra = append(w.Extra, "--internal-log-file-path", "/log/run.log")
		w.Dirs = append(w.Dirs, "/log")
	}
	if r.p(15) {
		w.Extra = append(w.Extra, pick(r, "--log-level=debug", "-L", "--template-log-level=trace"))
		if w.Extra[len(w.Extra)-1] == "-L" {
			w.Extra = append(w.Extra, "trace")
		}
	}
	// pre-existing files at result paths
	if r.p(p.Shadow) {
		x := w.expect()
		for i := range x.Items {
			o := x.Items[i].Out
			if x.Items[i].Rename {
				o += ".original" // the backup of a previous run
			}
			if o == "" && x.Items[i].IsTmpl && x.Items[i].Action == "none" {
				o, _ = w.resultPath(x.Items[i].Abs, "x") // what a result would have replaced
			}
			if o != "" && o != x.Items[i].Abs && r.p(60) && w.file(o) == nil {
				t := "previous " + genText(r) + "\n"
				switch r.n(6) {
				case 0, 1:
					t = strings.Repeat(t, 400)
				case 2:
					t = sameLength(r, x.Items[i].Result)
				case 3:
					t = x.Items[i].Result
				}
				w.Files = append(w.Files, WFile{Path: o, Mode: pick(r, uint32(0644), 0600, 0666), Frags: []Frag{{Src: t, Out: t}}})
			}
		}
	}
	return w
}

// sane rejects worlds whose expected outcome is ambiguous: two templates with
// the same result, a result that is itself a source, a fragment whose needs
// are not there.
func (w *World) sane() bool {
	x := w.expect()
	outs := map[string]bool{}
	srcs := map[string]bool{}
	for i := range x.Items {
		if x.Items[i].Abs != "" {
			if srcs[x.Items[i].Abs] {
				return false
			}
			srcs[x.Items[i].Abs] = true
		}
	}
	vars := map[string]bool{}
	for _, v := range w.Vars {
		vars[v.K] = true
	}
	for i := range w.Files {
		f := &w.Files[i]
		for _, im := range append(append([]string{}, w.Imports...), w.ImportsIf...) {
			if f.Path == im {
				for _, k := range []string{"imp0", "imp1", "imp2"} {
					if strings.Contains(f.Src(), k) {
						vars[k] = true
					}
				}
			}
		}
	}
	if imps := strings.Join(append(append([]string{}, w.Imports...), w.ImportsIf...), " "); strings.Contains(imps, "/w/over.") && !strings.Contains(imps, "/w/vars.") {
		return false
	}
	check := func(fs []Frag) bool {
		for _, f := range fs {
			for _, n := range f.Needs {
				k, v, _ := strings.Cut(n, ":")
				if k == "var" && !vars[v] || k == "file" && w.file(v) == nil {
					return false
				}
				if k == "file" {
					if o, _ := render(w.file(v).Frags); o != f.Out {
						return false
					}
				}
			}
		}
		return true
	}
	for i := range w.Files {
		if !check(w.Files[i].Frags) {
			return false
		}
	}
	for _, c := range w.ArgCode {
		if !check(c) || !hasCode(srcOf(c)) {
			return false
		}
	}
	if len(w.Stdin) > 0 && (!check(w.Stdin) || !hasCode(srcOf(w.Stdin))) {
		return false
	}
	if w.forcedStdin() && len(w.Stdin) == 0 {
		return false
	}
	for _, im := range append(append([]string{}, w.Imports...), w.ImportsIf...) {
		if w.file(im) == nil {
			return false
		}
	}
	for i := range x.Items {
		o := x.Items[i].Out
		if o == "" {
			continue
		}
		if outs[o] || (srcs[o] && o != x.Items[i].Abs) {
			return false
		}
		outs[o] = true
		if x.Items[i].Rename {
			b := x.Items[i].Abs + ".original"
			if srcs[b] || outs[b] {
				return false
			}
			outs[b] = true
		}
	}
	return true
}
