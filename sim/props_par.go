package main

import (
	"fmt"
	"os"
	"path"
	"strings"
	"verifsim/simk"
)

// ---------------------------------------------------------------- C12

// What the templates of a worker do besides what histories do; # is the worker.
var parFrags = []string{
	`{{ toJson . }}`, `{{ toYaml .d }}`, `{{ toHcl .d }}`, `{{ toPrettyJson .l }}`, `{{ toTFVars .d }}`, `{{ toBash .d }}`, `{{ toInternalHcl .d }}`, `{{ fromYaml "a: [1, {b: 2}]" }}`, `{{ json "{\"a\": [1, 2]}" }}`, `{{ hcl "a = 1" }}`, `{{ data "x = [1, 2]" }}`, `{{ yaml "a: 1" }}`,
	`{{ (list 1 2 3 # ).Reverse }}`, `{{ (dict "a" #).Keys }}`, `{{ merge (dict "a" #) .d }}`, `{{ keys .d | sortAlpha }}`, `{{ list 1 2 2 | uniq }}`, `{{ join "," .s }}`, `{{ range $i, $e := .s }}{{ $i }}{{ $e }} {{ end }}`, `{{ .s | first }}{{ last .s }}`, `{{ slice .s 0 2 }}`, `{{ extract .d "a" }}`, `{{ contains .s "x" }}`,
	`{{ upper "worker#" }}{{ title "abc def" }}{{ snakecase "aBcD" }}{{ trunc 3 "abcdef" }}{{ indent 3 "x\ny" }}{{ wrap 5 "aa bb cc" }}`, `{{ sha256sum "w#" }}{{ b64enc "x#" }}{{ regexReplaceAll "a(b)" "xabx" "$1" }}`, `{{ regexMatch "^w[0-9]+$" "w#" }}{{ regexFind "[0-9]+" "w#z" }}{{ semver "1.2.#" }}{{ semverCompare ">=1.0" "1.2.#" }}`, `{{ date "2006" 0 }}`, `{{ default "x" .none }}{{ coalesce 0 1 }}{{ ternary 1 2 true }}`,
	`{{ add 1 # }}{{ mul 2 # }}{{ div 10 3 }}{{ pow 2 # }}{{ sqrt 16 }}{{ max 1 # }}{{ avg 1 2 # }}{{ hex # }}{{ bitwiseAnd 7 # }}{{ sin 1 }}{{ percent }}`, `{{ 2 | pow 3 }}{{ round 2.5 }}{{ mod 7 3 }}{{ to 3 }}{{ until 4 }}{{ deg 1 }}`, `{{ lorem }}` + "\n", `{{ color "red" "x#" }}{{ bgColor "green" "y" }}`, `{{ center 20 "w#" }}{{ concat "a" # }}{{ formatList "<%v>" .s }}{{ splitLines "a\nb" }}{{ joinLines .s }}{{ mergeList .s (list 1) }}{{ repeat 3 "x" }}{{ nIndent 2 "x" }}{{ sIndent "> " "x" }}{{ wrap 3 "a b" }}`,
	"@v1 @(d.a) @if(v1 == 1) yes @else no @endif\n", "@foreach(e := l)@e.a,@end foreach\n", "@{x#} := 3\n@x#\n", "@x# := list(1, 2, 3);@join(`-`, x#)\n", "@(1 + 2 * 3) @{v2} @@literal\n", "@-v1;@d.b.c;@s[0];@(s[1])\n", "@include(`{{ . }}w#`, 3)\n", "@with(d)@(.a)@end\n", "`long\nliteral #` {{ print `multi\nline #` }} @(print `multi\n#`)\n", `@("a" + "b#")` + "\n", "@<;x\n", "@define(`d#`)body@end @template(`d#`)\n", "@assert(true, `x`)@#-- comment\n", "{{ `a` }}@{{ v1 }}\n", "@v1;text@d.a;text @print(\"s#\", 1)\n", "@range(s) @. @end\n", "@for(x := until(3)) @x @endfor\n", "@func(`pr#`, `include`, `{{ .a }}!`, dict(`args`, list(`a`))) @pr#(4)\n",
	"{{ include `inc {{ add 1 . }}` # }}", `{{ include "/w/inc/show.inc" (dict "w" #) }}`, `{{ include "/w/w#/local.inc" . }}`, `{{ load "/w/inc/show.inc" }}`, `{{ run "echo w#" }}`, `{{ exec "echo [1, #]" }}`, "{{ run `#! /bin/sh\necho script #` }}", `{{ save "/w/w#/saved.txt" "by #" }}{{ load "/w/w#/saved.txt" }}`, `{{ fileExists "/w/w#" }}{{ glob "/w/w#/*.inc" }}{{ isDir "/w" }}{{ diff "a\nb" "a\nc" }}{{ stat "/w/inc" | toString | len }}`, `{{ pwd }}{{ current }}{{ joinPath "a" "b" }}{{ username | len }}`,
	"{{ func \"fn#\" \"include\" `{{ .p }}-#` (dict \"args\" (list \"p\")) }}{{ include `{{ fn# 1 }}` }}", `{{ alias "al#" "run" "echo alias#" }}` + "{{ include `{{ al# }}` }}", `{{ define "pt#" }}[{{ . }}]{{ end }}{{ template "pt#" # }}{{ include "pt#" 1 }}`, `{{ len functions }}`, `{{ len allFunctions }}`, `{{ len (templateNames) }}`, `{{ (function "add").Name }}`, `{{ (function "include").Arguments }}{{ (function "fn").Aliases }}`, `{{ categories | len }}`, `{{ aliases | len }}`, `{{ exec (print "echo " #) }}`, `{{ substitute "w#" "/w/x/" }}`, `{{ ellipsis "print" .s }}`, `{{ localAlias "la#" "print" "x" }}` + "{{ include `{{ la# }}` }}", `{{ getSignature "include" }}`, `{{ userContext | len }}`, `{{ templates | len }}`,
	`{{ debug "x#" }}{{ trace "y" }}{{ info "z" }}`, `{{ warning "w#" }}`, `{{ notice "n#" }}{{ critical "c#" }}`, `{{ error "e#" }}`, `{{ getAttributes .d | len }}`, `{{ getMethods .d | len }}`, `{{ bool "true" }}{{ int "3" }}{{ float64 2 }}{{ kindOf .d }}{{ typeOf .l }}{{ char 65 }}{{ array 1 }}{{ get .d "a" }}{{ isNil nil }}{{ isSet 0 }}{{ isZero 0 }}{{ isEmpty "" }}`, `{{ set .d "w" # }}{{ .d.w }}`, `{{ unset .d "a" }}{{ toJson .d }}`, `{{ key (dict "a" 1) }}{{ string "x" }}{{ undef 3 .none }}{{ content 3 }}{{ removeEmpty (list "" 1) }}{{ removeNil (list nil 1) }}{{ lenc "é" }}{{ intersect .s (list "x") }}{{ without .s (list "x") }}{{ union .s (list "w") }}{{ has .s "x" }}{{ pick .d "a" }}{{ omit .d "a" }}{{ pickv .d "m" "a" }}`, `{{ math "1+#" }}`, `{{ "text" | md5 }}`, `{{ raise "oops#" }}`, `{{ fail "failed #" }}`, `{{ .none.x }}`, `{{ undefinedFunc# }}`, "{{ add 1 2 }}\n{{ fail `1` }}\n{{ fail `2` }}", `{{ assertWarning false "careful #" }}`, `{{ httpDoc "http://nowhere#/" }}`, `{{ formatDate "2006" 0 }}`,
}

func parText(r *rng, theme []string, w int, i int, lead string) string {
	var b strings.Builder
	if lead != "" && r.p(50) { // nothing else, for the shortest way to it
		return strings.ReplaceAll(lead, "#", itoa(w))
	}
	if lead != "" && r.p(50) {
		b.WriteString(strings.ReplaceAll(lead, "#", itoa(w)) + "\n")
	}
	b.WriteString(pickS(r, histHeads))
	for k := r.rangeN(1, 6); k > 0; k-- {
		switch x := r.n(100); {
		case x < 12:
			b.WriteString(histNumber(pickS(r, histChanges), i))
		case x < 20:
			b.WriteString(histNumber(pickS(r, histFailures), i))
		case x < 30:
			b.WriteString(histNumber(pickS(r, histProbes), i))
		default:
			b.WriteString(strings.ReplaceAll(pickS(r, theme), "#", itoa(w)))
		}
		b.WriteString(pick(r, "\n", "\n", " "))
	}
	return b.String()
}

// points between two scheduling decisions, or locks taken when negative, by
// priority from -1000 (see SchedStart)
var parQuanta = []int{3, 10, 30, 100, 300, 300, 1000, 1000, 3000, 10000, -1, -2, -3, -5, -5, -8, -10, -10, -20, -1003, -1005, -1008, -1010, -1012, -1020, -1020, -1040}

func parCase(r *rng, idx int) (*World, *Script) {
	w := envWorld(r)
	w.Patterns, w.Print, w.Cwd, w.Target = nil, false, "/w", ""
	w.Files = append(w.Files, textFile("/w/inc/mut.inc", "{{ set . \"v1\" \"by include\" }}mut"), textFile("/w/inc/show.inc", "{{ toJson . }}"), textFile("/w/inc/def.inc", "{{ define \"incdef\" }}x{{ end }}def {{ add 1 1 }}"))
	n := pick(r, 2, 2, 2, 3, 3, 4, 6)
	lead, theme := "", parFrags // the workers often do the same kind of things
	if r.p(65) {
		lead = parFrags[idx%len(parFrags)]
		theme = []string{lead}
		for k := r.rangeN(1, 8); k > 0; k-- {
			theme = append(theme, pickS(r, parFrags))
		}
	}
	common := pick(r, "", "", "", parText(r, theme, 0, 0, lead)) // every worker does the same
	par := LStep{Op: "par", Seed: r.next() >> 1, Quantum: pickS(r, parQuanta)}
	// so that they do the same kind of things at about the same time
	meet, meetOften := r.p(75), r.p(40)
	for k := 0; k < n; k++ {
		dir := fmt.Sprintf("/w/w%d", k)
		w.Files = append(w.Files, textFile(dir+"/local.inc", fmt.Sprintf("local %d {{ toJson .d }}", k)))
		if r.p(15) {
			w.Files = append(w.Files, textFile(dir+"/ext.gte", fmt.Sprintf("{{ func \"ext%d\" \"include\" `{{ .p }}` (dict \"args\" (list \"p\")) }}{{ define \"exttpl\" }}E{{ end }}", k)))
		}
		var steps []LStep
		for m := pick(r, 1, 1, 2); m > 0; m-- {
			opts := map[string]bool{}
			for _, o := range []string{"strict", "novalue", "disabled", "overwrite"} {
				if r.p(10) {
					opts[o] = true
				}
			}
			for _, o := range []string{"razor", "extension", "math", "sprig", "logging", "runtime", "utils", "net", "os", "git"} {
				if r.p(3) {
					opts[o] = false
				}
			}
			steps = append(steps, LStep{Op: "new", ID: "t", Folder: dir, Options: opts, Context: histContext(), Delims: pick(r, "", "", "", "", "{{,}},@", "<<,>>"), Subs: pickS(r, [][]string{nil, nil, nil, {"/zzz/yyy"}})})
			for q := r.rangeN(1, 3); q > 0; q-- {
				if meet && (len(steps) == 1 || meetOften) {
					steps = append(steps, LStep{Op: "barrier"})
				}
				i := 10*k + q
				text := parText(r, theme, k, i, lead)
				if common != "" {
					text = common
				}
				p := path.Join(dir, fmt.Sprintf("t%d_%d%s", m, q, pick(r, ".txt.gt", ".template", ".txt")))
				switch r.n(5) {
				case 0:
					w.Files = append(w.Files, textFile(p, text))
					steps = append(steps, LStep{Op: "templates", ID: "t", Src: dir, Tgt: pick(r, dir, dir+"/out"), Files: []string{p}})
				case 1:
					w.Files = append(w.Files, textFile(p, text))
					steps = append(steps, LStep{Op: "template", ID: "t", Src: dir, Tgt: pick(r, dir, dir+"/out"), Files: []string{p}})
				default:
					steps = append(steps, LStep{Op: "content", ID: "t", Text: text, Src: pick(r, p, "x.gt")})
				}
			}
			if r.p(10) {
				steps = append(steps, LStep{Op: pick(r, "dump", "print"), ID: "t"})
			}
		}
		par.Workers = append(par.Workers, steps)
	}
	return w, &Script{Steps: []LStep{par}}
}

// parAlone is what every worker does alone in a process.
type parAlone struct {
	done, bad bool
	outs      [][]LOut
	changes   map[string]string
}

func (a *parAlone) run(b *Bench, w *World, par *LStep) {
	a.done, a.changes = true, map[string]string{}
	for _, steps := range par.Workers {
		o, outs := b.runScript(b.lib, w, &Script{Steps: []LStep{{Op: "par", Workers: [][]LStep{steps}, Seed: 1, Quantum: 1000000}}}, nil)
		if o.Fatal || o.Timeout || o.End != simk.EndExit || len(outs) != 1 || len(outs[0].Workers) != 1 {
			a.bad = true
			return
		}
		a.outs = append(a.outs, outs[0].Workers[0])
		for p, x := range changesOf(w, o) {
			a.changes[p] = x
		}
	}
}

func evalPar(b *Bench, c *Case) *Violation {
	w := c.W
	if len(c.Script.Steps) != 1 || c.Script.Steps[0].Op != "par" || len(c.Script.Steps[0].Workers) == 0 {
		return nil
	}
	par := &c.Script.Steps[0]
	if c.alone == nil {
		c.alone = &parAlone{}
	}
	if !c.alone.done {
		c.alone.run(b, w, par)
	}
	if c.alone.bad {
		return nil // other properties
	}
	alone, changes := c.alone.outs, c.alone.changes
	o, outs := b.runScript(b.libRace, w, c.Script, nil)
	b.sample(c, o)
	fail := func(class, format string, a ...any) *Violation {
		return &Violation{Class: class, Msg: fmt.Sprintf(format, a...), Trace: o.Trace}
	}
	races, logFormat := splitRaces(o.RealErr)
	if os.Getenv("TRACE") != "" && strings.Contains(o.RealErr, "DATA RACE") {
		fmt.Println(o.RealErr)
	}
	switch {
	case len(races) > 0:
		return fail("race", "data race: %s", raceSites(races[0]))
	case o.Fatal:
		return fail("fatal", "the process dies: %s", clip(o.RealErr))
	case o.Timeout:
		return fail("deadlock", "no end within the watchdog")
	case o.End != simk.EndExit:
		return fail("fatal", "%s", abnormal(o))
	case len(outs) != 1:
		return nil
	case outs[0].Dead:
		return fail("deadlock", "the workers wait for each other for ever")
	}
	if os.Getenv("TRACE") != "" {
		fmt.Printf("%+v\n%s\n", outs[0], o.Err)
	}
	b.schedule(&outs[0])
	for k := range par.Workers {
		if len(outs[0].Workers[k]) != len(alone[k]) {
			return fail("result", "worker %d did not finish", k)
		}
		for i := range alone[k] {
			x, g := &alone[k][i], &outs[0].Workers[k][i]
			what := fmt.Sprintf("worker %d, step %d (%s)", k, i, g.Op)
			if p, q := same(x.Result), same(g.Result); p != q {
				return fail("result", "%s: another result when other instances work: %s", what, diffAt(p, q))
			}
			if p, q := same(x.Err), same(g.Err); p != q {
				return fail("error", "%s: another error when other instances work: %s", what, diffAt(p, q))
			}
			if p, q := same(x.Panic), same(g.Panic); p != q {
				return fail("panic", "%s: another panic when other instances work: %s", what, diffAt(p, q))
			}
			if p, q := fmt.Sprint(x.Files), fmt.Sprint(g.Files); p != q {
				return fail("files", "%s: other files are reported when other instances work: %s", what, diffAt(p, q))
			}
			for j := range x.Calls {
				if j >= len(g.Calls) || same(x.Calls[j].Result) != same(g.Calls[j].Result) || same(x.Calls[j].Status) != same(g.Calls[j].Status) {
					return fail("call", "%s: the handler is called differently when other instances work", what)
				}
			}
		}
	}
	got := changesOf(w, o)
	for p, x := range changes {
		if g, ok := got[p]; !ok || g != x {
			return fail("files", "%s is different when other instances work: %s", p, diffAt(x, g))
		}
	}
	for p := range got {
		if _, ok := changes[p]; !ok {
			return fail("files", "%s is changed only when other instances work", p)
		}
	}
	if logFormat != "" {
		return fail("race-logformat", "data race: %s", raceSites(logFormat))
	}
	return nil
}

// splitRaces gives the reports of the race detector, those of the formatter of
// the shared loggers (a known finding, in a dependency) set aside.
func splitRaces(s string) (races []string, logFormat string) {
	for _, report := range strings.Split(s, "==================") {
		if !strings.Contains(report, "DATA RACE") {
			continue
		}
		accesses, formatter, kernel := 0, 0, 0
		lines := strings.Split(report, "\n")
		for i, l := range lines {
			t := strings.ToLower(strings.TrimSpace(l))
			t = strings.TrimPrefix(t, "previous ")
			if !strings.HasPrefix(t, "read at ") && !strings.HasPrefix(t, "write at ") || i+1 == len(lines) {
				continue
			}
			accesses++
			j := i + 1
			for ; j+2 < len(lines) && strings.HasPrefix(strings.TrimSpace(lines[j]), "runtime."); j += 2 {
			}
			switch top := strings.TrimSpace(lines[j]); {
			case strings.HasPrefix(top, "github.com/coveooss/multilogger.(*Formatter)."):
				formatter++
			case strings.HasPrefix(top, "internal/simk."):
				kernel++
			}
		}
		if accesses == 2 && formatter == 2 {
			logFormat = report
		} else if accesses == 2 && kernel == 2 {
			// the simulator itself, where a single goroutine works at a time
		} else {
			races = append(races, report)
		}
	}
	return
}

// raceSites gives the functions of a report.
func raceSites(s string) string {
	var out []string
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "Read at") || strings.HasPrefix(t, "Write at") || strings.HasPrefix(t, "Previous") {
			w := strings.Fields(t)
			n := w[0]
			if n == "Previous" {
				n = w[1]
			}
			for j := i + 1; j < len(lines) && strings.TrimSpace(lines[j]) != ""; j++ {
				f := strings.TrimSpace(lines[j])
				if strings.Contains(f, "gotemplate/v3/") {
					f = f[strings.Index(f, "gotemplate/v3/")+14:]
					n += " in " + strings.Split(f, "(0x")[0]
					if j+1 < len(lines) {
						n += " " + path.Base(strings.Fields(strings.TrimSpace(lines[j+1]) + " x")[0])
					}
					break
				}
			}
			out = append(out, n)
		}
	}
	return strings.Join(out, "; ")
}

func init() {
	register(&Prop{
		ID: "C12", Level: "exploration", Needs: "lib race", Quick: 300, Thor: 40000, Real: "template, collections, utils, json, yaml, hcl and their dependencies compiled from the /repo working tree with the race detector, the Go standard library above the system call layer", Stubs: stubCLI + "; the goroutine scheduler between scheduling points (seeded token passing)", Assume: cliAssume,
		Rule: "executions (distinct operation traces) of two to six goroutines with instances of their own, under a seeded schedule and the race detector; each goroutine is compared with the same calls alone in a fresh process",
		Explore: func(b *Bench, r *rng, idx int, eval func(*Case) bool) {
			w, s := parCase(r, idx)
			n := 4
			if b.thorough() {
				n = 12
			}
			alone := &parAlone{}
			for ; n > 0; n-- {
				if !eval(&Case{Kind: "par", W: w, Script: s, alone: alone}) {
					return
				}
				x := *s
				x.Steps = append([]LStep{}, s.Steps...)
				x.Steps[0].Seed, x.Steps[0].Quantum = r.next()>>1, pickS(r, parQuanta)
				s = &x
			}
		},
		Eval: evalPar,
	})
}
