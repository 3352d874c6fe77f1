package main

import (
	"fmt"
	"path"
	"regexp"
	"strings"
	"sync"
	"verifsim/simk"
)

// ---------------------------------------------------------------- C19

var soupTokens = []string{
	"{{", "}}", "{{-", "-}}", "{{ if ", "{{ else }}", "{{ else if }}", "{{ end }}", "{{end}}", "{{ range ", "{{ with ", "{{ define \"d1\" }}", "{{ template \"d1\" . }}", "{{ template \"d1\" }}", "{{ block \"b\" . }}", "{{ break }}", "{{ continue }}",
	"{{/*", "*/}}", "{{ /* x */ }}", "{{ .a }}", "{{ .undefined }}", "{{ .a.b.c }}", "{{ $x }}", "{{ $x := 1 }}", "{{ $x = 2 }}", "{{ $ }}", "{{ nil }}", "{{ noSuch }}", "{{ noSuch 1 2 }}", "{{ index . 3 }}", "{{ add 1 }}", "{{ add 1 \"x\" }}", "{{ raise \"soup\" }}", "{{ raise }}", "{{ assert false }}", "{{ div 1 0 }}", "{{ mod 1 0 }}",
	"{{ 1 | 2 }}", "{{ \"unclosed }}", "{{ `raw }}", "{{ 'c }}", "{{ 08 }}", "{{ 1e999 }}", "{{ ( }}", "{{ ) }}", "{{ . . }}", "{{ | }}", "{{ := }}", "{{ , }}", "{{ %s }}", "%s%d%v", "<no value>", "nil", "<nil>",
	"@", "@@", "@.", "@{", "@}", "@(", "@)", "@if (", "@if(a)", "@else", "@elseif (1)", "@end", "@endif", "@for (a := to(1, 3))", "@range(x := list(1, 2))", "@with(a)", "@define(\"z\")", "@include(\"/w/src/other.inc\")", "@{x} := 3", "@x := 4;", "@$x", "@#comment", "@//note", "@/* c */", "@a.b[0]", "@a[", "@a]", "@func(1,", "@\"str\"", "@`", "@-", "@~", "@+", "@1", "@assert(false, \"m\")", "@reduce(", "@a.b(1).c", "@(1 + )", "@(a ? b : c)", "@list(1;2)", "@;", "@", "user@host.com", "@{{ }}", "@set(x, 1)", "@(x := 1)", "@debug", "@alias(\"q\", \"add\", 1)", "@q()", "@<;", "@>;", "@-}}",
	"#! /usr/bin/env gotemplate\n", "#!/bin/sh\n", "gotemplate-pause!", "gotemplate-resume!", "razor-pause!", "razor-resume!", "gotemplate-ignore!", "\\", "\"", "'", "`", "$", "#", "//", "/*", "*/", "==", "!=", "&&", "||", "!", "<", ">", "=", ":=", ";", ",", "(", ")", "[", "]", "{", "}", "~", "\t", "  ", "\r\n", "\x00", "\xff\xfe", "é", "日本", strings.Repeat("{{ noSuch }}", 3),
	"{{ include \"/w/src/other.inc\" }}", "{{ load \"/w/none\" }}", "{{ data \"a: [\" }}", "{{ yaml \"- x\\n y: {\" }}", "{{ hcl \"a = {\" }}", "{{ json \"{\" }}", "{{ toYaml . }}", "{{ len 3 }}", "{{ slice \"abc\" 5 9 }}", "{{ substr 5 1 \"abc\" }}", "{{ regexReplaceAll \"(\" \"a\" \"b\" }}", "{{ repeat -1 \"x\" }}", "{{ trunc -9 \"abc\" }}", "{{ first list }}", "{{ last (list) }}", "{{ splitList \"\" \"\" }}", "{{ printf \"%d\" \"x\" }}", "{{ call 3 }}", "{{ dict 1 }}", "{{ dict \"a\" }}", "{{ set nil \"a\" 1 }}", "{{ get . }}", "{{ merge 1 2 }}", "{{ wrap 0 \"abc def\" }}", "{{ indent -1 \"x\" }}", "{{ center -5 \"x\" }}", "{{ until -3 }}", "{{ untilStep 1 5 0 }}", "{{ chunk 0 (list 1) }}", "{{ without }}", "{{ nindent 2 }}", "{{ alias \"loop\" \"loop2\" }}", "{{ loop }}", "{{ func \"f\" 1 }}", "{{ function \"nothing\" }}", "{{ exec \"\" }}", "{{ run \"\" }}", "{{ run }}", "{{ glob \"[\" }}", "{{ exit }}", "{{ substitute \"a\" \"/(/b\" }}", "{{ templates }}", "{{ ellipsis \"add\" 1 }}", "{{ current }}", "{{ pwd }}", "{{ categories }}", "{{ getMethods nil }}", "{{ getAttributes nil }}", "{{ max }}", "{{ min }}", "{{ avg }}", "{{ sum }}", "{{ to 1 }}", "{{ hex \"z\" }}", "{{ dec \"z\" }}", "{{ lshift 1 -1 }}", "{{ rshift 1 -2 }}", "{{ pow10 400 }}", "{{ fromYaml \"a: *x\" }}", "{{ toDate \"x\" \"y\" }}", "{{ date \"x\" \"y\" }}", "{{ ago 3 }}", "{{ duration \"x\" }}", "{{ semver \"x\" }}", "{{ genCA }}", "{{ b64dec \"***\" }}", "{{ pick nil \"a\" }}", "{{ omit nil }}", "{{ keys nil }}", "{{ values 3 }}", "{{ contains nil 1 }}", "{{ key nil }}", "{{ extract nil }}", "{{ find nil 1 }}", "{{ undef nil }}", "{{ unique nil }}", "{{ join nil nil }}", "{{ formatList \"%d\" nil }}", "{{ ternary }}", "{{ iif 1 2 3 }}", "{{ char -1 }}", "{{ char \"ab\" }}", "{{ nbChars nil }}", "{{ bool \"maybe\" }}", "{{ int \"x\" }}", "{{ array nil }}", "{{ string nil }}", "{{ initial nil }}", "{{ rest nil }}", "{{ reverse nil }}", "{{ append nil 1 }}", "{{ prepend nil 1 }}", "{{ pop nil }}", "{{ unset nil 1 }}", "{{ safeIndex }}", "{{ diff 1 2 }}", "{{ color }}", "{{ color \"nocolor\" \"x\" }}", "{{ joinLines nil }}", "{{ mergeList nil }}", "{{ sprintf }}", "{{ save \"\" 1 }}", "{{ lookPath \"\" }}", "{{ fileMode \"\" }}", "{{ stat \"\" }}", "{{ isDir \"\" }}", "{{ joinPath }}", "{{ username }}", "{{ bits 3 }}", "{{ autoWrap }}", "@autoWrap(", "@<aWrap>(1)", "@aWrap(", "{{ wrapSprig 0 \"x\" }}", "{{ seq 1 2 0 }}", "{{ derive \"\" \"\" \"\" \"\" }}", "{{ dig \"a\" }}", "{{ fail \"x\" }}", "{{ hello }}", "{{ randInt 5 5 }}", "{{ shuffle \"\" }}", "{{ urlParse \"::\" }}", "{{ getHostByName \"\" }}", "{{ sizeof nil }}", "{{ bcrypt \"\" }}", "{{ env \"\" }}", "{{ expandenv \"$\" }}", "{{ osBase nil }}", "{{ toString nil }}", "{{ kindOf nil }}", "{{ typeOf nil }}", "{{ deepEqual nil nil }}", "{{ cat nil }}", "{{ plural }}", "{{ snakecase nil }}", "{{ abbrev 1 \"abc\" }}", "{{ abbrevboth 1 1 \"abc\" }}", "{{ initials \"\" }}", "{{ mustRegexMatch \"(\" \"x\" }}", "{{ regexFind \"[\" \"\" }}",
}

var corpusLines = sync.OnceValue(func() (l []string) {
	ents, _ := corpusFS.ReadDir("corpus")
	for _, e := range ents {
		b, _ := corpusFS.ReadFile("corpus/" + e.Name())
		l = append(l, strings.SplitAfter(string(b), "\n")...)
	}
	return
})

// mutated is valid text with a few random edits.
func mutated(r *rng) string {
	lines := corpusLines()
	var b strings.Builder
	if r.p(50) {
		b.WriteString(dictDefs + "\n")
	}
	if r.p(50) {
		at := r.n(len(lines))
		for _, l := range lines[at:min(len(lines), at+r.rangeN(1, 40))] {
			b.WriteString(l)
		}
	} else {
		for k := r.rangeN(1, 8); k > 0; k-- {
			b.WriteString(pickS(r, mapExprs) + pick(r, "\n", " "))
		}
	}
	t := []byte(b.String())
	for k := r.n(6); k > 0 && len(t) > 2; k-- {
		i := r.n(len(t))
		j := min(len(t), i+r.rangeN(1, 12))
		switch r.n(5) {
		case 0: // removed
			t = append(t[:i:i], t[j:]...)
		case 1: // repeated
			t = append(t[:j:j], append(append([]byte{}, t[i:j]...), t[j:]...)...)
		case 2: // a token is added
			t = append(t[:i:i], append([]byte(pickS(r, soupTokens)), t[i:]...)...)
		case 3: // changed
			t[i] = pick(r, byte('{'), '}', '@', '(', ')', '"', '`', '\n', '|', '.', '$', ' ', 0, 0xff, '9', '-')
		default: // exchanged
			t[i], t[j-1] = t[j-1], t[i]
		}
	}
	return string(t)
}

func soup(r *rng) string {
	if r.p(40) {
		return mutated(r)
	}
	var b strings.Builder
	n := r.rangeN(1, pick(r, 6, 20, 60))
	for i := 0; i < n; i++ {
		b.WriteString(pickS(r, soupTokens))
		b.WriteString(pick(r, "", "", " ", "\n", "\n", " text ", "\n\n"))
	}
	return b.String()
}

var dataSoup = []string{"a: 1\n", "a = 1\n", "{", "}", "[", "]", "\"a\": ", "- x\n", ": ", "&x ", "*x ", "<<: *x\n", "!!binary |\n", "---\n", "...\n", "? ", "| \n", "> \n", "\t", "  ", "block \"b\" {\n", "}\n", "x = \"${y}\"\n", "<<EOF\n", "EOF\n", "null", "~", "1e999", "0x", ",", "'", "\"", "#c\n", "//c\n", "/*", "*/", "\x00", "\xff", "é", "a.b.c: 1\n", "true", "2001-01-01", "\\u12", "{{ add 1 }}", "%YAML 9\n", "%TAG ! x\n", "[[[[[[[[", "{{{{", "a: [1, 2\n", "b: {c: d\n", "= =\n", "k = [\n", "k { k { k {\n"}

func dataGarbage(r *rng) string {
	var b strings.Builder
	for i := r.rangeN(1, 14); i > 0; i-- {
		b.WriteString(pickS(r, dataSoup))
	}
	return b.String()
}

func soupWorld(r *rng) *World {
	var bodies [][]Frag
	for i := r.rangeN(1, 3); i > 0; i-- {
		bodies = append(bodies, []Frag{lit(soup(r))})
	}
	w := envWorld(r, bodies...)
	w.Files = append(w.Files, textFile("/w/src/other.inc", strings.ReplaceAll(soup(r), "other.inc", "none.inc"))) // unbounded self inclusion is out of scope
	if r.p(40) {
		for i := range w.Files {
			if strings.HasSuffix(w.Files[i].Path, ".gt") && r.p(50) {
				w.Files[i].Path = strings.TrimSuffix(w.Files[i].Path, ".gt")
				w.Patterns = []string{"*.txt"}
			}
		}
	}
	w.Strict, w.AcceptNo = r.p(20), r.p(20)
	if r.p(20) {
		w.Files = append(w.Files, textFile("/w/src/ext.gte", soup(r)))
	}
	if r.p(25) {
		p := "/w/in/bad" + pick(r, ".yaml", ".json", ".hcl", ".tfvars", ".txt", "")
		w.Files = append(w.Files, textFile(p, dataGarbage(r)))
		w.Imports = append(w.Imports, p)
	}
	if r.p(20) {
		w.Vars = append(w.Vars, KV{pick(r, "a", "a.b", ".", "", "x y", "a..b"), strings.ReplaceAll(dataGarbage(r), "\x00", "")})
	}
	if r.p(15) {
		w.Extra = append(w.Extra, pick(r, "--razor", "--no-razor", "--delimiters=<<,>>,%", "--delimiters=[,],@", "--substitute=/{{/<</", "--substitute=/\\n/x/", "--no-extension", "--base", "--ignore-missing-import", "-t=Yaml", "-t=Json", "-t=Hcl", "-t=None", "--disable"))
	}
	if r.p(10) {
		w.Env = append(w.Env, pick(r, "GOTEMPLATE_DEBUG=1", "GOTEMPLATE_IGNORE_RAZOR=1", "GOTEMPLATE_NO_VALUE=1", "GOTEMPLATE_SUBSTITUTES=/a/b", "GOTEMPLATE_SUBSTITUTES=bad"))
	}
	if r.p(20) {
		w.StdinKind, w.Stdin = simk.InPipe, []Frag{lit(soup(r))}
	}
	return w
}

// What the reports of errors and the retries after them have to cope with; # is a
// number, F the name of the template.
var errorFrags = []string{
	"{{\n  $undef#\n}}", "{{ print\n $u#\n \"x\" }}", "{{ $a := 1 }}{{ $b# }}", "{{ print $u# $u# }}", "$u# {{ print\n\n$u# }}", "{{ \"$u#\" }}{{ print\n$u# }}", "{{ if $zz }}\n{{ end }}", "{{- $u# -}}", "@$u#", "{{ template \"none#\" $u }}",
	"{{ raise `template: F:#:1: executing \"F\" at <x>: boom` }}", "{{ raise `template: F:999: undefined variable \"$x\"` }}", "{{ raise `template: F:0:0: executing \"F\" at <.x>: map has no entry for key \"x\"` }}", "{{ raise `template: F:1:9999: executing \"F\" at <.x>: map has no entry for key \"x\"` }}", "{{ raise `template: /w/none:3: unclosed action started at F:77` }}", "{{ raise `template: F:2: unclosed action started at F:77` }}", "{{ raise `template: F:99999999999999999999:1: x` }}", "{{ raise `template: :0: ` }}", "{{ raise `multi\nline #` }}", "{{ raise \"\" }}", "{{ assert false `template: F:#:3: gone` }}", "{{ fail `template: F:#: gone` }}",
	"{{\n\n.none.x.y\n}}", "{{ .none#.x }}", "{{ .a.b.c }}", "{{\n.a.b\n.c\n}}", "{{ default\n1 .none.x }}", "{{ isNil\n.none.x }}", "{{ assert .none.x `m` }}", "{{ undef `d` .none.x }}", "{{ if .none.x }}a{{ end }}", "{{ range .none.x }}a{{ end }}", "({{ (.none.x) }})",
	"{{ /* unclosed", "{{ \"a\n", "{{ print `a\nb` .x.y }}", "{{", "\n}}", "{{ ", "{{ `raw\n\n\n", "{{ if 1 }}", "{{ end }}", "{{ else }}", "{{ define `q#` }}\n{{ .m.n }}{{ end }}{{ template `q#` dict }}", "{{ define `q#` }}\n{{ add }}\n{{ end }}\n{{ include `q#` }}", "{{ block `blk#` . }}{{ .x.y.z }}{{ end }}",
	"{{ include \"{{ raise \\\"in #\\\" }}\" }}", "{{ include \"\\n\\n\\n\\n\\n\\n\\n\\n\\n{{ .x.y.z }}\" }}", "{{ include \"{{ $u }}\" }}", "{{ include \"\\n\\n{{ add }}\\n\" . }}", "{{ include \"/w/src/other.inc\" }}", "{{ include \"F\" 1 }}{{ raise `self` }}",
	"{{ add }}{{ add }}{{ sub }}", "{{ add 1 `x#` }}", "{{ add 1 2 }}{{ add 1 }}", "{{ index (list 1) # }}", "{{ (list 1).None }}", "{{ slice `abc` 5 # }}", "{{ undefinedFunc# }}", "{{ undefinedFunc# . }} {{ undefinedFunc# . }}", "@undefinedFunc#(1)", "@(1 +)", "@if (", "{{ print\n\n(undefinedFunc#) }}", "{{ 08 }}", "{{ 1 | 2 }}", "{{ nil }}", "{{ data `a: [` }}", "{{ call 3 }}",
	"<RUN_ERROR>", "{{ `<RUN_ERROR>` }}{{ add }}", "\"<UNDEF $u#>\"", "{{ \"<UNDEF $u#>\" }}{{ $u# }}", "ERROR", "{{ raise `<RUN_ERROR>` }}", "{{ print \"<no value>\" .x.y }}", "{{ raise \"<RUN_ERROR>\" }}{{ add }}", "{{ default \"<no value>\" .x.y }}", "{{ raise `<no value>` }}", "<no value>", "{{ .none }}", "text", "{{ add 1 # }}", "\r\n", "é{{ $u }}", "\t{{ .x.y }}\t{{ .x.y }}",
}

func errorWorld(r *rng) *World {
	const name = "/w/src/a.txt.gt"
	w := envWorld(r)
	rel := "src/a.txt.gt"
	if w.Cwd == "/w/src" {
		rel = "a.txt.gt"
	}
	body := func() string {
		frags := errorFrags // the same few, or many of them
		if r.p(50) {
			frags = nil
			for k := r.rangeN(1, 3); k > 0; k-- {
				frags = append(frags, pickS(r, errorFrags))
			}
		}
		var b strings.Builder
		for k := r.rangeN(1, pick(r, 2, 5, 12, 40)); k > 0; k-- {
			b.WriteString(strings.ReplaceAll(pickS(r, frags), "#", itoa(r.n(pick(r, 3, 30)))) + pick(r, "\n", "\n", "\n\n\n", " ", ""))
		}
		return strings.ReplaceAll(b.String(), "F", pick(r, rel, rel, rel, name, "a.txt.gt", "/w/src/other.inc"))
	}
	w.Files = append(w.Files, textFile(name, body()), textFile("/w/src/other.inc", strings.NewReplacer(name, "none", "include \""+rel, "include \"none", "/w/src/other.inc", "none").Replace(body())))
	for i := range w.Files {
		if f := &w.Files[i]; f.Path == name {
			f.Frags = []Frag{lit(strings.NewReplacer("{{ include \""+name+"\" 1 }}", "", "{{ include \""+rel+"\" 1 }}", "").Replace(f.Src()))} // unbounded self inclusion is out of scope
		}
	}
	w.Strict, w.AcceptNo = r.p(35), r.p(15)
	if r.p(15) {
		w.Extra = append(w.Extra, pick(r, "--no-razor", "--disable", "--delimiters=<<,>>,%", "--substitute=/\\n/x/"))
	}
	return w
}

// dataWorld renders the same kinds of garbage through the data functions.
func dataWorld(r *rng) *World {
	var fs []Frag
	w := envWorld(r)
	for i := r.rangeN(1, 6); i > 0; i-- {
		p := fmt.Sprintf("/w/data/g%d", i)
		w.Files = append(w.Files, textFile(p, dataGarbage(r)))
		fn := pick(r, "data", "yaml", "hcl", "json", "fromYaml", "fromJson", "data", "xml")
		to := pick(r, "", " | toYaml", " | toHcl", " | toJson", " | toTFVars", " | toPrettyHcl", " | toBash", " | len", " | keys")
		fs = append(fs, lit(fmt.Sprintf("{{ %s (load \"%s\")%s }}\n", fn, p, to)))
	}
	w.Files = append(w.Files, WFile{Path: "/w/src/a.txt.gt", Mode: 0644, Frags: fs})
	return w
}

// linkWorld: folders with loops.
func linkWorld(r *rng) *World {
	w, _ := treeWorld(r)
	w.Recursive, w.Depth, w.Follow = true, 0, r.p(80)
	for i := r.rangeN(1, 6); i > 0; i-- {
		d := "/w/src"
		if len(w.Dirs) > 0 && r.p(70) {
			d = pickS(r, w.Dirs)
		}
		t := pick(r, ".", "..", "/w/src", "/w", "loop"+itoa(r.n(6)), "./loop1/x", d, path.Dir(d))
		w.Files = append(w.Files, WFile{Path: path.Join(d, "loop"+itoa(i)), Mode: 0777, Link: t})
	}
	return w
}

var runtimeFault = regexp.MustCompile(`runtime error[^\n]*\n+goroutine `)

func evalC19(b *Bench, c *Case) *Violation {
	w := c.W
	var ref *RunOut
	if len(c.Faults) > 0 {
		ref = b.runWorld(w, nil)
	}
	p := w.plan()
	p.Faults, p.MaxSteps = c.Faults, 300000
	o := b.exec(b.cli, p)
	b.sample(c, o)
	fail := func(class, format string, a ...any) *Violation {
		return &Violation{Class: class, Msg: fmt.Sprintf(format, a...), Trace: tail(o.Trace, 400)}
	}
	if a := abnormal(o); a != "" {
		return fail("abnormal", "%s", a)
	}
	if s := string(o.Err); runtimeFault.MatchString(s) || strings.Contains(s, "stack overflow") {
		return fail("runtime", "the run was aborted by a runtime fault: %s", clipN(s, 1500))
	}
	n := len(o.Trace)
	if ref != nil {
		if abnormal(ref) == "" {
			if max := 6*len(ref.Trace) + 8*len(effective(o)) + 500; n > max {
				return fail("work", "%d operations; the undisturbed run takes %d and %d operations were disturbed", n, len(ref.Trace), len(effective(o)))
			}
		}
		return nil
	}
	lines := 0
	for i := range w.Files {
		s := w.Files[i].Src()
		lines += 1 + strings.Count(s, "\n") + strings.Count(s, "{{") + strings.Count(s, "@")
	}
	if max := 4000 + 60*lines; c.Kind == "soup" && n > max {
		return fail("work", "%d operations for templates of %d lines and actions", n, lines)
	}
	return nil
}

func tail(tr []simk.Event, n int) []simk.Event {
	if len(tr) > n {
		return tr[len(tr)-n:]
	}
	return tr
}

func init() {
	register(&Prop{
		ID: "C19", Level: "exploration", Needs: "cli", Quick: 700, Thor: 200000, Real: realCLI, Stubs: stubCLI, Assume: cliAssume,
		Rule: "executions (distinct operation traces) that were disturbed by at least one failed, interrupted or shortened operation; half of the worlds are templates, data and folders malformed at random",
		Explore: func(b *Bench, r *rng, idx int, eval func(*Case) bool) {
			n := 8
			if b.thorough() {
				n = 24
			}
			var w *World
			switch idx % 8 {
			case 0, 1, 2, 3:
				if w = soupWorld(r); r.p(40) {
					w = errorWorld(r)
				}
				if !eval(&Case{Kind: "soup", W: w}) {
					return
				}
				n /= 3
			case 4:
				w = dataWorld(r)
				if !eval(&Case{Kind: "soup", W: w}) {
					return
				}
				n /= 3
			case 5:
				w = linkWorld(r)
				if !eval(&Case{Kind: "links", W: w}) {
					return
				}
			case 6:
				w = cmdWorld(r, false, r.p(50))
			default:
				p := defaultProfile()
				p.Errors, p.Save, p.Log, p.Terraform = r.p(60), 10, 20, 20
				w = cliWorld(r, p, nil)
				if r.p(40) && w.StdinKind != simk.InPipe {
					w.StdinKind, w.Stdin = simk.InPipe, []Frag{lit(soup(r))}
				}
			}
			o := b.runWorld(w, nil)
			if abnormal(o) != "" {
				eval(&Case{Kind: "links", W: w})
				return
			}
			m := &faultMix{errno: 6, torn: 1, short: 2, eintr: 3}
			singles := sampleFaults(r, o.Trace, m, n)
			for _, fs := range singles {
				for i := range fs {
					f := &fs[i]
					switch {
					case f.Kind == simk.FErrno && f.Arg == int64(simk.EINTR):
						f.Count = pick(r, 1, 3, 50, 300)
					case f.Kind == simk.FErrno && r.p(50):
						f.Count = 1 << 20
						if r.p(50) {
							f.Path = "" // every such operation from then on
						}
					case f.Kind == simk.FShort:
						f.Arg, f.Count = 1, pick(r, 1, 20, 3000)
						if r.p(50) {
							f.Path = ""
						}
					}
				}
				if !eval(&Case{Kind: "faulted", W: w, Faults: fs}) {
					return
				}
			}
			// every operation of a kind fails from then on
			byOp := map[uint8][]int{}
			var ops []uint8
			for i := range o.Trace {
				op := uint8(o.Trace[i].Op)
				if byOp[op] == nil {
					ops = append(ops, op)
				}
				byOp[op] = append(byOp[op], i)
			}
			shuffle(r, ops)
			for _, op := range ops[:min(len(ops), n/2)] {
				for tries := 0; tries < 5; tries++ {
					f, ok := randFault(r, o.Trace, pickS(r, byOp[op]), &faultMix{errno: 1})
					if !ok || f.Arg == int64(simk.EINTR) {
						continue
					}
					f.Path, f.Count = "", 1<<20
					if !eval(&Case{Kind: "faulted", W: w, Faults: []simk.Fault{f}}) {
						return
					}
					break
				}
			}
			for _, fs := range combine(r, singles, n/2, 6) {
				if !eval(&Case{Kind: "faulted", W: w, Faults: fs}) {
					return
				}
			}
		},
		Eval: evalC19,
	})
}
