package main

import (
	"bytes"
	"embed"
	"fmt"
	"path"
	"regexp"
	"strings"
	"verifsim/simk"
)

//go:embed corpus
var corpusFS embed.FS

// ---------------------------------------------------------------- C11

// exprs build values from maps, in every way in which an order could leak.
var dictDefs = `{{ $d := dict "k1" 1 "k2" "two" "k3" (list 3 "x" 2) "k4" (dict "z" 1 "y" 2 "x" (dict "q" 1 "p" 2 "o" 3)) "k5" true "k6" 6.5 "k7" nil "aa" "b" "Zz" 1 "a b" 2 "k10" 10 "k-dash" 3 }}{{ $e := dict "k1" 100 "n1" 1 "n2" 2 "n3" (dict "e" 1 "d" 2) "k4" (dict "w" 0 "x" (dict "m" 9 "n" 8)) }}{{ $l := list (dict "b" 1 "a" 2) (dict "d" 1 "c" 2) 5 "s" }}`

var mapExprs = []string{
	`{{ $d }}`, `{{ toJson $d }}`, `{{ toPrettyJson $d }}`, `{{ toYaml $d }}`, `{{ toHcl $d }}`, `{{ toPrettyHcl $d }}`, `{{ toInternalHcl $d }}`, `{{ toQuotedJson $d }}`, `{{ toQuotedHcl $d }}`,
	`{{ toTFVars $d }}`, `{{ toPrettyTFVars $d }}`, `{{ toQuotedTFVars $d }}`, `{{ toBash $d }}`, `{{ toBash $l }}`, `{{ range $k, $v := $d }}{{ $k }}={{ $v }};{{ end }}`, `{{ range $d }}{{ . }};{{ end }}`, `{{ keys $d }}`, `{{ values $d }}`,
	`{{ merge $d $e }}`, `{{ toJson (merge $e $d) }}`, `{{ $d.Merge $e }}`, `{{ omit $d "k1" "k4" }}`, `{{ pick $d "k5" "k2" "k3" "k1" }}`, `{{ pickv $d "msg" "k5" "k2" }}`, `{{ extract $d "k1" "k6" "none" }}`, `{{ pluck "k1" $d $e }}`, `{{ slice $d "k1" "k9" }}`,
	`{{ $d.Keys }}`, `{{ $d.Values }}`, `{{ $d.KeysAsString }}`, `{{ $d.GetKeys }}`, `{{ $d.GetValues }}`, `{{ $d.Transpose }}`, `{{ $e.Transpose }}`, `{{ $d.Flush }}`, `{{ $d.Pop "k1" "k2" }}`, `{{ $d.Omit "k1" }}`, `{{ $d.PrettyPrint }}`, `{{ $d.String }}`, `{{ $d.Native }}`,
	`{{ key $e.n3 }}{{ content $e.n3 }}`, `{{ removeEmpty $d }}`, `{{ removeNil $d }}`, `{{ unique (values $d) }}`, `{{ string $d }}`, `{{ array $d }}`, `{{ find (values $d) 1 }}`, `{{ reverse (keys $d) }}`, `{{ union (keys $d) (keys $e) }}`, `{{ intersect (keys $d) (keys $e) }}`, `{{ without (keys $d) "k1" }}`,
	`{{ $l }}`, `{{ toYaml $l }}`, `{{ toHcl $l }}`, `{{ toJson $l }}`, `{{ join "," $l }}`, `{{ joinLines $l }}`, `{{ formatList "<%v>" $l }}`, `{{ mergeList (list 1 2) (list 3) }}`, `{{ printf "%v" $d }}`, `{{ printf "%s" $e }}`, `{{ print $d }}`, `{{ println $e }}`,
	`{{ functions }}`, `{{ allFunctions }}`, `{{ aliases }}`, `{{ toYaml categories }}`, `{{ categories }}`, `{{ templateNames }}`, `{{ range templates }}{{ .Name }};{{ end }}`, `{{ . }}`, `{{ toJson . }}`, `{{ toYaml $ }}`, `{{ range $k, $v := . }}{{ $k }};{{ end }}`, `{{ userContext }}`,
	`{{ data "{a: 1, c: 2, b: {z: 1, y: 2}}" }}`, `{{ data "a = 1\nz = 2\nb { y = 1\n x = 2 }" }}`, `{{ yaml "b: 1\na: 2\nc: {e: 1, d: 2}" }}`, `{{ hcl "b = 1\na = 2" }}`, `{{ json "{\"b\": 1, \"a\": {\"d\": 1, \"c\": 2}}" }}`, `{{ toHcl (data "{a: [1, {x: 1, y: 2}], b: {c: {d: 1}}}") }}`,
	`{{ glob "/w/src/*" }}`, `{{ glob "/w/src/**/*" }}`, `{{ range glob "*" }}{{ . }};{{ end }}`, `{{ set $d "new" 1 }}{{ $d }}`, `{{ unset $d "k1" }}{{ $d }}`, `{{ deepCopy $d }}`, `{{ dig "k4" "x" "p" "none" $d }}`, `{{ mergeOverwrite $e $d }}{{ $e }}`, `{{ toRawJson $d }}`, `{{ toJsonSprig $d }}`, `{{ toPrettyJsonSprig $d }}`,
	`{{ getMethods $d }}`, `{{ getAttributes $l }}`, `{{ getSignature $d "Merge" }}`, `{{ function "run" }}`, `{{ func "tmpf" "join" (dict "args" (list "a" "b")) }}`, `{{ completeExamples }}`, `{{ mode "/w/src" }}`, `{{ size "/w/src/a.txt.gt" }}`, `{{ diff "a b" "a c" }}`, `{{ current }}`, `{{ id "a b!c" }}`, `{{ run "echo -n one ; echo two" }}`, `{{ exec "cat /w/data/map.yaml" }}`, `{{ exec "cat /w/data/map.yaml" | toHcl }}`,
	`{{ include "/w/inc/part.inc" }}`, `{{ substitute "abc" "/b/X" "/c/Y" }}`, `{{ lenc "abc" }}{{ wrap 10 "aa bb cc dd ee ff" }}`, `{{ avg 1 2 3 }}{{ max (values (dict "a" 1 "b" 3 "c" 2)) }}`, `{{ sha256sum (toJson $d) }}`, `{{ define "sub1" }}x{{ end }}{{ define "sub2" }}y{{ end }}{{ template "sub1" }}{{ templateNames }}`,
	`{{ range $i, $x := to 1 5 }}{{ $i }}{{ $x }}{{ end }}`, `{{ color "red" "x" }}`, `{{ default "x" $d.none }}`, `{{ htmlDateInZone 0 "UTC" }}`, `{{ date "2006-01-02" (toDate "2006-01-02" "2020-02-03") }}`, `{{ regexReplaceAll "a" "banana" "o" }}`, `{{ env "HOME" }}{{ expandenv "$USER" }}`, `{{ load "/w/data/map.yaml" }}`, `{{ stat "/w/data/map.yaml" | toString }}`[:0] + `{{ exists "/w/data" }}`,
	`{{ alias "al1" "printf" "%d" 3 }}{{ alias "al2" "printf" "%s" "z" }}{{ aliases }}`, `{{ hasKey $d "k1" }}{{ get $d "none" "dflt" }}`, `{{ initial (keys $d) }}{{ rest (values $e) }}`, `{{ toInternalHcl $l }}`, `{{ $x := $d.Clone }}{{ $x.Set "z0" 1 }}`, `{{ $d.CreateList 3 }}`, `{{ $d.Type }}`, `{{ $d.GetHelpers }}`[:0] + `{{ $d.TypeName }}`,
	`{{ sprigDict "a" 1 }}`, `{{ dictSprig "b" 1 "a" 2 }}`, `{{ toJson (dictSprig "b" 1 "a" 2 "c" 3) }}`, `{{ range $k, $v := dictSprig "b" 1 "a" 2 "c" 3 }}{{ $k }}{{ end }}`, `{{ pickSprig (dictSprig "b" 1 "a" 2 "c" 3) "c" "a" }}`, `{{ mergeSprig (dictSprig "b" 1 "a" 2 "c" 3) (dictSprig "z" 1) }}`, `{{ sortAlpha (keysSprig (dictSprig "b" 1 "a" 2 "c" 3)) }}`,
}

var failExprs = []string{`{{ raise "kaboom" }}`, `{{ .undefinedOne }} {{ .undefinedTwo }}`, `{{ noFunc 1 }}`, `{{ index (list) 3 }}`, `{{ merge $d 3 }}`, `{{ toYaml (merge $d "x") }}`, `{{ $undef }}`, `{{ template "none" }}`, `{{ run "echo x >&2 ; false" }}`, `{{ include "/w/nowhere" }}`, `{{ fail "stop" }}`, `{{ data "{" }}`, `{{ pick $d }}`, `{{ assertWarning false "careful" }}`, `{{ assert false "no" }}`, `{{ warning "w1" }}{{ error "e1" }}{{ info "i1" }}`, `{{ $d.none.deeper }}`}

// orderWorld: templates whose rendering goes through many maps.
func orderWorld(r *rng) *World {
	var bodies [][]Frag
	for i := r.rangeN(1, 4); i > 0; i-- {
		fs := []Frag{lit(dictDefs + "\n")}
		for j := r.rangeN(2, 9); j > 0; j-- {
			fs = append(fs, lit(pickS(r, mapExprs)), lit("\n"))
		}
		if r.p(35) {
			for j := r.rangeN(1, 3); j > 0; j-- {
				fs = append(fs, lit(pickS(r, failExprs)), lit("\n"))
			}
		}
		bodies = append(bodies, fs)
	}
	w := envWorld(r, bodies...)
	if r.p(60) {
		w.Print = true
	}
	w.Files = append(w.Files, textFile("/w/data/map.yaml", "zeta: 1\nalpha: {b: 1, a: 2}\nlist: [3, 1, 2]\nmid: x\n"), textFile("/w/inc/part.inc", "{{ dict \"i\" 1 \"h\" 2 \"g\" 3 }}\n"))
	// imports and variables, in several formats
	add := func(p, s string) { w.Files = append(w.Files, textFile(p, s)); w.Imports = append(w.Imports, p) }
	if r.p(60) {
		add("/w/in/one.yaml", "b: 1\na: 2\nmap: {z: 1, y: {k: 1, j: 2}}\nlist: [1, {d: 1, c: 2}]\n")
	}
	if r.p(50) {
		add("/w/in/two.hcl", "a = 3\nq = \"x\"\nmap { z = 5\n w = 6 }\nblock \"one\" { v = 1 }\nblock \"two\" { u = 2 }\n")
	}
	if r.p(50) {
		add("/w/in/three.json", `{"a": {"x": 1}, "map": {"zz": 1, "aa": 2}, "b": [1, 2]}`)
	}
	shuffle(r, w.Imports)
	if r.p(60) {
		for _, k := range []string{"v1", "v2", "map", "a", "v1.sub"} {
			if r.p(60) {
				w.Vars = append(w.Vars, KV{k, pick(r, "1", "text", "{x: 1, y: 2}", "[3, 2, 1]", "/w/data/map.yaml")})
			}
		}
	}
	if r.p(50) {
		// extensions in several folders that define the same names
		text := ""
		for _, d := range pick(r, []string{".", "sub"}, []string{"sub", "aux", "lib"}, []string{"sub", "aux", "lib", "ext", "mod"}, []string{".", "aux", "lib", "mod/in"}) {
			for k := r.rangeN(1, 2); k > 0; k-- {
				w.Files = append(w.Files, textFile(path.Join("/w/src", d, pick(r, "a", "m", "z")+itoa(k)+".gte"), fmt.Sprintf("{{ alias \"fromext1\" \"printf\" \"%%s\" \"%s%d\" }}{{ define \"ext1\" }}E%s%d{{ end }}{{ define \"ext-%s\" }}own{{ template \"ext1\" }}{{ end }}{{ set . \"%s\" \"%s%d\" }}", d, k, d, k, d, pick(r, "shared", "shared2"), d, k)))
			}
			text += fmt.Sprintf("{{ include \"ext-%s\" }} ", d)
		}
		if r.p(50) {
			text = ""
		}
		w.Files[0].Frags = append(w.Files[0].Frags, lit(text+`{{ fromext1 }}{{ template "ext1" }}{{ include "ext1" }}{{ .shared }}{{ .shared2 }}`+"\n"))
	}
	if r.p(35) {
		// keys that are distinct, but that have the same text once converted
		same := [][]string{{"1.0", "1", "0x1"}, {"~", "<nil>"}, {"2.50", "2.5"}, {"10", "1e1"}}
		var doc []string
		for k := r.rangeN(1, 3); k > 0; k-- {
			keys := append([]string(nil), same[r.n(len(same))]...)
			shuffle(r, keys)
			var m []string
			for i, key := range keys {
				m = append(m, fmt.Sprintf("%s: %s", key, pick(r, fmt.Sprintf("v%d", i), fmt.Sprintf("{s: %d}", i), fmt.Sprintf("[%d, 4]", i))))
			}
			doc = append(doc, fmt.Sprintf("k%d: %s{%s, other: z}%s", k, "[", strings.Join(m, ", "), "]"))
		}
		text := strings.Join(doc, "\n") + "\n"
		if r.p(50) {
			add("/w/in/keys.yaml", text)
			w.Files[0].Frags = append(w.Files[0].Frags, lit("{{ toJson .k1 }} {{ toJson . }}\n"))
		} else {
			w.Files[0].Frags = append(w.Files[0].Frags, lit(fmt.Sprintf("{{ toJson (%s %q) }}\n", pick(r, "yaml", "data"), text)))
		}
	}
	if r.p(35) {
		// a function whose definition gives the same thing under several names,
		// or several wrong things
		defs := []string{`"a" (list "p")`, `"args" (list "q")`, `"arguments" (list "r" "p")`, `"d" "one"`, `"desc" "two"`, `"description" "three"`, `"def" (dict "q" 5)`, `"default" (dict "p" 6)`, `"defaults" (dict "r" 7)`, `"g" "G"`, `"group" "H"`}
		if r.p(30) {
			defs = append(defs, `"wrong" 1`, `"bad" 2`, `"aliases" 3`, `"unknown" 4`)
		}
		shuffle(r, defs)
		w.Recursive = true
		w.Files = append(w.Files, textFile("/w/src/0def.gt", fmt.Sprintf("{{ func \"fdef\" \"include\" \"[{{ .p }} {{ .q }} {{ .r }} {{ .ARGS }}]\" (dict %s) }}\n", strings.Join(defs[:r.rangeN(2, len(defs))], " "))),
			textFile("/w/src/zuse/use.gt", "{{ fdef 1 }} {{ fdef 1 2 3 }}\n"))
		if r.p(80) {
			w.Extra = append(w.Extra, "--no-value")
		}
	}
	if r.p(30) {
		w.Extra = append(w.Extra, "-t", pick(r, "Yaml", "Hcl", "Json"))
	}
	if r.p(20) {
		w.Extra = append(w.Extra, "--substitute", "/e/E", "--substitute", "/E/3")
	}
	return w
}

func docWorld(r *rng) *World {
	w := &World{Seed: r.next() >> 1, Cwd: "/w/src", StdinKind: simk.InNull, Target: "/w/out", Recursive: true}
	ents, _ := corpusFS.ReadDir("corpus")
	for _, e := range ents {
		b, _ := corpusFS.ReadFile("corpus/" + e.Name())
		if strings.HasSuffix(e.Name(), ".md") && !r.p(30) {
			continue
		}
		n := e.Name()
		if n == "Data.txt" {
			n = "!Data"
		}
		w.Files = append(w.Files, textFile("/w/src/"+pick(r, "", "", "sub/")+n, string(b)))
	}
	w.Patterns = []string{"*.md"}
	w.Print = r.p(30)
	return w
}

var stamp = regexp.MustCompile(`\d{4}[/-]\d\d[/-]\d\d \d\d:\d\d:\d\d\.\d+`)

// a panic of the logger prints its entry, whose addresses are not part of any result
// (nor are the random names of the temporary files that messages quote)
var address = regexp.MustCompile(`\b0x[0-9a-f]{6,16}\b|\d{6,}`)

func normal(b []byte) string {
	s := tempName.ReplaceAllString(string(b), "/tmp/${1}N")
	return stamp.ReplaceAllString(s, "STAMP")
}

func sameRun(w *World, a, c *RunOut) string {
	if a.End != c.End || a.Code != c.Code {
		return fmt.Sprintf("exit %s %d and %s %d", endNames[a.End], a.Code, endNames[c.End], c.Code)
	}
	if x, y := normal(a.Out), normal(c.Out); x != y {
		return "standard output " + diffAt(x, y)
	}
	x, y := treeOf(a.Nodes).filesOnly(workRoots...), treeOf(c.Nodes).filesOnly(workRoots...)
	for p, e := range x {
		e.Data = normal([]byte(e.Data))
		x[p] = e
	}
	for p, e := range y {
		e.Data = normal([]byte(e.Data))
		y[p] = e
	}
	if d := x.diff(y, true); d != "" {
		return "files: " + d
	}
	if bytes.Contains(a.Err, []byte(" DEBUG ")) || bytes.Contains(a.Err, []byte(" TRACE ")) {
		return "" // diagnostics meant for the developers of the tool
	}
	if x, y := address.ReplaceAllString(normal(a.Err), "ADDR"), address.ReplaceAllString(normal(c.Err), "ADDR"); x != y {
		return "standard error " + diffAt(x, y)
	}
	return ""
}

func diffAt(x, y string) string {
	i := 0
	for i < len(x) && i < len(y) && x[i] == y[i] {
		i++
	}
	lo := max(0, i-60)
	return fmt.Sprintf("%s and %s (byte %d)", quote(clipN(x[lo:], 240)), quote(clipN(y[min(lo, len(y)):], 240)), i)
}

// ---------------------------------------------------------------- C16

// treeWorld: a folder tree of small templates, each with a unique token.
func treeWorld(r *rng) (*World, []string) {
	w := &World{Seed: r.next() >> 1, Cwd: "/w/src", StdinKind: simk.InNull, Print: true}
	dirs := []string{"/w/src"}
	seen := map[string]bool{"/w/src": true}
	for i := r.rangeN(1, pick(r, 4, 12, 30)); i > 0; i-- {
		d := path.Join(pickS(r, dirs), pick(r, "d1", "d2", "d3", "a b", "x.gt", "[q]", "é", "long-"+strings.Repeat("n", 40), ".hid", "sub", "{z}"))
		if len(strings.Split(d, "/")) > 9 || seen[d] {
			continue
		}
		seen[d] = true
		dirs = append(dirs, d)
		w.Dirs = append(w.Dirs, d)
	}
	n := r.rangeN(2, pick(r, 6, 20, 60))
	if r.p(4) {
		n = 400
	}
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		d := pickS(r, dirs)
		f := path.Join(d, pick(r, "a", "b", "c", "data", "x y", "é")+pick(r, "", "1", "2", "3", "44", itoa(i))+pick(r, ".gt", ".gt", ".template", ".txt.gt", ".txt", ".md"))
		if used[f] || seen[f] {
			continue
		}
		used[f] = true
		out := fmt.Sprintf("<tok%d!>\n", i)
		w.Files = append(w.Files, WFile{Path: f, Mode: 0644, Frags: []Frag{{Src: fmt.Sprintf("{{ print \"<tok%d\" }}!>\n", i), Out: out}}})
	}
	switch r.n(5) {
	case 0:
		w.Depth = r.rangeN(1, 5)
	case 1:
	default:
		w.Recursive = true
	}
	if r.p(40) {
		w.Patterns = append(w.Patterns, pick(r, "*.txt", "*.gt,*.txt", "a*", "*.txt,*.txt,a*.txt", "?.gt", "**/*.txt", "d1/*.txt"))
		for strings.Contains(w.Patterns[0], "/") {
			w.Patterns[0] = pick(r, "*.txt", "*.m?", "[ab]*.txt") // patterns with a folder are searched from each folder
		}
	}
	if r.p(25) {
		w.Exclude = append(w.Exclude, pick(r, "*.txt.gt", "**/a*", "d1/**", "sub/*.gt", "**/data.gt, **/*.template"))
	}
	if (w.Recursive) && r.p(30) {
		// symbolic links: cycles, duplicates, dangling
		w.Follow = r.p(60)
		for i := r.rangeN(1, 5); i > 0; i-- {
			p := path.Join(pickS(r, dirs), "ln"+itoa(i))
			t := pickS(r, dirs)
			if r.p(30) {
				t = "/w/other"
			}
			if r.p(40) {
				// folders that have the same name, in different places
				t = pick(r, "/w/other/lib", "/w/more/lib", "/w/more/sub/lib", "/w/more", "/w/other/deep")
			}
			if r.p(20) {
				t = pick(r, "/w/none", "nowhere", "../none/x", "/w/other/far.gt/x")
			}
			if !used[p] {
				used[p] = true
				w.Files = append(w.Files, WFile{Path: p, Mode: 0777, Link: t})
			}
		}
		for i, d := range []string{"/w/other/lib", "/w/more/lib", "/w/more/sub/lib"} {
			w.Files = append(w.Files, WFile{Path: d + "/common.gt", Mode: 0644, Frags: []Frag{{Src: fmt.Sprintf("{{ print \"<tok%d\" }}!>\n", 9990+i), Out: fmt.Sprintf("<tok%d!>\n", 9990+i)}}})
		}
		w.Files = append(w.Files, WFile{Path: "/w/other/far.gt", Mode: 0644, Frags: []Frag{{Src: "{{ print \"<tok9999\" }}!>\n", Out: "<tok9999!>\n"}}}, WFile{Path: "/w/other/deep/far2.gt", Mode: 0644, Frags: []Frag{{Src: "{{ print \"<tok9998\" }}!>\n", Out: "<tok9998!>\n"}}})
	}
	return w, dirs
}

var tokRe = regexp.MustCompile(`<tok(\d+)!>`)

// actorFault: another program changes unrelated entries before a step.
func actorFault(r *rng, w *World, dirs []string, tr []simk.Event, limit int) (simk.Fault, bool) {
	f := simk.Fault{Kind: simk.FActor, Step: r.rangeN(1, max(2, limit))}
	for k := r.rangeN(1, 4); k > 0; k-- {
		d := pickS(r, dirs)
		switch r.n(6) {
		case 0:
			f.Acts = append(f.Acts, simk.Act{Kind: simk.AWrite, P: path.Join(d, fmt.Sprintf("noise%d.gt", r.n(5))), D: []byte(fmt.Sprintf("{{ print \"<tok%d\" }}!>\n", 5000+r.n(900))), M: 0644})
		case 1:
			f.Acts = append(f.Acts, simk.Act{Kind: simk.AMkdir, P: path.Join(d, fmt.Sprintf("noised%d", r.n(5))), M: 0755})
		case 2:
			f.Acts = append(f.Acts, simk.Act{Kind: simk.ARemoveAll, P: path.Join(d, pick(r, "noise0.gt", "noise1.gt", "ndir", "ndir2", "noised1", "nln"))})
		case 3:
			f.Acts = append(f.Acts, simk.Act{Kind: simk.ARename, P: path.Join(d, pick(r, "ndir", "ndir2", "noise0.gt", "nln")), P2: path.Join(d, pick(r, "noised7", "ndir9", "noise8.gt"))})
		case 4:
			f.Acts = append(f.Acts, simk.Act{Kind: simk.ARemove, P: path.Join(d, pick(r, "noise0.gt", "noise1.gt", "ndir/n0.gt", "nln"))})
		default:
			f.Acts = append(f.Acts, simk.Act{Kind: simk.ATouch, P: d})
		}
	}
	return f, true
}

// showsTimes tells whether the templates may show the times of the files.
func showsTimes(w *World) bool {
	for i := range w.Files {
		if s := strings.ToLower(w.Files[i].Src()); strings.Contains(s, "lastmod") || strings.Contains(s, "stat") {
			return true
		}
	}
	return false
}

// addNoise adds entries that an actor may remove, and returns their tokens.
func addNoise(r *rng, w *World, dirs []string) {
	n := 6000
	add := func(p string) {
		n++
		if w.file(p) == nil {
			w.Files = append(w.Files, WFile{Path: p, Mode: 0644, Frags: []Frag{{Src: fmt.Sprintf("{{ print \"<tok%d\" }}!>\n", n), Out: fmt.Sprintf("<tok%d!>\n", n)}}})
		}
	}
	for _, d := range dirs {
		if r.p(60) {
			add(path.Join(d, "noise0.gt"))
		}
		if r.p(30) {
			add(path.Join(d, "noise1.gt"))
		}
		if p := path.Join(d, "nln"); w.Follow && r.p(40) && w.file(p) == nil {
			w.Files = append(w.Files, WFile{Path: p, Mode: 0777, Link: pick(r, "/w/noise", "ndir", "/w/noise/none")})
			add("/w/noise/n2.gt")
		}
		if r.p(50) {
			add(path.Join(d, "ndir/n0.gt"))
			add(path.Join(d, "ndir/in/n1.gt"))
		}
		if r.p(30) {
			w.Dirs = append(w.Dirs, path.Join(d, "ndir2"))
		}
	}
}

func evalC16(b *Bench, c *Case) *Violation {
	w := c.W
	x := w.expect()
	o := b.runWorld(w, c.Faults)
	b.sample(c, o)
	if a := abnormal(o); a != "" {
		return &Violation{Class: "abnormal", Msg: a, Trace: o.Trace}
	}
	if recovered(o) {
		return &Violation{Class: "abort", Msg: "the run was aborted: " + clip(string(o.Err)), Trace: o.Trace}
	}
	got := map[string]int{}
	for _, m := range tokRe.FindAllStringSubmatch(string(o.Out), -1) {
		got[m[1]]++
	}
	if c.Kind == "still" {
		if string(o.Out) != x.Stdout {
			for i := range x.Items {
				it := &x.Items[i]
				m := tokRe.FindStringSubmatch(it.Stdout)
				if m != nil && got[m[1]] != 1 {
					return &Violation{Class: "found", Msg: fmt.Sprintf("%s was processed %d times", it.Abs, got[m[1]]), Trace: o.Trace}
				}
				if m != nil {
					delete(got, m[1])
				}
			}
			for k, n := range got {
				if n > 0 {
					return &Violation{Class: "extra", Msg: "a file that is not selected was processed: token " + k, Trace: o.Trace}
				}
			}
			return &Violation{Class: "order", Msg: diffAt(string(o.Out), x.Stdout), Trace: o.Trace}
		}
		if o.Code != 0 {
			return &Violation{Class: "exit", Msg: fmt.Sprintf("exit %d: %s", o.Code, clip(string(o.Err))), Trace: o.Trace}
		}
		return nil
	}
	want := map[string]string{}
	for i := range x.Items {
		if m := tokRe.FindStringSubmatch(x.Items[i].Stdout); m != nil {
			want[m[1]] = x.Items[i].Abs
		}
	}
	for _, k := range sorted(keysOf(want)) {
		if len(k) == 4 && k[0] == '6' { // noise
			if got[k] > 1 {
				return &Violation{Class: "found", Msg: fmt.Sprintf("%s was processed %d times", want[k], got[k]), Trace: o.Trace}
			}
			delete(got, k)
			continue
		}
		if got[k] != 1 {
			return &Violation{Class: "found", Msg: fmt.Sprintf("%s, present throughout, was processed %d times; exit %d: %s", want[k], got[k], o.Code, clip(string(o.Err))), Trace: o.Trace}
		}
		delete(got, k)
	}
	for k, n := range got {
		if len(k) == 4 && (k[0] == '5' || k[0] == '6') {
			if n > 2 {
				return &Violation{Class: "extra", Msg: "token " + k + " was processed " + itoa(n) + " times", Trace: o.Trace}
			}
			continue
		}
		return &Violation{Class: "extra", Msg: "a file that is not selected was processed: token " + k, Trace: o.Trace}
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C11", Level: "exploration", Needs: "cli", Quick: 900, Thor: 60000, Real: realCLI, Stubs: stubCLI, Assume: cliAssume,
		Rule: "executions (distinct operation traces) in which short transfers were injected; each world is run under several seeds of map iteration, temporary names, directory order, clock and transfer sizes",
		Explore: func(b *Bench, r *rng, idx int, eval func(*Case) bool) {
			var w *World
			switch idx % 8 {
			case 0, 1, 2:
				p := defaultProfile()
				p.Errors, p.Run, p.Print, p.Save = r.p(60), 25, 35, 10
				if r.p(25) {
					p.Terraform = 80
				}
				w = cliWorld(r, p, nil)
				if w.Terraform && r.p(60) {
					for i := range w.Files {
						if strings.Contains(w.Files[i].Path, ".tf") && r.p(40) {
							w.Files[i].Frags = append(w.Files[i].Frags, lit("INVALID\n"))
						}
					}
				}
			case 3, 4, 5:
				w = orderWorld(r)
			case 6:
				w = orderWorld(r)
				w.Bare = pickS(r, append(bareLines, []string{"list", "-l"}, []string{"list", "-c"}, []string{"list", "-a", "-c"}, []string{"list", "-l", "-c", "-a"}, []string{"list", "to"}, []string{"list", "-t", "-a", "-l"}, []string{"--help", "run"}, []string{"help", "list"}, []string{"--var", "b=1", "--var", "a=2", "{{ toJson . }}"}, []string{"--base", "{{ 1 }}"}, []string{"list", "--base"}))
			default:
				w = docWorld(r)
			}
			n := 4
			if b.thorough() {
				n = 12
			}
			for k := 0; k < n; k++ {
				c := &Case{Kind: "pair", W: w, Seeds: []uint64{r.next() >> 1, uint64(r.n(1 << 30))}}
				if k%2 == 1 || r.p(30) {
					ops := uint64(1<<simk.OpRead | 1<<simk.OpWrite | 1<<simk.OpPipeRead | 1<<simk.OpStdout | 1<<simk.OpReaddir | 1<<simk.OpStdin | 1<<simk.OpStderr)
					c.Faults = []simk.Fault{{Ops: ops, Kind: simk.FShort, Arg: pick(r, int64(1), 2, 3, 7, 100, 1000)}}
					if c.Faults[0].Arg < 7 || treeBytes(w) > 50000 {
						c.Faults[0].Skip, c.Faults[0].Count = r.n(200), r.rangeN(1, 2000)
					}
				}
				if !eval(c) {
					return
				}
			}
		},
		Eval: func(b *Bench, c *Case) *Violation {
			a := b.runWorld(c.W, nil)
			v := *c.W
			v.Seed = c.Seeds[0]
			v.Clock += int64(c.Seeds[1]) * 1e9
			if !showsTimes(c.W) {
				v.MTimes = c.Seeds[0]
			}
			o := b.runWorld(&v, c.Faults)
			b.sample(c, o)
			if a.Fatal || a.Timeout || o.Fatal || o.Timeout {
				return &Violation{Class: "abnormal", Msg: abnormal(o)}
			}
			if d := sameRun(c.W, a, o); d != "" {
				return &Violation{Class: "differs", Msg: "two runs of the same command differ: " + d, Trace: o.Trace}
			}
			return nil
		},
	})

	register(&Prop{
		ID: "C16", Level: "exploration", Needs: "cli", Quick: 360, Thor: 60000, Real: realCLI, Stubs: stubCLI, Assume: cliAssume,
		Rule: "executions (distinct operation traces) in which other programs changed the tree during the run, or directory listings were split",
		Explore: func(b *Bench, r *rng, idx int, eval func(*Case) bool) {
			w, dirs := treeWorld(r)
			for k := 0; k < 3; k++ {
				c := *w
				c.Seed = r.next() >> 1 // order of directory listings
				cs := &Case{Kind: "still", W: &c}
				if k > 0 {
					cs.Faults = []simk.Fault{{Ops: 1 << simk.OpReaddir, Kind: simk.FShort, Arg: int64(r.rangeN(1, 3))}}
				}
				if !eval(cs) {
					return
				}
			}
			addNoise(r, w, dirs)
			o := b.runWorld(w, nil)
			first := firstTemplateOpen(w.expect(), o.Trace)
			limit := len(o.Trace)
			if first < len(o.Trace) {
				limit = o.Trace[first].Step
			}
			n := 12
			if b.thorough() {
				n = 40
			}
			for k := 0; k < n; k++ {
				var fs []simk.Fault
				for j := r.rangeN(1, 3); j > 0; j-- {
					if f, ok := actorFault(r, w, dirs, o.Trace, limit+10); ok {
						fs = append(fs, f)
					}
				}
				// aimed: an entry vanishes or appears just before the operation that visits it
				if r.p(60) {
					var cand []int
					for i := 0; i < first; i++ {
						if p := o.Trace[i].Path; strings.Contains(p, "/n") && (strings.Contains(p, "noise") || strings.Contains(p, "ndir")) {
							cand = append(cand, i)
						}
					}
					if len(cand) > 0 {
						e := &o.Trace[pickS(r, cand)]
						p := e.Path
						if k := strings.Index(p, "/ndir"); k >= 0 {
							p = p[:k] + "/" + strings.SplitN(p[k+1:], "/", 2)[0]
						}
						act := simk.Act{Kind: simk.ARemoveAll, P: p}
						if r.p(30) {
							act = simk.Act{Kind: simk.ARename, P: p, P2: p + "moved"}
						}
						fs = append(fs, simk.Fault{Kind: simk.FActor, Step: e.Step, Acts: []simk.Act{act}})
					}
				}
				if !eval(&Case{Kind: "moving", W: w, Faults: fs}) {
					return
				}
			}
		},
		Eval: evalC16,
	})
}
