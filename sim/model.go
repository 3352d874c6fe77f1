package main

import (
	"path"
	"sort"
	"strconv"
	"strings"
	"verifsim/simk"
)

// The reference model: what a run that meets no fault does, according to the
// documentation, computed from the world alone.

// Item is the expected processing of one selected template.
type Item struct {
	Name    string // path relative to the source folder, or "" for code
	Abs     string
	Frags   []Frag
	IsTmpl  bool
	Changed bool
	Result  string
	Status  string // "ok", "error", "ignored"
	Action  string // "none", "write", "print"
	Out     string // absolute result path when written
	Rename  bool
	Remove  bool
	Mode    uint32
	Stdout  string
	Saves   []KV
}

type Expect struct {
	Items  []Item
	Tree   tree // files below the work folders
	Stdout string
	Code   int
	TFDirs map[string]bool
	Outs   map[string]bool // every documented output path
}

func splitPats(ps []string) (r []string) {
	for _, p := range ps {
		for _, x := range strings.Split(p, ",") {
			if x = strings.TrimSpace(x); x != "" {
				r = append(r, x)
			}
		}
	}
	return
}

// globMatch matches one path with ** support, segment by segment.
func globMatch(pat, name string) bool {
	return segMatch(strings.Split(strings.Trim(pat, "/"), "/"), strings.Split(strings.Trim(name, "/"), "/"))
}

func segMatch(p, n []string) bool {
	if len(p) == 0 {
		return len(n) == 0
	}
	if p[0] == "**" {
		for i := 0; i <= len(n); i++ {
			if segMatch(p[1:], n[i:]) {
				return true
			}
		}
		return false
	}
	if len(n) == 0 {
		return false
	}
	ok, _ := path.Match(p[0], n[0])
	return ok && segMatch(p[1:], n[1:])
}

func (w *World) forcedStdin() bool {
	if w.StdinKind == simk.InTTY || w.StdinKind == simk.InNull {
		return false // /dev/null is a character device too
	}
	for _, e := range w.Env {
		if strings.HasPrefix(e, "GOTEMPLATE_NO_STDIN=") && e != "GOTEMPLATE_NO_STDIN=" {
			for _, x := range w.Extra {
				if x == "--stdin" {
					return true
				}
			}
			return false
		}
	}
	return true
}

// selected lists the template files found by patterns, in processing order.
func (w *World) selected() (r []string) {
	src := w.srcDir()
	pats := splitPats(w.Patterns)
	if !w.forcedStdin() && len(w.ArgFiles) == 0 && len(w.ArgCode) == 0 {
		pats = append(pats, "*.gt", "*.template")
	}
	// directories in walk order
	dirs := map[string]bool{src: true}
	files := map[string]bool{}
	links := map[string]string{}
	addDir := func(d string) {
		for d != "/" && d != "." {
			dirs[d] = true
			d = path.Dir(d)
		}
	}
	for _, d := range w.Dirs {
		addDir(d)
	}
	for i := range w.Files {
		f := &w.Files[i]
		addDir(path.Dir(f.Path))
		files[f.Path] = true
		if f.Link != "" {
			links[f.Path] = absIn(path.Dir(f.Path), f.Link)
		}
	}
	depth := w.Depth
	if w.Recursive && depth == 0 {
		depth = 1 << 16
	}
	seen := map[string]bool{}
	add := func(dir string) {
		for _, p := range pats {
			var m []string
			for f := range files {
				if strings.Contains(p, "/") {
					if globMatch(path.Join(dir, p), f) {
						m = append(m, f)
					}
				} else if path.Dir(f) == dir {
					if ok, _ := path.Match(p, path.Base(f)); ok {
						m = append(m, f)
					}
				}
			}
			sort.Strings(m)
			for _, f := range m {
				if !seen[f] {
					seen[f] = true
					r = append(r, f)
				}
			}
		}
	}
	roots := map[string]bool{}
	var walk func(root string)
	walk = func(root string) {
		if roots[root] {
			return
		}
		roots[root] = true
		add(root)
		if depth == 0 {
			return
		}
		var rec func(d string)
		rec = func(d string) {
			var names []string
			for x := range dirs {
				if path.Dir(x) == d && x != d {
					names = append(names, path.Base(x))
				}
			}
			for x := range files {
				if path.Dir(x) == d {
					names = append(names, path.Base(x))
				}
			}
			sort.Strings(names)
			for _, n := range names {
				c := path.Join(d, n)
				if dirs[c] {
					rel := strings.TrimPrefix(c, root+"/")
					if strings.Count(rel, "/")+1 > depth {
						continue
					}
					add(c)
					rec(c)
				} else if t, ok := links[c]; ok && w.Follow && dirs[t] {
					walk(t)
				}
			}
		}
		rec(root)
	}
	walk(src)
	return
}

func (w *World) excluded(p string) bool {
	for _, e := range splitPats(w.Exclude) {
		if globMatch(absIn(w.srcDir(), e), p) {
			return true
		}
	}
	return false
}

func hasCode(s string) bool {
	if strings.Contains(s, "no-gotemplate!") {
		return false
	}
	return strings.Contains(s, "{{") || strings.Contains(s, "}}") || strings.Contains(s, "@")
}

func isTemplateName(p string) bool {
	return strings.HasSuffix(p, ".gt") || strings.HasSuffix(p, ".template")
}

func isShebang(s string) bool {
	return strings.HasPrefix(strings.TrimSpace(s), "#!/")
}

func isTF(p string) bool {
	return strings.HasSuffix(p, ".tf") || strings.HasSuffix(p, ".tf.json") || strings.HasSuffix(p, ".tfvars")
}

// resultPath is the documented path of a result.
func (w *World) resultPath(abs, result string) (out string, save bool) {
	src, tgt := w.srcDir(), w.tgtDir()
	out = strings.TrimSuffix(strings.TrimSuffix(abs, ".gt"), ".template")
	if src != tgt {
		rel := relPath(src, out)
		out = path.Join(tgt, rel)
	}
	if isTemplateName(abs) {
		ext := path.Ext(out)
		if strings.TrimSpace(result)+ext == "" {
			return "", false
		}
		if !w.Overwrite {
			out = strings.TrimSuffix(out, ext) + ".generated" + ext
		}
	}
	return out, true
}

func relPath(base, p string) string {
	b := strings.Split(strings.Trim(base, "/"), "/")
	q := strings.Split(strings.Trim(p, "/"), "/")
	i := 0
	for i < len(b) && i < len(q) && b[i] == q[i] {
		i++
	}
	return strings.Repeat("../", len(b)-i) + strings.Join(q[i:], "/")
}

const umask = 022

// item computes the processing of one source file.
func (w *World) item(abs string, f *WFile) Item {
	it := Item{Abs: abs, Name: relPath(w.srcDir(), abs), IsTmpl: isTemplateName(abs), Status: "ok", Action: "none"}
	if f == nil {
		it.Status = "error"
		return it
	}
	it.Frags = f.Frags
	src := f.Src()
	if it.exits() {
		return it
	}
	out, errs := render(f.Frags)
	toStdout := w.Print
	shebang := strings.HasPrefix(src, "#!") && strings.Contains(strings.SplitN(src, "\n", 2)[0], "gotemplate")
	if shebang {
		toStdout = true
	}
	if !hasCode(src) && !shebang {
		out = src
	} else if strict := w.strictFor(it.IsTmpl, src); len(errs) > 0 || w.ign[abs] && !strict {
		if strict {
			it.Status = "error"
			return it
		}
		it.Status, out = "ignored", src
	} else if !hasCode(src) {
		it.Changed = false
	} else {
		it.Changed = out != src
		for _, x := range f.Frags {
			if x.Save != "" {
				it.Saves = append(it.Saves, KV{x.Save, x.SaveD})
			}
		}
	}
	it.Result = out
	rp, save := w.resultPath(abs, out)
	if !save {
		return it
	}
	if toStdout {
		it.Action, it.Stdout = "print", out
		if w.Terraform && isTF(rp) {
			if strings.Contains(out, "INVALID") {
				it.Status = "error"
			} else {
				it.Stdout = simk.TFPass(simk.TFPass(out))
			}
		}
		return it
	}
	same := w.srcDir() == w.tgtDir()
	if same && !it.Changed {
		return it
	}
	it.Action, it.Out = "write", rp
	it.Rename = same && !it.IsTmpl && !w.Overwrite
	it.Remove = same && it.IsTmpl && w.Overwrite
	it.Mode = f.Mode
	if isShebang(out) {
		it.Mode = 0755
	}
	return it
}

func (w *World) strictFor(tmpl bool, src string) bool {
	return w.Strict || strings.Contains(src, "force-gotemplate!") || tmpl
}

// expectIgnored is the expectation when the given run reported on its standard
// error that errors of some files, which are not templates, were ignored.
func (w *World) expectIgnored(o *RunOut) *Expect {
	n := *w
	n.ign = map[string]bool{}
	for _, f := range w.Files {
		rel := relPath(w.srcDir(), f.Path)
		if strings.Contains(string(o.Err), "Ignored gotemplate error in "+rel+" (") {
			n.ign[f.Path] = true
		}
	}
	return n.expect()
}

// exits tells whether the item ends the run; what it saved before is saved.
func (it *Item) exits() bool {
	for i, f := range it.Frags {
		if !strings.HasPrefix(f.Err, "exit=") {
			continue
		}
		it.Status = f.Err
		for _, g := range it.Frags[:i] {
			if g.Save != "" {
				it.Saves = append(it.Saves, KV{g.Save, g.SaveD})
			}
		}
		return true
	}
	return false
}

func (w *World) codeItem(fs []Frag) Item {
	it := Item{Status: "ok", Action: "none", Frags: fs}
	if it.exits() {
		return it
	}
	out, errs := render(fs)
	if len(errs) > 0 {
		it.Status = "error"
		return it
	}
	for _, x := range fs {
		if x.Save != "" {
			it.Saves = append(it.Saves, KV{x.Save, x.SaveD})
		}
	}
	it.Result = out
	if strings.TrimRight(out, " \t") == "" {
		return it
	}
	it.Action = "print"
	it.Stdout = out
	if !strings.HasSuffix(out, "\n") {
		it.Stdout += "\n"
	}
	return it
}

func (w *World) file(abs string) *WFile {
	for i := range w.Files {
		if w.Files[i].Path == abs {
			f := &w.Files[i]
			if f.Link != "" {
				return w.file(absIn(path.Dir(abs), f.Link))
			}
			return f
		}
	}
	return nil
}

func (w *World) initialTree() tree {
	t := tree{}
	for i := range w.Files {
		f := &w.Files[i]
		if f.Link != "" {
			t[f.Path] = entry{Mode: simk.IFLNK | 0777, Target: f.Link}
			continue
		}
		t[f.Path] = entry{Mode: simk.IFREG | f.Mode, Data: f.Src()}
	}
	return t
}

// apply performs the effects of one item on a tree.
func (it *Item) apply(t tree) {
	for _, s := range it.Saves {
		e, ok := t[s.K]
		if !ok {
			e.Mode = simk.IFREG | 0644
		}
		e.Data = s.V
		t[s.K] = e
	}
	if it.Action != "write" {
		return
	}
	if it.Rename {
		t[it.Abs+".original"] = t[it.Abs]
		delete(t, it.Abs)
	}
	e, ok := t[it.Out]
	if !ok {
		e = entry{Mode: simk.IFREG | it.Mode&^umask}
	}
	e.Data = it.Result
	t[it.Out] = e
	if it.Remove {
		delete(t, it.Abs)
	}
}

func (w *World) expect() *Expect {
	x := &Expect{Tree: w.initialTree(), Outs: map[string]bool{}, TFDirs: map[string]bool{}}
	stopped := false
	add := func(it Item) {
		if stopped {
			return
		}
		x.Items = append(x.Items, it)
		it.apply(x.Tree)
		x.Stdout += it.Stdout
		if it.Status == "error" {
			x.Code = 1
		}
		if n, ok := strings.CutPrefix(it.Status, "exit="); ok {
			x.Code, stopped = number(n), true
		}
		if it.Action == "write" {
			x.Outs[it.Out] = true
			if isTF(it.Out) {
				x.TFDirs[path.Dir(it.Out)] = true
			}
		}
	}
	var names []string
	names = append(names, w.selected()...)
	nsel := len(names)
	for _, a := range w.ArgFiles {
		names = append(names, absIn(w.srcDir(), a))
	}
	for i, n := range names {
		if w.excluded(n) {
			continue
		}
		_ = i
		_ = nsel
		add(w.item(n, w.file(n)))
	}
	for _, c := range w.ArgCode {
		add(w.codeItem(c))
	}
	if w.forcedStdin() && len(w.Stdin) > 0 {
		add(w.codeItem(w.Stdin))
	}
	if w.Terraform && !w.Print && !stopped {
		for d := range x.TFDirs {
			tfDir(x.Tree, d)
		}
	}
	return x
}

// tfDir applies the two formatting passes to a folder, as the simulated
// formatter does: a pass that fails on a file leaves that file alone, and a
// failed first pass is not followed by a second one.
func tfDir(t tree, d string) {
	for pass := 0; pass < 2; pass++ {
		bad := false
		for p, e := range t {
			if path.Dir(p) != d || !isTF(p) || !e.isReg() {
				continue
			}
			if strings.Contains(e.Data, "INVALID") {
				bad = true
				continue
			}
			e.Data = simk.TFPass(e.Data)
			t[p] = e
		}
		if bad {
			return
		}
	}
}

// number is the value of a decimal number.
func number(s string) int {
	n, _ := strconv.Atoi(s)
	return n
}
