package main

import (
	"fmt"
	"os"
	"path"
	"sort"
	"strings"

	"verifsim/simk"
)

// ---------------------------------------------------------------- C20
//
// A small model of the file system answers the queries of the templates. The
// files asked about are outside of /w, so that the tree of the run itself is
// judged as everywhere else.

type qnode struct {
	mode  uint32
	dir   bool
	link  string
	data  string
	mtime int64 // 0 when unknown
}

type qfs map[string]*qnode

func (q qfs) parents(p string) {
	for d := path.Dir(p); d != "/" && d != "."; d = path.Dir(d) {
		if q[d] == nil {
			q[d] = &qnode{mode: 0755, dir: true}
		}
	}
}

func queryFS(w *World) qfs {
	q := qfs{"/": {mode: 0755, dir: true}}
	for _, d := range w.Dirs {
		q.parents(d)
		q[d] = &qnode{mode: 0755, dir: true, mtime: mtimeOf(d, 0)}
	}
	for i := range w.Files {
		f := &w.Files[i]
		q.parents(f.Path)
		q[f.Path] = &qnode{mode: f.Mode, link: f.Link, data: f.Src(), mtime: mtimeOf(f.Path, 0)}
	}
	for _, b := range binNames {
		q.parents("/bin/" + b)
		q["/bin/"+b] = &qnode{mode: 0755, data: "\x7fSIM"}
	}
	return q
}

// resolve follows the links of a path; the last one too when follow is set.
func (q qfs) resolve(p string, follow bool) (string, *qnode) {
	return q.walk(p, follow, 0)
}

func (q qfs) walk(p string, follow bool, depth int) (string, *qnode) {
	if depth > 20 {
		return "!", nil
	}
	cur := "/"
	parts := strings.Split(strings.Trim(path.Clean(p), "/"), "/")
	for i, c := range parts {
		if c == "" {
			continue
		}
		d := q[cur]
		if d == nil {
			return "", nil
		}
		if !d.dir {
			return "!", nil // a path through a file, or a loop of links
		}
		cur = path.Join(cur, c)
		n := q[cur]
		if n == nil {
			if i == len(parts)-1 {
				return cur, nil
			}
			return "", nil
		}
		if n.link != "" && (follow || i < len(parts)-1) {
			t := n.link
			if !path.IsAbs(t) {
				t = path.Join(path.Dir(cur), t)
			}
			if cur, n = q.walk(t, true, depth+1); n == nil {
				if i < len(parts)-1 && cur != "!" {
					cur = ""
				}
				return cur, nil
			}
		}
	}
	return cur, q[cur]
}

func (q qfs) list(d string) (r []string) {
	d, n := q.resolve(d, true)
	if n == nil || !n.dir {
		return nil
	}
	for p := range q {
		if p != "/" && path.Dir(p) == d {
			r = append(r, path.Base(p))
		}
	}
	sort.Strings(r)
	return
}

func (q qfs) glob(pattern string) (r []string) {
	if !strings.ContainsAny(pattern, "*?[]") {
		return []string{pattern}
	}
	dirs := []string{"/"}
	parts := strings.Split(strings.Trim(pattern, "/"), "/")
	for i, c := range parts {
		var next []string
		for _, d := range dirs {
			if !strings.ContainsAny(c, "*?[\\") {
				if _, n := q.resolve(path.Join(d, c), i < len(parts)-1); n != nil {
					next = append(next, path.Join(d, c))
				}
				continue
			}
			for _, name := range q.list(d) {
				if ok, _ := path.Match(c, name); ok {
					next = append(next, path.Join(d, name))
				}
			}
		}
		dirs = next
	}
	return dirs
}

var qSyntax = map[string]string{
	"exists": "{{ exists %q }}", "fileExists": "{{ fileExists %q }}", "size": "{{ size %q }}", "fileSize": "{{ fileSize %q }}",
	"mode": "{{ mode %q }}", "fileMode": "{{ fileMode %q }}", "isDir": "{{ isDir %q }}", "isFolder": "{{ isFolder %q }}", "isFile": "{{ isFile %q }}",
	"isReadable": "{{ isReadable %q }}", "isWriteable": "{{ isWriteable %q }}", "isExecutable": "{{ isExecutable %q }}",
	"lastMod": "{{ (lastMod %q).UnixNano }}", "lastModification": "{{ (lastModification %q).UnixNano }}",
	"stat.Size": "{{ (stat %q).Size }}", "stat.IsDir": "{{ (stat %q).IsDir }}", "stat.Mode": "{{ (stat %q).Mode }}", "stat.Name": "{{ (stat %q).Name }}",
	"stat.ModTime": "{{ (stat %q).ModTime.UnixNano }}",
	"branch":       "{{ currentBranch %q }}", "commit": "{{ currentCommit %q }}", "origin": "{{ origin %q }}",
	"lookPath": "{{ lookPath %q }}", "which": "{{ which %q }}",
	"if": "{{ if exists %q }}there{{ else }}not there{{ end }}",
}

var qAlias = map[string]string{"fileExists": "exists", "fileSize": "size", "fileMode": "mode", "isFolder": "isDir", "lastModification": "lastMod", "stat.Size": "size", "stat.IsDir": "isDir", "stat.Mode": "mode", "stat.ModTime": "lastMod", "which": "lookPath"}

var qStat = []string{"exists", "fileExists", "size", "fileSize", "mode", "fileMode", "isDir", "isFolder", "isFile", "isReadable", "isWriteable", "isExecutable", "lastMod", "lastModification", "stat.Size", "stat.IsDir", "stat.Mode", "stat.Name", "stat.ModTime", "if"}

// ask gives the answer to a query: the text, whether it fails, and whether the
// model knows.
func (q qfs) ask(kind string, args []string) (out string, fails, known bool) {
	if a, ok := qAlias[kind]; ok {
		kind = a
	}
	p := args[0]
	switch kind {
	case "glob":
		for _, a := range args {
			for _, f := range q.glob(a) {
				out += "[" + f + "]"
			}
		}
		return out, false, true
	case "lookPath":
		if strings.Contains(p, "/") {
			if _, n := q.resolve(p, true); n != nil && !n.dir && n.mode&0111 != 0 {
				return p, false, true
			}
			return "", false, true
		}
		for _, b := range binNames {
			if b == p {
				return "/bin/" + p, false, true
			}
		}
		return "", false, true
	case "branch", "commit", "origin":
		read := func(f string) string {
			if _, n := q.resolve(path.Join(p, ".git", f), true); n != nil {
				return n.data
			}
			return ""
		}
		head := strings.TrimSpace(read("HEAD"))
		ref, isRef := strings.CutPrefix(head, "ref: ")
		if head == "" {
			return "", true, true
		}
		switch kind {
		case "branch":
			if !isRef || read(ref) == "" {
				return "", true, true
			}
			return strings.TrimPrefix(ref, "refs/heads/"), false, true
		case "commit":
			if isRef {
				head = strings.TrimSpace(read(ref))
			}
			return head, head == "", true
		default:
			_, u, ok := strings.Cut(read("config"), "[remote \"origin\"]\n\turl = ")
			u, _, _ = strings.Cut(u, "\n")
			return u, !ok, true
		}
	}
	where, n := q.resolve(p, true)
	switch kind {
	case "exists", "if":
		if where == "!" {
			return "", false, false // may be seen as an error
		}
	}
	switch kind {
	case "exists":
		return fmt.Sprint(n != nil), false, true
	case "if":
		if n != nil {
			return "there", false, true
		}
		return "not there", false, true
	}
	if n == nil {
		return "", true, true
	}
	switch kind {
	case "size":
		return fmt.Sprint(len(n.data)), false, !n.dir
	case "mode":
		m := os.FileMode(n.mode & 0777)
		if n.dir {
			m |= os.ModeDir
		}
		return m.String(), false, true
	case "isDir":
		return fmt.Sprint(n.dir), false, true
	case "isFile":
		return fmt.Sprint(!n.dir), false, true
	case "isReadable":
		return fmt.Sprint(n.mode&0400 != 0), false, true
	case "isWriteable":
		return fmt.Sprint(n.mode&0200 != 0), false, true
	case "isExecutable":
		return fmt.Sprint(n.mode&0100 != 0 && !n.dir), false, true
	case "lastMod":
		return fmt.Sprint(n.mtime), false, n.mtime != 0
	case "stat.Name":
		return path.Base(p), false, true
	}
	return "", false, false
}

// apply executes a change; false when it cannot be done.
func (q qfs) apply(kind string, a []string) bool {
	p, n := q.resolve(a[0], kind != "rm" && kind != "mv" && kind != "mkdir")
	touch := func(p string) {
		if d := q[path.Dir(p)]; d != nil {
			d.mtime = 0
		}
	}
	switch kind {
	case "save", "echo":
		d := a[1]
		if kind == "echo" {
			d += "\n"
		}
		if p == "" || p == "!" || n != nil && n.dir || q[path.Dir(p)] == nil {
			return false
		}
		if n == nil {
			q[p] = &qnode{mode: 0644, data: d}
			touch(p)
			return true
		}
		n.data, n.mtime = d, 0
	case "rm":
		if n == nil || n.dir {
			return false
		}
		delete(q, p)
		touch(p)
	case "mkdir":
		if n != nil || p == "" || p == "!" {
			return false
		}
		q[p] = &qnode{mode: 0755, dir: true}
		touch(p)
	case "mv":
		t, m := q.resolve(a[1], false)
		if n == nil || n.dir || m != nil || t == "" || t == "!" {
			return false
		}
		q[t] = n
		delete(q, p)
		touch(p)
		touch(t)
	case "chmod":
		if n == nil {
			return false
		}
		m := uint32(0)
		fmt.Sscanf(a[1], "%o", &m)
		n.mode = m
	}
	return true
}

func isChange(k string) bool {
	return k == "save" || k == "echo" || k == "rm" || k == "mkdir" || k == "mv" || k == "chmod"
}

// answered computes the answers expected from the templates of a world; nil
// when the model cannot tell.
func answered(w *World) *World {
	c := *w
	c.Files = append([]WFile{}, w.Files...)
	q := queryFS(w)
	changed := -1
	for i := range c.Files {
		f := &c.Files[i]
		if !strings.HasPrefix(f.Path, "/w/") {
			continue
		}
		f.Frags = append([]Frag{}, f.Frags...)
		if changed >= 0 {
			return nil // only the last template makes changes
		}
		fails := false
		for j := range f.Frags {
			g := &f.Frags[j]
			if len(g.Query) == 0 {
				continue
			}
			if k := g.Query[0]; isChange(k) {
				changed = i
				if !q.apply(k, g.Query[1:]) {
					return nil
				}
				continue
			}
			out, bad, known := q.ask(g.Query[0], g.Query[1:])
			if !known {
				return nil
			}
			g.Out, g.Err = out, ""
			if bad {
				g.Err, fails = "query", true
			}
		}
		if fails && changed == i {
			return nil
		}
	}
	return &c
}

func queryWorld(r *rng) *World {
	w := envWorld(r)
	if r.p(40) {
		w.Cwd = "/w/src"
	}
	add := func(p string, mode uint32, data string) {
		w.Files = append(w.Files, WFile{Path: p, Mode: mode, Frags: []Frag{{Src: data, Out: data}}})
	}
	var files, dirs, links, missing []string
	tops := []string{"/q", "/q/sub", "/q/sub/deep", "/q/été", "/q/a b", "/q/other"}
	names := []string{"a.txt", "b", "c.sh", "d.json", ".hidden", "x[1].txt", "long name", "e.txt", "a.json"}
	w.Dirs = append(w.Dirs, "/q", "/q/empty", "/g", "/g/none")
	dirs = append(dirs, "/q", "/q/empty")
	for i := r.rangeN(3, 9); i > 0; i-- {
		d := pickS(r, tops)
		p := d + "/" + pickS(r, names)
		if w.file(p) != nil {
			continue
		}
		add(p, pick(r, uint32(0644), 0644, 0600, 0755, 0400, 0444, 0200, 0111, 0, 0077, 0022, 0011, 0644, 0755), strings.Repeat("x", pick(r, 0, 1, r.n(50), r.n(5000), 4096)))
		files, dirs = append(files, p), append(dirs, d)
	}
	for i := r.n(4); i > 0; i-- {
		p := "/q/l" + itoa(i)
		t := pick(r, pickS(r, files), pickS(r, dirs), "/q/gone", "sub", "l1", "l2")
		w.Files = append(w.Files, WFile{Path: p, Mode: 0777, Link: t})
		links = append(links, p)
	}
	for i := 0; i < 4; i++ {
		p := pickS(r, dirs) + "/" + pick(r, "no", "a.txt", "zz.json", "B")
		missing = append(missing, p)
	}
	for i := r.n(8); i > 0; i-- {
		p := pick(r, "/g/", "/g/one/", "/g/two/", "/g/one/in/", "/g/[x]/") + pickS(r, names)
		if w.file(p) == nil {
			add(p, 0644, "")
		}
	}
	repos := 0
	if r.p(45) {
		repos = r.rangeN(1, 2)
	}
	hash := func() string {
		s := ""
		for len(s) < 40 {
			s += fmt.Sprintf("%016x", r.next())
		}
		return s[:40]
	}
	for i := 1; i <= repos; i++ {
		d := fmt.Sprintf("/repo%d/.git/", i)
		b := pick(r, "main", "feature/x", "b-1")
		if r.p(20) {
			add(d+"HEAD", 0644, hash()+"\n")
		} else {
			add(d+"HEAD", 0644, "ref: refs/heads/"+b+"\n")
		}
		if r.p(85) {
			add(d+"refs/heads/"+b, 0644, hash()+"\n")
		}
		c := "[core]\n\trepositoryformatversion = 0\n\tbare = false\n"
		other := pick(r, "upstream", "backup", "origin2", "mine", "a")
		extra := fmt.Sprintf("[remote %q]\n\turl = git@example.com:%s/%s.git\n\tfetch = +refs/heads/*:refs/remotes/%s/*\n", other, other, b, other)
		if r.p(30) {
			c += extra
			extra = ""
		}
		if r.p(80) {
			c += "[remote \"origin\"]\n\turl = https://example.com/" + b + ".git\n\tfetch = +refs/heads/*:refs/remotes/origin/*\n"
		}
		if r.p(30) {
			c += extra
		}
		add(d+"config", 0644, c)
		w.Dirs = append(w.Dirs, d+"objects", d+"refs/heads")
	}
	any := func() string {
		switch k := r.n(10); {
		case k < 5 || len(links) == 0 && k < 7:
			return pickS(r, files)
		case k < 7:
			l := pickS(r, links)
			if r.p(40) {
				l += "/" + pickS(r, names)
			}
			return l
		case k == 7:
			return pickS(r, dirs)
		}
		return pickS(r, missing)
	}
	query := func(q qfs, kind string, args ...string) (Frag, bool, bool) {
		f := Frag{Query: append([]string{kind}, args...)}
		if kind == "glob" {
			f.Src = "{{ range " + pick(r, "glob", "expand")
			for _, a := range args {
				f.Src += fmt.Sprintf(" %q", a)
			}
			f.Src += " }}[{{ . }}]{{ end }}"
		} else {
			f.Src = fmt.Sprintf(qSyntax[kind], args[0])
		}
		var known, fails bool
		f.Out, fails, known = q.ask(kind, args)
		if fails {
			f.Err = "query"
		}
		return f, fails, known
	}
	one := func(q qfs) (Frag, bool, bool) {
		switch k := r.n(20); {
		case k < 3 && repos > 0:
			return query(q, pick(r, "branch", "commit", "origin"), pick(r, "/repo1", "/repo1", "/repo2"))
		case k == 3:
			return query(q, pick(r, "lookPath", "which"), pick(r, "cat", "sh", "nothing", "seq", "/bin/cat", "/bin/none", "/g/one", any(), any(), any()))
		case k < 7:
			a := []string{}
			for i := r.rangeN(1, 3); i > 0; i-- {
				a = append(a, pick(r, "/g/*", "/g/*.txt", "/g/*/*", "/g/one/*.json", "/g/t?o/*", "/g/none/*", "/g/[ot]*/[a-c]*", "/g/one/in/b", "/g/nothing", "/g/*/in/*", "/g/zz*", "/g/.h*", "/g/*/.hidden", "/g/[[]x]/*"))
			}
			return query(q, "glob", a...)
		}
		return query(q, pickS(r, qStat), any())
	}
	// Answers are only asked about the files of the world, so that the templates
	// can be added once everything else is known.
	n := r.rangeN(1, 4)
	for b := 0; b < n; b++ {
		q := queryFS(w)
		change := b == n-1 && r.p(65)
		mayFail := !change && r.p(25)
		var fs []Frag
		for i := r.rangeN(2, 9); i > 0; i-- {
			if change && r.p(40) {
				k := pick(r, "save", "save", "echo", "rm", "mkdir", "mv", "chmod")
				a := []string{pick(r, pickS(r, files), pickS(r, files), pickS(r, missing), any())}
				var src string
				switch k {
				case "save":
					a = append(a, strings.Repeat("s", r.n(300)))
					src = fmt.Sprintf("{{ save %q %q }}", a[0], a[1])
				case "echo":
					a = append(a, strings.Repeat("e", r.n(30)))
					src = fmt.Sprintf("{{ run \"echo %s > '%s'\" }}", a[1], a[0])
				case "mv":
					a = append(a, pickS(r, missing))
					src = fmt.Sprintf("{{ run \"mv '%s' '%s'\" }}", a[0], a[1])
				case "chmod":
					a = append(a, pick(r, "644", "600", "755", "755", "444", "0"))
					src = fmt.Sprintf("{{ run \"chmod %s '%s'\" }}", a[1], a[0])
				default:
					src = fmt.Sprintf("{{ run \"%s '%s'\" }}", k, a[0])
				}
				// what is changed is of interest, before and after
				ask := pick(r, pickS(r, qStat), pickS(r, qStat), pickS(r, qStat), "lookPath")
				before := fs
				if r.p(50) {
					if f, fails, known := query(q, ask, a[0]); known && !fails {
						before = append(append([]Frag{}, fs...), f, lit("\n"))
					}
				}
				if !q.apply(k, a) {
					q = changedFS(w, fs)
					continue
				}
				fs = append(before, Frag{Src: src, Query: append([]string{k}, a...)})
				f, fails, known := query(q, ask, a[0])
				if known && !fails {
					fs = append(fs, f, lit("\n"))
				}
				continue
			}
			f, fails, known := one(q)
			if !known || fails && !mayFail {
				continue
			}
			fs = append(fs, f, lit(pick(r, "\n", " ", ",", ";\n")))
		}
		w.Files = append(w.Files, WFile{Path: fmt.Sprintf("/w/src/%c.txt.gt", 'a'+b), Mode: 0644, Frags: append(fs, lit("\n"))})
	}
	return w
}

// changedFS applies the changes of the fragments again.
func changedFS(w *World, fs []Frag) qfs {
	q := queryFS(w)
	for _, f := range fs {
		if len(f.Query) > 0 && isChange(f.Query[0]) {
			q.apply(f.Query[0], f.Query[1:])
		}
	}
	return q
}

func init() {
	register(&Prop{
		ID: "C20", Level: "exploration", Needs: "cli", Quick: 300, Thor: 40000, Real: realCLI, Stubs: stubCLI, Assume: cliAssume,
		Rule: "executions (distinct operation traces) of templates asking for the state of files and repositories in which an injected fault changed the result of an operation on them",
		Explore: func(b *Bench, r *rng, idx int, eval func(*Case) bool) {
			w := queryWorld(r)
			if answered(w) == nil {
				return
			}
			if !eval(&Case{Kind: "query", W: w}) {
				return
			}
			o := b.runWorld(w, nil)
			n := 20
			if b.thorough() {
				n = 50
			}
			// a failed lookup is documented as "not found"
			looked := map[string]bool{}
			for i := range w.Files {
				for _, f := range w.Files[i].Frags {
					if len(f.Query) == 2 && (f.Query[0] == "lookPath" || f.Query[0] == "which") {
						looked[f.Query[1]] = true
					}
				}
			}
			m := &faultMix{errno: 6, short: 2, eintr: 1, filter: func(e *simk.Event) bool {
				return !looked[e.Path] && (strings.HasPrefix(e.Path, "/q") || strings.HasPrefix(e.Path, "/repo"))
			}}
			singles := sampleFaults(r, o.Trace, m, n)
			for i := range singles {
				if r.p(30) {
					singles[i][0].Skip, singles[i][0].Count = 0, 100
				}
			}
			for _, f := range append(singles, combine(r, singles, 4, 3)...) {
				if !eval(&Case{Kind: "query", W: w, Faults: f}) {
					return
				}
			}
		},
		Eval: func(b *Bench, c *Case) *Violation {
			w := answered(c.W)
			if w == nil {
				return nil
			}
			o := b.runWorld(w, c.Faults)
			b.sample(c, o)
			return honest(w, w.expect(), o)
		},
	})
}
