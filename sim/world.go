package main

import (
	"path"
	"sort"
	"strings"
	"verifsim/simk"
)

// A World is one complete, self-contained workload: the file tree, the command
// line, the environment and the standard input of a gotemplate run. File
// contents are lists of fragments whose rendering is known in advance, so that
// the expected outcome of the run is computed without running gotemplate.

type Frag struct {
	Src   string   `json:"src"`
	Out   string   `json:"out"`
	Err   string   `json:"err,omitempty"`   // the fragment makes its template fail
	Needs []string `json:"needs,omitempty"` // resources: "var:x", "file:p"
	Save  string   `json:"save,omitempty"`  // path written by the fragment
	SaveD string   `json:"saved,omitempty"` // what it writes
	Query []string `json:"query,omitempty"` // what is asked, or done, by the fragment (C20)
}

type WFile struct {
	Path  string `json:"path"` // absolute
	Mode  uint32 `json:"mode"`
	Frags []Frag `json:"frags"`
	Link  string `json:"symlink,omitempty"`
}

func (f *WFile) Src() string {
	var b strings.Builder
	for _, x := range f.Frags {
		b.WriteString(x.Src)
	}
	return b.String()
}

func render(fs []Frag) (out string, errs []string) {
	var b strings.Builder
	for _, x := range fs {
		if x.Err != "" {
			errs = append(errs, x.Err)
		}
		b.WriteString(x.Out)
	}
	return b.String(), errs
}

func srcOf(fs []Frag) string {
	var b strings.Builder
	for _, x := range fs {
		b.WriteString(x.Src)
	}
	return b.String()
}

type World struct {
	Seed      uint64         `json:"seed"`
	Cwd       string         `json:"cwd"`
	Source    string         `json:"source,omitempty"` // value of --source
	Target    string         `json:"target,omitempty"` // value of --target
	Files     []WFile        `json:"files"`
	Dirs      []string       `json:"dirs,omitempty"`
	Overwrite bool           `json:"overwrite,omitempty"`
	Print     bool           `json:"print,omitempty"`
	Recursive bool           `json:"recursive,omitempty"`
	Depth     int            `json:"depth,omitempty"`
	Patterns  []string       `json:"patterns,omitempty"`
	Exclude   []string       `json:"exclude,omitempty"`
	Strict    bool           `json:"strict,omitempty"`
	AcceptNo  bool           `json:"acceptNo,omitempty"`
	Follow    bool           `json:"follow,omitempty"`
	RunWord   bool           `json:"runWord,omitempty"`
	ArgFiles  []string       `json:"argFiles,omitempty"` // relative to the source folder
	ArgCode   [][]Frag       `json:"argCode,omitempty"`
	Vars      []KV           `json:"vars,omitempty"` // --var k=v
	Imports   []string       `json:"imports,omitempty"`
	ImportsIf []string       `json:"importsIf,omitempty"`
	Extra     []string       `json:"extra,omitempty"` // other command line words
	Env       []string       `json:"env,omitempty"`
	StdinKind int            `json:"stdinKind"`
	Stdin     []Frag         `json:"stdin,omitempty"`
	StdinRaw  string         `json:"stdinRaw,omitempty"`
	InChunk   int            `json:"inChunk,omitempty"`
	Capacity  int64          `json:"capacity,omitempty"`
	Terraform bool           `json:"terraform,omitempty"`
	NonRoot   bool           `json:"nonRoot,omitempty"`
	OutTTY    bool           `json:"outTTY,omitempty"`
	Clock     int64          `json:"clock,omitempty"`
	Docs      []simk.HTTPDoc `json:"docs,omitempty"`
	MTimes    uint64         `json:"mtimes,omitempty"` // selects the modification times
	Bare      []string       `json:"bare,omitempty"` // complete command line instead of the above

	ign map[string]bool // files whose failure was reported as ignored
}

type KV struct{ K, V string }

const clockBase = int64(1700000000e9)

var binNames = []string{"bash", "sh", "echo", "cat", "seq", "pwd", "true", "false", "kill9", "sleep"}

func (w *World) srcDir() string {
	if w.Source == "" {
		return w.Cwd
	}
	return absIn(w.Cwd, w.Source)
}

func (w *World) tgtDir() string {
	if w.Target == "" {
		return w.srcDir()
	}
	return absIn(w.Cwd, w.Target)
}

func absIn(cwd, p string) string {
	if path.IsAbs(p) {
		return path.Clean(p)
	}
	return path.Join(cwd, p)
}

func (w *World) args() []string {
	if w.Bare != nil {
		return w.Bare
	}
	var a []string
	if w.RunWord {
		a = append(a, "run")
	}
	a = append(a, w.Extra...)
	if w.Source != "" {
		a = append(a, "--source="+w.Source)
	}
	if w.Target != "" {
		a = append(a, "--target", w.Target)
	}
	if w.Overwrite {
		a = append(a, "--overwrite")
	}
	if w.Print {
		a = append(a, "--print")
	}
	if w.Recursive {
		a = append(a, "--recursive")
	}
	if w.Depth > 0 {
		a = append(a, "--recursion-depth", itoa(w.Depth))
	}
	for _, p := range w.Patterns {
		a = append(a, "--patterns", p)
	}
	for _, p := range w.Exclude {
		a = append(a, "--exclude", p)
	}
	if w.Strict {
		a = append(a, "--strict")
	}
	if w.AcceptNo {
		a = append(a, "--accept-no-value")
	}
	if w.Follow {
		a = append(a, "--follow-symlinks")
	}
	for _, v := range w.Imports {
		a = append(a, "--import", v)
	}
	for _, v := range w.ImportsIf {
		a = append(a, "--import-if-exist", v)
	}
	for _, v := range w.Vars {
		a = append(a, "--var", v.K+"="+v.V)
	}
	a = append(a, w.ArgFiles...)
	for _, c := range w.ArgCode {
		a = append(a, srcOf(c))
	}
	return a
}

func (w *World) nodes() []simk.Node {
	n := []simk.Node{{Path: "/tmp", Mode: simk.IFDIR | 0777}, {Path: "/root", Mode: simk.IFDIR | 0700}, {Path: w.Cwd, Mode: simk.IFDIR | 0755}}
	if w.srcDir() != w.Cwd {
		n = append(n, simk.Node{Path: w.srcDir(), Mode: simk.IFDIR | 0755})
	}
	for _, b := range binNames {
		n = append(n, simk.Node{Path: "/bin/" + b, Mode: simk.IFREG | 0755, Data: []byte("\x7fSIM")})
	}
	if w.Terraform {
		n = append(n, simk.Node{Path: "/bin/terraform", Mode: simk.IFREG | 0755, Data: []byte("\x7fSIM")})
	}
	for _, d := range w.Dirs {
		n = append(n, simk.Node{Path: d, Mode: simk.IFDIR | 0755})
	}
	for i := range w.Files {
		f := &w.Files[i]
		if f.Link != "" {
			n = append(n, simk.Node{Path: f.Path, Mode: simk.IFLNK | 0777, Target: f.Link})
			continue
		}
		n = append(n, simk.Node{Path: f.Path, Mode: simk.IFREG | f.Mode, Data: []byte(f.Src())})
	}
	for i := range n {
		// times of the last day; some are in the future
		n[i].MTime = mtimeOf(n[i].Path, w.MTimes)
	}
	return n
}

// mtimeOf gives the initial modification time of an entry.
func mtimeOf(p string, salt uint64) int64 {
	h := uint64(14695981039346656037) + salt
	for j := 0; j < len(p); j++ {
		h = (h ^ uint64(p[j])) * 1099511628211
	}
	h ^= h >> 31
	return clockBase - 86400e9 + int64(h%90000)*1e9 + int64(h>>40%1000)*1e6
}

func (w *World) plan() *simk.Plan {
	clk := clockBase + w.Clock
	in := []byte(w.StdinRaw)
	if len(w.Stdin) > 0 {
		in = []byte(srcOf(w.Stdin))
	}
	out := simk.InPipe
	if w.OutTTY {
		out = simk.InTTY
	}
	return &simk.Plan{Args: w.args(), Env: append([]string{"PATH=/bin", "HOME=/root", "TZ=UTC", "USER=root", "LANG=C"}, w.Env...), Cwd: w.Cwd, Seed: w.Seed, Clock: clk, Tick: 20000,
		Nodes: w.nodes(), Capacity: w.Capacity, Stdin: in, InKind: w.StdinKind, InChunk: w.InChunk, OutKind: out, NonRoot: w.NonRoot, MaxSteps: 60000, Docs: w.Docs}
}

func itoa(n int) string {
	if n < 0 {
		return "-" + itoa(-n)
	}
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}

// tree is a snapshot of the part of the file system that matters.
type entry struct {
	Mode   uint32
	Data   string
	Target string
}
type tree map[string]entry

func treeOf(nodes []simk.Node) tree {
	t := tree{}
	for i := range nodes {
		n := &nodes[i]
		e := entry{Mode: n.Mode, Data: string(n.Data), Target: n.Target}
		if n.Link != "" {
			e = t[n.Link]
		}
		t[n.Path] = e
	}
	return t
}

func (e entry) isReg() bool { return e.Mode&0170000 == simk.IFREG }
func (e entry) isDir() bool { return e.Mode&0170000 == simk.IFDIR }

func inDir(p, dir string) bool {
	return p == dir || strings.HasPrefix(p, strings.TrimSuffix(dir, "/")+"/")
}

// filesOnly keeps files and links below the given roots.
func (t tree) filesOnly(roots ...string) tree {
	r := tree{}
	for p, e := range t {
		if e.isDir() {
			continue
		}
		for _, x := range roots {
			if inDir(p, x) {
				r[p] = e
			}
		}
	}
	return r
}

func (t tree) keys() []string {
	var k []string
	for p := range t {
		k = append(k, p)
	}
	sort.Strings(k)
	return k
}

func clip(s string) string {
	if len(s) > 160 {
		return s[:120] + "...(" + itoa(len(s)) + " bytes)..." + s[len(s)-30:]
	}
	return s
}

// diff describes the first differences between two trees ("" when equal).
func (want tree) diff(got tree, modes bool) string {
	var out []string
	for _, p := range want.keys() {
		g, ok := got[p]
		w := want[p]
		switch {
		case !ok:
			out = append(out, "missing "+p)
		case g.Data != w.Data:
			out = append(out, p+": content, expected: "+diffAt(g.Data, w.Data))
		case g.Target != w.Target:
			out = append(out, p+": link target differs")
		case modes && g.Mode != w.Mode:
			out = append(out, p+": mode "+oct(g.Mode)+", expected "+oct(w.Mode))
		}
	}
	for _, p := range got.keys() {
		if _, ok := want[p]; !ok {
			out = append(out, "unexpected "+p)
		}
	}
	if len(out) > 4 {
		out = append(out[:4], "...")
	}
	return strings.Join(out, "; ")
}
