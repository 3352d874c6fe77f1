package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"verifsim/simk"
)

// Script is what the library harness executes (see _child/lib).
type Script struct {
	Steps []LStep `json:"steps"`
}

type LRule struct {
	Name    string  `json:"name"`
	Result  *string `json:"result,omitempty"`
	Append  string  `json:"append,omitempty"`
	Changed bool    `json:"changed,omitempty"`
	Err     string  `json:"err,omitempty"`
	Swallow bool    `json:"swallow,omitempty"`
}

type LStep struct {
	Op      string          `json:"op"`
	ID      string          `json:"id,omitempty"`
	Folder  string          `json:"folder,omitempty"`
	Delims  string          `json:"delims,omitempty"`
	Type    string          `json:"type,omitempty"`
	Text    string          `json:"text,omitempty"`
	Src     string          `json:"src,omitempty"`
	Tgt     string          `json:"tgt,omitempty"`
	Options map[string]bool `json:"options,omitempty"`
	Context map[string]any  `json:"context,omitempty"`
	Subs    []string        `json:"subs,omitempty"`
	Files   []string        `json:"files,omitempty"`
	Handler []LRule         `json:"handler,omitempty"`
	NoHand  bool            `json:"nohandler,omitempty"`
	Workers [][]LStep       `json:"workers,omitempty"`
	Seed    uint64          `json:"seed,omitempty"`
	Quantum int             `json:"quantum,omitempty"`
	// what the driver knows of the step
	Frags []Frag   `json:"frags,omitempty"`
	Want  string   `json:"want,omitempty"`
	Fails bool     `json:"fails,omitempty"`
	Tags  []string `json:"tags,omitempty"`
}

type LCall struct {
	Name    string `json:"name"`
	Orig    string `json:"orig"`
	Result  string `json:"result"`
	Changed bool   `json:"changed"`
	Status  string `json:"status"`
}

type LOut struct {
	Op      string   `json:"op"`
	Result  string   `json:"result"`
	Err     string   `json:"err,omitempty"`
	Panic   string   `json:"panic,omitempty"`
	Files   []string `json:"files,omitempty"`
	Calls   []LCall  `json:"calls,omitempty"`
	Fds     int      `json:"fds"`
	Conns   int      `json:"conns"`
	Gor     int      `json:"goroutines"`
	Workers [][]LOut `json:"workers,omitempty"`
	Points  int      `json:"points,omitempty"`
	Switch  int      `json:"switches,omitempty"`
	Stalls  int      `json:"stalls,omitempty"`
	Hash    uint64   `json:"hash,omitempty"`
	Dead    bool     `json:"dead,omitempty"`
}

// runScript executes a script of library calls on a world's files.
func (b *Bench) runScript(bin string, w *World, s *Script, faults []simk.Fault) (*RunOut, []LOut) {
	p := w.plan()
	p.Args = nil
	p.Faults = faults
	var err error
	if p.Blob, err = json.Marshal(s); err != nil {
		panic(err)
	}
	o := b.exec(bin, p)
	var outs []LOut
	for _, r := range o.Reports {
		var l LOut
		if err := json.Unmarshal(r, &l); err != nil {
			panic(harnessError{"malformed report: " + err.Error()})
		}
		outs = append(outs, l)
	}
	if !o.Fatal && !o.Timeout && o.End == simk.EndExit && o.Code == 120 {
		panic(harnessError{"library harness: " + string(o.Err)})
	}
	return o, outs
}

func templateFiles(w *World) (r []string) {
	for i := range w.Files {
		if f := &w.Files[i]; isTemplateName(f.Path) && inDir(f.Path, w.srcDir()) {
			r = append(r, f.Path)
		}
	}
	return
}

// scriptFds: library calls of every kind, some failing.
func scriptFds(r *rng) (*World, *Script) {
	w := cmdWorld(r, false, r.p(40))
	if r.p(40) {
		p := defaultProfile()
		p.Errors, p.Run, p.Save, p.Include = r.p(50), 60, 20, 60
		w = cliWorld(r, p, func(w *World) bool { return len(templateFiles(w)) > 0 })
	}
	w.Source, w.Cwd = "", w.srcDir()
	w.StdinKind, w.Stdin, w.StdinRaw = simk.InNull, nil, ""
	opts := map[string]bool{"overwrite": w.Overwrite, "print": w.Print}
	ctx := map[string]any{}
	for _, v := range w.Vars {
		ctx[v.K] = v.V
	}
	s := &Script{Steps: []LStep{{Op: "mark", Text: "start"}, {Op: "new", ID: "t", Folder: w.srcDir(), Options: opts, Context: ctx}}}
	w.Docs = testDocs(r)
	for n := r.rangeN(1, 4); n > 0; n-- {
		switch r.n(4) {
		case 0:
			s.Steps = append(s.Steps, LStep{Op: "templates", ID: "t", Src: w.srcDir(), Tgt: w.tgtDir(), Files: templateFiles(w), NoHand: r.p(50)})
		case 1:
			f := pickS(r, templateFiles(w))
			s.Steps = append(s.Steps, LStep{Op: "content", ID: "t", Text: w.file(f).Src(), Src: f})
		case 2:
			d := pickS(r, w.Docs)
			fn := pick(r, "httpDoc", "httpDoc", "curl", "httpDocument")
			s.Steps = append(s.Steps, LStep{Op: "content", ID: "t", Text: fmt.Sprintf("{{ len (print (%s \"http://%s%s\").Text) }}", fn, strings.TrimSuffix(d.Host, ":80"), d.Path), Src: "x.gt"})
		default:
			s.Steps = append(s.Steps, LStep{Op: "content", ID: "t", Text: pickS(r, []string{"{{ run \"seq 20000\" }}", "{{ run \"seq 200 ; false\" }}", "{{ exec \"seq 3\" }}", "{{ run `#! /bin/sh\necho x` }}", "{{ run `#! /bin/none\necho x` }}", "{{ save \"/w/s.txt\" \"abc\" }}{{ load \"/w/s.txt\" }}", "{{ load \"/w/none\" }}", "{{ include \"/w/none\" }}", "{{ fileExists \"/w\" }}{{ glob \"/w/*\" }}", "{{ run \"cat /w/src/a.txt.gt\" }}", "{{ stat \"/w\" }}"}), Src: "y.gt"})
		}
	}
	return w, s
}

func evalLibFds(b *Bench, c *Case) *Violation {
	o, outs := b.runScript(b.lib, c.W, c.Script, c.Faults)
	b.sample(c, o)
	if o.Fatal || o.Timeout || o.End != simk.EndExit {
		return nil // other properties
	}
	for i := range outs {
		if i == 0 {
			continue
		}
		if outs[i].Fds > outs[0].Fds {
			return &Violation{Class: "descriptor", Msg: fmt.Sprintf("%d descriptors are open after call %d (%s), %d before: %v", outs[i].Fds, i, outs[i].Op, outs[0].Fds, o.OpenFds), Trace: o.Trace}
		}
		if outs[i].Conns > 0 {
			return &Violation{Class: "connection", Msg: fmt.Sprintf("a connection is open after call %d (%s)", i, c.Script.Steps[i].Text), Trace: o.Trace}
		}
	}
	return checkTemps(o)
}

// ---------------------------------------------------------------- documents

func httpRaw(status, ctype, body, mode string, r *rng) []byte {
	h := "HTTP/1.1 " + status + "\r\nContent-Type: " + ctype + "\r\n"
	switch mode {
	case "length":
		return []byte(h + "Content-Length: " + itoa(len(body)) + "\r\n\r\n" + body)
	case "chunked":
		h += "Transfer-Encoding: chunked\r\n\r\n"
		for len(body) > 0 {
			n := min(len(body), 1+r.n(1+len(body)))
			h += fmt.Sprintf("%x\r\n", n) + body[:n] + "\r\n"
			body = body[n:]
		}
		return []byte(h + "0\r\n\r\n")
	}
	return []byte(h + "Connection: close\r\n\r\n" + body)
}

func htmlDoc(r *rng) (doc, text string) {
	var b, t strings.Builder
	b.WriteString("<html><head><title>T</title></head><body>")
	for n := r.rangeN(1, pick(r, 3, 30, 400)); n > 0; n-- {
		w := genWord(r) + itoa(n)
		tag := pick(r, "p", "div", "span", "li")
		b.WriteString("<" + tag + ">" + w + "</" + tag + ">")
		t.WriteString(w)
	}
	b.WriteString("</body></html>")
	return b.String(), t.String()
}

func genWord(r *rng) string { return pick(r, "alpha", "beta", "gamma", "delta", "omega", "héé") }

// testDocs are servers of the simulated network.
func testDocs(r *rng) (d []simk.HTTPDoc) {
	for i := 0; i < 3; i++ {
		html, _ := htmlDoc(r)
		if r.p(10) {
			html = strings.Repeat("<div>", 600) + "deep"
		}
		d = append(d, simk.HTTPDoc{Host: fmt.Sprintf("host%d:80", r.n(2)), Path: fmt.Sprintf("/doc%d", i), Raw: httpRaw("200 OK", "text/html; charset=utf-8", html, pick(r, "length", "chunked", "close"), r)})
	}
	return
}

// netFault makes a connection fail.
func netFault(r *rng, tr []simk.Event, i int) simk.Fault {
	return at(tr, i, simk.FNet, pick(r, int64(simk.NetRefused), simk.NetReset, simk.NetReset, simk.NetEOF, simk.NetEOF, simk.NetNoHost, simk.NetTimeout), int64(r.n(pick(r, 200, 400, 3000, 20000))))
}
