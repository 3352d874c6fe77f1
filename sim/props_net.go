package main

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"strings"
	"verifsim/simk"
)

// ---------------------------------------------------------------- C14

// netDoc is a document of the simulated network and what is known of it.
type netDoc struct {
	doc    simk.HTTPDoc
	body   string // as sent by the server, once decoded
	text   string // of the HTML document
	html   bool
	cut    bool // the body stops before its announced end: rendering must fail
	fails  bool // cannot be obtained
	deep   bool // cannot be parsed
	silent bool // the end of the body is the end of the connection
}

func netBody(r *rng) string {
	var b strings.Builder
	for n := r.n(pick(r, 4, 40, 400, 4000)); n > 0; n-- {
		b.WriteString(pick(r, "alpha ", "beta\n", "gamma\r\n", "é", "日本", "\t", "{{ not code }}", "@var ", "<tag>", "&amp;", "0", "\n\n", "%s", "\\n", "HTTP/1.1 200 OK\r\n\r\n", "\x00", "\x7f"))
	}
	return b.String()
}

func gz(s string) string {
	var b bytes.Buffer
	w := gzip.NewWriter(&b)
	w.Write([]byte(s))
	w.Close()
	return b.String()
}

func netHost(r *rng) string { return pick(r, "host0", "host1", "host1:8080") }

func withPort(h string) string {
	if strings.Contains(h, ":") {
		return h
	}
	return h + ":80"
}

// netDocs are the documents of a world; redirections lead to the previous ones.
func netDocs(r *rng) (docs []*netDoc) {
	for i := 0; i < r.rangeN(2, 6); i++ {
		d := &netDoc{}
		host, p := netHost(r), pick(r, "/", "/a/", "/x.html?q=", "/d%20")+fmt.Sprintf("doc%d", i)
		d.doc.Host, d.doc.Path = withPort(host), p
		for k := r.n(4); k > 0; k-- {
			d.doc.Chunks = append(d.doc.Chunks, 1+r.n(pick(r, 2, 20, 300, 5000)))
		}
		if i > 0 && r.p(25) {
			// a redirection
			to := docs[r.n(i)]
			loc := "http://" + strings.TrimSuffix(to.doc.Host, ":80") + to.doc.Path
			*d = netDoc{doc: d.doc, body: to.body, text: to.text, html: to.html, deep: to.deep, cut: to.cut, fails: to.fails, silent: to.silent}
			switch {
			case to.doc.Host == d.doc.Host && r.p(50):
				loc = to.doc.Path
			case r.p(8):
				loc = "http://" + host + p // for ever
				d.fails = true
			case r.p(8):
				loc = "http://nowhere/x"
				d.fails = true
			}
			b := pick(r, "", "moved", strings.Repeat("moved ", 500))
			d.doc.Raw = []byte("HTTP/1.1 " + pick(r, "301 Moved Permanently", "302 Found", "303 See Other", "307 Temporary Redirect", "308 Permanent Redirect") + "\r\nLocation: " + loc + "\r\nContent-Length: " + itoa(len(b)) + "\r\n\r\n" + b)
			docs = append(docs, d)
			continue
		}
		ctype := "text/plain"
		if d.html = r.p(60); d.html {
			d.body, d.text = htmlDoc(r)
			d.text = "T" + d.text
			if r.p(4) {
				x := strings.Repeat("<p>0123456789abcdef</p>", 1000+r.n(60000))
				d.body = strings.Replace(d.body, "</body>", x+"</body>", 1)
				d.text += strings.NewReplacer("<p>", "", "</p>", "").Replace(x)
			}
			ctype = pick(r, "text/html", "text/html; charset=utf-8")
			if d.deep = r.p(6); d.deep {
				// the HTML parser gives up, and leaves the end of the document
				d.body = "<html><body>" + strings.Repeat("<div>", 600+r.n(200)) + "deep" + strings.Repeat("<p>more</p>", r.n(20000))
			}
		} else {
			d.body = netBody(r)
			if r.p(4) {
				d.body = strings.Repeat("0123456789abcdef", 1000+r.n(150000))
			}
		}
		status := pick(r, "200 OK", "200 OK", "200 OK", "404 Not Found", "500 Oops", "203 Other", "418 Teapot")
		mode := pick(r, "length", "length", "chunked", "chunked", "close")
		d.silent = mode == "close"
		sent, head := d.body, ""
		if r.p(15) {
			sent, head = gz(sent), "Content-Encoding: gzip\r\n"
		}
		raw := string(httpRaw(status, ctype, sent, mode, r))
		if d.cut = r.p(12) && !d.silent && len(sent) > 0; d.cut {
			// part of the announced body is missing, and the server closes the connection
			end := strings.Index(raw, "\r\n\r\n") + 4
			raw = strings.Replace(raw[:end+r.n(len(raw)-end)], "\r\n", "\r\nConnection: close\r\n", 1)
		}
		raw = strings.Replace(raw, "\r\n", "\r\n"+head, 1)
		if r.p(10) {
			raw = "HTTP/1.1 103 Early Hints\r\nLink: </x>\r\n\r\n" + raw
		}
		d.doc.Raw = []byte(raw)
		for k := range d.doc.Chunks {
			d.doc.Chunks[k] = max(d.doc.Chunks[k], len(raw)/500)
		}
		docs = append(docs, d)
	}
	return
}

// netCall is a piece of template that gets a document, and what it gives.
func netCall(r *rng, docs []*netDoc) (code, want string, fails, silent bool) {
	if r.p(6) {
		return fmt.Sprintf("{{ (%s %q).Text }}", pick(r, "httpDoc", "curl", "httpDocument"), pick(r, "http://nowhere/", "http://host0:81/", "nohost", "ftp://host0/x", "http://host0:port/", "")), "", true, false
	}
	d := pickS(r, docs)
	u := "http://" + d.doc.Host + d.doc.Path
	if r.p(60) {
		u = strings.Replace(u, ":80/", "/", 1)
	}
	if r.p(10) {
		u += "#fragment"
	}
	arg := pick(r, fmt.Sprintf("%q", u), fmt.Sprintf("%q", u), fmt.Sprintf("(print %q %q)", u[:9], u[9:]))
	fails, silent = d.fails || d.cut, d.silent
	if !d.html || r.p(35) {
		return "{{ readBody (httpGet " + arg + ") }}", d.body, fails, silent
	}
	fails = fails || d.deep
	fn := pick(r, "httpDoc", "httpDoc", "httpDocument", "curl")
	switch r.n(5) {
	case 0:
		return fmt.Sprintf("{{ ((%s %s).Find \"p\").Length }}", fn, arg), itoa(strings.Count(d.body, "<p>")), fails, silent
	case 1:
		return fmt.Sprintf("{{ (%s %s).Html }}", fn, arg), d.body, fails, silent
	case 2:
		return fmt.Sprintf("{{ $d := %s | %s }}{{ $d.Text }}", arg, fn), d.text, fails, silent
	}
	return fmt.Sprintf("{{ (%s %s).Text }}", fn, arg), d.text, fails, silent
}

func netStep(r *rng, docs []*netDoc, lib bool) LStep {
	s := LStep{Op: "content", ID: "t", Src: pick(r, "x.gt", "sub/y.template")}
	n := pick(r, 1, 1, 1, 2, 3)
	for ; n > 0; n-- {
		code, want, fails, silent := netCall(r, docs)
		if !lib {
			for strings.Contains(code, "readBody") {
				code, want, fails, silent = netCall(r, docs)
			}
		}
		s.Text += "<" + code + ">"
		s.Want += "<" + want + ">"
		s.Fails = s.Fails || fails
		if silent {
			s.Tags = []string{"silent"}
		}
	}
	return s
}

func netWorld(r *rng) (*World, []*netDoc) {
	w := envWorld(r)
	w.Patterns = nil
	docs := netDocs(r)
	for _, d := range docs {
		w.Docs = append(w.Docs, d.doc)
	}
	return w, docs
}

// netHit tells whether a fault that may make the step fail happened between two
// positions, and whether one of them silently ends a connection.
func netHit(tr []simk.Event) (hit, eof bool) {
	for i := range tr {
		e := &tr[i]
		if e.Fault == 0 || !e.FX || e.Fault == simk.FShort || e.Fault == simk.FStall {
			continue
		}
		hit = true
		eof = eof || e.Fault == simk.FNet
	}
	return
}

func evalNet(b *Bench, c *Case) *Violation {
	var steps []LStep
	for i, st := range c.Script.Steps {
		steps = append(steps, LStep{Op: "mark", Text: fmt.Sprintf("span%d", i)}, st)
	}
	steps = append(steps, LStep{Op: "mark", Text: "end"})
	o, outs := b.runScript(b.lib, c.W, &Script{Steps: steps}, c.Faults)
	b.sample(c, o)
	if o.Fatal || o.Timeout || o.End != simk.EndExit || len(outs) != len(steps) {
		return nil // other properties
	}
	fail := func(class, format string, a ...any) *Violation {
		return &Violation{Class: class, Msg: fmt.Sprintf(format, a...), Trace: o.Trace}
	}
	for i, st := range c.Script.Steps {
		if st.Op != "content" {
			continue
		}
		from, to := markAt(o.Trace, fmt.Sprintf("span%d", i)), markAt(o.Trace, fmt.Sprintf("span%d", i+1))
		if i == len(c.Script.Steps)-1 {
			to = markAt(o.Trace, "end")
		}
		if from < 0 || to < from {
			return nil
		}
		hit, eof := netHit(o.Trace[from:to])
		out := &outs[2*i+1]
		failed := out.Err != "" || out.Panic != ""
		silent := len(st.Tags) > 0 && eof
		switch {
		case out.Conns > 0:
			return fail("connection", "%d connections are open after call %d (%s)", out.Conns, i, clipN(st.Text, 200))
		case failed && !st.Fails && !hit:
			return fail("fails", "call %d (%s) fails although the document was sent completely: %s%s", i, clipN(st.Text, 200), clipN(out.Err, 300), out.Panic)
		case !failed && st.Fails:
			return fail("accepted", "call %d (%s) succeeds although the document cannot be obtained completely: %s", i, clipN(st.Text, 200), diffAt(st.Want, out.Result))
		case !failed && out.Result != st.Want && !silent:
			return fail("content", "call %d (%s) does not give what the server sent: %s", i, clipN(st.Text, 200), diffAt(st.Want, out.Result))
		}
	}
	return nil
}

// evalNetCLI: the file is what the documents give, or the command fails and
// there is no file.
func evalNetCLI(b *Bench, c *Case) *Violation {
	if len(c.Script.Steps) == 0 || c.W.file("/w/src/page.txt.gt") == nil || c.W.file("/w/src/page.txt.gt").Src() != c.Script.Steps[0].Text || c.W.Target != "/w/out" || len(c.W.ArgFiles) == 0 || !c.W.Overwrite || c.W.Print {
		return nil // not a case of this kind any more
	}
	o := b.runWorld(c.W, c.Faults)
	b.sample(c, o)
	if abnormal(o) != "" {
		return nil
	}
	fail := func(class, format string, a ...any) *Violation {
		return &Violation{Class: class, Msg: fmt.Sprintf(format, a...), Trace: o.Trace}
	}
	hit, eof := netHit(o.Trace)
	st := &c.Script.Steps[0]
	e, written := treeOf(o.Nodes).filesOnly("/w")["/w/out/page.txt"]
	silent := len(st.Tags) > 0 && eof
	switch {
	case o.Code != 0 && !st.Fails && !hit:
		return fail("fails", "exit %d although the documents were sent completely: %s", o.Code, clipN(string(o.Err), 300))
	case o.Code != 0 && written:
		return fail("written", "the documents were not obtained (exit %d), but the file was written: %s", o.Code, clipN(e.Data, 200))
	case o.Code == 0 && st.Fails:
		return fail("accepted", "exit 0 although a document cannot be obtained completely; the file is %s", clipN(e.Data, 200))
	case o.Code == 0 && !written:
		return fail("missing", "exit 0, but the file was not written")
	case o.Code == 0 && e.Data != st.Want && !silent:
		return fail("content", "the file is not what the server sent: %s", diffAt(st.Want, e.Data))
	}
	return nil
}

// netFaults draws faults of the network.
func netFaults(r *rng, tr []simk.Event, n int) (all [][]simk.Fault) {
	var idx []int
	for i := range tr {
		switch tr[i].Op {
		case simk.OpDial, simk.OpNetRead, simk.OpNetWrite:
			idx = append(idx, i)
		}
	}
	for ; n > 0 && len(idx) > 0; n-- {
		var fs []simk.Fault
		for k := pick(r, 1, 1, 1, 2, 3); k > 0; k-- {
			i := pickS(r, idx)
			switch {
			case tr[i].Op != simk.OpDial && r.p(25):
				// the server, or the network, takes its time
				f := at(tr, i, simk.FStall, pick(r, int64(1), 20, 100, 4000)*1e9, 0)
				f.Count = 1 + r.n(3)
				fs = append(fs, f)
			case tr[i].Op == simk.OpDial && r.p(80):
				fs = append(fs, netFault(r, tr, i))
			case tr[i].Op == simk.OpNetRead && tr[i].Ret > 1 && r.p(50):
				f := at(tr, i, simk.FShort, int64(1+r.n(int(tr[i].Ret)-1)), 0)
				f.Count = 1 + r.n(5)
				fs = append(fs, f)
			default:
				fs = append(fs, at(tr, i, simk.FErrno, pickS(r, errnosFor(tr[i].Op)), 0))
			}
		}
		all = append(all, fs)
	}
	return
}

func init() {
	register(&Prop{
		ID: "C14", Level: "exploration", Needs: "cli lib", Quick: 500, Thor: 60000, Real: realCLI + "; net/http client, gzip and HTML parsers", Stubs: stubCLI + "; HTTP servers, TCP and name resolution (in-memory connections)", Assume: cliAssume,
		Rule: "executions (distinct operation traces) of templates that get documents from simulated servers, under segmentation, refusals, resets and early ends of connections",
		Explore: func(b *Bench, r *rng, idx int, eval func(*Case) bool) {
			w, docs := netWorld(r)
			n := 8
			if b.thorough() {
				n = 24
			}
			var tr []simk.Event
			c := &Case{Kind: "lib", W: w, Script: &Script{}}
			if idx%4 == 3 {
				for !anyHTML(docs) {
					w, docs = netWorld(r)
				}
				st := netStep(r, docs, false)
				c = &Case{Kind: "cli", W: w, Script: &Script{Steps: []LStep{st}}}
				w.Files = append(w.Files, textFile("/w/src/page.txt.gt", st.Text))
				w.Print = false
				w.ArgFiles, w.Target, w.Overwrite, w.StdinKind = []string{"page.txt.gt"}, "/w/out", true, simk.InTTY
				if !eval(c) {
					return
				}
				tr = b.runWorld(w, nil).Trace
			} else {
				c.Script.Steps = append(c.Script.Steps, LStep{Op: "new", ID: "t", Folder: "/w/src"})
				for k := r.rangeN(1, 4); k > 0; k-- {
					c.Script.Steps = append(c.Script.Steps, netStep(r, docs, true))
				}
				if !eval(c) {
					return
				}
				o, _ := b.runScript(b.lib, w, c.Script, nil)
				tr = o.Trace
			}
			for _, fs := range netFaults(r, tr, n) {
				x := *c
				x.Faults = fs
				if !eval(&x) {
					return
				}
			}
		},
		Eval: func(b *Bench, c *Case) *Violation {
			if c.Kind == "cli" {
				return evalNetCLI(b, c)
			}
			return evalNet(b, c)
		},
	})
}

func anyHTML(docs []*netDoc) bool {
	for _, d := range docs {
		if d.html {
			return true
		}
	}
	return false
}
