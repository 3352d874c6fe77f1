package main

import (
	"fmt"
	"strings"
	"verifsim/simk"
)

// ---------------------------------------------------------------- C17

// logFrags call the logging functions; they render as nothing.
var logFrags = []string{`{{ info "x" }}`, `{{ warning "careful %d" 3 }}`, `{{ error "not so good" }}`, `{{ debug "detail" }}`, `{{ trace "more" (dict "a" 1) }}`, `{{ notice "old" }}`, `{{ critical "old" }}`, `{{ infof "%v" (list 1 2) }}`, `{{ range (until 3) }}{{ warn . }}{{ end }}`, "{{ error `many\nlines\n` }}", `@info("razor")` + "\n", `{{ info (repeat 2000 "long ") }}`}

// logStops end the template, or the run, through the logger.
var logStops = []string{`{{ fatal "stop here" }}`, `{{ panic "no more" }}`, `{{ fatalf "%d" 1 }}`, `{{ raise "oops" }}`, `{{ exit 3 }}`, `{{ if eq 1 2 }}{{ fatal "never" }}{{ end }}`, `{{ run "echo noisy >&2 ; echo ok" }}`, `{{ .undefinedThing }}`, `{{ exec "echo '[1]' ; echo noise8 >&2" }}`}

func logWorld(r *rng) *World {
	var w *World
	switch r.n(10) {
	case 0, 1, 2, 3:
		p := defaultProfile()
		p.Errors, p.Run, p.Save = r.p(60), 25, 15
		p.Terraform = 15
		w = cliWorld(r, p, nil)
	case 4, 5:
		w = cmdWorld(r, false, r.p(50))
	case 6, 7:
		w = orderWorld(r)
	case 8:
		w = saveWorld(r)
	default:
		w = envWorld(r, []Frag{lit("one\n")}, []Frag{lit("two {{ add 1 1 }}\n")})
		w.Bare = pickS(r, bareLines)
		for _, a := range w.Bare {
			if strings.Contains(a, "help") || a == "-L" || a == "-F" || strings.Contains(a, "log-level") {
				w.Bare = nil // the options themselves are listed there
				break
			}
		}
	}
	// without the logging options the generator may have drawn
	var ex []string
	for i := 0; i < len(w.Extra); i++ {
		switch a := w.Extra[i]; {
		case a == "--internal-log-file-path" || a == "-L":
			i++
		case strings.Contains(a, "log-level"):
		default:
			ex = append(ex, a)
		}
	}
	w.Extra = ex
	for i := range w.Files {
		f := &w.Files[i]
		if f.Link != "" || !isTemplateName(f.Path) {
			continue
		}
		if r.p(50) {
			for k := r.rangeN(1, 3); k > 0; k-- {
				f.Frags = append(f.Frags, lit(pickS(r, logFrags)))
			}
			f.Frags = append(f.Frags, lit("\n"))
		}
		if r.p(12) {
			f.Frags = append(f.Frags, lit(pickS(r, logStops)), lit("\nafter\n"))
		}
	}
	return w
}

func logOpts(r *rng) (l []string) {
	lv := func() string {
		return pick(r, "disabled", "panic", "fatal", "error", "warning", "info", "debug", "trace", "0", "3", "4", "6")
	}
	if r.p(85) {
		p := pick(r, "/log/run.log", "/log/run.log", "/log/run.log", "/log/new/deep/run.log", "/log", "/log/old.log", "/log/old.log/x.log", "/log/dangling", "/dev/full")
		l = append(l, pick(r, "--internal-log-file-path=", "-F")+p)
	}
	if r.p(40) {
		l = append(l, "--template-log-level="+lv())
	}
	if r.p(40) {
		l = append(l, pick(r, "--internal-log-level=", "--log-level=", "-L")+lv())
	}
	if r.p(30) {
		l = append(l, "--template-log-file-level="+lv())
	}
	if r.p(30) {
		l = append(l, "--internal-log-file-level="+lv())
	}
	if r.p(15) {
		l = append(l, "ENV:GOTEMPLATE_TEMPLATE_LOG_LEVEL="+lv())
	}
	if r.p(15) {
		l = append(l, "ENV:GOTEMPLATE_INTERNAL_LOG_LEVEL="+lv())
	}
	return
}

// withLogs is the same command with logging options.
func withLogs(w *World, logs []string) *World {
	v := *w
	v.Env = append([]string{}, w.Env...)
	v.Extra = append([]string{}, w.Extra...)
	var opts []string
	for _, l := range logs {
		if e, ok := strings.CutPrefix(l, "ENV:"); ok {
			v.Env = append(v.Env, e)
		} else {
			opts = append(opts, l)
		}
	}
	v.Extra = append(v.Extra, opts...)
	if v.Bare != nil {
		v.Bare = append(append([]string{}, w.Bare...), opts...)
		if len(w.Bare) > 0 && (w.Bare[0] == "run" || w.Bare[0] == "list") {
			v.Bare = append(append([]string{w.Bare[0]}, opts...), w.Bare[1:]...)
		}
	}
	return &v
}

func isLogEvent(e *simk.Event) bool {
	return e.Op == simk.OpStderr || inDir(e.Path, "/log") || strings.HasPrefix(e.Path, "/dev/full")
}

func evalC17(b *Bench, c *Case) *Violation {
	base := *c.W
	base.Dirs = append(append([]string{}, base.Dirs...), "/log")
	if base.file("/log/old.log") == nil {
		base.Files = append(append([]WFile{}, base.Files...), textFile("/log/old.log", "previous log\n"), WFile{Path: "/log/dangling", Mode: 0777, Link: "/log/none/x"})
	}
	a := b.runWorld(&base, nil)
	if ab := abnormal(a); ab != "" {
		return &Violation{Class: "abnormal", Msg: ab, Trace: a.Trace}
	}
	o := b.runWorld(withLogs(&base, c.Logs), c.Faults)
	b.sample(c, o)
	if ab := abnormal(o); ab != "" {
		return &Violation{Class: "abnormal", Msg: fmt.Sprintf("%s (logging options %q)", ab, c.Logs), Trace: o.Trace}
	}
	how := fmt.Sprintf(" (logging options %q)", c.Logs)
	if a.Code != o.Code {
		return &Violation{Class: "exit", Msg: fmt.Sprintf("exit %d instead of %d%s: %s", o.Code, a.Code, how, clip(string(o.Err))), Trace: o.Trace}
	}
	if x, y := normal(a.Out), normal(o.Out); x != y {
		return &Violation{Class: "stdout", Msg: "standard output (without, with logging) " + diffAt(x, y) + how, Trace: o.Trace}
	}
	x, y := treeOf(a.Nodes).filesOnly(workRoots...), treeOf(o.Nodes).filesOnly(workRoots...)
	if d := x.diff(y, true); d != "" {
		return &Violation{Class: "files", Msg: d + how, Trace: o.Trace}
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C17", Level: "exploration", Needs: "cli", Quick: 400, Thor: 60000, Real: realCLI, Stubs: stubCLI, Assume: cliAssume,
		Rule: "executions (distinct operation traces) in which an operation on the log file or on standard error was made to fail",
		Explore: func(b *Bench, r *rng, idx int, eval func(*Case) bool) {
			w := logWorld(r)
			nl, nf := 2, 6
			if b.thorough() {
				nl, nf = 4, 24
			}
			for k := 0; k < nl; k++ {
				logs := logOpts(r)
				if !eval(&Case{Kind: "log", W: w, Logs: logs}) {
					return
				}
				v := withLogs(w, logs)
				v.Dirs = append(append([]string{}, v.Dirs...), "/log")
				o := b.runWorld(v, nil)
				m := &faultMix{errno: 5, torn: 3, short: 2, eintr: 1, filter: isLogEvent}
				for _, fs := range sampleFaults(r, o.Trace, m, nf) {
					for i := range fs {
						if r.p(40) && fs[i].Kind != simk.FShort && fs[i].Arg != int64(simk.EINTR) {
							fs[i].Count = 1 << 20 // from then on
							if fs[i].Kind == simk.FTorn {
								fs[i].Count = 40 // long outputs by a few bytes take too many operations
							}
						}
					}
					if !eval(&Case{Kind: "log", W: w, Logs: logs, Faults: fs}) {
						return
					}
				}
				// everything about the log fails from the start
				e := pick(r, int64(simk.EIO), simk.ENOSPC)
				all := []simk.Fault{{Ops: 1 << simk.OpStderr, Kind: simk.FErrno, Arg: e, Count: 1 << 20}}
				if !eval(&Case{Kind: "log", W: w, Logs: logs, Faults: all}) {
					return
				}
				ops := uint64(1<<simk.OpCreate | 1<<simk.OpOpen | 1<<simk.OpMkdir | 1<<simk.OpChmod | 1<<simk.OpStat)
				p := "/log/run.log"
				for _, l := range logs {
					if i := strings.Index(l, "/log/"); i >= 0 {
						p = l[i:]
					}
				}
				all = append(all, simk.Fault{Ops: ops | 1<<simk.OpWrite, Path: p, Kind: simk.FErrno, Arg: pick(r, int64(simk.EIO), simk.EACCES, simk.EMFILE), Count: 1 << 20})
				if !eval(&Case{Kind: "log", W: w, Logs: logs, Faults: all}) {
					return
				}
			}
		},
		Eval: evalC17,
	})
}
