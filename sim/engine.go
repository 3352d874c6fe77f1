package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"verifsim/simk"
)

// A Case is everything one evaluation needs; it is also the replay file.
type Case struct {
	Prop   string         `json:"prop"`
	Kind   string         `json:"kind"`
	W      *World         `json:"world"`
	W2     *World         `json:"world2,omitempty"` // C22: the other run
	Sched  []int          `json:"sched,omitempty"`  // C22: the operation up to which each run goes, in turn
	Faults []simk.Fault   `json:"faults,omitempty"`
	Later  [][]simk.Fault `json:"later,omitempty"` // faults of the following runs
	Seeds  []uint64       `json:"seeds,omitempty"`
	Script *Script        `json:"script,omitempty"` // library harness
	Note   string         `json:"note,omitempty"`
	Logs   []string       `json:"logs,omitempty"` // C17: logging options
	alone  *parAlone      // C12: the workers alone, which no schedule changes
	// filled in when a violation is reported
	Class  string   `json:"class,omitempty"`
	Msg    string   `json:"msg,omitempty"`
	Events []string `json:"events,omitempty"`
}

func (c *Case) clone() *Case {
	b, _ := json.Marshal(c)
	n := &Case{}
	if err := json.Unmarshal(b, n); err != nil {
		panic(err)
	}
	return n
}

type Violation struct {
	Class string
	Msg   string
	Trace []simk.Event
}

func viol(class, format string, a ...any) *Violation {
	return &Violation{Class: class, Msg: fmt.Sprintf(format, a...)}
}

// Stats of one check.
type Stats struct {
	mu         sync.Mutex
	Runs       int64
	Evals      int64
	Steps      int64
	SimNs      int64
	Fired      map[string]int64 // fault kind -> times it changed the outcome of an operation
	FiredOps   map[string]int64 // fault kind/operation
	Configured int64
	Traces     map[uint64]struct{}
	NonTrivial map[uint64]struct{}
	Ends       map[string]int64
	Probes     map[string]int64
	Samples    []string
	Crashes    int64
	Scheds     map[uint64]struct{}
	Harness    []string
}

func newStats() *Stats {
	return &Stats{Scheds: map[uint64]struct{}{}, Fired: map[string]int64{}, FiredOps: map[string]int64{}, Traces: map[uint64]struct{}{}, NonTrivial: map[uint64]struct{}{}, Ends: map[string]int64{}, Probes: map[string]int64{}}
}

func (s *Stats) probe(name string) {
	s.mu.Lock()
	s.Probes[name]++
	s.mu.Unlock()
}

func traceHash(tr []simk.Event) (h uint64) {
	h = 14695981039346656037
	add := func(v uint64) { h = (h ^ v) * 1099511628211 }
	for i := range tr {
		e := &tr[i]
		add(uint64(e.Op))
		for j := 0; j < len(e.Path); j++ {
			add(uint64(e.Path[j]))
		}
		add(uint64(e.Errno))
		add(uint64(e.Fault))
		if e.FX {
			add(77)
		}
		if e.Op != simk.OpStderr { // stack dumps contain addresses
			add(uint64(e.Ret))
		}
	}
	return
}

var endNames = []string{"exit", "crash", "panic", "unhandled", "step-budget", "sigpipe"}

func (s *Stats) record(o *RunOut, nfaults int, start int64) {
	h := traceHash(o.Trace)
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Runs++
	s.Steps += int64(o.Steps)
	if ns := o.Clock - start; len(o.Trace) > 0 && ns > 0 {
		s.SimNs += ns
	}
	s.Configured += int64(nfaults)
	fx := false
	for i := range o.Trace {
		e := &o.Trace[i]
		if e.Fault != 0 && e.FX {
			fx = true
			s.Fired[simk.FaultNames[e.Fault]]++
			s.FiredOps[simk.FaultNames[e.Fault]+"/"+simk.OpNames[e.Op]]++
		}
	}
	s.Traces[h] = struct{}{}
	if fx {
		s.NonTrivial[h] = struct{}{}
	}
	n := "fatal"
	if o.Timeout {
		n = "watchdog"
	} else if !o.Fatal {
		n = endNames[o.End]
		if o.End == simk.EndExit {
			n = "exit " + itoa(o.Code)
		}
	}
	s.Ends[n]++
}

// Env of one check run.
type Bench struct {
	cli, lib, libRace string
	st                *Stats
	tier              string
	seed              uint64
}

// schedule records the interleaving of a parallel script.
func (b *Bench) schedule(o *LOut) {
	b.st.mu.Lock()
	defer b.st.mu.Unlock()
	b.st.Probes["scheduling points"] += int64(o.Points)
	b.st.Probes["switches"] += int64(o.Switch)
	if o.Stalls > 0 {
		b.st.Probes["runs with workers blocked on a lock"]++
	}
	b.st.Scheds[o.Hash] = struct{}{}
}

func (b *Bench) thorough() bool { return b.tier == "thorough" }

// exec runs one simulated process and records its statistics.
func (b *Bench) exec(bin string, p *simk.Plan) *RunOut {
	o, err := run(bin, p)
	if err != nil {
		b.st.mu.Lock()
		b.st.Harness = append(b.st.Harness, err.Error())
		b.st.mu.Unlock()
		panic(harnessError{err.Error()})
	}
	if !o.Timeout && !o.Fatal && o.End == simk.EndUnhandled {
		panic(harnessError{"unhandled system call: " + o.Info})
	}
	b.st.record(o, len(p.Faults), p.Clock)
	return o
}

type harnessError struct{ s string }

func (b *Bench) runWorld(w *World, faults []simk.Fault) *RunOut {
	p := w.plan()
	p.Faults = faults
	return b.exec(b.cli, p)
}

// runOn runs the world's command on an existing file system.
func (b *Bench) runOn(w *World, nodes []simk.Node, faults []simk.Fault) *RunOut {
	p := w.plan()
	p.Nodes = nodes
	p.Faults = faults
	return b.exec(b.cli, p)
}

// Prop is one check.
type Prop struct {
	ID      string
	Rule    string
	Level   string
	Needs   string // "cli", "lib", "race" (space separated)
	Quick   int    // number of worlds
	Thor    int
	Faults  string
	Explore func(b *Bench, r *rng, idx int, eval func(*Case) bool)
	Eval    func(b *Bench, c *Case) *Violation
	Direct  func() []*Case // directed cases (always evaluated)
	Real    string
	Stubs   string
	Assume  []string
	Shrink  func(c *Case) []*Case // further property specific reductions
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// ---------------------------------------------------------------- faults

const (
	errEIO   = simk.EIO
	errENO   = simk.ENOSPC
	errEACC  = simk.EACCES
	errEROFS = simk.EROFS
)

func errnosFor(op int) []int64 {
	switch op {
	case simk.OpOpen:
		return []int64{simk.EIO, simk.EACCES, simk.EMFILE, simk.ENFILE, simk.ENOMEM, simk.ESTALE}
	case simk.OpCreate:
		return []int64{simk.EIO, simk.EACCES, simk.ENOSPC, simk.EMFILE, simk.EROFS, simk.EDQUOT}
	case simk.OpRead, simk.OpStdin, simk.OpPipeRead:
		return []int64{simk.EIO, simk.ESTALE, simk.ENOMEM}
	case simk.OpWrite:
		return []int64{simk.EIO, simk.ENOSPC, simk.EDQUOT, simk.EFBIG}
	case simk.OpStdout, simk.OpStderr:
		return []int64{simk.EIO, simk.ENOSPC}
	case simk.OpClose:
		return []int64{simk.EIO, simk.ENOSPC, simk.EDQUOT}
	case simk.OpStat, simk.OpFstat, simk.OpReadlink, simk.OpAccess:
		return []int64{simk.EIO, simk.EACCES, simk.ENOMEM}
	case simk.OpReaddir, simk.OpGetcwd, simk.OpChdir:
		return []int64{simk.EIO, simk.EACCES}
	case simk.OpMkdir:
		return []int64{simk.EIO, simk.ENOSPC, simk.EACCES, simk.EROFS}
	case simk.OpUnlink, simk.OpRmdir:
		return []int64{simk.EIO, simk.EACCES, simk.EBUSY, simk.EROFS}
	case simk.OpRename, simk.OpLink:
		return []int64{simk.EIO, simk.EACCES, simk.ENOSPC, simk.EBUSY}
	case simk.OpFork:
		return []int64{simk.EAGAIN, simk.ENOMEM}
	case simk.OpPipe:
		return []int64{simk.EMFILE, simk.ENFILE}
	case simk.OpTrunc, simk.OpSync, simk.OpChmod, simk.OpUtime:
		return []int64{simk.EIO, simk.ENOSPC}
	case simk.OpDial:
		return []int64{simk.ECONNREFUSED, simk.ETIMEDOUT, simk.ENOMEM}
	case simk.OpNetRead, simk.OpNetWrite:
		return []int64{simk.ECONNRESET}
	}
	return nil
}

// at builds a fault on exactly the operation of a recorded event. It is
// expressed as "the n-th operation of this class on this path", which stays
// meaningful when the workload is reduced.
func at(tr []simk.Event, i int, kind int, arg, arg2 int64) simk.Fault {
	e := &tr[i]
	skip := 0
	for j := 0; j < i; j++ {
		if tr[j].Op == e.Op && (tr[j].Path == e.Path || e.Path == "") {
			skip++
		}
	}
	f := simk.Fault{Ops: 1 << uint(e.Op), Path: e.Path, Skip: skip, Count: 1, Kind: kind, Arg: arg, Arg2: arg2}
	return f
}

type faultMix struct {
	errno, short, torn, crash int // weights
	eintr                     int
	filter                    func(e *simk.Event) bool
}

// randFault draws one fault for event i of a trace; ok is false when nothing of
// the mix applies there.
func randFault(r *rng, tr []simk.Event, i int, m *faultMix) (f simk.Fault, ok bool) {
	e := &tr[i]
	tot := m.errno + m.short + m.torn + m.crash + m.eintr
	x := r.n(tot)
	isW := e.Op == simk.OpWrite || e.Op == simk.OpStdout || e.Op == simk.OpStderr
	isR := isReadOp(e.Op)
	switch {
	case x < m.errno:
		es := errnosFor(e.Op)
		if len(es) == 0 {
			return
		}
		return at(tr, i, simk.FErrno, pickS(r, es), 0), true
	case x < m.errno+m.short:
		if isW || isR {
			if e.Ret < 2 {
				return
			}
			n := int64(1)
			if r.p(70) {
				n = int64(r.rangeN(1, int(e.Ret)-1))
			}
			return at(tr, i, simk.FShort, n, 0), true
		}
		if e.Op == simk.OpReaddir && e.Ret > 0 {
			return at(tr, i, simk.FShort, int64(r.rangeN(1, 2)), 0), true
		}
		return
	case x < m.errno+m.short+m.torn:
		if !isW || e.Ret < 1 {
			return
		}
		return at(tr, i, simk.FTorn, int64(r.n(int(e.Ret))), pick(r, int64(simk.ENOSPC), simk.EIO, simk.EDQUOT)), true
	case x < m.errno+m.short+m.torn+m.crash:
		if isW && e.Ret > 0 && r.p(60) {
			return at(tr, i, simk.FCrashTorn, int64(r.n(int(e.Ret)+1)), 0), true
		}
		return at(tr, i, pick(r, simk.FCrashBefore, simk.FCrashAfter), 0, 0), true
	default:
		if isR || isW || e.Op == simk.OpOpen || e.Op == simk.OpCreate || e.Op == simk.OpStat || e.Op == simk.OpFstat || e.Op == simk.OpReaddir {
			f := at(tr, i, simk.FErrno, simk.EINTR, 0)
			f.Count = r.rangeN(1, 4)
			return f, true
		}
		return
	}
}

// sampleFaults draws up to n single-fault lists spread over the trace, without
// repeating a position.
func sampleFaults(r *rng, tr []simk.Event, m *faultMix, n int) (out [][]simk.Fault) {
	var idx []int
	for i := range tr {
		if tr[i].Path == "<std>" {
			continue // fstat of an open standard stream does not fail
		}
		if tr[i].Path == "/bin/terraform" && (tr[i].Op == simk.OpStat || tr[i].Op == simk.OpAccess) {
			continue // exec.LookPath does not tell a failed lookup from a program that is not installed
		}
		if m.filter == nil || m.filter(&tr[i]) {
			idx = append(idx, i)
		}
	}
	shuffle(r, idx)
	for tries := 0; len(out) < n && tries < 6*n+20 && len(idx) > 0; tries++ {
		i := idx[tries%len(idx)]
		f, ok := randFault(r, tr, i, m)
		if !ok {
			continue
		}
		l := []simk.Fault{f}
		if e := &tr[i]; f.Kind == simk.FErrno && f.Arg != simk.EINTR && e.Ret >= 2 && isReadOp(e.Op) && r.p(40) {
			// a torn read: a part is delivered before the failure
			l[0].Skip++
			l = append(l, at(tr, i, simk.FShort, int64(r.rangeN(1, int(e.Ret)-1)), 0))
		}
		out = append(out, l)
	}
	return
}

func isReadOp(op int) bool {
	return op == simk.OpRead || op == simk.OpStdin || op == simk.OpPipeRead || op == simk.OpNetRead
}

// combine merges single faults into multi-fault lists.
func combine(r *rng, singles [][]simk.Fault, n, max int) (out [][]simk.Fault) {
	if len(singles) < 2 {
		return
	}
	for ; n > 0; n-- {
		var l []simk.Fault
		for k := r.rangeN(2, max); k > 0; k-- {
			l = append(l, pickS(r, singles)...)
		}
		out = append(out, l)
	}
	return
}

func describeFault(f *simk.Fault) string {
	var ops []string
	for i := 0; i < simk.NumOps; i++ {
		if f.Ops&(1<<uint(i)) != 0 {
			ops = append(ops, simk.OpNames[i])
		}
	}
	where := strings.Join(ops, "|") + " " + f.Path
	if f.Step > 0 {
		where = fmt.Sprintf("step %d", f.Step)
	}
	if len(ops) > 6 {
		where = fmt.Sprintf("%d operation classes %s", len(ops), f.Path)
	}
	s := fmt.Sprintf("%s at %s (skip %d, count %d) arg %d %d", simk.FaultNames[f.Kind], where, f.Skip, f.Count, f.Arg, f.Arg2)
	for _, a := range f.Acts {
		s += fmt.Sprintf(" [act %d %s %s]", a.Kind, a.P, a.P2)
	}
	return s
}

func describeTrace(tr []simk.Event) (out []string) {
	for i := range tr {
		e := &tr[i]
		s := fmt.Sprintf("%d %s %s", e.Step, simk.OpNames[e.Op], e.Path)
		if e.Path2 != "" {
			s += " " + e.Path2
		}
		s += fmt.Sprintf(" (%d) = %d", e.Arg, e.Ret)
		if e.Errno != 0 {
			s += fmt.Sprintf(" errno %d", e.Errno)
		}
		if e.Fault != 0 {
			s += " <" + simk.FaultNames[e.Fault] + ">"
		}
		out = append(out, s)
	}
	return
}

// ---------------------------------------------------------------- check

func safeEval(b *Bench, p *Prop, c *Case) (v *Violation, herr string) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(harnessError); ok {
				herr = h.s
				return
			}
			panic(r)
		}
	}()
	return p.Eval(b, c), ""
}

type found struct {
	idx int
	c   *Case
	v   *Violation
}

func runCheck(p *Prop, tier string, seed uint64, count int, budget time.Duration) int {
	t0 := time.Now()
	b := &Bench{st: newStats(), tier: tier, seed: seed}
	if err := b.build(p.Needs); err != nil {
		fmt.Println(err)
		return 2
	}
	tBuild := time.Since(t0)
	n := p.Quick
	if tier == "thorough" {
		n = p.Thor
	}
	if count > 0 {
		n = count
	}
	known := loadFindings(p.ID)
	var (
		mu       sync.Mutex
		best     *found
		stopIdx  = int64(1 << 40)
		next     int64
		herrs    []string
		knownHit = map[string]int{}
		done     int64
	)
	deadline := time.Now().Add(budget)
	evalOne := func(idx int, c *Case) bool {
		atomic.AddInt64(&b.st.Evals, 1)
		v, herr := safeEval(b, p, c)
		if herr != "" {
			mu.Lock()
			herrs = append(herrs, herr)
			mu.Unlock()
			atomic.StoreInt64(&stopIdx, -1)
			return false
		}
		if v == nil {
			return true
		}
		mu.Lock()
		defer mu.Unlock()
		if known[v.Class] != "" {
			knownHit[v.Class]++
			return true
		}
		if best == nil || idx < best.idx {
			best = &found{idx, c, v}
			if int64(idx) < atomic.LoadInt64(&stopIdx) {
				atomic.StoreInt64(&stopIdx, int64(idx))
			}
		}
		return false
	}
	if p.Direct != nil {
		for i, c := range p.Direct() {
			c.Prop = p.ID
			evalOne(i-1000, c)
		}
	}
	var wg sync.WaitGroup
	for k := 0; k < workers(); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					if h, ok := r.(harnessError); ok {
						mu.Lock()
						herrs = append(herrs, h.s)
						mu.Unlock()
						atomic.StoreInt64(&stopIdx, -1)
						return
					}
					panic(r)
				}
			}()
			for {
				i := int(atomic.AddInt64(&next, 1) - 1)
				if i >= n || int64(i) >= atomic.LoadInt64(&stopIdx) || time.Now().After(deadline) {
					return
				}
				r := newRng(seed, hashStr(p.ID), uint64(i))
				stop := false
				p.Explore(b, r, i, func(c *Case) bool {
					if stop || atomic.LoadInt64(&stopIdx) < int64(i) {
						return false
					}
					c.Prop = p.ID
					if !evalOne(i, c) {
						stop = true
						return false
					}
					return true
				})
				atomic.AddInt64(&done, 1)
			}
		}()
	}
	wg.Wait()
	if len(herrs) > 0 {
		fmt.Println("harness error:", herrs[0])
		return 2
	}
	code := 0
	nviol := 0
	if best != nil {
		nviol = 1
		c, v, err := minimise(b, p, best.c, best.v)
		if err != nil {
			fmt.Println("harness error:", err)
			return 2
		}
		path := writeReplay(p, c, v)
		fmt.Printf("class: %s\n%s\n", v.Class, v.Msg)
		for i := range c.Faults {
			fmt.Println("fault:", describeFault(&c.Faults[i]))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		code = 1
	}
	var classes []string
	for k := range known {
		classes = append(classes, k)
	}
	sort.Strings(classes)
	for _, k := range classes {
		if knownHit[k] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s (reproduced %d times in this run)\n", p.ID, known[k], knownHit[k])
		} else if best == nil {
			fmt.Printf("note: known finding %s was not met in this run\n", k)
		}
	}
	wall := time.Since(t0)
	writeEvidence(p, b, n, int(done), wall, tBuild, nviol, knownHit)
	fmt.Printf("%s: %d worlds, %d evaluations, %d simulated runs, %d distinct executions (%d with an effective fault) in %.1fs (build %.1fs)\n", p.ID, done, b.st.Evals, b.st.Runs, len(b.st.Traces), len(b.st.NonTrivial), wall.Seconds(), tBuild.Seconds())
	return code
}

func workers() int { return 8 }

func (b *Bench) build(needs string) (err error) {
	for _, n := range strings.Fields(needs) {
		switch n {
		case "cli":
			if b.cli, err = buildCLI(); err != nil {
				return
			}
		case "lib":
			if b.lib, err = buildLib(); err != nil {
				return
			}
		case "race":
			if b.libRace, err = buildRace(); err != nil {
				return
			}
		}
	}
	return
}

// ---------------------------------------------------------------- minimise

// raceRetries is the number of executions tried to see a data race again.
const raceRetries = 20

func minimise(b *Bench, p *Prop, c *Case, v *Violation) (*Case, *Violation, error) {
	c = c.clone()
	// the simulation is deterministic, what the race detector remembers is not always
	again, herr := safeEval(b, p, c)
	for k := 0; v.Class == "race" && k < raceRetries && herr == "" && (again == nil || again.Class != v.Class); k++ {
		again, herr = safeEval(b, p, c)
	}
	if herr != "" {
		return nil, nil, fmt.Errorf("%s", herr)
	}
	if v.Class == "race" && (again == nil || again.Class != v.Class) {
		return c, v, nil // its reports are never wrong
	}
	if again == nil || again.Class != v.Class {
		return nil, nil, fmt.Errorf("violation %s (%s) did not reproduce: the simulation is not deterministic", v.Class, v.Msg)
	}
	v = again
	deadline := time.Now().Add(60 * time.Second)
	tries := 0
	for progress := true; progress && tries < 600 && time.Now().Before(deadline); {
		progress = false
		cands := reductions(c)
		if p.Shrink != nil {
			cands = append(p.Shrink(c), cands...)
		}
		for _, k := range cands {
			if tries++; tries > 600 || time.Now().After(deadline) {
				break
			}
			if k.W != nil && k.Script == nil && k.W.Bare == nil && !k.W.sane() {
				continue
			}
			nv, herr := safeEval(b, p, k)
			if herr == "" && nv != nil && nv.Class == v.Class {
				c, v, progress = k, nv, true
				break
			}
		}
	}
	return c, v, nil
}

func drop[T any](xs []T, i int) []T {
	return append(append([]T{}, xs[:i]...), xs[i+1:]...)
}

// reductions lists simpler variants of a case, most radical first.
func reductions(c *Case) (out []*Case) {
	add := func(f func(n *Case)) {
		n := c.clone()
		f(n)
		out = append(out, n)
	}
	for i := range c.Faults {
		i := i
		add(func(n *Case) { n.Faults = drop(n.Faults, i) })
	}
	for j := range c.Later {
		j := j
		add(func(n *Case) { n.Later = drop(n.Later, j) })
		for i := range c.Later[j] {
			i := i
			add(func(n *Case) { n.Later[j] = drop(n.Later[j], i) })
		}
	}
	if c.Script != nil {
		for i := range c.Script.Steps {
			i := i
			add(func(n *Case) { n.Script.Steps = drop(n.Script.Steps, i) })
			for j := range c.Script.Steps[i].Workers {
				j := j
				add(func(n *Case) { n.Script.Steps[i].Workers = drop(n.Script.Steps[i].Workers, j) })
				for k, st := range c.Script.Steps[i].Workers[j] {
					k := k
					add(func(n *Case) { n.Script.Steps[i].Workers[j] = drop(n.Script.Steps[i].Workers[j], k) })
					if l := strings.SplitAfter(st.Text, "\n"); len(l) > 1 {
						for q := range l {
							t := strings.Join(drop(append([]string{}, l...), q), "")
							add(func(n *Case) { n.Script.Steps[i].Workers[j][k].Text = t })
						}
					}
				}
			}
		}
	}
	if c.W == nil {
		return
	}
	w := c.W
	for i := range w.Files {
		i := i
		add(func(n *Case) { n.W.Files = drop(n.W.Files, i) })
	}
	for i := range w.Dirs {
		i := i
		add(func(n *Case) { n.W.Dirs = drop(n.W.Dirs, i) })
	}
	strs := []*[]string{&w.Patterns, &w.Exclude, &w.ArgFiles, &w.Imports, &w.ImportsIf, &w.Extra, &w.Env}
	for k := range strs {
		for i := range *strs[k] {
			k, i := k, i
			add(func(n *Case) {
				l := []*[]string{&n.W.Patterns, &n.W.Exclude, &n.W.ArgFiles, &n.W.Imports, &n.W.ImportsIf, &n.W.Extra, &n.W.Env}
				*l[k] = drop(*l[k], i)
			})
		}
	}
	for i := range w.ArgCode {
		i := i
		add(func(n *Case) { n.W.ArgCode = drop(n.W.ArgCode, i) })
	}
	for i := range w.Vars {
		i := i
		add(func(n *Case) { n.W.Vars = drop(n.W.Vars, i) })
	}
	bools := func(n *World) []*bool {
		return []*bool{&n.Print, &n.Strict, &n.AcceptNo, &n.Follow, &n.RunWord, &n.Overwrite, &n.Terraform, &n.NonRoot}
	}
	for i, x := range bools(w) {
		if *x {
			i := i
			add(func(n *Case) { *bools(n.W)[i] = false })
		}
	}
	if w.Recursive || w.Depth > 0 {
		add(func(n *Case) { n.W.Recursive, n.W.Depth = false, 0 })
	}
	if w.Target != "" {
		add(func(n *Case) { n.W.Target = "" })
	}
	if w.StdinKind != simk.InTTY {
		add(func(n *Case) { n.W.StdinKind, n.W.Stdin, n.W.StdinRaw = simk.InTTY, nil, "" })
	}
	for i := range w.Files {
		for j := range w.Files[i].Frags {
			i, j := i, j
			add(func(n *Case) { n.W.Files[i].Frags = drop(n.W.Files[i].Frags, j) })
		}
	}
	for i := range w.ArgCode {
		for j := range w.ArgCode[i] {
			i, j := i, j
			add(func(n *Case) { n.W.ArgCode[i] = drop(n.W.ArgCode[i], j) })
		}
	}
	for j := range w.Stdin {
		j := j
		add(func(n *Case) { n.W.Stdin = drop(n.W.Stdin, j) })
	}
	return
}

// ---------------------------------------------------------------- replay

var evidenceDir = filepath.Join(verifRoot, "evidence")

func writeReplay(p *Prop, c *Case, v *Violation) string {
	c.Class, c.Msg = v.Class, v.Msg
	c.Events = nil
	for i := range c.Faults {
		c.Events = append(c.Events, describeFault(&c.Faults[i]))
	}
	c.Events = append(c.Events, describeTrace(v.Trace)...)
	os.MkdirAll(evidenceDir, 0755)
	path := filepath.Join(evidenceDir, p.ID+".replay.json")
	data, _ := json.MarshalIndent(c, "", " ")
	os.WriteFile(path, data, 0644)
	return path
}

func replay(path string) int {
	data, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	c := &Case{}
	if err := json.Unmarshal(data, c); err != nil {
		fmt.Println(err)
		return 2
	}
	p := props[c.Prop]
	if p == nil {
		fmt.Println("unknown property", c.Prop)
		return 2
	}
	b := &Bench{st: newStats(), tier: "quick"}
	if err := b.build(p.Needs); err != nil {
		fmt.Println(err)
		return 2
	}
	v, herr := safeEval(b, p, c)
	for k := 0; c.Class == "race" && k < raceRetries && herr == "" && (v == nil || v.Class != "race"); k++ {
		v, herr = safeEval(b, p, c)
	}
	if herr != "" {
		fmt.Println("harness error:", herr)
		return 2
	}
	if v == nil {
		fmt.Println("the case passes")
		return 0
	}
	fmt.Printf("class: %s\n%s\n", v.Class, v.Msg)
	if os.Getenv("TRACE") != "" {
		for _, l := range describeTrace(v.Trace) {
			fmt.Println("  ", l)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	return 1
}

// ---------------------------------------------------------------- findings

// loadFindings reads the "finding:" lines of the known findings file:
//
//	finding: property=C01 class=<class> <what fails>
func loadFindings(id string) map[string]string {
	m := map[string]string{}
	data, _ := os.ReadFile(filepath.Join(verifRoot, "KNOWN_FINDINGS.txt"))
	for _, l := range strings.Split(string(data), "\n") {
		f := strings.Fields(l)
		if len(f) < 4 || f[0] != "finding:" || f[1] != "property="+id {
			continue
		}
		m[strings.TrimPrefix(f[2], "class=")] = strings.Join(f[3:], " ")
	}
	return m
}

func writeEvidence(p *Prop, b *Bench, planned, done int, wall, build time.Duration, nviol int, known map[string]int) {
	s := b.st
	hours := (wall - build).Hours()
	cov := map[string]any{
		"evaluations":                 s.Evals,
		"distinct_nontrivial":         max(len(s.NonTrivial), len(s.Scheds)),
		"distinct_schedules":          len(s.Scheds),
		"rule":                        p.Rule,
		"samples":                     s.Samples,
		"worlds":                      done,
		"worlds_planned":              planned,
		"simulated_runs":              s.Runs,
		"runs_per_hour":               int64(float64(s.Runs) / hours),
		"seeds_per_hour":              int64(float64(done) / hours),
		"simulated_operations":        s.Steps,
		"simulated_seconds":           float64(s.SimNs) / 1e9,
		"faults_configured":           s.Configured,
		"faults_effective_by_kind":    s.Fired,
		"faults_effective_by_kind_op": s.FiredOps,
		"distinct_executions":         len(s.Traces),
		"distinct_executions_measure": "hash of the complete operation trace (class, path, result, errno, injected fault)",
		"ends_of_runs":                s.Ends,
		"probes":                      s.Probes,
		"real_components":             p.Real,
		"stub_components":             p.Stubs,
		"known_findings_met":          known,
		"build_seconds":               build.Seconds(),
	}
	if p.Level == "other" {
		cov["explanation"] = p.Rule
	}
	if s.Samples == nil {
		cov["samples"] = []string{}
	}
	ev := map[string]any{"property": p.ID, "tier": b.tier, "seed": int64(b.seed), "level": p.Level, "coverage": cov, "wall_s": wall.Seconds(), "violations": nviol, "assumptions": p.Assume}
	os.MkdirAll(evidenceDir, 0755)
	data, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evidenceDir, p.ID+".json"), data, 0644)
}

func (b *Bench) sample(c *Case, o *RunOut) {
	b.st.mu.Lock()
	defer b.st.mu.Unlock()
	if len(b.st.Samples) >= 4 {
		return
	}
	s := fmt.Sprintf("kind=%s", c.Kind)
	if c.W != nil {
		s += fmt.Sprintf(" args=%q files=%d seed=%d", c.W.args(), len(c.W.Files), c.W.Seed)
	}
	for i := range c.Faults {
		s += " | " + describeFault(&c.Faults[i])
	}
	if o != nil {
		s += fmt.Sprintf(" -> end=%s code=%d steps=%d", endNames[o.End], o.Code, o.Steps)
	}
	b.st.Samples = append(b.st.Samples, clipN(s, 900))
}

func clipN(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
