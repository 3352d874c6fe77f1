// Package simk is the simulated operating system kernel. The very same source
// is compiled twice: inside the Go standard library (through a build overlay,
// as internal/simk, below package syscall) for the simulated processes, and as
// an ordinary package for the driver, which builds plans and inspects results.
package simk

// Enc is a tiny append-only binary encoder (varints and length-prefixed blobs).
type Enc struct{ B []byte }

func (e *Enc) U(v uint64) {
	for v >= 0x80 {
		e.B = append(e.B, byte(v)|0x80)
		v >>= 7
	}
	e.B = append(e.B, byte(v))
}
func (e *Enc) I(v int64) { e.U(uint64(v<<1) ^ uint64(v>>63)) }
func (e *Enc) Bool(v bool) {
	if v {
		e.U(1)
	} else {
		e.U(0)
	}
}
func (e *Enc) S(s string)    { e.U(uint64(len(s))); e.B = append(e.B, s...) }
func (e *Enc) Blob(s []byte) { e.U(uint64(len(s))); e.B = append(e.B, s...) }

// Dec decodes what Enc wrote. Bad is set on malformed input.
type Dec struct {
	B   []byte
	Bad bool
}

func (d *Dec) U() (v uint64) {
	var s uint
	for {
		if len(d.B) == 0 || s > 63 {
			d.Bad = true
			return 0
		}
		c := d.B[0]
		d.B = d.B[1:]
		v |= uint64(c&0x7f) << s
		if c < 0x80 {
			return
		}
		s += 7
	}
}
func (d *Dec) I() int64   { u := d.U(); return int64(u>>1) ^ -int64(u&1) }
func (d *Dec) Int() int   { return int(d.I()) }
func (d *Dec) Bool() bool { return d.U() != 0 }
func (d *Dec) Blob() []byte {
	n := d.U()
	if uint64(len(d.B)) < n {
		d.Bad = true
		return nil
	}
	r := append([]byte(nil), d.B[:n]...)
	d.B = d.B[n:]
	return r
}
func (d *Dec) S() string { return string(d.Blob()) }

// ---------------------------------------------------------------- plan

// Fault kinds.
const (
	FErrno       = 1  // the operation has no effect and returns errno Arg
	FShort       = 2  // read/write/getdents: only Arg bytes are transferred (success)
	FTorn        = 3  // write: Arg bytes reach the file, then errno Arg2 is returned
	FCrashBefore = 4  // the process dies before the operation
	FCrashAfter  = 5  // the process dies just after the operation took effect
	FCrashTorn   = 6  // write: Arg bytes reach the file and the process dies
	FClock       = 7  // the clock jumps by Arg nanoseconds
	FActor       = 8  // an external actor applies Acts before the operation
	FProc        = 9  // child process: Arg = exit code (<256) or 256+signal, Arg2 = max output bytes
	FNet         = 10 // network: Arg = kind (see net.go), Arg2 = bytes delivered first
	FStall       = 11 // the operation takes Arg nanoseconds
)

var FaultNames = [...]string{"", "errno", "short", "torn", "crash-before", "crash-after", "crash-torn", "clock-jump", "actor", "proc", "net", "stall"}

// Actions of an external actor sharing the file system.
const (
	AWrite     = 1 // create or replace file P with content D, mode M
	ARemove    = 2 // remove file or empty directory P
	ARename    = 3 // rename P to P2
	AMkdir     = 4
	AChmod     = 5
	ATouch     = 6
	ARemoveAll = 7
	ALink      = 8 // symbolic link P to P2
)

type Act struct {
	Kind  int
	P, P2 string
	D     []byte
	M     uint32
}

// Fault fires either at a given step (Step > 0), or as a rule at every
// operation of the mask Ops on a path (exact, or below when Sub), after Skip
// matches and at most Count times (0 = always).
type Fault struct {
	Step  int
	Ops   uint64
	Path  string
	Sub   bool
	Skip  int
	Count int
	Kind  int
	Arg   int64
	Arg2  int64
	Acts  []Act
}

// Node is one VFS object in a plan or a dump.
type Node struct {
	Path   string
	Mode   uint32 // S_IFxxx | perm
	Data   []byte
	Target string
	Link   string // hard link to that earlier path
	MTime  int64
}

// Stdin kinds.
const (
	InTTY    = 0
	InPipe   = 1
	InFile   = 2
	InNull   = 3
	InClosed = 4
)

type HTTPDoc struct {
	Host, Path string
	Raw        []byte // raw HTTP response bytes
	Chunks     []int  // delivered chunk sizes (the last repeats)
	DialErr    int64  // errno of the dial
	ResetAt    int64  // -1: none; connection reset after that many bytes
	EOFAt      int64  // -1: none; connection closed after that many bytes
}

type Plan struct {
	Args     []string
	Env      []string
	Cwd      string
	Seed     uint64
	Clock    int64 // ns since epoch
	Tick     int64 // ns added per step
	Nodes    []Node
	Capacity int64 // 0: unlimited; bytes of file data
	Stdin    []byte
	InKind   int
	InChunk  int // max bytes per read (0: unlimited)
	OutKind  int // InPipe, InFile, InTTY
	Faults   []Fault
	Docs     []HTTPDoc
	MaxSteps int
	TraceIO  bool   // include data lengths etc. in the trace
	NonRoot  bool   // permission bits are enforced
	Blob     []byte // harness specific
	Journal  bool   // report the changes of the tree, step by step
}

func (p *Plan) Encode() []byte {
	e := &Enc{}
	strs := func(s []string) {
		e.U(uint64(len(s)))
		for _, x := range s {
			e.S(x)
		}
	}
	strs(p.Args)
	strs(p.Env)
	e.S(p.Cwd)
	e.U(p.Seed)
	e.I(p.Clock)
	e.I(p.Tick)
	encNodes(e, p.Nodes)
	e.I(p.Capacity)
	e.Blob(p.Stdin)
	e.I(int64(p.InKind))
	e.I(int64(p.InChunk))
	e.I(int64(p.OutKind))
	encFaults(e, p.Faults)
	e.U(uint64(len(p.Docs)))
	for i := range p.Docs {
		d := &p.Docs[i]
		e.S(d.Host)
		e.S(d.Path)
		e.Blob(d.Raw)
		e.U(uint64(len(d.Chunks)))
		for _, c := range d.Chunks {
			e.I(int64(c))
		}
		e.I(d.DialErr)
		e.I(d.ResetAt)
		e.I(d.EOFAt)
	}
	e.I(int64(p.MaxSteps))
	e.Bool(p.TraceIO)
	e.Bool(p.NonRoot)
	e.Blob(p.Blob)
	e.Bool(p.Journal)
	return e.B
}

func (p *Plan) Decode(b []byte) bool {
	d := &Dec{B: b}
	strs := func() (r []string) {
		for n := d.U(); n > 0 && !d.Bad; n-- {
			r = append(r, d.S())
		}
		return
	}
	p.Args = strs()
	p.Env = strs()
	p.Cwd = d.S()
	p.Seed = d.U()
	p.Clock = d.I()
	p.Tick = d.I()
	p.Nodes = decNodes(d)
	p.Capacity = d.I()
	p.Stdin = d.Blob()
	p.InKind = d.Int()
	p.InChunk = d.Int()
	p.OutKind = d.Int()
	p.Faults = decFaults(d)
	for n := d.U(); n > 0 && !d.Bad; n-- {
		var h HTTPDoc
		h.Host, h.Path, h.Raw = d.S(), d.S(), d.Blob()
		for k := d.U(); k > 0 && !d.Bad; k-- {
			h.Chunks = append(h.Chunks, d.Int())
		}
		h.DialErr, h.ResetAt, h.EOFAt = d.I(), d.I(), d.I()
		p.Docs = append(p.Docs, h)
	}
	p.MaxSteps = d.Int()
	p.TraceIO = d.Bool()
	p.NonRoot = d.Bool()
	p.Blob = d.Blob()
	p.Journal = d.Bool()
	return !d.Bad
}

func encNodes(e *Enc, ns []Node) {
	e.U(uint64(len(ns)))
	for i := range ns {
		n := &ns[i]
		e.S(n.Path)
		e.U(uint64(n.Mode))
		e.Blob(n.Data)
		e.S(n.Target)
		e.S(n.Link)
		e.I(n.MTime)
	}
}

func decNodes(d *Dec) (r []Node) {
	for n := d.U(); n > 0 && !d.Bad; n-- {
		var x Node
		x.Path, x.Mode, x.Data, x.Target, x.Link, x.MTime = d.S(), uint32(d.U()), d.Blob(), d.S(), d.S(), d.I()
		r = append(r, x)
	}
	return
}

func encFaults(e *Enc, fs []Fault) {
	e.U(uint64(len(fs)))
	for i := range fs {
		f := &fs[i]
		e.I(int64(f.Step))
		e.U(f.Ops)
		e.S(f.Path)
		e.Bool(f.Sub)
		e.I(int64(f.Skip))
		e.I(int64(f.Count))
		e.I(int64(f.Kind))
		e.I(f.Arg)
		e.I(f.Arg2)
		e.U(uint64(len(f.Acts)))
		for j := range f.Acts {
			a := &f.Acts[j]
			e.I(int64(a.Kind))
			e.S(a.P)
			e.S(a.P2)
			e.Blob(a.D)
			e.U(uint64(a.M))
		}
	}
}

func decFaults(d *Dec) (r []Fault) {
	for n := d.U(); n > 0 && !d.Bad; n-- {
		var f Fault
		f.Step, f.Ops, f.Path, f.Sub = d.Int(), d.U(), d.S(), d.Bool()
		f.Skip, f.Count, f.Kind = d.Int(), d.Int(), d.Int()
		f.Arg, f.Arg2 = d.I(), d.I()
		for k := d.U(); k > 0 && !d.Bad; k-- {
			var a Act
			a.Kind, a.P, a.P2, a.D, a.M = d.Int(), d.S(), d.S(), d.Blob(), uint32(d.U())
			f.Acts = append(f.Acts, a)
		}
		r = append(r, f)
	}
	return
}

// ---------------------------------------------------------------- result

// Event is one simulated operation of a run.
type Event struct {
	Step  int
	Op    int
	Path  string
	Path2 string
	Arg   int64 // bytes requested, flags, mode...
	Ret   int64
	Errno int64
	Fault int  // fault kind that fired here, 0 if none
	FIdx  int  // its index in the plan
	FX    bool // the fault changed the outcome of the operation
}

// End reasons.
const (
	EndExit      = 0
	EndCrash     = 1
	EndPanic     = 2 // uncaught panic
	EndUnhandled = 3 // system call the simulator does not know
	EndSteps     = 4 // step budget exhausted
	EndSigpipe   = 5
)

type Result struct {
	End       int
	Code      int
	Info      string
	Steps     int
	Clock     int64
	Out       []byte
	Err       []byte
	OutErr    int // failed writes on stdout (injected)
	Nodes     []Node
	Trace     []Event
	OpenFds   []string
	Procs     int // child processes started
	Unwaited  int
	Conns     int // network connections opened
	OpenConns int // still open at the end
	StdinRead int64
	Reports   [][]byte
	Journal   []Change
}

// Change is what one operation did to the tree.
type Change struct {
	Step int
	Act  Act
}

func (r *Result) Encode() []byte {
	e := &Enc{}
	e.I(int64(r.End))
	e.I(int64(r.Code))
	e.S(r.Info)
	e.I(int64(r.Steps))
	e.I(r.Clock)
	e.Blob(r.Out)
	e.Blob(r.Err)
	e.I(int64(r.OutErr))
	encNodes(e, r.Nodes)
	e.U(uint64(len(r.Trace)))
	for i := range r.Trace {
		t := &r.Trace[i]
		e.I(int64(t.Step))
		e.I(int64(t.Op))
		e.S(t.Path)
		e.S(t.Path2)
		e.I(t.Arg)
		e.I(t.Ret)
		e.I(t.Errno)
		e.I(int64(t.Fault))
		e.I(int64(t.FIdx))
		e.Bool(t.FX)
	}
	e.U(uint64(len(r.OpenFds)))
	for _, s := range r.OpenFds {
		e.S(s)
	}
	e.I(int64(r.Procs))
	e.I(int64(r.Unwaited))
	e.I(int64(r.Conns))
	e.I(int64(r.OpenConns))
	e.I(r.StdinRead)
	e.U(uint64(len(r.Reports)))
	for _, b := range r.Reports {
		e.Blob(b)
	}
	e.U(uint64(len(r.Journal)))
	for i := range r.Journal {
		c := &r.Journal[i]
		e.I(int64(c.Step))
		e.I(int64(c.Act.Kind))
		e.S(c.Act.P)
		e.S(c.Act.P2)
		e.Blob(c.Act.D)
		e.U(uint64(c.Act.M))
	}
	e.S("END")
	return e.B
}

func (r *Result) Decode(b []byte) bool {
	d := &Dec{B: b}
	r.End, r.Code, r.Info, r.Steps, r.Clock = d.Int(), d.Int(), d.S(), d.Int(), d.I()
	r.Out, r.Err, r.OutErr = d.Blob(), d.Blob(), d.Int()
	r.Nodes = decNodes(d)
	for n := d.U(); n > 0 && !d.Bad; n-- {
		var t Event
		t.Step, t.Op, t.Path, t.Path2, t.Arg, t.Ret, t.Errno = d.Int(), d.Int(), d.S(), d.S(), d.I(), d.I(), d.I()
		t.Fault, t.FIdx, t.FX = d.Int(), d.Int(), d.Bool()
		r.Trace = append(r.Trace, t)
	}
	for n := d.U(); n > 0 && !d.Bad; n-- {
		r.OpenFds = append(r.OpenFds, d.S())
	}
	r.Procs, r.Unwaited, r.Conns, r.OpenConns, r.StdinRead = d.Int(), d.Int(), d.Int(), d.Int(), d.I()
	for n := d.U(); n > 0 && !d.Bad; n-- {
		r.Reports = append(r.Reports, d.Blob())
	}
	for n := d.U(); n > 0 && !d.Bad; n-- {
		c := Change{Step: d.Int()}
		c.Act = Act{Kind: d.Int(), P: d.S(), P2: d.S(), D: d.Blob(), M: uint32(d.U())}
		r.Journal = append(r.Journal, c)
	}
	return d.S() == "END" && !d.Bad
}
