package simk

// The simulated kernel of one process: descriptors, the operation counter that
// is the time line of a run, fault injection, trace, and the end of the run.

const atFDCWD = -100

type pipe struct {
	buf     []byte
	writers int
	readers int
	procs   []*proc // processes holding the write end
}

type file struct {
	in    *inode
	path  string
	off   int64
	flags int
	refs  int
	pipe  *pipe
	wr    bool // write end of a pipe
	std   int  // 1+n for the three standard streams
	ents  []dirent
	dpos  int
	dot   bool
	from  int64 // 1+offset of the first byte written
}

const fdBase = 1000

type Kernel struct {
	On        bool
	plan      Plan
	fs        *FS
	cwd       *inode
	fds       []*file // index fd, or fd-fdBase+3 for the others
	cloexec   map[int]bool
	umask     uint32
	steps     int
	clock     int64
	rng       uint64
	preRng    uint64
	preempt   uint64 // other goroutines may run before one operation out of so many
	tmpRng    uint64
	hits      []int
	fired     []int
	res       Result
	stdinOff  int
	procs     []*proc
	nextPid   int
	conns     int
	openConns int
	stalled   int64
	ended     bool
	base      []Node // journal: the tree after the last step
	baseGen   uint64
}

var K Kernel

func (k *Kernel) boot(p *Plan) {
	k.plan = *p
	k.fs = NewFS()
	k.fs.Cap = p.Capacity
	k.fs.NonRoot = p.NonRoot
	k.fs.Load(p.Nodes)
	k.clock = p.Clock
	k.rng = p.Seed*2 + 1
	k.tmpRng = p.Seed*0x9e3779b97f4a7c15 + 3
	k.preRng = p.Seed*0x94d049bb133111eb + 9
	k.preempt = [4]uint64{0, 2, 5, 17}[k.preRng>>40&3]
	k.umask = 022
	k.nextPid = 4242
	k.hits = make([]int, len(p.Faults))
	k.fired = make([]int, len(p.Faults))
	_, _, cwd, _ := k.fs.walk(k.fs.root, p.Cwd, true)
	if cwd == nil {
		cwd = k.fs.root
	}
	k.cwd = cwd
	for i := 0; i < 3; i++ {
		k.fds = append(k.fds, &file{std: i + 1, refs: 1})
	}
	if p.InKind == InClosed {
		k.fds[0] = nil
	}
	if k.plan.MaxSteps == 0 {
		k.plan.MaxSteps = 200000
	}
	k.rebase()
	k.On = true
}

// TempRand gives the random part of temporary names.
func TempRand() uint32 {
	K.tmpRng += 0x9e3779b97f4a7c15
	z := K.tmpRng
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	return uint32(z >> 32)
}

func (k *Kernel) rand() uint64 {
	k.rng += 0x9e3779b97f4a7c15
	z := k.rng
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

// ------------------------------------------------------------ descriptors

func (k *Kernel) get(fd int) *file {
	i := fd
	if fd >= fdBase {
		i = fd - fdBase + 3
	} else if fd > 2 {
		return nil
	}
	if i < 0 || i >= len(k.fds) {
		return nil
	}
	return k.fds[i]
}

func (k *Kernel) newFd(f *file) int {
	f.refs++
	for i := 3; i < len(k.fds); i++ {
		if k.fds[i] == nil {
			k.fds[i] = f
			return fdBase + i - 3
		}
	}
	k.fds = append(k.fds, f)
	return fdBase + len(k.fds) - 1 - 3
}

func (k *Kernel) setFd(fd int, f *file) {
	i := fd
	if fd >= fdBase {
		i = fd - fdBase + 3
	}
	k.fds[i] = f
}

func (k *Kernel) unref(f *file) {
	f.refs--
	if f.refs == 0 && f.pipe != nil {
		if f.wr {
			f.pipe.writers--
		} else {
			f.pipe.readers--
		}
	}
}

// ------------------------------------------------------------ steps

// outcome of the fault decision of one step
type verdict struct {
	kind int
	arg  int64
	arg2 int64
	idx  int
}

func under(p, dir string) bool {
	if p == dir {
		return true
	}
	if dir == "/" {
		return true
	}
	return len(p) > len(dir) && p[:len(dir)] == dir && p[len(dir)] == '/'
}

// Step is called at the start of every simulated operation.
func (k *Kernel) step(op int, path, path2 string, arg int64) (ev int, v verdict) {
	k.journal()
	k.steps++
	k.clock += k.plan.Tick
	k.res.Trace = append(k.res.Trace, Event{Step: k.steps, Op: op, Path: path, Path2: path2, Arg: arg})
	ev = len(k.res.Trace) - 1
	if k.steps > k.plan.MaxSteps {
		k.finish(EndSteps, 98, "step budget exhausted")
	}
	v.idx = -1
	for i := range k.plan.Faults {
		f := &k.plan.Faults[i]
		if f.Step > 0 {
			if f.Step != k.steps {
				continue
			}
		} else {
			if f.Ops&(1<<uint(op)) == 0 {
				continue
			}
			if f.Path != "" {
				m := path == f.Path || (path2 != "" && path2 == f.Path)
				if !m && f.Sub {
					m = under(path, f.Path)
				}
				if !m {
					continue
				}
			}
			k.hits[i]++
			if k.hits[i] <= f.Skip {
				continue
			}
			if f.Count > 0 && k.fired[i] >= f.Count {
				continue
			}
		}
		switch f.Kind {
		case FClock:
			k.fired[i]++
			k.clock += f.Arg
			k.mark(ev, i, f.Kind, true)
			continue
		case FStall:
			k.fired[i]++
			k.clock += f.Arg
			k.stalled += f.Arg
			k.mark(ev, i, f.Kind, true)
			continue
		case FActor:
			k.fired[i]++
			did := false
			for j := range f.Acts {
				if k.fs.Apply(&f.Acts[j], k.clock) {
					did = true
				}
			}
			k.mark(ev, i, f.Kind, did)
			k.rebase()
			continue
		case FCrashBefore:
			k.fired[i]++
			k.mark(ev, i, f.Kind, true)
			k.finish(EndCrash, 137, "crash before "+OpNames[op]+" "+path)
		}
		if v.kind != 0 || !applies(f.Kind, op) {
			continue
		}
		k.fired[i]++
		v = verdict{f.Kind, f.Arg, f.Arg2, i}
		k.res.Trace[ev].Fault = f.Kind
		k.res.Trace[ev].FIdx = i
	}
	return
}

func (k *Kernel) mark(ev, idx, kind int, did bool) {
	e := &k.res.Trace[ev]
	if e.Fault == 0 {
		e.Fault, e.FIdx = kind, idx
	}
	if did {
		e.FX = true
	}
}

func applies(kind, op int) bool {
	switch kind {
	case FErrno:
		switch op {
		case OpMark, OpChildWrite:
			return false
		}
		return true
	case FShort:
		return op == OpRead || op == OpWrite || op == OpStdin || op == OpStdout || op == OpStderr || op == OpPipeRead || op == OpNetRead || op == OpReaddir
	case FTorn, FCrashTorn:
		return op == OpWrite || op == OpStdout || op == OpStderr
	case FCrashAfter:
		return true
	case FProc:
		return op == OpFork
	case FNet:
		return op == OpDial
	}
	return false
}

// done is called at the end of every simulated operation.
func (k *Kernel) done(ev int, v verdict, ret int64, errno int) (int64, int) {
	e := &k.res.Trace[ev]
	e.Ret, e.Errno = ret, int64(errno)
	if v.kind == FCrashAfter {
		e.FX = true
		k.finish(EndCrash, 137, "crash after "+OpNames[e.Op]+" "+e.Path)
	}
	return ret, errno
}

// fail records an injected errno.
func (k *Kernel) fail(ev int, v verdict) (int64, int) {
	e := &k.res.Trace[ev]
	e.FX = true
	e.Ret, e.Errno = -1, v.arg
	return -1, int(v.arg)
}

// ------------------------------------------------------------ end of run

func (k *Kernel) Result(end, code int, info string) *Result {
	r := &k.res
	k.journal()
	r.End, r.Code, r.Info = end, code, info
	r.Steps, r.Clock = k.steps, k.clock
	r.Nodes = k.fs.Dump()
	r.OpenFds = nil
	for i := 3; i < len(k.fds); i++ {
		if f := k.fds[i]; f != nil {
			p := f.path
			if f.pipe != nil {
				p = "pipe"
			}
			r.OpenFds = append(r.OpenFds, p)
		}
	}
	r.Procs = len(k.procs)
	for _, p := range k.procs {
		if !p.waited {
			r.Unwaited++
		}
	}
	r.Conns, r.OpenConns = k.conns, k.openConns
	r.StdinRead = int64(k.stdinOff)
	return r
}

func (k *Kernel) finish(end, code int, info string) {
	if k.ended {
		realExit(code)
	}
	if end == EndExit {
		code &= 0xff
	}
	k.ended = true
	k.On = false
	sendResult(k.Result(end, code, info).Encode())
	realExit(code)
}

// Finish ends the run from the outside (process exit, uncaught panic).
func Finish(end, code int, info string) { K.finish(end, code, info) }

// Report attaches an opaque record to the result of the run.
func Report(b []byte) { K.res.Reports = append(K.res.Reports, append([]byte(nil), b...)) }

// Blob returns the harness part of the plan.
func Blob() []byte { return K.plan.Blob }

// Mark records a harness event in the trace (it is a fault point like others).
func Mark(s string) {
	ev, v := K.step(OpMark, s, "", 0)
	K.done(ev, v, 0, 0)
}

// OpenFdCount returns how many simulated descriptors are open beyond stdio.
func OpenFdCount() (n int) {
	for i := 3; i < len(K.fds); i++ {
		if K.fds[i] != nil {
			n++
		}
	}
	return
}

func OpenConnCount() int { return K.openConns }

// Now is the simulated clock in nanoseconds.
func Now() int64 { return K.clock }

// Pid is the number of the simulated process.
func Pid() int { return 100 + int(K.plan.Seed>>5%4000) }

// Stalled is the time operations were stalled for since the last call.
func Stalled() (ns int64) {
	ns, K.stalled = K.stalled, 0
	return
}

// Sleep advances the simulated clock.
func Sleep(ns int64) {
	if ns > 0 {
		K.clock += ns
	}
}

func Env() []string  { return K.plan.Env }
func Args() []string { return K.plan.Args }

// ------------------------------------------------------------ path helpers

func (k *Kernel) at(dirfd int) (*inode, int) {
	if dirfd == atFDCWD {
		return k.cwd, 0
	}
	f := k.get(dirfd)
	if f == nil {
		return nil, EBADF
	}
	if f.in == nil || !f.in.isDir() {
		return nil, ENOTDIR
	}
	return f.in, 0
}

// abs gives the lexical absolute path used for traces and fault matching.
func (k *Kernel) abs(dirfd int, p string) string {
	if len(p) > 0 && p[0] == '/' {
		return clean(p)
	}
	d, e := k.at(dirfd)
	if e != 0 {
		return p
	}
	return clean(k.fs.pathOf(d) + "/" + p)
}

func clean(p string) string {
	var out []string
	for _, c := range splitPath(p) {
		switch c {
		case ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, c)
		}
	}
	s := ""
	for _, c := range out {
		s += "/" + c
	}
	if s == "" {
		return "/"
	}
	return s
}

// Clean is the lexical absolute path.
func Clean(p string) string { return clean(p) }

// ------------------------------------------------------------ operations

const (
	oWRONLY   = 1
	oRDWR     = 2
	oCREAT    = 0100
	oEXCL     = 0200
	oTRUNC    = 01000
	oAPPEND   = 02000
	oDIR      = 0200000
	oNOFOLLOW = 0400000
	oPATH     = 010000000
)

func (k *Kernel) open(dirfd int, p string, flags int, mode uint32) (int64, int) {
	op := OpOpen
	if flags&(oCREAT|oTRUNC|oWRONLY|oRDWR) != 0 {
		op = OpCreate
	}
	ap := k.abs(dirfd, p)
	ev, v := k.step(op, ap, "", int64(flags))
	if v.kind == FErrno {
		return k.fail(ev, v)
	}
	if ap == "/dev/null" || ap == "/dev/tty" {
		f := &file{path: ap, flags: flags, in: &inode{ino: 1 << 40, mode: IFCHR | 0666, nlink: 1}}
		return k.done(ev, v, int64(k.newFd(f)), 0)
	}
	d, e := k.at(dirfd)
	if len(p) > 0 && p[0] == '/' {
		d, e = k.fs.root, 0
	}
	if e != 0 {
		return k.done(ev, v, -1, e)
	}
	par, name, n, e := k.fs.walk(d, p, flags&oNOFOLLOW == 0 && !(flags&oCREAT != 0 && flags&oEXCL != 0))
	if n == nil {
		if e != ENOENT || flags&oCREAT == 0 || par == nil {
			return k.done(ev, v, -1, e)
		}
		if p[len(p)-1] == '/' {
			return k.done(ev, v, -1, EISDIR)
		}
		if k.fs.NonRoot && par.mode&0200 == 0 {
			return k.done(ev, v, -1, EACCES)
		}
		n = k.fs.alloc(IFREG | (mode &^ k.umask & 07777))
		n.mtime = k.clock
		par.link(name, n)
		par.mtime = k.clock
	} else {
		if flags&oCREAT != 0 && flags&oEXCL != 0 {
			return k.done(ev, v, -1, EEXIST)
		}
		if n.mode&ifmt == IFLNK {
			return k.done(ev, v, -1, ELOOP)
		}
		if n.isDir() && flags&3 != 0 {
			return k.done(ev, v, -1, EISDIR)
		}
		if flags&oDIR != 0 && !n.isDir() {
			return k.done(ev, v, -1, ENOTDIR)
		}
		if k.fs.NonRoot {
			if (flags&3 != oWRONLY && n.mode&0400 == 0) || (flags&3 != 0 && n.mode&0200 == 0) {
				return k.done(ev, v, -1, EACCES)
			}
		}
		if flags&oTRUNC != 0 && n.mode&ifmt == IFREG {
			k.fs.truncate(n, 0)
			n.mtime = k.clock
		}
	}
	f := &file{in: n, path: ap, flags: flags}
	return k.done(ev, v, int64(k.newFd(f)), 0)
}

func (k *Kernel) close(fd int) (int64, int) {
	f := k.get(fd)
	if f == nil {
		return -1, EBADF
	}
	if f.std != 0 {
		k.setFd(fd, nil)
		k.unref(f)
		return 0, 0
	}
	p := f.path
	if f.pipe != nil {
		p = "pipe"
	}
	ev, v := k.step(OpClose, p, "", int64(f.flags&3))
	k.setFd(fd, nil)
	k.unref(f)
	if f.in != nil && f.refs == 0 {
		k.fs.freeOpen(f.in)
	}
	if v.kind == FErrno {
		// Linux always releases the descriptor, the error is only reported:
		// some of what was written did not make it (quota, network storage)
		if f.from > 0 && f.in != nil && f.in.mode&ifmt == IFREG && f.from <= int64(len(f.in.data)) {
			k.fs.truncate(f.in, f.from-1+(int64(len(f.in.data))-f.from+1)/2)
		}
		return k.fail(ev, v)
	}
	return k.done(ev, v, 0, 0)
}

func (fs *FS) freeOpen(*inode) {}

// Gosched lets other goroutines run.
var Gosched func()

// mustWait tells whether a pipe gets data, or loses its writers, only when
// another goroutine of the process does something.
func (k *Kernel) mustWait(p *pipe) bool {
	if Gosched == nil || len(p.buf) > 0 || p.writers == 0 {
		return false
	}
	for _, pr := range p.procs {
		if !pr.ran {
			return false
		}
	}
	return true
}

func (k *Kernel) read(fd int, b []byte, off int64) (int64, int) {
	f := k.get(fd)
	if f == nil {
		return -1, EBADF
	}
	op, p := OpRead, f.path
	if f.std == 1 {
		op, p = OpStdin, "<stdin>"
	} else if f.pipe != nil {
		op, p = OpPipeRead, "pipe"
	} else if f.std != 0 {
		return -1, EBADF
	}
	for tries := 0; f.pipe != nil && k.mustWait(f.pipe) && tries < 100000; tries++ {
		Gosched() // another goroutine holds the other end
	}
	ev, v := k.step(op, p, "", int64(len(b)))
	if v.kind == FErrno {
		return k.fail(ev, v)
	}
	if v.kind == FShort && v.arg > 0 && v.arg < int64(len(b)) {
		b = b[:v.arg]
		k.res.Trace[ev].FX = true
	}
	switch {
	case f.std == 1:
		if k.plan.InKind == InNull || k.plan.InKind == InTTY {
			return k.done(ev, v, 0, 0)
		}
		if k.plan.InChunk > 0 && len(b) > k.plan.InChunk {
			b = b[:k.plan.InChunk]
		}
		n := copy(b, k.plan.Stdin[k.stdinOff:])
		k.stdinOff += n
		return k.done(ev, v, int64(n), 0)
	case f.pipe != nil:
		for len(f.pipe.buf) == 0 && f.pipe.writers > 0 {
			ran := false
			for _, pr := range f.pipe.procs {
				if !pr.ran {
					k.run(pr)
					ran = true
				}
			}
			if !ran {
				break
			}
		}
		for tries := 0; k.mustWait(f.pipe) && tries < 100000; tries++ {
			Gosched() // the process has ended, but this one still holds the other end
		}
		if len(f.pipe.buf) == 0 && f.pipe.writers > 0 {
			return k.done(ev, v, -1, EAGAIN)
		}
		n := copy(b, f.pipe.buf)
		f.pipe.buf = f.pipe.buf[n:]
		return k.done(ev, v, int64(n), 0)
	}
	if f.in.isDir() {
		return k.done(ev, v, -1, EISDIR)
	}
	if f.flags&3 == oWRONLY {
		return k.done(ev, v, -1, EBADF)
	}
	o := f.off
	if off >= 0 {
		o = off
	}
	n := 0
	if o < int64(len(f.in.data)) {
		n = copy(b, f.in.data[o:])
	}
	if off < 0 {
		f.off += int64(n)
	}
	return k.done(ev, v, int64(n), 0)
}

func (k *Kernel) write(fd int, b []byte, off int64) (int64, int) {
	f := k.get(fd)
	if f == nil {
		return -1, EBADF
	}
	op, p := OpWrite, f.path
	if f.std == 2 {
		op, p = OpStdout, "<stdout>"
	} else if f.std == 3 {
		op, p = OpStderr, "<stderr>"
	} else if f.pipe != nil {
		p = "pipe"
	} else if f.std == 1 {
		return -1, EBADF
	}
	ev, v := k.step(op, p, "", int64(len(b)))
	if v.kind == FErrno {
		if f.std == 2 {
			k.res.OutErr++
		}
		return k.fail(ev, v)
	}
	part := b
	if (v.kind == FShort || v.kind == FTorn || v.kind == FCrashTorn) && v.arg < int64(len(b)) {
		if v.kind == FShort && v.arg <= 0 {
			v.arg = 1
		}
		part = b[:v.arg]
		k.res.Trace[ev].FX = true
	}
	n, e := 0, 0
	switch {
	case f.std == 2:
		k.res.Out = append(k.res.Out, part...)
		n = len(part)
	case f.std == 3:
		k.res.Err = append(k.res.Err, part...)
		n = len(part)
	case f.pipe != nil:
		f.pipe.buf = append(f.pipe.buf, part...)
		n = len(part)
	case f.in.mode&ifmt == IFCHR:
		n = len(part)
	default:
		if f.flags&3 == 0 {
			return k.done(ev, v, -1, EBADF)
		}
		o := f.off
		if f.flags&oAPPEND != 0 {
			o = int64(len(f.in.data))
		}
		if off >= 0 {
			o = off
		}
		if f.from == 0 {
			f.from = o + 1
		}
		n, e = k.fs.writeAt(f.in, o, part)
		if e == 0 && off < 0 {
			f.off = o + int64(n)
		}
		f.in.mtime = k.clock
	}
	if v.kind == FCrashTorn {
		k.finish(EndCrash, 137, "crash in write "+p)
	}
	if v.kind == FTorn && e == 0 {
		if f.std == 2 {
			k.res.OutErr++
		}
		// write(2) reports the partial transfer; the following write fails
		if n > 0 {
			k.pendTorn(p, op, v.arg2)
			return k.done(ev, v, int64(n), 0)
		}
		return k.done(ev, v, -1, int(v.arg2))
	}
	if e != 0 {
		return k.done(ev, v, -1, e)
	}
	return k.done(ev, v, int64(n), 0)
}

// pendTorn makes the next write on the same path fail.
func (k *Kernel) pendTorn(p string, op int, errno int64) {
	k.plan.Faults = append(k.plan.Faults, Fault{Ops: 1 << uint(op), Path: p, Count: 1, Kind: FErrno, Arg: errno})
	k.hits = append(k.hits, 0)
	k.fired = append(k.fired, 0)
}

type statInfo struct {
	ino, nlink uint64
	mode       uint32
	size       int64
	mtime      int64
	rdev       uint64
}

func (k *Kernel) statOf(n *inode) (s statInfo) {
	s.ino, s.nlink, s.mode, s.mtime = n.ino, uint64(n.nlink), n.mode, n.mtime
	switch n.mode & ifmt {
	case IFREG:
		s.size = int64(len(n.data))
	case IFLNK:
		s.size = int64(len(n.target))
	case IFDIR:
		s.size = 4096
	}
	return
}

func (k *Kernel) fstat(fd int) (s statInfo, errno int) {
	f := k.get(fd)
	if f == nil {
		return s, EBADF
	}
	p := f.path
	if f.std != 0 {
		p = "<std>"
	} else if f.pipe != nil {
		p = "pipe"
	}
	ev, v := k.step(OpFstat, p, "", 0)
	if v.kind == FErrno {
		_, errno = k.fail(ev, v)
		return
	}
	switch {
	case f.std == 1:
		s.nlink = 1
		switch k.plan.InKind {
		case InTTY, InNull:
			s.mode = IFCHR | 0620
			s.rdev = 0x8801
		case InFile:
			s.mode = IFREG | 0644
			s.size = int64(len(k.plan.Stdin))
		default:
			s.mode = IFIFO | 0600
		}
	case f.std != 0:
		s.nlink = 1
		switch k.plan.OutKind {
		case InTTY:
			s.mode = IFCHR | 0620
		case InFile:
			s.mode = IFREG | 0644
		default:
			s.mode = IFIFO | 0600
		}
	case f.pipe != nil:
		s.mode = IFIFO | 0600
	default:
		s = k.statOf(f.in)
	}
	k.done(ev, v, 0, 0)
	return s, 0
}

func (k *Kernel) stat(dirfd int, p string, follow bool) (s statInfo, errno int) {
	ev, v := k.step(OpStat, k.abs(dirfd, p), "", 0)
	if v.kind == FErrno {
		_, errno = k.fail(ev, v)
		return
	}
	if clean(p) == "/dev/null" {
		s.mode = IFCHR | 0666
		k.done(ev, v, 0, 0)
		return
	}
	d, e := k.at(dirfd)
	if len(p) > 0 && p[0] == '/' {
		d, e = k.fs.root, 0
	}
	if e == 0 {
		var n *inode
		if _, _, n, e = k.fs.walk(d, p, follow); e == 0 {
			s = k.statOf(n)
		}
	}
	_, errno = k.done(ev, v, 0, e)
	return
}

func (k *Kernel) access(dirfd int, p string, mode uint32) (int64, int) {
	ev, v := k.step(OpAccess, k.abs(dirfd, p), "", int64(mode))
	if v.kind == FErrno {
		return k.fail(ev, v)
	}
	d, e := k.at(dirfd)
	if len(p) > 0 && p[0] == '/' {
		d, e = k.fs.root, 0
	}
	if e != 0 {
		return k.done(ev, v, -1, e)
	}
	_, _, n, e := k.fs.walk(d, p, true)
	if e != 0 {
		return k.done(ev, v, -1, e)
	}
	if mode&1 != 0 && !n.isDir() && n.mode&0111 == 0 {
		return k.done(ev, v, -1, EACCES)
	}
	if k.fs.NonRoot && ((mode&4 != 0 && n.mode&0400 == 0) || (mode&2 != 0 && n.mode&0200 == 0)) {
		return k.done(ev, v, -1, EACCES)
	}
	return k.done(ev, v, 0, 0)
}

func (k *Kernel) readlink(dirfd int, p string, b []byte) (int64, int) {
	ev, v := k.step(OpReadlink, k.abs(dirfd, p), "", 0)
	if v.kind == FErrno {
		return k.fail(ev, v)
	}
	d, e := k.at(dirfd)
	if len(p) > 0 && p[0] == '/' {
		d, e = k.fs.root, 0
	}
	if e != 0 {
		return k.done(ev, v, -1, e)
	}
	_, _, n, e := k.fs.walk(d, p, false)
	if e != 0 {
		return k.done(ev, v, -1, e)
	}
	if n.mode&ifmt != IFLNK {
		return k.done(ev, v, -1, EINVAL)
	}
	return k.done(ev, v, int64(copy(b, n.target)), 0)
}

func (k *Kernel) mkdir(dirfd int, p string, mode uint32) (int64, int) {
	ev, v := k.step(OpMkdir, k.abs(dirfd, p), "", int64(mode))
	if v.kind == FErrno {
		return k.fail(ev, v)
	}
	d, e := k.at(dirfd)
	if len(p) > 0 && p[0] == '/' {
		d, e = k.fs.root, 0
	}
	if e != 0 {
		return k.done(ev, v, -1, e)
	}
	for len(p) > 1 && p[len(p)-1] == '/' {
		p = p[:len(p)-1]
	}
	par, name, n, e := k.fs.walk(d, p, false)
	if n != nil {
		return k.done(ev, v, -1, EEXIST)
	}
	if e != ENOENT || par == nil {
		return k.done(ev, v, -1, e)
	}
	if k.fs.NonRoot && par.mode&0200 == 0 {
		return k.done(ev, v, -1, EACCES)
	}
	n = k.fs.alloc(IFDIR | (mode &^ k.umask & 07777))
	n.mtime = k.clock
	par.link(name, n)
	return k.done(ev, v, 0, 0)
}

func (k *Kernel) unlink(dirfd int, p string, dir bool) (int64, int) {
	op := OpUnlink
	if dir {
		op = OpRmdir
	}
	ev, v := k.step(op, k.abs(dirfd, p), "", 0)
	if v.kind == FErrno {
		return k.fail(ev, v)
	}
	d, e := k.at(dirfd)
	if len(p) > 0 && p[0] == '/' {
		d, e = k.fs.root, 0
	}
	if e != 0 {
		return k.done(ev, v, -1, e)
	}
	par, name, n, e := k.fs.walk(d, p, false)
	if e != 0 {
		return k.done(ev, v, -1, e)
	}
	if name == "." || name == ".." {
		return k.done(ev, v, -1, EINVAL)
	}
	if k.fs.NonRoot && par.mode&0200 == 0 {
		return k.done(ev, v, -1, EACCES)
	}
	if dir {
		if !n.isDir() {
			return k.done(ev, v, -1, ENOTDIR)
		}
		if len(n.ents) > 0 {
			return k.done(ev, v, -1, ENOTEMPTY)
		}
	} else if n.isDir() {
		return k.done(ev, v, -1, EISDIR)
	}
	par.unlink(name)
	k.fs.freeIf(n)
	return k.done(ev, v, 0, 0)
}

func (k *Kernel) rename(fd1 int, p1 string, fd2 int, p2 string, flags uint64) (int64, int) {
	ev, v := k.step(OpRename, k.abs(fd1, p1), k.abs(fd2, p2), 0)
	if v.kind == FErrno {
		return k.fail(ev, v)
	}
	d1, e := k.at(fd1)
	if len(p1) > 0 && p1[0] == '/' {
		d1, e = k.fs.root, 0
	}
	if e != 0 {
		return k.done(ev, v, -1, e)
	}
	d2, e := k.at(fd2)
	if len(p2) > 0 && p2[0] == '/' {
		d2, e = k.fs.root, 0
	}
	if e != 0 {
		return k.done(ev, v, -1, e)
	}
	if flags&1 != 0 { // RENAME_NOREPLACE
		if _, _, n, _ := k.fs.walk(d2, p2, false); n != nil {
			return k.done(ev, v, -1, EEXIST)
		}
	} else if flags != 0 {
		return k.done(ev, v, -1, EINVAL)
	}
	return k.done(ev, v, 0, k.fs.rename(d1, p1, d2, p2))
}

func (k *Kernel) link(fd1 int, p1 string, fd2 int, p2 string) (int64, int) {
	ev, v := k.step(OpLink, k.abs(fd1, p1), k.abs(fd2, p2), 0)
	if v.kind == FErrno {
		return k.fail(ev, v)
	}
	d1, e := k.at(fd1)
	if e != 0 {
		return k.done(ev, v, -1, e)
	}
	d2, e := k.at(fd2)
	if e != 0 {
		return k.done(ev, v, -1, e)
	}
	_, _, n, e := k.fs.walk(d1, p1, false)
	if e != 0 {
		return k.done(ev, v, -1, e)
	}
	par, name, o, e := k.fs.walk(d2, p2, false)
	if o != nil {
		return k.done(ev, v, -1, EEXIST)
	}
	if par == nil {
		return k.done(ev, v, -1, e)
	}
	if n.isDir() {
		return k.done(ev, v, -1, EPERM)
	}
	par.link(name, n)
	return k.done(ev, v, 0, 0)
}

func (k *Kernel) symlink(target string, fd int, p string) (int64, int) {
	ev, v := k.step(OpLink, k.abs(fd, p), target, 1)
	if v.kind == FErrno {
		return k.fail(ev, v)
	}
	d, e := k.at(fd)
	if e != 0 {
		return k.done(ev, v, -1, e)
	}
	par, name, o, e := k.fs.walk(d, p, false)
	if o != nil {
		return k.done(ev, v, -1, EEXIST)
	}
	if par == nil {
		return k.done(ev, v, -1, e)
	}
	n := k.fs.alloc(IFLNK | 0777)
	n.target = target
	par.link(name, n)
	return k.done(ev, v, 0, 0)
}

func (k *Kernel) chmodIn(ev int, v verdict, n *inode, mode uint32) (int64, int) {
	treeGen++
	n.mode = n.mode&ifmt | mode&07777
	return k.done(ev, v, 0, 0)
}

func (k *Kernel) chmod(dirfd int, p string, mode uint32) (int64, int) {
	ev, v := k.step(OpChmod, k.abs(dirfd, p), "", int64(mode))
	if v.kind == FErrno {
		return k.fail(ev, v)
	}
	d, e := k.at(dirfd)
	if e != 0 {
		return k.done(ev, v, -1, e)
	}
	_, _, n, e := k.fs.walk(d, p, true)
	if e != 0 {
		return k.done(ev, v, -1, e)
	}
	return k.chmodIn(ev, v, n, mode)
}

func (k *Kernel) utimes(dirfd int, p string, times []byte, follow bool) (int64, int) {
	ev, v := k.step(OpUtime, k.abs(dirfd, p), "", 0)
	if v.kind == FErrno {
		return k.fail(ev, v)
	}
	d, e := k.at(dirfd)
	if e != 0 {
		return k.done(ev, v, -1, e)
	}
	_, _, n, e := k.fs.walk(d, p, follow)
	if e != 0 {
		return k.done(ev, v, -1, e)
	}
	n.mtime = k.clock
	if len(times) == 32 {
		get := func(i int) (x int64) {
			for j := 7; j >= 0; j-- {
				x = x<<8 | int64(times[i+j])
			}
			return
		}
		if ns := get(24); ns < 1e9 {
			n.mtime = get(16)*1e9 + ns
		}
	}
	return k.done(ev, v, 0, 0)
}

func (k *Kernel) chdir(n *inode, p string) (int64, int) {
	ev, v := k.step(OpChdir, p, "", 0)
	if v.kind == FErrno {
		return k.fail(ev, v)
	}
	if n == nil {
		var e int
		if _, _, n, e = k.fs.walk(k.cwd, p, true); e != 0 {
			return k.done(ev, v, -1, e)
		}
	}
	if !n.isDir() {
		return k.done(ev, v, -1, ENOTDIR)
	}
	k.cwd = n
	return k.done(ev, v, 0, 0)
}

func (k *Kernel) getcwd(b []byte) (int64, int) {
	ev, v := k.step(OpGetcwd, "", "", 0)
	if v.kind == FErrno {
		return k.fail(ev, v)
	}
	p := k.fs.pathOf(k.cwd)
	if len(p) > 9 && p[:9] == "(deleted)" {
		return k.done(ev, v, -1, ENOENT)
	}
	if len(p)+1 > len(b) {
		return k.done(ev, v, -1, ERANGE)
	}
	copy(b, p)
	b[len(p)] = 0
	return k.done(ev, v, int64(len(p)+1), 0)
}

func (k *Kernel) getdents(fd int, b []byte) (int64, int) {
	f := k.get(fd)
	if f == nil {
		return -1, EBADF
	}
	if f.in == nil || !f.in.isDir() {
		return -1, ENOTDIR
	}
	ev, v := k.step(OpReaddir, f.path, "", int64(len(b)))
	if v.kind == FErrno {
		return k.fail(ev, v)
	}
	max := 1 << 30
	if v.kind == FShort {
		max = int(v.arg)
		if max < 1 {
			max = 1
		}
		k.res.Trace[ev].FX = true
	}
	if f.ents == nil {
		// directory order is arbitrary in practice: a seeded permutation
		f.ents = append([]dirent{}, f.in.ents...)
		x := k.plan.Seed ^ f.in.ino*0x9e3779b97f4a7c15
		for i := len(f.ents) - 1; i > 0; i-- {
			x += 0x9e3779b97f4a7c15
			z := x
			z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
			z = (z ^ z>>27) * 0x94d049bb133111eb
			z ^= z >> 31
			j := int(z % uint64(i+1))
			f.ents[i], f.ents[j] = f.ents[j], f.ents[i]
		}
	}
	n := 0
	for cnt := 0; f.dpos < len(f.ents) && cnt < max; cnt++ {
		d := f.ents[f.dpos]
		rl := (19 + len(d.name) + 1 + 7) &^ 7
		if n+rl > len(b) {
			break
		}
		r := b[n : n+rl]
		for i := range r {
			r[i] = 0
		}
		put64(r, d.in.ino)
		put64(r[8:], uint64(f.dpos+1))
		r[16], r[17] = byte(rl), byte(rl>>8)
		switch d.in.mode & ifmt {
		case IFDIR:
			r[18] = 4
		case IFREG:
			r[18] = 8
		case IFLNK:
			r[18] = 10
		}
		copy(r[19:], d.name)
		n += rl
		f.dpos++
	}
	return k.done(ev, v, int64(n), 0)
}

func put64(b []byte, v uint64) {
	for i := 0; i < 8; i++ {
		b[i] = byte(v >> (8 * uint(i)))
	}
}

func put32(b []byte, v uint32) {
	for i := 0; i < 4; i++ {
		b[i] = byte(v >> (8 * uint(i)))
	}
}

func encStat(b []byte, s statInfo) {
	for i := range b[:144] {
		b[i] = 0
	}
	put64(b[0:], 0x801)
	put64(b[8:], s.ino)
	put64(b[16:], s.nlink)
	put32(b[24:], s.mode)
	put64(b[40:], s.rdev)
	put64(b[48:], uint64(s.size))
	put64(b[56:], 4096)
	put64(b[64:], uint64((s.size+511)/512))
	for _, o := range []int{72, 88, 104} {
		put64(b[o:], uint64(s.mtime/1e9))
		put64(b[o+8:], uint64(s.mtime%1e9))
	}
}

func (k *Kernel) pipe2(out []byte) (int64, int) {
	ev, v := k.step(OpPipe, "", "", 0)
	if v.kind == FErrno {
		return k.fail(ev, v)
	}
	p := &pipe{writers: 1, readers: 1}
	r := k.newFd(&file{pipe: p})
	w := k.newFd(&file{pipe: p, wr: true, flags: oWRONLY})
	put32(out[0:], uint32(r))
	put32(out[4:], uint32(w))
	return k.done(ev, v, 0, 0)
}

func (k *Kernel) trunc(n *inode, p string, size int64) (int64, int) {
	ev, v := k.step(OpTrunc, p, "", size)
	if v.kind == FErrno {
		return k.fail(ev, v)
	}
	if size > int64(len(n.data)) && k.fs.room(size-int64(len(n.data))) < size-int64(len(n.data)) {
		return k.done(ev, v, -1, ENOSPC)
	}
	k.fs.truncate(n, size)
	n.mtime = k.clock
	return k.done(ev, v, 0, 0)
}
