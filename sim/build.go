package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// The simulator is the Go standard library of the simulated processes: a build
// overlay routes every system call, clock, random source and network dial of
// the unmodified /repo sources into package internal/simk.

type patch struct {
	file     string
	old, new string
}

var stdPatches = []patch{
	// --- system calls
	{"syscall/syscall_linux.go", `	"internal/strconv"
`, `	"internal/simk"
	"internal/strconv"
`},
	{"syscall/syscall_linux.go", `//go:uintptrkeepalive
//go:nosplit
//go:norace
//go:linkname RawSyscall
func RawSyscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
	return RawSyscall6(trap, a1, a2, a3, 0, 0, 0)
}`, `//go:uintptrescapes
//go:norace
//go:linkname RawSyscall
func RawSyscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
	return RawSyscall6(trap, a1, a2, a3, 0, 0, 0)
}`},
	{"syscall/syscall_linux.go", `//go:uintptrkeepalive
//go:nosplit
//go:norace
//go:linkname RawSyscall6
func RawSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	var errno uintptr
`, `//go:uintptrescapes
//go:norace
//go:linkname RawSyscall6
func RawSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	var errno uintptr
	if s1, s2, e, ok := simk.Syscall(trap, a1, a2, a3, a4, a5, a6); ok {
		return s1, s2, Errno(e)
	}
`},
	{"syscall/syscall_linux.go", `//go:uintptrkeepalive
//go:nosplit
//go:linkname Syscall
func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
	runtime_entersyscall()
`, `//go:uintptrescapes
//go:linkname Syscall
func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
`},
	{"syscall/syscall_linux.go", `	r1, r2, err = RawSyscall6(trap, a1, a2, a3, 0, 0, 0)
	runtime_exitsyscall()
	return
`, `	r1, r2, err = RawSyscall6(trap, a1, a2, a3, 0, 0, 0)
	return
`},
	{"syscall/syscall_linux.go", `//go:uintptrkeepalive
//go:nosplit
//go:linkname Syscall6
func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	runtime_entersyscall()
	r1, r2, err = RawSyscall6(trap, a1, a2, a3, a4, a5, a6)
	runtime_exitsyscall()
	return
`, `//go:uintptrescapes
//go:linkname Syscall6
func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	r1, r2, err = RawSyscall6(trap, a1, a2, a3, a4, a5, a6)
	return
`},
	{"syscall/zsyscall_linux_amd64.go", `import "unsafe"
`, `import (
	"internal/simk"
	"unsafe"
)
`},
	{"syscall/zsyscall_linux_amd64.go", `func Getpid() (pid int) {
`, `func Getpid() (pid int) {
	if simk.K.On {
		return simk.Pid()
	}
`},
	{"syscall/zsyscall_linux_amd64.go", `func Getppid() (ppid int) {
`, `func Getppid() (ppid int) {
	if simk.K.On {
		return 1
	}
`},
	{"syscall/exec_unix.go", `	errorspkg "errors"
`, `	errorspkg "errors"
	"internal/simk"
`},
	{"syscall/exec_unix.go", `	if attr == nil {
		attr = &zeroProcAttr
	}
	sys := attr.Sys
	if sys == nil {
		sys = &zeroSysProcAttr
	}

	// Convert args to C form.
`, `	if attr == nil {
		attr = &zeroProcAttr
	}
	sys := attr.Sys
	if sys == nil {
		sys = &zeroSysProcAttr
	}
	if simk.K.On {
		fds := make([]int, len(attr.Files))
		for i := range fds {
			fds[i] = int(attr.Files[i])
		}
		spid, serr := simk.ForkExec(argv0, argv, attr.Dir, attr.Env, fds)
		if serr != 0 {
			return 0, Errno(serr)
		}
		return spid, nil
	}

	// Convert args to C form.
`},
	{"syscall/env_unix.go", `	env = make(map[string]int)
	for i, s := range envs {
`, `	env = make(map[string]int)
	envs = append([]string(nil), simk.Env()...)
	for i, s := range envs {
`},
	{"syscall/env_unix.go", `import (
`, `import (
	"internal/simk"
`},
	// --- the race detector must not see every write as ordered before every
	// later read of another descriptor
	{"syscall/syscall_unix.go", `	n, err = read(fd, p)
	if race.Enabled {
		if n > 0 {
			race.WriteRange(unsafe.Pointer(&p[0]), n)
		}
		if err == nil {
`, `	n, err = read(fd, p)
	if race.Enabled {
		if n > 0 {
			race.WriteRange(unsafe.Pointer(&p[0]), n)
		}
		if false {
`},
	// --- ... and what a goroutine did as ordered before what another one does
	// because a recycled buffer went from one to the other
	{"sync/pool.go", `		if runtime_randn(4) == 0 {
`, `		if true {
`},
	// --- taking a lock is a scheduling point of its own
	{"sync/mutex.go", `func (m *Mutex) Lock() {
`, `func (m *Mutex) Lock() {
	if simk.LockPoint != nil {
		simk.LockPoint()
	}
`},
	{"internal/sync/mutex.go", `func (m *Mutex) unlockSlow(new int32) {
`, `func (m *Mutex) unlockSlow(new int32) {
	if simk.WakePoint != nil {
		simk.WakePoint()
	}
`},
	{"internal/sync/mutex.go", `import (
`, `import (
	"internal/simk"
`},
	{"sync/mutex.go", `import (
`, `import (
	"internal/simk"
`},
	{"sync/rwmutex.go", `func (rw *RWMutex) RLock() {
`, `func (rw *RWMutex) RLock() {
	if simk.LockPoint != nil {
		simk.LockPoint()
	}
`},
	{"sync/rwmutex.go", `import (
`, `import (
	"internal/simk"
`},
	// --- process end
	{"os/proc.go", `	runtime_beforeExit(code)

	syscall.Exit(code)
`, `	simk.Finish(simk.EndExit, code, "")
	runtime_beforeExit(code)

	syscall.Exit(code)
`},
	{"os/proc.go", `import (
`, `import (
	"internal/simk"
`},
	{"os/file_unix.go", `		sigpipe()
`, `		simk.Finish(simk.EndSigpipe, 141, "SIGPIPE")
`},
	{"os/file_unix.go", `import (
`, `import (
	"internal/simk"
`},
	{"os/pidfd_linux.go", `func checkPidfd() error {
`, `func checkPidfd() error {
	if true {
		return syscall.ENOSYS
	}
`},
	// --- runtime: randomness, uncaught panics, preemption
	{"runtime/rand.go", `	lock(&globalRand.lock)
	if globalRand.init {
		fatal("randinit twice")
	}
`, `	simSeedInit()
	lock(&globalRand.lock)
	if globalRand.init {
		fatal("randinit twice")
	}
`},
	{"runtime/rand.go", `func rand() uint64 {
	// Note: We avoid acquirem here so that in the fast path
`, `func rand() uint64 {
	if simRandOn {
		simRandState += 0x9e3779b97f4a7c15
		z := simRandState
		z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
		z = (z ^ z>>27) * 0x94d049bb133111eb
		return z ^ z>>31
	}
	// Note: We avoid acquirem here so that in the fast path
`},
	{"runtime/rand.go", `func bootstrapRand() uint64 {
`, `func bootstrapRand() uint64 {
	if simRandOn {
		simBootState += 0x9e3779b97f4a7c15
		z := simBootState
		z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
		z = (z ^ z>>27) * 0x94d049bb133111eb
		return z ^ z>>31
	}
`},
	{"os/tempfile.go", `	return strconv.FormatUint(uint64(uint32(runtime_rand())), 10)
`, `	if simk.K.On {
		return strconv.FormatUint(uint64(simk.TempRand()), 10)
	}
	return strconv.FormatUint(uint64(uint32(runtime_rand())), 10)
`},
	{"os/tempfile.go", `	"internal/bytealg"
`, `	"internal/bytealg"
	"internal/simk"
`},
	{"runtime/rand.go", `	mp.chacha8.Init64(seed)
	mp.cheaprand = rand()
`, `	mp.chacha8.Init64(seed)
	mp.cheaprand = 0x1234567
`},
	// the choices that matter have a generator of their own: the runtime also draws
	// numbers when its own locks are contended, which depends on the real time
	{"runtime/rand.go", `func cheaprand() uint32 {
`, `func simCheapn(n uint32) uint32 {
	if simRandOn {
		simCheapState += 0x9e3779b97f4a7c15
		z := simCheapState
		z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
		return uint32((uint64(uint32(z>>32)) * uint64(n)) >> 32)
	}
	return cheaprandn(n)
}

//go:nosplit
func cheaprand() uint32 {
`},
	{"runtime/select.go", `		j := cheaprandn(uint32(norder + 1))
`, `		j := simCheapn(uint32(norder + 1))
`},
	{"runtime/sema.go", `	s.ticket = cheaprand() | 1
`, `	s.ticket = simCheapn(1<<32-1) | 1
`},
	{"runtime/time.go", `			t.rand = cheaprand()
`, `			t.rand = simCheapn(1<<32 - 1)
`},
	{"runtime/proc.go", `	if randomizeScheduler && next && randn(2) == 0 {
`, `	if randomizeScheduler && next && simCheapn(2) == 0 {
`},
	{"runtime/proc.go", `			j := cheaprandn(i + 1)
			batch[i]`, `			j := simCheapn(i + 1)
			batch[i]`},
	{"runtime/proc.go", `			j := cheaprandn(i + 1)
			pp.runq`, `			j := simCheapn(i + 1)
			pp.runq`},
	{"runtime/panic.go", `	preprintpanics(&p)

	fatalpanic(&p)   // should not return
`, `	preprintpanics(&p)
	if simPanicHook != nil {
		h := simPanicHook
		simPanicHook = nil
		s := ""
		switch v := p.arg.(type) {
		case string:
			s = v
		case error:
			s = v.Error()
		case stringer:
			s = v.String()
		}
		h(s)
	}

	fatalpanic(&p)   // should not return
`},
	{"runtime/runtime.go", `//go:nosplit
func syscall_Exit(code int) {
`, `func syscall_Exit(code int) {
	if simExitHook != nil {
		simExitHook(code)
	}
`},
	// goroutines made ready run in a seeded order
	{"runtime/proc.go", `const randomizeScheduler = raceenabled
`, `var randomizeScheduler = true
`},
	{"runtime/proc.go", `func preemptone(pp *p) bool {
`, `func preemptone(pp *p) bool {
	if simRandOn && ncpuOne {
		return false
	}
`},
	{"internal/syscall/unix/getrandom.go", `	ret, supported := vgetrandom(p, uint32(flags))
`, `	ret, supported := 0, false
	if false {
		ret, supported = vgetrandom(p, uint32(flags))
	}
`},
	// --- time
	{"time/time.go", `	sec, nsec, mono := runtimeNow()
	if mono == 0 {
`, `	sec, nsec, mono := runtimeNow()
	if simk.K.On {
		ns := simk.Now()
		sec, nsec, mono = ns/1e9, int32(ns%1e9), 0
	}
	if mono == 0 {
`},
	{"time/time.go", `import (
`, `import (
	"internal/simk"
`},
	// timers follow the time operations are stalled for
	{"time/sleep.go", `	t := newTimer(when(d), 0, sendTime, c, syncTimer(c))
	t.C = c
`, `	t := newTimer(when(d), 0, sendTime, c, syncTimer(c))
	t.C = c
	simTimer(t, d)
`},
	{"time/sleep.go", `	return newTimer(when(d), 0, goFunc, f, nil)
`, `	t := newTimer(when(d), 0, goFunc, f, nil)
	simTimer(t, d)
	return t
`},
	{"time/sleep.go", `	w := when(d)
	return resetTimer(t, w, 0)
`, `	w := when(d)
	simTimer(t, d)
	return resetTimer(t, w, 0)
`},
	{"time/sleep.go", `	return stopTimer(t)
`, `	simTimerStop(t)
	return stopTimer(t)
`},
	// --- network: everything below net/http's transport is simulated
	{"net/dial.go", `func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {
`, `func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {
	if simk.K.On {
		return simDial(network, address)
	}
`},
	{"net/dial.go", `import (
`, `import (
	"internal/simk"
`},
}

var stdNewFiles = map[string]string{
	"runtime/zz_sim.go": `package runtime

var (
	simRandOn     bool
	simRandState  uint64
	simCheapState uint64
	simBootState  uint64
	simPanicHook  func(string)
	simExitHook   func(int)
	ncpuOne       = true
)

// simSeedInit seeds every runtime random source from GTSIM_SEED.
func simSeedInit() {
	const key = "GTSIM_SEED="
	n := int32(0)
	for argv_index(argv, argc+1+n) != nil {
		n++
	}
	for i := int32(0); i < n; i++ {
		s := gostringnocopy(argv_index(argv, argc+1+i))
		if len(s) > len(key) && s[:len(key)] == key {
			v := uint64(0)
			for j := len(key); j < len(s); j++ {
				v = v*10 + uint64(s[j]-'0')
			}
			simRandState = v*0x9e3779b97f4a7c15 + 77
			simBootState = v*0x94d049bb133111eb + 5
			simCheapState = v*0xbf58476d1ce4e5b9 + 13
			simRandOn = true
		}
	}
}

// SimGoid identifies the current goroutine.
func SimGoid() uint64 { return getg().goid }

// SimPanicHook registers a function called on an uncaught panic.
func SimPanicHook(f func(string)) { simPanicHook = f }

// SimExitHook registers a function called when the process ends itself.
func SimExitHook(f func(int)) { simExitHook = f }
`,
	"os/zz_sim.go": `package os

import (
	"internal/simk"
	"runtime"
)

func init() {
	runtime.SimPanicHook(func(s string) { simk.Finish(simk.EndPanic, 2, s) })
	runtime.SimExitHook(func(code int) { simk.Finish(simk.EndExit, code, "") })
	simk.Gosched = runtime.Gosched
}

// Access to the simulator for the library harness.
func SimBlob() []byte     { return simk.Blob() }
func SimReport(b []byte)  { simk.Report(b) }
func SimMark(s string)    { simk.Mark(s) }
func SimOpenFds() int     { return simk.OpenFdCount() }
func SimOpenConns() int   { return simk.OpenConnCount() }
func SimY()               { simk.Y(runtime.SimGoid()) }
func SimSchedStart(n int, seed uint64, quantum int) {
	simk.SchedStart(n, seed, quantum, runtime.Gosched)
	simk.Yield = func(int) { simk.Y(runtime.SimGoid()) }
	simk.LockPoint = func() { simk.YLock(runtime.SimGoid()) }
	simk.WakePoint = simk.YWake
}
func SimSchedEnter(w int) { simk.SchedEnter(w, runtime.SimGoid()) }
func SimSchedExit(w int)  { simk.SchedExit(w) }
func SimSchedBarrier(w int) { simk.SchedBarrier(w) }
func SimSchedInfo() (points, switches, stalls int, hash uint64, dead bool) { return simk.SchedInfo() }
func SimApply(kind int, p, p2 string, d []byte, m uint32) bool {
	return simk.ActorApply(kind, p, p2, d, m)
}
`,
	"time/zz_sim.go": `package time

import "internal/simk"

type simTimerRec struct {
	t   *Timer
	due int64
}

var (
	simTimers  []simTimerRec
	simElapsed int64
)

func simTimer(t *Timer, d Duration) {
	if !simk.K.On {
		return
	}
	simTimerStop(t)
	due := simElapsed + int64(d)
	if due >= simElapsed {
		simTimers = append(simTimers, simTimerRec{t, due})
	}
}

func simTimerStop(t *Timer) {
	for i := range simTimers {
		if simTimers[i].t == t {
			simTimers = append(simTimers[:i:i], simTimers[i+1:]...)
			return
		}
	}
}

// SimStalled fires the timers that expired while operations were stalled.
func SimStalled() bool {
	ns := simk.Stalled()
	if ns == 0 {
		return false
	}
	simElapsed += ns
	for again := true; again; {
		again = false
		for i := range simTimers {
			if t := simTimers[i].t; simTimers[i].due <= simElapsed {
				simTimerStop(t)
				resetTimer(t, when(0), 0)
				again = true
				break
			}
		}
	}
	return true
}
`,
	"net/zz_sim.go": `package net

import (
	"internal/simk"
	"io"
	"os"
	"runtime"
	"syscall"
	"time"
)

// simStall lets the timers that expired during an operation do their work.
func simStall() {
	if time.SimStalled() {
		for i := 0; i < 200; i++ {
			runtime.Gosched()
		}
	}
}

type simConn struct {
	c      *simk.Conn
	addr   simAddr
	closed bool
	wake   chan struct{} // closed once a whole request was written
	woken  bool
}

func (s *simConn) signal() {
	if !s.woken {
		s.woken = true
		close(s.wake)
	}
}

type simAddr string

func (a simAddr) Network() string { return "tcp" }
func (a simAddr) String() string  { return string(a) }

func simDial(network, address string) (Conn, error) {
	c, e := simk.Dial(address)
	simStall()
	if e == -1 {
		h, _, _ := SplitHostPort(address)
		return nil, &OpError{Op: "dial", Net: network, Err: &DNSError{Err: errNoSuchHost.Error(), Name: h, IsNotFound: true}}
	}
	if e != 0 {
		return nil, &OpError{Op: "dial", Net: network, Addr: simAddr(address), Err: os.NewSyscallError("connect", syscall.Errno(e))}
	}
	return &simConn{c: c, addr: simAddr(address), wake: make(chan struct{})}, nil
}

func (s *simConn) Read(b []byte) (int, error) {
	if s.closed {
		return 0, ErrClosed
	}
	<-s.wake
	if s.closed {
		return 0, ErrClosed
	}
	n, e := s.c.Read(b)
	simStall()
	if s.closed {
		return 0, ErrClosed
	}
	if e != 0 {
		return 0, &OpError{Op: "read", Net: "tcp", Addr: s.addr, Err: os.NewSyscallError("read", syscall.Errno(e))}
	}
	if n == 0 && len(b) > 0 {
		return 0, io.EOF
	}
	return n, nil
}

func (s *simConn) Write(b []byte) (int, error) {
	if s.closed {
		return 0, ErrClosed
	}
	n, e := s.c.Write(b)
	simStall()
	if e != 0 || s.c.Requested() {
		s.signal()
	}
	if e != 0 {
		return n, &OpError{Op: "write", Net: "tcp", Addr: s.addr, Err: os.NewSyscallError("write", syscall.Errno(e))}
	}
	return n, nil
}

func (s *simConn) Close() error {
	if s.closed {
		return ErrClosed
	}
	s.closed = true
	s.signal()
	s.c.Close()
	return nil
}

func (s *simConn) LocalAddr() Addr                    { return simAddr("127.0.0.1:40000") }
func (s *simConn) RemoteAddr() Addr                   { return s.addr }
func (s *simConn) SetDeadline(t time.Time) error      { return nil }
func (s *simConn) SetReadDeadline(t time.Time) error  { return nil }
func (s *simConn) SetWriteDeadline(t time.Time) error { return nil }
`,
}

const verifRoot = "/verif"

var (
	simDir   = filepath.Join(verifRoot, "sim")
	buildDir = filepath.Join(verifRoot, "build")
	repoDir  = "/repo"
)

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "CGO_ENABLED", "GOCACHE", "GOROOT", "HOME", "GOPATH", "GOMODCACHE":
			continue
		}
		env = append(env, e)
	}
	return append(env, "HOME=/root", "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off")
}

// prepareOverlay writes the patched standard library files and the overlay
// description; extra maps additional target paths to source paths.
func prepareOverlay(name string, extra map[string]string) (string, error) {
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return "", fmt.Errorf("go env: %v", err)
	}
	goroot := strings.TrimSpace(string(out))
	dir := filepath.Join(buildDir, "std")
	os.MkdirAll(dir, 0755)
	repl := map[string]string{}
	contents := map[string]string{}
	for _, p := range stdPatches {
		src, ok := contents[p.file]
		if !ok {
			b, err := os.ReadFile(filepath.Join(goroot, "src", p.file))
			if err != nil {
				return "", err
			}
			src = string(b)
		}
		if strings.Count(src, p.old) != 1 && !(p.old == "import (\n" && strings.Contains(src, p.old)) {
			return "", fmt.Errorf("std patch does not apply to %s (%d matches):\n%s", p.file, strings.Count(src, p.old), p.old)
		}
		contents[p.file] = strings.Replace(src, p.old, p.new, 1)
	}
	for f, c := range stdNewFiles {
		contents[f] = c
	}
	for f, c := range contents {
		dst := filepath.Join(dir, strings.ReplaceAll(f, "/", "__"))
		if old, err := os.ReadFile(dst); err != nil || string(old) != c {
			if err := os.WriteFile(dst, []byte(c), 0644); err != nil {
				return "", err
			}
		}
		repl[filepath.Join(goroot, "src", f)] = dst
	}
	files, _ := filepath.Glob(filepath.Join(simDir, "simk", "*.go"))
	for _, f := range files {
		repl[filepath.Join(goroot, "src", "internal/simk", filepath.Base(f))] = f
	}
	for k, v := range extra {
		repl[k] = v
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	path := filepath.Join(buildDir, name+".overlay.json")
	return path, os.WriteFile(path, b, 0644)
}

type binSpec struct {
	out string
	pkg string
}

func goBuild(overlay string, race bool, specs ...binSpec) error {
	for _, s := range specs {
		args := []string{"build", "-overlay", overlay, "-tags", "verifstd,osusergo,netgo", "-o", s.out}
		if race {
			args = append(args, "-race", "-gcflags=internal/simk=-race=false -l")
		}
		args = append(args, s.pkg)
		cmd := exec.Command("go", args...)
		cmd.Dir = repoDir
		cmd.Env = append(goEnv(), "GOCACHE="+filepath.Join(buildDir, "gocache"))
		if race {
			cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
		} else {
			cmd.Env = append(cmd.Env, "CGO_ENABLED=0")
		}
		t0 := time.Now()
		out, err := cmd.CombinedOutput()
		if err != nil {
			return fmt.Errorf("build of %s failed: %v\n%s", s.pkg, err, out)
		}
		fmt.Printf("built %s in %.1fs\n", s.pkg, time.Since(t0).Seconds())
	}
	return nil
}

// instrumented returns copies of the non-test sources of the library packages
// with a scheduling point before every statement.
func instrumented() (map[string]string, error) {
	m := map[string]string{}
	dir := filepath.Join(buildDir, "instr")
	os.MkdirAll(dir, 0755)
	for _, pkg := range []string{"template", "collections", "collections/implementation", "utils", "json", "yaml", "hcl", "xml"} {
		files, _ := filepath.Glob(filepath.Join(repoDir, pkg, "*.go"))
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			fset := token.NewFileSet()
			tree, err := parser.ParseFile(fset, f, src, parser.ParseComments)
			if err != nil {
				return nil, err
			}
			var at []int
			add := func(l []ast.Stmt) {
				for _, s := range l {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
						continue
					}
					at = append(at, fset.Position(s.Pos()).Offset)
				}
			}
			ast.Inspect(tree, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					add(x.List)
				case *ast.CaseClause:
					add(x.Body)
				case *ast.CommClause:
					add(x.Body)
				}
				return true
			})
			if len(at) == 0 {
				continue
			}
			sort.Ints(at)
			pos := fset.Position(tree.Name.End()).Offset
			var b strings.Builder
			b.Write(src[:pos])
			b.WriteString("; import _simy \"os\"")
			for _, o := range at {
				b.Write(src[pos:o])
				b.WriteString("_simy.SimY(); ")
				pos = o
			}
			b.Write(src[pos:])
			dst := filepath.Join(dir, strings.ReplaceAll(pkg, "/", "__")+"__"+filepath.Base(f))
			if old, err := os.ReadFile(dst); err != nil || string(old) != b.String() {
				if err := os.WriteFile(dst, []byte(b.String()), 0644); err != nil {
					return nil, err
				}
			}
			m[f] = dst
		}
	}
	return m, nil
}

func buildRace() (string, error) {
	ins, err := instrumented()
	if err != nil {
		return "", err
	}
	for k, v := range harnessFiles("lib") {
		ins[k] = v
	}
	ov, err := prepareOverlay("race", ins)
	if err != nil {
		return "", err
	}
	bin := filepath.Join(buildDir, "race.sim")
	return bin, goBuild(ov, true, binSpec{bin, "./zzverif_lib"})
}

func harnessFiles(name string) map[string]string {
	m := map[string]string{}
	files, _ := filepath.Glob(filepath.Join(simDir, "_child", name, "*.go"))
	for _, f := range files {
		m[filepath.Join(repoDir, "zzverif_"+name, filepath.Base(f))] = f
	}
	return m
}

func buildCLI() (string, error) {
	ov, err := prepareOverlay("cli", nil)
	if err != nil {
		return "", err
	}
	bin := filepath.Join(buildDir, "gotemplate.sim")
	return bin, goBuild(ov, false, binSpec{bin, "."})
}

func buildLib() (string, error) {
	ov, err := prepareOverlay("lib", harnessFiles("lib"))
	if err != nil {
		return "", err
	}
	bin := filepath.Join(buildDir, "lib.sim")
	return bin, goBuild(ov, false, binSpec{bin, "./zzverif_lib"})
}
