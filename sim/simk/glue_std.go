//go:build verifstd

package simk

import (
	"internal/runtime/syscall/linux"
	"unsafe"
)

const (
	planFd   = 3
	resultFd = 4
)

func init() {
	var all []byte
	buf := make([]byte, 1<<16)
	for {
		n, _, e := linux.Syscall6(0, planFd, uintptr(unsafe.Pointer(&buf[0])), uintptr(len(buf)), 0, 0, 0)
		if e == EINTR {
			continue
		}
		if e != 0 {
			die("no plan on descriptor 3\n")
		}
		if n == 0 {
			break
		}
		all = append(all, buf[:n]...)
	}
	linux.Syscall6(3, planFd, 0, 0, 0, 0, 0)
	var p Plan
	if !p.Decode(all) {
		die("malformed plan\n")
	}
	K.boot(&p)
}

func die(s string) {
	b := []byte("simk: " + s)
	linux.Syscall6(1, 2, uintptr(unsafe.Pointer(&b[0])), uintptr(len(b)), 0, 0, 0)
	realExit(99)
}

func realExit(code int) {
	for {
		linux.Syscall6(231, uintptr(code), 0, 0, 0, 0, 0)
	}
}

func sendResult(b []byte) {
	for len(b) > 0 {
		n, _, e := linux.Syscall6(1, resultFd, uintptr(unsafe.Pointer(&b[0])), uintptr(len(b)), 0, 0, 0)
		if e == EINTR {
			continue
		}
		if e != 0 {
			realExit(97)
		}
		b = b[n:]
	}
}

// Debug writes to the real standard error.
func Debug(s string) {
	b := []byte(s)
	linux.Syscall6(1, 2, uintptr(unsafe.Pointer(&b[0])), uintptr(len(b)), 0, 0, 0)
}

func cstr(p uintptr) string {
	if p == 0 {
		return ""
	}
	var b []byte
	for q := unsafe.Pointer(p); *(*byte)(q) != 0; q = unsafe.Add(q, 1) {
		b = append(b, *(*byte)(q))
	}
	return string(b)
}

func mem(p uintptr, n uintptr) []byte {
	if n == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(unsafe.Pointer(p)), int(n))
}

func r(v int64, e int) (uintptr, uintptr, uintptr, bool) {
	if e != 0 {
		return ^uintptr(0), 0, uintptr(e), true
	}
	return uintptr(v), 0, 0, true
}

// Syscall serves one system call. ok is false for the calls that are passed
// through to the host (memory, identity and scheduling only).
func Syscall(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2, errno uintptr, ok bool) {
	k := &K
	if !k.On {
		if k.ended {
			for {
				realExit(96)
			}
		}
		return 0, 0, 0, false
	}
	if Yield != nil {
		Yield(int(trap))
	} else if k.preempt > 0 && Gosched != nil {
		// other goroutines may run before the operation
		k.preRng += 0x9e3779b97f4a7c15
		if z := (k.preRng ^ k.preRng>>30) * 0xbf58476d1ce4e5b9; z>>33%k.preempt == 0 {
			Gosched()
		}
	}
	fd := int(int32(a1))
	switch trap {
	case 0: // read
		return r(k.read(fd, mem(a2, a3), -1))
	case 1:
		return r(k.write(fd, mem(a2, a3), -1))
	case 2:
		return r(k.open(atFDCWD, cstr(a1), int(a2), uint32(a3)))
	case 3:
		return r(k.close(fd))
	case 4, 6:
		s, e := k.stat(atFDCWD, cstr(a1), trap == 4)
		if e == 0 {
			encStat(mem(a2, 144), s)
		}
		return r(0, e)
	case 5:
		s, e := k.fstat(fd)
		if e == 0 {
			encStat(mem(a2, 144), s)
		}
		return r(0, e)
	case 8: // lseek
		f := k.get(fd)
		if f == nil {
			return r(-1, EBADF)
		}
		if f.in == nil {
			return r(-1, ESPIPE)
		}
		switch a3 {
		case 0:
			f.off = int64(a2)
		case 1:
			f.off += int64(a2)
		case 2:
			f.off = int64(len(f.in.data)) + int64(a2)
		}
		if f.in.isDir() {
			f.dpos = int(f.off)
			f.ents = nil
		}
		return r(f.off, 0)
	case 16: // ioctl
		f := k.get(fd)
		if f == nil {
			return r(-1, EBADF)
		}
		if f.std == 1 && k.plan.InKind == InTTY || f.std > 1 && k.plan.OutKind == InTTY {
			return r(0, 0)
		}
		return r(-1, ENOTTY)
	case 17:
		return r(k.read(fd, mem(a2, a3), int64(a4)))
	case 18:
		return r(k.write(fd, mem(a2, a3), int64(a4)))
	case 20: // writev
		var total int64
		for i := uintptr(0); i < a3; i++ {
			iov := mem(a2+i*16, 16)
			p := *(*uintptr)(unsafe.Pointer(&iov[0]))
			n := *(*uintptr)(unsafe.Pointer(&iov[8]))
			if n == 0 {
				continue
			}
			m, e := k.write(fd, mem(p, n), -1)
			if e != 0 {
				if total > 0 {
					return r(total, 0)
				}
				return r(-1, e)
			}
			total += m
			if m < int64(n) {
				break
			}
		}
		return r(total, 0)
	case 21:
		return r(k.access(atFDCWD, cstr(a1), uint32(a2)))
	case 22:
		return r(k.pipe2(mem(a1, 8)))
	case 293:
		return r(k.pipe2(mem(a1, 8)))
	case 32, 33, 292: // dup
		f := k.get(fd)
		if f == nil {
			return r(-1, EBADF)
		}
		if trap == 32 {
			return r(int64(k.newFd(f)), 0)
		}
		if int(a2) <= 2 {
			f.refs++
			if o := k.get(int(a2)); o != nil {
				k.unref(o)
			}
			k.setFd(int(a2), f)
			return r(int64(a2), 0)
		}
		return r(-1, EINVAL)
	case 39, 110, 102, 104, 107, 108, 115, 186, 63, 302, 97, 9, 11, 28, 12, 13, 14, 24, 203, 204, 228, 231, 234, 160, 202, 35, 230, 10, 25, 218, 318 + 1000:
		return 0, 0, 0, false
	case 40, 326, 275, 276, 278: // sendfile, copy_file_range, splice, tee, vmsplice
		return r(-1, ENOSYS)
	case 41, 53: // socket
		return r(-1, EAFNOSUPPORT)
	case 72: // fcntl
		f := k.get(fd)
		if f == nil {
			return r(-1, EBADF)
		}
		switch a2 {
		case 0, 1030:
			return r(int64(k.newFd(f)), 0)
		case 1:
			return r(1, 0)
		case 3:
			return r(int64(f.flags&^0x800), 0)
		}
		return r(0, 0)
	case 73: // flock
		return r(0, 0)
	case 74, 75, 277, 306, 162:
		f := k.get(fd)
		if f == nil {
			return r(-1, EBADF)
		}
		ev, v := k.step(OpSync, f.path, "", 0)
		if v.kind == FErrno {
			return r(k.fail(ev, v))
		}
		return r(k.done(ev, v, 0, 0))
	case 76:
		_, _, n, e := k.fs.walk(k.cwd, cstr(a1), true)
		if e != 0 {
			return r(-1, e)
		}
		return r(k.trunc(n, k.abs(atFDCWD, cstr(a1)), int64(a2)))
	case 77:
		f := k.get(fd)
		if f == nil || f.in == nil {
			return r(-1, EBADF)
		}
		return r(k.trunc(f.in, f.path, int64(a2)))
	case 285: // fallocate
		return r(-1, 95)
	case 79:
		return r(k.getcwd(mem(a1, a2)))
	case 80:
		p := cstr(a1)
		return r(k.chdir(nil, k.abs(atFDCWD, p)))
	case 81:
		f := k.get(fd)
		if f == nil || f.in == nil {
			return r(-1, EBADF)
		}
		return r(k.chdir(f.in, f.path))
	case 82:
		return r(k.rename(atFDCWD, cstr(a1), atFDCWD, cstr(a2), 0))
	case 264:
		return r(k.rename(fd, cstr(a2), int(int32(a3)), cstr(a4), 0))
	case 316:
		return r(k.rename(fd, cstr(a2), int(int32(a3)), cstr(a4), uint64(a5)))
	case 83:
		return r(k.mkdir(atFDCWD, cstr(a1), uint32(a2)))
	case 258:
		return r(k.mkdir(fd, cstr(a2), uint32(a3)))
	case 84:
		return r(k.unlink(atFDCWD, cstr(a1), true))
	case 87:
		return r(k.unlink(atFDCWD, cstr(a1), false))
	case 263:
		return r(k.unlink(fd, cstr(a2), a3&0x200 != 0))
	case 86:
		return r(k.link(atFDCWD, cstr(a1), atFDCWD, cstr(a2)))
	case 265:
		return r(k.link(fd, cstr(a2), int(int32(a3)), cstr(a4)))
	case 88:
		return r(k.symlink(cstr(a1), atFDCWD, cstr(a2)))
	case 266:
		return r(k.symlink(cstr(a1), int(int32(a2)), cstr(a3)))
	case 89:
		return r(k.readlink(atFDCWD, cstr(a1), mem(a2, a3)))
	case 267:
		return r(k.readlink(fd, cstr(a2), mem(a3, a4)))
	case 90:
		return r(k.chmod(atFDCWD, cstr(a1), uint32(a2)))
	case 268, 452:
		return r(k.chmod(fd, cstr(a2), uint32(a3)))
	case 91:
		f := k.get(fd)
		if f == nil || f.in == nil {
			return r(-1, EBADF)
		}
		ev, v := k.step(OpChmod, f.path, "", int64(a2))
		if v.kind == FErrno {
			return r(k.fail(ev, v))
		}
		return r(k.chmodIn(ev, v, f.in, uint32(a2)))
	case 92, 93, 94, 260: // chown family
		return r(0, 0)
	case 95:
		o := k.umask
		k.umask = uint32(a1) & 0777
		return r(int64(o), 0)
	case 137, 138: // statfs
		return r(-1, ENOSYS)
	case 217:
		return r(k.getdents(fd, mem(a2, a3)))
	case 257:
		return r(k.open(fd, cstr(a2), int(a3), uint32(a4)))
	case 262:
		p := cstr(a2)
		if p == "" && a4&0x1000 != 0 {
			s, e := k.fstat(fd)
			if e == 0 {
				encStat(mem(a3, 144), s)
			}
			return r(0, e)
		}
		s, e := k.stat(fd, p, a4&0x100 == 0)
		if e == 0 {
			encStat(mem(a3, 144), s)
		}
		return r(0, e)
	case 269, 439:
		return r(k.access(fd, cstr(a2), uint32(a3)))
	case 280: // utimensat
		var times []byte
		if a3 != 0 {
			times = mem(a3, 32)
		}
		if a2 == 0 { // futimens
			if f := k.get(fd); f != nil {
				return r(k.utimes(atFDCWD, f.path, times, true))
			}
			return r(-1, EBADF)
		}
		return r(k.utimes(fd, cstr(a2), times, a4&0x100 == 0))
	case 235, 261: // utimes
		return r(-1, ENOSYS)
	case 318: // getrandom
		b := mem(a1, a2)
		for i := range b {
			b[i] = byte(k.rand() >> 24)
		}
		return r(int64(len(b)), 0)
	case 332: // statx
		return r(-1, ENOSYS)
	case 247: // waitid
		p, e := k.wait(int(a2))
		if a1 == 0 {
			p, e = k.wait(-1)
		}
		if e != 0 {
			return r(-1, e)
		}
		ev, v := k.step(OpWait, p.prog, "", int64(p.pid))
		if v.kind == FErrno && v.arg == EINTR {
			return r(k.fail(ev, v))
		}
		k.run(p)
		return r(k.done(ev, v, 0, 0))
	case 61: // wait4
		p, e := k.wait(fd)
		if e != 0 {
			return r(-1, e)
		}
		k.run(p)
		p.waited = true
		if a2 != 0 {
			put32(mem(a2, 4), p.status)
		}
		if a4 != 0 {
			b := mem(a4, 144)
			for i := range b {
				b[i] = 0
			}
		}
		return r(int64(p.pid), 0)
	case 62, 424, 434: // kill, pidfd
		return r(-1, ESRCH)
	}
	k.finish(EndUnhandled, 99, "unhandled system call "+itoa(int64(trap)))
	return
}

// Yield, when set, is the scheduler of the concurrency harness.
var Yield func(trap int)

// LockPoint, when set, is called before a lock is taken.
var LockPoint func()

// WakePoint, when set, is called when a lock others wait for is released.
var WakePoint func()
