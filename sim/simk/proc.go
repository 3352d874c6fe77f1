package simk

// Simulated child processes: a handful of programs and a mini shell, run
// atomically against the simulated file system when the parent waits for them
// or reads from their pipe.

type proc struct {
	pid    int
	prog   string
	argv   []string
	env    []string
	dir    *inode
	in     *file
	out    *file
	err    *file
	ran    bool
	waited bool
	status uint32
	force  int64 // -1, exit code, or 256+signal
	budget int64 // remaining output bytes, <0: unlimited
}

func base(p string) string {
	for i := len(p) - 1; i >= 0; i-- {
		if p[i] == '/' {
			return p[i+1:]
		}
	}
	return p
}

// DirMark separates the command line from the working folder in a fork event.
const DirMark = " [in] "

// ForkExec starts a simulated program.
func (k *Kernel) forkExec(argv0 string, argv []string, dir string, env []string, fds []int) (pid int, errno int) {
	line := ""
	for i, a := range argv {
		if i > 0 {
			line += " "
		}
		line += a
	}
	wp := dir
	if dir == "" {
		wp = k.fs.pathOf(k.cwd)
	} else if dir[0] != '/' {
		wp = k.fs.pathOf(k.cwd) + "/" + dir
	}
	ev, v := k.step(OpFork, argv0, line+DirMark+wp, int64(len(argv)))
	if v.kind == FErrno {
		_, e := k.fail(ev, v)
		return 0, e
	}
	wd := k.cwd
	if dir != "" {
		_, _, n, e := k.fs.walk(k.cwd, dir, true)
		if e != 0 || !n.isDir() {
			if e == 0 {
				e = ENOTDIR
			}
			k.done(ev, v, -1, e)
			return 0, e
		}
		wd = n
	}
	_, _, n, e := k.fs.walk(wd, argv0, true)
	if e == 0 && (n.isDir() || n.mode&0111 == 0) {
		e = EACCES
	}
	if e != 0 {
		k.done(ev, v, -1, e)
		return 0, e
	}
	p := &proc{prog: base(argv0), argv: append([]string(nil), argv...), dir: wd, env: env, force: -1, budget: -1}
	if len(n.data) > 2 && n.data[0] == '#' && n.data[1] == '!' {
		// interpreter script
		l := firstLine(string(n.data))[2:]
		w := fields(l)
		if len(w) == 0 {
			k.done(ev, v, -1, ENOENT)
			return 0, ENOENT
		}
		p.prog = base(w[0])
		p.argv = append(append(append([]string(nil), w...), argv0), argv[1:]...)
	}
	if v.kind == FProc {
		p.force, p.budget = v.arg, v.arg2
		k.res.Trace[ev].FX = true
	}
	k.nextPid++
	p.pid = k.nextPid
	dup := func(i int) *file {
		if i < len(fds) && fds[i] >= 0 {
			if f := k.get(fds[i]); f != nil {
				f.refs++
				if f.pipe != nil && f.wr {
					f.pipe.procs = append(f.pipe.procs, p)
				}
				return f
			}
		}
		return nil
	}
	p.in, p.out, p.err = dup(0), dup(1), dup(2)
	k.procs = append(k.procs, p)
	k.done(ev, v, int64(p.pid), 0)
	return p.pid, 0
}

func ForkExec(argv0 string, argv []string, dir string, env []string, fds []int) (int, int) {
	return K.forkExec(argv0, argv, dir, env, fds)
}

func (k *Kernel) emit(p *proc, f *file, s string) {
	if f == nil {
		return
	}
	if p.budget >= 0 {
		if int64(len(s)) > p.budget {
			s = s[:p.budget]
		}
		p.budget -= int64(len(s))
	}
	switch {
	case f.pipe != nil:
		f.pipe.buf = append(f.pipe.buf, s...)
	case f.std == 2:
		k.res.Out = append(k.res.Out, s...)
	case f.std == 3:
		k.res.Err = append(k.res.Err, s...)
	case f.in != nil && f.in.mode&ifmt == IFREG:
		k.fs.writeAt(f.in, int64(len(f.in.data)), []byte(s))
	}
}

func (k *Kernel) run(p *proc) {
	if p.ran {
		return
	}
	p.ran = true
	code := 0
	switch p.prog {
	case "sh", "bash", "zsh", "ksh":
		if len(p.argv) > 2 && p.argv[1] == "-c" {
			code = k.shell(p, p.argv[2], p.argv[3:])
		} else if len(p.argv) > 1 {
			_, _, n, e := k.fs.walk(p.dir, p.argv[1], true)
			if e != 0 {
				k.emit(p, p.err, p.prog+": "+p.argv[1]+": No such file or directory\n")
				code = 127
			} else {
				code = k.shell(p, string(n.data), p.argv[2:])
			}
		} else {
			code = k.shell(p, k.childStdin(p), nil)
		}
	default:
		code = k.command(p, p.argv, p.out)
	}
	switch {
	case p.force >= 256:
		p.status = uint32(p.force - 256)
	case p.force >= 0:
		p.status = uint32(p.force) << 8
	case code >= 256:
		p.status = uint32(code - 256)
	default:
		p.status = uint32(code&0xff) << 8
	}
	for _, f := range []*file{p.in, p.out, p.err} {
		if f != nil {
			k.unref(f)
		}
	}
}

func (k *Kernel) childStdin(p *proc) string {
	f := p.in
	if f == nil {
		return ""
	}
	switch {
	case f.std == 1:
		if k.plan.InKind == InPipe || k.plan.InKind == InFile {
			s := string(k.plan.Stdin[k.stdinOff:])
			k.stdinOff = len(k.plan.Stdin)
			return s
		}
	case f.pipe != nil:
		s := string(f.pipe.buf)
		f.pipe.buf = nil
		return s
	case f.in != nil:
		return string(f.in.data)
	}
	return ""
}

func firstLine(s string) string {
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			return s[:i]
		}
	}
	return s
}

func fields(s string) (r []string) {
	cur := ""
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == ' ' || s[i] == '\t' {
			if cur != "" {
				r = append(r, cur)
			}
			cur = ""
		} else {
			cur += string(s[i])
		}
	}
	return
}

func itoa(n int64) string {
	if n == 0 {
		return "0"
	}
	neg := n < 0
	if neg {
		n = -n
	}
	s := ""
	for n > 0 {
		s = string(rune('0'+n%10)) + s
		n /= 10
	}
	if neg {
		s = "-" + s
	}
	return s
}

func atoi(s string) (n int64) {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return
		}
		n = n*10 + int64(s[i]-'0')
	}
	return
}

// shell runs a tiny subset of sh: simple commands, quotes, $1..$9, $@, $VAR,
// redirections > >> >&2, separators newline ; && ||.
func (k *Kernel) shell(p *proc, src string, args []string) int {
	status := 0
	i := 0
	next := byte(';')
	for i < len(src) {
		var words []string
		cur, has := "", false
		var redir, redirTo string
		pendingRedir := false
		flush := func() {
			if has {
				if pendingRedir {
					redirTo = cur
					pendingRedir = false
				} else {
					words = append(words, cur)
				}
			}
			cur, has = "", false
		}
		expand := func() {
			// src[i] == '$'
			i++
			if i >= len(src) {
				cur += "$"
				return
			}
			c := src[i]
			switch {
			case c == '@' || c == '*':
				for j, a := range args {
					if j > 0 {
						cur += " "
					}
					cur += a
				}
				i++
			case c == '#':
				cur += itoa(int64(len(args)))
				i++
			case c >= '1' && c <= '9':
				if int(c-'1') < len(args) {
					cur += args[c-'1']
				}
				i++
			case c == '?':
				cur += itoa(int64(status))
				i++
			default:
				n := i
				for n < len(src) && (src[n] == '_' || src[n] >= 'A' && src[n] <= 'Z' || src[n] >= 'a' && src[n] <= 'z') {
					n++
				}
				name := src[i:n] + "="
				if n == i {
					cur += "$"
				}
				for _, e := range p.env {
					if len(e) > len(name) && e[:len(name)] == name {
						cur += e[len(name):]
					}
				}
				i = n
			}
		}
		sep := byte(';')
	scan:
		for i < len(src) {
			c := src[i]
			switch c {
			case '\n', ';':
				i++
				break scan
			case '&', '|':
				if i+1 < len(src) && src[i+1] == c {
					sep = c
					i += 2
					break scan
				}
				cur += src[i : i+1]
				has = true
				i++
			case '#':
				if !has {
					for i < len(src) && src[i] != '\n' {
						i++
					}
				} else {
					cur += "#"
					i++
				}
			case ' ', '\t', '\r':
				flush()
				i++
			case '\'':
				has = true
				i++
				for i < len(src) && src[i] != '\'' {
					cur += src[i : i+1]
					i++
				}
				i++
			case '"':
				has = true
				i++
				for i < len(src) && src[i] != '"' {
					if src[i] == '$' {
						expand()
						continue
					}
					if src[i] == '\\' && i+1 < len(src) {
						i++
					}
					cur += src[i : i+1]
					i++
				}
				i++
			case '\\':
				i++
				if i < len(src) {
					cur += src[i : i+1]
					has = true
					i++
				}
			case '$':
				has = true
				expand()
			case '>':
				flush()
				redir = ">"
				i++
				if i < len(src) && src[i] == '>' {
					redir = ">>"
					i++
				}
				if i < len(src) && src[i] == '&' {
					redir = ">&"
					i++
				}
				pendingRedir = true
			default:
				cur += src[i : i+1]
				has = true
				i++
			}
		}
		flush()
		run := next == ';' || (next == '&' && status == 0) || (next == '|' && status != 0)
		next = sep
		if len(words) == 0 || !run {
			continue
		}
		out := p.out
		switch redir {
		case ">&":
			if redirTo == "2" {
				out = p.err
			}
		case ">", ">>":
			d, name, n, e := k.fs.walk(p.dir, redirTo, true)
			if n == nil && e == ENOENT && d != nil {
				n = k.fs.alloc(IFREG | 0644)
				n.mtime = k.clock
				d.link(name, n)
			}
			if n == nil || n.isDir() {
				k.emit(p, p.err, p.prog+": "+redirTo+": cannot open\n")
				status = 1
				continue
			}
			if redir == ">" {
				k.fs.truncate(n, 0)
			}
			out = &file{in: n, flags: oWRONLY, refs: 1}
		}
		if words[0] == "exit" {
			if len(words) > 1 {
				return int(atoi(words[1]))
			}
			return status
		}
		status = k.command(p, words, out)
		if status >= 256 {
			return status
		}
	}
	return status
}

func (k *Kernel) command(p *proc, w []string, out *file) int {
	join := func(w []string) (s string) {
		for i, x := range w {
			if i > 0 {
				s += " "
			}
			s += x
		}
		return
	}
	switch base(w[0]) {
	case "echo":
		if len(w) > 1 && w[1] == "-n" {
			k.emit(p, out, join(w[2:]))
		} else {
			k.emit(p, out, join(w[1:])+"\n")
		}
	case "cat":
		if len(w) == 1 {
			k.emit(p, out, k.childStdin(p))
		}
		st := 0
		for _, f := range w[1:] {
			_, _, n, e := k.fs.walk(p.dir, f, true)
			if e != 0 || n.isDir() {
				k.emit(p, p.err, "cat: "+f+": No such file or directory\n")
				st = 1
				continue
			}
			k.emit(p, out, string(n.data))
		}
		return st
	case "seq":
		n := int64(0)
		if len(w) > 1 {
			n = atoi(w[1])
		}
		for i := int64(1); i <= n; i++ {
			k.emit(p, out, itoa(i)+"\n")
		}
	case "pwd":
		k.emit(p, out, k.fs.pathOf(p.dir)+"\n")
	case "true", ":", "set":
	case "false":
		return 1
	case "kill9":
		return 256 + 9
	case "sleep":
		if len(w) > 1 {
			k.clock += atoi(w[1]) * 1e9
		}
	case "exit":
		if len(w) > 1 {
			return int(atoi(w[1]))
		}
	case "terraform":
		return k.terraform(p, w, out)
	case "rm", "mkdir", "mv", "chmod":
		return k.fileCommand(p, w)
	default:
		k.emit(p, p.err, p.prog+": "+w[0]+": command not found\n")
		return 127
	}
	return 0
}

// fileCommand changes the file system as the tools of the same names.
func (k *Kernel) fileCommand(p *proc, w []string) int {
	e := EINVAL
	switch {
	case w[0] == "rm" && len(w) == 2:
		var par, n *inode
		var name string
		if par, name, n, e = k.fs.walk(p.dir, w[1], false); e == 0 && n.isDir() {
			e = EISDIR
		}
		if e == 0 {
			par.unlink(name)
			par.mtime = k.clock
			k.fs.freeIf(n)
		}
	case w[0] == "mkdir" && len(w) == 2:
		par, name, n, _ := k.fs.walk(p.dir, w[1], false)
		if e = EEXIST; n == nil {
			if e = ENOENT; par != nil {
				n, e = k.fs.alloc(IFDIR|0755), 0
				n.mtime = k.clock
				par.mtime = k.clock
				par.link(name, n)
			}
		}
	case w[0] == "mv" && len(w) == 3:
		e = k.fs.rename(p.dir, w[1], p.dir, w[2])
	case w[0] == "chmod" && len(w) == 3:
		var n *inode
		if _, _, n, e = k.fs.walk(p.dir, w[2], true); e == 0 {
			m := uint32(0)
			for _, c := range []byte(w[1]) {
				m = m*8 + uint32(c-'0')
			}
			treeGen++
			n.mode = n.mode&ifmt | m&07777
		}
	}
	if e != 0 {
		k.emit(p, p.err, w[0]+": error "+itoa(int64(e))+"\n")
		return 1
	}
	return 0
}

// terraform models `terraform fmt`: it formats every terraform file of the
// working directory in place. Formatting squeezes runs of spaces by one level
// per pass, so that two passes may be needed, as with the real tool. A file
// holding the word INVALID makes it fail and leaves that file alone.
func (k *Kernel) terraform(p *proc, w []string, out *file) int {
	if len(w) < 2 || w[1] != "fmt" {
		k.emit(p, p.err, "Usage: terraform fmt\n")
		return 1
	}
	st := 0
	left := 1 << 30
	if p.budget < -1 { // ended by a fault after a number of files
		left = int(-2 - p.budget)
	}
	recursive, check, write := false, false, true
	targets := []*inode{p.dir}
	for _, a := range w[2:] {
		switch a {
		case "-recursive":
			recursive = true
		case "-check", "-check=true":
			check, write = true, false
		case "-write=false":
			write = false
		case "-list=false", "-diff", "-no-color":
		default:
			_, _, n, _ := k.fs.walk(p.dir, a, true)
			if n == nil || len(a) > 0 && a[0] == '-' {
				k.emit(p, p.err, "Error: No file or directory at "+a+"\n")
				return 2
			}
			if len(targets) == 1 && targets[0] == p.dir {
				targets = nil
			}
			targets = append(targets, n)
		}
	}
	var format func(n *inode, name string)
	format = func(n *inode, name string) {
		if n.isDir() {
			for i := range n.ents {
				d := n.ents[i]
				if left--; left < 0 {
					st = 1
					return
				}
				if d.in.isDir() && !recursive || !d.in.isDir() && !IsTF(d.name) {
					continue
				}
				format(d.in, d.name)
				if left < 0 {
					return
				}
			}
			return
		}
		if n.mode&ifmt != IFREG {
			return
		}
		src := string(n.data)
		if contains(src, "INVALID") {
			k.emit(p, p.err, "Error: Invalid expression in "+name+"\n")
			st = 2
			return
		}
		dst := TFPass(src)
		if dst != src {
			k.emit(p, out, name+"\n")
			if check {
				st = 3
			}
			if write {
				k.fs.truncate(n, 0)
				k.fs.writeAt(n, 0, []byte(dst))
				n.mtime = k.clock
			}
		}
	}
	for _, n := range targets {
		format(n, "file")
	}
	return st
}

func IsTF(name string) bool {
	for _, x := range []string{".tf", ".tf.json", ".tfvars"} {
		if len(name) >= len(x) && name[len(name)-len(x):] == x {
			return true
		}
	}
	return false
}

func contains(s, sub string) bool {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return true
		}
	}
	return false
}

// TFPass is one formatting pass: "~~" becomes "~" (non overlapping).
func TFPass(s string) string {
	b := make([]byte, 0, len(s))
	for i := 0; i < len(s); i++ {
		b = append(b, s[i])
		if s[i] == '~' && i+1 < len(s) && s[i+1] == '~' {
			i++
		}
	}
	return string(b)
}

func (k *Kernel) wait(pid int) (*proc, int) {
	for _, p := range k.procs {
		if (pid <= 0 || p.pid == pid) && !p.waited {
			return p, 0
		}
	}
	return nil, ECHILD
}
