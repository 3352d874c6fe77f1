package simk

// In-memory POSIX file system. Deterministic: inode numbers are allocated
// sequentially, directories keep their entries in insertion order.

const (
	ifmt  = 0170000
	IFREG = 0100000
	IFDIR = 0040000
	IFLNK = 0120000
	IFCHR = 0020000
	IFIFO = 0010000
)

const (
	EPERM        = 1
	ENOENT       = 2
	ESRCH        = 3
	EINTR        = 4
	EIO          = 5
	EBADF        = 9
	ECHILD       = 10
	EAGAIN       = 11
	ENOMEM       = 12
	EACCES       = 13
	EBUSY        = 16
	EEXIST       = 17
	EXDEV        = 18
	ENOTDIR      = 20
	EISDIR       = 21
	EINVAL       = 22
	ENFILE       = 23
	EMFILE       = 24
	ENOTTY       = 25
	EFBIG        = 27
	ENOSPC       = 28
	ESPIPE       = 29
	EROFS        = 30
	EPIPE        = 32
	ERANGE       = 34
	ENAMETOOLONG = 36
	ENOSYS       = 38
	ENOTEMPTY    = 39
	ELOOP        = 40
	EAFNOSUPPORT = 97
	ECONNRESET   = 104
	ETIMEDOUT    = 110
	ECONNREFUSED = 111
	ESTALE       = 116
	EDQUOT       = 122
)

type dirent struct {
	name string
	in   *inode
}

type inode struct {
	ino    uint64
	mode   uint32
	nlink  int
	data   []byte
	ents   []dirent
	target string
	mtime  int64
	parent *inode // directories
}

func (n *inode) isDir() bool { return n.mode&ifmt == IFDIR }
func (n *inode) lookup(name string) *inode {
	for i := range n.ents {
		if n.ents[i].name == name {
			return n.ents[i].in
		}
	}
	return nil
}
func (n *inode) link(name string, c *inode) {
	treeGen++
	n.ents = append(n.ents, dirent{name, c})
	c.nlink++
	if c.isDir() {
		c.parent = n
	}
}
func (n *inode) unlink(name string) {
	for i := range n.ents {
		if n.ents[i].name == name {
			treeGen++
			n.ents[i].in.nlink--
			// a fresh slice: an open directory stream may be iterating
			n.ents = append(append([]dirent(nil), n.ents[:i]...), n.ents[i+1:]...)
			return
		}
	}
}

// treeGen counts the changes of names, contents and modes.
var treeGen uint64

type FS struct {
	root    *inode
	nextIno uint64
	used    int64
	Cap     int64
	NonRoot bool
}

func NewFS() *FS {
	fs := &FS{nextIno: 2}
	fs.root = &inode{ino: 1, mode: IFDIR | 0755, nlink: 1}
	fs.root.parent = fs.root
	return fs
}

func (fs *FS) alloc(mode uint32) *inode {
	fs.nextIno++
	return &inode{ino: fs.nextIno, mode: mode}
}

func splitPath(p string) (r []string) {
	for len(p) > 0 {
		i := 0
		for i < len(p) && p[i] != '/' {
			i++
		}
		if i > 0 {
			r = append(r, p[:i])
		}
		if i == len(p) {
			break
		}
		p = p[i+1:]
	}
	return
}

// walk resolves p from dir. It returns the parent directory, the final name
// and the inode (nil when it does not exist).
func (fs *FS) walk(dir *inode, p string, follow bool) (parent *inode, name string, in *inode, e int) {
	links := 0
	if p == "" {
		return nil, "", nil, ENOENT
	}
	trailing := p[len(p)-1] == '/'
	cur := dir
	if p[0] == '/' {
		cur = fs.root
	}
	parts := splitPath(p)
	if len(parts) == 0 {
		return cur, ".", cur, 0
	}
	for i := 0; i < len(parts); i++ {
		c := parts[i]
		last := i == len(parts)-1
		if !cur.isDir() {
			return nil, "", nil, ENOTDIR
		}
		if fs.NonRoot && cur.mode&0100 == 0 {
			return nil, "", nil, EACCES
		}
		if len(c) > 255 {
			return nil, "", nil, ENAMETOOLONG
		}
		if c == "." || c == ".." {
			if c == ".." {
				cur = cur.parent
			}
			if last {
				return cur, c, cur, 0
			}
			continue
		}
		n := cur.lookup(c)
		if n == nil {
			if last {
				return cur, c, nil, ENOENT
			}
			return nil, "", nil, ENOENT
		}
		if n.mode&ifmt == IFLNK && (!last || follow || trailing) {
			links++
			if links > 40 {
				return nil, "", nil, ELOOP
			}
			rest := splitPath(n.target)
			if len(n.target) > 0 && n.target[0] == '/' {
				cur = fs.root
			}
			rest = append(rest, parts[i+1:]...)
			if len(rest) == 0 {
				return cur, ".", cur, 0
			}
			parts = rest
			i = -1
			continue
		}
		if last {
			if trailing && !n.isDir() {
				return nil, "", nil, ENOTDIR
			}
			return cur, c, n, 0
		}
		cur = n
	}
	return cur, ".", cur, 0
}

func (fs *FS) pathOf(n *inode) string {
	if n == fs.root {
		return "/"
	}
	s := ""
	for n != fs.root {
		p := n.parent
		if p == nil {
			return "(deleted)" + s
		}
		found := false
		for i := range p.ents {
			if p.ents[i].in == n {
				s = "/" + p.ents[i].name + s
				found = true
				break
			}
		}
		if !found {
			return "(deleted)" + s
		}
		n = p
	}
	return s
}

func (fs *FS) freeIf(n *inode) {
	// space is released on last unlink (open descriptors keep the data readable)
	if n.nlink == 0 && n.mode&ifmt == IFREG {
		fs.used -= int64(len(n.data))
	}
}

// room returns how many of want additional bytes fit.
func (fs *FS) room(want int64) int64 {
	if fs.Cap <= 0 {
		return want
	}
	r := fs.Cap - fs.used
	if r < 0 {
		r = 0
	}
	if r < want {
		return r
	}
	return want
}

func (fs *FS) truncate(n *inode, size int64) {
	treeGen++
	old := int64(len(n.data))
	if size < old {
		n.data = append([]byte(nil), n.data[:size]...)
	} else {
		n.data = append(append([]byte(nil), n.data...), make([]byte, size-old)...)
	}
	if n.nlink > 0 {
		fs.used += size - old
	}
}

func (fs *FS) writeAt(n *inode, off int64, b []byte) (int, int) {
	treeGen++
	end := off + int64(len(b))
	grow := end - int64(len(n.data))
	if grow > 0 {
		r := fs.room(grow)
		if r < grow {
			short := grow - r
			if short >= int64(len(b)) {
				return 0, ENOSPC
			}
			b = b[:int64(len(b))-short]
			end = off + int64(len(b))
			grow = end - int64(len(n.data))
		}
	}
	if grow > 0 {
		n.data = append(n.data, make([]byte, grow)...)
		if n.nlink > 0 {
			fs.used += grow
		}
	}
	copy(n.data[off:], b)
	return len(b), 0
}

// Load installs plan nodes. Parents are created on demand.
func (fs *FS) Load(nodes []Node) {
	for i := range nodes {
		x := &nodes[i]
		if x.Path == "/" {
			continue
		}
		d := fs.mkparents(x.Path)
		parts := splitPath(x.Path)
		name := parts[len(parts)-1]
		if x.Link != "" {
			if _, _, t, _ := fs.walk(fs.root, x.Link, false); t != nil {
				d.link(name, t)
				continue
			}
		}
		if old := d.lookup(name); old != nil {
			if old.isDir() && x.Mode&ifmt == IFDIR {
				old.mode = x.Mode
				old.mtime = x.MTime
				continue
			}
			d.unlink(name)
			fs.freeIf(old)
		}
		n := fs.alloc(x.Mode)
		n.mtime = x.MTime
		n.target = x.Target
		if x.Mode&ifmt == IFREG {
			n.data = append([]byte(nil), x.Data...)
			fs.used += int64(len(n.data))
		}
		d.link(name, n)
	}
}

func (fs *FS) mkparents(p string) *inode {
	parts := splitPath(p)
	cur := fs.root
	for i := 0; i < len(parts)-1; i++ {
		n := cur.lookup(parts[i])
		if n == nil {
			n = fs.alloc(IFDIR | 0755)
			cur.link(parts[i], n)
		}
		cur = n
	}
	return cur
}

// Dump lists the whole tree in a deterministic (name) order.
func (fs *FS) Dump() (r []Node) {
	seen := map[*inode]string{}
	var rec func(n *inode, p string)
	rec = func(n *inode, p string) {
		idx := make([]int, len(n.ents))
		for i := range idx {
			idx[i] = i
			for j := i; j > 0 && n.ents[idx[j]].name < n.ents[idx[j-1]].name; j-- {
				idx[j], idx[j-1] = idx[j-1], idx[j]
			}
		}
		for _, i := range idx {
			c := n.ents[i].in
			cp := p + "/" + n.ents[i].name
			x := Node{Path: cp, Mode: c.mode, Target: c.target, MTime: c.mtime}
			if first, ok := seen[c]; ok {
				x.Link = first
				r = append(r, x)
				continue
			}
			if c.mode&ifmt == IFREG {
				x.Data = append([]byte(nil), c.data...)
				if c.nlink > 1 {
					seen[c] = cp
				}
			}
			r = append(r, x)
			if c.isDir() {
				rec(c, cp)
			}
		}
	}
	rec(fs.root, "")
	return
}

// Apply performs an external actor's action; errors are ignored, as the actor
// may be racing with the program.
func (fs *FS) Apply(a *Act, now int64) bool {
	switch a.Kind {
	case AWrite:
		d, name, n, e := fs.walk(fs.root, a.P, true)
		if e != 0 && (e != ENOENT || d == nil) {
			return false
		}
		if n == nil {
			n = fs.alloc(IFREG | (a.M & 07777))
			d.link(name, n)
		} else if n.isDir() {
			return false
		}
		fs.truncate(n, 0)
		fs.writeAt(n, 0, a.D)
		n.mtime = now
	case ARemove:
		d, name, n, e := fs.walk(fs.root, a.P, false)
		if e != 0 || n == nil || (n.isDir() && len(n.ents) > 0) || n == fs.root {
			return false
		}
		d.unlink(name)
		fs.freeIf(n)
	case ARemoveAll:
		d, name, n, e := fs.walk(fs.root, a.P, false)
		if e != 0 || n == nil || n == fs.root {
			return false
		}
		d.unlink(name)
		fs.freeIf(n)
	case ARename:
		return fs.rename(fs.root, a.P, fs.root, a.P2) == 0
	case AMkdir:
		d, name, n, e := fs.walk(fs.root, a.P, false)
		if n != nil || (e != ENOENT) || d == nil {
			return false
		}
		d.link(name, fs.alloc(IFDIR|(a.M&07777)))
	case AChmod:
		_, _, n, e := fs.walk(fs.root, a.P, true)
		if e != 0 {
			return false
		}
		treeGen++
		n.mode = n.mode&ifmt | a.M&07777
	case ALink:
		d, name, n, e := fs.walk(fs.root, a.P, false)
		if n != nil || e != ENOENT || d == nil {
			return false
		}
		n = fs.alloc(IFLNK | 0777)
		n.target = a.P2
		d.link(name, n)
	case ATouch:
		_, _, n, e := fs.walk(fs.root, a.P, true)
		if e != 0 {
			return false
		}
		n.mtime = now
	}
	return true
}

func (fs *FS) rename(d1 *inode, p1 string, d2 *inode, p2 string) int {
	sd, sn, s, e := fs.walk(d1, p1, false)
	if e != 0 {
		return e
	}
	dd, dn, d, e := fs.walk(d2, p2, false)
	if e != 0 && (e != ENOENT || dd == nil) {
		return e
	}
	if sn == "." || sn == ".." || dn == "." || dn == ".." {
		return EBUSY
	}
	if fs.NonRoot && (sd.mode&0200 == 0 || dd.mode&0200 == 0) {
		return EACCES
	}
	if d == s && d != nil {
		return 0
	}
	if d != nil {
		if d.isDir() {
			if !s.isDir() {
				return EISDIR
			}
			if len(d.ents) > 0 {
				return ENOTEMPTY
			}
		} else if s.isDir() {
			return ENOTDIR
		}
	}
	if s.isDir() {
		for x := dd; ; x = x.parent {
			if x == s {
				return EINVAL
			}
			if x == fs.root {
				break
			}
		}
	}
	if d != nil {
		dd.unlink(dn)
		fs.freeIf(d)
	}
	sd.unlink(sn)
	s.nlink++ // keep alive between the two steps
	dd.link(dn, s)
	s.nlink--
	return 0
}
