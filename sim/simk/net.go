package simk

// Simulated network: plan documents are served over in-memory connections.
// The HTTP client stack above (net/http, net) is the real one.

// FNet kinds (Fault.Arg).
const (
	NetRefused = 1
	NetReset   = 2 // connection reset after Arg2 bytes of the response
	NetEOF     = 3 // connection closed after Arg2 bytes of the response
	NetNoHost  = 4
	NetTimeout = 5
)

type Conn struct {
	host   string
	req    []byte
	resp   []byte
	off    int
	doc    *HTTPDoc
	chunk  int
	kind   int64
	limit  int64
	open   bool
	served bool
	broken int // a failed connection stays failed
}

// Dial connects to host:port. -1 means unknown host.
func Dial(addr string) (*Conn, int) {
	k := &K
	ev, v := k.step(OpDial, addr, "", 0)
	if v.kind == FErrno {
		_, e := k.fail(ev, v)
		return nil, e
	}
	c := &Conn{host: addr, limit: -1, open: true}
	if v.kind == FNet {
		k.res.Trace[ev].FX = true
		switch v.arg {
		case NetRefused:
			k.done(ev, v, -1, ECONNREFUSED)
			return nil, ECONNREFUSED
		case NetTimeout:
			k.done(ev, v, -1, ETIMEDOUT)
			return nil, ETIMEDOUT
		case NetNoHost:
			k.done(ev, v, -1, ENOENT)
			return nil, -1
		}
		c.kind, c.limit = v.arg, v.arg2
	}
	known := false
	for i := range k.plan.Docs {
		if k.plan.Docs[i].Host == addr {
			known = true
		}
	}
	if !known {
		k.done(ev, v, -1, ENOENT)
		return nil, -1
	}
	k.conns++
	k.openConns++
	k.done(ev, v, int64(k.conns), 0)
	return c, 0
}

func (c *Conn) Write(b []byte) (int, int) {
	k := &K
	ev, v := k.step(OpNetWrite, c.host, "", int64(len(b)))
	if v.kind == FErrno && c.broken == 0 {
		_, c.broken = k.fail(ev, v)
		return 0, c.broken
	}
	if c.broken != 0 {
		k.done(ev, v, -1, c.broken)
		return 0, c.broken
	}
	c.req = append(c.req, b...)
	k.done(ev, v, int64(len(b)), 0)
	return len(b), 0
}

// Requested tells whether a whole request has been received.
func (c *Conn) Requested() bool {
	for i := 0; i+4 <= len(c.req); i++ {
		if string(c.req[i:i+4]) == "\r\n\r\n" {
			return true
		}
	}
	return false
}

func (c *Conn) serve() {
	// one request at a time; a keep-alive request replaces the previous one
	end := -1
	for i := 0; i+4 <= len(c.req); i++ {
		if string(c.req[i:i+4]) == "\r\n\r\n" {
			end = i + 4
			break
		}
	}
	if end < 0 {
		return
	}
	w := fields(firstLine(string(c.req[:end])))
	c.req = c.req[end:]
	path := "/"
	if len(w) > 1 {
		path = w[1]
	}
	for i := range K.plan.Docs {
		d := &K.plan.Docs[i]
		if d.Host == c.host && d.Path == path {
			c.resp, c.off, c.doc, c.chunk = d.Raw, 0, d, 0
			return
		}
	}
	c.resp = []byte("HTTP/1.1 404 Not Found\r\nContent-Length: 9\r\nConnection: close\r\n\r\nnot found")
	c.off, c.doc = 0, nil
}

func (c *Conn) Read(b []byte) (int, int) {
	k := &K
	ev, v := k.step(OpNetRead, c.host, "", int64(len(b)))
	if v.kind == FErrno && c.broken == 0 {
		_, c.broken = k.fail(ev, v)
		return 0, c.broken
	}
	if c.broken != 0 {
		k.done(ev, v, -1, c.broken)
		return 0, c.broken
	}
	if c.off >= len(c.resp) {
		c.serve()
	}
	max := len(b)
	if v.kind == FShort && v.arg > 0 && int(v.arg) < max {
		max = int(v.arg)
		k.res.Trace[ev].FX = true
	}
	if c.doc != nil && len(c.doc.Chunks) > 0 {
		i := c.chunk
		if i >= len(c.doc.Chunks) {
			i = len(c.doc.Chunks) - 1
		}
		c.chunk++
		if n := c.doc.Chunks[i]; n > 0 && n < max {
			max = n
		}
	}
	rest := c.resp[c.off:]
	if c.limit >= 0 {
		left := c.limit - int64(c.off)
		if left <= 0 {
			if c.kind == NetReset {
				k.done(ev, v, -1, ECONNRESET)
				return 0, ECONNRESET
			}
			k.done(ev, v, 0, 0)
			return 0, 0
		}
		if left < int64(len(rest)) {
			rest = rest[:left]
		}
	}
	if max < len(rest) {
		rest = rest[:max]
	}
	n := copy(b, rest)
	c.off += n
	k.done(ev, v, int64(n), 0)
	return n, 0
}

func (c *Conn) Close() {
	k := &K
	if !c.open {
		return
	}
	c.open = false
	k.openConns--
	ev, v := k.step(OpNetClose, c.host, "", 0)
	k.done(ev, v, 0, 0)
}

// ActorApply lets the harness act as an external process.
func ActorApply(kind int, p, p2 string, d []byte, m uint32) bool {
	a := Act{Kind: kind, P: p, P2: p2, D: d, M: m}
	return K.fs.Apply(&a, K.clock)
}
