package simk

// A controlled scheduler for the library harness: at most one of the
// registered goroutines holds the token and makes progress; at each scheduling
// point (system call, or statement of the instrumented packages) the seeded
// generator may hand the token to another one. It is built on plain loads and
// stores and on runtime.Gosched, in a package compiled without race
// instrumentation and with a single processor, so that it does not create
// happens-before edges which would hide data races of the code under test.

type Sched struct {
	on       bool
	n        int
	entered  int
	cur      int
	left     int
	quantum  int
	rng      uint64
	prog     uint64
	ids      [32]uint64
	done     [32]bool
	blocked  [32]bool
	prio     [32]int // the highest goes first, when schedules are by priority
	lowest   int
	held     [32]bool // waits for the others at a barrier
	back     [32]int  // how long a blocked worker is not tried again
	retry    [32]int
	stuck    int // stalls since the last progress
	Switches int
	Points   int
	Stalls   int
	Dead     bool
	hash     uint64
	gosched  func()
}

var S Sched

const byPriority = -1000

func (s *Sched) next(n int) int {
	s.rng += 0x9e3779b97f4a7c15
	z := s.rng
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	z ^= z >> 31
	return int(z % uint64(n))
}

// SchedStart prepares n workers; quantum is the average number of points
// between two scheduling decisions. A negative quantum makes the decisions when a
// lock is about to be taken instead, once out of -quantum times: what two workers
// do between their locks is then often unordered. Below byPriority, -1000-K, the
// worker with the highest priority always goes on, until it is, with probability
// 1/K when it is about to take a lock, given the lowest priority: what it did since
// its last lock is then not ordered with much of what the others do.
func SchedStart(n int, seed uint64, quantum int, gosched func()) {
	S = Sched{n: n, rng: seed*0x94d049bb133111eb + 99, quantum: quantum, gosched: gosched, hash: 14695981039346656037}
	for i := range S.prio[:n] {
		S.prio[i] = S.next(1 << 20)
	}
	S.cur = S.next(n)
	S.left = 1
	if quantum < 0 {
		S.left = 1 << 40
	}
	S.on = true
}

func (s *Sched) runnable(except int) int {
	var c [32]int
	k := 0
	for i := 0; i < s.n; i++ {
		if !s.done[i] && !s.blocked[i] && !s.held[i] && i != except {
			c[k] = i
			k++
		}
	}
	if k == 0 {
		return -1
	}
	if s.quantum <= byPriority {
		best := c[0]
		for _, i := range c[1:k] {
			if s.prio[i] > s.prio[best] {
				best = i
			}
		}
		return best
	}
	return c[s.next(k)]
}

func (s *Sched) give(w int) {
	if w != s.cur {
		s.Switches++
		s.hash = (s.hash ^ uint64(w+1)*31 ^ uint64(s.Points)<<8) * 1099511628211
	}
	s.cur = w
	s.left = 1
	if s.quantum < 0 {
		s.left = 1 << 40
	} else if s.quantum > 1 {
		s.left += s.next(2*s.quantum - 1)
	}
	s.prog++
}

// wait lets the others run until worker w holds the token.
func (s *Sched) wait(w int) {
	seen, idle := s.prog, 0
	for s.cur != w || s.entered < s.n {
		s.gosched()
		if s.Dead {
			return
		}
		if s.prog != seen || s.entered < s.n {
			seen, idle = s.prog, 0
			continue
		}
		if idle++; idle > 300 {
			// the holder does not progress: it is blocked on another worker
			s.Stalls++
			c := s.cur
			s.blocked[c] = true
			if s.back[c] = 2*s.back[c] + 1; s.back[c] > 63 {
				s.back[c] = 63
			}
			s.retry[c] = s.back[c]
			s.stuck++
			x := s.runnable(-1)
			if x < 0 {
				if s.stuck > 3*s.n {
					if !s.release(true) {
						s.Dead = true
						return
					}
					s.stuck = 0
				}
				for i := range s.blocked {
					s.blocked[i] = i == c
				}
				if x = s.runnable(-1); x < 0 {
					s.blocked[c] = false
					x = s.runnable(-1)
				}
			}
			s.give(x)
			seen, idle = s.prog, 0
		}
	}
}

func SchedEnter(w int, id uint64) {
	s := &S
	s.ids[w] = id
	s.entered++
	s.wait(w)
}

// release lets the workers held at a barrier go when all the others are there
// or done; it tells whether some were.
func (s *Sched) release(force bool) bool {
	some := false
	for i := 0; i < s.n; i++ {
		if !s.done[i] && !s.held[i] && !force {
			return false
		}
		some = some || s.held[i] && !s.done[i]
	}
	s.held = [32]bool{}
	return some
}

// SchedBarrier makes worker w wait until every worker is at a barrier or done.
func SchedBarrier(w int) {
	s := &S
	if !s.on || s.Dead {
		return
	}
	s.held[w] = true
	s.prog++
	if all := s.release(false); all || s.cur == w {
		for i := range s.blocked {
			s.blocked[i] = false
		}
		if x := s.runnable(-1); x >= 0 {
			s.give(x)
		}
	}
	s.wait(w)
}

func SchedExit(w int) {
	s := &S
	s.done[w] = true
	s.prog++
	all := s.release(false)
	if s.cur == w || all {
		for i := range s.blocked {
			s.blocked[i] = false
		}
		if x := s.runnable(-1); x >= 0 {
			s.give(x)
		} else {
			s.on = false
		}
	}
}

// YLock is the scheduling point of the goroutine id about to take a lock.
func YLock(id uint64) {
	s := &S
	if s.on && !s.Dead && s.quantum < 0 {
		if s.cur < s.n && s.ids[s.cur] == id {
			if s.quantum > byPriority {
				if s.next(-s.quantum) == 0 {
					s.left = 1
				}
			} else if s.next(byPriority-s.quantum+1) == 0 {
				s.left = 1
				s.lowest--
				s.prio[s.cur] = s.lowest
			}
		}
		Y(id)
	}
}

// YWake tells that the blocked workers may go on: a lock they wait for is free.
func YWake() {
	s := &S
	if !s.on || s.Dead {
		return
	}
	for i := range s.blocked {
		s.blocked[i], s.back[i] = false, 0
	}
}

// Y is a scheduling point of the goroutine id.
func Y(id uint64) {
	s := &S
	if !s.on || s.Dead {
		return
	}
	w := -1
	for i := 0; i < s.n; i++ {
		if s.ids[i] == id && !s.done[i] {
			w = i
		}
	}
	if w < 0 {
		return
	}
	if s.cur == w {
		s.prog++
		s.Points++
		s.stuck, s.back[w] = 0, 0
		if s.left--; s.left > 0 {
			return
		}
		for i := range s.blocked {
			if s.retry[i]--; s.retry[i] <= 0 {
				s.blocked[i] = false // it gets another chance
			}
		}
		if x := s.runnable(-1); x >= 0 {
			s.give(x)
		}
		if s.cur == w {
			return
		}
	} else {
		s.blocked[w] = false
	}
	s.wait(w)
}

// SchedInfo reports the number of points, switches and stalls, a hash of the
// schedule and whether a deadlock was found.
func SchedInfo() (points, switches, stalls int, hash uint64, dead bool) {
	return S.Points, S.Switches, S.Stalls, S.hash, S.Dead
}
