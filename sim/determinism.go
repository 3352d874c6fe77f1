package main

import (
	"bytes"
	"fmt"
	"regexp"
	"sync"
	"sync/atomic"
	"verifsim/simk"
)

// determinism runs many plans twice (with and without faults) and compares the
// complete encoded results.
func determinism(n int, seed uint64) int {
	b := &Bench{st: newStats()}
	if err := b.build("cli"); err != nil {
		fmt.Println(err)
		return 2
	}
	var next, bad, runs int64
	var wg sync.WaitGroup
	for k := 0; k < workers(); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := atomic.AddInt64(&next, 1) - 1
				if i >= int64(n) {
					return
				}
				r := newRng(seed, 99, uint64(i))
				p := defaultProfile()
				p.Errors, p.Save, p.Terraform, p.Log = true, 20, 10, 20
				w := genWorld(r, p)
				o := b.runWorld(w, nil)
				lists := sampleFaults(r, o.Trace, &faultMix{errno: 5, short: 3, torn: 2, crash: 2, eintr: 2}, 8)
				lists = append(lists, combine(r, lists, 3, 4)...)
				lists = append(lists, nil)
				for _, f := range lists {
					a := b.runWorld(w, f)
					for k := 0; k < 2; k++ {
						c := b.runWorld(w, f)
						atomic.AddInt64(&runs, 1)
						if !bytes.Equal(canon(a), canon(c)) {
							atomic.AddInt64(&bad, 1)
							fmt.Printf("DIVERGENCE world %d args %q\n", i, w.args())
							for k, pair := range [][2][]byte{{a.Err, c.Err}, {a.Out, c.Out}} {
								for j := range pair[0] {
									if j >= len(pair[1]) || pair[0][j] != pair[1][j] {
										lo := max(0, j-80)
										fmt.Printf("   stream %d: %q\n        vs: %q\n", 2-k, pair[0][lo:min(len(pair[0]), j+40)], pair[1][min(lo, len(pair[1])):min(len(pair[1]), j+40)])
										break
									}
								}
							}
							x, y := describeTrace(a.Trace), describeTrace(c.Trace)
							for j := range x {
								if j >= len(y) || x[j] != y[j] {
									fmt.Println("  ", x[j])
									if j < len(y) {
										fmt.Println("  ", y[j])
									}
									break
								}
							}
						}
					}
				}
			}
		}()
	}
	wg.Wait()
	fmt.Printf("determinism: %d repetitions, %d divergences\n", runs, bad)
	if bad > 0 {
		return 1
	}
	return 0
}

var hexNum = regexp.MustCompile(`0x[0-9a-f]+`)

// canon is the complete result of a run, with the memory addresses a Go stack
// dump may contain blanked out.
func canon(o *RunOut) []byte {
	r := o.Result
	if bytes.Contains(r.Err, []byte("goroutine ")) {
		r.Err = hexNum.ReplaceAll(r.Err, []byte("0x"))
		r.Trace = append(r.Trace[:0:0], r.Trace...)
		for i := range r.Trace {
			if r.Trace[i].Op == simk.OpStderr {
				r.Trace[i].Arg, r.Trace[i].Ret = 0, 0
			}
		}
	}
	return r.Encode()
}
