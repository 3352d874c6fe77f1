package main

import (
	"fmt"
)

// debugModel compares fault-free runs with the model.
func debugModel(n int, seed uint64, p Profile) {
	b := &Bench{st: newStats()}
	if err := b.build("cli"); err != nil {
		fmt.Println(err)
		return
	}
	bad := 0
	for i := 0; i < n; i++ {
		r := newRng(seed, 55, uint64(i))
		w := cliWorld(r, p, nil)
		x := w.expect()
		o := b.runWorld(w, nil)
		v := checkExact(w, x, o, true)
		msg := ""
		if a := abnormal(o); a != "" {
			msg = a
		} else if (o.Code != 0) != (x.Code != 0) {
			msg = fmt.Sprintf("exit code %d, expected %d", o.Code, x.Code)
		} else if v != nil {
			msg = v.Class + ": " + v.Msg
		}
		if msg != "" {
			bad++
			if bad < 8 {
				fmt.Printf("world %d args %q\n  %s\n  stderr %s\n", i, w.args(), msg, clipN(string(o.Err), 700))
			}
		}
	}
	fmt.Printf("%d of %d differ\n", bad, n)
}
