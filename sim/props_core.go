package main

import (
	"fmt"
	"os"
	"strings"
	"verifsim/simk"
)

const realCLI = "the complete gotemplate command compiled from the /repo working tree, its dependencies and the Go standard library above the system call layer"
const stubCLI = "operating system: file system, descriptors, pipes, clock, randomness, child programs (mini shell and a terraform fmt model), network peers"

func abnormal(o *RunOut) string {
	switch {
	case o.Fatal:
		return "runtime fatal error: " + clip(o.RealErr)
	case o.Timeout:
		return "no end within the watchdog"
	case o.End == simk.EndPanic:
		return "uncaught panic: " + clip(o.Info)
	case o.End == simk.EndSteps:
		return "step budget exhausted"
	case o.End == simk.EndSigpipe:
		return "killed by SIGPIPE"
	}
	return ""
}

// recovered tells whether the run ended through the top level recovery (an
// uncontrolled abort of the whole run).
func recovered(o *RunOut) bool {
	return o.Code == 255 || o.Code == -1 || strings.Contains(string(o.Err), "goroutine ")
}

var workRoots = []string{"/w", "/v", "/s"}

// checkExact compares a finished run with the model.
func checkExact(w *World, x *Expect, o *RunOut, modes bool) *Violation {
	if d := x.Tree.filesOnly(workRoots...).diff(treeOf(o.Nodes).filesOnly(workRoots...), modes); d != "" {
		return &Violation{Class: "files", Msg: d, Trace: o.Trace}
	}
	if string(o.Out) != x.Stdout {
		return &Violation{Class: "stdout", Msg: fmt.Sprintf("standard output %s, expected %s", quote(clip(string(o.Out))), quote(clip(x.Stdout))), Trace: o.Trace}
	}
	return nil
}

// cliWorld draws sane worlds.
func cliWorld(r *rng, p Profile, ok func(w *World) bool) *World {
	for {
		w := genWorld(r, p)
		if w.sane() && (ok == nil || ok(w)) {
			return w
		}
	}
}

var debug = os.Getenv("SIMDEBUG") != ""
