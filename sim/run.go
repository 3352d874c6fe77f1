package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"
	"verifsim/simk"
)

// Run executes one simulated process.
type RunOut struct {
	simk.Result
	RealErr string // what the Go runtime wrote on the real stderr
	Fatal   bool   // the process died without a result (runtime fatal error)
	Timeout bool
}

const seedKey = "GTSIM_SEED="

func run(bin string, p *simk.Plan) (*RunOut, error) {
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	rr, rw, err := os.Pipe()
	if err != nil {
		pr.Close()
		pw.Close()
		return nil, err
	}
	cmd := exec.Command(bin)
	cmd.Args = append([]string{"gotemplate"}, p.Args...)
	cmd.Env = []string{seedKey + strconv.FormatUint(p.Seed&0x7fffffffffffffff, 10), "GOGC=off", "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=single", "GOMEMLIMIT=off", "GORACE=halt_on_error=0 exitcode=0"}
	cmd.ExtraFiles = []*os.File{pr, rw}
	cmd.Dir = "/"
	var realErr bytes.Buffer
	cmd.Stderr = &realErr
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	pr.Close()
	rw.Close()
	if !strings.HasSuffix(bin, "race.sim") { // an unbounded allocation ends the child, not the sandbox
		lim := [2]uint64{4 << 30, 4 << 30}
		syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(cmd.Process.Pid), 2, uintptr(unsafe.Pointer(&lim)), 0, 0, 0)
	}
	enc := p.Encode()
	go func() { pw.Write(enc); pw.Close() }()
	timeout := false
	timer := time.AfterFunc(60*time.Second, func() { timeout = true; cmd.Process.Kill() })
	data, _ := io.ReadAll(rr)
	rr.Close()
	werr := cmd.Wait()
	timer.Stop()
	out := &RunOut{RealErr: realErr.String(), Timeout: timeout}
	if timeout {
		return out, nil
	}
	if !out.Result.Decode(data) {
		if len(data) == 0 && werr != nil && (bytes.Contains(realErr.Bytes(), []byte("fatal error:")) || bytes.Contains(realErr.Bytes(), []byte("SIG")) || bytes.Contains(realErr.Bytes(), []byte("DATA RACE"))) {
			out.Fatal = true
			if ee, ok := werr.(*exec.ExitError); ok {
				out.Code = ee.ExitCode()
			}
			return out, nil
		}
		return nil, fmt.Errorf("no result from simulated process (%v, %d bytes): %s", werr, len(data), realErr.String())
	}
	return out, nil
}
