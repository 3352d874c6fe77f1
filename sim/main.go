package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"syscall"
	"time"
)

func usage() {
	fmt.Println("usage: driver check ID | replay FILE | build | determinism [N] | list")
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	fixAddresses()
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseUint(s, 10, 64); err == nil {
			seed = v
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
	case "build":
		b := &Bench{st: newStats()}
		if err := b.build("cli lib race"); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
	case "check":
		if len(os.Args) < 3 || props[os.Args[2]] == nil {
			usage()
		}
		budget := 150 * time.Second
		if tier == "thorough" {
			budget = 3 * time.Hour
		}
		if s := os.Getenv("VERIF_BUDGET_S"); s != "" {
			v, _ := strconv.Atoi(s)
			budget = time.Duration(v) * time.Second
		}
		count := 0
		if s := os.Getenv("VERIF_WORLDS"); s != "" {
			count, _ = strconv.Atoi(s)
		}
		os.Exit(runCheck(props[os.Args[2]], tier, seed, count, budget))
	case "replay":
		if len(os.Args) < 3 {
			usage()
		}
		os.Exit(replay(os.Args[2]))
	case "debug":
		p := defaultProfile()
		p.Errors, p.Save, p.Terraform, p.Log = true, 20, 10, 20
		n := 300
		if len(os.Args) > 2 {
			n, _ = strconv.Atoi(os.Args[2])
		}
		debugModel(n, seed, p)
	case "determinism":
		n := 50
		if len(os.Args) > 2 {
			n, _ = strconv.Atoi(os.Args[2])
		}
		os.Exit(determinism(n, seed))
	default:
		usage()
	}
}

// fixAddresses restarts the driver without address space randomisation, which
// the simulated processes inherit.
func fixAddresses() {
	const noRandomize = 0x0040000
	if os.Getenv("GTSIM_FIXED") != "" {
		return
	}
	if _, _, e := syscall.RawSyscall(syscall.SYS_PERSONALITY, noRandomize, 0, 0); e != 0 {
		return
	}
	exe, err := os.Executable()
	if err != nil {
		return
	}
	syscall.Exec(exe, os.Args, append(os.Environ(), "GTSIM_FIXED=1"))
}
