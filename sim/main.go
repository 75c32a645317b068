package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"syscall"
)

func main() {
	// addresses of the simulated program do not depend on the host
	syscall.RawSyscall(syscall.SYS_PERSONALITY, 0x0040000, 0, 0)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: simctl check ID | replay FILE | list | build DIR | campaign ID SEED N")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "build":
		i, err := buildSim(os.Args[2], len(os.Args) > 3)
		fmt.Println(i, err)
		if err != nil {
			os.Exit(2)
		}
	case "check":
		os.Exit(check(os.Args[2]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "campaign":
		seed, _ := strconv.Atoi(os.Args[3])
		n, _ := strconv.Atoi(os.Args[4])
		campaign(os.Args[2], uint64(seed), n)
	case "list":
		var l []string
		for id := range props {
			l = append(l, id)
		}
		sort.Strings(l)
		for _, id := range l {
			fmt.Println(id)
		}
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}
