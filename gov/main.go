package main

import (
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gov run [regexp]")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "dump":
		dumpCmd(os.Args[2:])
	case "jobs":
		jobsCmd(os.Args[2:])
	case "run":
		runCmd(os.Args[2:])
	case "check":
		checkCmd(os.Args[2:])
	case "contracts":
		contractsCmd(os.Args[2:])
	case "harness":
		harnessCmd()
	case "replay":
		replayCmd(os.Args[2:])
	}
}
