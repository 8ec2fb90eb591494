// Command mon is the runtime-monitoring harness for Aize-Public/forego.
//
//	mon check <ID>     parent: runs the workload in child processes, judges, writes evidence
//	mon child <ID>     child: the workload and its in-process monitors
//	mon scenario <X>   grandchild: one isolated scenario (JSON in on stdin, JSON out on fd 3)
package main

import (
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: mon check|child|scenario NAME")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(parentMain(os.Args[2]))
	case "child":
		childMain(os.Args[2])
	case "start": // the init functions have run
	case "scenario":
		scenarioMain(os.Args[2])
	default:
		fmt.Fprintln(os.Stderr, "unknown mode", os.Args[1])
		os.Exit(2)
	}
}
