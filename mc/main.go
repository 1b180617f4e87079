// Command mc decides the properties of /verif/properties.jsonl on the go-hbci
// implementation in /repo by exhaustive, bounded exploration.
package main

import (
	"fmt"
	"os"
	"path/filepath"

	"github.com/mitch000001/go-hbci/internal"
	"github.com/mitch000001/go-hbci/verifmc/engine"
	"github.com/mitch000001/go-hbci/verifmc/props"
)

func main() {
	if r := os.Getenv("MC_ROOT"); r != "" {
		engine.Root = r
	}
	engine.Silence = func() { internal.SetInfoLog(false) }
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "list":
		for _, id := range engine.IDs() {
			fmt.Println(id)
		}
	case "generate":
		if err := props.Generate22(os.Args[2], "/repo", os.Args[3] == "thorough"); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	case "alone23", "race23":
		engine.Silence()
		var n [5]int
		for i := range n {
			if len(os.Args) > i+2 {
				fmt.Sscan(os.Args[i+2], &n[i])
			}
		}
		if os.Args[1] == "alone23" {
			props.Alone23(n[0], n[1], n[2], n[3])
		} else {
			props.Race23(n[0], n[1], n[2], n[3], n[4], os.Args[7] == "true")
		}
	case "check":
		os.Exit(engine.Supervise(os.Args[2], os.Args[3]))
	case "child":
		engine.Child(os.Args[2], os.Args[3])
	case "replay1":
		c := engine.Replay(os.Args[2], false)
		if c == 10 {
			os.Exit(0)
		}
		os.Exit(0)
	case "replay":
		p, _ := filepath.Abs(os.Args[2])
		if engine.Replay(p, true) == 10 {
			os.Exit(1)
		}
	default:
		usage()
	}
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: mc check <ID> quick|thorough | replay <file> | list")
	os.Exit(2)
}
