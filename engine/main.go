package main

import (
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: vsym worker|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		workerMain(os.Args[2:])
	case "check":
		checkMain(os.Args[2:])
	case "list":
		hs, err := allHarnesses()
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		for _, h := range hs {
			fmt.Println(h.Prop, h.Name, h.Pkg, h.Modes, h.Opts)
		}
	}
}
