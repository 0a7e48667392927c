package main

import (
	"fmt"
	"os"
)

var subs = map[string]func(args []string){}

func runSub(name string, args []string) {
	f, ok := subs[name]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown sub command", name)
		os.Exit(2)
	}
	f(args)
}
