package main

import "os"

func dumpCmd(args []string) {
	w, err := LoadWorld("/repo/parser")
	must(err)
	for _, f := range w.fns {
		if w.fnKey(f) == args[0] {
			f.WriteTo(os.Stdout)
		}
	}
}
