package main

import (
	"os"
	"sync"
)

func init() {
	if p := os.Getenv("VERIF_DUMPQ"); p != "" {
		f, _ := os.Create(p)
		var mu sync.Mutex
		dumpQ = func(s string) {
			mu.Lock()
			f.WriteString("(push 1)\n" + s + "(check-sat)\n(pop 1)\n")
			mu.Unlock()
		}
	}
}
