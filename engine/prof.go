package main

import (
	"os"
	"runtime/pprof"
)

func startProf() func() {
	p := os.Getenv("VERIF_PROF")
	if p == "" {
		return func() {}
	}
	f, err := os.Create(p)
	if err != nil {
		return func() {}
	}
	pprof.StartCPUProfile(f)
	return pprof.StopCPUProfile
}
