package main

import (
	"os"
	"runtime"
	"runtime/debug"
	"testing"
)

func TestMain(m *testing.M) {
	if os.Getenv("KSIM_WORKER") != "" {
		os.Args = []string{os.Args[0], "-test.run=^TestWorker$", "-test.timeout=0"}
		runtime.GOMAXPROCS(1)
		debug.SetMemoryLimit(1 << 30)
		os.Exit(m.Run())
	}
	os.Exit(supervise(os.Args[1:]))
}

func TestWorker(t *testing.T) { workerLoop(t) }
