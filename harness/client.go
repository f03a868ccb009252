package main

import (
	"bufio"
	"encoding/json"
	"io"
	"log"
	"os"
	"runtime"
	"strconv"
	"syscall"
	"time"

	"gotor/swarm"
	"gotor/utils"
)

// clientMain is gotor's swarm command, except that it also tells how it is doing: each line
// read from the standard input is answered on descriptor 3.
func clientMain() {
	os.Args = append(os.Args[:1], os.Args[2:]...)
	log.SetOutput(io.Discard)
	if n, _ := strconv.Atoi(os.Getenv("NOFILE")); n > 0 {
		_ = syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: uint64(n), Max: uint64(n)})
	}
	tell := os.NewFile(3, "tell")
	s, e := swarm.NewSwarm(utils.GetOpts())
	if e != nil {
		_, _ = tell.WriteString("{\"up\":false}\n")
		os.Exit(3)
	}
	s.Start()
	_, _ = tell.WriteString("{\"up\":true}\n")
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		runtime.GC()
		time.Sleep(time.Millisecond)
		runtime.GC()
		ms := runtime.MemStats{}
		runtime.ReadMemStats(&ms)
		fds, _ := os.ReadDir("/proc/self/fd")
		b, _ := json.Marshal(M{"goroutines": runtime.NumGoroutine(), "fds": len(fds), "heapkb": ms.HeapAlloc / 1024})
		_, _ = tell.Write(append(b, '\n'))
	}
	select {}
}
