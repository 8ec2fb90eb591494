package main

import (
	"os"
	"syscall"
	"time"
)

var sigquit = syscall.SIGQUIT

func exitSignal(st *os.ProcessState) string {
	if ws, ok := st.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		return ws.Signal().String()
	}
	return ""
}

// cpuTime is what this process has used.
func cpuTime() time.Duration {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}
