package yield

import (
	"bytes"
	"runtime"
	"strconv"
)

// gid is the number of the current goroutine. A simulated machine is built with a faster version of this
// file that asks the patched runtime (see Gid in package instr)
//
//go:norace
func gid() int64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := bytes.Fields(b[:n])
	if len(f) > 1 {
		id, _ := strconv.ParseInt(string(f[1]), 10, 64)
		return id
	}
	return -1
}
