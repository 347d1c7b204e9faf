//go:build !tinygo
// +build !tinygo

package zzverifspec

import (
	"syscall"

	"github.com/spacemonkeygo/monkit/v3/environment"
)

var r1 uintptr

// procCall returns an error always.
func procCall(p *syscall.Proc, a ...uintptr) (uintptr, uintptr, error) {
	return r1, 0, syscall.Errno(1)
}

func currentProcess() (syscall.Handle, error) {
	if host.noUsage {
		return 0, refusal()
	}
	return 1, nil
}

// canRead: the image of the process can be found.
func canRead() bool {
	r1 = 1
	return true
}

func onlyHere(k *marks) {
	if r1 != 0 {
		assert(k.fds == 1, "every source is chained once")
	}
}

func C31_Handles(r uintptr, noUsage bool) {
	host = machine{noUsage: noUsage}
	r1 = r
	l := read(environment.OS())
	if r == 0 || noUsage {
		assert(l.n == 0, "no reading when it failed")
	} else {
		l.get("fds", "count")
	}
}

func C31_ProcessName(r uintptr, noOpen bool) {
	host = machine{noOpen: noOpen}
	r1 = r
	l := read(environment.Process())
	if r == 0 || noOpen {
		assert(l.count("process", "crc") == 0, "no reading when it failed")
	} else {
		l.get("process", "crc")
	}
}
