//go:build !windows
// +build !windows

package zzverifspec

import "syscall"

var usage syscall.Rusage

func getUsage(who int, r *syscall.Rusage) error {
	if host.noUsage {
		return refusal()
	}
	*r = usage
	return nil
}
