//go:build !tinygo
// +build !tinygo

package zzverifspec

import (
	"syscall"

	"github.com/spacemonkeygo/monkit/v3/environment"
)

// canRead: the image of the process can be found.
func canRead() bool { return true }

func onlyHere(k *marks) {
	assert(k.fds == 1 && k.stat == 1 && k.statm == 1 && k.usage == 1, "every source is chained once")
}

func C31_Descriptors(noOpen bool, noList, first, rest int) {
	assume(first >= 0)
	assume(rest >= 0)
	switch noList {
	case 0, 1, 2:
	default:
		assume(noList == 3)
	}
	host = machine{noOpen: noOpen, noList: noList, first: first, rest: rest}
	l := read(environment.OS())
	if noOpen || host.listed && noList != 0 {
		assert(l.n == 0, "no reading when it failed")
	} else {
		v := l.get("fds", "count")
		if host.listed {
			assert(isVal(v, float64(first+rest)), "every descriptor is counted")
		}
	}
}

func C31_Usage(noUsage bool, u syscall.Rusage) {
	host = machine{noUsage: noUsage}
	usage = u
	l := read(environment.Rusage())
	if noUsage {
		assert(l.n == 0, "no reading when it failed")
		return
	}
	l.has("rusage", "Utime.Sec", float64(u.Utime.Sec))
	l.has("rusage", "Stime.Usec", float64(u.Stime.Usec))
	l.has("rusage", "Maxrss", float64(u.Maxrss))
	l.has("rusage", "Nivcsw", float64(u.Nivcsw))
}

// The items of /proc/self/stat, in their order (proc(5)).
var statItems = []string{"Pid", "Comm", "State", "Ppid", "Pgrp", "Session", "TtyNr", "Tpgid", "Flags", "Minflt", "Cminflt", "Majflt",
	"Cmajflt", "Utime", "Stime", "Cutime", "Cstime", "Priority", "Nice", "NumThreads", "Itrealvalue", "Starttime", "Vsize", "Rss",
	"Rsslim", "Startcode", "Endcode", "Startstack", "Kstkesp", "Kstkeip", "Signal", "Blocked", "Sigignore", "Sigcatch", "Wchan",
	"Nswap", "Cnswap", "ExitSignal", "Processor", "RtPriority", "Policy", "DelayAcctBlkioTicks", "GuestTime", "CguestTime"}

var statmItems = []string{"Size", "Resident", "Share", "Text", "Lib", "Data", "Dt"}

func C31_Proc(nums [64]int64) {
	for i := 0; i < 64; i++ {
		assume(nums[i] >= 0)
	}
	host = machine{text: "x", nums: nums}
	l := read(environment.Proc())
	for i, n := range statItems {
		if n == "Comm" || n == "State" {
			continue
		}
		v := l.get("proc_stat", n)
		if host.scanned {
			assert(isVal(v, float64(nums[i])) || isVal(v, float64(uint64(nums[i]))), "the reading is the item of its name")
		}
	}
	for i, n := range statmItems {
		v := l.get("proc_statm", n)
		if host.scanned {
			assert(isVal(v, float64(int(nums[i]))), "the reading is the item of its name")
		}
	}
}

func C31_NoProc(noOpen, noRead, noScan bool) {
	assume(noOpen || noRead || noScan)
	host = machine{text: "x", noOpen: noOpen, noRead: noRead, noScan: noScan}
	l := read(environment.Proc())
	if noOpen || noRead || host.scanned {
		assert(l.n == 0, "no reading when it failed")
	}
}

func C31_HalfProc(second bool) {
	host = machine{text: "x", bad: "/proc/self/stat"}
	if second {
		host.bad = "/proc/self/statm"
	}
	l := read(environment.Proc())
	if second {
		assert(l.count("proc_statm", "Size") == 0, "no reading when it failed")
		l.get("proc_stat", "Pid")
	} else {
		assert(l.count("proc_stat", "Pid") == 0, "no reading when it failed")
		l.get("proc_statm", "Size")
	}
}
