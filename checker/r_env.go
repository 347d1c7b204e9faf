package main

import (
	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&checkDef{id: "C31", spec: true, quick: []string{"default"}, deep: []string{"default", "windows", "darwin"},
		rule: "contract drivers over every source of package environment and over Register, from the initial state of the package, with stand-ins for files, listings, scanning, system calls and runtime statistics that fail or not as each driver leaves open: whatever fails, only what was obtained is emitted, once, under its key and with the value found; everything opened is closed; a garbage collection pause is observed once, also when another collection comes in between at any synchronising operation; Register chains every source once", run: runC31})
}

func runC31(c *Ctx) {
	o := c.specOpts()
	o.Out = true
	o.Reflect = true
	o.Fresh = true
	o.Intr = func(fn *ssa.Function) bool { return extPkg(fn) == modPath+"/environment" }
	o.Model = theHost(o.Model)
	c.SpecAll("reading", o)
	c.Floor("reading", 30)
}

// theHost lets stand-ins answer for the system.
func theHost(m specModel) specModel {
	to := map[string]string{
		"os.Open": "openFile", "os.OpenFile": "openFileFlags", "(*os.File).Close": "closeFile",
		"(*os.File).Readdirnames": "readNames", "(*os.File).Readdir": "readInfos", "(*os.File).ReadDir": "readEntries",
		"os.ReadDir": "readDir", "os.ReadFile": "readFile", "io/ioutil.ReadFile": "readFile", "io.ReadAll": "readAll", "io/ioutil.ReadAll": "readAll",
		"io.Copy": "copyAll", "io.CopyBuffer": "copyBuffer", "fmt.Sscanf": "scanf", "fmt.Sscan": "scan",
		"syscall.Getrusage": "getUsage", "runtime.ReadMemStats": "readMem", "runtime/debug.ReadGCStats": "readGC",
		"runtime.NumGoroutine": "numGoroutine", "(*syscall.Proc).Call": "procCall", "(*syscall.LazyProc).Call": "procCall", "syscall.GetCurrentProcess": "currentProcess",
	}
	return func(e *Engine, s *State, instr ssa.Instruction, fn *ssa.Function, args []*Term, cont contKind) bool {
		if f := to[extName(fn)]; f != "" && e.redirect(s, instr, f, args, cont) {
			return true
		}
		return m(e, s, instr, fn, args, cont)
	}
}
