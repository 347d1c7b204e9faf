package zzverifspec

import (
	"errors"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
)

// machine stands for the system the process runs on.
type machine struct {
	noOpen, noRead, noScan, noUsage bool   // what fails
	noList                          int    // the listing that fails
	bad                             string // a file that cannot be read

	first, rest int // entries of a directory
	lists       int
	listed      bool

	files  [4]*os.File // open files
	opened int

	text    string
	nums    [64]int64
	letter  byte
	scanned bool

	goroutines int
	alloc      uint64
	numGC      int64
	pauses     []time.Duration
}

var host machine

func refusal() error {
	err := errors.New("refused")
	assume(err != nil)
	assume(err != io.EOF)
	return err
}

func openFile(name string) (*os.File, error) {
	if host.noOpen || host.bad != "" && name == host.bad {
		return nil, refusal()
	}
	f := new(os.File)
	assert(host.opened < 4, "few files are opened")
	host.files[host.opened] = f
	host.opened++
	return f, nil
}

func openFileFlags(name string, flag int, perm os.FileMode) (*os.File, error) { return openFile(name) }

func closeFile(f *os.File) error {
	for i := 0; i < host.opened; i++ {
		if host.files[i] == f {
			host.files[i] = nil
		}
	}
	return nil
}

// leaked: something that was opened is still open.
func leaked() bool {
	for i := 0; i < host.opened; i++ {
		if host.files[i] != nil {
			return true
		}
	}
	return false
}

func listing(n int) (int, error) {
	host.listed = true
	host.lists++
	if n <= 0 {
		if host.noList != 0 {
			return host.first, refusal()
		}
		return host.first + host.rest, nil
	}
	if host.noList == host.lists {
		return host.first, refusal()
	}
	switch host.lists {
	case 1:
		return host.first, nil
	case 2:
		return host.rest, nil
	}
	return 0, io.EOF
}

func readNames(f *os.File, n int) ([]string, error) {
	k, err := listing(n)
	return make([]string, k), err
}

func readInfos(f *os.File, n int) ([]os.FileInfo, error) {
	k, err := listing(n)
	return make([]os.FileInfo, k), err
}

func readEntries(f *os.File, n int) ([]os.DirEntry, error) {
	k, err := listing(n)
	return make([]os.DirEntry, k), err
}

func readDir(name string) ([]os.DirEntry, error) {
	if host.noOpen {
		return nil, refusal()
	}
	return readEntries(nil, -1)
}

func readFile(name string) ([]byte, error) {
	if host.noOpen || host.noRead || host.bad != "" && name == host.bad {
		return nil, refusal()
	}
	return []byte(host.text), nil
}

func readAll(r io.Reader) ([]byte, error) {
	if host.noRead {
		return nil, refusal()
	}
	return []byte(host.text), nil
}

func copyAll(dst io.Writer, src io.Reader) (int64, error) {
	if host.noRead {
		return 0, refusal()
	}
	return 1, nil
}

func copyBuffer(dst io.Writer, src io.Reader, buf []byte) (int64, error) { return copyAll(dst, src) }

// scanf gives the n-th place the n-th item of the text.
func scanf(text, format string, a []interface{}) (int, error) {
	assert(strings.Count(format, "%") == len(a), "there is a place for every item")
	return scan(text, a)
}

func scan(text string, a []interface{}) (int, error) {
	host.scanned = true
	if host.noScan {
		return 0, refusal()
	}
	for i, p := range a {
		switch p := p.(type) {
		case *int64:
			*p = host.nums[i]
		case *uint64:
			*p = uint64(host.nums[i])
		case *int:
			*p = int(host.nums[i])
		case *uint8:
			*p = host.letter
		case *string:
			*p = "c"
		}
	}
	return len(a), nil
}

func readMem(m *runtime.MemStats) { m.Alloc = host.alloc }

func readGC(s *debug.GCStats) {
	s.NumGC = host.numGC
	s.Pause = host.pauses
}

func numGoroutine() int { return host.goroutines }
