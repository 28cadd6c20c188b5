package main

import (
	"fmt"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
)

// fsx owns the file operations that are executed under a directory
type fsx struct {
	root    string
	fds     map[int]string
	flags   map[int]int
	count   int // operations on the directory
	mutates int // mutating operations on the directory
	log     []string
	keepLog bool
	escapes []string
	// decide executes the operation, or not
	decide func(f *fsx, c *syscall.VerifCall, path string, mutating bool)
	dead   bool
}

var fsxActive int32
var fsxCurrent *fsx

// fsxBypass is set while the harness does its own operations
var fsxBypass int32

func init() {
	syscall.VerifHook = func(c *syscall.VerifCall) {
		off := atomic.LoadInt32(&fsxActive) == 0 || atomic.LoadInt32(&fsxBypass) != 0
		if off || c.Name == "Close" && byRuntime() {
			if c.Name == "Close" {
				fsxForget(c.Fd)
			}
			c.Run()
			return
		}
		fsxCurrent.handle(c)
	}
}

// byRuntime returns true for the goroutines that finalize what is not used anymore: when a change leaks a file, these
// close it at any moment
func byRuntime() bool {
	pcs := make([]uintptr, 100)
	frames := runtime.CallersFrames(pcs[:runtime.Callers(1, pcs)])
	for {
		frame, more := frames.Next()
		if frame.Function == "runtime.runFinalizers" || strings.HasSuffix(frame.Function, "leanups") && strings.HasPrefix(frame.Function, "runtime.") {
			return true
		}
		if !more {
			return false
		}
	}
}

// fsxForget forgets a descriptor that is closed while the hook is off
func fsxForget(fd int) {
	fsxLock.Lock()
	defer fsxLock.Unlock()
	if fsxCurrent != nil {
		delete(fsxCurrent.fds, fd)
	}
}

var fsxLock sync.Mutex

func newFsx(root string) *fsx {
	return &fsx{root: filepath.Clean(root), fds: map[int]string{}, flags: map[int]int{}}
}

var devNull = func() int {
	fd, err := syscall.Open("/dev/null", syscall.O_RDWR|syscall.O_CLOEXEC, 0)
	if err != nil {
		panic(err)
	}
	return fd
}()

// on gives the file operations to f
func (f *fsx) on() {
	fsxCurrent = f
	atomic.StoreInt32(&fsxActive, 1)
}

func (f *fsx) off() {
	atomic.StoreInt32(&fsxActive, 0)
}

// fsxRelease gives the file operations back, when a case ended without doing it
func fsxRelease() {
	if atomic.LoadInt32(&fsxActive) != 0 && fsxCurrent != nil {
		fsxCurrent.closeAll()
	}
}

// closeAll closes what was left open, as the end of the process does
func (f *fsx) closeAll() {
	f.off()
	fsxLock.Lock()
	defer fsxLock.Unlock()
	for fd := range f.fds {
		// the descriptor stays valid, because the finalizer of its os.File closes it later
		syscall.Dup3(devNull, fd, syscall.O_CLOEXEC)
	}
	f.fds = map[int]string{}
}

func (f *fsx) inRoot(p string) bool {
	p = filepath.Clean(p)
	return p == f.root || strings.HasPrefix(p, f.root+"/")
}

func (f *fsx) handle(c *syscall.VerifCall) {
	path := ""
	mutating := false
	switch c.Name {
	case "openat":
		path = c.Path
		mutating = c.Flags&(syscall.O_CREAT|syscall.O_TRUNC) != 0
	case "faccessat", "faccessat2", "readlinkat", "fstatat":
		path = c.Path
	case "fchmodat", "unlinkat", "Mkdirat", "utimensat", "Fchownat":
		path = c.Path
		mutating = true
	case "linkat", "Renameat":
		path = c.Path
		mutating = true
		if !f.inRoot(c.Path2) {
			f.escapes = append(f.escapes, c.Name+" "+c.Path2)
			c.Err = syscall.EPERM
			return
		}
	case "symlinkat":
		path = c.Path2
		mutating = true
	default:
		fsxLock.Lock()
		p, ok := f.fds[c.Fd]
		fsxLock.Unlock()
		if !ok {
			c.Run() // not a file of the directory
			return
		}
		path = p
		switch c.Name {
		case "write", "pwrite", "Ftruncate", "Fallocate", "Fchmod":
			mutating = true
		}
	}

	if !f.inRoot(path) {
		if mutating {
			// nothing is ever modified out of the scratch directory
			if path == filepath.Dir(f.root) {
				c.Run()
				return
			}
			f.escapes = append(f.escapes, c.Name+" "+path)
			c.Err = syscall.EPERM
			return
		}
		c.Run()
		return
	}

	if f.keepLog {
		f.log = append(f.log, f.text(c, path))
	}
	closing := -1
	if c.Name == "Close" {
		closing = c.Fd
	}
	if f.decide != nil {
		f.decide(f, c, path, mutating)
	} else {
		c.Run()
	}
	f.count++
	if mutating {
		f.mutates++
	}
	fsxLock.Lock()
	if c.Name == "openat" && c.Err == nil {
		f.fds[int(c.N)] = path
		f.flags[int(c.N)] = c.Flags
	}
	if closing >= 0 {
		delete(f.fds, closing)
	}
	fsxLock.Unlock()
}

func (f *fsx) text(c *syscall.VerifCall, path string) string {
	p, err := filepath.Rel(f.root, path)
	if err != nil {
		p = path
	}
	out := c.Name + "(" + p
	if c.Path2 != "" {
		out += " -> " + filepath.Base(c.Path2)
	}
	if c.Buf != nil {
		out += fmt.Sprintf(", %d bytes", len(c.Buf))
	}
	if c.Name == "openat" {
		out += fmt.Sprintf(", flags %x", c.Flags&^syscall.O_CLOEXEC)
	}
	return out + ")"
}

// noGC disables the garbage collection: the finalizers of files would close them at any moment
func noGC() func() {
	old := debug.SetGCPercent(-1)
	return func() { debug.SetGCPercent(old) }
}
