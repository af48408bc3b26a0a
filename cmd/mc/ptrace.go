package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"time"
)

// A controlled run of a command: it is stopped at every system call that changes files below a directory, where it
// can be killed, made to fail or made to do only part of its work.

// A fsCall is one such call.
type fsCall struct {
	Name string
	Path string // relative to the directory
	N    int    // bytes, for calls that write
}

func (c fsCall) String() string {
	if c.N >= 0 {
		return fmt.Sprintf("%s(%s, %d)", c.Name, c.Path, c.N)
	}
	return fmt.Sprintf("%s(%s)", c.Name, c.Path)
}

// A fsFault says what to do at a call; the zero value lets it happen.
type fsFault struct {
	Kill  bool          // kill the process instead of the call
	Errno syscall.Errno // fail the call
	Short int           // write only this many bytes (if positive)
	After bool          // with Short: kill the process after the call
}

const wNoThread = 0x20000000 // __WNOTHREAD: leave the children of other threads alone

// Calls that change files: where the descriptor or path is, and where the length is (register indices; -1: none).
type sysSpec struct {
	name string
	fd   int // argument holding the changed descriptor
	path int // argument holding the path
	dir  int // argument holding the directory descriptor for path
	n    int // argument holding the length
}

var fsCalls = map[uint64]sysSpec{
	1: {"write", 0, -1, -1, 2}, 18: {"pwrite64", 0, -1, -1, 2}, 20: {"writev", 0, -1, -1, -1}, 296: {"pwritev", 0, -1, -1, -1},
	40: {"sendfile", 0, -1, -1, 3}, 326: {"copy_file_range", 2, -1, -1, 4}, 275: {"splice", 2, -1, -1, 4},
	77: {"ftruncate", 0, -1, -1, -1}, 76: {"truncate", -1, 0, -1, -1}, 82: {"rename", -1, 1, -1, -1}, 264: {"renameat", -1, 3, 2, -1}, 316: {"renameat2", -1, 3, 2, -1},
	87: {"unlink", -1, 0, -1, -1}, 263: {"unlinkat", -1, 1, 0, -1}, 2: {"open", -1, 0, -1, -1}, 257: {"openat", -1, 1, 0, -1}, 85: {"creat", -1, 0, -1, -1}, 437: {"openat2", -1, 1, 0, -1},
	86: {"link", -1, 1, -1, -1}, 265: {"linkat", -1, 3, 2, -1}, 88: {"symlink", -1, 1, -1, -1}, 266: {"symlinkat", -1, 2, 1, -1},
	285: {"fallocate", 0, -1, -1, -1}, 74: {"fsync", 0, -1, -1, -1}, 75: {"fdatasync", 0, -1, -1, -1}, 277: {"sync_file_range", 0, -1, -1, -1},
	83: {"mkdir", -1, 0, -1, -1}, 258: {"mkdirat", -1, 1, 0, -1}, 84: {"rmdir", -1, 0, -1, -1}, 90: {"chmod", -1, 0, -1, -1}, 91: {"fchmod", 0, -1, -1, -1}, 268: {"fchmodat", -1, 1, 0, -1},
	92: {"chown", -1, 0, -1, -1}, 93: {"fchown", 0, -1, -1, -1}, 280: {"utimensat", -1, 1, 0, -1},
}

// readCalls are the further calls at which a run is stopped when every call is wanted.
var readCalls = map[uint64]sysSpec{
	0: {"read", 0, -1, -1, 2}, 17: {"pread64", 0, -1, -1, 2}, 19: {"readv", 0, -1, -1, -1}, 3: {"close", 0, -1, -1, -1}, 4: {"stat", -1, 0, -1, -1}, 5: {"fstat", 0, -1, -1, -1}, 6: {"lstat", -1, 0, -1, -1},
	8: {"lseek", 0, -1, -1, -1}, 9: {"mmap", 4, -1, -1, 1}, 11: {"munmap", -1, -1, -1, -1}, 262: {"newfstatat", -1, 1, 0, -1}, 217: {"getdents64", 0, -1, -1, -1}, 332: {"statx", -1, 1, 0, -1},
	21: {"access", -1, 0, -1, -1}, 269: {"faccessat", -1, 1, 0, -1}, 439: {"faccessat2", -1, 1, 0, -1}, 89: {"readlink", -1, 0, -1, -1}, 267: {"readlinkat", -1, 1, 0, -1},
}

// createsOnly are calls that count only when they create or truncate.
func opensForChange(nr uint64, a [6]uint64) bool {
	switch nr {
	case 2:
		return a[1]&(syscall.O_CREAT|syscall.O_TRUNC) != 0
	case 257:
		return a[2]&(syscall.O_CREAT|syscall.O_TRUNC) != 0
	}
	return true
}

func (c fsCall) writes() bool {
	switch c.Name {
	case "write", "pwrite64", "writev", "pwritev", "sendfile", "copy_file_range", "splice", "ftruncate", "fallocate":
		return true
	}
	return false
}

func (c fsCall) creates() bool {
	switch c.Name {
	case "open", "openat", "creat", "openat2", "mkdir", "mkdirat", "link", "linkat", "symlink", "symlinkat":
		return true
	}
	return false
}

type tracedRes struct {
	cliRes
	Calls  []fsCall
	Killed bool // by us
}

func readMemString(pid int, addr uint64) string {
	f, err := os.Open(fmt.Sprintf("/proc/%d/mem", pid))
	if err != nil {
		return ""
	}
	defer f.Close()
	b := make([]byte, 4096)
	n, _ := f.ReadAt(b[:256], int64(addr))
	if i := bytes.IndexByte(b[:n], 0); i >= 0 {
		return string(b[:i])
	}
	n, _ = f.ReadAt(b, int64(addr))
	if i := bytes.IndexByte(b[:n], 0); i >= 0 {
		return string(b[:i])
	}
	return string(b[:n])
}

// traced runs a command under control; decide is asked at the k-th file-changing call below dir.
func (r *Run) traced(o cliOpt, dir string, decide func(k int, c fsCall) fsFault, name string, args ...string) (res tracedRes) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	outf, err1 := os.CreateTemp(r.Scratch, "out")
	errf, err2 := os.CreateTemp(r.Scratch, "err")
	null, err3 := os.Open(os.DevNull)
	if err1 != nil || err2 != nil || err3 != nil {
		panic(harnessErr("cannot make files for output"))
	}
	defer func() {
		outf.Close()
		errf.Close()
		null.Close()
		os.Remove(outf.Name())
		os.Remove(errf.Name())
	}()
	cwd := o.Dir
	if cwd == "" {
		cwd = r.Scratch
	}
	env := append(r.cliEnv(o), "GOGC=off", "GODEBUG=asyncpreemptoff=1", "GOMAXPROCS=1")
	bin := filepath.Join(binDir(), name)
	pid, err := syscall.ForkExec(bin, append([]string{name}, args...), &syscall.ProcAttr{Dir: cwd, Env: env,
		Files: []uintptr{null.Fd(), outf.Fd(), errf.Fd()},
		Sys:   &syscall.SysProcAttr{Ptrace: true, Pdeathsig: syscall.SIGKILL}})
	if err != nil {
		panic(harnessErr("cannot start a traced process: " + err.Error()))
	}
	done := make(chan bool)
	defer close(done)
	go func() { // never wait forever
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			syscall.Kill(pid, syscall.SIGKILL)
		}
	}()
	var ws syscall.WaitStatus
	if _, err := syscall.Wait4(pid, &ws, syscall.WALL, nil); err != nil || !ws.Stopped() {
		panic(harnessErr(fmt.Sprintf("traced process does not stop: %v %v", err, ws)))
	}
	const exitKill = 0x100000
	if err := syscall.PtraceSetOptions(pid, syscall.PTRACE_O_TRACESYSGOOD|syscall.PTRACE_O_TRACECLONE|exitKill); err != nil {
		panic(harnessErr("ptrace: " + err.Error()))
	}
	type thread struct {
		in    bool // inside a call
		fault fsFault
		mine  bool // the call is one of ours
		rdx   uint64
		reset int // argument register to restore (-1: none)
	}
	threads := map[int]*thread{pid: {reset: -1}}
	if err := syscall.PtraceSyscall(pid, 0); err != nil {
		panic(harnessErr("ptrace: " + err.Error()))
	}
	killed := false
	kill := func() {
		killed = true
		syscall.Kill(pid, syscall.SIGKILL)
	}
	argRegs := func(g *syscall.PtraceRegs) [6]*uint64 {
		return [6]*uint64{&g.Rdi, &g.Rsi, &g.Rdx, &g.R10, &g.R8, &g.R9}
	}
	code := -3
	for {
		tid, err := syscall.Wait4(-1, &ws, syscall.WALL|wNoThread, nil)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			break // no children left
		}
		if ws.Exited() || ws.Signaled() {
			if tid == pid {
				if ws.Exited() {
					code = ws.ExitStatus()
				} else {
					code = -1
				}
				break
			}
			delete(threads, tid)
			continue
		}
		if !ws.Stopped() {
			continue
		}
		t := threads[tid]
		if t == nil {
			t = &thread{reset: -1}
			threads[tid] = t
			if ws.StopSignal() == syscall.SIGSTOP { // a new thread's first stop
				syscall.PtraceSyscall(tid, 0)
				continue
			}
		}
		sig := 0
		switch {
		case ws.StopSignal() == syscall.SIGTRAP|0x80:
			t.in = !t.in
			var g syscall.PtraceRegs
			if syscall.PtraceGetRegs(tid, &g) != nil {
				break
			}
			a := argRegs(&g)
			if t.in {
				t.mine = false
				s, ok := fsCalls[g.Orig_rax]
				if !ok && o.Every {
					s, ok = readCalls[g.Orig_rax]
				}
				var v [6]uint64
				for i := range a {
					v[i] = *a[i]
				}
				if !ok || !o.Every && !opensForChange(g.Orig_rax, v) || s.fd < 0 && s.path < 0 {
					break
				}
				p := ""
				if s.fd >= 0 {
					p, _ = os.Readlink(fmt.Sprintf("/proc/%d/fd/%d", pid, int32(v[s.fd])))
					p = strings.TrimSuffix(p, " (deleted)")
				} else {
					p = readMemString(pid, v[s.path])
					if !filepath.IsAbs(p) {
						at := cwd
						if s.dir >= 0 && int32(v[s.dir]) >= 0 {
							at, _ = os.Readlink(fmt.Sprintf("/proc/%d/fd/%d", pid, int32(v[s.dir])))
						}
						p = filepath.Join(at, p)
					}
				}
				if !strings.HasPrefix(p, dir+"/") {
					break
				}
				c := fsCall{Name: s.name, Path: p[len(dir)+1:], N: -1}
				if s.n >= 0 {
					c.N = int(v[s.n])
				}
				f := decide(len(res.Calls), c)
				res.Calls = append(res.Calls, c)
				t.mine, t.fault, t.reset = true, f, -1
				switch {
				case f.Kill:
					g.Orig_rax = ^uint64(0)
					syscall.PtraceSetRegs(tid, &g)
					kill()
				case f.Errno != 0:
					g.Orig_rax = ^uint64(0)
					syscall.PtraceSetRegs(tid, &g)
				case f.Short > 0 && s.n >= 0:
					t.reset, t.rdx = s.n, *a[s.n]
					*a[s.n] = uint64(f.Short)
					syscall.PtraceSetRegs(tid, &g)
				}
			} else if t.mine {
				t.mine = false
				switch {
				case t.fault.Errno != 0:
					g.Rax = uint64(-int64(t.fault.Errno))
					syscall.PtraceSetRegs(tid, &g)
				case t.reset >= 0:
					*a[t.reset] = t.rdx
					syscall.PtraceSetRegs(tid, &g)
				}
				if t.fault.After {
					kill()
				}
			}
		case ws.StopSignal() == syscall.SIGTRAP:
			// a clone event or exec
		case ws.StopSignal() == syscall.SIGSTOP:
		default:
			sig = int(ws.StopSignal())
		}
		syscall.PtraceSyscall(tid, sig)
	}
	r.Tick()
	o1, _ := os.ReadFile(outf.Name())
	o2, _ := os.ReadFile(errf.Name())
	res.cliRes = cliRes{string(o1), string(o2), code}
	res.Killed = killed
	return
}
