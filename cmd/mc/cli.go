package main

import (
	"bytes"
	"context"
	"errors"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// A cliRes is the result of running one of the commands.
type cliRes struct {
	Out, Err string
	Code     int // exit status; -1 if killed by a signal
}

type cliOpt struct {
	Dir   string
	Env   []string
	Stdin []byte
	Index string
	Uid   int  // run as this user (0: as we are)
	Files int  // may have this many files open at once (0: as we may)
	Every bool // traced: stop at calls that only read, too
}

func binDir() string {
	d := os.Getenv("MC_BIN")
	if d == "" {
		panic(harnessErr("MC_BIN is not set"))
	}
	return d
}

func (r *Run) cliEnv(o cliOpt) []string {
	env := []string{"PATH=/usr/bin:/bin", "HOME=" + filepath.Join(r.Scratch, "home"), "TMPDIR=" + filepath.Join(r.Scratch, "tmp"), "GOMAXPROCS=2", "LC_ALL=C"}
	if o.Index != "" {
		env = append(env, "CSEARCHINDEX="+o.Index)
	}
	return append(env, o.Env...)
}

// tool runs a command built from /repo.
func (r *Run) tool(o cliOpt, name string, args ...string) cliRes {
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	os.MkdirAll(filepath.Join(r.Scratch, "tmp"), 0777)
	name = filepath.Join(binDir(), name)
	if o.Files != 0 {
		args = append([]string{"-c", "ulimit -n " + strconv.Itoa(o.Files) + ` && exec "$0" "$@"`, name}, args...)
		name = "/bin/sh"
	}
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = o.Dir
	if cmd.Dir == "" {
		cmd.Dir = r.Scratch
	}
	cmd.Env = r.cliEnv(o)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if o.Uid != 0 {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: uint32(o.Uid), Gid: uint32(o.Uid)}
	}
	if o.Stdin != nil {
		cmd.Stdin = bytes.NewReader(o.Stdin)
	}
	var out, serr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &serr
	err := cmd.Run()
	r.Tick()
	if ctx.Err() != nil {
		return cliRes{out.String(), serr.String() + "\n(timed out)", -2}
	}
	if err != nil {
		var ee *exec.ExitError
		if !errors.As(err, &ee) {
			panic(harnessErr("running " + name + ": " + err.Error()))
		}
	}
	return cliRes{out.String(), serr.String(), cmd.ProcessState.ExitCode()}
}

// crashed reports whether the output shows a Go panic or fatal runtime error.
func (c cliRes) crashed() bool {
	return c.Code < 0 || strings.Contains(c.Err, "\ngoroutine ") || strings.Contains(c.Err, "panic: ")
}

// clearDir removes everything inside dir.
func clearDir(dir string) {
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		os.RemoveAll(filepath.Join(dir, e.Name()))
	}
}
