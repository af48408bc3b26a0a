package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	goregexp "regexp"
	"strings"
	"syscall"
)

// C14: cindex is stopped at every system call that changes a file, and there killed, made to fail (this call, all
// writes from here on, everything from here on) or to write only part; after each such run the index must be the
// complete old or the complete new one, and a later run must produce the new one.

type c14fault struct {
	K    int
	Kind string
}

type c14case struct {
	World  string
	Faults []c14fault // one per run of cindex, in order
}

var c14kinds = []string{"kill", "ENOSPC", "EIO", "full", "dead", "half", "half-kill", "one-kill", "most-kill", "half-full", "half-EIO"}

type c14world struct {
	name             string
	dir              string // everything cindex may change
	ixdir, tmp, tree string
	index            string
	flags            []string
	args             []string
	old              []byte // nil: no index before
	oldd, newd       *decoded
	new              []byte
	leftover         map[string][]byte // other files beside the index at the start
	fresh            bool              // first build or -reset
	calls            []fsCall
	ok               map[uint64]bool // index contents known to be fine
}

var c14worlds = []string{"change", "addroot", "noargs", "check", "zip", "same", "v1", "leftover", "longleftover", "stats", "tmpbeside", "big", "first", "reset", "removed", "merged"}

func c14norm(p string) string { return c14temp.ReplaceAllString(p, "csearchNNN") }

var c14temp = goregexp.MustCompile(`csearch[0-9]+`)

func (r *Run) c14setup(name string) *c14world {
	w := &c14world{name: name, dir: filepath.Join(r.Scratch, "c14"+name), ok: map[uint64]bool{}}
	os.RemoveAll(w.dir)
	w.tree = filepath.Join(r.Scratch, "c14"+name+"tree")
	os.RemoveAll(w.tree)
	w.ixdir, w.tmp = w.dir+"/ix", w.dir+"/tmp"
	if name == "tmpbeside" {
		w.tmp = w.ixdir
	}
	os.MkdirAll(w.ixdir, 0777)
	os.MkdirAll(w.tmp, 0777)
	w.index = w.ixdir + "/csindex"
	put := func(f, s string) { mustWrite(filepath.Join(w.tree, f), []byte(s)) }
	put("a/one", "text of one\nold words here\n")
	put("a/two", "text of two\n")
	put("a/sub/x", "deep text\n")
	put("b/three", "text of three, old\n")
	put("c/four", "fourth text\n")
	if name == "big" {
		for i := 0; i < 36; i++ {
			var b strings.Builder
			for j := 0; j < 2500; j++ {
				fmt.Fprintf(&b, "%c%c%c%d\n", 'a'+(i*7+j)%26, 'a'+(j/26)%26, 'a'+(i+j/676)%26, (i*j)%1000)
			}
			put(fmt.Sprintf("%c/big%02d", "ab"[i%2], i), b.String())
		}
	}
	roots := []string{w.tree + "/a", w.tree + "/b"}
	run := func(args ...string) {
		res := r.tool(cliOpt{Index: w.index, Env: []string{"TMPDIR=" + w.tmp}}, "cindex", args...)
		if res.Code != 0 {
			panic(harnessErr("cindex: " + res.Err))
		}
	}
	if name != "first" {
		run(roots...)
		if name == "merged" {
			put("b/more", "added later\n")
			run(roots[1])
		}
		w.old = mustRead(w.index)
		if name == "v1" {
			var fs []file
			for _, f := range []string{"a/one", "a/sub/x", "a/two", "b/three"} {
				fs = append(fs, file{filepath.Join(w.tree, f), string(mustRead(filepath.Join(w.tree, f)))})
			}
			sortFiles(fs)
			w.old = encodeIndex(encVariant{V: 1}, roots, namesOf(fs), plistsOf(fs), len(fs), nil)
		}
	}
	// The tree as the run under test finds it.
	put("a/one", "text of one\nnew words now\n")
	put("a/new", "a new file\n")
	os.Remove(w.tree + "/a/two")
	w.args = roots[:1]
	switch name {
	case "addroot":
		w.args = []string{w.tree + "/c"}
	case "noargs":
		w.args = nil
	case "check":
		w.flags = []string{"-check"}
	case "zip":
		f := zipFile([]file{{"m.go", "member text\n"}, {"d/n.txt", "more text\n"}})
		f.Seek(0, 0)
		var b bytes.Buffer
		b.ReadFrom(f)
		f.Close()
		put("a/arch.zip", b.String())
		w.flags = []string{"-zip"}
	case "same":
		put("a/one", "text of one\nold words here\n")
		put("a/two", "text of two\n")
		os.Remove(w.tree + "/a/new")
	case "leftover":
		w.leftover = map[string][]byte{"csindex~": []byte("rubbish"), "csindex~~": w.old[:len(w.old)/2]}
	case "longleftover": // longer than what is written now, with the ends of good indexes
		w.leftover = map[string][]byte{"csindex~": bytes.Repeat(w.old, 3), "csindex~~": bytes.Repeat(w.old, 5)}
	case "stats":
		w.flags = []string{"-stats", "-verbose"}
	case "first":
		w.args, w.fresh = roots, true
	case "reset":
		w.flags, w.args, w.fresh = []string{"-reset"}, roots, true
	case "removed":
		os.RemoveAll(w.tree + "/a")
	case "merged":
		w.args = []string{w.tree}
	}
	c := &c14case{World: name}
	w.restore()
	// What the run does when nothing happens to it.
	res := r.c14run(w, nil)
	if res.Code == -3 || len(res.Calls) == 0 {
		panic(harnessErr(fmt.Sprintf("tracing does not work: code %d, %d calls: %s", res.Code, len(res.Calls), res.Err)))
	}
	if res.Code != 0 {
		r.Fail(c, "cindex %v %v exits %d: %s", w.flags, w.args, res.Code, res.Err)
	}
	w.calls = res.Calls
	w.new = mustRead(w.index)
	var err error
	if w.newd, err = decodeIndex(w.new); err != nil {
		r.Fail(c, "the index is not well-formed: %v", err)
	}
	if w.old != nil && name != "v1" {
		if w.oldd, err = decodeIndex(w.old); err != nil {
			r.Fail(c, "the old index is not well-formed: %v", err)
		}
	}
	return w
}

func (w *c14world) restore() {
	clearDir(w.dir)
	os.MkdirAll(w.ixdir, 0777)
	os.MkdirAll(w.tmp, 0777)
	if w.old != nil {
		mustWrite(w.index, w.old)
	}
	for f, b := range w.leftover {
		mustWrite(filepath.Join(w.ixdir, f), b)
	}
}

func (f *c14fault) at(k int, c fsCall) (a fsFault) {
	if f == nil {
		return
	}
	n := c.N
	if c.Name == "copy_file_range" || c.Name == "sendfile" || c.Name == "splice" {
		n = 16 // the length asked for is only a limit
	}
	switch f.Kind {
	case "kill":
		a.Kill = k == f.K
	case "ENOSPC":
		if k == f.K {
			a.Errno = syscall.ENOSPC
		}
	case "EIO":
		if k == f.K {
			a.Errno = syscall.EIO
		}
	case "full":
		if k >= f.K && (c.writes() || c.creates()) {
			a.Errno = syscall.ENOSPC
		}
	case "dead":
		if k >= f.K {
			a.Errno = syscall.EIO
		}
	case "half":
		if k == f.K {
			a.Short = n / 2
		}
	case "half-kill":
		if k == f.K {
			a.Short, a.After = n/2, true
		}
	case "one-kill":
		if k == f.K {
			a.Short, a.After = 1, true
		}
	case "most-kill":
		if k == f.K {
			a.Short, a.After = n-1, true
		}
	case "half-EIO": // only the next call fails
		if k == f.K {
			a.Short = n / 2
		} else if k == f.K+1 {
			a.Errno = syscall.EIO
		}
	case "half-full":
		if k == f.K {
			a.Short = n / 2
		} else if k > f.K && (c.writes() || c.creates()) {
			a.Errno = syscall.ENOSPC
		}
	}
	return
}

// applies reports whether the fault differs from others at this call.
func (f *c14fault) applies(calls []fsCall) bool {
	if f.K >= len(calls) {
		return false
	}
	c := calls[f.K]
	switch f.Kind {
	case "half", "half-kill", "one-kill", "most-kill", "half-full", "half-EIO":
		return c.N >= 2
	case "full":
		return c.writes() || c.creates()
	}
	return true
}

func (r *Run) c14run(w *c14world, f *c14fault) tracedRes {
	return r.traced(cliOpt{Index: w.index, Env: []string{"TMPDIR=" + w.tmp}}, w.dir, func(k int, c fsCall) fsFault { return f.at(k, c) },
		"cindex", append(append([]string{}, w.flags...), w.args...)...)
}

func (d *decoded) same(e *decoded) bool {
	return d.equal(&snapshot{e.Roots, e.Names, e.Post}) == nil
}

// state says what the index holds: old, new, absent, refused (by csearch), or what is wrong.
func (r *Run) c14state(w *c14world, c *c14case) string {
	b, err := os.ReadFile(w.index)
	if err != nil {
		return "absent"
	}
	if bytes.Equal(b, w.new) {
		if bytes.Equal(b, w.old) {
			return "old=new"
		}
		return "new"
	}
	if w.old != nil && bytes.Equal(b, w.old) {
		return "old"
	}
	d, err := decodeIndex(b)
	if err == nil && d.same(w.newd) {
		return "new"
	}
	if err == nil && w.oldd != nil && d.same(w.oldd) {
		return "old"
	}
	res := r.tool(cliOpt{Index: w.index}, "csearch", "-l", "text")
	if res.Code != 0 && res.Out == "" && res.Code != 1 || res.Code == 1 && strings.Contains(res.Err, "corrupt") {
		return "refused"
	}
	why := "other content"
	if err != nil {
		why = err.Error()
	}
	return fmt.Sprintf("neither old nor new (%d bytes; old has %d, new %d): %s; csearch exits %d and prints %q", len(b), len(w.old), len(w.new), why, res.Code, res.Out)
}

func (r *Run) c14check(w *c14world, c *c14case) {
	w.restore()
	describe := ""
	for i := range c.Faults {
		f := &c.Faults[i]
		res := r.c14run(w, f)
		if os.Getenv("MC_DEBUG") == "2" {
			fmt.Fprintf(os.Stderr, "%v\n%d %s", res.Calls, res.Code, res.Err)
		}
		if len(res.Calls) > f.K {
			describe += fmt.Sprintf("; run %d: %s at call %d, %v", i+1, f.Kind, f.K, res.Calls[f.K])
		} else {
			describe += fmt.Sprintf("; run %d: only %d calls", i+1, len(res.Calls))
		}
		r.Step(len(res.Calls))
		st := r.c14state(w, c)
		good := st == "old" || st == "new" || st == "old=new"
		if w.fresh { // no old index to keep: nothing, the complete new one, or one that is refused
			good = good || st == "absent" || st == "refused"
		}
		if !good {
			r.Fail(c, "after cindex exits with %d%s: the index file is %s", res.Code, describe, st)
		}
		if !res.Killed && res.Code == 0 && st != "new" && st != "old=new" {
			r.Fail(c, "cindex exits successfully%s, but the index file is %s\n%s", describe, st, res.Err)
		}
		out := "killed"
		if !res.Killed {
			out = fmt.Sprintf("exit %d", res.Code)
		}
		r.Outcome(out + ", index " + st)
		r.State(h64(w.name + st + listDir(w.dir)))
	}
	// A later run.
	args := append(append([]string{}, w.flags...), w.args...)
	if w.fresh {
		args = append([]string{"-reset"}, args...)
	}
	if w.name == "noargs" || len(w.args) == 0 {
		args = w.flags
	}
	res := r.tool(cliOpt{Index: w.index, Env: []string{"TMPDIR=" + w.tmp}}, "cindex", args...)
	if res.Code != 0 {
		r.Fail(c, "a later cindex exits %d%s: %s", res.Code, describe, res.Err)
	}
	if st := r.c14state(w, c); st != "new" && st != "old=new" {
		r.Fail(c, "after a later cindex%s the index file is %s", describe, st)
	}
	r.Trace(true)
}

func c14jobs(tier string) (jobs []Job) {
	for _, n := range c14worlds {
		jobs = append(jobs, shardJobs(n, 4, func(r *Run, shard, k int) {
			w := r.c14setup(n)
			i := 0
			for p := range w.calls {
				for _, kind := range c14kinds {
					c := &c14case{World: n, Faults: []c14fault{{p, kind}}}
					if !c.Faults[0].applies(w.calls) {
						continue
					}
					i++
					if i%k != shard {
						continue
					}
					r.At(c)
					r.c14check(w, c)
					if r.Expired() {
						return
					}
				}
			}
			r.Sample("%s: %d file-changing calls: %.300v", n, len(w.calls), w.calls)
		})...)
	}
	twice := []string{"change", "first"}
	if tier == "thorough" {
		twice = []string{"change", "first", "noargs", "leftover", "reset", "tmpbeside", "merged", "zip", "addroot", "v1"}
	}
	{
		// Two runs stopped one after the other.
		for _, n := range twice {
			jobs = append(jobs, shardJobs(n+"-twice", 16, func(r *Run, shard, k int) {
				w := r.c14setup(n)
				i := 0
				for p := range w.calls {
					for q := range w.calls {
						for _, kinds := range [][2]string{{"kill", "kill"}, {"kill", "dead"}, {"half-kill", "half-kill"}, {"half-full", "kill"}, {"dead", "EIO"}, {"half-kill", "full"}} {
							if tier != "thorough" && kinds[0] != "kill" && kinds[1] != "kill" {
								continue
							}
							c := &c14case{World: n, Faults: []c14fault{{p, kinds[0]}, {q, kinds[1]}}}
							if !c.Faults[0].applies(w.calls) || !c.Faults[1].applies(w.calls) {
								continue
							}
							i++
							if i%k != shard {
								continue
							}
							r.At(c)
							r.c14check(w, c)
							if r.Expired() {
								return
							}
						}
					}
				}
			})...)
		}
	}
	return
}

func init() {
	register(&Prop{
		ID: "C14", Level: "fault_enumeration",
		Rule: "A case is a small history (an update with changed, added, removed files; an added root; no arguments; -check; -zip; an old-format index; leftovers of an earlier crash; a large index; a first build; -reset) and, for one run of cindex or two, a system call that changes a file together with what happens there: the process is killed before it or after part of it, the call fails, all writes fail from there on, everything fails from there on, or it writes only part. All are non-trivial.",
		Assumptions: []string{
			"a killed process leaves what its completed system calls wrote (no loss of the kernel's cache)",
			"changes made through writable shared mappings would not be seen; the code has none",
			"first builds and -reset have no old index to keep: absent or refused counts as right there",
		},
		Jobs: c14jobs,
		Replay: func(r *Run, b json.RawMessage) {
			c := caseOf[c14case](b)
			r.c14check(r.c14setup(c.World), &c)
		},
	})
}
