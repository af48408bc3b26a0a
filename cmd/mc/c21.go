package main

import (
	"archive/zip"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"verifmc/inst/mcsched"
)

// C21: the real packages, rebuilt with a scheduling point before every statement, run two or three operations as
// threads of which only one runs at a time; all schedules with one switch (quick: at the first and last occurrence
// of each statement, thorough: at every one) and, in thorough, two switches are executed. What lies below statement
// granularity is left to the race detector, under which the same groups run freely.

type c21case struct {
	Web      bool  `json:",omitempty"`
	Ops      []int // mcops' operations, or requests
	Race     bool  `json:",omitempty"`
	First    int
	Switches []mcsched.Switch `json:",omitempty"`
}

const c21ops = 18 // in inst/mcops

func c21targets(dir string) []string {
	return []string{
		"/?q=on|three+text+one",
		"/?q=(?i)TW&f=b",
		"/show" + dir + "/t/a",
		"/show" + dir + "/t/",
		"/?q=(",
		"/show" + dir + "/nope",
		"/?q=x*y",
		"/show" + dir + "/t/z.zip@m",
	}
}

// instrumented returns the directory with the controlled programs, which the first worker builds.
func (r *Run) instrumented(race bool) string {
	work := os.Getenv("MC_WORK")
	if work == "" {
		panic(harnessErr("MC_WORK is not set"))
	}
	dir := filepath.Join(work, "inst")
	if race {
		dir = filepath.Join(work, "race")
	}
	os.MkdirAll(dir, 0777)
	f, err := os.OpenFile(dir+".lock", os.O_RDWR|os.O_CREATE, 0666)
	if err != nil {
		panic(harnessErr(err.Error()))
	}
	defer f.Close()
	for syscall.Flock(int(f.Fd()), syscall.LOCK_EX|syscall.LOCK_NB) != nil {
		time.Sleep(50 * time.Millisecond)
		r.Tick()
	}
	done := filepath.Join(dir, "done")
	b, err := os.ReadFile(done)
	if err != nil {
		type res struct {
			desc   string
			serves int
			err    error
		}
		ch := make(chan res)
		go func() {
			defer func() {
				if e := recover(); e != nil {
					ch <- res{err: fmt.Errorf("%v", e)}
				}
			}()
			d, n, e := instrument(dir, race)
			ch <- res{d, n, e}
		}()
		var x res
		for waiting := true; waiting; {
			select {
			case x = <-ch:
				waiting = false
			case <-time.After(100 * time.Millisecond):
				r.Tick()
			}
		}
		if x.err != nil {
			panic(harnessErr("instrumented build: " + x.err.Error()))
		}
		if x.serves == 0 {
			x.desc += "; no call of http.ListenAndServe found"
		}
		b = []byte(x.desc)
		mustWrite(done, b)
		if !race {
			r.Note("instrumented: " + x.desc)
		}
	}
	if strings.Contains(string(b), "no call of") {
		r.Note("csweb could not be put under the scheduler: " + string(b))
		os.WriteFile(filepath.Join(dir, "noweb"), nil, 0666)
	}
	return dir
}

// c21index makes a tree and its index.
func c21index(r *Run) (dir string) {
	dir = filepath.Join(r.Scratch, "c21")
	if _, err := os.Stat(dir + "/ix"); err == nil {
		return
	}
	for n, s := range map[string]string{"a": "one text\n", "b": "two texy\n", "c": "three text one\n", "d": "xy\n"} {
		mustWrite(filepath.Join(dir, "t", n), []byte(s))
	}
	var z bytes.Buffer
	zw := zip.NewWriter(&z)
	w, err := zw.Create("m")
	if err == nil {
		_, err = w.Write([]byte("one two\n"))
	}
	if e := zw.Close(); err != nil || e != nil {
		panic(harnessErr("zip"))
	}
	mustWrite(filepath.Join(dir, "t", "z.zip"), z.Bytes())
	res := r.tool(cliOpt{Dir: dir, Index: dir + "/ix"}, "cindex", "-zip", dir+"/t")
	if res.Code != 0 {
		panic(harnessErr("cindex: " + res.Err))
	}
	return
}

// c21run runs one process. It returns nil if there is nothing to run.
func c21run(r *Run, c c21case, cfg mcsched.Config) *mcsched.Result {
	dir := c21index(r)
	bin := r.instrumented(c.Race)
	if _, err := os.Stat(filepath.Join(bin, "noweb")); c.Web && err == nil {
		return nil
	}
	cfg.Ops, cfg.Index, cfg.Dir = c.Ops, dir+"/ix", dir+"/"
	cfg.Shards = max(cfg.Shards, 1)
	if !r.deadline.IsZero() {
		cfg.Until = r.deadline.Unix()
	}
	prog := "mcops"
	if c.Web {
		prog = "csweb"
		cfg.Targets = c21targets(dir)
	}
	run := func() (out, errs bytes.Buffer, err error, hung bool) {
		b, _ := json.Marshal(cfg)
		cmd := exec.Command(filepath.Join(bin, prog))
		cmd.Dir = dir
		cmd.Env = append(r.cliEnv(cliOpt{Index: dir + "/ix"}), "MC_SCHED="+string(b), "GORACE=halt_on_error=1 exitcode=66", "GOMAXPROCS=4")
		cmd.Stdout, cmd.Stderr = &out, &errs
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if e := cmd.Start(); e != nil {
			panic(harnessErr(e.Error()))
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		limit := time.Now().Add(20 * time.Minute)
		if r.Tier == "quick" || c.Race {
			limit = time.Now().Add(4 * time.Minute)
		}
		for {
			select {
			case err = <-done:
				return
			case <-time.After(100 * time.Millisecond):
				r.Tick()
				if time.Now().After(limit) {
					cmd.Process.Kill()
					<-done
					hung = true
					return
				}
			}
		}
	}
	r.At(c)
	out, errs, err, hung := run()
	res := &mcsched.Result{}
	if hung || err != nil || json.Unmarshal(out.Bytes(), res) != nil {
		e := errs.String()
		if strings.Contains(e, "DATA RACE") {
			c.Race = true
			r.Fail(c, "data race between %s\n%s", c21names(c, dir), trunc(e, 3000))
		}
		// Does each alone get through?
		mode := cfg.Mode
		cfg.Mode = "count"
		_, e2, err2, hung2 := run()
		if hung2 || err2 != nil {
			panic(harnessErr("the operations fail alone: " + trunc(e2.String(), 1500)))
		}
		r.Fail(c, "%s (%s): the process ends (%v, hung: %v) when they run together\n%s", c21names(c, dir), mode, err, hung, trunc(e, 2500))
	}
	if res.Error != "" {
		panic(harnessErr(res.Error))
	}
	if res.Bad != "" {
		c.First, c.Switches = res.First, res.Switches
		r.Fail(c, "%s: %s", c21names(c, dir), res.Bad)
	}
	if res.Expired {
		r.Note("time ran out within a group")
	}
	if res.Blocked > 0 {
		r.Note("thread waited for another")
	}
	return res
}

func c21names(c c21case, dir string) string {
	if !c.Web {
		return fmt.Sprintf("operations %v of inst/mcops", c.Ops)
	}
	var s []string
	for _, i := range c.Ops {
		s = append(s, c21targets(dir)[i])
	}
	return "requests " + strings.Join(s, ", ")
}

func c21job(c c21case, cfg mcsched.Config) Job {
	name := fmt.Sprint("ops ", c.Ops)
	if c.Web {
		name = fmt.Sprint("requests ", c.Ops)
	}
	if c.Race {
		name += " race"
		cfg.Mode, cfg.Rounds = "parallel", 6
	} else {
		cfg.Mode = "explore"
		name += fmt.Sprintf(" %d switches occ %d", cfg.Bound, cfg.Occ)
		if cfg.Shards > 1 {
			name += fmt.Sprintf(" part %d/%d", cfg.Shard, cfg.Shards)
		}
	}
	return Job{name, func(r *Run) {
		if !c.Race && cfg.Bound == 2 && len(c.Ops) == 2 {
			// Leave out what would take more than a few minutes.
			q := cfg
			q.Mode = "count"
			res := c21run(r, c, q)
			if res == nil {
				return
			}
			if s := float64(res.Places[0]) * float64(res.Places[1]) * 2 * float64(res.Yields[0]+res.Yields[1]) * 60e-9 / float64(cfg.Shards); s > 40 {
				r.Outcome("two switches: left out as too large")
				return
			}
		}
		res := c21run(r, c, cfg)
		if res == nil {
			return
		}
		r.State(h64(name))
		r.Traces += uint64(res.Schedules)
		r.Transitions += uint64(res.Steps)
		kind := "one switch"
		switch {
		case c.Race:
			kind = "free run under the race detector"
		case cfg.Bound == 2:
			kind = "two switches"
		case len(c.Ops) == 3:
			kind = "three threads, one switch"
		}
		if c.Web {
			kind += ", csweb requests"
		}
		r.Outcomes[kind] += uint64(res.Schedules)
		r.Nontrivial += uint64(res.Schedules)
		r.Sample("%s: %d schedules, %d statements executed; statements per operation alone %v, switch points %v", name, res.Schedules, res.Steps, res.Yields, res.Places)
	}}
}

func c21jobs(tier string) (js []Job) {
	groups := func(n int, f func(ops []int)) {
		for a := 0; a < n; a++ {
			for b := a; b < n; b++ {
				f([]int{a, b})
			}
		}
	}
	webN := len(c21targets(""))
	occ := 1
	if tier == "thorough" {
		occ = 0
	}
	groups(c21ops, func(ops []int) {
		js = append(js, c21job(c21case{Ops: ops}, mcsched.Config{Bound: 1, Occ: occ}))
	})
	groups(webN, func(ops []int) {
		js = append(js, c21job(c21case{Ops: ops, Web: true}, mcsched.Config{Bound: 1, Occ: occ}))
	})
	for _, ops := range [][]int{{0, 1, 2}, {1, 5, 9}, {4, 7, 10}, {9, 10, 13}, {9, 12, 14}, {6, 7, 8}, {14, 14, 14}} {
		js = append(js, c21job(c21case{Ops: ops}, mcsched.Config{Bound: 1, Occ: 1}))
	}
	groups(c21ops, func(ops []int) { js = append(js, c21job(c21case{Ops: ops, Race: true}, mcsched.Config{})) })
	groups(webN, func(ops []int) { js = append(js, c21job(c21case{Ops: ops, Web: true, Race: true}, mcsched.Config{})) })
	var all, web []int
	for i := range c21ops {
		all = append(all, i)
	}
	for i := range webN {
		web = append(web, i)
	}
	js = append(js, c21job(c21case{Ops: all, Race: true}, mcsched.Config{}), c21job(c21case{Ops: web, Web: true, Race: true}, mcsched.Config{}))
	if tier == "thorough" {
		const shards = 4
		for s := range shards {
			groups(c21ops, func(ops []int) {
				js = append(js, c21job(c21case{Ops: ops}, mcsched.Config{Bound: 2, Occ: 1, Shard: s, Shards: shards}))
			})
			groups(webN, func(ops []int) {
				js = append(js, c21job(c21case{Ops: ops, Web: true}, mcsched.Config{Bound: 2, Occ: 1, Shard: s, Shards: shards}))
			})
		}
	}
	return
}

func init() {
	register(&Prop{
		ID:    "C21",
		Level: "model_checking",
		Rule: "a case is one schedule of two or three operations (compiling, matching, grepping, query derivation, posting-list and name reads on one shared open index, csweb requests) " +
			"run on the real code rebuilt with a scheduling point before every statement; every schedule with one switch at the stated statements (thorough: at every statement executed, and two switches) is executed and each operation's output compared with its output alone; " +
			"the same groups also run freely under the race detector. All cases are non-trivial: the switch lies inside an operation",
		Assumptions: []string{
			"Below the granularity of a statement the argument is the race detector's: without a data race and without synchronisation between the operations every interleaving is equivalent to one at statement boundaries",
			"More than one preemption (thorough: two) is not explored; operations with states that only three or more switches reach are left out",
			"Index.Check is not among the operations: it changes how the whole package treats damage",
		},
		Jobs:       c21jobs,
		NoProgress: 5 * time.Minute,
		Replay: func(r *Run, raw json.RawMessage) {
			var c c21case
			if err := json.Unmarshal(raw, &c); err != nil {
				panic(harnessErr(err.Error()))
			}
			if c.Race {
				c21run(r, c, mcsched.Config{Mode: "parallel", Rounds: 30})
				return
			}
			c21run(r, c, mcsched.Config{Mode: "explore", Replay: true, First: c.First, One: c.Switches})
		},
	})
}
