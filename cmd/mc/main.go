// Command mc explores bounded spaces of behaviours of google/codesearch exhaustively.
//
//	mc run ID        explore property ID (tier from VERIF_TIER), write evidence, exit 0 or 1
//	mc replay FILE   re-execute the recorded violation
//	mc list          list properties
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc run|replay|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		os.Exit(parent(os.Args[2]))
	case "worker":
		worker()
	case "replay":
		os.Exit(replayMain(os.Args[2]))
	case "list":
		for _, id := range sortedKeys(props) {
			fmt.Println(id)
		}
	case "jobs":
		for i, j := range props[os.Args[2]].Jobs(tierEnv()) {
			fmt.Println(i, j.Name)
		}
	default:
		if f, ok := subcommands[os.Args[1]]; ok {
			f(os.Args[2:])
			return
		}
		os.Exit(2)
	}
}

// subcommands are helper processes used by individual properties.
var subcommands = map[string]func(args []string){}

func tierEnv() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func seedEnv() int {
	n, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		n = 1
	}
	return n
}

func budget(tier string) time.Duration {
	if s := os.Getenv("VERIF_BUDGET_S"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			return time.Duration(n) * time.Second
		}
	}
	if tier == "thorough" {
		return 90 * time.Minute
	}
	return 600 * time.Second
}

const progressSize = 1 << 16

type workerProc struct {
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	progress []byte
	job      int
	scratch  string
	lastProg uint64
	lastTime time.Time
	killed   bool
}

func mapShared(path string, create bool) []byte {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0600)
	if err != nil {
		return nil
	}
	defer f.Close()
	if create {
		f.Truncate(progressSize)
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, progressSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil
	}
	return b
}

func startWorker(id string, n int, base string, deadline time.Time) (*workerProc, error) {
	w := &workerProc{scratch: filepath.Join(base, fmt.Sprintf("w%d-%d", n, time.Now().UnixNano()))}
	if err := os.MkdirAll(w.scratch, 0700); err != nil {
		return nil, err
	}
	w.progress = mapShared(filepath.Join(w.scratch, ".progress"), true)
	w.cmd = exec.Command(os.Args[0], "worker", id, w.scratch, strconv.FormatInt(deadline.Unix(), 10))
	w.cmd.Stderr = nil
	if os.Getenv("MC_DEBUG") != "" {
		w.cmd.Stderr = os.Stderr
	}
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	var err error
	if w.in, err = w.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	p, err := w.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	w.out = bufio.NewReaderSize(p, 1<<16)
	if err := w.cmd.Start(); err != nil {
		return nil, err
	}
	w.lastTime = time.Now()
	return w, nil
}

func (w *workerProc) kill() {
	w.killed = true
	syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL)
	w.cmd.Process.Kill()
}

type collector struct {
	mu       sync.Mutex
	sum      workerSummary
	states   []uint64
	viol     []*Violation
	internal []string
	expired  bool
	jobsDone int
}

func (c *collector) add(s *workerSummary) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.sum.Transitions += s.Transitions
	c.sum.Traces += s.Traces
	c.sum.Nontrivial += s.Nontrivial
	for k, v := range s.Outcomes {
		c.sum.Outcomes[k] += v
	}
	for k, v := range s.Known {
		c.sum.Known[k] += v
	}
	for k, v := range s.Notes {
		c.sum.Notes[k] += v
	}
	if len(c.sum.Samples) < 8 {
		c.sum.Samples = append(c.sum.Samples, s.Samples...)
	}
	c.sum.Capped = append(c.sum.Capped, s.Capped...)
	c.sum.StatesFull = c.sum.StatesFull || s.StatesFull
	if b, err := os.ReadFile(s.StateFile); err == nil {
		for i := 0; i+8 <= len(b); i += 8 {
			c.states = append(c.states, binary.LittleEndian.Uint64(b[i:]))
		}
		os.Remove(s.StateFile)
	}
}

// scratchBase creates the private scratch directory of this run.
func scratchBase() string {
	base, err := os.MkdirTemp("", "mc")
	if err != nil {
		fmt.Fprintln(os.Stderr, "mc:", err)
		os.Exit(3)
	}
	return base
}

func parent(id string) int {
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 3
	}
	start := time.Now()
	tier := tierEnv()
	deadline := start.Add(budget(tier))
	jobs := p.Jobs(tier)
	base := scratchBase()
	defer os.RemoveAll(base)

	col := &collector{}
	col.sum.Outcomes = map[string]uint64{}
	col.sum.Known = map[string]uint64{}
	col.sum.Notes = map[string]uint64{}

	nw := runtime.NumCPU()
	if p.Workers > 0 && p.Workers < nw {
		nw = p.Workers
	}
	if nw > len(jobs) {
		nw = len(jobs)
	}
	noProgress := p.NoProgress
	if noProgress == 0 {
		noProgress = 90 * time.Second
	}
	var next int
	var stop bool
	var mu sync.Mutex
	take := func() int {
		mu.Lock()
		defer mu.Unlock()
		if stop || next >= len(jobs) {
			return -1
		}
		if time.Now().After(deadline) {
			col.expired = true
			return -1
		}
		next++
		return next - 1
	}
	halt := func() { mu.Lock(); stop = true; mu.Unlock() }
	var wg sync.WaitGroup
	var active sync.Map
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for {
				j := take()
				if j < 0 {
					return
				}
				w, err := startWorker(id, i, base, deadline)
				if err != nil {
					col.mu.Lock()
					col.internal = append(col.internal, "start worker: "+err.Error())
					col.mu.Unlock()
					halt()
					return
				}
				active.Store(w, true)
				w.run(j, jobs, take, halt, col, id, tier)
				active.Delete(w)
				os.RemoveAll(w.scratch)
			}
		}(i)
	}
	// Watchdog.
	done := make(chan bool)
	go func() {
		for {
			select {
			case <-done:
				return
			case <-time.After(500 * time.Millisecond):
			}
			active.Range(func(k, _ any) bool {
				w := k.(*workerProc)
				if w.progress == nil {
					return true
				}
				n := getU64(w.progress)
				if n != w.lastProg {
					w.lastProg, w.lastTime = n, time.Now()
				} else if time.Since(w.lastTime) > noProgress {
					w.kill()
				}
				return true
			})
		}
	}()
	wg.Wait()
	close(done)

	code := 0
	nviol := 0
	var vioFile string
	if len(col.viol) > 0 {
		sort.SliceStable(col.viol, func(i, j int) bool { return len(col.viol[i].Case) < len(col.viol[j].Case) })
		for _, v := range col.viol {
			file := saveViolation(v)
			how := confirm(v, file, id, base, deadline, noProgress)
			if how == "" {
				col.sum.Notes["unconfirmed (did not reproduce in 5 fresh runs): "+firstLine(v.Detail)]++
				fmt.Printf("NOTE unconfirmed, not reported: property=%s case=%s %s\n", id, trunc(string(v.Case), 300), firstLine(v.Detail))
				continue
			}
			nviol++
			vioFile = file
			fmt.Printf("property %s violated (%s)\ncase: %s\n%s\n", id, how, trunc(string(v.Case), 1500), v.Detail)
			break
		}
		if nviol > 0 {
			code = 1
		}
	}

	// Evidence.
	sort.Slice(col.states, func(i, j int) bool { return col.states[i] < col.states[j] })
	nst := 0
	for i, s := range col.states {
		if i == 0 || s != col.states[i-1] {
			nst++
		}
	}
	exhaustive := !col.expired && col.jobsDone == len(jobs) && len(col.sum.Capped) == 0 && len(col.viol) == 0
	cov := map[string]any{
		"states": nst, "transitions": col.sum.Transitions, "traces_validated_against_impl": col.sum.Traces,
		"samples": col.sum.Samples, "exhaustive": exhaustive, "jobs": len(jobs), "jobs_done": col.jobsDone,
		"distinct_outcomes": len(col.sum.Outcomes), "outcomes": topOutcomes(col.sum.Outcomes, 24),
		"rule": p.Rule,
	}
	if p.Level == "exploration" || p.Level == "fault_enumeration" {
		cov["evaluations"] = col.sum.Traces
		cov["distinct_nontrivial"] = col.sum.Nontrivial
		delete(cov, "traces_validated_against_impl")
	} else {
		cov["nontrivial_traces"] = col.sum.Nontrivial
	}
	if col.sum.StatesFull {
		cov["states_note"] = "state set capped in at least one worker; states is a lower bound"
	}
	if len(col.sum.Notes) > 0 {
		cov["notes"] = col.sum.Notes
	}
	if len(col.sum.Capped) > 0 {
		sort.Strings(col.sum.Capped)
		cov["capped"] = col.sum.Capped
	}
	if len(col.sum.Known) > 0 {
		cov["known_findings_seen"] = col.sum.Known
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seedEnv(), "level": p.Level, "coverage": cov,
		"assumptions": p.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": nviol,
	}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(verifDir()+"/evidence", 0777)
	if err := os.WriteFile(verifDir()+"/evidence/"+id+".json", append(b, '\n'), 0666); err != nil {
		fmt.Fprintln(os.Stderr, "mc: evidence:", err)
		return 3
	}
	known := loadKnown(id)
	for _, k := range sortedKeys(known) {
		if col.sum.Known[k] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", id, known[k], k)
		}
	}
	fmt.Printf("%s tier=%s jobs=%d/%d states=%d transitions=%d traces=%d nontrivial=%d outcomes=%d exhaustive=%v wall=%.1fs\n", id, tier, col.jobsDone, len(jobs), nst, col.sum.Transitions, col.sum.Traces, col.sum.Nontrivial, len(col.sum.Outcomes), exhaustive, time.Since(start).Seconds())
	if nviol > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, vioFile)
		return 1
	}
	if len(col.internal) > 0 {
		fmt.Fprintln(os.Stderr, "mc: internal error:", strings.Join(col.internal, "; "))
		return 3
	}
	return code
}

func firstLine(s string) string {
	s, _, _ = strings.Cut(s, "\n")
	return trunc(s, 300)
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func topOutcomes(m map[string]uint64, n int) map[string]uint64 {
	ks := sortedKeys(m)
	sort.SliceStable(ks, func(i, j int) bool { return m[ks[i]] > m[ks[j]] })
	if len(ks) > n {
		ks = ks[:n]
	}
	out := map[string]uint64{}
	for _, k := range ks {
		out[k] = m[k]
	}
	return out
}

func saveViolation(v *Violation) string {
	dir := verifDir() + "/evidence/replays"
	os.MkdirAll(dir, 0777)
	file := fmt.Sprintf("%s/%s-%016x.json", dir, v.Property, h64(string(v.Case)+v.Job+v.Kind))
	v.How = "bash /verif/check.sh --replay " + file
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(file, append(b, '\n'), 0666)
	return file
}

// confirm re-executes the violation in fresh processes.
func confirm(v *Violation, file, id, base string, deadline time.Time, noProgress time.Duration) string {
	fails, runs := 0, 0
	lim := 5
	for runs < lim {
		runs++
		c := exec.Command(os.Args[0], "replay", file)
		c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		hung, err := runTimeout(c, noProgress)
		if hung {
			fails++
			lim = runs // one confirmed hang is enough
			continue
		}
		if err != nil {
			if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 4 {
				break // case alone cannot be replayed
			}
			fails++
		}
	}
	if fails > 0 {
		return fmt.Sprintf("reproduced in %d of %d fresh processes", fails, runs)
	}
	// Perhaps it needs what ran before it in the same job.
	v.Kind = "job"
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(file, append(b, '\n'), 0666)
	fails, runs = 0, 0
	for runs < 2 && time.Now().Before(deadline.Add(60*time.Second)) {
		runs++
		c := exec.Command(os.Args[0], "replay", file)
		c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		hung, err := runTimeout(c, 4*noProgress)
		if hung || err != nil {
			fails++
			break
		}
	}
	if fails > 0 {
		return fmt.Sprintf("reproduced by re-running its job in a fresh process (needs the preceding cases), %d of %d", fails, runs)
	}
	return ""
}

func runTimeout(c *exec.Cmd, d time.Duration) (hung bool, err error) {
	if err := c.Start(); err != nil {
		return false, err
	}
	ch := make(chan error, 1)
	go func() { ch <- c.Wait() }()
	select {
	case err = <-ch:
		return false, err
	case <-time.After(d):
		syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
		c.Process.Kill()
		<-ch
		return true, fmt.Errorf("timeout")
	}
}

// run drives one worker until there are no more jobs or it dies.
func (w *workerProc) run(j int, jobs []Job, take func() int, halt func(), col *collector, id, tier string) {
	fail := func(detail string) {
		var c json.RawMessage
		if w.progress != nil {
			n := getU64(w.progress[8:])
			if int(n) <= len(w.progress)-16 {
				c = append(c, w.progress[16:16+n]...)
			}
		}
		if !json.Valid(c) {
			c, _ = json.Marshal(string(c))
		}
		v := &Violation{Property: id, Tier: tier, Kind: "case", Job: jobs[j].Name, Case: c, Detail: detail}
		col.mu.Lock()
		col.viol = append(col.viol, v)
		col.mu.Unlock()
		halt()
	}
	for {
		if _, err := fmt.Fprintf(w.in, "%d\n", j); err != nil {
			err := w.cmd.Wait()
			fail(fmt.Sprintf("process running the code under test died: %v", err))
			return
		}
		line, err := w.out.ReadBytes('\n')
		if err != nil {
			err := w.cmd.Wait()
			if w.killed {
				fail("no progress: the code under test hangs on this case")
			} else {
				fail(fmt.Sprintf("process running the code under test died: %v", err))
			}
			return
		}
		var res jobResult
		if err := json.Unmarshal(line, &res); err != nil {
			w.kill()
			col.mu.Lock()
			col.internal = append(col.internal, "bad worker reply: "+trunc(string(line), 200))
			col.mu.Unlock()
			halt()
			return
		}
		if os.Getenv("MC_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "job %d %s %.1fs\n", j, jobs[j].Name, res.Wall)
		}
		col.mu.Lock()
		if res.Violation != nil {
			col.viol = append(col.viol, res.Violation)
		} else if res.Expired {
			col.expired = true
		} else {
			col.jobsDone++
		}
		if res.Internal != "" {
			col.internal = append(col.internal, res.Internal)
		}
		col.mu.Unlock()
		if res.Violation != nil {
			halt()
			j = -1
		} else {
			j = take()
		}
		if j < 0 {
			break
		}
	}
	fmt.Fprintf(w.in, "done\n")
	line, err := w.out.ReadBytes('\n')
	var s workerSummary
	if err == nil && json.Unmarshal(line, &s) == nil {
		col.add(&s)
	} else {
		col.mu.Lock()
		col.internal = append(col.internal, "worker summary missing")
		col.mu.Unlock()
	}
	w.in.Close()
	w.cmd.Wait()
}

func worker() {
	id, scratch := os.Args[2], os.Args[3]
	dl, _ := strconv.ParseInt(os.Args[4], 10, 64)
	p := props[id]
	tier := tierEnv()
	out := os.Stdout
	// Keep stray prints by the code under test away from the protocol.
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		nfd, err := syscall.Dup(1)
		if err == nil {
			syscall.CloseOnExec(nfd)
			out = os.NewFile(uintptr(nfd), "proto")
			syscall.Dup3(int(null.Fd()), 1, 0)
		}
	}
	os.Setenv("TMPDIR", filepath.Join(scratch, "tmp"))
	os.MkdirAll(filepath.Join(scratch, "tmp"), 0700)
	initInProcess()
	r := newRun(id, tier, scratch, time.Unix(dl, 0))
	r.progress = mapShared(filepath.Join(scratch, ".progress"), false)
	jobs := p.Jobs(tier)
	in := bufio.NewScanner(os.Stdin)
	enc := json.NewEncoder(out)
	for in.Scan() {
		t := in.Text()
		if t == "done" {
			break
		}
		j, _ := strconv.Atoi(t)
		r.Tick()
		res := runJob(r, jobs, j)
		r.Tick()
		enc.Encode(&res)
	}
	s := workerSummary{Transitions: r.Transitions, Traces: r.Traces, Nontrivial: r.Nontrivial, Outcomes: r.Outcomes,
		Samples: r.Samples, Known: r.Known, Notes: r.Notes, Capped: r.Capped, StatesFull: r.statesFull}
	if len(s.Outcomes) > 2000 {
		s.Outcomes = topOutcomes(s.Outcomes, 2000)
	}
	b := make([]byte, 0, 8*len(r.states))
	for h := range r.states {
		b = binary.LittleEndian.AppendUint64(b, h)
	}
	s.StateFile = filepath.Join(filepath.Dir(scratch), fmt.Sprintf("states-%d", os.Getpid()))
	os.WriteFile(s.StateFile, b, 0600)
	enc.Encode(&s)
}

func replayMain(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	p := props[v.Property]
	base := scratchBase()
	defer os.RemoveAll(base)
	os.Setenv("TMPDIR", filepath.Join(base, "tmp"))
	os.MkdirAll(filepath.Join(base, "tmp"), 0700)
	if v.Tier != "" {
		os.Setenv("VERIF_TIER", v.Tier)
	}
	initInProcess()
	r := newRun(v.Property, v.Tier, base, time.Time{})
	r.inReplay = true
	var jobs []Job
	if v.Kind == "job" {
		for _, j := range p.Jobs(tierEnv()) {
			if j.Name == v.Job {
				jobs = []Job{j}
			}
		}
	} else {
		if p.Replay == nil {
			return 4
		}
		jobs = []Job{{v.Job, func(r *Run) { p.Replay(r, v.Case) }}}
	}
	if len(jobs) == 0 {
		return 4
	}
	if f := os.Getenv("MC_PROF"); f != "" {
		pf, _ := os.Create(f)
		pprof.StartCPUProfile(pf)
		defer pprof.StopCPUProfile()
		go func() { time.Sleep(20 * time.Second); pprof.StopCPUProfile() }()
	}
	res := runJob(r, jobs, 0)
	if res.Violation != nil {
		fmt.Printf("REPRODUCED property=%s\n%s\n", v.Property, res.Violation.Detail)
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}
