package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"log"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"
)

// A Job is an independent, deterministic part of a property's exploration.
type Job struct {
	Name string
	F    func(r *Run)
}

// A Prop is one property's explorer.
type Prop struct {
	ID          string
	Level       string // evidence level
	Rule        string // how cases are made and what makes one non-trivial
	Assumptions []string
	Jobs        func(tier string) []Job
	// Replay re-executes one recorded case; it calls r.Fail if the case violates the property.
	Replay func(r *Run, c json.RawMessage)
	// Workers limits the number of worker processes (0: number of CPUs).
	Workers int
	// NoProgress is how long one case may take before it counts as a hang.
	NoProgress time.Duration
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Run carries counters and the current case of one worker.
type Run struct {
	ID       string
	Tier     string
	Scratch  string // private scratch directory
	progress []byte // shared page: counter, length, current case
	nprog    uint64

	Transitions uint64 // implementation steps compared with the model
	Traces      uint64 // complete cases executed against the implementation
	Nontrivial  uint64
	states      map[uint64]struct{}
	statesFull  bool
	Outcomes    map[string]uint64
	Samples     []string
	Known       map[string]uint64 // known finding key -> times seen
	Notes       map[string]uint64
	Capped      []string
	deadline    time.Time
	inReplay    bool
	known       map[string]string
}

const maxStates = 3 << 20

func h64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// State records a visited model state (or distinct model configuration).
func (r *Run) State(h uint64) {
	if len(r.states) >= maxStates {
		r.statesFull = true
		return
	}
	r.states[h] = struct{}{}
}

func (r *Run) Step(n int) { r.Transitions += uint64(n) }

// Trace records a complete case; nontrivial as the property's rule defines it.
func (r *Run) Trace(nontrivial bool) {
	r.Traces++
	if nontrivial {
		r.Nontrivial++
	}
}

func (r *Run) Outcome(s string) { r.Outcomes[s]++ }

func (r *Run) Sample(format string, args ...any) {
	if len(r.Samples) < 3 {
		r.Samples = append(r.Samples, fmt.Sprintf(format, args...))
	}
}

func (r *Run) Note(s string) { r.Notes[s]++ }

func (r *Run) Expired() bool {
	if r.inReplay {
		return false
	}
	return !r.deadline.IsZero() && time.Now().After(r.deadline)
}

// Tick tells the parent that the worker is alive without naming a case.
func (r *Run) Tick() {
	r.nprog++
	if r.progress != nil {
		putU64(r.progress, r.nprog)
	}
}

// At records the case about to be executed, so that it can be named if the process dies or hangs.
func (r *Run) At(c any) {
	if r.progress == nil {
		return
	}
	var b []byte
	if s, ok := c.(string); ok {
		b = []byte(s)
	} else {
		b, _ = json.Marshal(c)
	}
	r.nprog++
	n := copy(r.progress[16:], b)
	putU64(r.progress[8:], uint64(n))
	putU64(r.progress, r.nprog)
}

func putU64(b []byte, v uint64) {
	for i := 0; i < 8; i++ {
		b[i] = byte(v >> (8 * i))
	}
}
func getU64(b []byte) (v uint64) {
	for i := 0; i < 8; i++ {
		v |= uint64(b[i]) << (8 * i)
	}
	return
}

// Violation is what a failed case panics with.
type Violation struct {
	Property string          `json:"property"`
	Tier     string          `json:"tier"`
	Kind     string          `json:"kind"` // case, job
	Job      string          `json:"job,omitempty"`
	Case     json.RawMessage `json:"case,omitempty"`
	Detail   string          `json:"detail"`
	How      string          `json:"how_to_replay"`
}

// harnessErr is an error of the checker itself, not of the code under test.
type harnessErr string

// Fail reports that the case violates the property. It does not return.
func (r *Run) Fail(c any, format string, args ...any) {
	b, err := json.Marshal(c)
	if err != nil {
		b, _ = json.Marshal(fmt.Sprintf("%+v", c))
	}
	d := fmt.Sprintf(format, args...)
	if len(d) > 4000 {
		d = d[:4000] + "..."
	}
	panic(&Violation{Property: r.ID, Tier: r.Tier, Kind: "case", Case: b, Detail: d})
}

// KnownFinding records that a listed finding was observed. It reports whether key is listed;
// if it is not, the caller must Fail.
func (r *Run) KnownFinding(key string) bool {
	if _, ok := r.known[key]; ok {
		r.Known[key]++
		return true
	}
	return false
}

// fatalError is what log.Fatal in the code under test becomes.
type fatalError struct{ msg string }

func (e *fatalError) Error() string { return "log.Fatal: " + e.msg }

type logTrap struct{ sink *strings.Builder }

func (l *logTrap) Write(p []byte) (int, error) {
	var pcs [32]uintptr
	n := runtime.Callers(2, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if strings.HasPrefix(f.Function, "log.Fatal") || strings.HasPrefix(f.Function, "log.(*Logger).Fatal") {
			panic(&fatalError{strings.TrimSpace(string(p))})
		}
		if !more {
			break
		}
	}
	if l.sink != nil {
		l.sink.Write(p)
	}
	return len(p), nil
}

var theLog = &logTrap{}

func initInProcess() {
	log.SetFlags(0)
	log.SetOutput(theLog)
	var rl syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_NOFILE, &rl) == nil {
		rl.Cur = rl.Max
		syscall.Setrlimit(syscall.RLIMIT_NOFILE, &rl)
	}
	debug.SetPanicOnFault(true)
}

// try runs f and returns the panic it ended with, if any, as text ("" if none).
// A *Violation panic passes through.
func try(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			if v, ok := e.(*Violation); ok {
				panic(v)
			}
			if h, ok := e.(harnessErr); ok {
				panic(h)
			}
			if fe, ok := e.(*fatalError); ok {
				msg = fe.Error()
				return
			}
			msg = fmt.Sprintf("panic: %v", e)
			if msg == "panic: " {
				msg = "panic: (empty)"
			}
		}
	}()
	f()
	return ""
}

// must runs f for case c; any panic in it is a violation.
func (r *Run) must(c any, what string, f func()) {
	var stack string
	msg := func() (msg string) {
		defer func() {
			if e := recover(); e != nil {
				if v, ok := e.(*Violation); ok {
					panic(v)
				}
				if h, ok := e.(harnessErr); ok {
					panic(h)
				}
				stack = string(debug.Stack())
				if fe, ok := e.(*fatalError); ok {
					msg = fe.Error()
				} else {
					msg = fmt.Sprintf("panic: %v", e)
				}
			}
		}()
		f()
		return ""
	}()
	if msg != "" {
		if len(stack) > 1800 {
			stack = stack[:1800]
		}
		r.Fail(c, "%s: %s\n%s", what, msg, stack)
	}
}

// jobResult is what a worker reports for one job.
type jobResult struct {
	Job       int
	Violation *Violation
	Internal  string // harness error
	Expired   bool
	Wall      float64
}

// workerSummary is what a worker reports at its end.
type workerSummary struct {
	Transitions, Traces, Nontrivial uint64
	Outcomes                        map[string]uint64
	Samples                         []string
	Known                           map[string]uint64
	Notes                           map[string]uint64
	Capped                          []string
	StatesFull                      bool
	StateFile                       string
}

func newRun(id, tier, scratch string, deadline time.Time) *Run {
	return &Run{ID: id, Tier: tier, Scratch: scratch, states: map[uint64]struct{}{}, Outcomes: map[string]uint64{},
		Known: map[string]uint64{}, Notes: map[string]uint64{}, deadline: deadline, known: loadKnown(id)}
}

// runJob runs job j, turning a violation panic into a result.
func runJob(r *Run, jobs []Job, j int) (res jobResult) {
	res.Job = j
	start := time.Now()
	defer func() {
		res.Wall = time.Since(start).Seconds()
		if e := recover(); e != nil {
			if v, ok := e.(*Violation); ok {
				v.Job = jobs[j].Name
				res.Violation = v
				return
			}
			if h, ok := e.(harnessErr); ok {
				res.Internal = string(h)
				return
			}
			// A panic outside a guarded call: attribute it to the current case.
			st := string(debug.Stack())
			if len(st) > 2500 {
				st = st[:2500]
			}
			msg := fmt.Sprintf("panic: %v", e)
			if fe, ok := e.(*fatalError); ok {
				msg = fe.Error()
			}
			var c json.RawMessage
			if r.progress != nil {
				n := getU64(r.progress[8:])
				if int(n) <= len(r.progress)-16 {
					c = append(c, r.progress[16:16+n]...)
				}
			}
			if !json.Valid(c) {
				c, _ = json.Marshal(string(c))
			}
			res.Violation = &Violation{Property: r.ID, Tier: r.Tier, Kind: "case", Job: jobs[j].Name, Case: c, Detail: msg + "\n" + st}
		}
	}()
	jobs[j].F(r)
	res.Expired = r.Expired()
	return
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

type knownEntry struct {
	Status   string `json:"status"` // known or fixed
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func loadKnown(id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(verifDir() + "/known_findings.jsonl")
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		var e knownEntry
		if json.Unmarshal([]byte(l), &e) == nil && e.Status == "known" && e.Property == id {
			m[e.Key] = e.What
		}
	}
	return m
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}
