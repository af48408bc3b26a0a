package mcsched

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"regexp"
	"runtime"
	"sync"
	"time"
)

// A Config is what one process explores.
type Config struct {
	Ops     []int    // which operations run together
	Targets []string // csweb: the requests that are the operations
	Files   []string // operations: expressions, texts
	Index   string
	Dir     string
	Bound   int // number of switches
	Shard   int
	Shards  int
	Occ     int      // switch only at the first Occ occurrences and the last one of each statement in a thread (0: all)
	One     []Switch // replay only this schedule
	First   int
	Replay  bool
	Mode    string // explore, parallel, count
	Until   int64  // unix time at which to stop
	Tick    string // file whose first 8 bytes are counted up
	Rounds  int    // parallel mode
}

// A Result is what the process reports.
type Result struct {
	Schedules int
	Steps     int
	Yields    []int
	Places    []int // switch points used per operation
	Blocked   int
	Expired   bool
	Bad       string // what went wrong
	First     int
	Switches  []Switch
	Error     string
}

func finish(r *Result) {
	r.Blocked = Blocked
	json.NewEncoder(os.Stdout).Encode(r)
	os.Exit(0)
}

// places selects the positions at which a thread is stopped.
func places(points []uint32, occ int) (at []int) {
	seen := map[uint32]int{}
	last := map[uint32]int{}
	for i, p := range points {
		last[p] = i
	}
	for i, p := range points {
		seen[p]++
		if occ == 0 || seen[p] <= occ || last[p] == i {
			at = append(at, i+1)
		}
	}
	return
}

// Explore runs all schedules of the configuration over the operations. mk makes fresh operations for one schedule.
func Explore(c *Config, mk func() []func() string) {
	res := &Result{}
	Save()
	n := len(mk())
	// What each gives alone.
	want := make([]string, n)
	yields := make([]int, n)
	var at [][]int
	for i := range want {
		Reset()
		record = true
		o, y, err := Run(mk()[i:i+1], 0, nil)
		record = false
		if err != nil {
			res.Error = err.Error()
			finish(res)
		}
		want[i], yields[i] = o[0], y[0]
		at = append(at, places(points[0], c.Occ))
		res.Places = append(res.Places, len(at[i]))
	}
	res.Yields = yields
	if c.Mode == "count" {
		finish(res)
	}
	if c.Mode == "parallel" {
		for k := 0; k < max(c.Rounds, 1); k++ {
			if k == c.Rounds/2 {
				runtime.GOMAXPROCS(1)
			}
			Reset()
			fs := mk()
			outs := make([]string, n)
			var wg sync.WaitGroup
			gate := make(chan struct{})
			for i := range fs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-gate
					outs[i] = fs[i]()
				}()
			}
			close(gate)
			wg.Wait()
			res.Schedules++
			for i := range outs {
				if outs[i] != want[i] {
					res.Bad = fmt.Sprintf("operation %d gives %q beside the others, %q alone", c.Ops[i], outs[i], want[i])
					finish(res)
				}
			}
		}
		finish(res)
	}
	// One processor, so that what sync.Pool hands out does not depend on where a thread happens to run.
	runtime.GOMAXPROCS(1)
	k := 0
	one := func(first int, sw []Switch) []int {
		Reset()
		outs, y, err := Run(mk(), first, append([]Switch{}, sw...))
		res.Schedules++
		if res.Schedules%2000 == 0 {
			Unmap(c.Dir)
		}
		if res.Schedules%64 == 0 && c.Until > 0 && time.Now().Unix() > c.Until {
			res.Expired = true
			finish(res)
		}
		if err == nil {
			for i := range outs {
				res.Steps += y[i]
				if outs[i] != want[i] {
					err = fmt.Errorf("operation %d gives %q, alone it gives %q", i, outs[i], want[i])
					break
				}
			}
		}
		if err != nil {
			res.Bad, res.First, res.Switches = err.Error(), first, sw
			finish(res)
		}
		return y
	}
	if c.Replay {
		one(c.First, c.One)
		finish(res)
	}
	for first := 0; first < n; first++ {
		for _, i := range at[first] {
			k++
			if k%c.Shards != c.Shard {
				continue
			}
			for to := 0; to < n; to++ {
				if to == first {
					continue
				}
				one(first, []Switch{{i, to}})
				if c.Bound < 2 {
					continue
				}
				for _, j := range at[to] {
					for to2 := 0; to2 < n; to2++ {
						if to2 != to {
							one(first, []Switch{{i, to}, {j, to2}})
						}
					}
				}
			}
		}
	}
	finish(res)
}

var secs = regexp.MustCompile(`in [0-9.]+s`)

// A slow response takes what is written in two halves, and another thread may run before either.
type slow struct{ *httptest.ResponseRecorder }

func (s slow) Write(b []byte) (int, error) {
	Y(1<<30 + 2)
	n, err := s.ResponseRecorder.Write(b[:len(b)/2])
	if err != nil || len(b) == 0 {
		return n, err
	}
	Y(1<<30 + 3)
	m, err := s.ResponseRecorder.Write(b[len(b)/2:])
	return n + m, err
}

func (s slow) WriteString(t string) (int, error) { return s.Write([]byte(t)) }

// Serve stands in for http.ListenAndServe in csweb: it runs the configured requests as threads.
func Serve(addr string, h http.Handler) error {
	if os.Getenv("MC_SCHED") == "" {
		return http.ListenAndServe(addr, h)
	}
	var c Config
	if err := json.Unmarshal([]byte(os.Getenv("MC_SCHED")), &c); err != nil {
		panic(err)
	}
	if h == nil {
		h = http.DefaultServeMux
	}
	Explore(&c, func() (fs []func() string) {
		for _, i := range c.Ops {
			t := c.Targets[i]
			fs = append(fs, func() string {
				rec := httptest.NewRecorder()
				h.ServeHTTP(slow{rec}, httptest.NewRequest("GET", t, nil))
				return fmt.Sprintf("%d %v %s", rec.Code, rec.Header(), secs.ReplaceAllString(rec.Body.String(), "in T"))
			})
		}
		return
	})
	return nil
}
