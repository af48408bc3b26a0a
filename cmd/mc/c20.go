package main

import (
	"encoding/json"
	"fmt"

	"github.com/google/codesearch/sparse"
)

// C20: every operation sequence on sparse.Set up to a depth, against a list-based set.

type c20op struct {
	Op  string
	Set int
	X   uint32
}

type c20case struct {
	Max []uint32 // initial sizes; one set each
	Ops []c20op
}

type c20model struct {
	order []uint32
	max   uint32
}

func (m *c20model) has(x uint32) bool {
	for _, y := range m.order {
		if x == y {
			return true
		}
	}
	return false
}

func c20apply(s *sparse.Set, m *c20model, o c20op) {
	switch o.Op {
	case "add":
		s.Add(o.X)
		if !m.has(o.X) {
			m.order = append(m.order, o.X)
		}
	case "reset":
		s.Reset()
		m.order = nil
	case "init":
		s.Init(o.X)
		m.order = nil
		m.max = o.X
	}
}

func c20check(s *sparse.Set, m *c20model, probe []uint32) string {
	if s.Len() != len(m.order) {
		return fmt.Sprintf("Len()=%d, want %d", s.Len(), len(m.order))
	}
	d := s.Dense()
	if len(d) != len(m.order) {
		return fmt.Sprintf("Dense()=%v, want %v", d, m.order)
	}
	for i := range d {
		if d[i] != m.order[i] {
			return fmt.Sprintf("Dense()=%v, want %v", d, m.order)
		}
	}
	for _, x := range probe {
		if x < m.max && s.Has(x) != m.has(x) {
			return fmt.Sprintf("Has(%d)=%v, want %v", x, s.Has(x), m.has(x))
		}
	}
	return ""
}

// c20run executes a case from scratch; the answers are compared after every operation.
func c20run(r *Run, c c20case, onlyLast bool, probe []uint32) {
	var ss []*sparse.Set
	var ms []*c20model
	r.must(c, "sparse set", func() {
		for _, m := range c.Max {
			ss = append(ss, sparse.NewSet(m))
			ms = append(ms, &c20model{max: m})
		}
		for i, o := range c.Ops {
			c20apply(ss[o.Set], ms[o.Set], o)
			r.Step(1)
			if onlyLast && i < len(c.Ops)-1 {
				continue
			}
			for k := range ss {
				if e := c20check(ss[k], ms[k], probe); e != "" {
					r.Fail(c, "set %d after %d operations: %s", k, i+1, e)
				}
			}
		}
	})
	key := ""
	for _, m := range ms {
		key += fmt.Sprint(m.order, m.max, ";")
	}
	r.State(h64(key))
	n := 0
	for _, m := range ms {
		n += len(m.order)
	}
	r.Outcome(fmt.Sprintf("members=%d", n))
	r.Trace(len(c.Ops) > 2)
}

func init() {
	probe := []uint32{0, 1, 2, 3, 4, 254, 255, 256, 257, 65534, 65535, 65536, 65537, 1<<24 - 2, 1<<24 - 1}
	dfs := func(r *Run, max []uint32, ops []c20op, depth, shard, k int) {
		var rec func(seq []c20op)
		rec = func(seq []c20op) {
			if len(seq) > 0 {
				c := c20case{max, append([]c20op{}, seq...)}
				if len(seq) <= 2 {
					r.At(c)
				} else if r.nprog++; r.nprog%512 == 0 {
					r.At(c)
				}
				c20run(r, c, true, probe)
				if r.Traces%50000 == 7 {
					r.Sample("%+v", c)
				}
			}
			if len(seq) == depth || r.Expired() {
				return
			}
			for i, o := range ops {
				if len(seq) == 1 && i%k != shard%k {
					continue
				}
				rec(append(seq, o))
			}
		}
		rec(nil)
	}
	register(&Prop{
		ID:    "C20",
		Level: "model_checking",
		Rule:  "every sequence of Add/Reset/Init operations up to the depth, each executed from a fresh set; after it Len, Dense and Has of every probe value are compared with a list-based set; a trace is non-trivial when it has more than two operations",
		Assumptions: []string{"members are within the size given to NewSet or Init (the documented domain)",
			"values stand for their classes: small, around 2^8, 2^16 and 2^24"},
		Jobs: func(tier string) []Job {
			d1, d2, d3 := 7, 5, 5
			if tier == "thorough" {
				d1, d2, d3 = 9, 7, 7
			}
			var jobs []Job
			small := []c20op{{"add", 0, 0}, {"add", 0, 1}, {"add", 0, 2}, {"reset", 0, 0}, {"init", 0, 3}, {"init", 0, 4}}
			jobs = append(jobs, shardJobs("small-universe", len(small), func(r *Run, s, k int) { dfs(r, []uint32{3}, small, d1, s, k) })...)
			two := []c20op{{"add", 0, 0}, {"add", 0, 1}, {"add", 1, 0}, {"add", 1, 1}, {"reset", 0, 0}, {"reset", 1, 0}, {"init", 1, 2}}
			jobs = append(jobs, shardJobs("two-sets", len(two), func(r *Run, s, k int) { dfs(r, []uint32{2, 2}, two, d2+1, s, k) })...)
			big := []c20op{{"add", 0, 0}, {"add", 0, 255}, {"add", 0, 256}, {"add", 0, 65535}, {"add", 0, 65536}, {"add", 0, 65537}, {"reset", 0, 0}}
			jobs = append(jobs, shardJobs("wide-universe", len(big), func(r *Run, s, k int) { dfs(r, []uint32{65538}, big, d3-1, s, k) })...)
			jobs = append(jobs, Job{"whole-trigram-universe", func(r *Run) {
				// The size the indexer uses; fill orders around the 2^16 and 2^24 boundaries.
				for _, n := range []int{0, 1, 2, 255, 256, 257, 65535, 65536, 65537, 70000} {
					for _, dir := range []string{"up", "down", "stride"} {
						r.At(fmt.Sprintf("fill %d %s", n, dir))
						c20fill(r, n, dir)
					}
				}
			}})
			return jobs
		},
		Replay: func(r *Run, raw json.RawMessage) {
			var f struct {
				N   int
				Dir string
			}
			if json.Unmarshal(raw, &f) == nil && f.Dir != "" {
				c20fill(r, f.N, f.Dir)
				return
			}
			c20run(r, caseOf[c20case](raw), false, probe)
		},
	})
}

// c20fill adds n values in the given order to a set of size 2^24, twice around a reset.
func c20fill(r *Run, n int, dir string) {
	c := map[string]any{"N": n, "Dir": dir}
	val := func(i int) uint32 {
		switch dir {
		case "up":
			return uint32(i)
		case "down":
			return uint32(1<<24 - 1 - i)
		}
		return uint32(i) * 40503 % (1 << 24)
	}
	r.must(c, "sparse set", func() {
		s := sparse.NewSet(1 << 24)
		for round := 0; round < 3; round++ {
			in := make(map[uint32]bool)
			var order []uint32
			for i := round; i < n; i++ {
				x := val(i)
				if s.Has(x) != in[x] {
					r.Fail(c, "round %d: Has(%d)=%v before add %d", round, x, s.Has(x), i)
				}
				s.Add(x)
				s.Add(x)
				if !in[x] {
					in[x] = true
					order = append(order, x)
				}
				if !s.Has(x) {
					r.Fail(c, "round %d: Has(%d)=false after Add", round, x)
				}
				r.Step(2)
			}
			d := s.Dense()
			if len(d) != len(order) || s.Len() != len(order) {
				r.Fail(c, "round %d: Len=%d len(Dense)=%d want %d", round, s.Len(), len(d), len(order))
			}
			for i := range d {
				if d[i] != order[i] {
					r.Fail(c, "round %d: Dense()[%d]=%d want %d", round, i, d[i], order[i])
				}
			}
			for x := uint32(0); x < 1<<24; x += 251 {
				if s.Has(x) != in[x] {
					r.Fail(c, "round %d: Has(%d)=%v want %v", round, x, s.Has(x), in[x])
				}
			}
			s.Reset()
			if s.Len() != 0 || len(s.Dense()) != 0 {
				r.Fail(c, "round %d: not empty after Reset", round)
			}
		}
		r.State(h64(fmt.Sprint(n, dir)))
		r.Trace(n > 2)
	})
}
