package main

import (
	"encoding/json"
	"fmt"
	mathbits "math/bits"
	"path/filepath"
	"strings"

	"github.com/google/codesearch/index"
)

// C09: every query tree to a depth over an index that has a trigram for every subset of its files.

// c09q is a query: a leaf trigram number, or an operator over trigrams and sub-queries.
type c09q struct {
	Op  string  // all, none, and, or
	Tri []int   `json:",omitempty"`
	Sub []*c09q `json:",omitempty"`

	real *index.Query
	mask uint32
}

type c09case struct {
	Files int
	Long  []int `json:",omitempty"` // shape, and the numbers of three long sets
	Q     *c09q
	Prev  *c09q `json:",omitempty"`
	Broad []int `json:",omitempty"` // operator, operands, first operand, step, form
}

type c09ix struct {
	n    int
	full uint32
	tris []string
	ix   *index.Index
	done func()
}

func c09open(r *Run, n int) *c09ix {
	name := filepath.Join(r.Scratch, fmt.Sprintf("ix%d", n))
	x := &c09ix{n: n, full: 1<<n - 1, tris: subsetTrigrams(1 << n)}
	r.must("build", "building the index", func() {
		buildIndex(name, nil, genSubsets(n), buildOpt{})
		x.ix, x.done = openIndex(name)
	})
	return x
}

func (x *c09ix) mk(q *c09q) {
	q.real = &index.Query{}
	switch q.Op {
	case "all":
		q.real.Op, q.mask = index.QAll, x.full
	case "none":
		q.real.Op, q.mask = index.QNone, 0
	case "and":
		q.real.Op, q.mask = index.QAnd, x.full
	case "or":
		q.real.Op, q.mask = index.QOr, 0
	}
	for _, t := range q.Tri {
		q.real.Trigram = append(q.real.Trigram, x.tris[t])
		if q.Op == "and" {
			q.mask &= uint32(t)
		} else {
			q.mask |= uint32(t)
		}
	}
	for _, s := range q.Sub {
		if s.real == nil {
			x.mk(s)
		}
		q.real.Sub = append(q.real.Sub, s.real)
		if q.Op == "and" {
			q.mask &= s.mask
		} else {
			q.mask |= s.mask
		}
	}
}

func (q *c09q) String() string {
	if q.Op == "all" || q.Op == "none" {
		return q.Op
	}
	var p []string
	for _, t := range q.Tri {
		p = append(p, fmt.Sprintf("%b", t))
	}
	for _, s := range q.Sub {
		p = append(p, s.String())
	}
	return q.Op + "(" + strings.Join(p, " ") + ")"
}

func (x *c09ix) eval(r *Run, q *c09q, times int) {
	for i := 0; i < times; i++ {
		var got []int
		func() {
			defer func() {
				if e := recover(); e != nil {
					r.Fail(c09case{Files: x.n, Q: q}, "evaluating %v panics: %v", q, e)
				}
			}()
			got = x.ix.PostingQuery(q.real)
		}()
		r.Transitions++
		m := uint32(0)
		prev := -1
		ok := true
		for _, f := range got {
			if f <= prev || f >= x.n {
				ok = false
			} else {
				m |= 1 << f
			}
			prev = f
		}
		if !ok || m != q.mask {
			r.Fail(c09case{Files: x.n, Q: q}, "%v over %d files (evaluation %d): got files %v, want the set %b", q, x.n, i+1, got, q.mask)
		}
	}
}

// c09level makes every operator node with at most nt trigrams and ns sub-queries drawn from subs.
func (x *c09ix) level(nt, ns int, subs []*c09q, ordered bool, f func(q *c09q)) {
	var triLists [][]int
	var rec func(cur []int)
	rec = func(cur []int) {
		triLists = append(triLists, append([]int{}, cur...))
		if len(cur) == nt {
			return
		}
		for t := 0; t < 1<<x.n; t++ {
			if !ordered && len(cur) > 0 && t < cur[len(cur)-1] {
				continue
			}
			rec(append(cur, t))
		}
	}
	rec(nil)
	for _, op := range []string{"and", "or"} {
		for _, tl := range triLists {
			var rs func(cur []*c09q)
			rs = func(cur []*c09q) {
				if len(tl)+len(cur) > 0 {
					q := &c09q{Op: op, Tri: tl, Sub: append([]*c09q{}, cur...)}
					x.mk(q)
					f(q)
				}
				if len(cur) == ns {
					return
				}
				for _, s := range subs {
					rs(append(cur, s))
				}
			}
			rs(nil)
		}
	}
}

// c09long evaluates queries of several shapes over every triple of long sets.
func c09long(r *Run, c c09case, sh, k int) {
	n := c.Files
	sets := longSets(n)
	ts := subsetTrigrams(len(sets))
	name := filepath.Join(r.Scratch, "ixlong")
	r.At(c)
	r.must(c, "building the index", func() { buildIndex(name, nil, genLong(n), buildOpt{}) })
	ix, done := openIndex(name)
	defer done()
	type bits []uint64
	words := (n + 63) / 64
	member := make([]bits, len(sets))
	for i, s := range sets {
		member[i] = make(bits, words)
		for _, f := range s {
			member[i][f/64] |= 1 << (f % 64)
		}
	}
	leaf := func(op index.QueryOp, sub *index.Query, t ...int) *index.Query {
		q := &index.Query{Op: op}
		for _, i := range t {
			q.Trigram = append(q.Trigram, ts[i])
		}
		if sub != nil {
			q.Sub = append(q.Sub, sub)
		}
		return q
	}
	and, or := index.QAnd, index.QOr
	shapes := []struct {
		q func(a, b, c int) *index.Query
		f func(a, b, c uint64) uint64
	}{
		{func(a, b, c int) *index.Query { return leaf(and, leaf(or, nil, b, c), a) }, func(a, b, c uint64) uint64 { return a & (b | c) }},
		{func(a, b, c int) *index.Query { return leaf(or, leaf(and, nil, b, c), a) }, func(a, b, c uint64) uint64 { return a | b&c }},
		{func(a, b, c int) *index.Query { return leaf(and, nil, a, b, c) }, func(a, b, c uint64) uint64 { return a & b & c }},
		{func(a, b, c int) *index.Query { return leaf(or, nil, a, b, c) }, func(a, b, c uint64) uint64 { return a | b | c }},
		{func(a, b, c int) *index.Query {
			return &index.Query{Op: or, Sub: []*index.Query{leaf(and, nil, a, b), leaf(and, nil, b, c), leaf(and, nil, c)}}
		}, func(a, b, c uint64) uint64 { return a&b | b&c | c }},
		{func(a, b, c int) *index.Query {
			return &index.Query{Op: and, Sub: []*index.Query{leaf(or, nil, a, b), leaf(or, nil, b, c), leaf(or, leaf(and, nil, a), c)}}
		}, func(a, b, c uint64) uint64 { return (a | b) & (b | c) & (a | c) }},
		{func(a, b, c int) *index.Query { return leaf(and, leaf(or, leaf(and, leaf(or, nil, c), b), c), a) },
			func(a, b, c uint64) uint64 { return a & (c | b&c) }},
	}
	eval := func(sh, a, b, d int) {
		s := shapes[sh]
		cs := c09case{Files: n, Long: []int{sh, a, b, d}}
		var got []int
		func() {
			defer func() {
				if e := recover(); e != nil {
					r.Fail(cs, "shape %d over the sets %d, %d, %d panics: %v", sh, a, b, d, e)
				}
			}()
			got = ix.PostingQuery(s.q(a, b, d))
		}()
		r.Transitions++
		i := 0
		for w := 0; w < words; w++ {
			for m := s.f(member[a][w], member[b][w], member[d][w]); m != 0; m &= m - 1 {
				f := w*64 + mathbits.TrailingZeros64(m)
				if i >= len(got) || got[i] != f {
					r.Fail(cs, "shape %d over the sets %d, %d, %d: answer %d is not file %d in %s", sh, a, b, d, i, f, short(got))
				}
				i++
			}
		}
		if i != len(got) {
			r.Fail(cs, "shape %d over the sets %d, %d, %d: %d files, want %d", sh, a, b, d, len(got), i)
		}
	}
	if len(c.Long) == 4 {
		eval(c.Long[0], c.Long[1], c.Long[2], c.Long[3])
		return
	}
	cnt := 0
	for a := range sets {
		for b := range sets {
			cnt++
			if cnt%k != sh {
				continue
			}
			if r.Expired() {
				return
			}
			r.At(c09case{Files: n, Long: []int{0, a, b, 0}})
			// quick: every pair with five third sets; thorough: every triple
			for d := range sets {
				if r.Tier != "thorough" && d != a && d != b && (d+a+b)%29 != 0 {
					continue
				}
				for s := range shapes {
					eval(s, a, b, d)
				}
				r.Trace(true)
			}
			r.State(h64(fmt.Sprint("long", n, a, b)))
		}
	}
	r.Outcome(fmt.Sprintf("long lists of %d files", n))
}

// c09broad evaluates operators with many operands: trigrams, sub-queries, or both.
func c09broad(r *Run, c c09case, sh, k int) {
	n := c.Files
	sets := longSets(n)
	ts := subsetTrigrams(len(sets))
	name := filepath.Join(r.Scratch, "ixbroad")
	r.At(c)
	r.must(c, "building the index", func() { buildIndex(name, nil, genLong(n), buildOpt{}) })
	ix, done := openIndex(name)
	defer done()
	member := make([][]bool, len(sets))
	for i, s := range sets {
		member[i] = make([]bool, n)
		for _, f := range s {
			member[i][f] = true
		}
	}
	// Sets with the file f, so that conjunctions of many have an answer.
	with := func(f int) (l []int) {
		for i := range sets {
			if member[i][f] {
				l = append(l, i)
			}
		}
		return
	}
	eval := func(op, w, start, step, form int) {
		cs := c09case{Files: n, Broad: []int{op, w, start, step, form}}
		pool := make([]int, len(sets))
		for i := range pool {
			pool[i] = i
		}
		if op == 1 {
			pool = with(start * 31 % n)
		}
		q := &index.Query{Op: []index.QueryOp{index.QOr, index.QAnd}[op]}
		inner := []index.QueryOp{index.QAnd, index.QOr}[op]
		want := make([]bool, n)
		for f := range want {
			want[f] = op == 1
		}
		for i := 0; i < w; i++ {
			s := pool[(start+i*step)%len(pool)]
			m := func(f int) bool { return member[s][f] }
			switch {
			case form == 0 || form == 2 && i < w/2 || form == 3 && i%2 == 0:
				q.Trigram = append(q.Trigram, ts[s])
			case i%3 == 2: // a sub-query of two
				t := pool[(start+i*step+1)%len(pool)]
				q.Sub = append(q.Sub, &index.Query{Op: inner, Trigram: []string{ts[s], ts[t]}})
				m = func(f int) bool {
					if inner == index.QAnd {
						return member[s][f] && member[t][f]
					}
					return member[s][f] || member[t][f]
				}
			default:
				q.Sub = append(q.Sub, &index.Query{Op: inner, Trigram: []string{ts[s]}})
			}
			for f := range want {
				if op == 1 {
					want[f] = want[f] && m(f)
				} else {
					want[f] = want[f] || m(f)
				}
			}
		}
		var got []int
		func() {
			defer func() {
				if e := recover(); e != nil {
					r.Fail(cs, "an operator with %d operands over %d files panics: %v", w, n, e)
				}
			}()
			got = ix.PostingQuery(q)
		}()
		r.Transitions++
		i := 0
		for f, in := range want {
			if in {
				if i >= len(got) || got[i] != f {
					r.Fail(cs, "an operator with %d operands (%d sub-queries) over %d files: answer %d is not file %d in %s", w, len(q.Sub), n, i, f, short(got))
				}
				i++
			}
		}
		if i != len(got) {
			r.Fail(cs, "an operator with %d operands (%d sub-queries) over %d files: %d files, want %d", w, len(q.Sub), n, len(got), i)
		}
		r.Trace(i > 0 && i < n)
	}
	if c.Broad != nil {
		eval(c.Broad[0], c.Broad[1], c.Broad[2], c.Broad[3], c.Broad[4])
		return
	}
	widths := []int{63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1025}
	for w := 1; w <= 40; w++ {
		widths = append(widths, w)
	}
	cnt := 0
	for _, w := range widths {
		for start := range sets {
			cnt++
			if cnt%k != sh || w > 60 && start%7 != 0 && r.Tier != "thorough" {
				continue
			}
			if r.Expired() {
				return
			}
			r.At(c09case{Files: n, Broad: []int{0, w, start, 1, 0}})
			for op := 0; op < 2; op++ {
				for _, step := range []int{1, 7, 0} {
					for form := 0; form < 4; form++ {
						eval(op, w, start, step, form)
					}
				}
			}
			r.State(h64(fmt.Sprint("broad", n, w, start)))
		}
	}
	r.Outcome(fmt.Sprintf("broad operators over %d files", n))
}

func c09jobs(tier string) []Job {
	thorough := tier == "thorough"
	k := 32
	// deep explores all trees: leaves; depth-1 nodes with up to 2 trigrams; depth-2 nodes with up to t2
	// trigrams and s2 subs; depth-3 nodes over a depth-2 node and up to one depth-1 node, either order.
	deep := func(n, t1, t2, s2 int, depth3 int) func(r *Run, s, k int) {
		return func(r *Run, s, k int) {
			x := c09open(r, n)
			defer x.done()
			leaves := []*c09q{{Op: "all"}, {Op: "none"}}
			for _, l := range leaves {
				x.mk(l)
			}
			subs := append([]*c09q{}, leaves...)
			x.level(t1, 0, nil, true, func(q *c09q) { subs = append(subs, q) })
			cnt := 0
			for _, q := range subs {
				x.eval(r, q, 3)
			}
			var d3 []*c09q
			x.level(t2, s2, subs, true, func(q *c09q) {
				cnt++
				if depth3 > 0 && len(q.Sub) > 0 && cnt%depth3 == 0 {
					d3 = append(d3, q)
				}
				if cnt%k != s {
					return
				}
				if cnt%4096 < k {
					r.At(c09case{Files: n, Q: q})
				}
				x.eval(r, q, 2)
				r.Trace(q.mask != 0 && q.mask != x.full)
				r.State(h64(q.String()))
				if cnt%100003 == 7 {
					r.Sample("%d files: %v", n, q)
				}
			})
			if depth3 == 0 {
				r.Outcome(fmt.Sprintf("depth 2 over %d files", n))
				return
			}
			// depth 3
			for i, q2 := range d3 {
				if i%k != s {
					continue
				}
				if r.Expired() {
					return
				}
				r.At(c09case{Files: n, Q: q2})
				for _, op := range []string{"and", "or"} {
					for t := -1; t < 1<<n; t++ {
						var tl []int
						if t >= 0 {
							tl = []int{t}
						}
						do := func(sub ...*c09q) {
							q := &c09q{Op: op, Tri: tl, Sub: sub}
							x.mk(q)
							x.eval(r, q, 1)
						}
						do(q2)
						for j := (i + t + 1) % 3; j < len(subs); j += 3 {
							do(q2, subs[j])
							do(subs[j], q2)
						}
						r.Trace(true)
					}
				}
			}
			r.Outcome(fmt.Sprintf("depth 3 over %d files", n))
		}
	}
	var jobs []Job
	if thorough {
		jobs = append(jobs, shardJobs("deep 2 files", k, deep(2, 2, 2, 2, 1))...)
		jobs = append(jobs, shardJobs("3 files", k, deep(3, 2, 2, 2, 61))...)
		jobs = append(jobs, shardJobs("2 files, 3 subs", k, deep(2, 1, 1, 3, 0))...)
		jobs = append(jobs, shardJobs("4 files", k, deep(4, 2, 2, 1, 0))...)
	} else {
		jobs = append(jobs, shardJobs("deep 2 files", k, deep(2, 2, 2, 2, 5))...)
		jobs = append(jobs, shardJobs("3 files", k, deep(3, 2, 1, 2, 0))...)
		jobs = append(jobs, shardJobs("2 files, 3 subs", k, deep(2, 1, 1, 3, 0))...)
		jobs = append(jobs, shardJobs("4 files", k, deep(4, 1, 1, 1, 0))...)
	}
	// Pairs of queries evaluated one after the other and again.
	jobs = append(jobs, shardJobs("pairs", k, func(r *Run, s, k int) {
		x := c09open(r, 2)
		defer x.done()
		subs := []*c09q{{Op: "all"}, {Op: "none"}}
		for _, l := range subs {
			x.mk(l)
		}
		x.level(1, 0, nil, true, func(q *c09q) { subs = append(subs, q) })
		var qs []*c09q
		x.level(1, 2, subs, true, func(q *c09q) { qs = append(qs, q) })
		for i, a := range qs {
			if i%k != s {
				continue
			}
			for _, b := range qs {
				// one query may also be part of the other
				c := &c09q{Op: "and", Sub: []*c09q{a, b}}
				x.mk(c)
				x.eval(r, c, 1)
				c2 := &c09q{Op: "or", Sub: []*c09q{b, c}}
				x.mk(c2)
				x.eval(r, c2, 1)
				x.eval(r, a, 1)
				x.eval(r, b, 1)
			}
			r.At(c09case{Files: 2, Q: a})
			r.Trace(true)
		}
	})...)
	// Long lists: steps and windows of whatever size.
	jobs = append(jobs, shardJobs("long lists", k, func(r *Run, s, k int) { c09long(r, c09case{Files: 300}, s, k) })...)
	jobs = append(jobs, shardJobs("longer lists", k, func(r *Run, s, k int) { c09long(r, c09case{Files: 1100}, s, k) })...)
	for _, n := range []int{20, 64, 65, 130, 300} {
		jobs = append(jobs, shardJobs(fmt.Sprintf("broad %d", n), 4, func(r *Run, s, k int) { c09broad(r, c09case{Files: n}, s, k) })...)
	}
	// A wide index: results keep their order across large gaps, wide operators.
	jobs = append(jobs, Job{"wide", func(r *Run) {
		x := c09open(r, 10)
		defer x.done()
		for op := 0; op < 2; op++ {
			name := []string{"and", "or"}[op]
			for w := 1; w <= 10; w++ {
				for step := 1; step < 1<<10; step += 3 {
					q := &c09q{Op: name}
					for i := 0; i < w; i++ {
						t := (step * (i + 1) * 37) & (1<<10 - 1)
						if i%3 == 2 {
							q.Sub = append(q.Sub, &c09q{Op: []string{"or", "and"}[op], Tri: []int{t, t ^ step}})
						} else {
							if name == "and" {
								t |= 0x155 << (i % 2)
							}
							q.Tri = append(q.Tri, t)
						}
					}
					x.mk(q)
					r.At(c09case{Files: 10, Q: q})
					x.eval(r, q, 2)
					r.Trace(q.mask != 0 && q.mask != x.full)
				}
			}
		}
	}})
	return jobs
}

func init() {
	register(&Prop{
		ID:          "C09",
		Level:       "model_checking",
		Rule:        "index: 2, 3, 4 or 10 files with one trigram for each subset of them (the empty subset is an absent trigram). Queries: all ordered trees to depth 2 (3) with at most 2 trigrams and 2 (3) sub-queries per node including ALL and NONE, each evaluated twice, also with shared sub-trees. A trace is one query tree (depth-3: one group), non-trivial when the answer is neither empty nor all files",
		Assumptions: []string{"AND and OR nodes have at least one operand"},
		Jobs:        c09jobs,
		Replay: func(r *Run, raw json.RawMessage) {
			c := caseOf[c09case](raw)
			if c.Long != nil {
				c09long(r, c, 0, 1)
				return
			}
			if c.Broad != nil {
				c09broad(r, c, 0, 1)
				return
			}
			x := c09open(r, c.Files)
			defer x.done()
			x.mk(c.Q)
			x.eval(r, c.Q, 3)
		},
	})
}
