package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/google/codesearch/index"
)

// C10: the index bytes for every spill capacity, read splitting and interleaving of writers equal
// those of one undisturbed writer with everything in memory.

type c10case struct {
	Files  []int  // content numbers, one per file
	Roots  int    // number of roots
	Spill  int    // capacity of the in-memory posting list (0: the real one)
	Sizes  []int  `json:",omitempty"`
	Other  []int  `json:",omitempty"` // contents given to a second writer
	Other2 int    `json:",omitempty"` // spill capacity of the second writer
	Order  string `json:",omitempty"` // interleaving: a, b name the writer that takes its next step
	Gen    string `json:",omitempty"` // a generated set instead of Files
	Args   []int  `json:",omitempty"`
}

var c10contents = []string{"", "abc", "abcd", "bcd\nabc\n", "zzzzzy", "\u00e9\u00e8\u65e5\u672c", "a\nb\nc\nabc", "~}|{zyx", "\x01\x02\x03\x01"}

func (c *c10case) files() []file {
	if c.Gen != "" {
		return c07gen(c.Gen, c.Args)
	}
	return c10files(c.Files)
}

func c10files(ns []int) []file {
	var fs []file
	for i, n := range ns {
		fs = append(fs, file{fmt.Sprintf("/d/f%03d", i), c10contents[n]})
	}
	return fs
}

func (c *c10case) roots() []string {
	var rs []string
	for i := 0; i < c.Roots; i++ {
		rs = append(rs, fmt.Sprintf("/d%d", i))
	}
	return rs
}

// A stepper drives one writer through its steps: roots, each file, flush.
type stepper struct {
	w     *index.IndexWriter
	roots []string
	files []file
	sizes []int
	pos   int
}

func newStepper(name string, roots []string, files []file, spill int, sizes []int) *stepper {
	s := &stepper{w: index.Create(name), roots: roots, files: files, sizes: sizes}
	if spill > 0 && !setSpill(s.w, spill) {
		noSpill = true
	}
	return s
}

var noSpill bool

func (s *stepper) steps() int { return len(s.files) + 2 }

func (s *stepper) step() {
	switch {
	case s.pos == 0:
		for _, r := range s.roots {
			s.w.AddRoots([]index.Path{index.MakePath(r)})
		}
	case s.pos <= len(s.files):
		f := s.files[s.pos-1]
		if err := s.w.Add(f.Name, &chunkReader{data: []byte(f.Data), sizes: s.sizes}); err != nil {
			panic(fmt.Sprintf("Add(%q): %v", f.Name, err))
		}
	default:
		s.w.Flush()
		releaseWriter(s.w)
	}
	s.pos++
}

func c10build(name string, roots []string, files []file, spill int, sizes []int) []byte {
	s := newStepper(name, roots, files, spill, sizes)
	for s.pos < s.steps() {
		s.step()
	}
	return mustRead(name)
}

// baseline builds with the real capacity and whole reads, and checks the result against the model.
func c10baseline(r *Run, c *c10case) []byte {
	name := filepath.Join(r.Scratch, "base")
	var b []byte
	r.must(c, "baseline", func() {
		fs := c.files()
		b = c10build(name, c.roots(), fs, 0, nil)
		ix, done := openIndex(name)
		defer done()
		if err := compareIndex(ix, modelIndex(c.roots(), fs), nil); err != nil {
			r.Fail(c, "index built in memory: %v", err)
		}
	})
	return b
}

func c10run(r *Run, c *c10case, base []byte) {
	r.At(c)
	name := filepath.Join(r.Scratch, "x")
	var got []byte
	r.must(c, "writing", func() {
		if c.Order == "" {
			got = c10build(name, c.roots(), c.files(), c.Spill, c.Sizes)
			return
		}
		a := newStepper(name, c.roots(), c.files(), c.Spill, c.Sizes)
		b := newStepper(filepath.Join(r.Scratch, "y"), []string{"/o"}, c10files(c.Other), c.Other2, nil)
		for _, x := range c.Order {
			if x == 'a' {
				a.step()
			} else {
				b.step()
			}
		}
		got = mustRead(name)
	})
	if !bytes.Equal(got, base) {
		r.Fail(c, "index differs from the one built undisturbed in memory: %s", firstDiff(got, base))
	}
	r.Step(len(c.Files) + len(c.Order) + 1)
	r.State(h64(fmt.Sprint(*c)))
}

func c10jobs(tier string) []Job {
	thorough := tier == "thorough"
	k := 32
	var jobs []Job
	maxFiles := 3
	nc := 6
	if thorough {
		nc = len(c10contents)
	}
	var sets [][]int
	last := [][]int{{}}
	sets = append(sets, last...)
	for l := 1; l <= maxFiles; l++ {
		var next [][]int
		for _, p := range last {
			for i := 0; i < nc; i++ {
				next = append(next, append(append([]int{}, p...), i))
			}
		}
		sets = append(sets, next...)
		last = next
	}
	jobs = append(jobs, shardJobs("spill", k, func(r *Run, s, k int) {
		for i, set := range sets {
			if i%k != s {
				continue
			}
			if r.Expired() {
				return
			}
			c := &c10case{Files: set, Roots: i % 3}
			base := c10baseline(r, c)
			tot := 0
			for _, f := range c.files() {
				tot += len(trigramsOf(f.Data))
			}
			for cap := 1; cap <= tot+1; cap++ {
				if !thorough && cap > 4 && cap < tot-1 && (cap+i)%3 != 0 {
					continue
				}
				c := &c10case{Files: set, Roots: i % 3, Spill: cap}
				if (cap+i)%2 == 1 {
					c.Sizes = []int{1}
				}
				c10run(r, c, base)
				r.Trace(cap < tot)
				r.Outcome(fmt.Sprintf("%d spills or more", min(4, (tot-1)/cap)))
				if cap == 2 {
					r.Sample("files %v, posting buffer of %d entries for %d entries", set, cap, tot)
				}
			}
		}
		if noSpill {
			r.Note("IndexWriter.post is not accessible: only the real spill capacity explored")
		}
	})...)
	jobs = append(jobs, shardJobs("reads", 8, func(r *Run, s, k int) {
		c := &c10case{Files: []int{3, 5, 7, 6}, Roots: 1}
		base := c10baseline(r, c)
		n := 0
		for a := 1; a <= 7; a++ {
			for b := 1; b <= 7; b++ {
				for d := 1; d <= 4; d++ {
					n++
					if n%k == s {
						c10run(r, &c10case{Files: c.Files, Roots: 1, Sizes: []int{a, b, d}}, base)
						r.Trace(true)
					}
				}
			}
		}
	})...)
	// All interleavings of two writers' steps.
	jobs = append(jobs, shardJobs("writers", k, func(r *Run, s, k int) {
		n := 0
		pairs := [][2][]int{{{1, 3}, {2, 4}}, {{4, 1}, {}}, {{3, 7}, {5}}}
		if thorough {
			pairs = append(pairs, [2][]int{{1, 3, 6}, {2, 4, 8}}, [2][]int{{7, 7, 1}, {3, 3}})
		}
		for _, p := range pairs {
			for _, sp := range [][2]int{{0, 0}, {1, 2}, {0, 1}, {3, 0}} {
				c := &c10case{Files: p[0], Other: p[1], Roots: 1}
				var base []byte
				na, nb := len(p[0])+2, len(p[1])+2
				var rec func(a, b int, order string)
				rec = func(a, b int, order string) {
					if r.Expired() {
						return
					}
					if a == na && b == nb {
						n++
						if n%k != s {
							return
						}
						if base == nil {
							base = c10baseline(r, c)
						}
						d := &c10case{Files: p[0], Other: p[1], Roots: 1, Spill: sp[0], Other2: sp[1], Order: order}
						c10run(r, d, base)
						r.Trace(true)
						r.Outcome("interleaved writers")
						return
					}
					if a < na {
						rec(a+1, b, order+"a")
					}
					if b < nb {
						rec(a, b+1, order+"b")
					}
				}
				rec(0, 0, "")
			}
		}
	})...)
	// Larger sets: long lists across chunks, chunk counts that exercise the heap.
	type big struct {
		gen  string
		args []int
	}
	bigs := []big{{"subsets", []int{6}}, {"lists", []int{40, 30, 7}}, {"count", []int{0, 200, 5}}, {"strings", []int{0, 6}}, {"runes", []int{2}}}
	jobs = append(jobs, shardJobs("larger", len(bigs)*4, func(r *Run, s, k int) {
		b := bigs[s/4]
		c := &c10case{Gen: b.gen, Args: b.args, Roots: 1}
		base := c10baseline(r, c)
		tot := 0
		for _, f := range c.files() {
			tot += len(trigramsOf(f.Data))
		}
		caps := map[int]bool{tot - 1: true, tot: true, tot + 1: true, tot / 2: true, tot/2 + 1: true}
		for i := 1; i <= 40; i++ {
			caps[i] = true
		}
		for d := 3; d < 20; d++ {
			caps[tot/d+1] = true
		}
		n := 0
		for i := 1; i <= tot+1; i++ {
			if !caps[i] || tot/i > 3000 {
				continue
			}
			n++
			if n%4 != s%4 || r.Expired() {
				continue
			}
			c10run(r, &c10case{Gen: b.gen, Args: b.args, Roots: 1, Spill: i}, base)
			r.Trace(i < tot)
			r.Outcome("larger set")
		}
	})...)
	// Two runs of cindex that share the directory of temporary files.
	for _, n := range []string{"change", "first", "tmpbeside", "merged", "big", "zip", "reset"} {
		jobs = append(jobs, shardJobs("processes "+n, 2, func(r *Run, s, k int) {
			w := r.c14setup(n)
			two := r.c10second(w)
			for p := range w.calls {
				if p%k == s && !r.Expired() {
					r.c10processes(w, two, &c10proc{World: n, At: p})
				}
			}
		})...)
	}
	// The real spill: more than 8 million entries, then a small index in the same process.
	jobs = append(jobs, Job{"real-spill", func(r *Run) { c10real(r) }})
	return jobs
}

// c10proc: one run of cindex is stopped before its At'th change of a file, and another run, for another index, happens there.
type c10proc struct {
	World string
	At    int
}

type c10other struct {
	index    string
	prior, b []byte
}

func (o *c10other) run(r *Run, w *c14world) cliRes {
	mustWrite(o.index, o.prior)
	return r.tool(cliOpt{Index: o.index, Env: []string{"TMPDIR=" + w.tmp}}, "cindex", w.tree+"/b", w.tree+"/c")
}

// c10second prepares the other run and does it alone.
func (r *Run) c10second(w *c14world) *c10other {
	o := &c10other{index: filepath.Join(r.Scratch, "c10other", "index")}
	if res := r.tool(cliOpt{Index: o.index + "0", Env: []string{"TMPDIR=" + w.tmp}, Dir: mkdir(filepath.Dir(o.index))}, "cindex", w.tree+"/a", w.tree+"/c/four"); res.Code != 0 {
		panic(harnessErr("cindex: " + res.Err))
	}
	o.prior = mustRead(o.index + "0")
	if res := o.run(r, w); res.Code != 0 {
		panic(harnessErr("cindex: " + res.Err))
	}
	o.b = mustRead(o.index)
	return o
}

func mkdir(d string) string {
	os.MkdirAll(d, 0777)
	return d
}

func (r *Run) c10processes(w *c14world, o *c10other, c *c10proc) {
	r.At(c)
	w.restore()
	reached := false
	var at fsCall
	res := r.traced(cliOpt{Index: w.index, Env: []string{"TMPDIR=" + w.tmp}}, w.dir, func(k int, call fsCall) fsFault {
		if k == c.At {
			reached, at = true, call
			if x := o.run(r, w); x.Code != 0 {
				r.Fail(c, "cindex for another index, run while one is about to %v, exits %d: %s", call, x.Code, x.Err)
			}
			if b := mustRead(o.index); !bytes.Equal(b, o.b) {
				r.Fail(c, "cindex for another index, run while one is about to %v, writes another index than alone: %s", call, firstDiff(b, o.b))
			}
		}
		return fsFault{}
	}, "cindex", append(append([]string{}, w.flags...), w.args...)...)
	r.Step(2)
	if res.Code != 0 {
		r.Fail(c, "cindex exits %d when another cindex (for another index) runs while it is about to %v: %s", res.Code, at, res.Err)
	}
	if b := mustRead(w.index); !bytes.Equal(b, w.new) {
		r.Fail(c, "cindex writes another index when another cindex (for another index) runs while it is about to %v: %s", at, firstDiff(b, w.new))
	}
	r.Trace(reached)
	r.State(h64(fmt.Sprint(*c)))
	r.Outcome("two runs of cindex")
}

func c10real(r *Run) {
	c := &c10case{Gen: "real", Roots: 1}
	r.At(c)
	small := &c10case{Files: []int{1, 3, 5}, Roots: 2}
	base := c10baseline(r, small)
	d := deBruijn(c07letters, 40000)
	var texts []string
	var lines []string
	for i := 0; i+1002 <= len(d); i += 1000 {
		lines = append(lines, d[i:i+1002]+"\n")
	}
	for k := 0; k < 10; k++ {
		var b strings.Builder
		for j := 0; j < 19; j++ {
			b.WriteString(lines[(k*2+j)%len(lines)])
		}
		texts = append(texts, b.String())
	}
	sets := make([]map[uint32]bool, len(texts))
	for i, t := range texts {
		sets[i] = trigramsOf(t)
		if len(sets[i]) > 20000 {
			panic(harnessErr("text has too many trigrams"))
		}
	}
	const n = 930 // times 19000 entries: two spills of 8M entries
	tot := 0
	var bytesOf [2][]byte
	for v := 0; v < 2; v++ {
		name := filepath.Join(r.Scratch, fmt.Sprint("real", v))
		r.must(c, "indexing more entries than fit in memory", func() {
			w := index.Create(name)
			if v == 1 && !setSpill(w, 3<<20) {
				return
			}
			w.AddRoots([]index.Path{index.MakePath("/n")})
			for i := 0; i < n; i++ {
				if i%50 == 0 {
					r.Tick()
				}
				w.Add(nameN(i), &chunkReader{data: []byte(texts[i%len(texts)])})
				if v == 0 {
					tot += len(sets[i%len(texts)])
				}
			}
			r.Tick()
			w.Flush()
			r.Tick()
			releaseWriter(w)
			bytesOf[v] = mustRead(name)
		})
	}
	if tot < 2*8<<20 {
		panic(harnessErr(fmt.Sprintf("only %d entries: does not spill", tot)))
	}
	if bytesOf[1] != nil && !bytes.Equal(bytesOf[0], bytesOf[1]) {
		r.Fail(c, "index differs with another spill size: %s", firstDiff(bytesOf[1], bytesOf[0]))
	}
	r.must(c, "reading", func() {
		ix, done := openIndex(filepath.Join(r.Scratch, "real0"))
		defer done()
		all := map[uint32]bool{}
		for _, s := range sets {
			for t := range s {
				all[t] = true
			}
		}
		for t := range all {
			var want []int
			for i := 0; i < n; i++ {
				if sets[i%len(texts)][t] {
					want = append(want, i)
				}
			}
			if got := ix.PostingList(t); !eqInts(got, want) {
				r.Fail(c, "after real spills: posting list of %q: got %v, want %v", triString(t), short(got), short(want))
			}
			r.Step(1)
		}
	})
	os.Remove(filepath.Join(r.Scratch, "real0"))
	os.Remove(filepath.Join(r.Scratch, "real1"))
	r.Trace(true)
	r.Outcome("spills of the real size")
	c10run(r, small, base)
}

func init() {
	register(&Prop{
		ID:    "C10",
		Level: "model_checking",
		Rule:  "all sequences of up to 3 files over 6 (9) contents x spill capacities 1..total+1 x read splittings; all interleavings of two writers' steps; a whole run of cindex (for another index, with the same directory of temporary files) at each file-changing call of another in seven situations; larger sets with 1 to thousands of spilled runs; real spills of 8 million entries. Each result must equal, byte for byte, the index built undisturbed in memory, itself compared with the model. A trace is one build, non-trivial when it spills, splits reads or interleaves",
		Assumptions: []string{"small spill capacities are set through the writer's private buffer; the real capacity is also crossed",
			"writers of one process are interleaved between calls, not run in parallel (they share sort scratch)"},
		Jobs: c10jobs,
		Replay: func(r *Run, raw json.RawMessage) {
			var p c10proc
			if json.Unmarshal(raw, &p); p.World != "" {
				w := r.c14setup(p.World)
				r.c10processes(w, r.c10second(w), &p)
				return
			}
			c := caseOf[c10case](raw)
			if c.Gen == "real" {
				c10real(r)
				return
			}
			base := c10baseline(r, &c)
			c10run(r, &c, base)
		},
	})
}
