package main

import (
	"encoding/json"
	"fmt"
	"strings"
)

// C27: a search and an indexing run as two processes under control, with every switch point of one or both: cindex is
// stopped before each call that changes a file and searches run there; csearch is stopped before each call that
// touches the index or the tree and a whole run of cindex happens there; and csearch, stopped at one of its calls,
// waits while cindex gets as far as one of its. What a search prints must be what it prints with the old or the new index.

type c27case struct {
	World  string
	How    string // "searches inside cindex", "cindex inside search", "both"
	Query  int
	Search int // where csearch is stopped
	Index  int // where cindex is stopped
}

var c27queries = [][]string{
	{"csearch", "-l", ""},
	{"csearch", "-n", "text|words"},
	{"csearch", "-brute", "-c", "o"},
	{"csearch", "-f", "a/", "-h", "^(new|deep|text)"},
	{"cindex", "-list"},
}

var c27worlds = []string{"change", "addroot", "noargs", "check", "zip", "removed", "merged", "v1", "tmpbeside", "leftover", "first", "reset"}

type c27world struct {
	*c14world
	oldOut, newOut []cliRes
}

func (r *Run) c27setup(name string) *c27world {
	w := &c27world{c14world: r.c14setup(name)}
	w.restore()
	for q := range c27queries {
		w.oldOut = append(w.oldOut, r.c27query(w, q))
	}
	mustWrite(w.index, w.new)
	for q := range c27queries {
		w.newOut = append(w.newOut, r.c27query(w, q))
	}
	same := true
	for q := range c27queries {
		same = same && w.oldOut[q].Out == w.newOut[q].Out
	}
	if same {
		panic(harnessErr("the old and new index give the same answers"))
	}
	return w
}

func (w *c27world) opt() cliOpt {
	return cliOpt{Index: w.index, Env: []string{"TMPDIR=" + w.tmp}}
}

func (r *Run) c27query(w *c27world, q int) cliRes {
	return r.tool(w.opt(), c27queries[q][0], c27queries[q][1:]...)
}

// verdict says which index a result comes from.
func (w *c27world) verdict(q int, res cliRes) string {
	eq := func(a cliRes) bool { return a.Out == res.Out && a.Code == res.Code }
	old, new := w.old != nil && eq(w.oldOut[q]), eq(w.newOut[q])
	switch {
	case old && new:
		return "either"
	case old:
		return "old"
	case new:
		return "new"
	case w.fresh && res.Out == "" && res.Code != 0 && res.Err != "" && (!res.crashed() || strings.Contains(res.Err, "corrupt index")):
		return "refused"
	}
	return ""
}

func (r *Run) c27judge(w *c27world, c *c27case, q int, res cliRes, where string) string {
	v := w.verdict(q, res)
	if v == "" {
		r.Fail(c, "%q %s exits %d and prints\n%s%s\nwith the old index (exit %d)\n%s\nwith the new index (exit %d)\n%s", c27queries[q], where, res.Code, cut(res.Out), cut(res.Err), w.oldOut[q].Code, cut(w.oldOut[q].Out), w.newOut[q].Code, cut(w.newOut[q].Out))
	}
	r.Outcome(c.How + ": " + v)
	return v
}

func (r *Run) c27cindex(w *c27world, decide func(k int, c fsCall) fsFault) tracedRes {
	return r.traced(w.opt(), w.dir, decide, "cindex", append(append([]string{}, w.flags...), w.args...)...)
}

func (r *Run) c27csearch(w *c27world, q int, decide func(k int, c fsCall) fsFault) tracedRes {
	o := w.opt()
	o.Every = true
	return r.traced(o, r.Scratch, decide, c27queries[q][0], c27queries[q][1:]...)
}

// c27inside stops cindex before its k-th change and runs all searches.
func (r *Run) c27inside(w *c27world, c *c27case) {
	w.restore()
	reached := false
	res := r.c27cindex(w, func(k int, call fsCall) fsFault {
		if k == c.Index {
			reached = true
			for q := range c27queries {
				r.Step(1)
				r.c27judge(w, c, q, r.c27query(w, q), fmt.Sprintf("while cindex is about to %v", call))
			}
		}
		return fsFault{}
	})
	if res.Code != 0 {
		r.Fail(c, "cindex, stopped for searches at its call %d, exits %d: %s", c.Index, res.Code, res.Err)
	}
	for q := range c27queries {
		if v := r.c27judge(w, c, q, r.c27query(w, q), "after cindex"); v != "new" && v != "either" {
			r.Fail(c, "after cindex %q gives the %s answer", c27queries[q], v)
		}
	}
	r.Trace(reached)
	r.State(h64(fmt.Sprint(*c)))
}

// c27within stops the search before its k-th call and runs cindex, all of it or (How "both") up to its call c.Index.
func (r *Run) c27within(w *c27world, c *c27case) {
	w.restore()
	reached, joined := false, true
	stopped := make(chan bool, 1)
	goOn := make(chan bool)
	over := make(chan tracedRes, 1)
	var crash any
	where := ""
	res := r.c27csearch(w, c.Query, func(k int, call fsCall) fsFault {
		if k != c.Search {
			return fsFault{}
		}
		reached = true
		where = fmt.Sprintf("with cindex run when it is about to %v", call)
		if c.How != "both" {
			if x := r.tool(w.opt(), "cindex", append(append([]string{}, w.flags...), w.args...)...); x.Code != 0 {
				r.Fail(c, "cindex, run %s of a search, exits %d: %s", where, x.Code, x.Err)
			}
			return fsFault{}
		}
		joined = false
		go func() {
			defer func() {
				if e := recover(); e != nil {
					crash = e
					over <- tracedRes{}
				}
			}()
			x := r.c27cindex(w, func(k int, call fsCall) fsFault {
				if k == c.Index {
					where += fmt.Sprintf(" until it is about to %v", call)
					stopped <- true
					<-goOn
				}
				return fsFault{}
			})
			over <- x
		}()
		select {
		case <-stopped:
		case x := <-over:
			joined = true
			over <- x
		}
		return fsFault{}
	})
	if !joined {
		close(goOn)
	}
	if reached && c.How == "both" {
		x := <-over
		if crash != nil {
			panic(crash)
		}
		if x.Code != 0 {
			r.Fail(c, "cindex, stopped for a search at its call %d, exits %d: %s", c.Index, x.Code, x.Err)
		}
	}
	r.Step(1)
	v := r.c27judge(w, c, c.Query, res.cliRes, where)
	if reached {
		if x := w.verdict(c.Query, r.c27query(w, c.Query)); x != "new" && x != "either" {
			r.Fail(c, "after cindex %q gives %q", c27queries[c.Query], x)
		}
	}
	r.Trace(reached && v != "either")
	r.State(h64(fmt.Sprint(*c)))
}

func (r *Run) c27run(w *c27world, c *c27case) {
	r.At(c)
	if c.How == "searches inside cindex" {
		r.c27inside(w, c)
	} else {
		r.c27within(w, c)
	}
}

// c27points lists where a search can be stopped.
func (r *Run) c27points(w *c27world, q int) []fsCall {
	w.restore()
	res := r.c27csearch(w, q, func(int, fsCall) fsFault { return fsFault{} })
	if res.Code == -3 || len(res.Calls) == 0 && !w.fresh {
		panic(harnessErr("tracing a search does not work: " + res.Err))
	}
	return res.Calls
}

func c27jobs(tier string) (jobs []Job) {
	for _, n := range c27worlds {
		jobs = append(jobs, shardJobs(n, 4, func(r *Run, shard, k int) {
			w := r.c27setup(n)
			i := 0
			for p := range w.calls {
				i++
				if i%k == shard && !r.Expired() {
					r.c27run(w, &c27case{World: n, How: "searches inside cindex", Index: p})
				}
			}
			for q := range c27queries {
				pts := r.c27points(w, q)
				for s := range pts {
					i++
					if i%k == shard && !r.Expired() {
						r.c27run(w, &c27case{World: n, How: "cindex inside search", Query: q, Search: s})
					}
				}
				if shard == 0 {
					r.Sample("%s: %q is stopped at %d calls: %.200v", n, c27queries[q], len(pts), pts)
				}
			}
		})...)
	}
	both := []string{"change"}
	if tier == "thorough" {
		both = []string{"change", "merged", "zip", "tmpbeside", "v1", "reset", "first"}
	}
	for _, n := range both {
		jobs = append(jobs, shardJobs(n+" both", 16, func(r *Run, shard, k int) {
			w := r.c27setup(n)
			i := 0
			for q := range c27queries {
				if tier != "thorough" && q != 1 {
					continue
				}
				pts := r.c27points(w, q)
				for s := range pts {
					if s > 0 && strings.Contains(pts[s].Path, "tree") && tier != "thorough" {
						continue // the tree does not change
					}
					for p := range w.calls {
						i++
						if i%k == shard && !r.Expired() {
							r.c27run(w, &c27case{World: n, How: "both", Query: q, Search: s, Index: p})
						}
					}
				}
			}
		})...)
	}
	return
}

func init() {
	register(&Prop{
		ID: "C27", Level: "model_checking",
		Rule: "two processes, a search (five kinds) and a run of cindex (twelve situations), under control: searches at every file-changing call of cindex; a whole cindex at every call of the search that touches the index or the tree; and (both) cindex up to each of its calls at each call of the search. A trace is one schedule, non-trivial when the switch point is reached and tells the old from the new index",
		Assumptions: []string{"switches happen at system calls: what the processes share is the file system",
			"at most three switches; the tree does not change meanwhile"},
		Jobs: c27jobs,
		Replay: func(r *Run, b json.RawMessage) {
			c := caseOf[c27case](b)
			r.c27run(r.c27setup(c.World), &c)
		},
	})
}
