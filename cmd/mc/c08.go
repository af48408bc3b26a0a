package main

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"strings"
)

// C08: names and roots. Every sorted list of small paths, and families around the group size and
// length-encoding boundaries; every sub-range is read back.

type c08case struct {
	Gen   string
	Args  []int
	Lo    int `json:",omitempty"`
	Hi    int `json:",omitempty"`
	Where string
}

var c08small = []string{"a", "a/a", "a/b", "a.b", "aa", "b", "/", "/a", "\u00e9", "a b"}

func c08gen(gen string, a []int) []string {
	var out []string
	switch gen {
	case "subset": // subset a[0] of the small paths
		u := append([]string{}, c08small...)
		sortPaths(u)
		for i, s := range u {
			if a[0]>>i&1 == 1 {
				out = append(out, s)
			}
		}
		return out
	case "plain": // a[0] numbered names
		for i := 0; i < a[0]; i++ {
			out = append(out, fmt.Sprintf("/src/f%03d.go", i))
		}
	case "chain": // each name a prefix of the next
		for i := 0; i < a[0]; i++ {
			out = append(out, "x"+strings.Repeat("y", i))
		}
	case "nothing shared":
		for i := 0; i < a[0]; i++ {
			out = append(out, string(rune('!'+i))+"/q")
		}
	case "dirs": // deep directories that come and go
		for i := 0; i < a[0]; i++ {
			out = append(out, "/"+strings.Repeat("d/", i%7)+fmt.Sprintf("e%d", i))
		}
	case "long": // a[0] names, number a[1] has length a[2]; mode a[3]: long part first or last
		for i := 0; i < a[0]; i++ {
			n := fmt.Sprintf("n%03d", i)
			if i >= a[1] && i <= a[1]+a[4] {
				if a[3] == 0 {
					n += strings.Repeat("l", a[2]-len(n))
				} else {
					n = "n" + strings.Repeat("l", a[2]-5) + n[1:]
				}
			}
			out = append(out, n)
		}
	case "wide": // lengths a[1], a[1]+1, ... with everything but the last bytes shared
		for i := 0; i < a[0]; i++ {
			out = append(out, "p"+strings.Repeat("x", a[1]-1+i%4)+fmt.Sprintf("%03d", i))
		}
	case "near-zip":
		for i := 0; i < a[0]; i++ {
			out = append(out, fmt.Sprintf("/a%d.zip\x01m%03d", i/20, i))
		}
	default:
		panic(harnessErr("unknown generator"))
	}
	sortPaths(out)
	return out
}

func clean(names []string) []string {
	var out []string
	for _, n := range names {
		out = append(out, strings.ReplaceAll(n, "\x01", "."))
	}
	return out
}

// c08check writes the list as names and as roots and reads every range back.
func c08check(r *Run, c *c08case, all bool) {
	r.At(c)
	names := clean(c08gen(c.Gen, c.Args))
	sortPaths(names)
	var fs []file
	for _, n := range names {
		fs = append(fs, file{n, "abc"})
	}
	file := filepath.Join(r.Scratch, "ix")
	r.must(c, "building the index", func() { buildIndex(file, names, fs, buildOpt{}) })
	r.must(c, "reading the index", func() {
		ix, done := openIndex(file)
		defer done()
		n := len(names)
		fail := func(lo, hi int, where, format string, args ...any) {
			d := *c
			d.Lo, d.Hi, d.Where = lo, hi, where
			r.Fail(d, "%s(%d, %d): %s", where, lo, hi, cut(fmt.Sprintf(format, args...)))
		}
		if got := pathsOf(ix.Roots()); !eqStrings(got, names) {
			fail(0, 0, "Roots", "got %q, want %q", got, names)
		}
		r.Step(1)
		for i := 0; i < n; i++ {
			if got := ix.Name(i).String(); got != names[i] {
				fail(i, i+1, "Name", "got %q, want %q", got, names[i])
			}
			r.Step(1)
		}
		rng := func(lo, hi int) {
			want := names[min(lo, n):min(hi, n)]
			got := pathsOf(ix.NamesAt(lo, hi))
			if !eqStrings(got, want) {
				fail(lo, hi, "NamesAt", "got %q, want %q", got, want)
			}
			var g2 []string
			for p := range ix.Names(lo, hi) {
				g2 = append(g2, p.String())
				if len(g2) > n+5 {
					break
				}
			}
			if !eqStrings(g2, want) {
				fail(lo, hi, "Names", "got %q, want %q", g2, want)
			}
			// step by step
			p := ix.NamesAt(lo, hi)
			for j := 0; ; j++ {
				if p.Valid() != (j < len(want)) {
					fail(lo, hi, "Valid", "after %d steps: %v", j, p.Valid())
				}
				if j >= len(want) {
					break
				}
				if p.Path().String() != want[j] {
					fail(lo, hi, "Path", "after %d steps: %q, want %q", j, p.Path(), want[j])
				}
				more := p.Next()
				if more != (j+1 < len(want)) {
					fail(lo, hi, "Next", "after %d steps: %v", j, more)
				}
			}
			r.Step(3)
		}
		if all {
			for lo := 0; lo <= n+1; lo++ {
				for hi := lo; hi <= n+18; hi++ {
					if lo == hi && lo == n+1 {
						continue
					}
					rng(lo, hi)
				}
			}
			rng(0, 1<<20)
		} else {
			for lo := 0; lo < n; lo += 1 + n/400 {
				rng(lo, min(n+3, lo+40))
			}
			rng(0, n+20)
			rng(max(0, n-17), n+1)
			rng(n, n+1)
		}
	})
	r.Trace(len(names) > 1)
	r.State(h64(fmt.Sprint(c.Gen, c.Args)))
	r.Outcome(fmt.Sprintf("%d groups of 16 begun", (len(names)+15)/16))
	r.Sample("%s%v: %d names", c.Gen, c.Args, len(names))
}

func c08jobs(tier string) []Job {
	thorough := tier == "thorough"
	type cs struct {
		gen string
		a   []int
		all bool
	}
	var cases []cs
	maxN := 70
	if thorough {
		maxN = 150
	}
	for n := 0; n <= maxN; n++ {
		for _, g := range []string{"plain", "chain", "dirs", "near-zip"} {
			cases = append(cases, cs{g, []int{n}, n <= 40 || thorough && n <= 80 || g == "plain" && n <= 70})
		}
		if n <= 60 {
			cases = append(cases, cs{"nothing shared", []int{n}, n < 40})
		}
	}
	for _, n := range []int{1, 2, 15, 16, 17, 18, 33, 40} {
		for _, at := range []int{0, 1, 14, 15, 16, 17, 31} {
			if at >= n {
				continue
			}
			for _, l := range []int{5, 126, 127, 128, 129, 255, 256, 16382, 16383, 16384, 16385, 65536, 256<<10 - 12, 256<<10 - 2, 256<<10 - 1, 256 << 10, 256<<10 + 1, 300000} {
				for mode := 0; mode < 2; mode++ {
					for _, run := range []int{0, 1} {
						if l > 20000 && !thorough && n != 18 && n != 2 {
							continue
						}
						cases = append(cases, cs{"long", []int{n, at, max(l, 6), mode, run}, l < 1000})
					}
				}
			}
		}
	}
	for _, n := range []int{17, 20, 33} {
		for _, l := range []int{120, 124, 125, 126, 127, 128, 16378, 16380, 16381, 16382, 16383, 16384} {
			cases = append(cases, cs{"wide", []int{n, l}, n < 20})
		}
	}
	for _, n := range []int{1000, 4097, 70000} {
		cases = append(cases, cs{"plain", []int{n}, false})
	}
	k := 32
	jobs := shardJobs("families", k, func(r *Run, s, k int) {
		for i, c := range cases {
			if i%k == s && !r.Expired() {
				c08check(r, &c08case{Gen: c.gen, Args: c.a}, c.all)
			}
		}
	})
	jobs = append(jobs, shardJobs("subsets", k, func(r *Run, s, k int) {
		for m := 0; m < 1<<len(c08small); m++ {
			if m%k == s && !r.Expired() {
				c08check(r, &c08case{Gen: "subset", Args: []int{m}}, true)
			}
		}
	})...)
	return jobs
}

func init() {
	register(&Prop{
		ID:          "C08",
		Level:       "model_checking",
		Rule:        "path lists: every subset of 10 small paths (slashes, prefixes, non-ASCII), every count 0..70 in five sharing patterns, long names at every length-encoding and buffer boundary in each group position; each list is written as names and as roots, and every sub-range (also past the end) is read back three ways. A trace is one list, non-trivial with two or more paths",
		Assumptions: []string{"names are sorted, distinct and without control characters, as the writer demands"},
		Jobs:        c08jobs,
		Replay: func(r *Run, raw json.RawMessage) {
			c := caseOf[c08case](raw)
			c08check(r, &c, len(c08gen(c.Gen, c.Args)) <= 80)
		},
	})
}
