package main

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"slices"
	"sort"
	"strings"

	"github.com/google/codesearch/index"
)

// C07: posting lists. One index holds a trigram for every subset of its files, so that all gap
// patterns are looked up; other indexes put the posting index through every block fill.

type c07case struct {
	Job string
	// A generated file set, described by its generator and parameters.
	Gen  string
	Args []int
	Tri  uint32 `json:",omitempty"`
	List []int  `json:",omitempty"`
}

// c07letters: bytes that give trigrams spread over the 24 bits, all pairs valid.
var c07letters = "!#$%+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"

// subsetTrigrams gives n distinct trigrams without newlines.
func subsetTrigrams(n int) []string {
	l := len(c07letters)
	var out []string
	for s := 0; s < n; s++ {
		out = append(out, string([]byte{c07letters[s%l], c07letters[s/l%l], c07letters[s/l/l]}))
	}
	return out
}

func nameN(i int) string { return fmt.Sprintf("/n/%07d", i) }

// genSubsets: n files; for every subset of them a trigram contained in exactly those files.
func genSubsets(n int) []file {
	ts := subsetTrigrams(1 << n)
	fs := make([]file, n)
	for i := range fs {
		var b strings.Builder
		for s, t := range ts {
			if s>>i&1 == 1 {
				b.WriteString(t)
				b.WriteByte('\n')
			}
		}
		fs[i] = file{nameN(i), b.String()}
	}
	return fs
}

// genGaps: files up to the largest position; trigrams for all sets of at most k positions.
func genGaps(pos []int, k int) []file {
	content := map[int]*strings.Builder{}
	ts := subsetTrigrams(20000)
	n := 0
	var rec func(i int, cur []int)
	rec = func(i int, cur []int) {
		if len(cur) > 0 {
			t := ts[n]
			n++
			for _, p := range cur {
				if content[p] == nil {
					content[p] = &strings.Builder{}
				}
				content[p].WriteString(t + "\n")
			}
		}
		if len(cur) == k {
			return
		}
		for j := i; j < len(pos); j++ {
			rec(j+1, append(append([]int{}, cur...), pos[j]))
		}
	}
	rec(0, nil)
	last := pos[len(pos)-1]
	fs := make([]file, last+1)
	for i := range fs {
		fs[i].Name = nameN(i)
		if b := content[i]; b != nil {
			fs[i].Data = b.String()
		}
	}
	return fs
}

// deBruijn gives a string whose first n+2 bytes have exactly n distinct trigrams.
func deBruijn(letters string, n int) string {
	// greedy construction: prefer the largest letter whose trigram is new
	var b []byte
	b = append(b, letters[0], letters[0])
	seen := map[string]bool{}
	for len(b) < n+2 {
		ok := false
		for i := len(letters) - 1; i >= 0; i-- {
			t := string(b[len(b)-2:]) + string(letters[i])
			if !seen[t] {
				seen[t] = true
				b = append(b, letters[i])
				ok = true
				break
			}
		}
		if !ok {
			break
		}
	}
	return string(b)
}

// genCount: one file with exactly t distinct trigrams from letters, and n other files with the same content.
func genCount(letters string, t, n int) []file {
	d := ""
	if t > 0 {
		d = deBruijn(letters, t)
	}
	var fs []file
	for i := 0; i < n; i++ {
		fs = append(fs, file{nameN(i), d})
	}
	return fs
}

var c07sets = []string{
	"abcdefgh",
	"\x01\x02\x0f\x10\x1f ~\x7f",
	"abAB\t 09",
}

// multibyte strings that are valid UTF-8 with high lead bytes
var c07runes = []string{"\u00e9", "\u07ff", "\u0800", "\uffff", "\U00010000", "\U0010ffff", "a", "\x01", "\x7f"}

func genRunes(n int) []file {
	var fs []file
	for i, s := range strs(c07runes, n) {
		fs = append(fs, file{nameN(i), s})
	}
	return fs
}

func genStrings(letters string, n int) []file {
	var fs []file
	for i, s := range strs(strings.Split(letters, ""), n) {
		fs = append(fs, file{nameN(i), s})
	}
	return fs
}

// longSets are sets of file numbers below n that steps, blocks and windows of any usual size must get right.
func longSets(n int) [][]int {
	var out [][]int
	add := func(in func(i int) bool) {
		var l []int
		for i := 0; i < n; i++ {
			if in(i) {
				l = append(l, i)
			}
		}
		out = append(out, l)
	}
	add(func(i int) bool { return true })
	for _, k := range []int{2, 3, 5, 64, 100} {
		add(func(i int) bool { return i%k == 0 })
		add(func(i int) bool { return i%k == k-1 })
	}
	for _, k := range []int{7, 33, 64, 100, 128, 256} {
		add(func(i int) bool { return i/k%2 == 0 })
		add(func(i int) bool { return i/k%2 == 1 })
	}
	for _, k := range []int{0, 1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, n - 1} {
		if k >= n {
			continue
		}
		add(func(i int) bool { return i < k })
		add(func(i int) bool { return i >= k })
		add(func(i int) bool { return i == k })
		add(func(i int) bool { return i != k })
	}
	add(func(i int) bool { // triangular numbers
		j := 0
		for j*(j+1)/2 < i {
			j++
		}
		return j*(j+1)/2 == i
	})
	return out
}

// genLong makes n files whose subsetTrigrams have the longSets as lists.
func genLong(n int) []file {
	sets := longSets(n)
	ts := subsetTrigrams(len(sets))
	bs := make([]strings.Builder, n)
	for i, s := range sets {
		for _, f := range s {
			bs[f].WriteString(ts[i] + "\n")
		}
	}
	fs := make([]file, n)
	for i := range fs {
		fs[i] = file{nameN(i), bs[i].String()}
	}
	return fs
}

// c07long intersects and unites every long list with every other.
func c07long(r *Run, c *c07case) {
	n := c.Args[0]
	sets := longSets(n)
	ts := subsetTrigrams(len(sets))
	name := filepath.Join(r.Scratch, "ix")
	r.must(c, "building the index", func() { buildIndex(name, nil, genLong(n), buildOpt{}) })
	r.must(c, "reading the index", func() {
		ix, done := openIndex(name)
		defer done()
		member := make([][]bool, len(sets))
		for i, s := range sets {
			member[i] = make([]bool, n)
			for _, f := range s {
				member[i][f] = true
			}
		}
		var wa, wo []int
		for a, la := range sets {
			if len(c.List) > 0 && a != c.List[0] {
				continue
			}
			r.Tick()
			for b := range sets {
				if len(c.List) > 1 && b != c.List[1] {
					continue
				}
				wa, wo = wa[:0], wo[:0]
				for i := 0; i < n; i++ {
					if member[a][i] && member[b][i] {
						wa = append(wa, i)
					}
					if member[a][i] || member[b][i] {
						wo = append(wo, i)
					}
				}
				d := c07case{c.Job, c.Gen, c.Args, tri(ts[b]), []int{a, b}}
				if got := ix.PostingAnd(slices.Clone(la), tri(ts[b])); !eqInts(got, wa) {
					r.Fail(d, "PostingAnd of the sets %d and %d of %d files = %v, want %v", a, b, n, short(got), short(wa))
				}
				if got := ix.PostingOr(slices.Clone(la), tri(ts[b])); !eqInts(got, wo) {
					r.Fail(d, "PostingOr of the sets %d and %d of %d files = %v, want %v", a, b, n, short(got), short(wo))
				}
				r.Step(2)
			}
			r.Trace(true)
			r.State(h64(fmt.Sprint("long", n, a)))
		}
		r.Outcome("long lists")
	})
}

func c07gen(gen string, a []int) []file {
	switch gen {
	case "long":
		return genLong(a[0])
	case "subsets":
		return genSubsets(a[0])
	case "gaps":
		return genGaps(a[1:], a[0])
	case "count":
		return genCount(c07sets[a[0]], a[1], a[2])
	case "runes":
		return genRunes(a[0])
	case "strings":
		return genStrings([]string{"ab", "abc", "a\n", "ab\n", "ab\xf0\x9f"}[a[0]], a[1])
	case "lists": // a[1] files; file i has the a[0]-trigram de Bruijn text shifted by i*a[2]
		l := c07letters[:30]
		d := deBruijn(l, 26000)
		var fs []file
		for i := 0; i < a[1]; i++ {
			o := i * a[2] % (len(d) - a[0] - 2)
			t := d[o : o+a[0]+2]
			var b strings.Builder
			for len(t) > 1500 {
				b.WriteString(t[:1500] + "\n")
				t = t[1500-2:]
			}
			b.WriteString(t)
			fs = append(fs, file{nameN(i), b.String()})
		}
		return fs
	}
	panic(harnessErr("unknown generator " + gen))
}

// c07check builds and checks one generated file set. With full, all 2^24 trigrams are looked up.
func c07check(r *Run, c *c07case, full bool) {
	r.At(c)
	fs := c07gen(c.Gen, c.Args)
	name := filepath.Join(r.Scratch, "ix")
	want := modelIndex(nil, fs)
	r.must(c, "building the index", func() { buildIndex(name, nil, fs, buildOpt{}) })
	r.Tick()
	r.must(c, "reading the index", func() {
		ix, done := openIndex(name)
		defer done()
		// neighbours of every present trigram, and the ends of the range
		m := map[uint32]bool{0: true, 1: true, 0xff: true, 0x100: true, 0xffff: true, 0x10000: true, 1<<24 - 1: true, 1<<24 - 2: true, 0x800000: true}
		for t := range want.Post {
			for _, d := range []uint32{1, 256, 4096, 65536} {
				m[(t+d)&(1<<24-1)] = true
				m[(t-d)&(1<<24-1)] = true
			}
		}
		var extra []uint32
		if full {
			for t := uint32(0); t < 1<<24; t++ {
				if t&0xffff == 0 {
					r.Tick()
				}
				if got, w := ix.PostingList(t), want.Post[t]; !eqInts(got, w) {
					c.Tri = t
					r.Fail(c, "posting list of %q: got %v, want %v", triString(t), short(got), short(w))
				}
			}
			r.Step(1 << 24)
		} else {
			for t := range m {
				extra = append(extra, t)
			}
			sort.Slice(extra, func(i, j int) bool { return extra[i] < extra[j] })
		}
		for i, f := range fs {
			if i > 2000 && i < len(fs)-2000 {
				continue
			}
			if got := ix.Name(i).String(); got != f.Name {
				r.Fail(c, "name %d is %q, want %q", i, got, f.Name)
			}
		}
		for t, w := range want.Post {
			if got := ix.PostingList(t); !eqInts(got, w) {
				c.Tri = t
				r.Fail(c, "posting list of %q: got %v, want %v", triString(t), short(got), short(w))
			}
			r.Step(1)
		}
		for _, t := range extra {
			if got, w := ix.PostingList(t), want.Post[t]; !eqInts(got, w) {
				c.Tri = t
				r.Fail(c, "posting list of %q: got %v, want %v", triString(t), short(got), short(w))
			}
			r.Step(1)
		}
		if len(c.List) > 0 || c.Job == "lists" {
			c07ops(r, c, ix, want)
		}
	})
	r.Trace(len(want.Post) > 0)
	r.State(h64(fmt.Sprint(c.Gen, c.Args)))
	r.Outcome(fmt.Sprintf("about 2^%d distinct trigrams", log2(len(want.Post))))
	r.Sample("%s%v: %d files, %d distinct trigrams, every list compared", c.Gen, c.Args, len(fs), len(want.Post))
}

func short(x []int) string {
	s := fmt.Sprint(x)
	return cut(s)
}

// c07ops checks PostingAnd and PostingOr of every subset trigram with every list over 0..n.
func c07ops(r *Run, c *c07case, ix *index.Index, want *snapshot) {
	n := c.Args[0]
	ts := subsetTrigrams(1 << n)
	var lists [][]int
	for m := 0; m < 1<<(n+1); m++ { // also a file number beyond the last
		var l []int
		for i := 0; i <= n; i++ {
			if m>>i&1 == 1 {
				l = append(l, i)
			}
		}
		lists = append(lists, l)
	}
	for s, t := range ts {
		r.Tick()
		p := want.Post[tri(t)]
		for m, l := range lists {
			in := append(make([]int, 0, len(l)), l...)
			and := ix.PostingAnd(in, tri(t))
			in2 := append(make([]int, 0, len(l)+n), l...)
			or := ix.PostingOr(in2, tri(t))
			r.Step(2)
			var wa, wo []int
			for i := 0; i <= n; i++ {
				a, b := m>>i&1 == 1, i < n && s>>i&1 == 1
				if a && b {
					wa = append(wa, i)
				}
				if a || b {
					wo = append(wo, i)
				}
			}
			if !eqInts(and, wa) {
				r.Fail(c07case{c.Job, c.Gen, c.Args, tri(t), l}, "PostingAnd(%v, list %v) = %v", l, p, and)
			}
			if !eqInts(or, wo) {
				r.Fail(c07case{c.Job, c.Gen, c.Args, tri(t), l}, "PostingOr(%v, list %v) = %v", l, p, or)
			}
			if !eqInts(in2, l) {
				r.Fail(c07case{c.Job, c.Gen, c.Args, tri(t), l}, "PostingOr changed its argument %v to %v", l, in2)
			}
		}
	}
}

func c07jobs(tier string) []Job {
	thorough := tier == "thorough"
	var jobs []Job
	add := func(job, gen string, full bool, args ...int) {
		c := &c07case{Job: job, Gen: gen, Args: args}
		jobs = append(jobs, Job{fmt.Sprintf("%s %s%v", job, gen, args), func(r *Run) {
			if !r.Expired() {
				c07check(r, c, full)
			}
		}})
	}
	// all subsets of n files
	for n := 0; n <= 13; n++ {
		add("subsets", "subsets", n == 6, n)
	}
	add("subsets", "subsets", true, 14)
	add("lists", "subsets", false, 3)
	add("lists", "subsets", false, 8)
	ns := []int{300, 2100}
	if thorough {
		ns = append(ns, 5000)
	}
	for _, n := range ns {
		add("long", "long", false, n)
		c := &c07case{Job: "long lists", Gen: "long", Args: []int{n}}
		jobs = append(jobs, Job{fmt.Sprintf("long lists %d", n), func(r *Run) { c07long(r, c) }})
	}
	// large gaps between file numbers
	g := []int{0, 1, 2, 3, 14, 15, 16, 17, 18, 30, 31, 32, 33, 34, 62, 63, 64, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096}
	add("gaps", "gaps", false, append([]int{3}, g...)...)
	add("gaps", "gaps", false, append([]int{2}, append(append([]int{}, g...), 8191, 8192, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537)...)...)
	if thorough {
		add("gaps", "gaps", false, append([]int{2}, append(append([]int{}, g[:20]...), 131071, 131072, 262143, 262144, 524287, 524288, 1048575, 1048576, 1048577)...)...)
		add("gaps", "gaps", false, append([]int{4}, g[:18]...)...)
	} else {
		add("gaps", "gaps", false, 2, 0, 1, 16, 131071, 131072, 262144)
	}
	// every number of trigrams, several entry sizes
	maxT := 260
	if thorough {
		maxT = 600
	}
	type cnt struct{ t, s, n int }
	var cs []cnt
	for t := 0; t <= maxT; t++ {
		for _, n := range []int{1, 2, 130} {
			if n == 2 && t > 130 && !thorough {
				continue
			}
			for s := range c07sets {
				if s > 0 && n > 1 && !thorough || t > 500 && s > 0 {
					continue
				}
				cs = append(cs, cnt{t, s, n})
			}
		}
	}
	k := 32
	jobs = append(jobs, shardJobs("trigram-counts", k, func(r *Run, s, k int) {
		for i, c := range cs {
			if i%k == s && !r.Expired() {
				c07check(r, &c07case{Job: "trigram-counts", Gen: "count", Args: []int{c.s, c.t, c.n}}, false)
			}
		}
	})...)
	// all short contents
	add("contents", "strings", false, 0, 12)
	add("contents", "strings", false, 1, 8)
	add("contents", "strings", false, 2, 12)
	add("contents", "strings", true, 3, 7)
	add("contents", "runes", true, 3)
	if thorough {
		add("contents", "strings", false, 0, 16)
		add("contents", "strings", false, 1, 10)
		add("contents", "runes", false, 5)
	} else {
		add("contents", "runes", false, 4)
	}
	// long posting data: offsets past 2^14, 2^21 and counts past 128, 16384
	for _, a := range [][]int{{100, 300, 7}, {3000, 300, 10}, {20000 - 200, 40, 100}, {1, 20000, 1}, {3, 17000, 0}, {500, 1000, 3}} {
		add("long", "lists", false, a...)
	}
	if thorough {
		add("long", "lists", true, 8000, 300, 60)
		add("long", "lists", false, 19000, 300, 23)
		add("long", "lists", false, 2, 140000, 5)
	}
	return jobs
}

func init() {
	register(&Prop{
		ID:          "C07",
		Level:       "model_checking",
		Rule:        "file sets: for each n up to 14 files a trigram for every subset of the files; all sets of up to 3 positions among boundary positions up to 2^18; every number of distinct trigrams 0..260 with 1, 2 and 130 files; all short strings over several alphabets. Every present trigram, its neighbours and the range ends are looked up (all 2^24 for some indexes), and for n=3,8 every intersection and union with every list. A trace is one index, non-trivial when it has a trigram; a transition is one lookup compared with the model",
		Assumptions: []string{"the model is the set of three-byte substrings of each file"},
		Jobs:        c07jobs,
		Replay: func(r *Run, raw json.RawMessage) {
			c := caseOf[c07case](raw)
			if c.Job == "long lists" {
				c07long(r, &c)
				return
			}
			c07check(r, &c, c.Gen != "gaps" && c.Gen != "long" && c.Job != "long")
		},
	})
}
