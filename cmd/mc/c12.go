package main

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"slices"
	"sort"
	"strings"

	"github.com/google/codesearch/index"
)

// C12: all pairs and chains of merges over a universe of roots and files, against a snapshot model.

// An mset is a set of files under roots: the model of one index.
type mset struct {
	Roots []string
	Files []file
}

type c12case struct {
	Sets  []mset   // leaf indexes, in order of age
	Order []string `json:",omitempty"` // how they are merged; see c12build
}

// mmerge is the specified result of merging.
func mmerge(a, b mset) mset {
	var m mset
	all := append(append([]string{}, a.Roots...), b.Roots...)
	sortPaths(all)
	for i, r := range all {
		inside := false
		for j, q := range all {
			if r != q && under(r, q) || r == q && j < i {
				inside = true
			}
		}
		if !inside {
			m.Roots = append(m.Roots, r)
		}
	}
	m.Files = append(m.Files, b.Files...)
	for _, f := range a.Files {
		keep := true
		for _, q := range b.Roots {
			if under(f.Name, q) {
				keep = false
			}
		}
		if keep {
			m.Files = append(m.Files, f)
		}
	}
	sortFiles(m.Files)
	return m
}

func (m mset) snap() *snapshot { return modelIndex(m.Roots, m.Files) }

func (m mset) tris() []uint32 {
	s := map[uint32]bool{}
	for _, f := range m.Files {
		for t := range trigramsOf(f.Data) {
			s[t] = true
		}
	}
	var out []uint32
	for t := range s {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// leafIndex writes m's index. Names with \x01 (archive members) are written through the archive.
func leafIndex(name string, m mset) {
	w := index.Create(name)
	var rs []index.Path
	for _, r := range m.Roots {
		rs = append(rs, index.MakePath(r))
	}
	w.AddRoots(rs)
	w.Zip = true
	for i := 0; i < len(m.Files); i++ {
		f := m.Files[i]
		if arch, _, ok := strings.Cut(f.Name, "\x01"); ok {
			var members []file
			for i < len(m.Files) && strings.HasPrefix(m.Files[i].Name, arch+"\x01") {
				members = append(members, file{m.Files[i].Name[len(arch)+1:], m.Files[i].Data})
				i++
			}
			i--
			zf := zipFile(members)
			if err := w.Add(arch, zf); err != nil {
				panic(fmt.Sprintf("Add(%q): %v", arch, err))
			}
			zf.Close()
			continue
		}
		if err := w.Add(f.Name, &chunkReader{data: []byte(f.Data)}); err != nil {
			panic(fmt.Sprintf("Add(%q): %v", f.Name, err))
		}
	}
	w.Flush()
	releaseWriter(w)
}

var nMerges int

func c12merge(r *Run, c any, dst, a, b string) {
	r.must(c, "Merge", func() { index.Merge(dst, a, b) })
	nMerges++
	if nMerges%2000 == 0 {
		unmapScratch(r)
	}
	r.Step(1)
}

func c12compare(r *Run, c any, name, what string, m mset, extra []uint32) {
	r.must(c, "reading "+what, func() {
		ix, done := openIndex(name)
		defer done()
		if err := compareIndex(ix, m.snap(), extra); err != nil {
			r.Fail(c, "%s: %v", what, err)
		}
	})
}

// c12run builds the leaves of a case and merges them left to right, and right to left, checking every result.
func c12run(r *Run, c *c12case) {
	r.At(c)
	n := func(s string) string { return filepath.Join(r.Scratch, s) }
	var extra []uint32
	for i, m := range c.Sets {
		r.must(c, "building", func() { leafIndex(n(fmt.Sprint("leaf", i)), m) })
		extra = append(extra, m.tris()...)
	}
	for _, dir := range []string{"left", "right"} {
		cur := c.Sets[0]
		name := n("leaf0")
		if dir == "right" {
			cur = c.Sets[len(c.Sets)-1]
			name = n(fmt.Sprint("leaf", len(c.Sets)-1))
		}
		for i := 1; i < len(c.Sets); i++ {
			dst := n(fmt.Sprint("merged", dir, i))
			if dir == "left" {
				c12merge(r, c, dst, name, n(fmt.Sprint("leaf", i)))
				cur = mmerge(cur, c.Sets[i])
			} else {
				j := len(c.Sets) - 1 - i
				c12merge(r, c, dst, n(fmt.Sprint("leaf", j)), name)
				cur = mmerge(c.Sets[j], cur)
			}
			name = dst
			c12compare(r, c, name, fmt.Sprintf("merge %s %d", dir, i), cur, extra)
		}
	}
}

// Universe for the pair exploration.
var c12roots = []string{"/", "/a", "/a/b", "/a.b", "/a/b/c", "/ab", "/b", "/a.zip", "/a/x"}
var c12files = []string{"/a/b", "/a/b/c", "/a/b/d", "/a/x", "/a/x/y", "/a.b", "/a.b/f", "/a.zip\x01m", "/a.zip.q", "/ab/f", "/b", "/a b"}

func c12content(name string, v int) string {
	return fmt.Sprintf("common\nv%dv%dv\n%s=%d\n", v, v, strings.Map(func(c rune) rune {
		if c == 1 {
			return '!'
		}
		return c
	}, name), v)
}

// c12family lists the models of one age: all antichains of at most maxRoots roots with file subsets.
func c12family(v, maxRoots, detail int) []mset {
	var out []mset
	var rec func(i int, cur []string)
	rec = func(i int, cur []string) {
		if len(cur) > 0 {
			var cov []string
			for _, f := range c12files {
				for _, q := range cur {
					if under(f, q) {
						cov = append(cov, f)
						break
					}
				}
			}
			n := len(cov)
			for m := 0; m < 1<<n; m++ {
				bits := 0
				for x := m; x > 0; x &= x - 1 {
					bits++
				}
				if !(bits == 0 || bits == n || detail >= 1 && bits == 1 || detail >= 2 && bits == n-1 || detail >= 3 && bits == 2 || n <= detail) {
					continue
				}
				s := mset{Roots: append([]string{}, cur...)}
				sortPaths(s.Roots)
				for i, f := range cov {
					if m>>i&1 == 1 {
						s.Files = append(s.Files, file{f, c12content(f, v)})
					}
				}
				sortFiles(s.Files)
				out = append(out, s)
			}
		}
		if len(cur) == maxRoots {
			return
		}
		for j := i; j < len(c12roots); j++ {
			ok := true
			for _, q := range cur {
				if under(c12roots[j], q) || under(q, c12roots[j]) {
					ok = false
				}
			}
			if ok {
				rec(j+1, append(append([]string{}, cur...), c12roots[j]))
			}
		}
	}
	rec(0, nil)
	return out
}

// leafCache builds the leaves of a family once per worker.
var leafDone = map[string]bool{}

func cachedLeaf(r *Run, fam string, i int, m mset) string {
	name := filepath.Join(r.Scratch, fmt.Sprintf("%s-%d", fam, i))
	if !leafDone[name] {
		r.must(c12case{Sets: []mset{m}}, "building", func() { leafIndex(name, m) })
		leafDone[name] = true
	}
	return name
}

func c12jobs(tier string) []Job {
	thorough := tier == "thorough"
	var jobs []Job
	k := 32
	// All pairs.
	jobs = append(jobs, shardJobs("pairs", k, func(r *Run, s, k int) {
		d1, d2 := 1, 1
		if thorough {
			d1, d2 = 3, 2
		}
		olds, news := c12family(1, 2, d1), c12family(2, 2, d2)
		dst := filepath.Join(r.Scratch, "dst")
		for i, a := range olds {
			if i%k != s {
				continue
			}
			fa := cachedLeaf(r, "old", i, a)
			ta := a.tris()
			for j, b := range news {
				if r.Expired() {
					return
				}
				fb := cachedLeaf(r, "new", j, b)
				c := &c12case{Sets: []mset{a, b}}
				if j%32 == 0 {
					r.At(c)
				}
				m := mmerge(a, b)
				c12merge(r, c, dst, fa, fb)
				c12compare(r, c, dst, "merge", m, ta)
				r.Trace(len(m.Files) != len(a.Files)+len(b.Files) || len(m.Roots) != len(a.Roots)+len(b.Roots))
				r.State(h64(fmt.Sprint(a, b)))
				r.Outcome(fmt.Sprintf("%d of the old files kept", len(m.Files)-len(b.Files)))
				if (i+j)%997 == 0 {
					r.Sample("old %v %d files, new %v %d files", a.Roots, len(a.Files), b.Roots, len(b.Files))
				}
			}
		}
		unmapScratch(r)
	})...)
	// Chains of three (all) and four.
	jobs = append(jobs, shardJobs("chains", k, func(r *Run, s, k int) {
		var fam [4][]mset
		for v := range fam {
			all := c12family(v+1, 2, 0)
			step := 2
			if v == 3 {
				step = 5
			}
			if thorough {
				step = 1
			}
			for i := (v * 7) % step; i < len(all); i += step {
				fam[v] = append(fam[v], all[i])
			}
		}
		n := func(x string) string { return filepath.Join(r.Scratch, x) }
		for i, a := range fam[0] {
			fa := cachedLeaf(r, "c0", i, a)
			for j, b := range fam[1] {
				if (i*len(fam[1])+j)%k != s {
					continue
				}
				fb := cachedLeaf(r, "c1", j, b)
				c2 := &c12case{Sets: []mset{a, b}}
				r.At(c2)
				ab := mmerge(a, b)
				c12merge(r, c2, n("ab"), fa, fb)
				c12compare(r, c2, n("ab"), "merge", ab, nil)
				for l, d := range fam[2] {
					if !thorough && (i+j+l)%3 != 0 {
						continue
					}
					if r.Expired() {
						return
					}
					fd := cachedLeaf(r, "c2", l, d)
					c3 := &c12case{Sets: []mset{a, b, d}}
					abd := mmerge(ab, d)
					c12merge(r, c3, n("abd"), n("ab"), fd)
					c12compare(r, c3, n("abd"), "second merge", abd, a.tris())
					r.Trace(true)
					r.State(h64(fmt.Sprint(c3.Sets)))
					r.Outcome("chain of 3")
					if (i+j+l)%11 == 0 {
						// the merged index as the newer one
						c3r := &c12case{Sets: []mset{d, a, b}}
						c12merge(r, c3r, n("dab"), fd, n("ab"))
						c12compare(r, c3r, n("dab"), "merge with a merged newer index", mmerge(d, ab), nil)
					}
					if (i+j+l)%7 == 0 {
						e := fam[3][(i*31+j*17+l)%len(fam[3])]
						fe := cachedLeaf(r, "c3", (i*31+j*17+l)%len(fam[3]), e)
						c4 := &c12case{Sets: []mset{a, b, d, e}}
						c12merge(r, c4, n("abde"), n("abd"), fe)
						c12compare(r, c4, n("abde"), "third merge", mmerge(abd, e), b.tris())
						r.Outcome("chain of 4")
					}
				}
			}
		}
		unmapScratch(r)
	})...)
	// Many files in directories, any subset of the directories replaced.
	jobs = append(jobs, shardJobs("ranges", k, func(r *Run, s, k int) {
		nd := 8
		if thorough {
			nd = 10
		}
		var old mset
		old.Roots = []string{"/"}
		for d := 0; d < nd; d++ {
			for i := 0; i < 2+d%5; i++ {
				f := fmt.Sprintf("/d%d/f%02d", d, i)
				old.Files = append(old.Files, file{f, c12content(f, 1)})
			}
		}
		for m := 0; m < 1<<nd; m++ {
			if m%k != s {
				continue
			}
			if r.Expired() {
				return
			}
			var nw mset
			for d := 0; d < nd; d++ {
				if m>>d&1 == 0 {
					continue
				}
				nw.Roots = append(nw.Roots, fmt.Sprintf("/d%d", d))
				for i := 0; i < (m*7+d*5)%6; i++ {
					f := fmt.Sprintf("/d%d/f%02d", d, i*3)
					nw.Files = append(nw.Files, file{f, c12content(f, 2)})
				}
			}
			o := old
			if m%3 == 1 {
				o.Roots = nil
				for d := 0; d < nd; d++ {
					o.Roots = append(o.Roots, fmt.Sprintf("/d%d", d))
				}
			}
			c12run(r, &c12case{Sets: []mset{o, nw}})
			r.Trace(m != 0)
			r.State(h64(fmt.Sprint("ranges", m)))
			r.Outcome("subset of directories replaced")
		}
		unmapScratch(r)
	})...)
	// Many directories: kept and replaced ranges in every usual pattern, and again.
	jobs = append(jobs, shardJobs("many ranges", k, func(r *Run, s, k int) {
		const nd = 140
		content := func(d, i, v int) string {
			t := c12content(fmt.Sprint(d, ".", i), v)
			for _, m := range []int{2, 3, 5, 7, 16, 33} {
				if d%m == 0 {
					t += fmt.Sprintf("mod%c\n", 'A'+m)
				}
			}
			return t
		}
		dirs := func(set []int, v, files int) mset {
			var m mset
			for _, d := range set {
				m.Roots = append(m.Roots, fmt.Sprintf("/t/d%03d", d))
				for i := 0; i < files; i++ {
					m.Files = append(m.Files, file{fmt.Sprintf("/t/d%03d/f%d", d, i), content(d, i, v)})
				}
			}
			return m
		}
		sets := longSets(nd)
		n := 0
		for i, a := range sets {
			for v := 0; v < 3; v++ {
				n++
				if n%k != s {
					continue
				}
				if r.Expired() {
					return
				}
				old := dirs(sets[0], 1, 1+v%2)
				if (i+v)%2 == 0 {
					old.Roots = []string{"/t"}
				}
				third := dirs(sets[(i*5+v*11)%len(sets)], 3, (v+1)%3)
				c12run(r, &c12case{Sets: []mset{old, dirs(a, 2, v), third}})
				r.Trace(true)
				r.State(h64(fmt.Sprint("many", i, v)))
				r.Outcome("many ranges")
			}
		}
		unmapScratch(r)
	})...)
	// Roots of many files: ranges from one to hundreds of names, each kept or replaced.
	jobs = append(jobs, shardJobs("wide roots", k, func(r *Run, s, k int) {
		sizes := []int{1, 70, 300}
		if thorough {
			sizes = []int{0, 1, 63, 64, 65, 300}
		}
		n := len(sizes) * len(sizes) * len(sizes) * len(sizes)
		for i := s; i < n; i += k {
			if r.Expired() {
				return
			}
			var old mset
			for d, j := 0, i; d < 4; d, j = d+1, j/len(sizes) {
				old.Roots = append(old.Roots, fmt.Sprintf("/t/d%d", d))
				for f := 0; f < sizes[j%len(sizes)]; f++ {
					old.Files = append(old.Files, file{fmt.Sprintf("/t/d%d/f%03d", d, f), fmt.Sprintf("%d of root %d size %d\n", f, d, sizes[j%len(sizes)])})
				}
			}
			c := &c12case{Sets: []mset{old}}
			r.At(c)
			name := func(s string) string { return filepath.Join(r.Scratch, s) }
			r.must(c, "building", func() { leafIndex(name("wide"), old) })
			for m := 0; m < 16; m++ {
				var nw mset
				for d := 0; d < 4; d++ {
					if m>>d&1 != 0 {
						nw.Roots = append(nw.Roots, fmt.Sprintf("/t/d%d", d))
						for f := 0; f < (i+d)%3; f++ {
							nw.Files = append(nw.Files, file{fmt.Sprintf("/t/d%d/f%03d", d, f*69), fmt.Sprintf("new %d of root %d\n", f, d)})
						}
					}
				}
				c := &c12case{Sets: []mset{old, nw}}
				r.At(c)
				r.must(c, "building", func() { leafIndex(name("wide2"), nw) })
				c12merge(r, c, name("dst"), name("wide"), name("wide2"))
				c12compare(r, c, name("dst"), "merge", mmerge(old, nw), nil)
				r.Trace(m != 0)
				r.State(h64(fmt.Sprint("wide", i, m)))
				r.Outcome("roots of many files")
			}
			unmapScratch(r)
		}
	})...)
	// Long histories: every merge adds to the last one's result.
	jobs = append(jobs, shardJobs("long chains", 12, func(r *Run, s, k int) {
		length := 40
		if thorough {
			length = 150
		}
		c := &c12case{}
		period := s%6 + 2
		for i := 0; i <= length; i++ {
			d := i % period
			m := mset{Roots: []string{fmt.Sprintf("/t/d%d", d)}}
			if s >= 6 { // roots that come from outside and inside of earlier ones
				m.Roots = []string{[]string{"/t/d0/x", "/t/d1", "/t/d0", "/t/d0.x", "/u", "/t/d2/y/z"}[(i*i+i/3)%6]}
			}
			for j := 0; j < (i*3+d)%5; j++ {
				m.Files = append(m.Files, file{fmt.Sprintf("%s/f%d", m.Roots[0], j), c12content(fmt.Sprint(d, ".", j), i%11)})
			}
			c.Sets = append(c.Sets, m)
		}
		r.At(c)
		n := func(i int) string { return filepath.Join(r.Scratch, fmt.Sprint("chain", i)) }
		r.must(c, "building", func() { leafIndex(n(0), c.Sets[0]) })
		cur := c.Sets[0]
		for i, m := range c.Sets[1:] {
			r.must(c, "building", func() { leafIndex(n(1000), m) })
			c12merge(r, c, n((i+1)%2), n(i%2), n(1000))
			cur = mmerge(cur, m)
			c12compare(r, c, n((i+1)%2), fmt.Sprintf("merge %d of a chain", i+1), cur, nil)
		}
		r.Trace(true)
		r.State(h64(fmt.Sprint("long chain", s)))
		r.Outcome("long chain")
		unmapScratch(r)
	})...)
	// Long root names, the one inside or beside the other.
	jobs = append(jobs, shardJobs("long roots", 8, func(r *Run, s, k int) {
		var pads []string
		for _, l := range []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 300, 1000, 4095, 4096} {
			pads = append(pads, "/"+strings.Repeat("r", l-1))
		}
		pads = append(pads, strings.Repeat("/dir", 70))
		for i, p := range pads {
			if i%k != s {
				continue
			}
			mk := func(v int, roots ...string) mset {
				m := mset{Roots: roots}
				for _, q := range roots {
					m.Files = append(m.Files, file{q + "/f", c12content(q[len(q)-1:], v)}, file{q + "/sub/g", c12content("g", v)})
				}
				return m
			}
			var all []mset
			for v := 1; v <= 2; v++ {
				for _, rs := range [][]string{{p}, {p + "/sub"}, {p + ".x"}, {p + "r"}, {p + "/sub/g"}, {p + "/sub", p + ".x"}, {p, p + "r"}} {
					m := mk(v, rs...)
					if strings.HasSuffix(rs[0], "/g") {
						m.Files = []file{{rs[0], c12content("g", v)}}
					}
					sortFiles(m.Files)
					sortPaths(m.Roots)
					all = append(all, m)
				}
			}
			for x, a := range all {
				for y, b := range all {
					c := &c12case{Sets: []mset{a, b}}
					r.At(c)
					fam := fmt.Sprint("long", i)
					c12merge(r, c, filepath.Join(r.Scratch, "dst"), cachedLeaf(r, fam, x, a), cachedLeaf(r, fam, y, b))
					c12compare(r, c, filepath.Join(r.Scratch, "dst"), "merge", mmerge(a, b), a.tris())
					r.Trace(true)
				}
			}
			r.State(h64("long root" + p))
			r.Outcome("long roots")
		}
		unmapScratch(r)
	})...)
	// Posting-index blocks: every number of trigrams on either side, then a second merge.
	jobs = append(jobs, shardJobs("blocks", k, func(r *Run, s, k int) {
		maxT := 130
		if thorough {
			maxT = 420
		}
		n := 0
		for t1 := 0; t1 <= maxT; t1++ {
			for _, v := range []struct{ n1, t2, n2 int }{{1, 0, 1}, {1, 3, 2}, {130, 60, 1}, {20, t1, 1}} {
				n++
				if n%k != s {
					continue
				}
				if r.Expired() {
					return
				}
				a := mset{Roots: []string{"/o"}}
				for _, f := range genCount("abcdefgh", t1, v.n1) {
					a.Files = append(a.Files, file{"/o" + f.Name, f.Data})
				}
				b := mset{Roots: []string{"/p"}}
				if t1%4 == 1 {
					b.Roots = []string{"/o/n/0000000", "/p"}
				}
				for _, f := range genCount("abcdxyz", v.t2, v.n2) {
					b.Files = append(b.Files, file{"/p" + f.Name, f.Data})
				}
				if t1 == 0 {
					a.Files = nil
				}
				d := mset{Roots: []string{"/p/q"}, Files: []file{{"/p/q/r", "one more abcabc"}}}
				c := &c12case{Sets: []mset{a, b, d}}
				c12run(r, c)
				r.Trace(t1 > 40)
				r.State(h64(fmt.Sprint("blocks", t1, v)))
				r.Outcome("posting-index blocks")
			}
		}
		unmapScratch(r)
	})...)
	// Large gaps and lists on both sides.
	for v := 0; v < 3; v++ {
		jobs = append(jobs, Job{fmt.Sprintf("gaps/%d", v), func(r *Run) {
			a := mset{Roots: []string{"/o"}}
			for _, f := range genGaps([]int{0, 1, 2, 15, 16, 17, 18, 31, 33, 127, 128, 300, 511, 1025, 4100}, 3) {
				a.Files = append(a.Files, file{"/o" + f.Name, f.Data})
			}
			b := mset{Roots: []string{"/o/n/0000016", "/p"}}
			if v == 1 {
				b.Roots = []string{"/a", "/o/n/0000000", "/o/n/0000128"}
				b.Files = append(b.Files, file{"/a/first", "shifts every number by one"})
			}
			if v == 2 {
				b = mset{Roots: []string{"/a"}}
				for i := 0; i < 300; i++ {
					b.Files = append(b.Files, file{fmt.Sprintf("/a/%04d", i), fmt.Sprintf("!!! %d", i)})
				}
			}
			r.At(fmt.Sprintf("gaps/%d", v))
			n := func(s string) string { return filepath.Join(r.Scratch, s) }
			r.must("gaps", "building", func() { leafIndex(n("ga"), a); leafIndex(n("gb"), b) })
			cs := fmt.Sprintf("gaps/%d", v)
			c12merge(r, cs, n("gm"), n("ga"), n("gb"))
			m := mmerge(a, b)
			c12compare(r, cs, n("gm"), "merge", m, nil)
			b.Roots = []string{"/o/n/0000127", "/zz"}
			b.Files = []file{{"/zz/a", "last"}}
			r.must("gaps", "building", func() { leafIndex(n("gb"), b) })
			c12merge(r, cs, n("gm2"), n("gm"), n("gb"))
			c12compare(r, cs, n("gm2"), "second merge", mmerge(m, b), nil)
			r.Trace(true)
			r.Outcome("large gaps")
		}})
	}
	// Each byte beside and below the names of roots.
	jobs = append(jobs, shardJobs("bytes", 8, func(r *Run, s, k int) {
		for b := 0x20; b < 0x100; b++ {
			if b%k == s && b != '/' {
				c12bytes(r, b)
			}
		}
		unmapScratch(r)
	})...)
	// More files than 16 (thorough: 17) bits can number.
	nlarge := 70000
	if tier == "thorough" {
		nlarge = 140000
	}
	jobs = append(jobs, Job{"large", func(r *Run) {
		a := mset{Roots: []string{"/m"}}
		for i := 0; i < nlarge; i++ {
			a.Files = append(a.Files, file{fmt.Sprintf("/m/%03d/%06d", i/1000, i), fmt.Sprintf("%d\n", i%1000)})
		}
		n := func(s string) string { return filepath.Join(r.Scratch, s) }
		r.At("large")
		r.must("large", "building", func() { leafIndex(n("la"), a) })
		for i, b := range []mset{{Roots: []string{"/a"}}, {Roots: []string{"/m/000", "/m/031", "/m/065", "/m/069"}}, {Roots: []string{"/z"}}, {Roots: []string{"/a", "/m/066/066000", "/m/066/066666"}}} {
			for _, d := range b.Roots {
				b.Files = append(b.Files, file{d + "/new", "new 12345\n"})
			}
			r.must("large", "building", func() { leafIndex(n("lb"), b) })
			c12merge(r, "large", n("lm"), n("la"), n("lb"))
			c12compare(r, "large", n("lm"), "merge", mmerge(a, b), nil)
			if i > 1 {
				c12merge(r, "large", n("lm"), n("lb"), n("la"))
				c12compare(r, "large", n("lm"), "merge the other way", mmerge(b, a), nil)
			}
			r.Trace(true)
		}
		r.State(h64("large"))
		r.Outcome("a large index")
	}})
	return jobs
}

// c12bytes merges indexes whose names and roots have the byte b where names begin, go on and end.
func c12bytes(r *Run, b int) {
	x := string([]byte{byte(b)})
	id := fmt.Sprintf("byte:%d", b)
	r.At(id)
	files := []string{"/a", "/a" + x, "/a" + x + "/f", "/a/" + x, "/a/" + x + "/f", "/a/" + x + x, "/a/0" + x, "/a.zip", "/a.zip\x01" + x, "/a.zip\x01" + x + "/f", "/a.zip\x01" + x + x, "/a.zip\x010" + x, "/a.zip" + x}
	slices.Sort(files)
	files = slices.Compact(files)
	var all []mset
	for v, rs := range [][]string{{"/a"}, {"/a.zip"}, {"/a" + x}, {"/a/" + x}, {"/a", "/a.zip"}, {"/a" + x, "/a.zip" + x}, {"/"}} {
		m := mset{Roots: append([]string{}, rs...)}
		sortPaths(m.Roots)
		for i, f := range files {
			for _, q := range rs {
				if under(f, q) && (v%2 == 0 || i%3 != 1) {
					m.Files = append(m.Files, file{f, c12content(fmt.Sprint("file", i), v)})
					break
				}
			}
		}
		sortFiles(m.Files)
		all = append(all, m)
	}
	for i, o := range all {
		for j, n := range all {
			c12merge(r, id, filepath.Join(r.Scratch, "dst"), cachedLeaf(r, id, i, o), cachedLeaf(r, id, j, n))
			c12compare(r, id, filepath.Join(r.Scratch, "dst"), fmt.Sprintf("merge of the index of %q with that of %q", o.Roots, n.Roots), mmerge(o, n), nil)
			r.Trace(true)
		}
	}
	r.State(h64(id))
	r.Outcome("any byte in names")
}

func init() {
	register(&Prop{
		ID:          "C12",
		Level:       "model_checking",
		Rule:        "indexes: all sets of at most 2 disjoint roots among 9 (nested, sibling, prefix-sharing, archive, /) with the files below them (none, all, each one); all pairs old x new, chains of 3 and 4 merges in both associations, every subset of 8 (10) replaced directories, every posting-index block fill, 140 directories replaced in about 130 patterns, four roots of 1 to 300 files with every subset replaced, chains of 40 (150) merges, root names up to 4096 bytes. A trace is one merge history, non-trivial when something is replaced, nested or chained; a transition is one merge compared with the model",
		Assumptions: []string{"each index's roots are sorted and disjoint and cover its files, as cindex writes them"},
		Jobs:        c12jobs,
		Replay: func(r *Run, raw json.RawMessage) {
			var s string
			if json.Unmarshal(raw, &s) == nil {
				var b int
				if _, err := fmt.Sscanf(s, "byte:%d", &b); err == nil {
					c12bytes(r, b)
				}
				for _, j := range c12jobs(r.Tier) {
					if j.Name == s || s == "gaps" && strings.HasPrefix(j.Name, "gaps/") {
						j.F(r)
					}
				}
				return
			}
			c := caseOf[c12case](raw)
			c12run(r, &c)
		},
	})
}
