package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/google/codesearch/index"
)

// C19: files from an independent encoder are read and merged as the model says;
// files written by Flush and Merge decode with an independent decoder to the model.

type c19case struct {
	Kind    string // read, write, merge, gaps
	Set     mset
	Old     *mset `json:",omitempty"`
	Variant encVariant
	NewEnc  bool  `json:",omitempty"` // the newer index comes from the encoder too
	Gaps    []int `json:",omitempty"`
	Shift   int   `json:",omitempty"`
	Hole    int64 `json:",omitempty"` // bytes left out
	At      int   `json:",omitempty"` // before which region (0-4) or, from 10 on, posting list
}

// c19holes writes the encoder's file of the set with a hole (zeros that take no space) in it, so that what follows
// lies beyond an offset of 16, 24, 31 or 32 bits.
func c19holes(r *Run, c *c19case, file string) bool {
	list := -1 // where the list the hole comes before begins among the lists
	b := encodeIndex(c.Variant, c.Set.Roots, namesOf(c.Set.Files), plistsOf(c.Set.Files), -1, func(e []rawEntry) {
		if c.At < 10 {
			return
		}
		list = int(e[c.At-10].offset)
		for i := range e[c.At-10:] {
			e[c.At-10+i].offset += uint64(c.Hole)
		}
	})
	// The offsets in the trailer.
	w, fields := 8, []int{0, 2, 4, 6, 7}
	t := b[len(b)-16-64:]
	if c.Variant.V == 1 {
		w, fields = 4, []int{0, 1, 2, 3, 4}
		t = b[len(b)-16-20:]
	}
	get := func(k int) (x int) {
		for _, c := range t[fields[k]*w : (fields[k]+1)*w] {
			x = x<<8 | int(c)
		}
		return
	}
	cut, from := get(min(c.At, 4)), c.At
	if list >= 0 {
		cut, from = get(2)+list, 3
	}
	for k := from; k < 5; k++ {
		x := get(k) + int(c.Hole)
		for i := w - 1; i >= 0; i-- {
			t[fields[k]*w+i] = byte(x)
			x >>= 8
		}
	}
	f, err := os.Create(file)
	if err != nil {
		panic(harnessErr(err.Error()))
	}
	defer f.Close()
	_, err = f.Write(b[:cut])
	if err == nil {
		if _, e := f.WriteAt(b[cut:], int64(cut)+c.Hole); e != nil {
			return false // no room, or no such files here
		}
	}
	if err != nil {
		panic(harnessErr(err.Error()))
	}
	return true
}

func c19run(r *Run, c *c19case) {
	r.At(c)
	n := func(s string) string { return filepath.Join(r.Scratch, s) }
	snap := c.Set.snap()
	absent := []uint32{tri("\x01\x02\x03"), tri("~~~"), 0xffffff, 0xfffffe, 1}
	switch c.Kind {
	case "gaps":
		// Posting lists with the given increments, at every bit offset that Shift leading ones give.
		var ids []int
		id := -1
		for i := 0; i < c.Shift; i++ {
			id++
			ids = append(ids, id)
		}
		for _, g := range c.Gaps {
			id += g
			ids = append(ids, id)
		}
		posts := []plist{{Tri: "aab", IDs: []int{0}}, {Tri: "abc", IDs: ids}, {Tri: "abd", IDs: ids}, {Tri: "zzz", IDs: []int{1}}}
		if c.Variant.V == 1 {
			posts = posts[:3]
		}
		mustWrite(n("gaps"), encodeIndex(c.Variant, nil, nil, posts, ids[len(ids)-1]+1, nil))
		r.must(c, "reading", func() {
			ix, done := openIndex(n("gaps"))
			defer done()
			for _, p := range posts {
				if got := ix.PostingList(tri(p.Tri)); !eqInts(got, p.IDs) {
					r.Fail(c, "posting list of %q: got %v, want %v", p.Tri, got, p.IDs)
				}
				r.Step(1)
			}
		})
		r.Trace(true)
		r.Outcome("gaps read")
		r.State(h64(fmt.Sprint(c.Variant, ids)))
		return
	case "holes":
		os.Remove(n("holes"))
		if !c19holes(r, c, n("holes")) {
			r.Outcome("holes: not possible here")
			return
		}
		r.must(c, "reading "+c.Variant.String(), func() {
			ix, done := openIndex(n("holes"))
			defer done()
			if err := compareIndex(ix, snap, absent); err != nil {
				r.Fail(c, "%v, %d bytes left out at %d: %v", c.Variant, c.Hole, c.At, err)
			}
			for i, f := range c.Set.Files {
				if got := ix.Name(i).String(); got != f.Name {
					r.Fail(c, "%v, %d bytes left out at %d: Name(%d) = %q, want %q", c.Variant, c.Hole, c.At, i, got, f.Name)
				}
			}
		})
		r.must(c, "building", func() { leafIndex(n("new"), *c.Old) })
		os.Remove(n("out"))
		c12merge(r, c, n("out"), n("holes"), n("new"))
		c12compare(r, c, n("out"), "merged index", mmerge(c.Set, *c.Old), absent)
		os.Remove(n("out"))
		c12merge(r, c, n("out"), n("new"), n("holes"))
		c12compare(r, c, n("out"), "merged index", mmerge(*c.Old, c.Set), absent)
		os.Remove(n("holes"))
		r.Step(1 + len(c.Set.Files))
		r.Outcome(fmt.Sprintf("far offsets v%d", c.Variant.V))
	case "read":
		mustWrite(n("enc"), encodeIndex(c.Variant, c.Set.Roots, namesOf(c.Set.Files), plistsOf(c.Set.Files), -1, nil))
		if c.Variant.V == 2 {
			if d, err := decodeIndex(mustRead(n("enc"))); err != nil || d.equal(snap) != nil {
				panic(harnessErr(fmt.Sprintf("decoder does not accept the encoder's file: %v", err)))
			}
		}
		r.must(c, "reading "+c.Variant.String(), func() {
			ix, done := openIndex(n("enc"))
			defer done()
			if err := compareIndex(ix, snap, absent); err != nil {
				r.Fail(c, "%v: %v", c.Variant, err)
			}
			for i, f := range c.Set.Files {
				if got := ix.Name(i).String(); got != f.Name {
					r.Fail(c, "%v: Name(%d) = %q, want %q", c.Variant, i, got, f.Name)
				}
			}
		})
		r.Step(1 + len(c.Set.Files))
		r.Outcome(fmt.Sprintf("read v%d", c.Variant.V))
	case "write":
		r.must(c, "building", func() { leafIndex(n("w"), c.Set) })
		d, err := decodeIndex(mustRead(n("w")))
		if err != nil {
			r.Fail(c, "the written file does not have the documented layout: %v", err)
		}
		if err := d.equal(snap); err != nil {
			r.Fail(c, "the written file means %v", err)
		}
		r.Step(1)
		r.Outcome("written file decoded")
	case "merge":
		mustWrite(n("old"), encodeIndex(c.Variant, c.Old.Roots, namesOf(c.Old.Files), plistsOf(c.Old.Files), -1, nil))
		if c.NewEnc {
			mustWrite(n("new"), encodeIndex(c.Variant, c.Set.Roots, namesOf(c.Set.Files), plistsOf(c.Set.Files), -1, nil))
		} else {
			r.must(c, "building", func() { leafIndex(n("new"), c.Set) })
		}
		want := mmerge(*c.Old, c.Set)
		os.Remove(n("out"))
		c12merge(r, c, n("out"), n("old"), n("new"))
		d, err := decodeIndex(mustRead(n("out")))
		if err != nil {
			r.Fail(c, "the merged file does not have the documented layout: %v", err)
		}
		if err := d.equal(want.snap()); err != nil {
			r.Fail(c, "the merged file means %v", err)
		}
		c12compare(r, c, n("out"), "merged index", want, append(absent, c.Old.tris()...))
		r.Outcome(fmt.Sprintf("merged v%d", c.Variant.V))
	}
	r.State(h64(fmt.Sprint(c.Kind, c.Variant, c.Set, c.Old)))
	r.Trace(len(c.Set.Files) > 0)
}

// c19sets enumerates file sets: small subsets, name-group boundaries, posting-index fills.
func c19sets(quick bool, visit func(m mset)) {
	base := []file{{"/r/a", "abcd\n"}, {"/r/a/b", "bcde\nabc"}, {"/r/a-b", "zzzz"}, {"/r/aa", ""}, {"/r/é", "éü\n"}, {"/s/x", "abcd"}, {"/s/x/y z", "\x01\x02\x03\x7f"}}
	for bits := 0; bits < 1<<len(base); bits++ {
		var m mset
		m.Roots = []string{"/r", "/s"}
		for i, f := range base {
			if bits>>i&1 != 0 {
				m.Files = append(m.Files, f)
			}
		}
		sortFiles(m.Files)
		visit(m)
		if bits%8 == 5 {
			m.Roots = []string{"/"}
			visit(m)
			m.Roots = nil
			visit(m)
		}
	}
	maxN := 70
	if !quick {
		maxN = 300
	}
	for n := 0; n <= maxN; n++ {
		m := mset{Roots: []string{"/r"}}
		for i := 0; i < n; i++ {
			nm := fmt.Sprintf("/r/dir%02d/file%03d%s", i/7, i, strings.Repeat("x", i*i%140))
			dt := fmt.Sprintf("common %03d", i)
			if i%3 == 0 {
				dt += "third"
			}
			m.Files = append(m.Files, file{nm, dt})
		}
		sortFiles(m.Files)
		visit(m)
	}
	// Path and prefix lengths around the varint boundaries.
	for _, l := range []int{126, 127, 128, 129, 16382, 16383, 16384, 16385} {
		d := "/r/" + strings.Repeat("d", l-3)
		m := mset{Roots: []string{d}, Files: []file{{d, "one"}, {d + "/a", "two"}, {d + "/b", "three"}}}
		visit(m)
		m = mset{Roots: []string{"/r", d + "x"}, Files: []file{{"/r/a", "one"}, {"/r/b" + d, "two"}, {"/r/c", "four"}, {d + "x/y", "three"}}}
		sortFiles(m.Files)
		visit(m)
	}
	// Counts and gaps around the varint boundaries.
	for _, n := range []int{127, 128, 129, 255, 256, 257, 16383, 16384, 16385, 65535, 65537, 140000} {
		m := mset{Roots: []string{"/r"}}
		for i := 0; i < n; i++ {
			d := "common"
			if i == 0 || i == n-1 {
				d += " ends"
			}
			if i == n/2 {
				d += " middle"
			}
			m.Files = append(m.Files, file{fmt.Sprintf("/r/%06d", i), d})
		}
		visit(m)
	}
	// Names far into the name list.
	m := mset{Roots: []string{"/r"}}
	for i := range 40 {
		m.Files = append(m.Files, file{fmt.Sprintf("/r/%02d", i) + strings.Repeat("n", 450000), fmt.Sprintf("number %02d", i)})
	}
	visit(m)
	// Posting index fills: n distinct trigrams in one file.
	maxT := 120
	if !quick {
		maxT = 420
	}
	db := deBruijn("abcdefgh", maxT)
	for n := 1; n <= maxT; n++ {
		m := mset{Roots: []string{"/r"}, Files: []file{{"/r/big", db[:n+2]}}}
		if n%2 == 0 {
			for i := 0; i < 20; i++ {
				m.Files = append(m.Files, file{fmt.Sprintf("/r/c%02d", i), db[n/2 : n+2]})
			}
		}
		visit(m)
	}
}

func init() {
	register(&Prop{
		ID: "C19", Level: "model_checked_conformance",
		Rule: "Every case of the stated families (file sets x encoder variants) is enumerated; a case is non-trivial when the set has at least one file (or, for gap cases, a list with the stated increments).",
		Assumptions: []string{"the independent encoder and decoder were written from the format description in index/read.go, with 16 (not 31) as the γ code of 0, as in all files written so far",
			"version 1 files are encoded without alignment, as the description (and the program that wrote them) has it"},
		Jobs: func(tier string) []Job {
			quick := tier != "thorough"
			var js []Job
			js = append(js, shardJobs("read", 6, func(r *Run, sh, k int) {
				i := 0
				c19sets(quick, func(m mset) {
					for _, v := range encVariants {
						i++
						if i%k == sh {
							c19run(r, &c19case{Kind: "read", Set: m, Variant: v})
						}
					}
				})
			})...)
			js = append(js, shardJobs("write", 8, func(r *Run, sh, k int) {
				i := 0
				c19sets(quick, func(m mset) {
					i++
					if i%k == sh {
						c19run(r, &c19case{Kind: "write", Set: m})
					}
				})
			})...)
			// Merges: every old set over two roots x newer index covering one of them.
			js = append(js, shardJobs("merge", 8, func(r *Run, sh, k int) {
				oldF := []file{{"/r/a", "abcd\n"}, {"/r/b/c", "bcde\nabc"}, {"/s/x", "abcd"}, {"/s/y", "defg"}, {"/t", "zzzz"}}
				news := []mset{{Roots: []string{"/s"}, Files: []file{{"/s/x", "new contents"}, {"/s/z", "abcd"}}}, {Roots: []string{"/q", "/z"}},
					{Roots: []string{"/r/b"}, Files: []file{{"/r/b/d", "abcd"}}}, {Roots: []string{"/"}, Files: []file{{"/u", "abcx"}}}}
				i := 0
				for bits := 0; bits < 32; bits++ {
					old := mset{Roots: []string{"/r", "/s", "/t"}}
					for j, f := range oldF {
						if bits>>j&1 != 0 {
							old.Files = append(old.Files, f)
						}
					}
					for _, nw := range news {
						for _, v := range encVariants {
							for _, ne := range []bool{false, true} {
								i++
								if i%k == sh {
									c19run(r, &c19case{Kind: "merge", Old: &old, Set: nw, Variant: v, NewEnc: ne})
								}
							}
						}
					}
				}
			})...)
			js = append(js, shardJobs("mergebig", 8, func(r *Run, sh, k int) {
				i := 0
				nw := mset{Roots: []string{"/r/dir01", "/s"}, Files: []file{{"/r/dir01/n", "common third"}, {"/s/q", db19}}}
				c19sets(quick, func(m mset) {
					if len(m.Roots) != 1 || m.Roots[0] != "/r" {
						return
					}
					for j, v := range encVariants {
						if quick && (i+j)%3 != 0 && v.V == 2 {
							continue
						}
						i++
						if i%k == sh {
							c19run(r, &c19case{Kind: "merge", Old: &m, Set: nw, Variant: v, NewEnc: true})
						}
					}
				})
			})...)
			js = append(js, shardJobs("holes", 4, func(r *Run, sh, k int) {
				set := mset{Roots: []string{"/r", "/s"}, Files: []file{{"/r/a", "abcd\n"}, {"/r/b", "bcde\nabc"}, {"/s/x", "abcd"}, {"/s/y", "zzzz"}}}
				for i := range 30 {
					set.Files = append(set.Files, file{fmt.Sprintf("/s/z/%02d", i), db19[i:]})
				}
				nw := mset{Roots: []string{"/r/b", "/t"}, Files: []file{{"/r/b/d", "abcd"}, {"/t/x", "abcd\n"}}}
				np := len(plistsOf(set.Files))
				i := 0
				for _, v := range encVariants {
					for _, h := range []int64{1 << 16, 1 << 24, 1 << 31, 1 << 32, 5 << 32} {
						if v.V == 1 && h >= 1<<32 {
							continue
						}
						for _, at := range []int{0, 1, 2, 3, 4, 10, 11, 10 + np/2, 10 + np - 1} {
							if v.V == 1 && at == 4 {
								continue // the number of names is told from where the name index ends
							}
							i++
							if i%k == sh {
								c19run(r, &c19case{Kind: "holes", Variant: v, Hole: h, At: at, Set: set, Old: &nw})
							}
						}
					}
				}
			})...)
			js = append(js, shardJobs("gaps", 8, func(r *Run, sh, k int) {
				var gs []int
				top := 39
				for b := 0; b <= top; b++ {
					for d := -2; d <= 2; d++ {
						if g := 1<<b + d; g > 0 {
							gs = append(gs, g)
						}
					}
				}
				i := 0
				for _, v := range []encVariant{encVariants[0], encVariants[2]} {
					for _, g := range gs {
						if v.V == 1 && g > 1<<30 {
							continue
						}
						for s := 0; s < 9; s++ {
							i++
							if i%k != sh {
								continue
							}
							c19run(r, &c19case{Kind: "gaps", Variant: v, Gaps: []int{g}, Shift: s})
							if v.V == 2 || g < 1<<28 {
								c19run(r, &c19case{Kind: "gaps", Variant: v, Gaps: []int{g, g, 1, g}, Shift: s})
							}
						}
					}
					small := []int{1, 2, 15, 16, 17, 30, 31, 32, 255, 256, 65535, 1 << 20}
					for _, a := range small {
						for _, b := range small {
							for _, d := range small {
								i++
								if i%k != sh {
									continue
								}
								c19run(r, &c19case{Kind: "gaps", Variant: v, Gaps: []int{a, b, d, 1, a}})
							}
						}
					}
				}
			})...)
			return js
		},
		Replay: func(r *Run, c json.RawMessage) { v := caseOf[c19case](c); c19run(r, &v) },
	})
}

var db19 = deBruijn("abcdefgh", 58)

var _ = index.Open
