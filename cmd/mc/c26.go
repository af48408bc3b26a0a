package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/google/codesearch/index"
)

// C26: Check accepts every written index, and rejects every single-byte change of posting data and posting
// index (and every multi-byte edit of an entry) that an independent walk of the file calls damage.

type c26edit struct {
	Off  int // byte offset in the file
	Data []byte
}

type c26case struct {
	Src   string
	Set   mset
	Large int       `json:",omitempty"` // a set of c26large, from 1
	Entry string    `json:",omitempty"` // an edit of the posting index entries; see c26entryEdits
	List  *c26list  `json:",omitempty"`
	Edits []c26edit `json:",omitempty"`
	CLI   bool      `json:",omitempty"`
}

// A c26list is a posting list of Len increments of Gap each, changed at the increment At.
type c26list struct {
	Len, Gap, At int
	Op           string // zero: that increment is 0; drop, extra: one is left out, added, and the count as before; or none
}

func (l *c26list) encode() []byte {
	var w bitWriter
	n := l.Len
	switch l.Op {
	case "drop":
		n--
	case "extra":
		n++
	}
	for i := range n {
		d := l.Gap
		if i == l.At && l.Op == "zero" {
			d = 0
		}
		w.gamma(gammaCode(uint64(d)))
	}
	w.gamma(gammaCode(0))
	posts := []plist{{Tri: "aaa", IDs: []int{0}}, {Tri: "abc", IDs: make([]int, l.Len), Raw: w.b}, {Tri: "bcd", IDs: []int{1, 3}}}
	// As many files as the list has numbers for, if they are not too many (Check may go by that, but does not have to).
	var names []string
	for i := range max(4, min(l.Len*l.Gap, 3000)) {
		names = append(names, fmt.Sprintf("/r/%04d", i))
	}
	return encodeIndex(encVariants[2], []string{"/r"}, names, posts, -1, nil)
}

var c26null, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)

// c26check runs Check on the file; reason is "" if it accepts.
func c26check(name string) (reason string) {
	old := os.Stderr
	os.Stderr = c26null
	defer func() { os.Stderr = old }()
	var ix *index.Index
	msg := try(func() {
		ix = index.Open(name)
		if err := ix.Check(); err != nil {
			reason = err.Error()
			if reason == "" {
				reason = "(empty error)"
			}
		}
	})
	if ix != nil {
		closeIndex(ix)
	}
	if msg != "" {
		return msg
	}
	return reason
}

// c26entryEdits: edits made before encoding, "kind i j".
func c26edit1(spec string, es []rawEntry) {
	var kind string
	var i, j int
	fmt.Sscanf(spec, "%s %d %d", &kind, &i, &j)
	switch kind {
	case "offset": // entry i points to entry j's list
		es[i].offset = es[j].offset
	case "tri": // entry i claims trigram of j
		es[i].tri = es[j].tri
	case "count":
		es[i].count = uint64(int64(es[i].count) + int64(j))
	case "shift": // entry i points j bytes off
		es[i].offset = uint64(int64(es[i].offset) + int64(j))
	}
}

func c26make(r *Run, c *c26case) []byte {
	var b []byte
	if c.Large > 0 {
		d := *c
		d.Large, d.Set = 0, c26large()[c.Large-1]
		return c26make(r, &d)
	}
	if c.List != nil {
		return c.List.encode()
	}
	r.must(c, "building", func() {
		if c.Entry != "" {
			b = encodeIndex(encVariants[2], c.Set.Roots, namesOf(c.Set.Files), plistsOf(c.Set.Files), -1, func(es []rawEntry) { c26edit1(c.Entry, es) })
		} else {
			b = c15bytes(r, c.Src, c.Set)
		}
	})
	b = append([]byte{}, b...)
	for _, e := range c.Edits {
		copy(b[e.Off:], e.Data)
	}
	return b
}

// c26judge runs Check on bytes b. accept: the file must be accepted.
func c26judge(r *Run, c *c26case, name string, b []byte, accept bool) {
	what, open := damage(b)
	if accept && (what != "" || open) {
		panic(harnessErr("a written index looks damaged: " + what))
	}
	if !accept && what == "" {
		// Not judged; still it must come back.
		r.Outcome("change that is no damage")
		c26check(name)
		r.Step(1)
		r.Trace(false)
		return
	}
	reason := c26check(name)
	r.Step(1)
	r.Trace(true)
	if accept && reason != "" {
		r.Fail(c, "Check rejects an index as written: %s", reason)
	}
	if !accept && reason == "" {
		r.Fail(c, "Check accepts a damaged index: %s", what)
	}
	if accept {
		r.Outcome("written index accepted")
	} else {
		r.Outcome("damage rejected: " + c26kind(what))
	}
}

func c26kind(s string) string {
	for _, k := range []string{"points outside", "points to a list of", "impossible count", "increments", "runs past the end"} {
		if strings.Contains(s, k) {
			return k
		}
	}
	return "other"
}

func c26cli(r *Run, c *c26case, b []byte) {
	r.At(c)
	name := filepath.Join(r.Scratch, "cliindex")
	mustWrite(name, b)
	what, open := damage(b)
	res := r.tool(cliOpt{Index: name}, "cindex", "-check")
	r.Step(1)
	if what == "" && !open && res.Code != 0 {
		r.Fail(c, "cindex -check exits %d on an index as written\nstderr: %s", res.Code, res.Err)
	}
	if what != "" && res.Code == 0 {
		r.Fail(c, "cindex -check exits 0 on a damaged index: %s\nstderr: %s", what, res.Err)
	}
	r.Trace(true)
	r.Outcome(fmt.Sprintf("cindex -check exit %d", res.Code))
}

// c26sweep changes every byte of posting data and index in every way given.
func c26sweep(r *Run, src string, m mset, values []int, shard, k int) {
	c := &c26case{Src: src, Set: m}
	orig := c26make(r, c)
	name := filepath.Join(r.Scratch, "check")
	mustWrite(name, orig)
	if shard == 0 {
		r.At(c)
		c26judge(r, c, name, orig, true)
		c26cli(r, c, orig)
	}
	f, n, err := regions(orig)
	if err != nil {
		panic(harnessErr(err.Error()))
	}
	fd, err := os.OpenFile(name, os.O_RDWR, 0)
	if err != nil {
		panic(harnessErr(err.Error()))
	}
	defer fd.Close()
	h := h64(string(orig))
	b := append([]byte{}, orig...)
	i := 0
	for at := f[4]; at < n; at++ {
		if at >= f[6] && at < f[7] {
			continue // name index
		}
		i++
		if i%k != shard {
			continue
		}
		for _, v := range values {
			nv := orig[at] ^ byte(v)
			b[at] = nv
			c.Edits = []c26edit{{at, []byte{nv}}}
			r.At(c)
			fd.WriteAt(b[at:at+1], int64(at))
			c26judge(r, c, name, b, false)
			r.State(h ^ uint64(at)<<8*0x9e3779b97f4a7c15 ^ uint64(nv))
		}
		b[at] = orig[at]
		fd.WriteAt(b[at:at+1], int64(at))
	}
	r.Sample("%s: index of %d files, %d posting bytes, %d values each", src, len(m.Files), n-f[4], len(values))
}

func c26sets() []mset {
	one := mset{Roots: []string{"/r"}, Files: []file{{"/r/a", "abcd"}, {"/r/b", "abc xyz"}, {"/r/c", ""}}}
	gaps := mset{Roots: []string{"/r"}}
	for i := 0; i < 300; i++ {
		d := ""
		for _, g := range []struct {
			s string
			n int
		}{{"one", 1}, {"two", 2}, {"f15", 15}, {"f16", 16}, {"f17", 17}, {"f99", 99}, {"255", 255}} {
			if i%g.n == 0 {
				d += g.s + "\n"
			}
		}
		gaps.Files = append(gaps.Files, file{fmt.Sprintf("/r/%03d", i), d})
	}
	blocks := mset{Roots: []string{"/r"}, Files: []file{{"/r/a", deBruijn("abcdefgh", 130)}, {"/r/b", deBruijn("abcdefgh", 60)}}}
	full := mset{Roots: []string{"/r"}}
	full.Files = []file{{"/r/a", deBruijn("abcdefgh", 50)}} // fills one block nearly exactly
	return []mset{one, full, blocks, gaps}
}

// c26large: an index with hundreds of blocks, one with lists of thousands of numbers, one with thousands of blocks.
func c26large() []mset {
	many := mset{Roots: []string{"/r"}}
	huge := mset{Roots: []string{"/r"}}
	for i := 0; i < 40; i++ {
		// Each file has its own middle letter.
		var b strings.Builder
		n := 0
		for _, x := range c07letters[i*2 : i*2+1] {
			for _, y := range c07letters {
				for z := 0; z < len(c07letters); z += 2 {
					b.WriteRune(y)
					b.WriteRune(x)
					b.WriteByte(c07letters[(z+n)%len(c07letters)])
					if n++; n%300 == 0 {
						b.WriteByte('\n')
					}
				}
			}
		}
		huge.Files = append(huge.Files, file{fmt.Sprintf("/r/%02d", i), b.String()})
	}
	d := deBruijn(c07letters[:30], 26000)
	for i := 0; i < 5; i++ {
		var b strings.Builder
		t := d[i*5000 : i*5000+6000]
		for len(t) > 1500 {
			b.WriteString(t[:1500] + "\n")
			t = t[1500-2:]
		}
		many.Files = append(many.Files, file{fmt.Sprintf("/r/%d", i), b.String() + t})
	}
	long := mset{Roots: []string{"/r"}}
	for i := 0; i < 5000; i++ {
		s := "all\n"
		for _, k := range []int{2, 3, 4, 5, 20} {
			if i%k == 0 {
				s += fmt.Sprintf("by%c\n", 'a'+k)
			}
		}
		long.Files = append(long.Files, file{fmt.Sprintf("/r/%04d", i), s})
	}
	return []mset{many, long, huge}
}

// c26larges changes bytes at the ends, at the powers of two and beside them, of a large index: the first and last
// entries of such blocks, the ends of such lists, and bytes of the posting data at such places.
func c26larges(r *Run, which int, sh, k int) {
	c := &c26case{Src: "written", Large: which}
	r.At(c)
	orig := c26make(r, c)
	name := filepath.Join(r.Scratch, "check")
	mustWrite(name, orig)
	if sh == 0 {
		c26judge(r, c, name, orig, true)
	}
	f, n, err := regions(orig)
	if err != nil {
		panic(harnessErr(err.Error()))
	}
	quick := r.Tier != "thorough"
	special := func(n, dist int) (out []int) {
		m := map[int]bool{}
		for p := 1; p <= 2*n; p *= 2 {
			for d := -dist; d <= dist; d++ {
				m[p+d], m[n-p+d] = true, true
			}
		}
		for i := range m {
			if i >= 0 && i < n {
				out = append(out, i)
			}
		}
		sort.Ints(out)
		return
	}
	pos := map[int]bool{}
	bdist, values := 1, []int{1, 0x80, 0x10}
	ends := 6
	if quick && which == 3 {
		bdist, ends, values = 0, 2, values[:2] // Check dumps what it has read so far: a rejection takes long
	}
	for _, b := range special((n-f[7])/256, bdist) {
		at := f[7] + 256*b
		for i := 0; i < ends; i++ {
			pos[at+i], pos[at+3] = true, true
		}
		last := at + 255
		for last > at && orig[last] == 0 {
			last--
		}
		for i := 0; i < ends; i++ {
			pos[last-i] = true
		}
		// the list of the block's first entry
		_, cnt, off, _, err := decEntry(orig[at : at+256])
		if err != nil {
			panic(harnessErr(err.Error()))
		}
		l := orig[f[4]+int(off) : f[6]]
		_, used, err := decList(l[3:], int(cnt))
		if err != nil {
			continue
		}
		for _, i := range special(3+used, 1) {
			pos[f[4]+int(off)+i] = true
		}
	}
	for _, i := range special(f[6]-f[4], bdist) {
		pos[f[4]+i] = true
	}
	var list []int
	for p := range pos {
		list = append(list, p)
	}
	sort.Ints(list)
	fd, err := os.OpenFile(name, os.O_RDWR, 0)
	if err != nil {
		panic(harnessErr(err.Error()))
	}
	defer fd.Close()
	b := append([]byte{}, orig...)
	for i, at := range list {
		if i%k != sh {
			continue
		}
		if r.Expired() {
			return
		}
		for _, v := range values {
			nv := orig[at] ^ byte(v)
			b[at] = nv
			c.Edits = []c26edit{{at, []byte{nv}}}
			r.At(c)
			fd.WriteAt(b[at:at+1], int64(at))
			c26judge(r, c, name, b, false)
			r.State(h64(fmt.Sprint("large", which, at, v)))
		}
		b[at] = orig[at]
		fd.WriteAt(b[at:at+1], int64(at))
	}
	r.Sample("large index %d: %d blocks, %d places changed", which, (n-f[7])/256, len(list))
}

func init() {
	register(&Prop{
		ID: "C26", Level: "model_checked_conformance",
		Rule:        "Every byte of the posting data and posting index x every listed value, and every entry edit, is applied to a written index; a case is non-trivial when an independent walk of the changed file finds an entry that does not point to its own list (or the file is unchanged and must be accepted).",
		Assumptions: []string{"changes that leave every entry pointing to a well-formed list of its trigram (for example of file numbers only) are not judged, as the property does not speak of them"},
		Jobs: func(tier string) []Job {
			quick := tier != "thorough"
			bits := []int{1, 2, 4, 8, 16, 32, 64, 128, 255, 3, 0x0f, 0x7f}
			var all []int
			for i := 1; i < 256; i++ {
				all = append(all, i)
			}
			sets := c26sets()
			js := shardJobs("bytes", 8, func(r *Run, sh, k int) {
				for i, m := range sets {
					vals := all
					if quick && i >= 2 {
						vals = bits
					}
					c26sweep(r, "written", m, vals, sh, k)
					c26sweep(r, "merged", m, vals, sh, k)
				}
			})
			js = append(js, shardJobs("entries", 8, func(r *Run, sh, k int) {
				n := 0
				for si, m := range sets {
					np := len(plistsOf(m.Files)) + 1
					var specs []string
					for i := 0; i < np; i++ {
						for j := 0; j < np; j++ {
							if i != j && (!quick || np < 80 || (i+j)%5 == 0 || j == np-1 || i == np-1) {
								specs = append(specs, fmt.Sprintf("offset %d %d", i, j), fmt.Sprintf("tri %d %d", i, j))
							}
						}
						for _, d := range []int{-3, -2, -1, 1, 2, 3, 15, 16, 17, 1 << 20, 1 << 62} {
							specs = append(specs, fmt.Sprintf("count %d %d", i, d), fmt.Sprintf("shift %d %d", i, d))
						}
					}
					for _, s := range specs {
						n++
						if n%k != sh {
							continue
						}
						c := &c26case{Set: m, Entry: s}
						if strings.HasPrefix(s, "count") && strings.Contains(s, " -") || strings.HasPrefix(s, "shift") && strings.Contains(s, " -") {
							// keep the arithmetic within unsigned range
							var kind string
							var i, j int
							fmt.Sscanf(s, "%s %d %d", &kind, &i, &j)
							bad := false
							encodeIndex(encVariants[2], m.Roots, namesOf(m.Files), plistsOf(m.Files), -1, func(es []rawEntry) {
								bad = kind == "count" && int64(es[i].count)+int64(j) < 0 || kind == "shift" && int64(es[i].offset)+int64(j) < 0
							})
							if bad {
								continue
							}
						}
						r.At(c)
						b := c26make(r, c)
						name := filepath.Join(r.Scratch, "check")
						mustWrite(name, b)
						c26judge(r, c, name, b, false)
						r.State(h64(fmt.Sprint(si, s)))
						if si == 0 {
							c.CLI = true
							c26cli(r, c, b)
						}
					}
				}
			})...)
			for i := range c26large() {
				js = append(js, shardJobs(fmt.Sprintf("large %d", i+1), 16, func(r *Run, sh, k int) { c26larges(r, i+1, sh, k) })...)
			}
			// Lists that end early, late, or twice, of many lengths and increments.
			js = append(js, shardJobs("lists", 8, func(r *Run, sh, k int) {
				name := filepath.Join(r.Scratch, "check")
				i := 0
				lens := []int{1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 66, 127, 129, 200, 255, 256, 257, 513, 1000, 1025, 4097, 16385, 32769, 65535, 65536, 65537, 131073}
				for _, n := range lens {
					for _, gap := range []int{1, 2, 5, 15, 16, 17, 31, 100, 4096, 1 << 20} {
						pos := map[int]bool{}
						for p := 1; p <= 2*n; p *= 2 {
							for d := -1; d <= 1; d++ {
								pos[p+d], pos[n-p+d] = true, true
							}
						}
						for p := 0; p < n; p++ {
							if !pos[p] {
								continue
							}
							for _, op := range []string{"zero", "drop", "extra", ""} {
								if i++; i%k != sh || op != "zero" && p > 0 || op == "" && n*gap > 3000 || quick && n > 5000 && i/k%8 != 0 {
									continue
								}
								c := &c26case{List: &c26list{n, gap, p, op}}
								r.At(c)
								b := c26make(r, c)
								mustWrite(name, b)
								c26judge(r, c, name, b, op == "")
								r.State(h64(fmt.Sprint("list", *c.List)))
							}
						}
						if r.Expired() {
							return
						}
					}
				}
			})...)
			if !quick {
				// Pairs of bytes of the smallest index.
				js = append(js, shardJobs("pairs", 16, func(r *Run, sh, k int) {
					c := &c26case{Src: "written", Set: sets[0]}
					orig := c26make(r, c)
					f, n, _ := regions(orig)
					name := filepath.Join(r.Scratch, "check")
					var pos []int
					last := f[7]
					for at := f[7]; at < n; at++ {
						if orig[at] != 0 {
							last = at
						}
					}
					for at := f[4]; at < f[6]; at++ {
						pos = append(pos, at)
					}
					for at := f[7]; at <= last+4; at++ {
						pos = append(pos, at)
					}
					b := append([]byte{}, orig...)
					i := 0
					for x, p := range pos {
						for _, q := range pos[x+1:] {
							i++
							if i%k != sh {
								continue
							}
							for _, v := range bits {
								for _, w := range bits {
									b[p], b[q] = orig[p]^byte(v), orig[q]^byte(w)
									c.Edits = []c26edit{{p, []byte{b[p]}}, {q, []byte{b[q]}}}
									r.At(c)
									mustWrite(name, b)
									c26judge(r, c, name, b, false)
									r.State(h64(fmt.Sprint("pair", p, q, v, w)))
								}
							}
							b[p], b[q] = orig[p], orig[q]
						}
					}
				})...)
			}
			// Written and merged indexes of other properties' families are accepted.
			js = append(js, shardJobs("accept", 4, func(r *Run, sh, k int) {
				i := 0
				c19sets(true, func(m mset) {
					i++
					if i%k != sh || len(m.Files) > 300 {
						return
					}
					for _, src := range []string{"written", "merged"} {
						if src == "merged" && (len(m.Roots) == 0 || m.Roots[0] == "/") {
							continue
						}
						c := &c26case{Src: src, Set: m}
						r.At(c)
						b := c26make(r, c)
						c26judge(r, c, filepath.Join(r.Scratch, "full"), b, true)
						r.State(h64("accept" + fmt.Sprint(m)))
					}
				})
			})...)
			return js
		},
		Replay: func(r *Run, raw json.RawMessage) {
			c := caseOf[c26case](raw)
			b := c26make(r, &c)
			if c.CLI {
				c26cli(r, &c, b)
			}
			name := filepath.Join(r.Scratch, "check")
			mustWrite(name, b)
			c26judge(r, &c, name, b, len(c.Edits) == 0 && c.Entry == "" && (c.List == nil || c.List.Op == ""))
		},
	})
}
