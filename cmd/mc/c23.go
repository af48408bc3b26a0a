package main

import (
	"encoding/json"
	"io/fs"
	"os"
	"path/filepath"
	"strings"

	"github.com/google/codesearch/index"
)

// C23: every pair and triple of paths over a small alphabet: Compare is the total order of
// element-by-element comparison, HasPathPrefix is equality or lying below, and subtrees are contiguous.

type c23case struct {
	A, B, C string
	Kind    string
}

// c23cmp compares element by element; an archive's members come after the archive and before its siblings.
func c23cmp(a, b string) int {
	ea, eb := strings.Split(a, "/"), strings.Split(b, "/")
	for i := 0; i < len(ea) && i < len(eb); i++ {
		if c := strings.Compare(ea[i], eb[i]); c != 0 {
			return c
		}
	}
	return sign(len(ea) - len(eb))
}

func sign(x int) int {
	switch {
	case x < 0:
		return -1
	case x > 0:
		return 1
	}
	return 0
}

func c23below(p, q string) bool {
	return p == q || strings.HasPrefix(p, strings.TrimSuffix(q, "/")+"/")
}

func c23pair(r *Run, a, b string) {
	c := &c23case{A: a, B: b, Kind: "pair"}
	r.must(c, "Compare", func() {
		pa, pb := index.MakePath(a), index.MakePath(b)
		got := sign(pa.Compare(pb))
		if want := c23cmp(a, b); got != want {
			r.Fail(c, "Compare(%q, %q) has sign %d, want %d", a, b, got, want)
		}
		if back := sign(pb.Compare(pa)); back != -got {
			r.Fail(c, "Compare(%q, %q) has sign %d, and %d the other way", a, b, got, back)
		}
		if got, want := pa.HasPathPrefix(pb), c23below(a, b); got != want {
			r.Fail(c, "%q.HasPathPrefix(%q) = %v, want %v", a, b, got, want)
		}
		if pa.String() != a {
			r.Fail(c, "MakePath(%q).String() = %q", a, pa.String())
		}
	})
	r.Step(3)
}

func c23paths(elems []string, depth int, root bool) []string {
	var out []string
	if root {
		out = append(out, "/")
	}
	cur := []string{""}
	for d := 0; d < depth; d++ {
		var next []string
		for _, p := range cur {
			for _, e := range elems {
				next = append(next, p+"/"+e)
			}
		}
		out = append(out, next...)
		cur = next
	}
	return out
}

func c23jobs(tier string) []Job {
	quick := tier != "thorough"
	n, tn := 5, 5
	if !quick {
		n, tn = 6, 6
	}
	// Strings over an alphabet around '/': every valid absolute or relative name (no empty element).
	letters := []string{"/", "a", "b", "!", "\xff"}
	if quick {
		letters = append(letters, ".")
	}
	var all []string
	for _, s := range strs(letters, n) {
		if s != "" && !strings.Contains(s, "//") && (s == "/" || !strings.HasSuffix(s, "/")) {
			all = append(all, s)
		}
	}
	pairs := shardJobs("pairs", 16, func(r *Run, sh, k int) {
		for i, a := range all {
			if i%k != sh {
				continue
			}
			r.At(&c23case{A: a, Kind: "pairs of"})
			r.State(h64(a))
			for _, b := range all {
				// A relative and an absolute name are never in one index.
				if (a[0] == '/') == (b[0] == '/') {
					c23pair(r, a, b)
					r.Trace(a != b)
				}
			}
			r.Outcome("path compared with all others")
		}
	})
	// Long names: small differences behind common parts of every length, and with more behind them.
	var pads []string
	for l := 0; l <= 40; l++ {
		pads = append(pads, strings.Repeat("x", l))
	}
	for _, l := range []int{63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024} {
		pads = append(pads, strings.Repeat("x", l))
	}
	pads = append(pads, "/usr/local/go/src/x", "src/a/b/c/d/e/f/g", strings.Repeat("dir/", 9)+"e", "/"+strings.Repeat("dir/", 60)+"e")
	tails := []string{"", "y", "yyyyyyyy", "/yyyyyyyyyyyyyyy", strings.Repeat("yy/zz", 8), ".yyyyyy/yyyy", strings.Repeat("z", 70)}
	var mids []string
	for _, s := range strs([]string{"/", "a", "b", ".", "\xff"}, 2) {
		if !strings.Contains(s, "//") {
			mids = append(mids, s)
		}
	}
	valid := func(s string) bool {
		return s != "" && !strings.Contains(s, "//") && (s == "/" || !strings.HasSuffix(s, "/"))
	}
	js := append(pairs, shardJobs("long pairs", 16, func(r *Run, sh, k int) {
		for i, pad := range pads {
			if i%k != sh {
				continue
			}
			r.At(&c23case{A: pad, Kind: "pairs of"})
			for _, m1 := range mids {
				for _, t1 := range tails {
					a := pad + m1 + t1
					if !valid(a) {
						continue
					}
					for _, m2 := range mids {
						for _, t2 := range tails {
							b := pad + m2 + t2
							if !valid(b) || (a[0] == '/') != (b[0] == '/') {
								continue
							}
							c23pair(r, a, b)
							r.Trace(a != b)
						}
					}
				}
			}
			r.State(h64(pad))
		}
		r.Outcome("long names")
	})...)
	// Deep paths: elements chosen so that one is a prefix of another.
	elems := []string{"A", "a!", "0", "a", "a b", "a.b", "a-", "aa", "b", "日", "~", "z.zip"}
	deep := c23paths(elems, 3, true)
	js = append(js, shardJobs("deep pairs", 16, func(r *Run, sh, k int) {
		for i, a := range deep {
			if i%k != sh {
				continue
			}
			r.At(&c23case{A: a, Kind: "pairs of"})
			r.State(h64(a))
			for _, b := range deep {
				c23pair(r, a, b)
				r.Trace(a != b)
			}
		}
		r.Outcome("deep paths")
	})...)
	// Transitivity and contiguity over triples: for a <= b <= c with a and c inside a subtree, b is inside.
	trip := strs([]string{"/", "a", "b", "."}, tn)
	var tv []string
	for _, s := range trip {
		if s != "" && s[0] == '/' && !strings.Contains(s, "//") && (s == "/" || !strings.HasSuffix(s, "/")) {
			tv = append(tv, s)
			if len(s) > 1 {
				tv = append(tv, s+"\x01a", s+"\x01a/b", s+"\x01b")
			}
		}
	}
	js = append(js, shardJobs("triples", 16, func(r *Run, sh, k int) {
		ps := make([]index.Path, len(tv))
		for i, s := range tv {
			ps[i] = index.MakePath(s)
		}
		for i, a := range tv {
			if i%k != sh {
				continue
			}
			r.At(&c23case{A: a, Kind: "triples of"})
			for j, b := range tv {
				if ps[i].Compare(ps[j]) > 0 {
					continue
				}
				for l, c := range tv {
					if ps[j].Compare(ps[l]) > 0 {
						continue
					}
					cs := &c23case{a, b, c, "triple"}
					if ps[i].Compare(ps[l]) > 0 {
						r.Fail(cs, "%q <= %q <= %q, but %q > %q", a, b, c, a, c)
					}
					// a is the subtree's own path: everything between a and a path inside is inside.
					if under(c, a) && !under(b, a) {
						r.Fail(cs, "%q lies between %q and %q, which is inside it", b, a, c)
					}
				}
				r.Step(len(tv))
			}
			r.Trace(true)
			r.State(h64("t" + a))
		}
		r.Outcome("triples")
	})...)
	// Directory walk order: a real tree, walked, is in Compare order.
	js = append(js, Job{"walk", func(r *Run) {
		root := filepath.Join(r.Scratch, "walk")
		es := []string{"a", "a b", "a!", "a.b", "a-b", "aa", "A", "日", "b", "\x7f", "z.zip", "0"}
		for _, a := range es {
			for _, b := range es {
				mustWrite(filepath.Join(root, a+"d", b), nil)
				mustWrite(filepath.Join(root, a+"d", b+"d", "f"), nil)
			}
			mustWrite(filepath.Join(root, a), nil)
		}
		last := ""
		filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
			if err != nil {
				panic(harnessErr(err.Error()))
			}
			if last != "" {
				c := &c23case{A: last, B: p, Kind: "pair"}
				if index.MakePath(last).Compare(index.MakePath(p)) >= 0 {
					r.Fail(c, "a walk lists %q before %q, but Compare does not", last, p)
				}
				r.Step(1)
				r.Trace(true)
			}
			last = p
			return nil
		})
		r.Outcome("walk in order")
		os.RemoveAll(root)
	}})
	return js
}

func init() {
	register(&Prop{
		ID: "C23", Level: "model_checked_conformance",
		Rule:        "All pairs of names of up to 5 characters over 6 (6 over 5), all pairs of paths of up to 3 elements over 12, all differences of up to 2 characters behind 57 common beginnings (every length to 40) and before 7 ends, all triples over a smaller set with archive members, and a walked tree; non-trivial when the names differ.",
		Assumptions: []string{"valid names have no empty element and no trailing slash, and one index holds only absolute or only relative names"},
		Jobs:        c23jobs,
		Replay: func(r *Run, raw json.RawMessage) {
			c := caseOf[c23case](raw)
			switch c.Kind {
			case "pair":
				c23pair(r, c.A, c.B)
			case "triple":
				a, b, d := index.MakePath(c.A), index.MakePath(c.B), index.MakePath(c.C)
				if a.Compare(b) <= 0 && b.Compare(d) <= 0 && (a.Compare(d) > 0 || under(c.C, c.A) && !under(c.B, c.A)) {
					r.Fail(c, "%q, %q, %q", c.A, c.B, c.C)
				}
			default:
				panic(harnessErr("run the check again"))
			}
		},
	})
}
