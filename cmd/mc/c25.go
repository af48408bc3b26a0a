package main

import (
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"strings"

	"github.com/google/codesearch/index"
)

// C25: every combination of cindex flags, roots, prior index and place of temporary files, and library builds
// and merges with every spill size; all directories involved are listed before and after.

type c25case struct {
	Prior string   // none, written, v1, merged
	Flags []string `json:",omitempty"`
	Roots []string `json:",omitempty"`
	Tmp   string   // separate, beside (the index's directory)
	Lib   string   `json:",omitempty"` // a library case instead
	N     int      `json:",omitempty"`
}

// c25list lists files with content and modification time; skip is left out.
func c25list(dir, skip string) map[string]string {
	m := map[string]string{}
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil || p == skip || p == dir {
			return nil
		}
		info, err := os.Lstat(p)
		if err != nil {
			return nil
		}
		s := fmt.Sprintf("%v %d", info.Mode(), info.Size())
		if info.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			s += fmt.Sprintf(" %x %v", h64(string(b)), info.ModTime())
		}
		m[p] = s
		return nil
	})
	return m
}

func c25diff(a, b map[string]string) string {
	for k, v := range b {
		if w, ok := a[k]; !ok {
			return "created " + k
		} else if w != v {
			return "changed " + k + ": " + w + " -> " + v
		}
	}
	for k := range a {
		if _, ok := b[k]; !ok {
			return "removed " + k
		}
	}
	return ""
}

type c25world struct {
	base, tree, ixdir, ix, tmp, home, cwd string
}

func (r *Run) c25setup() *c25world {
	b := filepath.Join(r.Scratch, "c25")
	w := &c25world{base: b, tree: b + "/tree", ixdir: b + "/ixdir", ix: b + "/ixdir/csindex", tmp: b + "/tmp", home: b + "/home", cwd: b + "/cwd"}
	if _, err := os.Stat(b); err == nil {
		return w
	}
	for _, d := range []string{w.tree, w.ixdir, w.tmp, w.home, w.cwd} {
		os.MkdirAll(d, 0777)
	}
	mustWrite(w.tree+"/a/one", []byte("text one\n"))
	mustWrite(w.tree+"/a/two", []byte("text two\n"))
	mustWrite(w.tree+"/b~", []byte("backup\n"))
	mustWrite(w.tree+"/b/three", []byte("text three\n"))
	mustWrite(w.tree+"/bin", []byte("a\x00b"))
	mustWrite(w.tree+"/z.zip", c18zip([]c18member{{"m", "text"}, {"n", "deflate"}}))
	mustWrite(w.tree+"/bad.zip", []byte("PK\x03\x04 not a zip"))
	mustWrite(w.ixdir+"/other~", []byte("not ours"))
	// Files of others with names that a program might think its own.
	for _, d := range []string{w.tmp, w.ixdir} {
		for _, n := range []string{"csearch", "csearch.tmp", "cindex", "cindex.tmp", "csearch-names", "csearch-post", ".csearchindex", "csindex.tmp", "csindex.new", "csindex.bak", "csindex.lock", "csindex.old", ".csindex"} {
			mustWrite(d+"/"+n, []byte("not ours"))
		}
		for i := 0; i < 24; i++ {
			for _, n := range []string{"csearch%d", "csearch%03d", "csearch-%d", "csearch.%d", "csearch%d.tmp", "cindex%d", "cindex-%d"} {
				mustWrite(d+"/"+fmt.Sprintf(n, i), []byte("not ours"))
			}
		}
	}
	return w
}

var c25priors = map[string][]byte{}

// c25prior gives the bytes of a prior index.
func c25prior(r *Run, w *c25world, kind string) []byte {
	if b, ok := c25priors[kind]; ok {
		return b
	}
	m := mset{Roots: []string{w.tree + "/a"}, Files: []file{{w.tree + "/a/one", "text one\n"}, {w.tree + "/a/zwei", "gone\n"}}}
	var b []byte
	switch kind {
	case "written", "merged":
		b = c15bytes(r, kind, m)
	case "v1":
		b = encodeIndex(encVariants[0], m.Roots, namesOf(m.Files), plistsOf(m.Files), -1, nil)
	}
	c25priors[kind] = b
	return b
}

func c25run(r *Run, c *c25case) {
	r.At(c)
	if c.Lib != "" {
		c25lib(r, c)
		return
	}
	w := r.c25setup()
	if b := c25prior(r, w, c.Prior); b != nil {
		mustWrite(w.ix, b)
	} else {
		os.Remove(w.ix)
	}
	tmp := w.tmp
	if c.Tmp == "beside" {
		tmp = w.ixdir
	}
	before := c25list(w.base, w.ix)
	args := append([]string{}, c.Flags...)
	for _, x := range c.Roots {
		args = append(args, filepath.Join(w.tree, x))
	}
	res := r.tool(cliOpt{Dir: w.cwd, Index: w.ix, Env: []string{"TMPDIR=" + tmp, "HOME=" + w.home}}, "cindex", args...)
	r.Step(1)
	if res.Code != 0 {
		// Not a successful run; nothing is claimed. Clean up for the next case.
		r.Outcome("run failed")
		r.Trace(false)
		for p := range c25list(w.base, w.ix) {
			if _, ok := before[p]; !ok {
				os.Remove(p)
			}
		}
		return
	}
	if d := c25diff(before, c25list(w.base, w.ix)); d != "" {
		r.Fail(c, "cindex %q succeeded and %s\nstderr: %s", args, d, cut(res.Err))
	}
	has := func(f string) bool { return strings.Contains(" "+strings.Join(c.Flags, " ")+" ", " "+f+" ") }
	if _, err := os.Stat(w.ix); (err != nil) != (!has("-list") && has("-reset") && len(c.Roots) == 0) {
		r.Fail(c, "cindex %q: index present: %v", args, err == nil)
	}
	r.Trace(true)
	r.State(h64(fmt.Sprint(*c)))
	switch {
	case has("-list"):
		r.Outcome("list only")
	case c.Prior == "none" || has("-reset"):
		r.Outcome("fresh index")
	default:
		r.Outcome("merged index")
	}
}

// c25lib: library builds and merges.
func c25lib(r *Run, c *c25case) {
	tmp := os.Getenv("TMPDIR")
	if tmp == "" || !strings.HasPrefix(tmp, r.Scratch) {
		panic(harnessErr("TMPDIR is not private"))
	}
	d := filepath.Join(r.Scratch, "c25lib")
	os.RemoveAll(d)
	os.MkdirAll(d, 0777)
	var fs []file
	for i := 0; i < c.N%40; i++ {
		fs = append(fs, file{fmt.Sprintf("/r/f%02d", i), fmt.Sprintf("content %d of file", i*i)})
	}
	if c.N%3 == 0 {
		fs = append(fs, file{"/s/bin", "a\x00"}, file{"/s/utf", "\xff\xfe"})
	}
	before := c25list(tmp, "")
	a, b, m := d+"/a", d+"/b", d+"/m"
	r.must(c, "build", func() { buildIndex(a, []string{"/r", "/s"}, fs, buildOpt{spill: c.N % 7 * 5}) })
	want := []string{"a"}
	check := func(what string) {
		if x := c25diff(before, c25list(tmp, "")); x != "" {
			r.Fail(c, "after %s: %s", what, x)
		}
		var got []string
		es, _ := os.ReadDir(d)
		for _, e := range es {
			got = append(got, e.Name())
		}
		if !eqStrings(got, want) {
			r.Fail(c, "after %s the directory of the index holds %q, want %q", what, got, want)
		}
		r.Step(1)
	}
	check("building an index")
	r.must(c, "build", func() {
		leafIndex(b, mset{Roots: []string{"/r/f01", "/z.zip"}, Files: []file{{"/r/f01", "new"}, {"/z.zip\x01m", "member"}}})
	})
	want = []string{"a", "b"}
	check("building an index with an archive")
	ab, bb := mustRead(a), mustRead(b)
	r.must(c, "merge", func() { index.Merge(m, a, b) })
	want = []string{"a", "b", "m"}
	check("merging")
	if string(mustRead(a)) != string(ab) || string(mustRead(b)) != string(bb) {
		r.Fail(c, "Merge changed an input")
	}
	r.must(c, "read", func() {
		ix, done := openIndex(m)
		defer done()
		ix.Check()
		ix.PostingQuery(&index.Query{Op: index.QAll})
	})
	check("reading")
	unmapScratch(r)
	r.Trace(true)
	r.State(h64(fmt.Sprint(*c)))
	r.Outcome("library build and merge")
}

func init() {
	register(&Prop{
		ID: "C25", Level: "model_checked_conformance",
		Rule:        "Every combination of cindex flags x roots x prior index x place of temporary files, and library builds and merges; non-trivial when the run succeeds.",
		Assumptions: []string{"TMPDIR and the index's directory are not inside the indexed tree"},
		Jobs: func(tier string) []Job {
			quick := tier != "thorough"
			flags := []string{"-reset", "-zip", "-check", "-verbose", "-stats", "-list"}
			roots := [][]string{nil, {"a"}, {"."}, {"a", "b"}, {"a", ".", "b/three"}, {"missing"}, {"z.zip", "bin"}, {"b~"}}
			var cs []*c25case
			for bits := 0; bits < 64; bits++ {
				var fl []string
				for i, f := range flags {
					if bits>>i&1 != 0 {
						fl = append(fl, f)
					}
				}
				for _, rt := range roots {
					for _, p := range []string{"none", "written", "v1", "merged"} {
						for _, t := range []string{"separate", "beside"} {
							if quick && t == "beside" && bits&24 == 24 {
								continue
							}
							cs = append(cs, &c25case{Prior: p, Flags: fl, Roots: rt, Tmp: t})
						}
					}
				}
			}
			js := shardJobs("cindex", 16, func(r *Run, sh, k int) {
				for i, c := range cs {
					if i%k == sh {
						c25run(r, c)
					}
				}
			})
			n := 120
			if !quick {
				n = 840
			}
			return append(js, shardJobs("library", 8, func(r *Run, sh, k int) {
				for i := 0; i < n; i++ {
					if i%k == sh {
						c25run(r, &c25case{Lib: "build and merge", N: i})
					}
				}
			})...)
		},
		Replay: func(r *Run, raw json.RawMessage) {
			c := caseOf[c25case](raw)
			c25run(r, &c)
		},
	})
}
