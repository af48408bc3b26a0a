package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/google/codesearch/index"
)

// C17: all pairs of siblings over name shapes x kinds of file (two levels deep), and all short lists of
// roots of every kind, indexed by the real cindex and compared with the stated coverage rule.

type c17ent struct {
	Path string // relative
	Kind string
}

type c17case struct {
	Ents  []c17ent
	Roots []string // relative to the tree; "." is the tree
	Uid   int      `json:",omitempty"`
}

const c17text = "some text\n"

var c17names = []string{"a", ".a", "#a", "~a", "a~", "a.", "a#b", "a~b", "..a", "~", "#", "a!", "a-b", "b c", "日~x", "日", "-x", "c\x01d", "n\nl", "bad\xff", "d\x7f", "\x7fe", "z.zip", "zz"}

var c17kinds = []string{"file", "dir", "linkfile", "linkdir", "fifo", "empty", "bin", "emptydir", "dangling", "sock", "hard", "noread", "nodir", "xdir"}

// c17mode takes a kind "mode:4755" (a file of that mode), "dmode:1777" or "time:-1" apart.
func c17mode(kind string) (what string, n int64) {
	what, v, ok := strings.Cut(kind, ":")
	if !ok {
		return "", 0
	}
	base := 8
	if what == "time" || what == "size" {
		base = 10
	}
	n, err := strconv.ParseInt(v, base, 64)
	if err != nil {
		panic(harnessErr("kind " + kind))
	}
	return
}

// c17same is the plain kind that a kind with a mode or time amounts to, for a user who is neither owner nor group.
func c17same(kind string) string {
	switch what, n := c17mode(kind); what {
	case "mode":
		if n&4 == 0 {
			return "noread"
		}
		return "file"
	case "dmode":
		switch {
		case n&4 == 0:
			return "nodir"
		case n&1 == 0:
			return "xdir"
		}
		return "dir"
	case "time", "size":
		return "file"
	}
	return kind
}

// c17make creates an entry.
func c17make(p, kind, shared string) {
	switch what, n := c17mode(kind); what {
	case "mode":
		c17make(p, "file", shared)
		if err := syscall.Chmod(p, uint32(n)); err != nil {
			panic(harnessErr(err.Error()))
		}
		return
	case "dmode":
		c17make(p, "dir", shared)
		if err := syscall.Chmod(p, uint32(n)); err != nil {
			panic(harnessErr(err.Error()))
		}
		return
	case "size":
		line := strings.Repeat("large text ", 8) + "\n"
		mustWrite(p, []byte(strings.Repeat(line, int(n)/len(line)+1)[:n]))
		return
	case "time":
		c17make(p, "file", shared)
		if err := os.Chtimes(p, time.Unix(n, 0), time.Unix(n, 0)); err != nil {
			panic(harnessErr(err.Error()))
		}
		return
	}
	mk := func(q string) { mustWrite(q, []byte(c17text)) }
	var err error
	os.MkdirAll(filepath.Dir(p), 0777)
	switch kind {
	case "file":
		mk(p)
	case "empty":
		mustWrite(p, nil)
	case "bin":
		mustWrite(p, []byte("ab\x00cd\n"))
	case "dir":
		mk(p + "/f")
		mk(p + "/.h")
		mk(p + "/s/g")
		mk(p + "/~t/g")
	case "emptydir":
		err = os.Mkdir(p, 0777)
	case "linkfile":
		err = os.Symlink(filepath.Join(shared, "target"), p)
	case "linkdir":
		err = os.Symlink(shared, p)
	case "dangling":
		err = os.Symlink("nowhere", p)
	case "fifo":
		err = syscall.Mkfifo(p, 0666)
	case "sock":
		err = syscall.Mknod(p, syscall.S_IFSOCK|0666, 0)
	case "hard":
		err = os.Link(filepath.Join(shared, "target"), p)
	case "noread":
		mk(p)
		err = os.Chmod(p, 0)
	case "nodir", "xdir":
		mk(p + "/f")
		mk(p + "/.h")
		m := os.FileMode(0)
		if kind == "xdir" {
			m = 0444
		}
		err = os.Chmod(p, m)
	default:
		panic(harnessErr("kind " + kind))
	}
	if err != nil {
		panic(harnessErr(err.Error()))
	}
}

func c17hidden(elem string) bool {
	return elem != "" && (strings.ContainsAny(elem[:1], ".#~") || elem[len(elem)-1] == '~')
}

// c17want is the rule: what an entry contributes, as paths relative to the entry's parent;
// rep lists paths that must be reported.
func c17want(name, kind string, root bool) (files, rep []string) {
	put := func(list *[]string, p string) { *list = append(*list, p) }
	for _, e := range strings.Split(name, "/") {
		if c17hidden(e) {
			return
		}
	}
	kind = c17same(kind)
	bad := strings.ContainsFunc(name, func(c rune) bool { return c < ' ' })
	add := func(p string) {
		if bad {
			put(&rep, p)
		} else {
			put(&files, p)
		}
	}
	switch kind {
	case "file", "empty", "hard":
		add(name)
	case "bin":
		if bad {
			put(&rep, name)
		}
	case "dir":
		add(name + "/f")
		add(name + "/s/g")
	case "noread":
		put(&rep, name)
	case "nodir":
		put(&rep, name)
	case "xdir":
		put(&rep, name+"/f")
	case "missing":
		put(&rep, name)
	}
	return
}

type c17world struct {
	base, tree, shared, ix string
}

func (r *Run) c17dirs() *c17world {
	w := &c17world{base: filepath.Join(r.Scratch, "c17")}
	w.tree, w.shared, w.ix = filepath.Join(w.base, "tree"), filepath.Join(w.base, "shared"), filepath.Join(w.base, "ix", "csindex")
	c17wipe(w.base)
	for _, d := range []string{w.tree, w.shared, filepath.Dir(w.ix), filepath.Join(r.Scratch, "tmp")} {
		if err := os.MkdirAll(d, 0777); err != nil {
			panic(harnessErr(err.Error()))
		}
		os.Chmod(d, 0777)
	}
	mustWrite(filepath.Join(w.shared, "target"), []byte(c17text))
	os.Chmod(filepath.Join(w.shared, "target"), 0644)
	for p := w.base; len(p) > len("/tmp"); p = filepath.Dir(p) {
		os.Chmod(p, 0755)
	}
	os.Chmod(binDir(), 0755)
	os.Chmod(filepath.Dir(binDir()), 0755)
	return w
}

func c17wipe(dir string) { os.RemoveAll(dir) }

// c17index runs cindex on the roots and returns the file names in the index.
func (r *Run) c17index(c any, w *c17world, uid int, roots []string) (names, rootList []string, res cliRes) {
	os.Remove(w.ix)
	res = r.tool(cliOpt{Dir: w.tree, Index: w.ix, Uid: uid, Files: 64}, "cindex", roots...)
	if res.Code != 0 {
		r.Fail(c, "cindex %q exits %d: %s", roots, res.Code, cut(res.Err))
	}
	msg := try(func() {
		ix, done := openIndex(w.ix)
		defer done()
		names = pathsOf(ix.NamesAt(0, 1<<40))
		rootList = pathsOf(ix.Roots())
		if n := len(ix.PostingQuery(&index.Query{Op: index.QAll})); n != len(names) {
			r.Fail(c, "%d names, %d files", len(names), n)
		}
	})
	if msg != "" {
		r.Fail(c, "reading the index: %s", msg)
	}
	r.Step(1)
	return
}

// reported: every path must appear in the error output.
func c17reported(errs string, p string) bool {
	return strings.Contains(errs, p) || strings.Contains(errs, strings.Trim(fmt.Sprintf("%q", p), `"`))
}

// c17run runs one explicit case.
func c17run(r *Run, c *c17case) {
	r.At(c)
	w := r.c17dirs()
	for _, e := range c.Ents {
		c17make(filepath.Join(w.tree, e.Path), e.Kind, w.shared)
	}
	c17judge(r, c, w, nil)
}

// c17judge indexes the roots of c and compares. isolate is called with the first differing name.
func c17judge(r *Run, c *c17case, w *c17world, isolate func(name string)) {
	if len(c.Roots) == 0 {
		c.Roots = []string{"."}
	}
	kinds := map[string]string{}
	for _, e := range c.Ents {
		kinds[e.Path] = e.Kind
	}
	var want, rep []string
	var absRoots []string
	for _, root := range c.Roots {
		absRoots = append(absRoots, filepath.Join(w.tree, root))
	}
	sortPaths(absRoots)
	n := 0
	for i, p := range absRoots {
		if n > 0 && under(p, absRoots[n-1]) {
			continue
		}
		absRoots[n] = absRoots[i]
		n++
	}
	absRoots = absRoots[:n]
	for _, root := range absRoots {
		rel, _ := filepath.Rel(w.tree, root)
		found := rel == "."
		for _, e := range c.Ents {
			full := filepath.Join(w.tree, e.Path)
			if full == root {
				found = true
			}
			if !under(full, root) {
				// A root inside an entry: only below a directory.
				if under(root, full) && full != root && c17same(e.Kind) == "dir" {
					for _, f := range []string{"/f", "/.h", "/s/g", "/~t/g"} {
						if under(full+f, root) {
							found = true
							bad := false
							for _, el := range strings.Split(strings.TrimPrefix(full+f, filepath.Dir(root)+"/"), "/") {
								bad = bad || c17hidden(el)
							}
							if !bad {
								want = append(want, full+f)
							}
						}
					}
				}
				continue
			}
			// Path elements at or below the root count.
			pre := filepath.Dir(root)
			if rel == "." {
				pre = w.tree
			}
			fs, rp := c17want(strings.TrimPrefix(full, pre+"/"), e.Kind, full == root)
			if c.Uid == 0 && (c17same(e.Kind) == "noread" || c17same(e.Kind) == "nodir" || c17same(e.Kind) == "xdir") {
				panic(harnessErr("unreadable entries need an unprivileged user"))
			}
			for _, f := range fs {
				want = append(want, pre+"/"+f)
			}
			for _, f := range rp {
				rep = append(rep, pre+"/"+f)
			}
		}
		if !found && !c17hidden(filepath.Base(root)) {
			rep = append(rep, root)
		}
	}
	sortPaths(want)
	got, roots, res := r.c17index(c, w, c.Uid, c.Roots)
	if !eqStrings(roots, absRoots) {
		r.Fail(c, "roots: got %q, want %q", roots, absRoots)
	}
	if !eqStrings(got, want) {
		gm, wm := map[string]int{}, map[string]int{}
		for _, g := range got {
			gm[g]++
		}
		for _, g := range want {
			wm[g]++
		}
		for _, g := range append(append([]string{}, got...), want...) {
			if gm[g] != wm[g] {
				if isolate != nil {
					isolate(g)
				}
				r.Fail(c, "%q is in the index %d times, want %d\nstderr: %s", g, gm[g], wm[g], cut(res.Err))
			}
		}
		r.Fail(c, "names are not in order: %s", cut(fmt.Sprintf("%q", got)))
	}
	for _, p := range rep {
		if !c17reported(res.Err, p) {
			if isolate != nil {
				isolate(p)
			}
			r.Fail(c, "%q is neither indexed nor reported\nstderr: %s", p, cut(res.Err))
		}
	}
	if isolate == nil {
		// What a user sees.
		l := r.tool(cliOpt{Index: w.ix, Uid: c.Uid}, "csearch", "-l", "some text")
		var has []string
		for _, f := range want {
			if d, err := os.ReadFile(f); err == nil && string(d) == c17text {
				has = append(has, f)
			}
		}
		if l.Out != strings.Join(append(has, ""), "\n") {
			r.Fail(c, "csearch -l prints %q, want %q", l.Out, has)
		}
		r.Step(1)
	}
	r.Trace(len(want) > 0 || len(rep) > 0)
	if len(rep) > 0 {
		r.Outcome("entries reported and skipped")
	} else {
		r.Outcome("covered")
	}
}

// c17batch lays many small trees side by side and indexes them in one run.
func c17batch(r *Run, groups [][]c17ent, uid int) {
	r.At(fmt.Sprintf("a batch of %d trees", len(groups)))
	w := r.c17dirs()
	c := &c17case{Uid: uid}
	for i, g := range groups {
		for _, e := range g {
			p := fmt.Sprintf("g%05d/%s", i, e.Path)
			c.Ents = append(c.Ents, c17ent{p, e.Kind})
			c17make(filepath.Join(w.tree, p), e.Kind, w.shared)
			if len(c.Ents)%200 == 0 {
				r.Tick()
			}
		}
		r.State(h64(fmt.Sprint(g)))
	}
	// One trace for each tree.
	c17judge(r, c, w, func(name string) {
		var i int
		if n, _ := fmt.Sscanf(strings.TrimPrefix(name, w.tree+"/g"), "%d/", &i); n == 1 && i < len(groups) {
			c17run(r, &c17case{Ents: groups[i], Uid: uid})
		}
		c.Ents = c.Ents[:0] // not reproduced alone: report without the tree
	})
	r.Traces += uint64(len(groups) - 1)
	r.Nontrivial += uint64(len(groups) - 1)
	r.Step(len(groups))
	c17wipe(w.base)
}

func c17extremes() (cs []c17case) {
	for _, n := range []int{15, 16, 31, 32, 63, 64, 127, 128, 200, 254, 255} {
		// Names of n bytes that differ in the last byte, or end where another goes on.
		a := strings.Repeat("n", n-1)
		cs = append(cs, c17case{Ents: []c17ent{{a + "a", "file"}, {a + "b", "file"}, {a, "file"}, {a + "c", "dir"}, {a + "~", "file"}, {"." + a, "file"}, {"z", "file"}}})
		cs = append(cs, c17case{Ents: []c17ent{{a + "a", "dir"}, {a + "b", "dir"}, {a, "file"}}, Roots: []string{a + "b", a, a + "a/s"}})
	}
	for _, n := range []int{1, 3, 7, 15, 30, 60, 120, 250, 500, 900} { // levels
		d := strings.Repeat("d/", n)
		cs = append(cs, c17case{Ents: []c17ent{{d + "f", "file"}, {d + "g", "dir"}, {d + ".h", "file"}, {"d/x", "file"}, {"e", "file"}}})
		cs = append(cs, c17case{Ents: []c17ent{{d + "f", "file"}, {d + "g", "dir"}, {"d/x", "file"}}, Roots: []string{d + "g", d + "f"}})
	}
	for _, n := range []int{3, 10, 14} { // long elements, up to the longest path
		d := strings.Repeat(strings.Repeat("e", 254)+"/", n)
		cs = append(cs, c17case{Ents: []c17ent{{d + "f", "file"}, {d + "f2", "dir"}, {strings.Repeat("e", 254) + "x", "file"}}})
	}
	for _, n := range []int{63, 64, 65, 100, 255, 256, 257, 1000, 1025, 4097} { // entries of one directory
		c := c17case{}
		for i := 0; i < n; i++ {
			kind := "file"
			if i%97 == 96 {
				kind = "dir"
			} else if i%13 == 12 {
				kind = "noread"
			}
			c.Ents = append(c.Ents, c17ent{fmt.Sprintf("w/%d", i*7919%n), kind})
		}
		cs = append(cs, c)
	}
	c := c17case{Roots: []string{".", "s/5", "s/1048576"}}
	for _, n := range []int{1, 2, 3, 4, 5, 4095, 4096, 4097, 1<<16 - 1, 1 << 16, 1<<20 - 1, 1 << 20, 1<<20 + 1, 10<<20 + 1, 1<<25 + 1, 1<<26 + 1} {
		c.Ents = append(c.Ents, c17ent{fmt.Sprintf("s/%d", n), fmt.Sprintf("size:%d", n)})
	}
	cs = append(cs, c)
	for _, n := range []int{10, 63, 64, 65, 130, 300} { // roots
		c := c17case{}
		for i := 0; i < n; i++ {
			j := i * 7919 % n
			kind := "file"
			if i%5 == 4 {
				kind = "dir"
			}
			c.Ents = append(c.Ents, c17ent{fmt.Sprintf("r/%d", j), kind})
			c.Roots = append(c.Roots, fmt.Sprintf("r/%d", j))
			if kind == "dir" {
				c.Roots = append(c.Roots, fmt.Sprintf("r/%d/s", j))
			}
		}
		cs = append(cs, c)
	}
	return
}

// c17special are names that tools other than cindex treat in a special way.
var c17special = strings.Fields(`CVS RCS SCCS node_modules vendor target build out bin obj dist _obj _test _x __pycache__ third_party testdata internal
	core core.1 tags TAGS cscope.out Makefile README LICENSE COPYING Thumbs.db desktop.ini NUL CON aux lost+found proc dev sys tmp
	x.o x.a x.so x.exe x.dll x.class x.jar x.pyc x.png x.jpg x.gif x.pdf x.gz x.tar x.tgz x.bz2 x.xz x.7z x.zip x.min.js x.map x.lock x.sum x.log x.bak x.orig x.rej x.swp x.tmp x.old x.csv x.json x.pb.go x_test.go
	x,v s.x p.x x-old x.1 x.d 0 00 _ __ = @ + , - -- --help -r % %s $ $x * ? [a] {a} ( ) & | ; ! ^ : x: c: c:x \\ a\\b ' " \x60 < > csearch csearchindex csindex index A a B Index.GO MAKEFILE é É ß ǆ １`)

func c17jobs(tier string) []Job {
	quick := tier != "thorough"
	names := c17names
	var groups [][]c17ent
	for i, a := range names {
		for j, b := range names {
			if i >= j {
				continue
			}
			for x, ka := range c17kinds {
				for y, kb := range c17kinds {
					groups = append(groups, []c17ent{{a, ka}, {b, kb}})
					if !quick && (ka == "file" || kb == "file") {
						// three siblings
						for z, c := range names[j+1:] {
							groups = append(groups, []c17ent{{a, ka}, {b, kb}, {c, c17kinds[(x+y+z)%len(c17kinds)]}})
						}
					}
				}
			}
		}
	}
	for _, n := range c17special {
		for _, k := range c17kinds {
			if k == "file" || k == "dir" || !quick {
				groups = append(groups, []c17ent{{n, k}, {"zz", "file"}}, []c17ent{{"d/" + n, k}, {"d/e/" + n, k}})
			}
		}
	}
	for _, n := range c22odd {
		if !strings.Contains(n, "/") && n != ".." {
			groups = append(groups, []c17ent{{n, "file"}, {"zz", "file"}}, []c17ent{{"d/" + n + "e", "file"}, {"d/e" + n, "dir"}, {"d/" + n, "dir"}}, []c17ent{{"d" + n + "/x", "file"}, {n + "d/x", "file"}, {n + "/x", "file"}, {"d/x", "file"}})
		}
	}
	// Two levels: directory names x entry names x kinds, next to a plain file.
	for _, d := range names {
		for _, a := range names {
			for _, k := range c17kinds {
				if quick && k != "file" && k != "dir" && k != "linkdir" && k != "fifo" && k != "noread" {
					continue
				}
				groups = append(groups, []c17ent{{d + "/" + a, k}, {d + "/m", "file"}, {"y", "file"}})
			}
		}
	}
	// Every mode of a file and of a directory, and times of change from before 1970 to after 2262.
	for m := 0; m < 010000; m++ {
		if ug := m >> 3 & 077; quick && ug&7 != ug>>3 {
			continue // in the quick tier owner and group have the same rights
		}
		groups = append(groups, []c17ent{{"m", fmt.Sprintf("mode:%o", m)}, {"y", "file"}}, []c17ent{{"d/m", fmt.Sprintf("dmode:%o", m)}, {"y", "file"}})
	}
	now := time.Now().Unix()
	for _, t := range []int64{-1 << 40, -1 << 31, -1<<31 - 1, -1, 0, 1, 1 << 31, 1<<31 - 1, 1 << 32, 1 << 33, now - 1, now, now + 1, now + 10, now + 86400, now + 1<<30} {
		groups = append(groups, []c17ent{{"t", fmt.Sprintf("time:%d", t)}, {"y", "file"}})
	}
	var js []Job
	nsib := 24
	if !quick {
		nsib = 200
	}
	js = append(js, shardJobs("siblings", nsib, func(r *Run, sh, k int) {
		var mine [][]c17ent
		for i, g := range groups {
			if i%k == sh {
				mine = append(mine, g)
			}
		}
		c17batch(r, mine, c24uid)
	})...)
	// Roots of every kind and every list of up to two (three) of them.
	rootEnts := []c17ent{{"d", "dir"}, {"e/f", "file"}, {".hid", "dir"}, {".hf", "file"}, {"x~", "dir"}, {"lf", "linkfile"}, {"ld", "linkdir"}, {"fi", "fifo"}, {"nr", "noread"}, {"nd", "nodir"}, {"dang", "dangling"}, {"bin", "bin"}, {"d.x", "file"}}
	rootNames := []string{".", "d", "d/s", "d/f", "d/.h", "d/~t", "e", "e/f", ".hid", ".hid/s", ".hf", "x~", "lf", "ld", "fi", "nr", "nd", "dang", "bin", "d.x", "missing", ".missing", "d/../e", "d/", "./d", "d/s/.."}
	var lists [][]string
	for _, a := range rootNames {
		lists = append(lists, []string{a})
		for _, b := range rootNames {
			lists = append(lists, []string{a, b})
			for ci, c := range rootNames {
				if !quick || ci%9 == 0 && a < b {
					lists = append(lists, []string{a, b, c})
				}
			}
		}
	}
	js = append(js, shardJobs("roots", 16, func(r *Run, sh, k int) {
		w := r.c17dirs()
		c := &c17case{Ents: rootEnts, Uid: c24uid}
		for _, e := range c.Ents {
			c17make(filepath.Join(w.tree, e.Path), e.Kind, w.shared)
		}
		for i, l := range lists {
			if i%k != sh {
				continue
			}
			c.Roots = l
			r.At(c)
			c17judge(r, c, w, func(string) {})
			r.State(h64(fmt.Sprint("roots", l)))
			if i%50 == 0 {
				r.Sample("roots %q", l)
			}
		}
		c17wipe(w.base)
	})...)
	// Roots with odd names, next to others that they could be taken for.
	js = append(js, shardJobs("odd roots", 8, func(r *Run, sh, k int) {
		seen := map[string]bool{}
		for i, n := range append(append([]string{}, c17special...), c22odd...) {
			if i%k != sh || strings.Contains(n, "/") || n == ".." || strings.HasPrefix(n, "-") || strings.ContainsAny(n, "\t\n") || seen[n] {
				continue
			}
			seen[n] = true
			ents := []c17ent{{n, "dir"}, {"d/" + n, "dir"}, {"d/x", "file"}}
			used := map[string]bool{n: true, "d": true}
			for _, o := range []string{strings.TrimSpace(n), strings.ToLower(n), strings.ToUpper(n), strings.ReplaceAll(n, "\\", ""), n + " ", n + "x", "x" + n, "x"} {
				if o != "" && !used[o] && len(o) < 200 && !strings.Contains(o, "/") {
					used[o] = true
					ents = append(ents, c17ent{o, "file"})
				}
			}
			for _, roots := range [][]string{{n}, {"d/" + n}, {n + "/s"}, {"d/x", n}, {"d", n, "x"}, {"./" + n + "/f"}} {
				c17run(r, &c17case{Ents: ents, Roots: roots, Uid: c24uid})
				r.State(h64(fmt.Sprint("odd roots", roots)))
			}
		}
	})...)
	// Long names, long paths, deep and wide directories, many roots.
	js = append(js, shardJobs("extremes", 4, func(r *Run, sh, k int) {
		for i, c := range c17extremes() {
			if i%k == sh {
				c.Uid = c24uid
				c17run(r, &c)
				r.State(h64(fmt.Sprint("extreme", i)))
			}
		}
	})...)
	// Single trees, with the search a user would make.
	js = append(js, shardJobs("single", 8, func(r *Run, sh, k int) {
		i := 0
		for _, a := range names {
			for _, kd := range c17kinds {
				i++
				if i%k == sh {
					c17run(r, &c17case{Ents: []c17ent{{a, kd}, {"mid", "file"}, {"sub/" + a, kd}, {"zzz", "file"}}, Uid: c24uid})
				}
			}
		}
	})...)
	return js
}

func init() {
	register(&Prop{
		ID: "C17", Level: "model_checked_conformance",
		Rule:        "Every pair of siblings over name shapes x kinds of file, every two-level path, every list of up to two (three) roots of every kind; a case is non-trivial when something is covered or must be reported.",
		Assumptions: []string{"cindex runs as an unprivileged user so that unreadable files exist", "an entry hidden by its name need not be reported when it cannot be read"},
		Jobs:        c17jobs,
		NoProgress:  150e9,
		Replay: func(r *Run, raw json.RawMessage) {
			c := caseOf[c17case](raw)
			c17run(r, &c)
		},
	})
}
