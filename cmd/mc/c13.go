package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// C13: explicit-state search over histories of file edits and cindex runs, against a snapshot model.
// A state is the tree on disk and the index; each transition runs the real commands.

type c13state struct {
	tree map[string]string // relative name -> content
	has  bool              // an index exists
	ix   mset              // what it must hold
	data []byte            // its bytes
}

type c13case struct {
	Ops   []string
	Flags bool `json:",omitempty"` // the job that compares flags
	Place bool `json:",omitempty"` // the job that puts the index in other places
	Many  int  `json:",omitempty"` // the tree has so many directories, to be roots
}

// Edits toggle one aspect of the tree.
var c13edits = []string{"edit a/f", "edit a/g", "edit a/s/h", "edit b/f", "edit a.b"}

// Runs of cindex: flags and roots relative to the tree ("." is the tree itself).
var c13runs = []string{
	"cindex a", "cindex b", "cindex a/s", "cindex .", "cindex b a", "cindex a/s b a", "cindex a.b", "cindex a/f", "cindex missing",
	"cindex", "cindex -reset", "cindex -reset a a/s", "cindex -check b a", "cindex -check",
}

func c13tree() map[string]string {
	return map[string]string{"a/f": "version 1 of a/f\n", "a/s/h": "version 1 of a/s/h\n", "b/f": "version 1 of b/f\n", "a.b/x": "version 1 of a.b/x\n", "z.txt": "version 1 of z.txt\n"}
}

func c13edit(t map[string]string, op string) map[string]string {
	n := map[string]string{}
	for k, v := range t {
		n[k] = v
	}
	switch op {
	case "edit a.b":
		if _, ok := n["a.b/x"]; ok {
			delete(n, "a.b/x")
			n["a.b"] = "version 2: a.b is a file\n"
		} else {
			delete(n, "a.b")
			n["a.b/x"] = "version 3 of a.b/x\n"
		}
	default:
		f := strings.TrimPrefix(op, "edit ")
		old, ok := n[f]
		switch {
		case !ok:
			n[f] = "version 1 of " + f + "\n"
		case f == "a/g" || strings.HasPrefix(old, "version 2"):
			delete(n, f) // also the directory, if it becomes empty
			if f == "a/f" || f == "b/f" {
				n[f] = "version 1 of " + f + "\n"
			}
		default:
			n[f] = "version 2 of " + f + "\nnew line\n"
		}
	}
	return n
}

type c13world struct {
	r     *Run
	root  string // the tree
	index string
	disk  map[string]string // what is on disk
	data  []byte
	has   bool
	c     *c13case
}

func newC13world(r *Run) *c13world {
	w := &c13world{r: r, root: filepath.Join(r.Scratch, "tree"), index: filepath.Join(r.Scratch, "csindex"), c: &c13case{}}
	os.RemoveAll(w.root)
	os.MkdirAll(w.root, 0777)
	w.disk = map[string]string{}
	os.Remove(w.index)
	return w
}

// materialize makes the disk hold state s.
func (w *c13world) materialize(s *c13state) {
	for f := range w.disk {
		if _, ok := s.tree[f]; !ok {
			os.Remove(filepath.Join(w.root, f))
			for d := filepath.Dir(f); d != "."; d = filepath.Dir(d) {
				os.Remove(filepath.Join(w.root, d)) // only if empty
			}
		}
	}
	for f, d := range s.tree {
		if w.disk[f] != d {
			mustWrite(filepath.Join(w.root, f), []byte(d))
		}
	}
	w.disk = s.tree
	if !s.has {
		os.Remove(w.index)
	} else if !w.has || string(w.data) != string(s.data) {
		mustWrite(w.index, s.data)
	}
	w.has, w.data = s.has, s.data
}

// scan is the model of indexing the given absolute roots now.
func (w *c13world) scan(tree map[string]string, roots []string) mset {
	sortPaths(roots)
	var m mset
	for _, q := range roots {
		ok := true
		for _, p := range m.Roots {
			if under(q, p) {
				ok = false
			}
		}
		if ok {
			m.Roots = append(m.Roots, q)
		}
	}
	for f, d := range tree {
		abs := filepath.Join(w.root, f)
		for _, q := range m.Roots {
			if under(abs, q) {
				m.Files = append(m.Files, file{abs, d})
				break
			}
		}
	}
	sortFiles(m.Files)
	return m
}

// apply runs op in state s and returns the next state, checking everything observable.
func (w *c13world) apply(s *c13state, op string) *c13state {
	r := w.r
	r.Step(1)
	if strings.HasPrefix(op, "edit ") {
		return &c13state{c13edit(s.tree, op), s.has, s.ix, s.data}
	}
	w.materialize(s)
	f := strings.Fields(op)[1:]
	reset := false
	var args, roots, flags []string
	for _, a := range f {
		switch a {
		case "-reset":
			reset = true
			flags = append(flags, a)
		case "-check":
			flags = append(flags, a)
		default:
			roots = append(roots, filepath.Join(w.root, a))
			if len(args)%2 == 1 {
				a = "./" + a + "/../" + a // another spelling
			}
			args = append(args, a)
		}
	}
	n := &c13state{tree: s.tree}
	wantFail := false
	switch {
	case len(roots) == 0 && reset:
		n.has = false
	case len(roots) == 0 && !s.has:
		wantFail = true
	case len(roots) == 0:
		n.has = true
		n.ix = mmerge(s.ix, w.scan(s.tree, append([]string{}, s.ix.Roots...)))
	case reset || !s.has:
		n.has = true
		n.ix = w.scan(s.tree, roots)
	default:
		n.has = true
		n.ix = mmerge(s.ix, w.scan(s.tree, roots))
	}
	res := r.tool(cliOpt{Dir: w.root, Index: w.index}, "cindex", append(flags, args...)...)
	w.has, w.data = true, nil // unknown until read back
	if res.crashed() {
		r.Fail(w.c, "%s crashed (status %d): %s", op, res.Code, cut(res.Err))
	}
	if (res.Code != 0) != wantFail {
		r.Fail(w.c, "%s exited %d: %s", op, res.Code, cut(res.Err))
	}
	b, err := os.ReadFile(w.index)
	if !n.has {
		if err == nil {
			r.Fail(w.c, "%s left an index", op)
		}
		w.has = false
		return n
	}
	if err != nil {
		r.Fail(w.c, "%s left no index: %v", op, err)
	}
	n.data, w.data = b, b
	for _, t := range []string{w.index + "~", w.index + "~~"} {
		if _, err := os.Lstat(t); err == nil {
			r.Fail(w.c, "%s left %s behind", op, filepath.Base(t))
		}
	}
	w.observe(n, op)
	return n
}

// observe compares everything a user can see with the model.
func (w *c13world) observe(s *c13state, op string) {
	r := w.r
	msg := try(func() {
		ix, done := openIndex(w.index)
		defer done()
		if err := compareIndex(ix, s.ix.snap(), nil); err != nil {
			r.Fail(w.c, "after %s: %v", op, err)
		}
	})
	if msg != "" {
		r.Fail(w.c, "after %s: reading the index: %s", op, msg)
	}
	o := cliOpt{Index: w.index}
	l := r.tool(o, "cindex", "-list", "-check")
	if want := strings.Join(s.ix.Roots, "\n") + "\n"; l.Code != 0 || l.Out != want && !(len(s.ix.Roots) == 0 && l.Out == "") {
		r.Fail(w.c, "after %s: cindex -list -check exited %d, printed %q, want %q; %s", op, l.Code, l.Out, want, cut(l.Err))
	}
	want := ""
	for _, f := range s.ix.Files {
		rel := strings.TrimPrefix(f.Name, w.root+"/")
		d, ok := s.tree[rel]
		if !ok {
			continue
		}
		for i, l := range splitLines(d) {
			if strings.Contains(l, "version") {
				want += fmt.Sprintf("%s:%d:%s\n", f.Name, i+1, l)
			}
		}
	}
	g := r.tool(o, "csearch", "-n", "version")
	if g.Out != want || (g.Code == 0) != (want != "") {
		r.Fail(w.c, "after %s: csearch exited %d and printed %q, want %q; %s", op, g.Code, g.Out, want, cut(g.Err))
	}
	r.Step(3)
}

func (s *c13state) key() string {
	var b strings.Builder
	var ks []string
	for k := range s.tree {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		b.WriteString(k + "=" + s.tree[k])
	}
	fmt.Fprint(&b, s.has, s.ix, h64(string(s.data)))
	return b.String()
}

func (w *c13world) dfs(s *c13state, depth int, seen map[string]int) {
	r := w.r
	k := s.key()
	if d, ok := seen[k]; ok && d >= depth {
		return
	}
	seen[k] = depth
	r.State(h64(k))
	if depth == 0 || r.Expired() {
		return
	}
	ops := append(append([]string{}, c13runs...), c13edits...)
	if depth == 1 {
		ops = c13runs
	}
	for _, op := range ops {
		w.c.Ops = append(w.c.Ops, op)
		r.At(w.c)
		n := w.apply(s, op)
		runs := 0
		for _, o := range w.c.Ops {
			if strings.HasPrefix(o, "cindex") {
				runs++
			}
		}
		r.Trace(runs > 1)
		r.Outcome(fmt.Sprintf("history with %d cindex runs", runs))
		if r.Traces%500 == 77 {
			r.Sample("%s", strings.Join(w.c.Ops, "; "))
		}
		w.dfs(n, depth-1, seen)
		w.c.Ops = w.c.Ops[:len(w.c.Ops)-1]
	}
}

func (w *c13world) start() *c13state { return &c13state{tree: c13tree()} }

func c13jobs(tier string) []Job {
	depth := 4
	if tier == "thorough" {
		depth = 5
	}
	var prefixes [][]string
	all := append(append([]string{}, c13runs...), c13edits...)
	for _, a := range c13runs {
		if a == "cindex" || a == "cindex -check" || a == "cindex -reset" {
			prefixes = append(prefixes, []string{a})
			continue
		}
		for _, b := range all {
			prefixes = append(prefixes, []string{a, b})
		}
	}
	var jobs []Job
	for _, p := range prefixes {
		jobs = append(jobs, Job{strings.Join(p, "; "), func(r *Run) {
			w := newC13world(r)
			s := w.start()
			for _, op := range p {
				w.c.Ops = append(w.c.Ops, op)
				r.At(w.c)
				s = w.apply(s, op)
			}
			d := depth - len(p)
			if len(p) == 1 {
				d = 0
			}
			w.dfs(s, d, map[string]int{})
		}})
	}
	jobs = append(jobs, shardJobs("flags", 8, c13flags)...)
	jobs = append(jobs, Job{"place", c13place})
	many := []int{20, 64, 65, 101, 130, 257, 600}
	if tier == "thorough" {
		many = append(many, 1025, 2050, 4100)
	}
	for _, n := range many {
		for h := range c13manyOps(n) {
			jobs = append(jobs, Job{fmt.Sprintf("many %d/%d", n, h), func(r *Run) {
				w := newC13world(r)
				w.c.Many = n
				s := c13manyStart(n)
				for _, op := range c13manyOps(n)[h] {
					w.c.Ops = append(w.c.Ops, op)
					r.At(w.c)
					s = w.apply(s, op)
					r.State(h64(s.key()))
				}
				r.Trace(true)
				r.Outcome("history over many roots")
			}})
		}
	}
	return jobs
}

// c13manyOps are histories over n roots: a few large runs, and many small ones.
func c13manyOps(n int) [][]string {
	root := func(i int) string { return fmt.Sprintf("r%04d", i*7919%n) }
	sel := func(keep func(i int) bool) string {
		s := "cindex"
		for i := 0; i < n; i++ {
			if keep(i) {
				s += " " + root(i)
			}
		}
		return s
	}
	edit := func(i int) string { return "edit " + root(i) + "/f" }
	a := []string{sel(func(i int) bool { return i%2 == 0 }), edit(0), edit(1), edit(2), sel(func(i int) bool { return i%2 == 1 }), edit(3), edit(4), edit(4), "cindex", edit(n - 1),
		sel(func(i int) bool { return i%5 == 1 }), edit(3), sel(func(i int) bool { return i < 3 || i > n-3 }), "cindex -check", "cindex missing", edit(5), "cindex .", edit(6), sel(func(i int) bool { return i%3 == 0 })}
	var b []string
	for i := 0; i < min(n, 70); i++ {
		b = append(b, "cindex "+root(i), edit(i/2))
		if i%9 == 8 {
			b = append(b, "cindex "+root(i/2)+" "+root(i/3))
		}
	}
	b = append(b, "cindex", edit(0), "cindex .")
	return [][]string{a, b}
}

func c13manyStart(n int) *c13state {
	s := &c13state{tree: map[string]string{}}
	for i := 0; i < n; i++ {
		f := fmt.Sprintf("r%04d/f", i)
		s.tree[f] = "version 1 of " + f + "\n"
		if i%4 == 0 {
			f = fmt.Sprintf("r%04d/sub/g", i)
			s.tree[f] = "version 1 of " + f + "\n"
		}
	}
	return s
}

// c13flags: flags that are about something else must not change what becomes of the index: every history of the
// family, plain and with them, leaves the same bytes and the same things to see.
// c13place lets CSEARCHINDEX and HOME say where the index is, with other indexes in all places where it could be
// looked for, and expects every command to use the one and leave the others alone.
func c13place(r *Run) {
	c := &c13case{Place: true}
	base := filepath.Join(r.Scratch, "place")
	os.RemoveAll(base)
	put := func(f, d string) { mustWrite(filepath.Join(base, f), []byte(d)) }
	dirs := map[string]string{"new": "new ", "newer": "newer\u00a0"} // blanks are part of a name
	put(dirs["new"]+"/f", "some new text\n")
	put(dirs["newer"]+"/f", "some newer text\n")
	put("decoy/f", "some decoy text\n")
	decoy := filepath.Join(base, "decoy.index")
	if res := r.tool(cliOpt{Index: decoy}, "cindex", filepath.Join(base, "decoy")); res.Code != 0 {
		panic(harnessErr("cindex: " + res.Err))
	}
	data := mustRead(decoy)
	cwd := filepath.Join(base, "w/x/y")
	type place struct {
		env  []string
		file string // absolute, or below the working directory
	}
	var places []place
	for _, h := range []string{"home", "home dir", "w", "w/x", "w/x/y", "w/x/y/z", "h~", ".h", "h.index", "日"} {
		h := filepath.Join(base, h)
		os.MkdirAll(h, 0777)
		for _, env := range [][]string{{"HOME=" + h}, {"HOME=" + h + "/"}, {"HOME=" + h, "CSEARCHINDEX="}, {"HOME=" + h + "/../" + filepath.Base(h)}, {"HOME=" + h, "USERPROFILE=" + base, "XDG_CACHE_HOME=" + base, "XDG_CONFIG_HOME=" + base, "PWD=" + base, "CSEARCH_INDEX=" + base + "/no", "csearchindex=" + base + "/no"}} {
			places = append(places, place{env, filepath.Join(h, ".csearchindex")})
		}
	}
	home := "HOME=" + filepath.Join(base, "home")
	for _, n := range []string{"ix", "./ix", "../ix", "i x", " ix", "ix ", ".csearchindex", "~/ix", "~", "$HOME/ix", "%s", "ix~", "ix.zip", "ix\x01y", "日", "ix:iy", "-", "-ix", "a/../ix", "ix,iy", "'ix'", "\"ix\"", "*", strings.Repeat("i", 240)} {
		if strings.HasPrefix(n, "-") {
			n = "./" + n
		}
		if n == "~/ix" || n == "$HOME/ix" || n == "a/../ix" {
			os.MkdirAll(filepath.Join(cwd, strings.Split(n, "/")[0]), 0777)
		}
		places = append(places, place{[]string{home, "CSEARCHINDEX=" + n}, n})
		if len(n) < 200 {
			os.MkdirAll(filepath.Join(base, "abs"), 0777)
			p := filepath.Join(base, "abs", filepath.Base(n))
			places = append(places, place{[]string{home, "CSEARCHINDEX=" + p}, p})
		}
	}
	// Directories reached through links; a name with .. after a link is the system's to resolve.
	os.MkdirAll(filepath.Join(base, "other/dir"), 0777)
	os.MkdirAll(cwd, 0777)
	for _, l := range []string{filepath.Join(cwd, "l"), filepath.Join(base, "l")} {
		if err := os.Symlink(filepath.Join(base, "other/dir"), l); err != nil {
			panic(harnessErr(err.Error()))
		}
	}
	for _, l := range []string{"l", filepath.Join(base, "l")} {
		places = append(places, place{[]string{home, "CSEARCHINDEX=" + l + "/ix"}, filepath.Join(base, "other/dir/ix")},
			place{[]string{home, "CSEARCHINDEX=" + l + "/../ix"}, filepath.Join(base, "other/ix")})
	}
	places = append(places, place{[]string{"HOME=" + filepath.Join(base, "l")}, filepath.Join(base, "other/dir/.csearchindex")})
	// The index on another file system than the temporary files.
	if d, err := os.MkdirTemp("/dev/shm", "mc"); err == nil {
		defer os.RemoveAll(d)
		places = append(places, place{[]string{home, "CSEARCHINDEX=" + d + "/ix"}, d + "/ix"})
	}
	for i, pl := range places {
		os.MkdirAll(cwd, 0777)
		file := pl.file
		if !filepath.IsAbs(file) {
			file = filepath.Join(cwd, file)
		}
		c.Ops = append([]string{"in " + cwd}, pl.env...)
		r.At(c)
		var decoys []string
		for _, d := range []string{".", "w", "w/x", "w/x/y", "home", "tmp", "new"} {
			for _, n := range []string{".csearchindex", "csearchindex", ".csindex", "index"} {
				if p := filepath.Join(base, d, n); p != file {
					mustWrite(p, data)
					decoys = append(decoys, p)
				}
			}
		}
		opt := cliOpt{Dir: cwd, Env: append([]string{"TMPDIR=" + filepath.Join(base, "tmp")}, pl.env...)}
		want := func(step string, text ...string) {
			var roots, lines string
			for _, t := range text {
				roots += filepath.Join(base, dirs[t]) + "\n"
				lines += "some " + t + " text\n"
			}
			l := r.tool(opt, "cindex", "-list")
			s := r.tool(opt, "csearch", "-h", "text")
			if l.Out != roots || s.Out != lines {
				r.Fail(c, "%s: cindex -list prints %q, want %q; csearch prints %q, want %q\n%s%s", step, l.Out, roots, s.Out, lines, cut(l.Err), cut(s.Err))
			}
			for _, d := range decoys {
				if b, err := os.ReadFile(d); err != nil || string(b) != string(data) {
					r.Fail(c, "%s: the index %s has changed (%v)", step, d, err)
				}
			}
			if _, err := os.Stat(file); err != nil {
				r.Fail(c, "%s: there is no %s: %v", step, file, err)
			}
			r.Step(2)
		}
		run := func(args ...string) {
			if res := r.tool(opt, "cindex", args...); res.Code != 0 {
				r.Fail(c, "cindex %q exits %d: %s", args, res.Code, cut(res.Err))
			}
			r.Step(1)
		}
		os.Remove(file)
		run(filepath.Join(base, dirs["new"]))
		want("after the first run", "new")
		run(filepath.Join(base, dirs["newer"]))
		want("after adding a root", "new", "newer")
		run()
		want("after no arguments", "new", "newer")
		run("-reset", filepath.Join(base, dirs["newer"]))
		want("after -reset", "newer")
		run("-reset")
		if res := r.tool(opt, "cindex", "-list"); strings.TrimSpace(res.Out) != "" {
			r.Fail(c, "after -reset without arguments: cindex -list prints %q", res.Out)
		}
		os.Remove(file)
		for _, d := range decoys {
			os.Remove(d)
		}
		r.Trace(true)
		r.State(h64(fmt.Sprint("place", i)))
		r.Outcome("the index is where it is said to be")
	}
}

func c13flags(r *Run, sh, k int) {
	c := &c13case{Flags: true}
	tree := filepath.Join(r.Scratch, "ftree")
	os.RemoveAll(tree)
	put := func(f, d string) { mustWrite(filepath.Join(tree, f), []byte(d)) }
	for i := 0; i < 300; i++ {
		put(fmt.Sprintf("a/many/f%d", i), fmt.Sprintf("file number %d\n", i))
	}
	for _, d := range []string{"a", "b", "b/c"} {
		put(d+"/empty", "")
		put(d+"/one", "x")
		put(d+"/two", "xy")
		put(d+"/bin", "some \x00 text\n")
		put(d+"/bad", "some \xff\xfe text\n")
		put(d+"/long", strings.Repeat("x", 5000)+"\n")
		put(d+"/text", strings.Repeat("some ordinary text\n", 100))
		put(d+"/tri", deBruijn("abcdefghijklmnopqrstuvwxyz01234567", 25000))
		put(d+"/.hidden", "hidden\n")
		put(d+"/back~", "back\n")
		os.Symlink("text", filepath.Join(tree, d, "link"))
	}
	prof := filepath.Join(r.Scratch, "prof")
	flags := [][]string{{"-verbose"}, {"-stats"}, {"-check"}, {"-cpuprofile", prof}, {"-check", "-verbose", "-stats"}, {"-zip"}, {"-verbose", "-cpuprofile=" + prof, "-zip"}, {"-verbose=false", "-reset=false"}}
	hists := [][][]string{{{"a"}}, {{"b"}, {"a"}}, {{"."}, {}}, {{"a", "b"}, {"-reset", "b"}}, {{"b/c"}, {"a"}, {"b"}, {}}, {{"a/many", "b"}, {"a"}, {}}, {{"missing", "a"}, {"b/text"}}, {{"a"}, {"-reset"}, {"b"}}}
	i := 0
	for hi, h := range hists {
		var states []string // after each run, from the plain history
		for fi, fl := range append([][]string{nil}, flags...) {
			if fl != nil {
				if i++; i%k != sh {
					continue
				}
			}
			ix := filepath.Join(r.Scratch, fmt.Sprintf("fix%d", fi))
			os.Remove(ix)
			for si, args := range h {
				c.Ops = append(append([]string{"cindex"}, fl...), args...)
				r.At(c)
				res := r.tool(cliOpt{Dir: tree, Index: ix, Files: 64}, "cindex", append(append([]string{}, fl...), args...)...)
				if res.Code != 0 || res.crashed() {
					r.Fail(c, "history %q: cindex %q exits %d: %s", h[:si+1], c.Ops[1:], res.Code, cut(res.Err))
				}
				b, err := os.ReadFile(ix)
				st := string(b)
				if err != nil {
					st = "no index"
				} else {
					l := r.tool(cliOpt{Index: ix}, "cindex", "-list")
					s := r.tool(cliOpt{Index: ix}, "csearch", "-c", "text|number|x")
					st += fmt.Sprint("\nlist: ", l.Out, l.Code, "\nsearch: ", s.Out, s.Code)
				}
				for _, t := range []string{ix + "~", ix + "~~"} {
					if _, err := os.Lstat(t); err == nil {
						r.Fail(c, "history %q with %q left %s behind", h[:si+1], fl, filepath.Base(t))
					}
				}
				r.Step(3)
				if fl == nil {
					states = append(states, st)
				} else if st != states[si] {
					r.Fail(c, "after the history %q, with %q as well, the index is not the one without: %s", h[:si+1], fl, firstDiff([]byte(st), []byte(states[si])))
				}
			}
			r.Trace(len(h) > 1)
			r.State(h64(fmt.Sprint("flags", hi, fi)))
			r.Outcome("flags")
		}
	}
}

func init() {
	register(&Prop{
		ID:          "C13",
		Level:       "model_checking",
		Rule:        "depth-first search of all histories of 14 cindex invocations (single, several, nested, unordered, file, missing and no roots; -reset; -check) and 5 edit toggles to depth 4 (5), with states (tree, model, index bytes) visited once per remaining depth. After every run the index, cindex -list -check and csearch are compared with the model. A trace is one history, non-trivial with two or more cindex runs",
		Assumptions: []string{"csearch prints the current content of the files it lists"},
		Jobs:        c13jobs,
		NoProgress:  150e9,
		Replay: func(r *Run, raw json.RawMessage) {
			c := caseOf[c13case](raw)
			if c.Flags {
				c13flags(r, 0, 1)
				return
			}
			if c.Place {
				c13place(r)
				return
			}
			w := newC13world(r)
			s := w.start()
			if c.Many > 0 {
				w.c.Many = c.Many
				s = c13manyStart(c.Many)
			}
			for _, op := range c.Ops {
				w.c.Ops = append(w.c.Ops, op)
				s = w.apply(s, op)
			}
		},
	})
}
