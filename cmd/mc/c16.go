package main

import (
	"archive/zip"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	goregexp "regexp"
	"regexp/syntax"
	"strings"
	"time"
)

// C16: csearch over every flag combination and every expression of a bounded family, with and without the
// index, against the list-of-lines model of grep applied to every indexed file in order.

type c16case struct {
	World string // which tree; see c16tree
	Expr  string
	F     string `json:",omitempty"`
	Flags gopt
	I     bool
	Brute bool
	Extra []string `json:",omitempty"` // further flags, given first, which must not change what is printed
	Twice bool     `json:",omitempty"` // Extra spells out Flags
	Files int      `json:",omitempty"` // limit on open files
}

type c16world struct {
	name  string
	tree  string
	index string
	files []file          // what csearch sees, in index order (archive members included)
	gone  map[string]bool // indexed, but no longer there
}

var c16nosize = []string{"/proc/sys/kernel/ostype", "/proc/sys/kernel/osrelease", "/proc/sys/kernel/hostname"}

func c16tree(which string) (files []file, members []file, gone []string) {
	files = []file{
		{"a/one.go", "abc\nxyz abcd\n"}, {"a/two.txt", "ABC aBc\nde\n\nbcd\n"}, {"a.go", "xyz\n"}, {"a-b/x.go", "ab\nab\nab c\n"},
		{"empty", ""}, {"nl", "\n"}, {"nonl", "de\nlast line abc"}, {"uni", "日本 é\nKelvin \u212a abk ſ\n"}, {"crlf", "abc\r\nxyz\r\n"},
		{"indent", "\t\tabc\n\t\t\txyz\n\n  de\n\t\tbcd"}, {"sp ace/b c.go", "xyzabcde\n"}, {"odd:12:abc", "de abc: xyz\nabcabc\n"}, {"%s%d/%n", "%s abc %d\n"},
		{"日.txt", "abcd"},
	}
	members = []file{{"arch.zip\x01m.go", "member abc\nxyz\n"}, {"arch.zip\x01d/n.txt", "bcd\n"}, {"arch.zip\x01e", ""},
		{"arch2.zip\x01m.go", "second abc\n"}, {"arch2.zip\x01z", "abcd\n"}, {"arch3.zip\x01m.go", "third abc\nde\n"}, {"arch3.zip\x01d/n.txt", "xyz\n"}, {"dir/last.zip\x01m.go", "last abc\n"}}
	switch which {
	case "small", "edited":
	case "gone":
		gone = []string{"a/one.go", "uni", "arch2.zip", "dir/last.zip"}
	case "big":
		files = append(files, file{"big1", gfill(1<<20-7, 50) + "abc x\nde\n" + gfill(1000, 20) + "xyz abc"}, file{"big2", gfill(1<<20, 64) + "abcd\n"},
			file{"long", strings.Repeat("z", 1999) + "\nabc\n"})
	case "large":
		files, members = []file{{"after", "abc\n"}}, []file{{"z.zip\x01after", "abc\n"}}
		for _, mb := range []int{5, 17, 36} {
			t := gfill(mb<<20, 70) + "abc in the end\n" + gfill(500, 50) + "last abc"
			files = append(files, file{fmt.Sprintf("l%02d", mb), t})
			members = append(members, file{fmt.Sprintf("z.zip\x01l%02d", mb), t})
		}
	case "odd":
		files = nil
		for i, x := range gmarks() {
			if validText(x) {
				files = append(files, file{fmt.Sprintf("m%03d", i), x + "abc\nabc" + x + "abc\n" + x + "\nabc" + x})
				if !strings.ContainsAny(x, "/#~.") && !strings.ContainsFunc(x, func(c rune) bool { return c < ' ' }) {
					files = append(files, file{"n" + x + "d/" + x + "m" + x + "x", "abc\n"})
				}
			}
		}
	case "nosize":
		files, members = []file{{"a", "abc\nABC\n"}}, nil
	case "none":
		files, members = nil, nil
	case "many":
		for i := 0; i < 2500; i++ {
			files = append(files, file{fmt.Sprintf("many/%02d/f%04d", i%30, i), fmt.Sprintf("abc %d\n", i)})
		}
		for i := 0; i < 300; i++ {
			a := fmt.Sprintf("many/arch%03d.zip\x01", i)
			members = append(members, file{a + "m", "abc in an archive\n"}, file{a + "n", "de\n"})
		}
	}
	return
}

func (r *Run) c16setup(which string) *c16world {
	w := &c16world{name: which, tree: filepath.Join(r.Scratch, "c16"+which), index: filepath.Join(r.Scratch, "c16"+which+".index"), gone: map[string]bool{}}
	os.RemoveAll(w.tree)
	os.MkdirAll(w.tree, 0777)
	files, members, gone := c16tree(which)
	for _, f := range files {
		mustWrite(filepath.Join(w.tree, f.Name), []byte(f.Data))
		w.files = append(w.files, file{filepath.Join(w.tree, f.Name), f.Data})
	}
	var z *zip.Writer
	var zf *os.File
	last := ""
	done := func() {
		if z != nil {
			z.Close()
			zf.Close()
		}
	}
	for _, m := range members {
		arch, name, _ := strings.Cut(m.Name, "\x01")
		if arch != last {
			done()
			last = arch
			mustWrite(filepath.Join(w.tree, arch), nil)
			zf, _ = os.Create(filepath.Join(w.tree, arch))
			z = zip.NewWriter(zf)
		}
		x, _ := z.Create(name)
		x.Write([]byte(m.Data))
		w.files = append(w.files, file{filepath.Join(w.tree, m.Name), m.Data})
	}
	done()
	roots := []string{"-zip", w.tree}
	if which == "nosize" {
		// Files that do not tell their size.
		for _, p := range c16nosize {
			b, err := os.ReadFile(p)
			if st, e := os.Lstat(p); err != nil || e != nil || st.Size() != 0 || !st.Mode().IsRegular() || len(b) == 0 || len(b) > 60 || !validText(string(b)) {
				r.Note("not used: " + p)
				continue
			}
			w.files = append(w.files, file{p, string(b)})
			roots = append(roots, p)
		}
	}
	sortFiles(w.files)
	os.Remove(w.index)
	if res := r.tool(cliOpt{Index: w.index}, "cindex", roots...); res.Code != 0 {
		r.Fail(c16case{World: which}, "cindex exits %d: %s", res.Code, res.Err)
	}
	// The times of files do not matter.
	now := time.Now()
	for i, f := range w.files {
		if st, err := os.Lstat(f.Name); err == nil && st.Mode().IsRegular() && strings.HasPrefix(f.Name, w.tree) {
			if which == "edited" && i%4 < 3 {
				// Changed since: longer, shorter, or as long as before.
				d := []string{f.Data + "\nedited abc\n", f.Data[:len(f.Data)/2], strings.Repeat("xyz abc\n", len(f.Data)/8+1)[:len(f.Data)]}[i%4]
				mustWrite(f.Name, []byte(d))
				w.files[i].Data = d
				if i%8 < 4 {
					os.Chtimes(f.Name, st.ModTime(), st.ModTime())
				}
			} else if t := []time.Duration{0, time.Hour, -time.Hour, 100000 * time.Hour, -500000 * time.Hour}[i%5]; t != 0 {
				os.Chtimes(f.Name, now.Add(t), now.Add(t))
			}
		}
	}
	for _, g := range gone {
		os.Remove(filepath.Join(w.tree, g))
		for _, f := range w.files {
			if f.Name == filepath.Join(w.tree, g) || strings.HasPrefix(f.Name, filepath.Join(w.tree, g)+"\x01") {
				w.gone[f.Name] = true
			}
		}
	}
	return w
}

var c16names = map[string]*goregexp.Regexp{} // file names are matched by Go's regexp in the model

var c16gres = map[string]*gre{}

func c16gre(s string) *gre {
	e := c16gres[s]
	if e == nil {
		if len(c16gres) > 500 {
			c16gres = map[string]*gre{}
		}
		e = newGre(s)
		c16gres[s] = e
	}
	return e
}

func (c *c16case) pat() string {
	p := "(?m)" + c.Expr
	if c.I {
		p = "(?i)" + p
	}
	return p
}

func optFlags(o gopt) (args []string) {
	for _, f := range []struct {
		on bool
		s  string
	}{{o.L, "-l"}, {o.C, "-c"}, {o.N, "-n"}, {o.H, "-h"}, {o.V, "-v"}} {
		if f.on {
			args = append(args, f.s)
		}
	}
	switch {
	case o.Pre == o.Post && o.Pre > 0:
		args = append(args, "-C", fmt.Sprint(o.Pre))
	default:
		if o.Pre > 0 {
			args = append(args, "-B", fmt.Sprint(o.Pre))
		}
		if o.Post > 0 {
			args = append(args, fmt.Sprintf("-A=%d", o.Post))
		}
	}
	return
}

// c16model is the specified output.
func c16model(w *c16world, c *c16case) (out string, matched bool) {
	e := c16gre(c.pat())
	fe := c16names[c.F]
	if c.F != "" && fe == nil {
		fe = goregexp.MustCompile(c.F)
		c16names[c.F] = fe
	}
	var b strings.Builder
	n, limited := 0, false
	for _, f := range w.files {
		if c.F != "" && !fe.MatchString(f.Name) {
			continue
		}
		if c.Flags.L && c.Expr == "" {
			b.WriteString(f.Name + "\n")
			matched = true
			continue
		}
		if w.gone[f.Name] {
			continue
		}
		o, m := gmodel(e, c.Flags, f.Name, f.Data, &n, &limited)
		b.WriteString(o)
		matched = matched || m
	}
	return b.String(), matched
}

func c16run(r *Run, w *c16world, c *c16case) {
	r.At(c)
	args := optFlags(c.Flags)
	if c.Twice {
		args = nil
	}
	if c.I {
		args = append(args, "-i")
	}
	if c.F != "" {
		args = append(args, "-f", c.F)
	}
	if c.Brute {
		args = append(args, "-brute")
	}
	args = append(append(append([]string{}, c.Extra...), args...), "--", c.Expr)
	want, matched := c16model(w, c)
	res := r.tool(cliOpt{Index: w.index, Files: c.Files}, "csearch", args...)
	r.Step(1)
	code := 1
	if matched {
		code = 0
	}
	if res.Out != want {
		r.Fail(c, "csearch %q prints\n%s\nwant\n%s\nstderr: %s\n(%s)", args, cut(res.Out), cut(want), cut(res.Err), firstDiff([]byte(res.Out), []byte(want)))
	}
	if res.Code != code {
		r.Fail(c, "csearch %q exits %d, want %d\nstdout: %s\nstderr: %s", args, res.Code, code, cut(res.Out), cut(res.Err))
	}
	r.Trace(matched)
	r.State(h64(fmt.Sprint(*c)))
	if matched {
		r.Outcome("matches")
	} else {
		r.Outcome("no match")
	}
}

// c16exprs enumerates expressions: atoms, and all trees of one and two operators over them.
func c16exprs(depth int) []string {
	atoms := []string{"abc", "xyz", "a", "b", "c", "de", ".", "[a-c]", "[^a]", "bcd", "^", "$", `\b`, "日", "k", "(?i:abc)", "(?:)", `\x20`, "abcd", `[[:^alpha:]]`}
	seen := map[string]bool{}
	var out []string
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			if _, err := syntax.Parse(s, syntax.Perl); err == nil {
				out = append(out, s)
			}
		}
	}
	add("")
	for _, a := range atoms {
		add(a)
		for _, op := range []string{"*", "+", "?", "{2}", "{0}"} {
			add("(?:" + a + ")" + op)
		}
	}
	for _, a := range atoms {
		for _, b := range atoms {
			add(a + b)
			add(a + "|" + b)
			if depth > 1 {
				add("(?:" + a + ")*" + b)
				add(a + "(?:" + b + ")+")
				for _, c := range atoms {
					add(a + b + c)
					add(a + "(" + b + "|" + c + ")")
					if depth > 2 {
						add(a + ".*" + b + ".*" + c)
						add(a + "|" + b + c)
						add("(" + a + "|" + b + ")?" + c)
					}
				}
			}
		}
	}
	return out
}

func allOpts(ctx [][2]int, withV bool) []gopt {
	var out []gopt
	n := 16
	if withV {
		n = 32
	}
	for bits := 0; bits < n; bits++ {
		for _, c := range ctx {
			out = append(out, gopt{L: bits&1 != 0, C: bits&2 != 0, N: bits&4 != 0, H: bits&8 != 0, V: bits&16 != 0, Pre: c[0], Post: c[1]})
		}
	}
	return out
}

func init() {
	register(&Prop{
		ID: "C16", Level: "model_checked_conformance",
		Rule:        "Every expression of the family x flag sets, and every flag combination x file expressions for chosen expressions, on real trees; a case is non-trivial when some line matches.",
		Assumptions: []string{"the files have not changed since they were indexed (apart from files removed altogether)"},
		Jobs: func(tier string) []Job {
			quick := tier != "thorough"
			var js []Job
			depth := 2
			if !quick {
				depth = 3
			}
			js = append(js, shardJobs("expressions", 16, func(r *Run, sh, k int) {
				w := r.c16setup("small")
				flags := []gopt{{N: true}, {L: true}, {C: true, H: true}, {}, {Pre: 1, Post: 1}, {N: true, H: true}}
				es := c16exprs(depth)
				for i, e := range es {
					if i%k != sh {
						continue
					}
					for _, brute := range []bool{false, true} {
						n := 1
						if len(e) < 8 || !quick {
							n = 2
						}
						if i < 500 {
							n = len(flags)
						}
						for j := 0; j < n; j++ {
							c16run(r, w, &c16case{World: w.name, Expr: e, Flags: flags[(i+j)%len(flags)], I: (i+j)%7 == 3, Brute: brute})
						}
						if quick && i >= 500 {
							break // with the index only
						}
					}
				}
			})...)
			ctx := [][2]int{{0, 0}, {1, 0}, {0, 1}, {2, 2}, {1, 3}}
			fs := []string{"", `\.go$`, "a/", "nosuchname", "^/.*o", "arch|uni", "(?i)ONE|INDENT", "A/|ONE|e\\.GO"}
			es := []string{"", "abc", "xyz|de", "^$", "nosuchtext", ".", "c$"}
			worlds := []string{"small", "gone"}
			js = append(js, shardJobs("flags", 16, func(r *Run, sh, k int) {
				i := 0
				for _, wn := range worlds {
					var w *c16world
					for _, o := range allOpts(ctx, false) {
						for fi, f := range fs {
							for ei, e := range es {
								for bits := 0; bits < 4; bits++ {
									if quick && wn == "gone" && (fi > 1 || o.Pre+o.Post > 0) {
										continue
									}
									if quick && fi > 1 && o.Pre+o.Post > 0 && (fi+ei)%5 != 0 {
										continue
									}
									i++
									if i%k != sh {
										continue
									}
									if w == nil {
										w = r.c16setup(wn)
									}
									c16run(r, w, &c16case{World: wn, Expr: e, F: f, Flags: o, I: bits&1 != 0, Brute: bits&2 != 0})
								}
							}
						}
					}
				}
			})...)
			js = append(js, shardJobs("big and none", 8, func(r *Run, sh, k int) {
				i := 0
				for _, wn := range []string{"big", "none"} {
					w := r.c16setup(wn)
					for _, o := range allOpts([][2]int{{0, 0}, {1, 2}}, false) {
						for _, e := range []string{"abc", "", "abcd$", "z"} {
							for bits := 0; bits < 2; bits++ {
								i++
								if i%k == sh && !(e != "abc" && o.Pre > 0) {
									c16run(r, w, &c16case{World: wn, Expr: e, Flags: o, Brute: bits&1 != 0})
								}
							}
						}
					}
				}
			})...)
			// Flags that are about something else, and flags given more than once.
			js = append(js, shardJobs("other flags", 8, func(r *Run, sh, k int) {
				w := r.c16setup("gone")
				prof := filepath.Join(r.Scratch, "prof")
				i := 0
				for _, x := range [][]string{{"-verbose"}, {"-cpuprofile", prof}, {"-verbose", "-cpuprofile=" + prof}, {"-verbose=false"}, {"--verbose"}} {
					for _, o := range allOpts([][2]int{{0, 0}, {1, 1}}, false) {
						for _, e := range []string{"abc", "", "nosuchtext", "abcd|xyz", "^$", "(abc)+"} {
							for bits := 0; bits < 8; bits++ {
								if i++; i%k != sh || quick && bits&4 != 0 && o.Pre > 0 {
									continue
								}
								c := &c16case{World: "gone", Expr: e, Flags: o, I: bits&1 != 0, Brute: bits&2 != 0, Extra: x}
								if bits&4 != 0 {
									c.F = "go$"
								}
								c16run(r, w, c)
							}
						}
					}
				}
				for _, x := range []struct {
					args []string
					o    gopt
				}{{[]string{"-A", "2", "-A", "1"}, gopt{Post: 1}}, {[]string{"-B=1", "-A=3", "-B=0"}, gopt{Post: 3}}, {[]string{"-C", "2", "-A", "0"}, gopt{Pre: 2}}, {[]string{"-A", "1", "-C", "2"}, gopt{Pre: 2, Post: 2}},
					{[]string{"-n", "-C", "0"}, gopt{N: true}}, {[]string{"-h", "-n", "-A=0", "-B", "0"}, gopt{N: true, H: true}}, {[]string{"-c", "-C=0"}, gopt{C: true}}, {[]string{"-C=3", "-C=1", "-n"}, gopt{Pre: 1, Post: 1, N: true}}, {[]string{"-n", "-l", "-n=false", "-l=false"}, gopt{}}, {[]string{"-c=true", "-h=1", "-c=F"}, gopt{H: true}},
					{[]string{"-i=false", "-brute=false"}, gopt{}}, {[]string{"-f", "nosuchname", "-f", ""}, gopt{}}} {
					for _, e := range []string{"abc", "de", "nosuchtext"} {
						if i++; i%k != sh {
							continue
						}
						c := &c16case{World: "gone", Expr: e, Flags: x.o, Extra: x.args}
						c.Twice = true
						c16run(r, w, c)
					}
				}
			})...)
			// More files than may be open at once.
			js = append(js, shardJobs("many files", 2, func(r *Run, sh, k int) {
				w := r.c16setup("many")
				for i, c := range []c16case{{Expr: "abc"}, {Expr: "abc 1", Flags: gopt{L: true}}, {Expr: "in an archive", Flags: gopt{N: true}}, {Expr: "nosuchtext", Brute: true}, {Expr: "^de", Flags: gopt{C: true}, Brute: true}, {Expr: "", Flags: gopt{L: true}}} {
					if i%k != sh {
						continue
					}
					c.World, c.Files = "many", 40
					c16run(r, w, &c)
				}
			})...)
			js = append(js, Job{"no size", func(r *Run) {
				w := r.c16setup("nosize")
				for _, e := range []string{"", "Linux", "abc", "[0-9]", ".", "x$", "l"} {
					for _, o := range allOpts([][2]int{{0, 0}}, false) {
						for bits := 0; bits < 4; bits++ {
							c16run(r, w, &c16case{World: w.name, Expr: e, Flags: o, I: bits&1 != 0, Brute: bits&2 != 0})
						}
					}
				}
			}})
			// Unusual contents and names, and file expressions that look at the ends of names.
			js = append(js, shardJobs("odd files", 4, func(r *Run, sh, k int) {
				w := r.c16setup("odd")
				i := 0
				for _, e := range []string{"abc", "^abc", "abc$", "^$", "", "\\x{feff}", "^[^a]"} {
					for _, o := range []gopt{{}, {N: true}, {L: true}, {C: true}, {H: true, Pre: 1, Post: 1}} {
						for _, f := range []string{"", "/$", "(?m)/$", "/\\B", "m$", "d\\z", "(?m)d$", "\\bx$", "n.d/", "[^/]$", "x\\b", "^$", "\\A/tmp", "(?m)^m", "/\\b", "\\./"} {
							if i++; i%k == sh {
								c16run(r, w, &c16case{World: w.name, Expr: e, F: f, Flags: o, Brute: i/k%2 == 0})
							}
						}
					}
				}
				w = r.c16setup("small")
				for _, e := range []string{"abc", "", "e$"} {
					for _, o := range []gopt{{}, {L: true}, {C: true}} {
						for _, f := range []string{"/$", "(?m)/$", "/\\B", "c\\b", "a\\b", "e\\B", "\\B/", "(?m)p$", "d/\\b", "go\\b", "zip$", "(?m)zip$", "zip\\b", "\\x01", "\\x01d", "zip.m", "(?s)zip.d", "^[^\\x01]*$", "%n", "\\PL$", "txt\\z", "^/[^\\n]*/$"} {
							if i++; i%k == sh {
								c16run(r, w, &c16case{World: w.name, Expr: e, F: f, Flags: o, Brute: i/k%2 == 0})
							}
						}
					}
				}
			})...)
			// Files of many megabytes.
			js = append(js, Job{"large files", func(r *Run) {
				w := r.c16setup("large")
				for _, c := range []c16case{{Expr: "abc", Flags: gopt{N: true}}, {Expr: "end", Flags: gopt{C: true}, F: "l"}, {Expr: "last a", Flags: gopt{L: true}, Brute: true}, {Expr: "abc$", Flags: gopt{Post: 1}}} {
					c.World = w.name
					c16run(r, w, &c)
				}
			}})
			// Files changed since they were indexed: all of them are searched as they are now.
			js = append(js, Job{"edited files", func(r *Run) {
				w := r.c16setup("edited")
				for _, e := range []string{"abc", "edited", "^", "^$", "xyz$", "e", "(?i)ABC", "日", ""} {
					for _, o := range allOpts([][2]int{{0, 0}, {1, 1}}, false) {
						for _, f := range []string{"", "go$"} {
							c16run(r, w, &c16case{World: w.name, Expr: e, F: f, Flags: o, Brute: true})
						}
					}
				}
			}})
			// -i with letters that are not written as letters.
			js = append(js, shardJobs("folded", 4, func(r *Run, sh, k int) {
				w := r.c16setup("small")
				i := 0
				for _, e := range []string{`\101`, `\x61`, `\x{212a}`, `[!-_]`, `[!-_]{3}`, `[\x60-\x7b]{3}`, `[[:upper:]]{3}`, `[[:lower:]]{3}$`, `\pL{3}`, `\p{Lu}{3}`, `[^a-z\n]{3}`, `[^A-Z\n]{3}`, `\PL`, `\Q\E\101\102`, `\141\142c`, `(?-i)[!-_]{3}`, `(?-i:\101)`, `[\101-\103]{3}`, `(?i-i:\141)`, `\x6B`, `\x4b`, `\x{17f}`, `[\x{17f}-\x{180}]`, `\x53`, `\d|\x58`, `\W\x41`} {
					for _, o := range []gopt{{}, {N: true}, {L: true}, {C: true}} {
						for _, f := range []string{"", "(?i)\\117", "[!-_]"} {
							for bits := 0; bits < 4; bits++ {
								if i++; i%k == sh {
									c16run(r, w, &c16case{World: w.name, Expr: e, F: f, Flags: o, I: bits&1 != 0, Brute: bits&2 != 0})
								}
							}
						}
					}
				}
			})...)
			js = append(js, Job{"errors", func(r *Run) {
				w := r.c16setup("small")
				for _, a := range [][]string{{"("}, {"-f", "(", "abc"}, {"a**"}, {"[z-a]"}, {`\pX`}, {"-i", "(?z)"}, {}, {"abc", "def"}, {"-nosuchflag", "abc"}, {"-C", "x", "abc"}} {
					res := r.tool(cliOpt{Index: w.index}, "csearch", a...)
					r.Step(1)
					if res.Code == 0 || res.crashed() || res.Out != "" || res.Err == "" {
						r.Fail(a, "csearch %q: exit %d stdout %q stderr %q", a, res.Code, res.Out, res.Err)
					}
					r.Trace(true)
					r.Outcome(fmt.Sprintf("error exit %d", res.Code))
				}
				res := r.tool(cliOpt{Index: w.index + ".missing"}, "csearch", "abc")
				// The default place of the index.
				home := filepath.Join(r.Scratch, "home2")
				os.MkdirAll(home, 0777)
				def := cliOpt{Env: []string{"HOME=" + home}}
				if res := r.tool(def, "cindex", w.tree); res.Code != 0 {
					r.Fail("home", "cindex with the default index exits %d: %s", res.Code, res.Err)
				}
				if _, err := os.Stat(filepath.Join(home, ".csearchindex")); err != nil {
					r.Fail("home", "cindex without CSEARCHINDEX did not write $HOME/.csearchindex: %v", err)
				}
				if res := r.tool(def, "csearch", "-h", "xyz abcd"); res.Code != 0 || res.Out != "xyz abcd\n" {
					r.Fail("home", "csearch with the default index: exit %d stdout %q stderr %q", res.Code, res.Out, res.Err)
				}
				if res.Code == 0 || res.crashed() || res.Out != "" {
					r.Fail("missing", "csearch with no index: exit %d stdout %q stderr %q", res.Code, res.Out, res.Err)
				}
			}})
			return js
		},
		Replay: func(r *Run, raw json.RawMessage) {
			var c c16case
			if json.Unmarshal(raw, &c) != nil || c.World == "" {
				panic(harnessErr("an error case is replayed by running csearch with the arguments given"))
			}
			c16run(r, r.c16setup(c.World), &c)
		},
	})
}
