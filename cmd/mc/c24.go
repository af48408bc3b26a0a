package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"syscall"
)

// C24: cgrep over every flag combination and every argument list of a bounded family, against the
// list-of-lines model of grep applied to each argument in order.

type c24case struct {
	Expr   string
	Flags  gopt
	I      bool
	Args   []string
	Stdin  string
	Extra  []string `json:",omitempty"` // further flags, given first, which must not change what is printed
	Twice  bool     `json:",omitempty"` // Extra spells out Flags
	Files  int      `json:",omitempty"` // limit on open files
	Nobody bool     // run as an unprivileged user, for whom "secret" is unreadable
}

var c24files = []file{
	{"f1", "abc\nxyz\nABC def\n"}, {"f2", "xyz\n\nabc\nab"}, {"empty", ""}, {"nl", "\n"}, {"crlf", "abc\r\nxyz\r\n"}, {"sub/f3", "  abc\n\txyz\n\t abc\n"},
	{"na:me %s", "abc\n"}, {"big", ""}, {"secret", "abc\n"}, {"bin", "a\x00bc\xff\xfeabc\nxyz\n"}, {"-dash", "abc\n"},
	{"-", "a file called dash\nabc\n"}, {"bom", "\xef\xbb\xbfabc\nabc\n"}, {"utf16", "\xff\xfea\x00b\x00c\x00\n\x00\nabc\n"}, {"gz", "\x1f\x8b\b\x00abc\nx"}, {"latin", "\xe9abc\xe9\n\xe9\nabc"}, {"nul", "\x00\nabc\n\x00abc\x00\nxyz"}, {"cr", "abc\rxyz\r\rabc\r"},
	{"a.zip", "PK\x03\x04 abc\nabc"}, {"a~", "abc\n"}, {".hid", "abc\nxyz\n"}, {"#x#", "xyz\nabc\n"}, {"a*", "abc star\n"}, {"sp  ace ", "abc\n"}, {"~", "abc home\n"}, {"$HOME", "abc dollar\n"}, {"b\nc", "abc\n"}, {"\xff\xfe", "abc\n"}, {"http:", "abc\n"}, {"@list", "f1\nabc\n"},
}

const c24uid = 65534

func (r *Run) c24dir() string {
	d := filepath.Join(r.Scratch, "c24")
	if _, err := os.Stat(d); err == nil {
		return d
	}
	for _, f := range c24files {
		if f.Name == "big" {
			f.Data = c24big()
		}
		mustWrite(filepath.Join(d, f.Name), []byte(f.Data))
	}
	os.Chmod(filepath.Join(d, "secret"), 0)
	// Let the unprivileged user reach the directory and the commands.
	for p := d; len(p) > len("/tmp"); p = filepath.Dir(p) {
		os.Chmod(p, 0755)
	}
	os.Chmod(binDir(), 0755)
	os.Chmod(filepath.Dir(binDir()), 0755)
	return d
}

func c24big() string {
	return gfill(1<<20-5, 40) + "abc x\nxyz\n" + gfill(2000, 30) + "abc"
}

var c24largeText string

// c24large is a text of many megabytes.
func c24large() string {
	if c24largeText == "" {
		c24largeText = gfill(36<<20, 70) + "abc in the end\n" + gfill(500, 50) + "last abc"
	}
	return c24largeText
}

func c24text(name string) (string, bool) {
	if name == "large" {
		return c24large(), true
	}
	for _, f := range c24files {
		if f.Name == name {
			if name == "big" {
				return c24big(), true
			}
			return f.Data, true
		}
	}
	return "", false
}

const (
	c24fifo     = "fifo"
	c24fifoText = "abc from a pipe\nxyz\nabc\n"
)

// c24feed lets the next reader of the named pipe in d read its text. The function returned must be called after that.
func c24feed(d string) func() {
	name := filepath.Join(d, c24fifo)
	os.Remove(name)
	if err := syscall.Mkfifo(name, 0666); err != nil {
		panic(harnessErr("mkfifo: " + err.Error()))
	}
	os.Chmod(name, 0666)
	done := make(chan bool)
	go func() {
		defer close(done)
		if f, err := os.OpenFile(name, os.O_WRONLY, 0); err == nil { // waits for a reader
			f.WriteString(c24fifoText)
			f.Close()
		}
	}()
	return func() {
		// If nothing has read it, let the writer go.
		if f, err := os.OpenFile(name, os.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
			<-done
			f.Close()
		}
		os.Remove(name)
	}
}

func c24run(r *Run, c *c24case) {
	r.At(c)
	d := r.c24dir()
	args := append([]string{}, c.Extra...)
	if !c.Twice {
		args = append(args, optFlags(c.Flags)...)
	}
	if c.I {
		args = append(args, "-i")
	}
	args = append(args, "--", c.Expr)
	args = append(args, c.Args...)
	p := "(?m)" + c.Expr
	if c.I {
		p = "(?i)" + p
	}
	e := c16gre(p)
	var b strings.Builder
	matched := false
	n, limited := 0, false
	var errs []string
	if len(c.Args) == 0 {
		out, m := gmodel(e, c.Flags, "<standard input>", c.Stdin, &n, &limited)
		b.WriteString(out)
		matched = m
	}
	for _, a := range c.Args {
		t, ok := c24text(a)
		switch a {
		case "/dev/stdin":
			t, ok = c.Stdin, true
		case "/proc/sys/kernel/ostype":
			t, ok = string(mustRead(a)), true
		case c24fifo:
			t, ok = c24fifoText, true
			defer c24feed(d)()
		}
		if !ok || a == "secret" && c.Nobody {
			errs = append(errs, a)
			continue
		}
		out, m := gmodel(e, c.Flags, a, t, &n, &limited)
		b.WriteString(out)
		matched = matched || m
	}
	want := b.String()
	o := cliOpt{Dir: d, Stdin: []byte(c.Stdin), Files: c.Files}
	if c.Nobody {
		o.Uid = c24uid
	}
	res := r.tool(o, "cgrep", args...)
	r.Step(1)
	code := 1
	if matched {
		code = 0
	}
	if res.Out != want {
		r.Fail(c, "cgrep %q prints\n%s\nwant\n%s\nstderr: %s\n(%s)", args, cut(res.Out), cut(want), cut(res.Err), firstDiff([]byte(res.Out), []byte(want)))
	}
	if res.Code != code {
		r.Fail(c, "cgrep %q exits %d, want %d\nstdout: %s\nstderr: %s", args, res.Code, code, cut(res.Out), cut(res.Err))
	}
	lines := splitLines(res.Err)
	if len(errs) == 0 && res.Err != "" {
		r.Fail(c, "cgrep %q: all files are readable, but it reports %q", args, res.Err)
	}
	// Each unreadable argument is reported, in order.
	i := 0
	for _, a := range errs {
		for i < len(lines) && !strings.Contains(lines[i], a) {
			i++
		}
		if i == len(lines) {
			r.Fail(c, "cgrep %q does not report %q on standard error:\n%s", args, a, res.Err)
		}
		i++
	}
	r.Trace(matched)
	r.State(h64(fmt.Sprint(*c)))
	switch {
	case len(errs) > 0:
		r.Outcome("errors reported")
	case matched:
		r.Outcome("selected")
	default:
		r.Outcome("none selected")
	}
}

func init() {
	register(&Prop{
		ID: "C24", Level: "model_checked_conformance",
		Rule:        "Every flag combination x expression x argument list of the family; non-trivial when some line is selected.",
		Assumptions: []string{"a directory given as an argument counts as an unreadable file"},
		Jobs: func(tier string) []Job {
			quick := tier != "thorough"
			ctx := [][2]int{{0, 0}, {1, 0}, {0, 2}, {1, 1}}
			opts := allOpts(ctx, true)
			es := []string{"abc", "", "^$", "nosuch", "xyz|def", "b", `\bab`, "c$", "^[^a]*$", `\101|\170`, `[!-_]{2}`}
			names := []string{"f1", "f2", "empty", "nl", "missing", "sub", "sub/f3", "crlf", "na:me %s"}
			var lists [][]string
			for _, a := range names {
				lists = append(lists, []string{a})
				for _, b := range names {
					lists = append(lists, []string{a, b})
				}
			}
			for _, a := range names[:5] {
				for _, b := range names[:5] {
					for _, c := range names[:5] {
						lists = append(lists, []string{a, b, c})
					}
				}
			}
			var js []Job
			js = append(js, shardJobs("files", 16, func(r *Run, sh, k int) {
				i := 0
				for oi, o := range opts {
					for ei, e := range es {
						for li, l := range lists {
							// Quick: a covering array in which every two of options, expression and list meet.
							if quick && (oi+ei+5*li)%9 != 0 {
								continue
							}
							i++
							if i%k == sh {
								c24run(r, &c24case{Expr: e, Flags: o, I: (oi+li)%3 == 0, Args: l})
							}
						}
					}
				}
			})...)
			tl := 3
			if !quick {
				tl = 4
			}
			texts := strs([]string{"abc", "\n", "B", " "}, tl)
			js = append(js, shardJobs("stdin", 16, func(r *Run, sh, k int) {
				i := 0
				for ti, t := range texts {
					for oi, o := range opts {
						for ei, e := range es {
							if quick && (oi+ei+5*ti)%9 != 0 {
								continue
							}
							i++
							if i%k == sh {
								c24run(r, &c24case{Expr: e, Flags: o, I: (oi+ti)%2 == 0, Stdin: t})
							}
						}
					}
				}
			})...)
			js = append(js, shardJobs("special", 8, func(r *Run, sh, k int) {
				i := 0
				for _, o := range opts {
					if quick && o.Pre != o.Post {
						continue
					}
					for _, e := range []string{"abc", "x$"} {
						for _, c := range []c24case{
							{Args: []string{"secret", "f1"}, Nobody: true}, {Args: []string{"f1", "secret"}, Nobody: true}, {Args: []string{"secret"}, Nobody: true},
							{Args: []string{"secret"}}, {Args: []string{"big"}}, {Args: []string{"f2", "big", "f1"}}, {Args: []string{"-dash", "f1"}}, {Stdin: c24big()},
						} {
							i++
							if i%k != sh {
								continue
							}
							c.Expr, c.Flags = e, o
							c24run(r, &c)
						}
					}
				}
				if sh > 0 {
					return
				}
				d := r.c24dir()
				for _, a := range [][]string{{}, {"-n"}, {"-nosuchflag", "abc"}, {"-C", "x", "abc", "f1"}, {"-A", "abc", "f1"}, {"-B=1.5", "abc", "f1"}, {"-in", "abc", "f1"}, {"-help"}, {"-C"}} {
					res := r.tool(cliOpt{Dir: d}, "cgrep", a...)
					r.Step(1)
					ok := res.Code == 2
					if a0 := append(a, "")[0]; a0 == "-help" {
						ok = res.Code == 0 || res.Code == 2
					}
					if !ok || res.Out != "" || !strings.Contains(res.Err, "usage") {
						r.Fail(a, "usage error: cgrep %q: exit %d stdout %q stderr %q", a, res.Code, res.Out, res.Err)
					}
					r.Trace(true)
					r.Outcome("usage error")
				}
				for _, a := range [][]string{{"("}, {"a**"}, {"[z-a]"}, {`\pX`}, {"(?z)"}, {"a{2,1}"}, {"-i", ")"}, {"-v", "*"}} {
					res := r.tool(cliOpt{Dir: d}, "cgrep", append(a, "f1")...)
					r.Step(1)
					if res.Code != 1 && res.Code != 2 || res.crashed() || res.Out != "" || res.Err == "" {
						r.Fail(a, "bad expression: cgrep %q: exit %d stdout %q stderr %q", a, res.Code, res.Out, res.Err)
					}
					r.Trace(true)
					r.Outcome("bad expression")
				}
			})...)
			js = append(js, shardJobs("other flags", 4, func(r *Run, sh, k int) {
				prof := filepath.Join(r.Scratch, "prof")
				i := 0
				for _, x := range [][]string{{"-cpuprofile", prof}, {"--cpuprofile=" + prof}, {"-v=false", "-i=false"}} {
					for _, o := range opts {
						if o.V && x[0] == "-v=false" {
							continue
						}
						for _, e := range []string{"abc", "", "nosuchtext"} {
							for _, l := range [][]string{nil, {"f1", "f2"}, {"missing"}} {
								if i++; i%k == sh {
									c24run(r, &c24case{Expr: e, Flags: o, Args: l, Stdin: "abc\nABC\n\nx", Extra: x})
								}
							}
						}
					}
				}
				for _, x := range []struct {
					args []string
					o    gopt
				}{{[]string{"-A", "2", "-A", "1"}, gopt{Post: 1}}, {[]string{"-B=1", "-A=3", "-B=0"}, gopt{Post: 3}}, {[]string{"-C", "2", "-A", "0"}, gopt{Pre: 2}}, {[]string{"-A", "1", "-C", "2"}, gopt{Pre: 2, Post: 2}},
					{[]string{"-n", "-C", "0"}, gopt{N: true}}, {[]string{"-h", "-n", "-A=0", "-B", "0"}, gopt{N: true, H: true}}, {[]string{"-c", "-C=0"}, gopt{C: true}}, {[]string{"-C=3", "-C=1", "-n"}, gopt{Pre: 1, Post: 1, N: true}}, {[]string{"-n", "-l", "-n=false", "-l=false"}, gopt{}}, {[]string{"-c=true", "-h=1", "-c=F"}, gopt{H: true}}, {[]string{"-v", "-v=false", "-v=t"}, gopt{V: true}}} {
					for _, e := range []string{"abc", "de", "nosuchtext"} {
						if i++; i%k == sh {
							c24run(r, &c24case{Expr: e, Flags: x.o, Args: []string{"f1", "f2", "crlf"}, Extra: x.args, Twice: true})
						}
					}
				}
			})...)
			// Unusual contents and names.
			js = append(js, shardJobs("odd files", 8, func(r *Run, sh, k int) {
				var odd []string
				for _, f := range c24files {
					switch f.Name {
					case "big", "secret", "f1", "f2", "empty", "nl":
					default:
						odd = append(odd, f.Name)
					}
				}
				i := 0
				for _, e := range []string{"abc", "^abc", "abc$", "xyz", "^$", ""} {
					for _, o := range opts {
						if quick && o.Pre != o.Post {
							continue
						}
						for j, f := range odd {
							for _, l := range [][]string{{f}, {"f1", f}, {f, odd[(j+1)%len(odd)], "f2", f}} {
								if quick && len(l) > 1 && (j+len(l))%3 != i%3 {
									i++
									continue
								}
								if i++; i%k == sh {
									c24run(r, &c24case{Expr: e, Flags: o, I: i%5 == 0, Args: l, Stdin: "standard abc input\nABC\n"})
								}
							}
						}
					}
				}
			})...)
			// What has content but no size: pipes, and files of the kernel.
			js = append(js, shardJobs("no size", 4, func(r *Run, sh, k int) {
				lists := [][]string{{"/dev/stdin"}, {"f1", "/dev/stdin", "f2"}, {c24fifo}, {"empty", c24fifo, "f1"}, {"/dev/stdin", c24fifo}}
				if b, err := os.ReadFile("/proc/sys/kernel/ostype"); err == nil && len(b) > 0 && len(b) < 60 {
					lists = append(lists, []string{"/proc/sys/kernel/ostype"}, []string{"f1", "/proc/sys/kernel/ostype", "empty"})
				}
				i := 0
				for _, o := range opts {
					for _, e := range []string{"abc", "", "i", "nosuchtext"} {
						for _, l := range lists {
							if i++; i%k == sh && (!quick || o.Pre == o.Post) {
								c24run(r, &c24case{Expr: e, Flags: o, I: i%3 == 0, Args: l, Stdin: "x\nabc\n\nABC i"})
							}
						}
					}
				}
			})...)
			// The same files again and again, more often than files may be open at once.
			js = append(js, Job{"many files", func(r *Run) {
				var l []string
				for i := 0; i < 1500; i++ {
					l = append(l, names[i%len(names)])
				}
				for _, o := range []gopt{{}, {L: true}, {C: true, V: true}, {N: true, H: true}, {Pre: 1, Post: 1}} {
					c24run(r, &c24case{Expr: "abc", Flags: o, Args: l, Files: 40})
				}
			}})
			// Files of many megabytes.
			js = append(js, Job{"large files", func(r *Run) {
				mustWrite(filepath.Join(r.c24dir(), "large"), []byte(c24large()))
				for _, o := range []gopt{{N: true}, {C: true}, {L: true}, {Post: 1}} {
					c24run(r, &c24case{Expr: "abc", Flags: o, Args: []string{"f1", "large", "f2"}})
				}
				os.Remove(filepath.Join(r.c24dir(), "large"))
			}})
			// Texts of very many lines.
			js = append(js, shardJobs("many lines", 4, func(r *Run, sh, k int) {
				i := 0
				for _, n := range []int{1025, 4097, 16385, 32769, 65537, 140001} {
					for _, t := range []string{strings.Repeat("x\n", n-1) + "abc", strings.Repeat("abc\n", n), strings.Repeat("x\nabc\n", n/2), strings.Repeat("abc\n", n) + "x\nabc"} {
						for _, o := range []gopt{{}, {V: true}, {C: true}, {C: true, V: true}, {N: true}, {N: true, V: true}, {Pre: 1, Post: 1}, {L: true}} {
							if i++; i%k == sh && (o.Pre == 0 || n < 20000) {
								c24run(r, &c24case{Expr: "abc", Flags: o, Stdin: t})
							}
						}
					}
				}
			})...)
			return js
		},
		Replay: func(r *Run, raw json.RawMessage) {
			var c c24case
			if json.Unmarshal(raw, &c) != nil {
				panic(harnessErr("an error case is replayed by running cgrep with the arguments given"))
			}
			if slices.Contains(c.Args, "large") {
				mustWrite(filepath.Join(r.c24dir(), "large"), []byte(c24large()))
			}
			c24run(r, &c)
		},
	})
}
