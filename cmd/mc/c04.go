package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"regexp/syntax"
	"strings"

	"github.com/google/codesearch/regexp"
)

// C04, C05: every short text x every buffer capacity x every option set on the real Grep, against a
// list-of-lines model. The same texts are also laid across the end of the real 1 MB buffer.

type gcase struct {
	Re     string
	Opt    gopt
	Cap    int    // capacity of the buffer (0: the real one)
	Before string `json:",omitempty"` // a text searched first with the same Grep
	Hist   bool   `json:",omitempty"` // whether Before is used
	Fill   int    `json:",omitempty"` // bytes of filler lines before the text
	FillW  int    `json:",omitempty"` // width of a filler line
	Rep    int    `json:",omitempty"` // times the text is repeated
	Text   string
	Read   int  `json:",omitempty"` // bytes per read (0: all)
	Err    bool `json:",omitempty"` // the reader ends with an error
}

type gopt struct {
	L, C, N, H, V bool
	Limit         int
	Pre, Post     int
}

// A gre is an expression with the oracle's view of it.
type gre struct {
	s    string
	m    *regexp.Regexp
	re   *syntax.Regexp
	memo map[string]bool
}

func newGre(s string) *gre {
	m, err := regexp.Compile(s)
	if err != nil {
		panic(harnessErr("Compile: " + err.Error()))
	}
	re, err := syntax.Parse(s, syntax.Perl)
	if err != nil {
		panic(harnessErr("Parse: " + err.Error()))
	}
	return &gre{s, m, re, map[string]bool{}}
}

func (e *gre) match(line string, begin, end bool) bool {
	if len(line) > 60 {
		if strings.Trim(line, "z") != "" {
			panic(harnessErr("long line that is not filler"))
		}
		line = line[:60] // filler
	}
	k := line
	if begin {
		k += "\nb"
	}
	if end {
		k += "\ne"
	}
	if v, ok := e.memo[k]; ok {
		return v
	}
	v := (&oline{[]rune(line), begin, end}).match(e.re)
	e.memo[k] = v
	return v
}

func splitLines(t string) []string {
	l := strings.Split(t, "\n")
	if l[len(l)-1] == "" {
		l = l[:len(l)-1]
	}
	return l
}

// gmodel is the specified output of one search; matches is the searcher's running count.
func gmodel(e *gre, o gopt, name, text string, matches *int, limited *bool) (out string, matched bool) {
	var b strings.Builder
	lines := splitLines(text)
	nl := strings.HasSuffix(text, "\n")
	count := 0
	prefix := name + ":"
	if o.H {
		prefix = ""
	}
	for i, l := range lines {
		if e.match(l, i == 0, i == len(lines)-1 && !nl) == o.V {
			continue
		}
		matched = true
		if o.Limit > 0 && *matches >= o.Limit {
			*limited = true
			return b.String(), matched
		}
		*matches++
		switch {
		case o.L:
			return name + "\n", matched
		case o.C:
			count++
		case o.Pre+o.Post > 0:
			before := lines[max(0, i-o.Pre):i]
			after := lines[i+1 : min(len(lines), i+1+o.Post)]
			fmt.Fprintf(&b, "%s%d:\n", prefix, i+1)
			p := commonIndent(l, before, after)
			for _, x := range before {
				b.WriteString("\t\t" + dedent(x, p) + "\n")
			}
			b.WriteString("\t>>\t" + dedent(l, p) + "\n")
			for _, x := range after {
				b.WriteString("\t\t" + dedent(x, p) + "\n")
			}
		case o.N:
			fmt.Fprintf(&b, "%s%d:%s\n", prefix, i+1, l)
		default:
			b.WriteString(prefix + l + "\n")
		}
	}
	if o.C && count > 0 {
		fmt.Fprintf(&b, "%s: %d\n", name, count)
	}
	return b.String(), matched
}

func chompLine(s string) string { return strings.TrimRight(s, " \t\r") }

// commonIndent is the longest run of spaces and tabs that starts the matching line and every
// other shown line that is not blank.
func commonIndent(l string, before, after []string) string {
	l = chompLine(l)
	p := l[:len(l)-len(strings.TrimLeft(l, " \t"))]
	for _, x := range append(append([]string{}, before...), after...) {
		x = chompLine(x)
		if x == "" {
			continue
		}
		for !strings.HasPrefix(x, p) {
			p = p[:len(p)-1]
		}
	}
	return p
}

func dedent(s, p string) string {
	s = chompLine(s)
	if len(s) < len(p) {
		return ""
	}
	return s[len(p):]
}

// setGrepBuf gives g a buffer of the given capacity with stale content. It reports false if it cannot.
func setGrepBuf(g *regexp.Grep, n int) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	f := field(reflect.ValueOf(g), "buf")
	if !f.IsValid() || f.Type() != reflect.TypeOf([]byte(nil)) {
		return false
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = "ab\n"[i%3]
	}
	f.SetBytes(b)
	return true
}

func gfill(n, w int) string {
	if n == 0 {
		return ""
	}
	l := strings.Repeat("z", w-1) + "\n"
	s := strings.Repeat(l, n/w+1)
	return s[len(s)-n:]
}

var errRead = errors.New("injected read error")

type grun struct {
	e    *gre
	g    regexp.Grep
	out  bytes.Buffer
	serr bytes.Buffer
	bufs map[int]bool
}

var noBuf bool

func (u *grun) reset(r *Run, o gopt, capacity int) {
	g := &u.g
	if capacity > 0 && !u.bufs[capacity] {
		u.g = regexp.Grep{}
		if !setGrepBuf(g, capacity) {
			noBuf = true
		}
		u.bufs = map[int]bool{capacity: true}
	}
	u.out.Reset()
	u.serr.Reset()
	g.Regexp = u.e.m
	g.Stdout, g.Stderr = &u.out, &u.serr
	g.L, g.C, g.N, g.H, g.V = o.L, o.C, o.N, o.H, o.V
	g.PreContext, g.PostContext, g.Limit = o.Pre, o.Post, o.Limit
	g.Match, g.Matches, g.Limited = false, 0, false
}

// gcheck runs one case. It returns the number of matching lines.
func (u *grun) gcheck(r *Run, c *gcase) int {
	u.reset(r, c.Opt, c.Cap)
	type run struct{ name, text string }
	var runs []run
	if c.Hist {
		runs = append(runs, run{"before", c.Before})
	}
	text := gfill(c.Fill, max(c.FillW, 2)) + strings.Repeat(c.Text, max(c.Rep, 1))
	runs = append(runs, run{"f", text})
	matches, limited, matched := 0, false, false
	var want strings.Builder
	var wantErr strings.Builder
	for _, x := range runs {
		o, m := gmodel(u.e, c.Opt, x.name, x.text, &matches, &limited)
		want.WriteString(o)
		matched = matched || m
		if c.Err && !(c.Opt.L && m) && !limited {
			wantErr.WriteString(x.name + ": " + errRead.Error() + "\n")
		}
		cr := &chunkReader{data: []byte(x.text)}
		if c.Read > 0 {
			cr.sizes = []int{c.Read}
		}
		if c.Err {
			cr.err = errRead
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(harnessErr); ok {
						panic(e)
					}
					r.Fail(c, "Grep.Reader panics: %v", e)
				}
			}()
			u.g.Reader(io.Reader(cr), x.name)
		}()
	}
	r.Transitions++
	if u.out.String() != want.String() {
		r.Fail(c, "output %q, want %q (text %q)", cut(u.out.String()), cut(want.String()), cut(c.Text))
	}
	if u.g.Match != matched {
		r.Fail(c, "match indicator %v, want %v", u.g.Match, matched)
	}
	if u.g.Limited != limited || c.Opt.Limit > 0 && u.g.Matches != matches {
		r.Fail(c, "Limited=%v Matches=%d, want %v %d", u.g.Limited, u.g.Matches, limited, matches)
	}
	if u.serr.String() != wantErr.String() {
		r.Fail(c, "errors %q, want %q", cut(u.serr.String()), cut(wantErr.String()))
	}
	return matches
}

func cut(s string) string {
	if len(s) > 600 {
		return s[:300] + "..." + s[len(s)-300:]
	}
	return s
}

// gfits reports whether the case is within the stated domain: every line is shorter than the buffer
// and, with context, the requested context and the lines around it fit.
func gfits(text string, n int, o gopt) bool {
	lines := strings.SplitAfter(text, "\n")
	w := 1
	if o.Pre+o.Post > 0 && !o.C && !o.L {
		w = o.Pre + o.Post + 3
	}
	for i := range lines {
		t := 0
		for _, l := range lines[i:min(len(lines), i+w)] {
			t += len(l)
			if !strings.HasSuffix(l, "\n") {
				t++
			}
		}
		if t > n {
			return false
		}
	}
	return true
}

var c04opts = []gopt{{}, {N: true}, {L: true}, {C: true}, {V: true}, {N: true, V: true}, {H: true}, {N: true, H: true}, {C: true, H: true}, {C: true, V: true}, {L: true, V: true}, {L: true, C: true}, {N: true, Limit: 1}, {N: true, Limit: 2}, {L: true, Limit: 1}, {V: true, N: true, Limit: 2}, {C: true, N: true}}

var c04res = []string{"(?m)a", "(?m)^b", "(?m)a$", "(?m)^$", "(?m)b.*a", "(?m)\\Aa", "(?m)(?i)A|bb", "(?m)b\\z", "(?m)^", "(?m)c", "(?m)[^a]", "(?m)\\Bb", "(?m)(?s)a.b"}

func c04jobs(tier string) []Job {
	thorough := tier == "thorough"
	tl, k := 8, 48
	if thorough {
		tl = 10
	}
	alpha := []string{"a", "b", "\n"}
	var jobs []Job
	jobs = append(jobs, shardJobs("small-buffer", k, func(r *Run, s, k int) {
		texts := strs(alpha, tl)
		for ei, es := range c04res {
			u := &grun{e: newGre(es)}
			for n := 2; n <= tl+1; n++ {
				for i, t := range texts {
					if (i+ei)%k != s || !gfits(t, n, gopt{}) {
						continue
					}
					if r.Expired() {
						return
					}
					c := &gcase{Re: es, Cap: n, Text: t}
					r.At(c)
					m := 0
					for oi, o := range c04opts {
						c.Opt = o
						c.Read = 0
						c.Err = false
						if (oi+i+n)%7 == 0 {
							c.Read = 1 + (oi+i)%3
						}
						if (oi+i+n)%11 == 0 {
							c.Err = true
						}
						m += u.gcheck(r, c)
					}
					r.Trace(m > 0 && strings.Contains(t, "\n"))
					r.State(h64(fmt.Sprintf("%d %d %q", ei, n, t)))
					if len(t) > n {
						r.Outcome("text longer than the buffer")
					} else {
						r.Outcome("text fits the buffer")
					}
					if i%997 == 5 {
						r.Sample("%q on %q, capacity %d", es, t, n)
					}
				}
			}
		}
		if noBuf {
			r.Note("Grep.buf is not accessible: only the real buffer size explored")
		}
	})...)
	jobs = append(jobs, shardJobs("histories", k, func(r *Run, s, k int) {
		hl := 4
		if thorough {
			hl = 5
		}
		texts := strs(alpha, hl)
		for ei, es := range c04res {
			u := &grun{e: newGre(es)}
			for _, n := range []int{2, 3, hl + 2} {
				for i, b := range texts {
					if (i+ei)%k != s || !gfits(b, n, gopt{}) {
						continue
					}
					if r.Expired() {
						return
					}
					for j, t := range texts {
						if !gfits(t, n, gopt{}) {
							continue
						}
						c := &gcase{Re: es, Cap: n, Before: b, Hist: true, Text: t}
						if j%16 == 0 {
							r.At(c)
						}
						m := 0
						for oi := 0; oi < 4; oi++ {
							c.Opt = c04opts[[]int{1, 12, 13, 3, 2, 14, 5, 0}[(oi+4*(j&1))]]
							m += u.gcheck(r, c)
						}
						r.Trace(m > 0)
					}
				}
			}
		}
	})...)
	// Every byte, and the marks that files of many kinds begin with, at the places of a text.
	jobs = append(jobs, shardJobs("any bytes", 16, func(r *Run, s, k int) {
		for ei, es := range []string{"(?m)ab", "(?m)^ab", "(?m)ab$", "(?m)^b", "(?m)^$"} {
			u := &grun{e: newGre(es)}
			for i, x := range gmarks() {
				if (i+ei)%k != s {
					continue
				}
				if r.Expired() {
					return
				}
				for ti, t := range []string{x + "ab\nx\nab", "ab" + x + "\nab\n", "x\n" + x + x + "ab\n" + x + "\nab\n", "ab\nb" + x, x, x + "\n", "\n" + x + "ab" + x, "ab" + x + "\n\n" + x + "\nb\n"} {
					for _, n := range []int{len(t) + 1, 0} {
						if n == 0 && ti%4 != 0 {
							continue
						}
						c := &gcase{Re: es, Cap: n, Text: t}
						r.At(c)
						m := 0
						for _, o := range c04opts {
							c.Opt = o
							m += u.gcheck(r, c)
						}
						r.Trace(m > 0)
						r.State(h64(fmt.Sprintf("any bytes %d %d %q", ei, n, t)))
						r.Outcome("texts with any byte")
					}
				}
			}
		}
	})...)
	// Long texts: many matching lines, a match after many megabytes.
	sizes := []int{8 << 20, 16 << 20, 33 << 20, 65 << 20}
	counts := []int{100, 127, 128, 255, 256, 257, 1000, 9999, 32767, 32768, 65535, 65536, 65537, 100001, 1000001}
	if thorough {
		sizes = append(sizes, 128<<20, 257<<20, 513<<20)
		counts = append(counts, 10000001, 1<<24+1)
	}
	jobs = append(jobs, shardJobs("long", 4, func(r *Run, s, k int) {
		ua, uz := &grun{e: newGre("(?m)a")}, &grun{e: newGre("(?m)z")}
		n := 0
		do := func(c gcase) {
			u := ua
			if c.Re != "(?m)a" {
				u = uz
			}
			n++
			if n%k != s {
				return
			}
			r.At(c)
			r.Trace(u.gcheck(r, &c) > 0)
			r.State(h64(fmt.Sprint(c)))
		}
		for i, size := range sizes {
			for j, o := range []gopt{{L: true}, {}, {N: true}, {C: true}, {N: true, Limit: 3}} {
				if (i+j)%2 == 0 || thorough || o.L {
					do(gcase{Re: "(?m)a", Opt: o, Fill: size + 5, FillW: 1000, Text: "xa\nb\na\nba"})
				}
			}
		}
		for _, m := range counts {
			for _, o := range []gopt{{C: true}, {N: true}, {L: true}, {}, {C: true, V: true}, {N: true, V: true}, {Limit: m - 1}, {Limit: m}, {Limit: m + 1}} {
				do(gcase{Re: "(?m)a", Opt: o, Rep: m, Text: "a\n"})
				if o.V {
					do(gcase{Re: "(?m)z", Opt: o, Fill: 2 * m, FillW: 2, Text: "b\nz\n"})
				}
				if o.Limit == 0 {
					do(gcase{Re: "(?m)a", Opt: o, Rep: m, Text: "b\na\n", Read: 65536})
				}
			}
		}
		r.Outcome("long texts")
	})...)
	// The text starts d bytes before the end of the first, second buffer.
	jobs = append(jobs, bigJobs(thorough, "real-buffer", []gopt{{N: true}, {}, {C: true}, {N: true, V: true}, {N: true, Limit: 1}}, c04res[:5], alpha)...)
	return jobs
}

// gmarks are all bytes, and what files of various kinds begin with or contain.
func gmarks() (out []string) {
	for b := 0; b < 256; b++ {
		if b != '\n' {
			out = append(out, string([]byte{byte(b)}))
		}
	}
	return append(out, "\xef\xbb\xbf", "\xfe\xff", "\xff\xfe", "\xff\xfe\x00\x00", "\x1f\x8b", "PK\x03\x04", "%PDF-", "\x7fELF", "#!", "BZh", "\u2028", "\u2029", "\u0085", "\u00a0", "\u200b", "\ufffd", "\U0010ffff",
		"\r\r", "\r \r", "\x00\x00\x00", "\x1b[31m", "\x1b]", "\b\b", "%s", "%!", "\\n", "e\u0301", "\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80")
}

func bigJobs(thorough bool, name string, opts []gopt, res []string, alpha []string) []Job {
	k := 32
	tl := 4
	if thorough {
		tl = 5
	}
	return shardJobs(name, k, func(r *Run, s, k int) {
		texts := strs(alpha, tl)
		us := map[string]*grun{}
		for _, e := range res {
			us[e] = &grun{e: newGre(e)}
		}
		n := 0
		for _, t := range texts {
			if len(t) < tl {
				continue
			}
			for d := 0; d <= tl+1; d++ {
				n++
				if n%k != s {
					continue
				}
				es := res[(n/k)%len(res)]
				o := opts[(n/k/len(res))%len(opts)]
				w := []int{3, 64, 1 << 15}[n/k%3]
				size := 1 << 20
				if n/k%5 == 4 {
					size = 2 << 20
				}
				c := &gcase{Re: es, Opt: o, Fill: size - d, FillW: w, Text: t}
				if n/k%4 == 1 {
					c.Read = 4096 + 1
				}
				if r.Expired() {
					return
				}
				r.At(c)
				m := us[es].gcheck(r, c)
				r.Trace(m > 0)
				r.State(h64(fmt.Sprint(*c)))
				r.Outcome("text across the end of the real buffer")
			}
		}
	})
}

func greplay(r *Run, raw json.RawMessage) {
	c := caseOf[gcase](raw)
	u := &grun{e: newGre(c.Re)}
	u.gcheck(r, &c)
	// once more with the automaton already built
	u.bufs = nil
	u.gcheck(r, &c)
}

func c05jobs(tier string) []Job {
	thorough := tier == "thorough"
	k := 48
	var ctxs []gopt
	for pre := 0; pre <= 2; pre++ {
		for post := 0; post <= 2; post++ {
			if pre+post > 0 {
				ctxs = append(ctxs, gopt{Pre: pre, Post: post})
			}
		}
	}
	ctxs = append(ctxs, gopt{Pre: 3}, gopt{Post: 3}, gopt{Pre: 1, Post: 1, H: true}, gopt{Pre: 1, Post: 1, N: true}, gopt{Pre: 1, Post: 2, V: true}, gopt{Pre: 1, Post: 1, C: true}, gopt{Pre: 1, L: true}, gopt{Pre: 1, Post: 1, Limit: 1})
	res := []string{"(?m)a", "(?m)^$", "(?m)^ *b", "(?m)aa|x"}
	explore := func(r *Run, s, k int, texts []string, caps func(int) []int) {
		for ei, es := range res {
			u := &grun{e: newGre(es)}
			for n := 3; n <= 24; n++ {
				for i, t := range texts {
					if (i+ei)%k != s {
						continue
					}
					use := false
					for _, x := range caps(len(t)) {
						use = use || x == n
					}
					if !use {
						continue
					}
					if r.Expired() {
						return
					}
					c := &gcase{Re: es, Cap: n, Text: t}
					if i%8 == 0 {
						r.At(c)
					}
					m, any := 0, false
					for _, o := range ctxs {
						if !gfits(t, n, o) {
							continue
						}
						any = true
						c.Opt = o
						m += u.gcheck(r, c)
					}
					if !any {
						continue
					}
					r.Trace(m > 0 && strings.Count(t, "\n") > 1)
					r.State(h64(fmt.Sprintf("%d %d %q", ei, n, t)))
					if len(t) > n {
						r.Outcome("text longer than the buffer")
					} else {
						r.Outcome("text fits the buffer")
					}
				}
			}
		}
	}
	var jobs []Job
	jobs = append(jobs, shardJobs("bytes", k, func(r *Run, s, k int) {
		tl := 8
		if thorough {
			tl = 9
		}
		explore(r, s, k, strs([]string{"a", "b", "\n", " "}, tl), func(n int) []int { return []int{n - 1, n, n + 1, n + 4} })
	})...)
	jobs = append(jobs, shardJobs("newlines", k, func(r *Run, s, k int) {
		tl := 12
		if thorough {
			tl = 14
		}
		var caps []int
		for i := 3; i <= 16; i++ {
			caps = append(caps, i)
		}
		explore(r, s, k, strs([]string{"a", "\n"}, tl), func(n int) []int { return caps })
	})...)
	jobs = append(jobs, shardJobs("lines", k, func(r *Run, s, k int) {
		nl := 5
		if thorough {
			nl = 6
		}
		alpha := []string{"\n", "a\n", " b\n", "\ta \n", " \t\n", "aa\r\n"}
		texts := strs(alpha, nl)
		more := strs(alpha[:4], nl-1)
		for _, t := range more {
			texts = append(texts, t+" a", t+"\tb")
		}
		explore(r, s, k, texts, func(n int) []int { return []int{n * 3 / 4, n - 2, n, n + 1} })
	})...)
	jobs = append(jobs, bigJobs(thorough, "real-buffer", []gopt{{Pre: 1, Post: 1}, {Pre: 2}, {Post: 2}, {Pre: 3, Post: 2, H: true}}, res[:3], []string{"a\n", "b", "\n"})...)
	// Wide contexts, far from other matches, near them, and cut off by the ends of the text.
	wide := []int{6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 2000, 4096, 4097, 10000, 20000}
	jobs = append(jobs, shardJobs("wide", 8, func(r *Run, s, k int) {
		us := map[string]*grun{}
		n := 0
		for _, w := range wide {
			for _, o := range []gopt{{Pre: w}, {Post: w}, {Pre: w, Post: w}, {Pre: w, Post: 1}, {Pre: 1, Post: w}} {
				for _, shape := range []int{0, 1, 2, 3} {
					for _, line := range []string{"b\n", "\t\tb\n", "\n", "\t\tlonger line of text\n"} {
						n++
						if n%k != s {
							continue
						}
						// Domain: the context and the lines around it fit in the buffer.
						if (o.Pre+o.Post+3)*len(line) > 1<<20 || w > 2000 && shape > 1 {
							continue
						}
						m := "\t\ta\n"
						var t string
						switch shape {
						case 0: // far from the ends
							t = strings.Repeat(line, w+5) + m + strings.Repeat(line, w+5)
						case 1: // the ends cut it off
							t = strings.Repeat(line, w-1) + m + strings.Repeat(line, w-1)
						case 2: // overlapping
							t = strings.Repeat(line, w) + m + strings.Repeat(line, w/2) + m + strings.Repeat(line, w+1)
						case 3: // across the end of the buffer
							t = strings.Repeat(line, (1<<20)/len(line)-w/2) + m + strings.Repeat(line, w+5) + m + strings.Repeat(line, 2)
						}
						if r.Expired() {
							return
						}
						c := &gcase{Re: "(?m)a", Opt: o, Text: t}
						if us[c.Re] == nil {
							us[c.Re] = &grun{e: newGre(c.Re)}
						}
						r.At(fmt.Sprintf("context %d+%d, shape %d, lines %q", o.Pre, o.Post, shape, line))
						r.Trace(us[c.Re].gcheck(r, c) > 0)
						r.State(h64(fmt.Sprint("wide", w, o, shape, line)))
					}
				}
			}
		}
		r.Outcome("wide contexts")
	})...)
	// every line matching, with context reaching far
	jobs = append(jobs, shardJobs("counts", 8, func(r *Run, s, k int) {
		u := &grun{e: newGre("(?m)a")}
		n := 0
		for lines := 1; lines <= 9; lines++ {
			for mask := 0; mask < 1<<lines; mask++ {
				n++
				if n%k != s {
					continue
				}
				var t strings.Builder
				for i := 0; i < lines; i++ {
					if mask>>i&1 == 1 {
						t.WriteString("a\n")
					} else {
						t.WriteString("b\n")
					}
				}
				for pre := 0; pre <= 5; pre++ {
					for post := 0; post <= 5; post++ {
						if pre+post == 0 {
							continue
						}
						o := gopt{Pre: pre, Post: post}
						for _, n := range []int{2 * (pre + post + 3), 2*(pre+post+3) + 1, 64} {
							c := &gcase{Re: "(?m)a", Cap: n, Text: t.String(), Opt: o}
							if !gfits(c.Text, n, o) {
								continue
							}
							r.At(c)
							r.Trace(u.gcheck(r, c) > 0)
						}
					}
				}
			}
		}
	})...)
	return jobs
}

func init() {
	register(&Prop{
		ID:    "C04",
		Level: "model_checking",
		Rule:  "texts: all strings over {a,b,newline} to the bound; buffer: every capacity from 2 (and the real 1 MB with the text laid across its end); 17 option sets, 13 expressions; two-file histories. One transition is one search compared with the list-of-lines model; a trace is one (expression, capacity, text), non-trivial when a line matches and the text has a newline",
		Assumptions: []string{
			"the small capacities are set through the searcher's private buffer; the real capacity is explored separately through the public interface",
			"domain: every line, with its newline, fits in the buffer"},
		Jobs:   c04jobs,
		Replay: greplay,
	})
	register(&Prop{
		ID:    "C05",
		Level: "model_checking",
		Rule:  "texts: all strings over {a,b,newline,space}, {a,newline} and over six line shapes to the bounds; contexts 0..3 (0..5 for two-line-kind texts); all capacities in which the context and its surrounding lines fit, and the real 1 MB buffer. A trace is one (expression, capacity, text), non-trivial when a line matches and there are at least two lines",
		Assumptions: []string{
			"domain: any before+after+3 consecutive lines fit in the buffer",
			"a blank matching line makes the common indentation empty"},
		Jobs:   c05jobs,
		Replay: greplay,
	})
}
