package main

import (
	"encoding/json"
	"fmt"
	goregexp "regexp"
	"regexp/syntax"
	"sort"
	"unicode"
	"unicode/utf8"

	"github.com/google/codesearch/index"
	"github.com/google/codesearch/regexp"
)

// C03: every code point against every class of a family around the UTF-8 and folding boundaries.

type c03case struct {
	Re   string
	Text string
	Kind string // match or query
}

func c03valid(c rune) bool {
	return c >= 0 && c <= unicode.MaxRune && c != '\n' && !(0xd800 <= c && c <= 0xdfff)
}

// c03obj is a compiled expression with its oracle.
type c03obj struct {
	s   string
	re  *syntax.Regexp
	m   *regexp.Regexp
	buf [8]byte
}

func c03compile(r *Run, s string) *c03obj {
	o := &c03obj{s: s}
	var err error
	o.re, err = syntax.Parse(s, syntax.Perl)
	if err != nil {
		return nil
	}
	r.must(c03case{s, "", "match"}, "Compile", func() {
		o.m, err = regexp.Compile(s)
		if err != nil {
			r.Fail(c03case{s, "", "match"}, "Compile(%q): %v", s, err)
		}
	})
	return o
}

func (o *c03obj) check(r *Run, text string) bool {
	want := (&oline{[]rune(text), true, true}).match(o.re)
	r.Transitions++
	var got int
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.Fail(c03case{o.s, text, "match"}, "%q on %q panics: %v", o.s, text, e)
			}
		}()
		got = o.m.MatchString(text, true, true)
	}()
	if (got >= 0) != want {
		if gre, err := goregexp.Compile(o.s); err == nil && gre.MatchString(text) != want {
			panic(harnessErr(fmt.Sprintf("oracle disagrees with Go's regexp: %q on %q", o.s, text)))
		}
		r.Fail(c03case{o.s, text, "match"}, "%q on %q (%x): matched=%v, want %v", o.s, text, text, got >= 0, want)
	}
	return want
}

func (o *c03obj) sweep(r *Run) {
	r.At(c03case{o.s, "", "match"})
	n := 0
	for c := rune(0); c <= unicode.MaxRune; c++ {
		if c03valid(c) && o.check(r, string(c)) {
			n++
		}
		if c&0xffff == 0 {
			r.Tick()
		}
	}
	r.Trace(n > 0 && n < 1000000)
	r.State(h64(o.s))
	r.Outcome(fmt.Sprintf("full sweep, class of about 2^%d", log2(n)))
	if r.Traces%100 == 3 {
		r.Sample("%q: all code points, %d members", o.s, n)
	}
}

func log2(n int) int {
	k := 0
	for n > 0 {
		n >>= 1
		k++
	}
	return k
}

func (o *c03obj) probe(r *Run, pts []rune, pre, post string) {
	r.nprog++
	if r.nprog%64 == 0 {
		r.At(c03case{o.s, "", "match"})
	}
	n := 0
	for _, c := range pts {
		if c03valid(c) && o.check(r, pre+string(c)+post) {
			n++
		}
	}
	r.Trace(n > 0)
	r.State(h64(o.s))
}

var c03bounds = []rune{0, 1, 9, 0xb, 0x1f, 0x20, '/', '0', '9', 'A', 'K', 'S', 'Z', '_', 'a', 'k', 's', 'z', 0x7e, 0x7f, 0x80, 0x81, 0xb5, 0xbf, 0xc0, 0xdf, 0xe9, 0xff, 0x100, 0x130, 0x131, 0x17f,
	0x390, 0x3b1, 0x3bf, 0x3c0, 0x7bf, 0x7fe, 0x7ff, 0x800, 0x801, 0xfff, 0x1000, 0x1e9e, 0x212a, 0x3fff, 0x4000, 0xcfff, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10001, 0x103ff, 0x10400, 0x10428, 0x1ffff, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10fffe, 0x10ffff}

func c03probes() []rune {
	m := map[rune]bool{}
	for _, b := range c03bounds {
		for d := rune(-2); d <= 2; d++ {
			m[b+d] = true
		}
		for _, mask := range []rune{0x3f, 0xfff, 0x3ffff} {
			m[b|mask] = true
			m[(b|mask)+1] = true
			m[b&^mask] = true
			m[b&^mask-1] = true
		}
	}
	var out []rune
	for c := range m {
		if c03valid(c) {
			out = append(out, c)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func c03rng(lo, hi rune) string { return fmt.Sprintf("\\x{%x}-\\x{%x}", lo, hi) }

func c03jobs(tier string) []Job {
	thorough := tier == "thorough"
	var jobs []Job
	const k = 16
	jobs = append(jobs, shardJobs("ranges", k, func(r *Run, s, k int) {
		pts := c03probes()
		n := 0
		for i, lo := range c03bounds {
			for j := i; j < len(c03bounds); j++ {
				hi := c03bounds[j]
				n++
				if n%k != s {
					continue
				}
				if r.Expired() {
					return
				}
				for fi, f := range []string{"[%s]", "[^%s]", "(?i:[%s])", "(?i:[^%s])"} {
					for ci, ctx := range [][2]string{{"^", "$"}, {"x", "y"}, {"^", "k"}} {
						o := c03compile(r, ctx[0]+fmt.Sprintf(f, c03rng(lo, hi))+ctx[1])
						if o == nil {
							r.Note("not a valid expression")
							continue
						}
						pre, post := "", ""
						if ci == 1 {
							pre, post = "x", "y"
						} else if ci == 2 {
							post = "k"
						}
						// All code points for each plain range with a step, probes for the others.
						if ci == 0 && (thorough || fi == 0 && n%8 == s/2%8 || n%64 == fi) {
							o.sweep(r)
						} else {
							o.probe(r, pts, pre, post)
						}
					}
				}
			}
		}
	})...)
	jobs = append(jobs, shardJobs("named", k, func(r *Run, s, k int) {
		var cls []string
		for _, c := range "dDsSwW" {
			cls = append(cls, "\\"+string(c), "[^\\"+string(c)+"]", "(?i:\\"+string(c)+")")
		}
		for _, c := range []string{"alnum", "alpha", "ascii", "blank", "cntrl", "digit", "graph", "lower", "print", "punct", "space", "upper", "word", "xdigit"} {
			cls = append(cls, "[[:"+c+":]]", "[[:^"+c+":]]", "(?i:[[:"+c+":]])", "(?i:[^[:"+c+":]])")
		}
		for _, c := range sortedKeys(unicode.Categories) {
			cls = append(cls, "\\p{"+c+"}", "\\P{"+c+"}", "(?i:\\p{"+c+"})")
		}
		for _, c := range sortedKeys(unicode.Scripts) {
			cls = append(cls, "\\p{"+c+"}", "(?i:[^\\p{"+c+"}])")
		}
		cls = append(cls, ".", "(?s:.)", "\\x{0}", "[^\\x{0}]", "\\C")
		for i, c := range cls {
			if i%k != s {
				continue
			}
			if r.Expired() {
				return
			}
			if o := c03compile(r, "^"+c+"$"); o != nil {
				if thorough || i%3 == 0 || len(c) <= 6 {
					o.sweep(r)
				} else {
					// every code point next to a change of membership, and the general probes
					pts := c03probes()
					prev := false
					for x := rune(0); x <= unicode.MaxRune; x++ {
						in := (&oline{[]rune{x}, true, true}).match(o.re)
						if in != prev {
							pts = append(pts, x-1, x, x+1)
						}
						prev = in
					}
					o.probe(r, pts, "", "")
				}
			} else {
				r.Note("not a valid expression")
			}
		}
	})...)
	jobs = append(jobs, shardJobs("two-ranges", k, func(r *Run, s, k int) {
		pts := c03probes()
		var b []rune
		for i, c := range c03bounds {
			if thorough || i%3 == 1 || c == 0x7f || c == 0x80 || c == 0x7ff || c == 0x800 || c == 0xffff || c == 0x10000 || c == 'k' || c == 's' {
				b = append(b, c)
			}
		}
		n := 0
		for i := range b {
			for j := i; j < len(b); j++ {
				for l := j + 1; l < len(b); l++ {
					for _, m := range []int{l, min(l+1, len(b)-1), len(b) - 1} {
						n++
						if n%k != s {
							continue
						}
						if r.Expired() {
							return
						}
						f := "[%s%s]"
						switch n / k % 4 {
						case 1:
							f = "[^%s%s]"
						case 2:
							f = "(?i:[%s%s])"
						case 3:
							f = "(?i:[^%s%s])"
						}
						if o := c03compile(r, "^"+fmt.Sprintf(f, c03rng(b[i], b[j]), c03rng(b[l], b[m]))+"$"); o != nil {
							o.probe(r, pts, "", "")
						}
					}
				}
			}
		}
	})...)
	jobs = append(jobs, shardJobs("class-pairs", 8, func(r *Run, s, k int) {
		cls := []string{"[é-日]", "[^a]", "[\\x{80}-\\x{7ff}]", "[\\x{7ff}-\\x{800}]", "\\pL", "(?i:k)", "(?i:[a-k])", "[\\x{ffff}-\\x{10000}]", "[\\x{10000}-\\x{10ffff}]", "[日本語]", "é", "(?i:É)", ".", "[a-zé-ü日]", "\\W", "[\\x{40}-\\x{10ffff}]", "(?i:ſ)", "a", "[\\x{80}-\\x{bf}]", "[\\x{c0}-\\x{ff}]"}
		pts := []rune{'a', 'A', 'k', 's', 0x7f, 0x80, 0xbf, 0xc0, 0xe9, 0xc9, 0xff, 0x17f, 0x212a, 0x7ff, 0x800, 0x65e5, 0x672c, 0xffff, 0x10000, 0x10ffff, '_'}
		n := 0
		for _, x := range cls {
			for _, y := range cls {
				n++
				if n%k != s {
					continue
				}
				for _, f := range []string{"^%s%s$", "^(?:%s|%sx)$", "^(?:%sa|%sb)$", "^%s*%s$", "(?:%s%s){2}"} {
					o := c03compile(r, fmt.Sprintf(f, x, y))
					if o == nil {
						continue
					}
					r.At(c03case{o.s, "", "match"})
					m := 0
					for _, c := range pts {
						for _, d := range pts {
							for _, t := range []string{string(c) + string(d), string(c) + "a", string(c) + "x", string(c) + "b", string(c) + string(d) + string(c) + string(d)} {
								if o.check(r, t) {
									m++
								}
							}
						}
					}
					r.Trace(m > 0)
					r.State(h64(o.s))
				}
			}
		}
	})...)
	jobs = append(jobs, shardJobs("literals", k, func(r *Run, s, k int) {
		n := 0
		for c := rune(0); c <= unicode.MaxRune; c++ {
			if !c03valid(c) || int(c)%k != s {
				continue
			}
			n++
			if n%4096 == 0 && r.Expired() {
				return
			}
			folds := unicode.SimpleFold(c) != c
			if !folds && !thorough && c > 0x2000 && c&0x3f > 1 && c&0x3f < 0x3e {
				continue // interior of a 64-block without folding: its ends are covered
			}
			orbit := []rune{c}
			for f := unicode.SimpleFold(c); f != c; f = unicode.SimpleFold(f) {
				orbit = append(orbit, f)
			}
			pts := append([]rune{}, orbit...)
			for _, f := range orbit {
				pts = append(pts, f-1, f+1, f&0xff, f&0x7f, f^0x20, f+0x40, f-0x40)
			}
			pts = append(pts, 'a', 'A', 'k', 'K', 's', 'S', 0x17f, 0x212a, 0x80, 0xff)
			exprs := []string{fmt.Sprintf("^\\x{%x}$", c), fmt.Sprintf("(?i)^\\x{%x}$", c)}
			if folds {
				exprs = append(exprs, fmt.Sprintf("(?i)^[\\x{%x}]$", c), fmt.Sprintf("(?i)^[^\\x{%x}]$", c), fmt.Sprintf("(?i)^[\\x{%x}-\\x{%x}]$", c, min(c+3, unicode.MaxRune)))
				for _, f := range orbit {
					exprs = append(exprs, fmt.Sprintf("^[\\x{%x}\\x{%x}]$", c, f), fmt.Sprintf("^(?:\\x{%x}|\\x{%x})$", c, f), fmt.Sprintf("^(?:(?i:\\x{%x})|\\x{%x})$", c, f))
				}
			}
			for _, e := range exprs {
				if o := c03compile(r, e); o != nil {
					o.probe(r, pts, "", "")
				}
			}
			if folds {
				// in a longer literal, and the index query
				e := fmt.Sprintf("(?i)ab\\x{%x}cd", c)
				o := c03compile(r, e)
				o.probe(r, pts, "ab", "cd")
				o.probe(r, pts, "Ab", "cD")
				q := index.RegexpQuery(o.re)
				for _, f := range orbit {
					for _, t := range []string{"ab" + string(f) + "cd", "AB" + string(f) + "CD", "aB" + string(f) + "Cd"} {
						r.Step(1)
						if !satisfied(q, hasTrigram(t)) {
							r.Fail(c03case{e, t, "query"}, "query %s of %q is not satisfied by %q", q, e, t)
						}
					}
				}
			}
		}
	})...)
	return jobs
}

func init() {
	register(&Prop{
		ID:          "C03",
		Level:       "model_checking",
		Rule:        "classes: all single ranges between 64 boundary code points, pairs of ranges, every POSIX/Perl/Unicode named class, every literal, plain, negated and case-insensitive; code points: all 1.1 million for the swept classes, boundary probes for the others; one transition is one (expression, line) pair; a trace is one expression, non-trivial when its class is neither empty nor full",
		Assumptions: []string{"Go's regexp/syntax parse tree defines class membership", "newline is not a member of any class here: a match never crosses it"},
		Jobs:        c03jobs,
		Replay: func(r *Run, raw json.RawMessage) {
			c := caseOf[c03case](raw)
			o := c03compile(r, c.Re)
			if o == nil {
				return
			}
			if c.Kind == "query" {
				if q := index.RegexpQuery(o.re); !satisfied(q, hasTrigram(c.Text)) {
					r.Fail(c, "query %s of %q is not satisfied by %q", q, c.Re, c.Text)
				}
				return
			}
			if c.Text == "" {
				o.sweep(r)
				return
			}
			if utf8.ValidString(c.Text) {
				o.check(r, c.Text)
			}
		},
	})
}
