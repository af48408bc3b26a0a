package main

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	goregexp "regexp"
	"regexp/syntax"
	"strings"
	"unicode"

	"github.com/google/codesearch/index"
)

// C01: every regular expression tree up to a depth over atoms chosen around the analysis cut-offs,
// against every generated word of its language: the word, as a whole file, must satisfy the query.

// rx is a regular expression with a bounded set of words of its language.
// (A word that is not in the language is harmless: Go's regexp has the last say.)
type rx struct {
	s     string
	prec  int // 0 alternation, 1 concatenation, 2 operand of a repetition
	words []string
}

const c01Words = 40

func capWords(w []string, n int) []string {
	if len(w) <= n {
		return w
	}
	out := make([]string, 0, n)
	for i := 0; i < n; i++ {
		out = append(out, w[i*len(w)/n])
	}
	return out
}

func (x rx) group(prec int) string {
	if x.prec >= prec {
		return x.s
	}
	if len(x.s)%2 == 0 {
		return "(" + x.s + ")"
	}
	return "(?:" + x.s + ")"
}

func rxConcat(x, y rx) rx {
	var w []string
	for _, a := range x.words {
		for _, b := range y.words {
			w = append(w, a+b)
		}
	}
	return rx{x.group(1) + y.group(1), 1, capWords(w, c01Words)}
}

func rxAlt(x, y rx) rx {
	w := append(append([]string{}, x.words...), y.words...)
	return rx{x.s + "|" + y.s, 0, capWords(w, c01Words)}
}

func rxUnary(x rx, op string) rx {
	var w []string
	lo, hi := 0, 2
	switch op {
	case "+":
		lo = 1
	case "?":
		hi = 1
	case "{2}", "{2,}":
		lo = 2
		if op == "{2,}" {
			hi = 3
		}
	}
	for n := lo; n <= hi; n++ {
		switch n {
		case 0:
			w = append(w, "")
		case 1:
			w = append(w, x.words...)
		case 2:
			for i, a := range x.words {
				w = append(w, a+a)
				if len(x.words) > 1 {
					w = append(w, a+x.words[(i+1)%len(x.words)])
				}
			}
		case 3:
			for i, a := range x.words {
				w = append(w, a+x.words[(i+1)%len(x.words)]+x.words[(i+2)%len(x.words)])
			}
		}
	}
	return rx{x.group(2) + op, 2, capWords(w, c01Words)}
}

// rxRepeat is x{m,n}, or x{m,} if n < 0.
func rxRepeat(x rx, m, n int, lazy string) rx {
	op := fmt.Sprintf("{%d,%d}", m, n)
	hi := n
	if n < 0 {
		op = fmt.Sprintf("{%d,}", m)
		hi = m + 3
	}
	var w []string
	for c := m; c <= hi; c++ {
		if c == 0 {
			w = append(w, "")
			continue
		}
		for i, a := range x.words {
			w = append(w, strings.Repeat(a, c))
			if len(x.words) > 1 && c > 1 {
				t := ""
				for j := 0; j < c; j++ {
					t += x.words[(i+j)%len(x.words)]
				}
				w = append(w, t)
			}
		}
	}
	return rx{x.group(2) + op + lazy, 2, capWords(w, c01Words)}
}

func rxAtoms(which string) []rx {
	lit := func(s string) rx {
		p := 1
		if len([]rune(s)) == 1 {
			p = 2
		}
		return rx{s, p, []string{s}}
	}
	all := map[string]rx{
		"a": lit("a"), "b": lit("b"), "ab": lit("ab"), "abc": lit("abc"), "bcd": lit("bcd"), "abcd": lit("abcd"), "xyz": lit("xyz"), "de": lit("de"),
		"日": lit("日"), "é": lit("é"),
		"[ab]":     {"[ab]", 2, []string{"a", "b"}},
		"[abc]":    {"[abc]", 2, []string{"a", "b", "c"}},
		"[a-h]":    {"[a-h]", 2, []string{"a", "b", "c", "d", "e", "f", "g", "h"}},
		"[a-z]":    {"[a-z]", 2, []string{"a", "b", "k", "z"}},
		"[^a]":     {"[^a]", 2, []string{"b", "日"}},
		".":        {".", 2, []string{"a", "x", "日"}},
		"(?i:ab)":  {"(?i:ab)", 2, []string{"ab", "aB", "Ab", "AB"}},
		"(?i:k)":   {"(?i:k)", 2, []string{"k", "K", "\u212a"}},
		"(?i:abc)": {"(?i:abc)", 2, []string{"abc", "aBc", "ABC", "abC", "Abc", "AbC", "ABc", "aBC"}},
		"^":        {"^", 2, []string{""}},
		"$":        {"$", 2, []string{""}},
		"\\b":      {"\\b", 2, []string{""}},
		"()":       {"()", 2, []string{""}},
		"\\d":      {"\\d", 2, []string{"0", "1", "9"}},
	}
	var out []rx
	for _, n := range strings.Fields(which) {
		x, ok := all[n]
		if !ok {
			panic(n)
		}
		out = append(out, x)
	}
	return out
}

// c01trees calls f with every tree of n leaves over the operators; with unary, also every such tree
// in which it is applied to one inner node. It stops when f returns false.
func c01trees(n int, leaves []rx, bins []func(x, y rx) rx, unary func(rx) rx, f func(rx) bool) bool {
	var rec func(n int, un bool, f func(e rx, used bool) bool) bool
	rec = func(n int, un bool, f func(rx, bool) bool) bool {
		if n == 1 {
			for _, l := range leaves {
				if !f(l, false) {
					return false
				}
			}
			return true
		}
		for left := 1; left < n; left++ {
			ok := rec(left, un, func(x rx, xu bool) bool {
				return rec(n-left, un && !xu, func(y rx, yu bool) bool {
					for _, b := range bins {
						e := b(x, y)
						if !f(e, xu || yu) {
							return false
						}
						if un && !xu && !yu && !f(unary(e), true) {
							return false
						}
					}
					return true
				})
			})
			if !ok {
				return false
			}
		}
		return true
	}
	return rec(n, unary != nil, func(e rx, _ bool) bool { return f(e) })
}

// satisfied evaluates a query the way the index does on a file with these trigrams.
func satisfied(q *index.Query, has func(string) bool) bool {
	switch q.Op {
	case index.QAll:
		return true
	case index.QNone:
		return false
	case index.QAnd:
		if len(q.Trigram)+len(q.Sub) == 0 {
			return false // the index answers an empty AND with no files
		}
		for _, t := range q.Trigram {
			if !has(t) {
				return false
			}
		}
		for _, s := range q.Sub {
			if !satisfied(s, has) {
				return false
			}
		}
		return true
	case index.QOr:
		for _, t := range q.Trigram {
			if has(t) {
				return true
			}
		}
		for _, s := range q.Sub {
			if satisfied(s, has) {
				return true
			}
		}
	}
	return false
}

func hasTrigram(text string) func(string) bool {
	return func(t string) bool { return len(t) == 3 && strings.Contains(text, t) }
}

type c01case struct {
	Re   string
	Word string
	// Earlier are expressions whose queries are derived before and after Re (history cases).
	Earlier []string `json:",omitempty"`
	History bool     `json:",omitempty"`
}

type c01block struct {
	res  []string
	qs   []*index.Query
	strs []string
}

func c01parse(s string) (*syntax.Regexp, error) { return syntax.Parse("(?m)"+s, syntax.Perl) }

// c01one derives the query of x and evaluates it on every word.
func c01one(r *Run, x rx, blk *c01block) {
	re, err := c01parse(x.s)
	if err != nil {
		r.Note("not a valid expression")
		return
	}
	r.nprog++
	if r.nprog%256 == 0 {
		r.At(c01case{Re: x.s})
	}
	q := index.RegexpQuery(re)
	r.Trace(q.Op == index.QAnd || q.Op == index.QOr)
	for _, w := range x.words {
		r.Step(1)
		if !satisfied(q, hasTrigram(w)) {
			c01confirm(r, c01case{Re: x.s, Word: w})
		}
	}
	qs := q.String()
	r.State(h64(qs))
	switch q.Op {
	case index.QAll:
		r.Outcome("all")
	case index.QNone:
		r.Outcome("none")
	default:
		r.Outcome(fmt.Sprintf("op%d trigrams=%d sub=%d", q.Op, min(len(q.Trigram), 8), min(len(q.Sub), 4)))
	}
	if r.Traces%40000 == 17 {
		r.Sample("%s words %q -> %s", trunc(x.s, 200), capWords(x.words, 4), trunc(qs, 200))
	}
	if blk != nil {
		blk.res = append(blk.res, x.s)
		blk.qs = append(blk.qs, q)
		blk.strs = append(blk.strs, qs)
		if len(blk.res) >= 400 {
			c01history(r, blk)
		}
	}
}

// c01history checks that deriving other queries changed none of the block's.
func c01history(r *Run, blk *c01block) {
	for i, q := range blk.qs {
		if q.String() != blk.strs[i] {
			r.Fail(c01case{Re: blk.res[i], Earlier: blk.res[i+1:], History: true}, "the query derived for %q was %s and became %s after deriving others", blk.res[i], blk.strs[i], q.String())
		}
	}
	for i := len(blk.res) - 1; i >= 0; i-- {
		re, _ := c01parse(blk.res[i])
		if s := index.RegexpQuery(re).String(); s != blk.strs[i] {
			r.Fail(c01case{Re: blk.res[i], Earlier: blk.res, History: true}, "deriving the query of %q again gives %s instead of %s", blk.res[i], s, blk.strs[i])
		}
		r.Step(1)
	}
	*blk = c01block{}
}

// c01confirm fails the run if Go's regexp agrees that a line of the word matches.
func c01confirm(r *Run, c c01case) {
	gre, err := goregexp.Compile("(?m)" + c.Re)
	if err != nil {
		return
	}
	ok := false
	for _, line := range strings.Split(c.Word, "\n") {
		ok = ok || gre.MatchString(line)
	}
	if !ok {
		r.Note("generated word not in the language (anchors)")
		return
	}
	re, _ := c01parse(c.Re)
	q := index.RegexpQuery(re)
	if satisfied(q, hasTrigram(c.Word)) {
		return
	}
	// Ask the real index.
	fn := filepath.Join(r.Scratch, "c01.idx")
	buildIndex(fn, nil, []file{{"f", c.Word}}, buildOpt{})
	ix, done := openIndex(fn)
	got := ix.PostingQuery(q)
	done()
	if len(got) != 1 {
		r.Fail(c, "%q matches the line %q but its query %s is not satisfied: the index offers no candidate", c.Re, c.Word, q)
	}
}

func c01jobs(tier string) []Job {
	var jobs []Job
	unary := []string{"*", "+", "?", "{2}", "{2,}"}
	grow := func(atoms []rx, un []string) []rx {
		out := append([]rx{}, atoms...)
		for _, a := range atoms {
			for _, u := range un {
				out = append(out, rxUnary(a, u))
			}
		}
		return out
	}
	bins := []func(x, y rx) rx{rxConcat, rxAlt}
	wide := "a b ab abc abcd bcd [ab] [abc] [a-h] [a-z] [^a] . (?i:ab) (?i:k) ^ $ \\b () 日 \\d"
	ctx := "a ab abc xyz [ab] [abc] [a-h] . (?i:ab) ^ () é"
	if tier == "thorough" {
		wide += " é (?i:abc) xyz"
		ctx = wide
	}
	const shards = 32
	jobs = append(jobs, shardJobs("trees", shards, func(r *Run, s, k int) {
		l1 := grow(rxAtoms(wide), unary)
		l0 := rxAtoms(ctx)
		var blk c01block
		n := 0
		for _, x := range l1 {
			if s == 0 {
				c01one(r, x, &blk)
			}
			for _, y := range l1 {
				for _, f := range bins {
					n++
					if n%k != s {
						continue
					}
					if r.Expired() {
						return
					}
					e := f(x, y)
					c01one(r, e, &blk)
					for _, u := range unary {
						c01one(r, rxUnary(e, u), &blk)
					}
					for _, z := range l0 {
						for _, g := range bins {
							c01one(r, g(e, z), &blk)
							c01one(r, g(z, e), &blk)
						}
					}
				}
			}
		}
		c01history(r, &blk)
	})...)
	// Deeper trees over few atoms.
	few, fewUn := "ab [ab] abcd . (?i:k) [a-h]", []string{"*", "+", "?"}
	if tier == "thorough" {
		few, fewUn = "ab [ab] abcd . (?i:k) [a-h] a abc [abc] ()", []string{"*", "+", "?", "{2}"}
	}
	jobs = append(jobs, shardJobs("deep-trees", shards, func(r *Run, s, k int) {
		l1 := grow(rxAtoms(few), fewUn)
		var l2 []rx
		for _, x := range l1 {
			for _, y := range l1 {
				for _, f := range bins {
					l2 = append(l2, f(x, y))
				}
			}
		}
		var blk c01block
		n := 0
		for _, x := range l2 {
			for _, y := range l2 {
				n++
				if n%k != s {
					continue
				}
				if r.Expired() {
					return
				}
				for _, f := range bins {
					e := f(x, y)
					c01one(r, e, &blk)
					c01one(r, rxConcat(rx{"xx", 1, []string{"xx"}}, rxConcat(e, rx{"yy", 1, []string{"yy"}})), nil)
				}
			}
		}
		c01history(r, &blk)
	})...)
	// Counted repetitions with every pair of bounds, in every context, repeated themselves.
	jobs = append(jobs, shardJobs("repeats", 16, func(r *Run, s, k int) {
		bases := rxAtoms(wide)
		lit := rxAtoms("ab abc bcd a é [ab]")
		bases = append(bases, rxAlt(lit[0], lit[2]), rxAlt(lit[1], rx{"", 1, []string{""}}), rxConcat(lit[0], rxUnary(lit[3], "?")), rxConcat(rxUnary(lit[3], "*"), lit[2]), rxConcat(lit[4], lit[5]))
		ctxs := append([]rx{{"", 1, []string{""}}}, rxAtoms("a ab xyz [ab] . (?i:ab) ^")...)
		ctxs = append(ctxs, rxUnary(rxAtoms("de")[0], "+"), rxUnary(rxAtoms("xyz")[0], "?"))
		var blk c01block
		n := 0
		for _, b := range bases {
			for lo := 0; lo <= 4; lo++ {
				for hi := -1; hi <= 5; hi++ {
					if n++; n%k != s || hi == 0 || hi > 0 && hi < lo {
						continue
					}
					if r.Expired() {
						return
					}
					x := rxRepeat(b, lo, hi, []string{"", "?"}[n/k%2])
					for _, p := range ctxs {
						for _, q := range ctxs {
							e := rxConcat(rxConcat(p, x), q)
							c01one(r, e, &blk)
							c01one(r, rxAlt(e, rx{"qrst", 1, []string{"qrst"}}), &blk)
							c01one(r, rxConcat(rx{"qr", 1, []string{"qr"}}, rxConcat(rxRepeat(e, 1, 2, ""), rx{"st", 1, []string{"st"}})), &blk)
						}
					}
				}
			}
		}
		c01history(r, &blk)
	})...)
	// Boolean formulas: AND is concatenation around .*, OR is alternation, so that the queries of the
	// parts are combined, factored and compared in every way.
	leaves := []rx{{"abc", 1, []string{"abc"}}, {"xyz", 1, []string{"xyz"}}, {"defgh", 1, []string{"defgh"}}, {"k", 2, []string{"k"}}, {".*", 2, []string{""}}}
	star := rx{".*", 2, []string{""}}
	and := func(x, y rx) rx { return rxConcat(rxConcat(x, star), y) }
	nleaf := 4
	if tier == "thorough" {
		nleaf = 5
	}
	jobs = append(jobs, shardJobs("formulas", 16, func(r *Run, s, k int) {
		var blk c01block
		n := 0
		ends := []func(x rx) rx{func(x rx) rx { return rxConcat(x, star) }, func(x rx) rx { return rxConcat(star, x) }, func(x rx) rx { return rxConcat(rxConcat(star, x), star) }}
		for l := 2; l <= nleaf+1; l++ {
			c01trees(l, leaves[:4], []func(x, y rx) rx{and, rxAlt}, nil, func(e rx) bool {
				n++
				if n%k == s {
					c01one(r, e, &blk)
					c01one(r, ends[n/k%3](e), &blk)
				}
				return !r.Expired()
			})
		}
		c01history(r, &blk)
	})...)
	// Alternations whose two sides each have alternatives, so that one query may or may not imply the other.
	jobs = append(jobs, shardJobs("implications", 16, func(r *Run, s, k int) {
		var ps []rx
		for _, a := range []rx{rxAlt(leaves[0], leaves[1]), rxAlt(leaves[0], leaves[2]), rxAlt(leaves[2], leaves[1]), leaves[0]} {
			ps = append(ps, a, rxConcat(a, star), rxConcat(star, a), rxConcat(rxConcat(star, a), star), rxConcat(rx{".", 2, []string{"w"}}, a))
		}
		var blk c01block
		n := 0
		for l := 2; l <= nleaf; l++ {
			c01trees(l, leaves, bins, func(x rx) rx { return rxUnary(x, "+") }, func(e rx) bool {
				n++
				if n%k == s {
					for i, p := range ps {
						if (i+n/k)%2 == 0 {
							c01one(r, rxAlt(p, e), &blk)
							if tier != "thorough" {
								continue
							}
						}
						c01one(r, rxAlt(rxConcat(e, rx{"k", 2, []string{"k"}}), p), &blk)
					}
				}
				return !r.Expired()
			})
		}
		c01history(r, &blk)
	})...)
	// Alternations and literals of many trigrams, alone and beside another whose trigrams are the same, more, fewer,
	// others, or others with the same ends.
	jobs = append(jobs, shardJobs("large", 16, func(r *Run, s, k int) {
		sizes := []int{8, 15, 16, 17, 20, 21, 31, 32, 33, 50, 63, 64, 65, 66, 90, 99, 100, 101, 127, 128, 129, 130, 200, 255, 256, 257, 258, 300, 511, 513}
		if tier == "thorough" {
			sizes = append(sizes, 700, 1000, 1023, 1024, 1025, 2000, 4097)
		}
		n := 0
		one := func(e rx) {
			n++
			if n%k == s && !r.Expired() {
				c01one(r, e, nil)
			}
		}
		for _, size := range sizes {
			// The universe: 2*size words, sorted, one trigram each or more.
			for _, l := range []int{3, 4, 7} {
				var u []string
				for i := 0; i < 2*size; i++ {
					w := ""
					for j, x := 0, i; j < l; j++ {
						if j < 3 { // digits that sort as i does
							d := []int{26 * 26, 26, 1}[j]
							w += string(rune('a' + x/d%26))
						} else {
							w += string(rune('a' + (i*7+j*5)%26))
						}
					}
					u = append(u, w)
				}
				odd := make([]string, 0, size)
				even := make([]string, 0, size)
				for i, w := range u {
					if i%2 == 0 {
						even = append(even, w)
					} else {
						odd = append(odd, w)
					}
				}
				ends := append(append([]string{even[0]}, odd[:size-1]...), even[size-1])
				mk := mkAlt
				sets := [][]string{even, odd, u, ends, u[:size], u[size:], even[:size-1], append(append([]string{}, even[:size/2]...), odd[size/2:]...)}
				for i, a := range sets {
					one(mk(a))
					one(rxConcat(mk(a), star))
					one(rxConcat(rx{"k", 2, []string{"k"}}, mk(a)))
					for j, b := range sets {
						if i == j {
							continue
						}
						x, y := mk(a), mk(b)
						// Not so many words that the cut leaves out what only one side has.
						x.words, y.words = c01only(a, b), c01only(b, a)
						one(rxAlt(rxConcat(x, star), rxConcat(star, y)))
						if i < 4 && j < 4 {
							one(and(x, y))
							one(rxAlt(and(x, rx{"q", 2, []string{"q"}}), and(rx{"z", 2, []string{"z"}}, y)))
						}
					}
				}
			}
			// Literals of size trigrams.
			lit := func(seed, n int) string {
				b := make([]byte, n+2)
				for i := range b {
					b[i] = 'a' + byte((i*i*seed+i*3+i/26)%26)
				}
				return string(b)
			}
			lits := []string{lit(1, size), lit(2, size), lit(1, size) + lit(3, size/2), lit(1, size/2), "aaa" + lit(5, size) + "zzz", "aaa" + lit(7, size) + "zzz", "aaa" + lit(7, size/3) + "zzz"}
			for i, a := range lits {
				one(rx{a, 1, []string{a}})
				one(rx{"(?i:" + a + ")", 2, []string{a, strings.ToUpper(a)}})
				for j, b := range lits {
					if i == j {
						continue
					}
					x, y := rx{a, 1, []string{a}}, rx{b, 1, []string{b}}
					one(rxAlt(x, y))
					one(rxAlt(rxConcat(x, star), rxConcat(star, y)))
					one(and(x, y))
					one(rxAlt(and(x, mkAlt(lits[:3])), y))
					one(rxAlt(rxConcat(star, mkAlt([]string{a, b})), and(y, x)))
				}
			}
		}
	})...)
	// Storage shapes: alternations of a class or word list (whose slice has spare room or not)
	// with inexact expressions, in every order and nesting, with contexts.
	jobs = append(jobs, shardJobs("set-shapes", 16, func(r *Run, s, k int) {
		var sets []rx
		for n := 1; n <= 9; n++ {
			var ws []string
			for i := 0; i < n; i++ {
				ws = append(ws, string(rune('a'+i)))
			}
			sets = append(sets, rx{"[" + strings.Join(ws, "") + "]", 2, ws})
		}
		for n := 1; n <= 24; n++ {
			for _, l := range []int{1, 2, 3, 4} {
				var ws []string
				for i := 0; i < n; i++ {
					w := ""
					for j := 0; j < l; j++ {
						w += string(rune('a' + (i*7+j*5+i*j)%26))
					}
					ws = append(ws, w)
				}
				sets = append(sets, rx{strings.Join(ws, "|"), 0, ws})
			}
		}
		var inexact []rx
		for _, p := range []string{"de", "d", "def", "Defg"} {
			for _, q := range []string{"fg", "g", "efg", "Fghi"} {
				inexact = append(inexact, rx{p + ".*" + q, 1, []string{p + q, p + "x" + q}})
			}
			inexact = append(inexact, rx{"(?:" + p + ")+", 2, []string{p, p + p}})
		}
		pre := []rx{{"", 2, []string{""}}, {"x", 2, []string{"x"}}, {"xx", 1, []string{"xx"}}, {"[xz]y", 1, []string{"xy", "zy"}}, {"x.*y", 1, []string{"xy", "xwwy"}}}
		var blk c01block
		n := 0
		for _, a := range sets {
			for _, b := range inexact {
				n++
				if n%k != s {
					continue
				}
				if r.Expired() {
					return
				}
				alts := []rx{rxAlt(a, b), rxAlt(b, a), rxAlt(rxAlt(a, b), a), rxConcat(a, b), rxConcat(b, a), rxUnary(rxAlt(a, b), "+"), rxAlt(rxUnary(a, "?"), b)}
				for _, e := range alts {
					for _, p := range pre {
						for _, q := range pre {
							c01one(r, rxConcat(p, rxConcat(e, q)), &blk)
						}
					}
				}
			}
		}
		c01history(r, &blk)
	})...)
	// Class sizes around the limits, one and two ranges, with every member as a word.
	jobs = append(jobs, shardJobs("class-sizes", 16, func(r *Run, s, k int) {
		i := 0
		for _, start := range []rune{'!', 'A', 0x7e, 0x3b1, 0x7f0, 0x65e5, 0xffc0, 0x1f600} {
			for n := rune(0); n <= 130; n++ {
				for gap := rune(0); gap <= 2; gap++ {
					i++
					if i%k != s {
						continue
					}
					if r.Expired() {
						return
					}
					var ws []string
					cls := ""
					if gap == 0 {
						cls = fmt.Sprintf("[\\x{%x}-\\x{%x}]", start, start+n)
						for c := start; c <= start+n; c++ {
							ws = append(ws, string(c))
						}
					} else {
						mid := start + n/2
						cls = fmt.Sprintf("[\\x{%x}-\\x{%x}\\x{%x}-\\x{%x}]", start, mid, mid+1+gap, start+n+gap+1)
						for c := start; c <= start+n+gap+1; c++ {
							if c <= mid || c > mid+gap {
								ws = append(ws, string(c))
							}
						}
					}
					e := rx{cls, 2, ws}
					for _, ctx := range [][2]string{{"", ""}, {"xy", ""}, {"", "xy"}, {"x", "y"}, {"xy", "zw"}, {"wxyz", "wxyz"}} {
						c := rx{ctx[0] + cls + ctx[1], 1, nil}
						for _, w := range e.words {
							c.words = append(c.words, ctx[0]+w+ctx[1])
						}
						c01one(r, c, nil)
					}
				}
			}
		}
	})...)
	// Case folding: every code point that folds, every spelling, in contexts.
	jobs = append(jobs, shardJobs("folding", 8, func(r *Run, s, k int) {
		for c := rune(0x80 * 0); c <= unicode.MaxRune; c++ {
			if int(c)%k != s || unicode.SimpleFold(c) == c {
				continue
			}
			orbit := []string{string(c)}
			for f := unicode.SimpleFold(c); f != c; f = unicode.SimpleFold(f) {
				orbit = append(orbit, string(f))
			}
			for _, ctx := range [][2]string{{"", ""}, {"12", ""}, {"", "12"}, {"1", "2"}, {"ks", "ks"}} {
				e := rx{"(?i)" + ctx[0] + fmt.Sprintf("\\x{%x}", c) + ctx[1], 1, nil}
				for _, o := range orbit {
					for _, v := range []func(string) string{strings.ToLower, strings.ToUpper, strings.ToTitle, func(s string) string { return strings.ReplaceAll(strings.ReplaceAll(s, "k", "\u212a"), "s", "\u017f") }} {
						e.words = append(e.words, v(ctx[0])+o+v(ctx[1]))
					}
				}
				c01one(r, e, nil)
			}
		}
	})...)
	return jobs
}

// c01only picks words of a for a check against b: the ends, and those b does not have.
func c01only(a, b []string) []string {
	in := map[string]bool{}
	for _, w := range b {
		in[w] = true
	}
	out := []string{a[0], a[len(a)-1], a[len(a)/2]}
	var rest []string
	for _, w := range a {
		if !in[w] {
			rest = append(rest, w)
		}
	}
	if len(rest) == 0 {
		return out
	}
	return append(out, capWords(append(rest[1:len(rest):len(rest)], rest[0], rest[len(rest)-1]), 6)...)
}

func mkAlt(ws []string) rx { return rx{"(?:" + strings.Join(ws, "|") + ")", 2, ws} }

func init() {
	register(&Prop{
		ID:          "C01",
		Level:       "model_checking",
		Rule:        "every expression tree up to the depth over the atom alphabet; each (expression, word) pair is one transition: the word, as the whole file, must satisfy the derived query (evaluated as the index evaluates it; Go's regexp confirms that the word matches, the real index confirms a miss). Queries are kept in blocks of 400 and must be unchanged after, and equal when derived again after, the others. Non-trivial: the query is not ALL or NONE",
		Assumptions: []string{"Go's regexp package decides which words match", "words per expression are capped at 40 chosen evenly (bounded language fragment)", "a file with more text than the word has more trigrams and queries are monotone"},
		Jobs:        c01jobs,
		Replay: func(r *Run, raw json.RawMessage) {
			c := caseOf[c01case](raw)
			if c.History {
				re, _ := c01parse(c.Re)
				q := index.RegexpQuery(re)
				s := q.String()
				for _, e := range c.Earlier {
					if e == c.Re {
						continue
					}
					if x, err := c01parse(e); err == nil {
						index.RegexpQuery(x)
					}
				}
				re, _ = c01parse(c.Re)
				if q.String() != s || index.RegexpQuery(re).String() != s {
					r.Fail(c, "query of %q changed", c.Re)
				}
				return
			}
			re, err := c01parse(c.Re)
			if err != nil {
				return
			}
			index.RegexpQuery(re)
			c01confirm(r, c)
		},
	})
}
