package main

import (
	"encoding/json"
	"fmt"
	goregexp "regexp"
	"regexp/syntax"
	"strings"
	"unicode"

	"github.com/google/codesearch/regexp"
)

// C02: every expression tree up to a depth, every text up to a length, all begin/end flags, through both
// entry points of shared (warm) compiled objects, against a set-of-positions interpreter of the syntax tree.

// A line of text for the interpreter. Position i is before rune i.
type oline struct {
	r          []rune
	begin, end bool // line start is the beginning of the text; line end is its end
}

func wordRune(c rune) bool {
	return 'A' <= c && c <= 'Z' || 'a' <= c && c <= 'z' || '0' <= c && c <= '9' || c == '_'
}

func foldEq(a, b rune) bool {
	if a == b {
		return true
	}
	for f := unicode.SimpleFold(a); f != a; f = unicode.SimpleFold(f) {
		if f == b {
			return true
		}
	}
	return false
}

// ends maps a set of start positions to the set of positions where a match of re can end.
func (l *oline) ends(re *syntax.Regexp, in uint64) uint64 {
	if in == 0 {
		return 0
	}
	n := len(l.r)
	assert := func(ok func(i int) bool) uint64 {
		var out uint64
		for i := 0; i <= n; i++ {
			if in>>i&1 != 0 && ok(i) {
				out |= 1 << i
			}
		}
		return out
	}
	step := func(set uint64, ok func(c rune) bool) uint64 {
		var out uint64
		for i := 0; i < n; i++ {
			if set>>i&1 != 0 && ok(l.r[i]) {
				out |= 1 << (i + 1)
			}
		}
		return out
	}
	isWord := func(i int) bool { return i >= 0 && i < n && wordRune(l.r[i]) }
	star := func(sub *syntax.Regexp, from uint64) uint64 {
		all := from
		for {
			next := all | l.ends(sub, all)
			if next == all {
				return all
			}
			all = next
		}
	}
	switch re.Op {
	case syntax.OpNoMatch:
		return 0
	case syntax.OpEmptyMatch:
		return in
	case syntax.OpLiteral:
		set := in
		for _, c := range re.Rune {
			set = step(set, func(d rune) bool {
				if re.Flags&syntax.FoldCase != 0 {
					return foldEq(c, d)
				}
				return c == d
			})
		}
		return set
	case syntax.OpCharClass:
		return step(in, func(d rune) bool {
			for i := 0; i < len(re.Rune); i += 2 {
				if re.Rune[i] <= d && d <= re.Rune[i+1] {
					return true
				}
			}
			return false
		})
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return step(in, func(rune) bool { return true })
	case syntax.OpBeginLine:
		return assert(func(i int) bool { return i == 0 })
	case syntax.OpEndLine:
		return assert(func(i int) bool { return i == n })
	case syntax.OpBeginText:
		return assert(func(i int) bool { return i == 0 && l.begin })
	case syntax.OpEndText:
		return assert(func(i int) bool { return i == n && l.end })
	case syntax.OpWordBoundary:
		return assert(func(i int) bool { return isWord(i-1) != isWord(i) })
	case syntax.OpNoWordBoundary:
		return assert(func(i int) bool { return isWord(i-1) == isWord(i) })
	case syntax.OpCapture:
		return l.ends(re.Sub[0], in)
	case syntax.OpStar:
		return star(re.Sub[0], in)
	case syntax.OpPlus:
		return star(re.Sub[0], l.ends(re.Sub[0], in))
	case syntax.OpQuest:
		return in | l.ends(re.Sub[0], in)
	case syntax.OpRepeat:
		set := in
		for i := 0; i < re.Min; i++ {
			set = l.ends(re.Sub[0], set)
		}
		if re.Max < 0 {
			return star(re.Sub[0], set)
		}
		all := set
		for i := re.Min; i < re.Max; i++ {
			set = l.ends(re.Sub[0], set)
			all |= set
		}
		return all
	case syntax.OpConcat:
		set := in
		for _, s := range re.Sub {
			set = l.ends(s, set)
		}
		return set
	case syntax.OpAlternate:
		var set uint64
		for _, s := range re.Sub {
			set |= l.ends(s, in)
		}
		return set
	}
	panic(harnessErr("oracle: unknown op " + re.String()))
}

func (l *oline) match(re *syntax.Regexp) bool {
	return l.ends(re, 1<<(len(l.r)+1)-1) != 0
}

type c02case struct {
	Re         string
	Text       string
	Begin, End bool
	History    []string `json:",omitempty"` // texts given to the same object before
	Str        bool     // through MatchString
}

// c02expect returns the acceptable results.
func c02expect(re *syntax.Regexp, text string, begin, end bool, memo map[oKey]bool) (want, alt int) {
	lines := strings.Split(text, "\n")
	off := 0
	for i, s := range lines {
		k := oKey{s, begin && i == 0, end && i == len(lines)-1}
		m, ok := memo[k]
		if !ok {
			m = (&oline{[]rune(s), k.b, k.e}).match(re)
			if memo != nil {
				memo[k] = m
			}
		}
		if m {
			if s == "" && i == len(lines)-1 {
				// The empty text after the last newline: whether it is a line is left open here
				// (C04 says what is printed).
				return off, -1
			}
			return off + len(s), off + len(s)
		}
		off += len(s) + 1
	}
	return -1, -1
}

type oKey struct {
	s    string
	b, e bool
}

type c02texts struct {
	texts []string
	lines []string // the distinct lines in them
}

func c02mk(texts []string) c02texts {
	seen := map[string]bool{}
	var t c02texts
	t.texts = texts
	for _, x := range texts {
		for _, l := range strings.Split(x, "\n") {
			if !seen[l] {
				seen[l] = true
				t.lines = append(t.lines, l)
			}
		}
	}
	return t
}

// c02expr checks one expression on all texts.
func c02expr(r *Run, expr string, t c02texts, flagCombos int) {
	c := c02case{Re: expr}
	r.nprog++
	if r.nprog%16 == 0 {
		r.At(c)
	}
	re, err := syntax.Parse(expr, syntax.Perl)
	if err != nil {
		r.Note("not a valid expression")
		return
	}
	gre, err := goregexp.Compile(expr)
	if err != nil {
		return
	}
	memo := make(map[oKey]bool, 4*len(t.lines))
	for _, l := range t.lines {
		if len(l) > 60 { // too long for the interpreter
			m := gre.MatchString(l)
			for b := 0; b < 4; b++ {
				memo[oKey{l, b&1 != 0, b&2 != 0}] = m
			}
			continue
		}
		m := (&oline{[]rune(l), true, true}).match(re)
		memo[oKey{l, true, true}] = m
		if m != gre.MatchString(l) {
			panic(harnessErr(fmt.Sprintf("oracle disagrees with Go's regexp: %q on %q", expr, l)))
		}
	}
	var warm, warmS, back *regexp.Regexp
	r.must(c, "Compile", func() {
		var e1, e2, e3 error
		warm, e1 = regexp.Compile(expr)
		warmS, e2 = regexp.Compile(expr)
		back, e3 = regexp.Compile(expr)
		if e1 != nil || e2 != nil || e3 != nil {
			r.Fail(c, "Compile(%q) fails: %v", expr, e1)
		}
	})
	nm := 0
	check := func(which string, obj *regexp.Regexp, i int, begin, end, str bool, forward bool) {
		text := t.texts[i]
		var got int
		r.nprog++
		func() {
			defer func() {
				if e := recover(); e != nil {
					c = c02case{Re: expr, Text: text, Begin: begin, End: end, Str: str}
					r.Fail(c, "%s panics on %q: %v", which, text, e)
				}
			}()
			if str {
				got = obj.MatchString(text, begin, end)
			} else {
				got = obj.Match([]byte(text), begin, end)
			}
		}()
		r.Transitions++
		want, alt := c02expect(re, text, begin, end, memo)
		if got != want && got != alt {
			c := c02case{Re: expr, Text: text, Begin: begin, End: end, Str: str}
			if fresh, err := regexp.Compile(expr); err == nil {
				var g2 int
				func() {
					defer func() { recover() }()
					if str {
						g2 = fresh.MatchString(text, begin, end)
					} else {
						g2 = fresh.Match([]byte(text), begin, end)
					}
				}()
				if g2 == want || g2 == alt {
					// Needs history.
					if forward {
						c.History = t.texts[:i]
					} else {
						c.History = append([]string{"\x00reverse"}, t.texts[i+1:]...)
					}
				}
			}
			r.Fail(c, "%s: %q on %q (beginText=%v endText=%v): got %d, want %d", which, expr, text, begin, end, got, want)
		}
		if got >= 0 {
			nm++
		}
	}
	for i := range t.texts {
		for f := 0; f < flagCombos; f++ {
			check("Match", warm, i, f&1 == 0, f&2 == 0, false, true)
		}
		check("MatchString", warmS, i, true, true, true, true)
		j := len(t.texts) - 1 - i
		check("Match and MatchString in turn, texts in reverse", back, j, true, true, i%2 == 0, false)
	}
	r.Trace(nm > 0)
	r.State(h64(re.String()))
	r.Outcome(fmt.Sprintf("matching share %d/8", nm*8/((flagCombos+2)*len(t.texts))))
	if r.Traces%9000 == 11 {
		r.Sample("%q on %d texts x %d flag settings: %d matches", expr, len(t.texts), flagCombos, nm)
	}
}

func c02jobs(tier string) []Job {
	var jobs []Job
	atoms := []string{"a", "b", " ", "[^a]", "[ab]", ".", "\\b", "\\B", "^", "$", "\\A", "\\z", "(?m:^)", "(?m:$)", "(?i:A)", "(?s:.)", "\\n", "()"}
	isUn := func(s string) bool { return len(s) > 0 && (s[0] == '(' || s[0] == '[' || len(s) == 1 || s[0] == '\\') }
	grp := func(s string) string {
		if isUn(s) && len(s) <= 6 {
			return s
		}
		return "(?:" + s + ")"
	}
	unary := []string{"*", "+", "?", "{2}", "*?"}
	var l1 []string
	l1 = append(l1, atoms...)
	for _, a := range atoms {
		for _, u := range unary {
			l1 = append(l1, grp(a)+u)
		}
	}
	bin := func(x, y string) []string { return []string{x + y, x + "|" + y} }
	const shards = 32
	tl := 5
	jobs = append(jobs, Job{"atoms", func(r *Run) {
		t := c02mk(strs([]string{"a", "b", " ", "\n"}, 6))
		for _, x := range l1 {
			c02expr(r, x, t, 4)
		}
	}})
	jobs = append(jobs, shardJobs("trees", shards, func(r *Run, s, k int) {
		t := c02mk(strs([]string{"a", "b", " ", "\n"}, tl))
		t3 := c02mk(strs([]string{"a", "b", " ", "\n"}, 3))
		n := 0
		for _, x := range l1 {
			for _, y := range l1 {
				n++
				if n%k != s {
					continue
				}
				if r.Expired() {
					return
				}
				for _, e := range bin(x, y) {
					c02expr(r, e, t, 4)
					c02expr(r, "(?:"+e+")*", t3, 4)
					c02expr(r, "(?:"+e+")?", t3, 1)
					c02expr(r, "^(?:"+e+")$", t3, 4)
					if tier == "thorough" {
						for _, z := range atoms {
							for _, g := range bin("(?:"+e+")", z) {
								c02expr(r, g, t, 4)
							}
							for _, g := range bin(z, "(?:"+e+")") {
								c02expr(r, g, t, 4)
							}
						}
					}
				}
			}
		}
	})...)
	// Three-operand trees over fewer atoms.
	jobs = append(jobs, shardJobs("triples", 16, func(r *Run, s, k int) {
		few := []string{"a", "b", ".", "\\b", "^", "$", "(?m:^)", "(?m:$)", "a*", "[^a]+", "(?i:B)?", "\\z", "(?:a|)"}
		t := c02mk(strs([]string{"a", "b", " ", "\n"}, 4))
		n := 0
		for _, x := range few {
			for _, y := range few {
				for _, z := range few {
					n++
					if n%k != s {
						continue
					}
					for _, xy := range bin(x, y) {
						for _, e := range bin("(?:"+xy+")", z) {
							c02expr(r, e, t, 2)
						}
						for _, e := range bin(z, "("+xy+")") {
							c02expr(r, e, t, 2)
						}
					}
				}
			}
		}
	})...)
	// Non-ASCII text (no word boundaries), folding, classes that split into several byte ranges.
	jobs = append(jobs, shardJobs("unicode", 8, func(r *Run, s, k int) {
		at := []string{"a", "é", "日", "\u212a", "(?i:k)", "(?i:É)", "[^a]", ".", "[é-日]", "[^é]", "(?i:[k-l])", "\\pL", "^", "$", "(?m:$)", "[a日]", "\\x{1F600}", "(?i:ſ)"}
		t := c02mk(strs([]string{"a", "k", "\u212a", "é", "日", "\U0001F600", "\n"}, 3))
		var l []string
		for _, a := range at {
			l = append(l, a, grp(a)+"*", grp(a)+"+", grp(a)+"{2}")
		}
		n := 0
		for _, x := range l {
			for _, y := range l {
				n++
				if n%k != s {
					continue
				}
				if r.Expired() {
					return
				}
				for _, e := range bin(x, y) {
					c02expr(r, e, t, 2)
				}
			}
		}
	})...)
	// Counted repetition and large programs (instruction numbers beyond one and two varint bytes).
	jobs = append(jobs, shardJobs("large-programs", 8, func(r *Run, s, k int) {
		n := 0
		do := func(e string, t []string) {
			n++
			if n%k == s && !r.Expired() {
				c02expr(r, e, c02mk(t), 2)
			}
		}
		var as []string
		for i := 0; i <= 60; i++ {
			as = append(as, strings.Repeat("a", i), strings.Repeat("a", min(i, 50))+"b", "b"+strings.Repeat("a", min(i, 50))+"\n"+strings.Repeat("a", min(i, 5)))
		}
		for m := 0; m <= 45; m++ {
			for _, e := range []string{"a{%d}", "^a{%d}$", "^a{%d,}b", "(?:ab?){%d}", "b(?:a|aa){%d}$", "(?m:^)[ab]{%d}(?m:$)"} {
				do(fmt.Sprintf(e, m), as)
			}
			do(fmt.Sprintf("^a{%d,%d}$", m, m+3), as)
			do(fmt.Sprintf("^(?:a{%d}|b{%d})b?$", m, m+1), as)
		}
		var words []string
		for i := 0; i < 420; i++ {
			words = append(words, string([]byte{'a' + byte(i/36%12), 'a' + byte(i/6%6), 'a' + byte(i%6), 'x' + byte(i%3)}))
		}
		var texts []string
		for i := 0; i < 420; i += 3 {
			texts = append(texts, words[i], words[i][:3], "q"+words[i]+"q", words[i][1:]+"\n"+words[(i*7+1)%420])
		}
		for _, cnt := range []int{1, 2, 10, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 420} {
			var alt []string
			for i := 0; i < cnt; i++ {
				alt = append(alt, words[i*131%420])
			}
			do(strings.Join(alt, "|"), texts)
			do("^(?:"+strings.Join(alt, "|")+")$", texts)
			do("(?i)"+strings.Join(alt, "|"), texts)
			do("(?:"+strings.Join(alt, ".|.")+")+", texts)
			do("(?m)^q?(?:"+strings.Join(alt, "$|\\b")+")", texts)
		}
	})...)
	// Pairs of calls on a fresh object: the first may leave states behind.
	jobs = append(jobs, shardJobs("history-pairs", 8, func(r *Run, s, k int) {
		texts := strs([]string{"a", "b", " ", "\n"}, 3)
		n := 0
		for _, e := range []string{"a", "^a", "a$", "\\ba", "a\\b", "\\Bb", "(?m:^)b", "ab|b$", "[^a]b*", "(?m:^$)", "\\Aa", "b\\z", "(?:a|b\\b)+$", "a.b"} {
			re, _ := syntax.Parse(e, syntax.Perl)
			memo := map[oKey]bool{}
			for _, t1 := range texts {
				n++
				if n%k != s {
					continue
				}
				r.At(c02case{Re: e, Text: t1})
				for _, t2 := range texts {
					for f := 0; f < 16; f++ {
						obj, err := regexp.Compile(e)
						if err != nil {
							r.Fail(c02case{Re: e}, "Compile: %v", err)
						}
						r.Step(2)
						obj.Match([]byte(t1), f&1 == 0, f&2 == 0)
						got := obj.MatchString(t2, f&4 == 0, f&8 == 0)
						want, alt := c02expect(re, t2, f&4 == 0, f&8 == 0, memo)
						if got != want && got != alt {
							r.Fail(c02case{Re: e, Text: t2, Begin: f&4 == 0, End: f&8 == 0, Str: true, History: []string{fmt.Sprintf("\x00flags%d", f&3), t1}}, "%q on %q after %q: got %d, want %d", e, t2, t1, got, want)
						}
					}
					r.Trace(true)
				}
			}
		}
	})...)
	// Expressions with thousands of states: all of them are reached, met again in another order, and judged by
	// counting from the end of the line.
	ks := []int{6, 9, 11, 13}
	if tier == "thorough" {
		ks = append(ks, 14, 15, 16)
	}
	for _, k := range ks {
		jobs = append(jobs, Job{fmt.Sprintf("many states %d", k), func(r *Run) { c02manyStates(r, k) }})
	}
	jobs = append(jobs, shardJobs("positions", 4, c02positions)...)
	// Each ASCII character and each kind of rune, everywhere around a match (in a class of the matcher's own, after
	// the match, at a word boundary).
	jobs = append(jobs, shardJobs("characters", 8, func(r *Run, s, k int) {
		var xs []string
		for c := 0; c < 0x80; c++ {
			if c != '\n' && c != 'a' && c != 'b' {
				xs = append(xs, string(rune(c)))
			}
		}
		for _, c := range []rune{0x80, 0x85, 0xa0, 0xaa, 0xad, 0xb5, 0xe9, 0xff, 0x100, 0x130, 0x131, 0x17f, 0x3b1, 0x660, 0x7ff, 0x800, 0x200b, 0x2028, 0x212a, 0x65e5, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x3ffff, 0x50000, 0xe0100, 0xfffff, 0x100000, 0x10ffff} {
			xs = append(xs, string(c))
		}
		exprs := []string{"a", "ab", "a.*b", "a.b", "^a", "a$", "(?m:^)b", "a(?m:$)", "\\ba", "a\\b", "\\Ba", "a\\B", "\\ba\\b", "a\\b.", ".\\bb",
			"a\\B.", "[^a]b", "(?i:A)b", "^$", "a|b\\b", "^.$", "^..$", "b\\z", "\\Ab", "[^ab]", "\\w\\b", "\\W", "\\s", "\\d", "(?i:\\W)", "[[:punct:]]", "[[:cntrl:]]"}
		n := 0
		for _, x := range xs {
			n++
			if n%k != s || r.Expired() {
				continue
			}
			var texts []string
			for _, t := range strs([]string{"a", "b", x, "\n"}, 4) {
				if strings.Contains(t, x) {
					texts = append(texts, t)
				}
			}
			t := c02mk(texts)
			for _, e := range append([]string{goregexp.QuoteMeta(x), "[^" + goregexp.QuoteMeta(x) + "]", "(?i:" + goregexp.QuoteMeta(x) + ")", goregexp.QuoteMeta(x) + "\\b", "\\b" + goregexp.QuoteMeta(x)}, exprs...) {
				if strings.HasPrefix(e, "[^") && x == "[" {
					continue
				}
				c02expr(r, e, t, 2)
			}
		}
	})...)
	return jobs
}

// abString is a string of a and b in which every string of n of them occurs.
func abString(n int) string {
	seen := make([]bool, 1<<n)
	b := []byte(strings.Repeat("b", n))
	v := 0
	seen[0] = true
	for {
		x := v<<1&(1<<n-1) | 1
		if !seen[x] {
			b = append(b, 'a')
		} else if x--; !seen[x] {
			b = append(b, 'b')
		} else {
			return string(b)
		}
		seen[x] = true
		v = x
	}
}

type c02many struct {
	K, Form int
}

// c02manyStates runs an expression whose automaton has 2^(k+1) states through all of them.
func c02manyStates(r *Run, k int) {
	line := abString(k + 1)
	forms := []struct {
		re   string
		want func(s string) bool
	}{
		{"(?m)(?:a|b)*a(?:a|b){%d}$", func(s string) bool { return len(s) > k && s[len(s)-1-k] == 'a' }},
		{"(?m:^)[ab]*a[ab]{%d}(?m:$)|c", func(s string) bool { return len(s) > k && s[len(s)-1-k] == 'a' }},
		{"(?im)A.{%d}\\b$", func(s string) bool { return len(s) > k && s[len(s)-1-k] == 'a' }},
	}
	for f, form := range forms {
		c := c02many{k, f}
		expr := fmt.Sprintf(form.re, k)
		re, err1 := regexp.Compile(expr)
		rs, err2 := regexp.Compile(expr)
		if err1 != nil || err2 != nil {
			r.Fail(c, "Compile(%q) fails: %v", expr, err1)
		}
		check := func(from, to int) {
			s := line[from:to]
			want := -1
			if form.want(s) {
				want = len(s)
			}
			r.Transitions += 2
			r.must(c, expr, func() {
				if got := re.Match([]byte(s), true, true); got != want {
					r.Fail(c, "%q on line[%d:%d] of length %d: Match gives %d, want %d", expr, from, to, len(s), got, want)
				}
				t := s + "\n" + s
				if got := rs.MatchString(t, true, true); got != want && (want >= 0 || got != -1) {
					r.Fail(c, "%q on line[%d:%d] of length %d, twice: MatchString gives %d, want %d", expr, from, to, len(s), got, want)
				}
			})
		}
		// Every state is the last one of some text (up to 4096 of them; the rest is passed through).
		every := max(1, len(line)/4096)
		for n := 1; n < len(line); n += every {
			check(max(0, n-2*k-5), n)
		}
		check(0, len(line))
		check(0, len(line)-1)
		r.Tick()
		for n := len(line); n > 0; n -= every {
			check(max(0, n-k-1-n%3), n)
		}
		r.Tick()
		r.At(c)
		r.Trace(true)
		r.State(h64(expr))
		r.Outcome("many states")
		r.Sample("%q: %d texts twice over a line with all strings of %d letters", expr, 2*len(line)/every, k+1)
	}
}

// c02positions has the match at every distance from the beginning and end of lines of every length around the
// sizes at which a scan may change its step.
func c02positions(r *Run, s, k int) {
	exprs := []struct{ re, lit string }{{"abc", "abc"}, {"^abc", "abc"}, {"abc$", "abc"}, {"a.c", "axc"}, {"(?i)aBc", "AbC"}, {"\\babc\\b", "abc"}, {"abc|xyz", "xyz"}, {"q", "q"}, {"^$", ""},
		{"q+\\w$", "qqx"}, {"é", "é"}, {"[^x y]", "日"}, {"(?m:^)abc(?m:$)", "abc"}, {"ab+c?", "abbb"}, {"(abc){2}", "abcabc"}}
	befores := []string{"", "x\n", "\n", strings.Repeat("x", 63) + "\n", strings.Repeat("y", 62) + "\n", strings.Repeat("x y\n", 16), strings.Repeat("x", 255) + "\n", strings.Repeat("\n", 31)}
	afters := []string{"", "\n", "\nx", "\n" + strings.Repeat("x", 64) + "\nabc\n"}
	fills := []string{"x", "y ", "xy"}
	pads := func(n int, f string) string { return strings.Repeat(f, n/len(f)+1)[:n] }
	n := 0
	for _, e := range exprs {
		var texts []string
		for i := 0; i <= 70; i++ {
			for _, j := range []int{0, 1, 2, 7, 8, 15, 16, 31, 32, 63, 64, 65} {
				n++
				if n%k != s {
					continue
				}
				for fi, f := range fills {
					for bi, b := range befores {
						texts = append(texts, b+pads(i, f)+e.lit+pads(j, f)+afters[(n+fi+bi)%len(afters)])
					}
				}
			}
		}
		for _, b := range befores {
			for _, a := range afters {
				texts = append(texts, b+e.lit+a, b+a, b+"x"+e.lit+a, b+e.lit+"x"+a)
			}
		}
		c02expr(r, "(?m)"+e.re, c02mk(texts), 1)
	}
}

func init() {
	register(&Prop{
		ID:    "C02",
		Level: "model_checking",
		Rule:  "every expression tree up to the depth x every text up to the length x begin/end flags; a transition is one Match or MatchString call on a shared compiled object compared with the interpreter; a trace is one expression with all its texts, non-trivial when some text matches. The interpreter itself is compared with Go's regexp on every single line",
		Assumptions: []string{"whether the empty text after a final newline counts as a line is left open at this level (C04 decides what is printed)",
			"word boundaries are exercised on ASCII text only, as the package documents"},
		Jobs: c02jobs,
		Replay: func(r *Run, raw json.RawMessage) {
			var m c02many
			if json.Unmarshal(raw, &m) == nil && m.K > 0 {
				c02manyStates(r, m.K)
				return
			}
			c := caseOf[c02case](raw)
			re, err := syntax.Parse(c.Re, syntax.Perl)
			if err != nil {
				return
			}
			r.must(c, "match", func() {
				obj, err := regexp.Compile(c.Re)
				if err != nil {
					r.Fail(c, "Compile: %v", err)
				}
				h := c.History
				fl := 0
				if len(h) > 0 && strings.HasPrefix(h[0], "\x00flags") {
					fmt.Sscanf(h[0][6:], "%d", &fl)
					obj.Match([]byte(h[1]), fl&1 == 0, fl&2 == 0)
				} else if len(h) > 0 && h[0] == "\x00reverse" {
					for i := len(h) - 1; i > 0; i-- {
						obj.Match([]byte(h[i]), true, true)
					}
				} else {
					for _, t := range h {
						for f := 0; f < 4; f++ {
							if c.Str {
								obj.MatchString(t, true, true)
							} else {
								obj.Match([]byte(t), f&1 == 0, f&2 == 0)
							}
						}
					}
				}
				want, alt := c02expect(re, c.Text, c.Begin, c.End, nil)
				got := obj.Match([]byte(c.Text), c.Begin, c.End)
				if c.Str {
					obj2, _ := regexp.Compile(c.Re)
					if len(h) > 0 {
						obj2 = obj
					}
					got = obj2.MatchString(c.Text, c.Begin, c.End)
				}
				if got != want && got != alt {
					r.Fail(c, "%q on %q (beginText=%v endText=%v): got %d, want %d", c.Re, c.Text, c.Begin, c.End, got, want)
				}
			})
		},
	})
}
