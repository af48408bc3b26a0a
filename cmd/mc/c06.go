package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/url"
	"os"
	"path/filepath"
	goregexp "regexp"
	"regexp/syntax"
	"strings"
	"unicode/utf8"

	"github.com/google/codesearch/regexp"
)

// C06: file contents, names, queries and errors built from pieces of markup, in every place of every kind of page
// and under every option; each page is compared with its harmless twin, in which words of letters stand for the
// pieces. The two must have the same tags and attributes, and texts and values differing exactly as the words do.

type c06case struct {
	Where   string   // grep, reader-error, file-error, csearch, search, show, dir, badquery, showerror, raw
	Name    string   `json:",omitempty"`
	Content []string `json:",omitempty"`
	Query   string   `json:",omitempty"`
	Opt     gopt
	Extra   string `json:",omitempty"`
}

// Words that stand for the pieces in the harmless twin.
const (
	c06n = "Nqnamew"
	c06c = "Cqconte"
	c06d = "Dqcontf"
	c06q = "Qqueryw"
)

var c06pieces = []string{
	"<", ">", "\"", "'", "&", "&amp;", "&lt;b&gt;", "<b>", "</pre>", "</a>", "</span>", "</title>", "<script>x()</script>",
	"\" onload=\"x()", "' onload='x()", "<!--", "-->", "%3Cb%3E", "javascript:x()", "#L1", "?q=1", "%", "QUERY", "\\", " ", "  x", "é", "日",
	"`", "{{.}}", "%s", "%!d(", "&#60;", "&quot", "]]>", "<?x?>", "+", ";", "=", ":", "a:b", "&lt", "&#x3c", "\u2028", "<img src=x onerror=y>", "/><b", "*", "[", "(", "$", "^", "|", "~", "@", ",",
}

// c06odd are further pieces for contents and queries only.
var c06odd = []string{"\xff", "\xff<b>", "\x01", "\x00<b>", "\ufffd", "\r", "\r<b>", "\t", "\v", "\x1b[1m", "\x80", "\xc3\x28", "\u202e"}

func c06names() (out []string) {
	for _, p := range c06pieces {
		out = append(out, p)
	}
	return
}

func c06queries() (out []string) {
	for _, s := range c06contents() {
		if utf8.ValidString(s) {
			out = append(out, s)
		}
	}
	return
}

func c06contents() []string { return append(append([]string{}, c06pieces...), c06odd...) }

// c06text is the content of a file with pieces c and d in the matching line and around it.
func c06text(c, d, id string, nonl bool) string {
	s := "x" + d + "y\nsecond\n" + "a" + c + "z " + id + "\n" + "x" + c + d + "y\nlast" + d + "w"
	if !nonl {
		s += "\n"
	}
	return s
}

func c06expr(q, id string) string { return id + "|nomatch" + goregexp.QuoteMeta(q) + "zz" }

func c06words(name, c, d, q string) words {
	return words{{c06n, name}, {c06c, c}, {c06d, d}, {c06q, q}, {goregexp.QuoteMeta(c06q), goregexp.QuoteMeta(q)}}
}

// apply is not enough for expressions, where the piece is quoted: the caller states the query twice.
func (c *c06case) words() words {
	m := words{}
	cc := append(append([]string{}, c.Content...), "", "")
	return append(m, [2]string{c06n, c.Name}, [2]string{c06c, cc[0]}, [2]string{c06d, cc[1]}, [2]string{c06q, c.Query})
}

type c06grep struct {
	g     regexp.Grep
	out   bytes.Buffer
	twin  map[string][]tok
	res   map[string]*regexp.Regexp
	dirty int
}

func (u *c06grep) re(r *Run, c *c06case, s string) *regexp.Regexp {
	if u.res[s] == nil {
		r.must(c, "Compile", func() {
			re, err := regexp.Compile("(?m)" + s)
			if err != nil {
				r.Fail(c, "Compile(%q): %v", s, err)
			}
			if len(u.res) > 3000 {
				u.res = map[string]*regexp.Regexp{}
			}
			u.res[s] = re
		})
	}
	return u.res[s]
}

// page runs the search of case c, or of its twin.
func (u *c06grep) page(r *Run, c *c06case, twin bool) []tok {
	name, cc, q := c.Name, append(append([]string{}, c.Content...), "", ""), c.Query
	if twin {
		name, cc, q = c06n, []string{c06c, c06d}, c06q
	}
	o := c.Opt
	u.out.Reset()
	g := &u.g
	g.Regexp = u.re(r, c, c06expr(q, "idword"))
	g.Stdout, g.Stderr = &u.out, &u.out
	g.L, g.C, g.N, g.H, g.V, g.HTML = o.L, o.C, o.N, o.H, o.V, true
	g.PreContext, g.PostContext, g.Limit = o.Pre, o.Post, o.Limit
	g.Match, g.Matches, g.Limited = false, 0, false
	text := c06text(cc[0], cc[1], "idword", c.Extra == "nonl")
	r.must(c, "Grep", func() {
		switch c.Where {
		case "grep":
			g.Reader(strings.NewReader(text), "/r/"+name+"/f"+name)
		case "reader-error":
			g.Reader(io.MultiReader(strings.NewReader(text), &errReader{errors.New("bad disk " + cc[0] + " (" + cc[1] + ")")}), "/r/"+name)
		case "file-error":
			g.File("/nonexistent-c06/" + name)
		case "dir-error":
			d := filepath.Join(r.Scratch, "d"+name)
			os.MkdirAll(d, 0777)
			g.File(d)
		}
	})
	return tokenize(u.out.String())
}

type errReader struct{ err error }

func (e *errReader) Read([]byte) (int, error) { return 0, e.err }

func (u *c06grep) check(r *Run, c *c06case) {
	key := fmt.Sprintf("%s %v %s", c.Where, c.Opt, c.Extra)
	if u.twin == nil {
		u.twin = map[string][]tok{}
		u.res = map[string]*regexp.Regexp{}
	}
	t, ok := u.twin[key]
	if !ok {
		t = u.page(r, c, true)
		u.twin[key] = t
	}
	got := u.page(r, c, false)
	r.Step(len(got))
	if err := c06same(c, t, got, nil); err != nil {
		r.Fail(c, "HTML output for name %q, content %q, expression part %q: %v\noutput: %s", c.Name, c.Content, c.Query, err, trunc(u.out.String(), 800))
	}
	r.State(h64(key + "|" + c.Name + "|" + strings.Join(c.Content, "|") + "|" + c.Query))
	r.Trace(len(got) > 0)
	if len(got) > 0 {
		r.Outcome(c.Where + " output")
	} else {
		r.Outcome(c.Where + " no output")
	}
}

// c06same compares with the twin; a query appears as written (with its piece quoted).
func c06same(c *c06case, twin, got []tok, drop func(string) string) error {
	m := c.words()
	if c.Where != "badquery" {
		for i := range m {
			if m[i][0] == c06q {
				m[i][1] = goregexp.QuoteMeta(c.Query)
			}
		}
	}
	return sameButFor(twin, got, m, drop)
}

func c06opts() (out []gopt) {
	for m := 0; m < 32; m++ {
		for pre := 0; pre < 2; pre++ {
			for post := 0; post < 2; post++ {
				for lim := 0; lim < 2; lim++ {
					out = append(out, gopt{L: m&1 != 0, C: m&2 != 0, N: m&4 != 0, H: m&8 != 0, V: m&16 != 0, Pre: pre, Post: post, Limit: lim})
				}
			}
		}
	}
	return
}

func c06jobs(tier string) (jobs []Job) {
	jobs = append(jobs, Job{"web", func(r *Run) { r.c06web(tier) }})
	jobs = append(jobs, shardJobs("grep", 14, func(r *Run, shard, k int) {
		u := &c06grep{}
		names, conts, queries := c06names(), c06contents(), c06queries()
		n := 0
		for i, name := range names {
			for j, cont := range conts {
				n++
				if n%k != shard {
					continue
				}
				q := queries[(i*7+j)%len(queries)]
				d := conts[(i+j*5+1)%len(conts)]
				for _, o := range c06opts() {
					c := &c06case{Where: "grep", Name: name, Content: []string{cont, d}, Query: q, Opt: o}
					if (i+j)%2 == 1 {
						c.Extra = "nonl"
					}
					r.At(c)
					u.check(r, c)
				}
				for _, wh := range []string{"reader-error", "file-error", "dir-error"} {
					if wh == "dir-error" && (strings.Contains(name, "/") || j > 0) {
						continue
					}
					c := &c06case{Where: wh, Name: name, Content: []string{cont, d}, Query: q}
					r.At(c)
					u.check(r, c)
					c.Opt.V = true
					u.check(r, c)
				}
				if r.Expired() {
					return
				}
			}
		}
	})...)
	if tier == "thorough" {
		// All pairs of pieces in the content, beside each other and in different lines, and as one name.
		jobs = append(jobs, shardJobs("grep-pairs", 32, func(r *Run, shard, k int) {
			u := &c06grep{}
			conts, qs := c06contents(), c06queries()
			n := 0
			for i, a := range conts {
				for j, b := range conts {
					n++
					if n%k != shard {
						continue
					}
					for e, d := range conts {
						for _, o := range []gopt{{}, {C: true}, {L: true}, {Pre: 1, Post: 1}, {V: true}, {H: true, N: true}, {Pre: 1, V: true}} {
							c := &c06case{Where: "grep", Name: c06pieces[(i+j)%len(c06pieces)] + c06pieces[e%len(c06pieces)], Content: []string{a + b, d}, Query: qs[e%len(qs)] + qs[i%len(qs)], Opt: o}
							r.At(c)
							u.check(r, c)
						}
					}
					if r.Expired() {
						return
					}
				}
			}
		})...)
	}
	// Long names, lines, expressions with a piece at their start, middle or end.
	jobs = append(jobs, shardJobs("grep-long", 8, func(r *Run, shard, k int) {
		u := &c06grep{}
		opts := []gopt{{}, {C: true}, {L: true}, {Pre: 1, Post: 1}, {V: true}, {H: true, N: true}, {Pre: 1, V: true}}
		for i, p := range c06long(tier) {
			if i%k != shard {
				continue
			}
			for j, o := range opts {
				for w := 0; w < 4; w++ {
					c := &c06case{Where: "grep", Name: "n", Content: []string{"c", "d"}, Query: "q", Opt: o}
					switch w {
					case 0:
						c.Name = p[1]
					case 1:
						c.Content[0] = p[1]
					case 2:
						c.Content[1] = p[1]
					case 3:
						c.Query = p[1]
					}
					if (i+j)%2 == 1 {
						c.Extra = "nonl"
					}
					r.At(c)
					u.check(r, c)
				}
			}
			for _, wh := range []string{"reader-error", "file-error"} {
				if wh == "file-error" && len(p[1]) > 250 {
					continue
				}
				c := &c06case{Where: wh, Name: p[1], Content: []string{p[1], p[0]}}
				r.At(c)
				u.check(r, c)
			}
			u.res = map[string]*regexp.Regexp{}
			if r.Expired() {
				return
			}
		}
	})...)
	jobs = append(jobs, shardJobs("csearch", 7, func(r *Run, shard, k int) { r.c06cli(tier, shard, k) })...)
	return
}

// c06long pairs pieces with long texts that have them at the start, in the middle or at the end.
func c06long(tier string) (out [][2]string) {
	ps := []string{"<b>", "\"", "'", "&amp;", "</pre>", "\" onload=\"x()", ">", "&"}
	if tier == "thorough" {
		ps = c06pieces
	}
	for _, n := range []int{30, 62, 100, 126, 200, 254, 510, 700, 1022, 1500, 4094, 8190, 40000, 70000} {
		pad := strings.Repeat("pad ", n/4)
		for i, p := range ps {
			out = append(out, [2]string{p, pad + "x" + p})
			if i%3 == 0 || tier == "thorough" {
				out = append(out, [2]string{p, p + "x" + pad}, [2]string{p, pad + p + "x" + pad})
			}
		}
	}
	return
}

// c06cli: csearch -html over a tree of one file whose name and content are made of pieces.
func (r *Run) c06cli(tier string, shard, k int) {
	names, conts := c06names(), c06contents()
	mk := func(which, name, c, d string) (dir, index string) {
		dir = filepath.Join(r.Scratch, "c06"+which)
		index = dir + ".index"
		os.RemoveAll(dir)
		os.Remove(index)
		mustWrite(filepath.Join(dir, "d"+name+"e", "f"+name+"e"), []byte(c06text(c, d, "idword", false)))
		mustWrite(filepath.Join(dir, "gone", "f"+name+"e"), []byte(c06text(c, d, "idword", false)))
		if res := r.tool(cliOpt{Index: index}, "cindex", dir); res.Code != 0 {
			panic(harnessErr("cindex: " + res.Err))
		}
		os.Remove(filepath.Join(dir, "gone", "f"+name+"e"))
		return
	}
	tdir, tix := mk("t", c06n, c06c, c06d)
	flags := [][]string{{}, {"-l"}, {"-c"}, {"-h"}, {"-n"}, {"-B", "1"}, {"-A", "1"}, {"-C", "2", "-h"}, {"-l", "-c"}, {"-c", "-n"}, {"-brute"}, {"-i"}, {"-verbose"}, {"-f", "f"}}
	for i, name := range names {
		if i%k != shard {
			continue
		}
		cont, d := conts[(i*3+1)%len(conts)], conts[(i*5+2)%len(conts)]
		if strings.ContainsAny(cont+d, "\x00\xff\x80\xc3\u2028") && !validText(cont+d) {
			cont, d = "<b>", "</a>"
		}
		dir, ix := mk("h", name, cont, d)
		for fi, fl := range flags {
			for qi := 0; qi < 2; qi++ {
				q := conts[(i*11+fi*3+qi)%len(conts)]
				if strings.Contains(q, "\x00") || !validText(q) {
					q = "\"><b>"
				}
				c := &c06case{Where: "csearch", Name: name, Content: []string{cont, d}, Query: q, Extra: strings.Join(fl, " ")}
				r.At(c)
				a := append(append([]string{"-html"}, fl...), "--")
				t := r.tool(cliOpt{Index: tix}, "csearch", append(a, c06expr(c06q, "idword"))...)
				g := r.tool(cliOpt{Index: ix}, "csearch", append(a, c06expr(q, "idword"))...)
				if t.crashed() || g.crashed() {
					r.Fail(c, "csearch crashed: %s", g.Err)
				}
				// The twin's tree has another name; make them the same length-independent words.
				tw, hp := tokenize(strings.ReplaceAll(t.Out, tdir, dir)), tokenize(g.Out)
				if err := c06same(c, tw, hp, nil); err != nil {
					r.Fail(c, "csearch -html %s on name %q, content %q, expression part %q: %v\noutput: %s", c.Extra, name, c.Content, q, err, trunc(g.Out, 800))
				}
				r.Step(len(hp))
				r.State(h64(fmt.Sprintf("cli%v", c)))
				r.Trace(len(hp) > 0)
				r.Outcome("csearch")
			}
		}
		if r.Expired() {
			return
		}
	}
}

func validText(s string) bool {
	return strings.ToValidUTF8(s, "") == s && !strings.ContainsAny(s, "\x00\r\x01\x1b\v\ufffd")
}

// c06web explores csweb's pages.
func (r *Run) c06web(tier string) {
	base := filepath.Join(r.Scratch, "c06web")
	os.RemoveAll(base)
	names, conts := c06names(), c06contents()
	type entry struct {
		dir, file, name, c, d, id string
		text                      bool
	}
	var es []entry
	add := func(name, c, d string) {
		id := fmt.Sprintf("idword%05d", len(es))
		e := entry{name: name, c: c, d: d, id: id}
		e.dir = filepath.Join(base, fmt.Sprintf("%05d", len(es)), "d"+name)
		if strings.HasPrefix(name, "/") || strings.HasSuffix(name, "/") {
			e.dir = filepath.Join(base, fmt.Sprintf("%05d", len(es)), "d"+name+"e")
		}
		e.file = e.dir + "/" + strings.TrimLeft(name, "/") + "f"
		e.text = validText(c + d)
		mustWrite(e.file, []byte(c06text(c, d, id, len(es)%2 == 1)))
		es = append(es, e)
	}
	add(c06n, c06c, c06d) // the twin
	for i, name := range names {
		for j, c := range conts {
			if tier != "thorough" && (i+j)%2 != 0 && i != 12 && j != 12 {
				continue
			}
			add(name, c, conts[(i*5+j*3+1)%len(conts)])
		}
	}
	for _, p := range c06long(tier) {
		add(c06n, p[1], p[0])
		if len(p[1]) < 240 && !strings.Contains(p[1], "/") {
			add(p[1], p[0], p[1])
		}
	}
	ix := filepath.Join(r.Scratch, "c06web.index")
	os.Remove(ix)
	if res := r.tool(cliOpt{Index: ix}, "cindex", base); res.Code != 0 {
		panic(harnessErr("cindex: " + res.Err))
	}
	r.Tick()
	w := r.startWeb(ix)
	defer w.close()
	twin := map[string][]tok{}
	page := func(c *c06case, target string, drop func(string) string) {
		r.At(c)
		p := w.get(c, target)
		r.Trace(true)
		r.Step(1)
		r.Outcome(fmt.Sprintf("%s %d %s", c.Where, p.Code, p.Type))
		r.State(h64(target))
		key := c.Where + c.Extra
		t, ok := twin[key]
		if !ok {
			panic(harnessErr("no twin for " + key))
		}
		if p.NoHTML {
			if len(t) > 0 {
				r.Fail(c, "%s: the answer is %s; its harmless twin is a page", target, p.Type)
			}
			return
		}
		if t == nil {
			r.Fail(c, "%s: the answer (%s) can be taken for a page; its harmless twin is plain text", target, p.Type)
		}
		if err := c06same(c, t, tokenize(p.Body), drop); err != nil {
			r.Fail(c, "%s: %v\npage: %s", target, err, trunc(p.Body, 1500))
		}
	}
	setTwin := func(c *c06case, target string) {
		p := w.get(c, target)
		if p.NoHTML {
			twin[c.Where+c.Extra] = nil
			return
		}
		twin[c.Where+c.Extra] = tokenize(p.Body)
	}
	ident := func(e entry) func(string) string { // what differs besides the words: the number of the entry, and times
		n := filepath.Base(filepath.Dir(e.dir))
		if i := strings.Index(e.dir, base+"/"); i >= 0 {
			n = e.dir[len(base)+1 : len(base)+6]
		}
		return func(s string) string {
			s = strings.ReplaceAll(s, e.id, "IDWORD")
			s = strings.ReplaceAll(s, base+"/"+n, base+"/NNNNN")
			if s == n {
				return "NNNNN"
			}
			return c06time.ReplaceAllString(s, " in T")
		}
	}
	// Twin pages, with the entry's number taken out.
	tw := es[0]
	norm := func(ts []tok, e entry) []tok {
		f := ident(e)
		var out []tok
		for _, t := range ts {
			t.Text = f(t.Text)
			var as [][2]string
			for _, a := range t.Attrs {
				v := f(a[1])
				if isURLAttr(t.Tag, a[0]) {
					v = strings.ReplaceAll(v, (&url.URL{Path: base}).EscapedPath()+"/"+e.dir[len(base)+1:len(base)+6], (&url.URL{Path: base}).EscapedPath()+"/NNNNN")
				}
				as = append(as, [2]string{a[0], v})
			}
			t.Attrs = as
			out = append(out, t)
		}
		return out
	}
	npage := func(c *c06case, e entry, target string) {
		r.At(c)
		p := w.get(c, target)
		r.Trace(true)
		r.Step(1)
		r.Outcome(fmt.Sprintf("%s %d %s", c.Where, p.Code, p.Type))
		r.State(h64(target))
		if p.NoHTML {
			if !e.text && c.Where == "show" {
				return
			}
			r.Fail(c, "%s: the answer is %s, want a page", target, p.Type)
		}
		if err := c06same(c, twin[c.Where], norm(tokenize(p.Body), e), nil); err != nil {
			r.Fail(c, "%s: %v\npage: %s", target, err, trunc(p.Body, 1500))
		}
		if c.Where == "search" {
			if s := textOf(tokenize(p.Body)); !strings.Contains(s, "a"+e.c+"z "+e.id) || !strings.Contains(s, e.file) {
				r.Fail(c, "%s: the page does not show the matching line %q of %q\npage: %s", target, "a"+e.c+"z "+e.id, e.file, trunc(p.Body, 1500))
			}
		}
	}
	search := func(q string) string { return "/?q=" + url.QueryEscape(q) }
	showT := func(file string) string { return "/show" + (&url.URL{Path: file}).EscapedPath() }
	twin["search"] = norm(tokenize(w.get(nil, search(c06expr(c06q, tw.id))).Body), tw)
	twin["show"] = norm(tokenize(w.get(nil, showT(tw.file)).Body), tw)
	twin["dir"] = norm(tokenize(w.get(nil, showT(tw.dir)).Body), tw)
	for k, v := range twin {
		if s := textOf(v); !strings.Contains(s, c06n) || k != "dir" && !strings.Contains(s, c06c) {
			r.Fail(&c06case{Where: k}, "the %s page shows neither name nor content: %v", k, v)
		}
	}
	queries := c06queries()
	for i, e := range es[1:] {
		// Names with a slash make more path elements; their breadcrumbs differ in number.
		multi := strings.Contains(e.name, "/")
		for qi := 0; qi < 3; qi++ {
			if len(e.c+e.d) > 1900 || !utf8.ValidString(e.c+e.d) || strings.Contains(e.c+e.d, "\x00") || strings.ContainsAny(e.name[:1], "#.~") {
				break // the index does not take it
			}
			q := queries[(i*7+qi*19)%len(queries)]
			npage2 := &c06case{Where: "search", Name: e.name, Content: []string{e.c, e.d}, Query: q}
			if multi {
				r.c06multi(w, npage2, search(c06expr(q, e.id)), e.file, twin["search"], 0, true)
				continue
			}
			npage(npage2, e, search(c06expr(q, e.id)))
		}
		sc := &c06case{Where: "show", Name: e.name, Content: []string{e.c, e.d}}
		dc := &c06case{Where: "dir", Name: e.name, Content: []string{e.c, e.d}}
		if multi {
			extra := strings.Count(e.file, "/") - strings.Count(tw.file, "/")
			r.c06multi(w, sc, showT(e.file), e.file, twin["show"], extra, e.text)
			extra = strings.Count(filepath.Dir(e.file), "/") - strings.Count(tw.dir, "/")
			r.c06multi(w, dc, showT(filepath.Dir(e.file)), filepath.Dir(e.file), twin["dir"], extra, true)
		} else {
			npage(sc, e, showT(e.file))
			npage(dc, e, showT(e.dir))
		}
		if r.Expired() {
			return
		}
	}
	// Queries that do not compile, bad file expressions, and errors of show.
	type bad struct{ where, f string }
	mk := func(form, p string) string { return strings.Replace(form, "@", p, 1) }
	for _, form := range []string{"@(", "(@", "@)", "[@", "*@(", "@x{2,1}", "@(?z", "\\8@", "@\\pQ", "@[b-a]", "x{1001}@", "@x**", "@x++", "(?P<@", "@(?i", "@\\"} {
		for _, where := range []string{"q", "f", "home"} {
			for _, p := range append([]string{c06q}, conts...) {
				for raw := 0; raw < 2; raw++ {
					if p == c06q && raw == 1 {
						continue
					}
					x := p
					if raw == 0 {
						x = goregexp.QuoteMeta(p)
					}
					qs := mk(form, x)
					c := &c06case{Where: "badquery", Query: x, Extra: where + " " + form}
					target := search(qs)
					if where == "f" {
						target = "/?q=idword00001&f=" + url.QueryEscape(qs)
					}
					if where == "home" {
						target = "/other/" + (&url.URL{Path: qs}).EscapedPath() + "?q=" + url.QueryEscape(qs)
					}
					if p == c06q {
						setTwin(c, target)
						continue
					}
					// Where the parser quotes the same part of the two expressions, the pages differ as the words do.
					same := false
					if e1, ok := c06err(mk(form, c06q)); ok {
						e2, ok := c06err(qs)
						same = ok && e2 == strings.ReplaceAll(e1, c06q, x)
					}
					if same && validText(p) {
						drop := func(s string) string { return c06time.ReplaceAllString(s, " in T") }
						page(c, target, drop)
						continue
					}
					// The piece may change what the error is; the tags stay the page's own.
					r.At(c)
					pg := w.get(c, target)
					r.Trace(true)
					r.Outcome("badquery raw")
					if err := c06own(append(append([]tok{}, twin["badquery"+c.Extra]...), twin["search"]...), tokenize(pg.Body), where != "f"); err != nil && !pg.NoHTML {
						r.Fail(c, "%s: %v\npage: %s", target, err, trunc(pg.Body, 1500))
					}
				}
			}
		}
		if r.Expired() {
			return
		}
	}
	for _, form := range []string{"/show/nonexistent/@", "/show/@/x", "/show" + tw.file + "/@", "/_static/@", "/_static/viewer.css/@", "/show@", "/@"} {
		for _, p := range append([]string{c06q}, c06pieces...) {
			c := &c06case{Where: "showerror", Query: p, Extra: form}
			target := (&url.URL{Path: mk(form, p)}).EscapedPath()
			if p == c06q {
				setTwin(c, target)
				continue
			}
			if strings.HasPrefix(p, "/") || strings.Contains(p, "//") || strings.HasSuffix(p, "/") {
				continue
			}
			r.At(c)
			pg := w.get(c, target)
			r.Trace(true)
			r.Outcome(fmt.Sprintf("%s %d", c.Where, pg.Code))
			if pg.NoHTML {
				continue
			}
			if t := twin["showerror"+form]; t == nil {
				r.Fail(c, "%s: the answer (%s) can be taken for a page", target, pg.Type)
			} else if err := c06own(t, tokenize(pg.Body), false); err != nil {
				r.Fail(c, "%s: %v\npage: %s", target, err, trunc(pg.Body, 1500))
			}
		}
	}
	// Files that are not text come as they are; never as something a browser renders.
	bins := []string{"\x01", "\x00", "\xff", "\xfe\xff", "\xef\xbb\xbf\x01", "\x1b", "\ufffd", "\x7f\x02", "\x80"}
	heads := []string{"<html>", "<!DOCTYPE html>", "<script>x()</script>", "<?xml version=\"1.0\"?>", "<svg onload=x()>", "<!-- x -->", "<b>", "<a href=x>", "<h1>", "<iframe src=x>", "<table>", "<br>", "<p>", "<style>", "<title>", "<body>", "<head>", "<font>", "<div>", "  \n<html>", "x<html>", "", "%PDF-1.4", "GIF89a<html>", "<xml>", "<HTML >", "\t<IMG src=x>"}
	n := 0
	for _, h := range heads {
		for _, b := range bins {
			for _, form := range []string{"hb", "bh", "hbh", "h", "h\nlong"} {
				for _, name := range []string{"bin", "bin.html", "bin.svg", "bin.xml"} {
					var s string
					switch form {
					case "hb":
						s = h + b
					case "bh":
						s = b + h
					case "hbh":
						s = h + "\n" + b + h
					case "h":
						s = h
					default: // beyond the part that is looked at
						s = h + strings.Repeat("y", 1100) + b + h
					}
					f := filepath.Join(base, "bin", fmt.Sprint(n), name)
					n++
					mustWrite(f, []byte(s))
					c := &c06case{Where: "raw", Content: []string{s}, Name: name}
					if len(s) > 1000 {
						c.Content = []string{h, b}
					}
					c.Extra = form
					r.At(c)
					pg := w.get(c, showT(f))
					r.Trace(true)
					r.Outcome("raw " + pg.Type)
					if pg.NoHTML {
						if pg.Body != s {
							r.Fail(c, "raw file comes back as %q", trunc(pg.Body, 200))
						}
						continue
					}
					// It was made a page: then only with the page's own tags.
					ts := tokenize(pg.Body)
					if err := c06own(twin["show"], ts, true); err != nil {
						r.Fail(c, "%s with content %q (%s): %v\npage: %s", showT(f), trunc(s, 100), pg.Type, err, trunc(pg.Body, 800))
					}
					if !strings.Contains(textOf(ts), strings.SplitN(h, "\n", 2)[0]) {
						r.Fail(c, "the page of %q does not show its content", s)
					}
				}
			}
		}
		if r.Expired() {
			return
		}
	}
	r.Sample("csweb search, show and directory pages, bad queries, errors and raw files over %d files", len(es))
}

// c06err is what Go's parser says of an expression.
func c06err(s string) (string, bool) {
	_, err := syntax.Parse("(?m)"+s, syntax.Perl)
	if err == nil {
		return "", false
	}
	return err.Error(), true
}

var c06time = goregexp.MustCompile(` in [0-9.]+s`)

var c22foot = goregexp.MustCompile(`\n?[0-9]+ matches in [0-9.]+s`)

// c06own: every tag of the page occurs, with the same attribute names and (unless it is a link or an id) the same
// values, in the harmless page.
func c06own(twin, got []tok, values bool) error {
	shape := func(t tok) string {
		s := t.Tag
		for _, a := range t.Attrs {
			s += " " + a[0]
			if a[0] != "href" && a[0] != "id" && a[0] != "value" {
				s += "=" + a[1]
			}
		}
		return s
	}
	have := map[string]bool{}
	for _, t := range twin {
		have[shape(t)] = true
	}
	for _, t := range got {
		if t.Tag == "" {
			continue
		}
		if !have[shape(t)] {
			return fmt.Errorf("the page has %v, which is not one of its own tags", t)
		}
		for _, a := range t.Attrs {
			if a[0] == "href" && !strings.HasPrefix(a[1], "/") && !strings.HasPrefix(a[1], "_static/") && !strings.HasPrefix(a[1], "show/") {
				return fmt.Errorf("the page has the link %q, which leads elsewhere", a[1])
			}
		}
	}
	return nil
}

// c06multi checks a page whose name has slashes: own tags only, name and content in the text.
func (r *Run) c06multi(w *webServer, c *c06case, target, file string, twin []tok, extra int, text bool) {
	r.At(c)
	p := w.get(c, target)
	r.Trace(true)
	r.Outcome(c.Where + " nested")
	if p.NoHTML {
		if text {
			r.Fail(c, "%s: the answer is %s, want a page", target, p.Type)
		}
		return
	}
	got := tokenize(p.Body)
	if err := c06own(twin, got, true); err != nil {
		r.Fail(c, "%s: %v\npage: %s", target, err, trunc(p.Body, 1500))
	}
	count := func(ts []tok) (m map[string]int) {
		m = map[string]int{}
		for _, t := range ts {
			if t.Tag != "" {
				m[t.Tag]++
			}
		}
		return
	}
	a, b := count(twin), count(got)
	a["a"] += extra
	a["/a"] += extra
	for k := range b {
		if a[k] != b[k] {
			return2 := fmt.Sprintf("%d tags %q, want %d", b[k], k, a[k])
			r.Fail(c, "%s: %s\npage: %s", target, return2, trunc(p.Body, 1500))
		}
	}
	s := textOf(got)
	if !strings.Contains(s, file) && !strings.Contains(strings.ReplaceAll(s, "//", "/"), file) {
		r.Fail(c, "%s: the page does not show the name %q\npage: %s", target, file, trunc(p.Body, 1500))
	}
	if c.Where == "show" && !strings.Contains(s, "x"+c.Content[1]+"y") {
		r.Fail(c, "%s: the page does not show the content %q\npage: %s", target, c.Content, trunc(p.Body, 1500))
	}
}

func init() {
	register(&Prop{
		ID: "C06", Level: "model_checking",
		Rule: "A case puts markup pieces into a file's name, its lines, the expression or an error, and produces the HTML of one place (Grep in HTML mode under one option combination, csearch -html, a csweb search, show, directory, error or raw page). Its tags must be those of the harmless twin, and its unescaped text and attribute values the twin's with the words replaced by the pieces. Non-trivial: there is output.",
		Assumptions: []string{
			"the tokenizer follows the HTML standard's states for tags, attributes, comments, raw text and RCDATA; parse-error recovery beyond that is not modelled",
			"answers whose content type is neither HTML, XML nor script are not rendered by a browser",
		},
		Jobs: c06jobs,
		Replay: func(r *Run, b json.RawMessage) {
			c := caseOf[c06case](b)
			switch c.Where {
			case "grep", "reader-error", "file-error", "dir-error":
				(&c06grep{}).check(r, &c)
			case "csearch":
				for s := 0; s < 7; s++ {
					r.c06cli(r.Tier, s, 7)
				}
			default:
				r.c06web(r.Tier)
			}
		},
	})
}
