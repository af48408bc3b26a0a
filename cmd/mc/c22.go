package main

import (
	"archive/zip"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/url"
	"os"
	"path/filepath"
	goregexp "regexp"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// C22: trees with all small contents; every search page of csweb is compared with csearch's listing, every link of
// it is followed to the page of its file, and every show and directory page is compared with the file or directory.

type c22case struct {
	World string
	Query string `json:",omitempty"`
	F     string `json:",omitempty"`
	File  string `json:",omitempty"`
}

var c22lines = []string{"ab", "\tab cd", "", "cd <b>", "ab\r"}

var c22exprs = []string{"ab", "cd", "^ab", "ab$", "^$", "", "a.*d", "(?i)AB", "\\t", "<b>", "ab|cd", "^[^a]*$", "\\bcd\\b", "b.c", "nomatchatall", ".", "(?s)b.*d", "ab\\r", "x*", "^\\tab", "&", "é", "日本", "last|first", "[^\\x00-\\x7f]", "%s", "a b", "'q'", "\"", "ab cd", "^ab$|<", "foo_[0-9]+", "zip"}

// c22odd are texts that a form value, a URL or a page could lose or change.
var c22odd = []string{" ", "  ", " a", "a ", "\t", "+", "a+b", "&", "a&f=b", "%", "%20", "%zz", "%41", "#", "#L1", ";", "a;q=b", "=", "?", "?q=x", "é", "e\u0301", "日本", "\u00a0", "\u200b", "\u2028", "\ufeff", "\\n", "\"", "'", "<", ">", "&lt;", "&#65;", "&amp;", "/", "//", "..", "~", "|", "{", "^", "`", "$", ",", "!", "*", "QUERY", "q", "NaN", "0", "null", "a b", " a b "}

type c22show struct {
	lines map[string]string // id -> text of the element
	order []string
	page  webPage
}

// c22parse finds the elements with an id.
func c22parse(ts []tok) (s c22show) {
	s.lines = map[string]string{}
	for i, t := range ts {
		if t.Tag == "" || strings.HasPrefix(t.Tag, "/") {
			continue
		}
		id := ""
		for _, a := range t.Attrs {
			if a[0] == "id" {
				id = a[1]
			}
		}
		if id == "" {
			continue
		}
		depth, text := 1, ""
		for j := i + 1; j < len(ts) && depth > 0; j++ {
			switch ts[j].Tag {
			case "":
				text += ts[j].Text
			case t.Tag:
				depth++
			case "/" + t.Tag:
				depth--
			}
		}
		if _, ok := s.lines[id]; ok {
			s.order = append(s.order, id+" again")
		}
		s.lines[id] = text
		s.order = append(s.order, id)
	}
	return
}

func splitShow(data string) []string {
	l := strings.Split(data, "\n")
	if l[len(l)-1] == "" {
		l = l[:len(l)-1]
	}
	return l
}

// c22number takes "   12  text" apart.
func c22number(s string) (n int, rest string) {
	s = strings.TrimLeft(s, " ")
	i := 0
	for i < len(s) && s[i] >= '0' && s[i] <= '9' {
		i++
	}
	n, err := strconv.Atoi(s[:i])
	if err != nil {
		return -1, s
	}
	return n, s[i:]
}

func showURL(file string) string { return "/show" + (&url.URL{Path: file}).EscapedPath() }

type c22world struct {
	name, tree, index string
	w                 *webServer
	sep, end          string // what stands between number and line, and after it
	shows             map[string]*c22show
	text              map[string]bool
}

// show fetches the page of a text file and checks all of it.
func (w *c22world) show(r *Run, c *c22case, file string) *c22show {
	if s := w.shows[file]; s != nil {
		return s
	}
	p := w.w.get(c, showURL(file))
	data := string(mustRead(file))
	if p.Code != 200 || p.NoHTML {
		r.Fail(c, "the page of text file %q is %d %s", file, p.Code, p.Type)
	}
	s := c22parse(tokenize(p.Body))
	s.page = p
	want := splitShow(data)
	if len(s.order) != len(want) {
		r.Fail(c, "the page of %q has %d lines, the file %d (content %q)", file, len(s.order), len(want), trunc(data, 300))
	}
	for i, l := range want {
		id := s.order[i]
		if id != fmt.Sprintf("L%d", i+1) {
			r.Fail(c, "line %d of %q is the element %q", i+1, file, id)
		}
		n, rest := c22number(s.lines[id])
		if n != i+1 || rest != w.sep+l+w.end {
			r.Fail(c, "line %d of %q is shown as %q, the line is %q", i+1, file, s.lines[id], l)
		}
	}
	r.Step(len(want) + 1)
	r.Trace(len(want) > 0)
	r.State(h64("show" + data))
	w.shows[file] = &s
	r.Outcome("show page")
	return &s
}

// learn finds out how a line is set from a page of one line.
func (w *c22world) learn(r *Run, file string) {
	c := &c22case{World: w.name, File: file}
	data := strings.TrimSuffix(string(mustRead(file)), "\n")
	p := w.w.get(c, showURL(file))
	s := c22parse(tokenize(p.Body))
	t, ok := s.lines["L1"]
	if !ok {
		r.Fail(c, "the page of %q has no element L1: %s", file, trunc(p.Body, 500))
	}
	n, rest := c22number(t)
	i := strings.Index(rest, data)
	if n != 1 || i < 0 || strings.TrimSpace(strings.Replace(rest, data, "", 1)) != "" {
		r.Fail(c, "line 1 (%q) of %q is shown as %q", data, file, t)
	}
	w.sep, w.end = rest[:i], rest[i+len(data):]
}

// search compares a search page with csearch and follows its links.
func (w *c22world) search(r *Run, q, f string, follow bool) {
	c := &c22case{World: w.name, Query: q, F: f}
	r.At(c)
	args := []string{"-n"}
	if f != "" {
		args = append(args, "-f", f)
	}
	cs := r.tool(cliOpt{Index: w.index}, "csearch", append(append(args, "--"), q)...)
	if cs.crashed() {
		r.Fail(c, "csearch crashed: %s", cs.Err)
	}
	target := "/?q=" + url.QueryEscape(q)
	if f != "" {
		target += "&f=" + url.QueryEscape(f)
	}
	p := w.w.get(c, target)
	if q == "" {
		return
	}
	ts := tokenize(p.Body)
	start := -1
	for i, t := range ts {
		if t.Tag == "input" && start < 0 {
			name, value := "", ""
			for _, a := range t.Attrs {
				switch a[0] {
				case "name":
					name = a[1]
				case "value":
					value = a[1]
				}
			}
			if name == "q" && value != q && strings.Trim(value, "\n\r") != strings.Trim(q, "\n\r") {
				r.Fail(c, "%s: the page's search box holds %q", target, value)
			}
		}
		if t.Tag == "pre" {
			start = i + 1
		}
	}
	if start < 0 {
		r.Fail(c, "%s: no <pre> in the page: %s", target, trunc(p.Body, 500))
	}
	ts = ts[start:]
	// Errors in reading go to the page; csearch writes them elsewhere.
	for _, e := range strings.SplitAfter(cs.Err, "\n") {
		for i := range ts {
			if e != "" && strings.Contains("\n"+ts[i].Text, "\n"+e) {
				ts[i].Text = strings.TrimPrefix(strings.Replace("\n"+ts[i].Text, "\n"+e, "\n", 1), "\n")
				break
			}
		}
	}
	text := strings.TrimPrefix(textOf(ts), "\n")
	if len(ts) > 0 && strings.HasPrefix(ts[0].Text, "\n") {
		ts[0].Text = ts[0].Text[1:]
	}
	if cs.Code != 0 && cs.Err != "" && cs.Out == "" {
		for _, t := range ts {
			if t.Tag == "a" {
				r.Fail(c, "%s: csearch refuses the query (%s), the page links to something", target, cs.Err)
			}
		}
		r.Outcome("query refused")
		return
	}
	if strings.Contains(text, "more matches not shown") {
		listing, _ := c22cut(text)
		if !strings.HasPrefix(cs.Out, listing) || len(listing) >= len(cs.Out) {
			r.Fail(c, "%s: a page cut off at its limit is not the beginning of csearch's listing", target)
		}
		n := strings.Count(listing, "\n")
		r.Outcome(fmt.Sprintf("limited to %d", n))
		if n < 1000 {
			r.Fail(c, "%s: %d matches of %d shown", target, n, strings.Count(cs.Out, "\n"))
		}
	} else {
		listing, foot := c22cut(text)
		if w.w.verbose() && strings.HasSuffix(listing, cs.Out) {
			listing = cs.Out // before it stands more
		}
		if listing != cs.Out {
			r.Fail(c, "%s lists other matches than csearch -n: %s", target, firstDiff([]byte(listing), []byte(cs.Out)))
		}
		if n := strings.Count(cs.Out, "\n"); !strings.Contains(foot, strconv.Itoa(n)) {
			r.Fail(c, "%s: %d matches listed, the page says %q", target, n, foot)
		}
	}
	// Every link.
	type match struct {
		href, label, line string
	}
	var ms []match
	for i := 0; i < len(ts); i++ {
		if ts[i].Tag != "a" {
			continue
		}
		m := match{}
		for _, a := range ts[i].Attrs {
			if a[0] == "href" {
				m.href = a[1]
			}
		}
		i++
		for ; i < len(ts) && ts[i].Tag != "/a"; i++ {
			m.label += ts[i].Text
		}
		for i++; i < len(ts) && ts[i].Tag != "a"; i++ {
			m.line += ts[i].Text
		}
		i--
		ms = append(ms, m)
	}
	r.Step(len(ms) + 1)
	r.Trace(len(ms) > 0)
	r.State(h64("search" + w.name + q + "|" + f))
	r.Outcome("search page")
	if strings.Count(cs.Out, "\n") != len(ms) && !strings.Contains(text, "more matches not shown") {
		r.Fail(c, "%s: %d links for %d matches", target, len(ms), strings.Count(cs.Out, "\n"))
	}
	last := ""
	for k, m := range ms {
		j := strings.LastIndexByte(m.label, ':')
		if j < 0 {
			r.Fail(c, "%s: link labelled %q", target, m.label)
		}
		name, num := m.label[:j], m.label[j+1:]
		if strings.Contains(name, ".zip\x01") {
			r.Outcome("match in an archive")
			continue
		}
		line := strings.TrimPrefix(m.line, ":")
		if k == len(ms)-1 {
			line, _ = c22cut(line)
		}
		line = strings.TrimSuffix(line, "\n")
		l := parseLink(m.href)
		if l.Bad != "" || l.Frag != "L"+num {
			r.Fail(c, "%s: match %s links to %q", target, m.label, m.href)
		}
		path := l.Path
		if !strings.HasPrefix(path, "/show/") || filepath.Clean(strings.TrimPrefix(path, "/show")) != filepath.Clean(name) {
			r.Fail(c, "%s: match %s links to %q, which is not the page of that file", target, m.label, m.href)
		}
		if !w.istext(name) {
			r.Outcome("match in a file that is not shown as text")
			continue
		}
		if follow && name != last {
			// Follow the link as it stands.
			u := strings.SplitN(m.href, "#", 2)[0]
			pg := w.w.get(c, u)
			if pg.Code != 200 || pg.NoHTML || pg.Final != "/show"+name {
				r.Fail(c, "%s: link %q of match %s leads to %d %s %q", target, m.href, m.label, pg.Code, pg.Type, pg.Final)
			}
			last = name
			if sp := w.show(r, c, name); sp.page.Body != pg.Body {
				r.Fail(c, "%s: link %q leads to another page than /show%s", target, m.href, name)
			}
		}
		if len(ms) < 20000 || k%97 == 0 || k > len(ms)-3 {
			sp := w.show(r, c, name)
			t, ok := sp.lines[l.Frag]
			if !ok {
				r.Fail(c, "%s: link %q names no element of the page of %q", target, m.href, name)
			}
			n, rest := c22number(t)
			if strconv.Itoa(n) != num || rest != w.sep+line+w.end {
				r.Fail(c, "%s: match %s with line %q links to the element %q", target, m.label, line, t)
			}
		}
	}
}

func (w *webServer) verbose() bool { return len(w.args) > 0 }

// c22cut splits off what the page says after the matches.
func c22cut(s string) (listing, foot string) {
	loc := c22foot.FindAllStringIndex(s, -1)
	if loc == nil {
		return s, ""
	}
	k := loc[len(loc)-1]
	return s[:k[0]], s[k[0]:]
}

func (w *c22world) istext(name string) bool {
	t, ok := w.text[name]
	if !ok {
		t = validText(strings.ReplaceAll(string(mustRead(name)), "\r", "")) && !strings.ContainsFunc(string(mustRead(name)), func(c rune) bool {
			return c < ' ' && c != '\n' && c != '\t' && c != '\f' && c != '\r'
		})
		w.text[name] = t
	}
	return t
}

func (r *Run) c22build(name string) (tree, index string) {
	tree = filepath.Join(r.Scratch, "c22"+name)
	index = tree + ".index"
	os.RemoveAll(tree)
	os.Remove(index)
	put := func(f, data string) { mustWrite(filepath.Join(tree, f), []byte(data)) }
	put("000first", "first line\n")
	roots := []string{tree}
	switch name {
	case "small", "small5":
		n := 4
		if name == "small5" {
			n = 5
		}
		var seqs [][]string
		seqs = append(seqs, nil)
		for lo := 0; n > 0; n-- {
			hi := len(seqs)
			for _, s := range seqs[lo:hi] {
				for _, l := range c22lines {
					seqs = append(seqs, append(append([]string{}, s...), l))
				}
			}
			lo = hi
		}
		for i, s := range seqs {
			t := strings.Join(s, "\n")
			put(fmt.Sprintf("t/%02d/%03d", i/50, i), t)
			if len(s) > 0 {
				put(fmt.Sprintf("t/%02d/%03dn", i/50, i), t+"\n")
			}
		}
	case "marks":
		for i, m := range gmarks() {
			put(fmt.Sprintf("m/%da", i), m+"ab\ncd\n"+m+"\nab"+m)
			put(fmt.Sprintf("m/%db", i), "ab"+m+"cd\nab\n")
		}
		for i, n := range []int{63, 64, 80, 120, 132, 255, 256, 1023, 1024, 1025, 2046, 2047, 4095, 4096, 4097, 8192} {
			put(fmt.Sprintf("w/%da", i), "ab\n"+strings.Repeat("x", n)+"ab\ncd\n")
			put(fmt.Sprintf("w/%db", i), strings.Repeat("é", n/2)+"ab"+strings.Repeat(" ", n)+"\ncd")
			put(fmt.Sprintf("w/%dc", i), strings.Repeat("\t", n)+"ab\r\n"+strings.Repeat("ab\r\n", n/4)+"\r\nab\r")
			put(fmt.Sprintf("w/%dd", i), "ab"+strings.Repeat("\n", n)+"ab\n")
		}
	case "names", "verbose":
		for _, p := range append(c06pieces, "a", "é", "日本", "x y", "..x", "x.", "-n", "CON", "a.zip") {
			if strings.Contains(p, "/") {
				continue
			}
			put("n/"+p+"/f"+p+"e", "ab 'q' \"\n%s "+p+"\ncd\n")
		}
		put("a.zip/x", "ab\n")
		put("dir/.hidden", "h\n")
		put("dir/~tilde", "h\n")
		put("dir/#hash", "h\n")
		put("dir/back~", "h\n")
		put("dir/sub/x", "ab\n")
		os.MkdirAll(filepath.Join(tree, "empty"), 0777)
		os.Symlink("sub", filepath.Join(tree, "dir/link"))
		os.Symlink("sub/x", filepath.Join(tree, "dir/linkf"))
		os.Symlink(filepath.Join(tree, "dir/sub/x"), filepath.Join(tree, "dir/abs"))
		os.Symlink("../000first", filepath.Join(tree, "dir/up"))
		os.Symlink("up", filepath.Join(tree, "dir/chain"))
		os.Symlink(filepath.Join(tree, "dir"), filepath.Join(tree, "dir/loop"))
		// A second root, below a symbolic link.
		os.RemoveAll(tree + ".real")
		os.Remove(tree + ".via")
		mustWrite(tree+".real/sub/v", []byte("ab behind a link\ncd\n"))
		os.Symlink(tree+".real", tree+".via")
		roots = append(roots, tree+".via/sub")
		for i := 0; i < 300; i++ {
			put(fmt.Sprintf("many/f%d", i), fmt.Sprintf("foo_%d\n", i))
		}
		f := zipFile([]file{{"m.go", "member ab\nzip <b>\n"}, {"d/n.txt", "cd\nab\n"}})
		f.Seek(0, 0)
		zb, _ := io.ReadAll(f)
		mustWrite(filepath.Join(tree, "arch.zip"), zb)
		f.Close()
		put("uni", "日本 é\nlast\n")
		put("ctl", "ab\x01\ncd\n")
		put("ff", "ab\f\ncd\n")
	case "long":
		for _, n := range []int{0, 1, 2, 8, 9, 10, 11, 98, 99, 100, 101, 998, 999, 1000, 1001, 9998, 9999, 10000, 10001, 99998, 99999, 100000, 100001} {
			var b strings.Builder
			for i := 1; i <= n; i++ {
				fmt.Fprintf(&b, "foo_%d\n", i)
			}
			put(fmt.Sprintf("l/%06d", n), b.String())
			put(fmt.Sprintf("l/%06dx", n), b.String()+"last")
		}
		put("big", gfill(1<<20-5, 50)+"ab\ncd\n"+gfill(1<<20, 61)+"ab last\n")
		put("wide", strings.Repeat("y", 1990)+"ab\n"+strings.Repeat("ab ", 600)+"\n")
	case "odd":
		for i, q := range c22odd {
			put(fmt.Sprintf("o/%d", i), "x"+q+"y\n"+q+"\n"+strings.TrimSpace(q)+"\n"+q+q+"\nab\n")
			if !strings.Contains(q, "/") {
				put(fmt.Sprintf("p/x%sy", q), "ab named\n")
				put("q/"+q+"z"+q, "ab named\n")
			}
		}
	case "archives":
		for i, f := range c18forms {
			put(fmt.Sprintf("z/f%d.zip", i), string(f.build()))
		}
		for _, n := range []string{" .zip", "%s.zip", "ü.zip", "a.zip.zip", "b.zip/in.zip", "c'\".zip", strings.Repeat("n", 250) + ".zip", "<b>.zip"} {
			put("y/"+n, string(c18forms[0].build()))
		}
		var b bytes.Buffer
		z := zip.NewWriter(&b)
		for n := 1; n < 5000; n += 1 + n/8 {
			c18add(z, &zip.FileHeader{Name: strings.Repeat("m", n)}, fmt.Sprintf("ab under %d\n", n))
			c18add(z, &zip.FileHeader{Name: strings.Repeat("m/", n) + "x", Method: zip.Deflate}, fmt.Sprintf("ab below %d\n", n))
		}
		for _, q := range c22odd {
			if strings.ContainsFunc(q, func(c rune) bool { return c < ' ' }) {
				continue
			}
			c18add(z, &zip.FileHeader{Name: q + "o"}, "ab oddly named\n"+q+"\n")
		}
		z.Close()
		put("names.zip", b.String())
	case "limit":
		put("l/a", strings.Repeat("ab\n", 60000))
		put("l/b", strings.Repeat("x\nab\n", 39999)+"cd\n")
		put("l/c", "ab1\n")
		put("l/d", "ab2\nab3\n")
	}
	if res := r.tool(cliOpt{Index: index}, "cindex", append([]string{"-zip"}, roots...)...); res.Code != 0 {
		panic(harnessErr("cindex: " + res.Err))
	}
	return
}

// walk checks the show pages of everything in the tree.
func (w *c22world) walk(r *Run, dir string) {
	es, err := os.ReadDir(dir)
	if err != nil {
		panic(harnessErr(err.Error()))
	}
	for _, slash := range []string{"", "/"} {
		c := &c22case{World: w.name, File: dir + slash}
		r.At(c)
		p := w.w.get(c, showURL(dir)+slash)
		if p.Code != 200 || p.NoHTML {
			r.Fail(c, "the page of directory %q is %d %s", dir, p.Code, p.Type)
		}
		ts := tokenize(p.Body)
		have := map[string]string{} // decoded path -> label
		for i, t := range ts {
			if t.Tag != "a" {
				continue
			}
			for _, a := range t.Attrs {
				if a[0] == "href" {
					label := ""
					for j := i + 1; j < len(ts) && ts[j].Tag != "/a"; j++ {
						label += ts[j].Text
					}
					if l := parseLink(a[1]); l.Bad == "" && l.Query == "" && l.Frag == "" && strings.HasPrefix(l.Path, "/show/") {
						have[filepath.Clean(strings.TrimPrefix(l.Path, "/show"))] = label
					}
				}
			}
		}
		for _, e := range es {
			if l, ok := have[filepath.Join(dir, e.Name())]; !ok || l != e.Name() {
				r.Fail(c, "the page of directory %q has no link %q to its entry (%v)", dir, e.Name(), have)
			}
			delete(have, filepath.Join(dir, e.Name()))
		}
		for p := range have { // the rest leads up
			if p != "/" && p != dir && !strings.HasPrefix(dir, p+"/") {
				r.Fail(c, "the page of directory %q links to %q, which is not in it", dir, p)
			}
		}
		r.Step(len(es) + 1)
		r.Trace(len(es) > 0)
		r.State(h64("dir" + dir + slash))
		r.Outcome("directory page")
	}
	for _, e := range es {
		p := filepath.Join(dir, e.Name())
		info, err := os.Stat(p)
		if err != nil {
			continue
		}
		if info.IsDir() {
			if e.Type().IsDir() {
				w.walk(r, p)
			}
			continue
		}
		c := &c22case{World: w.name, File: p}
		r.At(c)
		if w.istext(p) {
			w.show(r, c, p)
		} else if pg := w.w.get(c, showURL(p)); pg.Code != 200 {
			r.Fail(c, "the page of %q is %d", p, pg.Code)
		}
		if r.Expired() {
			return
		}
	}
}

func (r *Run) c22run(world string) {
	w := &c22world{name: world, shows: map[string]*c22show{}, text: map[string]bool{}}
	w.tree, w.index = r.c22build(world)
	o := webServer{index: w.index}
	if world == "verbose" {
		o.args = []string{"-verbose"}
	}
	w.w = r.startWebOpt(o)
	defer w.w.close()
	w.learn(r, filepath.Join(w.tree, "000first"))
	w.walk(r, w.tree)
	if r.Expired() {
		return
	}
	switch world {
	case "odd":
		for _, o := range c22odd {
			q := goregexp.QuoteMeta(o)
			for _, q := range []string{q, "x" + q + "y", "^" + q + "$", "(" + q + "){2}", "[" + q + "]", q + "ab|" + q, o} {
				w.search(r, q, "", true)
				if r.Expired() {
					return
				}
			}
			for _, f := range []string{q, "/" + q, "x" + q + "y$", o} {
				w.search(r, "ab", f, true)
				w.search(r, q, f, false)
				if r.Expired() {
					return
				}
			}
		}
		// White space and the like around a query is part of it.
		for _, x := range []string{"\n", "\r\n", "\r", "\t", " ", "  ", "\v", "\f", "\u00a0", "\u2028", "\ufeff", "/", "\"", "'", ";", "&", "=", "#"} {
			for _, q := range []string{x + "ab", "ab" + x, x + "ab" + x, x} {
				w.search(r, q, "", false)
				w.search(r, "ab", q, false)
				if r.Expired() {
					return
				}
			}
		}
		// Long queries.
		for n := 120; n <= 40000; n = n*3/2 + 7 {
			var alts []string
			for i := 0; i*9 < n; i++ {
				alts = append(alts, fmt.Sprintf("zz%06d", i*7919%1000003))
			}
			long := strings.Join(alts, "|")
			for _, q := range []string{long + "|ab", "ab|" + long, "(" + strings.Repeat("z?", n/2) + "ab)"} {
				if len(q) < 4000 || q[0] != '(' {
					w.search(r, q, "", false)
				}
			}
			w.search(r, "ab", long+"|x|n", false)
			if r.Expired() {
				return
			}
		}
	case "archives":
		for _, q := range []string{"ab", "text", "^", "x$", "text.*e|below", "last", "(?i)LINE", "nosuchtext"} {
			for _, f := range []string{"", "names", "\\.zip\x01m", "/x$", "m{300}", "f1", "[ %<]", "nosuchname"} {
				w.search(r, q, f, false)
				if r.Expired() {
					return
				}
			}
		}
	case "limit":
		for _, q := range []string{"^ab$", "ab$|ab1", "ab", "^ab$|cd", "ab1|cd|x", "ab2"} {
			w.search(r, q, "", false)
		}
	default:
		for _, q := range c22exprs {
			for _, f := range []string{"", "t/0", "e$", "n", "\\.zip", "nosuchname"} {
				w.search(r, q, f, f == "" || f == "n")
				if r.Expired() {
					return
				}
			}
		}
	}
	r.Sample("world %s: %d show pages", world, len(w.shows))
}

// c22many searches more often than csweb may map files at once: the last answer must be like the first.
func (r *Run) c22many() {
	c := &c22case{World: "many searches"}
	tree := filepath.Join(r.Scratch, "c22many")
	index := tree + ".index"
	mustWrite(filepath.Join(tree, "f"), []byte("ab\ncd <b>\nab\n"))
	mustWrite(filepath.Join(tree, "g"), []byte("cd\n"))
	if res := r.tool(cliOpt{Index: index}, "cindex", tree); res.Code != 0 {
		panic(harnessErr("cindex: " + res.Err))
	}
	w := r.startWeb(index)
	defer w.close()
	targets := []string{"/?q=ab", "/?q=cd&f=g", "/?q=nosuchtext", "/?q=ab&f=f", "/?q=%28", "/?q=cd"}
	norm := func(p webPage) string {
		return fmt.Sprint(p.Code, c22foot.ReplaceAllString(p.Body, "\n"))
	}
	var want []string
	for _, t := range targets {
		want = append(want, norm(w.get(c, t)))
	}
	n := 65530
	if b, err := os.ReadFile("/proc/sys/vm/max_map_count"); err == nil {
		fmt.Sscan(string(b), &n)
	}
	n = min(max(n, 10000)*6/5+5000, 160000)
	const workers = 8
	type result struct {
		i    int
		got  string
		fail error
	}
	done := make(chan result, workers)
	var count, stop atomic.Int64
	for k := 0; k < workers; k++ {
		go func() {
			for {
				i := int(count.Add(1))
				if i > n || stop.Load() != 0 {
					done <- result{}
					return
				}
				p, err := w.fetch(targets[i%len(targets)])
				if err != nil {
					stop.Store(1)
					done <- result{i, "", err}
					return
				}
				if g := norm(p); g != want[i%len(targets)] {
					stop.Store(1)
					done <- result{i, g, nil}
					return
				}
			}
		}()
	}
	var bad result
	for k := 0; k < workers; {
		select {
		case x := <-done:
			k++
			if x.i > 0 && (bad.i == 0 || x.i < bad.i) {
				bad = x
			}
		case <-time.After(time.Second):
			r.Tick()
			if r.Expired() {
				stop.Store(1)
			}
		}
	}
	if bad.fail != nil {
		time.Sleep(200 * time.Millisecond)
		select {
		case <-w.done:
			r.Fail(c, "csweb died at search %d: %v\n%s", bad.i, bad.fail, trunc(w.errs.String(), 2000))
		default:
		}
		r.Fail(c, "csweb does not answer search %d: %v", bad.i, bad.fail)
	} else if bad.i > 0 {
		t := bad.i % len(targets)
		r.Fail(c, "search %d (%s) gets another answer than the first time: %s", bad.i, targets[t], firstDiff([]byte(bad.got), []byte(want[t])))
	}
	r.Step(int(count.Load()) - workers)
	r.Trace(true)
	r.State(h64("many searches"))
	r.Outcome("searched again and again")
}

// c22few runs csweb with few files that may be open at once, over more files and archives than that.
func (r *Run) c22few() {
	w := &c22world{name: "few open files", shows: map[string]*c22show{}, text: map[string]bool{}}
	w.tree = filepath.Join(r.Scratch, "c22few")
	w.index = w.tree + ".index"
	os.RemoveAll(w.tree)
	defer os.RemoveAll(w.tree)
	os.Remove(w.index)
	mustWrite(filepath.Join(w.tree, "000first"), []byte("first line\n"))
	for i := 0; i < 600; i++ {
		mustWrite(filepath.Join(w.tree, fmt.Sprintf("d/%d/f", i)), []byte(fmt.Sprintf("ab %d\ncd\n", i)))
	}
	for i := 0; i < 300; i++ {
		mustWrite(filepath.Join(w.tree, fmt.Sprintf("z/%d.zip", i)), c18build(func(z *zip.Writer) {
			c18add(z, &zip.FileHeader{Name: "m", Method: zip.Deflate}, fmt.Sprintf("ab zip %d\ncd\n", i))
			c18add(z, &zip.FileHeader{Name: "n"}, "cd\nab\n")
		}))
	}
	if res := r.tool(cliOpt{Index: w.index}, "cindex", "-zip", w.tree); res.Code != 0 {
		panic(harnessErr("cindex: " + res.Err))
	}
	w.w = r.startWebOpt(webServer{index: w.index, files: 32})
	defer w.w.close()
	w.learn(r, filepath.Join(w.tree, "000first"))
	for i := 0; i < 3; i++ {
		w.shows = map[string]*c22show{}
		w.walk(r, w.tree)
		for _, q := range []string{"ab", "cd", "zip", "ab [0-9]*7$|first", "zip .*3", "nosuchtext"} {
			for _, f := range []string{"", "f$", "zip", "z/.*n$", "nosuchname"} {
				w.search(r, q, f, false)
				if r.Expired() {
					return
				}
			}
		}
	}
	// The same again and again, much of it refused.
	c := &c22case{World: w.name}
	targets := []string{"/?q=zip+7", "/?q=ab+7%24&f=f", "/?q=ab&f=z/99", "/?q=%28", "/?q=ab&f=%28", "/?q=nosuchtext", showURL(w.tree + "/d/7/f"), showURL(w.tree + "/d/7"), showURL(w.tree + "/z/7.zip"), showURL(w.tree + "/nosuchfile"), "/_static/viewer.css", "/_static/nosuchfile", "/?q=first"}
	var want []string
	for i := 0; i < 6000 && !r.Expired(); i++ {
		t := i % len(targets)
		if i >= 1000 {
			t = i / 100 % len(targets) // many of a kind in a row
		}
		p := w.w.get(c, targets[t])
		s := fmt.Sprint(p.Code, c22foot.ReplaceAllString(p.Body, "\n"))
		if i < len(targets) {
			want = append(want, s)
		} else if s != want[t] {
			r.Fail(c, "with few files open at once, request %d (%s) gets another answer than the first time: %s", i, targets[t], firstDiff([]byte(s), []byte(want[t])))
		}
		r.Step(1)
	}
	r.Outcome("asked again and again with few open files")
}

// c22reindex runs csweb while the index is extended, replaced, built anew, and the files change.
func (r *Run) c22reindex() {
	tree := filepath.Join(r.Scratch, "c22re")
	ix := tree + ".index"
	os.RemoveAll(tree)
	os.Remove(ix)
	cindex := func(args ...string) {
		for i := range args {
			if !strings.HasPrefix(args[i], "-") {
				args[i] = filepath.Join(tree, args[i])
			}
		}
		if res := r.tool(cliOpt{Index: ix}, "cindex", args...); res.Code != 0 {
			panic(harnessErr("cindex: " + res.Err))
		}
	}
	put := func(f, data string) { mustWrite(filepath.Join(tree, f), []byte(data)) }
	put("000first", "first line\n")
	put("a/x", "ab one\n")
	put("b/y", "ab two\ncd\n")
	cindex("000first", "a")
	w := &c22world{name: "reindex", tree: tree, index: ix, text: map[string]bool{}}
	w.w = r.startWeb(ix)
	defer w.w.close()
	w.shows = map[string]*c22show{}
	w.learn(r, filepath.Join(tree, "000first"))
	look := func(step string) {
		w.shows = map[string]*c22show{} // the files may have changed
		for _, q := range []string{"ab", "cd", "one|two|three", "first", "new", "^$"} {
			for _, f := range []string{"", "y$", "a/"} {
				w.search(r, q, f, true)
			}
		}
		w.walk(r, tree)
		r.Outcome("after " + step)
	}
	steps := []struct {
		name string
		do   func()
	}{
		{"the start", func() {}},
		{"adding a root", func() { cindex("b") }},
		{"a changed file, not indexed again", func() { put("a/x", "ab one\nab new line\n") }},
		{"indexing again", func() { cindex() }},
		{"a new file", func() { put("b/z", "ab three\nnew\n"); cindex("b") }},
		{"a removed file", func() { os.Remove(filepath.Join(tree, "b/y")) }},
		{"indexing the rest", func() { cindex() }},
		{"-reset with other roots", func() { cindex("-reset", "b", "000first") }},
		{"deleting and building", func() { os.Remove(ix); cindex("a") }},
		{"the whole tree", func() { put("b/y", "cd\nab two again\n"); cindex("000first", "a", "b") }},
		{"a file changed without a trace", func() {
			st := must1(os.Stat(filepath.Join(tree, "b/y")))
			put("b/y", "cd\nab new again\n")
			os.Chtimes(filepath.Join(tree, "b/y"), st.ModTime(), st.ModTime())
		}},
		{"an index that looks like the last one", func() {
			st := must1(os.Stat(ix))
			cindex()
			now := must1(os.Stat(ix))
			if st.Size() == now.Size() {
				r.Outcome("an index of the same size and time")
			}
			os.Chtimes(ix, st.ModTime(), st.ModTime())
		}},
		{"an index that looks like the last one, again", func() {
			st := must1(os.Stat(ix))
			put("b/y", "cd\nab two again\n")
			cindex()
			os.Chtimes(ix, st.ModTime(), st.ModTime())
		}},
		{"an archive", func() {
			put("a/z.zip", string(c18forms[0].build()))
			put("b/z.zip", string(c18build(func(z *zip.Writer) { c18add(z, &zip.FileHeader{Name: "m"}, "ab one\nfirst\n") })))
			cindex("-zip", "a", "b")
		}},
		{"a changed archive", func() {
			put("b/z.zip", string(c18build(func(z *zip.Writer) { c18add(z, &zip.FileHeader{Name: "m"}, "ab two\nfirst one\n") })))
		}},
		{"a damaged archive", func() { put("a/z.zip", "ab one\n") }},
		{"a removed archive", func() { os.Remove(filepath.Join(tree, "b/z.zip")) }},
		{"a directory in place of a file", func() {
			os.Remove(filepath.Join(tree, "b/y"))
			put("b/y/ab", "ab\n")
		}},
		{"indexing that", func() { cindex("-zip", "a", "b") }},
		{"an index moved into place", func() {
			b := mustRead(ix)
			cindex("-reset", "a")
			mustWrite(ix+".new", b)
			os.Rename(ix+".new", ix)
		}},
	}
	for i, s := range steps {
		s.do()
		look(s.name)
		// Every step from every other, too: go back and forth between this index and an earlier one.
		if i > 0 && i%3 == 0 {
			b := mustRead(ix)
			cindex("-reset", "000first")
			look("another index")
			mustWrite(ix+".new", b)
			os.Rename(ix+".new", ix)
			look("the first again")
		}
	}
}

// c22large has files of many megabytes.
func (r *Run) c22large(mb int) {
	w := &c22world{name: "large", shows: map[string]*c22show{}, text: map[string]bool{}}
	w.tree = filepath.Join(r.Scratch, "c22large")
	w.index = w.tree + ".index"
	os.RemoveAll(w.tree)
	defer os.RemoveAll(w.tree)
	os.Remove(w.index)
	mustWrite(filepath.Join(w.tree, "000first"), []byte("first line\n"))
	var b strings.Builder
	for i := 1; b.Len() < mb<<20; i++ {
		fmt.Fprintf(&b, "%d ", i)
		b.WriteString(strings.Repeat("large file ", 150))
		if i%1000 == 0 {
			b.WriteString("ab ")
		}
		b.WriteString("\n")
	}
	b.WriteString("ab last\n")
	mustWrite(filepath.Join(w.tree, "l"), []byte(b.String()))
	if res := r.tool(cliOpt{Index: w.index}, "cindex", w.tree); res.Code != 0 {
		panic(harnessErr("cindex: " + res.Err))
	}
	w.w = r.startWeb(w.index)
	defer w.w.close()
	w.learn(r, filepath.Join(w.tree, "000first"))
	w.walk(r, w.tree)
	w.search(r, "ab", "", true)
	w.search(r, "last|first", "", true)
	r.Sample("a page of %d MB", mb)
}

func init() {
	register(&Prop{
		ID: "C22", Level: "model_checking",
		Rule: "A case is one page of csweb (a search, a file, a directory) over a tree containing every content of up to 4 (thorough: 5) lines of 5 kinds, every name made of a markup or URL piece, and files at every digit boundary of line numbers. Non-trivial: the page lists something.",
		Assumptions: []string{
			"matches inside archives are compared with csearch's but their links are not followed (csweb does not show archives)",
			"files with control characters or U+FFFD in their first kilobyte are not shown as text, so their links are not followed to a line",
		},
		Jobs: func(tier string) (jobs []Job) {
			ws := []string{"small", "names", "long", "limit", "odd", "archives", "marks", "verbose"}
			if tier == "thorough" {
				ws[0] = "small5"
			}
			for _, n := range ws {
				jobs = append(jobs, Job{n, func(r *Run) { r.c22run(n) }})
			}
			mb := 34
			if tier == "thorough" {
				mb = 300
			}
			jobs = append(jobs, Job{"many searches", (*Run).c22many}, Job{"reindex", (*Run).c22reindex}, Job{"few open files", (*Run).c22few}, Job{"large", func(r *Run) { r.c22large(mb) }})
			return
		},
		Replay: func(r *Run, b json.RawMessage) {
			c := caseOf[c22case](b)
			switch c.World {
			case "many searches":
				r.c22many()
			case "few open files":
				r.c22few()
			case "reindex":
				r.c22reindex()
			case "large":
				r.c22large(34)
			default:
				r.c22run(c.World)
			}
		},
	})
}
