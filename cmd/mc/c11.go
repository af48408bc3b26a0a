package main

import (
	"archive/zip"
	"bytes"
	"compress/flate"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"unicode/utf8"

	"github.com/google/codesearch/index"
)

// C11: which files are indexed. Contents are enumerated around every rule, added to one writer in
// bulk and in all short orders of accepted and rejected files.

type verdict int

const (
	mustAccept verdict = iota
	mustReject
	free
)

// impossiblePair reports whether no multi-byte encoding of the UTF-8 kind has byte b right after a.
func impossiblePair(a, b byte) bool {
	cont := func(x byte) bool { return 0x80 <= x && x < 0xc0 }
	lead := func(x byte) bool { return 0xc0 <= x && x < 0xf8 }
	if b >= 0xf8 || a >= 0xf8 {
		return true
	}
	if lead(a) {
		return !cont(b)
	}
	return a < 0x80 && cont(b)
}

// classify applies the stated rules.
func classify(s string) verdict {
	if strings.IndexByte(s, 0) >= 0 {
		return mustReject
	}
	prev := byte('a')
	for i := 0; i < len(s); i++ {
		if impossiblePair(prev, s[i]) {
			return mustReject
		}
		prev = s[i]
	}
	long, longNL := false, false
	for _, l := range strings.SplitAfter(s, "\n") {
		longNL = longNL || len(l) > 2000
		long = long || len(strings.TrimSuffix(l, "\n")) > 2000
	}
	if long || len(s) > 1<<30 {
		return mustReject
	}
	if len(s) > 20000 && len(trigramsOf(s)) > 20000 {
		return mustReject
	}
	if longNL || !utf8.ValidString(s) {
		return free
	}
	return mustAccept
}

type c11file struct {
	Name  string
	Gen   string `json:",omitempty"` // "", or a generator of the content
	Args  []int  `json:",omitempty"`
	Hex   string `json:",omitempty"`
	data  string
	Fail  int  `json:",omitempty"` // 1+number of bytes after which the read fails (0: never)
	With  bool `json:",omitempty"` // the failure comes together with the last bytes
	Err   int  `json:",omitempty"` // which error; see c11errs
	Sizes []int
}

// c11errs are the errors readers report other than the end of the file.
var c11errs = []error{errRead, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortBuffer, syscall.EIO, syscall.EINTR, syscall.EAGAIN, syscall.EISDIR,
	os.ErrClosed, os.ErrDeadlineExceeded, &fs.PathError{Op: "read", Path: "x", Err: syscall.EIO}, zip.ErrChecksum, zip.ErrFormat, flate.CorruptInputError(3)}

type c11case struct {
	Files []c11file
	Alone bool // also compare with the index of the accepted files alone
}

func (f *c11file) content() string {
	if f.data != "" {
		return f.data
	}
	switch f.Gen {
	case "":
		var b []byte
		fmt.Sscanf(f.Hex, "%x", &b)
		f.data = string(b)
	case "line": // line of Args[0] bytes among Args[1] short lines before, Args[2] after; Args[3]: newline at its end
		l := strings.Repeat("k", f.Args[0])
		f.data = strings.Repeat("ab\n", f.Args[1]) + l
		if f.Args[3] > 0 {
			f.data += "\n"
		}
		f.data += strings.Repeat("cd\n", f.Args[2])
	case "lineof": // a line of Args[0] bytes, where Args[1] says how character Args[2] is used
		x := string(rune(f.Args[2]))
		n := f.Args[0]
		switch f.Args[1] {
		case 0: // all of it
			f.data = strings.Repeat(x, n/len(x)) + strings.Repeat("k", n%len(x))
		case 1: // in the middle
			f.data = strings.Repeat("k", n/2) + x + strings.Repeat("k", n-n/2-len(x))
		case 2: // at the start and the end
			f.data = x + strings.Repeat("k", n-2*len(x)) + x
		}
		f.data = "ab\n" + f.data + "\ncd\n"
	case "tri": // exactly Args[0] distinct trigrams
		f.data = triText(f.Args[0])
	case "across": // a line of Args[0] bytes that begins Args[1] bytes before the end of the 1 MB input buffer
		f.data = gfill((1<<20)*max(1, f.Args[2])-f.Args[1], 100)
		f.data = f.data[:len(f.data)-1] + "\n" + strings.Repeat("k", f.Args[0]) + "\n" + gfill(1<<20+100, 64) + "\nend\n"
	case "edge": // text Args[1:] (rune values) laid Args[0] bytes before the end of the 1 MB input buffer
		t := ""
		for _, x := range f.Args[1:] {
			if x < 0 {
				t += string([]byte{byte(-x)})
			} else {
				t += string(rune(x))
			}
		}
		f.data = gfill(1<<20-f.Args[0], 100) + t
	default:
		panic(harnessErr("unknown generator"))
	}
	return f.data
}

// triText has exactly n distinct trigrams, in lines shorter than the limit.
func triText(n int) string {
	d := deBruijn(c07letters, n+10)
	var b strings.Builder
	seen := map[string]bool{}
	ll := 0
	for i := 0; i < len(d) && len(seen) < n; i++ {
		b.WriteByte(d[i])
		ll++
		s := b.String()
		if b.Len() >= 3 {
			seen[s[b.Len()-3:]] = true
		}
		if ll > 1500 && len(seen) < n-2 {
			b.WriteByte('\n')
			ll = 0
			s := b.String()
			seen[s[b.Len()-3:]] = true
		}
	}
	s := b.String()
	if got := len(trigramsOf(s)); got != n {
		panic(harnessErr(fmt.Sprintf("triText(%d) has %d", n, got)))
	}
	return s
}

func c11reader(f *c11file) io.Reader {
	d := f.content()
	cr := &chunkReader{sizes: f.Sizes}
	if f.Fail > 0 {
		d = d[:min(len(d), f.Fail-1)]
		cr.err = c11errs[f.Err]
		cr.with = f.With
	}
	cr.data = []byte(d)
	return cr
}

func validName(n string) bool {
	for i := 0; i < len(n); i++ {
		if n[i] < ' ' {
			return false
		}
	}
	return n != ""
}

// c11check adds the files in order and compares the index with the rules.
func c11check(r *Run, c *c11case) (accepted int) {
	name := filepath.Join(r.Scratch, "ix")
	w := index.Create(name)
	for i := range c.Files {
		f := &c.Files[i]
		if i%512 == 0 {
			r.Tick()
		}
		var err error
		r.must(c, fmt.Sprintf("Add(%q)", f.Name), func() { err = w.Add(f.Name, c11reader(f)) })
		wantErr := f.Fail > 0 || !validName(f.Name)
		if f.Fail > 0 && classify(f.content()[:min(len(f.content()), f.Fail-1)]) != mustAccept {
			wantErr = err != nil // rejected before the failure is seen
		}
		if (err != nil) != wantErr {
			r.Fail(c11sub(c, i), "Add(%q) of %d bytes returned %v, want an error: %v", f.Name, len(f.content()), err, wantErr)
		}
		r.Step(1)
	}
	r.must(c, "Flush", func() { w.Flush() })
	releaseWriter(w)
	r.must(c, "reading", func() {
		ix, done := openIndex(name)
		defer done()
		got := pathsOf(ix.NamesAt(0, 1<<30))
		in := map[string]bool{}
		for _, n := range got {
			in[n] = true
		}
		var keep []file
		for i := range c.Files {
			f := &c.Files[i]
			v := classify(f.content())
			if f.Fail > 0 || !validName(f.Name) {
				v = mustReject
			}
			if v == mustAccept && !in[f.Name] {
				r.Fail(c11sub(c, i), "file %q (%d bytes) is within the limits but not indexed", f.Name, len(f.content()))
			}
			if v == mustReject && in[f.Name] {
				r.Fail(c11sub(c, i), "file %q (%d bytes) is indexed although the rules exclude it", f.Name, len(f.content()))
			}
			if in[f.Name] {
				keep = append(keep, file{f.Name, f.content()})
			}
		}
		accepted = len(keep)
		if err := compareIndex(ix, modelIndex(nil, keep), nil); err != nil {
			r.Fail(c, "%v", err)
		}
		if c.Alone {
			alone := filepath.Join(r.Scratch, "alone")
			buildIndex(alone, nil, keep, buildOpt{})
			if a, b := mustRead(name), mustRead(alone); !bytes.Equal(a, b) {
				r.Fail(c, "rejected files left a trace: the index differs from that of the accepted files alone: %s", firstDiff(a, b))
			}
		}
	})
	return
}

// c11sub narrows a large case to one file.
func c11sub(c *c11case, i int) *c11case {
	if len(c.Files) < 10 {
		return c
	}
	f := c.Files[i]
	return &c11case{Files: []c11file{f}}
}

func hexOf(s string) string { return fmt.Sprintf("%x", s) }

func c11contents(r *Run, label string, ss []string, sizes []int) {
	c := &c11case{Alone: true}
	for i, s := range ss {
		c.Files = append(c.Files, c11file{Name: fmt.Sprintf("f%08d", i), Hex: hexOf(s), data: s, Sizes: sizes})
	}
	r.At(label)
	n := c11check(r, c)
	r.Traces += uint64(len(ss))
	r.Nontrivial += uint64(len(ss) - n)
	r.State(h64(label))
	r.Outcome("bulk: " + strings.SplitN(label, " ", 2)[0])
	r.Sample("%s: %d contents, %d indexed", label, len(ss), n)
}

// genReader produces n bytes of short lines without storing them.
type genReader struct {
	n   int64
	pos int64
	r   *Run
}

func (g *genReader) Read(p []byte) (int, error) {
	if g.pos >= g.n {
		return 0, io.EOF
	}
	g.r.Tick()
	n := int(min(int64(len(p)), g.n-g.pos))
	for i := 0; i < n; i++ {
		p[i] = 'q'
		if (g.pos+int64(i))%64 == 63 {
			p[i] = '\n'
		}
	}
	g.pos += int64(n)
	return n, nil
}

func c11jobs(tier string) []Job {
	thorough := tier == "thorough"
	var jobs []Job
	for d := int64(-1); d <= 1; d++ {
		n := int64(1<<30) + d
		jobs = append(jobs, Job{fmt.Sprintf("length %d", n), func(r *Run) { c11long(r, n) }})
	}
	// All byte pairs, in three contexts.
	jobs = append(jobs, shardJobs("pairs", 16, func(r *Run, s, k int) {
		var ss []string
		for a := s; a < 256; a += k {
			for b := 0; b < 256; b++ {
				p := string([]byte{byte(a), byte(b)})
				ss = append(ss, p, "x"+p+"y", p+"\x80", "x"+p+"\x80\x80y")
			}
		}
		c11contents(r, fmt.Sprintf("pairs shard %d", s), ss, nil)
		c11contents(r, fmt.Sprintf("pairs-bytewise shard %d", s), ss[:len(ss)/4], []int{1})
	})...)
	reps := []byte{0x00, 0x01, '\n', 'a', 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xf7, 0xf8, 0xff}
	jobs = append(jobs, shardJobs("sequences", 32, func(r *Run, s, k int) {
		var ss []string
		l := 3
		if thorough {
			l = 4
		}
		n := 1
		for i := 0; i < l; i++ {
			n *= len(reps)
		}
		for i := s; i < n; i += k {
			b := make([]byte, l)
			x := i
			for j := range b {
				b[j] = reps[x%len(reps)]
				x /= len(reps)
			}
			ss = append(ss, string(b))
			if len(ss) == 20000 {
				c11contents(r, fmt.Sprintf("sequences shard %d to %d", s, i), ss, nil)
				ss = nil
				if r.Expired() {
					return
				}
			}
		}
		c11contents(r, fmt.Sprintf("sequences shard %d", s), ss, nil)
	})...)
	// Limits, alone and between other files.
	var lim []c11file
	for _, n := range []int{1998, 1999, 2000, 2001, 2002, 4000, 70000} {
		for _, b := range []int{0, 1, 5} {
			for _, a := range []int{0, 2} {
				for _, nl := range []int{0, 1} {
					if a > 0 && nl == 0 {
						continue
					}
					lim = append(lim, c11file{Gen: "line", Args: []int{n, b, a, nl}})
				}
			}
		}
	}
	for _, n := range []int{0, 1, 2, 3, 19998, 19999, 20000, 20001, 20002, 40000} {
		lim = append(lim, c11file{Gen: "tri", Args: []int{n}})
	}
	for i := range lim {
		f := lim[i]
		f.Name = "m"
		jobs = append(jobs, Job{fmt.Sprintf("limit %s%v", f.Gen, f.Args), func(r *Run) {
			for v, sz := range [][]int{nil, {1}, {1999, 1, 7}, {3, 2000}} {
				g := f
				g.Sizes = sz
				c := &c11case{Files: []c11file{g}, Alone: v == 0}
				if v%2 == 1 {
					c.Files = []c11file{{Name: "a", Hex: hexOf("first abc")}, g, {Name: "z", Hex: hexOf("last abc")}}
					c.Alone = true
				}
				r.At(c)
				n := c11check(r, c)
				r.Trace(true)
				r.Outcome(fmt.Sprintf("limit case, %d of %d indexed", n, len(c.Files)))
			}
		}})
	}
	// Only a newline ends a line, and every byte counts.
	jobs = append(jobs, shardJobs("line of", 8, func(r *Run, s, k int) {
		var xs []int
		for x := 1; x < 128; x++ {
			if x != '\n' {
				xs = append(xs, x)
			}
		}
		xs = append(xs, 0x85, 0xa0, 0xe9, 0x2028, 0x2029, 0x200b, 0xfeff, 0x65e5, 0xfffd, 0x1f600)
		for i, x := range xs {
			if i%k != s {
				continue
			}
			c := &c11case{Alone: true}
			for how := 0; how < 3; how++ {
				for _, n := range []int{1999, 2001, 2002, 2600, 5000} {
					c.Files = append(c.Files, c11file{Name: fmt.Sprintf("f%02d", len(c.Files)), Gen: "lineof", Args: []int{n, how, x}})
				}
			}
			r.At(c)
			a := c11check(r, c)
			r.Trace(true)
			r.State(h64(fmt.Sprint("line of ", x)))
			r.Outcome(fmt.Sprintf("long lines with an unusual character, %d of %d indexed", a, len(c.Files)))
		}
	})...)
	// Lines and trigrams counted across the end of the input buffer.
	jobs = append(jobs, shardJobs("across", 16, func(r *Run, s, k int) {
		n := 0
		for _, l := range []int{1998, 1999, 2000, 2001, 2002, 3000} {
			for _, d := range []int{0, 1, 2, 3, 500, 1000, 1998, 1999, 2000, 2001} {
				for m := 1; m <= 2; m++ {
					for _, sz := range [][]int{nil, {4096}, {1<<20 - 1, 1}} {
						n++
						if n%k != s {
							continue
						}
						c := &c11case{Files: []c11file{{Name: "e", Gen: "across", Args: []int{l, d, m}, Sizes: sz}}}
						r.At(c)
						a := c11check(r, c)
						r.Trace(true)
						r.Outcome(fmt.Sprintf("line across the end of the input buffer, %d indexed", a))
					}
				}
			}
		}
	})...)
	// All orders of kinds of files.
	kinds := []c11file{
		{Hex: hexOf("abcdef")}, {Hex: hexOf("abxyz\n")}, {Hex: ""}, {Hex: hexOf("ab\x00cd")}, {Hex: hexOf("pqr\xff")},
		{Gen: "line", Args: []int{2001, 1, 1, 1}}, {Gen: "tri", Args: []int{20001}}, {Hex: hexOf("never read"), Fail: 1}, {Hex: hexOf("partly read"), Fail: 8},
		{Hex: hexOf("whole but failing"), Fail: 100, With: true}, {Name: "bad\x01name", Hex: hexOf("abcdef")}, {Name: "\x1f", Hex: hexOf("abc")},
	}
	depth := 3
	if thorough {
		depth = 4
	}
	jobs = append(jobs, shardJobs("orders", 32, func(r *Run, s, k int) {
		n := 0
		var rec func(cur []int)
		rec = func(cur []int) {
			n++
			if n%k == s && len(cur) > 0 {
				if r.Expired() {
					return
				}
				c := &c11case{Alone: true}
				for i, x := range cur {
					f := kinds[x]
					if f.Name == "" {
						f.Name = fmt.Sprintf("f%d", i)
					} else {
						f.Name = fmt.Sprintf("f%d%s", i, f.Name)
					}
					c.Files = append(c.Files, f)
				}
				r.At(c)
				a := c11check(r, c)
				r.Trace(a < len(cur))
				r.State(h64(fmt.Sprint(cur)))
				r.Outcome(fmt.Sprintf("order of %d files, %d indexed", len(cur), a))
			}
			if len(cur) == depth {
				return
			}
			for x := range kinds {
				rec(append(append([]int{}, cur...), x))
			}
		}
		rec(nil)
	})...)
	// Every read-failure position of some contents.
	jobs = append(jobs, shardJobs("failures", 8, func(r *Run, s, k int) {
		n := 0
		for _, t := range []string{"abcdef\n", "\u65e5\u672c", "ab\x00cd", "a\xffb", "x"} {
			for at := 0; at <= len(t); at++ {
				for _, with := range []bool{false, true} {
					for _, sz := range [][]int{nil, {1}, {2}} {
						for e := range c11errs {
							n++
							if n%k != s {
								continue
							}
							c := &c11case{Alone: true, Files: []c11file{{Name: "a", Hex: hexOf("abc ok")}, {Name: "b", Hex: hexOf(t), Fail: at + 1, With: with, Sizes: sz, Err: e}, {Name: "c", Hex: hexOf("def ok")}}}
							r.At(c)
							c11check(r, c)
							r.Trace(true)
						}
					}
				}
			}
		}
	})...)
	// Names: every byte in three positions.
	jobs = append(jobs, Job{"names", func(r *Run) {
		for pos := 0; pos < 3; pos++ {
			c := &c11case{Alone: true}
			for b := 0; b < 256; b++ {
				n := []byte("bbb")
				n[pos] = byte(b)
				if b == '/' {
					continue
				}
				c.Files = append(c.Files, c11file{Name: string(n), Hex: hexOf("name test"), data: "name test"})
			}
			r.At(fmt.Sprintf("names, position %d", pos))
			c11check(r, c)
			r.Trace(true)
		}
		c := &c11case{Alone: true, Files: []c11file{{Name: "", Hex: hexOf("abc")}, {Name: "dir/\x02/x", Hex: hexOf("abc")}, {Name: "dir/a", Hex: hexOf("abc")}}}
		c11check(r, c)
		// AddFile
		w := index.Create(filepath.Join(r.Scratch, "af"))
		dir := filepath.Join(r.Scratch, "afdir")
		mustWrite(dir+"/a", []byte("added by name"))
		var err1, err2, err3 error
		r.must("AddFile", "AddFile", func() {
			err1 = w.AddFile(dir + "/a")
			err2 = w.AddFile(dir + "/missing")
			os.Mkdir(dir+"/sub", 0777)
			err3 = w.AddFile(dir + "/sub")
			w.Flush()
		})
		if err1 != nil || err2 == nil || err3 == nil {
			r.Fail("AddFile", "AddFile of a file, a missing file, a directory: %v, %v, %v", err1, err2, err3)
		}
		r.must("AddFile", "reading", func() {
			ix, done := openIndex(filepath.Join(r.Scratch, "af"))
			defer done()
			if err := compareIndex(ix, modelIndex(nil, []file{{dir + "/a", "added by name"}}), nil); err != nil {
				r.Fail("AddFile", "%v", err)
			}
		})
		r.Trace(true)
	}})
	// Texts across the end of the input buffer.
	alpha := []int{'a', '\n', 0xe9, 0x65e5, 0x1f600, 0, -0xff, -0x80}
	tl := 2
	if thorough {
		tl = 3
	}
	jobs = append(jobs, shardJobs("buffer-edge", 24, func(r *Run, s, k int) {
		n := 0
		var texts [][]int
		texts = append(texts, nil)
		last := texts
		for l := 0; l < tl; l++ {
			var next [][]int
			for _, t := range last {
				for _, a := range alpha {
					next = append(next, append(append([]int{}, t...), a))
				}
			}
			texts = append(texts, next...)
			last = next
		}
		for _, t := range texts {
			for d := 0; d <= 5; d++ {
				n++
				if n%k != s {
					continue
				}
				if r.Expired() {
					return
				}
				c := &c11case{Files: []c11file{{Name: "e", Gen: "edge", Args: append([]int{d}, t...)}}}
				r.At(c)
				c11check(r, c)
				r.Trace(true)
				r.Outcome("text across the end of the input buffer")
			}
		}
	})...)
	return jobs
}

func c11long(r *Run, n int64) {
	name := filepath.Join(r.Scratch, "long")
	c := fmt.Sprintf("length %d", n)
	r.At(c)
	var err error
	r.must(c, "long file", func() {
		w := index.Create(name)
		w.Add("a", strings.NewReader("abc"))
		err = w.Add("b", &genReader{n: n, r: r})
		w.Add("c", strings.NewReader("abd"))
		w.Flush()
		releaseWriter(w)
	})
	if err != nil {
		r.Fail(c, "Add: %v", err)
	}
	r.must(c, "reading", func() {
		ix, done := openIndex(name)
		defer done()
		files := []file{{"a", "abc"}, {"b", strings.Repeat("q", 63) + "\n" + strings.Repeat("q", 63) + "\nqqq"}, {"c", "abd"}}
		if n > 1<<30 {
			files = []file{files[0], files[2]}
		}
		if err := compareIndex(ix, modelIndex(nil, files), nil); err != nil {
			r.Fail(c, "%v", err)
		}
	})
	r.Trace(true)
	r.Outcome(fmt.Sprintf("file of 1 GB%+d bytes", n-1<<30))
}

func init() {
	register(&Prop{
		ID:    "C11",
		Level: "model_checking",
		Rule:  "contents: all 65,536 byte pairs in four contexts, all sequences of 3 (4) bytes over 26 representatives, every limit at limit-2..limit+2 with several read splittings, 1 GB-1, 1 GB, 1 GB+1; all orders of up to 3 (4) files over 12 kinds of accepted, rejected and failing files; every read-failure position with 15 different errors; every byte in a name; texts across the end of the 1 MB input buffer. The index must also equal, byte for byte, that of the accepted files alone. A trace is one content or order, non-trivial when something is rejected",
		Assumptions: []string{"contents that are neither valid UTF-8 nor contain a structurally impossible byte pair, and a 2000-byte line whose newline makes it 2001 bytes, may be accepted or rejected",
			"a read failure after bytes that already exclude the file may or may not be reported"},
		Jobs: c11jobs,
		Replay: func(r *Run, raw json.RawMessage) {
			var s string
			if json.Unmarshal(raw, &s) == nil {
				var n int64
				if _, err := fmt.Sscanf(s, "length %d", &n); err == nil {
					c11long(r, n)
					return
				}
				for _, j := range c11jobs(r.Tier) {
					if strings.HasPrefix(j.Name, strings.SplitN(s, " ", 2)[0]) || j.Name == "names" {
						j.F(r)
					}
				}
				return
			}
			c := caseOf[c11case](raw)
			c11check(r, &c)
		},
	})
}
