package main

import (
	"archive/zip"
	"bytes"
	"compress/flate"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/crc32"
	"io"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// C18: archives with all member pairs over name shapes x kinds, all truncations and byte changes of an archive,
// and all short histories of changing and re-indexing archives, on the real cindex -zip and csearch, against
// the stated rule applied to what Go's archive/zip finds in the same bytes.

type c18member struct {
	Name string
	Kind string // text, text2, empty, bin, deflate, crc, cut, method, dir
}

type c18case struct {
	Members []c18member `json:",omitempty"`
	Cut     int         `json:",omitempty"` // keep this many bytes (0: all)
	Flip    int         `json:",omitempty"` // 1 + position of a changed byte
	Bit     int         `json:",omitempty"`
	History []string    `json:",omitempty"`
	Form    string      `json:",omitempty"` // an archive of an unusual form; see c18forms
}

// c18forms are archives that use more of the format.
var c18forms = []struct {
	name  string
	build func() []byte
}{
	{"comment", func() []byte {
		return c18build(func(z *zip.Writer) {
			z.SetComment("text in a comment\nline 2")
			c18add(z, &zip.FileHeader{Name: "m"}, "text\n")
		})
	}},
	{"long comment", func() []byte {
		return c18build(func(z *zip.Writer) {
			z.SetComment(strings.Repeat("text\n", 13000))
			c18add(z, &zip.FileHeader{Name: "m"}, "text\n")
		})
	}},
	{"prefix", func() []byte {
		return append([]byte("#!/bin/sh\necho text\nexit\n"), c18build(func(z *zip.Writer) { c18add(z, &zip.FileHeader{Name: "m", Method: zip.Deflate}, "text\nline 2\n") })...)
	}},
	{"prefix, offsets adjusted", func() []byte {
		pre := "#!/bin/sh\necho text\nexit\n"
		return append([]byte(pre), c18build(func(z *zip.Writer) {
			z.SetOffset(int64(len(pre)))
			c18add(z, &zip.FileHeader{Name: "m", Method: zip.Deflate}, "text\nline 2\n")
		})...)
	}},
	{"suffix", func() []byte {
		return append(c18build(func(z *zip.Writer) { c18add(z, &zip.FileHeader{Name: "m"}, "text\n") }), "text after the archive\n"...)
	}},
	{"modes", func() []byte {
		return c18build(func(z *zip.Writer) {
			for i, m := range []os.FileMode{0644, 0, 0755, os.ModeSymlink | 0777, os.ModeSetuid | 0755, os.ModeDir | 0755, os.ModeNamedPipe | 0600, os.ModeDevice | 0600, os.ModeSticky | 0777} {
				h := &zip.FileHeader{Name: fmt.Sprintf("m%d", i), Method: zip.Deflate}
				h.SetMode(m)
				c18add(z, h, fmt.Sprintf("text of mode %d\n", i))
			}
		})
	}},
	{"header fields", func() []byte {
		return c18build(func(z *zip.Writer) {
			c18add(z, &zip.FileHeader{Name: "comment", Comment: "text"}, "text 1\n")
			c18add(z, &zip.FileHeader{Name: "extra", Extra: []byte{0x99, 0x99, 4, 0, 1, 2, 3, 4}}, "text 2\n")
			c18add(z, &zip.FileHeader{Name: "old", Modified: time.Date(1980, 1, 1, 0, 0, 0, 0, time.UTC), Method: zip.Deflate}, "text 3\n")
			c18add(z, &zip.FileHeader{Name: "new", Modified: time.Date(2107, 1, 1, 0, 0, 0, 0, time.UTC)}, "text 4\n")
			c18add(z, &zip.FileHeader{Name: "caf\xe9", NonUTF8: true}, "text 5\n")
			c18add(z, &zip.FileHeader{Name: "dos", CreatorVersion: 0, ExternalAttrs: 0x10}, "text 6\n")
			c18add(z, &zip.FileHeader{Name: "mac", CreatorVersion: 19 << 8, ExternalAttrs: 0x41ed << 16}, "text 7\n")
		})
	}},
	{"raw with flags", func() []byte {
		return c18build(func(z *zip.Writer) {
			for i, fl := range []uint16{0, 1, 2, 4, 8, 0x10, 0x20, 0x40, 0x800, 0x2000} {
				t := fmt.Sprintf("text of flag %d\n", i)
				w, err := z.CreateRaw(&zip.FileHeader{Name: fmt.Sprintf("f%d", i), Flags: fl, CRC32: crc32.ChecksumIEEE([]byte(t)), CompressedSize64: uint64(len(t)), UncompressedSize64: uint64(len(t))})
				if err != nil {
					panic(harnessErr(err.Error()))
				}
				io.WriteString(w, t)
			}
		})
	}},
	{"levels", func() []byte {
		var out []byte
		for l := -2; l <= 9; l++ {
			b := c18build(func(z *zip.Writer) {
				z.RegisterCompressor(zip.Deflate, func(w io.Writer) (io.WriteCloser, error) { return flate.NewWriter(w, l) })
				for n := 0; n < 12; n++ {
					c18add(z, &zip.FileHeader{Name: fmt.Sprintf("l%d", n), Method: zip.Deflate}, strings.Repeat(fmt.Sprintf("text at level %d\nline 2\n", l), 1<<n))
				}
			})
			if l == -2 {
				out = b
			}
			if l == 9 {
				return b
			}
		}
		return out
	}},
	{"large members", func() []byte {
		return c18build(func(z *zip.Writer) {
			var b strings.Builder
			for i := 0; b.Len() < 3<<20; i++ {
				fmt.Fprintf(&b, "%d of many\n", i)
			}
			for _, m := range []uint16{zip.Store, zip.Deflate} {
				for _, n := range []int{1<<15 - 1, 1 << 15, 1 << 16, 1<<20 - 9, 1 << 20, 1<<20 + 1, 3 << 20} {
					c18add(z, &zip.FileHeader{Name: fmt.Sprintf("%d/%d", m, n), Method: m}, b.String()[:n-9]+"\nlast text")
				}
			}
		})
	}},
	{"long names", func() []byte {
		return c18build(func(z *zip.Writer) {
			for _, n := range []int{127, 128, 255, 256, 257, 1023, 4095, 4096, 4097, 16383, 16384, 60000} {
				c18add(z, &zip.FileHeader{Name: strings.Repeat("n", n)}, fmt.Sprintf("text under a name of %d\n", n))
				c18add(z, &zip.FileHeader{Name: strings.Repeat("d/", n/2)}, "")
				c18add(z, &zip.FileHeader{Name: strings.Repeat("e/", n/2) + "x"}, "text far down\n")
			}
		})
	}},
	{"archives inside", func() []byte {
		in := c18build(func(z *zip.Writer) { c18add(z, &zip.FileHeader{Name: "inner"}, "text inside\n") })
		return c18build(func(z *zip.Writer) {
			c18add(z, &zip.FileHeader{Name: "in.zip"}, string(in))
			c18add(z, &zip.FileHeader{Name: "text.zip"}, "text that is no archive\n")
			c18add(z, &zip.FileHeader{Name: "text.zip/x"}, "text below it\n")
			c18add(z, &zip.FileHeader{Name: ".hidden"}, "text hidden?\n")
			c18add(z, &zip.FileHeader{Name: "~/back~"}, "text back\n")
			c18add(z, &zip.FileHeader{Name: "#x#"}, "text hash\n")
			c18add(z, &zip.FileHeader{Name: "__MACOSX/._x"}, "text of the Mac\n")
			c18add(z, &zip.FileHeader{Name: "META-INF/MANIFEST.MF"}, "text of Java\r\n")
		})
	}},
	{"many members", func() []byte { // needs the 64-bit directory
		return c18build(func(z *zip.Writer) {
			for i := 0; i < 66000; i++ {
				t := "x\n"
				if i%6000 == 5999 {
					t = fmt.Sprintf("text of member %d\n", i)
				}
				c18add(z, &zip.FileHeader{Name: fmt.Sprintf("%05d", i*7919%66000)}, t)
			}
		})
	}},
	{"64-bit sizes", func() []byte {
		return c18build(func(z *zip.Writer) {
			t := "text with long sizes\n"
			ex := make([]byte, 20)
			binary.LittleEndian.PutUint16(ex, 1)
			binary.LittleEndian.PutUint16(ex[2:], 16)
			binary.LittleEndian.PutUint64(ex[4:], uint64(len(t)))
			binary.LittleEndian.PutUint64(ex[12:], uint64(len(t)))
			c18add(z, &zip.FileHeader{Name: "extra", Extra: ex}, t)
			c18add(z, &zip.FileHeader{Name: "plain"}, t)
		})
	}},
}

func c18build(f func(z *zip.Writer)) []byte {
	var buf bytes.Buffer
	z := zip.NewWriter(&buf)
	f(z)
	z.Close()
	return buf.Bytes()
}

func c18add(z *zip.Writer, h *zip.FileHeader, text string) {
	w, err := z.CreateHeader(h)
	if err != nil {
		panic(harnessErr(err.Error()))
	}
	io.WriteString(w, text)
}

// c18form indexes an archive of an unusual form, under several names.
func c18form(r *Run, form string) {
	c := &c18case{Form: form}
	r.At(c)
	for _, f := range c18forms {
		if f.name != form {
			continue
		}
		data := f.build()
		w := r.c18world()
		w.put("d.zip/plain.txt", "text in a directory\n")
		w.put("s/x.zipx", "text\n")
		w.put("s/zip", "text\n")
		w.put("s/x.zip~x", "text\n")
		w.put("s/xzip", "text\n")
		w.putZip("m.zip", data)
		if len(data) < 1<<20 {
			w.putZip("d.zip/in.zip", data)
			w.putZip("d.zip/in.zip.zip", data)
			w.putZip("sp ace%s.zip", data)
			mustWrite(filepath.Join(w.tree, "up.ZIP"), append([]byte{0}, data...))
			mustWrite(filepath.Join(w.tree, ".zip"), data)
		}
		c18index(r, c, w, func(string) {})
		r.State(h64("form" + form))
		r.Outcome("unusual form")
		os.RemoveAll(w.base)
	}
}

func c18zip(ms []c18member) []byte {
	var buf bytes.Buffer
	z := zip.NewWriter(&buf)
	for i, m := range ms {
		text := fmt.Sprintf("text of member %d\nline 2 %s\n", i, strings.Repeat("ab ", i))
		raw := func(h *zip.FileHeader, data string) {
			h.CompressedSize64 = uint64(len(data))
			h.UncompressedSize64 = uint64(len(text))
			w, err := z.CreateRaw(h)
			if err != nil {
				panic(harnessErr(err.Error()))
			}
			io.WriteString(w, data)
		}
		h := &zip.FileHeader{Name: m.Name, Method: zip.Store, CRC32: crc32.ChecksumIEEE([]byte(text))}
		switch m.Kind {
		case "text", "deflate", "dir", "empty", "bin":
			h := &zip.FileHeader{Name: m.Name, Method: zip.Store}
			switch m.Kind {
			case "deflate":
				h.Method = zip.Deflate
			case "bin":
				text = "ab\x00cd"
			case "empty", "dir":
				text = ""
			}
			w, err := z.CreateHeader(h)
			if err != nil {
				panic(harnessErr(err.Error()))
			}
			io.WriteString(w, text)
		case "crc":
			h.CRC32++
			raw(h, text)
		case "cut":
			h.Method = zip.Deflate
			raw(h, "\x4a\x4c")
		case "method":
			h.Method = 99
			raw(h, text)
		}
	}
	z.Close()
	return buf.Bytes()
}

// c18want is what indexing the archive bytes must give: members by name. Names in maybe are not judged.
func c18want(arch string, data []byte) (files []file, maybe map[string]bool, damaged bool) {
	maybe = map[string]bool{}
	z, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
	if err != nil {
		return nil, maybe, true
	}
	last := map[string]*zip.File{}
	count := map[string]int{}
	for _, f := range z.File {
		last[f.Name] = f
		count[f.Name]++
	}
	for n, f := range last {
		full := arch + "\x01" + n
		if n == "" || strings.ContainsFunc(n, func(c rune) bool { return c < ' ' }) {
			continue
		}
		rc, err := f.Open()
		if err != nil {
			if count[n] > 1 {
				maybe[full] = true // which of several members of one name counts is open if one is damaged
			}
			continue
		}
		d, err := io.ReadAll(rc)
		rc.Close()
		if strings.HasSuffix(n, "/") {
			maybe[full] = true // a directory entry is not a text member, but may be listed as empty
			continue
		}
		if err != nil {
			if count[n] > 1 {
				maybe[full] = true
			}
			continue
		}
		if bytes.IndexByte(d, 0) >= 0 {
			if count[n] > 1 {
				maybe[full] = true
			}
			continue
		}
		files = append(files, file{full, string(d)})
	}
	sortFiles(files)
	return files, maybe, false
}

type c18world struct {
	base, tree, ix string
	arch           map[string][]byte // relative name -> bytes of archives
	plain          map[string]string // other files
}

func (r *Run) c18world() *c18world {
	w := &c18world{base: filepath.Join(r.Scratch, "c18"), arch: map[string][]byte{}, plain: map[string]string{}}
	w.tree, w.ix = filepath.Join(w.base, "tree"), filepath.Join(w.base, "csindex")
	os.RemoveAll(w.base)
	os.MkdirAll(w.tree, 0777)
	w.put("a.txt", "text of a.txt\n")
	w.put("zz/b.txt", "line 2 of b.txt\ntext\n")
	return w
}

func (w *c18world) put(name, data string) {
	w.plain[name] = data
	mustWrite(filepath.Join(w.tree, name), []byte(data))
}

func (w *c18world) putZip(name string, data []byte) {
	w.arch[name] = data
	mustWrite(filepath.Join(w.tree, name), data)
}

// want is the model of indexing a root (relative) now.
func (w *c18world) want(root string, useZip bool) (files []file, maybe map[string]bool, damaged []string) {
	maybe = map[string]bool{}
	in := func(rel string) bool { return root == "." || under(rel, root) }
	for n, d := range w.plain {
		if in(n) {
			files = append(files, file{filepath.Join(w.tree, n), d})
		}
	}
	for n, d := range w.arch {
		if !in(n) {
			continue
		}
		full := filepath.Join(w.tree, n)
		if !useZip {
			if bytes.IndexByte(d, 0) < 0 {
				maybe[full] = true
			}
			continue
		}
		fs, mb, dam := c18want(full, d)
		files = append(files, fs...)
		for m := range mb {
			maybe[m] = true
		}
		if dam {
			damaged = append(damaged, full)
		}
	}
	sortFiles(files)
	return
}

// check compares the index and a search with the model.
func (w *c18world) check(r *Run, c any, files []file, maybe map[string]bool, blame func(name string)) {
	var got []string
	msg := try(func() {
		ix, done := openIndex(w.ix)
		defer done()
		for _, n := range pathsOf(ix.NamesAt(0, 1<<40)) {
			if !maybe[n] {
				got = append(got, n)
			}
		}
	})
	if msg != "" {
		r.Fail(c, "reading the index: %s", msg)
	}
	want := namesOf(files)
	var keep []string
	wm := map[string]string{}
	for _, f := range files {
		if !maybe[f.Name] {
			keep = append(keep, f.Name)
			wm[f.Name] = f.Data
		}
	}
	want = keep
	if !eqStrings(got, want) {
		gm := map[string]int{}
		for _, g := range got {
			gm[g]++
		}
		for _, g := range append(append([]string{}, want...), got...) {
			n := 0
			if _, ok := wm[g]; ok {
				n = 1
			}
			if gm[g] != n {
				blame(g)
				r.Fail(c, "%q is in the index %d times, want %d", g, gm[g], n)
			}
		}
		for i := range got {
			if got[i] != want[i] {
				blame(got[i])
				break
			}
		}
		r.Fail(c, "index names %s\nwant %s", cut(fmt.Sprintf("%q", got)), cut(fmt.Sprintf("%q", want)))
	}
	for _, brute := range []bool{false, true} {
		for _, pat := range []string{"text", "line 2"} {
			var b strings.Builder
			for _, f := range files {
				if maybe[f.Name] {
					continue
				}
				for i, l := range splitLines(f.Data) {
					if strings.Contains(l, pat) {
						fmt.Fprintf(&b, "%s:%d:%s\n", f.Name, i+1, l)
					}
				}
			}
			args := []string{"-n", pat}
			if brute {
				args = append([]string{"-brute"}, args...)
			}
			res := r.tool(cliOpt{Index: w.ix}, "csearch", args...)
			r.Step(1)
			var out strings.Builder
			for _, l := range strings.SplitAfter(res.Out, "\n") {
				drop := false
				for m := range maybe {
					drop = drop || strings.HasPrefix(l, m+":")
				}
				if !drop {
					out.WriteString(l)
				}
			}
			if out.String() != b.String() {
				gl, wl := strings.SplitAfter(out.String(), "\n"), strings.SplitAfter(b.String(), "\n")
				for i := range gl {
					if i >= len(wl) || gl[i] != wl[i] {
						blame(gl[i])
						break
					}
				}
				r.Fail(c, "csearch %q prints\n%s\nwant\n%s", args, cut(out.String()), cut(b.String()))
			}
		}
	}
}

// c18one indexes one archive among plain files.
func c18one(r *Run, c *c18case) {
	r.At(c)
	if c.History != nil {
		c18history(r, c)
		return
	}
	if c.Form != "" {
		c18form(r, c.Form)
		return
	}
	w := r.c18world()
	data := c18zip(c.Members)
	if c.Cut > 0 {
		data = data[:c.Cut-1]
	}
	if c.Flip > 0 {
		data[c.Flip-1] ^= 1 << c.Bit
	}
	w.putZip("m.zip", data)
	c18index(r, c, w, func(string) {})
}

func c18index(r *Run, c any, w *c18world, blame func(string)) {
	os.Remove(w.ix)
	res := r.tool(cliOpt{Dir: w.tree, Index: w.ix}, "cindex", "-zip", ".")
	r.Step(1)
	if res.Code != 0 {
		r.Fail(c, "cindex -zip exits %d: %s", res.Code, cut(res.Err))
	}
	files, maybe, damaged := w.want(".", true)
	w.check(r, c, files, maybe, blame)
	for _, d := range damaged {
		if !strings.Contains(res.Err, d) {
			blame(d)
			r.Fail(c, "damaged archive %q is not reported: %s", d, cut(res.Err))
		}
	}
	r.Trace(len(files) > 2 || len(damaged) > 0)
}

// c18batch puts many archives side by side.
func c18batch(r *Run, cases []c18case) {
	r.At(fmt.Sprintf("a batch of %d archives", len(cases)))
	w := r.c18world()
	for i, c := range cases {
		data := c18zip(c.Members)
		if c.Cut > 0 {
			data = data[:c.Cut-1]
		}
		if c.Flip > 0 {
			data[c.Flip-1] ^= 1 << c.Bit
		}
		w.putZip(fmt.Sprintf("g%05d.zip", i), data)
		r.State(h64(string(data)))
		if i%100 == 0 {
			r.Tick()
		}
		_, _, dam := c18want("", data)
		switch {
		case dam:
			r.Outcome("damaged archive")
		case c.Flip > 0:
			r.Outcome("changed byte, archive readable")
		default:
			r.Outcome("archive")
		}
	}
	c18index(r, fmt.Sprintf("a batch of %d archives", len(cases)), w, func(name string) {
		var i int
		if n, _ := fmt.Sscanf(strings.TrimPrefix(name, w.tree+"/g"), "%d.zip", &i); n == 1 && i < len(cases) {
			c18one(r, &cases[i])
		}
	})
	r.Traces += uint64(len(cases) - 1)
	r.Nontrivial += uint64(len(cases) - 1)
	r.Step(len(cases))
	os.RemoveAll(w.base)
}

var c18ops = []string{
	"x=AB", "x=C", "x=none", "x=broken", "y=A", "y=none",
	"index .", "index d", "index d/x.zip", "nozip d", "reindex",
}

// c18history runs a history of archive edits and cindex runs.
func c18history(r *Run, c *c18case) {
	w := r.c18world()
	model := mset{}
	has := false
	A, B, C := c18member{"a/m1", "text"}, c18member{"a.m", "deflate"}, c18member{"a/m1", "deflate"}
	set := func(name string, ms ...c18member) { w.putZip(name, c18zip(ms)) }
	maybe := map[string]bool{}
	set("d/x.zip", A, B)
	set("d/y.zip", B)
	w.put("d/x.zip.txt", "text beside\n")
	w.put("d/x.zio", "text before\n")
	runs := 0
	for _, op := range c.History {
		switch op {
		case "x=AB":
			set("d/x.zip", A, B)
		case "x=C":
			set("d/x.zip", B, C, c18member{"zz", "empty"})
		case "x=broken":
			d := c18zip([]c18member{A, B})
			w.putZip("d/x.zip", d[:len(d)-8])
		case "y=A":
			set("d/y.zip", A)
		case "x=none", "y=none":
			n := "d/" + op[:1] + ".zip"
			delete(w.arch, n)
			os.Remove(filepath.Join(w.tree, n))
		default:
			f := strings.Fields(op)
			args := []string{"-zip"}
			if f[0] == "nozip" {
				args = nil
			}
			var roots []string
			if f[0] == "reindex" {
				if !has {
					continue
				}
				for _, q := range model.Roots {
					rel, _ := filepath.Rel(w.tree, q)
					roots = append(roots, rel)
				}
			} else {
				roots = f[1:]
				args = append(args, f[1:]...)
			}
			var n mset
			for _, q := range roots {
				fs, mb, _ := w.want(q, f[0] != "nozip")
				n.Roots = append(n.Roots, filepath.Join(w.tree, q))
				n.Files = append(n.Files, fs...)
				for m := range mb {
					maybe[m] = true
				}
			}
			sortFiles(n.Files)
			if has {
				model = mmerge(model, n)
			} else {
				model = n
			}
			has = true
			res := r.tool(cliOpt{Dir: w.tree, Index: w.ix}, "cindex", args...)
			r.Step(1)
			if res.Code != 0 {
				r.Fail(c, "cindex %q exits %d: %s", args, res.Code, cut(res.Err))
			}
			runs++
		}
	}
	if !has {
		return
	}
	// Searching shows the present content, so bring the model's content up to date where a file still exists.
	var files []file
	now, _, _ := w.want(".", true)
	cur := map[string]string{}
	for _, f := range now {
		cur[f.Name] = f.Data
	}
	for _, f := range model.Files {
		if f.Data != cur[f.Name] {
			f.Data = "" // stale or gone: not judged by searching
			maybe[f.Name] = maybe[f.Name] || false
		}
		files = append(files, f)
	}
	// Names are judged exactly; contents only where not stale.
	var got []string
	msg := try(func() {
		ix, done := openIndex(w.ix)
		defer done()
		if err := compareIndex(ix, model.snap(), nil); err != nil {
			r.Fail(c, "after %q: %v", c.History, err)
		}
		got = pathsOf(ix.NamesAt(0, 1<<40))
	})
	if msg != "" {
		r.Fail(c, "reading the index: %s", msg)
	}
	stale := false
	for _, f := range files {
		if f.Data == "" {
			stale = true
		}
	}
	if !stale {
		w.check(r, c, files, maybe, func(string) {})
		r.Outcome("history searched")
	} else {
		r.Outcome("history with stale entries")
	}
	r.Trace(runs > 1)
	r.State(h64(fmt.Sprint(got, c.History)))
}

func c18jobs(tier string) []Job {
	quick := tier != "thorough"
	names := []string{"m", "a/b", "a", "a.b", "a-b", "a/b/c", "d/", "../x", "/abs", "c\x01d", "n\nl", "y.zip", "", "日", "sp ace", "b\\c", "A", "a//b", "./a", "bad\xff", "z\x7f", "a\x02", "a/"}
	kinds := []string{"text", "deflate", "empty", "bin", "crc", "cut", "method"}
	var cases []c18case
	for _, a := range names {
		for _, ka := range kinds {
			cases = append(cases, c18case{Members: []c18member{{a, ka}}})
		}
	}
	for _, a := range names {
		for _, b := range names {
			for _, ka := range kinds {
				for _, kb := range kinds {
					cases = append(cases, c18case{Members: []c18member{{a, ka}, {b, kb}}})
				}
			}
		}
	}
	for _, a := range names {
		for _, b := range names {
			for _, c := range names {
				cases = append(cases, c18case{Members: []c18member{{a, "text"}, {b, "deflate"}, {c, "text"}}})
				if !quick {
					cases = append(cases, c18case{Members: []c18member{{a, "bin"}, {b, "deflate"}, {c, "crc"}}}, c18case{Members: []c18member{{a, "cut"}, {b, "text"}, {c, "empty"}}})
				}
			}
		}
	}
	three := []c18member{{"b/x", "text"}, {"a", "deflate"}, {"b.x", "text"}}
	full := c18zip(three)
	for l := 0; l <= len(full); l++ {
		cases = append(cases, c18case{Members: three, Cut: l + 1})
	}
	for p := range full {
		for b := 0; b < 8; b++ {
			cases = append(cases, c18case{Members: three, Flip: p + 1, Bit: b})
		}
	}
	cases = append(cases, c18case{}) // no members
	var many []c18member
	for i := 0; i < 60; i++ {
		many = append(many, c18member{fmt.Sprintf("f%02d", i*37%60), "text"}, c18member{fmt.Sprintf("f%02d/x", i*23%60), "deflate"}, c18member{fmt.Sprintf("f%02d.x", i*7%60), "text"})
	}
	cases = append(cases, c18case{Members: many})
	// Each byte in and beside the names of members, and in names of directories. (A colon would end a name
	// in the output.)
	for b := 0x20; b < 0x100; b++ {
		x := string([]byte{byte(b)})
		if x == ":" {
			continue
		}
		cases = append(cases, c18case{Members: []c18member{{"a" + x, "text"}, {"a/", "text"}, {"a" + x + "/c", "deflate"}, {"a/c", "text"}, {x, "text"}, {x + x, "deflate"}, {"a/" + x, "text"}}},
			c18case{Members: []c18member{{"d" + x, "text"}, {"d/", "text"}, {"d", "deflate"}}})
	}
	nb := 24
	if !quick {
		nb = 48
	}
	js := shardJobs("archives", nb, func(r *Run, sh, k int) {
		var mine []c18case
		for i, c := range cases {
			if i%k == sh {
				mine = append(mine, c)
			}
		}
		c18batch(r, mine)
	})
	for _, f := range c18forms {
		js = append(js, Job{"form " + f.name, func(r *Run) { c18form(r, f.name) }})
	}
	depth := 4
	if !quick {
		depth = 5
	}
	var hs [][]string
	var rec func(h []string)
	rec = func(h []string) {
		if len(h) > 0 && (strings.HasPrefix(h[len(h)-1], "index") || strings.HasPrefix(h[len(h)-1], "nozip") || h[len(h)-1] == "reindex") {
			hs = append(hs, append([]string{}, h...))
		}
		if len(h) == depth {
			return
		}
		for _, op := range c18ops {
			if len(h) == 0 && !strings.HasPrefix(op, "index") {
				continue
			}
			if len(h) > 0 && strings.Contains(op, "=") && strings.HasPrefix(h[len(h)-1], op[:2]) {
				continue // two edits of one file in a row
			}
			if len(h) > 0 && op == h[len(h)-1] {
				continue
			}
			if len(h) == depth-1 && strings.Contains(op, "=") {
				continue
			}
			rec(append(h, op))
		}
	}
	rec(nil)
	js = append(js, shardJobs("histories", 16, func(r *Run, sh, k int) {
		for i, h := range hs {
			if i%k == sh {
				c := &c18case{History: h}
				r.At(c)
				c18history(r, c)
				if i%199 == 0 {
					r.Sample("%s", strings.Join(h, "; "))
				}
			}
		}
	})...)
	return js
}

func init() {
	register(&Prop{
		ID: "C18", Level: "model_checked_conformance",
		Rule: "Every one- and two-member archive over name shapes x kinds (three-member archives over names), every truncation and bit change of one archive, and every history of archive edits and cindex runs to the depth; non-trivial when a member is covered, an archive is damaged, or a history has two runs.",
		Assumptions: []string{"Go's archive/zip decides what a zip file contains and whether it or a member is damaged",
			"directory entries, and several members of one name of which one is damaged or not text, are not judged"},
		Jobs:       c18jobs,
		NoProgress: 150e9,
		Replay: func(r *Run, raw json.RawMessage) {
			var c c18case
			if json.Unmarshal(raw, &c) != nil {
				panic(harnessErr("not a single case: run the check again"))
			}
			c18one(r, &c)
		},
	})
}
