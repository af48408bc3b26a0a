package main

import (
	"archive/zip"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"unsafe"

	"github.com/google/codesearch/index"
)

// caseOf unmarshals a recorded case.
func caseOf[T any](c json.RawMessage) T {
	var v T
	if err := json.Unmarshal(c, &v); err != nil {
		panic(harnessErr("bad replay case: " + err.Error()))
	}
	return v
}

// field returns an addressable, settable view of an unexported field, or an invalid Value.
func field(v reflect.Value, name string) reflect.Value {
	for v.Kind() == reflect.Pointer {
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return reflect.Value{}
	}
	f := v.FieldByName(name)
	if !f.IsValid() || !f.CanAddr() {
		return reflect.Value{}
	}
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
}

var nOpened int

// openIndex opens an index and gives a function that releases it.
func openIndex(file string) (ix *index.Index, done func()) {
	ix = index.Open(file)
	nOpened++
	if nOpened%2000 == 0 {
		runtime.GC()
	}
	return ix, func() { closeIndex(ix) }
}

// closeIndex unmaps the index and closes its file, if its fields still have the known shape.
// (The library never does; a process exploring many indexes would run out of maps.)
func closeIndex(ix *index.Index) {
	defer func() { recover() }()
	d := field(reflect.ValueOf(ix), "data")
	if !d.IsValid() {
		return
	}
	if f := field(d, "d"); f.IsValid() {
		if b, ok := f.Interface().([]byte); ok && cap(b) > 0 {
			b = b[:cap(b)]
			syscall.Munmap(b)
		}
		f.SetZero()
	}
	if f := field(d, "f"); f.IsValid() {
		if fp, ok := f.Interface().(*os.File); ok && fp != nil {
			fp.Close()
		}
	}
}

type file struct {
	Name string
	Data string
}

// chunkReader returns data in pieces of the given sizes, cycling.
type chunkReader struct {
	data  []byte
	sizes []int
	i     int
	err   error // returned at the end instead of io.EOF
	with  bool  // return the final error together with the last data
}

func (c *chunkReader) Read(p []byte) (int, error) {
	end := c.err
	if end == nil {
		end = io.EOF
	}
	if len(c.data) == 0 {
		return 0, end
	}
	n := len(c.data)
	if len(c.sizes) > 0 {
		n = c.sizes[c.i%len(c.sizes)]
		c.i++
	}
	n = min(n, len(c.data), len(p))
	copy(p, c.data[:n])
	c.data = c.data[n:]
	if c.with && len(c.data) == 0 {
		return n, end
	}
	return n, nil
}

type buildOpt struct {
	spill int // capacity of the in-memory posting buffer (0: default)
	sizes []int
}

// setSpill gives the writer a small in-memory posting buffer. It reports false if it cannot.
func setSpill(w *index.IndexWriter, n int) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	f := field(reflect.ValueOf(w), "post")
	if !f.IsValid() || f.Kind() != reflect.Slice {
		return false
	}
	f.Set(reflect.MakeSlice(f.Type(), 0, n))
	return true
}

// buildIndex writes an index of the files (already in path order) to file name.
func buildIndex(name string, roots []string, files []file, o buildOpt) {
	w := index.Create(name)
	if o.spill > 0 {
		setSpill(w, o.spill)
	}
	var rs []index.Path
	for _, r := range roots {
		rs = append(rs, index.MakePath(r))
	}
	w.AddRoots(rs)
	for _, f := range files {
		if err := w.Add(f.Name, &chunkReader{data: []byte(f.Data), sizes: o.sizes}); err != nil {
			panic(fmt.Sprintf("Add(%q): %v", f.Name, err))
		}
	}
	w.Flush()
	releaseWriter(w)
}

// releaseWriter closes the files a finished writer leaves open.
func releaseWriter(w *index.IndexWriter) {
	defer func() { recover() }()
	for _, n := range []string{"nameData", "nameIndex", "postFile", "postIndex", "main"} {
		b := field(reflect.ValueOf(w), n)
		if !b.IsValid() || b.IsNil() {
			continue
		}
		f := field(b, "file")
		if f.IsValid() {
			if fp, ok := f.Interface().(*os.File); ok && fp != nil {
				fp.Close()
			}
		}
	}
}

func tri(s string) uint32 { return uint32(s[0])<<16 | uint32(s[1])<<8 | uint32(s[2]) }

func triString(t uint32) string { return string([]byte{byte(t >> 16), byte(t >> 8), byte(t)}) }

// trigramsOf is the set of three-byte substrings.
func trigramsOf(s string) map[uint32]bool {
	m := map[uint32]bool{}
	for i := 0; i+3 <= len(s); i++ {
		m[tri(s[i:])] = true
	}
	return m
}

// snapshot is what an index means: roots, names, and for each trigram the names of its files.
type snapshot struct {
	Roots []string
	Names []string
	Post  map[uint32][]int
}

func modelIndex(roots []string, files []file) *snapshot {
	s := &snapshot{Roots: roots, Post: map[uint32][]int{}}
	for i, f := range files {
		s.Names = append(s.Names, f.Name)
		for t := range trigramsOf(f.Data) {
			s.Post[t] = append(s.Post[t], i)
		}
	}
	return s
}

func pathsOf(r *index.PathReader) []string {
	var out []string
	for p := range r.All() {
		out = append(out, p.String())
		if len(out) > 1<<22 {
			panic("path list does not end")
		}
	}
	return out
}

func eqStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func eqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// compareIndex reads an index through the exported API and compares it with the model.
// extra lists trigrams to look up besides the model's own.
func compareIndex(ix *index.Index, want *snapshot, extra []uint32) error {
	if got := pathsOf(ix.Roots()); !eqStrings(got, want.Roots) {
		return fmt.Errorf("roots: got %q, want %q", got, want.Roots)
	}
	if got := pathsOf(ix.NamesAt(0, 1<<40)); !eqStrings(got, want.Names) {
		return fmt.Errorf("names: got %q, want %q", got, want.Names)
	}
	if got := ix.PostingQuery(&index.Query{Op: index.QAll}); len(got) != len(want.Names) {
		return fmt.Errorf("all-files query lists %d files, want %d", len(got), len(want.Names))
	}
	ts := make([]uint32, 0, len(want.Post))
	for t := range want.Post {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
	for _, t := range ts {
		if got := ix.PostingList(t); !eqInts(got, want.Post[t]) {
			return fmt.Errorf("posting list of %q: got %v, want %v", triString(t), got, want.Post[t])
		}
	}
	for _, t := range extra {
		if got := ix.PostingList(t); !eqInts(got, want.Post[t]) {
			return fmt.Errorf("posting list of %q: got %v, want %v", triString(t), got, want.Post[t])
		}
	}
	return nil
}

// pathLess is the specified order: element by element, where / sorts below every other byte.
func pathKey(s string) string { return strings.ReplaceAll(s, "/", "\x00") }

func sortPaths(s []string) {
	sort.Slice(s, func(i, j int) bool { return pathKey(s[i]) < pathKey(s[j]) })
}

func sortFiles(f []file) {
	sort.Slice(f, func(i, j int) bool { return pathKey(f[i].Name) < pathKey(f[j].Name) })
}

// under reports whether name is root or lies below it (as a directory or an archive).
func under(name, root string) bool {
	if name == root || root == "/" && strings.HasPrefix(name, "/") {
		return true
	}
	return strings.HasPrefix(name, root+"/") || strings.HasPrefix(name, root+"\x01")
}

func mustRead(name string) []byte {
	b, err := os.ReadFile(name)
	if err != nil {
		panic(err)
	}
	return b
}

func mustWrite(name string, data []byte) {
	if err := os.MkdirAll(filepath.Dir(name), 0777); err != nil {
		panic(err)
	}
	if err := os.WriteFile(name, data, 0666); err != nil {
		panic(err)
	}
}

func firstDiff(a, b []byte) string {
	n := min(len(a), len(b))
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return fmt.Sprintf("lengths %d and %d, first difference at byte %d", len(a), len(b), i)
		}
	}
	return fmt.Sprintf("lengths %d and %d, one is a prefix of the other", len(a), len(b))
}

// listDir lists everything below dir, as relative names with type and content hash.
func listDir(dir string) string {
	var b bytes.Buffer
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		rel, _ := filepath.Rel(dir, p)
		if err != nil {
			fmt.Fprintf(&b, "%s error\n", rel)
			return nil
		}
		if info.Mode().IsRegular() {
			d, _ := os.ReadFile(p)
			fmt.Fprintf(&b, "%s %v %d %x\n", rel, info.Mode(), len(d), h64(string(d)))
		} else {
			fmt.Fprintf(&b, "%s %v\n", rel, info.Mode())
		}
		return nil
	})
	return b.String()
}

// shards splits [0,n) into k jobs that take every k-th element.
func shardJobs(name string, k int, f func(r *Run, shard, k int)) []Job {
	var js []Job
	for i := 0; i < k; i++ {
		js = append(js, Job{fmt.Sprintf("%s/%d", name, i), func(r *Run) { f(r, i, k) }})
	}
	return js
}

// strs enumerates all strings over the alphabet with length at most n, shortest first.
func strs(alpha []string, n int) []string {
	out := []string{""}
	last := out
	for l := 1; l <= n; l++ {
		var next []string
		for _, p := range last {
			for _, a := range alpha {
				next = append(next, p+a)
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

// unmapScratch unmaps every index file below the scratch directory (index.Merge never unmaps its inputs).
// No index may be in use.
func unmapScratch(r *Run) {
	b, err := os.ReadFile("/proc/self/maps")
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 6 || !strings.HasPrefix(f[5], r.Scratch+"/") || f[1][:2] != "r-" {
			continue
		}
		var lo, hi uintptr
		if n, _ := fmt.Sscanf(f[0], "%x-%x", &lo, &hi); n == 2 {
			syscall.Syscall(syscall.SYS_MUNMAP, lo, hi-lo, 0)
		}
	}
	runtime.GC()
}

// zipFile makes an archive of the members in an unlinked temporary file.
func zipFile(members []file) *os.File {
	f, err := os.CreateTemp("", "mczip")
	if err != nil {
		panic(harnessErr(err.Error()))
	}
	os.Remove(f.Name())
	z := zip.NewWriter(f)
	for _, m := range members {
		w, err := z.Create(m.Name)
		if err == nil {
			_, err = w.Write([]byte(m.Data))
		}
		if err != nil {
			panic(harnessErr(err.Error()))
		}
	}
	if err := z.Close(); err != nil {
		panic(harnessErr(err.Error()))
	}
	f.Seek(0, 0)
	return f
}

func must1[T any](x T, err error) T {
	if err != nil {
		panic(harnessErr(err.Error()))
	}
	return x
}
