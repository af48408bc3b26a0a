package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"
	mathbits "math/bits"
	"sort"
)

// An independent encoder and decoder of index files, written from the format description
// in index/read.go (not from the code), used by C15, C19 and C26.
// One fact differs from the description: the γ code of 0 is 16 (the description says 31);
// files in circulation use 16.

// A plist is a posting list to encode.
type plist struct {
	Tri string // 3 bytes
	IDs []int
	Raw []byte // if not nil, what to write instead of IDs
}

// encVariant lists the freedoms the format leaves to a writer.
type encVariant struct {
	V        int
	Aligned  bool // regions start at multiples of 16
	Sentinel bool // the posting index has an entry for the end marker
	Prefix   int  // v2 paths: 0 longest common prefix, 1 none, 2 one byte less
}

func (v encVariant) String() string {
	return fmt.Sprintf("v%d aligned=%v sentinel=%v prefix=%d", v.V, v.Aligned, v.Sentinel, v.Prefix)
}

var encVariants = []encVariant{
	{1, false, true, 0}, {1, false, false, 0},
	{2, true, true, 0}, {2, true, false, 0}, {2, false, true, 0}, {2, false, false, 0}, {2, true, true, 1}, {2, false, true, 2},
}

type bitWriter struct {
	b  []byte
	nb uint // bits used in the last byte (0: none pending)
}

func (w *bitWriter) bit(x uint) {
	if w.nb == 0 {
		w.b = append(w.b, 0)
	}
	w.b[len(w.b)-1] |= byte(x << w.nb)
	w.nb = (w.nb + 1) % 8
}

// gamma writes v: n zero bits, a one, then the low n bits, least significant first.
func (w *bitWriter) gamma(v uint64) {
	n := 0
	for v>>(n+1) != 0 {
		n++
	}
	for i := 0; i < n; i++ {
		w.bit(0)
	}
	w.bit(1)
	for i := 0; i < n; i++ {
		w.bit(uint(v >> i & 1))
	}
}

func gammaCode(d uint64) uint64 {
	switch {
	case d == 0:
		return 16
	case d >= 16:
		return d + 1
	}
	return d
}

func encDeltas(v int, ids []int) []byte {
	last := -1
	if v == 1 {
		var b []byte
		for _, id := range ids {
			b = binary.AppendUvarint(b, uint64(id-last))
			last = id
		}
		return binary.AppendUvarint(b, 0)
	}
	var w bitWriter
	for _, id := range ids {
		w.gamma(gammaCode(uint64(id - last)))
		last = id
	}
	w.gamma(gammaCode(0))
	return w.b
}

func encPaths(paths []string, group int, prefix int) (data []byte, index []int) {
	last := ""
	for i, p := range paths {
		pre := 0
		if group > 0 && i%group == 0 {
			index = append(index, len(data))
		} else if prefix != 1 {
			for pre < len(last) && pre < len(p) && last[pre] == p[pre] {
				pre++
			}
			if prefix == 2 && pre > 0 {
				pre--
			}
		}
		data = binary.AppendUvarint(data, uint64(pre))
		data = binary.AppendUvarint(data, uint64(len(p)-pre))
		data = append(data, p[pre:]...)
		last = p
	}
	return
}

// rawEntry is a posting index entry as it will be written.
type rawEntry struct {
	tri    string
	count  uint64
	offset uint64
}

// encodeIndex writes an index. numName < 0 means len(names). edit, if not nil, may change the posting index entries.
func encodeIndex(v encVariant, roots, names []string, posts []plist, numName int, edit func([]rawEntry)) []byte {
	if numName < 0 {
		numName = len(names)
	}
	var out []byte
	align := func() {
		for v.Aligned && len(out)%16 != 0 {
			out = append(out, 0)
		}
	}
	out = append(out, fmt.Sprintf("csearch index %d\n", v.V)...)

	// lists of posting lists
	var pdata []byte
	var ents []rawEntry
	for _, p := range posts {
		ents = append(ents, rawEntry{p.Tri, uint64(len(p.IDs)), uint64(len(pdata))})
		pdata = append(pdata, p.Tri...)
		if p.Raw != nil {
			pdata = append(pdata, p.Raw...)
		} else {
			pdata = append(pdata, encDeltas(v.V, p.IDs)...)
		}
	}
	if v.Sentinel {
		ents = append(ents, rawEntry{"\xff\xff\xff", 0, uint64(len(pdata))})
	}
	pdata = append(pdata, "\xff\xff\xff"...)
	pdata = append(pdata, encDeltas(v.V, nil)...)
	if edit != nil {
		edit(ents)
	}

	if v.V == 1 {
		u32 := func(b []byte, x int) []byte { return binary.BigEndian.AppendUint32(b, uint32(x)) }
		pathOff := len(out)
		for _, r := range roots {
			out = append(append(out, r...), 0)
		}
		out = append(out, 0)
		align()
		nameOff := len(out)
		var nidx []byte
		for _, n := range names {
			nidx = u32(nidx, len(out)-nameOff)
			out = append(append(out, n...), 0)
		}
		nidx = u32(nidx, len(out)-nameOff)
		out = append(out, 0)
		align()
		postOff := len(out)
		out = append(out, pdata...)
		align()
		nidxOff := len(out)
		out = append(out, nidx...)
		pidxOff := len(out)
		for _, e := range ents {
			out = append(out, e.tri...)
			out = u32(u32(out, int(e.count)), int(e.offset))
		}
		for _, o := range []int{pathOff, nameOff, postOff, nidxOff, pidxOff} {
			out = u32(out, o)
		}
		return append(out, "\ncsearch trailr\n"...)
	}

	u64 := func(b []byte, x int) []byte { return binary.BigEndian.AppendUint64(b, uint64(x)) }
	pathOff := len(out)
	pd, _ := encPaths(roots, 0, v.Prefix)
	out = append(out, pd...)
	align()
	nameOff := len(out)
	nd, ni := encPaths(names, 16, v.Prefix)
	out = append(out, nd...)
	align()
	postOff := len(out)
	out = append(out, pdata...)
	align()
	nidxOff := len(out)
	for _, o := range ni {
		out = u64(out, o)
	}
	align()
	pidxOff := len(out)
	var block []byte
	var base uint64
	for _, e := range ents {
		enc := func() []byte {
			b := append([]byte{}, e.tri...)
			b = binary.AppendUvarint(b, e.count)
			return binary.AppendUvarint(b, e.offset-base)
		}
		b := enc()
		if len(block)+len(b) > 256 {
			out = append(out, append(block, make([]byte, 256-len(block))...)...)
			block, base = nil, 0
			b = enc()
		}
		block = append(block, b...)
		base = e.offset
	}
	if len(block) > 0 {
		out = append(out, append(block, make([]byte, 256-len(block))...)...)
	}
	for _, o := range []int{pathOff, len(roots), nameOff, numName, postOff, len(ents), nidxOff, pidxOff} {
		out = u64(out, o)
	}
	return append(out, "\ncsearch trlr 2\n"...)
}

// plistsOf turns files into posting lists in trigram order.
func plistsOf(files []file) []plist {
	m := map[uint32][]int{}
	for i, f := range files {
		for t := range trigramsOf(f.Data) {
			m[t] = append(m[t], i)
		}
	}
	var ts []uint32
	for t := range m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
	var out []plist
	for _, t := range ts {
		out = append(out, plist{Tri: triString(t), IDs: m[t]})
	}
	return out
}

func namesOf(files []file) []string {
	var out []string
	for _, f := range files {
		out = append(out, f.Name)
	}
	return out
}

// A decoded index file.
type decoded struct {
	Roots, Names                   []string
	Post                           map[uint32][]int
	postOff, nidxOff, pidxOff, end int // regions
}

type bitReader struct {
	b []byte
	i int // bits read
}

var errEnd = errors.New("code runs past the end of the data")

// gamma decodes one number of any size.
func (r *bitReader) gamma() (*big.Int, error) {
	bit := func() (uint, error) {
		if r.i/8 >= len(r.b) {
			return 0, errEnd
		}
		x := uint(r.b[r.i/8]>>(r.i%8)) & 1
		r.i++
		return x, nil
	}
	n := 0
	for {
		x, err := bit()
		if err != nil {
			return nil, err
		}
		if x == 1 {
			break
		}
		n++
	}
	v := new(big.Int).Lsh(big.NewInt(1), uint(n))
	for i := 0; i < n; i++ {
		x, err := bit()
		if err != nil {
			return nil, err
		}
		if x == 1 {
			v.SetBit(v, i, 1)
		}
	}
	return v, nil
}

// decList decodes a v2 posting list's increments up to its end mark. It returns the number of bytes used.
func decList(b []byte, maxCount int) (deltas []*big.Int, used int, err error) {
	r := bitReader{b: b}
	zero, one := big.NewInt(16), big.NewInt(1)
	for {
		v, err := r.gamma()
		if err != nil {
			return deltas, 0, err
		}
		switch v.Cmp(zero) {
		case 0:
			return deltas, (r.i + 7) / 8, nil
		case 1:
			v.Sub(v, one)
		}
		deltas = append(deltas, v)
		if len(deltas) > maxCount {
			return deltas, 0, fmt.Errorf("more than %d increments", maxCount)
		}
	}
}

// listOf reports, quickly, whether b begins with exactly count increments and the end mark; false means to look closely.
func listOf(b []byte, count int) bool {
	at := 0
	for i := 0; ; i++ {
		if at/8+9 > len(b) {
			return false
		}
		w := binary.LittleEndian.Uint64(b[at/8:])>>(at%8) | uint64(b[at/8+8])<<(63-at%8)<<1
		n := mathbits.TrailingZeros64(w)
		if n > 28 {
			return false
		}
		v := w>>(n+1)&(1<<n-1) | 1<<n
		at += 2*n + 1
		if v == 16 {
			return i == count
		}
		if i >= count {
			return false
		}
	}
}

func decPath(b []byte, prev string) (p string, used int, pre uint64, err error) {
	pre, n := binary.Uvarint(b)
	if n <= 0 || pre > uint64(len(prev)) {
		return "", 0, 0, errors.New("bad prefix length")
	}
	suf, m := binary.Uvarint(b[n:])
	if m <= 0 || suf > uint64(len(b)-n-m) {
		return "", 0, 0, errors.New("bad suffix length")
	}
	return prev[:pre] + string(b[n+m:n+m+int(suf)]), n + m + int(suf), pre, nil
}

func decEntry(b []byte) (t uint32, count, off uint64, used int, err error) {
	if len(b) < 3 {
		return 0, 0, 0, 0, errors.New("truncated entry")
	}
	c, n := binary.Uvarint(b[3:])
	if n <= 0 {
		return 0, 0, 0, 0, errors.New("bad count")
	}
	o, m := binary.Uvarint(b[3+n:])
	if m <= 0 {
		return 0, 0, 0, 0, errors.New("bad offset")
	}
	return tri(string(b[:3])), c, o, 3 + n + m, nil
}

// regions decodes the trailer of a v2 file.
func regions(b []byte) (f [8]int, n int, err error) {
	const magic = "\ncsearch trlr 2\n"
	if len(b) < 64+len(magic) || string(b[len(b)-len(magic):]) != magic {
		return f, 0, errors.New("no version 2 trailer")
	}
	n = len(b) - len(magic) - 64
	for i := range f {
		v := binary.BigEndian.Uint64(b[n+8*i:])
		if v > uint64(len(b)) {
			return f, n, fmt.Errorf("trailer value %d is %d", i, v)
		}
		f[i] = int(v)
	}
	return f, n, nil
}

// decodeIndex decodes a version 2 file as a reader of files already in circulation would, checking the documented layout.
func decodeIndex(b []byte) (*decoded, error) {
	if !bytes.HasPrefix(b, []byte("csearch index 2\n")) {
		return nil, errors.New("no version 2 header")
	}
	f, n, err := regions(b)
	if err != nil {
		return nil, err
	}
	pathOff, nRoots, nameOff, nNames, postOff, nPost, nidxOff, pidxOff := f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7]
	if !(16 <= pathOff && pathOff <= nameOff && nameOff <= postOff && postOff <= nidxOff && nidxOff <= pidxOff && pidxOff <= n) {
		return nil, fmt.Errorf("regions out of order: %v, trailer at %d", f, n)
	}
	d := &decoded{Post: map[uint32][]int{}, postOff: postOff, nidxOff: nidxOff, pidxOff: pidxOff, end: n}
	zeros := func(x []byte) bool { return len(bytes.Trim(x, "\x00")) == 0 }

	// roots
	at, last := pathOff, ""
	for i := 0; i < nRoots; i++ {
		p, used, _, err := decPath(b[at:nameOff], last)
		if err != nil {
			return nil, fmt.Errorf("root %d: %v", i, err)
		}
		d.Roots = append(d.Roots, p)
		at, last = at+used, p
	}
	if !zeros(b[at:nameOff]) {
		return nil, errors.New("data after the list of roots")
	}
	// names
	at, last = nameOff, ""
	groups := (nNames + 15) / 16
	if nidxOff+8*groups > pidxOff {
		return nil, fmt.Errorf("name index too short for %d names", nNames)
	}
	for i := 0; i < nNames; i++ {
		p, used, pre, err := decPath(b[at:postOff], last)
		if err != nil {
			return nil, fmt.Errorf("name %d: %v", i, err)
		}
		if i%16 == 0 {
			if pre != 0 {
				return nil, fmt.Errorf("name %d starts a group but has prefix length %d", i, pre)
			}
			if o := binary.BigEndian.Uint64(b[nidxOff+i/16*8:]); o != uint64(at-nameOff) {
				return nil, fmt.Errorf("name index entry %d is %d, want %d", i/16, o, at-nameOff)
			}
		}
		d.Names = append(d.Names, p)
		at, last = at+used, p
	}
	if !zeros(b[at:postOff]) {
		return nil, errors.New("data after the list of names")
	}
	if !zeros(b[nidxOff+8*groups : pidxOff]) {
		return nil, errors.New("data after the name index")
	}
	// posting lists in sequence
	type seqList struct {
		off   int
		count int
	}
	seq := map[uint32]seqList{}
	at = postOff
	var lastT uint32
	for {
		if at+3 > nidxOff {
			return nil, errors.New("list of posting lists has no end marker")
		}
		t := tri(string(b[at : at+3]))
		ds, used, err := decList(b[at+3:nidxOff], 1<<30)
		if err != nil {
			return nil, fmt.Errorf("posting list of %q: %v", triString(t), err)
		}
		if t <= lastT {
			return nil, fmt.Errorf("posting list of %q after that of %q", triString(t), triString(lastT))
		}
		lastT = t
		seq[t] = seqList{at - postOff, len(ds)}
		if t == 0xffffff {
			if len(ds) != 0 {
				return nil, errors.New("end marker has files")
			}
			at += 3 + used
			break
		}
		id := -1
		var ids []int
		for _, x := range ds {
			if !x.IsInt64() || x.Int64() > int64(nNames) {
				return nil, fmt.Errorf("posting list of %q: increment %v", triString(t), x)
			}
			id += int(x.Int64())
			if id >= nNames {
				return nil, fmt.Errorf("posting list of %q: file %d of %d", triString(t), id, nNames)
			}
			ids = append(ids, id)
		}
		d.Post[t] = ids
		at += 3 + used
	}
	if !zeros(b[at:nidxOff]) {
		return nil, errors.New("data after the posting lists")
	}
	// posting index
	if (n-pidxOff)/256*256 > n-pidxOff || (n-pidxOff)%256 >= 16 {
		return nil, fmt.Errorf("posting index is %d bytes", n-pidxOff)
	}
	entries := 0
	found := map[uint32]bool{}
	lastT = 0
	for p := pidxOff; p+256 <= n; p += 256 {
		blk := b[p : p+256]
		off := 0
		for len(blk) >= 3 && (blk[0] != 0 || blk[1] != 0 || blk[2] != 0) {
			t, c, o, used, err := decEntry(blk)
			if err != nil {
				return nil, fmt.Errorf("posting index at %d: %v", p, err)
			}
			off += int(o)
			if t <= lastT {
				return nil, fmt.Errorf("posting index entry for %q after %q", triString(t), triString(lastT))
			}
			lastT = t
			s, ok := seq[t]
			if !ok || s.off != off || uint64(s.count) != c {
				return nil, fmt.Errorf("posting index entry for %q: count %d offset %d, the list has %d at %d", triString(t), c, off, s.count, s.off)
			}
			found[t] = true
			entries++
			blk = blk[used:]
		}
		if len(blk) < 256 && !zeros(blk) || len(blk) == 256 {
			return nil, fmt.Errorf("posting index block at %d is not zero-padded or is empty", p)
		}
	}
	for t, s := range seq {
		if s.count > 0 && !found[t] {
			return nil, fmt.Errorf("no posting index entry for %q", triString(t))
		}
	}
	// The number of posting lists may or may not count the end marker.
	if nPost != len(d.Post) && nPost != len(d.Post)+1 || entries != len(d.Post) && entries != len(d.Post)+1 {
		return nil, fmt.Errorf("number of posting lists is %d, entries %d, lists %d", nPost, entries, len(d.Post))
	}
	return d, nil
}

func (d *decoded) equal(want *snapshot) error {
	if !eqStrings(d.Roots, want.Roots) {
		return fmt.Errorf("roots %q, want %q", d.Roots, want.Roots)
	}
	if !eqStrings(d.Names, want.Names) {
		return fmt.Errorf("names %q, want %q", d.Names, want.Names)
	}
	for t, w := range want.Post {
		if !eqInts(d.Post[t], w) {
			return fmt.Errorf("posting list of %q: %v, want %v", triString(t), d.Post[t], w)
		}
	}
	for t, g := range d.Post {
		if len(g) > 0 && len(want.Post[t]) == 0 {
			return fmt.Errorf("posting list of %q: %v, want none", triString(t), g)
		}
	}
	return nil
}

// damage walks the posting index of a version 2 file and describes the first entry that does not point to
// a list with its trigram and exactly its number of increments followed by the end mark ("" if none).
// open is set if the walk met an entry that does not decode, after which nothing is judged in that block.
func damage(b []byte) (what string, open bool) {
	f, n, err := regions(b)
	if err != nil {
		return "", true
	}
	postOff, nidxOff, pidxOff := f[4], f[6], f[7]
	for p := pidxOff; p+256 <= n; p += 256 {
		blk := b[p : p+256]
		var off uint64
		for len(blk) > 3 && (blk[0] != 0 || blk[1] != 0 || blk[2] != 0) {
			t, c, o, used, err := decEntry(blk)
			if err != nil {
				open = true
				break
			}
			off += o
			pos := p + 256 - len(blk)
			at := func() string { return fmt.Sprintf("entry at %d (%q, count %d, offset %d)", pos, triString(t), c, off) }
			blk = blk[used:]
			if off > uint64(nidxOff-postOff) || off+3 > uint64(nidxOff-postOff) {
				return at() + " points outside the posting lists", open
			}
			l := b[postOff+int(off) : nidxOff]
			if tri(string(l[:3])) != t {
				return at() + " points to a list of " + triString(tri(string(l[:3]))), open
			}
			if c > uint64(8*len(l)) {
				return at() + " has an impossible count", open
			}
			if listOf(l[3:], int(c)) {
				continue
			}
			ds, _, err := decList(l[3:], int(c))
			if err != nil {
				return at() + ": " + err.Error(), open
			}
			if uint64(len(ds)) != c {
				return fmt.Sprintf("%s: the list has %d increments", at(), len(ds)), open
			}
		}
	}
	return "", open
}
