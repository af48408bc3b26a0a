package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/google/codesearch/index"
)

// C15: every proper prefix of every index of a family is refused as corrupt, by Open and by the commands.

type c15case struct {
	Src   string // how the index was made: written, merged, or an encoder variant
	Set   mset
	Len   int
	Total int
	Cmd   string `json:",omitempty"` // a command to run on the prefix ("" = Open in process)
}

// c15bytes makes the index bytes of a source.
func c15bytes(r *Run, src string, m mset) []byte {
	name := filepath.Join(r.Scratch, "full")
	switch src {
	case "written":
		leafIndex(name, m)
	case "merged":
		leafIndex(name+"1", mset{Roots: []string{"/q"}, Files: []file{{"/q/old", "older contents"}}})
		leafIndex(name+"2", m)
		index.Merge(name, name+"1", name+"2")
	default:
		for _, v := range encVariants {
			if src == v.String() {
				return encodeIndex(v, m.Roots, namesOf(m.Files), plistsOf(m.Files), -1, nil)
			}
		}
		panic(harnessErr("unknown source " + src))
	}
	return mustRead(name)
}

var c15opens int

// c15open opens a prefix in process; it must be reported as corrupt.
func c15open(r *Run, c *c15case, name string) {
	var got string
	msg := try(func() {
		ix := index.Open(name)
		got = "no panic"
		got = fmt.Sprintf("%d roots, %d files", len(pathsOf(ix.Roots())), len(ix.PostingQuery(&index.Query{Op: index.QAll})))
		closeIndex(ix)
	})
	c15opens++
	if c15opens%4000 == 0 {
		unmapScratch(r)
	}
	r.Step(1)
	if got != "" || msg == "" {
		r.Fail(c, "the first %d of %d bytes of the index open normally: %s", c.Len, c.Total, got)
	}
	if !strings.Contains(msg, "corrupt") {
		r.Fail(c, "opening the first %d of %d bytes of the index is not reported as corrupt: %s", c.Len, c.Total, msg)
	}
}

var c15cmds = []string{"csearch .", "csearch zzz", "csearch -brute .", "csearch -l .", "cindex -list", "cindex -check", "cindex", "cindex TREE"}

// c15tool runs a command on a prefix; it must fail, say corrupt, print no results and leave the prefix alone.
func c15tool(r *Run, c *c15case, data []byte) {
	r.At(c)
	ixf := filepath.Join(r.Scratch, "ix", "csindex")
	clearDir(filepath.Dir(ixf))
	mustWrite(ixf, data[:c.Len])
	tree := filepath.Join(r.Scratch, "tree")
	mustWrite(filepath.Join(tree, "f"), []byte("some text\n"))
	args := strings.Fields(strings.ReplaceAll(c.Cmd, "TREE", tree))
	res := r.tool(cliOpt{Index: ixf}, args[0], args[1:]...)
	r.Step(1)
	if res.Code == 0 {
		r.Fail(c, "%s on the first %d of %d bytes of an index exits 0\nstdout: %q\nstderr: %q", c.Cmd, c.Len, c.Total, res.Out, res.Err)
	}
	if args[0] == "csearch" && res.Code == 1 && !strings.Contains(res.Err, "corrupt") {
		r.Fail(c, "%s on the first %d of %d bytes of an index looks like a search without results\nstdout: %q\nstderr: %q", c.Cmd, c.Len, c.Total, res.Out, res.Err)
	}
	if !strings.Contains(res.Err, "corrupt") {
		r.Fail(c, "%s on the first %d of %d bytes of an index: exit status %d, but no report of a corrupt index\nstderr: %q", c.Cmd, c.Len, c.Total, res.Code, res.Err)
	}
	if args[0] == "csearch" && res.Out != "" {
		r.Fail(c, "%s on the first %d of %d bytes of an index prints %q", c.Cmd, c.Len, c.Total, res.Out)
	}
	if string(mustRead(ixf)) != string(data[:c.Len]) {
		r.Fail(c, "%s changed the truncated index", c.Cmd)
	}
	r.Trace(c.Len > 0)
	r.Outcome("refused: " + c.Cmd)
	r.State(h64(fmt.Sprint(c)))
}

// c15sweep opens every proper prefix of an index.
func c15sweep(r *Run, src string, m mset) {
	var data []byte
	c := &c15case{Src: src, Set: m}
	r.must(c, "building", func() { data = c15bytes(r, src, m) })
	c.Total = len(data)
	name := filepath.Join(r.Scratch, "prefix")
	os.Remove(name)
	mustWrite(name, data)
	h := h64(string(data))
	for l := len(data) - 1; l >= 0; l-- {
		c.Len = l
		if l%64 == 0 {
			r.At(c)
		}
		if err := os.Truncate(name, int64(l)); err != nil {
			panic(harnessErr(err.Error()))
		}
		c15open(r, c, name)
		r.Trace(l > 0)
		r.State(h ^ uint64(l)*0x9e3779b97f4a7c15)
	}
	r.Outcome("swept " + src)
	r.Sample("%s: all %d prefixes of an index of %d files", src, len(data), len(m.Files))
}

func c15sets(quick bool) []mset {
	var out []mset
	base := []file{{"/r/a", "abcd\n"}, {"/r/a/b", "bcde\nabc"}, {"/r/empty", ""}, {"/s/x", "abcd \ncsearch trlr 2\n"}, {"/s/y", "\ncsearch trailr\nzzz"}}
	for bits := 0; bits < 1<<len(base); bits++ {
		m := mset{Roots: []string{"/r", "/s"}}
		for i, f := range base {
			if bits>>i&1 != 0 {
				m.Files = append(m.Files, f)
			}
		}
		out = append(out, m)
	}
	out = append(out, mset{}, mset{Roots: []string{"/only/root"}})
	// A root whose name holds the end marks of an index.
	out = append(out, mset{Roots: []string{"/r" + strings.Repeat("x", 100) + "\ncsearch trlr 2\n", "/s" + strings.Repeat("y", 70) + "\ncsearch trailr\n", "/t"}, Files: []file{{"/t", "abcd"}}})
	// Larger: several pages, several posting index blocks and name groups.
	big := func(n, t int) mset {
		m := mset{Roots: []string{"/r"}}
		d := deBruijn("abcdefghijklmnop", t)
		for i := 0; i < n; i++ {
			m.Files = append(m.Files, file{fmt.Sprintf("/r/file%04d", i), d[i%(len(d)/2):]})
		}
		return m
	}
	out = append(out, big(40, 300), big(3, 600))
	if !quick {
		out = append(out, big(2, 4000), big(3000, 30), big(500, 1000))
	}
	return out
}

func init() {
	register(&Prop{
		ID: "C15", Level: "fault_enumeration",
		Rule:        "Every proper prefix of every index of the family (each a possible state after an interrupted copy or first build) is opened; a case is non-trivial when the prefix is not empty.",
		Assumptions: []string{"truncation happens at byte granularity and the remaining bytes are intact"},
		Jobs: func(tier string) []Job {
			quick := tier != "thorough"
			srcs := []string{"written", "merged"}
			for _, v := range encVariants {
				srcs = append(srcs, v.String())
			}
			js := shardJobs("sweep", 16, func(r *Run, sh, k int) {
				i := 0
				for _, m := range c15sets(quick) {
					for _, src := range srcs {
						i++
						if i%k == sh {
							c15sweep(r, src, m)
						}
					}
				}
			})
			js = append(js, shardJobs("commands", 16, func(r *Run, sh, k int) {
				m := mset{Roots: []string{"/r"}, Files: []file{{"/r/a", "abcd zzz\n"}, {"/r/b", "abc"}}}
				i := 0
				for _, src := range []string{"written", "merged", encVariants[0].String()} {
					data := c15bytes(r, src, m)
					for l := len(data) - 1; l >= 0; l-- {
						for ci, cmd := range c15cmds {
							// Quick: every prefix with one command in turn, the last and first 20 with all.
							if quick && l < len(data)-20 && l > 20 && (l+ci)%len(c15cmds) != 0 {
								continue
							}
							i++
							if i%k == sh {
								c15tool(r, &c15case{Src: src, Set: m, Len: l, Total: len(data), Cmd: cmd}, data)
							}
						}
					}
				}
			})...)
			return js
		},
		Replay: func(r *Run, raw json.RawMessage) {
			c := caseOf[c15case](raw)
			var data []byte
			r.must(&c, "building", func() { data = c15bytes(r, c.Src, c.Set) })
			if c.Len > len(data) {
				return
			}
			if c.Cmd != "" {
				c15tool(r, &c, data)
				return
			}
			name := filepath.Join(r.Scratch, "prefix")
			mustWrite(name, data[:c.Len])
			c15open(r, &c, name)
		},
	})
}
