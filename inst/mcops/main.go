// Command mcops runs operations of the library under a controlled schedule.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"strings"

	"github.com/google/codesearch/index"
	"github.com/google/codesearch/regexp"
	"verifmc/inst/mcsched"
)

// chunks delivers its data in pieces of two lines.
type chunks struct{ s string }

func (c *chunks) Read(p []byte) (int, error) {
	if c.s == "" {
		return 0, io.EOF
	}
	mcsched.Y(1 << 30)
	n := min(len(c.s), len(p), 7)
	copy(p, c.s[:n])
	c.s = c.s[n:]
	return n, nil
}

type sink struct{ b bytes.Buffer }

func (s *sink) Write(p []byte) (int, error) {
	mcsched.Y(1<<30 + 1)
	return s.b.Write(p)
}

func must[T any](x T, err error) T {
	if err != nil {
		panic(err)
	}
	return x
}

func grep(expr, text string, set func(g *regexp.Grep)) func() string {
	return func() string {
		re, err := regexp.Compile(expr)
		if err != nil {
			return err.Error()
		}
		var out, serr sink
		g := &regexp.Grep{Regexp: re, Stdout: &out, Stderr: &serr}
		set(g)
		g.Reader(&chunks{text}, "f1")
		g.Reader(&chunks{strings.ToUpper(text)}, "f2")
		return fmt.Sprintf("%s|%s|%v %d %v", out.b.String(), serr.b.String(), g.Match, g.Matches, g.Limited)
	}
}

func match(expr string, texts ...string) func() string {
	return func() string {
		re, err := regexp.Compile(expr)
		if err != nil {
			return err.Error()
		}
		s := re.String()
		for _, t := range texts {
			s += fmt.Sprint(" ", re.MatchString(t, true, true), re.Match([]byte(t), false, true))
		}
		return s
	}
}

func query(expr string) func() string {
	return func() string {
		re, err := regexp.Compile(expr)
		if err != nil {
			return err.Error()
		}
		return index.RegexpQuery(re.Syntax).String()
	}
}

func posting(ix func() *index.Index, expr string) func() string {
	return func() string {
		re := must(regexp.Compile(expr))
		ix := ix()
		s := ""
		for _, id := range ix.PostingQuery(index.RegexpQuery(re.Syntax)) {
			s += fmt.Sprint(" ", id, ix.Name(id).String())
		}
		return s
	}
}

func main() {
	log.SetOutput(io.Discard)
	var c mcsched.Config
	if err := json.Unmarshal([]byte(os.Getenv("MC_SCHED")), &c); err != nil {
		panic(err)
	}
	text := "ab\nx\n\tab q\n"
	mcsched.Explore(&c, func() (fs []func() string) {
		var shared *index.Index
		open := func() *index.Index { // one index, opened before the threads start
			return shared
		}
		for _, i := range c.Ops {
			if i >= 9 && i <= 13 && shared == nil {
				shared = index.Open(c.Index)
			}
		}
		all := []func() string{
			grep("(?m)ab", text, func(g *regexp.Grep) { g.N = true }),
			grep("(?m)^x|q$", text, func(g *regexp.Grep) { g.PreContext, g.PostContext = 1, 1 }),
			grep("(?im)AB|z", text, func(g *regexp.Grep) { g.HTML = true; g.Limit = 3 }),
			grep("(?m)o+", text, func(g *regexp.Grep) { g.V = true }),
			match("(?i)(a|c)k", "aK", "\u212a"),
			match("(?m)^\\bf\\b.*$", "x f\nf b"),
			query("(abc|abd)x+(fo)?|a_long_identifier[0-9]+\\.go"),
			query("(?i)hel|w.ld|another_rather_long_name|a*"),
			query("[ab]{2}(d|e)fg"),
			posting(open, "one|tw|three text one"),
			posting(open, "te[xy]"),
			posting(open, "."),
			func() string {
				ix := open()
				s := ""
				for p := range ix.Roots().All() {
					s += p.String() + " "
				}
				for p := range ix.Names(0, 5) {
					s += p.String() + " "
				}
				return s
			},
			func() string {
				ix := open()
				return fmt.Sprint(ix.PostingList('t'<<16|'e'<<8|'x'), ix.Name(2).String(), ix.Name(0).String())
			},
			func() string { // opening the same file twice
				ix := index.Open(c.Index)
				return fmt.Sprint(ix.PostingList('o'<<16|'n'<<8|'e'), ix.Name(1).String())
			},
			func() string { return index.File() },
			match("a{2,1}"),
			grep("(?m)ab", text, func(g *regexp.Grep) { g.C = true; g.HTML = true }),
		}
		for _, i := range c.Ops {
			fs = append(fs, all[i])
		}
		return
	})
}
