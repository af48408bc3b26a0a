package main

import (
	"bytes"
	"fmt"
	"html"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// webAddr is where csweb listens; it is fixed in the program.
const webAddr = "localhost:2473"

// A webServer is a running csweb. Only one can run at a time, so it holds a lock.
type webServer struct {
	r      *Run
	lock   *os.File
	cmd    *exec.Cmd
	errs   bytes.Buffer
	client *http.Client
	done   chan struct{}
	index  string
	bin    string
	args   []string
	files  int // how many files it may have open at once; 0 for any number
}

// startWeb waits for its turn and starts csweb on the given index.
func (r *Run) startWeb(index string) *webServer {
	return r.startWebBin(filepath.Join(binDir(), "csweb"), index)
}

func (r *Run) startWebBin(bin, index string) *webServer {
	return r.startWebOpt(webServer{bin: bin, index: index})
}

func (r *Run) startWebOpt(o webServer) *webServer {
	f, err := os.OpenFile("/tmp/mc-csweb.lock", os.O_RDWR|os.O_CREATE, 0666)
	if err != nil {
		panic(harnessErr(err.Error()))
	}
	for syscall.Flock(int(f.Fd()), syscall.LOCK_EX|syscall.LOCK_NB) != nil {
		time.Sleep(20 * time.Millisecond)
		r.Tick()
	}
	w := &o
	w.r, w.lock = r, f
	if w.bin == "" {
		w.bin = filepath.Join(binDir(), "csweb")
	}
	w.start()
	return w
}

func (w *webServer) start() {
	if c, err := net.DialTimeout("tcp", webAddr, time.Second); err == nil {
		c.Close()
		panic(harnessErr("something else is listening on " + webAddr))
	}
	w.errs.Reset()
	w.cmd = exec.Command(w.bin, w.args...)
	if w.files > 0 {
		w.cmd = exec.Command("/bin/sh", append([]string{"-c", fmt.Sprintf(`ulimit -n %d && exec "$0" "$@"`, w.files), w.bin}, w.args...)...)
	}
	w.cmd.Dir = w.r.Scratch
	w.cmd.Env = w.r.cliEnv(cliOpt{Index: w.index})
	w.cmd.Stderr = &w.errs
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := w.cmd.Start(); err != nil {
		panic(harnessErr(err.Error()))
	}
	w.done = make(chan struct{})
	go func(c *exec.Cmd, d chan struct{}) { c.Wait(); close(d) }(w.cmd, w.done)
	w.client = &http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 64, DisableCompression: true}}
	for i := 0; ; i++ {
		c, err := net.DialTimeout("tcp", webAddr, time.Second)
		if err == nil {
			c.Close()
			return
		}
		select {
		case <-w.done:
			panic(harnessErr("csweb does not start: " + w.errs.String()))
		default:
		}
		if i > 2000 {
			panic(harnessErr("csweb does not listen on " + webAddr))
		}
		time.Sleep(5 * time.Millisecond)
		w.r.Tick()
	}
}

func (w *webServer) stop() {
	w.client.CloseIdleConnections()
	w.cmd.Process.Kill()
	<-w.done
}

func (w *webServer) close() {
	w.stop()
	w.lock.Close()
}

type webPage struct {
	Code   int
	Type   string // content type
	Body   string
	Final  string // path of the page after redirects
	Nosnif bool
	NoHTML bool // the response cannot be taken for a page with markup
}

// get fetches a URL path with query (already escaped), following redirects.
func (w *webServer) get(c any, target string) webPage {
	p, err := w.fetch(target)
	if err != nil {
		time.Sleep(200 * time.Millisecond)
		select {
		case <-w.done:
			w.r.Fail(c, "csweb died answering %q: %v\n%s", target, err, trunc(w.errs.String(), 2000))
		default:
		}
		w.r.Fail(c, "csweb does not answer %q: %v", target, err)
	}
	w.r.Tick()
	return p
}

func (w *webServer) fetch(target string) (webPage, error) {
	req, err := http.NewRequest("GET", "http://"+webAddr+target, nil)
	if err != nil {
		return webPage{}, err
	}
	res, err := w.client.Do(req)
	if err != nil {
		return webPage{}, err
	}
	b, err := io.ReadAll(res.Body)
	res.Body.Close()
	if err != nil {
		return webPage{}, err
	}
	p := webPage{Code: res.StatusCode, Type: res.Header.Get("Content-Type"), Body: string(b), Final: res.Request.URL.Path}
	p.Nosnif = res.Header.Get("X-Content-Type-Options") == "nosniff"
	t := strings.ToLower(p.Type)
	p.NoHTML = t != "" && !strings.Contains(t, "html") && !strings.Contains(t, "xml") && !strings.Contains(t, "javascript") && !strings.Contains(t, "svg")
	return p, nil
}

// A tok is a piece of an HTML page: text (Tag ""), or a tag with its attributes.
type tok struct {
	Tag   string // "a", "/a", "!doctype", "!--" ...
	Attrs [][2]string
	Text  string // unescaped text
}

func (t tok) String() string {
	if t.Tag == "" {
		return fmt.Sprintf("%q", t.Text)
	}
	s := "<" + t.Tag
	for _, a := range t.Attrs {
		s += fmt.Sprintf(" %s=%q", a[0], a[1])
	}
	return s + ">"
}

func isSpaceHTML(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\f' || c == '\r' }

func isAlphaHTML(c byte) bool { return c|0x20 >= 'a' && c|0x20 <= 'z' }

// tokenize splits a page as a browser would (the tokenizer of the HTML standard, without its parse errors).
func tokenize(s string) (out []tok) {
	text := ""
	flush := func() {
		if text != "" {
			out = append(out, tok{Text: html.UnescapeString(text)})
			text = ""
		}
	}
	i := 0
	for i < len(s) {
		if s[i] != '<' || i+1 >= len(s) {
			text += s[i : i+1]
			j := strings.IndexByte(s[i+1:], '<')
			if j < 0 {
				j = len(s) - i - 1
			}
			text += s[i+1 : i+1+j]
			i += 1 + j
			continue
		}
		c := s[i+1]
		switch {
		case strings.HasPrefix(s[i:], "<!--"):
			flush()
			j := strings.Index(s[i+4:], "-->")
			e := len(s)
			if j >= 0 {
				e = i + 4 + j + 3
			}
			out = append(out, tok{Tag: "!--", Attrs: [][2]string{{"comment", s[i:e]}}})
			i = e
			continue
		case c == '!' || c == '?' || c == '/' && i+2 < len(s) && !isAlphaHTML(s[i+2]):
			flush()
			j := strings.IndexByte(s[i:], '>')
			e := len(s)
			if j >= 0 {
				e = i + j + 1
			}
			out = append(out, tok{Tag: strings.ToLower(strings.TrimSuffix(s[i+1:e], ">"))})
			i = e
			continue
		case isAlphaHTML(c) || c == '/' && i+2 < len(s):
			flush()
			j := i + 1
			if c == '/' {
				j++
			}
			for j < len(s) && !isSpaceHTML(s[j]) && s[j] != '>' && s[j] != '/' {
				j++
			}
			t := tok{Tag: strings.ToLower(s[i+1 : j])}
			closed := false
			for j < len(s) {
				for j < len(s) && (isSpaceHTML(s[j]) || s[j] == '/') {
					j++
				}
				if j >= len(s) {
					break
				}
				if s[j] == '>' {
					j++
					closed = true
					break
				}
				k := j
				j++ // a leading '=' is part of the name
				for j < len(s) && !isSpaceHTML(s[j]) && s[j] != '=' && s[j] != '>' && s[j] != '/' {
					j++
				}
				name := strings.ToLower(s[k:j])
				val := ""
				m := j
				for m < len(s) && isSpaceHTML(s[m]) {
					m++
				}
				if m < len(s) && s[m] == '=' {
					j = m + 1
					for j < len(s) && isSpaceHTML(s[j]) {
						j++
					}
					if j < len(s) && (s[j] == '"' || s[j] == '\'') {
						q := s[j]
						e := strings.IndexByte(s[j+1:], q)
						if e < 0 {
							val = s[j+1:]
							j = len(s)
						} else {
							val = s[j+1 : j+1+e]
							j += e + 2
						}
					} else {
						k = j
						for j < len(s) && !isSpaceHTML(s[j]) && s[j] != '>' {
							j++
						}
						val = s[k:j]
						name += "(unquoted)"
					}
				}
				t.Attrs = append(t.Attrs, [2]string{name, html.UnescapeString(val)})
			}
			if !closed {
				t.Tag += " (unclosed)"
			}
			out = append(out, t)
			i = j
			// Elements whose content is not markup.
			switch t.Tag {
			case "script", "style", "title", "textarea", "xmp", "iframe", "noembed", "noframes":
				e := strings.Index(strings.ToLower(s[i:]), "</"+t.Tag)
				if e < 0 {
					e = len(s) - i
				}
				raw := s[i : i+e]
				if t.Tag == "title" || t.Tag == "textarea" {
					raw = html.UnescapeString(raw)
				}
				if raw != "" {
					out = append(out, tok{Text: raw})
				}
				i += e
			case "plaintext":
				out = append(out, tok{Text: s[i:]})
				i = len(s)
			}
			continue
		}
		text += "<"
		i++
	}
	flush()
	return
}

// A link is a URL reference taken apart.
type link struct {
	Path, Query, Frag string
	Q                 map[string]string
	Bad               string
}

func parseLink(s string) (l link) {
	s, frag, _ := strings.Cut(s, "#")
	p, q, _ := strings.Cut(s, "?")
	var err error
	if l.Path, err = url.PathUnescape(p); err != nil {
		l.Bad = err.Error()
	}
	if l.Frag, err = url.PathUnescape(frag); err != nil {
		l.Bad = err.Error()
	}
	l.Query = q
	v, err := url.ParseQuery(q)
	if err != nil {
		l.Bad = err.Error()
	}
	l.Q = map[string]string{}
	for k := range v {
		l.Q[k] = strings.Join(v[k], "\x00")
	}
	return
}

// words replaces tokens by what they stand for, longest name first (their names do not overlap otherwise).
type words [][2]string

func (m words) apply(s string) string {
	for _, w := range m {
		s = strings.ReplaceAll(s, w[0], w[1])
	}
	return s
}

func isURLAttr(tag, attr string) bool { return attr == "href" || attr == "src" || attr == "action" }

// sameButFor compares a page with its harmless twin: the same tags with the same attributes in the same places,
// and text and values that differ exactly as the words do. drop, if set, edits both texts first.
func sameButFor(twin, got []tok, m words, drop func(string) string) error {
	for i := 0; i < len(twin) || i < len(got); i++ {
		if i >= len(got) {
			return fmt.Errorf("the page lacks %v", twin[i])
		}
		if i >= len(twin) {
			return fmt.Errorf("the page has an additional %v", got[i])
		}
		a, b := twin[i], got[i]
		if a.Tag != b.Tag {
			return fmt.Errorf("the page has %v where its harmless twin has %v", b, a)
		}
		if a.Tag == "" {
			x, y := a.Text, b.Text
			if drop != nil {
				x, y = drop(x), drop(y)
			}
			if m.apply(x) != y {
				return fmt.Errorf("text reads %q, want %q", y, m.apply(x))
			}
			continue
		}
		if len(a.Attrs) != len(b.Attrs) {
			return fmt.Errorf("the page has %v where its harmless twin has %v", b, a)
		}
		for k := range a.Attrs {
			if a.Attrs[k][0] != b.Attrs[k][0] {
				return fmt.Errorf("the page has %v where its harmless twin has %v", b, a)
			}
			x, y := a.Attrs[k][1], b.Attrs[k][1]
			if isURLAttr(a.Tag, a.Attrs[k][0]) {
				lx, ly := parseLink(x), parseLink(y)
				if ly.Bad != "" || m.apply(lx.Path) != ly.Path || m.apply(lx.Frag) != ly.Frag || len(lx.Q) != len(ly.Q) {
					return fmt.Errorf("link %q, want one to %q with query and fragment %q#%q (%s)", y, m.apply(lx.Path), m.apply(lx.Query), m.apply(lx.Frag), ly.Bad)
				}
				for q := range lx.Q {
					if m.apply(lx.Q[q]) != ly.Q[q] {
						return fmt.Errorf("link %q: parameter %s is %q, want %q", y, q, ly.Q[q], m.apply(lx.Q[q]))
					}
				}
				continue
			}
			if m.apply(x) != y {
				return fmt.Errorf("attribute %s of %s is %q, want %q", a.Attrs[k][0], a.Tag, y, m.apply(x))
			}
		}
	}
	return nil
}

// textOf is all the text of a page.
func textOf(t []tok) string {
	var b strings.Builder
	for _, x := range t {
		b.WriteString(x.Text)
	}
	return b.String()
}

func sortedWords(m words) words {
	sort.SliceStable(m, func(i, j int) bool { return len(m[i][0]) > len(m[j][0]) })
	return m
}
