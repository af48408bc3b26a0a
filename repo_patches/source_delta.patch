From 13fe1f288c2e7940bc71ad03176cb6f6b048d971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 01/24] fix: sparse: make Init of a non-empty Set leave it
 empty

Init replaced the sparse array but kept the old dense values, so a reused
Set still held members and could then list one twice.
---
 sparse/set.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sparse/set.go b/sparse/set.go
index 0052175..87a3695 100644
--- a/sparse/set.go
+++ b/sparse/set.go
@@ -27,6 +27,7 @@ func NewSet(max uint32) *Set {
 // Init initializes a Set to have a given maximum size.
 // The set can contain numbers in [0, max-1].
 func (s *Set) Init(max uint32) {
+	s.dense = s.dense[:0]
 	s.sparse = make([]uint32, max)
 }
 
-- 
2.43.0


From 186e9ee982fe519a795f057cd41e7c928152da2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 02/24] fix: index: do not copy the end-of-posting-lists marker
 in Merge

Merge copied the 0xffffff end marker of its inputs like a posting list and
then wrote another one, so every merge added a marker, and merging an index
with two of them panicked with "no progress": the fourth cindex run on the
same index always crashed.
---
 index/merge.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/index/merge.go b/index/merge.go
index 55c5456..e749dd7 100644
--- a/index/merge.go
+++ b/index/merge.go
@@ -347,6 +347,12 @@ func (r *postMapReader) load(force bool) {
 		r.offset += int(n2)
 		r.block = b
 	}
+	if r.trigram == invalidTrigram {
+		// End marker, not a posting list. Merge writes its own.
+		r.triNum = r.ix.numPost
+		r.trigram = ^uint32(0)
+		r.count = 0
+	}
 	if r.count == 0 {
 		r.fileid = -1
 		return
-- 
2.43.0


From 37bbb302acb3814cec6d10feea6c5548e1228077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 03/24] fix: index: treat the root directory as containing
 every path

Merge computed the range covered by root "/" as ending at "/\x02", which is
before "/a", so re-indexing "/" panicked with "inconsistent index"; and
HasPathPrefix did not consider "/a" to be below "/".
---
 index/merge.go | 4 +++-
 index/path.go  | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/index/merge.go b/index/merge.go
index e749dd7..13f0ef0 100644
--- a/index/merge.go
+++ b/index/merge.go
@@ -34,6 +34,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"os"
+	"strings"
 )
 
 // An idrange records that the half-open interval [lo, hi) maps to [new, new+hi-lo).
@@ -74,7 +75,8 @@ func Merge(dst, src1, src2 string) {
 		// but not food or fop. Slash compares equal to \x00,
 		// and if foo is a zip file, foo\x01 is a file in it,
 		// so use foo\x02 as the limit.
-		limit := MakePath(root.String() + "\x02")
+		// The root directory / already ends in a slash.
+		limit := MakePath(strings.TrimSuffix(root.String(), "/") + "\x02")
 		for i1 < ix1.numName && name1.Compare(limit) < 0 {
 			names1.Next()
 			name1 = names1.Path()
diff --git a/index/path.go b/index/path.go
index d5b0f90..1b6357b 100644
--- a/index/path.go
+++ b/index/path.go
@@ -32,6 +32,7 @@ func (p Path) String() string {
 func (p Path) HasPathPrefix(parent Path) bool {
 	return strings.HasPrefix(p.s, parent.s) &&
 		(p.s == parent.s ||
+			strings.HasSuffix(parent.s, "/") ||
 			p.s[len(parent.s)] == '/' ||
 			p.s[len(parent.s)] == os.PathSeparator)
 }
-- 
2.43.0


From 82ce826d9aa6c27e51f00cca8790612aff671f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 04/24] fix: index: do not share storage between prefix and
 suffix sets in alternate

Both unions appended to the spare capacity of x.exact, so the suffix set
overwrote the prefix set (and x.exact itself was reordered before addExact
used it). For example the query for (?:[abc]|de.*fg) wanted files to contain
"fg" where the match starts, and files with matches were not searched.
---
 index/regexp.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index/regexp.go b/index/regexp.go
index 4f336fe..824f595 100644
--- a/index/regexp.go
+++ b/index/regexp.go
@@ -604,8 +604,8 @@ func alternate(x, y regexpInfo) (out regexpInfo) {
 	if x.exact.have() && y.exact.have() {
 		xy.exact = x.exact.union(y.exact, false)
 	} else if x.exact.have() {
-		xy.prefix = x.exact.union(y.prefix, false)
-		xy.suffix = x.exact.union(y.suffix, true)
+		xy.prefix = x.exact.copy().union(y.prefix, false)
+		xy.suffix = x.exact.copy().union(y.suffix, true)
 		x.addExact()
 	} else if y.exact.have() {
 		xy.prefix = x.prefix.union(y.exact, false)
-- 
2.43.0


From 48beaa2b8cc32dba15899bf50bb6164722c8aa81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 05/24] fix: regexp: do not report a match on the empty text
 after the last newline

A pattern matching the empty line, like ^$, matched after the newline that
ends the input (or the current buffer), so Grep printed an additional empty
line that is not in the file, and counted its number wrongly afterward.
---
 regexp/match.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/regexp/match.go b/regexp/match.go
index 7a90d1a..a89f460 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -467,6 +467,10 @@ func (g *Grep) Reader(r io.Reader, name string) {
 			if m1 < chunkStart {
 				break
 			}
+			if m1 == end && buf[m1-1] == '\n' {
+				// The empty text after the final newline is not a line.
+				break
+			}
 			g.Match = true
 			if g.Limit > 0 && g.Matches >= g.Limit {
 				g.Limited = true
-- 
2.43.0


From 6e13d30a0f5367b5858030d430cc0cb1c6801951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 06/24] fix: regexp: maintain line numbers when printing
 context

Context output always prints a line number, but it was only computed with
-n or in HTML mode; otherwise every match was shown at line 1.
---
 regexp/match.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexp/match.go b/regexp/match.go
index a89f460..4d588a0 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -435,7 +435,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 	}
 	var (
 		buf        = g.buf[:0]
-		needLineno = g.N || g.HTML
+		needLineno = g.N || g.HTML || g.PreContext+g.PostContext > 0
 		lineno     = 1
 		count      = 0
 		prefix     = ""
-- 
2.43.0


From 14db3c8efb4f7fd19908a84760fce3dec32bb709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 07/24] fix: regexp: do not split lines when context or long
 lines fill the buffer

When the lines to hold back for context did not fit in the buffer next to
the pre-context, or the buffer held a single newline, Grep treated the
whole buffer as complete lines and split the last one, or set end before
chunkStart and panicked. Hold back as many whole lines as possible instead,
and drop the pre-context if a line needs the room.
---
 regexp/match.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/regexp/match.go b/regexp/match.go
index 4d588a0..1bea5f0 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -455,8 +455,18 @@ func (g *Grep) Reader(r io.Reader, name string) {
 			// also stop before g.PostContext whole lines,
 			// so we know we'll have the context we need to print.
 			d := lineSuffixLen(buf, g.PostContext+1)
-			if d < len(buf) {
+			if d >= len(buf)-chunkStart {
+				// Not enough room; give up on context.
+				d = lineSuffixLen(buf, 0)
+			}
+			if d < len(buf)-chunkStart {
 				end = len(buf) - d
+			} else if chunkStart > 0 {
+				// No complete line; make room by dropping the pre-context.
+				n = copy(buf, buf[chunkStart:])
+				buf = buf[:n]
+				chunkStart = 0
+				continue
 			}
 		} else {
 			endText = true
-- 
2.43.0


From 7648d4ca7578593d16d6c8363604b6e5c1e0054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 08/24] fix: regexp: escape context lines and read errors in
 HTML mode

csearch -html with -A, -B or -C printed names and file contents verbatim,
and read errors (sent to the page by csweb) were not escaped either.
---
 regexp/match.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/regexp/match.go b/regexp/match.go
index 1bea5f0..9b42e70 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -512,14 +512,14 @@ func (g *Grep) Reader(r io.Reader, name string) {
 			case g.C:
 				count++
 			case g.PreContext+g.PostContext > 0:
-				fmt.Fprintf(g.Stdout, "%s%d:\n", prefix, lineno)
+				fmt.Fprintf(g.Stdout, "%s%d:\n", g.esc(prefix), lineno)
 				before, match, after := lineContext(g.PreContext, g.PostContext, buf, lineStart, lineEnd)
 				for _, line := range before {
-					fmt.Fprintf(g.Stdout, "\t\t%s\n", line)
+					fmt.Fprintf(g.Stdout, "\t\t%s\n", g.esc(string(line)))
 				}
-				fmt.Fprintf(g.Stdout, "\t>>\t%s\n", match)
+				fmt.Fprintf(g.Stdout, "\t>>\t%s\n", g.esc(string(match)))
 				for _, line := range after {
-					fmt.Fprintf(g.Stdout, "\t\t%s\n", line)
+					fmt.Fprintf(g.Stdout, "\t\t%s\n", g.esc(string(line)))
 				}
 			case g.HTML:
 				fmt.Fprintf(g.Stdout, "<a href=\"/show/%s?q=%s#L%d\">%s:%d</a>:%s%s", g.esc(strings.ReplaceAll(name, "#", ">")), g.esc(g.Regexp.String()), lineno, g.esc(name), lineno, g.esc(string(line)), nl)
@@ -547,7 +547,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 		chunkStart = d
 		if endText && err != nil {
 			if err != io.EOF && err != io.ErrUnexpectedEOF {
-				fmt.Fprintf(g.Stderr, "%s: %v\n", g.esc(name), err)
+				fmt.Fprintf(g.Stderr, "%s: %s\n", g.esc(name), g.esc(err.Error()))
 			}
 			break
 		}
-- 
2.43.0


From b958cf277adebd78aa7ba9f838c8f2c7ef3a2569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 09/24] fix: csweb: escape regular expression errors

The error quotes the offending part of the expression, so a link such as
/?q=(?<script>... injected markup into the page.
---
 cmd/csweb/web.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/csweb/web.go b/cmd/csweb/web.go
index 4b46d92..70d0004 100644
--- a/cmd/csweb/web.go
+++ b/cmd/csweb/web.go
@@ -56,7 +56,7 @@ func home(w http.ResponseWriter, r *http.Request) {
 	pat := "(?m)" + qarg
 	re, err := regexp.Compile(pat)
 	if err != nil {
-		fmt.Fprintf(w, "Bad query: %v\n", err)
+		fmt.Fprintf(w, "Bad query: %s\n", html.EscapeString(err.Error()))
 		return
 	}
 	g.Regexp = re
@@ -65,7 +65,7 @@ func home(w http.ResponseWriter, r *http.Request) {
 	if farg != "" {
 		fre, err = regexp.Compile(farg)
 		if err != nil {
-			fmt.Fprintf(w, "Bad -f flag: %v\n", err)
+			fmt.Fprintf(w, "Bad -f flag: %s\n", html.EscapeString(err.Error()))
 			return
 		}
 	}
-- 
2.43.0


From b4dc3c39b7027d346e2280c0a6fb19d310eb1c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 10/24] fix: csweb: show files with CRLF line endings as text

isText rejected carriage returns, so such files, which cindex does index,
were written without escaping and without the line anchors that search
results link to; and one beginning like an HTML page was rendered as one,
as was any other file with control characters.
---
 cmd/csweb/web.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/csweb/web.go b/cmd/csweb/web.go
index 70d0004..1909a9a 100644
--- a/cmd/csweb/web.go
+++ b/cmd/csweb/web.go
@@ -199,6 +199,11 @@ func show(w http.ResponseWriter, r *http.Request) {
 		http.Error(w, err.Error(), 500)
 		return
 	}
+	if !isText(data) && strings.HasPrefix(http.DetectContentType(data), "text/") {
+		// Not shown as a page; keep the browser from rendering it as one.
+		w.Header().Set("Content-Type", "text/plain; charset=utf-8")
+		w.Header().Set("X-Content-Type-Options", "nosniff")
+	}
 	w.Write(serveFile(file, data))
 }
 
@@ -265,7 +270,7 @@ func isText(s []byte) bool {
 			// last char may be incomplete - ignore
 			break
 		}
-		if c == 0xFFFD || c < ' ' && c != '\n' && c != '\t' && c != '\f' {
+		if c == 0xFFFD || c < ' ' && c != '\n' && c != '\t' && c != '\f' && c != '\r' {
 			// decoding error or control character - not a text file
 			return false
 		}
-- 
2.43.0


From ff1131a47d565d15760f88e9ba18c80f80f14dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 11/24] fix: csweb: URL-escape names and queries in links

Names and the query were only HTML-escaped, so the link of every result of a
query like #include lost its line (the # began the fragment), and files with
#, ? or % in their name could not be opened from search results or
directory pages.
---
 cmd/csweb/web.go |  6 ++++--
 regexp/match.go  | 13 +++++++++----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/cmd/csweb/web.go b/cmd/csweb/web.go
index 1909a9a..5da9bd0 100644
--- a/cmd/csweb/web.go
+++ b/cmd/csweb/web.go
@@ -14,6 +14,7 @@ import (
 	"io/fs"
 	"log"
 	"net/http"
+	"net/url"
 	"os"
 	"path"
 	"path/filepath"
@@ -217,7 +218,7 @@ func printHeader(buf *bytes.Buffer, file string) {
 	f := ""
 	for _, elem := range strings.Split(file, "/") {
 		f += "/" + elem
-		fmt.Fprintf(buf, `/<a href="/show%s">%s</a>`, e(f), e(elem))
+		fmt.Fprintf(buf, `/<a href="/show%s">%s</a>`, e((&url.URL{Path: f}).EscapedPath()), e(elem))
 	}
 	fmt.Fprintf(buf, `</b> <small>(<a href="/">about</a>)</small>`)
 	fmt.Fprintf(buf, "\n\n")
@@ -226,11 +227,12 @@ func printHeader(buf *bytes.Buffer, file string) {
 func serveDir(file string, dir []fs.DirEntry) []byte {
 	var buf bytes.Buffer
 	e := html.EscapeString
+	link := func(name string) string { return e((&url.URL{Path: name}).EscapedPath()) }
 	printHeader(&buf, file)
 	for _, d := range dir {
 		// Note: file is the full path including mod@vers.
 		file := path.Join(file, d.Name())
-		fmt.Fprintf(&buf, "<a href=\"/show%s\">%s</a>\n", e(file), e(path.Base(file)))
+		fmt.Fprintf(&buf, "<a href=\"/show%s\">%s</a>\n", link(file), e(path.Base(file)))
 	}
 	return buf.Bytes()
 }
diff --git a/regexp/match.go b/regexp/match.go
index 9b42e70..879ad59 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -11,11 +11,11 @@ import (
 	"fmt"
 	"html"
 	"io"
+	"net/url"
 	"os"
 	"regexp/syntax"
 	"sort"
 	"strconv"
-	"strings"
 
 	"github.com/google/codesearch/sparse"
 )
@@ -404,6 +404,11 @@ func (g *Grep) esc(s string) string {
 	return s
 }
 
+// pathEscape escapes name for use as the path of a URL.
+func pathEscape(name string) string {
+	return (&url.URL{Path: name}).EscapedPath()
+}
+
 func (g *Grep) File(name string) {
 	f, err := os.Open(name)
 	if err != nil {
@@ -489,7 +494,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 			g.Matches++
 			if g.L {
 				if g.HTML {
-					fmt.Fprintf(g.Stdout, "<a href=\"show/%s\">%s</a>\n", g.esc(name), g.esc(name))
+					fmt.Fprintf(g.Stdout, "<a href=\"show/%s\">%s</a>\n", g.esc(pathEscape(name)), g.esc(name))
 				} else {
 					fmt.Fprintf(g.Stdout, "%s\n", name)
 				}
@@ -522,7 +527,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 					fmt.Fprintf(g.Stdout, "\t\t%s\n", g.esc(string(line)))
 				}
 			case g.HTML:
-				fmt.Fprintf(g.Stdout, "<a href=\"/show/%s?q=%s#L%d\">%s:%d</a>:%s%s", g.esc(strings.ReplaceAll(name, "#", ">")), g.esc(g.Regexp.String()), lineno, g.esc(name), lineno, g.esc(string(line)), nl)
+				fmt.Fprintf(g.Stdout, "<a href=\"/show/%s?q=%s#L%d\">%s:%d</a>:%s%s", g.esc(pathEscape(name)), url.QueryEscape(g.Regexp.String()), lineno, g.esc(name), lineno, g.esc(string(line)), nl)
 			case g.N:
 				fmt.Fprintf(g.Stdout, "%s%d:%s%s", prefix, lineno, line, nl)
 			default:
@@ -554,7 +559,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 	}
 	if g.C && count > 0 {
 		if g.HTML {
-			fmt.Fprintf(g.Stdout, "<a href=\"show/%s?q=%s\">%s</a>: %d\n", g.esc(name), g.esc(g.Regexp.String()), g.esc(name), count)
+			fmt.Fprintf(g.Stdout, "<a href=\"show/%s?q=%s\">%s</a>: %d\n", g.esc(pathEscape(name)), url.QueryEscape(g.Regexp.String()), g.esc(name), count)
 		} else {
 			fmt.Fprintf(g.Stdout, "%s: %d\n", name, count)
 		}
-- 
2.43.0


From f3a7944ad57a1a20b3f8518f07233342cacab1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:31 +0000
Subject: [PATCH 12/24] fix: cindex: do not crash on a missing root with a
 hidden name

filepath.Walk passes a nil FileInfo for a root that cannot be examined.
---
 cmd/cindex/cindex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/cindex/cindex.go b/cmd/cindex/cindex.go
index d82bf6c..702d5f9 100644
--- a/cmd/cindex/cindex.go
+++ b/cmd/cindex/cindex.go
@@ -143,7 +143,7 @@ func main() {
 			if _, elem := filepath.Split(path); elem != "" {
 				// Skip various temporary or "hidden" files or directories.
 				if elem[0] == '.' || elem[0] == '#' || elem[0] == '~' || elem[len(elem)-1] == '~' {
-					if info.IsDir() {
+					if info != nil && info.IsDir() {
 						return filepath.SkipDir
 					}
 					return nil
-- 
2.43.0


From 3526ad8657cec9f69a9ef540d13d035765749dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:31 +0000
Subject: [PATCH 13/24] fix: cindex: index each file once when roots are
 repeated or nested

"cindex /src /src/a" wrote the files below /src/a twice and out of order,
so csearch printed every match in them twice.
---
 cmd/cindex/cindex.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cmd/cindex/cindex.go b/cmd/cindex/cindex.go
index 702d5f9..105abe9 100644
--- a/cmd/cindex/cindex.go
+++ b/cmd/cindex/cindex.go
@@ -115,6 +115,17 @@ func main() {
 			roots = append(roots, index.MakePath(a))
 		}
 		slices.SortFunc(roots, index.Path.Compare)
+
+		// Drop duplicate roots and roots inside other roots,
+		// so that each file is indexed once and in order.
+		n := 0
+		for _, root := range roots {
+			if n == 0 || !root.HasPathPrefix(roots[n-1]) {
+				roots[n] = root
+				n++
+			}
+		}
+		roots = roots[:n]
 	}
 
 	master := index.File()
-- 
2.43.0


From 31ffc010af4c42e44add84618f0b4c2160950ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:32 +0000
Subject: [PATCH 14/24] fix: cindex: fail if the new index cannot be put in
 place

The error of the final rename was ignored: cindex printed "done" and
exited successfully with the old index still in place.
---
 cmd/cindex/cindex.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/cindex/cindex.go b/cmd/cindex/cindex.go
index 105abe9..f73b17c 100644
--- a/cmd/cindex/cindex.go
+++ b/cmd/cindex/cindex.go
@@ -186,7 +186,9 @@ func main() {
 			}
 		}
 		os.Remove(file)
-		os.Rename(file+"~", master)
+		if err := os.Rename(file+"~", master); err != nil {
+			log.Fatal(err)
+		}
 	} else {
 		if *checkFlag {
 			ix := index.Open(file)
-- 
2.43.0


From c0522ba32c31134ed7a5c4599dee02ad288a03f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:32 +0000
Subject: [PATCH 15/24] fix: index: index each zip member once, under a valid
 name, and report errors

An archive with two members of one name was listed twice, with posting
lists that did not match the member csearch reads. Member names were not
checked for control characters, unlike file names, and errors opening a
member printed a nil reader (and a debugging line) instead of its name,
while errors reading one were dropped.
---
 index/write.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/index/write.go b/index/write.go
index 185ed23..68ba58f 100644
--- a/index/write.go
+++ b/index/write.go
@@ -179,7 +179,7 @@ func (ix *IndexWriter) Add(name string, f io.Reader) error {
 			return err
 		}
 		files := slices.Clone(r.File)
-		slices.SortFunc(files, func(x, y *zip.File) int {
+		slices.SortStableFunc(files, func(x, y *zip.File) int {
 			for i := 0; i < len(x.Name) && i < len(y.Name); i++ {
 				if x.Name[i] == y.Name[i] {
 					continue
@@ -194,15 +194,23 @@ func (ix *IndexWriter) Add(name string, f io.Reader) error {
 			}
 			return cmp.Compare(len(x.Name), len(y.Name))
 		})
-		for _, file := range files {
+		for i, file := range files {
+			if i+1 < len(files) && files[i+1].Name == file.Name {
+				// csearch reads the last of several members with one name.
+				continue
+			}
+			if !isValidName(file.Name) {
+				log.Printf("%s: malformed member name %q", name, file.Name)
+				continue
+			}
 			r, err := file.Open()
 			if err != nil {
-				println("no3", name)
-
-				log.Printf("%s: %v", r, err)
+				log.Printf("%s: %s: %v", name, file.Name, err)
 				continue
 			}
-			ix.add(name+"\x01"+file.Name, r)
+			if err := ix.add(name+"\x01"+file.Name, r); err != nil {
+				log.Printf("%s: %s: %v", name, file.Name, err)
+			}
 			r.Close()
 		}
 		return err
-- 
2.43.0


From cbac8195fae1fe045c29a1fd53baa1920c3e2d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:32 +0000
Subject: [PATCH 16/24] fix: csearch: make csearch -l '' list the indexed files

The shortcut for an empty expression searched an empty input, which has no
line to match, so nothing was ever listed.
---
 cmd/csearch/csearch.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/csearch/csearch.go b/cmd/csearch/csearch.go
index 58af5b8..e6d50e6 100644
--- a/cmd/csearch/csearch.go
+++ b/cmd/csearch/csearch.go
@@ -6,7 +6,6 @@ package main
 
 import (
 	"archive/zip"
-	"bytes"
 	"flag"
 	"fmt"
 	"log"
@@ -147,7 +146,8 @@ func Main() {
 	for _, fileid := range post {
 		name := ix.Name(fileid).String()
 		if g.L && (pat == "(?m)" || pat == "(?i)(?m)") {
-			g.Reader(bytes.NewReader(nil), name)
+			// Every file matches; do not bother to open it.
+			g.Reader(strings.NewReader("\n"), name)
 			continue
 		}
 		file, err := os.Open(string(name))
-- 
2.43.0


From 6b535a5312c96ce21ff5ace978a35b8a3028808e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:32 +0000
Subject: [PATCH 17/24] fix: cgrep: implement the -v flag

The flag was accepted and documented but ignored: cgrep -v printed the
matching lines.
---
 regexp/match.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/regexp/match.go b/regexp/match.go
index 879ad59..4d787fb 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -434,6 +434,28 @@ func countNL(b []byte) int {
 	return n
 }
 
+// nextLine returns the end of the first line in b to print, or -1 if there is none:
+// a line that matches g.Regexp or, if g.V is set, one that does not.
+func (g *Grep) nextLine(b []byte, beginText, endText bool) int {
+	if !g.V {
+		return g.Regexp.Match(b, beginText, endText)
+	}
+	for start := 0; start < len(b); {
+		end := bytes.IndexByte(b[start:], '\n')
+		if end < 0 {
+			end = len(b)
+		} else {
+			end += start
+		}
+		if g.Regexp.Match(b[start:end], beginText, endText && end == len(b)) < 0 {
+			return end
+		}
+		beginText = false
+		start = end + 1
+	}
+	return -1
+}
+
 func (g *Grep) Reader(r io.Reader, name string) {
 	if g.buf == nil {
 		g.buf = make([]byte, 1<<20)
@@ -477,7 +499,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 			endText = true
 		}
 		for chunkStart < end {
-			m1 := g.Regexp.Match(buf[chunkStart:end], beginText, endText) + chunkStart
+			m1 := g.nextLine(buf[chunkStart:end], beginText, endText) + chunkStart
 			beginText = false
 			if m1 < chunkStart {
 				break
-- 
2.43.0


From fa7e0495f5397841a7f0b7be181d38098ac6f9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:38 +0000
Subject: [PATCH 18/24] fix: character ranges ending in the surrogate block
 matched the wrong runes

Splitting a range such as \x{1000}-\x{e000} produces pieces that end at U+DFFF,
which utf8.EncodeRune encodes as U+FFFD, dropping about 9500 runes of the range.
---
 regexp/utf.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/regexp/utf.go b/regexp/utf.go
index d587eaa..9bb012d 100644
--- a/regexp/utf.go
+++ b/regexp/utf.go
@@ -211,6 +211,14 @@ func (b *runeBuilder) addBranch(pc uint32) {
 }
 
 func (b *runeBuilder) addRange(lo, hi rune, fold bool) {
+	// Surrogates have no UTF-8 encoding (EncodeRune turns them into U+FFFD),
+	// so they cannot be the ends of a range.
+	if 0xD800 <= lo && lo <= 0xDFFF {
+		lo = 0xE000
+	}
+	if 0xD800 <= hi && hi <= 0xDFFF {
+		hi = 0xD7FF
+	}
 	if lo > hi {
 		return
 	}
-- 
2.43.0


From 7e743285e1a8856885f45b93388a79e0d8ce612a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:45 +0000
Subject: [PATCH 19/24] fix: ignore case above U+1044F

maxFold was out of date; case pairs such as U+104B1 and U+104D9 (Osage)
or U+1E900 and U+1E922 (Adlam) were not folded.
---
 regexp/copy.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regexp/copy.go b/regexp/copy.go
index 9be1987..f308cf4 100644
--- a/regexp/copy.go
+++ b/regexp/copy.go
@@ -75,9 +75,9 @@ func appendRange(r []rune, lo, hi rune) []rune {
 
 const (
 	// minimum and maximum runes involved in folding.
-	// checked during test.
+	// same as in regexp/syntax.
 	minFold = 0x0041
-	maxFold = 0x1044f
+	maxFold = 0x1e943
 )
 
 // appendFoldedRange returns the result of appending the range lo-hi
-- 
2.43.0


From 5275417c8f385d29ac134301a984612b8c6397cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:22 +0000
Subject: [PATCH 20/24] fix: reading names past the last one yielded an empty
 path

The name list is padded with zero bytes, which decode as an empty path.
---
 index/path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index/path.go b/index/path.go
index 1b6357b..3922c31 100644
--- a/index/path.go
+++ b/index/path.go
@@ -190,7 +190,7 @@ func (r *PathReader) Next() bool {
 	r.data = r.data[w:]
 	r.path.s = r.path.s[:pre] + string(r.data[:n])
 	r.data = r.data[n:]
-	return true
+	return r.Valid() // false in the padding after the last path
 }
 
 func (r *PathReader) Path() Path {
-- 
2.43.0


From d09578b1e3157c3ae35986633adbd708d729b359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:17 +0000
Subject: [PATCH 21/24] fix: index: refuse a truncated index that happens to
 end in a trailer

---
 index/read.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/index/read.go b/index/read.go
index 1c8715b..3c89903 100644
--- a/index/read.go
+++ b/index/read.go
@@ -238,6 +238,12 @@ func Open(file string) *Index {
 		ix.numPostBlock = (n - ix.postIndex) / postBlockSize
 	}
 
+	// A truncated file can end in what looks like a trailer (a root name can contain one).
+	if ix.pathData > ix.nameData || ix.nameData > ix.postData || ix.postData > ix.nameIndex ||
+		ix.nameIndex > ix.postIndex || ix.postIndex > n {
+		ix.corrupt()
+	}
+
 	return ix
 }
 
-- 
2.43.0


From a7071906206e4ac7ba2dfbc8eb40385d55e8e796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:41 +0000
Subject: [PATCH 22/24] fix: index: fail if copying a temporary file into the
 index comes up short

---
 index/write.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/index/write.go b/index/write.go
index 68ba58f..c2ca71f 100644
--- a/index/write.go
+++ b/index/write.go
@@ -376,6 +376,10 @@ func copyFile(dst, src *Buffer) {
 	if err != nil {
 		log.Fatalf("copying %s to %s: %v", src.name, dst.name, err)
 	}
+	if n != src.fileOff {
+		// After an I/O error io.Copy may report only part of what it copied.
+		log.Fatalf("copying %s to %s: copied %d bytes of %d", src.name, dst.name, n, src.fileOff)
+	}
 	dst.fileOff += n
 }
 
-- 
2.43.0


From 0826090c8bedd0c6cf9c036dffafc4210c718262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:56 +0000
Subject: [PATCH 23/24] fix: cindex: delete the old index on -reset instead of
 overwriting it

A search running at the same time has the old index mapped; truncating and
rewriting it made the search print lines from neither index, or crash. The
documentation says that -reset deletes the index.
---
 cmd/cindex/cindex.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/cindex/cindex.go b/cmd/cindex/cindex.go
index f73b17c..71529b2 100644
--- a/cmd/cindex/cindex.go
+++ b/cmd/cindex/cindex.go
@@ -132,6 +132,9 @@ func main() {
 	if _, err := os.Stat(master); err != nil {
 		// Does not exist.
 		*resetFlag = true
+	} else if *resetFlag {
+		// Searches may still be reading the old index; do not overwrite it.
+		os.Remove(master)
 	}
 	file := master
 	if !*resetFlag {
-- 
2.43.0


From 4cbf793d0988068b00a35f7b942fad68f4405d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:56 +0000
Subject: [PATCH 24/24] fix: csweb: unmap the index after each search

Every search mapped the index anew and never unmapped it. After about 65,000
searches mmap failed (vm.max_map_count), and csweb exited.
---
 cmd/csweb/web.go      | 1 +
 index/mmap_bsd.go     | 7 +++++++
 index/mmap_linux.go   | 7 +++++++
 index/mmap_windows.go | 8 ++++++++
 index/read.go         | 7 +++++++
 5 files changed, 30 insertions(+)

diff --git a/cmd/csweb/web.go b/cmd/csweb/web.go
index 5da9bd0..8582fbf 100644
--- a/cmd/csweb/web.go
+++ b/cmd/csweb/web.go
@@ -77,6 +77,7 @@ func home(w http.ResponseWriter, r *http.Request) {
 
 	start := time.Now()
 	ix := index.Open(index.File())
+	defer ix.Close()
 	ix.Verbose = *verboseFlag
 	post := ix.PostingQuery(q)
 	if *verboseFlag {
diff --git a/index/mmap_bsd.go b/index/mmap_bsd.go
index ce1de14..48d2615 100644
--- a/index/mmap_bsd.go
+++ b/index/mmap_bsd.go
@@ -37,3 +37,10 @@ func mmapFile(f *os.File) mmapData {
 	}
 	return mmapData{f, data[:n]}
 }
+
+func (m mmapData) unmap() {
+	if m.d != nil {
+		syscall.Munmap(m.d[:cap(m.d)])
+	}
+	m.f.Close()
+}
diff --git a/index/mmap_linux.go b/index/mmap_linux.go
index a3c961d..cb06311 100644
--- a/index/mmap_linux.go
+++ b/index/mmap_linux.go
@@ -29,3 +29,10 @@ func mmapFile(f *os.File) mmapData {
 	}
 	return mmapData{f, data[:n]}
 }
+
+func (m mmapData) unmap() {
+	if m.d != nil {
+		syscall.Munmap(m.d[:cap(m.d)])
+	}
+	m.f.Close()
+}
diff --git a/index/mmap_windows.go b/index/mmap_windows.go
index 38ae274..b844b65 100644
--- a/index/mmap_windows.go
+++ b/index/mmap_windows.go
@@ -32,6 +32,14 @@ func mmapFile(f *os.File) mmapData {
 	if err != nil {
 		log.Fatalf("MapViewOfFile %s: %v", f.Name(), err)
 	}
+	syscall.CloseHandle(h) // the view keeps the mapping
 	data := (*[1 << 30]byte)(unsafe.Pointer(addr))
 	return mmapData{f, data[:size]}
 }
+
+func (m mmapData) unmap() {
+	if m.d != nil {
+		syscall.UnmapViewOfFile(uintptr(unsafe.Pointer(&m.d[0])))
+	}
+	m.f.Close()
+}
diff --git a/index/read.go b/index/read.go
index 3c89903..b3e3f9b 100644
--- a/index/read.go
+++ b/index/read.go
@@ -193,6 +193,13 @@ func (ix *Index) PrintStats() {
 	fmt.Printf("%d posting index\n", ix.numPostBlock*postBlockSize)
 }
 
+// Close unmaps and closes the index file.
+// The index, and any names and paths read from it, must not be used afterward.
+func (ix *Index) Close() {
+	ix.data.unmap()
+	ix.data = mmapData{}
+}
+
 func Open(file string) *Index {
 	mm := mmap(file)
 	ix := &Index{name: file, data: mm}
-- 
2.43.0

