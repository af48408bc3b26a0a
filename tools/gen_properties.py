#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Edit the table here, then run it."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "hook_needed": hook}})

prop("C01", "Index narrowing never loses a match",
 "For every regular expression and every text the index accepts, if some line of the text matches the regular expression then the trigram query derived from the expression is satisfied by the text's trigrams, so the file is always among the candidates. Deriving a query never changes the query derived for any other expression, before or after.",
 ["inputs", "histories"], "all regular expressions (any nesting of literals, classes, case folding, concatenation, alternation, repetition, anchors) and all matching texts",
 "TestQuery compares the printed query of about 50 expressions; soundness is a statement over all expressions and all strings in their language, and the set-size cut-offs (7, 20, 100) and storage reuse are reached only by particular shapes.",
 ["index/regexp.go"],
 [("regexp analysis into exact/prefix/suffix sets", "index/regexp.go analyze, concat, alternate"), ("query simplification and factoring", "index/regexp.go andOr, implies, maybeRewrite"), ("set reduction at cut-offs", "index/regexp.go simplify, simplifySet")],
 ["index.RegexpQuery", "Index.PostingQuery", "csearch -verbose"])

prop("C02", "Line matcher agrees with regular-expression semantics",
 "For every regular expression and every text, the matcher reports the end of the first line that contains a match and reports no match when no line contains one, where a match never crosses a newline and anchors, word boundaries (on ASCII text), and repetition mean what they mean in Go's regexp syntax. The byte-slice and string entry points agree, and the answer does not depend on what the compiled expression was used on before.",
 ["inputs", "histories"], "all expressions of the Perl syntax accepted by Compile, all valid UTF-8 texts, both begin/end-of-text flags, all sequences of earlier calls on the same compiled expression",
 "TestMatch has about 100 single expression/text pairs on fresh objects; the lazily built automaton makes the result depend on states built by earlier input, and the semantics quantify over all expressions and texts.",
 ["regexp/match.go", "regexp/utf.go", "regexp/regexp.go", "regexp/copy.go"],
 [("lazily built DFA with one-byte lookahead flags", "regexp/match.go computeNext, cache, match, matchString"), ("byte program", "regexp/utf.go toByteProg")],
 ["Regexp.Match", "Regexp.MatchString", "cgrep"])

prop("C03", "Character classes and case folding exact for every code point",
 "For every character class, range, negated or named class, and case-insensitive literal, and for every Unicode code point, a one-character line matches the expression exactly when the code point belongs to the class under Go's regexp semantics. The derived index query accepts every spelling that case-insensitive matching accepts.",
 ["inputs"], "all classes (range end points, unions, negations, named classes, fold orbits) against all 1,112,064 encodable code points",
 "Tests use a handful of characters (日本語, α); UTF-8 range splitting has boundaries at every encoding length and every 6-bit group, and special fold orbits (k/K/K, s/S/ſ, σ/ς/Σ) break ASCII shortcuts.",
 ["regexp/utf.go", "regexp/copy.go", "index/regexp.go"],
 [("UTF-8 range splitting and suffix sharing", "regexp/utf.go addRange, suffix, addBranch"), ("one-byte shortcuts", "regexp/utf.go oneByteRange, asciiFold"), ("fold expansion", "regexp/copy.go appendFoldedRange; index/regexp.go analyze")],
 ["Regexp.Match", "index.RegexpQuery"])

prop("C04", "Grep output is exactly the matching lines",
 "For every input whose lines are shorter than the 1 MB buffer, searching it prints each matching line exactly once, in order, with the requested file-name prefix and its true line number; -l prints the name once, -c the number of matching lines, and a match limit stops after exactly that many. The output does not depend on how reads are split, where buffer refills fall, or which files the same searcher read before, and the match indicator is set exactly when some line matched.",
 ["inputs", "histories"], "all texts, expressions, option combinations, read splittings, buffer-refill positions, and sequences of files searched with one searcher",
 "TestGrep has two tiny inputs that fit in one buffer and uses no options; refill, trailing-fragment, and line-count carrying code runs only on inputs over 1 MB.",
 ["regexp/match.go"],
 [("chunked reading with fragment carry-over", "regexp/match.go Grep.Reader"), ("line counting", "regexp/match.go countNL, lineSuffixLen")],
 ["regexp.Grep.Reader", "cgrep stdout", "csearch stdout"],
 state=[("buf", "1 MB window over the input; the unprocessed fragment slides to the front", "regexp/match.go Grep.buf")])

prop("C05", "Context output shows the true surrounding lines",
 "With -A, -B or -C every matching line is printed once with its true line number, preceded by exactly the requested number of lines before it and followed by the requested number after it (fewer only at the ends of the input), each shown once, in order, with only common leading indentation and trailing white space removed. This holds wherever buffer refills fall, as long as the requested context fits in the buffer.",
 ["inputs"], "all texts, expressions, before/after counts, and buffer-refill positions",
 "No existing test uses context options.",
 ["regexp/match.go"],
 [("context window retention across refills", "regexp/match.go Grep.Reader, lineSuffixLen, linePrefixLen"), ("context extraction and dedent", "regexp/match.go lineContext, updatePrefix, cutPrefix")],
 ["cgrep -A/-B/-C", "csearch -A/-B/-C"])

prop("C06", "HTML output never lets content become markup",
 "In HTML output and in every page csweb produces for a text file, directory, search or bad query, file contents, file and directory names, queries and error messages appear only escaped: the tags in the page are exactly the page's own, and unescaping the text yields the original content. No input can add a tag, an attribute or a script.",
 ["inputs"], "all file contents, names, queries (valid or not) and option combinations",
 "cmd/csweb has no tests and HTML mode is never exercised.",
 ["regexp/match.go", "cmd/csweb/web.go"],
 [("escaping", "regexp/match.go Grep.esc; cmd/csweb/web.go html.EscapeString uses")],
 ["csweb GET /, /show/", "csearch -html", "Grep.HTML"])

prop("C07", "Posting lists are exactly the files containing the trigram",
 "After building an index from any sequence of files, looking up any three-byte sequence yields exactly the accepted files that contain it, each once, in increasing order, and yields none for a sequence that occurs nowhere. Intersecting or uniting such a list with any sorted list gives the set intersection or union.",
 ["inputs", "histories"], "all file sets and contents; all trigrams, present or absent; every gap between file numbers, every number of distinct trigrams and position within the posting index",
 "Tests build indexes of 4 to 9 tiny files; the gap code's special value 16, multi-byte gaps, and the 256-byte posting-index blocks are never crossed.",
 ["index/write.go", "index/read.go", "index/delta.go"],
 [("γ-coded gaps with a displaced zero", "index/delta.go"), ("256-byte posting index blocks and search", "index/write.go postDataWriter; index/read.go findListV2"), ("radix sort and merge", "index/write.go sortPost, mergePost")],
 ["Index.PostingList", "Index.PostingAnd", "Index.PostingOr"])

prop("C08", "File names and roots are recovered exactly",
 "For any list of sorted paths written to an index, the reader returns each path unchanged at its position, alone or in any sub-range, and yields nothing beyond the end; the list of roots is returned unchanged.",
 ["inputs"], "all sorted path lists (any count, any shared prefixes, any lengths) and all index ranges",
 "Tests read at most 9 short names; group boundaries at multiples of 16, long shared prefixes and varint length changes are never crossed.",
 ["index/path.go", "index/read.go", "index/write.go"],
 [("prefix-compressed groups of 16 with an offset index", "index/path.go PathWriter, PathReader; index/read.go NamesAt")],
 ["Index.Name", "Index.Names", "Index.NamesAt", "Index.Roots", "cindex -list"])

prop("C09", "Boolean trigram queries evaluate as set algebra",
 "For any index and any query built from AND, OR, ALL and NONE over trigrams, evaluating the query returns exactly the file numbers satisfying it, in increasing order without duplicates, and leaves the query and the index able to give the same answer again.",
 ["inputs", "histories"], "all query trees (any nesting and branching with at least one operand per AND/OR) over all distributions of trigrams across files",
 "No test evaluates a nested query; restriction lists threaded through nested AND/OR appear only with sub-queries.",
 ["index/read.go"],
 [("restricted posting evaluation", "index/read.go postingQuery, postReader, mergeOr")],
 ["Index.PostingQuery"])

prop("C10", "Index bytes do not depend on memory spills or read sizes",
 "The index produced for a given sequence of files and roots is byte-for-byte the same regardless of when in-memory posting data is spilled to temporary files, how many times, how the input readers split their data, and what else the process indexed before or is indexing in other writers in between, or other processes are indexing into other index files at the same time.",
 ["inputs", "histories", "schedules"], "all spill points, read splittings and interleavings of index writers for each file sequence",
 "TestTrivialWriteDisk spills at one position of one tiny input; real spills need 8 million entries.",
 ["index/write.go"],
 [("spill and k-way merge", "index/write.go flushPost, mergePost, postHeap"), ("shared sort scratch", "index/write.go sortPost, sortTmp, sortN")],
 ["index file bytes", "Index.PostingList"])

prop("C11", "Exactly the text files within limits are indexed",
 "A file is indexed, with all its trigrams, when it is valid UTF-8 without NUL, at most 1 GB long, with no line over 2000 bytes and at most 20000 distinct trigrams; a file that has a NUL, a byte pair that no multi-byte encoding allows (a lead byte without a continuation byte after it, a continuation byte after ASCII, a byte F8 to FF), or exceeds a limit is left out and leaves no trace, as does a file whose read fails or whose name contains control characters, which is reported as an error. Files added before and after a rejected file are indexed as if it were absent.",
 ["inputs", "fault_sequences", "histories"], "all byte contents (a 2000-byte line whose newline makes it 2001 may go either way), all positions and kinds of read errors, all orders of accepted and rejected files",
 "No test adds a rejected file or a failing reader.",
 ["index/write.go"],
 [("text detection", "index/write.go add, validUTF8"), ("name validation", "index/write.go isValidName, Add")],
 ["IndexWriter.Add", "cindex"])

prop("C12", "Merging equals indexing the combined, newer-wins file set",
 "Merging an older and a newer index gives an index whose roots are the union (without roots inside another root), whose files are the newer index's files plus the older index's files not under any newer root, and whose posting lists are exactly those of that file set. The result is itself a valid input for any number of further merges.",
 ["inputs", "histories"], "all pairs of indexes (root sets incl. nested and name-prefix siblings, file sets) and all chains of merges",
 "TestMerge merges one pair once; a second merge of a merged index is never tried.",
 ["index/merge.go", "index/path.go", "index/read.go"],
 [("shadowed ranges and id remapping", "index/merge.go Merge, idrange, postMapReader"), ("root coverage", "index/path.go HasPathPrefix, Compare")],
 ["index.Merge", "cindex"])

prop("C13", "Incremental indexing histories equal the expected snapshot",
 "After any sequence of file changes and cindex runs (adding paths, re-indexing with no arguments, resetting), searching finds exactly the files and contents recorded by the latest cindex run covering each path, with no file listed twice, and cindex -list prints exactly the covered roots. Every index so produced passes cindex -check. All commands use the index file that $CSEARCHINDEX names or, without it, $HOME/.csearchindex, and no other.",
 ["histories", "configurations"], "all sequences of file edits, deletions and cindex invocations (roots in any order, nested or repeated, any flags)",
 "The commands have no tests; tests never run more than one merge.",
 ["cmd/cindex/cindex.go", "index/merge.go", "index/write.go"],
 [("index to file~, merge to file~~, rename", "cmd/cindex/cindex.go main")],
 ["cindex, cindex -list, cindex -check, csearch"])

prop("C14", "An interrupted or failing cindex never damages the index",
 "If cindex updating an existing index is killed at any moment or any of its file writes fails (disk full, I/O error), the index file still holds either the complete old index or the complete new one, and a run that could not finish does not exit successfully. A first build or a -reset treated so leaves no index, one that is refused, or the complete new one. A later cindex run succeeds and produces the complete new index.",
 ["crash_points", "fault_sequences"], "every system call of an update run as a kill point, every write failing or cut short",
 "No test interrupts or fails a run.",
 ["cmd/cindex/cindex.go", "index/merge.go", "index/write.go"],
 [("write aside and rename", "cmd/cindex/cindex.go main"), ("write errors are fatal", "index/write.go Buffer")],
 ["index file after a kill", "cindex exit status", "csearch"])

prop("C15", "A truncated index is refused, never silently partial",
 "Opening any proper prefix of an index file (as left by an interrupted first build or copy) is reported as a corrupt index; no search over it returns normally with fewer results.",
 ["crash_points", "inputs"], "every truncation length of every index file, old or new format, written or merged",
 "No test opens a damaged index.",
 ["index/read.go", "index/write.go"],
 [("trailer at the end of the file", "index/read.go Open; index/write.go Flush")],
 ["index.Open", "csearch exit status and stderr"])

prop("C16", "csearch output equals grepping every indexed file",
 "For every expression and flag combination, csearch prints exactly what searching each indexed file, in index order, for the expression would print, restricted by -f to names matching the file expression; with or without -brute the output is the same; -l with an empty expression lists every indexed name. It exits 0 exactly when something matched, 1 otherwise.",
 ["inputs", "configurations"], "all expressions and flags over all indexed trees whose files have not changed since, except that some are gone",
 "csearch has no tests.",
 ["cmd/csearch/csearch.go", "index/read.go", "regexp/match.go"],
 [("query, candidate filtering, grep of each candidate", "cmd/csearch/csearch.go Main")],
 ["csearch stdout and exit status"])

prop("C17", "cindex covers exactly the visible regular files under its roots",
 "Indexing a root covers every regular text file below it except those with a path element (at or below the root) that starts with '.', '#' or '~' or ends in '~', and covers nothing else; symbolic links and special files are not followed, unreadable or missing entries (other than hidden ones) are reported and skipped, and each covered file appears once.",
 ["inputs", "configurations"], "all directory trees over the distinguishing name shapes and entry types",
 "cindex has no tests.",
 ["cmd/cindex/cindex.go"],
 [("walk filter", "cmd/cindex/cindex.go main filepath.Walk callback")],
 ["csearch -l", "cindex stderr"])

prop("C18", "Zip members are indexed and searched like files",
 "With -zip, every text member of a zip archive below a root is found by searches under the name archive.zip, a \\x01 separator and the member name, with its own content and line numbers, each member once, in sorted order; re-indexing replaces the archive's members, and a damaged archive or member does not disturb other files (what is found in a damaged member, and which of two members with one name is kept, is open).",
 ["inputs", "histories"], "all archives (member names, order, duplicates, directories, damaged members) and update histories",
 "TestZip reads one well-formed archive through the API and never searches it.",
 ["index/write.go", "cmd/csearch/csearch.go", "index/merge.go"],
 [("member enumeration and order", "index/write.go Add"), ("member lookup when searching", "cmd/csearch/csearch.go Main")],
 ["cindex -zip", "csearch"])

prop("C19", "Index files keep their on-disk meaning",
 "An index in the documented version 1 or version 2 layout, whichever program wrote it, is read with the same names, roots and posting lists, and can be merged with a newer index; indexes written now follow the version 2 layout already in use, so files written before and after a change remain mutually readable.",
 ["inputs", "histories"], "all file sets encoded by an independent encoder of either layout; all written indexes decoded by an independent decoder",
 "Tests compare one tiny index with bytes built from the same constants the code uses, so a change of both sides goes unnoticed.",
 ["index/read.go", "index/write.go", "index/delta.go", "index/path.go", "index/merge.go"],
 [("version dispatch by trailer", "index/read.go Open"), ("varint v1 / γ v2 gaps", "index/delta.go")],
 ["index.Open on files from an independent encoder", "bytes written by IndexWriter.Flush and Merge"])

prop("C20", "Sparse set behaves as a set under every operation sequence",
 "Under every sequence of Init, Add, Has, Reset, Len and Dense, the sparse set answers exactly like a mathematical set, and Dense lists each member once in insertion order since the last reset.",
 ["histories"], "all operation sequences over a bounded universe",
 "Package sparse has no tests; stale entries left by Reset are what makes membership subtle.",
 ["sparse/set.go"],
 [("dense/sparse cross check", "sparse/set.go Add, Has")],
 ["sparse.Set"])

prop("C21", "Concurrent searches do not influence each other",
 "Searches running at the same time, each with its own compiled expression as in the web server, produce exactly the output each would produce alone, under every interleaving, and so do concurrent requests to csweb; compiling expressions, deriving queries and reading an open index concurrently is free of data races.",
 ["schedules"], "all interleavings (at statements) of two or three searches, requests and query derivations",
 "All tests are single-threaded.",
 ["regexp/match.go", "regexp/regexp.go", "index/read.go", "index/regexp.go", "cmd/csweb/web.go"],
 [("per-search state", "regexp/match.go matcher, Grep"), ("shared constants", "index/regexp.go allQuery, noneQuery; regexp/match.go dmatch")],
 ["Grep output per search", "csweb responses", "race detector"])

prop("C22", "csweb results link to the lines they show",
 "For every search, csweb lists the same matches as csearch (the first of them, with a notice, beyond its match limit); following a result's link opens a page for that file in which the element the link names is the listed line with the same number and content; show pages list every line of a text file once, in order, with its number, and directory pages link to every entry.",
 ["inputs"], "all trees of files (names with any character a URL can escape), contents shown as text, and queries; archive members have no show page",
 "cmd/csweb has no tests.",
 ["cmd/csweb/web.go", "regexp/match.go"],
 [("result links", "regexp/match.go Grep.Reader HTML case"), ("show pages", "cmd/csweb/web.go show, serveFile, serveDir")],
 ["csweb GET /?q=, /show/"])

prop("C23", "Path order is total and keeps each subtree contiguous",
 "On valid names, path comparison is a total order that equals directory-walk order: it agrees with comparing path elements one by one, is antisymmetric and transitive, and all paths inside a directory (and members of an archive) form one contiguous run starting at that path. A path has another as path prefix exactly when it equals it or lies below it.",
 ["inputs"], "all pairs and triples of paths",
 "Only exercised indirectly on a few names.",
 ["index/path.go"],
 [("slash sorts below every byte", "index/path.go Compare, HasPathPrefix")],
 ["index.Path.Compare", "index.Path.HasPathPrefix"])

prop("C24", "cgrep behaves like grep over its arguments",
 "For every flag combination and list of files (or standard input), cgrep prints for each readable file in order exactly the selected lines as grep would select them (matching lines, or non-matching ones with -v, ignoring case with -i), reports each unreadable file on standard error and continues, and exits 0 exactly when some line was selected, 1 when none, 2 on usage errors.",
 ["inputs", "configurations"], "all flag combinations, expressions, file lists",
 "cgrep has no tests.",
 ["cmd/cgrep/cgrep.go", "regexp/match.go"],
 [("flag handling and per-file loop", "cmd/cgrep/cgrep.go main")],
 ["cgrep stdout, stderr, exit status"])

prop("C25", "Index runs clean up after themselves",
 "When a cindex run ends successfully, or a library index build or merge completes, the only file created or changed is the index itself: no temporary files remain in the temporary directory or beside the index, and no file of the indexed trees is modified.",
 ["histories", "configurations"], "all histories of cindex runs and all flags, including runs that spill to temporary files",
 "No test looks for left-over files.",
 ["index/write.go", "index/merge.go", "cmd/cindex/cindex.go"],
 [("temporary file removal", "index/write.go Flush; index/merge.go Merge; cmd/cindex/cindex.go main")],
 ["directory listings before and after"])

prop("C26", "cindex -check rejects damaged posting data",
 "Checking an index accepts every index the tools write, and does not accept one in which a posting-index entry points to a list with another trigram, or whose list does not consist of exactly the recorded number of file-number increments followed by the end mark.",
 ["inputs", "fault_sequences"], "all indexes written; every single-byte change to the posting data and posting index",
 "No test calls the checker.",
 ["index/check.go"],
 [("block walk and list decode", "index/check.go Check")],
 ["Index.Check", "cindex -check exit status"])

prop("C27", "A search during an indexing run sees one whole index",
 "A search (or cindex -list) running at the same time as cindex, however the two interleave, prints exactly what it prints with the old index or exactly what it prints with the new one; a search started after cindex has finished uses the new one. During a first build or a -reset a search may also find no index or refuse it, printing no results. Neither program makes the other fail.",
 ["schedules", "histories"], "all interleavings of a search with an indexing run (update, added root, re-index, -check, -zip, -reset, first build), at system calls",
 "No test runs two programs at once; the outcome depends on which file operation of one falls between which of the other.",
 ["cmd/cindex/cindex.go", "cmd/csearch/csearch.go", "index/read.go", "index/mmap_linux.go", "index/write.go", "index/merge.go"],
 [("new index built aside and renamed over the old", "cmd/cindex/cindex.go main"), ("the reader maps the file it opened", "index/read.go Open; index/mmap_linux.go mmapFile")],
 ["csearch stdout and exit status", "cindex -list"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
