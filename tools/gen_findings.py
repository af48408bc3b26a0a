#!/usr/bin/env python3
"""Writes /verif/known_findings.jsonl: one line per genuine defect found. Entries with status "fixed"
suppress nothing; entries with status "known" (none at present) are matched by key at run time."""
import json, os
F = [
 ("C20","13fe1f2","sparse.Set.Init on a non-empty set kept the old members"),
 ("C12","186e9ee","Merge of an already merged index copied the end-of-lists marker as a posting list, so a second merge failed or lost posting lists (also C13, C23)"),
 ("C12","37bbb30","HasPathPrefix did not treat / as containing every path, so files below / were kept twice or outside their root (also C23)"),
 ("C01","82ce826","the query of an alternation such as a class or word list with an inexact alternative shared storage between prefix and suffix sets; files that match were not candidates"),
 ("C04","48beaa2","expressions matching the empty text reported a phantom empty line after the last newline"),
 ("C05","6e13d30","line numbers were wrong when context was printed and the input was refilled"),
 ("C04","14db3c8","with context or long lines the refill split lines in two: lines missed, printed twice or cut (also C05)"),
 ("C06","7648d4c","context lines and read errors were written to HTML output unescaped"),
 ("C06","b958cf2","csweb wrote the error for a malformed query unescaped into the page"),
 ("C06","b4dc3c3","csweb served text files with CRLF line endings raw, to be sniffed as HTML by browsers (also C22)"),
 ("C06","ff1131a","csweb links did not URL-escape file names and queries (also C22)"),
 ("C17","f3a7944","cindex crashed on a missing root whose name is hidden"),
 ("C13","3526ad8","cindex of repeated or nested roots listed files twice or died with an ordering error"),
 ("C14","31ffc01","cindex exited 0 although the final rename of the new index failed"),
 ("C18","c0522ba","zip archives: duplicate members indexed twice, names with control characters corrupted the archive/member split, errors lost"),
 ("C16","cbac819","csearch -l '' listed nothing instead of every indexed file"),
 ("C24","6b535a5","cgrep accepted -v and ignored it"),
 ("C03","fa7e049","character ranges ending inside the surrogate block matched wrong code points"),
 ("C03","7e74328","case was not ignored above U+1044F"),
 ("C08","5275417","reading names past the last one yielded an empty path"),
 ("C15","d09578b","a truncated version 2 index that happens to end in a trailer was opened as valid"),
 ("C27","0826090","cindex -reset truncated and rewrote the index under running searches, which printed results of neither index or crashed"),
 ("C22","4cbf793","csweb mapped the index anew for every search and never unmapped it: after vm.max_map_count (65530) searches it exited"),
 ("C14","a707190","a short copy of a temporary file into the index went unnoticed: exit 0 with a damaged index"),
]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.jsonl")
with open(out, "w") as f:
    for p, c, w in F:
        f.write(json.dumps({"status":"fixed","property":p,"commit":c,"what":f"fixed: property={p} {c} {w}"}, ensure_ascii=False)+"\n")
