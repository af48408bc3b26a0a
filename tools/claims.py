add("C01","exhaustive enumeration of bounded regexp trees x language words against the real query derivation","model_checking",
 "Every expression tree up to the stated depth over an atom alphabet chosen around the analysis cut-offs; trusts Go's regexp as oracle; expressions outside the alphabet/depth are not covered.")
add("C20","explicit-state exploration of all operation sequences to a depth on the real set against a reference set","model_checking",
 "All sequences up to the depth over value classes including 2^8/2^16/2^24 boundaries; longer histories only through bulk fills.")
add("C02","exhaustive enumeration of bounded expression trees x all short texts x call histories on the real matcher against a denotational interpreter","model_checking",
 "Expressions and texts over the stated alphabets and depths; the interpreter is itself cross-checked against Go's regexp.")
add("C03","exhaustive enumeration of code points x class families on the real matcher against the parse tree's own classes","model_checking",
 "Every literal and named class and all ranges between boundary code points; arbitrary unions of three or more ranges only through named classes.")
add("C04","exhaustive enumeration of texts x buffer capacities x options x expressions on the real searcher against a list-of-lines model","model_checking",
 "All texts over {a,b,newline} to length 8 (10) with every capacity that holds the longest line; the real 1 MB buffer with all texts of length 4 (5) across its end.")
add("C05","exhaustive enumeration of texts x context sizes x buffer capacities on the real searcher against a list-of-lines model","model_checking",
 "Contexts up to 3 (5 for two-kind texts); capacities where the context and surrounding lines fit, as the property requires.")
add("C07","exhaustive enumeration of file sets (all subset patterns, gaps, block fills) on the real writer and reader against a set model","model_checking",
 "All subset patterns over 14 files, all position sets of up to 3 boundary gaps, all posting-index fills to 260 (600) trigrams; larger indexes only as stated families.")
add("C08","exhaustive enumeration of path lists and sub-ranges on the real writer and reader against the list itself","model_checking",
 "All subsets of 10 small paths, all counts to 70 (150) in five sharing patterns, every length-encoding boundary; arbitrary longer lists only through these families.")
add("C09","exhaustive enumeration of query trees on a real index holding all file subsets against set algebra on bit masks","model_checking",
 "All trees to depth 2 (3) with at most 2 trigrams and 2 (3) sub-queries per node over 2 to 4 files.")
add("C10","exhaustive enumeration of spill capacities, read splittings and writer interleavings on the real writer, compared byte for byte","model_checking",
 "All file sequences of length 3 with every spill capacity; two-writer interleavings at call granularity; two cindex processes interleaved at each file-changing system call of one; one family with real-size spills.")
add("C11","exhaustive enumeration of contents and file orders around every acceptance rule on the real writer against the stated rules","model_checking",
 "All byte pairs, all 3 (4)-byte sequences over representatives, every limit +-2, all orders of 3 (4) files over 12 kinds; borderline contents the property leaves open are not judged.")
add("C12","exhaustive enumeration of merge pairs, chains and replaced ranges on the real Merge against a snapshot model","model_checking",
 "All pairs over at most 2 disjoint roots of 9 with the stated file subsets; chains of 3 and 4 over a sub-family; every posting-index fill to 130 (420) trigrams.")
add("C13","explicit-state search over histories of edits and cindex runs, every transition executed with the real commands against a snapshot model","model_checking",
 "All histories to depth 4 (5) over 14 invocations and 5 edits of one small tree; no concurrent runs of cindex.")
add("C15","exhaustive enumeration of truncation points of a family of indexes (written, merged, independently encoded), opened by the real library and commands","fault_enumeration",
 "Truncation at every byte; no other damage in the same file.")
add("C19","exhaustive enumeration of file sets x layout variants through an independent encoder and decoder, against the real reader, writer and Merge","model_checking",
 "The codec was written from the format description (with 16 as the code of zero); sets of the stated families.")
add("C26","exhaustive enumeration of byte changes and entry edits of real index files, judged by an independent walk, against the real Check","model_checking",
 "Every byte x every value on small indexes, 12 values on larger ones; pairs of bytes only on the smallest (thorough).")
add("C16","exhaustive enumeration of expression trees x flags, and of flag combinations x file expressions, on the real csearch against grep's list-of-lines model","model_checking",
 "Expressions: all trees of up to two operators over 20 atoms (quick; a further family in thorough); all flag combinations with 5 context pairs and 7 file expressions over fixed trees.")
add("C24","exhaustive enumeration of flag combinations x expressions x argument lists on the real cgrep against grep's list-of-lines model","model_checking",
 "All flag combinations; argument lists up to 3 of 9 kinds of file (quick: a covering array in which every two dimensions meet; thorough: the full product).")
add("C17","exhaustive enumeration of small trees (names x kinds, siblings and two levels) and root lists on the real cindex against the stated coverage rule","model_checking",
 "22 name shapes x 14 kinds of file, all pairs; root lists up to 2 (3) of 26; run as an unprivileged user.")
add("C18","exhaustive enumeration of archives (member names x kinds, truncations, bit changes) and of edit/re-index histories on the real cindex -zip and csearch against the stated rule","model_checking",
 "Members up to 2 (3 for text) of 22 names x 7 kinds; one archive for truncations and bit flips; histories to depth 4 (5).")
add("C23","exhaustive enumeration of all pairs and triples of short paths on the real Path methods against element-wise comparison","model_checking",
 "All names to 5 (6) characters over 6 (5) letters, paths to 3 elements over 12, triples with archive members.")
add("C25","exhaustive enumeration of cindex flag/root/prior-index combinations and library builds and merges, directories listed before and after","model_checking",
 "All combinations of 6 flags, 8 root lists, 4 prior indexes, 2 places of temporary files (except a fourth of the latter in the quick tier).")
add("C06","exhaustive enumeration of markup pieces x places x options on the real HTML producers (Grep, csearch -html, csweb over HTTP) against a harmless twin through an HTML tokenizer","model_checking",
 "54 pieces (and 13 odd bytes) in every place, two places varied together; three-way combinations in thorough; the tokenizer does not model parse-error recovery.")
add("C22","exhaustive enumeration of small contents, names, line counts and queries on the real csweb over HTTP, against csearch and the files themselves","model_checking",
 "All contents of up to 4 (5) lines of 5 kinds, 31 expressions x 6 file expressions, line numbers around every digit boundary to 100001; archives' links are not followed.")
add("C14","exhaustive enumeration of every file-changing system call of cindex x kill/failure/short write there, by a ptrace controller on the real command, with follow-up runs","fault_enumeration",
 "Faults at the system-call boundary of one cindex process over small trees; page-cache loss after power failure is not modelled.")
add("C21","exhaustive enumeration of schedules (one switch at every statement; two switches and three threads in part) of pairs of operations on the real code under a controlled scheduler, plus the race detector","model_checking",
 "18 library operations and 8 csweb requests in pairs; quick: switch points at the first and last occurrence of each statement; interleavings below statement level rest on the race detector.")
add("C27","exhaustive enumeration of switch points between two real processes (search and cindex) under a ptrace controller, answers compared with those of the old and new index","model_checking",
 "Switches at system calls touching the shared directory, two switches for all pairs of situations and queries, three in part (quick: one situation; thorough: seven).")
