prop("C01", "The tools modify no file but their own",
     "Searching never changes the file system: cgrep, csearch and csweb create, modify, rename or remove no file other than the one named by -cpuprofile. cindex additionally modifies only the index file, a file named after it with ~ appended, and temporary files it created itself; the files and directories being indexed are only ever opened for reading.",
     ["inputs", "configurations"],
     "all command lines, environments, trees of files and HTTP requests",
     "The tests run neither the commands nor the walk; a stray write, rename or remove shows only for particular names and flags and no test looks at the rest of the file system.",
     ["cmd/cgrep/cgrep.go", "cmd/csearch/csearch.go", "cmd/csweb/web.go", "cmd/cindex/cindex.go", "index/write.go", "index/merge.go", "index/read.go", "regexp/match.go"],
     [("files created and removed by cindex", "cmd/cindex/cindex.go:main"), ("temporary files", "index/write.go:bufCreate"), ("read-only mapping", "index/mmap_linux.go:mmapFile")],
     "whole-program effect analysis: reachable file-mutating calls with backward value tracing of every path argument",
     "Covers every call reachable from each main over a call graph with address-taken function resolution; trusts that standard library functions other than the listed primitives do not modify files.")

prop("C02", "HTML output is escaped",
     "Text that comes from file names, file contents, queries, error messages or request parameters reaches an HTML page only HTML-escaped, both in csweb's pages and in the search engine's HTML output mode. The one exception is serving a raw file whose contents are detected not to be text.",
     ["inputs", "configurations"],
     "all requests, file names, file contents and output option combinations",
     "No test exercises HTML output; an unescaped insertion shows only for inputs that contain markup in that very position.",
     ["cmd/csweb/web.go", "regexp/match.go"],
     [("escaping in result output", "regexp/match.go:(*Grep).Reader"), ("escaping in pages", "cmd/csweb/web.go:search, home, show*")],
     "path-sensitive taint analysis over SSA (sources to HTML sinks through escaping functions)",
     "Every path of the grep engine with HTML on and of every registered handler; trusts html.EscapeString and url escaping functions.")

prop("C03", "csweb is private to the machine and its requests are independent",
     "The web server accepts connections only on the loopback interface. Handling one request never modifies state that another request, concurrent or later, can observe, so the result of a request depends only on the request, the index and the files.",
     ["schedules", "histories", "configurations"],
     "all interleavings and sequences of requests",
     "No test runs the server; a data race or leaked state needs particular overlapping requests.",
     ["cmd/csweb/web.go", "index/read.go", "index/regexp.go", "regexp/match.go"],
     [("listener address", "cmd/csweb/web.go:main"), ("per-request searcher and index handle", "cmd/csweb/web.go:search")],
     "escape and effect analysis of everything reachable from the handlers; constant tracing of listener addresses",
     "Sound up to the call graph and the trusted standard library; constant query values are handled by C16.")

prop("C04", "Updating the index replaces it atomically",
     "While cindex updates an existing index, the index file holds either the complete old index or the complete new one at every moment: it changes only by renaming onto it a finished file that was merged from the old index and a completely written new one. Only -reset, or the absence of an index, lets cindex remove or write the index file directly; a run that indexes files ends with the new index in place or reports failure.",
     ["crash_points", "fault_sequences", "configurations"],
     "all interruption points, all failures of file operations, all flag combinations",
     "The tests never run cindex; an ordering mistake shows only if the process dies or an operation fails at a particular point.",
     ["cmd/cindex/cindex.go", "index/write.go", "index/merge.go"],
     [("index, merge, check, rename", "cmd/cindex/cindex.go:main"), ("flush of the new index", "index/write.go:(*IndexWriter).Flush")],
     "path-sensitive typestate analysis of cindex's main over symbolic file names",
     "All paths of main with helpers and callbacks inlined; trusts os.Rename to be atomic and index.File to be constant during a run.")

prop("C05", "A failed write of index data is never mistaken for success",
     "If creating, writing, copying, seeking or renaming a file that carries index data fails, the operation does not carry on as if it had succeeded: it ends the program with an error message or returns the error, on every path.",
     ["fault_sequences"],
     "all failures of all file operations while writing, merging and installing an index",
     "The tests never inject a failing file operation.",
     ["index/write.go", "index/merge.go", "cmd/cindex/cindex.go"],
     [("checked writes", "index/write.go:(*Buffer).Flush, Write, WriteString, finish"), ("copy", "index/write.go:copyFile")],
     "path-sensitive error-discipline analysis",
     "Every call whose failure loses index data in package index and cindex, on every path; trusts that short writes return an error.")

prop("C06", "Buffered index output reaches the file complete and in order",
     "Every byte handed to the index writer's buffered output reaches its file exactly once and in order, however the output divides into writes and wherever the buffer fills up. The offset reported at any moment equals the number of bytes handed over so far, a temporary file is flushed and rewound before it is read back, and the finished index is flushed before it is used.",
     ["inputs", "histories"],
     "all sequences and sizes of writes relative to the buffer size",
     "Tests write far less than one buffer, so none of the boundary cases where the buffer is flushed in the middle of an operation is reached.",
     ["index/write.go", "index/merge.go"],
     [("buffered writer", "index/write.go:Buffer"), ("reading back", "index/write.go:copyFile, (*postHeap).addFile")],
     "typestate and symbolic byte-stream analysis of the buffered writer's methods and users",
     "Each method on every path, each use of the underlying file everywhere; trusts os.File.Write.")

prop("C08", "Every trigram of an indexed file is recorded for it",
     "When a file is indexed, every sequence of three consecutive bytes in it, including sequences that straddle two reads of the file, is recorded as a posting of that file, and no other three-byte sequence is. This holds for every size and content of file and of read, whatever was indexed before, and also when the pending postings overflow to disk.",
     ["inputs", "histories"],
     "all file contents, all ways a reader may split them, all sequences of indexed files",
     "Test files are a few bytes long and arrive in one read; nothing straddles two reads and nothing overflows.",
     ["index/write.go", "sparse/set.go"],
     [("byte window and insertion", "index/write.go:(*IndexWriter).add"), ("pending postings", "index/write.go:(*IndexWriter).add, makePostEntry"), ("set of trigrams", "sparse/set.go:Set")],
     "loop-transition analysis with a bit-slice domain over the type-checked SSA form",
     "One inductive step per path of the byte loop, and the set's operations against their membership equations; trusts io.Reader and Go's append.")

prop("C09", "Only text files are indexed, and every text file is",
     "A file is indexed if and only if it contains no NUL byte, contains no pair of adjacent bytes that cannot occur in UTF-8, is at most 2^30 bytes long, has no line longer than 2000 bytes counting its newline, and has at most 20000 distinct trigrams; a file that cannot be read completely is reported as an error. A file that is not indexed leaves neither a name nor a posting in the index.",
     ["inputs", "histories"],
     "all file contents and read errors",
     "Tests index a handful of short ASCII files; each limit and each of the 65,536 byte pairs needs its own input.",
     ["index/write.go"],
     [("text detection", "index/write.go:(*IndexWriter).add, validUTF8"), ("limits", "index/write.go:maxFileLen, maxLineLen, maxTextTrigrams")],
     "path-condition analysis: exact byte-pair sets admitted by every path, compared with the definition",
     "All 65,536 byte pairs are decided from the branch conditions of each path, limits by linear implication; the number of trigrams is the size of the set decided by C08.")

prop("C13", "Paths sort and nest by elements",
     "Path comparison is a total order that compares byte by byte except that a separator sorts below every other byte and a proper prefix sorts first, so that a directory's contents sort next to it. A path lies within another exactly if it equals it, continues it after a separator, or continues it and the other ends in a separator.",
     ["inputs", "configurations"],
     "all pairs of paths, on systems with either separator",
     "The tests compare no paths at all that differ around a separator; the order is a matter of all pairs of bytes.",
     ["index/path.go"],
     [("comparison", "index/path.go:Path.Compare"), ("containment", "index/path.go:Path.HasPathPrefix")],
     "loop-transition and path-condition analysis with exact evaluation over all byte pairs and path classes",
     "Both functions on every path, for the slash and (in a second program loaded for Windows) the backslash; trusts strings.HasPrefix and string comparison.")

prop("C23", "Reading an index never touches memory outside the file",
     "Opening an index or reading temporary data back maps exactly the pages that hold the file and exposes exactly the file's bytes, for every file size including empty and page-aligned ones and on every supported system. A file that cannot be examined, opened or mapped, or is too large, ends the program with an error instead of being read.",
     ["inputs", "configurations", "fault_sequences"],
     "all file sizes and all failures of stat and mmap, on Linux, BSD and Windows",
     "Tests map a few small files on one system; page-aligned and empty files and failing system calls are not among them.",
     ["index/mmap_linux.go", "index/mmap_bsd.go", "index/mmap_windows.go", "index/read.go"],
     [("mapping", "index/mmap_linux.go:mmapFile"), ("opening", "index/read.go:Open, mmap")],
     "path-sensitive symbolic length analysis of the mapping functions, per operating system",
     "Every path of the mapping function of each of three systems (loaded as three programs); trusts the system calls.")

prop("C24", "Building an index is deterministic",
     "Which bytes an index consists of depends only on the roots, the file names and the file contents that were added: not on the iteration order of maps, the order in which concurrent operations finish, random numbers, the time of day, file times, the environment or what the same process wrote before. The same holds for merging two indexes.",
     ["schedules", "histories"],
     "all code the index writer and the merge can reach",
     "A test run samples one iteration order, one schedule and one history of the process.",
     ["index/write.go", "index/merge.go", "index/path.go", "index/delta.go", "sparse/set.go"],
     [("writing", "index/write.go:IndexWriter"), ("scratch state", "index/write.go:sortPost")],
     "reachability and dataflow lint for sources of nondeterminism (map iteration, goroutines, select, clocks, randomness, environment, addresses, mutable package variables)",
     "Every function reachable from the index writer and the merge; a source is allowed only where its value provably reaches nothing but the log.")

prop("C21", "cindex indexes every visible regular file",
     "For every root it indexes, cindex visits the whole tree below it and adds every regular file, once and under its own path, unless the last element of its name, or of a directory below or at the root on the way to it, starts with '.', '#' or '~' or ends in '~'; nothing else is added. A file or directory that cannot be read, or whose name holds a control character, is reported, or skipped if its name is hidden, and the walk goes on with the others; it never crashes.",
     ["inputs", "configurations", "fault_sequences"],
     "all trees of files, with unreadable, vanished, hidden and special files anywhere in them",
     "The tests never run cindex; special files, files that vanish and names that are all dots or tildes need their own trees.",
     ["cmd/cindex/cindex.go", "index/write.go"],
     [("walk", "cmd/cindex/cindex.go:main"), ("names refused", "index/write.go:isValidName, (*IndexWriter).Add")],
     "path-sensitive analysis of the visitor function: obligations on every path from what it knows of the name, the file information and the error",
     "Every path of the visitor; trusts filepath.Walk to visit the tree as documented.")

prop("C26", "cindex indexes, records and lists the right roots",
     "With paths given, cindex indexes their absolute forms, each once, in path order, leaving out one only if it lies inside another that is given or cannot be made absolute, which is reported; without, it indexes exactly the roots of the existing index. Exactly the roots it walks are recorded in the index, all before it is written. With -list it prints exactly the recorded roots, one per line, and changes nothing.",
     ["inputs", "configurations"],
     "all argument lists, existing indexes and working directories",
     "The tests never run cindex; nested, repeated and unordered arguments need their own command lines.",
     ["cmd/cindex/cindex.go", "index/write.go"],
     [("roots", "cmd/cindex/cindex.go:main"), ("recorded roots", "index/write.go:(*IndexWriter).AddRoots")],
     "path-sensitive analysis with loop invariants over the list of roots (origin, order and containment of every value appended)",
     "All paths of main; path order and containment are C13, the order in which roots are stored in the index C10.")

prop("C19", "Each matching line is printed once, whole, with its number",
     "Wherever a file is split by buffer boundaries, the search prints each line the pattern matches exactly once, in order and whole, ends it with a newline even if the file does not, and prints no other line; with -v it prints exactly the other lines. The text of ^ and $ is the whole file; file names and line numbers (counted from 1) are printed as -h, -n and the context flags ask, -c prints the number of those lines and -l the file's name once. A limit on the number of lines is not exceeded.",
     ["inputs", "configurations"],
     "all file contents with lines shorter than the buffer, all patterns, all ways of splitting the input into reads, each output mode",
     "The tests search a few short strings that fit in one buffer; boundaries, trailing fragments, empty lines and read errors need particular inputs.",
     ["regexp/match.go"],
     [("search loop", "regexp/match.go:(*Grep).Reader"), ("-v", "regexp/match.go:(*Grep).next"), ("buffer boundaries", "regexp/match.go:lineSuffixLen"), ("line numbers", "regexp/match.go:countNL")],
     "loop-transition analysis with symbolic buffer positions, once per output mode",
     "Every path through the reading and searching loops in 14 combinations of flags, the matcher abstract; the context lines printed around a match, beyond the matching line's number, are not decided, nor are lines longer than the 1 MB buffer.")

prop("C20", "Exit status and flags of the search commands mean what they say",
     "cgrep and csearch exit with status 0 exactly if some line was selected, 1 if none was, and 2 on a usage error, before searching anything. The pattern searched for is the one given, in multi-line mode, ignoring case exactly with -i. Every flag the usage message lists is accepted and has an effect.",
     ["inputs", "configurations"],
     "all command lines and file contents",
     "The tests never run the commands.",
     ["cmd/cgrep/cgrep.go", "cmd/csearch/csearch.go", "cmd/cindex/cindex.go", "cmd/csweb/web.go", "regexp/match.go"],
     [("exit status", "cmd/csearch/csearch.go:main"), ("exit status", "cmd/cgrep/cgrep.go:main"), ("match flag", "regexp/match.go:(*Grep).Reader"), ("flags", "regexp/match.go:(*Grep).AddFlags")],
     "path-sensitive analysis of every way main ends, with the engine's match flag tracked symbolically; flag registration and use lint",
     "Every path of the two mains and of the engine's search loop; that a flag has an effect is decided as: it is registered, and its variable is read where the command can reach.")

prop("C22", "Every candidate file is searched, under its own name",
     "csearch and the web search page search for the pattern they are given, ask the index about that very pattern, or take all files exactly with -brute, and search each candidate once, in order, showing matches under the candidate's name. A candidate is passed over only if the file name pattern does not match its name or it cannot be opened. The search ends early only at the limit of matches shown.",
     ["inputs", "configurations"],
     "all queries, flags, indexes and file systems",
     "Needs candidate lists and file systems (missing files, archives, limits) no test sets up; the tests never run the commands.",
     ["cmd/csearch/csearch.go", "cmd/csweb/web.go"],
     [("search loop", "cmd/csearch/csearch.go:Main"), ("search loop", "cmd/csweb/web.go:home")],
     "path-sensitive analysis of every iteration of the loop over the candidates, obligations on the origin of the list, the name, the reader and the exits",
     "All paths of the loop; that the index's answer contains every matching file is C15 to C17.")

prop("C27", "Files inside zip archives are found again",
     "With -zip every distinct entry of an archive is indexed, under the archive's name, a separator byte and the entry's name, with the entry's own contents, the first one where names repeat. The search commands look a candidate up in the archive its name names and search the first entry of that name, never one of another archive. Archives that are not indexed as such are indexed as plain files.",
     ["inputs", "histories"],
     "all archives and all sequences of candidates",
     "Needs archives with repeated or unordered names and candidate lists that change from one archive to another; no test has any.",
     ["index/write.go", "cmd/csearch/csearch.go", "cmd/csweb/web.go"],
     [("zip entries indexed", "index/write.go:(*IndexWriter).Add"), ("zip entries searched", "cmd/csearch/csearch.go:Main"), ("zip entries searched", "cmd/csweb/web.go:home")],
     "path-sensitive analysis with an inductive invariant over the search loop's cached archive (name, reader, entries)",
     "All paths; zip directories are indexed like other entries.")

prop("C17", "A query selects exactly the files its trigram lists dictate",
     "The files an index query returns are the set the query denotes over the index's posting lists: every file for an always-true query, none for an always-false one, the intersection over its trigrams and subqueries for a conjunction, the union for a disjunction, each file once and in increasing order. The asking for all files of a sub-query never widens or narrows another. A query asked for through the exported interface is never restricted to files of another.",
     ["inputs"],
     "all queries and all posting lists, of either index version",
     "The tests ask a handful of queries of indexes of a few files; where two lists differ, end or are empty is decided by particular lists.",
     ["index/read.go"],
     [("evaluation", "index/read.go:(*Index).postingQuery"), ("intersection", "index/read.go:(*Index).postingAnd"), ("union", "index/read.go:(*Index).postingOr"), ("union", "index/read.go:mergeOr"), ("restriction", "index/read.go:(*postReader).next")],
     "path-sensitive analysis: an inductive merge invariant over two increasing sources, and symbolic set expressions of the evaluator compared with the query's denotation for each operator",
     "All paths, all queries by induction on the query; that a list read from the index is the one written for its trigram is not decided here.")

prop("C15", "Every match of a pattern satisfies the query made from it",
     "The index query computed from a regular expression is satisfied by every text the expression matches, whatever its operators, character classes, case folding, repetition and nesting: the query never rules out a text that contains a match. In particular whatever is known of the strings an expression matches (their possible exact forms, beginnings and ends) stays complete when expressions are combined and when that knowledge is shortened.",
     ["inputs"],
     "all regular expressions and all texts they match",
     "Tests compare the query text of a few dozen short patterns; a lost case shows only for the pattern and text that need it.",
     ["index/regexp.go"],
     [("per operator", "index/regexp.go:analyze"), ("combination", "index/regexp.go:concat, alternate, fold"), ("shortening", "index/regexp.go:regexpInfo.simplify, simplifySet"), ("trigrams of strings", "index/regexp.go:Query.andTrigrams"), ("the query", "index/regexp.go:RegexpQuery")],
     "abstract interpretation of the pattern analysis with a calculus of string covers (inductive, per operator and path)",
     "Every path of the analysis; combining queries is C16; trusts regexp/syntax for the meaning of the operators and takes its trees to be well formed.")

prop("C16", "Combining queries keeps their meaning",
     "The conjunction (disjunction) of two index queries is satisfied by exactly the texts that satisfy both (at least one) of them, whatever simplification, merging, reuse of storage or factoring of common trigrams produced it. The queries that match everything and nothing are never changed, and no combination leaves an empty condition behind.",
     ["inputs"],
     "all pairs of queries, of any size and nesting",
     "Tests compare the printed query of a few patterns; a simplification that is wrong for one shape of operands shows only for it.",
     ["index/regexp.go"],
     [("combination", "index/regexp.go:Query.andOr"), ("implication", "index/regexp.go:Query.implies, trigramsImply"), ("inclusion", "index/regexp.go:stringSet.isSubsetOf")],
     "path-sensitive abstract interpretation with a propositional equivalence proof per path; induction over the factoring loops",
     "Every path of the combination; operands are trees that share no storage (decided for the pattern analysis in C15). That implied operands are dropped is sound because the tests of implication are.")

prop("C10", "Names come back exactly as added, in order, under their numbers",
     "The index gives back every root and file name exactly as it was added, in order and under the number it was added as, whether read from the start or from any file number on and up to any limit. File names are added in strictly increasing order, none empty or repeated, and the entries of a file carry its number.",
     ["inputs", "histories"],
     "all lists of names, prefixes shared with the previous one, group positions, ranges and limits, in both versions",
     "The tests round-trip a few lists of short names; a wrong prefix length, group start, skip or limit shows only for particular neighbours, numbers or ranges.",
     ["index/path.go", "index/read.go", "index/write.go"],
     [("names written", "index/path.go:(*PathWriter).Write, Collect"), ("names read", "index/path.go:(*PathReader).Next, All"), ("random access", "index/read.go:(*Index).NamesAt, Names, Name"), ("numbers", "index/write.go:(*IndexWriter).addName, add")],
     "inverse analysis: token sequences written and read per path of the symbolic execution, induction over the loop that counts the shared prefix, comparison of group arithmetic between writers and readers",
     "All paths, lengths and values symbolic. Assumes varint encoding and decoding are inverse (standard library) and, from C13 and C07, that the order is total and the tables are where they are looked for.")

prop("C12", "Every posting list is read back as it was written",
     "The list of a trigram is found in the index with exactly the file numbers, in order, that were written for it; a trigram without a list yields the empty list. Every list is entered in the posting index with its number of files and its place, blocks of entries are written whole and exactly once, and the temporary files of a build give back the entries they were made of.",
     ["inputs", "histories"],
     "all lists and differences up to 63 bits, all positions within a byte and a block, all numbers of entries, both versions",
     "The tests write a handful of short lists: a block that fills exactly, a difference of many bits, an absent trigram between two blocks or a list that ends on a full byte shows only for particular numbers.",
     ["index/write.go", "index/read.go", "index/merge.go", "index/delta.go"],
     [("lists written", "index/merge.go:postDataWriter"), ("lists found", "index/read.go:(*Index).findList"), ("lists read", "index/read.go:postReader; index/merge.go:postMapReader"), ("bit code", "index/delta.go:deltaWriter, deltaReader"), ("temporary files", "index/write.go:allPostReader")],
     "inverse analysis over the paths of the symbolic execution: tokens written and read compared, typestate over the users of the posting writer, induction over search and entry loops, abstract interpretation of the bit code over vectors of symbolic bits",
     "All paths; numbers, lengths and offsets symbolic; the bit code for every number of significant bits and every position in a byte. Assumes encoding/binary's varints are inverse, and C06 and C07.")

prop("C07", "The index reader and writer agree on the file's layout",
     "An opened index finds its roots, names, posting lists, lookup tables and their counts exactly where the writer put them, for newly written and for merged indexes and in both versions of the format. A file that does not end in an index trailer, or is too short to hold one, is rejected rather than read.",
     ["inputs", "configurations"],
     "all indexes, written or merged, of either version and any size",
     "The tests compare a few small index files in one version; sections that move by a padding byte, tables of another width or offsets relative to another base show only for particular sizes.",
     ["index/write.go", "index/read.go", "index/merge.go"],
     [("sections written", "index/write.go:(*IndexWriter).Flush"), ("sections merged", "index/merge.go:Merge"), ("sections found", "index/read.go:Open"), ("tables", "index/read.go:(*Index).findListV1, findListV2, NamesAt, slice")],
     "path-sensitive symbolic execution of writer and reader; the sequence of sections, trailer fields, table strides and bases written is derived from the source and compared with the one read",
     "All paths; lengths and offsets symbolic. What stands inside a name block or a posting list is not part of this property.")

prop("C14", "Merging keeps the newer index's files and the rest of the older's",
     "Merging an older and a newer index gives an index of exactly the older files that are under none of the newer roots and all files of the newer index, in order and numbered without gaps. Every file that is kept is in the list of a trigram in the merged index exactly if it was in that list before. The merged index's roots are those of both, in order, without roots inside other roots, and cindex merges what it has just indexed as the newer.",
     ["inputs", "histories"],
     "all pairs of indexes: any roots (nested, equal, new, the root directory, archives), any names and lists, trigrams in one or both",
     "The tests merge two small indexes with a few roots; a range off by one, a root next to a similar name, an archive's members under a root or a list found in only one index shows only for particular pairs.",
     ["index/merge.go", "cmd/cindex/cindex.go"],
     [("names taken over", "index/merge.go:Merge"), ("numbers mapped", "index/merge.go:(*postMapReader).nextId"), ("lists merged", "index/merge.go:Merge, postMapReader"), ("roots merged", "index/merge.go:Merge"), ("order of the indexes", "cmd/cindex/cindex.go:main")],
     "path-sensitive abstract interpretation with readers reduced to ghost positions; ranges derived per loop iteration, typestate automaton over the merge of the lists, induction over the reader's fields",
     "All paths; positions, numbers and trigrams symbolic. Assumes the readers and writers of names and lists are right (C10, C12) and that the inputs are sound, with every name of the newer index under one of its roots.")

prop("C18", "The matcher finds exactly the lines the expression matches",
     "The matcher reports the first line in which the compiled expression matches, whatever the lines before it, the states it remembered on the way and where its buffers end: with anchors of line and text, and word boundaries judged by the ASCII bytes on either side, honoured at every position. The end of what it is given counts as the end of a line, and as the end of the text exactly when it is told so.",
     ["inputs", "histories"],
     "all programs, all bytes, all states and combinations of remembered flags, all line and buffer ends",
     "Tests match a table of short expressions against short texts; a wrong flag, fold range or cached answer shows only for one byte in one state.",
     ["regexp/match.go", "regexp/regexp.go", "sparse/set.go"],
     [("scan", "regexp/match.go:matcher.match, matchString"), ("next state", "regexp/match.go:matcher.computeNext"), ("instructions", "regexp/match.go:matcher.addq, stepEmpty, stepByte"), ("remembered states", "regexp/match.go:matcher.cache, nstate.enc, nstate.dec"), ("start", "regexp/match.go:matcher.init; regexp/regexp.go:Compile")],
     "path-sensitive abstract interpretation of each step of the matcher with path conditions evaluated exhaustively over bytes, flags and opcodes; induction over states and scan",
     "Every function on every path and every byte. Trusts regexp/syntax for the program; how character classes become bytes is C28. Boundaries inside a multi-byte character are judged by bytes.")

prop("C28", "Character classes are compiled to exactly their UTF-8 encodings",
     "On valid UTF-8 text, where an expression asks for a character, for one of a class or for any, what is compiled accepts exactly the encodings of those characters and goes on to what follows. When case is ignored those are the characters and all their case variants, of any script.",
     ["inputs"],
     "all classes and all characters, up to U+10FFFF",
     "Tests look at the programs of a dozen classes; a wrong split point, variant or shared suffix shows for one character of one class.",
     ["regexp/utf.go", "regexp/copy.go"],
     [("instructions", "regexp/utf.go:toByteProg, oneByteRange, asciiFold"), ("ranges", "regexp/utf.go:runeBuilder.addRange, maxRune"), ("shared ends", "regexp/utf.go:runeBuilder.init, suffix, uncachedSuffix"), ("alternatives", "regexp/utf.go:runeBuilder.addBranch"), ("case", "regexp/copy.go:appendFoldedRange, appendRange")],
     "path-sensitive abstract interpretation; path conditions evaluated over bytes, all character boundaries and flags; induction over the splitting of ranges, the chain of alternatives and the fold orbits",
     "Every path of every function that builds the byte program. Trusts regexp/syntax for the classes and unicode.SimpleFold and utf8.EncodeRune for their results.")

prop("C11", "The lists of a build hold exactly the recorded postings",
     "For each trigram recorded while an index is built or merged from recorded postings, the index ends with one list holding exactly the files recorded for it, in increasing order and each once, and the lists are in the order of their trigrams. That does not depend on how often the pending postings were sorted, moved to disk and brought together again.",
     ["inputs", "histories"],
     "all sequences of files and trigrams, and all splittings into sorted parts",
     "A part is written out only after millions of postings; no test reaches even one, let alone the orders in which several can interleave.",
     ["index/write.go"],
     [("entries", "index/write.go:makePostEntry, postEntry.trigram, postEntry.fileid"), ("order within a part", "index/write.go:sortPost"), ("parts", "index/write.go:flushPost, postHeap.addFile, addMem"), ("bringing together", "index/write.go:postHeap.add, push, siftUp, siftDown, next, pop"), ("lists", "index/write.go:mergePost, Flush")],
     "bit-slice domain for packed entries; inductive loop invariants (counting sort passes, heap order, grouping) checked path by path; closed world of writers",
     "Every path of the functions that sort, hold, order and group postings. The file's bytes coming back as written is the page cache's; how a list is encoded is C12.")

prop("C25", "Damage of an index that shows is reported, not read over",
     "A search or merge that comes upon visible damage in the index fails instead of going on with wrong data: a table or posting list outside the file, a number in the lists or their lookup table that is cut off, a list whose file numbers do not increase or, in a search, one with more or fewer files than are recorded for it. Checking an index in the current format with cindex fails if a list is not that of the trigram it is recorded for, or has more or fewer files than recorded, and with -check it checks the index it lists, updates or has written.",
     ["inputs"],
     "all contents an index file can have",
     "Tests read only well-formed indexes; damage can be any byte anywhere.",
     ["index/read.go", "index/delta.go", "index/merge.go", "index/check.go", "cmd/cindex/cindex.go"],
     [("lists", "index/read.go:postReader.next, index/merge.go:postMapReader.nextId"), ("numbers", "index/delta.go:deltaReader.next, next64"), ("lookup table", "index/read.go:findListV2, index/merge.go:postMapReader.load"), ("tables", "index/read.go:slice"), ("check", "index/check.go:Check")],
     "path-sensitive abstract interpretation: what must be known on every path that goes on after reading; closed world of readers",
     "Every path of every function that decodes numbers of posting lists or their table. Names that are damaged end where the damage is, and are not covered; nor is damage that has a valid form.")

prop("C29", "Lines around a match are shown as asked for",
     "When lines before or after a match are asked for, each selected line is shown once, marked, between the lines just before and just after it, in the file's order: as many as asked for, unless the file has fewer there or a line or group does not fit the search's buffer. Of a line shown, only blanks at its end, and at its beginning only indentation that all the non-blank lines shown with it share, are left out.",
     ["inputs", "configurations"],
     "all file contents with lines shorter than the buffer, all patterns, all numbers of lines before and after, all ways of splitting the input into reads",
     "No test asks for lines around a match; wrong counts show at buffer boundaries, at either end of a file and for particular indentation only.",
     ["regexp/match.go"],
     [("gathering", "regexp/match.go:lineContext"), ("counting lines", "regexp/match.go:lineSuffixLen, linePrefixLen"), ("indentation", "regexp/match.go:updatePrefix, cutPrefix, chomp"), ("buffer", "regexp/match.go:(*Grep).Reader")],
     "path-sensitive abstract interpretation with inductive loop invariants: newline-counting loops, folds over all lines, buffer positions with symbolic numbers of lines",
     "Every path of the functions named. Which lines are selected, and the heading with name and number, is C19; escaping is C02.")

prop("C30", "cgrep searches all it is given; what cannot be read is reported",
     "cgrep searches each file named after the pattern exactly once, in the order given and under the name given, whatever becomes of the others, and standard input exactly if no file is named. A file that cannot be opened by it, and in all search commands a file or archive entry whose contents cannot be read to the end, is reported once as an error, with the reason, and nothing that was read to its end is.",
     ["inputs", "configurations", "fault_sequences"],
     "all command lines, file systems and outcomes of opening and reading",
     "The tests never run cgrep, and none makes a read fail.",
     ["cmd/cgrep/cgrep.go", "regexp/match.go"],
     [("arguments", "cmd/cgrep/cgrep.go:main"), ("opening", "regexp/match.go:(*Grep).File"), ("reading", "regexp/match.go:(*Grep).Reader")],
     "path-sensitive analysis: an inductive argument over the loop over the arguments; what each path to an end knows of the last error and what it wrote to the error output",
     "Every path of cgrep's main and of the engine's two search methods. Searches ended early by a limit or by -l do not read to the end; csearch and csweb pass over files they cannot open without a word, by design.")

prop("C31", "All commands use the index the environment names",
     "All the commands use the same index: the file the environment variable CSEARCHINDEX names or, where that is empty or unset, .csearchindex in the directory HOME names. csearch and csweb open that index and no other, and cindex opens that one and the new one beside it; nothing they do on the way changes the environment or the working directory.",
     ["configurations"],
     "all environments and command lines",
     "The tests open indexes they name themselves; none runs a command or sets the environment.",
     ["index/read.go", "cmd/csearch/csearch.go", "cmd/csweb/web.go", "cmd/cindex/cindex.go"],
     [("name", "index/read.go:File"), ("search", "cmd/csearch/csearch.go:Main"), ("web", "cmd/csweb/web.go:query"), ("indexing", "cmd/cindex/cindex.go:main")],
     "path-sensitive analysis of the name; backward provenance of every index opened; closed world of changes of environment and directory",
     "Every path of index.File on unix systems (Windows also looks at USERPROFILE) and every index.Open of the commands. What cindex writes and when is C04.")
