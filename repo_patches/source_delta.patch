From 504e7df3dcefed84c8669f5efaa32962f31b80d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 01/20] fix: do not share exact set storage in alternate

union reuses its receiver's storage, so building both the prefix and
the suffix set from x.exact let each clobber the other (and x.exact,
which addExact reads afterward). The query for pq([abc]|xyzw) then
required "pqz" in place of "pqx", and csearch missed matching files.
---
 index/regexp.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index/regexp.go b/index/regexp.go
index 4f336fe..824f595 100644
--- a/index/regexp.go
+++ b/index/regexp.go
@@ -604,8 +604,8 @@ func alternate(x, y regexpInfo) (out regexpInfo) {
 	if x.exact.have() && y.exact.have() {
 		xy.exact = x.exact.union(y.exact, false)
 	} else if x.exact.have() {
-		xy.prefix = x.exact.union(y.prefix, false)
-		xy.suffix = x.exact.union(y.suffix, true)
+		xy.prefix = x.exact.copy().union(y.prefix, false)
+		xy.suffix = x.exact.copy().union(y.suffix, true)
 		x.addExact()
 	} else if y.exact.have() {
 		xy.prefix = x.prefix.union(y.exact, false)
-- 
2.43.0


From e1ac14febe5f00ac20ad3b55a47b97069dc00840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 02/20] fix: do not merge end-of-list markers as posting lists

Merge copied the end marker of each input as if it were a posting list
and then added its own, so every merge left one more marker in the
index. The third merge of the same index panicked with "no progress".
---
 index/merge.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/index/merge.go b/index/merge.go
index 55c5456..ccd0fb4 100644
--- a/index/merge.go
+++ b/index/merge.go
@@ -347,6 +347,13 @@ func (r *postMapReader) load(force bool) {
 		r.offset += int(n2)
 		r.block = b
 	}
+	if r.trigram == invalidTrigram {
+		// Entry marking the end of the posting lists, not a real list.
+		r.trigram = ^uint32(0)
+		r.count = 0
+		r.fileid = -1
+		return
+	}
 	if r.count == 0 {
 		r.fileid = -1
 		return
-- 
2.43.0


From 7b112c7a0b437a768697c86bf79dbacbb788489f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 03/20] fix: do not report a match after the final newline of a
 chunk

A regexp matching the empty string also matched the empty string after
the last newline in each chunk. Grep then printed and counted a line
that does not exist, and later line numbers were too high.
---
 regexp/match.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/regexp/match.go b/regexp/match.go
index 7a90d1a..ac9b11a 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -464,7 +464,9 @@ func (g *Grep) Reader(r io.Reader, name string) {
 		for chunkStart < end {
 			m1 := g.Regexp.Match(buf[chunkStart:end], beginText, endText) + chunkStart
 			beginText = false
-			if m1 < chunkStart {
+			if m1 < chunkStart || m1 == end && buf[end-1] == '\n' {
+				// No match, or a match only for the empty string
+				// after the final newline, which is not a line.
 				break
 			}
 			g.Match = true
-- 
2.43.0


From d7616f69959af6636fcb8dbbf9f6f32502c18790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 04/20] fix: count lines when printing context

Output with context always shows the line number of the match,
but it was only computed for -n and HTML.
---
 regexp/match.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexp/match.go b/regexp/match.go
index ac9b11a..b4103b1 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -435,7 +435,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 	}
 	var (
 		buf        = g.buf[:0]
-		needLineno = g.N || g.HTML
+		needLineno = g.N || g.HTML || g.PreContext+g.PostContext > 0
 		lineno     = 1
 		count      = 0
 		prefix     = ""
-- 
2.43.0


From a5789be97c708c06d4a282a8d8cbcf33764aaadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 05/20] fix: escape context lines and read errors in HTML
 output

---
 regexp/match.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/regexp/match.go b/regexp/match.go
index b4103b1..827af41 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -500,14 +500,14 @@ func (g *Grep) Reader(r io.Reader, name string) {
 			case g.C:
 				count++
 			case g.PreContext+g.PostContext > 0:
-				fmt.Fprintf(g.Stdout, "%s%d:\n", prefix, lineno)
+				fmt.Fprintf(g.Stdout, "%s%d:\n", g.esc(prefix), lineno)
 				before, match, after := lineContext(g.PreContext, g.PostContext, buf, lineStart, lineEnd)
 				for _, line := range before {
-					fmt.Fprintf(g.Stdout, "\t\t%s\n", line)
+					fmt.Fprintf(g.Stdout, "\t\t%s\n", g.esc(string(line)))
 				}
-				fmt.Fprintf(g.Stdout, "\t>>\t%s\n", match)
+				fmt.Fprintf(g.Stdout, "\t>>\t%s\n", g.esc(string(match)))
 				for _, line := range after {
-					fmt.Fprintf(g.Stdout, "\t\t%s\n", line)
+					fmt.Fprintf(g.Stdout, "\t\t%s\n", g.esc(string(line)))
 				}
 			case g.HTML:
 				fmt.Fprintf(g.Stdout, "<a href=\"/show/%s?q=%s#L%d\">%s:%d</a>:%s%s", g.esc(strings.ReplaceAll(name, "#", ">")), g.esc(g.Regexp.String()), lineno, g.esc(name), lineno, g.esc(string(line)), nl)
@@ -535,7 +535,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 		chunkStart = d
 		if endText && err != nil {
 			if err != io.EOF && err != io.ErrUnexpectedEOF {
-				fmt.Fprintf(g.Stderr, "%s: %v\n", g.esc(name), err)
+				fmt.Fprintf(g.Stderr, "%s: %s\n", g.esc(name), g.esc(err.Error()))
 			}
 			break
 		}
-- 
2.43.0


From 4e700d5ea103b0fdca79c2d9c22a0ff46e68f5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:40 +0000
Subject: [PATCH 06/20] fix: escape regexp syntax errors shown by csweb

The error text quotes the query, so a crafted link could inject HTML.
---
 cmd/csweb/web.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/csweb/web.go b/cmd/csweb/web.go
index 4b46d92..70d0004 100644
--- a/cmd/csweb/web.go
+++ b/cmd/csweb/web.go
@@ -56,7 +56,7 @@ func home(w http.ResponseWriter, r *http.Request) {
 	pat := "(?m)" + qarg
 	re, err := regexp.Compile(pat)
 	if err != nil {
-		fmt.Fprintf(w, "Bad query: %v\n", err)
+		fmt.Fprintf(w, "Bad query: %s\n", html.EscapeString(err.Error()))
 		return
 	}
 	g.Regexp = re
@@ -65,7 +65,7 @@ func home(w http.ResponseWriter, r *http.Request) {
 	if farg != "" {
 		fre, err = regexp.Compile(farg)
 		if err != nil {
-			fmt.Fprintf(w, "Bad -f flag: %v\n", err)
+			fmt.Fprintf(w, "Bad -f flag: %s\n", html.EscapeString(err.Error()))
 			return
 		}
 	}
-- 
2.43.0


From 04a785f0ec5c4df7699ba032427aa516780e29c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:41 +0000
Subject: [PATCH 07/20] fix: do not crash indexing a missing path with a hidden
 name

Walk passes a nil info along with the error.
---
 cmd/cindex/cindex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/cindex/cindex.go b/cmd/cindex/cindex.go
index d82bf6c..702d5f9 100644
--- a/cmd/cindex/cindex.go
+++ b/cmd/cindex/cindex.go
@@ -143,7 +143,7 @@ func main() {
 			if _, elem := filepath.Split(path); elem != "" {
 				// Skip various temporary or "hidden" files or directories.
 				if elem[0] == '.' || elem[0] == '#' || elem[0] == '~' || elem[len(elem)-1] == '~' {
-					if info.IsDir() {
+					if info != nil && info.IsDir() {
 						return filepath.SkipDir
 					}
 					return nil
-- 
2.43.0


From f8387d058702a24f37cea5649450ea6f503ab196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:41 +0000
Subject: [PATCH 08/20] fix: report failure to replace or remove the index

cindex logged "done" and exited successfully even though
the old index was still in place.
---
 cmd/cindex/cindex.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/cindex/cindex.go b/cmd/cindex/cindex.go
index 702d5f9..0a95b99 100644
--- a/cmd/cindex/cindex.go
+++ b/cmd/cindex/cindex.go
@@ -96,7 +96,9 @@ func main() {
 	}
 
 	if *resetFlag && flag.NArg() == 0 {
-		os.Remove(index.File())
+		if err := os.Remove(index.File()); err != nil && !os.IsNotExist(err) {
+			log.Fatal(err)
+		}
 		return
 	}
 	var roots []index.Path
@@ -175,7 +177,9 @@ func main() {
 			}
 		}
 		os.Remove(file)
-		os.Rename(file+"~", master)
+		if err := os.Rename(file+"~", master); err != nil {
+			log.Fatal(err)
+		}
 	} else {
 		if *checkFlag {
 			ix := index.Open(file)
-- 
2.43.0


From a0c467c541fbbe35504cff6eb3bbdaf2294eea25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:42 +0000
Subject: [PATCH 09/20] fix: list files for csearch -l with an empty regexp

Grep finds no lines, and so no match, in an empty reader.
Give it one line to match instead.
---
 cmd/csearch/csearch.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cmd/csearch/csearch.go b/cmd/csearch/csearch.go
index 58af5b8..b17be17 100644
--- a/cmd/csearch/csearch.go
+++ b/cmd/csearch/csearch.go
@@ -6,7 +6,6 @@ package main
 
 import (
 	"archive/zip"
-	"bytes"
 	"flag"
 	"fmt"
 	"log"
@@ -147,7 +146,7 @@ func Main() {
 	for _, fileid := range post {
 		name := ix.Name(fileid).String()
 		if g.L && (pat == "(?m)" || pat == "(?i)(?m)") {
-			g.Reader(bytes.NewReader(nil), name)
+			g.Reader(strings.NewReader("\n"), name)
 			continue
 		}
 		file, err := os.Open(string(name))
-- 
2.43.0


From ea5369cc02087171b2c2990062077ea26ea11c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 10/20] fix: index each file once when given overlapping paths

With both dir and dir/sub as arguments, files in dir/sub were added
twice (and out of order), and csearch printed their matches twice.
---
 cmd/cindex/cindex.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cmd/cindex/cindex.go b/cmd/cindex/cindex.go
index 0a95b99..04e95ef 100644
--- a/cmd/cindex/cindex.go
+++ b/cmd/cindex/cindex.go
@@ -117,6 +117,16 @@ func main() {
 			roots = append(roots, index.MakePath(a))
 		}
 		slices.SortFunc(roots, index.Path.Compare)
+
+		// Drop roots inside other roots, so that
+		// no file is indexed twice.
+		all := roots
+		roots = nil
+		for _, root := range all {
+			if n := len(roots); n == 0 || !root.HasPathPrefix(roots[n-1]) {
+				roots = append(roots, root)
+			}
+		}
 	}
 
 	master := index.File()
-- 
2.43.0


From 41c9750aaafc640afac981efbb69fa486c424c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:35 +0000
Subject: [PATCH 11/20] fix: merge indexes of the root directory

The root directory's name already ends in a slash, so no other path
counted as being inside it: Merge panicked with "inconsistent index",
and overlapping paths were not removed from the list of paths.
---
 index/merge.go |  3 ++-
 index/path.go  | 14 ++++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/index/merge.go b/index/merge.go
index ccd0fb4..1fbbe7c 100644
--- a/index/merge.go
+++ b/index/merge.go
@@ -74,7 +74,8 @@ func Merge(dst, src1, src2 string) {
 		// but not food or fop. Slash compares equal to \x00,
 		// and if foo is a zip file, foo\x01 is a file in it,
 		// so use foo\x02 as the limit.
-		limit := MakePath(root.String() + "\x02")
+		// If root is /, the limit is just \x02.
+		limit := MakePath(root.trimSep() + "\x02")
 		for i1 < ix1.numName && name1.Compare(limit) < 0 {
 			names1.Next()
 			name1 = names1.Path()
diff --git a/index/path.go b/index/path.go
index d5b0f90..7fa4f70 100644
--- a/index/path.go
+++ b/index/path.go
@@ -30,10 +30,20 @@ func (p Path) String() string {
 }
 
 func (p Path) HasPathPrefix(parent Path) bool {
+	// The root directory (like / or C:\) already ends in a separator.
+	dir := parent.trimSep()
 	return strings.HasPrefix(p.s, parent.s) &&
 		(p.s == parent.s ||
-			p.s[len(parent.s)] == '/' ||
-			p.s[len(parent.s)] == os.PathSeparator)
+			p.s[len(dir)] == '/' ||
+			p.s[len(dir)] == os.PathSeparator)
+}
+
+// trimSep returns p's path without any trailing separator.
+func (p Path) trimSep() string {
+	if n := len(p.s); n > 0 && (p.s[n-1] == '/' || p.s[n-1] == os.PathSeparator) {
+		return p.s[:n-1]
+	}
+	return p.s
 }
 
 // Compare returns the comparison of p and q.
-- 
2.43.0


From a308ade5fdf3e1f61be7044ee81adf5df0b6a365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 12/20] fix: check for error rewinding temporary file

If the seek failed, copyFile would copy nothing and
the index would silently have no names.
---
 index/write.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/index/write.go b/index/write.go
index 185ed23..cf67ab4 100644
--- a/index/write.go
+++ b/index/write.go
@@ -687,7 +687,9 @@ func (b *Buffer) Flush() {
 func (b *Buffer) finish() *os.File {
 	b.Flush()
 	f := b.file
-	f.Seek(0, 0)
+	if _, err := f.Seek(0, 0); err != nil {
+		log.Fatalf("seeking in %s: %v", b.name, err)
+	}
 	return f
 }
 
-- 
2.43.0


From 970904c730350a6d912eb3d921bc520a7cb6ce65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 13/20] fix: log errors reading files inside zip files

Errors from add were dropped, so a damaged entry was left out of the
index without a trace, and errors from Open were logged with the
nil reader instead of the name.
---
 index/write.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/index/write.go b/index/write.go
index cf67ab4..ae18e60 100644
--- a/index/write.go
+++ b/index/write.go
@@ -197,12 +197,12 @@ func (ix *IndexWriter) Add(name string, f io.Reader) error {
 		for _, file := range files {
 			r, err := file.Open()
 			if err != nil {
-				println("no3", name)
-
-				log.Printf("%s: %v", r, err)
+				log.Printf("%s: %s: %v", name, file.Name, err)
 				continue
 			}
-			ix.add(name+"\x01"+file.Name, r)
+			if err := ix.add(name+"\x01"+file.Name, r); err != nil {
+				log.Printf("%s: %s: %v", name, file.Name, err)
+			}
 			r.Close()
 		}
 		return err
-- 
2.43.0


From 9607c6d27ce68992e65ce91a5d825eea02da77eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 14/20] fix: enforce that names are added in sorted order

addName's check compared against nameLast, which was never set, so an
unsorted or duplicated name went into the index undetected, and Merge
silently dropped or misplaced files. Skip duplicate zip file entries,
which the check would otherwise reject, and sort entries with the same
comparison that it uses.
---
 index/write.go | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/index/write.go b/index/write.go
index ae18e60..4272eed 100644
--- a/index/write.go
+++ b/index/write.go
@@ -6,7 +6,6 @@ package index
 
 import (
 	"archive/zip"
-	"cmp"
 	"encoding/binary"
 	"fmt"
 	"io"
@@ -180,21 +179,13 @@ func (ix *IndexWriter) Add(name string, f io.Reader) error {
 		}
 		files := slices.Clone(r.File)
 		slices.SortFunc(files, func(x, y *zip.File) int {
-			for i := 0; i < len(x.Name) && i < len(y.Name); i++ {
-				if x.Name[i] == y.Name[i] {
-					continue
-				}
-				if x.Name[i] == '/' {
-					return -1
-				}
-				if y.Name[i] == '/' {
-					return +1
-				}
-				return cmp.Compare(x.Name[i], y.Name[i])
-			}
-			return cmp.Compare(len(x.Name), len(y.Name))
+			return MakePath(x.Name).Compare(MakePath(y.Name))
 		})
-		for _, file := range files {
+		for i, file := range files {
+			if i > 0 && MakePath(file.Name).Compare(MakePath(files[i-1].Name)) == 0 {
+				log.Printf("%s: %s: duplicate name, ignoring\n", name, file.Name)
+				continue
+			}
 			r, err := file.Open()
 			if err != nil {
 				log.Printf("%s: %s: %v", name, file.Name, err)
@@ -385,6 +376,7 @@ func (ix *IndexWriter) addName(name Path) int {
 
 	id := ix.numName
 	ix.numName++
+	ix.nameLast = name
 	ix.names.Write(Path(name))
 	return id
 }
-- 
2.43.0


From d2abb64ac8b3ae86b8de02728d8f9778901bd2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 15/20] fix: detect truncated entry in posting index block

binary.Uvarint returns n == 0, not n < 0, when the data is too short,
so a truncated entry was taken for an empty posting list, and the
search reported no matches, instead of reporting a corrupt index.
---
 index/read.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index/read.go b/index/read.go
index 1c8715b..2025f64 100644
--- a/index/read.go
+++ b/index/read.go
@@ -386,11 +386,11 @@ func (ix *Index) findListV2(trigram uint32) (count, offset int) {
 			break
 		}
 		count, n1 := binary.Uvarint(b[3:])
-		if n1 < 0 {
+		if n1 <= 0 {
 			ix.corrupt()
 		}
 		o, n2 := binary.Uvarint(b[3+n1:])
-		if n2 < 0 {
+		if n2 <= 0 {
 			ix.corrupt()
 		}
 		offset += int(o)
-- 
2.43.0


From b100a3c3c1c35d3fda8433e620fde6d22030ab75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:32 +0000
Subject: [PATCH 16/20] fix: implement cgrep -v

The flag was accepted but ignored, so cgrep -v printed
the matching lines.
---
 regexp/match.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/regexp/match.go b/regexp/match.go
index 827af41..f6433ea 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -416,6 +416,28 @@ func (g *Grep) File(name string) {
 
 var nl = []byte{'\n'}
 
+// next returns the end of a match in the next line of b to print,
+// or -1 if there are no more lines to print in b.
+func (g *Grep) next(b []byte, beginText, endText bool) int {
+	if !g.V {
+		return g.Regexp.Match(b, beginText, endText)
+	}
+	for start := 0; start < len(b); {
+		// line is b[start:end], plus the newline at b[end] if any.
+		end, next := len(b), len(b)
+		if i := bytes.IndexByte(b[start:], '\n'); i >= 0 {
+			end, next = start+i, start+i+1
+		}
+		m := g.Regexp.Match(b[start:next], beginText, endText && next == len(b))
+		if m < 0 || start+m > end {
+			return end
+		}
+		beginText = false
+		start = next
+	}
+	return -1
+}
+
 func countNL(b []byte) int {
 	n := 0
 	for {
@@ -462,7 +484,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 			endText = true
 		}
 		for chunkStart < end {
-			m1 := g.Regexp.Match(buf[chunkStart:end], beginText, endText) + chunkStart
+			m1 := g.next(buf[chunkStart:end], beginText, endText) + chunkStart
 			beginText = false
 			if m1 < chunkStart || m1 == end && buf[end-1] == '\n' {
 				// No match, or a match only for the empty string
-- 
2.43.0


From 7b9faa5393987e39f9f4eaf39712e450676857d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 17/20] fix: search the zip entry that was indexed when names
 repeat

---
 cmd/csearch/csearch.go | 5 ++++-
 cmd/csweb/web.go       | 5 ++++-
 index/write.go         | 2 +-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/cmd/csearch/csearch.go b/cmd/csearch/csearch.go
index b17be17..f35d9c4 100644
--- a/cmd/csearch/csearch.go
+++ b/cmd/csearch/csearch.go
@@ -166,7 +166,10 @@ func Main() {
 					if zipReader != nil {
 						zipMap = make(map[string]*zip.File)
 						for _, file := range zipReader.File {
-							zipMap[file.Name] = file
+							// Like the index, use the first of any duplicates.
+							if zipMap[file.Name] == nil {
+								zipMap[file.Name] = file
+							}
 						}
 					}
 				}
diff --git a/cmd/csweb/web.go b/cmd/csweb/web.go
index 70d0004..3b80e9b 100644
--- a/cmd/csweb/web.go
+++ b/cmd/csweb/web.go
@@ -127,7 +127,10 @@ func home(w http.ResponseWriter, r *http.Request) {
 					if zipReader != nil {
 						zipMap = make(map[string]*zip.File)
 						for _, file := range zipReader.File {
-							zipMap[file.Name] = file
+							// Like the index, use the first of any duplicates.
+							if zipMap[file.Name] == nil {
+								zipMap[file.Name] = file
+							}
 						}
 					}
 				}
diff --git a/index/write.go b/index/write.go
index 4272eed..eca93b7 100644
--- a/index/write.go
+++ b/index/write.go
@@ -178,7 +178,7 @@ func (ix *IndexWriter) Add(name string, f io.Reader) error {
 			return err
 		}
 		files := slices.Clone(r.File)
-		slices.SortFunc(files, func(x, y *zip.File) int {
+		slices.SortStableFunc(files, func(x, y *zip.File) int {
 			return MakePath(x.Name).Compare(MakePath(y.Name))
 		})
 		for i, file := range files {
-- 
2.43.0


From 47a82ded8461acce9022196e617d8fcede1e4ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:01 +0000
Subject: [PATCH 18/20] fix: compile character classes that end in the
 surrogate range

---
 regexp/utf.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/regexp/utf.go b/regexp/utf.go
index d587eaa..1932034 100644
--- a/regexp/utf.go
+++ b/regexp/utf.go
@@ -211,6 +211,14 @@ func (b *runeBuilder) addBranch(pc uint32) {
 }
 
 func (b *runeBuilder) addRange(lo, hi rune, fold bool) {
+	// Surrogates have no UTF-8 encoding: a range must not end in them.
+	const minSurrogate, maxSurrogate = 0xD800, 0xDFFF
+	if minSurrogate <= lo && lo <= maxSurrogate {
+		lo = maxSurrogate + 1
+	}
+	if minSurrogate <= hi && hi <= maxSurrogate {
+		hi = minSurrogate - 1
+	}
 	if lo > hi {
 		return
 	}
-- 
2.43.0


From 3561fef699a361050e435b4149b5bf3f0d757bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:16 +0000
Subject: [PATCH 19/20] fix: compile a class of two non-ASCII cases of a letter
 to their bytes

---
 regexp/utf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexp/utf.go b/regexp/utf.go
index 1932034..e704c28 100644
--- a/regexp/utf.go
+++ b/regexp/utf.go
@@ -100,7 +100,7 @@ func oneByteRange(i *syntax.Inst) (lo, hi byte, fold, ok bool) {
 		}
 		return byte(i.Rune[0]), byte(i.Rune[1]), fold, true
 	}
-	if len(i.Rune) == 4 && i.Rune[0] == i.Rune[1] && i.Rune[2] == i.Rune[3] && unicode.SimpleFold(i.Rune[0]) == i.Rune[2] && unicode.SimpleFold(i.Rune[2]) == i.Rune[0] {
+	if len(i.Rune) == 4 && asciiFold(i.Rune[0]) && i.Rune[0] == i.Rune[1] && i.Rune[2] == i.Rune[3] && unicode.SimpleFold(i.Rune[0]) == i.Rune[2] && unicode.SimpleFold(i.Rune[2]) == i.Rune[0] {
 		return byte(i.Rune[0]), byte(i.Rune[0]), true, true
 	}
 
-- 
2.43.0


From 8cf9e802c3a1746224616e43248764bf224c8105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:17 +0000
Subject: [PATCH 20/20] fix: fold all letters with case, up to U+1E943

---
 regexp/copy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexp/copy.go b/regexp/copy.go
index 9be1987..400e2d8 100644
--- a/regexp/copy.go
+++ b/regexp/copy.go
@@ -77,7 +77,7 @@ const (
 	// minimum and maximum runes involved in folding.
 	// checked during test.
 	minFold = 0x0041
-	maxFold = 0x1044f
+	maxFold = 0x1e943
 )
 
 // appendFoldedRange returns the result of appending the range lo-hi
-- 
2.43.0

