From d6d6e686d1d8fddb3904fa0150eec4b99a9bd760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 1/8] fix: do not sort the shared tag types while holding only
 the read lock

---
 converter/register.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/converter/register.go b/converter/register.go
index d200ded..92e4635 100644
--- a/converter/register.go
+++ b/converter/register.go
@@ -215,8 +215,14 @@ func (conv *Converter) getTagType(tagName string) (tagType, bool) {
 		return "", false
 	}
 
-	types.Sort()
-	firstType := types[0].Value
+	// Note: This only holds the read lock, so the registered
+	// slice is shared with other conversions and must not be sorted in place.
+	first := types[0]
+	for _, t := range types[1:] {
+		if t.Priority < first.Priority {
+			first = t
+		}
+	}
 
-	return firstType, true
+	return first.Value, true
 }
-- 
2.43.0


From 7626f42973193a4e2913fe2ffa5ac04b8e170e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:40 +0000
Subject: [PATCH 2/8] fix: read the registered plugins under the lock

---
 converter/convert.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/converter/convert.go b/converter/convert.go
index 047f64f..09f05e6 100644
--- a/converter/convert.go
+++ b/converter/convert.go
@@ -76,8 +76,10 @@ func (conv *Converter) ConvertNode(doc *html.Node, opts ...ConvertOptionFunc) ([
 		return nil, errNoRenderHandlers
 	}
 
+	conv.m.RLock()
 	containsCommonmark := slices.Contains(conv.registeredPlugins, "commonmark")
 	containsBase := slices.Contains(conv.registeredPlugins, "base")
+	conv.m.RUnlock()
 	if containsCommonmark && !containsBase {
 		return nil, errBasePluginMissing
 	}
-- 
2.43.0


From fe7bf74cbd1ab2e7019ed6c1749a09cbc4008a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:40 +0000
Subject: [PATCH 3/8] fix: do not hold the lock while running convert options

---
 converter/convert.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converter/convert.go b/converter/convert.go
index 09f05e6..c56978d 100644
--- a/converter/convert.go
+++ b/converter/convert.go
@@ -63,12 +63,12 @@ func (conv *Converter) ConvertNode(doc *html.Node, opts ...ConvertOptionFunc) ([
 		return nil, err
 	}
 
-	conv.m.Lock()
+	// Note: The options are supplied by the caller, so they must not run
+	// while holding the lock (e.g. they could panic or use the converter).
 	option := &convertOption{}
 	for _, fn := range opts {
 		fn(option)
 	}
-	conv.m.Unlock()
 
 	// If there are no render handlers registered this is
 	// usually a user error - since people want the Commonmark Plugin in 99% of cases.
-- 
2.43.0


From b1f81bd094605ce3d6435db97c55057e4526669d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:07 +0000
Subject: [PATCH 4/8] fix: report a failed write to stdout

---
 cli/html2markdown/cmd/io_output.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cli/html2markdown/cmd/io_output.go b/cli/html2markdown/cmd/io_output.go
index 3037a09..a10714e 100644
--- a/cli/html2markdown/cmd/io_output.go
+++ b/cli/html2markdown/cmd/io_output.go
@@ -170,7 +170,10 @@ func (cli *CLI) writeOutput(outputType outputType, filename string, markdown []b
 		}
 	default:
 		{
-			fmt.Fprintln(cli.Stdout, string(markdown))
+			_, err := fmt.Fprintln(cli.Stdout, string(markdown))
+			if err != nil {
+				return fmt.Errorf("error while writing to stdout: %w", err)
+			}
 
 			return nil
 		}
-- 
2.43.0


From ac0b29dbb0964486a3e4b51d6ec7fae5da7c4546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:46 +0000
Subject: [PATCH 5/8] fix: fail when a directory of the input glob cannot be
 read

---
 cli/html2markdown/cmd/io_input.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/html2markdown/cmd/io_input.go b/cli/html2markdown/cmd/io_input.go
index 7517c17..ee3fb0d 100644
--- a/cli/html2markdown/cmd/io_input.go
+++ b/cli/html2markdown/cmd/io_input.go
@@ -31,7 +31,7 @@ func (cli *CLI) listInputs() ([]*input, error) {
 	// This improves interoperability with other tools like `xargs`.
 	// https://github.com/JohannesKaufmann/html-to-markdown/issues/170
 	if cli.config.inputFilepath != "" {
-		matches, err := doublestar.FilepathGlob(cli.config.inputFilepath, doublestar.WithFilesOnly(), doublestar.WithNoFollow())
+		matches, err := doublestar.FilepathGlob(cli.config.inputFilepath, doublestar.WithFilesOnly(), doublestar.WithNoFollow(), doublestar.WithFailOnIOErrors())
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 3c6f76fad82cddad4a42d3cd0d43ff397a93cc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:01 +0000
Subject: [PATCH 6/8] fix: give every input its own output file

With --output-overwrite the output of a file called like the hashed name
of a duplicate (page.0123456789.html) was written over that duplicate's.
---
 cli/html2markdown/cmd/io_output.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cli/html2markdown/cmd/io_output.go b/cli/html2markdown/cmd/io_output.go
index a10714e..23d1f48 100644
--- a/cli/html2markdown/cmd/io_output.go
+++ b/cli/html2markdown/cmd/io_output.go
@@ -86,12 +86,15 @@ func calculateOutputPaths(inputFilepath string, inputs []*input) error {
 	)
 
 	allBasenames := make(map[string]int)
+	usedFilenames := make(map[string]bool)
 	for _, input := range inputs {
 		basenameWithExt := filepath.Base(input.inputFullFilepath)
 		basename := fileNameWithoutExtension(basenameWithExt)
 
+		// The name is also taken if it was given to a duplicate of another file.
+		// E.g. "page.0123456789.html" after the duplicate "sub/page.html"
 		val := allBasenames[basename]
-		if val == 0 {
+		if val == 0 && !usedFilenames[basename+".md"] {
 			// -> The standard filename
 			input.outputFullFilepath = basename + ".md"
 		} else {
@@ -107,9 +110,13 @@ func calculateOutputPaths(inputFilepath string, inputs []*input) error {
 
 			// -> The filename for duplicates
 			input.outputFullFilepath = basename + "." + hash[:10] + ".md"
+			for i := 11; i <= len(hash) && usedFilenames[input.outputFullFilepath]; i++ {
+				input.outputFullFilepath = basename + "." + hash[:i] + ".md"
+			}
 		}
 
 		allBasenames[basename]++
+		usedFilenames[input.outputFullFilepath] = true
 	}
 
 	return nil
-- 
2.43.0


From f5ccfd50d3e8bf4256e7cec3c721b7e612f568a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:55 +0000
Subject: [PATCH 7/8] fix: the pound sign at the end of a heading panicked or
 overwrote content without escaping

---
 plugin/commonmark/render_heading.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/plugin/commonmark/render_heading.go b/plugin/commonmark/render_heading.go
index a350e8b..05596b3 100644
--- a/plugin/commonmark/render_heading.go
+++ b/plugin/commonmark/render_heading.go
@@ -93,6 +93,12 @@ func escapePoundSignAtEnd(s []byte) []byte {
 		return s
 	}
 
+	if len(s) < 2 || s[len(s)-2] != marker.BytesMarkerEscaping[0] {
+		// There is no placeholder that could be overridden (e.g. because
+		// the escaping is disabled or not registered yet).
+		return s
+	}
+
 	// Because we have a # at the end,
 	// we should manually force the escaping
 	// by overriding the placeholder.
-- 
2.43.0


From 92ae6c040cb4d6c1c663fa8966136692946b7195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:15 +0000
Subject: [PATCH 8/8] fix: handlers with the same priority changed places once
 there were more than twelve

---
 converter/prioritized.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/converter/prioritized.go b/converter/prioritized.go
index b0d5196..b8a891e 100644
--- a/converter/prioritized.go
+++ b/converter/prioritized.go
@@ -23,7 +23,9 @@ type prioritizedValue[V any] struct {
 type prioritizedSlice[V any] []prioritizedValue[V]
 
 func (s prioritizedSlice[V]) Sort() {
-	sort.Slice(s, func(i, j int) bool {
+	// Note: Values with the same priority need to stay in the order of their
+	// registration, no matter how many others there are.
+	sort.SliceStable(s, func(i, j int) bool {
 		return s[i].Priority < s[j].Priority
 	})
 }
-- 
2.43.0

