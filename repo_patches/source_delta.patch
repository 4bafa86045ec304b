From 26c4c71fe917ce598a912c5aec2b3574bf4f7e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:13 +0000
Subject: [PATCH 1/7] fix: sentence splitter no longer depends on how the text
 is cut into reads

ScanSentences compacted and blanked the scanner's buffer when it asked for
more data, which lost line feeds, corrupted characters split between reads,
separated a delimiter from its closing bracket at a read boundary, and
produced an empty sentence for trailing white space.
---
 filter/sentence_splitter.go | 70 +++++++++++++++++++++++--------------
 1 file changed, 43 insertions(+), 27 deletions(-)

diff --git a/filter/sentence_splitter.go b/filter/sentence_splitter.go
index 3f41dc9..0bb26e2 100644
--- a/filter/sentence_splitter.go
+++ b/filter/sentence_splitter.go
@@ -1,6 +1,7 @@
 package filter
 
 import (
+	"bytes"
 	"unicode"
 	"unicode/utf8"
 )
@@ -47,6 +48,25 @@ func (s SentenceSplitter) isFollower(r rune) bool {
 	return false
 }
 
+// maxTailRuneLen limits how many runes after a delimiter are examined for the end of a sentence.
+const maxTailRuneLen = 1024
+
+// sentence returns the text of a sentence without the white spaces to be eliminated. It leaves b as it is.
+func (s SentenceSplitter) sentence(b []byte) []byte {
+	if !s.SkipWhiteSpace || bytes.IndexFunc(b, unicode.IsSpace) < 0 {
+		return b
+	}
+	ret := make([]byte, 0, len(b))
+	for p := 0; p < len(b); {
+		r, size := utf8.DecodeRune(b[p:])
+		if !unicode.IsSpace(r) {
+			ret = append(ret, b[p:p+size]...)
+		}
+		p += size
+	}
+	return ret
+}
+
 // ScanSentences is a split function for a Scanner that returns each sentence of text.
 // nolint: gocyclo
 func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, token []byte, err error) {
@@ -54,22 +74,25 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 		return 0, nil, nil
 	}
 	var (
-		start, end, rcount int
-		head, nn           bool // nn indicates \n\n
+		start, rcount int
+		head, nn      bool // nn indicates \n\n
 	)
 	head = true
 	for p := 0; p < len(data); {
+		if !atEOF && !utf8.FullRune(data[p:]) {
+			break // the rest of the rune has not arrived yet
+		}
 		r, size := utf8.DecodeRune(data[p:])
+		p += size
 		if s.SkipWhiteSpace && unicode.IsSpace(r) {
-			p += size
 			switch {
 			case head:
-				start, end = p, p
+				start = p
 			case s.isDelim(r):
-				return p, data[start:end], nil
+				return p, s.sentence(data[start:p]), nil
 			case s.DoubleLineFeedSplit && r == '\n':
 				if nn {
-					return p, data[start:end], nil
+					return p, s.sentence(data[start:p]), nil
 				}
 				nn = true
 			case nn:
@@ -78,17 +101,10 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 			continue
 		}
 		head = false
-		if end != p {
-			for i := 0; i < size; i++ {
-				data[end+i] = data[p+i]
-			}
-		}
-		p += size
-		end += size
 		rcount++
 		if s.DoubleLineFeedSplit && r == '\n' {
 			if nn {
-				return p, data[start:end], nil
+				return p, s.sentence(data[start:p]), nil
 			}
 			nn = true
 		}
@@ -97,37 +113,37 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 		}
 		// split
 		nn = false
-		for p < len(data) {
+		for i := 0; i < maxTailRuneLen; i++ {
+			if !atEOF && !utf8.FullRune(data[p:]) {
+				return start, nil, nil // what follows belongs to the sentence or not
+			}
+			if p >= len(data) {
+				break
+			}
 			r, size := utf8.DecodeRune(data[p:])
 			if s.SkipWhiteSpace && unicode.IsSpace(r) {
 				p += size
 				if s.DoubleLineFeedSplit && r == '\n' {
 					if nn {
-						return p, data[start:end], nil
+						return p, s.sentence(data[start:p]), nil
 					}
 					nn = true
 				}
 			} else if s.isDelim(r) || s.isFollower(r) {
-				if end != p {
-					for i := 0; i < size; i++ {
-						data[end+i] = data[p+i]
-					}
-				}
 				p += size
-				end += size
 			} else {
 				break
 			}
 		}
-		return p, data[start:end], nil
+		return p, s.sentence(data[start:p]), nil
 	}
 	if !atEOF {
 		// Request more data
-		for i := end; i < len(data); i++ {
-			data[i] = ' '
-		}
 		return start, nil, nil
 	}
 	// If we're at EOF, we have a final, non-terminated line. Return it.
-	return len(data), data[start:end], nil
+	if head {
+		return len(data), nil, nil // white spaces only
+	}
+	return len(data), s.sentence(data[start:]), nil
 }
-- 
2.43.0


From 788bdc856a631eb05702a0ee77c1355713cf1931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:46 +0000
Subject: [PATCH 2/7] fix: lattice page no longer hangs when graphviz stops
 reading its input

The graph was written into an unbuffered pipe whose only reader is the
goroutine feeding the graphviz process. If the process ended or was killed
before it had read everything, that write blocked for ever and so did the
request. Hand the complete graph over as the standard input instead.
---
 cmd/server/demo.go | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/cmd/server/demo.go b/cmd/server/demo.go
index d022d74..00b30a3 100644
--- a/cmd/server/demo.go
+++ b/cmd/server/demo.go
@@ -7,7 +7,6 @@ import (
 	"errors"
 	"fmt"
 	"html/template"
-	"io"
 	"net/http"
 	"os/exec"
 	"strings"
@@ -87,18 +86,12 @@ func (h *TokenizeDemoHandler) analyzeGraph(ctx context.Context, sen string, mode
 	defer cancel()
 	var b bytes.Buffer
 	cmd := exec.CommandContext(ctx, graphvizCmd, "-Tsvg")
-	r0, w0 := io.Pipe()
-	cmd.Stdin = r0
+	var graph bytes.Buffer
+	tokens := h.tokenizer.AnalyzeGraph(&graph, sen, mode)
+	cmd.Stdin = &graph
 	cmd.Stdout = &b
 	cmd.Stderr = Stderr
-	if err := cmd.Start(); err != nil {
-		return nil, "", fmt.Errorf("process done with error, %w", err)
-	}
-	tokens := h.tokenizer.AnalyzeGraph(w0, sen, mode)
-	if err := w0.Close(); err != nil {
-		return nil, "", fmt.Errorf("pipe close error, %w", err)
-	}
-	if err := cmd.Wait(); err != nil {
+	if err := cmd.Run(); err != nil {
 		return nil, "", fmt.Errorf("process done with error, %w", err)
 	}
 	svg = b.String()
-- 
2.43.0


From 6e6938a2324b800ec0d401cdcb76150dece37387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:46 +0000
Subject: [PATCH 3/7] fix: tokenize API error replies are valid JSON

The error message was pasted unescaped into a JSON string literal, so
messages with quotes or backslashes (most JSON syntax errors contain them)
produced a broken body.
---
 cmd/server/api.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cmd/server/api.go b/cmd/server/api.go
index 50cce3a..7a655cb 100644
--- a/cmd/server/api.go
+++ b/cmd/server/api.go
@@ -25,11 +25,18 @@ type TokenizerResponseBody struct {
 	Tokens []tokenizer.TokenData `json:"tokens"`
 }
 
+// writeError replies to the request with a JSON error message.
+func writeError(w http.ResponseWriter, err error, code int) {
+	msg, _ := json.Marshal(err.Error()) // a string is always marshalable
+	w.WriteHeader(code)
+	fmt.Fprintf(w, "{\"status\":false,\"error\":%s}\n", msg)
+}
+
 func (h *TokenizeHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	w.Header().Set("Content-Type", "application/json")
 	var req TokenizerRequestBody
 	if err := json.NewDecoder(r.Body).Decode(&req); err != nil {
-		http.Error(w, fmt.Sprintf("{\"status\":false,\"error\":\"%v\"}", err), http.StatusBadRequest)
+		writeError(w, err, http.StatusBadRequest)
 		return
 	}
 	if req.Input == "" {
@@ -56,7 +63,7 @@ func (h *TokenizeHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		Tokens: tokenData,
 	})
 	if err != nil {
-		http.Error(w, fmt.Sprintf("{\"status\":false,\"error\":\"%v\"}", err), http.StatusInternalServerError)
+		writeError(w, err, http.StatusInternalServerError)
 		return
 	}
 	w.WriteHeader(http.StatusOK)
-- 
2.43.0


From da5f4267fcb98522c8173a87123a69557395128d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:47 +0000
Subject: [PATCH 4/7] fix: escape labels of the exported lattice graph

A double quote or backslash in the text or in a part of speech broke the
quoting of the dot output, so the graph could not be drawn.
---
 tokenizer/lattice/lattice.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tokenizer/lattice/lattice.go b/tokenizer/lattice/lattice.go
index aab4eea..73d6d3c 100644
--- a/tokenizer/lattice/lattice.go
+++ b/tokenizer/lattice/lattice.go
@@ -306,6 +306,9 @@ func posFeature(d *dict.Dict, u *dict.UserDict, t *Node) string {
 	return strings.Join(ret, "/")
 }
 
+// dotEscaper escapes characters that have a special meaning in a quoted label of the dot format.
+var dotEscaper = strings.NewReplacer(`\`, `\\`, `"`, `\"`)
+
 // Dot outputs a lattice in the graphviz dot format.
 //
 //nolint:gocyclo
@@ -361,7 +364,8 @@ func (la *Lattice) Dot(w io.Writer) {
 					surf = "EOS"
 				}
 			}
-			pos := posFeature(la.dic, la.udic, n)
+			surf = dotEscaper.Replace(surf)
+			pos := dotEscaper.Replace(posFeature(la.dic, la.udic, n))
 			if _, ok := bests[n]; ok {
 				fmt.Fprintf(w, "\t\"%p\" [label=\"%s\\n%s\\n%d\",shape=ellipse, peripheries=2];\n", n, surf, pos, n.Weight)
 			} else if n.Class != UNKNOWN {
-- 
2.43.0


From d4fed535c62cdad58a043cd502dcecbb9bb6b399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:47 +0000
Subject: [PATCH 5/7] fix: commands report output that could not be written

tokenize, sentence and lattice ignored write errors (and lattice -output the
error of closing the file) and exited with status 0 after losing output.
---
 cmd/lattice/cmd.go | 23 +++++++++++++++--------
 kagome.go          | 23 ++++++++++++++++++++++-
 2 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/cmd/lattice/cmd.go b/cmd/lattice/cmd.go
index dee8c70..9e2ae7c 100644
--- a/cmd/lattice/cmd.go
+++ b/cmd/lattice/cmd.go
@@ -1,6 +1,7 @@
 package lattice
 
 import (
+	"bufio"
 	"context"
 	"errors"
 	"flag"
@@ -119,20 +120,26 @@ func command(_ context.Context, opt *option) error {
 	if err != nil {
 		return err
 	}
-	out := Stdout
+
+	mode := selectMode(opt.mode)
+	var tokens []tokenizer.Token
 	if opt.output != "" {
 		f, err := os.OpenFile(opt.output, os.O_RDWR|os.O_TRUNC|os.O_CREATE, 0o600)
 		if err != nil {
 			return err
 		}
-		defer func() {
-			f.Close()
-		}()
-		out = f
+		w := bufio.NewWriter(f)
+		tokens = t.AnalyzeGraph(w, opt.input, mode)
+		err = w.Flush()
+		if cerr := f.Close(); err == nil {
+			err = cerr
+		}
+		if err != nil {
+			return err
+		}
+	} else {
+		tokens = t.AnalyzeGraph(Stdout, opt.input, mode)
 	}
-
-	mode := selectMode(opt.mode)
-	tokens := t.AnalyzeGraph(out, opt.input, mode)
 	if opt.verbose {
 		for i, size := 1, len(tokens); i < size; i++ {
 			tok := tokens[i]
diff --git a/kagome.go b/kagome.go
index 6b06007..62f157b 100644
--- a/kagome.go
+++ b/kagome.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"flag"
 	"fmt"
+	"io"
 	"os"
 	"path/filepath"
 	"runtime/debug"
@@ -114,6 +115,20 @@ func PrintDefaults() {
 	}
 }
 
+// output is a writer that remembers the first error.
+type output struct {
+	w   io.Writer
+	err error
+}
+
+func (o *output) Write(p []byte) (int, error) {
+	n, err := o.w.Write(p)
+	if err != nil && o.err == nil {
+		o.err = err
+	}
+	return n, err
+}
+
 func main() {
 	var run     func(context.Context, []string) error
 	var options []string
@@ -137,7 +152,13 @@ func main() {
 		}
 		run = defaultSubcommand.Run
 	}
-	if err := run(context.Background(), options); err != nil {
+	stdout := &output{w: os.Stdout}
+	tokenize.Stdout, sentence.Stdout, lattice.Stdout = stdout, stdout, stdout
+	err := run(context.Background(), options)
+	if err == nil {
+		err = stdout.err
+	}
+	if err != nil {
 		fmt.Fprintf(errorWriter, "%v\n", err)
 		os.Exit(1)
 	}
-- 
2.43.0


From 41536e4e98c6622d012a29684d275118294c7fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:54 +0000
Subject: [PATCH 6/7] fix: server command stops serving when it is told to stop

Run returned after cancellation or a signal but left its listener open and
its goroutine blocked, so a program embedding it kept the port bound and
kept answering requests.
---
 cmd/server/cmd.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/server/cmd.go b/cmd/server/cmd.go
index cb7b7a9..12cd20a 100644
--- a/cmd/server/cmd.go
+++ b/cmd/server/cmd.go
@@ -110,7 +110,7 @@ func command(ctx context.Context, opt *option) error {
 		Handler:           mux,
 		ReadHeaderTimeout: 20 * time.Second,
 	}
-	ch := make(chan error)
+	ch := make(chan error, 1)
 	go func() {
 		log.Println(opt.http)
 		ch <- srv.ListenAndServe()
@@ -123,6 +123,7 @@ func command(ctx context.Context, opt *option) error {
 		return fmt.Errorf("server error, %w", err)
 	}
 	log.Printf("shutting down HTTP server at %q", opt.http)
+	_ = srv.Close()
 
 	return nil
 }
-- 
2.43.0


From fc8a1f1dd30c3eb3aacccf5fe2ba88e81c684c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:10 +0000
Subject: [PATCH 7/7] fix: lattice page does not wait for pipes that a child of
 graphviz holds open

---
 cmd/server/demo.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/server/demo.go b/cmd/server/demo.go
index 00b30a3..03ebb76 100644
--- a/cmd/server/demo.go
+++ b/cmd/server/demo.go
@@ -29,6 +29,10 @@ var (
 const (
 	graphvizCmd = "dot"
 	cmdTimeout  = 25 * time.Second
+
+	// cmdWaitDelay limits the wait for pipes that a child of graphviz still
+	// holds open after graphviz itself has ended or been killed.
+	cmdWaitDelay = time.Second
 )
 
 // TokenizeDemoHandler represents the tokenizer demo server struct.
@@ -91,6 +95,7 @@ func (h *TokenizeDemoHandler) analyzeGraph(ctx context.Context, sen string, mode
 	cmd.Stdin = &graph
 	cmd.Stdout = &b
 	cmd.Stderr = Stderr
+	cmd.WaitDelay = cmdWaitDelay
 	if err := cmd.Run(); err != nil {
 		return nil, "", fmt.Errorf("process done with error, %w", err)
 	}
-- 
2.43.0

