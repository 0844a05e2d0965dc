From 0a91fea59b8c10254808a7348ee6b7fc04cf50b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 01/25] fix: take each --expression argument literally

StringSlice parses the value as CSV, so every expression containing a
string literal (the README example) or a comma was rejected or split.
---
 commands/edit.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commands/edit.go b/commands/edit.go
index caac571..fb5153b 100644
--- a/commands/edit.go
+++ b/commands/edit.go
@@ -160,7 +160,7 @@ Script formats:
 	// Script Input Options
 	cmd.Flags().StringP("script", "s", "", "The texted script to execute")
 	cmd.Flags().StringVarP(&scriptFile, "file", "f", "", "Read script from file")
-	cmd.Flags().StringSliceP("expression", "e", nil, "Execute single expression and print result (can be used multiple times)")
+	cmd.Flags().StringArrayP("expression", "e", nil, "Execute single expression and print result (can be used multiple times)")
 
 	// Input/Output Options
 	cmd.Flags().BoolVarP(&inPlace, "in-place", "i", false, "Edit files in place (modify original files)")
@@ -210,7 +210,7 @@ func runEdit(args *runEditArgs) error {
 	}
 
 	// Handle expressions
-	expressions, err := args.cmd.Flags().GetStringSlice("expression")
+	expressions, err := args.cmd.Flags().GetStringArray("expression")
 	if err != nil {
 		return fmt.Errorf("getting expression flag: %w", err)
 	}
-- 
2.43.0


From 206f86ff0a81293a2ba621e98ef240d3c626486e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:27 +0000
Subject: [PATCH 02/25] fix: accept both documented JSON script forms
 everywhere

edit rejected the canonical sequence of command arrays (README, spec, and
what "parse --output-format json" prints); parse rejected the array of
command arrays.
---
 commands/edit.go      |  2 +-
 edlisp/parser/json.go | 55 +++++++++++++++++++++++++++++++++++++++++++
 texted.go             |  2 +-
 3 files changed, 57 insertions(+), 2 deletions(-)

diff --git a/commands/edit.go b/commands/edit.go
index fb5153b..4fb35bb 100644
--- a/commands/edit.go
+++ b/commands/edit.go
@@ -339,7 +339,7 @@ func evaluateExpressionsOnContent(args *evaluateExpressionsOnContentArgs) error
 		case "shell", "sexp":
 			program, err = parser.ParseString(expr)
 		case "json":
-			program, err = parser.ParseJSONString(expr)
+			program, err = parser.ParseJSONScript(expr)
 		default:
 			return fmt.Errorf("unsupported script format: %s", args.scriptFormat)
 		}
diff --git a/edlisp/parser/json.go b/edlisp/parser/json.go
index 53f7544..bae447c 100644
--- a/edlisp/parser/json.go
+++ b/edlisp/parser/json.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"reflect"
+	"strings"
 
 	"github.com/dhamidi/texted/edlisp"
 )
@@ -31,6 +32,18 @@ func ParseJSONReader(r io.Reader) ([]edlisp.Value, error) {
 			return nil, fmt.Errorf("JSON decode error: %w", err)
 		}
 
+		// An array of arrays holds several commands
+		if commands, ok := commandList(rawValue); ok {
+			for _, command := range commands {
+				expr, err := convertJSONValue(command)
+				if err != nil {
+					return nil, err
+				}
+				expressions = append(expressions, expr)
+			}
+			continue
+		}
+
 		expr, err := convertJSONValue(rawValue)
 		if err != nil {
 			return nil, err
@@ -67,6 +80,48 @@ func ParseJSONString(s string) ([]edlisp.Value, error) {
 	return expressions, nil
 }
 
+// ParseJSONScript parses a JSON script in either documented form: one array
+// holding all commands, or a sequence of command arrays.
+func ParseJSONScript(s string) ([]edlisp.Value, error) {
+	expressions, err := ParseJSONString(s)
+	if err == nil {
+		return expressions, nil
+	}
+
+	decoder := json.NewDecoder(strings.NewReader(s))
+	var stream []edlisp.Value
+	for {
+		var rawValue interface{}
+		decodeErr := decoder.Decode(&rawValue)
+		if decodeErr == io.EOF && len(stream) > 0 {
+			return stream, nil
+		}
+		if decodeErr != nil || ValidateJSONFormat(rawValue) != nil {
+			return nil, err
+		}
+
+		expr, convertErr := convertJSONValue(rawValue)
+		if convertErr != nil {
+			return nil, convertErr
+		}
+		stream = append(stream, expr)
+	}
+}
+
+// commandList returns the elements of a non-empty JSON array made up only of arrays.
+func commandList(value interface{}) ([]interface{}, bool) {
+	list, ok := value.([]interface{})
+	if !ok || len(list) == 0 {
+		return nil, false
+	}
+	for _, item := range list {
+		if _, ok := item.([]interface{}); !ok {
+			return nil, false
+		}
+	}
+	return list, true
+}
+
 // convertJSONValue converts a Go interface{} value from JSON into an edlisp.Value.
 func convertJSONValue(value interface{}) (edlisp.Value, error) {
 	switch v := value.(type) {
diff --git a/texted.go b/texted.go
index d393631..ad71a3e 100644
--- a/texted.go
+++ b/texted.go
@@ -48,7 +48,7 @@ func ExecuteScriptWithFormat(input, script, format string) (string, error) {
 	case "shell", "sexp":
 		program, err = parser.ParseString(script)
 	case "json":
-		program, err = parser.ParseJSONString(script)
+		program, err = parser.ParseJSONScript(script)
 	default:
 		return "", fmt.Errorf("unsupported script format: %s", format)
 	}
-- 
2.43.0


From 62328c1fe5824947921ce6d5a2a86a8ac6cdbb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 03/25] fix: do not drop what follows the first S-expression on
 a line

"(a) (b)" silently ran only (a); trailing garbage was ignored too.
---
 edlisp/parser/linebased.go | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/edlisp/parser/linebased.go b/edlisp/parser/linebased.go
index 03c9ffe..d809e22 100644
--- a/edlisp/parser/linebased.go
+++ b/edlisp/parser/linebased.go
@@ -36,6 +36,16 @@ func ParseReader(r io.Reader) ([]edlisp.Value, error) {
 				continue // Skip empty commands
 			}
 
+			// Several S-expressions may share a line
+			if strings.HasPrefix(command, "(") {
+				exprs, err := parseSExpressions(command)
+				if err != nil {
+					return nil, err
+				}
+				expressions = append(expressions, exprs...)
+				continue
+			}
+
 			expr, err := parseLine(command)
 			if err != nil {
 				return nil, err
@@ -66,11 +76,7 @@ func ParseSexp(s string) ([]edlisp.Value, error) {
 
 	// If it starts with '(', parse as regular S-expression
 	if strings.HasPrefix(trimmed, "(") {
-		expr, err := parseSExpression(trimmed)
-		if err != nil {
-			return nil, err
-		}
-		return []edlisp.Value{expr}, nil
+		return parseSExpressions(trimmed)
 	}
 
 	// Otherwise, parse as a single token value
@@ -118,6 +124,28 @@ func parseSExpression(line string) (edlisp.Value, error) {
 	return expr, err
 }
 
+// parseSExpressions parses all S-expressions on a line that starts with '('.
+func parseSExpressions(line string) ([]edlisp.Value, error) {
+	tokens, err := tokenize(line)
+	if err != nil {
+		return nil, err
+	}
+
+	var expressions []edlisp.Value
+	for pos := 0; pos < len(tokens); {
+		if tokens[pos] != "(" {
+			return nil, fmt.Errorf("unexpected %s after S-expression", tokens[pos])
+		}
+		expr, newPos, err := parseTokens(tokens, pos)
+		if err != nil {
+			return nil, err
+		}
+		expressions = append(expressions, expr)
+		pos = newPos
+	}
+	return expressions, nil
+}
+
 // parseShellLike parses a shell-like command line into a list.
 func parseShellLike(line string) (edlisp.Value, error) {
 	tokens, err := tokenize(line)
-- 
2.43.0


From cbeca288b663a7c712fc95e1c787581a40fc94b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:07 +0000
Subject: [PATCH 04/25] fix: accept script lines longer than 64 KiB

A long string literal was rejected in the shell and sexp syntaxes while the
same script ran as JSON. Nesting depth is bounded like in encoding/json, so
that a long line cannot exhaust the stack.
---
 edlisp/parser/linebased.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/edlisp/parser/linebased.go b/edlisp/parser/linebased.go
index d809e22..64f3059 100644
--- a/edlisp/parser/linebased.go
+++ b/edlisp/parser/linebased.go
@@ -5,6 +5,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 	"strconv"
 	"strings"
 	"unicode"
@@ -12,6 +13,9 @@ import (
 	"github.com/dhamidi/texted/edlisp"
 )
 
+// maxNestingDepth bounds list nesting, as encoding/json does for JSON scripts.
+const maxNestingDepth = 10000
+
 // ParseReader parses texted scripts from an io.Reader using the line-based format.
 // Each line is parsed according to the rules:
 // 1. Leading whitespace is stripped
@@ -20,6 +24,7 @@ import (
 // 4. Semicolons are treated as line separators (equivalent to newlines)
 func ParseReader(r io.Reader) ([]edlisp.Value, error) {
 	scanner := bufio.NewScanner(r)
+	scanner.Buffer(nil, math.MaxInt) // string literals may be long
 	var expressions []edlisp.Value
 
 	for scanner.Scan() {
@@ -189,6 +194,7 @@ func tokenize(line string) ([]string, error) {
 	var current strings.Builder
 	inQuotes := false
 	escapeNext := false
+	depth := 0
 
 	for _, r := range line {
 		if escapeNext {
@@ -210,6 +216,14 @@ func tokenize(line string) ([]string, error) {
 			if inQuotes {
 				current.WriteRune(r)
 			} else {
+				if r == '(' {
+					depth++
+				} else {
+					depth--
+				}
+				if depth > maxNestingDepth {
+					return nil, fmt.Errorf("exceeded max nesting depth")
+				}
 				if current.Len() > 0 {
 					tokens = append(tokens, current.String())
 					current.Reset()
-- 
2.43.0


From 4099cbf335b05ae5a69855722b5c5545c7be31ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:09 +0000
Subject: [PATCH 05/25] fix: beginning-of-line at the end of the buffer

After a trailing newline it moved to the previous line, and in an empty
buffer it set point to 0, before the start of the buffer.
---
 edlisp/builtin_beginning_of_line.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edlisp/builtin_beginning_of_line.go b/edlisp/builtin_beginning_of_line.go
index 4c7dae4..ab7171b 100644
--- a/edlisp/builtin_beginning_of_line.go
+++ b/edlisp/builtin_beginning_of_line.go
@@ -19,8 +19,8 @@ func BuiltinBeginningOfLine(args []Value, buffer *Buffer) (Value, error) {
 		buffer.SetPoint(1)
 		return NewString(""), nil
 	}
-	if pos >= len(content) {
-		pos = len(content) - 1
+	if pos > len(content) {
+		pos = len(content)
 	}
 
 	// Move backward to find beginning of line
-- 
2.43.0


From 2170c80b3f8e233d296d889947f6fe94c9e2d65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:11 +0000
Subject: [PATCH 06/25] fix: mark-word at the end of the buffer and between
 words

At the end of the buffer it left an older region active, so that
"search-forward ...; mark-word; replace-region ..." replaced unrelated text;
between words it marked nothing instead of the next word.
---
 edlisp/builtin_mark_word.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/edlisp/builtin_mark_word.go b/edlisp/builtin_mark_word.go
index cc68f16..187add3 100644
--- a/edlisp/builtin_mark_word.go
+++ b/edlisp/builtin_mark_word.go
@@ -17,7 +17,7 @@ func BuiltinMarkWord(args []Value, buffer *Buffer) (Value, error) {
 	content := buffer.String()
 	pos := buffer.Point() - 1 // Convert to 0-based
 
-	if pos < 0 || pos >= len(content) {
+	if pos < 0 || pos > len(content) {
 		return NewString(""), nil
 	}
 
@@ -33,6 +33,22 @@ func BuiltinMarkWord(args []Value, buffer *Buffer) (Value, error) {
 		end++
 	}
 
+	// Between words: mark the next word, if there is one
+	if start == end {
+		for end < len(content) && !isLetter(content[end]) {
+			end++
+		}
+		next := end
+		for end < len(content) && isLetter(content[end]) {
+			end++
+		}
+		if next == end {
+			start, end = pos, pos
+		} else {
+			start = next
+		}
+	}
+
 	// Set mark at beginning of word, point at end
 	buffer.SetMark(start + 1) // Convert back to 1-based
 	buffer.SetPoint(end + 1)  // Convert back to 1-based
-- 
2.43.0


From 864a1a09ee17209095081d943e20c48236853245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 07/25] fix: keep point and mark within the buffer

backward-char with a negative count, set-mark-command with any position and
a mark left behind by a deletion could put point outside of the buffer,
after which word, line and delete commands panicked.
---
 edlisp/eval.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/edlisp/eval.go b/edlisp/eval.go
index dc592be..d306f6a 100644
--- a/edlisp/eval.go
+++ b/edlisp/eval.go
@@ -55,17 +55,29 @@ func (b *Buffer) Point() int {
 
 // Mark returns the current mark position.
 func (b *Buffer) Mark() int {
-	return b.mark
+	// Deletions may have left the mark beyond the end of the buffer
+	return b.clamp(b.mark)
 }
 
 // SetPoint sets the cursor position.
 func (b *Buffer) SetPoint(pos int) {
-	b.point = pos
+	b.point = b.clamp(pos)
 }
 
 // SetMark sets the mark position.
 func (b *Buffer) SetMark(pos int) {
-	b.mark = pos
+	b.mark = b.clamp(pos)
+}
+
+// clamp limits a position to the bounds of the buffer.
+func (b *Buffer) clamp(pos int) int {
+	if pos < 1 {
+		return 1
+	}
+	if max := b.content.Len() + 1; pos > max {
+		return max
+	}
+	return pos
 }
 
 // Insert inserts text at the current point.
-- 
2.43.0


From 70a5a14ebfd430d7c9d705f8884edab0513d9721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:18 +0000
Subject: [PATCH 08/25] fix: delete nothing for a count below 1

delete-char with a negative count duplicated text or panicked, delete-line
deleted from the start of the line to point, backward-kill-word deleted the
character at point.
---
 edlisp/builtin_backward_kill_word.go | 4 ++++
 edlisp/builtin_delete_char.go        | 2 +-
 edlisp/builtin_delete_line.go        | 4 ++++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/edlisp/builtin_backward_kill_word.go b/edlisp/builtin_backward_kill_word.go
index 405cf84..83e8d3b 100644
--- a/edlisp/builtin_backward_kill_word.go
+++ b/edlisp/builtin_backward_kill_word.go
@@ -23,6 +23,10 @@ func BuiltinBackwardKillWord(args []Value, buffer *Buffer) (Value, error) {
 		count = int(args[0].(*Number).Value)
 	}
 
+	if count < 1 {
+		return NewString(""), nil
+	}
+
 	content := buffer.String()
 	startPos := buffer.Point() - 1 // Convert to 0-based
 	pos := startPos
diff --git a/edlisp/builtin_delete_char.go b/edlisp/builtin_delete_char.go
index 49d71af..e8772dd 100644
--- a/edlisp/builtin_delete_char.go
+++ b/edlisp/builtin_delete_char.go
@@ -24,7 +24,7 @@ func BuiltinDeleteChar(args []Value, buffer *Buffer) (Value, error) {
 	content := buffer.String()
 	pos := buffer.Point() // 1-based position
 
-	if pos < 1 || pos > len(content) {
+	if pos < 1 || pos > len(content) || count < 1 {
 		return NewString(""), nil
 	}
 
diff --git a/edlisp/builtin_delete_line.go b/edlisp/builtin_delete_line.go
index ef589d5..efa5837 100644
--- a/edlisp/builtin_delete_line.go
+++ b/edlisp/builtin_delete_line.go
@@ -22,6 +22,10 @@ func BuiltinDeleteLine(args []Value, buffer *Buffer) (Value, error) {
 		count = int(args[0].(*Number).Value)
 	}
 
+	if count < 1 {
+		return NewString(""), nil
+	}
+
 	content := buffer.String()
 	pos := buffer.Point() - 1 // Convert to 0-based
 
-- 
2.43.0


From bb00530695806bbf87dec162959a87545662b299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 09/25] fix: stop line commands at the end of the buffer

A huge count kept delete-line, kill-line and mark-line looping for hours.
---
 edlisp/builtin_delete_line.go | 3 +++
 edlisp/builtin_kill_line.go   | 3 +++
 edlisp/builtin_mark_line.go   | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/edlisp/builtin_delete_line.go b/edlisp/builtin_delete_line.go
index efa5837..d45891a 100644
--- a/edlisp/builtin_delete_line.go
+++ b/edlisp/builtin_delete_line.go
@@ -38,6 +38,9 @@ func BuiltinDeleteLine(args []Value, buffer *Buffer) (Value, error) {
 	// Find end of line(s) based on count
 	lineEnd := pos
 	for i := 0; i < count; i++ {
+		if lineEnd >= len(content) {
+			break
+		}
 		for lineEnd < len(content) && content[lineEnd] != '\n' {
 			lineEnd++
 		}
diff --git a/edlisp/builtin_kill_line.go b/edlisp/builtin_kill_line.go
index 9de7f0e..f2c1c69 100644
--- a/edlisp/builtin_kill_line.go
+++ b/edlisp/builtin_kill_line.go
@@ -44,6 +44,9 @@ func BuiltinKillLine(args []Value, buffer *Buffer) (Value, error) {
 		startPos = pos
 		lineEnd = startPos
 		for i := 0; i < count; i++ {
+			if lineEnd >= len(content) {
+				break
+			}
 			// Find end of current line
 			for lineEnd < len(content) && content[lineEnd] != '\n' {
 				lineEnd++
diff --git a/edlisp/builtin_mark_line.go b/edlisp/builtin_mark_line.go
index 55829c2..03fce84 100644
--- a/edlisp/builtin_mark_line.go
+++ b/edlisp/builtin_mark_line.go
@@ -35,6 +35,9 @@ func BuiltinMarkLine(args []Value, buffer *Buffer) (Value, error) {
 	// Find end of line(s) based on count
 	lineEnd := pos
 	for i := 0; i < count; i++ {
+		if lineEnd >= len(content) {
+			break
+		}
 		for lineEnd < len(content) && content[lineEnd] != '\n' {
 			lineEnd++
 		}
-- 
2.43.0


From c89520abfaa8f3ec0fedbe39332cec054313db12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:23 +0000
Subject: [PATCH 10/25] fix: kill-line at the end of a line must not kill the
 next line

---
 edlisp/builtin_kill_line.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edlisp/builtin_kill_line.go b/edlisp/builtin_kill_line.go
index f2c1c69..132809a 100644
--- a/edlisp/builtin_kill_line.go
+++ b/edlisp/builtin_kill_line.go
@@ -32,6 +32,10 @@ func BuiltinKillLine(args []Value, buffer *Buffer) (Value, error) {
 	var startPos, lineEnd int
 
 	if count == 1 {
+		// At the end of a line there is nothing left to kill on it
+		if content[pos] == '\n' {
+			return NewString(""), nil
+		}
 		// For single line kill, preserve cursor character and kill from after cursor
 		startPos = pos + 1
 		lineEnd = startPos
-- 
2.43.0


From 2575e67adc4a31ed25851eee62089cbe163ee2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:23 +0000
Subject: [PATCH 11/25] fix: capitalize must not break a multi-byte first
 character

---
 edlisp/builtin_capitalize.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edlisp/builtin_capitalize.go b/edlisp/builtin_capitalize.go
index d11f9c2..d601966 100644
--- a/edlisp/builtin_capitalize.go
+++ b/edlisp/builtin_capitalize.go
@@ -3,6 +3,7 @@ package edlisp
 import (
 	"fmt"
 	"strings"
+	"unicode/utf8"
 )
 
 // BuiltinCapitalize capitalizes the first character of a string.
@@ -43,7 +44,8 @@ func BuiltinCapitalize(args []Value, buffer *Buffer) (Value, error) {
 		return NewString(""), nil
 	}
 
-	result := strings.ToUpper(string(str.Value[0])) + strings.ToLower(str.Value[1:])
+	_, size := utf8.DecodeRuneInString(str.Value)
+	result := strings.ToUpper(str.Value[:size]) + strings.ToLower(str.Value[size:])
 	return NewString(result), nil
 }
 
-- 
2.43.0


From d0268d3f14ee12d9703b84819392f1a69f48cccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:26 +0000
Subject: [PATCH 12/25] fix: looking-back only tried the leftmost match before
 point

looking-back "a" was nil after "aba".
---
 edlisp/builtin_looking_back.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/edlisp/builtin_looking_back.go b/edlisp/builtin_looking_back.go
index 85526f4..b183c3d 100644
--- a/edlisp/builtin_looking_back.go
+++ b/edlisp/builtin_looking_back.go
@@ -41,7 +41,12 @@ func BuiltinLookingBack(args []Value, buffer *Buffer) (Value, error) {
 		return NewSymbol("nil"), nil
 	}
 
-	// Use regular expression matching on text before point
+	// Use regular expression matching on text before point; the match may
+	// start anywhere but must end at point
+	re, err = regexp.Compile(`(?:` + pattern.Value + `)\z`)
+	if err != nil {
+		return nil, fmt.Errorf("invalid regexp: %v", err)
+	}
 	beforeText := content[:pos]
 	match := re.FindStringIndex(beforeText)
 	if match != nil && match[1] == len(beforeText) {
-- 
2.43.0


From 6341647d884019069f5d63a8a4b896b5faabffa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 13/25] fix: replace-match must only replace the text that was
 matched

After an edit the recorded positions can denote other text, which was
replaced silently.
---
 edlisp/builtin_replace_match.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/edlisp/builtin_replace_match.go b/edlisp/builtin_replace_match.go
index 51ed5f7..d233375 100644
--- a/edlisp/builtin_replace_match.go
+++ b/edlisp/builtin_replace_match.go
@@ -34,6 +34,11 @@ func BuiltinReplaceMatch(args []Value, buffer *Buffer) (Value, error) {
 		return nil, fmt.Errorf("invalid search match positions")
 	}
 
+	// The buffer may have been edited since the search
+	if content[start:end] != buffer.lastSearchMatch {
+		return nil, fmt.Errorf("invalid search match positions")
+	}
+
 	newContent := content[:start] + str.Value + content[end:]
 	buffer.content.Reset()
 	buffer.content.WriteString(newContent)
-- 
2.43.0


From ce47afd128c0f84a7c60df9262968be3397b25de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:30 +0000
Subject: [PATCH 14/25] fix: list documentation categories in a stable order

---
 commands/doc.go     | 10 +++++++++-
 tools/texted_doc.go |  2 ++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/commands/doc.go b/commands/doc.go
index 89d2a12..a3db033 100644
--- a/commands/doc.go
+++ b/commands/doc.go
@@ -2,6 +2,7 @@ package commands
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/spf13/cobra"
@@ -152,7 +153,14 @@ func listFunctions(category string, verbose bool) error {
 			categoryMap[cat] = append(categoryMap[cat], doc)
 		}
 
-		for catName, catDocs := range categoryMap {
+		catNames := make([]string, 0, len(categoryMap))
+		for catName := range categoryMap {
+			catNames = append(catNames, catName)
+		}
+		sort.Strings(catNames)
+
+		for _, catName := range catNames {
+			catDocs := categoryMap[catName]
 			fmt.Printf("## %s\n\n", strings.Title(catName))
 			for _, doc := range catDocs {
 				fmt.Printf("- **%s**: %s\n", doc.Name, doc.Summary)
diff --git a/tools/texted_doc.go b/tools/texted_doc.go
index 0513d14..9b9411f 100644
--- a/tools/texted_doc.go
+++ b/tools/texted_doc.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	_ "embed"
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/dhamidi/texted/edlisp"
@@ -187,6 +188,7 @@ func formatFunctionList(docs []edlisp.FunctionDoc, title string, verbose bool) s
 		for category := range categoryMap {
 			categories = append(categories, category)
 		}
+		sort.Strings(categories)
 
 		for _, category := range categories {
 			output.WriteString(fmt.Sprintf("## %s\n\n", category))
-- 
2.43.0


From 7607e2003d28511e16d084893b7f9e4926fea579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 15/25] fix: keep looking-back working for patterns that cannot
 be grouped

---
 edlisp/builtin_looking_back.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/edlisp/builtin_looking_back.go b/edlisp/builtin_looking_back.go
index b183c3d..4f03466 100644
--- a/edlisp/builtin_looking_back.go
+++ b/edlisp/builtin_looking_back.go
@@ -43,9 +43,8 @@ func BuiltinLookingBack(args []Value, buffer *Buffer) (Value, error) {
 
 	// Use regular expression matching on text before point; the match may
 	// start anywhere but must end at point
-	re, err = regexp.Compile(`(?:` + pattern.Value + `)\z`)
-	if err != nil {
-		return nil, fmt.Errorf("invalid regexp: %v", err)
+	if anchored, err := regexp.Compile(`(?:` + pattern.Value + `)\z`); err == nil {
+		re = anchored
 	}
 	beforeText := content[:pos]
 	match := re.FindStringIndex(beforeText)
-- 
2.43.0


From a28512defc4b7cad29f589375d4fe0cdf3c432ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 16/25] fix: current-column at the end of a line

It was 0 before a newline and one too low at the end of the buffer.
---
 edlisp/builtin_current_column.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edlisp/builtin_current_column.go b/edlisp/builtin_current_column.go
index c3bdc1f..76beb13 100644
--- a/edlisp/builtin_current_column.go
+++ b/edlisp/builtin_current_column.go
@@ -47,13 +47,13 @@ func BuiltinCurrentColumn(args []Value, buffer *Buffer) (Value, error) {
 	if pos < 0 {
 		return NewNumber(0), nil
 	}
-	if pos >= len(content) {
-		pos = len(content) - 1
+	if pos > len(content) {
+		pos = len(content)
 	}
 
-	column := 0
+	column := 1 // point itself counts, also at the end of a line
 	// Count backward to find beginning of line
-	for i := pos; i >= 0 && content[i] != '\n'; i-- {
+	for i := pos - 1; i >= 0 && content[i] != '\n'; i-- {
 		column++
 	}
 
-- 
2.43.0


From aa5d986e066b4cea2fa5e5903b1cf157310b45b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 17/25] fix: accept JSON scripts in the MCP tools, as
 documented

---
 texted.go            | 6 ++++++
 tools/texted_eval.go | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/texted.go b/texted.go
index ad71a3e..9b0e631 100644
--- a/texted.go
+++ b/texted.go
@@ -3,6 +3,7 @@ package texted
 import (
 	"fmt"
 	"os"
+	"strings"
 
 	"github.com/dhamidi/texted/edlisp"
 	"github.com/dhamidi/texted/edlisp/parser"
@@ -17,6 +18,11 @@ type EditResult struct {
 
 // ExecuteScript executes a texted script on the given input and returns the result.
 func ExecuteScript(input, script string) (string, error) {
+	// No command starts with a bracket: this is a JSON script
+	if strings.HasPrefix(strings.TrimSpace(script), "[") {
+		return ExecuteScriptWithFormat(input, script, "json")
+	}
+
 	buf := edlisp.NewBuffer(input)
 
 	program, err := parser.ParseString(script)
diff --git a/tools/texted_eval.go b/tools/texted_eval.go
index 7f41913..f5fb365 100644
--- a/tools/texted_eval.go
+++ b/tools/texted_eval.go
@@ -67,6 +67,9 @@ func TextedEvalHandler(ctx context.Context, request mcp.CallToolRequest) (*mcp.C
 	buf := edlisp.NewBuffer(input)
 
 	program, err := parser.ParseString(script)
+	if strings.HasPrefix(strings.TrimSpace(script), "[") {
+		program, err = parser.ParseJSONScript(script)
+	}
 	if err != nil {
 		return mcp.NewToolResultError(fmt.Sprintf("parsing script: %v", err)), nil
 	}
-- 
2.43.0


From 46a5b1598cff90007a62d8b8db057500057a60f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:29 +0000
Subject: [PATCH 18/25] fix: null is not a JSON script

---
 edlisp/parser/json.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edlisp/parser/json.go b/edlisp/parser/json.go
index bae447c..e93ca8a 100644
--- a/edlisp/parser/json.go
+++ b/edlisp/parser/json.go
@@ -62,6 +62,9 @@ func ParseJSONString(s string) ([]edlisp.Value, error) {
 	if err != nil {
 		return nil, fmt.Errorf("JSON unmarshal error: %w", err)
 	}
+	if rawValues == nil {
+		return nil, fmt.Errorf("a JSON script must be an array, got null")
+	}
 
 	var expressions []edlisp.Value
 	for i, rawValue := range rawValues {
-- 
2.43.0


From 2d2a4ca1b4c8a5c336cca94ad75f6510834f3670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:49 +0000
Subject: [PATCH 19/25] fix: check the stated output of a test that expects an
 error

---
 edlisp/testing/testing.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/edlisp/testing/testing.go b/edlisp/testing/testing.go
index bc665ee..743a9d6 100644
--- a/edlisp/testing/testing.go
+++ b/edlisp/testing/testing.go
@@ -135,6 +135,11 @@ func RunTestWithTrace(testCase *TestCase, env *edlisp.Environment, traceCallback
 			result.Error = fmt.Errorf("expected error containing %q but got %q", expectedError, evalErr.Error())
 			return result
 		}
+		// The output up to the failure counts as well
+		if actual := buffer.String(); testCase.Output != "" && testCase.Output != actual {
+			result.Error = fmt.Errorf("output mismatch:\nexpected: %q\nactual: %q", testCase.Output, actual)
+			return result
+		}
 		result.Passed = true
 		return result
 	}
-- 
2.43.0


From 4de4e2e5c8d08226aa1bab82aa437e8e03064a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:51 +0000
Subject: [PATCH 20/25] fix: honour lang="json" on the input of a script test

---
 edlisp/testing/testing.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edlisp/testing/testing.go b/edlisp/testing/testing.go
index 743a9d6..af2f63d 100644
--- a/edlisp/testing/testing.go
+++ b/edlisp/testing/testing.go
@@ -115,6 +115,9 @@ func RunTestWithTrace(testCase *TestCase, env *edlisp.Environment, traceCallback
 		program = []edlisp.Value{}
 	} else {
 		program, err = parser.ParseString(input)
+		if testCase.Input.Lang == "json" {
+			program, err = parser.ParseJSONScript(input)
+		}
 		if err != nil {
 			result.Error = fmt.Errorf("parsing input: %w", err)
 			return result
-- 
2.43.0


From c989101fd2d0de504b736f3dd3c28dbac1668319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 21/25] fix: take each --include pattern of the test command
 literally

---
 commands/test.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commands/test.go b/commands/test.go
index 8002ed5..bc76f4a 100644
--- a/commands/test.go
+++ b/commands/test.go
@@ -54,7 +54,7 @@ Output verbosity can be controlled with flags.`,
 	cmd.Flags().BoolVarP(&quiet, "quiet", "q", false, "Show only pass/fail summary")
 	cmd.Flags().BoolVar(&failOnly, "fail-only", false, "Show output only for failing tests")
 	cmd.Flags().BoolVar(&trace, "trace", false, "Show trace output for each instruction")
-	cmd.Flags().StringSliceVarP(&include, "include", "i", nil, "Include tests matching pattern (can be used multiple times)")
+	cmd.Flags().StringArrayVarP(&include, "include", "i", nil, "Include tests matching pattern (can be used multiple times)")
 
 	return cmd
 }
-- 
2.43.0


From 4c5b9d2e84d0cee0c51b0d4c22d7c01012b4cb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:04 +0000
Subject: [PATCH 22/25] fix: report a failure to print the value of an
 expression

---
 commands/edit.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/commands/edit.go b/commands/edit.go
index 4fb35bb..43a3e5c 100644
--- a/commands/edit.go
+++ b/commands/edit.go
@@ -393,7 +393,9 @@ func evaluateExpressionsOnContent(args *evaluateExpressionsOnContentArgs) error
 				return fmt.Errorf("writing result: %w", err)
 			}
 
-			fmt.Printf("%s\n", buf.String())
+			if _, err := fmt.Printf("%s\n", buf.String()); err != nil {
+				return fmt.Errorf("writing result: %w", err)
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From a7143abdac7a31d895410c641b7ba9b98933d1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:23 +0000
Subject: [PATCH 23/25] fix: keep the originals of files given twice or
 overlapping with backups

---
 commands/edit.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/commands/edit.go b/commands/edit.go
index 43a3e5c..0ebdb33 100644
--- a/commands/edit.go
+++ b/commands/edit.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"path/filepath"
 	"strings"
 
 	"github.com/spf13/cobra"
@@ -533,6 +534,15 @@ func processSingleFileToStdout(args *processSingleFileToStdoutArgs) error {
 // processFilesInPlace processes files in place with optional backup
 func processFilesInPlace(args *processFilesInPlaceArgs) error {
 	hasErrors := false
+
+	// A backup must overwrite neither a file that is to be edited itself nor
+	// the original kept for a file that is given twice
+	edited := make(map[string]bool)
+	for _, filename := range args.files {
+		edited[filepath.Clean(filename)] = true
+	}
+	backedUp := make(map[string]bool)
+
 	for _, filename := range args.files {
 		if args.verbose && !args.quiet {
 			fmt.Printf("Processing %s in place\n", filename)
@@ -550,12 +560,20 @@ func processFilesInPlace(args *processFilesInPlaceArgs) error {
 		}
 
 		// Create backup if requested
-		if args.backupSuffix != "" {
+		if args.backupSuffix != "" && !backedUp[filepath.Clean(filename)] {
 			backupFile := filename + args.backupSuffix
 			if args.verbose && !args.quiet {
 				fmt.Printf("Creating backup %s\n", backupFile)
 			}
 
+			if edited[filepath.Clean(backupFile)] {
+				if !args.quiet {
+					fmt.Printf("✗ Failed to create backup %s: it is to be edited itself\n", backupFile)
+				}
+				hasErrors = true
+				continue
+			}
+
 			content, err := os.ReadFile(filename)
 			if err != nil {
 				if !args.quiet {
@@ -572,6 +590,7 @@ func processFilesInPlace(args *processFilesInPlaceArgs) error {
 				hasErrors = true
 				continue
 			}
+			backedUp[filepath.Clean(filename)] = true
 		}
 
 		// Process the file
-- 
2.43.0


From 3c446bc10d675fc11f24c001bfe1629086eb6550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:10 +0000
Subject: [PATCH 24/25] Revert "fix: honour lang="json" on the input of a
 script test"

This reverts commit 4de4e2e5c8d08226aa1bab82aa437e8e03064a7f.
---
 edlisp/testing/testing.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/edlisp/testing/testing.go b/edlisp/testing/testing.go
index af2f63d..743a9d6 100644
--- a/edlisp/testing/testing.go
+++ b/edlisp/testing/testing.go
@@ -115,9 +115,6 @@ func RunTestWithTrace(testCase *TestCase, env *edlisp.Environment, traceCallback
 		program = []edlisp.Value{}
 	} else {
 		program, err = parser.ParseString(input)
-		if testCase.Input.Lang == "json" {
-			program, err = parser.ParseJSONScript(input)
-		}
 		if err != nil {
 			result.Error = fmt.Errorf("parsing input: %w", err)
 			return result
-- 
2.43.0


From c3d3305b1ceeac7f4fc7c2be265c9a83a75ae198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:10 +0000
Subject: [PATCH 25/25] Revert "fix: check the stated output of a test that
 expects an error"

This reverts commit 2d2a4ca1b4c8a5c336cca94ad75f6510834f3670.
---
 edlisp/testing/testing.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/edlisp/testing/testing.go b/edlisp/testing/testing.go
index 743a9d6..bc665ee 100644
--- a/edlisp/testing/testing.go
+++ b/edlisp/testing/testing.go
@@ -135,11 +135,6 @@ func RunTestWithTrace(testCase *TestCase, env *edlisp.Environment, traceCallback
 			result.Error = fmt.Errorf("expected error containing %q but got %q", expectedError, evalErr.Error())
 			return result
 		}
-		// The output up to the failure counts as well
-		if actual := buffer.String(); testCase.Output != "" && testCase.Output != actual {
-			result.Error = fmt.Errorf("output mismatch:\nexpected: %q\nactual: %q", testCase.Output, actual)
-			return result
-		}
 		result.Passed = true
 		return result
 	}
-- 
2.43.0

