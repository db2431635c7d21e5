From d6765f7797a92cd1f36084a29fc1ddda7a901911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 01/14] fix: saturate numeric arguments that do not fit an int

---
 edlisp/builtin_backward_char.go        |  2 +-
 edlisp/builtin_backward_kill_word.go   |  2 +-
 edlisp/builtin_backward_word.go        |  2 +-
 edlisp/builtin_buffer_substring.go     |  4 ++--
 edlisp/builtin_delete_backward_char.go |  2 +-
 edlisp/builtin_delete_char.go          |  2 +-
 edlisp/builtin_delete_line.go          |  2 +-
 edlisp/builtin_forward_char.go         |  2 +-
 edlisp/builtin_forward_word.go         |  2 +-
 edlisp/builtin_goto_char.go            |  2 +-
 edlisp/builtin_goto_line.go            |  2 +-
 edlisp/builtin_kill_line.go            |  2 +-
 edlisp/builtin_kill_word.go            |  2 +-
 edlisp/builtin_mark_line.go            |  2 +-
 edlisp/builtin_set_mark_command.go     |  2 +-
 edlisp/builtin_substring.go            |  4 ++--
 edlisp/number.go                       | 20 ++++++++++++++++++--
 17 files changed, 36 insertions(+), 20 deletions(-)

diff --git a/edlisp/builtin_backward_char.go b/edlisp/builtin_backward_char.go
index 6ba738d..534d084 100644
--- a/edlisp/builtin_backward_char.go
+++ b/edlisp/builtin_backward_char.go
@@ -18,7 +18,7 @@ func BuiltinBackwardChar(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("backward-char expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	newPos := buffer.Point() - count
diff --git a/edlisp/builtin_backward_kill_word.go b/edlisp/builtin_backward_kill_word.go
index 405cf84..4128e25 100644
--- a/edlisp/builtin_backward_kill_word.go
+++ b/edlisp/builtin_backward_kill_word.go
@@ -20,7 +20,7 @@ func BuiltinBackwardKillWord(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("backward-kill-word expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_backward_word.go b/edlisp/builtin_backward_word.go
index d00997f..836caa3 100644
--- a/edlisp/builtin_backward_word.go
+++ b/edlisp/builtin_backward_word.go
@@ -20,7 +20,7 @@ func BuiltinBackwardWord(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("backward-word expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_buffer_substring.go b/edlisp/builtin_buffer_substring.go
index 377eb1a..c97904b 100644
--- a/edlisp/builtin_buffer_substring.go
+++ b/edlisp/builtin_buffer_substring.go
@@ -47,8 +47,8 @@ func BuiltinBufferSubstring(args []Value, buffer *Buffer) (Value, error) {
 		return nil, fmt.Errorf("buffer-substring expects number arguments")
 	}
 
-	start := int(args[0].(*Number).Value)
-	end := int(args[1].(*Number).Value)
+	start := args[0].(*Number).Int()
+	end := args[1].(*Number).Int()
 
 	content := buffer.String()
 
diff --git a/edlisp/builtin_delete_backward_char.go b/edlisp/builtin_delete_backward_char.go
index cbb7946..f8e173f 100644
--- a/edlisp/builtin_delete_backward_char.go
+++ b/edlisp/builtin_delete_backward_char.go
@@ -18,7 +18,7 @@ func BuiltinDeleteBackwardChar(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("delete-backward-char expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_delete_char.go b/edlisp/builtin_delete_char.go
index 49d71af..6e096e5 100644
--- a/edlisp/builtin_delete_char.go
+++ b/edlisp/builtin_delete_char.go
@@ -18,7 +18,7 @@ func BuiltinDeleteChar(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("delete-char expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_delete_line.go b/edlisp/builtin_delete_line.go
index ef589d5..c639e97 100644
--- a/edlisp/builtin_delete_line.go
+++ b/edlisp/builtin_delete_line.go
@@ -19,7 +19,7 @@ func BuiltinDeleteLine(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("delete-line expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_forward_char.go b/edlisp/builtin_forward_char.go
index 4a7af6e..96086b1 100644
--- a/edlisp/builtin_forward_char.go
+++ b/edlisp/builtin_forward_char.go
@@ -18,7 +18,7 @@ func BuiltinForwardChar(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("forward-char expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_forward_word.go b/edlisp/builtin_forward_word.go
index c0a2f3b..851da0e 100644
--- a/edlisp/builtin_forward_word.go
+++ b/edlisp/builtin_forward_word.go
@@ -20,7 +20,7 @@ func BuiltinForwardWord(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("forward-word expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_goto_char.go b/edlisp/builtin_goto_char.go
index ff56923..935d934 100644
--- a/edlisp/builtin_goto_char.go
+++ b/edlisp/builtin_goto_char.go
@@ -19,7 +19,7 @@ func BuiltinGotoChar(args []Value, buffer *Buffer) (Value, error) {
 	}
 
 	num := args[0].(*Number)
-	pos := int(num.Value)
+	pos := num.Int()
 
 	content := buffer.String()
 	if pos < 1 {
diff --git a/edlisp/builtin_goto_line.go b/edlisp/builtin_goto_line.go
index 9cee18c..e2183b9 100644
--- a/edlisp/builtin_goto_line.go
+++ b/edlisp/builtin_goto_line.go
@@ -19,7 +19,7 @@ func BuiltinGotoLine(args []Value, buffer *Buffer) (Value, error) {
 	}
 
 	num := args[0].(*Number)
-	lineNum := int(num.Value)
+	lineNum := num.Int()
 
 	content := buffer.String()
 	lines := strings.Split(content, "\n")
diff --git a/edlisp/builtin_kill_line.go b/edlisp/builtin_kill_line.go
index 9de7f0e..242086d 100644
--- a/edlisp/builtin_kill_line.go
+++ b/edlisp/builtin_kill_line.go
@@ -19,7 +19,7 @@ func BuiltinKillLine(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("kill-line expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_kill_word.go b/edlisp/builtin_kill_word.go
index f91fa8b..351b529 100644
--- a/edlisp/builtin_kill_word.go
+++ b/edlisp/builtin_kill_word.go
@@ -20,7 +20,7 @@ func BuiltinKillWord(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("kill-word expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_mark_line.go b/edlisp/builtin_mark_line.go
index 55829c2..5b27a17 100644
--- a/edlisp/builtin_mark_line.go
+++ b/edlisp/builtin_mark_line.go
@@ -20,7 +20,7 @@ func BuiltinMarkLine(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("mark-line expects a number argument")
 		}
-		count = int(args[0].(*Number).Value)
+		count = args[0].(*Number).Int()
 	}
 
 	content := buffer.String()
diff --git a/edlisp/builtin_set_mark_command.go b/edlisp/builtin_set_mark_command.go
index 74aeb93..92d41dc 100644
--- a/edlisp/builtin_set_mark_command.go
+++ b/edlisp/builtin_set_mark_command.go
@@ -19,7 +19,7 @@ func BuiltinSetMarkCommand(args []Value, buffer *Buffer) (Value, error) {
 		if !IsA(args[0], TheNumberKind) {
 			return nil, fmt.Errorf("set-mark-command expects a number argument")
 		}
-		pos = int(args[0].(*Number).Value)
+		pos = args[0].(*Number).Int()
 	} else {
 		pos = buffer.Point()
 	}
diff --git a/edlisp/builtin_substring.go b/edlisp/builtin_substring.go
index 5181a6a..1b06237 100644
--- a/edlisp/builtin_substring.go
+++ b/edlisp/builtin_substring.go
@@ -50,14 +50,14 @@ func BuiltinSubstring(args []Value, buffer *Buffer) (Value, error) {
 	}
 
 	str := args[0].(*String)
-	start := int(args[1].(*Number).Value)
+	start := args[1].(*Number).Int()
 	end := len(str.Value)
 
 	if len(args) == 3 {
 		if !IsA(args[2], TheNumberKind) {
 			return nil, fmt.Errorf("substring expects a number as third argument")
 		}
-		end = int(args[2].(*Number).Value)
+		end = args[2].(*Number).Int()
 	}
 
 	// Convert from 1-based to 0-based indexing
diff --git a/edlisp/number.go b/edlisp/number.go
index 5c441bf..683edec 100644
--- a/edlisp/number.go
+++ b/edlisp/number.go
@@ -1,6 +1,9 @@
 package edlisp
 
-import "fmt"
+import (
+	"fmt"
+	"math"
+)
 
 // NumberKind represents the kind for numeric values.
 type NumberKind struct{}
@@ -41,8 +44,21 @@ func (num *Number) String() string {
 	return fmt.Sprintf("%g", num.Value)
 }
 
-// Int returns the integer representation of the number.
+// maxInt is the largest magnitude returned by Int. It leaves enough headroom
+// for the result to be added to or subtracted from buffer positions.
+const maxInt = math.MaxInt / 4
+
+// Int returns the integer part of the number. NaN becomes 0 and numbers that
+// do not fit saturate, so that "too far" always stays too far.
 func (num *Number) Int() int {
+	switch {
+	case math.IsNaN(num.Value):
+		return 0
+	case num.Value >= float64(maxInt):
+		return maxInt
+	case num.Value <= -float64(maxInt):
+		return -maxInt
+	}
 	return int(num.Value)
 }
 
-- 
2.43.0


From 2e1d6d6930d5766250d493bd2e98be3d429c8289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 02/14] fix: keep point and mark inside the buffer

---
 edlisp/eval.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/edlisp/eval.go b/edlisp/eval.go
index dc592be..dd62330 100644
--- a/edlisp/eval.go
+++ b/edlisp/eval.go
@@ -53,19 +53,25 @@ func (b *Buffer) Point() int {
 	return b.point
 }
 
-// Mark returns the current mark position.
+// Mark returns the current mark position. If text was deleted since the mark
+// was set, the mark is at most at the end of the buffer.
 func (b *Buffer) Mark() int {
-	return b.mark
+	return b.clamp(b.mark)
 }
 
-// SetPoint sets the cursor position.
+// SetPoint sets the cursor position, clamped to the buffer bounds.
 func (b *Buffer) SetPoint(pos int) {
-	b.point = pos
+	b.point = b.clamp(pos)
 }
 
-// SetMark sets the mark position.
+// SetMark sets the mark position, clamped to the buffer bounds.
 func (b *Buffer) SetMark(pos int) {
-	b.mark = pos
+	b.mark = b.clamp(pos)
+}
+
+// clamp restricts a 1-based position to the buffer bounds.
+func (b *Buffer) clamp(pos int) int {
+	return max(1, min(pos, b.content.Len()+1))
 }
 
 // Insert inserts text at the current point.
-- 
2.43.0


From 4f66068756d060e6905b856541218c73bacc6d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 03/14] fix: delete-char with a zero or negative count deletes
 nothing

---
 edlisp/builtin_delete_char.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edlisp/builtin_delete_char.go b/edlisp/builtin_delete_char.go
index 6e096e5..803804d 100644
--- a/edlisp/builtin_delete_char.go
+++ b/edlisp/builtin_delete_char.go
@@ -34,6 +34,9 @@ func BuiltinDeleteChar(args []Value, buffer *Buffer) (Value, error) {
 	if endPos > len(content) {
 		endPos = len(content)
 	}
+	if startPos >= endPos {
+		return NewString(""), nil
+	}
 
 	// Delete characters starting at current position
 	newContent := content[:startPos] + content[endPos:]
-- 
2.43.0


From 630322634be92a29fdd3c972833ac0968e05b6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:21 +0000
Subject: [PATCH 04/14] fix: beginning-of-line at the end of the buffer stays
 on its line

---
 edlisp/builtin_beginning_of_line.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edlisp/builtin_beginning_of_line.go b/edlisp/builtin_beginning_of_line.go
index 4c7dae4..ab7171b 100644
--- a/edlisp/builtin_beginning_of_line.go
+++ b/edlisp/builtin_beginning_of_line.go
@@ -19,8 +19,8 @@ func BuiltinBeginningOfLine(args []Value, buffer *Buffer) (Value, error) {
 		buffer.SetPoint(1)
 		return NewString(""), nil
 	}
-	if pos >= len(content) {
-		pos = len(content) - 1
+	if pos > len(content) {
+		pos = len(content)
 	}
 
 	// Move backward to find beginning of line
-- 
2.43.0


From 979f78c75730fe68b1516756f97b95564bc8a11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 05/14] fix: line commands stop counting at the end of the
 buffer

---
 edlisp/builtin_delete_line.go | 2 +-
 edlisp/builtin_kill_line.go   | 2 +-
 edlisp/builtin_mark_line.go   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/edlisp/builtin_delete_line.go b/edlisp/builtin_delete_line.go
index c639e97..34c3e24 100644
--- a/edlisp/builtin_delete_line.go
+++ b/edlisp/builtin_delete_line.go
@@ -33,7 +33,7 @@ func BuiltinDeleteLine(args []Value, buffer *Buffer) (Value, error) {
 
 	// Find end of line(s) based on count
 	lineEnd := pos
-	for i := 0; i < count; i++ {
+	for i := 0; i < count && lineEnd < len(content); i++ {
 		for lineEnd < len(content) && content[lineEnd] != '\n' {
 			lineEnd++
 		}
diff --git a/edlisp/builtin_kill_line.go b/edlisp/builtin_kill_line.go
index 242086d..0afcbef 100644
--- a/edlisp/builtin_kill_line.go
+++ b/edlisp/builtin_kill_line.go
@@ -43,7 +43,7 @@ func BuiltinKillLine(args []Value, buffer *Buffer) (Value, error) {
 		// For multi-line kill, kill entire lines starting from cursor
 		startPos = pos
 		lineEnd = startPos
-		for i := 0; i < count; i++ {
+		for i := 0; i < count && lineEnd < len(content); i++ {
 			// Find end of current line
 			for lineEnd < len(content) && content[lineEnd] != '\n' {
 				lineEnd++
diff --git a/edlisp/builtin_mark_line.go b/edlisp/builtin_mark_line.go
index 5b27a17..46a4fba 100644
--- a/edlisp/builtin_mark_line.go
+++ b/edlisp/builtin_mark_line.go
@@ -34,7 +34,7 @@ func BuiltinMarkLine(args []Value, buffer *Buffer) (Value, error) {
 
 	// Find end of line(s) based on count
 	lineEnd := pos
-	for i := 0; i < count; i++ {
+	for i := 0; i < count && lineEnd < len(content); i++ {
 		for lineEnd < len(content) && content[lineEnd] != '\n' {
 			lineEnd++
 		}
-- 
2.43.0


From 2b2c42fe63e151007046de0714b6b704e7f00695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 06/14] fix: capitalize does not corrupt non-ASCII text

---
 edlisp/builtin_capitalize.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edlisp/builtin_capitalize.go b/edlisp/builtin_capitalize.go
index d11f9c2..d601966 100644
--- a/edlisp/builtin_capitalize.go
+++ b/edlisp/builtin_capitalize.go
@@ -3,6 +3,7 @@ package edlisp
 import (
 	"fmt"
 	"strings"
+	"unicode/utf8"
 )
 
 // BuiltinCapitalize capitalizes the first character of a string.
@@ -43,7 +44,8 @@ func BuiltinCapitalize(args []Value, buffer *Buffer) (Value, error) {
 		return NewString(""), nil
 	}
 
-	result := strings.ToUpper(string(str.Value[0])) + strings.ToLower(str.Value[1:])
+	_, size := utf8.DecodeRuneInString(str.Value)
+	result := strings.ToUpper(str.Value[:size]) + strings.ToLower(str.Value[size:])
 	return NewString(result), nil
 }
 
-- 
2.43.0


From 27d26798db04fbb03f4470a9d06b39bad2c40465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 07/14] fix: looking-back finds a match that ends at point
 after an earlier one

---
 edlisp/builtin_looking_back.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/edlisp/builtin_looking_back.go b/edlisp/builtin_looking_back.go
index 85526f4..f2565dc 100644
--- a/edlisp/builtin_looking_back.go
+++ b/edlisp/builtin_looking_back.go
@@ -3,6 +3,7 @@ package edlisp
 import (
 	"fmt"
 	"regexp"
+	"regexp/syntax"
 	"strings"
 )
 
@@ -41,10 +42,17 @@ func BuiltinLookingBack(args []Value, buffer *Buffer) (Value, error) {
 		return NewSymbol("nil"), nil
 	}
 
-	// Use regular expression matching on text before point
-	beforeText := content[:pos]
-	match := re.FindStringIndex(beforeText)
-	if match != nil && match[1] == len(beforeText) {
+	// Use regular expression matching on text before point, anchored at point
+	// so that an earlier match does not hide one that ends at point
+	parsed, err := syntax.Parse(pattern.Value, syntax.Perl)
+	if err != nil {
+		return nil, fmt.Errorf("invalid regexp: %v", err)
+	}
+	re, err = regexp.Compile("(?:" + parsed.String() + `)\z`)
+	if err != nil {
+		return nil, fmt.Errorf("invalid regexp: %v", err)
+	}
+	if re.MatchString(content[:pos]) {
 		return NewSymbol("t"), nil
 	}
 
-- 
2.43.0


From fd94bcfa3081d7d287ae6959a7e387136e807a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 08/14] fix: reject text after a complete S-expression instead
 of ignoring it

---
 edlisp/parser/linebased.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/edlisp/parser/linebased.go b/edlisp/parser/linebased.go
index 03c9ffe..36c6d20 100644
--- a/edlisp/parser/linebased.go
+++ b/edlisp/parser/linebased.go
@@ -114,8 +114,14 @@ func parseSExpression(line string) (edlisp.Value, error) {
 		return nil, err
 	}
 
-	expr, _, err := parseTokens(tokens, 0)
-	return expr, err
+	expr, end, err := parseTokens(tokens, 0)
+	if err != nil {
+		return nil, err
+	}
+	if end < len(tokens) {
+		return nil, fmt.Errorf("unexpected %q after expression", tokens[end])
+	}
+	return expr, nil
 }
 
 // parseShellLike parses a shell-like command line into a list.
-- 
2.43.0


From f8fabf0ab687c36ffb2583f237a118e39101eaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:27 +0000
Subject: [PATCH 09/14] fix: list documentation categories in a stable order

---
 commands/doc.go     | 11 +++++++++--
 tools/texted_doc.go |  2 ++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/commands/doc.go b/commands/doc.go
index 89d2a12..d4b96fa 100644
--- a/commands/doc.go
+++ b/commands/doc.go
@@ -2,6 +2,7 @@ package commands
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/spf13/cobra"
@@ -152,9 +153,15 @@ func listFunctions(category string, verbose bool) error {
 			categoryMap[cat] = append(categoryMap[cat], doc)
 		}
 
-		for catName, catDocs := range categoryMap {
+		catNames := make([]string, 0, len(categoryMap))
+		for catName := range categoryMap {
+			catNames = append(catNames, catName)
+		}
+		sort.Strings(catNames)
+
+		for _, catName := range catNames {
 			fmt.Printf("## %s\n\n", strings.Title(catName))
-			for _, doc := range catDocs {
+			for _, doc := range categoryMap[catName] {
 				fmt.Printf("- **%s**: %s\n", doc.Name, doc.Summary)
 			}
 			fmt.Printf("\n")
diff --git a/tools/texted_doc.go b/tools/texted_doc.go
index 0513d14..9b9411f 100644
--- a/tools/texted_doc.go
+++ b/tools/texted_doc.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	_ "embed"
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/dhamidi/texted/edlisp"
@@ -187,6 +188,7 @@ func formatFunctionList(docs []edlisp.FunctionDoc, title string, verbose bool) s
 		for category := range categoryMap {
 			categories = append(categories, category)
 		}
+		sort.Strings(categories)
 
 		for _, category := range categories {
 			output.WriteString(fmt.Sprintf("## %s\n\n", category))
-- 
2.43.0


From a1e0189384c0bd16d525261d5208d928cbc94b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 10/14] fix: do not split --expression scripts at commas and
 quotes

---
 commands/edit.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commands/edit.go b/commands/edit.go
index caac571..fb5153b 100644
--- a/commands/edit.go
+++ b/commands/edit.go
@@ -160,7 +160,7 @@ Script formats:
 	// Script Input Options
 	cmd.Flags().StringP("script", "s", "", "The texted script to execute")
 	cmd.Flags().StringVarP(&scriptFile, "file", "f", "", "Read script from file")
-	cmd.Flags().StringSliceP("expression", "e", nil, "Execute single expression and print result (can be used multiple times)")
+	cmd.Flags().StringArrayP("expression", "e", nil, "Execute single expression and print result (can be used multiple times)")
 
 	// Input/Output Options
 	cmd.Flags().BoolVarP(&inPlace, "in-place", "i", false, "Edit files in place (modify original files)")
@@ -210,7 +210,7 @@ func runEdit(args *runEditArgs) error {
 	}
 
 	// Handle expressions
-	expressions, err := args.cmd.Flags().GetStringSlice("expression")
+	expressions, err := args.cmd.Flags().GetStringArray("expression")
 	if err != nil {
 		return fmt.Errorf("getting expression flag: %w", err)
 	}
-- 
2.43.0


From ab4f175459dc6d7541ac27cd0952e9b9e475013a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 11/14] fix: reject an invalid --output-format before anything
 is evaluated

---
 commands/edit.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/commands/edit.go b/commands/edit.go
index fb5153b..dac80fc 100644
--- a/commands/edit.go
+++ b/commands/edit.go
@@ -197,6 +197,9 @@ func runEdit(args *runEditArgs) error {
 	if !texted.IsValidFormat(args.scriptFormat) {
 		return fmt.Errorf("invalid script format: %s (must be shell, sexp, or json)", args.scriptFormat)
 	}
+	if !texted.IsValidFormat(args.outputFormat) {
+		return fmt.Errorf("invalid output format: %s (must be shell, sexp, or json)", args.outputFormat)
+	}
 
 	// Validate flag combinations
 	if args.outputFile != "" && len(args.files) > 1 {
-- 
2.43.0


From 165ae2c8df8d44251b19d68fcce8198ec4863b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:00 +0000
Subject: [PATCH 12/14] fix: reject the JSON script null instead of running an
 empty program

---
 edlisp/parser/json.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edlisp/parser/json.go b/edlisp/parser/json.go
index 53f7544..842af4e 100644
--- a/edlisp/parser/json.go
+++ b/edlisp/parser/json.go
@@ -49,6 +49,9 @@ func ParseJSONString(s string) ([]edlisp.Value, error) {
 	if err != nil {
 		return nil, fmt.Errorf("JSON unmarshal error: %w", err)
 	}
+	if rawValues == nil {
+		return nil, fmt.Errorf("expected a JSON array of commands, got null")
+	}
 
 	var expressions []edlisp.Value
 	for i, rawValue := range rawValues {
-- 
2.43.0


From 482cf9ecfd3984d5fef779dec645840641f65c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:08 +0000
Subject: [PATCH 13/14] fix: make every documented example a script that can be
 run

---
 edlisp/builtin_mark.go            | 2 +-
 edlisp/builtin_search_backward.go | 4 ++--
 tools/edit_file_description.txt   | 2 +-
 tools/texted_eval_description.txt | 6 +++---
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/edlisp/builtin_mark.go b/edlisp/builtin_mark.go
index fb4a98f..dbf87a4 100644
--- a/edlisp/builtin_mark.go
+++ b/edlisp/builtin_mark.go
@@ -51,7 +51,7 @@ func init() {
 		Description: "Returns the current mark position in the buffer. The mark is a secondary position that works with the point to define text regions. Like the point, it is 1-based and can be anywhere from point-min to point-max. The mark is typically set using set-mark or set-mark-command.",
 		Parameters:  []ParameterDoc{},
 		Examples: []ExampleDoc{
-			{Description: "Get mark position", Input: `set-mark 5; mark`, Buffer: "Hello world", Output: "5"},
+			{Description: "Get mark position", Input: `set-mark-command 5; mark`, Buffer: "Hello world", Output: "5"},
 			{Description: "Get mark after set-mark-command", Input: `goto-char 3; set-mark-command; mark`, Buffer: "Hello world", Output: "3"},
 		},
 		SeeAlso: []string{"point", "set-mark", "set-mark-command", "region-beginning", "region-end", "exchange-point-and-mark"},
diff --git a/edlisp/builtin_search_backward.go b/edlisp/builtin_search_backward.go
index 5795429..717afb6 100644
--- a/edlisp/builtin_search_backward.go
+++ b/edlisp/builtin_search_backward.go
@@ -63,13 +63,13 @@ func init() {
 		Examples: []ExampleDoc{
 			{
 				Description: "Basic backward text search",
-				Input:       `end-of-buffer search-backward "test"`,
+				Input:       `end-of-buffer; search-backward "test"`,
 				Buffer:      "Hello world, this is a test buffer.\nThe word \"test\" appears twice here.\nAnother line with test content.",
 				Output:      "Point moves to position after the last 'test' (position 95)",
 			},
 			{
 				Description: "Search that fails",
-				Input:       `beginning-of-buffer search-backward "missing"`,
+				Input:       `beginning-of-buffer; search-backward "missing"`,
 				Buffer:      "Hello world",
 				Output:      "Error: search failed",
 			},
diff --git a/tools/edit_file_description.txt b/tools/edit_file_description.txt
index 1583336..ce6e3c7 100644
--- a/tools/edit_file_description.txt
+++ b/tools/edit_file_description.txt
@@ -45,7 +45,7 @@ TOP 10 ESSENTIAL FUNCTIONS FOR SEARCH-AND-REPLACE WORKFLOWS
 
 3. re-search-forward "regexp"
    Regex search forward. More powerful than literal search-forward.
-   Example: re-search-forward "func\s+\w+"
+   Example: re-search-forward "func\\s+\\w+"
 
 4. mark-whole-buffer
    Select entire buffer content (sets mark at beginning, point at end).
diff --git a/tools/texted_eval_description.txt b/tools/texted_eval_description.txt
index 02954f9..5907c01 100644
--- a/tools/texted_eval_description.txt
+++ b/tools/texted_eval_description.txt
@@ -59,7 +59,7 @@ TOP 10 ESSENTIAL FUNCTIONS FOR TEXT PROCESSING
 
 3. re-search-forward "regexp"
    Regex search forward. More powerful than literal search-forward.
-   Example: re-search-forward "func\s+\w+"
+   Example: re-search-forward "func\\s+\\w+"
 
 4. mark-whole-buffer
    Select entire buffer content (sets mark at beginning, point at end).
@@ -99,12 +99,12 @@ output: "buffer" → "new function name"
 
 Value Extraction (Expression Mode):  
 input: "The answer is 42"
-script: re-search-forward "\\d+"; buffer-substring (match-beginning) (match-end)
+script: search-forward "is "; set-mark; end-of-buffer; buffer-substring (region-beginning) (region-end)
 output: "expression" → "42"
 
 Position Finding (Expression Mode):
 input: "line1\nline2\nline3"
-script: search-forward "line2"; line-number-at-pos (point)
+script: search-forward "line2"; line-number-at-pos
 output: "expression" → 2
 
 Text Analysis (Expression Mode):
-- 
2.43.0


From 433655ffc65c1a5d0d3206e389b18369e8487e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:42 +0000
Subject: [PATCH 14/14] fix: report why files could not be edited in place when
 output is quiet

---
 commands/edit.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/commands/edit.go b/commands/edit.go
index dac80fc..a74d1e2 100644
--- a/commands/edit.go
+++ b/commands/edit.go
@@ -1,6 +1,7 @@
 package commands
 
 import (
+	"errors"
 	"fmt"
 	"io"
 	"os"
@@ -533,7 +534,7 @@ func processSingleFileToStdout(args *processSingleFileToStdoutArgs) error {
 
 // processFilesInPlace processes files in place with optional backup
 func processFilesInPlace(args *processFilesInPlaceArgs) error {
-	hasErrors := false
+	var errs []error
 	for _, filename := range args.files {
 		if args.verbose && !args.quiet {
 			fmt.Printf("Processing %s in place\n", filename)
@@ -562,7 +563,7 @@ func processFilesInPlace(args *processFilesInPlaceArgs) error {
 				if !args.quiet {
 					fmt.Printf("✗ Failed to read %s for backup: %v\n", filename, err)
 				}
-				hasErrors = true
+				errs = append(errs, fmt.Errorf("%s: %w", filename, err))
 				continue
 			}
 
@@ -570,7 +571,7 @@ func processFilesInPlace(args *processFilesInPlaceArgs) error {
 				if !args.quiet {
 					fmt.Printf("✗ Failed to create backup %s: %v\n", backupFile, err)
 				}
-				hasErrors = true
+				errs = append(errs, fmt.Errorf("%s: %w", filename, err))
 				continue
 			}
 		}
@@ -581,7 +582,7 @@ func processFilesInPlace(args *processFilesInPlaceArgs) error {
 			if !args.quiet {
 				fmt.Printf("✗ Failed to read %s: %v\n", filename, err)
 			}
-			hasErrors = true
+			errs = append(errs, fmt.Errorf("%s: %w", filename, err))
 			continue
 		}
 
@@ -590,7 +591,7 @@ func processFilesInPlace(args *processFilesInPlaceArgs) error {
 			if !args.quiet {
 				fmt.Printf("✗ Failed to process %s: %v\n", filename, err)
 			}
-			hasErrors = true
+			errs = append(errs, fmt.Errorf("%s: %w", filename, err))
 			continue
 		}
 
@@ -598,7 +599,7 @@ func processFilesInPlace(args *processFilesInPlaceArgs) error {
 			if !args.quiet {
 				fmt.Printf("✗ Failed to write %s: %v\n", filename, err)
 			}
-			hasErrors = true
+			errs = append(errs, fmt.Errorf("%s: %w", filename, err))
 			continue
 		}
 
@@ -607,8 +608,8 @@ func processFilesInPlace(args *processFilesInPlaceArgs) error {
 		}
 	}
 
-	if hasErrors {
-		return fmt.Errorf("some files could not be edited")
+	if len(errs) > 0 {
+		return fmt.Errorf("some files could not be edited: %w", errors.Join(errs...))
 	}
 
 	return nil
-- 
2.43.0

