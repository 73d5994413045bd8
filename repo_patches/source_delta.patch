From a8c56184ec61c6b1495085c98fb0324370eef872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:50 +0000
Subject: [PATCH 01/61] fix: saturate CSI parameters instead of overflowing

A parameter beyond int64 wrapped around to a negative or arbitrary value,
which was then used as a cursor distance or a scroll count.
---
 escapes.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/escapes.go b/escapes.go
index a70bc01..f9a93ca 100644
--- a/escapes.go
+++ b/escapes.go
@@ -19,6 +19,9 @@ var colorModes = [7]Mode{
 	ModeInvisible, // SGR 8
 }
 
+// maxCSIParam is the value numeric parameters saturate at.
+const maxCSIParam = 1<<24 - 1
+
 func (t *terminal) ptyReadLoop() {
 	reader := bufio.NewReader(t.backend)
 	gr := NewGraphemeReaderWithMode(reader, t.textReadMode)
@@ -294,7 +297,8 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 			paramSet = false
 			sawSeparator = true
 		} else {
-			param = param*10 + int(b-'0')
+			// saturate instead of overflowing into a negative or tiny number
+			param = min(param*10+int(b-'0'), maxCSIParam)
 			paramSet = true
 			sawSeparator = false
 		}
-- 
2.43.0


From 4dc997835c7cf4b0267e1d675e37140671ea05f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:07 +0000
Subject: [PATCH 02/61] fix: keep CSI parameters beyond the eighth

Parameters after the eighth were dropped, so a long SGR or mode list lost
its tail.  Property C07.
---
 escapes.go | 107 ++++++++++++++++++-----------------------------------
 1 file changed, 35 insertions(+), 72 deletions(-)

diff --git a/escapes.go b/escapes.go
index f9a93ca..fa84d5a 100644
--- a/escapes.go
+++ b/escapes.go
@@ -278,21 +278,19 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 	}
 
 	// This cannot escape to the heap! Use append([]int(nil), params...) instead of params to make a copy if needed, such as to debug calls
+	// (only a sequence with more parameters than fit here moves to the heap)
 	var paramStore [8]int
-	paramCount := 0
+	params := paramStore[:0]
 	param := 0
 	paramSet := false
 	sawSeparator := false
 	for b == ';' || (b >= '0' && b <= '9') {
 		if b == ';' {
 			value := 0
-			if paramSet || sawSeparator || paramCount > 0 {
+			if paramSet || sawSeparator || len(params) > 0 {
 				value = param
 			}
-			if paramCount < len(paramStore) {
-				paramStore[paramCount] = value
-				paramCount++
-			}
+			params = append(params, value)
 			param = 0
 			paramSet = false
 			sawSeparator = true
@@ -316,58 +314,41 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 		if paramSet {
 			value = param
 		}
-		if paramCount < len(paramStore) {
-			paramStore[paramCount] = value
-			paramCount++
-		}
+		params = append(params, value)
 	}
 
-	params := paramStore[:paramCount]
-
 	if prefix == 0 {
 		switch b {
 		case 'A': // Move cursor up
-			if paramCount == 0 {
-				paramStore[0] = 1
-				paramCount = 1
-				params = paramStore[:paramCount]
+			if len(params) == 0 {
+				params = append(params, 1)
 			}
 			t.screen().moveCursor(0, -params[0], false, false)
 		case 'B': // Move cursor down
-			if paramCount == 0 {
-				paramStore[0] = 1
-				paramCount = 1
-				params = paramStore[:paramCount]
+			if len(params) == 0 {
+				params = append(params, 1)
 			}
 			t.screen().moveCursor(0, params[0], false, true)
 		case 'C': // Move cursor forward
-			if paramCount == 0 {
-				paramStore[0] = 1
-				paramCount = 1
-				params = paramStore[:paramCount]
+			if len(params) == 0 {
+				params = append(params, 1)
 			}
 			t.screen().moveCursor(params[0], 0, false, false)
 		case 'D': // Move cursor backward
-			if paramCount == 0 {
-				paramStore[0] = 1
-				paramCount = 1
-				params = paramStore[:paramCount]
+			if len(params) == 0 {
+				params = append(params, 1)
 			}
 			t.screen().moveCursor(-params[0], 0, false, false)
 
 		case 'G': // Cursor Character Absolute
-			if paramCount == 0 {
-				paramStore[0] = 1
-				paramCount = 1
-				params = paramStore[:paramCount]
+			if len(params) == 0 {
+				params = append(params, 1)
 			}
 			t.screen().setCursorPos(params[0]-1, t.screen().CursorPos().Y)
 
 		case 'c': // Send Device Attributes
-			if paramCount == 0 {
-				paramStore[0] = 1
-				paramCount = 1
-				params = paramStore[:paramCount]
+			if len(params) == 0 {
+				params = append(params, 1)
 			}
 			switch params[0] {
 			case 0:
@@ -375,10 +356,8 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 			}
 
 		case 'd': // Line Position Absolute
-			if paramCount == 0 {
-				paramStore[0] = 1
-				paramCount = 1
-				params = paramStore[:paramCount]
+			if len(params) == 0 {
+				params = append(params, 1)
 			}
 			t.screen().setCursorPos(t.screen().CursorPos().X, params[0]-1)
 
@@ -414,10 +393,8 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 			}
 
 		case 'm': // Set color/mode
-			if paramCount == 0 {
-				paramStore[0] = 0
-				paramCount = 1
-				params = paramStore[:paramCount]
+			if len(params) == 0 {
+				params = append(params, 0)
 			}
 
 			style := t.screen().Style()
@@ -641,50 +618,38 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 			}
 
 		case 'L': // Insert lines, scroll down
-			if paramCount == 0 {
-				paramStore[0] = 1
-				paramCount = 1
-				params = paramStore[:paramCount]
+			if len(params) == 0 {
+				params = append(params, 1)
 			}
 			t.screen().scroll(t.screen().CursorPos().Y, t.screen().BottomMargin(), params[0])
 
 		case 'M': // Delete lines, scroll up
-			if paramCount == 0 {
-				paramStore[0] = 1
-				paramCount = 1
-				params = paramStore[:paramCount]
+			if len(params) == 0 {
+				params = append(params, 1)
 			}
 			t.screen().scroll(t.screen().CursorPos().Y, t.screen().BottomMargin(), -params[0])
 
 		case 'S': // Scroll up
-			if paramCount == 0 {
-				paramStore[0] = 1
-				paramCount = 1
-				params = paramStore[:paramCount]
+			if len(params) == 0 {
+				params = append(params, 1)
 			}
 			t.screen().scroll(t.screen().TopMargin(), t.screen().BottomMargin(), -params[0])
 
 		case 'T': // Scroll down
-			if paramCount == 0 {
-				paramStore[0] = 1
-				paramCount = 1
-				params = paramStore[:paramCount]
+			if len(params) == 0 {
+				params = append(params, 1)
 			}
 			t.screen().scroll(t.screen().TopMargin(), t.screen().BottomMargin(), params[0])
 
 		case 'P': // Delete n characters
-			if paramCount == 0 {
-				paramStore[0] = 1
-				paramCount = 1
-				params = paramStore[:paramCount]
+			if len(params) == 0 {
+				params = append(params, 1)
 			}
 			t.screen().deleteChars(t.screen().CursorPos().X, t.screen().CursorPos().Y, params[0], CRClear)
 
 		case 'X': // Erase from cursor pos to the right
-			if paramCount == 0 {
-				paramStore[0] = 1
-				paramCount = 1
-				params = paramStore[:paramCount]
+			if len(params) == 0 {
+				params = append(params, 1)
 			}
 			t.screen().eraseRegion(Region{
 				X:  t.screen().CursorPos().X,
@@ -706,10 +671,8 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 			t.screen().setScrollMarginTopBottom(top-1, bottom-1)
 
 		case 'n': // Device Status Report
-			if paramCount == 0 {
-				paramStore[0] = 0
-				paramCount = 1
-				params = paramStore[:paramCount]
+			if len(params) == 0 {
+				params = append(params, 0)
 			}
 			switch params[0] {
 			case 5:
-- 
2.43.0


From 7f411b40bf9fddd2f957f62825707ad3d03627ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:31 +0000
Subject: [PATCH 03/61] fix: give omitted CSI parameters their default

A parameter left empty before or after a separator was taken as 0, so for
example CSI ;2A did not move and CSI 3;r set an empty scroll region.
Property C04.
---
 escapes.go | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/escapes.go b/escapes.go
index fa84d5a..a468277 100644
--- a/escapes.go
+++ b/escapes.go
@@ -22,6 +22,32 @@ var colorModes = [7]Mode{
 // maxCSIParam is the value numeric parameters saturate at.
 const maxCSIParam = 1<<24 - 1
 
+// omittedParam stands for a parameter left empty between separators.
+const omittedParam = -1
+
+// defaultOmittedParams replaces omitted parameters by the default of the
+// control function they belong to.
+func (t *terminal) defaultOmittedParams(params []int, prefix, final byte) {
+	for i, p := range params {
+		if p != omittedParam {
+			continue
+		}
+		params[i] = 0
+		if prefix != 0 {
+			continue
+		}
+		switch final {
+		case 'A', 'B', 'C', 'D', 'G', 'H', 'L', 'M', 'P', 'S', 'T', 'X', 'd', 'f':
+			params[i] = 1
+		case 'r':
+			params[i] = 1
+			if i == 1 {
+				params[i] = t.screen().Size().Y
+			}
+		}
+	}
+}
+
 func (t *terminal) ptyReadLoop() {
 	reader := bufio.NewReader(t.backend)
 	gr := NewGraphemeReaderWithMode(reader, t.textReadMode)
@@ -286,8 +312,8 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 	sawSeparator := false
 	for b == ';' || (b >= '0' && b <= '9') {
 		if b == ';' {
-			value := 0
-			if paramSet || sawSeparator || len(params) > 0 {
+			value := omittedParam
+			if paramSet {
 				value = param
 			}
 			params = append(params, value)
@@ -310,12 +336,13 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 		}
 	}
 	if paramSet || sawSeparator {
-		value := 0
+		value := omittedParam
 		if paramSet {
 			value = param
 		}
 		params = append(params, value)
 	}
+	t.defaultOmittedParams(params, prefix, b)
 
 	if prefix == 0 {
 		switch b {
-- 
2.43.0


From b1d7942672c62194be27ebf67a920684d0917ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:32 +0000
Subject: [PATCH 04/61] fix: answer CSI c without a parameter

The default parameter of the primary device attributes query is 0, so the
plain CSI c got no reply.  Property C14.
---
 escapes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escapes.go b/escapes.go
index a468277..80f6fe3 100644
--- a/escapes.go
+++ b/escapes.go
@@ -375,7 +375,7 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 
 		case 'c': // Send Device Attributes
 			if len(params) == 0 {
-				params = append(params, 1)
+				params = append(params, 0)
 			}
 			switch params[0] {
 			case 0:
-- 
2.43.0


From 928fb5e2fafa265855c757fdd8dfc039ad7e525c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:51 +0000
Subject: [PATCH 05/61] fix: consume CSI sequences up to their final byte

Intermediate bytes, colon sub-parameters and misplaced private prefixes ended
the sequence early and the rest of it was drawn as text.  Property C09.
---
 escapes.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/escapes.go b/escapes.go
index 80f6fe3..dd19274 100644
--- a/escapes.go
+++ b/escapes.go
@@ -310,8 +310,11 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 	param := 0
 	paramSet := false
 	sawSeparator := false
-	for b == ';' || (b >= '0' && b <= '9') {
-		if b == ';' {
+	ignored := false // intermediates, sub-parameters or misplaced prefixes: no function we know
+	for b >= 0x20 && b <= 0x3f {
+		if b != ';' && (b < '0' || b > '9') {
+			ignored = true
+		} else if b == ';' {
 			value := omittedParam
 			if paramSet {
 				value = param
@@ -332,9 +335,13 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 			if err != io.EOF {
 				debugPrintln(debugErrors, "ERR ReadByte7:", err)
 			}
-			return false
+			return ignored
 		}
 	}
+	if ignored {
+		debugPrintf(debugTodo, "TODO: Unhandled CSI sequence ending in %#v\n", string(b))
+		return true
+	}
 	if paramSet || sawSeparator {
 		value := omittedParam
 		if paramSet {
@@ -712,14 +719,6 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 				debugPrintln(debugTodo, "TODO: Unhandled DSR params: ", append([]int(nil), params...))
 			}
 
-		case '%': // Select character set (ignored)
-			// ignored
-
-		case '<': // SGR mouse or other private mode (ignored)
-			if *debugCmd {
-				debugPrintf(debugCmd, "CSI < params: %v\n", append([]int(nil), params...))
-			}
-
 		default:
 			debugPrintf(debugTodo, "TODO: Unhandled CSI Command: %v %#v\n", append([]int(nil), params...), string(b))
 			return true
-- 
2.43.0


From 9973b5f8be34f2b32ed8f87017ea62b10c118332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:05 +0000
Subject: [PATCH 06/61] fix: consume ESC sequences with any intermediate bytes

Only ESC ( ) * + swallowed their final byte; after ESC # 8, ESC % G, ESC SP F
and the like it was drawn as text.  Property C09.
---
 escapes.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/escapes.go b/escapes.go
index dd19274..fdf0c02 100644
--- a/escapes.go
+++ b/escapes.go
@@ -243,21 +243,18 @@ func (t *terminal) handleCommand(r escapeReader) bool {
 	case ']': // OSC Operating System Commands
 		return t.handleCmdOSC(r)
 
-	case '(': // G0
-		fallthrough
-	case ')': // G1
-		fallthrough
-	case '*': // G2
-		fallthrough
-	case '+': // G3
-		C, err := r.ReadByte()
-		if err != nil {
-			if err != io.EOF {
-				debugPrintln(debugErrors, "ERR ReadByte4:", err)
+	case ' ', '!', '"', '#', '$', '%', '&', '\'', '(', ')', '*', '+', ',', '-', '.', '/':
+		// Character set designation and the like: any number of
+		// intermediates, then a final byte. None of them is supported.
+		for b >= 0x20 && b <= 0x2f {
+			b, err = r.ReadByte()
+			if err != nil {
+				if err != io.EOF {
+					debugPrintln(debugErrors, "ERR ReadByte4:", err)
+				}
+				return false
 			}
-			return false
 		}
-		_ = C
 		return true
 
 	case '=': // Application Keypad
-- 
2.43.0


From 5f9b19a5fd3356a1b49b0753c3da3ab7e3532bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:34 +0000
Subject: [PATCH 07/61] fix: consume OSC strings up to BEL or ST

A non-numeric OSC, one with no payload ended by ESC \, and a payload holding
a UTF-8 character with the byte 0x9c ended the sequence early; the rest of it
was drawn as text.  OSC without a number was taken as a title.  Property C09.
---
 escapes.go | 91 ++++++++++++++++++++++++++++++------------------------
 1 file changed, 51 insertions(+), 40 deletions(-)

diff --git a/escapes.go b/escapes.go
index fdf0c02..91c8e99 100644
--- a/escapes.go
+++ b/escapes.go
@@ -5,7 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
-	"strconv"
+	"unicode/utf8"
 )
 
 // colorModes maps SGR codes 1-7 to their Mode values
@@ -901,55 +901,66 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 	return true
 }
 
-func (t *terminal) handleCmdOSC(r escapeReader) bool {
-	paramBytes := []byte{}
-	var err error
-	var b byte
+// readControlString reads the payload of an OSC or DCS up to its terminator:
+// ST (ESC \ or the C1 byte 0x9c) or, if bel is set, BEL.
+func readControlString(r escapeReader, bel bool) ([]byte, error) {
+	payload := []byte{}
 	for {
-		b, err = r.ReadByte()
+		b, err := r.ReadByte()
 		if err != nil {
-			if err != io.EOF {
-				debugPrintln(debugErrors, "ERR ReadByte8:", err)
-			}
-			return false
+			return payload, err
 		}
-
-		if b >= '0' && b <= '9' {
-			paramBytes = append(paramBytes, byte(b))
-		} else {
-			break
+		n := len(payload)
+		switch {
+		case b == 7 && bel:
+			return payload, nil
+		case b == 0x9c && !continuesUTF8(payload, b):
+			return payload, nil
+		case b == '\\' && n > 0 && payload[n-1] == 27:
+			return payload[:n-1], nil
 		}
+		payload = append(payload, b)
 	}
+}
 
-	param, _ := strconv.Atoi(string(paramBytes))
-
-	param2 := []byte{}
-
-	if b == ';' {
-		// skip the ';'
-		for {
-			b, err = r.ReadByte()
-			if err != nil {
-				if err != io.EOF {
-					debugPrintln(debugErrors, "ERR ReadByte9:", err)
-				}
-				return false
-			}
-			if b == 7 || b == 0x9c { // BEL , ST
-				break
-			}
-			if len(param2) > 0 && param2[len(param2)-1] == 27 && b == '\\' { // ESC \ is also ST
-				param2 = param2[:len(param2)-1]
-				break
-			}
+// continuesUTF8 reports whether b is a continuation byte of a character that
+// began at the end of text.
+func continuesUTF8(text []byte, b byte) bool {
+	start := len(text) - 1
+	for start >= 0 && start > len(text)-utf8.UTFMax && !utf8.RuneStart(text[start]) {
+		start--
+	}
+	if start < 0 || utf8.FullRune(text[start:]) {
+		return false
+	}
+	char := append(append(make([]byte, 0, utf8.UTFMax), text[start:]...), b)
+	_, size := utf8.DecodeRune(char)
+	return !utf8.FullRune(char) || size == len(char)
+}
 
-			param2 = append(param2, byte(b))
+func (t *terminal) handleCmdOSC(r escapeReader) bool {
+	payload, err := readControlString(r, true)
+	if err != nil {
+		if err != io.EOF {
+			debugPrintln(debugErrors, "ERR ReadByte8:", err)
 		}
-	} else if b != 7 && b != 0x9c { // BEL, ST
-		debugPrintln(debugErrors, "OSC command number not followed by ;, BEL, or ST?", b)
 		return false
 	}
 
+	number, param2, _ := bytes.Cut(payload, []byte{';'})
+	param := 0
+	for _, c := range number {
+		if c < '0' || c > '9' {
+			debugPrintf(debugErrors, "OSC command without a number: %q\n", string(payload))
+			return true
+		}
+		param = min(param*10+int(c-'0'), maxCSIParam)
+	}
+	if len(number) == 0 {
+		debugPrintf(debugErrors, "OSC command without a number: %q\n", string(payload))
+		return true
+	}
+
 	switch param {
 	case 0:
 		t.setViewString(VSWindowTitle, string(param2))
@@ -979,7 +990,7 @@ func (t *terminal) handleCmdOSC(r escapeReader) bool {
 		debugPrintln(debugTodo, "TODO: Reset Cursor Color", string(param2))
 
 	default:
-		debugPrintln(debugTodo, "TODO: Unhandled OSC Command: ", param, string(b))
+		debugPrintln(debugTodo, "TODO: Unhandled OSC Command: ", param)
 		return true
 	}
 
-- 
2.43.0


From 45c67db7444ebd3a069f2dbffb31f68971ab3bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:52 +0000
Subject: [PATCH 08/61] fix: do not end a DCS inside a UTF-8 character

The byte 0x9c inside a multi-byte character of the payload was taken for ST
and the rest of the payload was drawn as text.  Property C09.
---
 escapes.go | 37 +++++++++----------------------------
 1 file changed, 9 insertions(+), 28 deletions(-)

diff --git a/escapes.go b/escapes.go
index 91c8e99..a0ba048 100644
--- a/escapes.go
+++ b/escapes.go
@@ -1002,34 +1002,15 @@ func (t *terminal) handleCmdOSC(r escapeReader) bool {
 }
 
 func (t *terminal) handleDCS(r escapeReader) bool {
-	prev := byte(0)
-	var payload []byte
-	for {
-		b, err := r.ReadByte()
-		if err != nil {
-			if err != io.EOF {
-				debugPrintln(debugErrors, "ERR ReadByteDCS:", err)
-			}
-			return false
-		}
-		if b == 0x9c {
-			if *debugCmd {
-				debugPrintf(debugCmd, "DCS payload: %q\n", string(payload))
-			}
-			return true
-		}
-		if prev == 27 && b == '\\' {
-			if *debugCmd {
-				if len(payload) > 0 && payload[len(payload)-1] == 27 {
-					payload = payload[:len(payload)-1]
-				}
-				debugPrintf(debugCmd, "DCS payload: %q\n", string(payload))
-			}
-			return true
-		}
-		if *debugCmd {
-			payload = append(payload, b)
+	payload, err := readControlString(r, false)
+	if err != nil {
+		if err != io.EOF {
+			debugPrintln(debugErrors, "ERR ReadByteDCS:", err)
 		}
-		prev = b
+		return false
 	}
+	if *debugCmd {
+		debugPrintf(debugCmd, "DCS payload: %q\n", string(payload))
+	}
+	return true
 }
-- 
2.43.0


From e78ba54e0cc2a422f371f30393230ba0f3db4a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 09/61] fix: erase the cursor cell with CSI 1K

Erase to start of line includes the cell under the cursor.  Property C05.
---
 escapes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escapes.go b/escapes.go
index a0ba048..916ce33 100644
--- a/escapes.go
+++ b/escapes.go
@@ -579,7 +579,7 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 				t.screen().eraseRegion(Region{
 					X:  0,
 					Y:  t.screen().CursorPos().Y,
-					X2: t.screen().CursorPos().X,
+					X2: t.screen().CursorPos().X + 1,
 					Y2: t.screen().CursorPos().Y + 1,
 				}, CRClear)
 			case params[0] == 2: // Erase entire line
-- 
2.43.0


From a16813efd9ad684c60dbef7648e8997665cf8bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:54 +0000
Subject: [PATCH 10/61] fix: clamp cursor-down instead of scrolling

CUD stops at the bottom of the screen; it scrolled the region by the number of
rows it went too far.  Property C04.
---
 escapes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escapes.go b/escapes.go
index 916ce33..1c76774 100644
--- a/escapes.go
+++ b/escapes.go
@@ -359,7 +359,7 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 			if len(params) == 0 {
 				params = append(params, 1)
 			}
-			t.screen().moveCursor(0, params[0], false, true)
+			t.screen().moveCursor(0, params[0], false, false)
 		case 'C': // Move cursor forward
 			if len(params) == 0 {
 				params = append(params, 1)
-- 
2.43.0


From 42635b007cadc6678ea2c8ab9fcc28950cb7cb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:11 +0000
Subject: [PATCH 11/61] fix: clamp a region's bottom to the height

Region.Clamp limited Y2 by the right edge, so erases on a screen taller than
wide stopped at row W.  Property C05.
---
 region.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region.go b/region.go
index ae93c48..b809c1e 100644
--- a/region.go
+++ b/region.go
@@ -43,6 +43,6 @@ func (r Region) Clamp(rc Region) Region {
 		X:  nx,
 		X2: clamp(r.X2, nx, rc.X2),
 		Y:  ny,
-		Y2: clamp(r.Y2, ny, rc.X2),
+		Y2: clamp(r.Y2, ny, rc.Y2),
 	}
 }
-- 
2.43.0


From fcf5a9d30c60e152af6c8089cd7d47b66fb7a583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:12 +0000
Subject: [PATCH 12/61] fix: ignore IL and DL outside the scroll region

With the cursor above or below the margins they moved rows outside the region
or wrote past the end of the row slice.  Property C06.
---
 escapes.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/escapes.go b/escapes.go
index 1c76774..6c6b438 100644
--- a/escapes.go
+++ b/escapes.go
@@ -652,13 +652,17 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 			if len(params) == 0 {
 				params = append(params, 1)
 			}
-			t.screen().scroll(t.screen().CursorPos().Y, t.screen().BottomMargin(), params[0])
+			if t.cursorInScrollRegion() {
+				t.screen().scroll(t.screen().CursorPos().Y, t.screen().BottomMargin(), params[0])
+			}
 
 		case 'M': // Delete lines, scroll up
 			if len(params) == 0 {
 				params = append(params, 1)
 			}
-			t.screen().scroll(t.screen().CursorPos().Y, t.screen().BottomMargin(), -params[0])
+			if t.cursorInScrollRegion() {
+				t.screen().scroll(t.screen().CursorPos().Y, t.screen().BottomMargin(), -params[0])
+			}
 
 		case 'S': // Scroll up
 			if len(params) == 0 {
@@ -938,6 +942,13 @@ func continuesUTF8(text []byte, b byte) bool {
 	return !utf8.FullRune(char) || size == len(char)
 }
 
+// cursorInScrollRegion reports whether the cursor is between the margins;
+// inserting and deleting lines has no effect elsewhere.
+func (t *terminal) cursorInScrollRegion() bool {
+	y := t.screen().CursorPos().Y
+	return y >= t.screen().TopMargin() && y <= t.screen().BottomMargin()
+}
+
 func (t *terminal) handleCmdOSC(r escapeReader) bool {
 	payload, err := readControlString(r, true)
 	if err != nil {
-- 
2.43.0


From 86f329cad12d4d6c8025b794e8a9c0d40242da12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:14 +0000
Subject: [PATCH 13/61] fix: ignore inverted scroll margins

DECSTBM with its top below its bottom left an empty scroll region, and the next
scroll indexed rows out of range.  Property C06.
---
 screen.go      | 3 +++
 screen_grid.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/screen.go b/screen.go
index 4d652f9..78aa654 100644
--- a/screen.go
+++ b/screen.go
@@ -426,6 +426,9 @@ func (s *spanScreen) setCursorPos(x, y int) {
 
 func (s *spanScreen) setScrollMarginTopBottom(top, bottom int) {
 	debugPrintln(debugScroll, "scroll margins:", top, bottom)
+	if top > bottom {
+		return
+	}
 	s.topMargin = clamp(top, 0, s.size.Y-1)
 	s.bottomMargin = clamp(bottom, 0, s.size.Y-1)
 }
diff --git a/screen_grid.go b/screen_grid.go
index 634d210..d27a8fd 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -567,6 +567,9 @@ func (s *gridScreen) setCursorPos(x, y int) {
 
 func (s *gridScreen) setScrollMarginTopBottom(top, bottom int) {
 	debugPrintln(debugScroll, "scroll margins:", top, bottom)
+	if top > bottom {
+		return
+	}
 	s.topMargin = clamp(top, 0, s.size.Y-1)
 	s.bottomMargin = clamp(bottom, 0, s.size.Y-1)
 }
-- 
2.43.0


From 9cdd3b819e1826260566e700f27cb821e511628f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:40 +0000
Subject: [PATCH 14/61] fix: limit scroll distances to the region height

A count larger than the region indexed rows out of range and panicked.
Property C06, C01.
---
 screen.go      | 3 +++
 screen_grid.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/screen.go b/screen.go
index 78aa654..c8220d1 100644
--- a/screen.go
+++ b/screen.go
@@ -439,7 +439,10 @@ func (s *spanScreen) scroll(y1 int, y2 int, dy int) {
 	y2 = clamp(y2, 0, s.size.Y-1)
 	if y1 > y2 {
 		fmt.Fprintln(os.Stderr, "scroll ys out of order", y1, y2, dy)
+		return
 	}
+	// scrolling by more than the height just clears the region
+	dy = clamp(dy, -(y2 - y1 + 1), y2-y1+1)
 
 	if dy > 0 {
 		for y := y2; y >= y1+dy; y-- {
diff --git a/screen_grid.go b/screen_grid.go
index d27a8fd..a05b32c 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -583,7 +583,10 @@ func (s *gridScreen) scroll(y1 int, y2 int, dy int) {
 	// }
 	if y1 > y2 {
 		fmt.Fprintln(os.Stderr, "scroll ys out of order", y1, y2, dy)
+		return
 	}
+	// scrolling by more than the height just clears the region
+	dy = clamp(dy, -(y2 - y1 + 1), y2-y1+1)
 
 	if dy > 0 {
 		for y := y2; y >= y1+dy; y-- {
-- 
2.43.0


From 3507626aca508cd29ab29ea7739f6c2e05c2bebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:41 +0000
Subject: [PATCH 15/61] fix: call ScrollLines before rows leave the main screen

The callback was never made, so a frontend could not keep the rows scrolled off
the top.  Property C10.
---
 screen.go      |  3 +++
 screen_grid.go |  3 +++
 terminal.go    | 10 ++++++++--
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/screen.go b/screen.go
index c8220d1..5c1f79a 100644
--- a/screen.go
+++ b/screen.go
@@ -443,6 +443,9 @@ func (s *spanScreen) scroll(y1 int, y2 int, dy int) {
 	}
 	// scrolling by more than the height just clears the region
 	dy = clamp(dy, -(y2 - y1 + 1), y2-y1+1)
+	if y1 == 0 && dy < 0 {
+		s.frontend.ScrollLines(-dy)
+	}
 
 	if dy > 0 {
 		for y := y2; y >= y1+dy; y-- {
diff --git a/screen_grid.go b/screen_grid.go
index a05b32c..83990ac 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -587,6 +587,9 @@ func (s *gridScreen) scroll(y1 int, y2 int, dy int) {
 	}
 	// scrolling by more than the height just clears the region
 	dy = clamp(dy, -(y2 - y1 + 1), y2-y1+1)
+	if y1 == 0 && dy < 0 {
+		s.frontend.ScrollLines(-dy)
+	}
 
 	if dy > 0 {
 		for y := y2; y >= y1+dy; y-- {
diff --git a/terminal.go b/terminal.go
index 245d013..20230f4 100644
--- a/terminal.go
+++ b/terminal.go
@@ -83,7 +83,7 @@ func newTerminal(f Frontend, backend Backend, mode TextReadMode) *terminal {
 	return &terminal{
 		frontend:     f,
 		mainScreen:   newScreen(f),
-		altScreen:    newScreen(f),
+		altScreen:    newScreen(altScreenFrontend{f}),
 		backend:      backend,
 		viewFlags:    make([]bool, viewFlagCount),
 		viewInts:     make([]int, viewIntCount),
@@ -95,9 +95,15 @@ func newTerminal(f Frontend, backend Backend, mode TextReadMode) *terminal {
 func (t *terminal) SetFrontend(f Frontend) {
 	t.frontend = f
 	t.mainScreen.SetFrontend(f)
-	t.altScreen.SetFrontend(f)
+	t.altScreen.SetFrontend(altScreenFrontend{f})
 }
 
+// altScreenFrontend is how the alternate screen sees the frontend: rows that
+// leave it are not scrollback.
+type altScreenFrontend struct{ Frontend }
+
+func (altScreenFrontend) ScrollLines(int) {}
+
 // func NewNoPTY(f Frontend) Terminal {
 // 	return &terminal{
 // 		frontend: f,
-- 
2.43.0


From c0f9fe37126d4a3127c7820c10d97a9585243b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:46 +0000
Subject: [PATCH 16/61] fix: switch screens only when mode 1049 changes

CSI ?1049h on the alternate screen toggled back to the main one.
---
 escapes.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/escapes.go b/escapes.go
index 6c6b438..a7ba76b 100644
--- a/escapes.go
+++ b/escapes.go
@@ -812,7 +812,9 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 					debugPrintf(debugTodo, "TODO: Interpret Meta key = %v\n", value)
 
 				case 1049: // Save/Restore cursor and alternate screen
-					t.switchScreen()
+					if value != t.onAltScreen {
+						t.switchScreen()
+					}
 
 				case 2004: // Bracketed paste
 					t.setViewFlag(VFBracketedPaste, value)
-- 
2.43.0


From 2730338eaa6cbadf76ee0fd1bac363a0285de10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:47 +0000
Subject: [PATCH 17/61] fix: report the cursor after a screen switch

Each screen has its own cursor; the frontend kept the old one's position.
---
 terminal.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/terminal.go b/terminal.go
index 20230f4..56004db 100644
--- a/terminal.go
+++ b/terminal.go
@@ -336,6 +336,8 @@ func (t *terminal) switchScreen() {
 	t.onAltScreen = !t.onAltScreen
 	size := t.screen().Size()
 	t.frontend.RegionChanged(Region{X: 0, Y: 0, X2: size.X, Y2: size.Y}, CRScreenSwitch)
+	pos := t.screen().CursorPos()
+	t.frontend.CursorMoved(pos.X, pos.Y)
 }
 
 // testHandleCommand is only for testing.
-- 
2.43.0


From 4c2c78d1ea989b63f6ea1fc9423cb729352eb06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:49 +0000
Subject: [PATCH 18/61] fix: keep one rendition for both screens

SGR only reached the active screen, so switching brought back an old style
that the frontend was never told about.
---
 escapes.go  | 2 +-
 terminal.go | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/escapes.go b/escapes.go
index a7ba76b..182e8c9 100644
--- a/escapes.go
+++ b/escapes.go
@@ -539,7 +539,7 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 				}
 			}
 
-			t.screen().setStyle(style)
+			t.setStyle(style)
 
 		case 's': // Save cursor pos
 			t.screen().saveCursorPos()
diff --git a/terminal.go b/terminal.go
index 56004db..a762273 100644
--- a/terminal.go
+++ b/terminal.go
@@ -332,6 +332,12 @@ func (t *terminal) WithLock(f func()) {
 	f()
 }
 
+// setStyle sets the rendition, which both screens share.
+func (t *terminal) setStyle(style Style) {
+	t.mainScreen.setStyle(style)
+	t.altScreen.setStyle(style)
+}
+
 func (t *terminal) switchScreen() {
 	t.onAltScreen = !t.onAltScreen
 	size := t.screen().Size()
-- 
2.43.0


From 20dc0dc4cbd75daa32dd0694aed7cf22747a9207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:12 +0000
Subject: [PATCH 19/61] fix: never scroll on a carriage return

With the cursor outside the scroll region CR scrolled the region and moved
the cursor into it.
---
 escapes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escapes.go b/escapes.go
index 182e8c9..0e3fb2c 100644
--- a/escapes.go
+++ b/escapes.go
@@ -159,7 +159,7 @@ func (t *terminal) ptyReadOne(gr *GraphemeReader) error {
 
 	case 13: // CR ^M Carriage Return
 		t.WithLock(func() {
-			t.screen().moveCursor(-t.screen().CursorPos().X, 0, true, true)
+			t.screen().moveCursor(-t.screen().CursorPos().X, 0, false, false)
 		})
 
 	case 27: // ESC ^[ Escape Character
-- 
2.43.0


From 5bfc6180b5c8eaf649ccd50f82180153b3b616e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:13 +0000
Subject: [PATCH 20/61] fix: scroll only when the cursor crosses a margin

An index, line feed or autowrap anywhere outside the scroll region scrolled
it and moved the cursor into it.
---
 screen.go      | 13 +++++++------
 screen_grid.go | 19 +++++++------------
 2 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/screen.go b/screen.go
index 5c1f79a..221655a 100644
--- a/screen.go
+++ b/screen.go
@@ -478,30 +478,31 @@ func (s *spanScreen) moveCursor(dx, dy int, wrap bool, scroll bool) {
 		s.cursorPos.X += dx
 		for s.cursorPos.X < 0 {
 			s.cursorPos.X += s.size.X
-			s.cursorPos.Y--
+			dy--
 		}
 		for s.cursorPos.X >= s.size.X {
 			s.cursorPos.X -= s.size.X
-			s.cursorPos.Y++
+			dy++
 		}
 	} else {
 		s.cursorPos.X += dx
 		s.cursorPos.X = clamp(s.cursorPos.X, 0, s.size.X-1)
 	}
 
+	y := s.cursorPos.Y
 	s.cursorPos.Y += dy
 	if scroll {
-		if s.cursorPos.Y < s.topMargin {
+		// only crossing a margin from inside the scroll region scrolls it
+		if y >= s.topMargin && s.cursorPos.Y < s.topMargin {
 			s.scroll(s.topMargin, s.bottomMargin, s.topMargin-s.cursorPos.Y)
 			s.cursorPos.Y = s.topMargin
 		}
-		if s.cursorPos.Y > s.bottomMargin {
+		if y <= s.bottomMargin && s.cursorPos.Y > s.bottomMargin {
 			s.scroll(s.topMargin, s.bottomMargin, s.bottomMargin-s.cursorPos.Y)
 			s.cursorPos.Y = s.bottomMargin
 		}
-	} else {
-		s.cursorPos.Y = clamp(s.cursorPos.Y, 0, s.size.Y-1)
 	}
+	s.cursorPos.Y = clamp(s.cursorPos.Y, 0, s.size.Y-1)
 	if s.cursorPos.Y >= s.size.Y {
 		panic(fmt.Sprintf("moveCursor outside, %v %v  %v, %v, %v, %v", s.cursorPos, s.size, dx, dy, wrap, scroll))
 	}
diff --git a/screen_grid.go b/screen_grid.go
index 83990ac..6530b4a 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -642,36 +642,31 @@ func (s *gridScreen) moveCursor(dx, dy int, wrap bool, scroll bool) {
 		s.cursorPos.X += dx
 		for s.cursorPos.X < 0 {
 			s.cursorPos.X += s.size.X
-			s.cursorPos.Y--
+			dy--
 		}
 		for s.cursorPos.X >= s.size.X {
 			s.cursorPos.X -= s.size.X
-			s.cursorPos.Y++
+			dy++
 		}
 	} else {
 		s.cursorPos.X += dx
 		s.cursorPos.X = clamp(s.cursorPos.X, 0, s.size.X-1)
 	}
 
+	y := s.cursorPos.Y
 	s.cursorPos.Y += dy
 	if scroll {
-		if s.cursorPos.Y < s.topMargin {
+		// only crossing a margin from inside the scroll region scrolls it
+		if y >= s.topMargin && s.cursorPos.Y < s.topMargin {
 			s.scroll(s.topMargin, s.bottomMargin, s.topMargin-s.cursorPos.Y)
 			s.cursorPos.Y = s.topMargin
 		}
-		if s.cursorPos.Y > s.bottomMargin {
+		if y <= s.bottomMargin && s.cursorPos.Y > s.bottomMargin {
 			s.scroll(s.topMargin, s.bottomMargin, s.bottomMargin-s.cursorPos.Y)
 			s.cursorPos.Y = s.bottomMargin
 		}
-	} else {
-		/*for s.cursorPos.Y < 0 {
-			s.cursorPos.Y += s.size.Y
-		}
-		for s.cursorPos.Y >= s.size.Y {
-			s.cursorPos.Y -= s.size.Y
-		}*/
-		s.cursorPos.Y = clamp(s.cursorPos.Y, 0, s.size.Y-1)
 	}
+	s.cursorPos.Y = clamp(s.cursorPos.Y, 0, s.size.Y-1)
 	if s.cursorPos.Y >= s.size.Y {
 		panic(fmt.Sprintf("moveCursor outside, %v %v  %v, %v, %v, %v", s.cursorPos, s.size, dx, dy, wrap, scroll))
 	}
-- 
2.43.0


From a7608bd7975b5a12f4f7e9890a158c11acd3c635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:55 +0000
Subject: [PATCH 21/61] fix: compare whole styles before reusing a span

Text written over a span that differed only in its modes or in the kind of
colour took on the old attributes.
---
 screen.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/screen.go b/screen.go
index 221655a..00611f4 100644
--- a/screen.go
+++ b/screen.go
@@ -880,12 +880,7 @@ func replaceRange(line *spanLine, x int, n int, insert Span, mode TextReadMode)
 			line.width = totalWidth - n + insert.Width
 			return
 		}
-		// Compare styles
-		spFG, _, _ := sp.Style.GetColor(ComponentFG)
-		insertFG, _, _ := insert.Style.GetColor(ComponentFG)
-		spBG, _, _ := sp.Style.GetColor(ComponentBG)
-		insertBG, _, _ := insert.Style.GetColor(ComponentBG)
-		if insert.Width == n && spFG == insertFG && spBG == insertBG {
+		if insert.Width == n && sp.Style == insert.Style {
 			if sp.Text == "" && insert.Text == "" && sp.Rune == insert.Rune {
 				return
 			}
-- 
2.43.0


From 091db2d598f84799f7be6c7f9eccb85024f05c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:56 +0000
Subject: [PATCH 22/61] fix: do not store zero-width spans

Deleting exactly the cells of a span left an empty span in the row.
---
 screen.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/screen.go b/screen.go
index 00611f4..9e20c37 100644
--- a/screen.go
+++ b/screen.go
@@ -858,7 +858,10 @@ func replaceRange(line *spanLine, x int, n int, insert Span, mode TextReadMode)
 		}
 	}
 	if x == 0 && n >= totalWidth {
-		line.spans = append(line.spans[:0], insert)
+		line.spans = line.spans[:0]
+		if insert.Width > 0 {
+			line.spans = append(line.spans, insert)
+		}
 		line.width = insert.Width
 		return
 	}
@@ -875,7 +878,7 @@ func replaceRange(line *spanLine, x int, n int, insert Span, mode TextReadMode)
 	// Fast paths for in-place replacements inside a single span.
 	if startIdx == endIdx {
 		sp := spans[startIdx]
-		if startOffset == 0 && endOffset == sp.Width {
+		if startOffset == 0 && endOffset == sp.Width && insert.Width > 0 {
 			spans[startIdx] = insert
 			line.width = totalWidth - n + insert.Width
 			return
-- 
2.43.0


From ea72979ceafc034d3b59031835bbfd472c3b8502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:58 +0000
Subject: [PATCH 23/61] fix: index span text by cells when it is not ASCII

A span whose byte count happens to equal its width, such as U+2E3A, was cut
in the middle of a character.
---
 screen.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/screen.go b/screen.go
index 9e20c37..3dca276 100644
--- a/screen.go
+++ b/screen.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"os"
 	"strings"
+	"unicode/utf8"
 )
 
 type screen interface {
@@ -608,6 +609,19 @@ func lineCellWidth(line *spanLine) int {
 	return width
 }
 
+// isCellPerByte reports whether every byte of the span's text is one cell.
+func isCellPerByte(sp Span) bool {
+	if sp.Width != len(sp.Text) {
+		return false
+	}
+	for i := 0; i < len(sp.Text); i++ {
+		if sp.Text[i] >= utf8.RuneSelf {
+			return false
+		}
+	}
+	return true
+}
+
 // splitSpan splits a span at cellOffset. Returns (left, right, brokeWideCluster).
 // brokeWideCluster is not an empty span if the split point falls within a wide grapheme cluster.
 // When brokeWideCluster is not empty, neither left nor right contains the broken cluster.
@@ -628,7 +642,7 @@ func splitSpan(sp Span, cellOffset int, mode TextReadMode) (left Span, right Spa
 		return left, right, Span{}
 	}
 
-	if mode == TextReadModeRune && sp.Width == len(sp.Text) {
+	if mode == TextReadModeRune && isCellPerByte(sp) {
 		// Simple mode where each rune is one cell - can't have wide clusters
 		leftText := sp.Text[:cellOffset]
 		rightText := sp.Text[cellOffset:]
@@ -887,7 +901,7 @@ func replaceRange(line *spanLine, x int, n int, insert Span, mode TextReadMode)
 			if sp.Text == "" && insert.Text == "" && sp.Rune == insert.Rune {
 				return
 			}
-			if sp.Text != "" && insert.Text != "" && mode == TextReadModeRune && sp.Width == len(sp.Text) && insert.Width == len(insert.Text) {
+			if sp.Text != "" && insert.Text != "" && mode == TextReadModeRune && isCellPerByte(sp) && isCellPerByte(insert) {
 				sp.Text = sp.Text[:startOffset] + insert.Text + sp.Text[startOffset+n:]
 				spans[startIdx] = sp
 				line.width = totalWidth
-- 
2.43.0


From f2eb62244cc505e33ea1ecf6abaddf172fccaa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:46 +0000
Subject: [PATCH 24/61] fix: never keep half of a wide character

Erasing, deleting, overwriting or truncating part of a wide character left
a row of the wrong width; the cells that lose their character are now blank
and announced. Text written on the second half still goes behind the
character, with the cursor after it and the row cut at the right edge.
---
 screen.go | 77 ++++++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 71 insertions(+), 6 deletions(-)

diff --git a/screen.go b/screen.go
index 3dca276..a3f491c 100644
--- a/screen.go
+++ b/screen.go
@@ -335,8 +335,10 @@ func (s *spanScreen) writeString(text string, width int, merge bool, mode TextRe
 		}
 	}
 	sp := Span{Style: s.style, Text: text, Width: width}
-	s.rawWriteSpan(s.cursorPos.X, s.cursorPos.Y, sp, CRText)
-	s.moveCursor(width, 0, true, true)
+	x := s.cursorPos.X
+	at := s.insertionColumn(x, s.cursorPos.Y, sp)
+	s.rawWriteSpan(x, s.cursorPos.Y, sp, CRText)
+	s.moveCursor(at-x+width, 0, true, true)
 }
 
 func (s *spanScreen) insertRunes(b []rune) {
@@ -367,8 +369,41 @@ func (s *spanScreen) rawWriteSpan(x int, y int, sp Span, cr ChangeReason) {
 	if y >= s.size.Y || x+sp.Width > s.size.X {
 		panic(fmt.Sprintf("rawWriteSpan out of range: %v  %v,%v,%v %v\n", s.size, x, y, x+sp.Width, sp.Width))
 	}
-	replaceRange(&s.lines[y], x, sp.Width, sp, s.textMode)
-	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x, X2: x + sp.Width}, cr)
+	line := &s.lines[y]
+	if at := s.insertionColumn(x, y, sp); at > x {
+		insertSpan(line, at, sp, s.textMode)
+		resizeLine(line, s.size.X, s.style, s.textMode)
+		s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: at, X2: s.size.X}, cr)
+		return
+	}
+	left, right := s.blankCutWide(y, x, x+sp.Width)
+	replaceRange(line, x, sp.Width, sp, s.textMode)
+	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: left, X2: right}, cr)
+}
+
+// insertionColumn returns the column behind the wide character that text
+// written at column x would cut in two, if the text fits there: it is inserted
+// behind the character instead. Otherwise it returns x.
+func (s *spanScreen) insertionColumn(x int, y int, sp Span) int {
+	if sp.Text == "" {
+		return x
+	}
+	_, end := wideAcross(&s.lines[y], x, s.textMode)
+	if end+sp.Width > s.size.X {
+		return x
+	}
+	return end
+}
+
+// blankCutWide blanks the wide characters that are only partly inside columns
+// [x, x2) of row y, and returns the range extended by those characters.
+func (s *spanScreen) blankCutWide(y, x, x2 int) (int, int) {
+	left, right := x, x2
+	for _, edge := range [2]int{x, x2} {
+		start, end := blankWideAcross(&s.lines[y], edge, s.style, s.textMode)
+		left, right = min(left, start), max(right, end)
+	}
+	return left, right
 }
 
 func (s *spanScreen) rawWriteRune(x int, y int, r rune, width int, cr ChangeReason) {
@@ -386,8 +421,9 @@ func (s *spanScreen) rawWriteRune(x int, y int, r rune, width int, cr ChangeReas
 		sp = Span{Style: s.style, Text: string(r), Width: width}
 	}
 
+	left, right := s.blankCutWide(y, x, x+width)
 	replaceRange(&s.lines[y], x, width, sp, s.textMode)
-	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x, X2: x + width}, cr)
+	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: left, X2: right}, cr)
 }
 
 func (s *spanScreen) deleteChars(x int, y int, n int, cr ChangeReason) {
@@ -406,6 +442,7 @@ func (s *spanScreen) deleteChars(x int, y int, n int, cr ChangeReason) {
 	}
 
 	line := &s.lines[y]
+	left, _ := s.blankCutWide(y, x, x+n)
 	// Delete characters from x to x+n, shift remaining chars left, and append spaces at the end
 	replaceRange(line, x, n, Span{}, s.textMode)
 	// Now append spaces to fill the end to width s.size.X
@@ -415,7 +452,7 @@ func (s *spanScreen) deleteChars(x int, y int, n int, cr ChangeReason) {
 		line.width = s.size.X
 	}
 
-	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x, X2: s.size.X}, cr)
+	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: left, X2: s.size.X}, cr)
 }
 
 func (s *spanScreen) setCursorPos(x, y int) {
@@ -586,6 +623,7 @@ func blankSpanLine(width int, style Style) spanLine {
 func resizeLine(line *spanLine, width int, style Style, mode TextReadMode) {
 	cur := lineCellWidth(line)
 	if cur > width {
+		blankWideAcross(line, width, style, mode)
 		truncateLine(line, width, mode)
 		return
 	}
@@ -717,6 +755,33 @@ func splitSpan(sp Span, cellOffset int, mode TextReadMode) (left Span, right Spa
 	return left, right, Span{}
 }
 
+// wideAcross returns the columns of the wide character that straddles the left
+// edge of column x, or x, x if there is none.
+func wideAcross(line *spanLine, x int, mode TextReadMode) (int, int) {
+	pos := 0
+	for _, sp := range line.spans {
+		if x < pos+sp.Width {
+			left, _, wide := splitSpan(sp, x-pos, mode)
+			if wide.Width == 0 {
+				break
+			}
+			return pos + left.Width, pos + left.Width + wide.Width
+		}
+		pos += sp.Width
+	}
+	return x, x
+}
+
+// blankWideAcross replaces the wide character that straddles the left edge of
+// column x, if there is one, by blanks and returns the columns it occupied.
+func blankWideAcross(line *spanLine, x int, style Style, mode TextReadMode) (int, int) {
+	start, end := wideAcross(line, x, mode)
+	if start < end {
+		replaceRange(line, start, end-start, Span{Style: style, Rune: ' ', Width: end - start}, mode)
+	}
+	return start, end
+}
+
 func byteIndexForCell(text []byte, cellOffset int, mode TextReadMode) (int, int) {
 	if cellOffset <= 0 || len(text) == 0 {
 		return 0, 0
-- 
2.43.0


From 6d20c7fe04e82473665bf70214786018a2545a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:24 +0000
Subject: [PATCH 25/61] fix: break text at the right edge character by
 character

A run that did not fit was wrapped or pinned as a whole, although the part
of it that fits belongs on the row, and it was measured against the screen
before the lock was taken. Without autowrap each character now overwrites
the last column; a character wider than the screen is not shown.
---
 escapes.go |  9 +--------
 screen.go  | 40 +++++++++++++++++++++++++++++++++++++---
 2 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/escapes.go b/escapes.go
index 0e3fb2c..379e05f 100644
--- a/escapes.go
+++ b/escapes.go
@@ -64,14 +64,7 @@ func (t *terminal) ptyReadOne(gr *GraphemeReader) error {
 		writeString(string, int, bool, TextReadMode)
 	})
 	if useBytes {
-		maxWidth := 0
-		if t.screen().AutoWrap() {
-			maxWidth = t.screen().Size().X - t.screen().CursorPos().X
-			if maxWidth < 1 {
-				maxWidth = 1
-			}
-		}
-		data, width, merge, err := gr.ReadPrintableBytes(maxWidth)
+		data, width, merge, err := gr.ReadPrintableBytes(0)
 		if err != nil {
 			if err != io.EOF {
 				debugPrintln(debugErrors, "ERR ReadPrintableBytes:", err)
diff --git a/screen.go b/screen.go
index a3f491c..87616ca 100644
--- a/screen.go
+++ b/screen.go
@@ -321,11 +321,22 @@ func (s *spanScreen) writeString(text string, width int, merge bool, mode TextRe
 		s.mergeIntoPreviousCell(text)
 		return
 	}
-	if width < 1 {
-		width = 1
+	for data := []byte(text); len(data) > 0; {
+		n, width := fitText(data, s.size.X-s.cursorPos.X, mode)
+		if _, end := wideAcross(&s.lines[s.cursorPos.Y], s.cursorPos.X, mode); n == 0 || end > s.cursorPos.X {
+			// at the edge or inside a wide character: one at a time
+			n, width = firstCluster(data, mode)
+		}
+		s.writeCells(string(data[:n]), width)
+		data = data[n:]
 	}
+}
+
+// writeCells writes text that does not have to be broken across rows.
+func (s *spanScreen) writeCells(text string, width int) {
 	if width > s.size.X {
-		width = s.size.X
+		// cannot be shown at all
+		return
 	}
 	if s.cursorPos.X+width > s.size.X {
 		if s.autoWrap {
@@ -341,6 +352,29 @@ func (s *spanScreen) writeString(text string, width int, merge bool, mode TextRe
 	s.moveCursor(at-x+width, 0, true, true)
 }
 
+// firstCluster returns the bytes and cells of the first character of text.
+func firstCluster(text []byte, mode TextReadMode) (n, width int) {
+	_, n, width, _, ok := stepTextCluster(text, -1, mode)
+	if !ok {
+		n = len(text)
+	}
+	return n, max(width, 1)
+}
+
+// fitText returns the bytes and cells of the longest prefix of text made of
+// whole characters that is at most room cells wide.
+func fitText(text []byte, room int, mode TextReadMode) (n, width int) {
+	for n < len(text) {
+		size, w := firstCluster(text[n:], mode)
+		if width+w > room {
+			break
+		}
+		n += size
+		width += w
+	}
+	return n, width
+}
+
 func (s *spanScreen) insertRunes(b []rune) {
 	y := s.cursorPos.Y
 	n := len(b)
-- 
2.43.0


From 8558ce95de2ac879dfd7513940fcdb75ffe778ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:59 +0000
Subject: [PATCH 26/61] fix: bring cursor and margins inside a resized screen

Shrinking could leave the cursor, the saved cursor and the scroll region
outside the screen, and moved the cursor home instead of to the edge.
---
 screen.go      | 26 +++++++++++++++++++-------
 screen_grid.go | 11 +++--------
 2 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/screen.go b/screen.go
index 87616ca..1622286 100644
--- a/screen.go
+++ b/screen.go
@@ -46,6 +46,22 @@ type Pos struct {
 	Y int
 }
 
+// clamp brings p inside a screen of the given size.
+func (p Pos) clamp(w, h int) Pos {
+	return Pos{X: clamp(p.X, 0, w-1), Y: clamp(p.Y, 0, h-1)}
+}
+
+// fitMargins adapts a scroll region to a new screen height: it keeps its
+// distance from both edges, or becomes the whole screen if that is impossible.
+func fitMargins(top, bottom, oldH, h int) (int, int) {
+	top = clamp(top, 0, h-1)
+	bottom = clamp(h-(oldH-bottom), 0, h-1)
+	if top > bottom {
+		return 0, h - 1
+	}
+	return top, bottom
+}
+
 type spanScreen struct {
 	lines    []spanLine
 	frontend Frontend
@@ -275,19 +291,15 @@ func (s *spanScreen) setSize(w, h int) {
 
 	s.lines = newLines
 
-	s.bottomMargin = h - (s.size.Y - s.bottomMargin)
+	s.topMargin, s.bottomMargin = fitMargins(s.topMargin, s.bottomMargin, s.size.Y, h)
 
 	s.size = Pos{X: w, Y: h}
 
 	// Resize buffers
 	s.renderBuffer = make([]rune, w)
 
-	if s.cursorPos.X > w {
-		s.cursorPos.X = 0
-	}
-	if s.cursorPos.Y > h {
-		s.cursorPos.Y = 0
-	}
+	s.cursorPos = s.cursorPos.clamp(w, h)
+	s.savedCursorPos = s.savedCursorPos.clamp(w, h)
 
 	s.setStyle(s.style)
 }
diff --git a/screen_grid.go b/screen_grid.go
index 6530b4a..f2061b0 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -267,17 +267,12 @@ func (s *gridScreen) setSize(w, h int) {
 	}
 	s.cellStyles = styleRect
 
-	s.bottomMargin = h - (s.size.Y - s.bottomMargin)
+	s.topMargin, s.bottomMargin = fitMargins(s.topMargin, s.bottomMargin, s.size.Y, h)
 
 	s.size = Pos{X: w, Y: h}
 
-	// TODO: Logic for cursor position on resize?
-	if s.cursorPos.X > w {
-		s.cursorPos.X = 0
-	}
-	if s.cursorPos.Y > h {
-		s.cursorPos.Y = 0
-	}
+	s.cursorPos = s.cursorPos.clamp(w, h)
+	s.savedCursorPos = s.savedCursorPos.clamp(w, h)
 
 	s.setStyle(s.style)
 }
-- 
2.43.0


From 7856a12578fa68aad95b99864e546a2e38c226f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:00 +0000
Subject: [PATCH 27/61] fix: lock and notify in Resize

Resize raced with the read loop and called the frontend without the lock;
the frontend was not told about the new cells and cursor position.
---
 terminal.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/terminal.go b/terminal.go
index a762273..28fbe1f 100644
--- a/terminal.go
+++ b/terminal.go
@@ -150,8 +150,13 @@ type winsize struct {
 }
 
 func (t *terminal) Resize(w, h int) error {
+	t.Lock()
+	defer t.Unlock()
 	t.mainScreen.setSize(w, h)
 	t.altScreen.setSize(w, h)
+	t.frontend.RegionChanged(Region{X: 0, Y: 0, X2: w, Y2: h}, CRRedraw)
+	pos := t.screen().CursorPos()
+	t.frontend.CursorMoved(pos.X, pos.Y)
 
 	if t.backend == nil {
 		return nil
-- 
2.43.0


From 5ac4a40c8bea3c3c1a21fac78394bcdfc51bd891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:19 +0000
Subject: [PATCH 28/61] fix: release the lock while an escape sequence is
 incomplete

The read loop kept the terminal locked while it waited for the rest of a
sequence, blocking every reader.
---
 escapes.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/escapes.go b/escapes.go
index 379e05f..48f1f39 100644
--- a/escapes.go
+++ b/escapes.go
@@ -158,9 +158,10 @@ func (t *terminal) ptyReadOne(gr *GraphemeReader) error {
 	case 27: // ESC ^[ Escape Character
 
 		t.WithLock(func() {
+			r := unlockedReader{gr, t}
 			if *debugCmd || *debugTodo {
 				var cmdBytes bytes.Buffer
-				cmdReader := &captureReader{r: gr, buf: &cmdBytes}
+				cmdReader := &captureReader{r: r, buf: &cmdBytes}
 				success := t.handleCommand(cmdReader)
 				cmd := cmdBytes.Bytes()
 
@@ -170,7 +171,7 @@ func (t *terminal) ptyReadOne(gr *GraphemeReader) error {
 					debugPrintf(debugTodo, "TODO: Unhandled command: %#v\n", string(cmd))
 				}
 			} else {
-				_ = t.handleCommand(gr)
+				_ = t.handleCommand(r)
 			}
 		})
 
@@ -189,6 +190,20 @@ type escapeReader interface {
 	// Buffered() int
 }
 
+// unlockedReader releases the terminal lock while it waits for input.
+type unlockedReader struct {
+	gr *GraphemeReader
+	t  *terminal
+}
+
+func (u unlockedReader) ReadByte() (byte, error) {
+	if u.gr.Buffered() == 0 {
+		u.t.Unlock()
+		defer u.t.Lock()
+	}
+	return u.gr.ReadByte()
+}
+
 type captureReader struct {
 	r   escapeReader
 	buf *bytes.Buffer
-- 
2.43.0


From d6e4d65039f617b3be53d98890b96b1f1a3a218d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:15 +0000
Subject: [PATCH 29/61] fix: filter mouse events by the tracking mode

Press-only tracking reported motion, and button-motion tracking reported
motion without a button.
---
 terminal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/terminal.go b/terminal.go
index 28fbe1f..60a03db 100644
--- a/terminal.go
+++ b/terminal.go
@@ -243,7 +243,7 @@ func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y i
 	case MMNone:
 		return nil
 	case MMPress:
-		if !press {
+		if !press || mods&MMotion != 0 {
 			return nil
 		}
 	case MMPressRelease:
@@ -251,7 +251,7 @@ func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y i
 			return nil
 		}
 	case MMPressReleaseMove:
-		if byte(mods)&mWhichBtn == byte(MRelease) {
+		if mods&MMotion != 0 && byte(btn)&mWhichBtn == byte(MRelease) {
 			return nil
 		}
 	case MMPressReleaseMoveAll:
-- 
2.43.0


From 48b38c5dcb85e69ece742cb3239330a48bc2123b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:16 +0000
Subject: [PATCH 30/61] fix: send X10 mouse reports as single bytes

Values of 128 and above were encoded as UTF-8, and a write error caused a
panic.
---
 terminal.go | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/terminal.go b/terminal.go
index 60a03db..8136a37 100644
--- a/terminal.go
+++ b/terminal.go
@@ -265,18 +265,11 @@ func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y i
 			btnByte |= byte(MRelease)
 		}
 
-		if 32+x > 255 {
-			x = 255 - 32
-		}
-		if 32+y > 255 {
-			y = 255 - 32
-		}
+		x = clamp(x, 1, 255-32)
+		y = clamp(y, 1, 255-32)
 
-		mouseCmd := []byte("\033[M" + string(32+btnByte) + string(byte(32+x)) + string(byte(32+y)))
+		mouseCmd := []byte{27, '[', 'M', 32 + btnByte, byte(32 + x), byte(32 + y)}
 		_, err := t.Write(mouseCmd)
-		if err != nil {
-			panic(fmt.Sprintf("error %v", err))
-		}
 		return err
 
 	case MEUTF8:
@@ -285,7 +278,7 @@ func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y i
 			btnByte |= byte(MRelease)
 		}
 
-		_, err := t.Write([]byte("\033[M" + string(32+btnByte) + string(rune(32+x)) + string(rune(32+y))))
+		_, err := t.Write([]byte("\033[M" + string(rune(32+btnByte)) + string(rune(32+x)) + string(rune(32+y))))
 		return err
 
 	case MESGR:
-- 
2.43.0


From 9af90651a8baff7bf678681f8b3b75201e970e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:17 +0000
Subject: [PATCH 31/61] fix: read the input modes under the lock

SendKey and SendMouseRaw raced with the read loop.
---
 keys.go     | 2 ++
 terminal.go | 8 ++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/keys.go b/keys.go
index a30d8e9..03ee984 100644
--- a/keys.go
+++ b/keys.go
@@ -185,7 +185,9 @@ type KeyEvent struct {
 }
 
 func (t *terminal) SendKey(ev KeyEvent) (int, error) {
+	t.Lock()
 	seq := t.encodeKey(ev)
+	t.Unlock()
 	if len(seq) == 0 {
 		return 0, nil
 	}
diff --git a/terminal.go b/terminal.go
index 8136a37..fd059dc 100644
--- a/terminal.go
+++ b/terminal.go
@@ -239,7 +239,12 @@ const (
 // x and y should start at 1
 // wheel events should use btn1 for wheel up, btn2 for wheel down, true for press, and M_wheel for mods
 func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y int) error {
-	switch t.viewInts[VIMouseMode] {
+	t.Lock()
+	mouseMode := t.viewInts[VIMouseMode]
+	mouseEncoding := t.viewInts[VIMouseEncoding]
+	t.Unlock()
+
+	switch mouseMode {
 	case MMNone:
 		return nil
 	case MMPress:
@@ -257,7 +262,6 @@ func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y i
 	case MMPressReleaseMoveAll:
 	}
 
-	mouseEncoding := t.viewInts[VIMouseEncoding]
 	switch mouseEncoding {
 	case MEX10:
 		btnByte := (byte(btn) & mWhichBtn) | byte(mods)
-- 
2.43.0


From 36d176aace7c97605212b85a63de2900f20c0af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:38 +0000
Subject: [PATCH 32/61] fix: show invalid UTF-8 bytes as U+FFFD

Stored as they are, such bytes could join others in neighbouring cells and
turn a row into text of a different width.
---
 grapheme_reader.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/grapheme_reader.go b/grapheme_reader.go
index ff06e11..2a8d7e9 100644
--- a/grapheme_reader.go
+++ b/grapheme_reader.go
@@ -150,7 +150,7 @@ func (r *GraphemeReader) ReadPrintableBytes(maxWidth int) (string, int, bool, er
 	if r.start == runStart {
 		return "", 0, false, nil
 	}
-	out := string(r.data[runStart:r.start])
+	out := string(validText(r.data[runStart:r.start]))
 	return out, widthUsed, mergeRun, nil
 }
 
@@ -208,7 +208,7 @@ func (r *GraphemeReader) ReadPrintableTokensInto(maxWidth int, dst []GraphemeTok
 		if maxWidth > 0 && widthUsed+tokenWidth > maxWidth && len(out) > 0 {
 			return out, nil
 		}
-		tokenBytes := append([]byte(nil), cluster...)
+		tokenBytes := append([]byte(nil), validText(cluster)...)
 		out = append(out, GraphemeToken{Bytes: tokenBytes, Width: width, Merge: merge})
 		widthUsed += tokenWidth
 		r.start += consumed
@@ -244,6 +244,15 @@ func (r *GraphemeReader) fill() error {
 	return err
 }
 
+// validText replaces each byte of b that is not valid UTF-8 by U+FFFD, so that
+// stray bytes cannot form a character where they end up.
+func validText(b []byte) []byte {
+	if utf8.Valid(b) {
+		return b
+	}
+	return []byte(string([]rune(string(b))))
+}
+
 func isPrintableByte(b byte) bool {
 	return b >= 32 && b != 127
 }
-- 
2.43.0


From e3517016e18e1d383454b4399eff0fec82fc8a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:21 +0000
Subject: [PATCH 33/61] fix: count the whole row when replacing a range of
 cells

replaceRange took the end of the range for the end of the row, so that
replacing a prefix of the row that ended at a span boundary dropped
everything behind it.
---
 screen.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/screen.go b/screen.go
index 1622286..493140a 100644
--- a/screen.go
+++ b/screen.go
@@ -970,8 +970,11 @@ func replaceRange(line *spanLine, x int, n int, insert Span, mode TextReadMode)
 		pos = endPos
 	}
 
-	// Clamp to total width (tracked by pos after the scan).
+	// Clamp to total width (tracked by pos after the scan, which may have ended early).
 	totalWidth := pos
+	for i++; i < len(spans); i++ {
+		totalWidth += spans[i].Width
+	}
 	if x > totalWidth {
 		x = totalWidth
 	}
-- 
2.43.0


From 41f025415c6e287294753bdfa93a4e6ec27befcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:17 +0000
Subject: [PATCH 34/61] fix: a split in front of a wide character does not
 break it

splitSpan reported a wide character as broken when the split fell exactly
on its left edge, so writing next to it inserted a stray blank.
---
 screen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/screen.go b/screen.go
index 493140a..d078cdf 100644
--- a/screen.go
+++ b/screen.go
@@ -755,7 +755,7 @@ func splitSpan(sp Span, cellOffset int, mode TextReadMode) (left Span, right Spa
 		}
 
 		clusterEnd := cellPos + width
-		if cellOffset >= cellPos && cellOffset < clusterEnd {
+		if cellOffset > cellPos && cellOffset < clusterEnd {
 			// Split point is within this cluster
 			if width > 1 {
 				// We're breaking a wide cluster - return the wide char we're splitting
-- 
2.43.0


From cb700678964ea2a755943836001e887703247f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:50 +0000
Subject: [PATCH 35/61] fix: grid buffer: never keep half a wide character

Overwriting, erasing, deleting or resizing across one half of a wide
character left the other half behind, or restyled a neighbour; the whole
character is blanked now and the blanked cells are announced.
---
 screen_grid.go | 84 +++++++++++++++++++++-----------------------------
 1 file changed, 35 insertions(+), 49 deletions(-)

diff --git a/screen_grid.go b/screen_grid.go
index f2061b0..189c0ca 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -206,6 +206,10 @@ func (s *gridScreen) setSize(w, h int) {
 		minH = prevH
 	}
 
+	for y := 0; y < minH && w < prevW; y++ {
+		s.blankCutWide(y, w, prevW)
+	}
+
 	rect := make([][]rune, h)
 	raw := make([]rune, w*h)
 	for i := range rect {
@@ -400,21 +404,19 @@ func (s *gridScreen) rawWriteRunes(x int, y int, b []rune, cr ChangeReason) {
 	if y >= s.size.Y || x+len(b) > s.size.X {
 		panic(fmt.Sprintf("rawWriteBytes out of range: %v  %v,%v,%v %v %#v, %v,%v\n", s.size, x, y, x+len(b), len(b), string(b), len(s.chars), len(s.chars[0])))
 	}
+	left, right := s.blankCutWide(y, x, x+len(b))
 	textRow := s.cellText[y]
 	widthRow := s.cellWidth[y]
 	contRow := s.cellCont[y]
 	for i, r := range b {
 		idx := x + i
-		if contRow[idx] {
-			s.clearWideAt(y, idx)
-		}
 		s.chars[y][idx] = r
 		textRow[idx] = string(r)
 		widthRow[idx] = 1
 		contRow[idx] = false
 	}
 	s.rawWriteStyles(y, x, x+len(b))
-	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x, X2: x + len(b)}, cr)
+	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: left, X2: right}, cr)
 }
 
 func (s *gridScreen) rawWriteRune(x int, y int, r rune, width int, cr ChangeReason) {
@@ -424,14 +426,7 @@ func (s *gridScreen) rawWriteRune(x int, y int, r rune, width int, cr ChangeReas
 	if y >= s.size.Y || x+width > s.size.X {
 		panic(fmt.Sprintf("rawWriteRune out of range: %v  %v,%v,%v %v %#v\n", s.size, x, y, x+width, width, string(r)))
 	}
-	if s.cellCont[y][x] {
-		s.clearWideAt(y, x)
-	}
-
-	prevWidth := int(s.cellWidth[y][x])
-	if prevWidth < 1 {
-		prevWidth = 1
-	}
+	left, right := s.blankCutWide(y, x, x+width)
 
 	s.chars[y][x] = r
 	s.cellText[y][x] = string(r)
@@ -444,45 +439,35 @@ func (s *gridScreen) rawWriteRune(x int, y int, r rune, width int, cr ChangeReas
 		s.cellWidth[y][idx] = 0
 		s.cellCont[y][idx] = true
 	}
-	for i := width; i < prevWidth; i++ {
-		idx := x + i
-		if idx >= s.size.X {
-			break
-		}
-		s.chars[y][idx] = ' '
-		s.cellText[y][idx] = " "
-		s.cellWidth[y][idx] = 1
-		s.cellCont[y][idx] = false
-	}
-	end := x + width
-	if prevWidth > width {
-		end = x + prevWidth
-	}
-	if end > s.size.X {
-		end = s.size.X
-	}
-	s.rawWriteStyles(y, x, end)
-	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x, X2: end}, cr)
+	s.rawWriteStyles(y, x, x+width)
+	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: left, X2: right}, cr)
 }
 
-func (s *gridScreen) clearWideAt(y int, x int) {
-	base := x
-	for base > 0 && s.cellCont[y][base] {
-		base--
-	}
-	width := int(s.cellWidth[y][base])
-	if width <= 1 {
-		return
-	}
-	end := min(base+width, s.size.X)
-	for i := base; i < end; i++ {
-		s.chars[y][i] = ' '
-		s.cellText[y][i] = " "
-		s.cellWidth[y][i] = 1
-		s.cellCont[y][i] = false
+// blankCutWide blanks the wide characters that are only partly inside columns
+// [x, x2) of row y, and returns the range extended by those characters.
+func (s *gridScreen) blankCutWide(y, x, x2 int) (int, int) {
+	left, right := x, x2
+	for _, edge := range [2]int{x, x2} {
+		if edge <= 0 || edge >= s.size.X || !s.cellCont[y][edge] {
+			continue
+		}
+		start, end := edge, edge
+		for start > 0 && s.cellCont[y][start] {
+			start--
+		}
+		for end < s.size.X && s.cellCont[y][end] {
+			end++
+		}
+		for i := start; i < end; i++ {
+			s.chars[y][i] = ' '
+			s.cellText[y][i] = " "
+			s.cellWidth[y][i] = 1
+			s.cellCont[y][i] = false
+		}
+		s.rawWriteStyles(y, start, end)
+		left, right = min(left, start), max(right, end)
 	}
-	s.rawWriteStyles(y, base, end)
-	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: base, X2: end}, CRClear)
+	return left, right
 }
 
 func runeCellWidth(r rune) int {
@@ -520,6 +505,7 @@ func (s *gridScreen) deleteChars(x int, y int, n int, cr ChangeReason) {
 		n = s.size.X - x
 	}
 
+	left, _ := s.blankCutWide(y, x, x+n)
 	line := s.chars[y]
 	copy(line[x:], line[x+n:])
 	textLine := s.cellText[y]
@@ -539,7 +525,7 @@ func (s *gridScreen) deleteChars(x int, y int, n int, cr ChangeReason) {
 	copy(styleLine[x:], styleLine[x+n:])
 	s.rawWriteStyles(y, s.size.X-n, s.size.X)
 
-	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x, X2: s.size.X}, cr)
+	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: left, X2: s.size.X}, cr)
 }
 
 // func (s *gridScreen) advanceLine(auto bool) {
-- 
2.43.0


From fe28d468f54fcd05a1c0e3c4f3c184cd2d9cf386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:13 +0000
Subject: [PATCH 36/61] fix: grid buffer: store a character in the cells of its
 width

Characters of several runes were spread over one cell per rune, and a
character wider than the screen was cut to fit.
---
 screen_grid.go | 82 +++++++++++++++++---------------------------------
 1 file changed, 27 insertions(+), 55 deletions(-)

diff --git a/screen_grid.go b/screen_grid.go
index 189c0ca..d7286d1 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -298,19 +298,7 @@ func (s *gridScreen) eraseRegion(r Region, cr ChangeReason) {
 // the bytes are printable bytes
 func (s *gridScreen) writeRunes(b []rune) {
 	for _, r := range b {
-		width := runeCellWidth(r)
-		if width > s.size.X {
-			width = s.size.X
-		}
-		if s.cursorPos.X+width > s.size.X {
-			if s.autoWrap {
-				s.moveCursor(-s.cursorPos.X, 1, false, true)
-			} else {
-				s.cursorPos.X = s.size.X - width
-			}
-		}
-		s.rawWriteRune(s.cursorPos.X, s.cursorPos.Y, r, width, CRText)
-		s.moveCursor(width, 0, true, true)
+		s.writeCell(string(r), runeCellWidth(r))
 	}
 }
 
@@ -324,47 +312,26 @@ func (s *gridScreen) writeTokens(tokens []GraphemeToken) {
 			s.mergeIntoPreviousCell(text)
 			continue
 		}
-		if utf8.RuneCountInString(text) == 1 {
-			r, _ := utf8.DecodeRuneInString(text)
-			width := tok.Width
-			if width < 1 {
-				width = 1
-			}
-			if width > s.size.X {
-				width = s.size.X
-			}
-			if s.cursorPos.X+width > s.size.X {
-				if s.autoWrap {
-					s.moveCursor(-s.cursorPos.X, 1, false, true)
-				} else {
-					s.cursorPos.X = s.size.X - width
-				}
-			}
-			s.rawWriteRune(s.cursorPos.X, s.cursorPos.Y, r, width, CRText)
-			s.moveCursor(width, 0, true, true)
-			continue
-		}
-		for len(text) > 0 {
-			r, size := utf8.DecodeRuneInString(text)
-			if size == 0 || r == utf8.RuneError && size == 1 {
-				break
-			}
-			text = text[size:]
-			width := runeCellWidth(r)
-			if width > s.size.X {
-				width = s.size.X
-			}
-			if s.cursorPos.X+width > s.size.X {
-				if s.autoWrap {
-					s.moveCursor(-s.cursorPos.X, 1, false, true)
-				} else {
-					s.cursorPos.X = s.size.X - width
-				}
-			}
-			s.rawWriteRune(s.cursorPos.X, s.cursorPos.Y, r, width, CRText)
-			s.moveCursor(width, 0, true, true)
+		s.writeCell(text, tok.Width)
+	}
+}
+
+// writeCell writes one character at the cursor and moves behind it.
+func (s *gridScreen) writeCell(text string, width int) {
+	width = max(width, 1)
+	if width > s.size.X {
+		// cannot be shown at all
+		return
+	}
+	if s.cursorPos.X+width > s.size.X {
+		if s.autoWrap {
+			s.moveCursor(-s.cursorPos.X, 1, false, true)
+		} else {
+			s.cursorPos.X = s.size.X - width
 		}
 	}
+	s.rawWriteCell(s.cursorPos.X, s.cursorPos.Y, text, width, CRText)
+	s.moveCursor(width, 0, true, true)
 }
 
 func (s *gridScreen) mergeIntoPreviousCell(text string) {
@@ -420,16 +387,21 @@ func (s *gridScreen) rawWriteRunes(x int, y int, b []rune, cr ChangeReason) {
 }
 
 func (s *gridScreen) rawWriteRune(x int, y int, r rune, width int, cr ChangeReason) {
+	s.rawWriteCell(x, y, string(r), width, cr)
+}
+
+// rawWriteCell writes one character, which may consist of several runes.
+func (s *gridScreen) rawWriteCell(x int, y int, text string, width int, cr ChangeReason) {
 	if width < 1 {
 		width = 1
 	}
 	if y >= s.size.Y || x+width > s.size.X {
-		panic(fmt.Sprintf("rawWriteRune out of range: %v  %v,%v,%v %v %#v\n", s.size, x, y, x+width, width, string(r)))
+		panic(fmt.Sprintf("rawWriteCell out of range: %v  %v,%v,%v %v %#v\n", s.size, x, y, x+width, width, text))
 	}
 	left, right := s.blankCutWide(y, x, x+width)
 
-	s.chars[y][x] = r
-	s.cellText[y][x] = string(r)
+	s.chars[y][x], _ = utf8.DecodeRuneInString(text)
+	s.cellText[y][x] = text
 	s.cellWidth[y][x] = uint8(width)
 	s.cellCont[y][x] = false
 	for i := 1; i < width; i++ {
-- 
2.43.0


From 6858d66453085217dfef583e7e38388a123ead90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:54 +0000
Subject: [PATCH 37/61] fix: grid buffer: Line returns the text of the row

Line drew the second half of a wide character as a space and dropped
combining marks, unlike StyledLine.
---
 screen_grid.go | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/screen_grid.go b/screen_grid.go
index d7286d1..869c68b 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -78,17 +78,7 @@ func (s *gridScreen) getLine(y int) []rune {
 }
 
 func (s *gridScreen) Line(y int) string {
-	line := s.chars[y]
-	// Convert null bytes (wide character continuation markers) to spaces
-	result := make([]rune, len(line))
-	for i, r := range line {
-		if r == 0 {
-			result[i] = ' '
-		} else {
-			result[i] = r
-		}
-	}
-	return string(result)
+	return strings.Join(s.cellText[y], "")
 }
 
 func (s *gridScreen) StyledLine(x, w, y int) Line {
-- 
2.43.0


From 14d5cef991d4155d6b989420416446f547c0355c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:12 +0000
Subject: [PATCH 38/61] fix: grid buffer: build rows from whole characters

StyledLine dropped the second rune of repeated clusters and returned spans
wider or narrower than their text when the range cut a wide character;
renderLineANSI dropped combining marks.
---
 screen_grid.go | 109 ++++++++++++++++++-------------------------------
 1 file changed, 40 insertions(+), 69 deletions(-)

diff --git a/screen_grid.go b/screen_grid.go
index 869c68b..4b12882 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -73,76 +73,57 @@ func (s *gridScreen) SetFrontend(f Frontend) {
 	s.frontend = f
 }
 
-func (s *gridScreen) getLine(y int) []rune {
-	return s.chars[y]
-}
-
 func (s *gridScreen) Line(y int) string {
 	return strings.Join(s.cellText[y], "")
 }
 
 func (s *gridScreen) StyledLine(x, w, y int) Line {
-	text := s.getLine(y)
-	styles := s.cellStyles[y]
-	cellText := s.cellText[y]
-
-	var spans []Span
-
-	if w < 0 || x+w > len(styles) {
-		w = len(styles) - x
+	if w < 0 || x+w > s.size.X {
+		w = s.size.X - x
 	}
 
+	var spans []Span
+	prev := ""
 	for i := x; i < x+w; {
-		style := styles[i]
-		width := 0
-		start := i
-
-		// Find run of identical styles
-		for i < x+w && styles[i] == style {
-			width++
-			i++
+		text, width := s.cellText[y][i], max(int(s.cellWidth[y][i]), 1)
+		if s.cellCont[y][i] || i+width > x+w {
+			// only part of a wide character is in range
+			text, width = " ", 1
 		}
+		spans = appendCell(spans, s.cellStyles[y][i], prev, text, width)
+		prev = text
+		i += width
+	}
+	return Line{
+		Spans: spans,
+		Width: w,
+	}
+}
 
-		// For this run, check if we can represent it as a single repeat or simple text
-		// We have text[start:start+width] and cellText[start:start+width]
-
-		// Optimization: check if all runes are same and simple (width 1)
-		firstRune := text[start]
-		isRepeat := true
-		for k := 0; k < width; k++ {
-			idx := start + k
-			if text[idx] != firstRune || s.cellWidth[y][idx] != 1 || s.cellCont[y][idx] {
-				isRepeat = false
-				break
-			}
+// appendCell adds a character that follows the character prev to spans.
+// Characters that would combine with each other are kept in separate spans.
+func appendCell(spans []Span, style Style, prev, text string, width int) []Span {
+	r, size := utf8.DecodeRuneInString(text)
+	simple := width == 1 && size == len(text)
+	if len(spans) > 0 && spans[len(spans)-1].Style == style {
+		last := &spans[len(spans)-1]
+		if last.Text == "" && simple && r == last.Rune {
+			last.Width++
+			return spans
 		}
-
-		if isRepeat {
-			spans = append(spans, Span{Style: style, Rune: firstRune, Width: width})
-		} else {
-			// Construct text for span
-			var sb strings.Builder
-			spanWidth := 0
-			for k := 0; k < width; k++ {
-				idx := start + k
-				if s.cellCont[y][idx] {
-					// continuation cell, don't add text, it's part of previous
-					spanWidth++ // visual width increases
-					continue
-				}
-				// It's a start of a char
-				// If visual width is > 1, next cells will be cont.
-				sb.WriteString(cellText[idx])
-				spanWidth++
+		if n, _ := firstCluster([]byte(prev+text), TextReadModeGrapheme); n <= len(prev) {
+			if last.Text == "" {
+				last.Text, last.Rune = strings.Repeat(string(last.Rune), last.Width), 0
 			}
-
-			spans = append(spans, Span{Style: style, Text: sb.String(), Width: spanWidth})
+			last.Text += text
+			last.Width += width
+			return spans
 		}
 	}
-	return Line{
-		Spans: spans,
-		Width: w,
+	if simple {
+		return append(spans, Span{Style: style, Rune: r, Width: 1})
 	}
+	return append(spans, Span{Style: style, Text: text, Width: width})
 }
 
 func (s *gridScreen) StyledLines(r Region) []Line {
@@ -154,20 +135,10 @@ func (s *gridScreen) StyledLines(r Region) []Line {
 }
 
 func (s *gridScreen) renderLineANSI(y int) string {
-	line := s.getLine(y)
-	styles := s.cellStyles[y]
-	buf := bytes.NewBuffer(make([]byte, 0, len(line)+10))
-	x := 0
-	for x < len(line) {
-		currentStyle := styles[x]
-		buf.Write(currentStyle.ANSIEscape())
-
-		for x < len(line) && styles[x] == currentStyle {
-			if line[x] != 0 {
-				buf.WriteRune(line[x])
-			}
-			x++
-		}
+	buf := bytes.NewBuffer(make([]byte, 0, s.size.X+10))
+	for _, sp := range s.StyledLine(0, s.size.X, y).Spans {
+		buf.Write(sp.Style.ANSIEscape())
+		buf.WriteString(Line{Spans: []Span{sp}}.PlainTextString())
 	}
 	return buf.String()
 }
-- 
2.43.0


From e4bfd6f0a46a00bf634b71feb7b373d0b567724b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:32 +0000
Subject: [PATCH 39/61] fix: StyledLine: show the visible part of a cut wide
 character as blanks

A range that starts or ends inside a wide character lost its cells.
---
 screen.go | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/screen.go b/screen.go
index d078cdf..fcaa321 100644
--- a/screen.go
+++ b/screen.go
@@ -209,23 +209,7 @@ func (s *spanScreen) StyledLine(x, w, y int) Line {
 		width := endO - startO
 
 		if width > 0 {
-			// Offset relative to span start
-			offset := startO - pos
-
-			// If we need the whole span
-			if offset == 0 && width == sp.Width {
-				spans = append(spans, sp)
-			} else {
-				// We need a sub-span
-				_, sub, _ := splitSpan(sp, offset, s.textMode) // skip left part
-				// now sub is from offset to end. we might need to truncate it if it's too long
-				if sub.Width > width {
-					keep, _, _ := splitSpan(sub, width, s.textMode)
-					spans = append(spans, keep)
-				} else {
-					spans = append(spans, sub)
-				}
-			}
+			spans = appendSpanCells(spans, sp, startO-pos, endO-pos, s.textMode)
 		}
 
 		pos = endPos
@@ -237,6 +221,28 @@ func (s *spanScreen) StyledLine(x, w, y int) Line {
 	}
 }
 
+// appendSpanCells adds cells [from, to) of sp to spans. A wide character that is
+// only partly in the range is shown as blanks.
+func appendSpanCells(spans []Span, sp Span, from, to int, mode TextReadMode) []Span {
+	left, mid, cut := splitSpan(sp, from, mode)
+	if cut.Width > 0 {
+		n := min(left.Width+cut.Width, to) - from
+		spans = append(spans, Span{Style: sp.Style, Rune: ' ', Width: n})
+		from += n
+	}
+	if from == to {
+		return spans
+	}
+	mid, _, cut = splitSpan(mid, to-from, mode)
+	if mid.Width > 0 {
+		spans = append(spans, mid)
+	}
+	if cut.Width > 0 {
+		spans = append(spans, Span{Style: sp.Style, Rune: ' ', Width: to - from - mid.Width})
+	}
+	return spans
+}
+
 func (s *spanScreen) StyledLines(r Region) []Line {
 	var lines []Line
 	for y := r.Y; y < r.Y2; y++ {
-- 
2.43.0


From 53fe4805876f92f62c6affcefb499d1f917eb224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:10 +0000
Subject: [PATCH 40/61] fix: an empty read is not the end of the input

A backend read that returned no bytes and no error while the buffer held an
incomplete character ended the read loop with EOF.
---
 grapheme_reader.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/grapheme_reader.go b/grapheme_reader.go
index 2a8d7e9..bbfa439 100644
--- a/grapheme_reader.go
+++ b/grapheme_reader.go
@@ -237,11 +237,15 @@ func (r *GraphemeReader) fill() error {
 		copy(newBuf, r.data[:r.end])
 		r.data = newBuf
 	}
-	n, err := r.src.Read(r.data[r.end:])
-	if n > 0 {
-		r.end += n
+	for {
+		n, err := r.src.Read(r.data[r.end:])
+		if n > 0 {
+			r.end += n
+		}
+		if n > 0 || err != nil {
+			return err
+		}
 	}
-	return err
 }
 
 // validText replaces each byte of b that is not valid UTF-8 by U+FFFD, so that
-- 
2.43.0


From 84827e71b11924a26d71527f5f1ce071eebd8c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:56 +0000
Subject: [PATCH 41/61] fix: grapheme reader: forget the previous text at
 control bytes

The segmenter state described the character that followed in the buffer
when it was computed; it is stale after a control byte or a refill, which
glued unrelated characters together. Pairs of regional indicators no longer
count as half a pair, merge fragments are returned on their own so that they
reach the cell in front of them, and every character is at least one cell.
---
 grapheme_reader.go | 45 ++++++++++++++++-----------------------------
 1 file changed, 16 insertions(+), 29 deletions(-)

diff --git a/grapheme_reader.go b/grapheme_reader.go
index bbfa439..f42c67f 100644
--- a/grapheme_reader.go
+++ b/grapheme_reader.go
@@ -64,6 +64,10 @@ func (r *GraphemeReader) ReadByte() (byte, error) {
 	}
 	b := r.data[r.start]
 	r.start++
+	// whatever follows starts a new character
+	r.state = -1
+	r.forceMergeNext = false
+	r.lastWasRI = false
 	return b, nil
 }
 
@@ -125,7 +129,7 @@ func (r *GraphemeReader) ReadPrintableBytes(maxWidth int) (string, int, bool, er
 			}
 			break
 		}
-		if mergeRun && !merge {
+		if merge && r.start > runStart {
 			break
 		}
 
@@ -142,8 +146,9 @@ func (r *GraphemeReader) ReadPrintableBytes(maxWidth int) (string, int, bool, er
 		r.forceMergeNext = nextForceMergeNext
 		r.lastWasRI = nextLastWasRI
 		widthUsed += tokenWidth
-		if merge && widthUsed == 0 {
+		if merge {
 			mergeRun = true
+			break
 		}
 	}
 
@@ -237,6 +242,8 @@ func (r *GraphemeReader) fill() error {
 		copy(newBuf, r.data[:r.end])
 		r.data = newBuf
 	}
+	// the segmenter has to look at the next character again
+	r.state = -1
 	for {
 		n, err := r.src.Read(r.data[r.end:])
 		if n > 0 {
@@ -292,7 +299,7 @@ func stepGraphemeCluster(buf []byte, state int) ([]byte, int, int, int, bool) {
 	if cluster == nil {
 		return nil, 0, 0, state, false
 	}
-	width := boundaries >> uniseg.ShiftWidth
+	width := max(boundaries>>uniseg.ShiftWidth, 1)
 	consumed := len(buf) - len(rest)
 	return cluster, consumed, width, newState, true
 }
@@ -317,32 +324,12 @@ func nextGraphemeTokenInfo(buf []byte, state int, forceMergeNext bool, lastWasRI
 	if !ok {
 		return nil, 0, 0, false, state, forceMergeNext, lastWasRI, false
 	}
-	merge := false
-	nextForceMergeNext := forceMergeNext
-	nextLastWasRI := lastWasRI
-
-	if nextForceMergeNext {
-		merge = true
-		nextForceMergeNext = false
-	}
-
-	switch {
-	case isCombiningOnly(cluster):
-		merge = true
-	case isZWJOnly(cluster):
-		merge = true
-		nextForceMergeNext = true
-	case isVariationSelectorOnly(cluster):
-		merge = true
-	case isRegionalIndicator(cluster):
-		if nextLastWasRI {
-			merge = true
-			nextLastWasRI = false
-		} else {
-			nextLastWasRI = true
-		}
-	default:
-		nextLastWasRI = false
+	merge := forceMergeNext || isCombiningOnly(cluster) || isZWJOnly(cluster) || isVariationSelectorOnly(cluster)
+	nextForceMergeNext := isZWJOnly(cluster)
+	nextLastWasRI := false
+	if isRegionalIndicator(cluster) && utf8.RuneCount(cluster) == 1 {
+		merge = merge || lastWasRI
+		nextLastWasRI = !merge
 	}
 
 	if merge {
-- 
2.43.0


From 0d34cc270d394d2e42040f530484ac283a63c741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:57 +0000
Subject: [PATCH 42/61] fix: merge only what makes up one character with its
 cell

A fragment was appended to the cell left of the cursor whatever it was: the
cell could end up holding several characters or more columns than it has, the
span buffer split or extended the wrong span, and the grid buffer announced
nothing.
---
 screen.go      | 61 ++++++++++++++++++++++++--------------------------
 screen_grid.go | 23 ++++++++++++++-----
 2 files changed, 46 insertions(+), 38 deletions(-)

diff --git a/screen.go b/screen.go
index fcaa321..bca40c3 100644
--- a/screen.go
+++ b/screen.go
@@ -335,8 +335,7 @@ func (s *spanScreen) writeString(text string, width int, merge bool, mode TextRe
 		return
 	}
 	s.textMode = mode
-	if merge {
-		s.mergeIntoPreviousCell(text)
+	if merge && (s.mergeIntoPreviousCell(text) || isExtender(text)) {
 		return
 	}
 	for data := []byte(text); len(data) > 0; {
@@ -1164,46 +1163,44 @@ func truncateLine(line *spanLine, width int, mode TextReadMode) {
 	replaceRange(line, width, lineCellWidth(line)-width, Span{}, mode)
 }
 
-func (s *spanScreen) mergeIntoPreviousCell(text string) {
+// mergeIntoPreviousCell adds text to the character left of the cursor, if the
+// two make up a single character of the same width.
+func (s *spanScreen) mergeIntoPreviousCell(text string) bool {
 	if s.cursorPos.X <= 0 {
-		return
+		return false
 	}
 	y := s.cursorPos.Y
 	line := &s.lines[y]
-	cell := s.cursorPos.X - 1
-
-	// Find the span at cell position
-	idx, offset := findSpanAtX(line, cell)
+	start, _ := wideAcross(line, s.cursorPos.X-1, s.textMode)
+	idx, offset := findSpanAtX(line, start)
 	if idx >= len(line.spans) {
-		return
+		return false
 	}
 
-	sp := &line.spans[idx]
-
-	// If we're at an offset within the span, we need to split it first
-	if offset > 0 {
-		left, right, _ := splitSpan(*sp, offset, s.textMode)
-
-		// Update spans: replace current span with left and right
-		newSpans := make([]Span, 0, len(line.spans)+1)
-		newSpans = append(newSpans, line.spans[:idx]...)
-		newSpans = append(newSpans, left, right)
-		newSpans = append(newSpans, line.spans[idx+1:]...)
-		line.spans = newSpans
-
-		// Now the cell we want to merge into is at idx+1
-		idx++
+	sp := line.spans[idx]
+	prev, width := string(sp.Rune), 1
+	if sp.Text != "" {
+		_, right, _ := splitSpan(sp, offset, s.textMode)
+		n, w := firstCluster([]byte(right.Text), s.textMode)
+		prev, width = right.Text[:n], w
 	}
-
-	// Convert repeat to text if needed and merge
-	sp = &line.spans[idx]
-	if sp.Text == "" {
-		sp.Text = strings.Repeat(string(sp.Rune), sp.Width)
+	if !isSingleCluster(prev+text, width) {
+		return false
 	}
-	sp.Text += text
-	// Width doesn't change for merge
+	replaceRange(line, start, width, Span{Style: sp.Style, Text: prev + text, Width: width}, s.textMode)
+	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: start, X2: start + width}, CRText)
+	return true
+}
+
+// isSingleCluster reports whether text is one grapheme cluster of the given width.
+func isSingleCluster(text string, width int) bool {
+	n, w := firstCluster([]byte(text), TextReadModeGrapheme)
+	return n == len(text) && w == width
+}
 
-	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: cell, X2: cell + 1}, CRText)
+// isExtender reports whether text can only modify another character.
+func isExtender(text string) bool {
+	return isCombiningOnly([]byte(text)) || isZWJOnly([]byte(text)) || isVariationSelectorOnly([]byte(text))
 }
 
 func max(a, b int) int {
diff --git a/screen_grid.go b/screen_grid.go
index 4b12882..0a2bcfb 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -269,11 +269,14 @@ func (s *gridScreen) writeTokens(tokens []GraphemeToken) {
 		if len(text) == 0 {
 			continue
 		}
+		width := tok.Width
 		if tok.Merge {
-			s.mergeIntoPreviousCell(text)
-			continue
+			if s.mergeIntoPreviousCell(text) || isExtender(text) {
+				continue
+			}
+			_, width = firstCluster(tok.Bytes, TextReadModeGrapheme)
 		}
-		s.writeCell(text, tok.Width)
+		s.writeCell(text, width)
 	}
 }
 
@@ -295,16 +298,24 @@ func (s *gridScreen) writeCell(text string, width int) {
 	s.moveCursor(width, 0, true, true)
 }
 
-func (s *gridScreen) mergeIntoPreviousCell(text string) {
-	if len(text) == 0 || s.cursorPos.X <= 0 {
-		return
+// mergeIntoPreviousCell adds text to the character left of the cursor, if the
+// two make up a single character of the same width.
+func (s *gridScreen) mergeIntoPreviousCell(text string) bool {
+	if s.cursorPos.X <= 0 {
+		return false
 	}
 	y := s.cursorPos.Y
 	x := s.cursorPos.X - 1
 	for x > 0 && s.cellCont[y][x] {
 		x--
 	}
+	width := int(s.cellWidth[y][x])
+	if !isSingleCluster(s.cellText[y][x]+text, width) {
+		return false
+	}
 	s.cellText[y][x] += text
+	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x, X2: x + width}, CRText)
+	return true
 }
 
 // This is like writeRunes, but it moves existing runes to the right
-- 
2.43.0


From cfec5fc774302fc57cd60e4fa95fa65bd3cd9ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:12 +0000
Subject: [PATCH 43/61] fix: grid: blanking no cells cuts no character

An erase of zero columns in the middle of a wide character blanked that character in the cell-grid buffer.
---
 screen_grid.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/screen_grid.go b/screen_grid.go
index 0a2bcfb..655b84e 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -391,6 +391,9 @@ func (s *gridScreen) rawWriteCell(x int, y int, text string, width int, cr Chang
 // [x, x2) of row y, and returns the range extended by those characters.
 func (s *gridScreen) blankCutWide(y, x, x2 int) (int, int) {
 	left, right := x, x2
+	if x >= x2 {
+		return left, right
+	}
 	for _, edge := range [2]int{x, x2} {
 		if edge <= 0 || edge >= s.size.X || !s.cellCont[y][edge] {
 			continue
-- 
2.43.0


From 69cc95ace1aa7470be33d3d2af522abd623af109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:42 +0000
Subject: [PATCH 44/61] fix: grid: a repeated character that combines with
 itself starts a new span

StyledLine ran equal neighbouring cells together even when their text is
one grapheme cluster, so the span's text no longer had the span's width.
---
 screen_grid.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/screen_grid.go b/screen_grid.go
index 655b84e..bff9150 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -107,11 +107,11 @@ func appendCell(spans []Span, style Style, prev, text string, width int) []Span
 	simple := width == 1 && size == len(text)
 	if len(spans) > 0 && spans[len(spans)-1].Style == style {
 		last := &spans[len(spans)-1]
-		if last.Text == "" && simple && r == last.Rune {
-			last.Width++
-			return spans
-		}
 		if n, _ := firstCluster([]byte(prev+text), TextReadModeGrapheme); n <= len(prev) {
+			if last.Text == "" && simple && r == last.Rune {
+				last.Width++
+				return spans
+			}
 			if last.Text == "" {
 				last.Text, last.Rune = strings.Repeat(string(last.Rune), last.Width), 0
 			}
-- 
2.43.0


From 6f362bf0c27063463f04c650e8dc49adad11172c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:00 +0000
Subject: [PATCH 45/61] fix: key releases send nothing unless they are reported
 as such

Without event reporting, and for the keys whose events are not reported
(text, Enter, Tab and Backspace without report-all-keys), releasing a key
sent the same bytes as pressing it.
---
 keys.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/keys.go b/keys.go
index 03ee984..3954232 100644
--- a/keys.go
+++ b/keys.go
@@ -201,6 +201,10 @@ func (t *terminal) encodeKey(ev KeyEvent) []byte {
 			return seq
 		}
 	}
+	if ev.Event == KeyRelease {
+		// only escape codes can tell a release from a press
+		return nil
+	}
 	return t.encodeLegacyKey(ev)
 }
 
@@ -274,6 +278,9 @@ func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
 }
 
 func (t *terminal) encodeKittyKey(ev KeyEvent, flags int) []byte {
+	if ev.Event == KeyRelease && flags&int(KbdReportEvents) == 0 {
+		return nil
+	}
 	if isKeypadKey(ev.Code) && flags&int(KbdDisambiguate) == 0 {
 		if mapped, ok := keypadEquivalent(ev); ok {
 			return t.encodeKittyKey(mapped, flags)
-- 
2.43.0


From 20bcb60be77c722ec29c47e0a13ac67feb124f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:02 +0000
Subject: [PATCH 46/61] fix: modifier keys are reported only with
 report-all-keys

Pressing Shift or Control alone sent a CSI u sequence to every application.
---
 keys.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/keys.go b/keys.go
index 3954232..b2b911d 100644
--- a/keys.go
+++ b/keys.go
@@ -196,6 +196,9 @@ func (t *terminal) SendKey(ev KeyEvent) (int, error) {
 
 func (t *terminal) encodeKey(ev KeyEvent) []byte {
 	flags := t.keyboardFlags()
+	if isModifierKey(ev.Code) && flags&int(KbdReportAllKeys) == 0 {
+		return nil
+	}
 	if flags != 0 {
 		if seq := t.encodeKittyKey(ev, flags); seq != nil {
 			return seq
@@ -377,6 +380,17 @@ func (t *terminal) encodeKittyRune(ev KeyEvent, flags int) []byte {
 	return nil
 }
 
+// isModifierKey reports whether code is a modifier, whose own events are only
+// of interest when all keys are reported.
+func isModifierKey(code KeyCode) bool {
+	switch code {
+	case KeyCapsLock, KeyScrollLock, KeyNumLock:
+		return true
+	default:
+		return code >= KeyLeftShift && code <= KeyISOLevel5Shift
+	}
+}
+
 func isKeypadKey(code KeyCode) bool {
 	switch code {
 	case KeyKP0, KeyKP1, KeyKP2, KeyKP3, KeyKP4, KeyKP5, KeyKP6, KeyKP7, KeyKP8, KeyKP9,
-- 
2.43.0


From 14b6eadfcc8f069c05be730acdb205037bdd9941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:04 +0000
Subject: [PATCH 47/61] fix: legacy key sequences carry super, hyper and meta
 but no lock modifiers

With caps lock or num lock on, cursor and function keys were sent as
modified keys (CSI 1;1 A), and super, hyper and meta were dropped.
---
 keys.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/keys.go b/keys.go
index b2b911d..40b98d9 100644
--- a/keys.go
+++ b/keys.go
@@ -212,6 +212,8 @@ func (t *terminal) encodeKey(ev KeyEvent) []byte {
 }
 
 func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
+	// there is no encoding for lock keys
+	ev.Mod &^= ModCapsLock | ModNumLock
 	if isKeypadKey(ev.Code) {
 		if mapped, ok := keypadEquivalent(ev); ok {
 			return t.encodeLegacyKey(mapped)
@@ -857,6 +859,15 @@ func xtermModParam(mod KeyMod) int {
 	if mod&ModCtrl != 0 {
 		param += 4
 	}
+	if mod&ModSuper != 0 {
+		param += 8
+	}
+	if mod&ModHyper != 0 {
+		param += 16
+	}
+	if mod&ModMeta != 0 {
+		param += 32
+	}
 	return param
 }
 
-- 
2.43.0


From c2308e72e3750757e2bbb217c249916aa56fda75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:05 +0000
Subject: [PATCH 48/61] fix: map all of Ctrl's ASCII keys

Ctrl with space, slash, tilde and the digits 2 to 8 sent the plain character
instead of the control code the key table of the protocol lists.
---
 keys.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/keys.go b/keys.go
index 40b98d9..a865500 100644
--- a/keys.go
+++ b/keys.go
@@ -886,19 +886,19 @@ func ctrlByte(r rune) (byte, bool) {
 		return byte(r - 'A' + 1), true
 	}
 	switch r {
-	case '@':
+	case ' ', '@', '2':
 		return 0, true
-	case '[':
+	case '[', '3':
 		return 27, true
-	case '\\':
+	case '\\', '4':
 		return 28, true
-	case ']':
+	case ']', '5':
 		return 29, true
-	case '^':
+	case '^', '~', '6':
 		return 30, true
-	case '_':
+	case '_', '/', '7':
 		return 31, true
-	case '?':
+	case '?', '8':
 		return 127, true
 	default:
 		return 0, false
-- 
2.43.0


From ddf13fa019f9b16288f2c7302ef3c42369519d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:07 +0000
Subject: [PATCH 49/61] fix: modified Backspace, Tab and Escape follow the C0
 table

Ctrl+Backspace is BS, Shift+Tab with other modifiers keeps its CSI Z, and
Alt+Escape has its ESC prefix.
---
 keys.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/keys.go b/keys.go
index a865500..4d14380 100644
--- a/keys.go
+++ b/keys.go
@@ -698,10 +698,14 @@ func (t *terminal) encodeBackspaceKey(mod KeyMod) []byte {
 	if t.viewInts[VIModifyOtherKeys] > 0 {
 		return encodeModifyOtherKeys(127, mod)
 	}
+	b := byte(0x7f)
+	if mod&ModCtrl != 0 {
+		b = 8
+	}
 	if mod&ModAlt != 0 {
-		return []byte{0x1b, 0x7f}
+		return []byte{0x1b, b}
 	}
-	return []byte{0x7f}
+	return []byte{b}
 }
 
 func (t *terminal) encodeTabKey(mod KeyMod) []byte {
@@ -714,10 +718,14 @@ func (t *terminal) encodeTabKey(mod KeyMod) []byte {
 	if t.viewInts[VIModifyOtherKeys] > 0 {
 		return encodeModifyOtherKeys(9, mod)
 	}
+	out := []byte{'\t'}
+	if mod&ModShift != 0 {
+		out = []byte{0x1b, '[', 'Z'}
+	}
 	if mod&ModAlt != 0 {
-		return []byte{0x1b, '\t'}
+		return append([]byte{0x1b}, out...)
 	}
-	return []byte{'\t'}
+	return out
 }
 
 func (t *terminal) encodeEnterKey(mod KeyMod) []byte {
@@ -740,6 +748,9 @@ func (t *terminal) encodeEscapeKey(mod KeyMod) []byte {
 	if t.viewInts[VIModifyOtherKeys] > 0 {
 		return encodeModifyOtherKeys(27, mod)
 	}
+	if mod&ModAlt != 0 {
+		return []byte{0x1b, 0x1b}
+	}
 	return []byte{0x1b}
 }
 
-- 
2.43.0


From 0186339707be5494f41453a864f94ec78957173c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:09 +0000
Subject: [PATCH 50/61] fix: F3 is never sent as a cursor position report

CSI R and CSI 1;m R cannot be told from the answer to CSI 6 n.
---
 keys.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/keys.go b/keys.go
index 4d14380..7c5ca96 100644
--- a/keys.go
+++ b/keys.go
@@ -255,6 +255,10 @@ func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
 	case KeyF2:
 		return encodeFunctionKey('Q', ev.Mod)
 	case KeyF3:
+		if ev.Mod != 0 {
+			// CSI R is a cursor position report
+			return encodeTildeKey(13, ev.Mod)
+		}
 		return encodeFunctionKey('R', ev.Mod)
 	case KeyF4:
 		return encodeFunctionKey('S', ev.Mod)
@@ -320,7 +324,8 @@ func (t *terminal) encodeKittyKey(ev KeyEvent, flags int) []byte {
 	case KeyF2:
 		return kittyCSI1('Q', modField)
 	case KeyF3:
-		return kittyCSI1('R', modField)
+		// CSI R is a cursor position report
+		return kittyCSITilde(13, modField)
 	case KeyF4:
 		return kittyCSI1('S', modField)
 	case KeyF5:
-- 
2.43.0


From 23437cf3407d1fb748f1cc327fe158cfc1a9774c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:10 +0000
Subject: [PATCH 51/61] fix: Menu and KP_BEGIN use the sequences of the key
 tables

Menu is CSI 29 ~ without enhancements, KP_BEGIN is CSI 1 E when disambiguated.
---
 keys.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/keys.go b/keys.go
index 7c5ca96..7a5f85e 100644
--- a/keys.go
+++ b/keys.go
@@ -278,6 +278,8 @@ func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
 		return encodeTildeKey(23, ev.Mod)
 	case KeyF12:
 		return encodeTildeKey(24, ev.Mod)
+	case KeyMenu:
+		return encodeTildeKey(29, ev.Mod)
 	default:
 		if code, ok := kittyFunctionalCode(ev.Code); ok {
 			return kittyCSIu(kittyKeyField(code, ev, 0), kittyModField(ev.Mod, ev.Event, 0), "")
@@ -344,6 +346,8 @@ func (t *terminal) encodeKittyKey(ev KeyEvent, flags int) []byte {
 		return kittyCSITilde(23, modField)
 	case KeyF12:
 		return kittyCSITilde(24, modField)
+	case KeyKPBegin:
+		return kittyCSI1('E', modField)
 	case KeyEscape:
 		if flags&int(KbdReportAllKeys) != 0 || flags&int(KbdDisambiguate) != 0 {
 			return kittyCSIu(kittyKeyField(27, ev, flags), modField, kittyTextField(ev, flags))
-- 
2.43.0


From 43b0d1c82109ca85b6d81d8c5da41d6831d2b9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:12 +0000
Subject: [PATCH 52/61] fix: modifyOtherKeys leaves shifted text, level 1
 controls and Kitty mode alone

Shift+A is text in xterm at every level, and level 1 keeps Ctrl+C as a
control character. With Kitty flags set, keys that keep their legacy bytes
must not turn into modifyOtherKeys sequences.
---
 keys.go | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/keys.go b/keys.go
index 7a5f85e..501ea52 100644
--- a/keys.go
+++ b/keys.go
@@ -662,7 +662,7 @@ func (t *terminal) encodeRuneKey(r rune, mod KeyMod) []byte {
 	if r == 0 {
 		return nil
 	}
-	if t.viewInts[VIModifyOtherKeys] > 0 && mod != 0 {
+	if t.modifiesRune(r, mod) {
 		return encodeModifyOtherKeys(int(r), mod)
 	}
 	if mod&ModCtrl != 0 {
@@ -680,6 +680,27 @@ func (t *terminal) encodeRuneKey(r rune, mod KeyMod) []byte {
 	return out
 }
 
+// modifyOtherKeys returns the level of modifyOtherKeys, which has no effect
+// while the application uses the Kitty protocol.
+func (t *terminal) modifyOtherKeys() int {
+	if t.keyboardFlags() != 0 {
+		return 0
+	}
+	return t.viewInts[VIModifyOtherKeys]
+}
+
+// modifiesRune reports whether a modified text key is sent as a
+// modifyOtherKeys sequence. Shifted text is just text, and level 1 keeps the
+// control characters.
+func (t *terminal) modifiesRune(r rune, mod KeyMod) bool {
+	level := t.modifyOtherKeys()
+	if level <= 0 || mod == 0 || mod == ModShift && (r != ' ' || level == 1) {
+		return false
+	}
+	_, isControl := ctrlByte(r)
+	return level > 1 || mod != ModCtrl || !isControl
+}
+
 func (t *terminal) encodeCursorKey(final byte, mod KeyMod) []byte {
 	if mod == 0 && t.viewFlags[VFAppCursorKeys] {
 		return []byte{0x1b, 'O', final}
@@ -704,7 +725,7 @@ func (t *terminal) encodeBackspaceKey(mod KeyMod) []byte {
 	if mod == 0 {
 		return []byte{0x7f}
 	}
-	if t.viewInts[VIModifyOtherKeys] > 0 {
+	if t.modifyOtherKeys() > 0 {
 		return encodeModifyOtherKeys(127, mod)
 	}
 	b := byte(0x7f)
@@ -724,7 +745,7 @@ func (t *terminal) encodeTabKey(mod KeyMod) []byte {
 	if mod == ModShift {
 		return []byte{0x1b, '[', 'Z'}
 	}
-	if t.viewInts[VIModifyOtherKeys] > 0 {
+	if t.modifyOtherKeys() > 0 {
 		return encodeModifyOtherKeys(9, mod)
 	}
 	out := []byte{'\t'}
@@ -741,7 +762,7 @@ func (t *terminal) encodeEnterKey(mod KeyMod) []byte {
 	if mod == 0 {
 		return []byte{'\r'}
 	}
-	if t.viewInts[VIModifyOtherKeys] > 0 {
+	if t.modifyOtherKeys() > 0 {
 		return encodeModifyOtherKeys(13, mod)
 	}
 	if mod&ModAlt != 0 {
@@ -754,7 +775,7 @@ func (t *terminal) encodeEscapeKey(mod KeyMod) []byte {
 	if mod == 0 {
 		return []byte{0x1b}
 	}
-	if t.viewInts[VIModifyOtherKeys] > 0 {
+	if t.modifyOtherKeys() > 0 {
 		return encodeModifyOtherKeys(27, mod)
 	}
 	if mod&ModAlt != 0 {
-- 
2.43.0


From bf29553474bc0852745e4f4b50d89b9b7f7cd186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:08 +0000
Subject: [PATCH 53/61] fix: the text of a key event is the text the key
 produces

Shifted keys produce their shifted character, Ctrl+A and key releases
produce none, and control characters are not text.
---
 keys.go | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/keys.go b/keys.go
index 501ea52..453970d 100644
--- a/keys.go
+++ b/keys.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"strconv"
 	"strings"
+	"unicode"
 )
 
 // KeyMod is a bitmask of active modifier keys.
@@ -212,6 +213,7 @@ func (t *terminal) encodeKey(ev KeyEvent) []byte {
 }
 
 func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
+	text := textRune(ev)
 	// there is no encoding for lock keys
 	ev.Mod &^= ModCapsLock | ModNumLock
 	if isKeypadKey(ev.Code) {
@@ -221,7 +223,7 @@ func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
 	}
 	switch ev.Code {
 	case KeyRune:
-		return t.encodeRuneKey(ev.Rune, ev.Mod)
+		return t.encodeRuneKey(text, ev.Mod)
 	case KeyUp:
 		return t.encodeCursorKey('A', ev.Mod)
 	case KeyDown:
@@ -376,6 +378,9 @@ func (t *terminal) encodeKittyKey(ev KeyEvent, flags int) []byte {
 	}
 }
 
+// textBlockingMods are the modifiers with which a key does not produce text.
+const textBlockingMods = ModAlt | ModCtrl | ModSuper | ModHyper | ModMeta
+
 func (t *terminal) encodeKittyRune(ev KeyEvent, flags int) []byte {
 	if ev.Rune == 0 {
 		return nil
@@ -384,7 +389,7 @@ func (t *terminal) encodeKittyRune(ev KeyEvent, flags int) []byte {
 		return kittyCSIu(kittyKeyField(int(ev.Rune), ev, flags), kittyModField(ev.Mod, ev.Event, flags), kittyTextField(ev, flags))
 	}
 	if flags&int(KbdDisambiguate) != 0 {
-		if ev.Mod&(ModAlt|ModCtrl|ModSuper|ModHyper|ModMeta) != 0 {
+		if ev.Mod&textBlockingMods != 0 {
 			return kittyCSIu(kittyKeyField(int(ev.Rune), ev, flags), kittyModField(ev.Mod, ev.Event, flags), "")
 		}
 	}
@@ -658,6 +663,19 @@ func kittyFunctionalCode(code KeyCode) (int, bool) {
 	}
 }
 
+// textRune returns the character a text key stands for in its shift state.
+func textRune(ev KeyEvent) rune {
+	switch {
+	case ev.Mod&ModShift == 0:
+		return ev.Rune
+	case ev.Shifted != 0:
+		return ev.Shifted
+	case ev.Mod&ModCapsLock == 0:
+		return unicode.ToUpper(ev.Rune)
+	}
+	return ev.Rune
+}
+
 func (t *terminal) encodeRuneKey(r rune, mod KeyMod) []byte {
 	if r == 0 {
 		return nil
@@ -848,14 +866,14 @@ func kittyTextField(ev KeyEvent, flags int) string {
 		return ""
 	}
 	text := ev.Text
-	if len(text) == 0 && ev.Code == KeyRune && ev.Rune != 0 {
-		text = []rune{ev.Rune}
-	}
-	if len(text) == 0 {
-		return ""
+	if len(text) == 0 && ev.Code == KeyRune && ev.Rune != 0 && ev.Mod&textBlockingMods == 0 && ev.Event != KeyRelease {
+		text = []rune{textRune(ev)}
 	}
 	parts := make([]string, 0, len(text))
 	for _, r := range text {
+		if unicode.IsControl(r) {
+			continue
+		}
 		parts = append(parts, strconv.Itoa(int(r)))
 	}
 	return strings.Join(parts, ":")
-- 
2.43.0


From 49e48dcc0c3bba6659bbd9cf696b3431649855d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:10 +0000
Subject: [PATCH 54/61] fix: Kitty text keys use the unshifted code and no lock
 modifiers

Ctrl+Shift+A is CSI 97;6 u and must not be CSI 65;6 u; lock modifiers of
text keys are reported only with report-all-keys.
---
 keys.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/keys.go b/keys.go
index 453970d..019b941 100644
--- a/keys.go
+++ b/keys.go
@@ -385,12 +385,16 @@ func (t *terminal) encodeKittyRune(ev KeyEvent, flags int) []byte {
 	if ev.Rune == 0 {
 		return nil
 	}
+	code := ev.Rune
+	if l := unicode.ToLower(code); unicode.ToUpper(l) == code {
+		code = l
+	}
 	if flags&int(KbdReportAllKeys) != 0 {
-		return kittyCSIu(kittyKeyField(int(ev.Rune), ev, flags), kittyModField(ev.Mod, ev.Event, flags), kittyTextField(ev, flags))
+		return kittyCSIu(kittyKeyField(int(code), ev, flags), kittyModField(ev.Mod, ev.Event, flags), kittyTextField(ev, flags))
 	}
 	if flags&int(KbdDisambiguate) != 0 {
 		if ev.Mod&textBlockingMods != 0 {
-			return kittyCSIu(kittyKeyField(int(ev.Rune), ev, flags), kittyModField(ev.Mod, ev.Event, flags), "")
+			return kittyCSIu(kittyKeyField(int(code), ev, flags), kittyModField(ev.Mod&^(ModCapsLock|ModNumLock), ev.Event, flags), "")
 		}
 	}
 	return nil
-- 
2.43.0


From f11c83edc93cc6dbe027e88369e238ab93f7ad77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:12 +0000
Subject: [PATCH 55/61] fix: keypad keys: report-all-keys implies
 disambiguation, text stays text

Keypad keys had their own codes only with the disambiguate flag, which also
turned keypad digits typed as text into escape codes.
---
 keys.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/keys.go b/keys.go
index 019b941..6f79a37 100644
--- a/keys.go
+++ b/keys.go
@@ -294,10 +294,14 @@ func (t *terminal) encodeKittyKey(ev KeyEvent, flags int) []byte {
 	if ev.Event == KeyRelease && flags&int(KbdReportEvents) == 0 {
 		return nil
 	}
-	if isKeypadKey(ev.Code) && flags&int(KbdDisambiguate) == 0 {
-		if mapped, ok := keypadEquivalent(ev); ok {
+	if mapped, ok := keypadEquivalent(ev); ok && flags&int(KbdReportAllKeys) == 0 {
+		isText := mapped.Code == KeyRune && ev.Code != KeyKPBegin
+		if flags&int(KbdDisambiguate) == 0 || isText && ev.Mod&textBlockingMods == 0 {
 			return t.encodeKittyKey(mapped, flags)
 		}
+		if isText {
+			ev.Mod &^= ModCapsLock | ModNumLock
+		}
 	}
 	modField := kittyModField(ev.Mod, ev.Event, flags)
 	switch ev.Code {
-- 
2.43.0


From a528dc5079ff5086d0bc7ab8198d813e3e39a607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:14 +0000
Subject: [PATCH 56/61] fix: report repeat and release of keys that have no
 text

With event reporting alone, releasing Escape or Ctrl+A was not reported and
repeating them looked like pressing them again.
---
 keys.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/keys.go b/keys.go
index 6f79a37..5aefbdb 100644
--- a/keys.go
+++ b/keys.go
@@ -355,7 +355,7 @@ func (t *terminal) encodeKittyKey(ev KeyEvent, flags int) []byte {
 	case KeyKPBegin:
 		return kittyCSI1('E', modField)
 	case KeyEscape:
-		if flags&int(KbdReportAllKeys) != 0 || flags&int(KbdDisambiguate) != 0 {
+		if flags&int(KbdReportAllKeys) != 0 || flags&int(KbdDisambiguate) != 0 || reportsEvent(ev, flags) {
 			return kittyCSIu(kittyKeyField(27, ev, flags), modField, kittyTextField(ev, flags))
 		}
 		return nil
@@ -382,6 +382,12 @@ func (t *terminal) encodeKittyKey(ev KeyEvent, flags int) []byte {
 	}
 }
 
+// reportsEvent reports whether the type of the event, a repeat or release, has
+// to be reported.
+func reportsEvent(ev KeyEvent, flags int) bool {
+	return flags&int(KbdReportEvents) != 0 && normalizeEventType(ev.Event) != KeyPress
+}
+
 // textBlockingMods are the modifiers with which a key does not produce text.
 const textBlockingMods = ModAlt | ModCtrl | ModSuper | ModHyper | ModMeta
 
@@ -396,7 +402,7 @@ func (t *terminal) encodeKittyRune(ev KeyEvent, flags int) []byte {
 	if flags&int(KbdReportAllKeys) != 0 {
 		return kittyCSIu(kittyKeyField(int(code), ev, flags), kittyModField(ev.Mod, ev.Event, flags), kittyTextField(ev, flags))
 	}
-	if flags&int(KbdDisambiguate) != 0 {
+	if flags&int(KbdDisambiguate) != 0 || reportsEvent(ev, flags) {
 		if ev.Mod&textBlockingMods != 0 {
 			return kittyCSIu(kittyKeyField(int(code), ev, flags), kittyModField(ev.Mod&^(ModCapsLock|ModNumLock), ev.Event, flags), "")
 		}
@@ -833,9 +839,8 @@ func kittyModParam(mod KeyMod) int {
 }
 
 func kittyModField(mod KeyMod, event KeyEventType, flags int) string {
-	event = normalizeEventType(event)
 	modParam := kittyModParam(mod)
-	if flags&int(KbdReportEvents) != 0 && event != KeyPress {
+	if reportsEvent(KeyEvent{Event: event}, flags) {
 		return fmt.Sprintf("%d:%d", modParam, event)
 	}
 	if mod == 0 {
-- 
2.43.0


From dd0ec3ed84d510f0d5d76a50c6f6acfdfc5e2d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 57/61] fix: a detached TTYFrontend writes nothing

Cursor movements and visibility changes hid the outer cursor although
nothing was attached.
---
 tty_frontend.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tty_frontend.go b/tty_frontend.go
index b31ba12..8856c5d 100644
--- a/tty_frontend.go
+++ b/tty_frontend.go
@@ -168,10 +168,10 @@ func (t *TTYFrontend) renderRegionLocked(r Region) {
 }
 
 func (t *TTYFrontend) renderCursorLocked() {
-	if t.term == nil || t.out == nil {
+	if !t.attached || t.term == nil || t.out == nil {
 		return
 	}
-	if !t.attached || !t.showCur || !t.focused {
+	if !t.showCur || !t.focused {
 		_, _ = t.out.Write([]byte(ansiCursorHide))
 		return
 	}
-- 
2.43.0


From a0cb909e6ce2510ddc68656db4741c390679ce8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:02 +0000
Subject: [PATCH 58/61] fix: Attach keeps the application's cursor visibility

An application that had hidden its cursor got a visible one on Attach.
---
 tty_frontend.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/tty_frontend.go b/tty_frontend.go
index 8856c5d..d4b87ee 100644
--- a/tty_frontend.go
+++ b/tty_frontend.go
@@ -53,9 +53,6 @@ func (t *TTYFrontend) Attach(r Region) {
 
 	t.region = r
 	t.attached = true
-	if !t.showCur {
-		t.showCur = true
-	}
 
 	if t.term == nil {
 		return
-- 
2.43.0


From 2e0a12671c1bc0b67193f060010c4e12aba3bb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:03 +0000
Subject: [PATCH 59/61] fix: Attach to a region off the screen places the
 cursor

Nothing was drawn, and the outer cursor stayed visible where it was.
---
 tty_frontend.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tty_frontend.go b/tty_frontend.go
index d4b87ee..342ff81 100644
--- a/tty_frontend.go
+++ b/tty_frontend.go
@@ -145,6 +145,7 @@ func (t *TTYFrontend) renderRegionLocked(r Region) {
 	w, h := t.term.Size()
 	r = clampRegion(r, w, h)
 	if r.Empty() {
+		t.renderCursorLocked()
 		return
 	}
 
-- 
2.43.0


From 2d4c29ed3f9dc1aef8a7eb58f86db08a8843f175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:09 +0000
Subject: [PATCH 60/61] fix: Attach takes the terminal lock before its own

Callbacks take them in that order; Attach took them in the other, and the
two deadlocked.
---
 tty_frontend.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tty_frontend.go b/tty_frontend.go
index 342ff81..fb0f101 100644
--- a/tty_frontend.go
+++ b/tty_frontend.go
@@ -49,16 +49,19 @@ func (t *TTYFrontend) SetTerminal(term Terminal) {
 // Attach starts updating the provided region.
 func (t *TTYFrontend) Attach(r Region) {
 	t.mu.Lock()
-	defer t.mu.Unlock()
-
 	t.region = r
 	t.attached = true
+	term := t.term
+	t.mu.Unlock()
 
-	if t.term == nil {
+	if term == nil {
 		return
 	}
 
-	t.term.WithLock(func() {
+	// As in the callbacks, the terminal lock is taken before ours.
+	term.WithLock(func() {
+		t.mu.Lock()
+		defer t.mu.Unlock()
 		t.renderRegionLocked(t.region)
 	})
 }
-- 
2.43.0


From 002887891e4ee83f5381eb1846bc211fed73e673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 61/61] fix: Detach and Blur write under the frontend's lock

Their output could race with what the read loop was drawing.
---
 tty_frontend.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/tty_frontend.go b/tty_frontend.go
index fb0f101..cf0c7c4 100644
--- a/tty_frontend.go
+++ b/tty_frontend.go
@@ -69,11 +69,10 @@ func (t *TTYFrontend) Attach(r Region) {
 // Detach stops updating the attached region.
 func (t *TTYFrontend) Detach() {
 	t.mu.Lock()
+	defer t.mu.Unlock()
 	t.attached = false
-	out := t.out
-	t.mu.Unlock()
-	if out != nil {
-		_, _ = out.Write([]byte(ansiCursorShow))
+	if t.out != nil {
+		_, _ = t.out.Write([]byte(ansiCursorShow))
 	}
 }
 
@@ -88,11 +87,10 @@ func (t *TTYFrontend) Focus() {
 // Blur disables cursor updates and restores cursor visibility.
 func (t *TTYFrontend) Blur() {
 	t.mu.Lock()
+	defer t.mu.Unlock()
 	t.focused = false
-	out := t.out
-	t.mu.Unlock()
-	if out != nil {
-		_, _ = out.Write([]byte(ansiCursorShow))
+	if t.out != nil {
+		_, _ = t.out.Write([]byte(ansiCursorShow))
 	}
 }
 
-- 
2.43.0

