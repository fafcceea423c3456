From fac134333ecdb8e6c5fa469da1ae2e26ce19a4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 01/10] fix: parsing does not write to the caller's input

Lowercasing the percent-encoded digits was done in place in the input and
reverted afterwards: concurrent parses of one buffer raced (and could yield
wrong normal forms), and input in write-protected memory faulted.
---
 machine.go    | 64 +++++++++++++++------------------------------------
 machine.go.rl | 20 ++++++++--------
 2 files changed, 30 insertions(+), 54 deletions(-)

diff --git a/machine.go b/machine.go
index aec1ba6..424aebc 100644
--- a/machine.go
+++ b/machine.go
@@ -134,6 +134,15 @@ func (m *machine) text() []byte {
 	return m.data[m.pb:m.p]
 }
 
+// lowered returns the current text with the upper letters at the given positions lowered.
+func (m *machine) lowered(positions []int) string {
+	text := append([]byte(nil), m.text()...)
+	for _, i := range positions {
+		text[i] = text[i] + 32
+	}
+	return string(text)
+}
+
 // Parse parses the input byte array as a RFC 2141 or RFC7643 string.
 func (m *machine) Parse(input []byte) (*URN, error) {
 	m.data = input
@@ -4170,15 +4179,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 	f38:
 
 		output.SS = string(m.text())
-		// Iterate upper letters lowering them
-		for _, i := range output.tolower {
-			m.data[m.pb+i] = m.data[m.pb+i] + 32
-		}
-		output.norm = string(m.text())
-		// Revert the buffer to the original
-		for _, i := range output.tolower {
-			m.data[m.pb+i] = m.data[m.pb+i] - 32
-		}
+		// Lower the upper letters on a copy: the input is not ours to write to
+		output.norm = m.lowered(output.tolower)
 
 		goto _again
 	f0:
@@ -4745,30 +4747,16 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 			case 34:
 
 				output.SS = string(m.text())
-				// Iterate upper letters lowering them
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] + 32
-				}
-				output.norm = string(m.text())
-				// Revert the buffer to the original
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] - 32
-				}
+				// Lower the upper letters on a copy: the input is not ours to write to
+				output.norm = m.lowered(output.tolower)
 
 				output.kind = RFC2141
 
 			case 38:
 
 				output.SS = string(m.text())
-				// Iterate upper letters lowering them
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] + 32
-				}
-				output.norm = string(m.text())
-				// Revert the buffer to the original
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] - 32
-				}
+				// Lower the upper letters on a copy: the input is not ours to write to
+				output.norm = m.lowered(output.tolower)
 
 				output.kind = RFC8141
 
@@ -4957,15 +4945,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				output.scim.Name = string(m.data[output.scim.pos:m.p])
 
 				output.SS = string(m.text())
-				// Iterate upper letters lowering them
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] + 32
-				}
-				output.norm = string(m.text())
-				// Revert the buffer to the original
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] - 32
-				}
+				// Lower the upper letters on a copy: the input is not ours to write to
+				output.norm = m.lowered(output.tolower)
 
 				output.kind = RFC7643
 
@@ -4974,15 +4955,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				output.scim.Other = string(m.data[output.scim.pos:m.p])
 
 				output.SS = string(m.text())
-				// Iterate upper letters lowering them
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] + 32
-				}
-				output.norm = string(m.text())
-				// Revert the buffer to the original
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] - 32
-				}
+				// Lower the upper letters on a copy: the input is not ours to write to
+				output.norm = m.lowered(output.tolower)
 
 				output.kind = RFC7643
 
diff --git a/machine.go.rl b/machine.go.rl
index 0a17421..ebac6a6 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -64,15 +64,8 @@ action set_nid {
 
 action set_nss {
     output.SS = string(m.text())
-    // Iterate upper letters lowering them
-    for _, i := range output.tolower {
-        m.data[m.pb+i] = m.data[m.pb+i] + 32
-    }
-    output.norm = string(m.text())
-    // Revert the buffer to the original
-    for _, i := range output.tolower {
-        m.data[m.pb+i] = m.data[m.pb+i] - 32
-    }
+    // Lower the upper letters on a copy: the input is not ours to write to
+    output.norm = m.lowered(output.tolower)
 }
 
 action err_pre {
@@ -350,6 +343,15 @@ func (m *machine) text() []byte {
     return m.data[m.pb:m.p]
 }
 
+// lowered returns the current text with the upper letters at the given positions lowered.
+func (m *machine) lowered(positions []int) string {
+    text := append([]byte(nil), m.text()...)
+    for _, i := range positions {
+        text[i] = text[i] + 32
+    }
+    return string(text)
+}
+
 // Parse parses the input byte array as a RFC 2141 or RFC7643 string.
 func (m *machine) Parse(input []byte) (*URN, error) {
     m.data = input
-- 
2.43.0


From 974f8beb289753a8bbca07c928bcd4ce56eb3db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 02/10] fix: the zero and unknown parsing modes select the
 default mode

WithParsingMode(Default), or with a mode the library does not know, left the
machine without a start state: parsing returned neither a URN nor an error,
and Parse returned nil, true.
---
 machine.go    | 8 +++++++-
 machine.go.rl | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/machine.go b/machine.go
index 424aebc..193fae7 100644
--- a/machine.go
+++ b/machine.go
@@ -5007,7 +5007,13 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 }
 
 func (m *machine) WithParsingMode(x ParsingMode) {
-	m.parsingMode = x
+	switch x {
+	case RFC2141Only, RFC7643Only, RFC8141Only:
+		m.parsingMode = x
+	default:
+		// The zero mode and modes we do not know select the default one
+		m.parsingMode = DefaultParsingMode
+	}
 	switch m.parsingMode {
 	case RFC2141Only:
 		m.startParsingAt = enMain
diff --git a/machine.go.rl b/machine.go.rl
index ebac6a6..f77dd50 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -375,7 +375,13 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 }
 
 func (m *machine) WithParsingMode(x ParsingMode) {
-    m.parsingMode = x
+    switch x {
+    case RFC2141Only, RFC7643Only, RFC8141Only:
+        m.parsingMode = x
+    default:
+        // The zero mode and modes we do not know select the default one
+        m.parsingMode = DefaultParsingMode
+    }
     switch m.parsingMode {
         case RFC2141Only:
             m.startParsingAt = en_main
-- 
2.43.0


From fde9b0c8c2e6a01ee92249066abcf0e6e94ec2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 03/10] fix: a failed parse always reports an error

In RFC 8141 mode inputs like "urn:ab:c?", "urn:ab:c?x" or "urn:ab:c##"
fail where no rule has an error of its own: the parse returned neither a URN
nor an error, Parse returned nil, true, and URN8141.UnmarshalJSON succeeded
with a nil URN.
---
 machine.go    | 5 +++++
 machine.go.rl | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/machine.go b/machine.go
index 193fae7..bb8178b 100644
--- a/machine.go
+++ b/machine.go
@@ -24,6 +24,7 @@ var (
 	err8141QComponentStart = "expecting only one q-component (starting with the ?= sequence) [col %d]"
 	err8141MalformedRComp  = "expecting a non-empty r-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning) [col %d]"
 	err8141MalformedQComp  = "expecting a non-empty q-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning) [col %d]"
+	errMalformed           = "malformed URN [col %d]"
 )
 var _toStateActions []byte = []byte{
 	0, 0, 0, 0, 0, 0, 0, 0,
@@ -5000,6 +5001,10 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 	}
 
 	if m.cs < firstFinal || m.cs == enFail {
+		if m.err == nil {
+			// No rule of the grammar has its own error for this
+			m.err = fmt.Errorf(errMalformed, m.p)
+		}
 		return nil, m.err
 	}
 
diff --git a/machine.go.rl b/machine.go.rl
index f77dd50..bb1b65e 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -24,6 +24,7 @@ var (
     err8141QComponentStart = "expecting only one q-component (starting with the ?= sequence) [col %d]"
     err8141MalformedRComp  = "expecting a non-empty r-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning) [col %d]"
     err8141MalformedQComp  = "expecting a non-empty q-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning) [col %d]"
+    errMalformed           = "malformed URN [col %d]"
 )
 
 %%{
@@ -368,6 +369,10 @@ func (m *machine) Parse(input []byte) (*URN, error) {
     %% write exec;
 
     if m.cs < first_final || m.cs == en_fail {
+        if m.err == nil {
+            // No rule of the grammar has its own error for this
+            m.err = fmt.Errorf(errMalformed, m.p)
+        }
         return nil, m.err
     }
 
-- 
2.43.0


From 74582cc24b6e73b23929b378d74764d4faa532df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 04/10] fix: a normalized URN keeps its normal form

Normalize left the result without its own normal form: normalizing it again
emptied it, it did not equal the URN it came from, and any two normalized URNs
with the same identifier compared equal.
---
 urn.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/urn.go b/urn.go
index 894d625..f9c94a9 100644
--- a/urn.go
+++ b/urn.go
@@ -38,6 +38,7 @@ func (u *URN) Normalize() *URN {
 		prefix: "urn",
 		ID:     strings.ToLower(u.ID),
 		SS:     u.norm,
+		norm:   u.norm,
 		// rComponent: u.rComponent,
 		// qComponent: u.qComponent,
 		// fComponent: u.fComponent,
-- 
2.43.0


From 2b401fd5ad550060f5686d018adb40e48425fabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:29 +0000
Subject: [PATCH 05/10] fix: only the urn string itself is reserved as an
 identifier

Any three-letter identifier starting with u was rejected in RFC 2141 mode.
---
 machine.go    | 5 +++--
 machine.go.rl | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/machine.go b/machine.go
index bb8178b..46e4e13 100644
--- a/machine.go
+++ b/machine.go
@@ -4362,8 +4362,9 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		if m.parsingMode != RFC8141Only {
 			// Throw an error when:
 			// - we are entering here matching the the prefix in the namespace identifier part
-			// - looking ahead (3 chars) we find a colon
-			if pos := m.p + 3; pos < m.pe && m.data[pos] == 58 && output.prefix != "" {
+			// - looking ahead we find the rest of the prefix and a colon
+			if pos := m.p + 3; pos < m.pe && m.data[pos] == 58 && output.prefix != "" &&
+				m.data[m.p+1]|0x20 == 'r' && m.data[m.p+2]|0x20 == 'n' {
 				m.err = fmt.Errorf(errNoUrnWithinID, pos)
 				(m.p)--
 
diff --git a/machine.go.rl b/machine.go.rl
index bb1b65e..2589b0f 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -50,8 +50,9 @@ action throw_pre_urn_err {
     if m.parsingMode != RFC8141Only {
         // Throw an error when:
         // - we are entering here matching the the prefix in the namespace identifier part
-        // - looking ahead (3 chars) we find a colon
-        if pos := m.p + 3; pos < m.pe && m.data[pos] == 58 && output.prefix != "" {
+        // - looking ahead we find the rest of the prefix and a colon
+        if pos := m.p + 3; pos < m.pe && m.data[pos] == 58 && output.prefix != "" &&
+            m.data[m.p+1]|0x20 == 'r' && m.data[m.p+2]|0x20 == 'n' {
             m.err = fmt.Errorf(errNoUrnWithinID, pos)
             fhold;
             fgoto fail;
-- 
2.43.0


From 8e9d5338b13a3fd6ab12a2bd1f5c9062206087f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 06/10] fix: removecomments replaces the file as a whole

Writing in place truncates the file first: a failed write, a full disk or a
kill left a prefix of the content behind.
---
 tools/removecomments/removecomments.go | 40 +++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/tools/removecomments/removecomments.go b/tools/removecomments/removecomments.go
index d7a0385..dfb29a3 100644
--- a/tools/removecomments/removecomments.go
+++ b/tools/removecomments/removecomments.go
@@ -3,6 +3,7 @@ package main
 import (
 	"fmt"
 	"os"
+	"path/filepath"
 	"regexp"
 )
 
@@ -32,7 +33,44 @@ func removeCommentsFromFile(path string) error {
 		return err
 	}
 	updated := removeComments(content)
-	return os.WriteFile(path, updated, 0)
+	return replaceFile(path, updated)
+}
+
+// replaceFile gives the file a new content, keeping its permissions. The content
+// is completed in another file first: at no point there is less than the old or
+// the new content under the path, whatever fails.
+func replaceFile(path string, content []byte) (err error) {
+	// The file itself is to be replaced, not a link to it
+	if path, err = filepath.EvalSymlinks(path); err != nil {
+		return err
+	}
+	info, err := os.Stat(path)
+	if err != nil {
+		return err
+	}
+	tmp, err := os.CreateTemp(filepath.Dir(path), ".removecomments-*")
+	if err != nil {
+		return err
+	}
+	defer func() {
+		if err != nil {
+			tmp.Close()
+			os.Remove(tmp.Name())
+		}
+	}()
+	if err = tmp.Chmod(info.Mode().Perm()); err != nil {
+		return err
+	}
+	if _, err = tmp.Write(content); err != nil {
+		return err
+	}
+	if err = tmp.Sync(); err != nil {
+		return err
+	}
+	if err = tmp.Close(); err != nil {
+		return err
+	}
+	return os.Rename(tmp.Name(), path)
 }
 
 func exitWithError(msg string) {
-- 
2.43.0


From 5c3798383bc07fb39544511e5f59dd334096e57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 07/10] fix: snake2camel replaces the file as a whole

Writing in place truncates the file first: a failed write, a full disk or a
kill left a prefix of the content behind.
---
 tools/snake2camel/snake2camel.go | 40 +++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/tools/snake2camel/snake2camel.go b/tools/snake2camel/snake2camel.go
index 4dcac37..7f9e175 100644
--- a/tools/snake2camel/snake2camel.go
+++ b/tools/snake2camel/snake2camel.go
@@ -3,6 +3,7 @@ package main
 import (
 	"fmt"
 	"os"
+	"path/filepath"
 	"regexp"
 	"strings"
 )
@@ -55,7 +56,44 @@ func snake2camelFile(path string) error {
 	}
 	updated := snake2camel(content)
 
-	return os.WriteFile(path, updated, 0)
+	return replaceFile(path, updated)
+}
+
+// replaceFile gives the file a new content, keeping its permissions. The content
+// is completed in another file first: at no point there is less than the old or
+// the new content under the path, whatever fails.
+func replaceFile(path string, content []byte) (err error) {
+	// The file itself is to be replaced, not a link to it
+	if path, err = filepath.EvalSymlinks(path); err != nil {
+		return err
+	}
+	info, err := os.Stat(path)
+	if err != nil {
+		return err
+	}
+	tmp, err := os.CreateTemp(filepath.Dir(path), ".snake2camel-*")
+	if err != nil {
+		return err
+	}
+	defer func() {
+		if err != nil {
+			tmp.Close()
+			os.Remove(tmp.Name())
+		}
+	}()
+	if err = tmp.Chmod(info.Mode().Perm()); err != nil {
+		return err
+	}
+	if _, err = tmp.Write(content); err != nil {
+		return err
+	}
+	if err = tmp.Sync(); err != nil {
+		return err
+	}
+	if err = tmp.Close(); err != nil {
+		return err
+	}
+	return os.Rename(tmp.Name(), path)
 }
 
 func main() {
-- 
2.43.0


From 135801b7636134ceefd858cf7518e72b4372d802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:14 +0000
Subject: [PATCH 08/10] fix: r- and q-components take linear time to parse

Every question mark in a component may be its end and made a copy of it: some
hundred kilobytes of them kept the parser busy for seconds.
---
 machine.go    | 30 ++++++++++++++++++++++--------
 machine.go.rl | 12 ++++++++++--
 2 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/machine.go b/machine.go
index 46e4e13..808d72c 100644
--- a/machine.go
+++ b/machine.go
@@ -105,6 +105,8 @@ type machine struct {
 	startParsingAt int
 	parsingMode    ParsingMode
 	parsingModeSet bool
+	rComponent     []byte
+	qComponent     []byte
 }
 
 // NewMachine creates a new FSM able to parse RFC 2141 strings.
@@ -152,6 +154,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 	m.pe = len(input)
 	m.eof = len(input)
 	m.err = nil
+	m.rComponent = nil
+	m.qComponent = nil
 	m.cs = m.startParsingAt
 	output := &URN{
 		tolower: []int{},
@@ -4303,12 +4307,14 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		goto _again
 	f42:
 
-		output.rComponent = string(m.text())
+		// The end is not known yet: every question mark may be it
+		m.rComponent = m.text()
 
 		goto _again
 	f48:
 
-		output.qComponent = string(m.text())
+		// The end is not known yet: every question mark may be it
+		m.qComponent = m.text()
 
 		goto _again
 	f44:
@@ -4548,7 +4554,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		}
 		output.rStart = true
 
-		output.rComponent = string(m.text())
+		// The end is not known yet: every question mark may be it
+		m.rComponent = m.text()
 
 		goto _again
 	f31:
@@ -4578,7 +4585,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		}
 		output.qStart = true
 
-		output.qComponent = string(m.text())
+		// The end is not known yet: every question mark may be it
+		m.qComponent = m.text()
 
 		goto _again
 	f46:
@@ -4895,13 +4903,15 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 
 			case 42:
 
-				output.rComponent = string(m.text())
+				// The end is not known yet: every question mark may be it
+				m.rComponent = m.text()
 
 				output.kind = RFC8141
 
 			case 48:
 
-				output.qComponent = string(m.text())
+				// The end is not known yet: every question mark may be it
+				m.qComponent = m.text()
 
 				output.kind = RFC8141
 
@@ -4974,7 +4984,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				}
 				output.rStart = true
 
-				output.rComponent = string(m.text())
+				// The end is not known yet: every question mark may be it
+				m.rComponent = m.text()
 
 				output.kind = RFC8141
 
@@ -4990,7 +5001,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				}
 				output.qStart = true
 
-				output.qComponent = string(m.text())
+				// The end is not known yet: every question mark may be it
+				m.qComponent = m.text()
 
 				output.kind = RFC8141
 			}
@@ -5008,6 +5020,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		}
 		return nil, m.err
 	}
+	output.rComponent = string(m.rComponent)
+	output.qComponent = string(m.qComponent)
 
 	return output, nil
 }
diff --git a/machine.go.rl b/machine.go.rl
index 2589b0f..5a474fd 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -209,11 +209,13 @@ action rfc8141_type {
 }
 
 action set_r_component {
-    output.rComponent = string(m.text())
+    // The end is not known yet: every question mark may be it
+    m.rComponent = m.text()
 }
 
 action set_q_component {
-    output.qComponent = string(m.text())
+    // The end is not known yet: every question mark may be it
+    m.qComponent = m.text()
 }
 
 action set_f_component {
@@ -309,6 +311,8 @@ type machine struct {
     startParsingAt    int
     parsingMode       ParsingMode
     parsingModeSet    bool
+    rComponent        []byte
+    qComponent        []byte
 }
 
 // NewMachine creates a new FSM able to parse RFC 2141 strings.
@@ -362,6 +366,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
     m.pe = len(input)
     m.eof = len(input)
     m.err = nil
+    m.rComponent = nil
+    m.qComponent = nil
     m.cs = m.startParsingAt
     output := &URN{
         tolower: []int{},
@@ -376,6 +382,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
         }
         return nil, m.err
     }
+    output.rComponent = string(m.rComponent)
+    output.qComponent = string(m.qComponent)
 
     return output, nil
 }
-- 
2.43.0


From 331344ccf1041be736f6e09dc1e20049abdb36cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:01 +0000
Subject: [PATCH 09/10] fix: the same name compares equal whatever mode it was
 parsed in

---
 urn.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/urn.go b/urn.go
index f9c94a9..3d281c2 100644
--- a/urn.go
+++ b/urn.go
@@ -53,7 +53,8 @@ func (u *URN) Equal(x *URN) bool {
 	nu := u.Normalize()
 	nx := x.Normalize()
 
-	return nu.prefix == nx.prefix && nu.ID == nx.ID && nu.SS == nx.SS
+	// The same name can be split at different places: the identifier of a SCIM URN covers more of it.
+	return nu.prefix == nx.prefix && nu.ID+":"+nu.SS == nx.ID+":"+nx.SS
 }
 
 // String reassembles the URN into a valid URN string.
-- 
2.43.0


From a7abff3ca0ea6afafc87aca0f5f1f7fbca8eafb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:24 +0000
Subject: [PATCH 10/10] fix: the zero value of URN8141 marshals instead of
 panicking

---
 urn8141.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/urn8141.go b/urn8141.go
index da4dd06..9565fba 100644
--- a/urn8141.go
+++ b/urn8141.go
@@ -12,6 +12,10 @@ type URN8141 struct {
 }
 
 func (u URN8141) MarshalJSON() ([]byte, error) {
+	if u.URN == nil { // The zero value, which marshals as the one of URN does
+		return json.Marshal("")
+	}
+
 	return json.Marshal(u.String())
 }
 
-- 
2.43.0

