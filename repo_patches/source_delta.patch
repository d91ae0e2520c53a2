From 2c9dd6c1e8c181a9772120c4f6908dd37dc108c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 01/42] fix: append handler stubs in definition order instead
 of map order

---
 gengokit/service/services.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gengokit/service/services.go b/gengokit/service/services.go
index bb5912a..bc33f23 100644
--- a/gengokit/service/services.go
+++ b/gengokit/service/services.go
@@ -97,8 +97,12 @@ func (h *handler) Render(alias string, data *gengokit.Data) (io.Reader, error) {
 		return h.buffer()
 	}
 
-	for k, v := range h.mMap {
-		log.WithField("Method", k).
+	// in the order of the definition, so that the output is reproducible
+	for _, v := range h.service.Methods {
+		if _, ok := h.mMap[v.Name]; !ok {
+			continue
+		}
+		log.WithField("Method", v.Name).
 			Info("Generating handler from rpc definition")
 		ex.Methods = append(ex.Methods, v)
 	}
-- 
2.43.0


From d8282ef95cf1b6e940b9a76128c6d9df2805692b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:58 +0000
Subject: [PATCH 02/42] fix: fail when the definition cannot be read instead of
 reporting no service

---
 cmd/baron/main.go                     | 5 ++++-
 internal/parsesvcname/parsesvcname.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/baron/main.go b/cmd/baron/main.go
index 77afc40..fa2d33c 100644
--- a/cmd/baron/main.go
+++ b/cmd/baron/main.go
@@ -209,10 +209,13 @@ func parseInput() (*config.Config, error) {
 	// Service Path
 	// 生成代码在临时目录, 获取服务名称
 	svcName, err := parsesvcname.FromPaths(cfg.GoPath, cfg.DefPaths)
-	if err != nil {
+	if errors.Cause(err) == parsesvcname.ErrNoService {
 		log.Warnf("No valid service is defined; exiting now: %v", err)
 		return nil, nil
 	}
+	if err != nil {
+		return nil, errors.Wrap(err, "cannot determine service name")
+	}
 
 	svcName = strings.ToLower(svcName)
 
diff --git a/internal/parsesvcname/parsesvcname.go b/internal/parsesvcname/parsesvcname.go
index 084f0f3..1be4e24 100644
--- a/internal/parsesvcname/parsesvcname.go
+++ b/internal/parsesvcname/parsesvcname.go
@@ -13,6 +13,9 @@ import (
 	"github.com/teamlint/baron/svcdef"
 )
 
+// ErrNoService is returned when the definition is valid but has no service.
+var ErrNoService = errors.New("no service defined")
+
 // FromPaths accepts the paths of protobuf definition files and returns the
 // name of the service in that protobuf definition file.
 func FromPaths(gopath []string, protoDefPaths []string) (string, error) {
@@ -67,7 +70,7 @@ func FromPaths(gopath []string, protoDefPaths []string) (string, error) {
 	}
 
 	if sd.Service == nil {
-		return "", errors.New("no service defined")
+		return "", ErrNoService
 	}
 
 	return sd.Service.Name, nil
-- 
2.43.0


From 9fe8ac2ff59e1dcd8aad36f73e6ef25aa313a243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:59 +0000
Subject: [PATCH 03/42] fix: replace generated files atomically so that an
 interrupted run cannot truncate them

---
 gengokit/generator/gen.go | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/gengokit/generator/gen.go b/gengokit/generator/gen.go
index e208fa0..d1d87a4 100644
--- a/gengokit/generator/gen.go
+++ b/gengokit/generator/gen.go
@@ -216,23 +216,47 @@ func formatCode(code []byte) []byte {
 	return formatted
 }
 
-// WriteGenFile writes a file at path to the filesystem
-func WriteGenFile(file io.Reader, path string) error {
-	err := os.MkdirAll(filepath.Dir(path), 0777)
+// WriteGenFile writes a file at path to the filesystem. An existing file is
+// replaced in one step once its new content is complete, so that a failed or
+// interrupted run never leaves it truncated.
+func WriteGenFile(file io.Reader, path string) (err error) {
+	err = os.MkdirAll(filepath.Dir(path), 0777)
 	if err != nil {
 		return err
 	}
 
-	outFile, err := os.Create(path)
+	mode := os.FileMode(0666)
+	info, statErr := os.Stat(path)
+	if statErr == nil {
+		mode = info.Mode().Perm()
+		// keep symbolic links in place
+		if path, err = filepath.EvalSymlinks(path); err != nil {
+			return err
+		}
+	}
+
+	tmpPath := filepath.Join(filepath.Dir(path), "."+filepath.Base(path)+".baron.tmp")
+	outFile, err := os.OpenFile(tmpPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, mode)
 	if err != nil {
-		return errors.Wrapf(err, "cannot create file %v", path)
+		return errors.Wrapf(err, "cannot create file %v", tmpPath)
 	}
+	defer func() {
+		if err != nil {
+			os.Remove(tmpPath)
+		}
+	}()
 
 	_, err = io.Copy(outFile, file)
+	if err == nil && statErr == nil {
+		err = outFile.Chmod(mode)
+	}
+	if closeErr := outFile.Close(); err == nil {
+		err = closeErr
+	}
 	if err != nil {
 		return errors.Wrapf(err, "cannot write to %v", path)
 	}
-	return outFile.Close()
+	return os.Rename(tmpPath, path)
 }
 
 // responseInfo 输出代码生成信息
-- 
2.43.0


From d0fb4be2a374cb75a364bee07efe1deeec663bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:45 +0000
Subject: [PATCH 04/42] fix: keep brace tracking per reader so that one
 definition cannot affect the next

---
 svcdef/svcparse/scanner.go | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/svcdef/svcparse/scanner.go b/svcdef/svcparse/scanner.go
index 329a8f4..e608dd8 100644
--- a/svcdef/svcparse/scanner.go
+++ b/svcdef/svcparse/scanner.go
@@ -15,6 +15,11 @@ type RuneReader struct {
 	ContentLen int
 	RunePos    int
 	LineNo     int
+
+	// Where the units read so far leave us within the definition
+	withinBody bool
+	withinDef  bool
+	braceLev   int
 }
 
 func (self *RuneReader) ReadRune() (rune, error) {
@@ -85,12 +90,6 @@ func (self ScanUnit) String() string {
 	return fmt.Sprintf(`{"value": "%v", "InRpcDefinition": %v, "InRpcBody": %v, "BraceLevel": %v, "LineNo": %v},`, cleanval, self.InRpcDefinition, self.InRpcBody, self.BraceLevel, self.LineNo)
 }
 
-var (
-	withinBody bool = false
-	withinDef  bool = false
-	braceLev   int  = 0
-)
-
 func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 	rv := &ScanUnit{
 		false,
@@ -102,10 +101,10 @@ func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 	var ch rune
 	buf := make([]rune, 0)
 	setReturn := func() *ScanUnit {
-		rv.BraceLevel = braceLev
+		rv.BraceLevel = rr.braceLev
 		rv.LineNo = rr.LineNo
-		rv.InRpcBody = withinBody
-		rv.InRpcDefinition = withinDef
+		rv.InRpcBody = rr.withinBody
+		rv.InRpcDefinition = rr.withinDef
 		rv.Value = buf
 		return rv
 	}
@@ -216,22 +215,22 @@ func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 			} else if !isIdent(ch) {
 				rr.UnreadRune()
 				if string(buf) == "service" {
-					withinDef = true
+					rr.withinDef = true
 				}
 				break
 			}
 			buf = append(buf, ch)
 		}
 	case ch == '{':
-		braceLev += 1
-		if withinDef == true {
-			withinDef = false
-			withinBody = true
+		rr.braceLev += 1
+		if rr.withinDef == true {
+			rr.withinDef = false
+			rr.withinBody = true
 		}
 	case ch == '}':
-		braceLev -= 1
-		if withinBody == true && braceLev == 0 {
-			withinBody = false
+		rr.braceLev -= 1
+		if rr.withinBody == true && rr.braceLev == 0 {
+			rr.withinBody = false
 		}
 	}
 
-- 
2.43.0


From a1d2129f9ef5797b2680383ed6888b5b70e34ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:45 +0000
Subject: [PATCH 05/42] fix: do not skip the rune after a '*' inside a comment

---
 svcdef/svcparse/scanner.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svcdef/svcparse/scanner.go b/svcdef/svcparse/scanner.go
index e608dd8..6367c02 100644
--- a/svcdef/svcparse/scanner.go
+++ b/svcdef/svcparse/scanner.go
@@ -152,6 +152,8 @@ func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 						buf = append(buf, ch)
 						return setReturn(), nil
 					}
+					// Not the end, but it may be the '*' of the end
+					rr.UnreadRune()
 				} else {
 					// Add the body of the comment to the buffer
 					buf = append(buf, ch)
-- 
2.43.0


From b5e57d0c0d6c141343b0c125430cff8004d33409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:59 +0000
Subject: [PATCH 06/42] fix: do not drop or panic on a comment or string at the
 end of input

---
 svcdef/svcparse/lexer.go   | 6 ++++--
 svcdef/svcparse/scanner.go | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/svcdef/svcparse/lexer.go b/svcdef/svcparse/lexer.go
index ed2e383..722124a 100644
--- a/svcdef/svcparse/lexer.go
+++ b/svcdef/svcparse/lexer.go
@@ -55,7 +55,8 @@ func NewTokenGroup(scn *SvcScanner) *TokenGroup {
 			one_pos := scn.UnitPos
 			one, err := scn.ReadUnit()
 			if err != nil {
-				panic(err)
+				// The comment is the last thing there is
+				break
 			}
 			onestr := string(one)
 			if len(one) > 1 && one[0] == '/' {
@@ -64,7 +65,8 @@ func NewTokenGroup(scn *SvcScanner) *TokenGroup {
 				if strings.Count(onestr, "\n") == 0 {
 					two, err := scn.ReadUnit()
 					if err != nil {
-						panic(err)
+						scn.UnReadToPosition(one_pos)
+						break
 					}
 					twostr := string(two)
 					if len(two) > 1 && two[0] == '/' {
diff --git a/svcdef/svcparse/scanner.go b/svcdef/svcparse/scanner.go
index 6367c02..656e82b 100644
--- a/svcdef/svcparse/scanner.go
+++ b/svcdef/svcparse/scanner.go
@@ -268,9 +268,11 @@ func NewSvcScanner(r io.Reader) *SvcScanner {
 	rr := NewRuneReader(r)
 	for {
 		unit, err := BuildScanUnit(rr)
-		if err == nil {
+		if len(unit.Value) > 0 {
+			// A comment or string cut off by the end of input is still a unit
 			b = append(b, unit)
-		} else {
+		}
+		if err != nil {
 			break
 		}
 	}
-- 
2.43.0


From ffdadd26c2f706eab544f6eb3db0ca9d40bde1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:59 +0000
Subject: [PATCH 07/42] fix: unreading the first unit no longer indexes before
 the buffer

---
 svcdef/svcparse/scanner.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svcdef/svcparse/scanner.go b/svcdef/svcparse/scanner.go
index 656e82b..5b29d3f 100644
--- a/svcdef/svcparse/scanner.go
+++ b/svcdef/svcparse/scanner.go
@@ -343,6 +343,7 @@ func (self *SvcScanner) UnreadUnit() error {
 		self.InDefinition = false
 		self.BraceLevel = 0
 		self.lineNo = 0
+		return nil
 	}
 	self.UnitPos -= 1
 
-- 
2.43.0


From a9e839ea58ac0a5d83f1f2cca0ec525edc996c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:49 +0000
Subject: [PATCH 08/42] fix: find the service by its declaration, not by any
 use of the word

---
 svcdef/svcparse/scanner.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/svcdef/svcparse/scanner.go b/svcdef/svcparse/scanner.go
index 5b29d3f..90f5492 100644
--- a/svcdef/svcparse/scanner.go
+++ b/svcdef/svcparse/scanner.go
@@ -216,7 +216,7 @@ func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 				return setReturn(), err
 			} else if !isIdent(ch) {
 				rr.UnreadRune()
-				if string(buf) == "service" {
+				if string(buf) == "service" && startsDefinition(rr) {
 					rr.withinDef = true
 				}
 				break
@@ -244,6 +244,27 @@ func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 	return setReturn(), nil
 }
 
+// startsDefinition reports whether the word "service" just read from rr begins
+// a service definition, rather than being the name of a field, a message or
+// part of a package.
+func startsDefinition(rr *RuneReader) bool {
+	if rr.braceLev != 0 {
+		return false
+	}
+	peek := *rr
+	peek.braceLev = 1
+	for {
+		unit, err := BuildScanUnit(&peek)
+		if len(unit.Value) > 0 && isIdent(unit.Value[0]) {
+			return true
+		}
+		isComment := len(unit.Value) > 1 && unit.Value[0] == '/'
+		if err != nil || !(isComment || unicode.IsSpace(unit.Value[0])) {
+			return false
+		}
+	}
+}
+
 // Service scanner conducts many of the basic scanning operatiions of a Lexer,
 // with some additional service-specific behavior.
 //
@@ -299,7 +320,7 @@ func (self *SvcScanner) FastForward() error {
 		if err != nil {
 			return err
 		}
-		if string(buf) == search_str {
+		if string(buf) == search_str && self.InDefinition {
 			self.UnitPos -= 1
 			break
 		}
-- 
2.43.0


From b04c28f49085c18d578a42da41db8f4b1a1c1aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 09/42] fix: read single-quoted strings as strings

---
 svcdef/svcparse/lexer.go   |  2 +-
 svcdef/svcparse/parser.go  | 26 +++++++++++++++++++++++++-
 svcdef/svcparse/scanner.go |  5 +++--
 3 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/svcdef/svcparse/lexer.go b/svcdef/svcparse/lexer.go
index 722124a..8332340 100644
--- a/svcdef/svcparse/lexer.go
+++ b/svcdef/svcparse/lexer.go
@@ -37,7 +37,7 @@ func NewTokenGroup(scn *SvcScanner) *TokenGroup {
 		return &TokenGroup{WHITESPACE, string(unit), scn.GetLineNumber()}
 	case isIdent(unit[0]):
 		return &TokenGroup{IDENT, string(unit), scn.GetLineNumber()}
-	case unit[0] == '"':
+	case unit[0] == '"' || unit[0] == '\'':
 		return &TokenGroup{STRING_LITERAL, string(unit), scn.GetLineNumber()}
 	case unit[0] == '(':
 		return &TokenGroup{OPEN_PAREN, string(unit), scn.GetLineNumber()}
diff --git a/svcdef/svcparse/parser.go b/svcdef/svcparse/parser.go
index dd2922a..f66e7cd 100644
--- a/svcdef/svcparse/parser.go
+++ b/svcdef/svcparse/parser.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"io"
 	"strconv"
+	"strings"
 
 	"github.com/pkg/errors"
 )
@@ -562,7 +563,7 @@ func ParseBindingFields(lex *SvcLexer) (fields []*Field, custom []*Field, err er
 			}
 		}
 
-		noqoute, err := strconv.Unquote(val)
+		noqoute, err := unquote(val)
 		if err != nil {
 			return nil, nil, errors.Wrapf(err, "cannot unquote value %q", val)
 		}
@@ -574,3 +575,26 @@ func ParseBindingFields(lex *SvcLexer) (fields []*Field, custom []*Field, err er
 
 	return fields, custom, nil
 }
+
+// unquote returns the value of a protobuf string literal, which may be
+// enclosed in either kind of quotes and may escape both.
+func unquote(lit string) (string, error) {
+	if len(lit) < 2 || lit[0] != lit[len(lit)-1] {
+		return "", strconv.ErrSyntax
+	}
+	var buf strings.Builder
+	for i := 1; i < len(lit)-1; i++ {
+		switch {
+		case lit[i] == '\\' && lit[i+1] == '\'':
+			// Not an escape in Go
+		case lit[i] == '\\':
+			buf.WriteString(lit[i : i+2])
+			i++
+		case lit[i] == '"':
+			buf.WriteString(`\"`)
+		default:
+			buf.WriteByte(lit[i])
+		}
+	}
+	return strconv.Unquote(`"` + buf.String() + `"`)
+}
diff --git a/svcdef/svcparse/scanner.go b/svcdef/svcparse/scanner.go
index 90f5492..43cfcdb 100644
--- a/svcdef/svcparse/scanner.go
+++ b/svcdef/svcparse/scanner.go
@@ -164,8 +164,9 @@ func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 			rr.UnreadRune()
 			return setReturn(), nil
 		}
-	case ch == '"':
+	case ch == '"' || ch == '\'':
 		// Handle strings
+		quote := ch
 		for {
 			ch, err = rr.ReadRune()
 			if err != nil {
@@ -179,7 +180,7 @@ func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 				} else {
 					buf = append(buf, ch)
 				}
-			} else if ch == '"' {
+			} else if ch == quote {
 				// Closing quotation
 				buf = append(buf, ch)
 				return setReturn(), nil
-- 
2.43.0


From d1f8d1d728c8289357dd293df6bd134968df2e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:32 +0000
Subject: [PATCH 10/42] fix: accept comments anywhere in the declaration of a
 service and its bindings

---
 svcdef/svcparse/parser.go | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/svcdef/svcparse/parser.go b/svcdef/svcparse/parser.go
index f66e7cd..c9db41f 100644
--- a/svcdef/svcparse/parser.go
+++ b/svcdef/svcparse/parser.go
@@ -165,11 +165,11 @@ type Field struct {
 // ParseService will parse a proto file and return the the struct
 // representation of that service.
 func ParseService(lex *SvcLexer) (*Service, error) {
-	tk, val := lex.GetTokenIgnoreWhitespace()
+	tk, val := lex.GetTokenIgnoreCommentAndWhitespace()
 	if tk == EOF {
 		return nil, io.ErrUnexpectedEOF
 	}
-	if tk != IDENT && val != "service" {
+	if tk != IDENT || val != "service" {
 		return nil, parserErr{
 			expected: "'service' identifier",
 			line:     lex.GetLineNumber(),
@@ -179,7 +179,7 @@ func ParseService(lex *SvcLexer) (*Service, error) {
 
 	toret := &Service{}
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	if tk != IDENT {
 		return nil, parserErr{
 			expected: "a string identifier",
@@ -189,7 +189,7 @@ func ParseService(lex *SvcLexer) (*Service, error) {
 	}
 	toret.Name = val
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	if tk != OPEN_BRACE {
 		return nil, parserErr{
 			expected: "'{'",
@@ -245,7 +245,7 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 	toret := &Method{}
 	toret.Description = desc
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	if tk != IDENT {
 		return nil, parserErr{
 			expected: "a string identifier",
@@ -258,7 +258,7 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 	// TODO Add some kind of lookup of the existing messages instead of
 	// creating a new message
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	if tk != OPEN_PAREN {
 		return nil, parserErr{
 			expected: "'('",
@@ -267,11 +267,11 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 		}
 	}
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	// Here we ignore the "stream" keyword which may appear in the arguments of
 	// an RPC definition
 	if val == "stream" {
-		tk, val = lex.GetTokenIgnoreWhitespace()
+		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	}
 	if tk != IDENT {
 		return nil, parserErr{
@@ -286,7 +286,7 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 	// doesn't support properly importanting external packages, but by
 	// using this approach type aliases can be made alongside the generated
 	// pb.go code (type Struct = types.Struct)
-	for ; tk != CLOSE_PAREN; tk, val = lex.GetTokenIgnoreWhitespace() {
+	for ; tk != CLOSE_PAREN; tk, val = lex.GetTokenIgnoreCommentAndWhitespace() {
 		switch tk {
 		case SYMBOL: // skip
 		case IDENT:
@@ -300,7 +300,7 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 		}
 	}
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	if tk != IDENT || val != "returns" {
 		return nil, parserErr{
 			expected: "'returns' keyword",
@@ -309,7 +309,7 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 		}
 	}
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	if tk != OPEN_PAREN {
 		return nil, parserErr{
 			expected: "'('",
@@ -318,11 +318,11 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 		}
 	}
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	// Here we ignore the "stream" keyword which may appear in the arguments of
 	// an RPC definition
 	if val == "stream" {
-		tk, val = lex.GetTokenIgnoreWhitespace()
+		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	}
 	if tk != IDENT {
 		return nil, parserErr{
@@ -337,7 +337,7 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 	// doesn't support properly importanting external packages, but by
 	// using this approach type aliases can be made alongside the generated
 	// pb.go code (type Struct = types.Struct)
-	for ; tk != CLOSE_PAREN; tk, val = lex.GetTokenIgnoreWhitespace() {
+	for ; tk != CLOSE_PAREN; tk, val = lex.GetTokenIgnoreCommentAndWhitespace() {
 		switch tk {
 		case SYMBOL: // skip
 		case IDENT:
@@ -351,7 +351,7 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 		}
 	}
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	if val == ";" {
 		// No http options defined
 		return nil, nil
@@ -545,7 +545,7 @@ func ParseBindingFields(lex *SvcLexer) (fields []*Field, custom []*Field, err er
 		field.Kind = val
 		field.Name = val
 
-		tk, val = lex.GetTokenIgnoreWhitespace()
+		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 		if tk != SYMBOL || val != ":" {
 			return nil, nil, parserErr{
 				expected: "symbol ':'",
@@ -554,7 +554,7 @@ func ParseBindingFields(lex *SvcLexer) (fields []*Field, custom []*Field, err er
 			}
 		}
 
-		tk, val = lex.GetTokenIgnoreWhitespace()
+		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 		if tk != STRING_LITERAL {
 			return nil, nil, parserErr{
 				expected: "string literal",
-- 
2.43.0


From 915f3259185f342fe63e4089e3fd5218a5114e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 11/42] fix: skip options other than google.api.http and empty
 statements in a service

---
 svcdef/svcparse/parser.go | 55 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/svcdef/svcparse/parser.go b/svcdef/svcparse/parser.go
index c9db41f..3a4c801 100644
--- a/svcdef/svcparse/parser.go
+++ b/svcdef/svcparse/parser.go
@@ -68,6 +68,44 @@ func fastForwardTill(lex *SvcLexer, delim string) error {
 	}
 }
 
+// skipStatement moves the lexer past the end of the statement starting with
+// the given token, which has already been read.
+func skipStatement(lex *SvcLexer, val string) error {
+	for depth := 0; val != ";" || depth > 0; {
+		var tk Token
+		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
+		switch tk {
+		case OPEN_BRACE:
+			depth++
+		case CLOSE_BRACE:
+			depth--
+		}
+		if tk == EOF || tk == ILLEGAL || depth < 0 {
+			return parserErr{
+				expected: "';' at the end of a statement",
+				line:     lex.GetLineNumber(),
+				val:      val,
+			}
+		}
+	}
+	return nil
+}
+
+// isHTTPOption reports whether the 'option' just read is google's http option.
+// It leaves the position of the lexer as it was.
+func isHTTPOption(lex *SvcLexer) bool {
+	position := lex.GetPosition()
+	defer lex.UnGetToPosition(position)
+	name := ""
+	for {
+		tk, val := lex.GetTokenIgnoreCommentAndWhitespace()
+		name += val
+		if tk == EOF || tk == ILLEGAL || tk == CLOSE_PAREN {
+			return name == "(google.api.http)" || name == "(.google.api.http)"
+		}
+	}
+}
+
 // Each of the following structs exists as a distillation of a corresponding
 // deftree struct, only including what's necessary for this parser. The reason
 // we define these structs instead of using the ones within deftree is because
@@ -225,6 +263,12 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 		if tk == COMMENT {
 			desc = val
 			tk, val = lex.GetTokenIgnoreWhitespace()
+		} else if val == ";" || val == "option" {
+			// An empty statement, or an option of the service
+			if err := skipStatement(lex, val); err != nil {
+				return nil, err
+			}
+			tk, val = lex.GetTokenIgnoreWhitespace()
 		} else {
 			break
 		}
@@ -385,6 +429,12 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 	}
 
 	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
+	for val == ";" || val == "option" && !isHTTPOption(lex) {
+		if err := skipStatement(lex, val); err != nil {
+			return nil, err
+		}
+		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
+	}
 	if tk != CLOSE_BRACE {
 		return nil, parserErr{
 			expected: "'}' after declaration of http options marking end of rpc declarations",
@@ -428,6 +478,11 @@ func ParseHttpBindings(lex *SvcLexer) ([]*HTTPBinding, error) {
 	}
 
 	switch {
+	case val == ";" || val == "option" && !isHTTPOption(lex):
+		if err := skipStatement(lex, val); err != nil {
+			return nil, err
+		}
+		return ParseHttpBindings(lex)
 	case val == "option":
 		err := fastForwardTill(lex, "{")
 		if err != nil {
-- 
2.43.0


From e7acc68677b59d8f08d54a479e47e3848af9600b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 12/42] fix: accept fields of the primary binding after
 additional_bindings

---
 svcdef/svcparse/parser.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/svcdef/svcparse/parser.go b/svcdef/svcparse/parser.go
index 3a4c801..63b43c3 100644
--- a/svcdef/svcparse/parser.go
+++ b/svcdef/svcparse/parser.go
@@ -510,6 +510,16 @@ func ParseHttpBindings(lex *SvcLexer) ([]*HTTPBinding, error) {
 				}
 				rv = append(rv, more_bindings...)
 				good_position = lex.GetPosition()
+			} else if tk == IDENT {
+				// More fields of the primary binding
+				lex.UnGetToken()
+				fields, custom, err := ParseBindingFields(lex)
+				if err != nil {
+					return nil, err
+				}
+				new_opt.Fields = append(new_opt.Fields, fields...)
+				new_opt.CustomHTTPPattern = append(new_opt.CustomHTTPPattern, custom...)
+				good_position = lex.GetPosition()
 			} else if tk == EOF || tk == ILLEGAL {
 				return nil, parserErr{
 					expected: "legal token while parsing HttpBindings",
-- 
2.43.0


From 1dfc95c7a6ac6e35989d04d2726d507125cfad66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:17 +0000
Subject: [PATCH 13/42] fix: read the oneofs, service and messages of every
 file and of this call only

The registry of oneofs was a package variable filled by the first file
that had any: oneofs of other files, or of later calls, were lost and
their wrapper types taken for messages.  A oneof whose name ends in
Server was taken for the service, a service whose name starts with
Unsafe was skipped, and the Unimplemented server listed as a message.
---
 svcdef/svcdef.go | 120 ++++++++++++++++++++++++++++-------------------
 1 file changed, 72 insertions(+), 48 deletions(-)

diff --git a/svcdef/svcdef.go b/svcdef/svcdef.go
index 3fddfbc..4382b33 100644
--- a/svcdef/svcdef.go
+++ b/svcdef/svcdef.go
@@ -23,6 +23,7 @@ import (
 	"go/token"
 	"io"
 	"reflect"
+	"sort"
 	"strings"
 
 	"github.com/kr/pretty"
@@ -199,18 +200,23 @@ func (le LocationError) Location() string {
 	return le.Position
 }
 
-var (
-	oneofs = map[string][]*Field{}
-)
-
 // New 解析 pb.go 和 go-grpc.pb.go 文件, 创建 Svcdef 服务定义相关信息和 HTTP 绑定相关信息
 func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef, error) {
 	rv := Svcdef{}
 
-	for path, gofile := range goFiles {
+	// The options of every oneof, by the name of the interface of its field.
+	oneofs := map[string][]*Field{}
+
+	paths := make([]string, 0, len(goFiles))
+	for path := range goFiles {
+		paths = append(paths, path)
+	}
+	sort.Strings(paths)
+
+	for _, path := range paths {
 		fset := token.NewFileSet()
 		// log.Printf("ast path = %v, gofile=%v", path, gofile)
-		fileAst, err := parser.ParseFile(fset, "", gofile, parser.ParseComments)
+		fileAst, err := parser.ParseFile(fset, "", goFiles[path], parser.ParseComments)
 		if err != nil {
 			return nil, errors.Wrapf(err, "cannot parse go file %q to create Svcdef", path)
 		}
@@ -225,6 +231,13 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 			return nil, errors.Wrap(err, "cannot retrive type specs")
 		}
 
+		// interface names
+		ifaces := map[string]struct{}{}
+		for _, t := range typespecs {
+			if _, ok := t.Type.(*ast.InterfaceType); ok {
+				ifaces[t.Name.Name] = struct{}{}
+			}
+		}
 		// oneof names
 		oneofExists := map[string]struct{}{}
 
@@ -232,21 +245,24 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 			// log.Printf("range ast.TypeSpec item = %+v, type=%v", t, t.Type)
 			switch t.Type.(type) {
 			case *ast.InterfaceType:
-				// Exclude Unsave{NAME}Server interface
+				// Exclude Unsafe{NAME}Server interface of the {NAME}Server interface
 				if strings.HasPrefix(t.Name.Name, "Unsafe") {
-					break
+					if _, ok := ifaces[strings.TrimPrefix(t.Name.Name, "Unsafe")]; ok {
+						break
+					}
 				}
 				// Each service will have two interfaces ("{SVCNAME}Server" and
 				// "{SVCNAME}Client") each containing the same information that we
 				// care about, but structured a bit differently. Additionally,
 				// oneof fields are generated as interfaces and captured here
 				// to aid in their generations
+
+				// is prefixes indicates oneof, we'll use this to form Fields later
+				if strings.HasPrefix(t.Name.Name, "is") {
+					oneofExists[t.Name.Name] = struct{}{}
+					break
+				}
 				if !strings.HasSuffix(t.Name.Name, "Server") {
-					// is prefixes indicates oneof, we'll use this to form Fields later
-					if strings.HasPrefix(t.Name.Name, "is") {
-						oneofExists[t.Name.Name] = struct{}{}
-						break
-					}
 					if !strings.HasSuffix(t.Name.Name, "Client") {
 						// This interface isn't either Server or Client; it may be a oneof
 						// field, which isn't currently supported.  Warn the user and skip.
@@ -270,43 +286,41 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 			}
 		}
 
+		// Find oneof types
 		oneofTypes := map[string]string{}
-		// Find oneof types if they haven't been added already
-		if len(oneofs) == 0 {
-			for _, d := range fileAst.Decls {
-				switch decl := d.(type) {
-				case *ast.FuncDecl:
-					if _, ok := oneofExists[decl.Name.Name]; ok {
-						t := decl.Recv.List[0].Type.(*ast.StarExpr)
-						name := t.X.(*ast.Ident)
-						oneofTypes[name.Name] = decl.Name.Name
-					}
+		for _, d := range fileAst.Decls {
+			switch decl := d.(type) {
+			case *ast.FuncDecl:
+				if _, ok := oneofExists[decl.Name.Name]; ok {
+					t := decl.Recv.List[0].Type.(*ast.StarExpr)
+					name := t.X.(*ast.Ident)
+					oneofTypes[name.Name] = decl.Name.Name
 				}
 			}
+		}
 
-			// Process and group oneof types
-			for _, t := range typespecs {
-				switch t.Type.(type) {
-				case *ast.StructType:
-					// Non-exported structs do not represent types
-					if !t.Name.IsExported() {
-						break
-					}
-					// Skip all non-oneofs; will be processed later
-					iface, ok := oneofTypes[t.Name.Name]
-					if !ok {
-						break
-					}
-					nmsg, err := NewMessage(t)
-					if err != nil {
-						return nil, errors.Wrapf(err, "error parsing message %q", t.Name.Name)
-					}
-					f := nmsg.Fields[0]
-					f.Type.Message = &Message{
-						Name: nmsg.Name,
-					}
-					oneofs[iface] = append(oneofs[iface], f)
+		// Process and group oneof types
+		for _, t := range typespecs {
+			switch t.Type.(type) {
+			case *ast.StructType:
+				// Non-exported structs do not represent types
+				if !t.Name.IsExported() {
+					break
 				}
+				// Skip all non-oneofs; will be processed later
+				iface, ok := oneofTypes[t.Name.Name]
+				if !ok {
+					break
+				}
+				nmsg, err := NewMessage(t)
+				if err != nil {
+					return nil, errors.Wrapf(err, "error parsing message %q", t.Name.Name)
+				}
+				f := nmsg.Fields[0]
+				f.Type.Message = &Message{
+					Name: nmsg.Name,
+				}
+				oneofs[iface] = append(oneofs[iface], f)
 			}
 		}
 
@@ -329,6 +343,12 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 				if _, ok := oneofTypes[t.Name.Name]; ok {
 					break
 				}
+				// Exclude Unimplemented{NAME}Server of the {NAME}Server interface
+				if strings.HasPrefix(t.Name.Name, "Unimplemented") {
+					if _, ok := ifaces[strings.TrimPrefix(t.Name.Name, "Unimplemented")]; ok {
+						break
+					}
+				}
 				nmsg, err := NewMessage(t)
 				if err != nil {
 					return nil, errors.Wrapf(err, "error parsing message %q", t.Name.Name)
@@ -337,6 +357,13 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 			}
 		}
 	}
+	for _, m := range rv.Messages {
+		for _, f := range m.Fields {
+			if oneof, ok := oneofs[f.Type.Name]; ok {
+				f.Type.Oneof = oneof
+			}
+		}
+	}
 	resolveTypes(&rv)
 	err := consolidateHTTP(&rv, protoFiles)
 	if err != nil {
@@ -566,9 +593,6 @@ func NewField(f *ast.Field) (*Field, error) {
 		switch ex := e.(type) {
 		case *ast.Ident: // 函数名/变量名
 			rv.Type.Name += ex.Name
-			if oneof, ok := oneofs[ex.Name]; ok {
-				rv.Type.Oneof = oneof
-			}
 		case *ast.StarExpr: // 指针表达式
 			rv.Type.StarExpr = true
 			typeFollower(ex.X)
-- 
2.43.0


From 0c9f604999f76be70a6f3b21df93d82aca781c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:17 +0000
Subject: [PATCH 14/42] fix: resolve the types of map values and of oneof
 options

The values of a map lost their type if they are bytes or an imported
message, and their enum; an enum that is an option of a oneof was taken
for a base type.
---
 svcdef/resolvetypes.go | 11 ++++++++---
 svcdef/svcdef.go       |  8 ++++++++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/svcdef/resolvetypes.go b/svcdef/resolvetypes.go
index 57f9ab3..8747ee4 100644
--- a/svcdef/resolvetypes.go
+++ b/svcdef/resolvetypes.go
@@ -40,10 +40,15 @@ func resolveTypes(sd *Svcdef) {
 
 // setType unpacks typeBox value into corresponding FieldType
 func setType(f *FieldType, tmap map[string]typeBox) {
-	// Special case maps with valuetypes pointing to messages
+	// Special case maps, the type to resolve is that of their values
 	if f.Map != nil {
-		if f.Map.ValueType.StarExpr {
-			f = f.Map.ValueType
+		f = f.Map.ValueType
+	}
+	// The options of a oneof have types of their own; their Message is the
+	// wrapper of the option and must stay
+	for _, option := range f.Oneof {
+		if entry, ok := tmap[option.Type.Name]; ok && entry.Enum != nil {
+			option.Type.Enum = entry.Enum
 		}
 	}
 	entry, ok := tmap[f.Name]
diff --git a/svcdef/svcdef.go b/svcdef/svcdef.go
index 4382b33..dffdba1 100644
--- a/svcdef/svcdef.go
+++ b/svcdef/svcdef.go
@@ -437,6 +437,14 @@ func NewMap(m ast.Expr) (*Map, error) {
 		case *ast.StarExpr:
 			rv.ValueType.StarExpr = true
 			keyFollower(ex.X)
+		case *ast.ArrayType: // bytes
+			rv.ValueType.ArrayType = true
+			keyFollower(ex.Elt)
+		case *ast.SelectorExpr: // imported message
+			if xnode, ok := ex.X.(*ast.Ident); ok {
+				rv.ValueType.Name = xnode.Name + "."
+			}
+			rv.ValueType.Name += ex.Sel.Name
 		}
 	}
 	keyFollower(mp.Value)
-- 
2.43.0


From 00230afaf6094bb8b074a383cc027522b5d9d866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:46 +0000
Subject: [PATCH 15/42] fix: locate fields by their name in the definition

A field whose Go name is not its CamelCased name (string, reset, get_x
next to x, ...) was never found in a path or body.
---
 svcdef/consolidate_http.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/svcdef/consolidate_http.go b/svcdef/consolidate_http.go
index 3697d00..92a620e 100644
--- a/svcdef/consolidate_http.go
+++ b/svcdef/consolidate_http.go
@@ -167,9 +167,7 @@ func getVerb(binding *svcparse.HTTPBinding) (verb string, path string) {
 func paramLocation(field *Field, binding *svcparse.HTTPBinding) string {
 	pathParams := getPathParams(binding)
 	for _, param := range pathParams {
-		// Have to CamelCase the data from the parser since it may be lowercase
-		// while the name from the Go file will be CamelCased
-		if pkg.GoCamelCase(strings.Split(param, ".")[0]) == field.Name {
+		if isFieldNamed(field, strings.Split(param, ".")[0]) {
 			return "path"
 		}
 	}
@@ -177,11 +175,7 @@ func paramLocation(field *Field, binding *svcparse.HTTPBinding) string {
 		if optField.Kind == "body" {
 			if optField.Value == "*" {
 				return "body"
-			} else if optField.Value == field.Name {
-				return "body"
-				// Have to CamelCase the fields from the protobuf file, as they may
-				// be lowercase while the name from the Go file will be CamelCased.
-			} else if pkg.GoCamelCase(strings.Split(optField.Value, ".")[0]) == field.Name {
+			} else if isFieldNamed(field, strings.Split(optField.Value, ".")[0]) {
 				return "body"
 			}
 		}
@@ -190,6 +184,18 @@ func paramLocation(field *Field, binding *svcparse.HTTPBinding) string {
 	return "query"
 }
 
+// isFieldNamed reports if name is the name of field in the protobuf file.
+func isFieldNamed(field *Field, name string) bool {
+	// The name in the Go file may be another than the CamelCased one, to keep
+	// it apart from methods and getters
+	if field.PBFieldName != "" {
+		return field.PBFieldName == name
+	}
+	// Have to CamelCase the data from the parser since it may be lowercase
+	// while the name from the Go file will be CamelCased
+	return name == field.Name || pkg.GoCamelCase(name) == field.Name
+}
+
 // Returns a slice of strings containing all parameters in the path
 func getPathParams(binding *svcparse.HTTPBinding) []string {
 	_, path := getVerb(binding)
-- 
2.43.0


From 51d92e2232e5719b9a7b14a1d5ac15ab0010039e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:46 +0000
Subject: [PATCH 16/42] fix: an annotated RPC whose request is not in the given
 files is an error, not a panic

---
 svcdef/consolidate_http.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/svcdef/consolidate_http.go b/svcdef/consolidate_http.go
index 92a620e..7a8faad 100644
--- a/svcdef/consolidate_http.go
+++ b/svcdef/consolidate_http.go
@@ -107,8 +107,11 @@ func assembleHTTPParams(svc *Service, httpsvc *svcparse.Service) error {
 
 	// This logic has been broken out of the for loop below to flatten
 	// this function and avoid difficult to read nesting
-	createParams := func(meth *ServiceMethod, parsedbind *svcparse.HTTPBinding) {
+	createParams := func(meth *ServiceMethod, parsedbind *svcparse.HTTPBinding) error {
 		msg := meth.RequestType.Message
+		if msg == nil {
+			return fmt.Errorf("request type %q of service method %q is not a message of the definition", meth.RequestType.Name, meth.Name)
+		}
 		bind := HTTPBinding{}
 		bind.Verb, bind.Path = getVerb(parsedbind)
 
@@ -121,6 +124,7 @@ func assembleHTTPParams(svc *Service, httpsvc *svcparse.Service) error {
 		}
 		bind.Params = params
 		meth.Bindings = append(meth.Bindings, &bind)
+		return nil
 	}
 
 	// Iterate through every HTTPBinding on every ServiceMethod, and create the
@@ -131,7 +135,9 @@ func assembleHTTPParams(svc *Service, httpsvc *svcparse.Service) error {
 			return fmt.Errorf("cannot not find service method named %q", hm.Name)
 		}
 		for _, hbind := range hm.HTTPBindings {
-			createParams(m, hbind)
+			if err := createParams(m, hbind); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From 7379761faf15186e8f1bc699d8ab1d76a96b8dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:53 +0000
Subject: [PATCH 17/42] fix: refuse RPCs on messages of other packages instead
 of generating code that does not compile

---
 svcdef/svcdef.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svcdef/svcdef.go b/svcdef/svcdef.go
index dffdba1..b9ccd3f 100644
--- a/svcdef/svcdef.go
+++ b/svcdef/svcdef.go
@@ -533,7 +533,9 @@ func NewServiceMethod(m *ast.Field, info *DebugInfo) (*ServiceMethod, error) {
 		var name string
 		switch node := star.X.(type) {
 		case *ast.SelectorExpr: // package.FuncName
-			name = fmt.Sprintf("%s", node.Sel.Name)
+			return nil, NewLocationError(fmt.Sprintf("message %s of another "+
+				"package as request or response is not supported", node.Sel.Name),
+				info.Path, info.Position(star.Pos()))
 		case *ast.Ident: // FuncName
 			name = fmt.Sprintf("%s", node.Name)
 		default:
-- 
2.43.0


From feee80c5adffb16b6302bfcebbc185600467f32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:12 +0000
Subject: [PATCH 18/42] fix: generate query code that compiles and loses
 nothing for every kind of field

---
 gengokit/httptransport/httptransport.go       | 215 +++++++-----------
 gengokit/httptransport/types.go               |   2 -
 .../NAME-service/baron/NAME.pb.baron.go.tmpl  | 159 +++++++++----
 gengokit/template/template.go                 |   6 +-
 4 files changed, 198 insertions(+), 184 deletions(-)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index bee4811..5fb5507 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -87,13 +87,14 @@ func NewBinding(i int, meth *svcdef.ServiceMethod) *Binding {
 			option := Field{
 				Name:           oneofType.Name,
 				QueryParamName: oneofType.PBFieldName,
-				CamelName:      pkg.GoCamelCase(field.Name),
+				CamelName:      field.Name,
 				LowCamelName:   LowCamelName(oneofType.Name),
+				Location:       param.Location,
 				Repeated:       oneofType.Type.ArrayType,
 				GoType:         oneofType.Type.Name,
-				LocalName:      fmt.Sprintf("%s%s", pkg.GoCamelCase(oneofType.Name), pkg.GoCamelCase(meth.Name)),
+				LocalName:      fmt.Sprintf("%s%s", oneofType.Name, pkg.GoCamelCase(meth.Name)),
 			}
-			if oneofType.Type.Enum == nil && oneofType.Type.Map == nil {
+			if oneofType.Type.Enum == nil && !oneofType.Type.ArrayType && pkg.IsGoBaseType(option.GoType) {
 				option.IsBaseType = true
 			}
 			// else {
@@ -111,14 +112,9 @@ func NewBinding(i int, meth *svcdef.ServiceMethod) *Binding {
 
 			option.IsEnum = oneofType.Type.Enum != nil
 			option.ConvertFunc, option.ConvertFuncNeedsErrorCheck = createDecodeConvertFunc(option)
-			// option.TypeConversion = fmt.Sprintf("&pb.%s{%s: %s}", oneofType.Type.Message.Name, pkg.GoCamelCase(oneofType.Name), createDecodeTypeConversion(option))
-			typeConvStr := "&%s{%s: %s}"
-			// 如果是指针类型
-			if oneofType.Type.StarExpr {
-				typeConvStr = "%s{%s: %s}"
+			if option.isScalar() {
+				option.TypeConversion = fmt.Sprintf("&%s{%s: %s}", oneofType.Type.Message.Name, oneofType.Name, createDecodeTypeConversion(option))
 			}
-			option.TypeConversion = fmt.Sprintf(typeConvStr, oneofType.Type.Message.Name, pkg.GoCamelCase(oneofType.Name), createDecodeTypeConversion(option))
-			option.ZeroValue = getZeroValue(option)
 
 			oneofField.Options = append(oneofField.Options, option)
 		}
@@ -132,20 +128,16 @@ func NewBinding(i int, meth *svcdef.ServiceMethod) *Binding {
 		if field.Type.Oneof != nil {
 			continue
 		}
-		// 如果没有获取到有效字段类型,跳过
-		if field.Type.Name == "" {
-			continue
-		}
 		newField := Field{
 			Name:           field.Name,
 			QueryParamName: field.PBFieldName,
-			CamelName:      pkg.GoCamelCase(field.Name),
+			CamelName:      field.Name,
 			LowCamelName:   LowCamelName(field.Name),
 			Location:       param.Location,
 			Repeated:       field.Type.ArrayType,
 			GoType:         field.Type.Name,
 			StarExpr:       field.Type.StarExpr,
-			LocalName:      fmt.Sprintf("%s%s", pkg.GoCamelCase(field.Name), pkg.GoCamelCase(meth.Name)),
+			LocalName:      fmt.Sprintf("%s%s", field.Name, pkg.GoCamelCase(meth.Name)),
 		}
 		// log.Debugf("NewBinding field = %+v\n", field.Type)
 
@@ -291,7 +283,11 @@ func (f *Field) GenQueryUnmarshaler() (string, error) {
 if {{.LocalName}}StrArr, ok := {{.Location}}Params["{{.QueryParamName}}"]; ok {
 {{.LocalName}}Str := {{.LocalName}}StrArr[0]`
 
+	queryListLogic := `
+if {{.LocalName}}StrArr, ok := {{.Location}}Params["{{.QueryParamName}}"]; ok {`
+
 	pathParamLogic := `
+{
 {{.LocalName}}Str := {{.Location}}Params["{{.QueryParamName}}"]`
 
 	genericLogic := `
@@ -299,11 +295,15 @@ if {{.LocalName}}StrArr, ok := {{.Location}}Params["{{.QueryParamName}}"]; ok {
 if err != nil {
 	return nil, errors.Wrap(err, fmt.Sprintf("Error while extracting {{.LocalName}} from {{.Location}}, {{.Location}}Params: %v", {{.Location}}Params))
 }{{end}}
+{{- if .TypeConversion}}
 req.{{.CamelName}} = {{.TypeConversion}}
+{{- end}}
 `
 	mergedLogic := queryParamLogic + genericLogic + "}"
 	if f.Location == "path" {
-		mergedLogic = pathParamLogic + genericLogic
+		mergedLogic = pathParamLogic + genericLogic + "}"
+	} else if f.IsList() {
+		mergedLogic = queryListLogic + genericLogic + "}"
 	}
 
 	code, err := ApplyTemplate("FieldEncodeLogic", mergedLogic, f, TemplateFuncs)
@@ -342,7 +342,9 @@ case {{$option.LocalName}}OK:
 	if err != nil {
 		return nil, errors.Wrap(err, fmt.Sprintf("Error while extracting {{.LocalName}} from {{$option.Location}}, {{$oneof.Location}}Params: %v", {{$oneof.Location}}Params))
 	}{{end}}
+	{{- if $option.TypeConversion}}
 	req.{{$option.CamelName}} = {{$option.TypeConversion}}
+	{{- end}}
 {{end}}
 }
 {{- end -}}
@@ -356,18 +358,24 @@ case {{$option.LocalName}}OK:
 	return code, nil
 }
 
+// isScalar returns true if the field holds one scalar (other than bytes) or
+// enum.
+func (f *Field) isScalar() bool {
+	return !f.Repeated && (f.IsEnum || f.IsBaseType)
+}
+
+// IsList returns true if the field is a list of scalars (other than bytes) or
+// enums in the query.
+func (f *Field) IsList() bool {
+	return f.Location == "query" && f.Repeated && (f.IsEnum || f.IsBaseType)
+}
+
 // createDecodeConvertFunc creates a go string representing the function to
 // convert the string form of the field to it's correct go type.
 func createDecodeConvertFunc(f Field) (string, bool) {
-	needsErrorCheck := true
-	// log.Debugf("[createDecodeConvertFunc] field[%v].GoType=%v.IsBaseType=%v, Repeated=%v,filed.StarExpr=%v\n", f.Name, f.GoType, f.IsBaseType, f.Repeated, f.StarExpr)
-	goType := f.GoType
-	// 根据 Repeated 属性设置[]
-	// goType := strings.TrimPrefix(f.GoType, "[]")
-	// 指针类型处理,类型赋值时需要再处理
-	// goType = strings.TrimPrefix(goType, "*")
 	fType := ""
-	switch goType {
+	needsErrorCheck := true
+	switch f.GoType {
 	case "uint32":
 		fType = "%s, err := strconv.ParseUint(%s, 10, 32)"
 	case "uint64":
@@ -386,143 +394,76 @@ func createDecodeConvertFunc(f Field) (string, bool) {
 		fType = "%s := %s"
 		needsErrorCheck = false
 	}
-
-	if f.IsEnum && !f.Repeated {
+	if f.IsEnum {
 		fType = "%s, err := strconv.ParseInt(%s, 10, 32)"
-		return fmt.Sprintf(fType, f.LocalName, f.LocalName+"Str"), true
 	}
 
-	// 使用 json unmarshalling 任意自定义类型和重复类型
-	if !f.IsBaseType || f.Repeated {
-		// Args representing single custom message types are represented as
-		// pointers. To do a bare assignment to a pointer, our rvalue must be a
-		// pointer as well. So we special case args of a single custom message
-		// type so that the variable LocalName is declared as a pointer.
-
-		// var PageBaseStatsList *PageBase
-		// PageBaseStatsList = &PageBase{}
-		// err = json.Unmarshal([]byte(PageBaseStatsListStr), PageBaseStatsList)
-		// if err != nil {
-		// 	return nil, errors.Wrapf(err, "couldn't decode PageBaseStatsList from %v", PageBaseStatsListStr)
-		// }
-		// req.PageBase = PageBaseStatsList
+	if f.isScalar() {
+		return fmt.Sprintf(fType, f.LocalName, f.LocalName+"Str"), needsErrorCheck
+	}
 
-		singleCustomTypeUnmarshalTmpl := `
-var {{.LocalName}} {{if .StarExpr -}}*{{- end -}}{{.GoType}}
-{{.LocalName}} = {{if .StarExpr -}}&{{- end -}}{{.GoType}}{}
-err = json.Unmarshal([]byte({{.LocalName}}Str), {{.LocalName}})`
+	// Anything but scalars and lists of them is given as JSON, in the form it
+	// has in a body.
+	if !f.IsList() {
+		return fmt.Sprintf(`err = unmarshalField(&req, "%s", %sStr)`, f.QueryParamName, f.LocalName), true
+	}
 
-		errorCheckingTmpl := `
-if err != nil {
-	return nil, errors.Wrapf(err, "couldn't decode {{.LocalName}} from %v", {{.LocalName}}Str)
-}`
-		// All repeated args of any type are represented as slices, and bare
-		// assignments to a slice accept a slice as the rvalue. As a result,
-		// LocalName will be declared as a slice, and json.Unmarshal handles
-		// everything else for us. Addititionally, if a type is a Base type and
-		// is repeated, we first attempt to unmarshal the string we're
-		// provided, and if that fails, we try to unmarshal the string
-		// surrounded by square brackets. If THAT fails, then the string does
-		// not represent a valid JSON string and an error is returned.
-
-		// repeatedFieldType := strings.TrimPrefix(f.GoType, "[]")
-		repeatedFieldType := f.GoType
-		convertedVar := "converted"
-		switch repeatedFieldType {
-		case "uint32", "int32", "float32":
-			convertedVar = repeatedFieldType + "(converted)"
-		}
-		repeatedUnmarshalTmpl := `
-var {{.LocalName}} []{{if .StarExpr -}}*{{- end -}}{{.GoType}}
-{{- if and (.IsBaseType) (not (Contains .GoType "[]byte"))}}
-if len({{.LocalName}}StrArr) > 1 {
-	{{- if (Contains .GoType "[]string")}}
-	{{.LocalName}} = {{.LocalName}}StrArr
-	{{- else}}
-	{{.LocalName}} = make([]{{if .StarExpr -}}*{{- end -}}{{.GoType}}, len({{.LocalName}}StrArr))
-	for i, v := range {{.LocalName}}StrArr {
-	` + fmt.Sprintf(fType, "converted", "v") + errorCheckingTmpl + `
-		{{.LocalName}}[i] = ` + convertedVar + `
+	// Lists of scalars and enums are given as repeated parameters, as one
+	// comma separated value or as one JSON array.
+	value := "strings.TrimSpace(v)"
+	if f.GoType == "string" {
+		value = "v"
 	}
-	{{- end}}
-} else {
-{{- end}}
-	{{- if (Contains .GoType "[]string")}}
-		{{.LocalName}} = strings.Split({{.LocalName}}Str, ",")
-	{{- else if and (and .IsBaseType .Repeated) (not (Contains .GoType "[]byte"))}}
-	err = json.Unmarshal([]byte({{.LocalName}}Str), &{{.LocalName}})
+	element := f
+	element.Repeated, element.StarExpr, element.LocalName = false, false, "converted"
+	listTmpl := `
+var {{.LocalName}} []{{.GoType}}
+for _, v := range queryList({{.LocalName}}StrArr) {
+	` + fmt.Sprintf(fType, "converted", value)
+	if needsErrorCheck {
+		listTmpl += `
 	if err != nil {
-		{{.LocalName}}Str = "[" + {{.LocalName}}Str + "]"
+		return nil, errors.Wrapf(err, "couldn't decode {{.LocalName}} from %v", {{.LocalName}}StrArr)
+	}`
 	}
-	err = json.Unmarshal([]byte({{.LocalName}}Str), &{{.LocalName}})
-	{{- else}}
-	err = json.Unmarshal([]byte({{.LocalName}}Str), &{{.LocalName}})
-	{{- end}}
-{{- if and (.IsBaseType) (not (Contains .GoType "[]byte"))}}
-}
-{{- end}}`
-
-		var jsonConvTmpl string
-		if !f.Repeated {
-			jsonConvTmpl = singleCustomTypeUnmarshalTmpl + errorCheckingTmpl
-		} else {
-			jsonConvTmpl = repeatedUnmarshalTmpl
-			if repeatedFieldType != "string" {
-				jsonConvTmpl = repeatedUnmarshalTmpl + errorCheckingTmpl
-			}
-		}
-		// log.Debugf("[UnmarshalNonBaseType] = %v", jsonConvTmpl)
-		code, err := ApplyTemplate("UnmarshalNonBaseType", jsonConvTmpl, f, TemplateFuncs)
-		if err != nil {
-			panic(fmt.Sprintf("Couldn't apply template: %v", err))
-		}
-		return code, false
+	listTmpl += `
+	{{.LocalName}} = append({{.LocalName}}, ` + createDecodeTypeConversion(element) + `)
+}`
+	code, err := ApplyTemplate("UnmarshalList", listTmpl, f, TemplateFuncs)
+	if err != nil {
+		panic(fmt.Sprintf("Couldn't apply template: %v", err))
 	}
-	return fmt.Sprintf(fType, f.LocalName, f.LocalName+"Str"), needsErrorCheck
+	return code, false
 }
 
 // createDecodeTypeConversion creates a go string that converts a 64 bit type
 // to a 32 bit type as strconv.ParseInt, ParseUInt, and ParseFloat always
-// return the 64 bit type. If the type is not a 64 bit integer type or is
-// repeated, then returns the LocalName of that Field.
+// return the 64 bit type, and to a pointer if the field is one. Returns the
+// LocalName of that Field if it needs no conversion, and nothing if the
+// ConvertFunc sets the field itself.
 func createDecodeTypeConversion(f Field) string {
-	if f.Repeated {
-		// Equivalent of the 'default' case below, but taken early for repeated
-		// types.
+	if f.IsList() {
 		return f.LocalName
 	}
-	fType := ""
-	// log.Debugf("[gengokit/httptransport/httptransport.go][createDecodeTypeConversion] field=%+v\n", f)
-	// goType := strings.TrimPrefix(f.GoType, "*")
+	if !f.isScalar() {
+		return ""
+	}
+	fType := "%s"
 	switch f.GoType {
 	case "uint32", "int32", "float32":
 		fType = f.GoType + "(%s)"
-	default:
-		fType = "%s"
 	}
 	if f.IsEnum {
 		fType = f.GoType + "(%s)"
 	}
-	// 如果字段是标量类型并且是指针类型
-	// log.Debugf("[createDecodeTypeConversion] field[%v].GoType=%v.IsBaseType=%v, filed.StarExpr=%v\n", f.Name, f.GoType, f.IsBaseType, f.StarExpr)
-	if f.IsBaseType && f.StarExpr {
-		return fmt.Sprintf("&"+fType, f.LocalName)
-	}
-	return fmt.Sprintf(fType, f.LocalName)
-}
-
-func getZeroValue(f Field) string {
-	if !f.IsBaseType || f.Repeated || f.StarExpr {
-		return "nil"
+	conversion := fmt.Sprintf(fType, f.LocalName)
+	if !f.StarExpr {
+		return conversion
 	}
-	switch f.GoType {
-	case "bool":
-		return "false"
-	case "string":
-		return "\"\""
-	default:
-		return "0"
+	if f.IsEnum {
+		return conversion + ".Enum()"
 	}
+	return fmt.Sprintf("proto.%s(%s)", strings.Title(f.GoType), conversion)
 }
 
 // The 'basePath' of a path is the section from the start of the string till
diff --git a/gengokit/httptransport/types.go b/gengokit/httptransport/types.go
index 5eaf9a4..193b317 100644
--- a/gengokit/httptransport/types.go
+++ b/gengokit/httptransport/types.go
@@ -75,8 +75,6 @@ type Field struct {
 	// given an identifier of "repeated", meaning it will represented in Go as
 	// a slice of it's type.
 	Repeated bool
-
-	ZeroValue string
 }
 
 // OneofField contains the distillation of information within an []*svcdef.Field
diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index 04ac98c..447e355 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -412,6 +412,110 @@ func (h httpError) Headers() http.Header {
 	return h.headers
 }
 
+// formatField returns the text of the named field of msg in a path or query
+// and whether it is set: scalars as they print, enums as their number and
+// anything else as JSON, in the form it has in a body.
+func formatField(msg proto.Message, name string) (text string, ok bool, err error) {
+	m := msg.ProtoReflect()
+	field := m.Descriptor().Fields().ByTextName(name)
+	if field == nil {
+		return "", false, errors.Errorf("%s has no field %q", m.Descriptor().FullName(), name)
+	}
+	if !m.Has(field) && (field.HasPresence() || field.IsList() || field.IsMap()) {
+		return "", false, nil
+	}
+	if !field.IsList() && !field.IsMap() && field.Message() == nil {
+		if _, bytes := m.Get(field).Interface().([]byte); !bytes {
+			return fmt.Sprint(m.Get(field).Interface()), true, nil
+		}
+	}
+	only := m.New()
+	only.Set(field, m.Get(field))
+	marshaller := protojson.MarshalOptions{
+		AllowPartial:    true,
+		UseProtoNames:   true,
+		UseEnumNumbers:  true,
+		EmitUnpopulated: true,
+	}
+	data, err := marshaller.Marshal(only.Interface())
+	if err != nil {
+		return "", false, errors.Wrapf(err, "couldn't encode field %q as json", name)
+	}
+	var fields map[string]json.RawMessage
+	if err := json.Unmarshal(data, &fields); err != nil {
+		return "", false, err
+	}
+	return string(fields[name]), true, nil
+}
+
+// unmarshalField sets the named field of msg from its JSON form.
+func unmarshalField(msg proto.Message, name string, text string) error {
+	if !json.Valid([]byte(text)) {
+		return errors.Errorf("%q is not json", text)
+	}
+	m := msg.ProtoReflect()
+	only := m.New()
+	unmarshaller := protojson.UnmarshalOptions{
+		AllowPartial:   true,
+		DiscardUnknown: true,
+	}
+	if err := unmarshaller.Unmarshal([]byte(fmt.Sprintf("{%q: %s}", name, text)), only.Interface()); err != nil {
+		return err
+	}
+	field := m.Descriptor().Fields().ByTextName(name)
+	if only.Has(field) {
+		m.Set(field, only.Get(field))
+	} else {
+		m.Clear(field)
+	}
+	return nil
+}
+
+// addField adds the named field of msg to the query, if it is set.
+func addField(values url.Values, msg proto.Message, name string) error {
+	text, ok, err := formatField(msg, name)
+	if err != nil {
+		return err
+	}
+	if ok {
+		values.Add(name, text)
+	}
+	return nil
+}
+
+// stringList returns the query parameters for a list of strings. A single
+// string which would be taken for more is given as JSON.
+func stringList(list []string) []string {
+	if len(list) == 1 && (list[0] == "" || strings.ContainsAny(list[0], ",[")) {
+		if data, err := json.Marshal(list); err == nil {
+			return []string{string(data)}
+		}
+	}
+	return list
+}
+
+// queryList returns the elements of a list in the query, given as repeated
+// parameters, as one comma separated value or as one JSON array.
+func queryList(values []string) []string {
+	if len(values) != 1 {
+		return values
+	}
+	if values[0] == "" {
+		return nil
+	}
+	var elements []json.RawMessage
+	if err := json.Unmarshal([]byte(values[0]), &elements); err == nil && elements != nil {
+		list := make([]string, len(elements))
+		for i, element := range elements {
+			if err := json.Unmarshal(element, &list[i]); err != nil {
+				list[i] = string(element)
+			}
+		}
+		return list
+	}
+	return strings.Split(values[0], ",")
+}
+
 // Server Decode
 {{range $method := .HTTPHelper.Methods}}
 	{{- range $binding := $method.Bindings}}
@@ -611,8 +715,6 @@ func CtxValuesToSend(keys ...string) httptransport.ClientOption {
 	// that encodes a {{ToLower $binding.Parent.Name}} request into the various portions of
 	// the http request (path, query, and body).
 	func EncodeHTTP{{$binding.Label}}Request(_ context.Context, r *http.Request, request interface{}) error {
-		strval := ""
-		_ = strval
 		req := request.(*{{GoName $binding.Parent.RequestType}})
 		_ = req
 
@@ -634,54 +736,27 @@ func CtxValuesToSend(keys ...string) httptransport.ClientOption {
 
 		// Set the query parameters
 		values := r.URL.Query()
-		var tmp []byte
-		_ = tmp
 		{{- range $field := $binding.Fields }}
 			{{- if eq $field.Location "query"}}
-				{{if and $field.Repeated $field.IsBaseType}}
-					{{- if (Contains $field.GoType "[]string")}}
-					values["{{$field.QueryParamName}}"] = req.{{$field.CamelName}}
-					{{- else}}
-					for _, v := range req.{{$field.CamelName}} {
-						values.Add("{{$field.QueryParamName}}", fmt.Sprint(v))
-					}
-					{{- end}}
-				{{else if or (not $field.IsBaseType) $field.Repeated}}
-					tmp, err = json.Marshal(req.{{$field.CamelName}})
-					if err != nil {
-						return errors.Wrap(err, "failed to marshal req.{{$field.CamelName}}")
-					}
-					strval = string(tmp)
-					values.Add("{{$field.QueryParamName}}", strval)
-				{{else}}
-					{{/*如果是指针类型标量*/ -}}
-					{{if $field.StarExpr}}
-					if req.{{$field.CamelName}} !=nil {
-						values.Add("{{$field.QueryParamName}}", fmt.Sprint(*req.{{$field.CamelName}}))
-					}
-					{{else}}
-					values.Add("{{$field.QueryParamName}}", fmt.Sprint(req.{{$field.CamelName}}))
-					{{end}}
+				{{- if and $field.IsList (eq $field.GoType "string")}}
+				values["{{$field.QueryParamName}}"] = stringList(req.{{$field.CamelName}})
+				{{- else if $field.IsList}}
+				for _, v := range req.{{$field.CamelName}} {
+					values.Add("{{$field.QueryParamName}}", fmt.Sprintf("{{if $field.IsEnum}}%d{{else}}%v{{end}}", v))
+				}
+				{{- else}}
+				if err := addField(values, req, "{{$field.QueryParamName}}"); err != nil {
+					return err
+				}
 				{{- end }}
 			{{- end }}
 		{{- end}}
 		{{- range $oneof := $binding.OneofFields }}
 			{{- if eq $oneof.Location "query"}}
 				{{- range $option := $oneof.Options }}
-					{{if or (not $option.IsBaseType) $option.Repeated}}
-						if val := req.Get{{$option.Name}}(); val != {{$option.ZeroValue}} {
-							tmp, err = json.Marshal(req.Get{{$option.Name}}())
-							if err != nil {
-								return errors.Wrap(err, "failed to marshal req.Get{{$option.Name}}()")
-							}
-							strval = string(tmp)
-							values.Add("{{$option.QueryParamName}}", strval)
-						}
-					{{else}}
-						if val := req.Get{{$option.Name}}(); val != {{$option.ZeroValue}} {
-							values.Add("{{$option.QueryParamName}}", fmt.Sprint(val))
-						}
-					{{- end }}
+				if err := addField(values, req, "{{$option.QueryParamName}}"); err != nil {
+					return err
+				}
 				{{- end }}
 			{{- end }}
 		{{- end}}
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index e258ccf..dd472f8 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x5b\x8f\x1b\x39\x76\xf0\xb3\xf4\x2b\x38\x85\x99\xb1\xd4\x9f\xba\x34\x5f\x80\x04\x9b\x1e\x74\x00\x4f\xdb\x73\xd9\x1d\xdb\xbd\x76\x7b\x06\x88\x61\x78\x29\x15\x25\x71\xbb\xaa\x58\x26\x59\x7d\x59\xa5\x5f\xf2\xb2\x01\x12\x20\x40\x9e\xf2\x10\x2c\xf2\x94\xd7\x20\xcf\xf9\x3d\x3b\xc1\xfe\x8b\xe0\x9c\x43\xb2\x58\x52\x95\x2e\x9e\xd9\x60\x11\x64\x80\xc4\xea\x22\x79\x78\x78\x78\x78\xee\xe4\x4e\xa7\xec\x42\x65\x82\x2d\x45\x29\x34\xb7\x22\x63\xb3\x7b\x36\xe3\x5a\x95\x29\x7b\xf2\x82\x3d\x7f\x71\xc5\x9e\x3e\xf9\xe6\x2a\x1d\x4e\xa7\xec\xa5\xd0\x75\x59\xca\x72\x49\x1d\xd8\xad\xcc\x73\xa6\x6e\x84\xbe\xd5\xd2\x0a\x66\x57\xd2\xb0\x85\xcc\x05\x76\xfe\x4e\x68\x23\x55\x79\xc6\xd6\xeb\xd4\xfd\x7e\x78\x88\x1a\xd8\x13\x6e\x45\xdc\x0a\x7f\x3f\x3c\x0c\x87\x15\x9f\x5f\xf3\xa5\x80\x96\x4b\xfa\xf9\x9c\x17\xd8\x32\x9d\xb2\x2b\x3f\x07\x9b\xab\xd2\x72\x59\x1a\x56\x08\xbb\x52\x99\x61\x56\xb1\x82\x5f\x0b\x26\xcb\x4c\xde\xc8\xac\xe6\x39\x13\x65\x56\x29\x59\x5a\xc3\x16\x5a\x15\xcc\x08\x7d\x23\xe7\xc2\x4c\x00\x92\x16\xef\x6b\x61\x2c\xe3\x65\xc6\xb4\x30\x95\x2a\x8d\x60\xf6\xbe\x12\x08\x09\xba\xc2\x8a\x94\x11\x0d\x94\x09\xe3\x86\xdd\x8a\x3c\x87\x7f\x45\x39\x57\x99\xd0\x06\x00\x00\xbc\x4c\xb8\xbf\x17\x4a\xbb\x81\x08\x6d\x82\x1f\x38\x50\x6a\xc1\x54\xad\x99\xa9\xab\x4a\x69\xa0\xb4\xd5\xbc\x34\xf0\x1b\xa6\x93\x3c\x97\xbf\xe1\x56\xaa\x12\xa0\x2d\x94\x2e\xb8\x35\xe9\x70\x28\x0b\xec\x31\x1a\x0e\x92\xd9\xbd\x15\x26\x19\x0e\x12\x58\xbb\xb8\xb3\xf0\x13\xd1\x90\xe5\x72\xfa\x6b\xa3\x4a\xf8\xb0\x28\xf0\xbb\x54\xf4\xff\xa7\x52\xd5\x56\xe6\xf0\x47\x29\xec\x74\x65\x6d\xe5\x7f\xd7\x1a\x3f\x1b\xab\xe7\xaa\xbc\x71\x3f\x65\xb9\x34\xc9\x70\x38\x48\x96\xd2\xae\xea\x59\x3a\x57\xc5\x74\xa9\x4e\xaf\xa5\x9d\xc2\xff\x79\x5a\x24\xc3\x01\x2f\xef\xab\x19\x4b\x96\x4a\x2d\x73\x91\x2e\x55\xce\xcb\x65\xaa\xf4\x72\x5a\x69\x65\xd5\xac\x5e\x4c\x71\xfd\xd3\xeb\x52\xdd\x96\x53\xec\x9d\x0c\x07\x59\xad\x71\x91\x47\x0c\x6d\x86\x24\xc3\x81\x28\x2a\x7b\xcc\xbc\xae\x7f\x32\x1c\x2c\xa4\xc8\xb3\x82\x9b\xeb\x23\x46\x47\x63\x92\xe1\xc0\x58\x5d\xcf\xed\x11\xc3\xfd\x80\x64\x38\xb0\xb2\x10\xc6\xf2\xa2\x3a\x62\x78\x34\x26\x19\x0e\x6e\x35\xaf\x2a\xa1\xcd\x11\x00\x9a\x21\xdb\x5b\xaa\x65\x9e\xf3\x69\x51\xdf\x25\xed\x96\xea\x7a\x39\x15\x5a\x2b\x8d\x9c\xb6\x63\xa2\xc0\x79\xf8\xc5\xb3\xdf\x8e\x01\xf8\x03\x10\x59\xaf\x4f\x99\x5c\x30\xf1\x9e\xa5\x17\xaa\x5c\xc8\x65\x7a\x15\x4e\x42\xc2\xf3\x3c\x61\x49\xc9\xad\x49\xd8\xc3\x43\x1b\x37\xf8\x7a\x2a\x15\xfe\x9b\x2e\x81\xc3\x01\x94\x28\x33\xe8\x78\x00\xd4\xa5\xae\xe6\x1e\xea\x16\x9e\xd8\xd8\xdb\x32\x2d\x84\xe5\x19\xb7\x7c\x73\xd2\x83\xa7\x84\x5f\xcd\x89\xef\x39\x5f\xa1\x83\x47\x27\x9a\x0b\xce\xee\x11\x00\xdc\x51\x3f\x8a\xd8\xf0\xeb\x88\x29\x70\x60\x8c\xe3\x78\x38\x1c\xde\x70\x0d\xd2\xea\x1d\x3b\x67\x8b\xc2\xa6\xaf\x2a\x2d\x4b\x4b\x7f\xa3\x00\x4b\x2f\x54\x51\x71\x2d\xe8\x93\x93\x3e\xe9\x63\xab\x24\x7d\x69\x2d\x33\x7d\x2e\x6e\x5f\x81\x2c\xd6\xd4\x48\xd2\x2c\x7d\xae\xaa\x8b\x5c\x99\xe6\x6b\x7a\xa1\xaa\x7b\xfa\x83\x98\x37\xfd\x5e\xf3\x6a\x38\x98\x4e\x99\xdb\x4f\xcf\x86\x24\x95\xa1\x2b\x8a\xa4\xf4\x71\x89\xe3\x1a\x21\x93\x3e\x71\x3f\xe1\xb3\x13\x1f\xe9\x53\xf8\x17\x3e\xf8\x23\x9d\xbe\xc2\x1f\xf0\x29\x3a\xa6\xe9\x95\xff\x0d\x0d\xcd\xf1\x83\xde\xb2\x5c\x7e\xc7\xf3\x1a\xd7\x1d\xc9\x95\xf4\x4b\xf8\xfd\x8c\x9b\x6b\xa0\xde\xf4\xe4\xa0\xff\xd8\xd3\xa0\xd9\x0e\x1b\x00\xff\x4d\x51\x83\x7e\x53\x32\x4e\xea\x4d\x4f\x98\xb4\x8f\x0c\xab\x8d\x58\xd4\x39\xaa\xa9\x45\x5d\xce\x61\xe9\x86\xd9\x15\xb7\xac\x14\xa0\xa5\x14\x53\x15\xda\x06\x4c\xc1\xd8\x4a\xe8\x53\xaf\x06\x00\xe0\x8c\x1b\x69\x52\xf6\xa5\xd2\x4c\xdc\xf1\xa2\xca\xc5\x84\xdd\xab\x9a\x15\x72\xb9\xb2\xac\xe2\x06\x54\x64\x84\xb0\x55\x8c\x87\x89\x68\x9e\x4a\xab\xac\x9e\x0b\x03\xe0\x78\x89\x1c\x90\x7e\xcd\xcb\x2c\x07\x1c\x6f\xa5\x5d\x31\xc1\xe7\x2b\xa7\xe9\xd9\xc8\xcf\x3e\x66\xb7\x52\x8b\x8c\xd5\x15\x01\x35\x95\x98\xcb\x85\x9c\xb3\x8a\xdb\x55\xca\x46\xdf\x20\x7e\xd2\x00\xfc\x19\x9f\xe5\xf7\x8c\xb3\x42\x1a\x4b\x56\x02\xcb\x84\x91\xcb\x12\x86\xca\xf2\x46\x5d\x83\xba\x17\xec\x15\xd9\x08\xc1\xaa\x40\x14\x05\xc0\x69\x56\x40\x3c\x00\x20\x3c\x25\xd3\xf1\x70\x3a\x0d\xd4\x9d\xe7\x52\x94\xb6\x4d\x5d\xab\xd8\x5c\xe5\xb9\xc0\x71\xde\x40\xc9\xef\xc1\x8c\x21\x70\x22\x8b\xcc\x15\x59\xc2\x82\x00\xa0\x91\xe5\x32\x27\x53\x82\x68\x25\x81\xc2\x85\x40\x4a\x46\xf8\xca\xd2\x0a\xbd\xe0\x73\xd1\xb7\x13\x00\x2c\x4c\xd6\x6d\x24\xd5\x30\x19\x6b\x4b\x10\x38\x80\x17\x6e\x3d\x73\x55\xcc\x64\x89\x74\x2a\x1c\x8a\xd1\xc6\x4e\x9c\x29\x65\x6b\x5d\x32\x69\x61\xc5\x80\xe0\x9c\xe7\xb9\xd0\x60\x31\x71\x8f\x6c\x3a\xc4\xe5\x6c\x11\x74\x3d\x1c\xbc\x2e\xc3\xfa\x44\xb6\x5e\xa7\x7e\x04\x99\x80\x4e\x12\xac\xd7\x9a\x97\x4b\xc1\x3e\x96\xec\xec\x9c\x85\x3e\xcf\x68\xcb\x48\x2c\x7f\x2c\xdd\x18\x3f\x0b\x63\x2c\x2c\x35\xf5\x1f\x87\xeb\x35\x09\x2e\xb2\x2e\x03\x46\xfb\xa7\x00\x06\x66\xa3\x68\x11\x63\x16\x4d\x3a\x9a\xdb\x3b\xe6\xac\x34\x10\xbb\xf0\xef\x04\x18\xe6\x64\xbd\xfe\x4a\x41\x1f\xf6\xb1\x4c\x5f\x92\x09\x7a\x75\x5f\xf9\x05\x8e\xd9\x68\xa3\x07\x19\xa6\x51\x97\x09\x09\xb8\x31\x50\xcb\xdb\xad\xf8\x0d\x10\x15\x69\xc7\xca\x01\x19\x98\x7c\x3c\x1c\x80\x22\xd0\x9a\x7d\x74\xce\x4a\x99\x03\x84\x81\xdb\xaf\x52\xe6\x08\x64\x38\x78\x18\xfa\x6f\x1e\x7a\xba\x17\xa7\xf1\x04\x00\x0c\x1f\x02\x39\x81\x98\xcf\xe0\x98\xc5\x14\xc5\x83\xfc\xb1\x15\x48\xd1\x07\xe8\x7c\xca\x62\x2a\x7f\x6c\x45\x1f\xa1\x01\x56\xd7\xca\x0c\x10\x3d\x1a\x16\xb3\xc9\x78\x7b\xbb\x89\x66\xb8\x38\x00\xdb\xbd\x4b\xde\x31\x08\x27\x6a\x0d\xdb\x12\x5c\x84\xe8\x33\x91\xbd\xd9\x8e\x81\x16\xef\x61\x21\x0e\xc2\x16\xdd\xb6\x76\x7b\x38\x18\xdc\x84\xbd\x33\xe9\x06\x03\x21\x2a\xd0\x67\x7b\xd7\xb6\xb7\x0d\xf6\xcd\x7f\xbd\xa1\xed\x18\x3c\x0c\x89\xc8\xb4\x27\xf1\xde\x80\x72\x7c\x9c\xe7\x4f\xef\xe6\xa2\xb2\xa8\xa7\x0c\x89\xd8\x40\x29\xd4\x50\xe0\xb2\xb8\xb3\xd9\x1c\x56\xdc\x46\x94\x4d\x1d\x7e\x41\xfa\x4c\x66\x59\x2e\x6e\xb9\x26\x2f\xf0\xb5\xf1\x7e\x21\x38\x41\x55\x95\xdf\x83\x88\x01\xb1\x69\x01\x78\x11\x7a\xa3\x5e\x10\x37\x42\xdf\x87\x6d\x83\xf3\x02\x12\xc4\x78\xa9\x31\x9d\xb2\x17\x15\x68\x0d\x90\x9c\x93\x48\x70\xcd\x79\xc9\x66\x02\x75\x8d\xc8\x60\xd8\xec\x9e\x95\x40\x76\xab\xe0\xbb\xb8\x9b\xe7\x75\x26\x32\xf2\x02\x67\x02\x50\x20\xdd\x9c\xa5\x5b\xd4\x18\x35\x38\x4d\x58\xf2\xca\x72\x5b\x9b\x64\xc2\x92\x4b\x59\x2e\x93\x71\x38\xf7\x27\xd1\xc1\xef\x1b\xcf\x3a\xa8\x32\x69\xb0\x49\xd3\x94\x1c\x2e\x64\x1e\x59\xba\xcf\x67\xe7\xac\xe0\xd5\x1b\x6a\x7a\x4b\xe4\x5f\x3f\xc0\xae\x6f\x1e\x98\x2e\xc9\x37\x18\x24\x11\x1b\x25\x67\x6c\xfd\x30\x71\x43\x9d\x19\xf9\x30\x1c\x0e\x60\x37\xde\x01\x2a\xc8\xae\x08\x32\xa0\xb5\x26\x8e\x7b\x37\x61\xea\x1a\x9a\x3d\x62\x6f\xc4\xdd\xdb\xcf\xd9\x47\xea\x9a\x38\xb0\xe2\xa5\x9c\x8f\x1a\x0b\x6f\x31\x4a\x9e\x7a\x10\x61\x07\x1f\x7d\x62\x1e\xb1\x4c\x09\xc3\x4a\x65\x99\xb8\x93\xc6\x7e\xce\x8c\x10\xf1\xc6\x07\xde\x41\x93\x1e\x90\x1a\x8f\x1d\x3f\x67\x22\x17\x56\x8c\x3c\x06\xd8\xd6\x2c\x40\x96\xf3\x06\xfd\x40\xbe\xc3\x09\x25\x17\x08\xe2\xfc\x9c\xb5\x48\x46\xcb\x1b\x74\x8a\x52\x76\x1e\x61\x3e\xea\xec\x02\xb8\x23\xf2\x2d\x92\xd3\xb1\xfb\x96\xcf\x44\x2e\xb2\x86\x1b\x28\x84\xb2\x14\xd6\xf3\x2e\xf0\x7b\xa0\x1e\xb2\xf0\xed\x4a\x94\xa1\x55\x45\xec\xea\x80\x11\xd7\x4d\xe8\x94\xb9\x83\x50\x53\x67\x46\x71\x19\x4e\xc1\x1d\x39\x07\xa3\x46\xcb\x39\x9a\x59\x11\x97\xde\xae\xe4\x7c\x85\x43\x8d\x28\xbb\x50\x70\x9a\xdc\x8d\xf6\x76\x8c\xd2\x4e\x8f\x6f\xaf\x0a\x85\x2b\x31\xf0\x64\x5b\x0a\x77\x08\xe6\x61\xdf\xba\x3e\x58\x36\x6d\x21\x35\x71\xeb\x44\x8a\x6b\x31\x17\xf2\x86\x2c\x3e\x5c\xa2\x5a\xb4\xd6\x9d\xb2\x57\x42\x04\x30\x11\x14\x6c\xf0\x86\x68\x38\xf7\x80\x28\x70\x64\x26\x2c\x97\x39\x1a\x8d\xfe\x38\x61\x30\xc7\x19\xbb\x3c\x97\xf6\x3e\xdd\x25\x42\x5a\x6b\x8f\x25\xc9\xd1\x14\xfd\x3f\x39\xf3\xbf\x47\xce\xb4\x86\x4d\xba\x8d\xbc\x3e\xb1\x73\x78\x80\xe2\x50\xd7\xf3\xab\x97\x97\x17\x64\x61\x1d\xed\x7b\x82\x19\x17\x0d\x2f\xf8\xb5\x30\x8d\x31\xd0\xe8\x73\x7e\xc3\x65\xce\x67\xb9\x20\xb7\x61\xf9\xf2\xf2\x82\xf5\x38\x03\x69\x63\x20\x36\x90\x47\x0d\xa8\xc8\x3d\x51\x15\xb9\xb6\x69\x9a\xb6\x62\x31\x29\x0d\x22\xd3\x62\xdc\x37\x11\x6c\x97\x89\x3a\x1a\xd8\xf0\x37\x6f\xfb\x21\xc1\xf6\x76\xb5\x7e\x21\x16\x4a\x8b\x11\x60\xfb\xcc\xc5\x94\xae\x94\xb3\x3e\xc7\x13\x34\xc0\xdb\xf3\x9c\x83\xe1\x24\xca\x6c\xd4\xfa\x1c\xd6\x93\xa6\xe9\x18\x03\x1d\xeb\x35\xbb\x52\xdf\xaa\x5b\xa1\x59\x6b\x05\x18\xd9\x71\xa6\xe1\xa7\x80\x11\xe1\xb1\x06\x37\x69\x2f\xf7\xae\xd7\x1e\x66\x60\xb9\x33\xd6\x5e\x56\x08\xd1\x8c\x80\x07\x9b\x53\xd6\xc1\xa5\x20\x22\x06\x4f\x30\x52\x0e\xeb\x8f\x7a\x38\xeb\x18\x3b\x3c\x2d\x3b\x3b\x38\x5f\x07\x7a\xb4\x28\x91\xa6\x29\x7c\x04\xda\x75\xe8\xdc\x66\xc1\x9b\xae\x73\x30\xce\xbb\xf7\x3b\x18\xfa\xa4\xe5\x22\x38\x7f\x04\x77\x75\x8b\xc8\x8c\x6d\x50\xd9\xc5\x43\x22\x83\xde\xb9\x59\x2e\x50\x01\x92\x2a\xc2\xd1\xaa\x66\xb9\x87\xaf\xf4\x40\xb7\xd7\xb0\x93\x66\xaa\x31\x8b\xbd\x9c\x5d\xfe\x2f\xb8\x47\x3f\xad\x03\xfc\x0e\x80\x56\x2d\x17\x6a\x8b\x92\x74\xec\x80\x9b\x62\xa7\xea\x48\x4f\xb8\xfa\x40\x27\xd8\x51\x98\x58\x7e\x3f\x79\xa7\x53\xb6\xeb\x74\x30\x09\xe2\xb0\x1d\x23\x4e\x69\x80\xeb\xf1\x25\xec\x0f\xc6\x89\xe6\xaa\xbc\x11\x1a\x84\x29\x9e\x02\x12\xa1\xdb\x6c\xe6\xbd\x5d\x0c\xa0\xd5\x46\xe8\xd3\x4c\x15\x5c\x96\xbb\x3a\xa7\xec\x52\xcb\x82\x6b\x99\xdf\xfb\xf0\x56\x1c\x0b\x23\x26\xd9\xb5\x8e\xd1\xbb\x6d\xe6\x80\xb5\xbc\x14\xef\x37\xdc\xee\x4d\x6f\x3b\x04\x3e\xd0\xd1\x76\x63\x0e\x71\xb4\xc3\x4e\xbe\xdf\xb1\x4d\x24\x78\x0e\xda\xa6\x9d\x32\xaa\x73\x9f\x68\x84\xef\xd2\xb7\x51\xfb\xb7\xc0\xa7\x2a\x55\xa3\x19\xbb\xba\x55\xf9\xfd\x41\xfb\xb4\x73\x21\x5d\x1b\xd5\x15\x09\xd9\xb5\x53\xa6\xa2\x98\xc8\xc1\xc1\xa4\x56\x00\xaa\x6b\xb7\xbe\x16\x79\x25\xb4\x19\xd2\x02\x3a\x15\x69\xb7\x00\x2a\x32\xe6\xd3\x38\xe9\xb3\x27\xe3\xcd\x0e\x80\x2f\x88\xd1\xeb\x09\xbb\x69\x2c\xbe\x22\x98\xaa\x37\xad\x10\x0c\x66\xa3\x05\xbb\x16\xf7\xb8\xdd\x19\x18\x85\x33\x65\x57\x40\x63\x3f\x8b\xcb\xe3\xb2\xd1\xf5\xd8\xb9\x1f\xd0\x35\xcf\x59\x0e\xfb\xe5\xa0\x70\xe7\x74\x61\xb8\xf5\x82\x97\xaa\x94\x73\x9e\x7f\x2d\x78\x26\xf4\x2f\xc4\xbd\xf7\x4d\x60\x22\xa3\x5c\x10\xd8\x3a\x57\xcf\x83\x98\xcf\x85\x8f\x7d\x08\x69\x57\x42\xbb\x99\xa1\x1d\x48\x71\x1e\xd6\xfa\xbd\xb4\x2b\xcc\x43\x90\x34\x84\xb5\xbe\xf9\xec\xed\x78\x6f\xc7\x1e\xec\x46\xd7\xe3\x06\x82\xb3\xfa\xdd\xf6\xcd\xed\x1d\xea\xa8\x23\xec\x4a\x8a\x34\x1f\x6d\x57\x3e\x17\xb7\xd1\x68\x9a\x1e\xb3\x0e\x2e\x74\xc4\x66\x7c\x7e\x4d\xa5\x0d\xee\xcc\x50\x88\x1e\xd6\x5a\x0a\xf4\xcd\x52\xf6\x0d\x8a\x57\x17\xec\x77\xec\x2a\x67\x12\x7c\x36\xbf\x05\x2e\x96\x6d\x15\xcb\x24\xcf\x29\xe0\x9d\x73\x2b\x34\x9b\xe7\xca\x88\x09\x75\x6a\x60\x12\x83\xb6\xb0\x1b\x41\x33\xa9\xcf\x94\xbe\x5c\xa8\xb2\xdc\x61\x9c\x52\x27\x6f\x9c\x8e\x7a\x8c\x8c\xf8\xc8\x81\x85\xb0\x19\x6b\x1d\x44\x5f\xab\xeb\x25\x1e\x3f\x17\x72\x6d\x17\x59\x0c\xb6\xbd\x9a\xee\xb8\xec\xe0\x86\xeb\x2e\xd1\x13\x5c\x98\x6d\x27\x7f\xb0\xee\x36\x28\x23\xaf\x67\xcb\xb2\x74\x54\x43\xf6\x04\x42\x79\xcf\xd3\x2d\xe2\xe1\x21\xed\x8a\x00\x27\x93\x2d\x0f\x75\x97\x65\xd9\x98\x9e\x3d\x5a\x2b\x32\x3d\xf7\x48\x2f\x72\x83\x07\xaa\x6d\x9a\x06\x1a\x8c\xd0\xaf\x44\x30\xce\x4e\x6d\x7e\x05\x11\xe7\x0f\x50\xf0\x5d\xf6\x9a\xea\xec\xd4\x81\xda\xa2\xe9\x19\x63\x6c\xd7\x36\x4d\x9a\x79\x07\x0f\x5e\xd8\xc2\x09\x00\x1a\x30\x77\xa2\x7e\xbc\xf9\xb2\x43\x2f\x7a\xfb\x65\xb7\x5e\xdc\xad\xe9\x0e\x35\x5f\x9c\x0e\xea\xd1\x8b\x24\x14\x76\xdb\x2f\xfd\x7a\x91\x8c\x11\x40\xe6\x40\xc5\x08\x5d\x83\x11\x03\xea\xfa\x28\xd5\x58\xe5\xf7\x5d\xba\x31\xde\xb6\x1f\x6f\xce\xf4\x5b\x9d\xde\x9a\xd9\x69\x75\x1e\x68\x4f\xee\xb5\x65\x76\x5a\x9d\xad\x5d\xdb\xb5\x8e\x6e\x63\xa6\x2b\xd9\xb3\xdb\xea\x3c\x22\xbd\xb3\xdb\xea\x74\x58\xa0\x92\x35\x57\x2a\x36\x64\x88\xe6\x5d\x9a\x20\x22\x39\x2d\x79\x07\x94\xd1\xb5\xb8\x37\xec\xcd\x5b\x1f\xfe\xdb\x03\xef\xa0\xf4\x58\x91\xb1\x93\x7d\x46\x14\xea\x86\x8a\x4b\xdd\x4c\x3e\x1c\xf8\x60\xe0\x75\x63\x5a\x21\x7a\x6b\x17\x23\xbb\xf1\x81\xc0\xb9\xbd\x4b\xc9\xf0\xb8\x1e\xa7\x2e\xe8\x39\xfe\x9c\xf9\x80\xe0\x80\x00\x87\xa8\x08\xfe\x49\x86\x4c\x08\x82\x81\x10\x05\x98\xd4\x35\xb6\xda\x4e\x8a\x8c\x9d\x37\x56\xe0\xcf\x95\x2c\x47\x27\x45\x36\x69\x3e\x5d\xc2\x18\x82\x9a\xa6\xa9\x8b\x11\x36\xfe\x21\x58\x35\x2e\xb2\x46\x3b\x79\xa8\x7d\xf3\xf5\xd5\xd5\xe5\x87\xc4\xcd\x30\x69\x4f\x54\x2e\x91\xbd\xd8\x39\x4b\x78\x55\xe5\x72\x8e\x65\x2a\x58\xf9\xf7\x39\x9b\xaf\xb8\x36\xc2\x9e\xd7\x76\x71\xfa\xb3\x24\x84\xdb\x60\x56\x17\x3a\x68\x0c\x23\xb6\x72\x5f\xf0\xcc\xee\x0f\xc3\x01\x30\x55\xb2\x4a\x8b\x4c\x2c\x64\x29\x32\xac\xb0\x30\x51\xec\x2d\x9a\x66\x6f\xf0\xad\x5d\xe0\xd3\x0e\xbe\xc5\xa5\x1f\xde\x96\x91\x0b\x96\x22\x7c\x34\xfb\x5b\xd1\xa9\x8e\x80\x5c\x3f\x74\xdc\xff\xae\x66\x17\x91\xa3\x39\xc0\xae\x35\xad\x80\x5c\xf7\xa0\xa7\x20\x16\x48\xdc\xe8\x91\x88\xfe\xe8\x1f\xf2\x78\x61\x85\x1e\x6d\xb6\xd8\x8b\x66\x6b\x47\xd1\x36\x8f\x11\xd0\xf6\x2a\x0f\x0a\x07\xba\x28\x11\x86\xfe\x0a\x0c\xf5\xd7\x77\x60\x4e\xbd\x54\x35\xe0\x30\x1e\x46\x16\x85\xcb\x66\x80\x6e\xe8\x21\x73\xe8\x3a\x93\x65\x26\xcb\x25\x5a\x85\x34\x2c\xfd\x82\x3e\xb9\x58\x77\xe1\xc7\x61\xd0\xda\x75\x4f\xbf\x13\x7a\xc6\xfe\x86\x5d\xa9\xd7\x55\x25\xf4\xc3\x43\x32\x4e\x2f\xb9\x5d\xb5\xfa\xc0\x87\x2b\x51\x54\x39\x96\x01\x27\x63\xcf\x05\xa3\x9e\x7a\xb0\x11\x45\xcf\xe3\x68\xa3\xc3\xa8\x23\xe4\xe8\xec\x3a\x58\x5e\x34\x25\x66\x5b\xda\xf6\x9f\xb3\x10\xa1\xe3\x57\x94\x34\x6b\x19\x7f\x9d\x81\xc7\x01\xca\x88\x8d\x4a\x44\xf7\xd3\x09\x8d\xc2\x17\x98\x44\x7c\x42\xd9\x39\x0a\x45\x22\xff\xf8\x3c\x9b\x9f\xf1\x7b\x68\xd7\x13\xf0\x5a\x32\xb1\xe0\x75\x6e\x41\xdb\x11\x83\x00\x30\x0c\x4b\xaa\x05\xdb\x94\x05\x13\xc6\xd9\x4c\x65\xe8\xb5\xc0\xdf\x64\xf6\x83\xfb\x98\xe0\x3c\x49\xf0\x38\x6f\xb0\x1e\x6d\x3a\xa5\xf9\x53\xc4\x6e\x34\x26\xbf\x86\x33\x83\xb9\x6f\x06\xc8\x02\xa8\x3f\xff\xec\xb3\x94\x7d\xb3\x88\xf0\x8d\xe2\xa9\x74\x6e\x84\xc6\xd2\x6a\xe8\x51\x69\x75\x23\xc1\x25\x5e\xd1\x89\xa2\xbc\xdb\x4c\x10\xb6\x94\x9e\x84\x7e\x8d\x4d\x16\x83\xc6\xba\xad\x06\x3a\xac\x22\x7d\xc6\xb5\x59\x71\x2c\x09\xf3\xf8\x17\xf4\x09\x38\xd2\xd4\xf3\xb9\x10\x99\x21\x1f\xec\xe7\xaf\x5e\x3c\x77\x15\xda\x99\x2f\xa7\x0e\x39\x3e\xc4\xdd\xa3\x53\x1b\x91\xf5\x2f\x8b\xd2\xff\x17\xb0\x5d\x13\xef\x1a\x86\x95\x35\x8d\x2d\x68\x4c\x96\xc6\x0a\x9e\x79\x9a\x91\x90\x8c\x25\x44\x97\x21\x12\x2a\x49\x26\xec\x96\xa4\x60\x9b\x0d\xd0\x00\x81\x5d\x9d\xb0\x77\x70\xfc\x62\x92\x90\xf8\xf9\x9e\xaa\x0d\xd7\xb8\x8b\x67\x00\xcc\x6f\xe8\x03\xc5\x3b\x8b\x86\x80\xa4\x68\xa1\xcb\xa8\x4d\xdb\x46\xcf\x4a\x62\x9e\x2f\x70\x4a\x37\xf4\x29\x85\x59\x03\x20\x3f\x0e\xc8\x3d\x1a\x7f\x1e\x77\x3b\x8f\x74\x2e\x32\xe3\x79\x00\xe7\x03\x05\x83\xdb\x94\xd8\x66\x34\x06\x31\x38\x4a\x9c\x20\x3c\x05\xe9\x97\x4c\x62\x95\x47\x0b\x58\x79\x26\x8b\xf1\x6f\x8b\x07\xcf\x87\xcd\x3a\x30\xa0\xd3\x98\x1c\x1e\x86\xeb\x69\x46\x54\xb9\xb3\x89\xcb\xf5\xa4\xa3\x67\xfa\x15\xb4\x8c\x43\xa4\x63\x80\x47\xe3\x8c\x4a\x56\x53\x62\x87\x6f\xc0\x74\x2c\x79\x1e\x29\x09\xc4\xdd\xcc\x77\x60\x1d\xb1\x59\x83\x38\x02\x3f\x67\x66\x1e\x35\x3b\xf7\xf1\x36\x45\xa6\x70\x18\x43\xc7\x71\xf8\x38\x02\x6a\x8f\x41\xde\x34\x7c\x47\xd2\x4f\x8f\x66\xf5\x82\xbd\x79\x3b\xbb\xb7\x62\xec\x78\x7d\x4d\x7e\xfc\x2d\x8b\x59\x28\x44\xc7\x3d\x9f\xbd\x2e\xdd\xce\x02\x84\x09\xfb\xf4\x76\xfc\xf9\x66\xf4\x9c\xac\x14\x23\x7f\x03\x38\xff\xec\xff\xff\xe5\x5f\x10\x0b\xe5\xa2\x84\x31\x63\xf6\x57\xd4\x46\xfc\x50\x2f\xd8\x39\x9b\xd5\x8b\x37\x67\xf0\xf1\x6d\xbb\x7a\x69\x51\x58\x62\xdc\xc5\x28\x09\xb1\x46\x64\xa1\x47\x9f\x98\x47\x67\x6c\xce\xcb\x52\x59\x56\x81\xb9\xc3\x4a\x55\x9e\xa2\x8c\xf3\x86\x3c\x74\x4c\x26\x00\x7c\xdc\x0a\x46\xb9\xaa\xe0\xe7\xe2\x76\x74\x4b\xe0\x91\x46\x28\x43\xe3\xb5\x47\xc9\x1d\xec\xc5\xc8\xfe\x64\xbf\x82\x59\xce\x9c\x00\xfd\x95\x13\xe7\xb0\x8b\xae\x17\xb7\xd2\x2c\xa4\x13\xe7\x9e\x0b\x51\x50\x45\x9b\xdb\xb8\x19\x86\x49\xbc\xe7\xe1\x2f\xbb\x1c\x52\xcc\xed\xca\x2d\xa2\x49\x03\xaa\x24\x34\x07\xa6\x91\x48\x18\x6f\xf1\xb2\x97\xb1\x38\xd5\x1f\x4c\x72\xcf\x23\xa3\x55\x03\x74\xcc\x62\x6e\x63\xed\xa2\xb9\x55\xda\xcc\xd0\x33\xba\x39\x56\x64\xca\xe1\x9f\x2d\x10\x0e\xa9\xe1\xce\x04\xc9\x5e\x9b\x24\x0a\x52\xed\x31\x4a\x42\x50\x62\xa7\xf6\xdf\x74\x72\x11\xfb\xee\xd4\x0a\x82\xa4\xeb\x3e\x30\x06\x84\xdf\xa9\xd3\x35\xb1\xff\xda\x18\x36\x1a\xfc\xd3\x0d\x97\x17\x4b\xd1\x90\x57\xae\xae\x2e\xfd\x57\x84\x0c\x1c\xbc\x2f\x72\x3f\x88\x42\x14\x3b\x97\xd5\xe9\xf3\xb2\x13\xa7\x60\xb0\x4b\xbf\xbf\x3b\xc8\xc4\x02\xdc\x86\x14\xa4\x76\x8a\x05\xf7\xa3\xb1\xf3\xee\xc0\x17\x6e\xdc\xdf\x8d\xb5\x46\xbe\x30\x9a\x85\x28\x35\x9c\x40\x71\x15\xfc\x2f\x05\xcf\x1e\xe7\xf9\x88\x80\x1f\x56\xe5\xe8\xcb\xfa\x17\xa0\xf0\x26\x2c\x71\x92\x40\x83\xb2\xf5\x06\x0f\xac\xcc\x93\x33\xf1\xf5\x1d\x6d\x41\xf4\x19\x01\xaf\xbd\x50\x03\x57\xe3\xec\x9c\x85\x6b\x2c\x8d\xb8\x73\x76\x1e\xb9\x9d\x8f\xf3\x5c\xdd\x5e\x72\x6d\x25\xcf\xcf\x18\x63\x56\xd7\xce\x28\x7c\x22\xcd\x9c\xeb\xec\x75\x89\xb7\x6e\xce\x9a\x16\x5f\xfe\x01\xeb\x3a\x67\xf1\x84\x5b\x22\x55\x8b\xf7\xdb\x42\xb5\x5b\xac\xf6\x0b\xd6\x4e\xd1\xea\xd0\x68\x11\x33\x1c\xd8\x75\x07\x59\x63\x51\x7a\xac\xcc\x25\x82\x0c\x22\x85\xf8\x05\xcf\x5a\x06\xf6\x00\x10\x68\xd0\x0a\xde\x3a\x78\x94\x97\x5c\xf3\xc2\x78\x77\xe5\x3b\xae\xcd\x48\xc3\x1e\xbe\x63\xe7\xac\x69\x87\xde\xef\x6b\xa1\xef\x9b\xee\x3a\x7d\xfd\xf2\xdb\xf4\x97\xf0\x71\xe4\x07\x44\x5d\x86\xb1\x0f\x43\xd5\x63\x20\x2c\x3c\xd7\xe2\x0d\x0c\xe3\x83\xdf\x72\xc1\x4a\xdf\x2d\xfd\x56\x91\x61\xcd\x12\x5c\x24\xf5\x19\xac\xd7\xae\xf9\x2b\x51\xe2\xa4\x61\x37\xc1\xbb\xe9\x0e\xef\xee\x46\xe1\x45\x29\xd4\x62\x0b\x0f\xf1\x7e\x1b\x0f\x5c\xd6\x8f\x41\x24\x70\xc2\xa7\x18\x96\xf2\xa9\x6e\xef\x31\x9e\x6e\x94\x0a\xf7\x3a\x44\x9d\x12\xb3\x2f\xc9\x49\xf2\xd1\x78\xef\x20\xe8\x75\x6e\xc8\x56\xdf\xf0\x06\xc8\x37\xd2\x47\x24\x30\x3b\x10\xec\x92\x7d\x9d\xb6\x75\x5f\x4e\x33\x98\x48\x7d\x82\xe2\xd9\x96\x98\xd8\x14\x12\x41\x16\xbc\x36\xe2\x12\xc6\x81\xbc\x34\x67\xed\x86\xa7\x65\x5d\x3c\xaf\x8b\x99\xd0\xd0\xe2\x1b\x9e\x16\xd2\xbe\x2e\x2b\x55\xd5\xe0\x12\x67\x41\xac\x3c\x0c\x5b\xf2\x34\x92\x29\xde\x1d\x68\x72\xad\x88\x6a\xfa\x4c\x18\xc3\x97\x62\xbc\xab\xec\xc1\xb3\xc1\xbb\x89\x93\x56\xc1\x9c\x44\x4b\x2a\xea\x15\xe7\x60\x9b\x0b\x43\xce\x18\xe8\x8a\xa1\xf4\x14\x83\x6c\x6a\xa1\xbe\x64\x6c\x63\xbb\xeb\xc8\x9c\xd8\x99\x7e\x45\x25\xb0\x95\x7a\x5d\x71\xc3\x56\x3c\xa3\xb1\x7d\xc9\x56\x4c\xf1\x65\x4c\xe1\x15\x16\x59\x46\x77\x74\xa3\xbb\xbf\xe0\x09\x22\x14\x77\x61\x36\xf5\x4a\x3f\xe4\x78\x81\x99\x97\xba\x9a\x6f\x65\x82\x5b\xc9\x5c\x02\xd2\xce\xe8\xee\xcc\xe5\xee\x4b\xe5\x7a\x0a\x45\x9e\xca\xce\x21\x1b\xf8\x63\x32\x77\x1b\x06\x08\x2f\x20\x77\x5d\x8a\xe6\x8e\xd5\x7c\x05\x7b\x92\x62\x0b\xcf\x8d\x82\x2d\x70\x67\x98\xb4\x42\xad\xf3\xe1\xee\xd9\xbd\xa6\x39\xad\x75\x9e\x4c\x9c\x10\xbf\xe4\x76\x35\xde\x37\x30\xec\x4a\x32\x61\x09\xf0\x1c\x08\x91\x64\xfc\xc1\xb9\x67\x00\xf1\xe1\xb9\xe7\x68\x74\x13\x62\xed\x48\x3d\x97\x64\xec\x91\xf4\x62\xb9\xbc\xc1\xbb\x10\xd6\x51\xad\x50\x16\xe3\x0b\xb2\x34\x96\x97\x73\x91\xb2\xef\x05\x13\x77\x15\x5d\x19\xa3\x6f\x74\x8d\xac\x10\x64\x3e\x36\x93\x64\xd2\xcc\x15\x5e\x9e\x30\xf7\xc6\x8a\x62\x02\xcc\x35\x9d\xb2\x5c\x5e\x8b\x3c\xa4\xaf\x31\x0a\x92\xac\x94\xb1\x67\x48\xbb\x26\x3f\xdd\xac\x60\x14\xa6\xf2\xd5\xc6\xbd\x91\xdb\xe3\x33\xd3\x72\xc1\x3e\xf2\x2c\xf7\x35\x37\x97\x5a\x2c\xe4\x5d\x98\x71\xc2\x12\xbc\xb3\x4a\xb6\x67\xc0\xe3\x9c\x3e\x9f\x4d\xa7\x09\xfb\x7f\x81\x12\x28\xac\xea\x20\x05\x6b\x9d\x83\xf1\x69\x44\x80\x76\x70\x8d\x17\xd8\x0a\xf5\xd0\x5d\xe5\x05\x2b\xa7\xc3\xe3\x70\xf9\x55\xaa\x45\x4e\x9e\x2b\xda\xc8\x28\xbc\x4d\xd5\xf7\xc4\x03\x18\x0c\x02\x40\xb7\x4a\x5f\x4f\x18\x85\xcc\x99\xd3\xf4\xe0\xf8\xb1\x7b\x55\x6b\x52\x23\xd4\x2a\x81\x84\xc9\x38\x8e\x1c\x1e\x19\x9f\x65\x72\xb1\xe5\xfc\x38\xa4\xa1\x95\x12\xff\x91\xa3\x24\xcb\x4c\xdc\x6d\x8f\xf8\xcc\x8f\x71\xd9\xfd\x4d\xaf\x62\x57\x72\x1f\x66\x22\x0b\x6f\xc7\xb8\x8e\xeb\xbd\x51\x86\xdf\xe5\xec\x7b\xc3\xc6\xce\x82\x1c\xcc\x55\x75\xff\xfa\xe5\xb7\xa3\x7a\xc2\xe2\xfe\x5f\x70\x23\x40\x7c\x3c\x3c\x24\xde\x10\x8d\xe2\xb9\x7b\x02\xbf\x1b\x31\xe2\x56\x2c\xb9\x1d\x03\xde\xcc\xee\x0f\x36\x13\xfc\xde\xb6\x8d\xe2\xc0\xdd\xe1\xe1\xdd\x99\xfe\x9d\xfb\x1e\x32\xfe\x3f\xf9\xce\xf7\x05\xd2\x5d\x25\x41\xdf\xd6\x4e\x36\xad\xcd\xae\x70\x78\x53\x61\x80\x92\xc7\xef\xe3\x8c\x1b\xc1\x4e\xe0\x0c\xbf\x7e\xf9\xed\x04\x4d\x7d\xe6\x73\x96\xfe\x33\x9c\xdf\x12\xec\x82\xb3\x73\x76\x02\x03\xe8\x4f\xd4\x17\xce\x3d\x68\xaa\x9c\xa1\xc5\x19\x2a\x17\xf6\xce\xa7\x46\x5f\x81\x7d\x3b\xc7\x3a\xf8\x5a\xbb\x50\x0d\x9a\x0a\xee\xe0\x5a\xc5\xaa\x3a\xcf\xe9\xd2\x19\xe9\x39\x91\x51\x92\x52\xd5\xa0\xba\xbd\xf9\xea\xd4\x12\xc5\xc9\x49\xed\x15\xde\x84\x8d\x1d\x50\xb0\x15\x5c\xb8\x23\x65\xec\xb9\xb2\xee\x0e\x2f\x80\x04\x58\x28\x29\x56\xfc\x46\x30\xff\x36\xc7\x6e\x93\x04\xe7\x99\x61\xb6\xca\x5d\x63\xc3\x1b\x3b\x20\xf9\x3d\x6a\xb7\x52\x0b\x17\x1f\xe7\xbe\xa0\x89\x04\xbf\x5d\x89\xfb\x26\x0a\x1f\x2a\xec\xa3\x4b\x76\x42\x07\x85\xeb\x52\xcb\x6d\xda\x51\x3a\x39\xba\x4e\xd2\xaf\x0f\xe2\x88\x4f\x47\x27\x97\x71\xdb\x71\x09\xf3\x00\xeb\xf0\x27\x4b\x28\x07\x8b\xc7\x45\x7e\xe3\x3c\xf2\x46\xde\x17\x83\x86\x68\xff\x82\x02\xe8\x29\x8f\xd9\x2b\xb0\x37\x43\x52\x9d\xc2\x66\x67\x44\x6a\xd3\xbf\x72\xe1\x28\xb2\xc6\x36\x43\x52\x3e\x4a\xe3\xa6\x89\x0b\x4b\xe2\x8a\xd2\xcd\x90\x54\x14\x7a\x25\x33\xcf\x65\x49\x42\xcb\x0a\x6f\x67\x94\xaa\x3c\xfd\xb3\xcf\x3e\x8b\xd3\x45\x13\x76\xeb\x72\x22\xe8\x4f\x55\x5a\x58\x42\x13\x06\x94\x08\x8b\x7c\x2b\x3c\x40\xd6\x8a\xa2\xc2\xd3\x47\xab\x88\xcf\x9f\x0b\x60\xb3\x82\x5c\x98\x06\x47\x8f\xc4\xde\x90\x99\x2f\x0f\xe9\x08\x99\x75\x92\x7d\x77\xc4\x8c\xfa\x1c\x1f\x32\x3b\x26\x02\x76\x8e\x0f\x5a\x3c\x7d\xf1\x65\x6f\x10\xec\xb9\xb8\x8d\x62\xe3\x28\x71\x30\x58\x83\xaf\x55\xc4\x51\xaf\x03\x03\x6a\x1d\xf1\xb4\x00\x34\x19\x47\xf5\x14\x3a\xca\x45\x00\xe0\x28\xce\xf3\xe2\x17\xfb\x63\x76\xad\x4c\xc4\x78\xc2\x92\x88\x67\xce\xd8\xa3\x4f\xb2\x47\xe8\x06\x34\x73\x84\xb9\x29\xe4\x68\xaa\x7d\xdc\x3c\x3c\x3a\xae\xd7\x1b\xd6\xeb\x8b\xea\x45\xa4\xdd\x1b\xd3\x33\x55\x47\x50\x6f\x8b\x42\x31\x51\x36\xaa\x4d\x3e\x6d\x6a\xa0\x07\x1b\x45\xd0\x91\x00\xda\x2c\xf4\x3a\x20\x7a\xbe\x3f\x76\x4e\x06\x41\x2b\x02\x74\x5c\xf4\x7c\xab\x44\x6c\x18\xbc\x5d\x17\x0e\x62\xfc\xf0\x80\x39\xbe\x37\x41\x49\x6b\x2d\x55\x6d\x18\x4c\x84\x8e\x89\x5a\x38\xc0\x1b\xca\x77\x04\x36\xc1\x84\xe2\x80\x94\x33\xc6\xd4\x98\x17\x05\x07\x2c\xeb\x80\xe8\x79\x4f\x09\x59\x08\x1d\x0d\x8c\xd5\x37\x3c\x07\x02\x27\x89\x8b\x4c\xd2\xa7\xdd\xef\x05\xec\x8a\xa8\xfb\x08\xa7\x16\xef\x91\x55\x62\xf5\xd5\xeb\x1a\x6f\xf6\xeb\xf7\xbd\x29\x2a\xf1\x4a\x90\x63\x8a\xc6\x58\xc5\x35\x2f\x84\x15\xda\xb8\x48\x2d\xde\xb6\x71\x9e\x1c\xd6\x50\xf9\xa4\xd2\xc6\xb5\x48\x43\x95\xd0\xad\x58\x27\xcc\xf2\x8a\xbe\x87\x60\xa7\xef\xf8\xb0\x79\x8b\x14\x4c\xc6\x64\x8a\xf8\x77\x79\x7b\x15\x45\x0b\x76\xc8\xba\xae\xbc\x81\xaa\xf3\xac\x7c\x64\x9b\xd3\x4b\xab\xfc\xe4\x7d\x42\xc6\xa7\x97\xa0\x44\x95\x97\xfc\xd6\x19\x99\xb5\xff\x1d\xda\x42\x03\x7e\x6d\x53\x0e\x19\xaf\x4d\x3a\x2c\xb8\xe8\x8c\x58\x83\x80\xb3\x45\xe5\xd2\xb3\x6e\x83\x6d\x51\xb5\xc9\xd9\x17\xbb\x66\x4d\xe5\xf6\x61\x61\x63\xb9\xc0\x03\xe1\xba\xbd\x14\x95\xc0\xb7\xff\xdc\xdf\xdf\x18\x70\xa5\x82\x44\x6d\x20\x8f\x2e\xfc\xab\x7b\x3e\xee\xac\xb0\x22\x2d\xf1\xdb\x9f\x8c\xfd\x08\x5a\xea\x9b\x24\x84\xa8\x7f\x19\xe2\xf1\xae\x22\xfb\x2d\xb1\x70\x1a\x7a\x5c\xf0\x42\xe4\x4d\x1d\xba\xe3\x83\xdc\x84\xbf\x9d\xc1\x17\x5d\xce\xe8\x1b\xef\xf3\x21\x0e\x8d\xf4\x71\x96\x8d\x76\xa0\x32\x89\x9e\xaa\x1a\xdd\x8c\xc9\x87\x1b\xc4\x58\x38\x6e\x44\x17\x27\x07\xe3\x6c\xc1\x94\x66\x23\xd0\x97\x5b\x44\x1b\x6f\xd2\xd5\xe3\x6f\x8b\xca\x87\x57\x5b\xf5\x1b\x7d\xab\x70\x78\x74\x30\x77\x27\x7f\x3b\xf6\x5e\x70\x99\x53\x81\x8d\xe7\xee\x3e\xf8\x49\x7b\xa1\x4e\x54\xf9\x93\x3d\xb2\x45\x35\x1e\x1e\x45\x45\x82\x30\x8e\x08\xd5\x6c\xe5\xf4\xe4\xf7\xff\xf6\xb7\x3f\xfc\xee\x5f\x7e\xf8\xe7\x7f\xff\xe1\x1f\x7e\xfb\x87\x7f\xfa\xbb\xff\xfa\x8f\xff\xfc\xfd\xef\xfe\xfe\x87\x7f\xfd\xed\x1f\x7e\xfb\x8f\x27\xd3\xe0\x7f\x12\x77\xba\x39\x5e\x59\xae\x9f\xde\x55\xda\xb7\x81\x0d\xd2\xb7\xe5\x1f\x9d\xc7\xe4\xf9\x80\x8d\x3f\xe9\xdd\x87\x4d\x86\x88\x57\xf6\x01\x13\xed\x9b\xa7\x71\xa3\x07\xad\x4a\xbe\x8d\xbf\x36\xe3\x0b\x4e\x48\xa8\x52\xa8\x45\x5f\x76\x69\x5b\x52\x60\xf7\x7e\x49\xd1\x80\xad\x82\x24\xa7\x21\xbe\x20\xb1\xb5\x6f\xe1\x50\x50\xf7\xf6\xa9\x70\xdf\x36\x8f\x05\x3a\x6b\xa4\x23\x81\x32\x5f\x09\xbb\x5e\xfb\xbe\xee\x3e\xe9\xf8\x73\xec\xf1\xd1\x39\x6b\x9a\xfe\x5a\x68\x85\x6e\x5d\x74\xdc\x77\x1e\xb1\x4e\xc0\x63\x3f\xb2\xfb\x94\x1d\x7d\xce\x3a\x27\x49\xc2\x2c\x7e\xc9\x3b\x0e\xdb\x16\x4b\x39\x60\x7b\xce\x5b\x0f\x7b\xfe\x94\xc4\x3d\x18\xaf\x58\x9a\xf2\x7c\xbc\x85\x60\xcc\xd2\x87\x71\x78\xac\x8d\x71\x42\x76\xce\x1c\x3a\x64\xc8\x61\x4d\xab\xe7\xeb\x32\xb2\xa0\x30\x8a\x98\x2c\x85\xa5\x27\x0e\x63\x0d\x8d\x4e\x53\x4b\x41\x5b\xf5\x52\xd8\x0f\xb5\xc9\x0e\x51\xd4\xa7\x7b\xd2\xbb\xed\x34\xf3\xf4\x84\xbd\x28\xf3\x7b\x2c\xcd\xc6\x40\x0e\x01\xa1\x34\x93\x59\x81\x1d\xc3\x66\x21\x86\x43\xe5\x81\x46\x31\x9e\xe7\x08\x40\xd9\x55\x5c\x7a\xa9\x0a\x69\x41\xcb\x67\x35\x26\x12\xc0\x5b\x94\xa5\x30\x86\x9d\x4c\xdd\x8c\xb8\xfc\x6e\xe9\xba\x5b\x57\x6f\x05\xfe\x88\xd6\x21\x19\xbd\x2f\x6f\xda\x9f\x38\xed\xcf\x9c\xf6\xa7\x4e\x7b\x73\xa7\xf4\xda\x07\xb7\x7c\x33\x7d\xda\xca\x9e\xee\x79\x74\x6b\x97\x45\x49\x8e\x0d\x31\x16\xa7\xc2\x55\xf6\xc9\x4d\x32\x61\x48\xd9\xc6\xae\xfc\x82\x4a\x22\x37\x9f\xb3\x1c\xd1\x0b\x99\xcf\xc5\xed\x17\xf5\x62\x21\xf4\x08\x70\x8d\xcb\x8b\x59\x9c\xc0\x77\x5e\xe1\x60\xfb\x8d\xaf\xbd\xaf\x7e\x84\x27\x3f\x0f\xcd\x90\x3d\x7f\x7c\xf5\xea\x03\x5f\xfd\xc0\x61\x30\x9e\x51\x54\x31\xfc\xed\xee\x42\xe2\x6b\xae\x74\x0b\xd2\xe8\x1b\xfa\x3b\x3c\xe1\xe6\xfc\xa8\xed\xd7\xe3\x0e\xbd\xa6\xd8\x75\xe1\xf0\x55\x3d\x0b\x0c\x00\x38\x80\x08\xab\xc5\xab\x7a\x66\xe6\x5a\xce\xe8\xc1\x95\xad\x3b\x85\x69\xfb\x15\x96\xce\x3e\x09\x2e\x21\xee\x49\xa5\xff\xcf\xcc\x12\x17\x3b\xde\xcb\x59\x8e\x43\xc0\xfa\xef\x46\x3c\xba\xaf\x17\xb1\x41\xfb\x1d\xc3\x67\xfc\x5a\x44\x1b\x76\xe8\x3b\x2b\xb8\x47\xfb\xdf\x59\x69\x20\xef\xbd\xea\xd1\x7a\x4f\x36\x0d\x04\x0e\xd7\x3d\xa2\xbd\xee\x79\x5f\x65\x37\x04\x57\x08\xf0\xa7\xf7\xcc\x4a\xb3\xae\x43\x9f\x59\x89\x9e\x57\x69\xaf\xf9\xb9\xb8\x6d\x96\x7d\xd4\x13\x2b\xb0\x51\x3d\xf7\x5c\x43\x58\x67\xab\x4f\x94\xe9\x6a\x7a\x74\xdd\x85\x38\xe2\x0d\x96\x68\x97\x7f\xd4\x1b\x2c\x11\x9c\x50\xfb\x7a\xd4\x63\xa0\x8c\x11\xcb\x75\x71\xd4\xd6\xcb\x2a\x47\xbe\xdd\x11\xc5\x97\x89\xa8\x1b\xb7\x0f\xbb\x6f\xd3\x99\xa5\x13\x80\xcf\xcc\xb2\x3f\xac\xbc\x5d\x71\xd9\x75\xe1\x70\x47\xdd\x76\x61\x96\xe9\x13\xd4\x7b\xdd\x95\x86\x3b\x1e\x3f\xf9\xf4\xa0\x37\x33\x86\x2d\x8e\xda\x53\x2a\x86\x0b\x3e\xa0\x54\x0c\x4b\xc3\xd4\xec\xd7\x62\x1e\x9e\x93\x35\x61\xbf\xfc\x1b\x17\xcf\x78\x79\x4f\x19\x0f\x85\x8c\xe1\x1e\xf9\xc7\x72\x9a\x1a\xe6\xb6\x8c\xd3\xcb\xc2\xcc\x88\xd2\x48\x10\x77\xee\x3e\x4d\xab\x82\xac\x03\xef\xbe\x67\x6c\x2a\x30\xc9\x5c\x79\x44\x39\x6f\x69\xb0\x3d\x95\x64\x9e\xce\x2d\x1e\xa4\xf9\x61\x09\xf1\xc4\x93\x70\xc9\x77\xde\x80\x1d\x1f\x53\xd5\x02\x2b\xfa\xf0\xaa\x96\x68\xf4\x9e\x17\x15\x60\x35\xff\xd3\x2f\x2a\x34\xd8\x6d\x5b\x11\xbd\x0a\xe8\xb2\x9e\xe5\xd2\xac\x1a\xfd\xf3\xe3\x9e\x53\x38\xc4\xfa\xf8\x90\x67\x12\x7c\x21\xc5\xee\xa7\x12\xb6\xb4\x44\x58\x9d\xab\xa5\x08\xef\x25\x50\x55\xc5\x1e\x83\x66\x18\x95\x4b\xb4\x8e\x42\x5c\x23\xd1\xa3\x57\x5a\xd5\x11\x9b\xc5\x11\x9b\xb5\x11\x7f\xc2\x6f\x1e\xa0\x01\xf4\xa1\x6f\x1e\xf4\x50\xa5\x53\xf6\x1d\xf6\xe6\x81\xd7\x0b\x7f\xb4\xd7\x0d\x7a\x50\x3e\x40\x55\xb1\x7e\x5d\x35\x9d\xb2\x43\xd4\x90\xd0\x3a\xa4\x53\x37\xd5\xd1\x74\xca\xb6\x35\xd2\x74\xca\x1e\x22\xe8\x7e\x30\x5d\xe6\xf1\x83\x3f\xfd\x74\xbb\x2d\xc5\x6c\xe5\xf9\x39\x4b\xde\x49\x77\x3b\xeb\x5d\xd2\x33\x8d\xcf\xae\x6e\x03\xf1\x45\xb4\x1e\x91\x8e\x8c\x64\xe7\x9b\x0d\x87\x2a\xe5\xae\x54\xe1\x6e\xad\xdc\xfd\x38\x52\xcc\xc3\x4e\x37\x77\xab\xe6\xce\xc4\x5d\x4b\x33\x6f\xbc\xed\xe0\xff\x47\x6a\x5c\xe5\x4c\x54\xe3\xc2\x7b\x94\x35\x2c\xce\x4b\xfa\x67\x66\xb9\xa9\xab\x4f\x11\xd7\x9f\x46\x61\x1f\x6a\x63\xed\xcb\xd7\xed\x55\xd0\x61\x22\x04\x1c\xc0\x8d\xa3\x6d\xf8\xef\x00\x00\x00\xff\xff\x9b\xf7\x11\x8f\x54\x69\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x02\xff\xed\x3d\x6b\x8f\xdb\x46\x92\x9f\xa5\x5f\xd1\x11\x62\x9b\x9c\xd3\x70\x9c\x03\xee\xb0\x37\xc1\x1c\xe0\x57\x1c\xef\xc6\x8f\xb5\xc7\xc9\x07\xc3\xf0\x52\x52\x4b\xe2\x0e\x45\xd2\x24\x35\xe3\x59\x65\xfe\xfb\xd5\xab\x9b\xcd\xa7\x24\x27\x39\x04\x87\x33\x10\x9b\x22\xbb\xab\xab\xab\xab\xeb\xdd\x9d\xb3\x33\xf5\x24\x5d\x68\xb5\xd2\x89\xce\xc3\x52\x2f\xd4\xec\x56\xcd\xc2\x3c\x4d\x02\xf5\xf4\xb5\x7a\xf5\xfa\x52\x3d\x7b\xfa\xe2\x32\x18\x9f\x9d\xa9\xb7\x3a\xdf\x26\x49\x94\xac\xb8\x81\xba\x89\xe2\x58\xa5\xd7\x3a\xbf\xc9\xa3\x52\xab\x72\x1d\x15\x6a\x19\xc5\x9a\x1a\xff\xac\xf3\x22\x4a\x93\x73\xb5\xdb\x05\xf2\x7c\x77\xe7\x7c\x50\x4f\x61\x34\xf7\x2b\xfe\x86\x16\xe3\x2c\x9c\x5f\x85\x2b\x8d\x5f\xde\xf0\xe3\xab\x70\x43\x5f\xa0\xf3\xa5\x19\x43\xcd\xd3\xa4\x0c\xa3\xa4\x50\x1b\x5d\xae\xd3\x45\xa1\xca\x54\x6d\xc2\x2b\xad\xa2\x64\x11\x5d\x47\x8b\x6d\x18\x2b\x9d\x2c\xb2\x34\x4a\x4a\xe8\x92\xa7\x1b\x55\xe8\xfc\x3a\x9a\xeb\x62\x8a\x90\x72\xfd\x79\xab\x8b\x52\x85\xc9\x02\x9e\x8b\x2c\x4d\x0a\x98\xc2\x6d\xa6\x09\x12\x36\xc5\x19\xa5\xf0\xd2\x42\x99\xaa\xb0\x50\x37\x1a\x26\x0d\xff\xea\x64\x0e\x74\xcb\x0b\x04\x80\xf0\x16\x5a\x7e\x2f\xd3\x5c\x3a\x12\xb4\x29\xbd\x08\x91\x52\x4b\x95\x6e\x73\x55\x6c\xb3\x2c\xcd\x91\xd2\x65\x1e\x26\x05\x3e\xe3\x70\x51\x18\x47\xff\x0a\x4b\x20\x04\x42\x83\x3e\x9b\xb0\x2c\x82\xf1\x38\xda\x50\x0b\x6f\x3c\x9a\xcc\x6e\x4b\x5d\x4c\xe0\x01\xe7\xae\xbf\x94\xf8\x48\x68\xc0\x92\x9c\xfd\xb3\x48\x13\x7c\xb1\xdc\xd0\xfb\x28\xe5\xbf\xcf\xa2\x74\x5b\x46\x31\xfe\x48\x74\x79\xb6\x2e\xcb\xcc\x3c\x6f\x73\x7a\x5d\x94\x39\xc0\xbb\x96\x47\x00\x05\x43\xc0\xf3\x2a\x2a\xd7\xdb\x59\x30\x4f\x37\x67\xab\xf4\xf4\x2a\x2a\xcf\xf0\x3f\x43\x0b\x68\x1d\x26\xb7\xd9\x4c\x4d\x56\x69\xba\x82\x25\x5f\xa5\x71\x98\xac\x82\x34\x5f\x9d\x65\x79\x5a\xa6\xb3\xed\xf2\x8c\xe6\x7f\x76\x95\xa4\x37\xc9\x19\xb5\x86\x5e\x8b\x6d\x4e\x93\x3c\xa2\x6b\xd5\x05\xfa\xeb\x4d\x56\x1e\x33\xae\xb4\x87\x9e\xcb\x48\xc7\x8b\x4d\x58\x5c\x1d\xd1\xdb\xe9\x03\x10\x80\x3c\xdb\x79\x79\x44\x77\xd3\x01\xfa\x96\xd1\x06\xb8\x2d\xdc\x64\x47\x74\x77\xfa\x00\x84\x9b\x3c\xcc\x32\x60\xb0\x23\x00\x54\x5d\xda\x4b\x9a\xc3\xe6\x0d\xcf\x36\xdb\x2f\x93\xfa\x97\xec\x6a\x75\xa6\xf3\x3c\xcd\x89\xd3\x06\x06\xb2\x9c\x47\x6f\x0c\xfb\x0d\x74\xa0\x07\x44\x64\xb7\x3b\x55\xd1\x52\xe9\xcf\x2a\x78\x92\x26\xcb\x68\x15\x5c\xda\x9d\x30\x81\x9d\x32\x51\x93\x04\x98\x7f\xa2\x60\xd3\xd7\x70\xc3\xb7\xa7\xc0\xd3\xf8\x2f\x0c\x31\x61\x50\xc0\x93\xd8\xf0\x00\xa8\xab\x3c\x9b\x1b\xa8\x2d\x3c\xe9\x63\xef\x97\x33\x10\x33\xe1\x22\x2c\xc3\xe6\xa0\x07\x0f\x89\x4f\xd5\x8e\xef\xd9\x5f\xb6\x81\x41\xc7\x19\x0b\xf7\xee\x11\x00\x64\xab\x1f\x45\x6c\x7c\x3a\x62\x08\xea\xe8\xe2\xe8\x8f\xc7\xe3\xeb\x30\x47\x69\xf5\x49\x5d\x28\x90\x45\xc1\xbb\x0c\x64\x4a\xc9\xbf\x49\x80\x01\x1a\x9b\x2c\xcc\x35\xbf\x12\xe9\x13\x3c\x2a\xd3\x88\xdf\xd4\xa6\x19\xbc\xd2\x37\xef\x50\x16\xe7\xfc\x91\xa5\x59\xf0\x2a\xcd\x9e\xc4\x20\x62\xed\x5b\x00\x9a\xdd\xf2\x0f\x66\xde\xe0\x17\xe0\xfd\xf1\x08\x44\xa9\xac\xa7\x61\x43\x96\xca\xd8\x94\x44\x52\xf0\x28\xa1\x7e\x95\x90\x09\x9e\xca\x23\xbe\x16\xf1\x11\x3c\xc3\x7f\xf1\x85\xd9\xd2\xc1\x3b\x7a\xc0\x57\xce\x36\x0d\x2e\xcd\x33\x7e\xa8\xb6\x1f\xb6\x86\xad\xf2\x73\x18\x6f\x69\xde\x8e\x5c\x09\x7e\xc0\xe7\x97\xf0\x8c\xd4\x3b\x3b\x39\xe8\x8f\x7a\x66\x35\xdb\xc9\xc1\x7f\xce\x48\x83\xbe\x48\x54\xc8\xea\x2d\x9f\xaa\xa8\x7c\x50\xa8\x6d\xa1\x97\xdb\x98\xd4\xd4\x72\x9b\xcc\x71\xea\xa0\x03\xd7\x61\xa9\x12\x8d\x5a\x2a\x55\x69\x46\xb6\x81\x4a\xb1\x2f\x3c\x9f\x1a\x35\x80\x00\x67\x61\x11\x15\x81\xfa\x01\xba\xeb\x2f\x30\xf3\x58\x4f\xd5\x6d\xba\x55\x9b\x68\xb5\x2e\x55\x16\x16\xa8\x22\x1d\x84\x01\x5e\x68\x07\xe2\x71\x60\x6d\x16\x5b\x50\xcc\x08\x0e\xda\x22\x07\x04\x3f\x82\x5e\x8d\x11\xc7\x1b\x60\x42\xa5\xc3\xf9\x5a\x34\xbd\xf2\xcc\xe8\x3e\x7c\xcb\x01\xc3\x6d\xc6\x40\x8b\x4c\xcf\xa3\x65\x34\x87\x41\xcb\x75\xa0\xbc\x17\x84\x1f\x18\x0c\x00\x7f\x16\xce\xe2\x5b\x68\xb3\x89\x60\x79\xc8\x4a\x00\x8d\x5d\x44\xab\x04\xbb\x46\xc9\x75\x7a\x85\xea\x5e\xab\x77\x6c\x23\x58\xab\x82\x50\xd4\x08\xa7\x9a\x01\xf3\x00\x82\x30\x94\x0c\x7c\x68\x61\xa9\x3b\x8f\x23\x9d\x94\x75\xea\xc2\x28\xf3\x34\x8e\x35\xf5\x33\x06\x0a\x60\x04\xcc\xcf\xe0\x60\x1e\x95\xb9\x02\x7f\xc1\x84\x10\x60\x01\x6c\x13\xb3\x29\xc1\xb4\x8a\x90\xc2\x1b\x4d\x94\x74\xf0\x85\x1e\x3a\x5f\x86\x73\xdd\xb7\x12\x08\xcc\x0e\xd6\x6d\x24\x6d\x71\x30\x55\x97\x20\xb8\x01\x9f\xc8\x7c\x40\x0e\xcc\xa2\x84\xe8\xb4\x11\x14\x9d\x85\x9d\x8a\x29\x55\x6e\xf3\x04\xa6\x8e\x33\x46\x04\xe7\x30\x4d\x9d\xa3\xc5\x14\x1a\x64\x83\x31\x4d\xa7\x45\xd0\xdd\x78\xf4\x3e\xb1\xf3\xd3\x0b\xb0\x00\x4d\x0f\x36\x01\x45\x12\xec\x76\x80\x22\x58\x88\xdf\x46\xea\xfc\x42\xd9\x36\x2f\x79\xc9\x58\x2c\x7f\x1b\x49\x1f\x33\x8a\x82\x3f\x66\xaa\x81\x79\x09\xa0\x58\x70\xb1\x75\x69\x31\xda\x3f\x04\x32\x30\x70\x62\xd5\xc5\x57\xce\xa0\xde\xbc\xfc\xa2\xc4\x4a\x43\xb1\x8b\xff\x4e\x91\x61\x4e\x76\xbb\xe7\x29\xb6\x01\xc8\xc1\x5b\x36\x41\x2f\x81\x18\xd2\xcf\x57\x5e\xa3\x05\x1b\xa6\x4e\x93\x29\x0b\x38\x1f\xa9\x65\xec\x56\x7a\x87\x88\xea\xa0\x63\xe6\x88\x0c\x0e\xee\x8f\x47\xa8\x08\xa0\xe5\x37\x17\x2a\x89\x62\x84\x30\x92\xf5\x82\x9f\x04\x64\x3c\xba\x1b\x9b\x77\x06\x7a\xb0\x17\x27\x7f\x8a\x00\x80\x88\x86\x9c\x48\xcc\x97\xb8\xcd\x5c\x8a\xd2\x46\xfe\x16\xc4\x08\x52\xf4\x0e\x1b\x9f\x2a\x97\xca\xf0\xa9\x8f\xd0\x08\xab\x6b\x66\x05\x12\xdd\xe9\xe6\xb2\x89\xdf\x5e\x6e\xa6\x19\x4d\x0e\xc1\x76\xaf\x92\x71\x0c\xec\x8e\xda\xe1\xb2\x58\x17\xc1\x79\xcd\x64\xaf\x96\x03\x60\x7f\xc6\x89\x08\x84\x16\xdd\x5a\xab\x0d\x5d\xae\xed\xda\x15\x41\x83\x81\x08\x15\x6c\xd3\x5e\xb5\xf6\xb2\xe1\xba\x99\xb7\xd7\xbc\x1c\xa3\xbb\x31\x13\x99\xd7\xc4\x5d\x1b\x54\x8e\x8f\xe2\xf8\xd9\x97\xb9\xce\x4a\xd2\x53\x05\x8b\x58\x4b\x29\xd2\x50\xe8\xb2\xc8\xde\xac\x36\x2b\x2d\x23\xc9\xa6\x0e\xbf\x20\x78\x19\x2d\x40\x6c\xdf\x80\x7e\x27\x2f\xf0\x7d\x61\xfc\x42\x74\x82\xb2\x2c\xbe\x45\x11\x83\x62\xb3\x44\xe0\x1b\xdb\x9a\xf4\x82\x86\x65\xbb\xb5\xcb\x86\xfb\x05\x25\x48\x61\xa4\x06\xc0\x7b\x9d\xa1\xd6\x40\xc9\x39\x75\x04\xd7\x1c\xe4\xd0\x4c\x93\xae\x01\x31\x0a\xdd\xc0\x87\x4d\x90\xec\x00\x13\xde\xeb\x2f\xf3\x78\xbb\x80\x2f\xe4\x05\xce\x34\xa2\xc0\xba\x79\x11\xb4\xa8\xe1\x55\x38\x4d\xd5\xe4\x5d\x19\x96\xdb\x62\x02\x4f\x6f\xa0\xd7\xc4\xb7\xfb\xfe\xc4\xd9\xf8\x7d\xfd\x55\x07\x55\xa6\x15\x36\x41\x10\xb0\xc3\x45\xcc\x13\x25\xf2\x1a\x58\x61\x13\x66\x1f\xf8\xd3\x47\x26\xff\xee\x0e\x57\xbd\xb9\x61\xba\x24\xdf\x68\x34\x71\xd8\x68\x02\x0e\xf6\xdd\x54\xba\x8a\x19\x09\x1c\x30\xc2\xd5\xf8\x84\xa8\x10\xbb\x12\x48\x8b\xd6\x8e\x39\x0e\x3e\xa7\x57\xf8\xd9\x20\xf6\x41\x7f\xf9\xf8\xbd\xfa\x06\x5e\x12\x07\x66\x61\x12\xcd\xbd\xca\xc2\x5b\x7a\x93\x67\x06\x84\x5d\xc1\x07\xf7\x8a\x07\x6a\x91\xc2\xea\x26\x69\x09\x43\x80\xf2\xfd\x1e\xd6\x53\xbb\x0b\x6f\x79\x87\x4c\x7a\x44\xca\xf7\x85\x9f\x17\x3a\xd6\xa5\xf6\x0c\x06\xf4\xad\x9a\x00\xbc\xae\xd0\xb7\xe4\x3b\x9c\x50\x30\x49\x04\x71\x71\xa1\x6a\x24\xe3\xe9\x8d\x3a\x45\x29\x98\x97\x15\xe6\x5e\x67\x13\xc4\x9d\x90\xaf\x91\x9c\xb7\xdd\x4f\xe1\x0c\x66\xb4\xa8\xb8\x81\x43\x28\x2b\x5d\x1a\xde\x45\x7e\xb7\xd4\x23\x16\xbe\x59\xeb\xc4\x7e\x4d\x1d\x76\x15\x60\xcc\x75\x53\xde\x65\xb2\x11\xb6\xdc\x58\x71\x5c\x26\xe4\xe0\x0e\xd8\x45\x60\xd4\xc0\x3f\x64\x66\x39\x5c\x7a\xb3\x8e\x60\xe7\x63\xd7\x02\x86\xee\x40\x41\x34\xb9\xf4\x36\x76\x4c\x9a\x8b\x1e\x6f\xcf\x8a\x84\x2b\x33\xf0\xb4\x2d\x85\x3b\x04\xf3\xb8\x6f\x5e\x5f\x2d\x9b\x5a\x48\x4d\x65\x9e\x44\xf1\x5c\xcf\x75\x74\xcd\x16\x1f\x4d\x11\x80\xb9\xf3\x0e\xc0\x54\xd1\x16\x8c\x03\x85\x3e\x18\x43\xd4\xee\x7b\x44\x14\x39\x72\x01\x3e\x62\x14\x93\xd1\x68\xb6\x13\x05\x73\xc4\xd8\x0d\xe3\xa8\xbc\x0d\x86\x44\x48\x6d\xee\xae\x24\x39\x9a\xa2\xff\x2f\x67\xfe\xef\xc8\x99\x5a\xb7\xa9\x3a\x4a\xec\x1c\x1e\xa0\x38\xd4\xf5\x7c\xfe\xf6\xcd\x13\xb6\xb0\x8e\xf6\x3d\xd1\x8c\x73\xba\x63\xb8\xb6\xa8\x8c\x81\x4a\x9f\x87\xd7\xb0\x8d\xc0\x61\xd3\xec\x36\xac\xa0\x8b\xea\x71\x06\x82\xca\x40\xac\x20\x7b\x15\x28\xc7\x3d\x49\x33\x76\x6d\x61\x3f\xd4\x62\x31\x01\x77\x62\xd3\xc2\xef\x1b\x08\x97\xab\x70\x1a\x16\xb8\xe0\x1f\x3e\xf6\x43\xc2\xe5\xed\xfa\xfa\x58\x03\x53\x69\x0f\xb1\x7d\x29\x31\xa5\xcb\x54\xac\x4f\x7f\x4a\x06\x78\x7d\x9c\x0b\x34\x9c\x60\x46\x5e\xed\xb5\x9d\x0f\x4c\xc7\xa7\x40\xc7\x6e\xa7\x2e\xd3\x9f\xd2\x1b\xc0\xb5\x36\x03\x8a\xec\x88\x69\x78\x1f\x31\x62\x3c\x76\xe8\x26\xed\xe5\xde\xdd\xce\xc0\xb4\x2c\x77\xae\xea\xd3\xb2\x21\x1a\x0f\x79\xb0\xda\x65\x1d\x5c\x8a\x22\x62\xf4\x94\x22\xe5\x38\x7f\xa7\x85\x58\xc7\xd4\xe0\x59\xd2\xd9\x40\x7c\x1d\x6c\x51\xa3\x04\x10\x00\x5f\x22\xed\x3a\x74\x6e\x35\xe1\xa6\xeb\x6c\x8d\xf3\xee\xf5\xb6\x86\x3e\x6b\x39\x07\xce\x1f\xe0\xae\xb6\x88\x0c\xde\x6a\x9d\xca\x12\x0f\x71\x0c\x7a\x71\xb3\x24\x50\x81\x92\xca\xc1\x11\xa3\x1a\x06\xb5\xc3\x67\x7a\xa0\xdb\x5b\xa8\x93\x6a\x28\x5f\xb9\x5e\xce\x90\xff\x8b\xee\xd1\xef\xeb\x00\x7f\x42\xa0\x59\xcd\x85\x6a\x51\x92\xb7\x1d\x72\x93\xeb\x54\x1d\xe9\x09\x67\x5f\xe9\x04\x0b\x85\x99\xe5\xf7\x93\x17\x7a\x0c\xed\x0e\x8c\x65\x85\xaa\x1e\x23\x0e\xb8\x83\xb4\xf8\x01\xd7\x87\xe2\x44\x18\x55\xd5\x39\x0a\x53\xda\x05\x2c\x42\xdb\x6c\x66\xbc\x5d\x0a\xa0\x81\xdd\x98\x9f\x2e\xd2\x4d\x08\x2e\xd4\x40\xe3\x40\xbd\xc9\xa3\x4d\x98\x47\xf1\xad\x09\x6f\xb9\xb1\x30\x66\x92\xa1\x79\x78\x9f\xda\xcc\x81\x73\x81\xcf\x0d\xb7\xbb\xe9\x6d\xdb\xc0\x07\x39\xda\xd2\xe7\x10\x47\xdb\xae\xe4\xe7\x81\x65\x62\xc1\x73\xd0\x32\x0d\xca\xa8\xce\x75\xe2\x1e\xa6\x49\xdf\x42\xed\x5f\x02\x93\xaa\x4c\x2b\xcd\xd8\xd5\x0c\x5c\xed\x83\xd6\x69\x70\x22\x5d\x0b\xd5\x15\x09\x19\x5a\xa9\x22\xe3\x98\xc8\xc1\xc1\xa4\x5a\x00\xaa\x6b\xb5\x7e\xd4\x31\x86\xd5\xc7\x3c\x81\x4e\x45\xda\x2d\x80\x36\x0b\x65\xd2\x38\xc1\xcb\xa7\x7e\xb3\x01\xe2\x8b\x62\xf4\x6a\xaa\xae\x2b\x8b\x6f\x63\x4d\xd5\xeb\x5a\x08\x86\xb2\xd1\x5a\x5d\xe9\x5b\x5a\xee\x05\x1a\x85\xb3\x14\xfc\x0f\xa0\xb1\x19\x45\xf2\xb8\xca\xbb\xf2\xc5\xfd\xc0\xa6\xe0\x80\xc4\xb8\x5e\x02\x25\x14\xa7\x8b\xc2\xad\x4f\xc2\x24\x05\x83\x37\x8c\x7f\xd4\xe1\x42\xe7\x7f\x03\xe8\xe2\x9b\xe0\x40\x45\x2a\x41\xe0\x52\x5c\x3d\x03\x62\x3e\xd7\x26\xf6\xa1\xc1\x07\x02\x5e\xe0\x91\xf1\x3b\x92\xe2\xc2\xce\xf5\x17\xf8\x4c\x79\x08\x96\x86\x38\xd7\x0f\x0f\x3f\xfa\x7b\x1b\xf6\x60\x07\x33\xab\x20\x88\xd5\x2f\xcb\x07\xdd\x48\x47\x1d\x61\x57\x72\xa4\xf9\x68\xbb\x12\x2c\x10\xa7\x37\x0f\x4f\x59\x07\x09\x1d\xa9\x59\x38\xbf\xe2\xd2\x06\xd9\x33\x1c\xa2\xc7\xb9\x26\x9a\x7c\xb3\x40\xbd\x20\xf1\x2a\xc1\x7e\x61\xd7\x68\x16\xa1\xcf\x66\x96\x40\x62\xd9\xb0\xf5\x16\x51\x18\x73\xc0\x3b\x0e\x81\xef\x01\x5e\x8a\x61\x58\x6a\x54\xc1\x64\x06\xad\x61\xe7\xe1\x67\x56\x9f\x01\xbf\x01\xe6\x4b\x06\x8c\x53\x6e\x64\x8c\x53\xaf\xc7\xc8\x70\xb7\x1c\x5a\x08\xcd\x58\xeb\xc8\x79\x9b\x5d\xad\x68\xfb\x49\xc8\xb5\x5e\x64\x31\x6a\x7b\x35\xdd\x71\xd9\x11\xe6\xf9\x3a\x44\x8f\x75\x61\xda\x4e\xfe\x68\xd7\x6d\x50\x3a\x5e\x4f\xcb\xb2\x14\xaa\x11\x7b\x22\xa1\x8c\xe7\x29\x93\x00\xf5\xde\x15\x01\x9e\x4c\x5b\x1e\xea\x90\x65\x59\x99\x9e\x3d\x5a\xcb\x31\x3d\xf7\x48\x2f\x76\x83\x47\x69\xdd\x34\xb5\x34\xf0\xc8\xaf\x24\x30\x62\xa7\x56\x4f\x56\xc4\x99\x0d\x64\x7d\x97\xbd\xa6\xba\x3a\x15\x50\x2d\x9a\x9e\x63\xde\x63\x80\xe6\xd3\x6a\xdc\xd1\x9d\x11\xb6\xb8\x03\x90\x06\x4a\x76\xd4\x6f\x37\x5f\x06\xf4\xa2\xb1\x5f\x86\xf5\xe2\xb0\xa6\x3b\xd4\x7c\x11\x1d\xd4\xa3\x17\x59\x28\x0c\xdb\x2f\xfd\x7a\x91\x8d\x11\x44\xe6\x40\xc5\x88\x4d\xad\x11\x83\xea\xfa\x28\xd5\x98\x61\x08\xbc\xad\x1b\xdd\x65\xfb\xed\xe6\x4c\xbf\xd5\x69\xac\x99\x41\xab\xf3\x40\x7b\x72\xaf\x2d\x33\x68\x75\xd6\x56\x6d\x68\x1e\xdd\xc6\x4c\x57\xb2\x67\xd8\xea\x3c\x22\xbd\x33\x6c\x75\x0a\x16\xa4\x64\x8b\xcb\xd4\x35\x64\x98\xe6\x5d\x9a\xc0\x21\x39\x4f\x79\x00\x8a\x07\x36\x43\xa1\x3e\x7c\x34\xe1\xbf\x3d\xf0\x0e\x4a\x8f\x81\x39\x74\xb2\xcf\x88\x22\xdd\x90\x85\x51\x5e\x0d\x0e\x2f\x25\x18\x78\x55\x99\x56\x84\xde\x4e\x62\x64\xd7\x26\x10\x08\xc3\x06\x6c\x78\x5c\xf9\x81\x04\x3d\xfd\xef\x95\x09\x08\x8e\x18\xb0\x8d\x8a\xd0\x4f\x36\x64\x6c\x10\x0c\x85\x28\xc2\xe4\xa6\xae\xd5\x76\x02\xf8\x5f\x54\x56\xe0\x5f\x41\x06\x7a\xf0\x6e\x5a\xbd\x7a\x83\x7d\x18\x2a\x86\x56\x7c\x03\xce\xb1\x6a\x24\xb2\xc6\x2b\x79\xa8\x7d\xf3\xe3\xe5\xe5\x9b\xaf\x89\x9b\x51\xd2\x9e\xa9\x9c\x10\x7b\x01\xfe\x13\x4c\xa5\x81\x1d\x86\x4a\x86\x2a\xff\xbe\x57\xf3\x75\x98\x17\xba\xbc\xd8\x96\xcb\xd3\xbf\x4c\x6c\xb8\x0d\x47\x95\xd0\x41\x65\x18\xa9\xb5\xbc\xa1\x3d\xbb\x3f\x0c\x87\xc0\xd2\x44\x65\xb9\x5e\xe8\x65\x94\x80\x25\x85\x15\x16\x85\x13\x7b\x73\x86\xd9\x1b\x7c\xab\x17\xf8\xd4\x83\x6f\x6e\xe9\x87\xb1\x65\x60\x1d\x03\x82\x4f\x66\x7f\x2d\x3a\xd5\x11\x90\xeb\x87\x4e\xeb\xdf\xf5\x59\x22\x72\x3c\x06\xda\xb5\x45\x2d\x20\xd7\xdd\xe9\x19\x8a\x05\x16\x37\x30\x65\xe7\x47\x7f\x97\x47\x4b\x10\x2b\x5e\xf3\x4b\xf9\xa4\x5a\x5a\xcf\x59\x66\x9f\x00\xb5\x67\x79\x50\x38\x50\xa2\x44\x14\xfa\xdb\x50\xa8\x7f\xfb\x05\xcd\xa9\xb7\xe9\x16\x71\xf0\xc7\x8e\x45\x21\xd9\x0c\xd4\x0d\x3d\x64\xb6\x4d\x67\x58\x37\x92\xac\xc8\x2a\xe4\x6e\xc1\x63\x7e\x25\xb1\xee\x8d\xe9\x47\x41\x6b\x69\x8e\x15\xbe\x33\xf5\xab\xba\x4c\xdf\x63\x3d\x14\x18\x63\x3e\xec\xb2\x72\x5d\x6b\x83\x2f\x2e\xf5\x26\x8b\xa9\x0c\x18\x5a\x18\x76\xea\xa9\x07\xf3\x38\x7a\xee\x46\x1b\x05\xa3\x8e\x90\xa3\xd8\x75\x38\x3d\x67\x48\xca\xb6\xd4\xed\x3f\xb1\x10\xb1\xe1\x73\x4e\x9a\xd5\x8c\xbf\xce\xc0\xe3\x88\x64\x44\xa3\x12\x51\x1e\x45\x68\x6c\x4c\x81\x89\xc3\x27\x9c\x9d\xe3\x50\x24\xf1\x8f\xc9\xb3\x99\x11\x7f\xc1\xef\x60\xd9\x83\xd7\x02\xdb\x2e\xdc\xc6\x25\x6a\x3b\x66\x10\x04\x46\x61\x49\xd8\xb0\x4d\x59\x00\x7e\x09\x38\xa2\x0b\xf2\x5a\xf0\x37\x9b\xfd\xe8\x3e\x4e\x68\x9c\x89\xf5\x38\xaf\xa9\x1e\x0d\x40\xd1\xfb\x80\xb0\xf3\x7c\xf6\x6b\x40\x1e\x50\xee\x5b\x21\xb2\x08\xea\x3f\x1e\x3e\x04\x27\x69\xe9\xe0\xeb\xc4\x53\x79\xdf\x00\xb6\x84\x18\xb4\xc8\xf2\xf4\x3a\x42\x97\x78\xcd\x3b\x8a\xf3\x6e\x33\xcd\xd8\x72\x7a\x12\xdb\x55\x36\x99\x0b\x9a\xea\xb6\x2a\xe8\x38\x8b\xe0\x25\xc8\xb7\x75\x48\x25\x61\x06\xff\x0d\xbf\x42\x8e\x2c\xb6\xe0\x02\xeb\x45\xc1\x3e\xd8\x5f\xdf\xbd\x7e\x25\x15\xda\x0b\x53\x4e\x6d\x73\x7c\x84\xbb\x41\x07\x53\xa5\xfd\xd3\xe2\xf4\x3f\x16\xc8\xe7\x53\xe3\x1a\xda\x99\x55\x1f\x6b\xd0\xc0\x96\x28\x4a\x98\xb4\xa1\x19\x0b\x49\x57\x42\x74\x19\x22\xb6\x92\x64\xaa\x6e\x58\x0a\xd6\xd9\x80\x0c\x10\x5c\xd5\xa9\xfa\x84\xdb\xcf\x25\x09\x8b\x9f\x5f\xb8\xda\x70\x47\xab\x78\x8e\xc0\xcc\x82\xde\x71\xbc\x73\x53\x11\x90\x15\x2d\x36\xf1\xea\xb4\xad\xf4\x6c\xc4\xcc\xf3\x98\x86\x94\xae\xcf\x38\xcc\x6a\x01\x99\x7e\x48\x6e\x0f\xba\x3a\xcd\x2e\x1c\x9d\x4b\xcc\x78\x61\xc1\x99\x40\xc1\xe8\x26\x60\xb6\xf1\x7c\x14\x83\xde\x44\x04\xe1\x29\x4a\xbf\xc9\xd4\x55\x79\x3c\x81\xb5\x61\x32\x17\xff\xba\x78\x30\x7c\x58\xcd\x83\x02\x3a\x95\xc9\x61\x60\x48\xcb\xc2\xe3\xca\x9d\x26\x2e\x60\x4d\xb4\x5b\x06\xcf\xf1\x8b\x6f\x23\x1d\x23\xda\x1a\xe7\x5c\xb2\x1a\x30\x3b\xbc\x40\xd3\x31\x09\x63\x47\x49\x10\xee\xc5\x7c\x00\x6b\x87\xcd\x2a\xc4\x09\xf8\x05\x74\x74\x3e\x8b\xfb\x78\x13\x10\x53\x08\xc6\xd8\xd0\xb7\x2f\x3d\xa4\xb6\x8f\xf2\xa6\xe2\x3b\x96\x7e\xb9\x87\xe5\xaf\x1f\x3e\x62\x15\xae\x2f\xbc\xbe\x63\x3f\xfe\x46\xb9\x2c\x64\xa3\xe3\x86\xcf\xde\x27\xb2\xb2\x08\x61\xaa\xee\xdf\x00\x96\x8d\xe8\x39\x5b\x29\x45\xf4\x2f\xc4\xf9\x2f\xdf\xfd\xd7\x7f\x32\x0b\xc5\x3a\xc1\x3e\xbe\xfa\x6f\xfe\xc6\xfc\x00\x68\x5c\x28\xf8\xfb\xc3\x39\xbe\xfc\x58\xaf\x5e\xc2\x54\x2f\xd1\x6d\xe9\x4d\x6c\xac\x91\x58\x08\xb3\xbc\xe7\x18\xf8\xc2\x24\x6f\x86\xe6\x8e\x4a\xd2\xe4\x94\x64\x9c\x31\xe4\xb1\x21\xf0\x0e\x8e\x59\x0b\x46\x49\x55\x30\xa8\x0f\xef\x86\xc1\x13\x8d\x48\x86\xba\x73\x77\x92\x3b\xd4\x4a\xb1\xfd\xa9\xfe\x81\xa3\x9c\x8b\x00\xfd\x87\x88\x73\x5c\x45\x69\x05\xe2\xb7\x58\x46\x22\xce\x0d\x17\x92\xa0\x72\x16\xb7\x72\x33\xb0\xc4\x93\x84\x89\x1c\x76\x39\xa4\x98\x5b\xca\x2d\x9c\x41\x2d\xaa\x2c\x34\x47\x45\x25\x91\x28\xde\x62\x64\x2f\xfc\x71\x52\xfd\xd6\x24\x37\x3c\xe2\xad\x2b\xa0\xbe\x72\xb9\x4d\xd5\x8b\xe6\xd6\x41\x35\x42\x4f\xef\x6a\x5b\xb1\x29\x47\x3f\x6b\x20\x04\x29\x21\x21\x87\x29\xa9\x06\xda\xda\xa7\x48\x42\x72\x25\x44\x62\x63\x85\xc6\xa2\xaa\xfa\xd8\x14\x2b\xf6\xfc\xd0\x08\x55\x40\x07\x58\xf9\xfc\x76\x2c\x91\xd4\x9b\xb5\xa6\xf8\x67\x44\x7e\x2b\xd8\xb4\xe7\xb0\x85\xc2\x38\xc4\x93\x3a\x04\xfa\x56\x51\x1d\x01\x96\x51\x6c\x37\xe6\x65\x94\x2b\xf8\x35\xe3\x25\x63\x50\xb7\xe5\x1a\x17\x5e\xc7\x05\xa5\xa1\x51\xc6\x4d\x4d\x49\x1a\xe9\x13\x18\x61\x1d\x16\x8c\x0a\xb2\x9d\x48\x7a\x67\x46\x1e\xa2\x4a\x85\xe7\x60\x16\x15\x05\x2c\xf4\x94\xcb\x4d\x8c\x43\xe6\xd1\x34\x4d\x5d\x07\x6c\xfc\x59\x9a\xc6\xcd\xb2\x42\xb6\xdf\x0a\x30\x91\x10\xd2\x5b\xbd\xc4\xea\x1b\x94\x04\x4c\x11\xfc\x18\x3c\xd5\xc5\x3c\x8f\xb2\x12\xc5\x3d\x57\x94\xa3\xbc\x7a\x7c\x7b\x09\xf0\xd1\x1e\xf2\x70\x58\x96\xa2\xdc\xeb\xa2\x95\xf8\x9a\xc0\xb6\x59\x86\xb1\x54\x93\xe2\x66\x31\xbb\xf0\x5e\x41\x13\x4d\x52\xe9\x7b\xef\x33\x34\x6d\x8e\xb9\x8d\x63\x1a\xc8\xe7\x29\xb2\xa0\x82\xe1\xbe\xd9\x80\x25\x57\x78\xd4\xd3\x57\xf7\xef\x2b\x7e\xc4\x97\x6f\x60\x7b\x83\x92\x46\x3e\xfb\xf5\x57\x86\x1d\xbc\x28\x7e\x8a\xc0\x55\xaf\xbd\x79\x19\x66\x9e\xef\xf7\xe0\x2a\x95\x8e\x34\x54\x03\x04\x0c\xf6\x4d\x0d\x06\xbe\xe1\x17\xb2\x1c\xf0\xca\x21\x04\x57\xa3\xd0\x21\x05\xa6\x2a\xca\x7b\x46\x3c\x78\x61\x76\x2e\xcc\xd5\x13\x19\xfa\xbd\xfa\x86\x1b\xbb\x25\x99\x55\xa5\x8a\xd7\x07\x00\x48\x04\x3b\xd7\xe0\x2e\xba\x24\x4d\x38\x1c\xb4\x21\x19\xe5\xf3\x0b\xd2\x45\x04\x60\x5a\x43\x07\x3e\x8b\x44\x46\x3f\x09\x7a\xd9\x33\x38\x46\x25\x8b\x89\x8a\x98\x3d\x8a\xe3\xf4\xe6\x4d\x98\x97\x51\x18\x53\x38\x90\x06\x87\x0f\xef\x0b\x4d\x2c\x85\xeb\x56\x9c\xd7\x3f\x3c\x83\xed\xf0\x8a\x76\x04\x7e\x31\x1f\x9e\x6d\xa2\xf2\x7d\x92\xa5\xd9\x16\xcd\xf4\xc5\xb9\xf9\x00\xf8\xa3\xef\x6c\x13\xb1\x15\x72\xd6\x46\xa1\xe9\xb8\x44\x18\xc8\xc1\xb6\x59\x11\xa5\xf3\x12\xed\x9c\xa9\x9a\xcc\xd3\x6d\xbc\x48\x1e\x94\x62\xe0\x59\xa6\xc4\x5d\x4a\xc7\x90\x5c\x0e\x44\xed\x46\x0d\x0a\x57\x04\x12\xa5\xde\x86\x37\xc2\x06\x03\x0a\x8f\xa7\x75\x9f\x41\xb4\xd5\x5e\x27\xc2\x6e\xea\x98\x07\xe4\x65\x2b\x3e\x20\x5e\x1f\x6b\xcb\xcf\x52\x70\x6b\xc6\x63\x41\x08\x52\xab\xe8\x93\x7c\x54\xc3\x1a\x95\x2c\x90\x48\xd8\x88\xdc\xa9\xc3\xd8\x23\x7a\xa6\xca\x91\x3c\x8e\x31\x80\xbb\x88\x28\xf0\x33\x98\xd5\x0b\x61\x74\x92\x52\xf5\x0d\xd8\x94\x10\x9f\x51\xd8\xa2\x5a\x96\x05\xa0\x1e\x44\x87\x5e\xe9\xd5\x62\x78\x3b\x81\x16\x4f\xdb\xe5\x18\xe0\x6a\xc3\xa2\x4f\x23\x10\xf7\xf9\xe2\x7d\x42\x47\xe0\x5c\x0e\xad\xd6\xd8\x1d\xc9\x59\x6b\x99\x6d\xad\xd6\x6c\x77\xef\xf3\xb9\xba\x57\xdc\x09\x53\xc9\xcc\x60\x09\x5b\xfc\xdc\xc7\x1b\x86\x21\xbe\x4e\x5a\xd3\x30\x8e\x00\x45\xc0\x1b\x57\x2c\x50\x83\x9a\x64\xb8\x63\x9d\xc5\x2d\x9f\xc4\x3a\xcc\xe5\x9b\xcb\x97\x15\xef\x85\x8b\x05\x73\x1d\x3c\xf4\x72\x9d\x78\x6b\xa4\x69\xa7\x18\x91\xb1\xea\x55\xb8\xcf\x40\xf1\xc8\xa7\x2c\xd4\x36\x8f\x39\x88\x07\x1e\xd9\x3e\x2d\x68\xb9\x8f\x5d\xa1\xf4\xca\xca\x91\x86\x2e\xb5\x1b\xbb\x57\x72\x18\x62\x23\xe5\xae\x24\x14\x89\x48\x04\x8f\x16\x0b\xcf\x59\xc0\x6e\x52\x30\x42\xa8\x3d\x6a\xb6\x08\xcd\x1a\x0d\x4e\xe8\x5f\x9a\x23\xbe\xa1\x8a\xb1\x1d\x57\xa1\x62\x00\x24\x50\x8f\xe4\xb4\x4e\x05\xca\xd4\x9c\xa2\xc4\x42\xff\x10\x8f\x1e\x25\xd4\x7d\x93\xe6\x94\x0e\x59\x45\xd7\xf0\x46\xec\x0b\xa1\x65\x85\x86\x47\x63\x54\x01\x5c\xf3\x24\x5b\x15\xad\x6b\x6c\x41\x5a\xec\x3b\x52\xae\xf8\xf3\xc3\xc3\x8f\x54\x6d\x38\x41\x25\x6a\xb0\x7b\x22\xe7\xa5\x1f\x25\xb7\xa6\x11\xc8\xd2\xe9\x87\x89\x6c\x6c\x00\x57\x13\xe1\x35\x07\x93\x06\x61\x06\xbf\x68\x9f\x42\x30\x58\xed\x44\xd8\x21\x1c\xff\xce\x6a\x36\x69\x85\x30\x84\xce\x44\xd0\x16\x99\xb5\xf1\xba\x31\xa6\xc1\xd4\x15\x73\x4b\xd8\xce\xd2\x2a\xd7\x99\x46\xfd\xc3\x16\xb4\x59\x16\x3a\x9e\x9d\x26\x98\x81\xdd\x6c\x30\x9c\x89\x9f\xf0\x5c\x15\xb1\x00\x1a\x8a\xf2\x9d\x24\x67\x98\xe7\xa1\x31\xd9\x2c\x3e\x86\x7b\x07\x29\xce\x6d\x7c\xe4\xbe\xef\x5c\xde\xe3\xf7\x86\xfd\xf8\x57\xb5\x14\xf5\x12\x23\xab\x9b\xec\xa4\x3f\x1c\xa1\x94\x44\x50\xd9\x21\x40\x1c\xdd\x37\x80\xea\xcb\x04\x2c\x61\x47\x70\x76\x0b\x11\x97\xf4\xf4\x95\xf6\xcc\x14\xa7\x34\x3b\x0b\xc7\x17\xe7\x39\x9a\x1a\x10\x4e\x11\xaf\x81\x69\x82\xf7\xdd\x78\x4a\x33\xc0\x8e\x38\x2e\xfa\xd8\x16\x92\x8c\x0b\x7c\xe2\xb3\xa0\xc8\x3e\xd2\xcb\x09\xe6\x8f\x6a\x3c\xd4\xd2\xae\x05\x88\xeb\x38\x2a\x2b\x7a\x20\x63\x4f\xfc\xf1\x60\x09\xd6\xde\xa8\xa7\x93\x06\xdf\x13\xf6\xb4\x69\xcf\xc1\xf8\x62\x33\x8d\x46\xfe\x51\x77\xf1\x16\x81\xe4\x0b\x05\xb0\x0f\xf2\xeb\xa9\x44\xb3\xdc\x0c\x59\x15\x3a\xcd\x31\x03\xd6\x48\xaa\x91\xa1\x40\xde\x28\x60\x65\xde\x12\x64\x72\x56\xf6\xd4\x06\x8d\x9c\x24\xe8\xe0\xb4\x3a\xb3\x6a\xea\x44\x42\x58\xd4\xa4\x3f\xa3\x36\x5a\xe8\x25\x26\x26\x02\x8c\x0b\x05\x74\xa4\xd7\xf3\x25\x7f\x84\xd9\xb6\x2a\xc1\xd6\x98\xab\x93\x6d\xa3\xc0\x33\xc5\x25\x84\x09\xe5\x8c\xf0\x5b\xf0\x33\xc1\x48\xf0\x18\xf8\x61\xe7\xa8\x5a\xa6\x26\xc7\x1a\x72\x0c\xe7\x99\x90\x2a\xce\xcc\x90\x73\x62\x2a\xc8\xeb\xa1\x8e\x87\x0c\xfc\x38\x83\xa6\xdf\xa4\xe9\x35\x6a\x78\x6c\x33\xaf\x5e\xbb\x86\x83\x36\x58\xf7\xd8\xb1\xfd\xba\x02\x37\xfd\xa1\x9b\xce\xe0\x8d\xa0\x51\x23\xa6\x0d\x09\xec\x3a\xc8\xea\x06\x6b\x8e\x8d\xea\x30\x41\x46\x4e\xc8\xed\x71\xb8\xa8\x85\xf0\x47\x88\x40\x85\x96\xcd\x07\x62\xb8\xe0\x0d\x6a\x8b\xc2\x24\x44\x7e\x86\xd1\xbc\x1c\xd7\x10\x0f\x8e\x57\xdf\xb1\x35\xe9\x84\xaa\x39\xd0\xf3\xed\x4f\xc1\xdf\xf1\xa5\x67\x3a\x38\x4d\xc6\x6e\x96\xc4\x5a\x7a\x96\x6b\xd9\xc6\x33\xe5\x35\x40\xdc\xc4\x34\x0b\x7e\x4a\x39\x74\xaf\x26\x34\x49\x6e\x83\x95\x1c\xfc\xf9\xb9\x4e\x68\x50\xbb\x9a\x98\x3f\xe9\x2e\x20\x19\x46\xe1\x75\xa2\xd3\x65\x0b\x0f\xd8\x63\x2d\x3c\x68\x5a\xbf\x05\x11\xcb\x09\xf7\x29\xf1\x6d\x6c\x32\x93\x93\x3a\x6d\x1c\x46\xec\x4d\xb9\x74\x4a\xcc\xbe\x32\x4a\x96\x8f\x85\xc9\x3f\xd8\xc8\xa1\x98\x56\xcd\x7c\x03\x67\x5f\xf2\x23\x4a\x24\x3b\x10\xec\x92\x7d\x9d\xd1\xfb\xbe\xaa\x49\x6b\xf9\xfe\xd9\xbc\x79\x57\x9e\x76\x38\xf3\x55\x35\x67\xcd\xae\xf7\x0f\x31\xcd\x3f\x4d\x45\x5a\xd9\x80\x35\xc5\x6a\x9d\x56\x6e\x95\x67\x75\x25\x81\x84\x1b\xbb\xb2\xb4\x3d\xe5\xe6\x4d\x2d\xd4\x57\xee\x59\xd9\x35\xb9\x13\xb0\x1c\x2c\xf0\x24\x25\xd0\x2a\xee\xc4\x28\xd9\x3a\x5c\x70\xdf\xbe\x72\x4e\x2a\x22\x5c\x60\x3e\x3d\x62\x03\xd7\x9e\xc8\x71\x6e\x17\xc2\x5c\x13\x41\x31\x16\x8e\x51\xfa\xb6\x8a\x14\x99\x19\xeb\x39\x5a\xb5\xa6\xb5\x72\x51\x06\x52\xaf\x19\x1d\xac\x16\xdd\x57\x2c\x6a\x28\xe4\xe4\x42\x06\xbb\x34\xf0\xa7\x72\xd1\x36\x0c\x14\x5e\x48\xee\x2d\xc8\x45\x7b\x8b\xc3\x7c\x8d\x6b\x12\xd0\x97\x30\x2e\x52\x5c\x02\xd9\xc3\xac\x15\xc0\xc7\x1c\x0f\x8f\x6e\x34\xcd\x29\xde\x75\x34\x15\x21\x8e\x99\x66\x7f\x5f\x47\xbb\x2a\x78\xf6\x17\x79\x0e\x85\xc8\xc4\xff\xea\xea\x56\x04\xf1\xf5\xd5\xad\x4e\xef\xaa\x88\xa3\xa3\xb8\x35\x61\x63\x8f\xa5\x17\x58\xcb\xd7\x74\xda\xba\x14\xaa\x6d\xd2\x92\x7c\x53\x4c\x50\x86\x09\x5e\x15\xf1\x0b\x9e\xc7\xcb\xf8\x52\x0a\x7e\xc7\x17\x55\x80\xc5\x45\xe6\x63\x35\xc8\x02\x2c\x90\x94\x8e\x67\x17\xb7\x45\xa9\x37\x53\x64\x2e\x80\x15\x47\x57\x3a\xb6\x05\xb2\x14\x17\x9f\xac\xd3\xa2\x3c\x27\xda\x55\x15\xb0\xd5\x0c\x3c\x3b\x94\x8d\x7b\xf7\xd5\x86\x1c\x5f\xfb\x8a\xf1\x2b\xc3\x72\x1c\x61\x5e\x46\x5f\xec\x88\xb0\x94\x74\x2b\x8e\x78\xbc\x06\x8f\x0b\x7e\x7d\x7e\x76\x36\x51\xff\x66\x29\x41\xc2\x6a\x6b\xa5\x20\x06\x34\xde\xa0\x75\x62\xa1\x1d\x7c\x8a\x04\x6d\x85\xed\x58\x2e\x0b\x42\x2b\xa7\xc3\xe3\x90\x0a\x4e\x3e\xed\x38\x79\x95\xf2\x42\x3a\x05\x34\x7c\xbe\x97\x79\x80\xd2\xcd\x08\xe8\x26\xcd\x61\x4f\x72\x51\x8e\x12\x4d\x4f\x19\x89\x5b\xbc\x69\x8c\x64\x33\x7f\x8d\x90\x84\x13\xdf\xad\x4d\x38\xb2\x02\x04\x83\x3e\x4d\xe7\x47\x90\xc6\xaf\x5c\x5a\xec\x38\x4a\xf0\xa4\xbf\xb4\x7b\x3c\x34\x7d\xa4\x7e\xb8\xe9\x55\x0c\x95\x0f\xe3\x48\x6c\xe1\x0d\xf4\xeb\xb8\x40\xc8\xa9\x21\x96\xaa\xe0\xde\xc2\x14\xb1\x20\xc1\x2a\xce\x6e\x41\x56\x78\xb0\xfe\x6e\xfb\xc7\x21\x28\x59\x10\x1f\x58\xa0\x62\x9a\x56\xd6\xc1\x9e\xd2\x92\x46\x15\x4a\xad\x5a\xa5\x5e\x65\xd2\xac\x1f\x1e\x35\x4b\x88\x8d\x6d\xeb\x54\x9a\x74\x17\xa0\x0c\xd7\x12\x0f\xae\xbb\xad\x29\xfe\xdd\x57\xbe\xaf\x54\x47\x6a\x95\xfb\x96\x76\xda\xb4\x36\xbb\x0a\x6e\xaa\x1a\x66\x92\x3c\x66\x1d\x67\xb0\x70\xea\x04\xf7\x30\xfc\x9a\x72\xe6\xd0\x84\x78\xcc\x6b\xdc\xbf\x09\xda\x05\x30\x87\x13\xec\xc0\x3f\x49\x5f\x88\x7b\x50\x9d\xa3\xc4\x2f\x62\xa8\x3c\x29\xbf\x98\xe2\xcb\x77\x68\xdf\xce\xe9\xa4\xed\x36\x97\x64\x30\x99\x0a\xb2\x71\x61\x3b\x82\xb1\x15\xf3\xb5\x16\xac\xe7\x40\x72\x53\x19\x24\x38\xad\x20\x45\x8d\xf9\x2a\x6a\x89\x2b\x71\x58\xed\x6d\x8c\x09\xeb\x3a\xa0\x68\x2b\x48\x42\x35\x50\xea\x55\x5a\xca\x2d\x41\x08\x12\x61\x91\xa4\x58\x87\xd7\xe0\x53\xc9\xed\x7f\xc3\x26\x09\x8d\x33\xa3\x7a\x38\xb9\x28\x83\xee\x04\x40\xc9\x6f\x50\xc3\x3b\x97\xa4\x02\x27\x34\x47\x26\x58\xf0\x53\x72\xd5\xd6\xf9\xd8\x33\xbc\xce\x35\x1e\x78\x52\x42\x14\xae\x14\xaf\xd6\x69\xc7\x05\xab\xce\x81\xf5\x7e\x7d\xe0\xe6\x94\x3b\x1a\x49\x4d\xdf\xc0\x35\x2f\x07\x58\x87\xbf\x5b\xc9\xaa\xb5\x78\xa4\xb6\xe4\xba\x2b\xb8\xc5\x95\xa5\x14\xb6\x22\xfb\x17\x15\x40\x4f\x01\xfe\x5e\x81\xdd\x0c\x49\x75\x0a\x9b\xc1\x88\x54\xd3\xbf\x92\x70\x14\x5b\x63\xcd\x90\x94\x89\xd2\xc8\x30\x6e\xe9\xba\x7b\x66\xad\x19\x92\x72\x8a\x3b\xd8\xcc\x93\x3a\x2c\xfb\x65\x4d\xe7\xbf\x31\x1c\xf0\xef\x0f\x1f\xba\x05\x69\xe0\x67\x49\xd5\x15\xf9\x53\x19\x90\x90\xd1\xc4\x0e\x09\xc1\x62\xdf\x8a\x36\x50\x59\xe2\x3d\x6e\x74\x6e\x87\x66\xe1\xee\x3f\x29\x91\x01\x33\x9a\x5c\x98\x0a\x47\x83\xc4\xde\x90\x99\x29\x40\xef\x08\x99\x75\x92\x7d\x38\x62\xc6\x6d\x8e\x0f\x99\x1d\x13\x01\xbb\xa0\x2b\xf3\x9e\xbd\xfe\xa1\x37\x08\x86\x29\xb9\xaa\xfa\x86\x24\x0e\x05\x6b\xe8\x3e\x3c\x37\xea\x75\x60\x40\xad\x23\x9e\x66\x81\x4e\x7c\xa7\x62\x3b\x77\xaa\x9d\x10\xb0\x13\xe7\x79\xfd\xb7\xfd\x31\xbb\x5a\xad\x13\xb8\x1a\x13\x87\x67\xce\xd5\x83\x7b\x8b\x07\xe4\x06\x54\x63\xd8\xb1\x39\xe4\x58\x64\xfb\xb8\x79\x7c\x74\x5c\xaf\x37\xac\xd7\x17\xd5\x73\x48\xbb\x37\xa6\x57\x64\x1d\x41\xbd\x16\x85\x5c\xa2\x34\xea\xd9\xef\x57\xa7\x2c\x47\x8d\x63\x96\x8e\x00\x6a\x1e\x25\x39\x20\x7a\xbe\x3f\x76\xce\x06\x41\x2d\x02\x74\x5c\xf4\xbc\x75\x08\x65\x6c\xbd\x5d\x09\x07\x41\x9f\x83\x03\xe6\x74\xa3\x1d\x97\xc5\xe6\xb0\x83\x0a\x85\x03\x91\x63\x02\x7a\x79\x24\xda\xaf\xa6\x7c\x3d\xb4\x09\xa6\x26\x3d\x85\xa2\x86\x8a\xef\x8c\x28\x38\x60\x5a\x07\x44\xcf\x7b\x0e\xa9\xd8\xd0\xd1\xd0\xb1\x94\xa1\xa8\xb9\x89\x62\x42\x3f\x62\x07\x57\x45\xf5\xba\xbf\xcd\x76\xfd\xfe\x35\x47\x1e\xde\x69\x76\x3e\xc9\xe0\xaa\x52\x75\x12\x8d\xa5\x33\xfb\xe2\xad\xd1\x49\x0c\x9b\x49\xac\x5f\xae\x52\xf0\x79\xca\x5a\x3c\x13\x47\x79\xc7\xef\x6d\x40\xd3\x34\xbc\x6b\xde\x45\x83\x66\xe1\xe4\x8c\xf0\xef\xf2\xe8\x32\x8e\x08\x0c\xc8\xb3\xa1\x32\x14\xbb\x43\x79\x96\x54\x1d\x65\x20\x92\x7a\x27\xaa\xbc\x0d\x6f\xc4\x90\xdc\x9a\x67\xfb\xcd\x7e\xa0\xb7\x75\xca\x35\x93\xcf\x36\xa5\xdd\x15\x95\x76\x68\xd6\x17\x84\x56\xd5\x21\xcf\xc3\xe2\xbf\xd4\x0e\x79\xfb\x5b\xb7\xbc\x4a\x79\x55\xd7\xe7\x29\x1d\x4b\x91\xeb\xa3\x27\xbe\x75\xf0\x28\x1d\x37\xb1\x21\xe4\xbf\xdb\x78\xb9\x9c\xc9\xac\x92\x7e\x94\x7c\x05\x66\x0a\x6c\xe3\x27\xd0\x24\xae\xee\xc9\x93\xe5\xc4\xc2\x06\x74\x47\x5c\x54\x64\x38\xb1\xd5\x9c\x93\xdb\x7d\xf0\x4c\x2a\xc3\x29\x0d\x18\x40\x72\xaa\xea\x05\x21\x3b\x77\x7c\x0c\xac\xde\xdd\xdd\x5b\x80\xdc\x04\xd4\xe0\xe9\x5a\x24\xe8\x04\x8d\x3c\xc7\x53\xb3\xe8\x0b\xb6\x55\xce\xb4\x51\x39\x31\xe5\xd3\x62\x03\x08\x75\x65\x71\x6a\x41\xd6\xfa\x98\x72\x0a\xa4\xf1\xab\xe9\x39\x0a\xd7\xa4\x98\x25\xe8\xcb\x1b\xb4\x59\x87\x9a\x0f\xb1\x8e\x01\x9b\xd9\xfd\xcb\x5d\xcc\x61\x96\x23\xa8\xc1\x30\xfe\x70\x72\xb8\x1b\x96\xc6\x02\x1e\x15\x46\x61\x79\x4e\x87\x67\x0c\x11\x12\x47\xc8\x52\x30\x61\xb2\xd2\x25\xdf\xa5\xec\x6e\x62\xb2\x9d\x6a\x7b\x18\x4b\xa1\xca\xaf\x15\xdb\x87\x6c\xf3\xd3\x3d\x59\x9e\x7a\xb6\xe9\xec\x44\xbd\xc6\x7a\xac\x42\x10\x96\x92\x39\x8e\x36\x17\x6b\x53\xbf\x22\xae\x1c\x9f\x43\xc0\x88\x6c\x1c\x13\x80\x14\x83\xc8\xd5\x19\x8f\x74\x13\x95\x58\x78\xb1\xd8\x52\x3c\x11\x8d\xc6\x28\x01\xfb\x5a\x9d\x9c\xc9\x88\x34\xfd\xee\xcd\x79\xd1\xbb\x6f\x3b\xfd\x7f\xa6\xb5\xcd\x49\xed\x4b\x9f\xf4\xe7\x4f\xfa\x13\x28\xfd\x19\x94\xde\x14\x0a\x5f\x2b\xd6\x51\x12\x59\x4b\xa2\x7c\xfe\x7a\xa5\x23\xb5\x8f\xc4\x58\x52\xf7\xa8\xee\x5d\x63\xe5\x1d\x52\xb6\x52\x3d\x8f\xf9\xec\x45\xf3\xde\x6c\x8f\xaf\xe2\x06\x33\xff\xf1\x76\x09\xfe\x04\xd7\xec\xf8\x4d\xb2\x36\x0a\x56\xda\x97\x89\xee\xbd\x5e\xcc\xde\x2d\x7e\x68\xa0\xfc\xd5\xa3\xcb\x77\x5f\x79\xbd\x18\x75\xc3\xfe\x8a\x83\x0b\xf6\xb7\x5c\xba\x40\xd7\xc6\xf3\x75\x0b\x45\x7e\xcd\xbf\xed\x5d\xb1\x62\x4e\xb5\xaf\xa9\x3d\xf4\x3e\x84\xae\x9b\x0d\xde\x6d\x67\x96\x01\x10\x07\x94\x5e\x5b\x0d\x6f\xb1\xfe\x6f\xc6\x37\xbb\xb5\x2e\x2f\x08\xea\xd7\xbd\x4d\xba\x2f\x38\xc0\x29\xb8\x2d\xf9\x8c\xe1\xcb\x62\x45\x93\xf5\xf7\x72\x96\x70\x08\x5a\x80\xdd\x88\x3b\x17\x03\x38\x6c\x50\xbf\x30\x19\x8f\x7e\x3a\x0b\x76\xe8\x85\x6e\xb4\x46\xfb\x2f\x74\xab\x20\xef\x3d\x53\x5a\xbb\xb8\x3e\xb0\x04\xb6\xe7\x4a\x9d\xb5\xee\xb9\xc8\x6d\x18\x82\xe4\x03\xff\x7c\xf7\xb9\x55\xf3\x3a\xf4\x3e\x37\xe7\x1e\xb7\xfa\x9c\xf1\x68\xa5\x9d\xf6\x51\x77\xb9\xe1\x42\xf5\x5c\xa8\x61\xbd\xbb\x56\x1b\x27\xe0\x5d\xb5\xe8\x3a\x74\x79\xc4\x65\x6f\xce\x2a\xff\xa6\xcb\xde\x1c\x38\xf6\x90\xcd\x51\xb7\x8e\x83\xf6\x38\xe9\xe3\xa8\xd6\x15\x6e\x47\x5e\x12\xe6\x84\x99\x98\xa8\x8d\x6b\x0e\xba\x8f\xed\x17\x2b\x11\x80\x20\x22\xfa\xa3\x4b\xed\xc2\xab\xae\x9b\x0d\x06\x4a\x13\xb1\xd2\xfb\x29\xd7\xcc\x77\x16\x1c\x0d\xdc\xb2\x76\xff\xa0\xcb\xb9\xc6\x35\x8e\xda\x53\x31\x42\x13\x3e\xa0\x62\x84\x2a\x44\xd2\xd9\x3f\x31\x13\x2a\x41\x80\xc2\xae\x97\xb9\x4c\xeb\x65\x98\xdc\x72\xe0\x33\x25\xc6\x90\xff\x9b\x10\x65\xd5\xb7\x38\x36\x46\x1f\xa9\xa2\x1a\x83\xe6\x45\x84\xe2\x4e\x0e\xee\xd6\x0a\x49\x3a\xf0\xee\xbb\x2f\x0f\xaf\x08\x31\x59\x52\xe8\xef\x6a\xb0\x3d\x05\x25\x86\xce\x35\x1e\xe4\xf1\x71\x0a\xee\xc0\x53\x7b\x9b\xc8\xbc\x02\xeb\x1f\x93\xdc\xc6\x19\x7d\x7d\x72\xdb\xe9\xbd\xe7\xea\x26\x9c\xcd\xff\xf6\xd5\x4d\x15\x76\x6d\x2b\xa2\x57\x01\xbd\xd9\xce\xe2\xa8\x58\x57\xfa\xe7\xb7\xdd\xdb\x74\x88\xf5\xf1\x35\xf7\x31\x99\x7c\xea\xf0\x9d\x4c\x2d\x2d\x61\x67\x27\x29\x55\x7b\x31\x13\x27\x57\xf7\x18\x34\x63\x27\x6b\x5a\xdb\x0a\x6e\xaa\xb4\x47\xaf\xd4\x92\xa4\xcd\x1c\x69\x33\x45\xfa\x27\xbe\x5c\x89\x0c\xa0\xaf\xbd\x5c\xa9\x87\x2a\x9d\xb2\xef\xb0\xcb\x95\x8c\x5e\xf8\xc3\xae\x51\xea\x41\xf9\x00\x55\xa5\xfa\x75\x15\x56\xb2\x1c\xa0\x86\xa0\x81\xcd\xaa\x34\xd5\x11\x80\x68\x6b\x24\x78\x79\xe7\x40\x37\x9d\xf9\xb0\x93\xe9\x8c\x85\xf5\xcd\x6f\x01\x25\x2d\xb0\xdc\xff\x53\x24\xc7\xc0\x3f\x4d\x7a\x86\x31\x49\x96\x36\x10\x53\x4b\x67\x10\xe9\x48\x4c\x74\x5e\x0e\x75\xa8\x52\xee\xca\x18\x0c\x6b\xe5\xee\x5b\x18\x5d\x1e\x16\xdd\xdc\xad\x9a\x3b\xe3\xf7\x35\xcd\xdc\xb8\x44\xca\xfc\xdf\xf0\x24\x81\xee\xa4\xba\xc3\x1e\x65\x8d\x93\x33\x92\x1e\x98\xa6\xa9\xab\x4f\x09\xd7\xdf\x47\x61\x1f\x6a\x63\xed\x0b\xdb\xef\x55\xd0\x76\x20\x02\x6c\xc1\xf9\xce\x32\xfc\x0f\xd4\x1d\x2b\x40\xbd\x71\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 26964, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x2c, 0xfb, 0xd0, 0x4c, 0xde, 0x28, 0x43, 0x54, 0xd, 0xef, 0x47, 0x92, 0xf, 0x80, 0x30, 0xf9, 0xa2, 0x7, 0xd6, 0x6a, 0x3e, 0x92, 0x21, 0xc7, 0xe1, 0x4c, 0x5, 0x87, 0x60, 0x9a, 0x20, 0xee}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 29117, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x3a, 0xa9, 0xff, 0x2e, 0xc4, 0xbf, 0x77, 0x3d, 0x7f, 0xdb, 0xb1, 0x85, 0x70, 0x5e, 0x91, 0x5a, 0xc7, 0x80, 0xb9, 0x3d, 0x9b, 0x92, 0x23, 0x2a, 0x3b, 0x65, 0xf3, 0xb8, 0xa1, 0x5a, 0xcb, 0xc0}}
 	return a, nil
 }
 
-- 
2.43.0


From 677adf04debd88436b1389733fadff991b93f437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:46 +0000
Subject: [PATCH 19/42] fix: carry any value in a path and refuse what has no
 place in one

---
 gengokit/httptransport/httptransport.go       | 39 +++++++++---------
 .../NAME-service/baron/NAME.pb.baron.go.tmpl  | 40 ++++++++++++++++++-
 gengokit/template/template.go                 |  6 +--
 3 files changed, 59 insertions(+), 26 deletions(-)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index 5fb5507..bcd4ada 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -244,34 +244,31 @@ func NewBinding(i int, meth *svcdef.ServiceMethod) *Binding {
 //     []string{
 //         "\"\"",
 //         "\"sum\"",
-//         "fmt.Sprint(req.A)",
+//         "pathField(req, \"a\", &err)",
 //     }
 func (b *Binding) PathSections() []string {
-	isEnum := make(map[string]struct{})
-	for _, v := range b.Fields {
-		if v.IsEnum {
-			isEnum[v.CamelName] = struct{}{}
-		}
-	}
-
 	rv := []string{}
 	parts := strings.Split(b.PathTemplate, "/")
 	for _, part := range parts {
-		if len(part) > 2 && part[0] == '{' && part[len(part)-1] == '}' {
-			name := RemoveBraces(part)
-			if _, ok := isEnum[pkg.GoCamelCase(name)]; ok {
-				convert := fmt.Sprintf("fmt.Sprintf(\"%%d\", req.%v)", pkg.GoCamelCase(name))
-				rv = append(rv, convert)
-				continue
+		// Add quotes around things which'll be embeded as string literals, so
+		// that the 'pathField' calls will be unquoted and thus evaluated as
+		// code.
+		section := []string{}
+		for len(part) > 0 {
+			start, end := strings.Index(part, "{"), strings.Index(part, "}")
+			if start < 0 || end < start {
+				break
 			}
-			convert := fmt.Sprintf("fmt.Sprint(req.%v)", pkg.GoCamelCase(name))
-			rv = append(rv, convert)
-		} else {
-			// Add quotes around things which'll be embeded as string literals,
-			// so that the 'fmt.Sprint' lines will be unquoted and thus
-			// evaluated as code.
-			rv = append(rv, `"`+part+`"`)
+			if start > 0 {
+				section = append(section, strconv.Quote(part[:start]))
+			}
+			section = append(section, fmt.Sprintf("pathField(req, %q, &err)", part[start+1:end]))
+			part = part[end+1:]
+		}
+		if len(part) > 0 || len(section) == 0 {
+			section = append(section, strconv.Quote(part))
 		}
+		rv = append(rv, strings.Join(section, "+"))
 	}
 	return rv
 }
diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index 447e355..83d7c3f 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -336,7 +336,8 @@ func MakeHTTPHandler(endpoints Endpoints, options ...httptransport.ServerOption)
 		}
 		serverOptions = append(serverOptions, options...)
 	{{- end }}
-	m := mux.NewRouter()
+	// Path parameters are escaped, they may hold any character
+	m := mux.NewRouter().UseEncodedPath()
 
 	{{range $method := .HTTPHelper.Methods}}
 		{{range $binding := $method.Bindings}}
@@ -471,6 +472,34 @@ func unmarshalField(msg proto.Message, name string, text string) error {
 	return nil
 }
 
+// pathField returns the named field of msg in the form it has in a path.
+func pathField(msg proto.Message, name string, err *error) string {
+	text, ok, e := formatField(msg, name)
+	if e == nil && (!ok || text == "") {
+		e = errors.Errorf("path parameter %q is empty", name)
+	}
+	if e != nil {
+		*err = e
+	}
+	if text == "." || text == ".." {
+		return strings.Replace(text, ".", "%2E", -1)
+	}
+	return url.PathEscape(text)
+}
+
+// pathVars returns the unescaped path parameters of a request.
+func pathVars(r *http.Request) (map[string]string, error) {
+	vars := map[string]string{}
+	for name, value := range mux.Vars(r) {
+		text, err := url.PathUnescape(value)
+		if err != nil {
+			return nil, httpError{errors.Wrapf(err, "path parameter %q", name), http.StatusBadRequest, nil}
+		}
+		vars[name] = text
+	}
+	return vars, nil
+}
+
 // addField adds the named field of msg to the query, if it is set.
 func addField(values url.Values, msg proto.Message, name string) error {
 	text, ok, err := formatField(msg, name)
@@ -546,7 +575,10 @@ func queryList(values []string) []string {
 			}
 		}
 
-		pathParams := mux.Vars(r)
+		pathParams, err := pathVars(r)
+		if err != nil {
+			return nil, err
+		}
 		_ = pathParams
 
 		queryParams := r.URL.Query()
@@ -722,11 +754,15 @@ func CtxValuesToSend(keys ...string) httptransport.ClientOption {
 		r.Header.Set("request-url", r.URL.Path)
 
 		// Set the path parameters
+		var err error
 		path := strings.Join([]string{
 		{{- range $section := $binding.PathSections}}
 			{{$section}},
 		{{- end}}
 		}, "/")
+		if err != nil {
+			return err
+		}
 		u, err := url.Parse(path)
 		if err != nil {
 			return errors.Wrapf(err, "couldn't unmarshal path %q", path)
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index dd472f8..5d3096e 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x02\xff\xed\x3d\x6b\x8f\xdb\x46\x92\x9f\xa5\x5f\xd1\x11\x62\x9b\x9c\xd3\x70\x9c\x03\xee\xb0\x37\xc1\x1c\xe0\x57\x1c\xef\xc6\x8f\xb5\xc7\xc9\x07\xc3\xf0\x52\x52\x4b\xe2\x0e\x45\xd2\x24\x35\xe3\x59\x65\xfe\xfb\xd5\xab\x9b\xcd\xa7\x24\x27\x39\x04\x87\x33\x10\x9b\x22\xbb\xab\xab\xab\xab\xeb\xdd\x9d\xb3\x33\xf5\x24\x5d\x68\xb5\xd2\x89\xce\xc3\x52\x2f\xd4\xec\x56\xcd\xc2\x3c\x4d\x02\xf5\xf4\xb5\x7a\xf5\xfa\x52\x3d\x7b\xfa\xe2\x32\x18\x9f\x9d\xa9\xb7\x3a\xdf\x26\x49\x94\xac\xb8\x81\xba\x89\xe2\x58\xa5\xd7\x3a\xbf\xc9\xa3\x52\xab\x72\x1d\x15\x6a\x19\xc5\x9a\x1a\xff\xac\xf3\x22\x4a\x93\x73\xb5\xdb\x05\xf2\x7c\x77\xe7\x7c\x50\x4f\x61\x34\xf7\x2b\xfe\x86\x16\xe3\x2c\x9c\x5f\x85\x2b\x8d\x5f\xde\xf0\xe3\xab\x70\x43\x5f\xa0\xf3\xa5\x19\x43\xcd\xd3\xa4\x0c\xa3\xa4\x50\x1b\x5d\xae\xd3\x45\xa1\xca\x54\x6d\xc2\x2b\xad\xa2\x64\x11\x5d\x47\x8b\x6d\x18\x2b\x9d\x2c\xb2\x34\x4a\x4a\xe8\x92\xa7\x1b\x55\xe8\xfc\x3a\x9a\xeb\x62\x8a\x90\x72\xfd\x79\xab\x8b\x52\x85\xc9\x02\x9e\x8b\x2c\x4d\x0a\x98\xc2\x6d\xa6\x09\x12\x36\xc5\x19\xa5\xf0\xd2\x42\x99\xaa\xb0\x50\x37\x1a\x26\x0d\xff\xea\x64\x0e\x74\xcb\x0b\x04\x80\xf0\x16\x5a\x7e\x2f\xd3\x5c\x3a\x12\xb4\x29\xbd\x08\x91\x52\x4b\x95\x6e\x73\x55\x6c\xb3\x2c\xcd\x91\xd2\x65\x1e\x26\x05\x3e\xe3\x70\x51\x18\x47\xff\x0a\x4b\x20\x04\x42\x83\x3e\x9b\xb0\x2c\x82\xf1\x38\xda\x50\x0b\x6f\x3c\x9a\xcc\x6e\x4b\x5d\x4c\xe0\x01\xe7\xae\xbf\x94\xf8\x48\x68\xc0\x92\x9c\xfd\xb3\x48\x13\x7c\xb1\xdc\xd0\xfb\x28\xe5\xbf\xcf\xa2\x74\x5b\x46\x31\xfe\x48\x74\x79\xb6\x2e\xcb\xcc\x3c\x6f\x73\x7a\x5d\x94\x39\xc0\xbb\x96\x47\x00\x05\x43\xc0\xf3\x2a\x2a\xd7\xdb\x59\x30\x4f\x37\x67\xab\xf4\xf4\x2a\x2a\xcf\xf0\x3f\x43\x0b\x68\x1d\x26\xb7\xd9\x4c\x4d\x56\x69\xba\x82\x25\x5f\xa5\x71\x98\xac\x82\x34\x5f\x9d\x65\x79\x5a\xa6\xb3\xed\xf2\x8c\xe6\x7f\x76\x95\xa4\x37\xc9\x19\xb5\x86\x5e\x8b\x6d\x4e\x93\x3c\xa2\x6b\xd5\x05\xfa\xeb\x4d\x56\x1e\x33\xae\xb4\x87\x9e\xcb\x48\xc7\x8b\x4d\x58\x5c\x1d\xd1\xdb\xe9\x03\x10\x80\x3c\xdb\x79\x79\x44\x77\xd3\x01\xfa\x96\xd1\x06\xb8\x2d\xdc\x64\x47\x74\x77\xfa\x00\x84\x9b\x3c\xcc\x32\x60\xb0\x23\x00\x54\x5d\xda\x4b\x9a\xc3\xe6\x0d\xcf\x36\xdb\x2f\x93\xfa\x97\xec\x6a\x75\xa6\xf3\x3c\xcd\x89\xd3\x06\x06\xb2\x9c\x47\x6f\x0c\xfb\x0d\x74\xa0\x07\x44\x64\xb7\x3b\x55\xd1\x52\xe9\xcf\x2a\x78\x92\x26\xcb\x68\x15\x5c\xda\x9d\x30\x81\x9d\x32\x51\x93\x04\x98\x7f\xa2\x60\xd3\xd7\x70\xc3\xb7\xa7\xc0\xd3\xf8\x2f\x0c\x31\x61\x50\xc0\x93\xd8\xf0\x00\xa8\xab\x3c\x9b\x1b\xa8\x2d\x3c\xe9\x63\xef\x97\x33\x10\x33\xe1\x22\x2c\xc3\xe6\xa0\x07\x0f\x89\x4f\xd5\x8e\xef\xd9\x5f\xb6\x81\x41\xc7\x19\x0b\xf7\xee\x11\x00\x64\xab\x1f\x45\x6c\x7c\x3a\x62\x08\xea\xe8\xe2\xe8\x8f\xc7\xe3\xeb\x30\x47\x69\xf5\x49\x5d\x28\x90\x45\xc1\xbb\x0c\x64\x4a\xc9\xbf\x49\x80\x01\x1a\x9b\x2c\xcc\x35\xbf\x12\xe9\x13\x3c\x2a\xd3\x88\xdf\xd4\xa6\x19\xbc\xd2\x37\xef\x50\x16\xe7\xfc\x91\xa5\x59\xf0\x2a\xcd\x9e\xc4\x20\x62\xed\x5b\x00\x9a\xdd\xf2\x0f\x66\xde\xe0\x17\xe0\xfd\xf1\x08\x44\xa9\xac\xa7\x61\x43\x96\xca\xd8\x94\x44\x52\xf0\x28\xa1\x7e\x95\x90\x09\x9e\xca\x23\xbe\x16\xf1\x11\x3c\xc3\x7f\xf1\x85\xd9\xd2\xc1\x3b\x7a\xc0\x57\xce\x36\x0d\x2e\xcd\x33\x7e\xa8\xb6\x1f\xb6\x86\xad\xf2\x73\x18\x6f\x69\xde\x8e\x5c\x09\x7e\xc0\xe7\x97\xf0\x8c\xd4\x3b\x3b\x39\xe8\x8f\x7a\x66\x35\xdb\xc9\xc1\x7f\xce\x48\x83\xbe\x48\x54\xc8\xea\x2d\x9f\xaa\xa8\x7c\x50\xa8\x6d\xa1\x97\xdb\x98\xd4\xd4\x72\x9b\xcc\x71\xea\xa0\x03\xd7\x61\xa9\x12\x8d\x5a\x2a\x55\x69\x46\xb6\x81\x4a\xb1\x2f\x3c\x9f\x1a\x35\x80\x00\x67\x61\x11\x15\x81\xfa\x01\xba\xeb\x2f\x30\xf3\x58\x4f\xd5\x6d\xba\x55\x9b\x68\xb5\x2e\x55\x16\x16\xa8\x22\x1d\x84\x01\x5e\x68\x07\xe2\x71\x60\x6d\x16\x5b\x50\xcc\x08\x0e\xda\x22\x07\x04\x3f\x82\x5e\x8d\x11\xc7\x1b\x60\x42\xa5\xc3\xf9\x5a\x34\xbd\xf2\xcc\xe8\x3e\x7c\xcb\x01\xc3\x6d\xc6\x40\x8b\x4c\xcf\xa3\x65\x34\x87\x41\xcb\x75\xa0\xbc\x17\x84\x1f\x18\x0c\x00\x7f\x16\xce\xe2\x5b\x68\xb3\x89\x60\x79\xc8\x4a\x00\x8d\x5d\x44\xab\x04\xbb\x46\xc9\x75\x7a\x85\xea\x5e\xab\x77\x6c\x23\x58\xab\x82\x50\xd4\x08\xa7\x9a\x01\xf3\x00\x82\x30\x94\x0c\x7c\x68\x61\xa9\x3b\x8f\x23\x9d\x94\x75\xea\xc2\x28\xf3\x34\x8e\x35\xf5\x33\x06\x0a\x60\x04\xcc\xcf\xe0\x60\x1e\x95\xb9\x02\x7f\xc1\x84\x10\x60\x01\x6c\x13\xb3\x29\xc1\xb4\x8a\x90\xc2\x1b\x4d\x94\x74\xf0\x85\x1e\x3a\x5f\x86\x73\xdd\xb7\x12\x08\xcc\x0e\xd6\x6d\x24\x6d\x71\x30\x55\x97\x20\xb8\x01\x9f\xc8\x7c\x40\x0e\xcc\xa2\x84\xe8\xb4\x11\x14\x9d\x85\x9d\x8a\x29\x55\x6e\xf3\x04\xa6\x8e\x33\x46\x04\xe7\x30\x4d\x9d\xa3\xc5\x14\x1a\x64\x83\x31\x4d\xa7\x45\xd0\xdd\x78\xf4\x3e\xb1\xf3\xd3\x0b\xb0\x00\x4d\x0f\x36\x01\x45\x12\xec\x76\x80\x22\x58\x88\xdf\x46\xea\xfc\x42\xd9\x36\x2f\x79\xc9\x58\x2c\x7f\x1b\x49\x1f\x33\x8a\x82\x3f\x66\xaa\x81\x79\x09\xa0\x58\x70\xb1\x75\x69\x31\xda\x3f\x04\x32\x30\x70\x62\xd5\xc5\x57\xce\xa0\xde\xbc\xfc\xa2\xc4\x4a\x43\xb1\x8b\xff\x4e\x91\x61\x4e\x76\xbb\xe7\x29\xb6\x01\xc8\xc1\x5b\x36\x41\x2f\x81\x18\xd2\xcf\x57\x5e\xa3\x05\x1b\xa6\x4e\x93\x29\x0b\x38\x1f\xa9\x65\xec\x56\x7a\x87\x88\xea\xa0\x63\xe6\x88\x0c\x0e\xee\x8f\x47\xa8\x08\xa0\xe5\x37\x17\x2a\x89\x62\x84\x30\x92\xf5\x82\x9f\x04\x64\x3c\xba\x1b\x9b\x77\x06\x7a\xb0\x17\x27\x7f\x8a\x00\x80\x88\x86\x9c\x48\xcc\x97\xb8\xcd\x5c\x8a\xd2\x46\xfe\x16\xc4\x08\x52\xf4\x0e\x1b\x9f\x2a\x97\xca\xf0\xa9\x8f\xd0\x08\xab\x6b\x66\x05\x12\xdd\xe9\xe6\xb2\x89\xdf\x5e\x6e\xa6\x19\x4d\x0e\xc1\x76\xaf\x92\x71\x0c\xec\x8e\xda\xe1\xb2\x58\x17\xc1\x79\xcd\x64\xaf\x96\x03\x60\x7f\xc6\x89\x08\x84\x16\xdd\x5a\xab\x0d\x5d\xae\xed\xda\x15\x41\x83\x81\x08\x15\x6c\xd3\x5e\xb5\xf6\xb2\xe1\xba\x99\xb7\xd7\xbc\x1c\xa3\xbb\x31\x13\x99\xd7\xc4\x5d\x1b\x54\x8e\x8f\xe2\xf8\xd9\x97\xb9\xce\x4a\xd2\x53\x05\x8b\x58\x4b\x29\xd2\x50\xe8\xb2\xc8\xde\xac\x36\x2b\x2d\x23\xc9\xa6\x0e\xbf\x20\x78\x19\x2d\x40\x6c\xdf\x80\x7e\x27\x2f\xf0\x7d\x61\xfc\x42\x74\x82\xb2\x2c\xbe\x45\x11\x83\x62\xb3\x44\xe0\x1b\xdb\x9a\xf4\x82\x86\x65\xbb\xb5\xcb\x86\xfb\x05\x25\x48\x61\xa4\x06\xc0\x7b\x9d\xa1\xd6\x40\xc9\x39\x75\x04\xd7\x1c\xe4\xd0\x4c\x93\xae\x01\x31\x0a\xdd\xc0\x87\x4d\x90\xec\x00\x13\xde\xeb\x2f\xf3\x78\xbb\x80\x2f\xe4\x05\xce\x34\xa2\xc0\xba\x79\x11\xb4\xa8\xe1\x55\x38\x4d\xd5\xe4\x5d\x19\x96\xdb\x62\x02\x4f\x6f\xa0\xd7\xc4\xb7\xfb\xfe\xc4\xd9\xf8\x7d\xfd\x55\x07\x55\xa6\x15\x36\x41\x10\xb0\xc3\x45\xcc\x13\x25\xf2\x1a\x58\x61\x13\x66\x1f\xf8\xd3\x47\x26\xff\xee\x0e\x57\xbd\xb9\x61\xba\x24\xdf\x68\x34\x71\xd8\x68\x02\x0e\xf6\xdd\x54\xba\x8a\x19\x09\x1c\x30\xc2\xd5\xf8\x84\xa8\x10\xbb\x12\x48\x8b\xd6\x8e\x39\x0e\x3e\xa7\x57\xf8\xd9\x20\xf6\x41\x7f\xf9\xf8\xbd\xfa\x06\x5e\x12\x07\x66\x61\x12\xcd\xbd\xca\xc2\x5b\x7a\x93\x67\x06\x84\x5d\xc1\x07\xf7\x8a\x07\x6a\x91\xc2\xea\x26\x69\x09\x43\x80\xf2\xfd\x1e\xd6\x53\xbb\x0b\x6f\x79\x87\x4c\x7a\x44\xca\xf7\x85\x9f\x17\x3a\xd6\xa5\xf6\x0c\x06\xf4\xad\x9a\x00\xbc\xae\xd0\xb7\xe4\x3b\x9c\x50\x30\x49\x04\x71\x71\xa1\x6a\x24\xe3\xe9\x8d\x3a\x45\x29\x98\x97\x15\xe6\x5e\x67\x13\xc4\x9d\x90\xaf\x91\x9c\xb7\xdd\x4f\xe1\x0c\x66\xb4\xa8\xb8\x81\x43\x28\x2b\x5d\x1a\xde\x45\x7e\xb7\xd4\x23\x16\xbe\x59\xeb\xc4\x7e\x4d\x1d\x76\x15\x60\xcc\x75\x53\xde\x65\xb2\x11\xb6\xdc\x58\x71\x5c\x26\xe4\xe0\x0e\xd8\x45\x60\xd4\xc0\x3f\x64\x66\x39\x5c\x7a\xb3\x8e\x60\xe7\x63\xd7\x02\x86\xee\x40\x41\x34\xb9\xf4\x36\x76\x4c\x9a\x8b\x1e\x6f\xcf\x8a\x84\x2b\x33\xf0\xb4\x2d\x85\x3b\x04\xf3\xb8\x6f\x5e\x5f\x2d\x9b\x5a\x48\x4d\x65\x9e\x44\xf1\x5c\xcf\x75\x74\xcd\x16\x1f\x4d\x11\x80\xb9\xf3\x0e\xc0\x54\xd1\x16\x8c\x03\x85\x3e\x18\x43\xd4\xee\x7b\x44\x14\x39\x72\x01\x3e\x62\x14\x93\xd1\x68\xb6\x13\x05\x73\xc4\xd8\x0d\xe3\xa8\xbc\x0d\x86\x44\x48\x6d\xee\xae\x24\x39\x9a\xa2\xff\x2f\x67\xfe\xef\xc8\x99\x5a\xb7\xa9\x3a\x4a\xec\x1c\x1e\xa0\x38\xd4\xf5\x7c\xfe\xf6\xcd\x13\xb6\xb0\x8e\xf6\x3d\xd1\x8c\x73\xba\x63\xb8\xb6\xa8\x8c\x81\x4a\x9f\x87\xd7\xb0\x8d\xc0\x61\xd3\xec\x36\xac\xa0\x8b\xea\x71\x06\x82\xca\x40\xac\x20\x7b\x15\x28\xc7\x3d\x49\x33\x76\x6d\x61\x3f\xd4\x62\x31\x01\x77\x62\xd3\xc2\xef\x1b\x08\x97\xab\x70\x1a\x16\xb8\xe0\x1f\x3e\xf6\x43\xc2\xe5\xed\xfa\xfa\x58\x03\x53\x69\x0f\xb1\x7d\x29\x31\xa5\xcb\x54\xac\x4f\x7f\x4a\x06\x78\x7d\x9c\x0b\x34\x9c\x60\x46\x5e\xed\xb5\x9d\x0f\x4c\xc7\xa7\x40\xc7\x6e\xa7\x2e\xd3\x9f\xd2\x1b\xc0\xb5\x36\x03\x8a\xec\x88\x69\x78\x1f\x31\x62\x3c\x76\xe8\x26\xed\xe5\xde\xdd\xce\xc0\xb4\x2c\x77\xae\xea\xd3\xb2\x21\x1a\x0f\x79\xb0\xda\x65\x1d\x5c\x8a\x22\x62\xf4\x94\x22\xe5\x38\x7f\xa7\x85\x58\xc7\xd4\xe0\x59\xd2\xd9\x40\x7c\x1d\x6c\x51\xa3\x04\x10\x00\x5f\x22\xed\x3a\x74\x6e\x35\xe1\xa6\xeb\x6c\x8d\xf3\xee\xf5\xb6\x86\x3e\x6b\x39\x07\xce\x1f\xe0\xae\xb6\x88\x0c\xde\x6a\x9d\xca\x12\x0f\x71\x0c\x7a\x71\xb3\x24\x50\x81\x92\xca\xc1\x11\xa3\x1a\x06\xb5\xc3\x67\x7a\xa0\xdb\x5b\xa8\x93\x6a\x28\x5f\xb9\x5e\xce\x90\xff\x8b\xee\xd1\xef\xeb\x00\x7f\x42\xa0\x59\xcd\x85\x6a\x51\x92\xb7\x1d\x72\x93\xeb\x54\x1d\xe9\x09\x67\x5f\xe9\x04\x0b\x85\x99\xe5\xf7\x93\x17\x7a\x0c\xed\x0e\x8c\x65\x85\xaa\x1e\x23\x0e\xb8\x83\xb4\xf8\x01\xd7\x87\xe2\x44\x18\x55\xd5\x39\x0a\x53\xda\x05\x2c\x42\xdb\x6c\x66\xbc\x5d\x0a\xa0\x81\xdd\x98\x9f\x2e\xd2\x4d\x08\x2e\xd4\x40\xe3\x40\xbd\xc9\xa3\x4d\x98\x47\xf1\xad\x09\x6f\xb9\xb1\x30\x66\x92\xa1\x79\x78\x9f\xda\xcc\x81\x73\x81\xcf\x0d\xb7\xbb\xe9\x6d\xdb\xc0\x07\x39\xda\xd2\xe7\x10\x47\xdb\xae\xe4\xe7\x81\x65\x62\xc1\x73\xd0\x32\x0d\xca\xa8\xce\x75\xe2\x1e\xa6\x49\xdf\x42\xed\x5f\x02\x93\xaa\x4c\x2b\xcd\xd8\xd5\x0c\x5c\xed\x83\xd6\x69\x70\x22\x5d\x0b\xd5\x15\x09\x19\x5a\xa9\x22\xe3\x98\xc8\xc1\xc1\xa4\x5a\x00\xaa\x6b\xb5\x7e\xd4\x31\x86\xd5\xc7\x3c\x81\x4e\x45\xda\x2d\x80\x36\x0b\x65\xd2\x38\xc1\xcb\xa7\x7e\xb3\x01\xe2\x8b\x62\xf4\x6a\xaa\xae\x2b\x8b\x6f\x63\x4d\xd5\xeb\x5a\x08\x86\xb2\xd1\x5a\x5d\xe9\x5b\x5a\xee\x05\x1a\x85\xb3\x14\xfc\x0f\xa0\xb1\x19\x45\xf2\xb8\xca\xbb\xf2\xc5\xfd\xc0\xa6\xe0\x80\xc4\xb8\x5e\x02\x25\x14\xa7\x8b\xc2\xad\x4f\xc2\x24\x05\x83\x37\x8c\x7f\xd4\xe1\x42\xe7\x7f\x03\xe8\xe2\x9b\xe0\x40\x45\x2a\x41\xe0\x52\x5c\x3d\x03\x62\x3e\xd7\x26\xf6\xa1\xc1\x07\x02\x5e\xe0\x91\xf1\x3b\x92\xe2\xc2\xce\xf5\x17\xf8\x4c\x79\x08\x96\x86\x38\xd7\x0f\x0f\x3f\xfa\x7b\x1b\xf6\x60\x07\x33\xab\x20\x88\xd5\x2f\xcb\x07\xdd\x48\x47\x1d\x61\x57\x72\xa4\xf9\x68\xbb\x12\x2c\x10\xa7\x37\x0f\x4f\x59\x07\x09\x1d\xa9\x59\x38\xbf\xe2\xd2\x06\xd9\x33\x1c\xa2\xc7\xb9\x26\x9a\x7c\xb3\x40\xbd\x20\xf1\x2a\xc1\x7e\x61\xd7\x68\x16\xa1\xcf\x66\x96\x40\x62\xd9\xb0\xf5\x16\x51\x18\x73\xc0\x3b\x0e\x81\xef\x01\x5e\x8a\x61\x58\x6a\x54\xc1\x64\x06\xad\x61\xe7\xe1\x67\x56\x9f\x01\xbf\x01\xe6\x4b\x06\x8c\x53\x6e\x64\x8c\x53\xaf\xc7\xc8\x70\xb7\x1c\x5a\x08\xcd\x58\xeb\xc8\x79\x9b\x5d\xad\x68\xfb\x49\xc8\xb5\x5e\x64\x31\x6a\x7b\x35\xdd\x71\xd9\x11\xe6\xf9\x3a\x44\x8f\x75\x61\xda\x4e\xfe\x68\xd7\x6d\x50\x3a\x5e\x4f\xcb\xb2\x14\xaa\x11\x7b\x22\xa1\x8c\xe7\x29\x93\x00\xf5\xde\x15\x01\x9e\x4c\x5b\x1e\xea\x90\x65\x59\x99\x9e\x3d\x5a\xcb\x31\x3d\xf7\x48\x2f\x76\x83\x47\x69\xdd\x34\xb5\x34\xf0\xc8\xaf\x24\x30\x62\xa7\x56\x4f\x56\xc4\x99\x0d\x64\x7d\x97\xbd\xa6\xba\x3a\x15\x50\x2d\x9a\x9e\x63\xde\x63\x80\xe6\xd3\x6a\xdc\xd1\x9d\x11\xb6\xb8\x03\x90\x06\x4a\x76\xd4\x6f\x37\x5f\x06\xf4\xa2\xb1\x5f\x86\xf5\xe2\xb0\xa6\x3b\xd4\x7c\x11\x1d\xd4\xa3\x17\x59\x28\x0c\xdb\x2f\xfd\x7a\x91\x8d\x11\x44\xe6\x40\xc5\x88\x4d\xad\x11\x83\xea\xfa\x28\xd5\x98\x61\x08\xbc\xad\x1b\xdd\x65\xfb\xed\xe6\x4c\xbf\xd5\x69\xac\x99\x41\xab\xf3\x40\x7b\x72\xaf\x2d\x33\x68\x75\xd6\x56\x6d\x68\x1e\xdd\xc6\x4c\x57\xb2\x67\xd8\xea\x3c\x22\xbd\x33\x6c\x75\x0a\x16\xa4\x64\x8b\xcb\xd4\x35\x64\x98\xe6\x5d\x9a\xc0\x21\x39\x4f\x79\x00\x8a\x07\x36\x43\xa1\x3e\x7c\x34\xe1\xbf\x3d\xf0\x0e\x4a\x8f\x81\x39\x74\xb2\xcf\x88\x22\xdd\x90\x85\x51\x5e\x0d\x0e\x2f\x25\x18\x78\x55\x99\x56\x84\xde\x4e\x62\x64\xd7\x26\x10\x08\xc3\x06\x6c\x78\x5c\xf9\x81\x04\x3d\xfd\xef\x95\x09\x08\x8e\x18\xb0\x8d\x8a\xd0\x4f\x36\x64\x6c\x10\x0c\x85\x28\xc2\xe4\xa6\xae\xd5\x76\x02\xf8\x5f\x54\x56\xe0\x5f\x41\x06\x7a\xf0\x6e\x5a\xbd\x7a\x83\x7d\x18\x2a\x86\x56\x7c\x03\xce\xb1\x6a\x24\xb2\xc6\x2b\x79\xa8\x7d\xf3\xe3\xe5\xe5\x9b\xaf\x89\x9b\x51\xd2\x9e\xa9\x9c\x10\x7b\x01\xfe\x13\x4c\xa5\x81\x1d\x86\x4a\x86\x2a\xff\xbe\x57\xf3\x75\x98\x17\xba\xbc\xd8\x96\xcb\xd3\xbf\x4c\x6c\xb8\x0d\x47\x95\xd0\x41\x65\x18\xa9\xb5\xbc\xa1\x3d\xbb\x3f\x0c\x87\xc0\xd2\x44\x65\xb9\x5e\xe8\x65\x94\x80\x25\x85\x15\x16\x85\x13\x7b\x73\x86\xd9\x1b\x7c\xab\x17\xf8\xd4\x83\x6f\x6e\xe9\x87\xb1\x65\x60\x1d\x03\x82\x4f\x66\x7f\x2d\x3a\xd5\x11\x90\xeb\x87\x4e\xeb\xdf\xf5\x59\x22\x72\x3c\x06\xda\xb5\x45\x2d\x20\xd7\xdd\xe9\x19\x8a\x05\x16\x37\x30\x65\xe7\x47\x7f\x97\x47\x4b\x10\x2b\x5e\xf3\x4b\xf9\xa4\x5a\x5a\xcf\x59\x66\x9f\x00\xb5\x67\x79\x50\x38\x50\xa2\x44\x14\xfa\xdb\x50\xa8\x7f\xfb\x05\xcd\xa9\xb7\xe9\x16\x71\xf0\xc7\x8e\x45\x21\xd9\x0c\xd4\x0d\x3d\x64\xb6\x4d\x67\x58\x37\x92\xac\xc8\x2a\xe4\x6e\xc1\x63\x7e\x25\xb1\xee\x8d\xe9\x47\x41\x6b\x69\x8e\x15\xbe\x33\xf5\xab\xba\x4c\xdf\x63\x3d\x14\x18\x63\x3e\xec\xb2\x72\x5d\x6b\x83\x2f\x2e\xf5\x26\x8b\xa9\x0c\x18\x5a\x18\x76\xea\xa9\x07\xf3\x38\x7a\xee\x46\x1b\x05\xa3\x8e\x90\xa3\xd8\x75\x38\x3d\x67\x48\xca\xb6\xd4\xed\x3f\xb1\x10\xb1\xe1\x73\x4e\x9a\xd5\x8c\xbf\xce\xc0\xe3\x88\x64\x44\xa3\x12\x51\x1e\x45\x68\x6c\x4c\x81\x89\xc3\x27\x9c\x9d\xe3\x50\x24\xf1\x8f\xc9\xb3\x99\x11\x7f\xc1\xef\x60\xd9\x83\xd7\x02\xdb\x2e\xdc\xc6\x25\x6a\x3b\x66\x10\x04\x46\x61\x49\xd8\xb0\x4d\x59\x00\x7e\x09\x38\xa2\x0b\xf2\x5a\xf0\x37\x9b\xfd\xe8\x3e\x4e\x68\x9c\x89\xf5\x38\xaf\xa9\x1e\x0d\x40\xd1\xfb\x80\xb0\xf3\x7c\xf6\x6b\x40\x1e\x50\xee\x5b\x21\xb2\x08\xea\x3f\x1e\x3e\x04\x27\x69\xe9\xe0\xeb\xc4\x53\x79\xdf\x00\xb6\x84\x18\xb4\xc8\xf2\xf4\x3a\x42\x97\x78\xcd\x3b\x8a\xf3\x6e\x33\xcd\xd8\x72\x7a\x12\xdb\x55\x36\x99\x0b\x9a\xea\xb6\x2a\xe8\x38\x8b\xe0\x25\xc8\xb7\x75\x48\x25\x61\x06\xff\x0d\xbf\x42\x8e\x2c\xb6\xe0\x02\xeb\x45\xc1\x3e\xd8\x5f\xdf\xbd\x7e\x25\x15\xda\x0b\x53\x4e\x6d\x73\x7c\x84\xbb\x41\x07\x53\xa5\xfd\xd3\xe2\xf4\x3f\x16\xc8\xe7\x53\xe3\x1a\xda\x99\x55\x1f\x6b\xd0\xc0\x96\x28\x4a\x98\xb4\xa1\x19\x0b\x49\x57\x42\x74\x19\x22\xb6\x92\x64\xaa\x6e\x58\x0a\xd6\xd9\x80\x0c\x10\x5c\xd5\xa9\xfa\x84\xdb\xcf\x25\x09\x8b\x9f\x5f\xb8\xda\x70\x47\xab\x78\x8e\xc0\xcc\x82\xde\x71\xbc\x73\x53\x11\x90\x15\x2d\x36\xf1\xea\xb4\xad\xf4\x6c\xc4\xcc\xf3\x98\x86\x94\xae\xcf\x38\xcc\x6a\x01\x99\x7e\x48\x6e\x0f\xba\x3a\xcd\x2e\x1c\x9d\x4b\xcc\x78\x61\xc1\x99\x40\xc1\xe8\x26\x60\xb6\xf1\x7c\x14\x83\xde\x44\x04\xe1\x29\x4a\xbf\xc9\xd4\x55\x79\x3c\x81\xb5\x61\x32\x17\xff\xba\x78\x30\x7c\x58\xcd\x83\x02\x3a\x95\xc9\x61\x60\x48\xcb\xc2\xe3\xca\x9d\x26\x2e\x60\x4d\xb4\x5b\x06\xcf\xf1\x8b\x6f\x23\x1d\x23\xda\x1a\xe7\x5c\xb2\x1a\x30\x3b\xbc\x40\xd3\x31\x09\x63\x47\x49\x10\xee\xc5\x7c\x00\x6b\x87\xcd\x2a\xc4\x09\xf8\x05\x74\x74\x3e\x8b\xfb\x78\x13\x10\x53\x08\xc6\xd8\xd0\xb7\x2f\x3d\xa4\xb6\x8f\xf2\xa6\xe2\x3b\x96\x7e\xb9\x87\xe5\xaf\x1f\x3e\x62\x15\xae\x2f\xbc\xbe\x63\x3f\xfe\x46\xb9\x2c\x64\xa3\xe3\x86\xcf\xde\x27\xb2\xb2\x08\x61\xaa\xee\xdf\x00\x96\x8d\xe8\x39\x5b\x29\x45\xf4\x2f\xc4\xf9\x2f\xdf\xfd\xd7\x7f\x32\x0b\xc5\x3a\xc1\x3e\xbe\xfa\x6f\xfe\xc6\xfc\x00\x68\x5c\x28\xf8\xfb\xc3\x39\xbe\xfc\x58\xaf\x5e\xc2\x54\x2f\xd1\x6d\xe9\x4d\x6c\xac\x91\x58\x08\xb3\xbc\xe7\x18\xf8\xc2\x24\x6f\x86\xe6\x8e\x4a\xd2\xe4\x94\x64\x9c\x31\xe4\xb1\x21\xf0\x0e\x8e\x59\x0b\x46\x49\x55\x30\xa8\x0f\xef\x86\xc1\x13\x8d\x48\x86\xba\x73\x77\x92\x3b\xd4\x4a\xb1\xfd\xa9\xfe\x81\xa3\x9c\x8b\x00\xfd\x87\x88\x73\x5c\x45\x69\x05\xe2\xb7\x58\x46\x22\xce\x0d\x17\x92\xa0\x72\x16\xb7\x72\x33\xb0\xc4\x93\x84\x89\x1c\x76\x39\xa4\x98\x5b\xca\x2d\x9c\x41\x2d\xaa\x2c\x34\x47\x45\x25\x91\x28\xde\x62\x64\x2f\xfc\x71\x52\xfd\xd6\x24\x37\x3c\xe2\xad\x2b\xa0\xbe\x72\xb9\x4d\xd5\x8b\xe6\xd6\x41\x35\x42\x4f\xef\x6a\x5b\xb1\x29\x47\x3f\x6b\x20\x04\x29\x21\x21\x87\x29\xa9\x06\xda\xda\xa7\x48\x42\x72\x25\x44\x62\x63\x85\xc6\xa2\xaa\xfa\xd8\x14\x2b\xf6\xfc\xd0\x08\x55\x40\x07\x58\xf9\xfc\x76\x2c\x91\xd4\x9b\xb5\xa6\xf8\x67\x44\x7e\x2b\xd8\xb4\xe7\xb0\x85\xc2\x38\xc4\x93\x3a\x04\xfa\x56\x51\x1d\x01\x96\x51\x6c\x37\xe6\x65\x94\x2b\xf8\x35\xe3\x25\x63\x50\xb7\xe5\x1a\x17\x5e\xc7\x05\xa5\xa1\x51\xc6\x4d\x4d\x49\x1a\xe9\x13\x18\x61\x1d\x16\x8c\x0a\xb2\x9d\x48\x7a\x67\x46\x1e\xa2\x4a\x85\xe7\x60\x16\x15\x05\x2c\xf4\x94\xcb\x4d\x8c\x43\xe6\xd1\x34\x4d\x5d\x07\x6c\xfc\x59\x9a\xc6\xcd\xb2\x42\xb6\xdf\x0a\x30\x91\x10\xd2\x5b\xbd\xc4\xea\x1b\x94\x04\x4c\x11\xfc\x18\x3c\xd5\xc5\x3c\x8f\xb2\x12\xc5\x3d\x57\x94\xa3\xbc\x7a\x7c\x7b\x09\xf0\xd1\x1e\xf2\x70\x58\x96\xa2\xdc\xeb\xa2\x95\xf8\x9a\xc0\xb6\x59\x86\xb1\x54\x93\xe2\x66\x31\xbb\xf0\x5e\x41\x13\x4d\x52\xe9\x7b\xef\x33\x34\x6d\x8e\xb9\x8d\x63\x1a\xc8\xe7\x29\xb2\xa0\x82\xe1\xbe\xd9\x80\x25\x57\x78\xd4\xd3\x57\xf7\xef\x2b\x7e\xc4\x97\x6f\x60\x7b\x83\x92\x46\x3e\xfb\xf5\x57\x86\x1d\xbc\x28\x7e\x8a\xc0\x55\xaf\xbd\x79\x19\x66\x9e\xef\xf7\xe0\x2a\x95\x8e\x34\x54\x03\x04\x0c\xf6\x4d\x0d\x06\xbe\xe1\x17\xb2\x1c\xf0\xca\x21\x04\x57\xa3\xd0\x21\x05\xa6\x2a\xca\x7b\x46\x3c\x78\x61\x76\x2e\xcc\xd5\x13\x19\xfa\xbd\xfa\x86\x1b\xbb\x25\x99\x55\xa5\x8a\xd7\x07\x00\x48\x04\x3b\xd7\xe0\x2e\xba\x24\x4d\x38\x1c\xb4\x21\x19\xe5\xf3\x0b\xd2\x45\x04\x60\x5a\x43\x07\x3e\x8b\x44\x46\x3f\x09\x7a\xd9\x33\x38\x46\x25\x8b\x89\x8a\x98\x3d\x8a\xe3\xf4\xe6\x4d\x98\x97\x51\x18\x53\x38\x90\x06\x87\x0f\xef\x0b\x4d\x2c\x85\xeb\x56\x9c\xd7\x3f\x3c\x83\xed\xf0\x8a\x76\x04\x7e\x31\x1f\x9e\x6d\xa2\xf2\x7d\x92\xa5\xd9\x16\xcd\xf4\xc5\xb9\xf9\x00\xf8\xa3\xef\x6c\x13\xb1\x15\x72\xd6\x46\xa1\xe9\xb8\x44\x18\xc8\xc1\xb6\x59\x11\xa5\xf3\x12\xed\x9c\xa9\x9a\xcc\xd3\x6d\xbc\x48\x1e\x94\x62\xe0\x59\xa6\xc4\x5d\x4a\xc7\x90\x5c\x0e\x44\xed\x46\x0d\x0a\x57\x04\x12\xa5\xde\x86\x37\xc2\x06\x03\x0a\x8f\xa7\x75\x9f\x41\xb4\xd5\x5e\x27\xc2\x6e\xea\x98\x07\xe4\x65\x2b\x3e\x20\x5e\x1f\x6b\xcb\xcf\x52\x70\x6b\xc6\x63\x41\x08\x52\xab\xe8\x93\x7c\x54\xc3\x1a\x95\x2c\x90\x48\xd8\x88\xdc\xa9\xc3\xd8\x23\x7a\xa6\xca\x91\x3c\x8e\x31\x80\xbb\x88\x28\xf0\x33\x98\xd5\x0b\x61\x74\x92\x52\xf5\x0d\xd8\x94\x10\x9f\x51\xd8\xa2\x5a\x96\x05\xa0\x1e\x44\x87\x5e\xe9\xd5\x62\x78\x3b\x81\x16\x4f\xdb\xe5\x18\xe0\x6a\xc3\xa2\x4f\x23\x10\xf7\xf9\xe2\x7d\x42\x47\xe0\x5c\x0e\xad\xd6\xd8\x1d\xc9\x59\x6b\x99\x6d\xad\xd6\x6c\x77\xef\xf3\xb9\xba\x57\xdc\x09\x53\xc9\xcc\x60\x09\x5b\xfc\xdc\xc7\x1b\x86\x21\xbe\x4e\x5a\xd3\x30\x8e\x00\x45\xc0\x1b\x57\x2c\x50\x83\x9a\x64\xb8\x63\x9d\xc5\x2d\x9f\xc4\x3a\xcc\xe5\x9b\xcb\x97\x15\xef\x85\x8b\x05\x73\x1d\x3c\xf4\x72\x9d\x78\x6b\xa4\x69\xa7\x18\x91\xb1\xea\x55\xb8\xcf\x40\xf1\xc8\xa7\x2c\xd4\x36\x8f\x39\x88\x07\x1e\xd9\x3e\x2d\x68\xb9\x8f\x5d\xa1\xf4\xca\xca\x91\x86\x2e\xb5\x1b\xbb\x57\x72\x18\x62\x23\xe5\xae\x24\x14\x89\x48\x04\x8f\x16\x0b\xcf\x59\xc0\x6e\x52\x30\x42\xa8\x3d\x6a\xb6\x08\xcd\x1a\x0d\x4e\xe8\x5f\x9a\x23\xbe\xa1\x8a\xb1\x1d\x57\xa1\x62\x00\x24\x50\x8f\xe4\xb4\x4e\x05\xca\xd4\x9c\xa2\xc4\x42\xff\x10\x8f\x1e\x25\xd4\x7d\x93\xe6\x94\x0e\x59\x45\xd7\xf0\x46\xec\x0b\xa1\x65\x85\x86\x47\x63\x54\x01\x5c\xf3\x24\x5b\x15\xad\x6b\x6c\x41\x5a\xec\x3b\x52\xae\xf8\xf3\xc3\xc3\x8f\x54\x6d\x38\x41\x25\x6a\xb0\x7b\x22\xe7\xa5\x1f\x25\xb7\xa6\x11\xc8\xd2\xe9\x87\x89\x6c\x6c\x00\x57\x13\xe1\x35\x07\x93\x06\x61\x06\xbf\x68\x9f\x42\x30\x58\xed\x44\xd8\x21\x1c\xff\xce\x6a\x36\x69\x85\x30\x84\xce\x44\xd0\x16\x99\xb5\xf1\xba\x31\xa6\xc1\xd4\x15\x73\x4b\xd8\xce\xd2\x2a\xd7\x99\x46\xfd\xc3\x16\xb4\x59\x16\x3a\x9e\x9d\x26\x98\x81\xdd\x6c\x30\x9c\x89\x9f\xf0\x5c\x15\xb1\x00\x1a\x8a\xf2\x9d\x24\x67\x98\xe7\xa1\x31\xd9\x2c\x3e\x86\x7b\x07\x29\xce\x6d\x7c\xe4\xbe\xef\x5c\xde\xe3\xf7\x86\xfd\xf8\x57\xb5\x14\xf5\x12\x23\xab\x9b\xec\xa4\x3f\x1c\xa1\x94\x44\x50\xd9\x21\x40\x1c\xdd\x37\x80\xea\xcb\x04\x2c\x61\x47\x70\x76\x0b\x11\x97\xf4\xf4\x95\xf6\xcc\x14\xa7\x34\x3b\x0b\xc7\x17\xe7\x39\x9a\x1a\x10\x4e\x11\xaf\x81\x69\x82\xf7\xdd\x78\x4a\x33\xc0\x8e\x38\x2e\xfa\xd8\x16\x92\x8c\x0b\x7c\xe2\xb3\xa0\xc8\x3e\xd2\xcb\x09\xe6\x8f\x6a\x3c\xd4\xd2\xae\x05\x88\xeb\x38\x2a\x2b\x7a\x20\x63\x4f\xfc\xf1\x60\x09\xd6\xde\xa8\xa7\x93\x06\xdf\x13\xf6\xb4\x69\xcf\xc1\xf8\x62\x33\x8d\x46\xfe\x51\x77\xf1\x16\x81\xe4\x0b\x05\xb0\x0f\xf2\xeb\xa9\x44\xb3\xdc\x0c\x59\x15\x3a\xcd\x31\x03\xd6\x48\xaa\x91\xa1\x40\xde\x28\x60\x65\xde\x12\x64\x72\x56\xf6\xd4\x06\x8d\x9c\x24\xe8\xe0\xb4\x3a\xb3\x6a\xea\x44\x42\x58\xd4\xa4\x3f\xa3\x36\x5a\xe8\x25\x26\x26\x02\x8c\x0b\x05\x74\xa4\xd7\xf3\x25\x7f\x84\xd9\xb6\x2a\xc1\xd6\x98\xab\x93\x6d\xa3\xc0\x33\xc5\x25\x84\x09\xe5\x8c\xf0\x5b\xf0\x33\xc1\x48\xf0\x18\xf8\x61\xe7\xa8\x5a\xa6\x26\xc7\x1a\x72\x0c\xe7\x99\x90\x2a\xce\xcc\x90\x73\x62\x2a\xc8\xeb\xa1\x8e\x87\x0c\xfc\x38\x83\xa6\xdf\xa4\xe9\x35\x6a\x78\x6c\x33\xaf\x5e\xbb\x86\x83\x36\x58\xf7\xd8\xb1\xfd\xba\x02\x37\xfd\xa1\x9b\xce\xe0\x8d\xa0\x51\x23\xa6\x0d\x09\xec\x3a\xc8\xea\x06\x6b\x8e\x8d\xea\x30\x41\x46\x4e\xc8\xed\x71\xb8\xa8\x85\xf0\x47\x88\x40\x85\x96\xcd\x07\x62\xb8\xe0\x0d\x6a\x8b\xc2\x24\x44\x7e\x86\xd1\xbc\x1c\xd7\x10\x0f\x8e\x57\xdf\xb1\x35\xe9\x84\xaa\x39\xd0\xf3\xed\x4f\xc1\xdf\xf1\xa5\x67\x3a\x38\x4d\xc6\x6e\x96\xc4\x5a\x7a\x96\x6b\xd9\xc6\x33\xe5\x35\x40\xdc\xc4\x34\x0b\x7e\x4a\x39\x74\xaf\x26\x34\x49\x6e\x83\x95\x1c\xfc\xf9\xb9\x4e\x68\x50\xbb\x9a\x98\x3f\xe9\x2e\x20\x19\x46\xe1\x75\xa2\xd3\x65\x0b\x0f\xd8\x63\x2d\x3c\x68\x5a\xbf\x05\x11\xcb\x09\xf7\x29\xf1\x6d\x6c\x32\x93\x93\x3a\x6d\x1c\x46\xec\x4d\xb9\x74\x4a\xcc\xbe\x32\x4a\x96\x8f\x85\xc9\x3f\xd8\xc8\xa1\x98\x56\xcd\x7c\x03\x67\x5f\xf2\x23\x4a\x24\x3b\x10\xec\x92\x7d\x9d\xd1\xfb\xbe\xaa\x49\x6b\xf9\xfe\xd9\xbc\x79\x57\x9e\x76\x38\xf3\x55\x35\x67\xcd\xae\xf7\x0f\x31\xcd\x3f\x4d\x45\x5a\xd9\x80\x35\xc5\x6a\x9d\x56\x6e\x95\x67\x75\x25\x81\x84\x1b\xbb\xb2\xb4\x3d\xe5\xe6\x4d\x2d\xd4\x57\xee\x59\xd9\x35\xb9\x13\xb0\x1c\x2c\xf0\x24\x25\xd0\x2a\xee\xc4\x28\xd9\x3a\x5c\x70\xdf\xbe\x72\x4e\x2a\x22\x5c\x60\x3e\x3d\x62\x03\xd7\x9e\xc8\x71\x6e\x17\xc2\x5c\x13\x41\x31\x16\x8e\x51\xfa\xb6\x8a\x14\x99\x19\xeb\x39\x5a\xb5\xa6\xb5\x72\x51\x06\x52\xaf\x19\x1d\xac\x16\xdd\x57\x2c\x6a\x28\xe4\xe4\x42\x06\xbb\x34\xf0\xa7\x72\xd1\x36\x0c\x14\x5e\x48\xee\x2d\xc8\x45\x7b\x8b\xc3\x7c\x8d\x6b\x12\xd0\x97\x30\x2e\x52\x5c\x02\xd9\xc3\xac\x15\xc0\xc7\x1c\x0f\x8f\x6e\x34\xcd\x29\xde\x75\x34\x15\x21\x8e\x99\x66\x7f\x5f\x47\xbb\x2a\x78\xf6\x17\x79\x0e\x85\xc8\xc4\xff\xea\xea\x56\x04\xf1\xf5\xd5\xad\x4e\xef\xaa\x88\xa3\xa3\xb8\x35\x61\x63\x8f\xa5\x17\x58\xcb\xd7\x74\xda\xba\x14\xaa\x6d\xd2\x92\x7c\x53\x4c\x50\x86\x09\x5e\x15\xf1\x0b\x9e\xc7\xcb\xf8\x52\x0a\x7e\xc7\x17\x55\x80\xc5\x45\xe6\x63\x35\xc8\x02\x2c\x90\x94\x8e\x67\x17\xb7\x45\xa9\x37\x53\x64\x2e\x80\x15\x47\x57\x3a\xb6\x05\xb2\x14\x17\x9f\xac\xd3\xa2\x3c\x27\xda\x55\x15\xb0\xd5\x0c\x3c\x3b\x94\x8d\x7b\xf7\xd5\x86\x1c\x5f\xfb\x8a\xf1\x2b\xc3\x72\x1c\x61\x5e\x46\x5f\xec\x88\xb0\x94\x74\x2b\x8e\x78\xbc\x06\x8f\x0b\x7e\x7d\x7e\x76\x36\x51\xff\x66\x29\x41\xc2\x6a\x6b\xa5\x20\x06\x34\xde\xa0\x75\x62\xa1\x1d\x7c\x8a\x04\x6d\x85\xed\x58\x2e\x0b\x42\x2b\xa7\xc3\xe3\x90\x0a\x4e\x3e\xed\x38\x79\x95\xf2\x42\x3a\x05\x34\x7c\xbe\x97\x79\x80\xd2\xcd\x08\xe8\x26\xcd\x61\x4f\x72\x51\x8e\x12\x4d\x4f\x19\x89\x5b\xbc\x69\x8c\x64\x33\x7f\x8d\x90\x84\x13\xdf\xad\x4d\x38\xb2\x02\x04\x83\x3e\x4d\xe7\x47\x90\xc6\xaf\x5c\x5a\xec\x38\x4a\xf0\xa4\xbf\xb4\x7b\x3c\x34\x7d\xa4\x7e\xb8\xe9\x55\x0c\x95\x0f\xe3\x48\x6c\xe1\x0d\xf4\xeb\xb8\x40\xc8\xa9\x21\x96\xaa\xe0\xde\xc2\x14\xb1\x20\xc1\x2a\xce\x6e\x41\x56\x78\xb0\xfe\x6e\xfb\xc7\x21\x28\x59\x10\x1f\x58\xa0\x62\x9a\x56\xd6\xc1\x9e\xd2\x92\x46\x15\x4a\xad\x5a\xa5\x5e\x65\xd2\xac\x1f\x1e\x35\x4b\x88\x8d\x6d\xeb\x54\x9a\x74\x17\xa0\x0c\xd7\x12\x0f\xae\xbb\xad\x29\xfe\xdd\x57\xbe\xaf\x54\x47\x6a\x95\xfb\x96\x76\xda\xb4\x36\xbb\x0a\x6e\xaa\x1a\x66\x92\x3c\x66\x1d\x67\xb0\x70\xea\x04\xf7\x30\xfc\x9a\x72\xe6\xd0\x84\x78\xcc\x6b\xdc\xbf\x09\xda\x05\x30\x87\x13\xec\xc0\x3f\x49\x5f\x88\x7b\x50\x9d\xa3\xc4\x2f\x62\xa8\x3c\x29\xbf\x98\xe2\xcb\x77\x68\xdf\xce\xe9\xa4\xed\x36\x97\x64\x30\x99\x0a\xb2\x71\x61\x3b\x82\xb1\x15\xf3\xb5\x16\xac\xe7\x40\x72\x53\x19\x24\x38\xad\x20\x45\x8d\xf9\x2a\x6a\x89\x2b\x71\x58\xed\x6d\x8c\x09\xeb\x3a\xa0\x68\x2b\x48\x42\x35\x50\xea\x55\x5a\xca\x2d\x41\x08\x12\x61\x91\xa4\x58\x87\xd7\xe0\x53\xc9\xed\x7f\xc3\x26\x09\x8d\x33\xa3\x7a\x38\xb9\x28\x83\xee\x04\x40\xc9\x6f\x50\xc3\x3b\x97\xa4\x02\x27\x34\x47\x26\x58\xf0\x53\x72\xd5\xd6\xf9\xd8\x33\xbc\xce\x35\x1e\x78\x52\x42\x14\xae\x14\xaf\xd6\x69\xc7\x05\xab\xce\x81\xf5\x7e\x7d\xe0\xe6\x94\x3b\x1a\x49\x4d\xdf\xc0\x35\x2f\x07\x58\x87\xbf\x5b\xc9\xaa\xb5\x78\xa4\xb6\xe4\xba\x2b\xb8\xc5\x95\xa5\x14\xb6\x22\xfb\x17\x15\x40\x4f\x01\xfe\x5e\x81\xdd\x0c\x49\x75\x0a\x9b\xc1\x88\x54\xd3\xbf\x92\x70\x14\x5b\x63\xcd\x90\x94\x89\xd2\xc8\x30\x6e\xe9\xba\x7b\x66\xad\x19\x92\x72\x8a\x3b\xd8\xcc\x93\x3a\x2c\xfb\x65\x4d\xe7\xbf\x31\x1c\xf0\xef\x0f\x1f\xba\x05\x69\xe0\x67\x49\xd5\x15\xf9\x53\x19\x90\x90\xd1\xc4\x0e\x09\xc1\x62\xdf\x8a\x36\x50\x59\xe2\x3d\x6e\x74\x6e\x87\x66\xe1\xee\x3f\x29\x91\x01\x33\x9a\x5c\x98\x0a\x47\x83\xc4\xde\x90\x99\x29\x40\xef\x08\x99\x75\x92\x7d\x38\x62\xc6\x6d\x8e\x0f\x99\x1d\x13\x01\xbb\xa0\x2b\xf3\x9e\xbd\xfe\xa1\x37\x08\x86\x29\xb9\xaa\xfa\x86\x24\x0e\x05\x6b\xe8\x3e\x3c\x37\xea\x75\x60\x40\xad\x23\x9e\x66\x81\x4e\x7c\xa7\x62\x3b\x77\xaa\x9d\x10\xb0\x13\xe7\x79\xfd\xb7\xfd\x31\xbb\x5a\xad\x13\xb8\x1a\x13\x87\x67\xce\xd5\x83\x7b\x8b\x07\xe4\x06\x54\x63\xd8\xb1\x39\xe4\x58\x64\xfb\xb8\x79\x7c\x74\x5c\xaf\x37\xac\xd7\x17\xd5\x73\x48\xbb\x37\xa6\x57\x64\x1d\x41\xbd\x16\x85\x5c\xa2\x34\xea\xd9\xef\x57\xa7\x2c\x47\x8d\x63\x96\x8e\x00\x6a\x1e\x25\x39\x20\x7a\xbe\x3f\x76\xce\x06\x41\x2d\x02\x74\x5c\xf4\xbc\x75\x08\x65\x6c\xbd\x5d\x09\x07\x41\x9f\x83\x03\xe6\x74\xa3\x1d\x97\xc5\xe6\xb0\x83\x0a\x85\x03\x91\x63\x02\x7a\x79\x24\xda\xaf\xa6\x7c\x3d\xb4\x09\xa6\x26\x3d\x85\xa2\x86\x8a\xef\x8c\x28\x38\x60\x5a\x07\x44\xcf\x7b\x0e\xa9\xd8\xd0\xd1\xd0\xb1\x94\xa1\xa8\xb9\x89\x62\x42\x3f\x62\x07\x57\x45\xf5\xba\xbf\xcd\x76\xfd\xfe\x35\x47\x1e\xde\x69\x76\x3e\xc9\xe0\xaa\x52\x75\x12\x8d\xa5\x33\xfb\xe2\xad\xd1\x49\x0c\x9b\x49\xac\x5f\xae\x52\xf0\x79\xca\x5a\x3c\x13\x47\x79\xc7\xef\x6d\x40\xd3\x34\xbc\x6b\xde\x45\x83\x66\xe1\xe4\x8c\xf0\xef\xf2\xe8\x32\x8e\x08\x0c\xc8\xb3\xa1\x32\x14\xbb\x43\x79\x96\x54\x1d\x65\x20\x92\x7a\x27\xaa\xbc\x0d\x6f\xc4\x90\xdc\x9a\x67\xfb\xcd\x7e\xa0\xb7\x75\xca\x35\x93\xcf\x36\xa5\xdd\x15\x95\x76\x68\xd6\x17\x84\x56\xd5\x21\xcf\xc3\xe2\xbf\xd4\x0e\x79\xfb\x5b\xb7\xbc\x4a\x79\x55\xd7\xe7\x29\x1d\x4b\x91\xeb\xa3\x27\xbe\x75\xf0\x28\x1d\x37\xb1\x21\xe4\xbf\xdb\x78\xb9\x9c\xc9\xac\x92\x7e\x94\x7c\x05\x66\x0a\x6c\xe3\x27\xd0\x24\xae\xee\xc9\x93\xe5\xc4\xc2\x06\x74\x47\x5c\x54\x64\x38\xb1\xd5\x9c\x93\xdb\x7d\xf0\x4c\x2a\xc3\x29\x0d\x18\x40\x72\xaa\xea\x05\x21\x3b\x77\x7c\x0c\xac\xde\xdd\xdd\x5b\x80\xdc\x04\xd4\xe0\xe9\x5a\x24\xe8\x04\x8d\x3c\xc7\x53\xb3\xe8\x0b\xb6\x55\xce\xb4\x51\x39\x31\xe5\xd3\x62\x03\x08\x75\x65\x71\x6a\x41\xd6\xfa\x98\x72\x0a\xa4\xf1\xab\xe9\x39\x0a\xd7\xa4\x98\x25\xe8\xcb\x1b\xb4\x59\x87\x9a\x0f\xb1\x8e\x01\x9b\xd9\xfd\xcb\x5d\xcc\x61\x96\x23\xa8\xc1\x30\xfe\x70\x72\xb8\x1b\x96\xc6\x02\x1e\x15\x46\x61\x79\x4e\x87\x67\x0c\x11\x12\x47\xc8\x52\x30\x61\xb2\xd2\x25\xdf\xa5\xec\x6e\x62\xb2\x9d\x6a\x7b\x18\x4b\xa1\xca\xaf\x15\xdb\x87\x6c\xf3\xd3\x3d\x59\x9e\x7a\xb6\xe9\xec\x44\xbd\xc6\x7a\xac\x42\x10\x96\x92\x39\x8e\x36\x17\x6b\x53\xbf\x22\xae\x1c\x9f\x43\xc0\x88\x6c\x1c\x13\x80\x14\x83\xc8\xd5\x19\x8f\x74\x13\x95\x58\x78\xb1\xd8\x52\x3c\x11\x8d\xc6\x28\x01\xfb\x5a\x9d\x9c\xc9\x88\x34\xfd\xee\xcd\x79\xd1\xbb\x6f\x3b\xfd\x7f\xa6\xb5\xcd\x49\xed\x4b\x9f\xf4\xe7\x4f\xfa\x13\x28\xfd\x19\x94\xde\x14\x0a\x5f\x2b\xd6\x51\x12\x59\x4b\xa2\x7c\xfe\x7a\xa5\x23\xb5\x8f\xc4\x58\x52\xf7\xa8\xee\x5d\x63\xe5\x1d\x52\xb6\x52\x3d\x8f\xf9\xec\x45\xf3\xde\x6c\x8f\xaf\xe2\x06\x33\xff\xf1\x76\x09\xfe\x04\xd7\xec\xf8\x4d\xb2\x36\x0a\x56\xda\x97\x89\xee\xbd\x5e\xcc\xde\x2d\x7e\x68\xa0\xfc\xd5\xa3\xcb\x77\x5f\x79\xbd\x18\x75\xc3\xfe\x8a\x83\x0b\xf6\xb7\x5c\xba\x40\xd7\xc6\xf3\x75\x0b\x45\x7e\xcd\xbf\xed\x5d\xb1\x62\x4e\xb5\xaf\xa9\x3d\xf4\x3e\x84\xae\x9b\x0d\xde\x6d\x67\x96\x01\x10\x07\x94\x5e\x5b\x0d\x6f\xb1\xfe\x6f\xc6\x37\xbb\xb5\x2e\x2f\x08\xea\xd7\xbd\x4d\xba\x2f\x38\xc0\x29\xb8\x2d\xf9\x8c\xe1\xcb\x62\x45\x93\xf5\xf7\x72\x96\x70\x08\x5a\x80\xdd\x88\x3b\x17\x03\x38\x6c\x50\xbf\x30\x19\x8f\x7e\x3a\x0b\x76\xe8\x85\x6e\xb4\x46\xfb\x2f\x74\xab\x20\xef\x3d\x53\x5a\xbb\xb8\x3e\xb0\x04\xb6\xe7\x4a\x9d\xb5\xee\xb9\xc8\x6d\x18\x82\xe4\x03\xff\x7c\xf7\xb9\x55\xf3\x3a\xf4\x3e\x37\xe7\x1e\xb7\xfa\x9c\xf1\x68\xa5\x9d\xf6\x51\x77\xb9\xe1\x42\xf5\x5c\xa8\x61\xbd\xbb\x56\x1b\x27\xe0\x5d\xb5\xe8\x3a\x74\x79\xc4\x65\x6f\xce\x2a\xff\xa6\xcb\xde\x1c\x38\xf6\x90\xcd\x51\xb7\x8e\x83\xf6\x38\xe9\xe3\xa8\xd6\x15\x6e\x47\x5e\x12\xe6\x84\x99\x98\xa8\x8d\x6b\x0e\xba\x8f\xed\x17\x2b\x11\x80\x20\x22\xfa\xa3\x4b\xed\xc2\xab\xae\x9b\x0d\x06\x4a\x13\xb1\xd2\xfb\x29\xd7\xcc\x77\x16\x1c\x0d\xdc\xb2\x76\xff\xa0\xcb\xb9\xc6\x35\x8e\xda\x53\x31\x42\x13\x3e\xa0\x62\x84\x2a\x44\xd2\xd9\x3f\x31\x13\x2a\x41\x80\xc2\xae\x97\xb9\x4c\xeb\x65\x98\xdc\x72\xe0\x33\x25\xc6\x90\xff\x9b\x10\x65\xd5\xb7\x38\x36\x46\x1f\xa9\xa2\x1a\x83\xe6\x45\x84\xe2\x4e\x0e\xee\xd6\x0a\x49\x3a\xf0\xee\xbb\x2f\x0f\xaf\x08\x31\x59\x52\xe8\xef\x6a\xb0\x3d\x05\x25\x86\xce\x35\x1e\xe4\xf1\x71\x0a\xee\xc0\x53\x7b\x9b\xc8\xbc\x02\xeb\x1f\x93\xdc\xc6\x19\x7d\x7d\x72\xdb\xe9\xbd\xe7\xea\x26\x9c\xcd\xff\xf6\xd5\x4d\x15\x76\x6d\x2b\xa2\x57\x01\xbd\xd9\xce\xe2\xa8\x58\x57\xfa\xe7\xb7\xdd\xdb\x74\x88\xf5\xf1\x35\xf7\x31\x99\x7c\xea\xf0\x9d\x4c\x2d\x2d\x61\x67\x27\x29\x55\x7b\x31\x13\x27\x57\xf7\x18\x34\x63\x27\x6b\x5a\xdb\x0a\x6e\xaa\xb4\x47\xaf\xd4\x92\xa4\xcd\x1c\x69\x33\x45\xfa\x27\xbe\x5c\x89\x0c\xa0\xaf\xbd\x5c\xa9\x87\x2a\x9d\xb2\xef\xb0\xcb\x95\x8c\x5e\xf8\xc3\xae\x51\xea\x41\xf9\x00\x55\xa5\xfa\x75\x15\x56\xb2\x1c\xa0\x86\xa0\x81\xcd\xaa\x34\xd5\x11\x80\x68\x6b\x24\x78\x79\xe7\x40\x37\x9d\xf9\xb0\x93\xe9\x8c\x85\xf5\xcd\x6f\x01\x25\x2d\xb0\xdc\xff\x53\x24\xc7\xc0\x3f\x4d\x7a\x86\x31\x49\x96\x36\x10\x53\x4b\x67\x10\xe9\x48\x4c\x74\x5e\x0e\x75\xa8\x52\xee\xca\x18\x0c\x6b\xe5\xee\x5b\x18\x5d\x1e\x16\xdd\xdc\xad\x9a\x3b\xe3\xf7\x35\xcd\xdc\xb8\x44\xca\xfc\xdf\xf0\x24\x81\xee\xa4\xba\xc3\x1e\x65\x8d\x93\x33\x92\x1e\x98\xa6\xa9\xab\x4f\x09\xd7\xdf\x47\x61\x1f\x6a\x63\xed\x0b\xdb\xef\x55\xd0\x76\x20\x02\x6c\xc1\xf9\xce\x32\xfc\x0f\xd4\x1d\x2b\x40\xbd\x71\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x02\xff\xed\x3d\x6b\x8f\xdb\x46\x92\x9f\xa5\x5f\xd1\x11\x62\x9b\x9c\xd3\x70\x9c\x05\xee\xb0\x37\xc1\x1c\xe0\xc7\xc4\xf1\x6e\xfc\x58\x7b\x9c\x7c\x30\x0c\x2f\x25\xb5\x46\xdc\xa1\x48\x9a\xa4\x66\x3c\xab\xcc\x7f\xdf\x7a\x75\xb3\xf9\x94\x34\x49\x0e\x8b\xc3\x19\x48\x4c\x91\xdd\xd5\xd5\xd5\xd5\xf5\xee\xf6\xc9\x89\x7a\x96\x2e\xb4\xba\xd4\x89\xce\xc3\x52\x2f\xd4\xec\x56\xcd\xc2\x3c\x4d\x02\xf5\xfc\x8d\x7a\xfd\xe6\x42\x9d\x3f\x7f\x79\x11\x8c\x4f\x4e\xd4\x3b\x9d\x6f\x92\x24\x4a\x2e\xb9\x81\xba\x89\xe2\x58\xa5\xd7\x3a\xbf\xc9\xa3\x52\xab\x72\x15\x15\x6a\x19\xc5\x9a\x1a\xff\xac\xf3\x22\x4a\x93\x53\xb5\xdd\x06\xf2\x7c\x77\xe7\x7c\x50\xcf\x61\x34\xf7\x2b\xfe\x86\x16\xe3\x2c\x9c\x5f\x85\x97\x1a\xbf\xbc\xe5\xc7\xd7\xe1\x9a\xbe\x40\xe7\x0b\x33\x86\x9a\xa7\x49\x19\x46\x49\xa1\xd6\xba\x5c\xa5\x8b\x42\x95\xa9\x5a\x87\x57\x5a\x45\xc9\x22\xba\x8e\x16\x9b\x30\x56\x3a\x59\x64\x69\x94\x94\xd0\x25\x4f\xd7\xaa\xd0\xf9\x75\x34\xd7\xc5\x14\x21\xe5\xfa\xcb\x46\x17\xa5\x0a\x93\x05\x3c\x17\x59\x9a\x14\x30\x85\xdb\x4c\x13\x24\x6c\x8a\x33\x4a\xe1\xa5\x85\x32\x55\x61\xa1\x6e\x34\x4c\x1a\xfe\xd6\xc9\x1c\xe8\x96\x17\x08\x00\xe1\x2d\xb4\xfc\x5e\xa6\xb9\x74\x24\x68\x53\x7a\x11\x22\xa5\x96\x2a\xdd\xe4\xaa\xd8\x64\x59\x9a\x23\xa5\xcb\x3c\x4c\x0a\x7c\xc6\xe1\xa2\x30\x8e\xfe\x19\x96\x40\x08\x84\x06\x7d\xd6\x61\x59\x04\xe3\x71\xb4\xa6\x16\xde\x78\x34\x99\xdd\x96\xba\x98\xc0\x03\xce\x5d\x7f\x2d\xf1\x91\xd0\x80\x25\x39\xf9\x47\x91\x26\xf8\x62\xb9\xa6\xf7\x51\xca\xff\x3f\x89\xd2\x4d\x19\xc5\xf8\x23\xd1\xe5\xc9\xaa\x2c\x33\xf3\xbc\xc9\xe9\x75\x51\xe6\x00\xef\x5a\x1e\x01\x14\x0c\x01\xcf\x97\x51\xb9\xda\xcc\x82\x79\xba\x3e\xb9\x4c\x8f\xaf\xa2\xf2\x04\xff\x33\xb4\x80\xd6\x61\x72\x9b\xcd\xd4\xe4\x32\x4d\x2f\x61\xc9\x2f\xd3\x38\x4c\x2e\x83\x34\xbf\x3c\xc9\xf2\xb4\x4c\x67\x9b\xe5\x09\xcd\xff\xe4\x2a\x49\x6f\x92\x13\x6a\x0d\xbd\x16\x9b\x9c\x26\x79\x40\xd7\xaa\x0b\xf4\xd7\xeb\xac\x3c\x64\x5c\x69\x0f\x3d\x97\x91\x8e\x17\xeb\xb0\xb8\x3a\xa0\xb7\xd3\x07\x20\x00\x79\x36\xf3\xf2\x80\xee\xa6\x03\xf4\x2d\xa3\x35\x70\x5b\xb8\xce\x0e\xe8\xee\xf4\x01\x08\x37\x79\x98\x65\xc0\x60\x07\x00\xa8\xba\xb4\x97\x34\x87\xcd\x1b\x9e\xac\x37\x5f\x27\xf5\x2f\xd9\xd5\xe5\x89\xce\xf3\x34\x27\x4e\x1b\x18\xc8\x72\x1e\xbd\x31\xec\x37\xd0\x81\x1e\x10\x91\xed\xf6\x58\x45\x4b\xa5\xbf\xa8\xe0\x59\x9a\x2c\xa3\xcb\xe0\xc2\xee\x84\x09\xec\x94\x89\x9a\x24\xc0\xfc\x13\x05\x9b\xbe\x86\x1b\xbe\x3d\x06\x9e\xc6\xbf\x61\x88\x09\x83\x02\x9e\xc4\x86\x7b\x40\xbd\xcc\xb3\xb9\x81\xda\xc2\x93\x3e\xf6\x7e\x39\x01\x31\x13\x2e\xc2\x32\x6c\x0e\xba\xf7\x90\xf8\x54\xed\xf8\x9e\xfd\x65\x1b\x18\x74\x9c\xb1\x70\xef\x1e\x00\x40\xb6\xfa\x41\xc4\xc6\xa7\x03\x86\xa0\x8e\x2e\x8e\xfe\x78\x3c\xbe\x0e\x73\x94\x56\x9f\xd5\x99\x02\x59\x14\xbc\xcf\x40\xa6\x94\xfc\x9b\x04\x18\xa0\xb1\xce\xc2\x5c\xf3\x2b\x91\x3e\xc1\x93\x32\x8d\xf8\x4d\x6d\x9a\xc1\x6b\x7d\xf3\x1e\x65\x71\xce\x1f\x59\x9a\x05\xaf\xd3\xec\x59\x0c\x22\xd6\xbe\x05\xa0\xd9\x2d\xff\x60\xe6\x0d\x7e\x01\xde\x1f\x8f\x40\x94\xca\x7a\x1a\x36\x64\xa9\x8c\x4d\x49\x24\x05\x4f\x12\xea\x57\x09\x99\xe0\xb9\x3c\xe2\x6b\x11\x1f\xc1\x39\xfe\x8d\x2f\xcc\x96\x0e\xde\xd3\x03\xbe\x72\xb6\x69\x70\x61\x9e\xf1\x43\xb5\xfd\xb0\x35\x6c\x95\x9f\xc3\x78\x43\xf3\x76\xe4\x4a\xf0\x03\x3e\xbf\x82\x67\xa4\xde\xc9\xd1\x5e\x7f\xd4\xb9\xd5\x6c\x47\x7b\xff\x39\x21\x0d\xfa\x32\x51\x21\xab\xb7\x7c\xaa\xa2\xf2\x51\xa1\x36\x85\x5e\x6e\x62\x52\x53\xcb\x4d\x32\xc7\xa9\x83\x0e\x5c\x85\xa5\x4a\x34\x6a\xa9\x54\xa5\x19\xd9\x06\x2a\xc5\xbe\xf0\x7c\x6c\xd4\x00\x02\x9c\x85\x45\x54\x04\xea\x07\xe8\xae\xbf\xc2\xcc\x63\x3d\x55\xb7\xe9\x46\xad\xa3\xcb\x55\xa9\xb2\xb0\x40\x15\xe9\x20\x0c\xf0\x42\x3b\x10\x8f\x03\x6b\xb3\xd8\x80\x62\x46\x70\xd0\x16\x39\x20\xf8\x11\xf4\x6a\x8c\x38\xde\x00\x13\x2a\x1d\xce\x57\xa2\xe9\x95\x67\x46\xf7\xe1\x5b\x0e\x18\x6e\x32\x06\x5a\x64\x7a\x1e\x2d\xa3\x39\x0c\x5a\xae\x02\xe5\xbd\x24\xfc\xc0\x60\x00\xf8\xb3\x70\x16\xdf\x42\x9b\x75\x04\xcb\x43\x56\x02\x68\xec\x22\xba\x4c\xb0\x6b\x94\x5c\xa7\x57\xa8\xee\xb5\x7a\xcf\x36\x82\xb5\x2a\x08\x45\x8d\x70\xaa\x19\x30\x0f\x20\x08\x43\xc9\xc0\x87\x16\x96\xba\xf3\x38\xd2\x49\x59\xa7\x2e\x8c\x32\x4f\xe3\x58\x53\x3f\x63\xa0\x00\x46\xc0\xfc\x0c\x0e\xe6\x51\x99\x2b\xf0\x3f\x98\x10\x02\x2c\x80\x6d\x62\x36\x25\x98\x56\x11\x52\x78\xad\x89\x92\x0e\xbe\xd0\x43\xe7\xcb\x70\xae\xfb\x56\x02\x81\xd9\xc1\xba\x8d\xa4\x0d\x0e\xa6\xea\x12\x04\x37\xe0\x33\x99\x0f\xc8\x81\x59\x94\x10\x9d\xd6\x82\xa2\xb3\xb0\x53\x31\xa5\xca\x4d\x9e\xc0\xd4\x71\xc6\x88\xe0\x1c\xa6\xa9\x73\xb4\x98\x42\x83\x6c\x30\xa6\xe9\xb4\x08\xba\x1d\x8f\x3e\x24\x76\x7e\x7a\x01\x16\xa0\xe9\xc1\x26\xa0\x48\x82\xed\x16\x50\x04\x0b\xf1\xdb\x48\x9d\x9e\x29\xdb\xe6\x15\x2f\x19\x8b\xe5\x6f\x23\xe9\x63\x46\x51\xf0\xc7\x4c\x35\x30\x2f\x01\x14\x0b\x2e\xb6\x2e\x2d\x46\xbb\x87\x40\x06\x06\x4e\xac\xba\xf8\xca\x19\xd4\x9b\x97\x5f\x95\x58\x69\x28\x76\xf1\xef\x29\x32\xcc\xd1\x76\xfb\x22\xc5\x36\x00\x39\x78\xc7\x26\xe8\x05\x10\x43\xfa\xf9\xca\x6b\xb4\x60\xc3\xd4\x69\x32\x65\x01\xe7\x23\xb5\x8c\xdd\x4a\xef\x10\x51\x1d\x74\xcc\x1c\x91\xc1\xc1\xfd\xf1\x08\x15\x01\xb4\xfc\xe6\x4c\x25\x51\x8c\x10\x46\xb2\x5e\xf0\x93\x80\x8c\x47\x77\x63\xf3\xce\x40\x0f\x76\xe2\xe4\x4f\x11\x00\x10\xd1\x90\x13\x89\xf9\x0a\xb7\x99\x4b\x51\xda\xc8\xdf\x82\x18\x41\x8a\xde\x61\xe3\x63\xe5\x52\x19\x3e\xf5\x11\x1a\x61\x75\xcd\xac\x40\xa2\x3b\xdd\x5c\x36\xf1\xdb\xcb\xcd\x34\xa3\xc9\x21\xd8\xee\x55\x32\x8e\x81\xdd\x51\x5b\x5c\x16\xeb\x22\x38\xaf\x99\xec\xd5\x72\x00\xec\x2f\x38\x11\x81\xd0\xa2\x5b\x6b\xb5\xa1\xcb\xb5\x5d\xbb\x22\x68\x30\x10\xa1\x82\x6d\xda\xab\xd6\x5e\x36\x5c\x37\xf3\xf6\x9a\x97\x63\x74\x37\x66\x22\xf3\x9a\xb8\x6b\x83\xca\xf1\x49\x1c\x9f\x7f\x9d\xeb\xac\x24\x3d\x55\xb0\x88\xb5\x94\x22\x0d\x85\x2e\x8b\xec\xcd\x6a\xb3\xd2\x32\x92\x6c\xea\xf0\x0b\x82\x57\xd1\x02\xc4\xf6\x0d\xe8\x77\xf2\x02\x3f\x14\xc6\x2f\x44\x27\x28\xcb\xe2\x5b\x14\x31\x28\x36\x4b\x04\xbe\xb6\xad\x49\x2f\x68\x58\xb6\x5b\xbb\x6c\xb8\x5f\x50\x82\x14\x46\x6a\x00\xbc\x37\x19\x6a\x0d\x94\x9c\x53\x47\x70\xcd\x41\x0e\xcd\x34\xe9\x1a\x10\xa3\xd0\x0d\x7c\xd8\x04\xc9\x0e\x30\xe1\xbd\xfe\x3a\x8f\x37\x0b\xf8\x42\x5e\xe0\x4c\x23\x0a\xac\x9b\x17\x41\x8b\x1a\x5e\x85\xd3\x54\x4d\xde\x97\x61\xb9\x29\x26\xf0\xf4\x16\x7a\x4d\x7c\xbb\xef\x8f\x9c\x8d\xdf\xd7\x5f\x75\x50\x65\x5a\x61\x13\x04\x01\x3b\x5c\xc4\x3c\x51\x22\xaf\x81\x15\xd6\x61\xf6\x91\x3f\x7d\x62\xf2\x6f\xef\x70\xd5\x9b\x1b\xa6\x4b\xf2\x8d\x46\x13\x87\x8d\x26\xe0\x60\xdf\x4d\xa5\xab\x98\x91\xc0\x01\x23\x5c\x8d\xcf\x88\x0a\xb1\x2b\x81\xb4\x68\x6d\x99\xe3\xe0\x73\x7a\x85\x9f\x0d\x62\x1f\xf5\xd7\x4f\xdf\xab\x6f\xe0\x25\x71\x60\x16\x26\xd1\xdc\xab\x2c\xbc\xa5\x37\x39\x37\x20\xec\x0a\x3e\x7a\x50\x3c\x52\x8b\x14\x56\x37\x49\x4b\x18\x02\x94\xef\xf7\xb0\x9e\xda\x5d\x78\xcb\x3b\x64\xd2\x23\x52\xbe\x2f\xfc\xbc\xd0\xb1\x2e\xb5\x67\x30\xa0\x6f\xd5\x04\xe0\x75\x85\xbe\x25\xdf\xfe\x84\x82\x49\x22\x88\xb3\x33\x55\x23\x19\x4f\x6f\xd4\x29\x4a\xc1\xbc\xac\x30\xf7\x3a\x9b\x20\xee\x84\x7c\x8d\xe4\xbc\xed\x7e\x0a\x67\x30\xa3\x45\xc5\x0d\x1c\x42\xb9\xd4\xa5\xe1\x5d\xe4\x77\x4b\x3d\x62\xe1\x9b\x95\x4e\xec\xd7\xd4\x61\x57\x01\xc6\x5c\x37\xe5\x5d\x26\x1b\x61\xc3\x8d\x15\xc7\x65\x42\x0e\xee\x80\x5d\x04\x46\x0d\xfc\x45\x66\x96\xc3\xa5\x37\xab\x08\x76\x3e\x76\x2d\x60\xe8\x0e\x14\x44\x93\x4b\x6f\x63\xc7\xa4\xb9\xe8\xf1\xf6\xac\x48\xb8\x32\x03\x4f\xdb\x52\xb8\x43\x30\x8f\xfb\xe6\x75\x6f\xd9\xd4\x42\x6a\x2a\xf3\x24\x8a\xe7\x7a\xae\xa3\x6b\xb6\xf8\x68\x8a\x00\xcc\x9d\x77\x00\xa6\x8a\xb6\x60\x1c\x28\xf4\xc1\x18\xa2\x76\xdf\x23\xa2\xc8\x91\x0b\xf0\x11\xa3\x98\x8c\x46\xb3\x9d\x28\x98\x23\xc6\x6e\x18\x47\xe5\x6d\x30\x24\x42\x6a\x73\x77\x25\xc9\xc1\x14\xfd\x7f\x39\xf3\x7f\x47\xce\xd4\xba\x4d\xd5\x41\x62\x67\xff\x00\xc5\xbe\xae\xe7\x8b\x77\x6f\x9f\xb1\x85\x75\xb0\xef\x89\x66\x9c\xd3\x1d\xc3\xb5\x45\x65\x0c\x54\xfa\x3c\xbc\x86\x6d\x04\x0e\x9b\x66\xb7\xe1\x12\xba\xa8\x1e\x67\x20\xa8\x0c\xc4\x0a\xb2\x57\x81\x72\xdc\x93\x34\x63\xd7\x16\xf6\x43\x2d\x16\x13\x70\x27\x36\x2d\xfc\xbe\x81\x70\xb9\x0a\xa7\x61\x81\x0b\xfe\xf1\x53\x3f\x24\x5c\xde\xae\xaf\x4f\x35\x30\x95\xf6\x10\xdb\x57\x12\x53\xba\x48\xc5\xfa\xf4\xa7\x64\x80\xd7\xc7\x39\x43\xc3\x09\x66\xe4\xd5\x5e\xdb\xf9\xc0\x74\x7c\x0a\x74\x6c\xb7\xea\x22\xfd\x29\xbd\x01\x5c\x6b\x33\xa0\xc8\x8e\x98\x86\x0f\x11\x23\xc6\x63\x8b\x6e\xd2\x4e\xee\xdd\x6e\x0d\x4c\xcb\x72\xa7\xaa\x3e\x2d\x1b\xa2\xf1\x90\x07\xab\x5d\xd6\xc1\xa5\x28\x22\x46\xcf\x29\x52\x8e\xf3\x77\x5a\x88\x75\x4c\x0d\xce\x93\xce\x06\xe2\xeb\x60\x8b\x1a\x25\x80\x00\xf8\x12\x69\xd7\xa1\x73\xab\x09\x37\x5d\x67\x6b\x9c\x77\xaf\xb7\x35\xf4\x59\xcb\x39\x70\xfe\x00\x77\xb5\x45\x64\xf0\x56\xeb\x54\x96\x78\x88\x63\xd0\x8b\x9b\x25\x81\x0a\x94\x54\x0e\x8e\x18\xd5\x30\xa8\xed\x3f\xd3\x3d\xdd\xde\x42\x1d\x55\x43\xf9\xca\xf5\x72\x86\xfc\x5f\x74\x8f\x7e\x5f\x07\xf8\x33\x02\xcd\x6a\x2e\x54\x8b\x92\xbc\xed\x90\x9b\x5c\xa7\xea\x40\x4f\x38\xbb\xa7\x13\x2c\x14\x66\x96\xdf\x4d\x5e\xe8\x31\xb4\x3b\x30\x96\x15\xaa\x7a\x8c\x38\xe0\x0e\xd2\xe2\x07\x5c\x1f\x8a\x13\x61\x54\x55\xe7\x28\x4c\x69\x17\xb0\x08\x6d\xb3\x99\xf1\x76\x29\x80\x06\x76\x63\x7e\xbc\x48\xd7\x21\xb8\x50\x03\x8d\x03\xf5\x36\x8f\xd6\x61\x1e\xc5\xb7\x26\xbc\xe5\xc6\xc2\x98\x49\x86\xe6\xe1\x7d\x6e\x33\x07\xce\x05\x3e\x37\xdc\xee\xa6\xb7\x6d\x03\x1f\xe4\x68\x4b\x9f\x7d\x1c\x6d\xbb\x92\x5f\x06\x96\x89\x05\xcf\x5e\xcb\x34\x28\xa3\x3a\xd7\x89\x7b\x98\x26\x7d\x0b\xb5\x7b\x09\x4c\xaa\x32\xad\x34\x63\x57\x33\x70\xb5\xf7\x5a\xa7\xc1\x89\x74\x2d\x54\x57\x24\x64\x68\xa5\x8a\x8c\x63\x22\x7b\x07\x93\x6a\x01\xa8\xae\xd5\xfa\x51\xc7\x18\x56\x1f\xf3\x04\x3a\x15\x69\xb7\x00\x5a\x2f\x94\x49\xe3\x04\xaf\x9e\xfb\xcd\x06\x88\x2f\x8a\xd1\xab\xa9\xba\xae\x2c\xbe\xb5\x35\x55\xaf\x6b\x21\x18\xca\x46\x6b\x75\xa5\x6f\x69\xb9\x17\x68\x14\xce\x52\xf0\x3f\x80\xc6\x66\x14\xc9\xe3\x2a\xef\xca\x17\xf7\x03\x9b\x82\x03\x12\xe3\x7a\x09\x94\x50\x9c\x2e\x0a\xb7\x3e\x0b\x93\x14\x0c\xde\x30\xfe\x51\x87\x0b\x9d\xff\x15\xa0\x8b\x6f\x82\x03\x15\xa9\x04\x81\x4b\x71\xf5\x0c\x88\xf9\x5c\x9b\xd8\x87\x06\x1f\x08\x78\x81\x47\xc6\xef\x48\x8a\x33\x3b\xd7\x5f\xe0\x33\xe5\x21\x58\x1a\xe2\x5c\x3f\x3e\xfe\xe4\xef\x6c\xd8\x83\x1d\xcc\xac\x82\x20\x56\xbf\x2c\x1f\x74\x23\x1d\x75\x80\x5d\xc9\x91\xe6\x83\xed\x4a\xb0\x40\x9c\xde\x3c\x3c\x65\x1d\x24\x74\xa4\x66\xe1\xfc\x8a\x4b\x1b\x64\xcf\x70\x88\x1e\xe7\x9a\x68\xf2\xcd\x02\xf5\x92\xc4\xab\x04\xfb\x85\x5d\xa3\x59\x84\x3e\x9b\x59\x02\x89\x65\xc3\xd6\x5b\x44\x61\xcc\x01\xef\x38\x04\xbe\x07\x78\x29\x86\x61\xa9\x51\x05\x93\x19\xb4\x86\x9d\x87\x9f\x59\x7d\x06\xfc\x06\x98\x2f\x19\x30\x4e\xb9\x91\x31\x4e\xbd\x1e\x23\xc3\xdd\x72\x68\x21\x34\x63\xad\x23\xe7\x6d\x76\x75\x49\xdb\x4f\x42\xae\xf5\x22\x8b\x51\xdb\xab\xe9\x8e\xcb\x8e\x30\xcf\xd7\x21\x7a\xac\x0b\xd3\x76\xf2\x47\xdb\x6e\x83\xd2\xf1\x7a\x5a\x96\xa5\x50\x8d\xd8\x13\x09\x65\x3c\x4f\x99\x04\xa8\xf7\xae\x08\xf0\x64\xda\xf2\x50\x87\x2c\xcb\xca\xf4\xec\xd1\x5a\x8e\xe9\xb9\x43\x7a\xb1\x1b\x3c\x4a\xeb\xa6\xa9\xa5\x81\x47\x7e\x25\x81\x11\x3b\xb5\x7a\xb2\x22\xce\x6c\x20\xeb\xbb\xec\x34\xd5\xd5\xb1\x80\x6a\xd1\xf4\x14\xf3\x1e\x03\x34\x9f\x56\xe3\x8e\xee\x8c\xb0\xc5\x1d\x80\x34\x50\xb2\xa3\x7e\xbb\xf9\x32\xa0\x17\x8d\xfd\x32\xac\x17\x87\x35\xdd\xbe\xe6\x8b\xe8\xa0\x1e\xbd\xc8\x42\x61\xd8\x7e\xe9\xd7\x8b\x6c\x8c\x20\x32\x7b\x2a\x46\x6c\x6a\x8d\x18\x54\xd7\x07\xa9\xc6\x0c\x43\xe0\x6d\xdd\xe8\x2e\xdb\x6f\x37\x67\xfa\xad\x4e\x63\xcd\x0c\x5a\x9d\x7b\xda\x93\x3b\x6d\x99\x41\xab\xb3\xb6\x6a\x43\xf3\xe8\x36\x66\xba\x92\x3d\xc3\x56\xe7\x01\xe9\x9d\x61\xab\x53\xb0\x20\x25\x5b\x5c\xa4\xae\x21\xc3\x34\xef\xd2\x04\x0e\xc9\x79\xca\x03\x50\x3c\xb0\x19\x0a\xf5\xf1\x93\x09\xff\xed\x80\xb7\x57\x7a\x0c\xcc\xa1\xa3\x5d\x46\x14\xe9\x86\x2c\x8c\xf2\x6a\x70\x78\x29\xc1\xc0\xab\xca\xb4\x22\xf4\xb6\x12\x23\xbb\x36\x81\x40\x18\x36\x60\xc3\xe3\xca\x0f\x24\xe8\xe9\x7f\xaf\x4c\x40\x70\xc4\x80\x6d\x54\x84\x7e\xb2\x21\x63\x83\x60\x28\x44\x11\x26\x37\x75\xad\xb6\x23\xc0\xff\xac\xb2\x02\xff\x02\x32\xd0\x83\x77\xd3\xea\xd5\x5b\xec\xc3\x50\x31\xb4\xe2\x1b\x70\x8e\x55\x23\x91\x35\x5e\xc9\x7d\xed\x9b\x1f\x2f\x2e\xde\xde\x27\x6e\x46\x49\x7b\xa6\x72\x42\xec\x05\xf8\x4f\x30\x95\x06\x76\x18\x2a\x19\xaa\xfc\xfb\x5e\xcd\x57\x61\x5e\xe8\xf2\x6c\x53\x2e\x8f\xff\x3c\xb1\xe1\x36\x1c\x55\x42\x07\x95\x61\xa4\x56\xf2\x86\xf6\xec\xee\x30\x1c\x02\x4b\x13\x95\xe5\x7a\xa1\x97\x51\x02\x96\x14\x56\x58\x14\x4e\xec\xcd\x19\x66\x67\xf0\xad\x5e\xe0\x53\x0f\xbe\xb9\xa5\x1f\xc6\x96\x81\x75\x0c\x08\x3e\x99\xfd\xb5\xe8\x54\x47\x40\xae\x1f\x3a\xad\x7f\xd7\x67\x89\xc8\xf1\x18\x68\xd7\x16\xb5\x80\x5c\x77\xa7\x73\x14\x0b\x2c\x6e\x60\xca\xce\x8f\xfe\x2e\x4f\x96\x20\x56\xbc\xe6\x97\xf2\x59\xb5\xb4\x9e\xb3\xcc\x3e\x01\x6a\xcf\x72\xaf\x70\xa0\x44\x89\x28\xf4\x07\x8b\xf7\x16\x96\x0b\xd6\x2c\x07\xb9\x54\x52\xcd\x2a\x26\x27\x8b\x79\x98\x61\xb0\x1b\x8c\xd6\x5b\x60\x82\x5b\xb5\x4a\xe3\x05\x56\x45\x11\x2f\x85\xf3\x12\x3d\x94\x35\xe5\x09\x36\x5f\xd1\x16\x7b\x97\x6e\x70\x02\x7e\xf0\xa1\xd0\x3c\xd9\x05\x02\x06\x9b\xc6\xb1\x4f\x24\x37\x82\x9a\xa6\x67\xd1\x6c\xd3\x19\x56\xa1\x24\x97\x64\x63\x72\xb7\xe0\x29\xbf\x92\xc8\xf9\xda\xf4\xa3\x10\xb8\x34\xc7\x7a\xe1\x99\xfa\x55\x5d\xa4\x1f\xb0\xba\x0a\x4c\x3b\x3f\x20\x34\xdc\x36\xf8\xe2\x42\xaf\xb3\x98\x8a\x8a\xa1\x85\x61\xce\x9e\xea\x32\x8f\x63\xf1\x6e\xec\x52\x30\xea\x08\x60\x8a\x95\x88\xd3\x73\x86\xa4\xdc\x4d\xdd\x9a\x14\x7b\x13\x1b\xbe\xe0\x14\x5c\xcd\x94\xec\x0c\x63\x8e\x48\xe2\x34\xea\x1a\xe5\x51\x44\xd0\xda\x94\xab\x38\x5c\xc7\xb9\x3e\x0e\x6c\x12\x37\x9a\xac\x9d\x19\xf1\x17\xfc\x0e\x7e\x02\xf8\x40\xb0\x89\xc3\x4d\x5c\xa2\xee\x64\x76\x43\x60\x14\xe4\x84\xed\xdf\x94\x2c\xe0\xe5\x80\x5b\xbb\x20\x1f\x08\x7f\xb3\x13\x81\xce\xe8\x84\xc6\x99\x58\xff\xf5\x9a\xaa\xdb\x00\x14\xbd\x0f\x08\x3b\xcf\x67\x2f\x09\xa4\x0b\x65\xd2\x15\x22\x8b\xa0\xfe\xf3\xf1\x63\x70\xb9\x96\x0e\xbe\x4e\x74\x96\x77\x21\x60\x4b\x88\x41\x8b\x2c\x4f\xaf\x23\x74\xb0\x57\xbc\x3f\x39\x8b\x37\xd3\x8c\x2d\x27\x3b\xb1\x5d\x65\xe1\xb9\xa0\xa9\x0a\xac\x82\x8e\xb3\x08\x5e\x81\xb4\x5c\x85\x54\x60\x66\xf0\x5f\xf3\x2b\xe4\xc8\x62\x03\x0e\xb5\x5e\x14\xec\xd1\xfd\xe5\xfd\x9b\xd7\x52\xef\xbd\x30\xc5\xd9\x36\x63\x48\xb8\x1b\x74\x30\xf1\xda\x3f\x2d\x2e\x26\xc0\x72\xfb\x7c\x6a\x1c\x4d\x3b\xb3\xea\x63\x0d\x1a\x58\x26\x45\x09\x93\x36\x34\x63\x91\xeb\xca\x9b\x2e\xb3\xc6\xd6\xa5\x4c\xd5\x0d\xcb\xd4\x3a\x1b\x90\x39\x83\xab\x3a\x55\x9f\x71\xfb\xb9\x24\x61\x61\xf6\x0b\xd7\x2e\x6e\x69\x15\x4f\x11\x98\x59\xd0\x3b\x8e\x9e\xae\x2b\x02\xb2\xda\xc6\x26\x5e\x9d\xb6\x95\xd6\x8e\x98\x79\x9e\xd2\x90\xd2\xf5\x9c\x83\xb6\x16\x90\xe9\x87\xe4\xf6\xa0\xab\xd3\xec\xcc\xd1\xe0\xc4\x8c\x67\x16\x9c\x09\x3b\x8c\x6e\x02\x66\x1b\x90\x4f\x20\x54\xbd\x89\x88\xd5\x63\x94\xa5\x93\xa9\xab\x40\x79\x02\x2b\xc3\x64\x2e\xfe\x75\xf1\x60\xf8\xb0\x9a\x07\x85\x87\x2a\x03\xc6\xc0\x90\x96\x85\xc7\x75\x40\x4d\x5c\xc0\x36\x69\xb7\x0c\x5e\xe0\x17\xdf\xc6\x4d\x46\xb4\x35\x4e\xb9\x00\x36\x60\x76\x78\x89\x86\x68\x12\xc6\x8e\xca\x21\xdc\x8b\xf9\x00\xd6\x0e\x9b\x55\x88\x13\xf0\x33\xe8\xe8\x7c\x16\x67\xf4\x26\x20\xa6\x10\x8c\xb1\xa1\x6f\x5f\x7a\x48\x6d\x1f\xe5\x4d\xc5\x77\x2c\xfd\x72\x0f\x8b\x69\x3f\x7e\xc2\x9a\x5e\x5f\x78\x7d\xcb\x51\x81\x1b\xe5\xb2\x90\x8d\xb5\x1b\x3e\xfb\x90\xc8\xca\x22\x84\xa9\x7a\x78\x03\x58\x36\x62\xf1\x6c\xf3\x14\xd1\x3f\x11\xe7\x3f\x7f\xf7\xdf\xff\xc5\x2c\x14\xeb\x04\xfb\xf8\xea\x7f\xf8\x1b\xf3\x03\xa0\x71\xa6\xe0\xff\x1f\x4f\xf1\xe5\xa7\x7a\x2d\x14\x26\x8e\x89\x6e\x4b\x6f\x62\x23\x97\xc4\x42\x98\x33\x3e\xc5\x30\x1a\xa6\x8c\x33\x34\x9e\x54\x92\x26\xc7\x24\xe3\x8c\x5b\x80\x0d\x81\x77\x70\xcc\x5a\x68\x4b\x6a\x8c\x41\x7d\x78\x37\x0c\x9e\x68\x44\x32\xd4\x9d\xbb\x93\x2a\xa2\x56\x8a\xad\x59\xf5\x77\x1c\xe5\x54\x04\xe8\xdf\x45\x9c\xe3\x2a\x4a\x2b\x10\xbf\xc5\x32\x12\x71\x6e\xb8\x90\x04\x95\xb3\xb8\x95\xd3\x82\x05\xa3\x24\x4c\xe4\xe8\xcc\x3e\xa5\xe1\x52\xbc\xe1\x0c\x6a\x51\x65\xa1\x39\x2a\x2a\x89\x44\xd1\x1b\x23\x7b\xe1\x8f\x53\x38\x60\x0d\x7c\xc3\x23\xde\xaa\x02\xea\x2b\x97\xdb\x54\xbd\x04\x6f\x15\x54\x23\xf4\xf4\xae\xb6\x15\x1b\x86\xf4\xb3\x06\x42\x90\x12\x12\x72\xd0\x93\x2a\xaa\xad\xb5\x8b\x24\x24\xc7\x44\x24\x36\xd6\x7b\x2c\xaa\x1a\x92\x75\x71\xc9\x7e\x24\x9a\xb4\x0a\xe8\x00\x2b\x9f\xdf\x8e\x25\x2e\x7b\xb3\xd2\x14\x4d\x8d\xc8\x0b\x06\x0b\xf9\x14\xb6\x50\x18\x87\x68\x43\x15\x6c\x39\x51\x55\x02\x16\x65\x6c\xd6\xe6\x65\x94\x2b\xf8\x35\xe3\x25\x63\x50\xb7\xe5\x0a\x17\x5e\xc7\x05\x25\xb5\x51\xc6\x4d\x4d\x81\x1b\xe9\x13\x18\x61\x15\x16\x8c\x0a\xb2\x9d\x48\x7a\x67\x46\x1e\xa2\x4a\x65\xec\x60\x16\x15\x05\x2c\xf4\x94\x8b\x57\x8c\x7b\xe7\xd1\x34\x4d\x95\x08\x6c\xfc\x59\x9a\xc6\xcd\x22\x45\x36\xe8\x0a\x30\x91\x10\xd2\x3b\xbd\xc4\x5a\x1e\x94\x04\x4c\x11\xfc\x18\x3c\x07\xdb\x30\x8f\xb2\x12\xc5\x3d\xd7\xa7\xa3\xbc\x7a\x7a\x7b\x01\xf0\xd1\x1e\xf2\x70\x58\x96\xa2\xdc\xeb\xac\x95\x46\x9b\xc0\xb6\x59\x86\xb1\xd4\xa6\xe2\x66\x31\xbb\xf0\x41\x41\x13\x4d\x52\xe9\xfb\xe0\x0b\x34\x6d\x8e\xb9\x89\x63\x1a\xc8\xe7\x29\xb2\xa0\x82\xe1\xbe\x59\x83\x25\x57\x78\xd4\xd3\x57\x0f\x1f\x2a\x7e\xc4\x97\x6f\x61\x7b\x83\x92\x46\x3e\xfb\xf5\x57\x86\x1d\xbc\x2c\x7e\x8a\xc0\xf1\xaf\xbd\x79\x15\x66\x9e\xef\xf7\xe0\x2a\x75\x93\x34\x54\x03\x04\x0c\xf6\x4d\x0d\x06\xbe\xe1\x17\xb2\x1c\xf0\xca\x21\x04\xd7\xb6\xd0\x91\x07\xa6\x2a\xca\x7b\x46\x3c\x78\x69\x76\x2e\xcc\xd5\x13\x19\xfa\xbd\xfa\x86\x1b\xbb\x05\x9e\x55\xdd\x8b\xd7\x07\x00\x48\x04\x3b\xd7\xe0\x2e\xba\x24\x4d\x38\xb8\xb4\x26\x19\xe5\xf3\x0b\xd2\x45\x04\x60\x5a\x43\x07\x3e\x8b\x44\x46\xaf\x0b\x7a\xd9\x13\x3d\x46\x25\x8b\x89\x8a\x98\x3d\x89\xe3\xf4\xe6\x6d\x98\x97\x51\x18\x53\x70\x91\x06\x87\x0f\xe0\x14\x10\x4b\xe1\xba\x15\xa7\xf5\x0f\xe7\xb0\x1d\x5e\xd3\x8e\xc0\x2f\xe6\xc3\xf9\x3a\x2a\x3f\x24\x59\x9a\x6d\xd0\x4c\x5f\x9c\x9a\x0f\x80\x3f\x7a\xe2\x36\xad\x5b\x21\x67\x6d\x14\x9a\x8e\x4b\x84\x81\x8c\x6e\x9b\x15\x51\x3a\x2f\xd1\xce\x99\xaa\xc9\x3c\xdd\xc4\x8b\xe4\x51\x29\x06\x9e\x65\x4a\xdc\xa5\x74\xa8\xc9\xe5\x40\xd4\x6e\xd4\xa0\x70\x45\x20\x51\xea\x5d\x78\x23\x6c\x30\xa0\xf0\x78\x5a\x0f\x19\x44\x5b\xed\x75\x22\xec\x26\xa2\x79\x40\x5e\xb6\xe2\x23\xe2\xf5\xa9\xb6\xfc\x2c\x05\x37\x66\x3c\x16\x84\x20\xb5\x8a\x3e\xc9\x47\x15\xb1\x51\xc9\x02\x89\x84\x8d\xc8\x9d\x3a\x8c\x1d\xa2\x67\xaa\x1c\xc9\xe3\x18\x03\xb8\x8b\x88\x02\x3f\x83\x59\xbd\x10\x46\x27\x29\x55\xdf\x80\x4d\x09\xf1\x05\x85\x2d\xaa\x65\x59\x00\xea\x41\x74\xe8\x95\x5e\x2d\x86\xb7\x13\x68\xf1\xb4\x5d\x8e\x01\xae\x36\x2c\xfa\x3c\x02\x71\x9f\x2f\x3e\x24\x74\xa0\xce\xe5\xd0\x6a\x8d\xdd\x91\x9c\xb5\x96\xd9\xd6\x2a\xd7\xb6\x0f\xbe\x9c\xaa\x07\xc5\x9d\x30\x95\xcc\x0c\x96\xb0\xc5\xcf\x7d\xbc\x61\x18\xe2\x7e\xd2\x9a\x86\x71\x04\x28\x02\x5e\xbb\x62\x81\x1a\xd4\x24\xc3\x1d\xeb\x2c\x6e\xf9\x2c\xd6\x61\x2e\xdf\x5c\xbe\xac\x78\x0f\xb5\x68\x5b\xff\x76\xeb\xdc\x4e\xdd\x47\x67\x77\x98\x07\x2d\xac\x9d\xec\x87\xb4\x3a\x12\x1d\x27\x26\x16\x20\xcc\xbe\x50\x0a\xd6\x37\xd9\xd5\x0d\x55\x6a\xf7\x35\xae\xa4\x11\xdc\xa8\x51\xb0\xf4\x10\xf4\x05\xb1\x34\x16\xed\x4d\x98\x4e\xba\x3a\x5b\x66\x18\x35\xab\x85\x55\x14\xf3\x2d\x1d\x19\x9b\x34\xf4\x96\x76\x97\x12\x31\x45\x60\xe6\xa3\x1d\x29\x98\xd4\x06\x0e\x82\x89\xbb\xf4\x72\x3a\x37\xc0\x64\x01\x32\x09\x4f\x0f\x3a\xc1\xff\x1e\xfc\xe9\x1c\xfe\x3a\xfe\xae\xb6\x2a\x9b\x3c\xa6\x40\xc8\x39\x45\x7a\x78\xdf\x39\xcb\xf4\x33\x5a\x31\xee\x2a\x6d\x12\x89\x09\xa9\xac\x11\x2f\xc2\xb8\x80\x8d\x7b\x57\x8b\x83\x10\x3c\xa0\xbc\x78\x98\xf4\x19\xcc\x90\x7a\x59\xa9\x59\x20\xb1\x3f\xae\x71\xd4\x56\xed\x29\xfc\xb5\xbd\xe3\xec\x3b\x6f\x0c\x0a\x26\x38\x49\xf8\x0d\xc6\x84\x71\x34\x5e\x8c\xca\xcd\xc5\x0d\x28\xf3\xfc\x20\xf8\x7b\xd4\x79\x8f\x93\x13\xd6\xd2\xdc\x76\x28\x86\xd6\xe2\x9a\x35\x9d\xba\x1e\xda\xd3\x70\x61\x22\x3e\x08\xf3\x4e\xbc\x0f\x9c\x25\xcb\x67\x58\x68\x44\xd6\x5d\x17\xfc\xe8\xca\xeb\x70\xb1\xe0\x2d\x03\x0f\xbd\xfb\x45\x22\x1c\x64\x9d\x4e\x31\x26\x6a\x4d\x52\x59\x10\x03\x85\x67\x5f\x10\x55\x38\x29\x30\x55\xbb\x2c\x47\x2b\xb1\x9d\x2d\xc3\xb4\x1d\xda\x34\x83\x02\x0a\xa5\xcd\x95\x24\x03\x10\x89\xe0\xc9\x62\xe1\x39\x42\xaf\x5b\x7c\x30\x42\x68\x71\xd5\x38\x93\x66\xed\x32\x24\x1d\x27\x51\x31\xb6\xe3\x3a\x70\xda\x19\xea\x89\x9c\x97\xab\x40\x99\xaa\x6f\xd4\xf2\x18\x53\xc1\xc3\x7f\x09\x75\x5f\xa7\x39\x25\x24\x2f\xa3\x6b\x78\x23\x36\xb9\xd0\xb2\x42\xc3\xa3\x31\xaa\x14\x8a\x79\x12\xf5\x86\x1e\x29\xb6\x20\xcb\xef\x3b\x12\x1f\xf8\xf3\xe3\xe3\x4f\x2c\x3a\x70\x3f\x1b\xec\x9e\xc9\x8d\x05\x4f\x92\x5b\xd3\x08\xd8\x6c\xfa\x71\x22\xca\x10\xc0\xd5\xcc\x9e\x5a\x50\x86\x06\x61\xa5\x70\xd6\xe6\x66\x83\xd5\x56\x0c\x04\x84\xe3\xdf\x59\x6b\x50\x5a\x21\x0c\xa1\x33\x11\xb4\x45\x66\x6d\x22\x55\xb4\xdf\x69\xe6\x22\xa6\x85\xed\x2c\xad\x72\x9d\x69\xb4\xd9\x58\x96\x98\x65\xa1\x0b\x12\xd2\x04\x6b\x20\xd6\x6b\x4c\x28\xe0\x27\x3c\xd9\xc8\xbb\x39\xcd\xcd\x77\xb2\x36\xc2\x3c\x0f\x8d\x9b\x63\xf1\x31\xdc\x3b\x48\x71\x6e\xe3\x23\xf7\x7d\xe7\xf2\x1e\xbf\x37\xec\xc7\xbf\xaa\xa5\xa8\x17\xf9\x59\x7b\xce\x4e\xfa\xe3\x01\x86\x9c\x28\x77\x3b\x04\x08\x85\x87\x06\x50\x7d\x99\x80\x25\xec\x08\xce\x6e\x21\xe2\x92\x18\xbc\xd2\xde\x47\x2b\x27\x71\x76\x16\x8e\x2f\x01\xa7\x68\x6a\x40\x38\x65\xf4\x06\xa6\x49\x9f\x75\xe3\x29\xcd\x00\x3b\xe2\xb8\xe8\x53\xdb\xb0\x60\x5c\xe0\x13\x9f\xc6\x46\xf6\x91\x5e\x4e\x3a\x6d\x54\xe3\xa1\x96\x45\x5a\x80\x89\x13\x47\x65\x45\x0f\x64\xec\x89\x51\x36\x3d\x45\x90\x3b\x33\x05\x4e\x21\xca\x8e\x54\x81\x2d\x3c\x18\x8c\xc9\x37\x13\xd9\x24\xc6\xbb\xcb\x27\x09\x24\x5f\xe9\x81\x7d\x90\x5f\x8f\x25\x02\xec\xe6\xa8\xab\x74\x43\x8e\x39\xe8\x46\x5a\x9b\x8c\x6b\x8a\xe0\x00\x56\xe6\x2d\x41\x26\x07\x7f\x47\x75\xde\xc8\x29\x43\x18\x9c\x56\x67\x5e\xbb\xa5\x94\x7b\x72\xda\xa3\x85\x5e\x62\x6a\x30\xc0\x58\x6a\x40\x87\xea\x3d\x5f\x32\xb8\x98\xef\xae\x52\xdc\x8d\xb9\x3a\xf9\x6e\x4a\xd6\x50\x2c\x4f\x98\x50\x4e\xe9\xbf\xd3\xe1\x02\x0c\x6b\x8f\x81\xef\x77\x92\xb1\xe5\x9e\x71\x7c\x2e\xc7\x10\xb8\x49\x43\xe0\xcc\x0c\x39\x27\xe6\x0c\x47\x3d\x3c\xf8\x98\x81\x1f\xe6\x04\xf4\xbb\x01\xbd\x8e\x00\x8f\x6d\xe6\xd5\xeb\x0b\x70\xa0\x13\x2b\x8f\x3b\xb6\x5f\x57\xb0\xb3\x3f\xdc\xd9\x19\xf0\x14\x34\xf6\x37\x6e\xdc\x00\xe7\xa1\x91\x50\x26\xc8\xa8\xdb\x08\xe2\x6f\x88\x40\x85\x96\xcd\xc8\xa3\x49\xf5\x16\xb5\x45\x61\x59\xa5\x32\x23\x0f\x3a\xe9\x8a\x17\x3d\x54\xd0\x10\x36\x69\x10\xfe\x49\x52\x32\xf8\xf0\xee\xa7\xe0\x6f\xf8\x92\xf8\x19\x3b\x38\x4d\xc6\x6e\x1e\xd2\xfa\x52\x96\xc7\xd9\x8b\x32\xe5\x70\x80\x55\x62\x9a\x05\x3f\xa5\x9c\x1c\x53\x13\x22\x09\xb7\xc1\xca\x2b\xfe\xfc\x42\x27\x34\xa8\x5d\x7b\xcc\x50\x76\x17\x7c\x0d\xa3\xf0\x26\xd1\xe9\xb2\x85\x07\xec\xc8\x16\x1e\x34\xad\xdf\x82\x88\x25\xf2\x43\x2a\x54\x31\x16\x9c\xc9\x21\x1f\x37\x0e\x0f\xf7\x26\x35\x3b\xe5\x6b\x5f\xd9\x33\x4b\xd3\xc2\x64\xf8\x6c\x6c\x5e\x0c\xb1\x66\x46\x8f\xf3\x9b\xf9\x01\x25\xcd\x1d\x08\x76\x49\xca\xce\xfc\x58\x5f\x95\xb3\xb5\x93\xff\xdd\xe2\x65\xae\xf4\xed\x08\x97\x55\xd5\xd7\x35\x2f\xc0\xdf\xc7\x90\xff\x3c\x15\xd9\x66\x53\x42\x94\x0d\x71\x5a\xb9\x55\xd9\xd5\x15\x22\x12\xd0\xef\xaa\xaa\xe8\x39\x1e\xd2\xd4\x59\x7d\xe5\xd9\x95\x15\x94\x3b\x29\x81\xc1\x82\x6c\x52\x19\xad\x62\x6c\x0c\x3a\xac\xc2\x05\xf7\xed\x2b\xbf\xa6\xa2\xdf\x05\xd6\xbf\x44\x6c\x0e\xdb\x13\x74\xce\x6d\x60\x98\xcd\x25\x28\xc6\x1e\x32\x26\x82\xad\xfa\x46\x66\xc6\xfa\xab\x56\x6d\x78\xad\xbc\x9b\x81\xd4\x6b\xbc\x07\xab\xbb\x77\x15\x77\x1b\x0a\x39\xd9\xc6\xc1\x2e\x0d\xfc\xa9\xbc\xbb\x0d\x03\x85\x17\x92\x7b\x03\x72\xd1\xde\xba\x32\x5f\xe1\x9a\x04\xf4\x25\x8c\x8b\x14\x97\x40\xf6\x30\xeb\x10\xf0\x48\xc7\xc3\xa3\x1b\xbd\x74\x8c\x77\x93\x4d\x45\x88\xa3\x6b\xef\xef\xea\x68\x57\x05\xa3\x21\xc8\x73\x28\x44\x26\xfe\xbd\xab\xd1\x11\xc4\xfd\xab\xd1\x9d\xde\x55\xd1\x55\x47\x31\x7a\xc2\xa6\x21\x4b\x2f\xb0\xad\xaf\xe9\x76\x84\x52\xa8\xb6\x4e\x4b\xf2\x64\xb1\x04\x20\x4c\xf0\x6a\x97\x5f\xf0\xfc\x6c\xc6\x97\xc8\xf0\x3b\xbe\x58\x06\xec\x33\x32\x36\xab\x41\x16\x60\xaf\xa4\x74\x9d\x42\x71\x5b\x94\x7a\x3d\x45\xe6\x02\x58\x71\x74\xa5\x63\x5b\xd0\x4e\xd1\xb7\xc9\x2a\x2d\xca\x53\xa2\x5d\x55\xb1\x5e\xcd\xc0\xb3\x43\xd9\xcc\x52\x5f\x2d\xd7\xe1\xb5\xea\x18\x21\x36\x2c\xc7\x39\x9c\x65\xf4\xd5\x8e\x08\x4b\x49\xb7\x58\x89\x7f\x6c\xf0\x38\xe3\xd7\xa7\x27\x27\x13\xf5\x1f\x96\x12\x24\xac\x36\x8d\xa0\x10\xd8\x32\x16\xda\xde\xa7\xbe\xd0\x56\xd8\x8c\xe5\x72\x2f\xb4\x89\x3a\xfc\x13\xa9\xb8\xe6\xd3\xc9\x93\xd7\x29\x2f\xa4\x53\xf0\xc6\xe7\xf1\x99\x07\xa8\xa0\x03\x01\xdd\xa4\x39\xec\x49\x2e\xa2\x53\xa2\xe9\x29\xee\x79\x8b\x37\x03\x92\x6c\xe6\xaf\x11\x92\x70\xe2\xbb\xd5\x3f\x07\xd6\x58\x61\x88\xa8\xe9\x2a\x09\xd2\xf8\x95\x8f\x02\x38\x6e\x15\x3c\xe9\xaf\xed\x1e\x8f\x4d\x1f\xa9\xf7\x6f\xfa\x20\x43\xe5\xfe\x38\x12\xdb\x83\x03\xfd\x3a\x2e\xfc\x72\x6a\xfe\xa5\x8a\xbf\xb7\xf4\x4b\xec\x4d\xb0\xa1\xb3\x5b\x90\x15\x1e\xac\xbf\xdb\xfe\x69\x08\x4a\x16\xc4\x07\x96\x80\x99\xa6\x95\x75\xb0\xa3\x78\xab\x51\xe7\x55\xab\x07\xab\xd7\x71\x35\xeb\xfd\x47\xcd\x92\x7f\x63\x09\x3b\xb5\x5c\xdd\x25\x5e\xc3\xb5\xff\x83\xeb\x6e\xcf\x00\xfc\xee\x2b\xdf\x57\x0c\x27\x67\x0b\xfa\x96\x76\xda\xb4\x36\xbb\x4a\xda\xaa\x33\x07\x24\x79\xcc\x3a\xce\x60\xe1\xd4\x11\xee\x61\xf8\x35\xe5\x78\xb4\x09\x08\x99\xd7\xb8\x7f\x13\xb4\x0b\x60\x0e\x47\xd8\x81\x7f\x92\xbe\x10\xf7\xa0\x3a\xf7\x8c\x5f\xc4\x50\x79\x56\x7e\x35\xc5\xd2\xef\xd1\xbe\x9d\xd3\xc9\xf8\x4d\x2e\xe5\x16\x64\x2a\xc8\xc6\x85\xed\x08\xc6\x56\xcc\xd7\xd0\xb0\x9e\x03\xc9\x4d\x65\xcb\xe0\xe2\x82\x14\x35\xe6\xab\xa8\x25\xae\x75\x63\xb5\xb7\x36\x26\xac\xeb\xae\xa2\xad\x20\x25\x0b\x81\x52\xaf\xd3\x52\x6e\xf5\x42\x90\x08\x8b\x24\xc5\x2a\xbc\x06\x0f\x4c\x6e\xeb\x1c\x36\x49\x68\x9c\x19\xd5\xaf\xca\xc5\x36\x74\x87\x07\x4a\x7e\x83\x1a\xde\x91\x26\x35\x6e\xa1\x39\xe2\xc4\x82\x9f\xca\x17\x6c\x25\x9d\x3d\x73\xef\x5c\xbb\x83\x27\x9b\x44\xe1\x4a\xb1\x79\x9d\x76\x5c\x60\xee\x5c\x30\xd1\xaf\x0f\xdc\xaa\x8d\x8e\x46\x52\x83\x3b\x70\x2d\xd3\x1e\xd6\xe1\xef\x56\x62\x6e\x2d\x1e\xa9\xde\xba\xee\x0a\x85\x71\x25\x38\x05\xb9\xc8\xfe\x45\x05\xd0\x73\x60\x66\xa7\xc0\x6e\x06\xb0\x3a\x85\xcd\x60\xfc\xaa\xe9\x5f\x49\xf0\x8a\xad\xb1\x66\x00\xcb\xc4\x74\x64\x18\xf7\xa8\x89\x7b\xc6\xb4\x19\xc0\x72\xca\xa7\xd8\xcc\x93\x4a\x47\xfb\x65\x45\xf7\x35\x60\xf0\xe0\x4f\x8f\x1f\xbb\x25\x9f\xe0\x67\x49\x5d\x23\xf9\x53\x19\x90\x90\xd1\xc4\x0e\x09\xc1\x62\xdf\x8a\x36\x50\x59\x62\x12\x8d\xce\xd9\xd1\x2c\xdc\xfd\x27\x45\x68\x60\x46\x93\x0b\x53\xe1\x68\x90\xd8\x19\x60\x33\x07\x46\x3a\x02\x6c\x9d\x64\x1f\x8e\xaf\x71\x9b\xc3\x03\x6c\x87\xc4\xcb\xce\xe8\x8a\xcb\xf3\x37\x3f\xf4\x86\xcc\x30\xe9\x5d\xd5\xb7\x91\xc4\xa1\xd0\x0e\x27\x23\x9d\x18\xd9\x9e\xe1\xb7\x8e\xe8\x9b\x05\x3a\xf1\x9d\x13\x16\xb9\x53\x4f\x88\x80\x9d\xa8\xd0\x9b\xbf\xee\x8e\xf0\xd5\xaa\x09\xc1\xd5\x98\x38\x3c\x73\xaa\x1e\x3d\x58\x3c\x22\x37\xa0\x1a\xc3\x8e\xcd\x01\xca\x22\xdb\xc5\xcd\xe3\x83\xa3\x80\xbd\x41\xc0\xbe\x18\xa0\x43\xda\x9d\x11\xc0\x22\xeb\x08\x01\xb6\x28\xe4\x12\xa5\x71\xfe\xe4\x61\x75\x2a\x7a\xd4\x38\x16\xed\x08\xa0\xe6\xd1\xaf\x3d\x62\xed\xbb\x23\xed\x6c\x10\xd4\x22\x40\x87\xc5\xda\x5b\x87\xc6\xc6\xd6\xdb\x95\x70\x10\xf4\xd9\x3b\xbc\x4e\x37\x50\x72\xe1\x79\x0e\x3b\xa8\x50\x38\x10\x39\x26\xa0\x97\x47\xa2\xfd\x6a\xca\xd7\x43\x9b\x60\x6a\x92\x59\x28\x6a\xa8\xbc\xd5\x88\x82\x3d\xa6\xb5\x47\xac\xbd\xe7\x50\x99\x0d\x1d\x0d\x1d\x23\x1b\x8a\xb1\x9b\x28\x26\xf4\x23\x76\x70\x55\x54\xaf\xfb\xdb\x6c\xd7\xef\x5f\x73\xe4\xe1\xbd\x66\xe7\xb3\x51\x00\x20\xfb\xcd\x56\x12\x4a\x2c\x97\xee\xdc\x10\xef\x8d\x4e\x52\xd9\x3c\x64\xfd\x72\xa4\x82\xcf\x43\xd7\xe2\x9b\x38\xea\x7b\x7e\x6f\x03\x9c\xa6\xe1\x5d\xf3\x2e\x29\x34\x13\x27\x27\x93\xe1\x10\x71\x15\x1d\xee\xf2\x02\x33\x8e\x22\x0c\xf7\xef\x2d\x0e\xb3\xbb\x9a\x29\x43\xc5\x00\x06\x22\x99\x04\x44\xc9\x77\xe1\x8d\x18\x9f\x1b\xf3\x6c\xbf\xd9\x0f\xf4\xb6\x4e\xed\x66\x7a\xdb\x26\xcd\xbb\x22\xd9\x0e\x5d\xfb\x02\xd7\xaa\x3a\xc8\xbd\x5f\xcc\x98\xda\xe1\x7e\xf8\xd6\x2d\x7a\x54\x5e\xd5\xf5\x45\x4a\x47\xcf\xe4\x8a\xf8\x89\x6f\x9d\x42\x4a\xf8\x4d\x6c\xd8\xf9\x6f\x36\xc6\x2e\xe7\xae\xab\xb4\x22\xa5\x77\x81\x01\x03\xdb\xf8\x19\x34\x89\xab\xbb\x30\x65\xc9\xb1\xdc\x08\x5d\x18\x17\x15\x19\x4e\xec\x3b\xe7\x76\x86\x3e\x78\x26\x59\xe2\x14\x1f\x0c\x20\x39\x55\xf5\x32\xad\xad\x3b\x3e\x06\x63\xef\xee\x1e\x2c\x40\xd6\x02\x6a\xf0\x74\x2d\x52\x77\x82\x86\xa1\xe3\xdd\x59\xf4\x05\xdb\x2a\x2b\xdb\xa8\xcd\x98\xf2\x89\xd0\x01\x84\xba\xf2\x44\x75\x3e\xaf\x8d\x29\x27\xbd\x1a\xbf\x9a\xde\xa6\x70\x4d\x8a\x99\x85\xbe\x5c\x43\x9b\x75\xa8\xf9\x10\xeb\x18\xb0\x99\xdd\xe3\xdc\xc5\x1c\x58\x3b\x80\x1a\x0c\xe3\x0f\x27\x87\xbb\x61\x69\x2c\xe0\x51\x61\x14\xd6\x01\x74\xa4\xcd\x10\x21\x71\x04\x33\x05\x20\x26\x97\xba\xe4\xfb\xd2\xdd\x4d\x4c\xf6\x56\x6d\x0f\x63\x81\x62\x79\x5f\x51\xbf\xcf\x36\x3f\xde\x91\x19\xaa\x67\xa8\x4e\x8e\xd4\x1b\xac\x92\x2c\x04\x61\x29\x64\xe5\x08\x75\xb1\x32\x15\x32\xe2\xfe\xf1\xe9\x20\x8c\xe2\xc6\x31\x01\x48\x31\xf0\x5c\x9d\xbc\x4a\xd7\x51\x89\xa5\x1d\x8b\x0d\xc5\x20\xd1\xd0\x8c\x12\xb0\xc9\xd5\xd1\x89\x8c\x48\xd3\xef\xde\x9c\x67\xbd\xfb\xb6\x33\x66\xc0\xb4\xb6\x79\xac\x5d\x29\x97\xfe\x9c\x4b\x7f\xd2\xa5\x3f\xeb\xd2\x9b\x76\xe1\xab\x03\x3b\x0a\x95\x6b\x89\x97\x2f\xf7\x57\x3a\x52\x91\x4c\x8c\x25\xd5\xc8\xea\xc1\x35\xd6\xc3\x22\x65\x2b\xd5\xf3\x94\x4f\x44\x35\xef\xc6\xf7\xf8\xba\x7d\x70\x0d\x9e\x6e\x96\xe0\x83\x70\x55\x90\xdf\x24\x6b\xa3\x24\xa6\x7d\x61\xf0\xce\x2b\x04\xed\xbf\x1f\xb0\x6f\x70\xfd\xf5\x93\x8b\xf7\xf7\xbc\x42\x90\xba\x61\x7f\xc5\x01\x09\xfb\x5b\x2e\x56\xa1\x7f\x1a\x82\xaf\x54\x29\xf2\x6b\xfe\x6d\xef\x83\x16\x13\xac\x7d\x15\xf5\xbe\x77\x9e\x74\xdd\x5e\xf2\x7e\x33\xb3\x0c\x80\x38\xa0\xf4\xda\x68\x78\x8b\x55\xb9\x33\xbe\xbd\xb1\x75\x41\x49\x50\xbf\xd2\x71\xd2\x7d\x89\x09\x4e\xc1\x6d\xc9\xe7\x88\x5f\x15\x97\x34\x59\x7f\x5f\x73\x08\xad\xc6\x6e\xc4\x9d\xcb\x3f\x1c\x36\xa8\x5f\x8a\x8e\xc7\xbb\x9d\x05\xdb\xf7\xd2\x46\x5a\xa3\xdd\x97\x36\x56\x90\x77\x9e\x1b\xaf\xfd\xe3\x14\x81\x25\xb0\x3d\x3b\xee\xac\x75\xcf\x65\x8d\xc3\x10\x24\x87\xf8\xef\x77\x67\x63\x35\xaf\x7d\xef\x6c\x74\xee\x6a\xac\xcf\x19\x0f\x3c\xdb\x69\x1f\x74\x5f\x23\x2e\x54\xcf\xa5\x39\xd6\x23\x6c\xb5\x71\x82\xe4\x55\x8b\xae\xa3\xd0\x07\x5c\xe8\xe8\xac\xf2\x6f\xba\xd0\xd1\x81\x63\x8f\xbe\x1d\xf4\x2f\x0b\x80\xf6\x38\xea\xe3\xa8\xd6\x35\x8d\x07\x5e\x04\xe8\x84\xa6\x98\xa8\x8d\xab\x4c\xba\xaf\xe6\x28\x2e\x45\x00\x82\x88\xe8\x8f\x48\xb5\x4b\xbb\xba\x6e\x2f\x19\x28\x7e\xc4\xf3\x17\xcf\xf9\x24\x4b\x67\x49\xd3\xc0\x4d\x8a\x0f\xf7\xba\x80\x6f\x5c\xe3\xa8\x1d\x55\x26\x34\xe1\x3d\xaa\x4c\xa8\xaa\x24\x9d\xfd\x03\xb3\xa7\x12\x38\x28\xec\x7a\x99\x0b\xf3\x5e\xe1\xf5\x07\x14\x2c\x4d\x89\x31\xe4\x5f\x0c\xa3\x4c\xfc\x06\xc7\xc6\x88\x25\xd5\x6c\x63\xa0\xbd\x88\x50\xdc\xc9\x71\xfa\x5a\xf1\x49\x07\xde\x7d\x77\x62\xe2\x35\x40\x26\xb3\x0a\xfd\x5d\x0d\xb6\xa3\x08\xc5\xd0\xb9\xc6\x83\x3c\x3e\x4e\xc1\x1d\x78\x6a\x6f\x0c\x9a\x57\x60\xfd\x43\x12\xe2\x38\xa3\xfb\x27\xc4\x9d\xde\x3b\xae\x67\xc3\xd9\xfc\x6f\x5f\xcf\x56\x61\xd7\xb6\x22\x7a\x15\xd0\xdb\xcd\x2c\x8e\x8a\x55\xa5\x7f\x7e\xdb\xdd\x6c\xfb\x58\x1f\xf7\xb9\x73\xcd\xe4\x60\x87\xef\x5d\x6b\x69\x09\x3b\x3b\x49\xc3\xda\xcb\xd7\x38\x21\xbb\xc3\xa0\x19\x3b\x99\xd6\xda\x56\x70\xd3\xab\x3d\x7a\xa5\x96\x58\x6d\xe6\x55\x9b\x69\xd5\x7f\xe3\x0b\xd4\xc8\x00\xba\xef\x05\x6a\x3d\x54\xe9\x94\x7d\xfb\x5d\xa0\x66\xf4\xc2\x1f\x76\x55\x5a\x0f\xca\x7b\xa8\x2a\xd5\xaf\xab\xb0\xfa\x65\x0f\x35\x04\x0d\x6c\x26\xa6\xa9\x8e\x00\x44\x5b\x23\xc1\xcb\x3b\x07\xba\xe9\xcc\x27\xbb\x4c\x67\x2c\xdd\x6f\x7e\x0b\x28\xd1\x81\x07\x0a\x3e\x47\x72\x39\xc3\xe7\x49\xcf\x30\x26\x31\xd3\x06\x62\xea\xef\x0c\x22\x1d\xc9\x8c\xce\x0b\xe0\xf6\x55\xca\x5d\x59\x86\x61\xad\xdc\x7d\xd3\xaa\xcb\xc3\xa2\x9b\xbb\x55\x73\x67\xcc\xbf\xa6\x99\x1b\x17\xc5\x99\x7f\xf1\x52\x92\xee\x4e\x7a\x3c\xec\x51\xd6\x38\x39\x23\xe9\x81\x69\x9a\xba\xfa\x98\x70\xfd\x7d\x14\xf6\xbe\x36\xd6\xae\x50\xff\x4e\x05\x6d\x07\x22\xc0\x16\x9c\xef\x2c\xc3\xbf\x00\x58\xd9\x32\x0f\xa1\x75\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 29117, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x3a, 0xa9, 0xff, 0x2e, 0xc4, 0xbf, 0x77, 0x3d, 0x7f, 0xdb, 0xb1, 0x85, 0x70, 0x5e, 0x91, 0x5a, 0xc7, 0x80, 0xb9, 0x3d, 0x9b, 0x92, 0x23, 0x2a, 0x3b, 0x65, 0xf3, 0xb8, 0xa1, 0x5a, 0xcb, 0xc0}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 30113, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xaa, 0x4c, 0x32, 0x4a, 0x2f, 0x24, 0x79, 0xa0, 0x3f, 0xa3, 0x41, 0x23, 0x40, 0xa8, 0x67, 0xa6, 0x9a, 0xd8, 0x7a, 0x58, 0x9c, 0x7, 0x95, 0xb1, 0x79, 0x5a, 0x61, 0x21, 0xce, 0xf1, 0x44, 0x2a}}
 	return a, nil
 }
 
-- 
2.43.0


From d3b91a213a6f14ec600b1ec22456f727b58b355c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:31 +0000
Subject: [PATCH 20/42] fix: the body carries the fields bound to it and no
 others

---
 gengokit/httptransport/httptransport.go       | 19 +++++++++++
 .../NAME-service/baron/NAME.pb.baron.go.tmpl  | 33 ++++++++++++-------
 gengokit/template/template.go                 |  6 ++--
 3 files changed, 43 insertions(+), 15 deletions(-)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index bcd4ada..ee3c7eb 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -273,6 +273,25 @@ func (b *Binding) PathSections() []string {
 	return rv
 }
 
+// BodyFields returns the names of the fields which this binding has in the
+// body.
+func (b *Binding) BodyFields() []string {
+	var rv []string
+	for _, field := range b.Fields {
+		if field.Location == "body" {
+			rv = append(rv, field.QueryParamName)
+		}
+	}
+	for _, oneof := range b.OneofFields {
+		if oneof.Location == "body" {
+			for _, option := range oneof.Options {
+				rv = append(rv, option.QueryParamName)
+			}
+		}
+	}
+	return rv
+}
+
 // GenQueryUnmarshaler returns the generated code for server-side unmarshaling
 // of a query parameter into it's correct field on the request struct.
 func (f *Field) GenQueryUnmarshaler() (string, error) {
diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index 83d7c3f..2a74bb2 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -472,6 +472,17 @@ func unmarshalField(msg proto.Message, name string, text string) error {
 	return nil
 }
 
+// copyFields sets the named fields of dst to what they are in src.
+func copyFields(dst, src proto.Message, names ...string) {
+	d, s := dst.ProtoReflect(), src.ProtoReflect()
+	for _, name := range names {
+		field := s.Descriptor().Fields().ByTextName(name)
+		if s.Has(field) {
+			d.Set(field, s.Get(field))
+		}
+	}
+}
+
 // pathField returns the named field of msg in the form it has in a path.
 func pathField(msg proto.Message, name string, err *error) string {
 	text, ok, e := formatField(msg, name)
@@ -554,16 +565,18 @@ func queryList(values []string) []string {
 	func DecodeHTTP{{$binding.Label}}Request(_ context.Context, r *http.Request) (interface{}, error) {
 		defer r.Body.Close()
 		var req {{GoName $binding.Parent.RequestType}}
+		{{- if $binding.BodyFields}}
 		buf, err := ioutil.ReadAll(r.Body)
 		if err != nil {
 			return nil, errors.Wrapf(err, "cannot read body of http request")
 		}
 		if len(buf) > 0 {
+			var body {{GoName $binding.Parent.RequestType}}
 			unmarshaller := protojson.UnmarshalOptions{
 				AllowPartial:   true,
 				DiscardUnknown: true,
 			}
-			if err = unmarshaller.Unmarshal(buf, &req); err != nil {
+			if err = unmarshaller.Unmarshal(buf, &body); err != nil {
 				const size = 8196
 				if len(buf) > size {
 					buf = buf[:size]
@@ -573,7 +586,9 @@ func queryList(values []string) []string {
 					nil,
 				}
 			}
+			copyFields(&req, &body{{range $name := $binding.BodyFields}}, "{{$name}}"{{end}})
 		}
+		{{- end}}
 
 		pathParams, err := pathVars(r)
 		if err != nil {
@@ -799,25 +814,19 @@ func CtxValuesToSend(keys ...string) httptransport.ClientOption {
 
 		r.URL.RawQuery = values.Encode()
 
-		{{- if ne $binding.Verb "get" }}
+		{{- if $binding.BodyFields}}
 		// Set the body parameters
-		toRet := request.(*{{GoName $binding.Parent.RequestType}})
-		{{- range $field := $binding.Fields -}}
-			{{if eq $field.Location "body"}}
-				{{/* Only set the fields which should be in the body, so all
-				others will be omitted due to emptiness */}}
-				toRet.{{$field.CamelName}} = req.{{$field.CamelName}}
-			{{end}}
-		{{- end }}
+		var body {{GoName $binding.Parent.RequestType}}
+		copyFields(&body, req{{range $name := $binding.BodyFields}}, "{{$name}}"{{end}})
 		marshaler := protojson.MarshalOptions{
 			AllowPartial:    true,
 			UseProtoNames:   true,
 			UseEnumNumbers:  true,
 			EmitUnpopulated: true,
 		}
-		data, err := marshaler.Marshal(req)
+		data, err := marshaler.Marshal(&body)
 		if err != nil {
-			return errors.Wrapf(err, "couldn't encode body as json %v", toRet)
+			return errors.Wrapf(err, "couldn't encode body as json %v", &body)
 		}
 		r.Body = ioutil.NopCloser(bytes.NewBuffer(data))
 		{{- end }}
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index 5d3096e..b7b4621 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x02\xff\xed\x3d\x6b\x8f\xdb\x46\x92\x9f\xa5\x5f\xd1\x11\x62\x9b\x9c\xd3\x70\x9c\x05\xee\xb0\x37\xc1\x1c\xe0\xc7\xc4\xf1\x6e\xfc\x58\x7b\x9c\x7c\x30\x0c\x2f\x25\xb5\x46\xdc\xa1\x48\x9a\xa4\x66\x3c\xab\xcc\x7f\xdf\x7a\x75\xb3\xf9\x94\x34\x49\x0e\x8b\xc3\x19\x48\x4c\x91\xdd\xd5\xd5\xd5\xd5\xf5\xee\xf6\xc9\x89\x7a\x96\x2e\xb4\xba\xd4\x89\xce\xc3\x52\x2f\xd4\xec\x56\xcd\xc2\x3c\x4d\x02\xf5\xfc\x8d\x7a\xfd\xe6\x42\x9d\x3f\x7f\x79\x11\x8c\x4f\x4e\xd4\x3b\x9d\x6f\x92\x24\x4a\x2e\xb9\x81\xba\x89\xe2\x58\xa5\xd7\x3a\xbf\xc9\xa3\x52\xab\x72\x15\x15\x6a\x19\xc5\x9a\x1a\xff\xac\xf3\x22\x4a\x93\x53\xb5\xdd\x06\xf2\x7c\x77\xe7\x7c\x50\xcf\x61\x34\xf7\x2b\xfe\x86\x16\xe3\x2c\x9c\x5f\x85\x97\x1a\xbf\xbc\xe5\xc7\xd7\xe1\x9a\xbe\x40\xe7\x0b\x33\x86\x9a\xa7\x49\x19\x46\x49\xa1\xd6\xba\x5c\xa5\x8b\x42\x95\xa9\x5a\x87\x57\x5a\x45\xc9\x22\xba\x8e\x16\x9b\x30\x56\x3a\x59\x64\x69\x94\x94\xd0\x25\x4f\xd7\xaa\xd0\xf9\x75\x34\xd7\xc5\x14\x21\xe5\xfa\xcb\x46\x17\xa5\x0a\x93\x05\x3c\x17\x59\x9a\x14\x30\x85\xdb\x4c\x13\x24\x6c\x8a\x33\x4a\xe1\xa5\x85\x32\x55\x61\xa1\x6e\x34\x4c\x1a\xfe\xd6\xc9\x1c\xe8\x96\x17\x08\x00\xe1\x2d\xb4\xfc\x5e\xa6\xb9\x74\x24\x68\x53\x7a\x11\x22\xa5\x96\x2a\xdd\xe4\xaa\xd8\x64\x59\x9a\x23\xa5\xcb\x3c\x4c\x0a\x7c\xc6\xe1\xa2\x30\x8e\xfe\x19\x96\x40\x08\x84\x06\x7d\xd6\x61\x59\x04\xe3\x71\xb4\xa6\x16\xde\x78\x34\x99\xdd\x96\xba\x98\xc0\x03\xce\x5d\x7f\x2d\xf1\x91\xd0\x80\x25\x39\xf9\x47\x91\x26\xf8\x62\xb9\xa6\xf7\x51\xca\xff\x3f\x89\xd2\x4d\x19\xc5\xf8\x23\xd1\xe5\xc9\xaa\x2c\x33\xf3\xbc\xc9\xe9\x75\x51\xe6\x00\xef\x5a\x1e\x01\x14\x0c\x01\xcf\x97\x51\xb9\xda\xcc\x82\x79\xba\x3e\xb9\x4c\x8f\xaf\xa2\xf2\x04\xff\x33\xb4\x80\xd6\x61\x72\x9b\xcd\xd4\xe4\x32\x4d\x2f\x61\xc9\x2f\xd3\x38\x4c\x2e\x83\x34\xbf\x3c\xc9\xf2\xb4\x4c\x67\x9b\xe5\x09\xcd\xff\xe4\x2a\x49\x6f\x92\x13\x6a\x0d\xbd\x16\x9b\x9c\x26\x79\x40\xd7\xaa\x0b\xf4\xd7\xeb\xac\x3c\x64\x5c\x69\x0f\x3d\x97\x91\x8e\x17\xeb\xb0\xb8\x3a\xa0\xb7\xd3\x07\x20\x00\x79\x36\xf3\xf2\x80\xee\xa6\x03\xf4\x2d\xa3\x35\x70\x5b\xb8\xce\x0e\xe8\xee\xf4\x01\x08\x37\x79\x98\x65\xc0\x60\x07\x00\xa8\xba\xb4\x97\x34\x87\xcd\x1b\x9e\xac\x37\x5f\x27\xf5\x2f\xd9\xd5\xe5\x89\xce\xf3\x34\x27\x4e\x1b\x18\xc8\x72\x1e\xbd\x31\xec\x37\xd0\x81\x1e\x10\x91\xed\xf6\x58\x45\x4b\xa5\xbf\xa8\xe0\x59\x9a\x2c\xa3\xcb\xe0\xc2\xee\x84\x09\xec\x94\x89\x9a\x24\xc0\xfc\x13\x05\x9b\xbe\x86\x1b\xbe\x3d\x06\x9e\xc6\xbf\x61\x88\x09\x83\x02\x9e\xc4\x86\x7b\x40\xbd\xcc\xb3\xb9\x81\xda\xc2\x93\x3e\xf6\x7e\x39\x01\x31\x13\x2e\xc2\x32\x6c\x0e\xba\xf7\x90\xf8\x54\xed\xf8\x9e\xfd\x65\x1b\x18\x74\x9c\xb1\x70\xef\x1e\x00\x40\xb6\xfa\x41\xc4\xc6\xa7\x03\x86\xa0\x8e\x2e\x8e\xfe\x78\x3c\xbe\x0e\x73\x94\x56\x9f\xd5\x99\x02\x59\x14\xbc\xcf\x40\xa6\x94\xfc\x9b\x04\x18\xa0\xb1\xce\xc2\x5c\xf3\x2b\x91\x3e\xc1\x93\x32\x8d\xf8\x4d\x6d\x9a\xc1\x6b\x7d\xf3\x1e\x65\x71\xce\x1f\x59\x9a\x05\xaf\xd3\xec\x59\x0c\x22\xd6\xbe\x05\xa0\xd9\x2d\xff\x60\xe6\x0d\x7e\x01\xde\x1f\x8f\x40\x94\xca\x7a\x1a\x36\x64\xa9\x8c\x4d\x49\x24\x05\x4f\x12\xea\x57\x09\x99\xe0\xb9\x3c\xe2\x6b\x11\x1f\xc1\x39\xfe\x8d\x2f\xcc\x96\x0e\xde\xd3\x03\xbe\x72\xb6\x69\x70\x61\x9e\xf1\x43\xb5\xfd\xb0\x35\x6c\x95\x9f\xc3\x78\x43\xf3\x76\xe4\x4a\xf0\x03\x3e\xbf\x82\x67\xa4\xde\xc9\xd1\x5e\x7f\xd4\xb9\xd5\x6c\x47\x7b\xff\x39\x21\x0d\xfa\x32\x51\x21\xab\xb7\x7c\xaa\xa2\xf2\x51\xa1\x36\x85\x5e\x6e\x62\x52\x53\xcb\x4d\x32\xc7\xa9\x83\x0e\x5c\x85\xa5\x4a\x34\x6a\xa9\x54\xa5\x19\xd9\x06\x2a\xc5\xbe\xf0\x7c\x6c\xd4\x00\x02\x9c\x85\x45\x54\x04\xea\x07\xe8\xae\xbf\xc2\xcc\x63\x3d\x55\xb7\xe9\x46\xad\xa3\xcb\x55\xa9\xb2\xb0\x40\x15\xe9\x20\x0c\xf0\x42\x3b\x10\x8f\x03\x6b\xb3\xd8\x80\x62\x46\x70\xd0\x16\x39\x20\xf8\x11\xf4\x6a\x8c\x38\xde\x00\x13\x2a\x1d\xce\x57\xa2\xe9\x95\x67\x46\xf7\xe1\x5b\x0e\x18\x6e\x32\x06\x5a\x64\x7a\x1e\x2d\xa3\x39\x0c\x5a\xae\x02\xe5\xbd\x24\xfc\xc0\x60\x00\xf8\xb3\x70\x16\xdf\x42\x9b\x75\x04\xcb\x43\x56\x02\x68\xec\x22\xba\x4c\xb0\x6b\x94\x5c\xa7\x57\xa8\xee\xb5\x7a\xcf\x36\x82\xb5\x2a\x08\x45\x8d\x70\xaa\x19\x30\x0f\x20\x08\x43\xc9\xc0\x87\x16\x96\xba\xf3\x38\xd2\x49\x59\xa7\x2e\x8c\x32\x4f\xe3\x58\x53\x3f\x63\xa0\x00\x46\xc0\xfc\x0c\x0e\xe6\x51\x99\x2b\xf0\x3f\x98\x10\x02\x2c\x80\x6d\x62\x36\x25\x98\x56\x11\x52\x78\xad\x89\x92\x0e\xbe\xd0\x43\xe7\xcb\x70\xae\xfb\x56\x02\x81\xd9\xc1\xba\x8d\xa4\x0d\x0e\xa6\xea\x12\x04\x37\xe0\x33\x99\x0f\xc8\x81\x59\x94\x10\x9d\xd6\x82\xa2\xb3\xb0\x53\x31\xa5\xca\x4d\x9e\xc0\xd4\x71\xc6\x88\xe0\x1c\xa6\xa9\x73\xb4\x98\x42\x83\x6c\x30\xa6\xe9\xb4\x08\xba\x1d\x8f\x3e\x24\x76\x7e\x7a\x01\x16\xa0\xe9\xc1\x26\xa0\x48\x82\xed\x16\x50\x04\x0b\xf1\xdb\x48\x9d\x9e\x29\xdb\xe6\x15\x2f\x19\x8b\xe5\x6f\x23\xe9\x63\x46\x51\xf0\xc7\x4c\x35\x30\x2f\x01\x14\x0b\x2e\xb6\x2e\x2d\x46\xbb\x87\x40\x06\x06\x4e\xac\xba\xf8\xca\x19\xd4\x9b\x97\x5f\x95\x58\x69\x28\x76\xf1\xef\x29\x32\xcc\xd1\x76\xfb\x22\xc5\x36\x00\x39\x78\xc7\x26\xe8\x05\x10\x43\xfa\xf9\xca\x6b\xb4\x60\xc3\xd4\x69\x32\x65\x01\xe7\x23\xb5\x8c\xdd\x4a\xef\x10\x51\x1d\x74\xcc\x1c\x91\xc1\xc1\xfd\xf1\x08\x15\x01\xb4\xfc\xe6\x4c\x25\x51\x8c\x10\x46\xb2\x5e\xf0\x93\x80\x8c\x47\x77\x63\xf3\xce\x40\x0f\x76\xe2\xe4\x4f\x11\x00\x10\xd1\x90\x13\x89\xf9\x0a\xb7\x99\x4b\x51\xda\xc8\xdf\x82\x18\x41\x8a\xde\x61\xe3\x63\xe5\x52\x19\x3e\xf5\x11\x1a\x61\x75\xcd\xac\x40\xa2\x3b\xdd\x5c\x36\xf1\xdb\xcb\xcd\x34\xa3\xc9\x21\xd8\xee\x55\x32\x8e\x81\xdd\x51\x5b\x5c\x16\xeb\x22\x38\xaf\x99\xec\xd5\x72\x00\xec\x2f\x38\x11\x81\xd0\xa2\x5b\x6b\xb5\xa1\xcb\xb5\x5d\xbb\x22\x68\x30\x10\xa1\x82\x6d\xda\xab\xd6\x5e\x36\x5c\x37\xf3\xf6\x9a\x97\x63\x74\x37\x66\x22\xf3\x9a\xb8\x6b\x83\xca\xf1\x49\x1c\x9f\x7f\x9d\xeb\xac\x24\x3d\x55\xb0\x88\xb5\x94\x22\x0d\x85\x2e\x8b\xec\xcd\x6a\xb3\xd2\x32\x92\x6c\xea\xf0\x0b\x82\x57\xd1\x02\xc4\xf6\x0d\xe8\x77\xf2\x02\x3f\x14\xc6\x2f\x44\x27\x28\xcb\xe2\x5b\x14\x31\x28\x36\x4b\x04\xbe\xb6\xad\x49\x2f\x68\x58\xb6\x5b\xbb\x6c\xb8\x5f\x50\x82\x14\x46\x6a\x00\xbc\x37\x19\x6a\x0d\x94\x9c\x53\x47\x70\xcd\x41\x0e\xcd\x34\xe9\x1a\x10\xa3\xd0\x0d\x7c\xd8\x04\xc9\x0e\x30\xe1\xbd\xfe\x3a\x8f\x37\x0b\xf8\x42\x5e\xe0\x4c\x23\x0a\xac\x9b\x17\x41\x8b\x1a\x5e\x85\xd3\x54\x4d\xde\x97\x61\xb9\x29\x26\xf0\xf4\x16\x7a\x4d\x7c\xbb\xef\x8f\x9c\x8d\xdf\xd7\x5f\x75\x50\x65\x5a\x61\x13\x04\x01\x3b\x5c\xc4\x3c\x51\x22\xaf\x81\x15\xd6\x61\xf6\x91\x3f\x7d\x62\xf2\x6f\xef\x70\xd5\x9b\x1b\xa6\x4b\xf2\x8d\x46\x13\x87\x8d\x26\xe0\x60\xdf\x4d\xa5\xab\x98\x91\xc0\x01\x23\x5c\x8d\xcf\x88\x0a\xb1\x2b\x81\xb4\x68\x6d\x99\xe3\xe0\x73\x7a\x85\x9f\x0d\x62\x1f\xf5\xd7\x4f\xdf\xab\x6f\xe0\x25\x71\x60\x16\x26\xd1\xdc\xab\x2c\xbc\xa5\x37\x39\x37\x20\xec\x0a\x3e\x7a\x50\x3c\x52\x8b\x14\x56\x37\x49\x4b\x18\x02\x94\xef\xf7\xb0\x9e\xda\x5d\x78\xcb\x3b\x64\xd2\x23\x52\xbe\x2f\xfc\xbc\xd0\xb1\x2e\xb5\x67\x30\xa0\x6f\xd5\x04\xe0\x75\x85\xbe\x25\xdf\xfe\x84\x82\x49\x22\x88\xb3\x33\x55\x23\x19\x4f\x6f\xd4\x29\x4a\xc1\xbc\xac\x30\xf7\x3a\x9b\x20\xee\x84\x7c\x8d\xe4\xbc\xed\x7e\x0a\x67\x30\xa3\x45\xc5\x0d\x1c\x42\xb9\xd4\xa5\xe1\x5d\xe4\x77\x4b\x3d\x62\xe1\x9b\x95\x4e\xec\xd7\xd4\x61\x57\x01\xc6\x5c\x37\xe5\x5d\x26\x1b\x61\xc3\x8d\x15\xc7\x65\x42\x0e\xee\x80\x5d\x04\x46\x0d\xfc\x45\x66\x96\xc3\xa5\x37\xab\x08\x76\x3e\x76\x2d\x60\xe8\x0e\x14\x44\x93\x4b\x6f\x63\xc7\xa4\xb9\xe8\xf1\xf6\xac\x48\xb8\x32\x03\x4f\xdb\x52\xb8\x43\x30\x8f\xfb\xe6\x75\x6f\xd9\xd4\x42\x6a\x2a\xf3\x24\x8a\xe7\x7a\xae\xa3\x6b\xb6\xf8\x68\x8a\x00\xcc\x9d\x77\x00\xa6\x8a\xb6\x60\x1c\x28\xf4\xc1\x18\xa2\x76\xdf\x23\xa2\xc8\x91\x0b\xf0\x11\xa3\x98\x8c\x46\xb3\x9d\x28\x98\x23\xc6\x6e\x18\x47\xe5\x6d\x30\x24\x42\x6a\x73\x77\x25\xc9\xc1\x14\xfd\x7f\x39\xf3\x7f\x47\xce\xd4\xba\x4d\xd5\x41\x62\x67\xff\x00\xc5\xbe\xae\xe7\x8b\x77\x6f\x9f\xb1\x85\x75\xb0\xef\x89\x66\x9c\xd3\x1d\xc3\xb5\x45\x65\x0c\x54\xfa\x3c\xbc\x86\x6d\x04\x0e\x9b\x66\xb7\xe1\x12\xba\xa8\x1e\x67\x20\xa8\x0c\xc4\x0a\xb2\x57\x81\x72\xdc\x93\x34\x63\xd7\x16\xf6\x43\x2d\x16\x13\x70\x27\x36\x2d\xfc\xbe\x81\x70\xb9\x0a\xa7\x61\x81\x0b\xfe\xf1\x53\x3f\x24\x5c\xde\xae\xaf\x4f\x35\x30\x95\xf6\x10\xdb\x57\x12\x53\xba\x48\xc5\xfa\xf4\xa7\x64\x80\xd7\xc7\x39\x43\xc3\x09\x66\xe4\xd5\x5e\xdb\xf9\xc0\x74\x7c\x0a\x74\x6c\xb7\xea\x22\xfd\x29\xbd\x01\x5c\x6b\x33\xa0\xc8\x8e\x98\x86\x0f\x11\x23\xc6\x63\x8b\x6e\xd2\x4e\xee\xdd\x6e\x0d\x4c\xcb\x72\xa7\xaa\x3e\x2d\x1b\xa2\xf1\x90\x07\xab\x5d\xd6\xc1\xa5\x28\x22\x46\xcf\x29\x52\x8e\xf3\x77\x5a\x88\x75\x4c\x0d\xce\x93\xce\x06\xe2\xeb\x60\x8b\x1a\x25\x80\x00\xf8\x12\x69\xd7\xa1\x73\xab\x09\x37\x5d\x67\x6b\x9c\x77\xaf\xb7\x35\xf4\x59\xcb\x39\x70\xfe\x00\x77\xb5\x45\x64\xf0\x56\xeb\x54\x96\x78\x88\x63\xd0\x8b\x9b\x25\x81\x0a\x94\x54\x0e\x8e\x18\xd5\x30\xa8\xed\x3f\xd3\x3d\xdd\xde\x42\x1d\x55\x43\xf9\xca\xf5\x72\x86\xfc\x5f\x74\x8f\x7e\x5f\x07\xf8\x33\x02\xcd\x6a\x2e\x54\x8b\x92\xbc\xed\x90\x9b\x5c\xa7\xea\x40\x4f\x38\xbb\xa7\x13\x2c\x14\x66\x96\xdf\x4d\x5e\xe8\x31\xb4\x3b\x30\x96\x15\xaa\x7a\x8c\x38\xe0\x0e\xd2\xe2\x07\x5c\x1f\x8a\x13\x61\x54\x55\xe7\x28\x4c\x69\x17\xb0\x08\x6d\xb3\x99\xf1\x76\x29\x80\x06\x76\x63\x7e\xbc\x48\xd7\x21\xb8\x50\x03\x8d\x03\xf5\x36\x8f\xd6\x61\x1e\xc5\xb7\x26\xbc\xe5\xc6\xc2\x98\x49\x86\xe6\xe1\x7d\x6e\x33\x07\xce\x05\x3e\x37\xdc\xee\xa6\xb7\x6d\x03\x1f\xe4\x68\x4b\x9f\x7d\x1c\x6d\xbb\x92\x5f\x06\x96\x89\x05\xcf\x5e\xcb\x34\x28\xa3\x3a\xd7\x89\x7b\x98\x26\x7d\x0b\xb5\x7b\x09\x4c\xaa\x32\xad\x34\x63\x57\x33\x70\xb5\xf7\x5a\xa7\xc1\x89\x74\x2d\x54\x57\x24\x64\x68\xa5\x8a\x8c\x63\x22\x7b\x07\x93\x6a\x01\xa8\xae\xd5\xfa\x51\xc7\x18\x56\x1f\xf3\x04\x3a\x15\x69\xb7\x00\x5a\x2f\x94\x49\xe3\x04\xaf\x9e\xfb\xcd\x06\x88\x2f\x8a\xd1\xab\xa9\xba\xae\x2c\xbe\xb5\x35\x55\xaf\x6b\x21\x18\xca\x46\x6b\x75\xa5\x6f\x69\xb9\x17\x68\x14\xce\x52\xf0\x3f\x80\xc6\x66\x14\xc9\xe3\x2a\xef\xca\x17\xf7\x03\x9b\x82\x03\x12\xe3\x7a\x09\x94\x50\x9c\x2e\x0a\xb7\x3e\x0b\x93\x14\x0c\xde\x30\xfe\x51\x87\x0b\x9d\xff\x15\xa0\x8b\x6f\x82\x03\x15\xa9\x04\x81\x4b\x71\xf5\x0c\x88\xf9\x5c\x9b\xd8\x87\x06\x1f\x08\x78\x81\x47\xc6\xef\x48\x8a\x33\x3b\xd7\x5f\xe0\x33\xe5\x21\x58\x1a\xe2\x5c\x3f\x3e\xfe\xe4\xef\x6c\xd8\x83\x1d\xcc\xac\x82\x20\x56\xbf\x2c\x1f\x74\x23\x1d\x75\x80\x5d\xc9\x91\xe6\x83\xed\x4a\xb0\x40\x9c\xde\x3c\x3c\x65\x1d\x24\x74\xa4\x66\xe1\xfc\x8a\x4b\x1b\x64\xcf\x70\x88\x1e\xe7\x9a\x68\xf2\xcd\x02\xf5\x92\xc4\xab\x04\xfb\x85\x5d\xa3\x59\x84\x3e\x9b\x59\x02\x89\x65\xc3\xd6\x5b\x44\x61\xcc\x01\xef\x38\x04\xbe\x07\x78\x29\x86\x61\xa9\x51\x05\x93\x19\xb4\x86\x9d\x87\x9f\x59\x7d\x06\xfc\x06\x98\x2f\x19\x30\x4e\xb9\x91\x31\x4e\xbd\x1e\x23\xc3\xdd\x72\x68\x21\x34\x63\xad\x23\xe7\x6d\x76\x75\x49\xdb\x4f\x42\xae\xf5\x22\x8b\x51\xdb\xab\xe9\x8e\xcb\x8e\x30\xcf\xd7\x21\x7a\xac\x0b\xd3\x76\xf2\x47\xdb\x6e\x83\xd2\xf1\x7a\x5a\x96\xa5\x50\x8d\xd8\x13\x09\x65\x3c\x4f\x99\x04\xa8\xf7\xae\x08\xf0\x64\xda\xf2\x50\x87\x2c\xcb\xca\xf4\xec\xd1\x5a\x8e\xe9\xb9\x43\x7a\xb1\x1b\x3c\x4a\xeb\xa6\xa9\xa5\x81\x47\x7e\x25\x81\x11\x3b\xb5\x7a\xb2\x22\xce\x6c\x20\xeb\xbb\xec\x34\xd5\xd5\xb1\x80\x6a\xd1\xf4\x14\xf3\x1e\x03\x34\x9f\x56\xe3\x8e\xee\x8c\xb0\xc5\x1d\x80\x34\x50\xb2\xa3\x7e\xbb\xf9\x32\xa0\x17\x8d\xfd\x32\xac\x17\x87\x35\xdd\xbe\xe6\x8b\xe8\xa0\x1e\xbd\xc8\x42\x61\xd8\x7e\xe9\xd7\x8b\x6c\x8c\x20\x32\x7b\x2a\x46\x6c\x6a\x8d\x18\x54\xd7\x07\xa9\xc6\x0c\x43\xe0\x6d\xdd\xe8\x2e\xdb\x6f\x37\x67\xfa\xad\x4e\x63\xcd\x0c\x5a\x9d\x7b\xda\x93\x3b\x6d\x99\x41\xab\xb3\xb6\x6a\x43\xf3\xe8\x36\x66\xba\x92\x3d\xc3\x56\xe7\x01\xe9\x9d\x61\xab\x53\xb0\x20\x25\x5b\x5c\xa4\xae\x21\xc3\x34\xef\xd2\x04\x0e\xc9\x79\xca\x03\x50\x3c\xb0\x19\x0a\xf5\xf1\x93\x09\xff\xed\x80\xb7\x57\x7a\x0c\xcc\xa1\xa3\x5d\x46\x14\xe9\x86\x2c\x8c\xf2\x6a\x70\x78\x29\xc1\xc0\xab\xca\xb4\x22\xf4\xb6\x12\x23\xbb\x36\x81\x40\x18\x36\x60\xc3\xe3\xca\x0f\x24\xe8\xe9\x7f\xaf\x4c\x40\x70\xc4\x80\x6d\x54\x84\x7e\xb2\x21\x63\x83\x60\x28\x44\x11\x26\x37\x75\xad\xb6\x23\xc0\xff\xac\xb2\x02\xff\x02\x32\xd0\x83\x77\xd3\xea\xd5\x5b\xec\xc3\x50\x31\xb4\xe2\x1b\x70\x8e\x55\x23\x91\x35\x5e\xc9\x7d\xed\x9b\x1f\x2f\x2e\xde\xde\x27\x6e\x46\x49\x7b\xa6\x72\x42\xec\x05\xf8\x4f\x30\x95\x06\x76\x18\x2a\x19\xaa\xfc\xfb\x5e\xcd\x57\x61\x5e\xe8\xf2\x6c\x53\x2e\x8f\xff\x3c\xb1\xe1\x36\x1c\x55\x42\x07\x95\x61\xa4\x56\xf2\x86\xf6\xec\xee\x30\x1c\x02\x4b\x13\x95\xe5\x7a\xa1\x97\x51\x02\x96\x14\x56\x58\x14\x4e\xec\xcd\x19\x66\x67\xf0\xad\x5e\xe0\x53\x0f\xbe\xb9\xa5\x1f\xc6\x96\x81\x75\x0c\x08\x3e\x99\xfd\xb5\xe8\x54\x47\x40\xae\x1f\x3a\xad\x7f\xd7\x67\x89\xc8\xf1\x18\x68\xd7\x16\xb5\x80\x5c\x77\xa7\x73\x14\x0b\x2c\x6e\x60\xca\xce\x8f\xfe\x2e\x4f\x96\x20\x56\xbc\xe6\x97\xf2\x59\xb5\xb4\x9e\xb3\xcc\x3e\x01\x6a\xcf\x72\xaf\x70\xa0\x44\x89\x28\xf4\x07\x8b\xf7\x16\x96\x0b\xd6\x2c\x07\xb9\x54\x52\xcd\x2a\x26\x27\x8b\x79\x98\x61\xb0\x1b\x8c\xd6\x5b\x60\x82\x5b\xb5\x4a\xe3\x05\x56\x45\x11\x2f\x85\xf3\x12\x3d\x94\x35\xe5\x09\x36\x5f\xd1\x16\x7b\x97\x6e\x70\x02\x7e\xf0\xa1\xd0\x3c\xd9\x05\x02\x06\x9b\xc6\xb1\x4f\x24\x37\x82\x9a\xa6\x67\xd1\x6c\xd3\x19\x56\xa1\x24\x97\x64\x63\x72\xb7\xe0\x29\xbf\x92\xc8\xf9\xda\xf4\xa3\x10\xb8\x34\xc7\x7a\xe1\x99\xfa\x55\x5d\xa4\x1f\xb0\xba\x0a\x4c\x3b\x3f\x20\x34\xdc\x36\xf8\xe2\x42\xaf\xb3\x98\x8a\x8a\xa1\x85\x61\xce\x9e\xea\x32\x8f\x63\xf1\x6e\xec\x52\x30\xea\x08\x60\x8a\x95\x88\xd3\x73\x86\xa4\xdc\x4d\xdd\x9a\x14\x7b\x13\x1b\xbe\xe0\x14\x5c\xcd\x94\xec\x0c\x63\x8e\x48\xe2\x34\xea\x1a\xe5\x51\x44\xd0\xda\x94\xab\x38\x5c\xc7\xb9\x3e\x0e\x6c\x12\x37\x9a\xac\x9d\x19\xf1\x17\xfc\x0e\x7e\x02\xf8\x40\xb0\x89\xc3\x4d\x5c\xa2\xee\x64\x76\x43\x60\x14\xe4\x84\xed\xdf\x94\x2c\xe0\xe5\x80\x5b\xbb\x20\x1f\x08\x7f\xb3\x13\x81\xce\xe8\x84\xc6\x99\x58\xff\xf5\x9a\xaa\xdb\x00\x14\xbd\x0f\x08\x3b\xcf\x67\x2f\x09\xa4\x0b\x65\xd2\x15\x22\x8b\xa0\xfe\xf3\xf1\x63\x70\xb9\x96\x0e\xbe\x4e\x74\x96\x77\x21\x60\x4b\x88\x41\x8b\x2c\x4f\xaf\x23\x74\xb0\x57\xbc\x3f\x39\x8b\x37\xd3\x8c\x2d\x27\x3b\xb1\x5d\x65\xe1\xb9\xa0\xa9\x0a\xac\x82\x8e\xb3\x08\x5e\x81\xb4\x5c\x85\x54\x60\x66\xf0\x5f\xf3\x2b\xe4\xc8\x62\x03\x0e\xb5\x5e\x14\xec\xd1\xfd\xe5\xfd\x9b\xd7\x52\xef\xbd\x30\xc5\xd9\x36\x63\x48\xb8\x1b\x74\x30\xf1\xda\x3f\x2d\x2e\x26\xc0\x72\xfb\x7c\x6a\x1c\x4d\x3b\xb3\xea\x63\x0d\x1a\x58\x26\x45\x09\x93\x36\x34\x63\x91\xeb\xca\x9b\x2e\xb3\xc6\xd6\xa5\x4c\xd5\x0d\xcb\xd4\x3a\x1b\x90\x39\x83\xab\x3a\x55\x9f\x71\xfb\xb9\x24\x61\x61\xf6\x0b\xd7\x2e\x6e\x69\x15\x4f\x11\x98\x59\xd0\x3b\x8e\x9e\xae\x2b\x02\xb2\xda\xc6\x26\x5e\x9d\xb6\x95\xd6\x8e\x98\x79\x9e\xd2\x90\xd2\xf5\x9c\x83\xb6\x16\x90\xe9\x87\xe4\xf6\xa0\xab\xd3\xec\xcc\xd1\xe0\xc4\x8c\x67\x16\x9c\x09\x3b\x8c\x6e\x02\x66\x1b\x90\x4f\x20\x54\xbd\x89\x88\xd5\x63\x94\xa5\x93\xa9\xab\x40\x79\x02\x2b\xc3\x64\x2e\xfe\x75\xf1\x60\xf8\xb0\x9a\x07\x85\x87\x2a\x03\xc6\xc0\x90\x96\x85\xc7\x75\x40\x4d\x5c\xc0\x36\x69\xb7\x0c\x5e\xe0\x17\xdf\xc6\x4d\x46\xb4\x35\x4e\xb9\x00\x36\x60\x76\x78\x89\x86\x68\x12\xc6\x8e\xca\x21\xdc\x8b\xf9\x00\xd6\x0e\x9b\x55\x88\x13\xf0\x33\xe8\xe8\x7c\x16\x67\xf4\x26\x20\xa6\x10\x8c\xb1\xa1\x6f\x5f\x7a\x48\x6d\x1f\xe5\x4d\xc5\x77\x2c\xfd\x72\x0f\x8b\x69\x3f\x7e\xc2\x9a\x5e\x5f\x78\x7d\xcb\x51\x81\x1b\xe5\xb2\x90\x8d\xb5\x1b\x3e\xfb\x90\xc8\xca\x22\x84\xa9\x7a\x78\x03\x58\x36\x62\xf1\x6c\xf3\x14\xd1\x3f\x11\xe7\x3f\x7f\xf7\xdf\xff\xc5\x2c\x14\xeb\x04\xfb\xf8\xea\x7f\xf8\x1b\xf3\x03\xa0\x71\xa6\xe0\xff\x1f\x4f\xf1\xe5\xa7\x7a\x2d\x14\x26\x8e\x89\x6e\x4b\x6f\x62\x23\x97\xc4\x42\x98\x33\x3e\xc5\x30\x1a\xa6\x8c\x33\x34\x9e\x54\x92\x26\xc7\x24\xe3\x8c\x5b\x80\x0d\x81\x77\x70\xcc\x5a\x68\x4b\x6a\x8c\x41\x7d\x78\x37\x0c\x9e\x68\x44\x32\xd4\x9d\xbb\x93\x2a\xa2\x56\x8a\xad\x59\xf5\x77\x1c\xe5\x54\x04\xe8\xdf\x45\x9c\xe3\x2a\x4a\x2b\x10\xbf\xc5\x32\x12\x71\x6e\xb8\x90\x04\x95\xb3\xb8\x95\xd3\x82\x05\xa3\x24\x4c\xe4\xe8\xcc\x3e\xa5\xe1\x52\xbc\xe1\x0c\x6a\x51\x65\xa1\x39\x2a\x2a\x89\x44\xd1\x1b\x23\x7b\xe1\x8f\x53\x38\x60\x0d\x7c\xc3\x23\xde\xaa\x02\xea\x2b\x97\xdb\x54\xbd\x04\x6f\x15\x54\x23\xf4\xf4\xae\xb6\x15\x1b\x86\xf4\xb3\x06\x42\x90\x12\x12\x72\xd0\x93\x2a\xaa\xad\xb5\x8b\x24\x24\xc7\x44\x24\x36\xd6\x7b\x2c\xaa\x1a\x92\x75\x71\xc9\x7e\x24\x9a\xb4\x0a\xe8\x00\x2b\x9f\xdf\x8e\x25\x2e\x7b\xb3\xd2\x14\x4d\x8d\xc8\x0b\x06\x0b\xf9\x14\xb6\x50\x18\x87\x68\x43\x15\x6c\x39\x51\x55\x02\x16\x65\x6c\xd6\xe6\x65\x94\x2b\xf8\x35\xe3\x25\x63\x50\xb7\xe5\x0a\x17\x5e\xc7\x05\x25\xb5\x51\xc6\x4d\x4d\x81\x1b\xe9\x13\x18\x61\x15\x16\x8c\x0a\xb2\x9d\x48\x7a\x67\x46\x1e\xa2\x4a\x65\xec\x60\x16\x15\x05\x2c\xf4\x94\x8b\x57\x8c\x7b\xe7\xd1\x34\x4d\x95\x08\x6c\xfc\x59\x9a\xc6\xcd\x22\x45\x36\xe8\x0a\x30\x91\x10\xd2\x3b\xbd\xc4\x5a\x1e\x94\x04\x4c\x11\xfc\x18\x3c\x07\xdb\x30\x8f\xb2\x12\xc5\x3d\xd7\xa7\xa3\xbc\x7a\x7a\x7b\x01\xf0\xd1\x1e\xf2\x70\x58\x96\xa2\xdc\xeb\xac\x95\x46\x9b\xc0\xb6\x59\x86\xb1\xd4\xa6\xe2\x66\x31\xbb\xf0\x41\x41\x13\x4d\x52\xe9\xfb\xe0\x0b\x34\x6d\x8e\xb9\x89\x63\x1a\xc8\xe7\x29\xb2\xa0\x82\xe1\xbe\x59\x83\x25\x57\x78\xd4\xd3\x57\x0f\x1f\x2a\x7e\xc4\x97\x6f\x61\x7b\x83\x92\x46\x3e\xfb\xf5\x57\x86\x1d\xbc\x2c\x7e\x8a\xc0\xf1\xaf\xbd\x79\x15\x66\x9e\xef\xf7\xe0\x2a\x75\x93\x34\x54\x03\x04\x0c\xf6\x4d\x0d\x06\xbe\xe1\x17\xb2\x1c\xf0\xca\x21\x04\xd7\xb6\xd0\x91\x07\xa6\x2a\xca\x7b\x46\x3c\x78\x69\x76\x2e\xcc\xd5\x13\x19\xfa\xbd\xfa\x86\x1b\xbb\x05\x9e\x55\xdd\x8b\xd7\x07\x00\x48\x04\x3b\xd7\xe0\x2e\xba\x24\x4d\x38\xb8\xb4\x26\x19\xe5\xf3\x0b\xd2\x45\x04\x60\x5a\x43\x07\x3e\x8b\x44\x46\xaf\x0b\x7a\xd9\x13\x3d\x46\x25\x8b\x89\x8a\x98\x3d\x89\xe3\xf4\xe6\x6d\x98\x97\x51\x18\x53\x70\x91\x06\x87\x0f\xe0\x14\x10\x4b\xe1\xba\x15\xa7\xf5\x0f\xe7\xb0\x1d\x5e\xd3\x8e\xc0\x2f\xe6\xc3\xf9\x3a\x2a\x3f\x24\x59\x9a\x6d\xd0\x4c\x5f\x9c\x9a\x0f\x80\x3f\x7a\xe2\x36\xad\x5b\x21\x67\x6d\x14\x9a\x8e\x4b\x84\x81\x8c\x6e\x9b\x15\x51\x3a\x2f\xd1\xce\x99\xaa\xc9\x3c\xdd\xc4\x8b\xe4\x51\x29\x06\x9e\x65\x4a\xdc\xa5\x74\xa8\xc9\xe5\x40\xd4\x6e\xd4\xa0\x70\x45\x20\x51\xea\x5d\x78\x23\x6c\x30\xa0\xf0\x78\x5a\x0f\x19\x44\x5b\xed\x75\x22\xec\x26\xa2\x79\x40\x5e\xb6\xe2\x23\xe2\xf5\xa9\xb6\xfc\x2c\x05\x37\x66\x3c\x16\x84\x20\xb5\x8a\x3e\xc9\x47\x15\xb1\x51\xc9\x02\x89\x84\x8d\xc8\x9d\x3a\x8c\x1d\xa2\x67\xaa\x1c\xc9\xe3\x18\x03\xb8\x8b\x88\x02\x3f\x83\x59\xbd\x10\x46\x27\x29\x55\xdf\x80\x4d\x09\xf1\x05\x85\x2d\xaa\x65\x59\x00\xea\x41\x74\xe8\x95\x5e\x2d\x86\xb7\x13\x68\xf1\xb4\x5d\x8e\x01\xae\x36\x2c\xfa\x3c\x02\x71\x9f\x2f\x3e\x24\x74\xa0\xce\xe5\xd0\x6a\x8d\xdd\x91\x9c\xb5\x96\xd9\xd6\x2a\xd7\xb6\x0f\xbe\x9c\xaa\x07\xc5\x9d\x30\x95\xcc\x0c\x96\xb0\xc5\xcf\x7d\xbc\x61\x18\xe2\x7e\xd2\x9a\x86\x71\x04\x28\x02\x5e\xbb\x62\x81\x1a\xd4\x24\xc3\x1d\xeb\x2c\x6e\xf9\x2c\xd6\x61\x2e\xdf\x5c\xbe\xac\x78\x0f\xb5\x68\x5b\xff\x76\xeb\xdc\x4e\xdd\x47\x67\x77\x98\x07\x2d\xac\x9d\xec\x87\xb4\x3a\x12\x1d\x27\x26\x16\x20\xcc\xbe\x50\x0a\xd6\x37\xd9\xd5\x0d\x55\x6a\xf7\x35\xae\xa4\x11\xdc\xa8\x51\xb0\xf4\x10\xf4\x05\xb1\x34\x16\xed\x4d\x98\x4e\xba\x3a\x5b\x66\x18\x35\xab\x85\x55\x14\xf3\x2d\x1d\x19\x9b\x34\xf4\x96\x76\x97\x12\x31\x45\x60\xe6\xa3\x1d\x29\x98\xd4\x06\x0e\x82\x89\xbb\xf4\x72\x3a\x37\xc0\x64\x01\x32\x09\x4f\x0f\x3a\xc1\xff\x1e\xfc\xe9\x1c\xfe\x3a\xfe\xae\xb6\x2a\x9b\x3c\xa6\x40\xc8\x39\x45\x7a\x78\xdf\x39\xcb\xf4\x33\x5a\x31\xee\x2a\x6d\x12\x89\x09\xa9\xac\x11\x2f\xc2\xb8\x80\x8d\x7b\x57\x8b\x83\x10\x3c\xa0\xbc\x78\x98\xf4\x19\xcc\x90\x7a\x59\xa9\x59\x20\xb1\x3f\xae\x71\xd4\x56\xed\x29\xfc\xb5\xbd\xe3\xec\x3b\x6f\x0c\x0a\x26\x38\x49\xf8\x0d\xc6\x84\x71\x34\x5e\x8c\xca\xcd\xc5\x0d\x28\xf3\xfc\x20\xf8\x7b\xd4\x79\x8f\x93\x13\xd6\xd2\xdc\x76\x28\x86\xd6\xe2\x9a\x35\x9d\xba\x1e\xda\xd3\x70\x61\x22\x3e\x08\xf3\x4e\xbc\x0f\x9c\x25\xcb\x67\x58\x68\x44\xd6\x5d\x17\xfc\xe8\xca\xeb\x70\xb1\xe0\x2d\x03\x0f\xbd\xfb\x45\x22\x1c\x64\x9d\x4e\x31\x26\x6a\x4d\x52\x59\x10\x03\x85\x67\x5f\x10\x55\x38\x29\x30\x55\xbb\x2c\x47\x2b\xb1\x9d\x2d\xc3\xb4\x1d\xda\x34\x83\x02\x0a\xa5\xcd\x95\x24\x03\x10\x89\xe0\xc9\x62\xe1\x39\x42\xaf\x5b\x7c\x30\x42\x68\x71\xd5\x38\x93\x66\xed\x32\x24\x1d\x27\x51\x31\xb6\xe3\x3a\x70\xda\x19\xea\x89\x9c\x97\xab\x40\x99\xaa\x6f\xd4\xf2\x18\x53\xc1\xc3\x7f\x09\x75\x5f\xa7\x39\x25\x24\x2f\xa3\x6b\x78\x23\x36\xb9\xd0\xb2\x42\xc3\xa3\x31\xaa\x14\x8a\x79\x12\xf5\x86\x1e\x29\xb6\x20\xcb\xef\x3b\x12\x1f\xf8\xf3\xe3\xe3\x4f\x2c\x3a\x70\x3f\x1b\xec\x9e\xc9\x8d\x05\x4f\x92\x5b\xd3\x08\xd8\x6c\xfa\x71\x22\xca\x10\xc0\xd5\xcc\x9e\x5a\x50\x86\x06\x61\xa5\x70\xd6\xe6\x66\x83\xd5\x56\x0c\x04\x84\xe3\xdf\x59\x6b\x50\x5a\x21\x0c\xa1\x33\x11\xb4\x45\x66\x6d\x22\x55\xb4\xdf\x69\xe6\x22\xa6\x85\xed\x2c\xad\x72\x9d\x69\xb4\xd9\x58\x96\x98\x65\xa1\x0b\x12\xd2\x04\x6b\x20\xd6\x6b\x4c\x28\xe0\x27\x3c\xd9\xc8\xbb\x39\xcd\xcd\x77\xb2\x36\xc2\x3c\x0f\x8d\x9b\x63\xf1\x31\xdc\x3b\x48\x71\x6e\xe3\x23\xf7\x7d\xe7\xf2\x1e\xbf\x37\xec\xc7\xbf\xaa\xa5\xa8\x17\xf9\x59\x7b\xce\x4e\xfa\xe3\x01\x86\x9c\x28\x77\x3b\x04\x08\x85\x87\x06\x50\x7d\x99\x80\x25\xec\x08\xce\x6e\x21\xe2\x92\x18\xbc\xd2\xde\x47\x2b\x27\x71\x76\x16\x8e\x2f\x01\xa7\x68\x6a\x40\x38\x65\xf4\x06\xa6\x49\x9f\x75\xe3\x29\xcd\x00\x3b\xe2\xb8\xe8\x53\xdb\xb0\x60\x5c\xe0\x13\x9f\xc6\x46\xf6\x91\x5e\x4e\x3a\x6d\x54\xe3\xa1\x96\x45\x5a\x80\x89\x13\x47\x65\x45\x0f\x64\xec\x89\x51\x36\x3d\x45\x90\x3b\x33\x05\x4e\x21\xca\x8e\x54\x81\x2d\x3c\x18\x8c\xc9\x37\x13\xd9\x24\xc6\xbb\xcb\x27\x09\x24\x5f\xe9\x81\x7d\x90\x5f\x8f\x25\x02\xec\xe6\xa8\xab\x74\x43\x8e\x39\xe8\x46\x5a\x9b\x8c\x6b\x8a\xe0\x00\x56\xe6\x2d\x41\x26\x07\x7f\x47\x75\xde\xc8\x29\x43\x18\x9c\x56\x67\x5e\xbb\xa5\x94\x7b\x72\xda\xa3\x85\x5e\x62\x6a\x30\xc0\x58\x6a\x40\x87\xea\x3d\x5f\x32\xb8\x98\xef\xae\x52\xdc\x8d\xb9\x3a\xf9\x6e\x4a\xd6\x50\x2c\x4f\x98\x50\x4e\xe9\xbf\xd3\xe1\x02\x0c\x6b\x8f\x81\xef\x77\x92\xb1\xe5\x9e\x71\x7c\x2e\xc7\x10\xb8\x49\x43\xe0\xcc\x0c\x39\x27\xe6\x0c\x47\x3d\x3c\xf8\x98\x81\x1f\xe6\x04\xf4\xbb\x01\xbd\x8e\x00\x8f\x6d\xe6\xd5\xeb\x0b\x70\xa0\x13\x2b\x8f\x3b\xb6\x5f\x57\xb0\xb3\x3f\xdc\xd9\x19\xf0\x14\x34\xf6\x37\x6e\xdc\x00\xe7\xa1\x91\x50\x26\xc8\xa8\xdb\x08\xe2\x6f\x88\x40\x85\x96\xcd\xc8\xa3\x49\xf5\x16\xb5\x45\x61\x59\xa5\x32\x23\x0f\x3a\xe9\x8a\x17\x3d\x54\xd0\x10\x36\x69\x10\xfe\x49\x52\x32\xf8\xf0\xee\xa7\xe0\x6f\xf8\x92\xf8\x19\x3b\x38\x4d\xc6\x6e\x1e\xd2\xfa\x52\x96\xc7\xd9\x8b\x32\xe5\x70\x80\x55\x62\x9a\x05\x3f\xa5\x9c\x1c\x53\x13\x22\x09\xb7\xc1\xca\x2b\xfe\xfc\x42\x27\x34\xa8\x5d\x7b\xcc\x50\x76\x17\x7c\x0d\xa3\xf0\x26\xd1\xe9\xb2\x85\x07\xec\xc8\x16\x1e\x34\xad\xdf\x82\x88\x25\xf2\x43\x2a\x54\x31\x16\x9c\xc9\x21\x1f\x37\x0e\x0f\xf7\x26\x35\x3b\xe5\x6b\x5f\xd9\x33\x4b\xd3\xc2\x64\xf8\x6c\x6c\x5e\x0c\xb1\x66\x46\x8f\xf3\x9b\xf9\x01\x25\xcd\x1d\x08\x76\x49\xca\xce\xfc\x58\x5f\x95\xb3\xb5\x93\xff\xdd\xe2\x65\xae\xf4\xed\x08\x97\x55\xd5\xd7\x35\x2f\xc0\xdf\xc7\x90\xff\x3c\x15\xd9\x66\x53\x42\x94\x0d\x71\x5a\xb9\x55\xd9\xd5\x15\x22\x12\xd0\xef\xaa\xaa\xe8\x39\x1e\xd2\xd4\x59\x7d\xe5\xd9\x95\x15\x94\x3b\x29\x81\xc1\x82\x6c\x52\x19\xad\x62\x6c\x0c\x3a\xac\xc2\x05\xf7\xed\x2b\xbf\xa6\xa2\xdf\x05\xd6\xbf\x44\x6c\x0e\xdb\x13\x74\xce\x6d\x60\x98\xcd\x25\x28\xc6\x1e\x32\x26\x82\xad\xfa\x46\x66\xc6\xfa\xab\x56\x6d\x78\xad\xbc\x9b\x81\xd4\x6b\xbc\x07\xab\xbb\x77\x15\x77\x1b\x0a\x39\xd9\xc6\xc1\x2e\x0d\xfc\xa9\xbc\xbb\x0d\x03\x85\x17\x92\x7b\x03\x72\xd1\xde\xba\x32\x5f\xe1\x9a\x04\xf4\x25\x8c\x8b\x14\x97\x40\xf6\x30\xeb\x10\xf0\x48\xc7\xc3\xa3\x1b\xbd\x74\x8c\x77\x93\x4d\x45\x88\xa3\x6b\xef\xef\xea\x68\x57\x05\xa3\x21\xc8\x73\x28\x44\x26\xfe\xbd\xab\xd1\x11\xc4\xfd\xab\xd1\x9d\xde\x55\xd1\x55\x47\x31\x7a\xc2\xa6\x21\x4b\x2f\xb0\xad\xaf\xe9\x76\x84\x52\xa8\xb6\x4e\x4b\xf2\x64\xb1\x04\x20\x4c\xf0\x6a\x97\x5f\xf0\xfc\x6c\xc6\x97\xc8\xf0\x3b\xbe\x58\x06\xec\x33\x32\x36\xab\x41\x16\x60\xaf\xa4\x74\x9d\x42\x71\x5b\x94\x7a\x3d\x45\xe6\x02\x58\x71\x74\xa5\x63\x5b\xd0\x4e\xd1\xb7\xc9\x2a\x2d\xca\x53\xa2\x5d\x55\xb1\x5e\xcd\xc0\xb3\x43\xd9\xcc\x52\x5f\x2d\xd7\xe1\xb5\xea\x18\x21\x36\x2c\xc7\x39\x9c\x65\xf4\xd5\x8e\x08\x4b\x49\xb7\x58\x89\x7f\x6c\xf0\x38\xe3\xd7\xa7\x27\x27\x13\xf5\x1f\x96\x12\x24\xac\x36\x8d\xa0\x10\xd8\x32\x16\xda\xde\xa7\xbe\xd0\x56\xd8\x8c\xe5\x72\x2f\xb4\x89\x3a\xfc\x13\xa9\xb8\xe6\xd3\xc9\x93\xd7\x29\x2f\xa4\x53\xf0\xc6\xe7\xf1\x99\x07\xa8\xa0\x03\x01\xdd\xa4\x39\xec\x49\x2e\xa2\x53\xa2\xe9\x29\xee\x79\x8b\x37\x03\x92\x6c\xe6\xaf\x11\x92\x70\xe2\xbb\xd5\x3f\x07\xd6\x58\x61\x88\xa8\xe9\x2a\x09\xd2\xf8\x95\x8f\x02\x38\x6e\x15\x3c\xe9\xaf\xed\x1e\x8f\x4d\x1f\xa9\xf7\x6f\xfa\x20\x43\xe5\xfe\x38\x12\xdb\x83\x03\xfd\x3a\x2e\xfc\x72\x6a\xfe\xa5\x8a\xbf\xb7\xf4\x4b\xec\x4d\xb0\xa1\xb3\x5b\x90\x15\x1e\xac\xbf\xdb\xfe\x69\x08\x4a\x16\xc4\x07\x96\x80\x99\xa6\x95\x75\xb0\xa3\x78\xab\x51\xe7\x55\xab\x07\xab\xd7\x71\x35\xeb\xfd\x47\xcd\x92\x7f\x63\x09\x3b\xb5\x5c\xdd\x25\x5e\xc3\xb5\xff\x83\xeb\x6e\xcf\x00\xfc\xee\x2b\xdf\x57\x0c\x27\x67\x0b\xfa\x96\x76\xda\xb4\x36\xbb\x4a\xda\xaa\x33\x07\x24\x79\xcc\x3a\xce\x60\xe1\xd4\x11\xee\x61\xf8\x35\xe5\x78\xb4\x09\x08\x99\xd7\xb8\x7f\x13\xb4\x0b\x60\x0e\x47\xd8\x81\x7f\x92\xbe\x10\xf7\xa0\x3a\xf7\x8c\x5f\xc4\x50\x79\x56\x7e\x35\xc5\xd2\xef\xd1\xbe\x9d\xd3\xc9\xf8\x4d\x2e\xe5\x16\x64\x2a\xc8\xc6\x85\xed\x08\xc6\x56\xcc\xd7\xd0\xb0\x9e\x03\xc9\x4d\x65\xcb\xe0\xe2\x82\x14\x35\xe6\xab\xa8\x25\xae\x75\x63\xb5\xb7\x36\x26\xac\xeb\xae\xa2\xad\x20\x25\x0b\x81\x52\xaf\xd3\x52\x6e\xf5\x42\x90\x08\x8b\x24\xc5\x2a\xbc\x06\x0f\x4c\x6e\xeb\x1c\x36\x49\x68\x9c\x19\xd5\xaf\xca\xc5\x36\x74\x87\x07\x4a\x7e\x83\x1a\xde\x91\x26\x35\x6e\xa1\x39\xe2\xc4\x82\x9f\xca\x17\x6c\x25\x9d\x3d\x73\xef\x5c\xbb\x83\x27\x9b\x44\xe1\x4a\xb1\x79\x9d\x76\x5c\x60\xee\x5c\x30\xd1\xaf\x0f\xdc\xaa\x8d\x8e\x46\x52\x83\x3b\x70\x2d\xd3\x1e\xd6\xe1\xef\x56\x62\x6e\x2d\x1e\xa9\xde\xba\xee\x0a\x85\x71\x25\x38\x05\xb9\xc8\xfe\x45\x05\xd0\x73\x60\x66\xa7\xc0\x6e\x06\xb0\x3a\x85\xcd\x60\xfc\xaa\xe9\x5f\x49\xf0\x8a\xad\xb1\x66\x00\xcb\xc4\x74\x64\x18\xf7\xa8\x89\x7b\xc6\xb4\x19\xc0\x72\xca\xa7\xd8\xcc\x93\x4a\x47\xfb\x65\x45\xf7\x35\x60\xf0\xe0\x4f\x8f\x1f\xbb\x25\x9f\xe0\x67\x49\x5d\x23\xf9\x53\x19\x90\x90\xd1\xc4\x0e\x09\xc1\x62\xdf\x8a\x36\x50\x59\x62\x12\x8d\xce\xd9\xd1\x2c\xdc\xfd\x27\x45\x68\x60\x46\x93\x0b\x53\xe1\x68\x90\xd8\x19\x60\x33\x07\x46\x3a\x02\x6c\x9d\x64\x1f\x8e\xaf\x71\x9b\xc3\x03\x6c\x87\xc4\xcb\xce\xe8\x8a\xcb\xf3\x37\x3f\xf4\x86\xcc\x30\xe9\x5d\xd5\xb7\x91\xc4\xa1\xd0\x0e\x27\x23\x9d\x18\xd9\x9e\xe1\xb7\x8e\xe8\x9b\x05\x3a\xf1\x9d\x13\x16\xb9\x53\x4f\x88\x80\x9d\xa8\xd0\x9b\xbf\xee\x8e\xf0\xd5\xaa\x09\xc1\xd5\x98\x38\x3c\x73\xaa\x1e\x3d\x58\x3c\x22\x37\xa0\x1a\xc3\x8e\xcd\x01\xca\x22\xdb\xc5\xcd\xe3\x83\xa3\x80\xbd\x41\xc0\xbe\x18\xa0\x43\xda\x9d\x11\xc0\x22\xeb\x08\x01\xb6\x28\xe4\x12\xa5\x71\xfe\xe4\x61\x75\x2a\x7a\xd4\x38\x16\xed\x08\xa0\xe6\xd1\xaf\x3d\x62\xed\xbb\x23\xed\x6c\x10\xd4\x22\x40\x87\xc5\xda\x5b\x87\xc6\xc6\xd6\xdb\x95\x70\x10\xf4\xd9\x3b\xbc\x4e\x37\x50\x72\xe1\x79\x0e\x3b\xa8\x50\x38\x10\x39\x26\xa0\x97\x47\xa2\xfd\x6a\xca\xd7\x43\x9b\x60\x6a\x92\x59\x28\x6a\xa8\xbc\xd5\x88\x82\x3d\xa6\xb5\x47\xac\xbd\xe7\x50\x99\x0d\x1d\x0d\x1d\x23\x1b\x8a\xb1\x9b\x28\x26\xf4\x23\x76\x70\x55\x54\xaf\xfb\xdb\x6c\xd7\xef\x5f\x73\xe4\xe1\xbd\x66\xe7\xb3\x51\x00\x20\xfb\xcd\x56\x12\x4a\x2c\x97\xee\xdc\x10\xef\x8d\x4e\x52\xd9\x3c\x64\xfd\x72\xa4\x82\xcf\x43\xd7\xe2\x9b\x38\xea\x7b\x7e\x6f\x03\x9c\xa6\xe1\x5d\xf3\x2e\x29\x34\x13\x27\x27\x93\xe1\x10\x71\x15\x1d\xee\xf2\x02\x33\x8e\x22\x0c\xf7\xef\x2d\x0e\xb3\xbb\x9a\x29\x43\xc5\x00\x06\x22\x99\x04\x44\xc9\x77\xe1\x8d\x18\x9f\x1b\xf3\x6c\xbf\xd9\x0f\xf4\xb6\x4e\xed\x66\x7a\xdb\x26\xcd\xbb\x22\xd9\x0e\x5d\xfb\x02\xd7\xaa\x3a\xc8\xbd\x5f\xcc\x98\xda\xe1\x7e\xf8\xd6\x2d\x7a\x54\x5e\xd5\xf5\x45\x4a\x47\xcf\xe4\x8a\xf8\x89\x6f\x9d\x42\x4a\xf8\x4d\x6c\xd8\xf9\x6f\x36\xc6\x2e\xe7\xae\xab\xb4\x22\xa5\x77\x81\x01\x03\xdb\xf8\x19\x34\x89\xab\xbb\x30\x65\xc9\xb1\xdc\x08\x5d\x18\x17\x15\x19\x4e\xec\x3b\xe7\x76\x86\x3e\x78\x26\x59\xe2\x14\x1f\x0c\x20\x39\x55\xf5\x32\xad\xad\x3b\x3e\x06\x63\xef\xee\x1e\x2c\x40\xd6\x02\x6a\xf0\x74\x2d\x52\x77\x82\x86\xa1\xe3\xdd\x59\xf4\x05\xdb\x2a\x2b\xdb\xa8\xcd\x98\xf2\x89\xd0\x01\x84\xba\xf2\x44\x75\x3e\xaf\x8d\x29\x27\xbd\x1a\xbf\x9a\xde\xa6\x70\x4d\x8a\x99\x85\xbe\x5c\x43\x9b\x75\xa8\xf9\x10\xeb\x18\xb0\x99\xdd\xe3\xdc\xc5\x1c\x58\x3b\x80\x1a\x0c\xe3\x0f\x27\x87\xbb\x61\x69\x2c\xe0\x51\x61\x14\xd6\x01\x74\xa4\xcd\x10\x21\x71\x04\x33\x05\x20\x26\x97\xba\xe4\xfb\xd2\xdd\x4d\x4c\xf6\x56\x6d\x0f\x63\x81\x62\x79\x5f\x51\xbf\xcf\x36\x3f\xde\x91\x19\xaa\x67\xa8\x4e\x8e\xd4\x1b\xac\x92\x2c\x04\x61\x29\x64\xe5\x08\x75\xb1\x32\x15\x32\xe2\xfe\xf1\xe9\x20\x8c\xe2\xc6\x31\x01\x48\x31\xf0\x5c\x9d\xbc\x4a\xd7\x51\x89\xa5\x1d\x8b\x0d\xc5\x20\xd1\xd0\x8c\x12\xb0\xc9\xd5\xd1\x89\x8c\x48\xd3\xef\xde\x9c\x67\xbd\xfb\xb6\x33\x66\xc0\xb4\xb6\x79\xac\x5d\x29\x97\xfe\x9c\x4b\x7f\xd2\xa5\x3f\xeb\xd2\x9b\x76\xe1\xab\x03\x3b\x0a\x95\x6b\x89\x97\x2f\xf7\x57\x3a\x52\x91\x4c\x8c\x25\xd5\xc8\xea\xc1\x35\xd6\xc3\x22\x65\x2b\xd5\xf3\x94\x4f\x44\x35\xef\xc6\xf7\xf8\xba\x7d\x70\x0d\x9e\x6e\x96\xe0\x83\x70\x55\x90\xdf\x24\x6b\xa3\x24\xa6\x7d\x61\xf0\xce\x2b\x04\xed\xbf\x1f\xb0\x6f\x70\xfd\xf5\x93\x8b\xf7\xf7\xbc\x42\x90\xba\x61\x7f\xc5\x01\x09\xfb\x5b\x2e\x56\xa1\x7f\x1a\x82\xaf\x54\x29\xf2\x6b\xfe\x6d\xef\x83\x16\x13\xac\x7d\x15\xf5\xbe\x77\x9e\x74\xdd\x5e\xf2\x7e\x33\xb3\x0c\x80\x38\xa0\xf4\xda\x68\x78\x8b\x55\xb9\x33\xbe\xbd\xb1\x75\x41\x49\x50\xbf\xd2\x71\xd2\x7d\x89\x09\x4e\xc1\x6d\xc9\xe7\x88\x5f\x15\x97\x34\x59\x7f\x5f\x73\x08\xad\xc6\x6e\xc4\x9d\xcb\x3f\x1c\x36\xa8\x5f\x8a\x8e\xc7\xbb\x9d\x05\xdb\xf7\xd2\x46\x5a\xa3\xdd\x97\x36\x56\x90\x77\x9e\x1b\xaf\xfd\xe3\x14\x81\x25\xb0\x3d\x3b\xee\xac\x75\xcf\x65\x8d\xc3\x10\x24\x87\xf8\xef\x77\x67\x63\x35\xaf\x7d\xef\x6c\x74\xee\x6a\xac\xcf\x19\x0f\x3c\xdb\x69\x1f\x74\x5f\x23\x2e\x54\xcf\xa5\x39\xd6\x23\x6c\xb5\x71\x82\xe4\x55\x8b\xae\xa3\xd0\x07\x5c\xe8\xe8\xac\xf2\x6f\xba\xd0\xd1\x81\x63\x8f\xbe\x1d\xf4\x2f\x0b\x80\xf6\x38\xea\xe3\xa8\xd6\x35\x8d\x07\x5e\x04\xe8\x84\xa6\x98\xa8\x8d\xab\x4c\xba\xaf\xe6\x28\x2e\x45\x00\x82\x88\xe8\x8f\x48\xb5\x4b\xbb\xba\x6e\x2f\x19\x28\x7e\xc4\xf3\x17\xcf\xf9\x24\x4b\x67\x49\xd3\xc0\x4d\x8a\x0f\xf7\xba\x80\x6f\x5c\xe3\xa8\x1d\x55\x26\x34\xe1\x3d\xaa\x4c\xa8\xaa\x24\x9d\xfd\x03\xb3\xa7\x12\x38\x28\xec\x7a\x99\x0b\xf3\x5e\xe1\xf5\x07\x14\x2c\x4d\x89\x31\xe4\x5f\x0c\xa3\x4c\xfc\x06\xc7\xc6\x88\x25\xd5\x6c\x63\xa0\xbd\x88\x50\xdc\xc9\x71\xfa\x5a\xf1\x49\x07\xde\x7d\x77\x62\xe2\x35\x40\x26\xb3\x0a\xfd\x5d\x0d\xb6\xa3\x08\xc5\xd0\xb9\xc6\x83\x3c\x3e\x4e\xc1\x1d\x78\x6a\x6f\x0c\x9a\x57\x60\xfd\x43\x12\xe2\x38\xa3\xfb\x27\xc4\x9d\xde\x3b\xae\x67\xc3\xd9\xfc\x6f\x5f\xcf\x56\x61\xd7\xb6\x22\x7a\x15\xd0\xdb\xcd\x2c\x8e\x8a\x55\xa5\x7f\x7e\xdb\xdd\x6c\xfb\x58\x1f\xf7\xb9\x73\xcd\xe4\x60\x87\xef\x5d\x6b\x69\x09\x3b\x3b\x49\xc3\xda\xcb\xd7\x38\x21\xbb\xc3\xa0\x19\x3b\x99\xd6\xda\x56\x70\xd3\xab\x3d\x7a\xa5\x96\x58\x6d\xe6\x55\x9b\x69\xd5\x7f\xe3\x0b\xd4\xc8\x00\xba\xef\x05\x6a\x3d\x54\xe9\x94\x7d\xfb\x5d\xa0\x66\xf4\xc2\x1f\x76\x55\x5a\x0f\xca\x7b\xa8\x2a\xd5\xaf\xab\xb0\xfa\x65\x0f\x35\x04\x0d\x6c\x26\xa6\xa9\x8e\x00\x44\x5b\x23\xc1\xcb\x3b\x07\xba\xe9\xcc\x27\xbb\x4c\x67\x2c\xdd\x6f\x7e\x0b\x28\xd1\x81\x07\x0a\x3e\x47\x72\x39\xc3\xe7\x49\xcf\x30\x26\x31\xd3\x06\x62\xea\xef\x0c\x22\x1d\xc9\x8c\xce\x0b\xe0\xf6\x55\xca\x5d\x59\x86\x61\xad\xdc\x7d\xd3\xaa\xcb\xc3\xa2\x9b\xbb\x55\x73\x67\xcc\xbf\xa6\x99\x1b\x17\xc5\x99\x7f\xf1\x52\x92\xee\x4e\x7a\x3c\xec\x51\xd6\x38\x39\x23\xe9\x81\x69\x9a\xba\xfa\x98\x70\xfd\x7d\x14\xf6\xbe\x36\xd6\xae\x50\xff\x4e\x05\x6d\x07\x22\xc0\x16\x9c\xef\x2c\xc3\xbf\x00\x58\xd9\x32\x0f\xa1\x75\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x02\xff\xed\x3d\x6b\x8f\xdb\x46\x92\x9f\xa5\x5f\xd1\x11\x62\x87\xf4\x69\x38\xce\x02\x77\xd8\x9b\x60\x0e\xf0\x2b\x89\x77\xe3\xc7\xda\xe3\xe4\x83\x61\x78\x29\xb1\x35\xe2\x0e\x45\xd2\x24\x35\xe3\x59\x65\xfe\xfb\xd6\xab\x9b\xcd\xa7\x24\x27\x39\x2c\x0e\x67\x20\x31\x45\x76\x57\x57\x57\x57\xd7\xbb\xdb\xa7\xa7\xea\x49\x16\x69\x75\xa9\x53\x5d\x84\x95\x8e\xd4\xe2\x56\x2d\xc2\x22\x4b\x03\xf5\xf4\x95\x7a\xf9\xea\x42\x3d\x7b\xfa\xfc\x22\x98\x9e\x9e\xaa\x37\xba\xd8\xa6\x69\x9c\x5e\x72\x03\x75\x13\x27\x89\xca\xae\x75\x71\x53\xc4\x95\x56\xd5\x3a\x2e\xd5\x2a\x4e\x34\x35\xfe\x59\x17\x65\x9c\xa5\x67\x6a\xb7\x0b\xe4\xf9\xee\xce\xf9\xa0\x9e\xc2\x68\xee\x57\xfc\x0d\x2d\xa6\x79\xb8\xbc\x0a\x2f\x35\x7e\x79\xcd\x8f\x2f\xc3\x0d\x7d\x81\xce\x17\x66\x0c\xb5\xcc\xd2\x2a\x8c\xd3\x52\x6d\x74\xb5\xce\xa2\x52\x55\x99\xda\x84\x57\x5a\xc5\x69\x14\x5f\xc7\xd1\x36\x4c\x94\x4e\xa3\x3c\x8b\xd3\x0a\xba\x14\xd9\x46\x95\xba\xb8\x8e\x97\xba\x9c\x23\xa4\x42\x7f\xda\xea\xb2\x52\x61\x1a\xc1\x73\x99\x67\x69\x09\x53\xb8\xcd\x35\x41\xc2\xa6\x38\xa3\x0c\x5e\x5a\x28\x73\x15\x96\xea\x46\xc3\xa4\xe1\x6f\x9d\x2e\x81\x6e\x45\x89\x00\x10\x5e\xa4\xe5\xf7\x2a\x2b\xa4\x23\x41\x9b\xd3\x8b\x10\x29\xb5\x52\xd9\xb6\x50\xe5\x36\xcf\xb3\x02\x29\x5d\x15\x61\x5a\xe2\x33\x0e\x17\x87\x49\xfc\xcf\xb0\x02\x42\x20\x34\xe8\xb3\x09\xab\x32\x98\x4e\xe3\x0d\xb5\xf0\xa6\x93\xd9\xe2\xb6\xd2\xe5\x0c\x1e\x70\xee\xfa\x73\x85\x8f\x84\x06\x2c\xc9\xe9\x3f\xca\x2c\xc5\x17\xab\x0d\xbd\x8f\x33\xfe\xff\x69\x9c\x6d\xab\x38\xc1\x1f\xa9\xae\x4e\xd7\x55\x95\x9b\xe7\x6d\x41\xaf\xcb\xaa\x00\x78\xd7\xf2\x08\xa0\x60\x08\x78\xbe\x8c\xab\xf5\x76\x11\x2c\xb3\xcd\xe9\x65\x76\x72\x15\x57\xa7\xf8\x9f\xa1\x05\xb4\x0e\xd3\xdb\x7c\xa1\x66\x97\x59\x76\x09\x4b\x7e\x99\x25\x61\x7a\x19\x64\xc5\xe5\x69\x5e\x64\x55\xb6\xd8\xae\x4e\x69\xfe\xa7\x57\x69\x76\x93\x9e\x52\x6b\xe8\x15\x6d\x0b\x9a\xe4\x11\x5d\xeb\x2e\xd0\x5f\x6f\xf2\xea\x98\x71\xa5\x3d\xf4\x5c\xc5\x3a\x89\x36\x61\x79\x75\x44\x6f\xa7\x0f\x40\x00\xf2\x6c\x97\xd5\x11\xdd\x4d\x07\xe8\x5b\xc5\x1b\xe0\xb6\x70\x93\x1f\xd1\xdd\xe9\x03\x10\x6e\x8a\x30\xcf\x81\xc1\x8e\x00\x50\x77\xe9\x2e\x69\x01\x9b\x37\x3c\xdd\x6c\x3f\xcf\x9a\x5f\xf2\xab\xcb\x53\x5d\x14\x59\x41\x9c\x36\x32\x90\xe5\x3c\x7a\x63\xd8\x6f\xa4\x03\x3d\x20\x22\xbb\xdd\x89\x8a\x57\x4a\x7f\x52\xc1\x93\x2c\x5d\xc5\x97\xc1\x85\xdd\x09\x33\xd8\x29\x33\x35\x4b\x81\xf9\x67\x0a\x36\x7d\x03\x37\x7c\x7b\x02\x3c\x8d\x7f\xc3\x10\x33\x06\x05\x3c\x89\x0d\x0f\x80\x7a\x59\xe4\x4b\x03\xb5\x83\x27\x7d\x1c\xfc\x72\x0a\x62\x26\x8c\xc2\x2a\x6c\x0f\x7a\xf0\x90\xf8\x54\xef\xf8\x81\xfd\x65\x1b\x18\x74\x9c\xb1\x70\xef\x1e\x01\x40\xb6\xfa\x51\xc4\xc6\xa7\x23\x86\xa0\x8e\x2e\x8e\xfe\x74\x3a\xbd\x0e\x0b\x94\x56\x1f\xd5\xb9\x02\x59\x14\xbc\xcd\x41\xa6\x54\xfc\x9b\x04\x18\xa0\xb1\xc9\xc3\x42\xf3\x2b\x91\x3e\xc1\xa3\x2a\x8b\xf9\x4d\x63\x9a\xc1\x4b\x7d\xf3\x16\x65\x71\xc1\x1f\x59\x9a\x05\x2f\xb3\xfc\x49\x02\x22\xd6\xbe\x05\xa0\xf9\x2d\xff\x60\xe6\x0d\x7e\x01\xde\x9f\x4e\x40\x94\xca\x7a\x1a\x36\x64\xa9\x8c\x4d\x49\x24\x05\x8f\x52\xea\x57\x0b\x99\xe0\xa9\x3c\xe2\x6b\x11\x1f\xc1\x33\xfc\x1b\x5f\x98\x2d\x1d\xbc\xa5\x07\x7c\xe5\x6c\xd3\xe0\xc2\x3c\xe3\x87\x7a\xfb\x61\x6b\xd8\x2a\x3f\x87\xc9\x96\xe6\xed\xc8\x95\xe0\x7b\x7c\x7e\x01\xcf\x48\xbd\xd3\x07\x07\xfd\x51\xcf\xac\x66\x7b\x70\xf0\x9f\x53\xd2\xa0\xcf\x53\x15\xb2\x7a\x2b\xe6\x2a\xae\xbe\x29\xd5\xb6\xd4\xab\x6d\x42\x6a\x6a\xb5\x4d\x97\x38\x75\xd0\x81\xeb\xb0\x52\xa9\x46\x2d\x95\xa9\x2c\x27\xdb\x40\x65\xd8\x17\x9e\x4f\x8c\x1a\x40\x80\x8b\xb0\x8c\xcb\x40\x7d\x0f\xdd\xf5\x67\x98\x79\xa2\xe7\xea\x36\xdb\xaa\x4d\x7c\xb9\xae\x54\x1e\x96\xa8\x22\x1d\x84\x01\x5e\x68\x07\xe2\x71\x60\x6d\xa2\x2d\x28\x66\x04\x07\x6d\x91\x03\x82\x1f\x41\xaf\x26\x88\xe3\x0d\x30\xa1\xd2\xe1\x72\x2d\x9a\x5e\x79\x66\x74\x1f\xbe\x15\x80\xe1\x36\x67\xa0\x65\xae\x97\xf1\x2a\x5e\xc2\xa0\xd5\x3a\x50\xde\x73\xc2\x0f\x0c\x06\x80\xbf\x08\x17\xc9\x2d\xb4\xd9\xc4\xb0\x3c\x64\x25\x80\xc6\x2e\xe3\xcb\x14\xbb\xc6\xe9\x75\x76\x85\xea\x5e\xab\xb7\x6c\x23\x58\xab\x82\x50\xd4\x08\xa7\x9e\x01\xf3\x00\x82\x30\x94\x0c\x7c\x68\x61\xa9\xbb\x4c\x62\x9d\x56\x4d\xea\xc2\x28\xcb\x2c\x49\x34\xf5\x33\x06\x0a\x60\x04\xcc\xcf\xe0\x60\x1e\xb5\xb9\x02\xff\x83\x09\x21\xc0\x12\xd8\x26\x61\x53\x82\x69\x15\x23\x85\x37\x9a\x28\xe9\xe0\x0b\x3d\x74\xb1\x0a\x97\x7a\x68\x25\x10\x98\x1d\xac\xdf\x48\xda\xe2\x60\xaa\x29\x41\x70\x03\x3e\x91\xf9\x80\x1c\x58\xc4\x29\xd1\x69\x23\x28\x3a\x0b\x3b\x17\x53\xaa\xda\x16\x29\x4c\x1d\x67\x8c\x08\x2e\x61\x9a\xba\x40\x8b\x29\x34\xc8\x06\x53\x9a\x4e\x87\xa0\xbb\xe9\xe4\x5d\x6a\xe7\xa7\x23\xb0\x00\x4d\x0f\x36\x01\x45\x12\xec\x76\x80\x22\x58\x88\x5f\xc7\xea\xec\x5c\xd9\x36\x2f\x78\xc9\x58\x2c\x7f\x1d\x4b\x1f\x33\x8a\x82\x3f\x66\xaa\x81\x79\x09\xa0\x58\x70\xb1\x75\x69\x31\xda\x3f\x04\x32\x30\x70\x62\xdd\xc5\x57\xce\xa0\xde\xb2\xfa\xac\xc4\x4a\x43\xb1\x8b\x7f\xcf\x91\x61\x1e\xec\x76\x3f\x64\xd8\x06\x20\x07\x6f\xd8\x04\xbd\x00\x62\x48\x3f\x5f\x79\xad\x16\x6c\x98\x3a\x4d\xe6\x2c\xe0\x7c\xa4\x96\xb1\x5b\xe9\x1d\x22\xaa\x83\x9e\x99\x23\x32\x38\xb8\x3f\x9d\xa0\x22\x80\x96\x5f\x9d\xab\x34\x4e\x10\xc2\x44\xd6\x0b\x7e\x12\x90\xe9\xe4\x6e\x6a\xde\x19\xe8\xc1\x5e\x9c\xfc\x39\x02\x00\x22\x1a\x72\x22\x31\x5f\xe0\x36\x73\x29\x4a\x1b\xf9\x6b\x10\x23\x48\xd1\x3b\x6c\x7c\xa2\x5c\x2a\xc3\xa7\x21\x42\x23\xac\xbe\x99\x95\x48\x74\xa7\x9b\xcb\x26\x7e\x77\xb9\x99\x66\x34\x39\x04\xdb\xbf\x4a\xc6\x31\xb0\x3b\x6a\x87\xcb\x62\x5d\x04\xe7\x35\x93\xbd\x5e\x0e\x80\xfd\x09\x27\x22\x10\x3a\x74\xeb\xac\x36\x74\xb9\xb6\x6b\x57\x06\x2d\x06\x22\x54\xb0\x4d\x77\xd5\xba\xcb\x86\xeb\x66\xde\x5e\xf3\x72\x4c\xee\xa6\x4c\x64\x5e\x13\x77\x6d\x50\x39\x3e\x4a\x92\x67\x9f\x97\x3a\xaf\x48\x4f\x95\x2c\x62\x2d\xa5\x48\x43\xa1\xcb\x22\x7b\xb3\xde\xac\xb4\x8c\x24\x9b\x7a\xfc\x82\xe0\x45\x1c\x81\xd8\xbe\x01\xfd\x4e\x5e\xe0\xbb\xd2\xf8\x85\xe8\x04\xe5\x79\x72\x8b\x22\x06\xc5\x66\x85\xc0\x37\xb6\x35\xe9\x05\x0d\xcb\x76\x6b\x97\x0d\xf7\x0b\x4a\x90\xd2\x48\x0d\x80\xf7\x2a\x47\xad\x81\x92\x73\xee\x08\xae\x25\xc8\xa1\x85\x26\x5d\x03\x62\x14\xba\x81\x0f\x9b\x22\xd9\x01\x26\xbc\xd7\x9f\x97\xc9\x36\x82\x2f\xe4\x05\x2e\x34\xa2\xc0\xba\x39\x0a\x3a\xd4\xf0\x6a\x9c\xe6\x6a\xf6\xb6\x0a\xab\x6d\x39\x83\xa7\xd7\xd0\x6b\xe6\xdb\x7d\xff\xc0\xd9\xf8\x43\xfd\x55\x0f\x55\xe6\x35\x36\x41\x10\xb0\xc3\x45\xcc\x13\xa7\xf2\x1a\x58\x61\x13\xe6\xef\xf9\xd3\x07\x26\xff\xee\x0e\x57\xbd\xbd\x61\xfa\x24\xdf\x64\x32\x73\xd8\x68\x06\x0e\xf6\xdd\x5c\xba\x8a\x19\x09\x1c\x30\xc1\xd5\xf8\x88\xa8\x10\xbb\x12\x48\x8b\xd6\x8e\x39\x0e\x3e\x67\x57\xf8\xd9\x20\xf6\x5e\x7f\xfe\xf0\x9d\xfa\x0a\x5e\x12\x07\xe6\x61\x1a\x2f\xbd\xda\xc2\x5b\x79\xb3\x67\x06\x84\x5d\xc1\x6f\xee\x95\xdf\xa8\x28\x83\xd5\x4d\xb3\x0a\x86\x00\xe5\xfb\x1d\xac\xa7\x76\x17\xde\xf2\x0e\x99\xf4\x88\x94\xef\x0b\x3f\x47\x3a\xd1\x95\xf6\x0c\x06\xf4\xad\x9e\x00\xbc\xae\xd1\xb7\xe4\x3b\x9c\x50\x30\x49\x04\x71\x7e\xae\x1a\x24\xe3\xe9\x4d\x7a\x45\x29\x98\x97\x35\xe6\x5e\x6f\x13\xc4\x9d\x90\x6f\x90\x9c\xb7\xdd\x4f\xe1\x02\x66\x14\xd5\xdc\xc0\x21\x94\x4b\x5d\x19\xde\x45\x7e\xb7\xd4\x23\x16\xbe\x59\xeb\xd4\x7e\xcd\x1c\x76\x15\x60\xcc\x75\x73\xde\x65\xb2\x11\xb6\xdc\x58\x71\x5c\x26\xe4\xe0\x0e\xd8\x45\x60\xd4\xc0\x5f\x64\x66\x39\x5c\x7a\xb3\x8e\x61\xe7\x63\xd7\x12\x86\xee\x41\x41\x34\xb9\xf4\x36\x76\x4c\x56\x88\x1e\xef\xce\x8a\x84\x2b\x33\xf0\xbc\x2b\x85\x7b\x04\xf3\x74\x68\x5e\x5f\x2c\x9b\x3a\x48\xcd\x65\x9e\x44\xf1\x42\x2f\x75\x7c\xcd\x16\x1f\x4d\x11\x80\xb9\xf3\x0e\xc0\x54\xd1\x16\x8c\x03\x85\x3e\x18\x43\xd4\xee\x7b\x44\x14\x39\x32\x02\x1f\x31\x4e\xc8\x68\x34\xdb\x89\x82\x39\x62\xec\x86\x49\x5c\xdd\x06\x63\x22\xa4\x31\x77\x57\x92\x1c\x4d\xd1\xff\x97\x33\xff\x77\xe4\x4c\xa3\xdb\x5c\x1d\x25\x76\x0e\x0f\x50\x1c\xea\x7a\xfe\xf0\xe6\xf5\x13\xb6\xb0\x8e\xf6\x3d\xd1\x8c\x73\xba\x63\xb8\xb6\xac\x8d\x81\x5a\x9f\x87\xd7\xb0\x8d\xc0\x61\xd3\xec\x36\x5c\x42\x17\x35\xe0\x0c\x04\xb5\x81\x58\x43\xf6\x6a\x50\x8e\x7b\x92\xe5\xec\xda\xc2\x7e\x68\xc4\x62\x02\xee\xc4\xa6\x85\x3f\x34\x10\x2e\x57\xe9\x34\x2c\x71\xc1\xdf\x7f\x18\x86\x84\xcb\xdb\xf7\xf5\xb1\x06\xa6\xd2\x1e\x62\xfb\x42\x62\x4a\x17\x99\x58\x9f\xfe\x9c\x0c\xf0\xe6\x38\xe7\x68\x38\xc1\x8c\xbc\xc6\x6b\x3b\x1f\x98\x8e\x4f\x81\x8e\xdd\x4e\x5d\x64\x3f\x65\x37\x80\x6b\x63\x06\x14\xd9\x11\xd3\xf0\x3e\x62\xc4\x78\xec\xd0\x4d\xda\xcb\xbd\xbb\x9d\x81\x69\x59\xee\x4c\x35\xa7\x65\x43\x34\x1e\xf2\x60\xbd\xcb\x7a\xb8\x14\x45\xc4\xe4\x29\x45\xca\x71\xfe\x4e\x0b\xb1\x8e\xa9\xc1\xb3\xb4\xb7\x81\xf8\x3a\xd8\xa2\x41\x09\x20\x00\xbe\x44\xda\xf5\xe8\xdc\x7a\xc2\x6d\xd7\xd9\x1a\xe7\xfd\xeb\x6d\x0d\x7d\xd6\x72\x0e\x9c\x3f\xc0\x5d\xed\x10\x19\xbc\xd5\x26\x95\x25\x1e\xe2\x18\xf4\xe2\x66\x49\xa0\x02\x25\x95\x83\x23\x46\x35\x0c\x6a\x87\xcf\xf4\x40\xb7\xb7\x54\x0f\xea\xa1\x7c\xe5\x7a\x39\x63\xfe\x2f\xba\x47\xbf\xaf\x03\xfc\x11\x81\xe6\x0d\x17\xaa\x43\x49\xde\x76\xc8\x4d\xae\x53\x75\xa4\x27\x9c\x7f\xa1\x13\x2c\x14\x66\x96\xdf\x4f\x5e\xe8\x31\xb6\x3b\x30\x96\x15\xaa\x66\x8c\x38\xe0\x0e\xd2\xe2\x7b\x5c\x1f\x8a\x13\x61\x54\x55\x17\x28\x4c\x69\x17\xb0\x08\xed\xb2\x99\xf1\x76\x29\x80\x06\x76\x63\x71\x12\x65\x9b\x10\x5c\xa8\x91\xc6\x81\x7a\x5d\xc4\x9b\xb0\x88\x93\x5b\x13\xde\x72\x63\x61\xcc\x24\x63\xf3\xf0\x3e\x76\x99\x03\xe7\x02\x9f\x5b\x6e\x77\xdb\xdb\xb6\x81\x0f\x72\xb4\xa5\xcf\x21\x8e\xb6\x5d\xc9\x4f\x23\xcb\xc4\x82\xe7\xa0\x65\x1a\x95\x51\xbd\xeb\xc4\x3d\x4c\x93\xa1\x85\xda\xbf\x04\x26\x55\x99\xd5\x9a\xb1\xaf\x19\xb8\xda\x07\xad\xd3\xe8\x44\xfa\x16\xaa\x2f\x12\x32\xb6\x52\x65\xce\x31\x91\x83\x83\x49\x8d\x00\x54\xdf\x6a\xfd\xa8\x13\x0c\xab\x4f\x79\x02\xbd\x8a\xb4\x5f\x00\x6d\x22\x65\xd2\x38\xc1\x8b\xa7\x7e\xbb\x01\xe2\x8b\x62\xf4\x6a\xae\xae\x6b\x8b\x6f\x63\x4d\xd5\xeb\x46\x08\x86\xb2\xd1\x5a\x5d\xe9\x5b\x5a\xee\x08\x8d\xc2\x45\x06\xfe\x07\xd0\xd8\x8c\x22\x79\x5c\xe5\x5d\xf9\xe2\x7e\x60\x53\x70\x40\x12\x5c\x2f\x81\x12\x8a\xd3\x45\xe1\xd6\x27\x61\x9a\x81\xc1\x1b\x26\x3f\xea\x30\xd2\xc5\x5f\x01\xba\xf8\x26\x38\x50\x99\x49\x10\xb8\x12\x57\xcf\x80\x58\x2e\xb5\x89\x7d\x68\xf0\x81\x80\x17\x78\x64\xfc\x8e\xa4\x38\xb7\x73\xfd\x05\x3e\x53\x1e\x82\xa5\x21\xce\xf5\xfd\xc3\x0f\xfe\xde\x86\x03\xd8\xc1\xcc\x6a\x08\x62\xf5\xcb\xf2\x41\x37\xd2\x51\x47\xd8\x95\x1c\x69\x3e\xda\xae\x04\x0b\xc4\xe9\xcd\xc3\x53\xd6\x41\x42\x47\x6a\x11\x2e\xaf\xb8\xb4\x41\xf6\x0c\x87\xe8\x71\xae\xa9\x26\xdf\x2c\x50\xcf\x49\xbc\x4a\xb0\x5f\xd8\x35\x5e\xc4\xe8\xb3\x99\x25\x90\x58\x36\x6c\xbd\x28\x0e\x13\x0e\x78\x27\x21\xf0\x3d\xc0\xcb\x30\x0c\x4b\x8d\x6a\x98\xcc\xa0\x0d\xec\x3c\xfc\xcc\xea\x33\xe0\x37\xc0\x7c\xe9\x88\x71\xca\x8d\x8c\x71\xea\x0d\x18\x19\xee\x96\x43\x0b\xa1\x1d\x6b\x9d\x38\x6f\xf3\xab\x4b\xda\x7e\x12\x72\x6d\x16\x59\x4c\xba\x5e\x4d\x7f\x5c\x76\x82\x79\xbe\x1e\xd1\x63\x5d\x98\xae\x93\x3f\xd9\xf5\x1b\x94\x8e\xd7\xd3\xb1\x2c\x85\x6a\xc4\x9e\x48\x28\xe3\x79\xca\x24\x40\xbd\xf7\x45\x80\x67\xf3\x8e\x87\x3a\x66\x59\xd6\xa6\xe7\x80\xd6\x72\x4c\xcf\x3d\xd2\x8b\xdd\xe0\x49\xd6\x34\x4d\x2d\x0d\x3c\xf2\x2b\x09\x8c\xd8\xa9\xf5\x93\x15\x71\x66\x03\x59\xdf\x65\xaf\xa9\xae\x4e\x04\x54\x87\xa6\x67\x98\xf7\x18\xa1\xf9\xbc\x1e\x77\x72\x67\x84\x2d\xee\x00\xa4\x81\x92\x1d\xf5\xdb\xcd\x97\x11\xbd\x68\xec\x97\x71\xbd\x38\xae\xe9\x0e\x35\x5f\x44\x07\x0d\xe8\x45\x16\x0a\xe3\xf6\xcb\xb0\x5e\x64\x63\x04\x91\x39\x50\x31\x62\x53\x6b\xc4\xa0\xba\x3e\x4a\x35\xe6\x18\x02\xef\xea\x46\x77\xd9\x7e\xbb\x39\x33\x6c\x75\x1a\x6b\x66\xd4\xea\x3c\xd0\x9e\xdc\x6b\xcb\x8c\x5a\x9d\x8d\x55\x1b\x9b\x47\xbf\x31\xd3\x97\xec\x19\xb7\x3a\x8f\x48\xef\x8c\x5b\x9d\x82\x05\x29\xd9\xf2\x22\x73\x0d\x19\xa6\x79\x9f\x26\x70\x48\xce\x53\x1e\x81\xe2\x81\xcd\x50\xaa\xf7\x1f\x4c\xf8\x6f\x0f\xbc\x83\xd2\x63\x60\x0e\x3d\xd8\x67\x44\x91\x6e\xc8\xc3\xb8\xa8\x07\x87\x97\x12\x0c\xbc\xaa\x4d\x2b\x42\x6f\x27\x31\xb2\x6b\x13\x08\x84\x61\x03\x36\x3c\xae\xfc\x40\x82\x9e\xfe\x77\xca\x04\x04\x27\x0c\xd8\x46\x45\xe8\x27\x1b\x32\x36\x08\x86\x42\x14\x61\x72\x53\xd7\x6a\x7b\x00\xf8\x9f\xd7\x56\xe0\x5f\x40\x06\x7a\xf0\x6e\x5e\xbf\x7a\x8d\x7d\x18\x2a\x86\x56\x7c\x03\xce\xb1\x6a\x24\xb2\xc6\x2b\x79\xa8\x7d\xf3\xe3\xc5\xc5\xeb\x2f\x89\x9b\x51\xd2\x9e\xa9\x9c\x12\x7b\x01\xfe\x33\x4c\xa5\x81\x1d\x86\x4a\x86\x2a\xff\xbe\x53\xcb\x75\x58\x94\xba\x3a\xdf\x56\xab\x93\x3f\xcf\x6c\xb8\x0d\x47\x95\xd0\x41\x6d\x18\xa9\xb5\xbc\xa1\x3d\xbb\x3f\x0c\x87\xc0\xb2\x54\xe5\x85\x8e\xf4\x2a\x4e\xc1\x92\xc2\x0a\x8b\xd2\x89\xbd\x39\xc3\xec\x0d\xbe\x35\x0b\x7c\x9a\xc1\x37\xb7\xf4\xc3\xd8\x32\xb0\x8e\x01\xc1\x27\xb3\xbf\x11\x9d\xea\x09\xc8\x0d\x43\xa7\xf5\xef\xfb\x2c\x11\x39\x1e\x03\xed\xda\xb2\x11\x90\xeb\xef\xf4\x0c\xc5\x02\x8b\x1b\x98\xb2\xf3\x63\xb8\xcb\xa3\x15\x88\x15\xaf\xfd\xa5\x7a\x52\x2f\xad\xe7\x2c\xb3\x4f\x80\xba\xb3\x3c\x28\x1c\x28\x51\x22\x0a\xfd\xc1\xe2\xbd\x86\xe5\x82\x35\x2b\x40\x2e\x55\x54\xb3\x8a\xc9\xc9\x72\x19\xe6\x18\xec\x06\xa3\xf5\x16\x98\xe0\x56\xad\xb3\x24\xc2\xaa\x28\xe2\xa5\x70\x59\xa1\x87\xb2\xa1\x3c\xc1\xf6\x33\xda\x62\x6f\xb2\x2d\x4e\xc0\x0f\xde\x95\x9a\x27\x1b\x21\x60\xb0\x69\x1c\xfb\x44\x72\x23\xa8\x69\x06\x16\xcd\x36\x5d\x60\x15\x4a\x7a\x49\x36\x26\x77\x0b\x1e\xf3\x2b\x89\x9c\x6f\x4c\x3f\x0a\x81\x4b\x73\xac\x17\x5e\xa8\x5f\xd5\x45\xf6\x0e\xab\xab\xc0\xb4\xf3\x03\x42\xc3\x6d\x83\x2f\x2e\xf4\x26\x4f\xa8\xa8\x18\x5a\x18\xe6\x1c\xa8\x2e\xf3\x38\x16\xef\xc6\x2e\x05\xa3\x9e\x00\xa6\x58\x89\x38\x3d\x67\x48\xca\xdd\x34\xad\x49\xb1\x37\xb1\xe1\x0f\x9c\x82\x6b\x98\x92\xbd\x61\xcc\x09\x49\x9c\x56\x5d\xa3\x3c\x8a\x08\xda\x98\x72\x15\x87\xeb\x38\xd7\xc7\x81\x4d\xe2\x46\x93\xb5\x33\x23\xfe\x82\xdf\xc1\x4f\x00\x1f\x08\x36\x71\xb8\x4d\x2a\xd4\x9d\xcc\x6e\x08\x8c\x82\x9c\xb0\xfd\xdb\x92\x05\xbc\x1c\x70\x6b\x23\xf2\x81\xf0\x37\x3b\x11\xe8\x8c\xce\x68\x9c\x99\xf5\x5f\xaf\xa9\xba\x0d\x40\xd1\xfb\x80\xb0\xf3\x7c\xf6\x92\x40\xba\x50\x26\x5d\x21\xb2\x08\xea\x3f\x1f\x3e\x04\x97\x6b\xe5\xe0\xeb\x44\x67\x79\x17\x02\xb6\x84\x18\xb4\xc8\x8b\xec\x3a\x46\x07\x7b\xcd\xfb\x93\xb3\x78\x0b\xcd\xd8\x72\xb2\x13\xdb\xd5\x16\x9e\x0b\x9a\xaa\xc0\x6a\xe8\x38\x8b\xe0\x05\x48\xcb\x75\x48\x05\x66\x06\xff\x0d\xbf\x42\x8e\x2c\xb7\xe0\x50\xeb\xa8\x64\x8f\xee\x2f\x6f\x5f\xbd\x94\x7a\xef\xc8\x14\x67\xdb\x8c\x21\xe1\x6e\xd0\xc1\xc4\xeb\xf0\xb4\xb8\x98\x00\xcb\xed\x8b\xb9\x71\x34\xed\xcc\xea\x8f\x0d\x68\x60\x99\x94\x15\x4c\xda\xd0\x8c\x45\xae\x2b\x6f\xfa\xcc\x1a\x5b\x97\x32\x57\x37\x2c\x53\x9b\x6c\x40\xe6\x0c\xae\xea\x5c\x7d\xc4\xed\xe7\x92\x84\x85\xd9\x2f\x5c\xbb\xb8\xa3\x55\x3c\x43\x60\x66\x41\xef\x38\x7a\xba\xa9\x09\xc8\x6a\x1b\x9b\x78\x4d\xda\xd6\x5a\x3b\x66\xe6\x79\x4c\x43\x4a\xd7\x67\x1c\xb4\xb5\x80\x4c\x3f\x24\xb7\x07\x5d\x9d\x66\xe7\x8e\x06\x27\x66\x3c\xb7\xe0\x4c\xd8\x61\x72\x13\x30\xdb\x80\x7c\x02\xa1\xea\xcd\x44\xac\x9e\xa0\x2c\x9d\xcd\x5d\x05\xca\x13\x58\x1b\x26\x73\xf1\x6f\x8a\x07\xc3\x87\xf5\x3c\x28\x3c\x54\x1b\x30\x06\x86\xb4\x2c\x3d\xae\x03\x6a\xe3\x02\xb6\x49\xb7\x65\xf0\x03\x7e\xf1\x6d\xdc\x64\x42\x5b\xe3\x8c\x0b\x60\x03\x66\x87\xe7\x68\x88\xa6\x61\xe2\xa8\x1c\xc2\xbd\x5c\x8e\x60\xed\xb0\x59\x8d\x38\x01\x3f\x87\x8e\xce\x67\x71\x46\x6f\x02\x62\x0a\xc1\x18\x1b\xfa\xf6\xa5\x87\xd4\xf6\x51\xde\xd4\x7c\xc7\xd2\xaf\xf0\xb0\x98\xf6\xfd\x07\xac\xe9\xf5\x85\xd7\x77\x1c\x15\xb8\x51\x2e\x0b\xd9\x58\xbb\xe1\xb3\x77\xa9\xac\x2c\x42\x98\xab\xfb\x37\x80\x65\x2b\x16\xcf\x36\x4f\x19\xff\x13\x71\xfe\xf3\xb7\xff\xfd\x5f\xcc\x42\x89\x4e\xb1\x8f\xaf\xfe\x87\xbf\x31\x3f\x00\x1a\xe7\x0a\xfe\xff\xfe\x0c\x5f\x7e\x68\xd6\x42\x61\xe2\x98\xe8\xb6\xf2\x66\x36\x72\x49\x2c\x84\x39\xe3\x33\x0c\xa3\x61\xca\x38\x47\xe3\x49\xa5\x59\x7a\x42\x32\xce\xb8\x05\xd8\x10\x78\x07\xc7\x6c\x84\xb6\xa4\xc6\x18\xd4\x87\x77\xc3\xe0\x89\x46\x24\x43\xdd\xb9\x3b\xa9\x22\x6a\xa5\xd8\x9a\x55\x7f\xc7\x51\xce\x44\x80\xfe\x5d\xc4\x39\xae\xa2\xb4\x02\xf1\x5b\xae\x62\x11\xe7\x86\x0b\x49\x50\x39\x8b\x5b\x3b\x2d\x58\x30\x4a\xc2\x44\x8e\xce\x1c\x52\x1a\x2e\xc5\x1b\xce\xa0\x16\x55\x16\x9a\x93\xb2\x96\x48\x14\xbd\x31\xb2\x17\xfe\x38\x85\x03\xd6\xc0\x37\x3c\xe2\xad\x6b\xa0\xbe\x72\xb9\x4d\x35\x4b\xf0\xd6\x41\x3d\xc2\x40\xef\x7a\x5b\xb1\x61\x48\x3f\x1b\x20\x04\x29\x21\x21\x07\x3d\xa9\xa2\xda\x5a\xbb\x48\x42\x72\x4c\x44\x62\x63\xbd\x47\x54\xd7\x90\x6c\xca\x4b\xf6\x23\xd1\xa4\x55\x40\x07\x58\xf9\xe2\x76\x2a\x71\xd9\x9b\xb5\xa6\x68\x6a\x4c\x5e\x30\x58\xc8\x67\xb0\x85\xc2\x24\x44\x1b\xaa\x64\xcb\x89\xaa\x12\xb0\x28\x63\xbb\x31\x2f\xe3\x42\xc1\xaf\x05\x2f\x19\x83\xba\xad\xd6\xb8\xf0\x3a\x29\x29\xa9\x8d\x32\x6e\x6e\x0a\xdc\x48\x9f\xc0\x08\xeb\xb0\x64\x54\x90\xed\x44\xd2\x3b\x33\xf2\x10\x55\x2a\x63\x07\xb3\xa8\x2c\x61\xa1\xe7\x5c\xbc\x62\xdc\x3b\x8f\xa6\x69\xaa\x44\x60\xe3\x2f\xb2\x2c\x69\x17\x29\xb2\x41\x57\x82\x89\x84\x90\xde\xe8\x15\xd6\xf2\xa0\x24\x60\x8a\xe0\xc7\xe0\x29\xd8\x86\x45\x9c\x57\x28\xee\xb9\x3e\x1d\xe5\xd5\xe3\xdb\x0b\x80\x8f\xf6\x90\x87\xc3\xb2\x14\xe5\x5e\xe7\x9d\x34\xda\x0c\xb6\xcd\x2a\x4c\xa4\x36\x15\x37\x8b\xd9\x85\xf7\x4a\x9a\x68\x9a\x49\xdf\x7b\x9f\xa0\x69\x7b\xcc\x6d\x92\xd0\x40\x3e\x4f\x91\x05\x15\x0c\xf7\xd5\x06\x2c\xb9\xd2\xa3\x9e\xbe\xba\x7f\x5f\xf1\x23\xbe\x7c\x0d\xdb\x1b\x94\x34\xf2\xd9\xaf\xbf\x32\xec\xe0\x79\xf9\x53\x0c\x8e\x7f\xe3\xcd\x8b\x30\xf7\x7c\x7f\x00\x57\xa9\x9b\xa4\xa1\x5a\x20\x60\xb0\xaf\x1a\x30\xf0\x0d\xbf\x90\xe5\x80\x57\x0e\x21\xb8\xb6\x85\x8e\x3c\x30\x55\x51\xde\x33\xe2\xc1\x73\xb3\x73\x61\xae\x9e\xc8\xd0\xef\xd4\x57\xdc\xd8\x2d\xf0\xac\xeb\x5e\xbc\x21\x00\x40\x22\xd8\xb9\x06\x77\xd1\x25\x59\xca\xc1\xa5\x0d\xc9\x28\x9f\x5f\x90\x2e\x22\x00\xf3\x06\x3a\xf0\x59\x24\x32\x7a\x5d\xd0\xcb\x9e\xe8\x31\x2a\x59\x4c\x54\xc4\xec\x51\x92\x64\x37\xaf\xc3\xa2\x8a\xc3\x84\x82\x8b\x34\x38\x7c\x00\xa7\x80\x58\x0a\xd7\xad\x3c\x6b\x7e\x78\x06\xdb\xe1\x25\xed\x08\xfc\x62\x3e\x3c\xdb\xc4\xd5\xbb\x34\xcf\xf2\x2d\x9a\xe9\xd1\x99\xf9\x00\xf8\xa3\x27\x6e\xd3\xba\x35\x72\xd6\x46\xa1\xe9\xb8\x44\x18\xc9\xe8\x76\x59\x11\xa5\xf3\x0a\xed\x9c\xb9\x9a\x2d\xb3\x6d\x12\xa5\xdf\x54\x62\xe0\x59\xa6\xc4\x5d\x4a\x87\x9a\x5c\x0e\x44\xed\x46\x0d\x4a\x57\x04\x12\xa5\xde\x84\x37\xc2\x06\x23\x0a\x8f\xa7\x75\x9f\x41\x74\xd5\x5e\x2f\xc2\x6e\x22\x9a\x07\xe4\x65\x2b\xdf\x23\x5e\x1f\x1a\xcb\xcf\x52\x70\x6b\xc6\x63\x41\x08\x52\xab\x1c\x92\x7c\x54\x11\x1b\x57\x2c\x90\x48\xd8\x88\xdc\x69\xc2\xd8\x23\x7a\xe6\xca\x91\x3c\x8e\x31\x80\xbb\x88\x28\xf0\x33\x98\xd5\x91\x30\x3a\x49\xa9\xe6\x06\x6c\x4b\x88\x4f\x28\x6c\x51\x2d\xcb\x02\x50\x0f\xa2\xc3\xa0\xf4\xea\x30\xbc\x9d\x40\x87\xa7\xed\x72\x8c\x70\xb5\x61\xd1\xa7\x31\x88\xfb\x22\x7a\x97\xd2\x81\x3a\x97\x43\xeb\x35\x76\x47\x72\xd6\x5a\x66\xdb\xa8\x5c\xdb\xdd\xfb\x74\xa6\xee\x95\x77\xc2\x54\x32\x33\x58\xc2\x0e\x3f\x0f\xf1\x86\x61\x88\x2f\x93\xd6\x34\x8c\x23\x40\x11\xf0\xc6\x15\x0b\xd4\xa0\x21\x19\xee\x58\x67\x71\xcb\x27\x89\x0e\x0b\xf9\xe6\xf2\x65\xcd\x7b\xcb\x2c\xbf\x65\x1c\x7a\xf9\xae\x44\xc6\x8b\x38\xe4\x7b\x83\xc1\x27\x52\xa1\x18\x8e\x00\xc5\x57\x16\x4b\xe1\xbe\x1a\x8a\x07\x8d\xe7\xf8\xa5\x8f\xfd\xca\x56\x6d\x23\x4c\x80\x64\x2d\xf4\x69\x31\x08\x81\xe8\xaa\x3c\x8e\x48\xa6\x92\x0d\x63\x9b\x9e\x01\x93\xb1\x6f\x68\x5c\x1e\x4c\x63\x32\xce\xdb\x14\x9e\x44\x2e\x89\xcb\x26\x7d\x27\x4e\xad\x12\x9a\x20\x5d\xe3\xa5\xdf\x60\xe9\x35\x1c\xe8\xe0\x13\x93\xd0\xc2\xda\xbb\x77\x91\xd1\x1e\x88\x81\x20\xf6\x29\x60\xcd\x8e\x64\x06\xae\x0b\xd1\xa6\x65\x87\x58\xa1\x88\xdb\xc0\x68\x3d\x54\xc7\x58\xb7\x09\xca\x96\xe4\x01\x56\x3c\xce\x98\x04\xba\x3e\x98\x67\x76\x79\xde\x88\x49\x29\xde\xf4\x74\xde\x6e\xd6\x52\xfa\xda\xdd\x07\x88\x29\x02\x33\x1f\xed\x48\xc1\xac\x31\x70\x10\xcc\xdc\x7d\x23\x47\x9b\x03\xcc\xb4\xe0\x0e\xe3\xe9\x41\x27\xf8\xdf\xbd\x3f\x3d\x83\xbf\x4e\xbe\x6d\xb0\xf4\xb6\x48\x28\x8a\xf4\x8c\xc2\x64\x2c\xb4\x9c\x65\xfa\x19\x4d\x40\x77\x95\xb6\xa9\x04\xd4\x54\xde\x0a\xb6\x61\x50\xc5\x26\x0d\xea\xc5\x41\x08\x1e\x50\x5e\xdc\x73\xfa\x0c\x36\x5c\xb3\x26\xd7\x2c\x90\x18\x6f\xd7\x38\x6a\xa7\x70\x17\xfe\xda\xdd\x31\x37\xb3\x54\xa1\x48\x8c\x53\xc1\xb0\xc5\x80\x3a\x8e\xc6\x8b\x51\xc7\x08\x50\x7a\xc9\x3c\xdf\x09\xfe\x1e\x75\x3e\xe0\xd8\x89\x35\xd3\x77\x3d\x5a\xb5\xb3\xb8\x66\x4d\xe7\xae\x7b\xfb\x38\x8c\x4c\xb8\x0c\x61\xde\x89\xeb\x86\xb3\x64\xe5\x06\x0b\x8d\xc8\xba\xeb\x82\x1f\x5d\x65\x17\x46\x11\x6f\x19\x78\x18\xdc\x2f\x12\x1e\x22\xd3\x7e\x8e\x01\x65\x6b\xcf\xcb\x82\x18\x28\x3c\xfb\x92\xa8\xc2\x19\x95\xb9\xda\x67\x76\x5b\x75\xe7\x6c\x19\xa6\xed\xd8\xa6\x19\x95\xee\x28\xaa\xaf\x24\x93\x82\x48\x04\x8f\xa2\xc8\x73\x34\x46\xbf\xec\x65\x84\xd0\x5c\x6d\x70\x26\xcd\xda\x65\x48\x3a\x8b\xa3\x12\x6c\xc7\x45\xf4\xb4\x33\xd4\x23\x39\x6c\x58\x83\x32\x25\xf3\x68\x22\x61\x40\x0a\x4f\x4e\xa6\xd4\x7d\x93\x15\x94\xcd\xbd\x8c\xaf\xe1\x8d\x38\x34\x42\xcb\x1a\x0d\x8f\xc6\xa8\xf3\x4f\xe6\x49\x6c\x03\x74\xe7\xb1\x05\x99\xcd\xdf\x92\xf8\xc0\x9f\xef\x1f\x7e\x60\xd1\x81\xfb\xd9\x60\xf7\x44\xae\x7b\x78\x94\xde\x9a\x46\xc0\x66\xf3\xf7\x33\xb1\x24\x00\x5c\xc3\x66\x6c\x44\xb4\x68\x10\xd6\xa8\xe7\x5d\x6e\x36\x58\xed\xc4\xba\x42\x38\xfe\x9d\x35\xa5\xa5\x15\xc2\x10\x3a\x13\x41\x3b\x64\xd6\x26\xcc\x47\xfb\x9d\x66\x2e\x62\x5a\xd8\xce\xd2\xaa\xd0\xb9\x46\x83\x97\x65\x89\x59\x16\xba\x5d\x22\x4b\xb1\x80\x64\xb3\xc1\x6c\x0c\x7e\xc2\x63\xa1\xbc\x9b\xb3\xc2\x7c\x27\x53\x2d\x2c\x8a\xd0\xf8\x88\x16\x1f\xc3\xbd\xa3\x14\xe7\x36\x3e\x72\xdf\xb7\x2e\xef\xf1\x7b\xc3\x7e\xfc\xab\x5e\x8a\x66\x85\xa4\x35\x86\xed\xa4\xdf\x1f\x61\x05\x8b\x65\x64\x87\x00\xa1\x70\xdf\x00\x6a\x2e\x13\xb0\x84\x1d\xc1\xd9\x2d\x44\x5c\x12\x83\x57\xda\x7b\x6f\xe5\x24\xce\xce\xc2\xf1\x25\x5a\x17\xcf\x0d\x08\xe7\x0c\x82\x81\x69\x72\x8f\xfd\x78\x4a\x33\xc0\x8e\x38\x2e\xfe\xd0\xb5\xca\x18\x17\xf8\xc4\x47\xd9\x91\x7d\xa4\x97\x93\x8b\x9c\x34\x78\xa8\x63\xce\x97\x60\x1f\x26\x71\x55\xd3\x03\x19\x7b\x66\x94\xcd\x40\x05\xe9\xde\x34\x8b\x53\xc5\xb3\x27\xcf\x62\xab\x36\x46\x13\x1a\xed\x2a\x00\x12\xe3\xfd\xb5\xa7\x04\x92\xef\x43\xc1\x3e\xc8\xaf\x27\x12\x3e\x77\x13\xfc\x75\xae\xa6\xc0\x04\x7e\xab\x26\x80\x3c\x13\x0a\x7f\x01\x56\xe6\x2d\x41\xa6\xe8\xc8\x9e\xd2\xc6\x89\x53\xc3\x31\x3a\xad\xde\xa2\x80\x8e\x52\x1e\x28\x08\x98\x44\x7a\x85\x79\xd5\x00\x03\xd1\x01\xdd\x48\xe0\xf9\x92\xfe\xc6\x62\x81\xba\x3e\xa0\x35\x57\xa7\x58\xc0\x16\x67\x01\x1b\xda\x66\x08\x8f\xad\x4c\xfa\x4c\x71\x52\xe1\x51\xb9\x01\xe1\x8d\x0e\x23\x70\x5a\x3c\x1e\xfb\xb0\x53\xa2\x1d\xd7\x97\x63\x9f\x05\xa6\x17\x4c\x8a\x07\x27\x6e\xa8\x3d\x33\xe7\x63\x9a\xa1\xd7\x87\x0c\x1c\x27\x49\xbd\x0e\x9e\xe5\x91\x3e\xd9\xb0\x57\x36\xe8\x97\x31\xba\x86\x14\x83\xae\x19\xc7\x9d\x29\xb4\xdd\xb3\xa3\xfb\x82\xcf\xc3\xe1\xe7\xde\x00\xb4\xe0\x71\xb8\xbd\xe4\x06\x9c\x8f\x8d\x4c\x33\x45\x26\xfd\x76\x15\x7f\x43\x04\x6a\xb4\xee\xb8\x9a\xce\xba\x58\xf7\xa9\x3e\x85\xe8\x61\xe5\x8b\xf1\x89\x7a\x59\x72\x4e\x27\x99\x52\x2e\xac\x93\x3a\x08\xc3\x2b\x75\xba\x72\x8a\xa5\x1a\xd5\xfa\x35\x6a\xb8\xd2\xf2\x6f\x6d\xfa\x1e\x75\xb4\x19\x6f\xf6\xa8\xa1\x21\x6c\xd2\x7a\xfc\x93\x24\x7b\xf0\xee\xcd\x4f\xc1\xdf\xf0\x25\xed\x41\xec\xe0\x34\x99\xba\x89\x67\xeb\xd8\xd9\xd9\x39\x9b\x8d\xef\x74\x49\x4d\xb3\xe0\xa7\x8c\xb3\xa1\x6a\x46\x34\xe7\x36\x58\x6a\xc7\x9f\x7f\xd0\x29\x0d\x6a\xb9\x0b\x53\xd2\xfd\x15\x7e\xe3\x28\xbc\x4a\x75\xb6\xea\xe0\x01\x52\xa4\x83\x07\x4d\xeb\xb7\x20\x62\x89\xcc\x2b\x6f\xac\x4e\x53\x34\x70\xd2\x3a\x2d\x3e\x98\xc5\xee\xd5\x09\x43\x75\xee\xac\x01\x4a\x93\xd2\xb5\xc9\x18\x31\x1e\xdb\x29\x5c\x4e\x68\x17\x47\xd4\xb0\xf7\x20\xd8\x27\xdd\x7b\x13\xa2\x43\x65\xed\xd6\xb6\xff\x77\x0b\x90\xba\x2a\xa1\x27\x3e\x5a\x97\xdb\x37\x3c\x17\xff\x10\xe7\xe3\xe3\x5c\xa4\xa7\xcd\x01\x52\xfa\xcb\x69\xe5\x96\xe1\xd7\x77\xc6\x48\x06\xa7\xaf\x8c\x66\xe0\x3c\x50\x5b\xcf\x0e\xd5\xe3\xd7\x96\x5b\xe1\xe4\x80\x46\x2b\xf0\x49\x8f\x75\xaa\xef\x31\x50\xb2\x0e\x23\xee\x3b\x54\x6f\x4f\x55\xde\x11\x16\x3c\xc5\x6c\xc2\xdb\x23\x93\xce\xf5\x6f\x98\xbe\x27\x28\xc6\x86\x33\x66\x8d\x2d\xf3\x47\x66\xc6\x82\xbb\xce\x61\x80\x46\x3d\x3f\x03\x69\x16\xf5\x8f\x96\xf3\xef\xab\xe6\x37\x14\x72\xd2\xcb\xa3\x5d\x5a\xf8\x53\x3d\x7f\x17\x06\x0a\x2f\x24\xf7\x16\xe4\xa2\xbd\x66\x67\xb9\xc6\x35\x09\xe8\x4b\x98\x94\x19\x2e\x81\xec\x61\x56\x52\xe0\x45\x4f\xc7\x47\x37\x8a\xef\x04\x2f\xa3\x9b\x8b\x10\xc7\x70\x84\xbf\xaf\xa3\x5d\x15\x8c\xe0\x20\xcf\xa1\x10\x99\xf9\x5f\x7c\xfc\x00\x41\x7c\xf9\xf1\x03\xa7\x77\x5d\x65\xd7\x73\xfa\x20\x65\x73\x96\xa5\x17\xf8\x03\xd7\x74\x1d\x46\x25\x54\xdb\x64\x15\x79\xdf\x58\xf3\x11\xa6\x78\x97\xcf\x2f\x78\x60\x3a\xe7\x5b\x83\xf8\x1d\xdf\x24\x04\xca\x99\x0c\xe4\x7a\x90\x08\x2c\xa2\x8c\xee\xcf\x28\x6f\xcb\x4a\x6f\xe6\xc8\x5c\x00\x2b\x89\xaf\x74\x62\x4f\x30\x50\xc4\x70\xb6\xce\xca\xea\x8c\x68\x57\x1f\x51\xa8\x67\xe0\xd9\xa1\x6c\x2a\x71\xa8\x78\xef\xf8\xc3\x09\x98\x12\x30\x2c\xc7\x49\xbb\x55\xfc\xd9\x8e\x08\x4b\x49\xd7\x96\x89\x4f\x6f\xf0\x38\xe7\xd7\x67\xa7\xa7\x33\xf5\x1f\x96\x12\x24\xac\xb6\xad\x40\x16\x18\x4b\x16\xda\xc1\xc7\xfc\xd0\x56\xd8\x4e\xe5\x36\x37\x34\xba\x7a\x7c\x2a\x29\xb1\xe7\xe3\xe8\xb3\x97\x19\x2f\xa4\x53\xe1\xc8\x17\x30\x30\x0f\x50\x05\x0f\x02\xba\xc9\x0a\xd8\x93\x5c\x35\xa9\x44\xd3\x53\xac\xf6\x16\xaf\x82\x24\xd9\xcc\x5f\x63\x24\xe1\xcc\x9f\x36\xec\xa7\xa3\x8a\xea\xc8\x81\x68\xb9\x77\x82\x34\x7e\xe5\xb3\x1f\x8e\x2b\x08\x4f\xfa\x73\xb7\xc7\x43\xd3\x47\x0e\x78\xb4\xfd\xa6\xb1\xf3\x1d\x38\x12\x1b\x9c\x23\xfd\x7a\x6e\x78\x73\x0e\x79\xc8\xb1\x8d\xc1\x5a\x3f\x31\x68\xc9\x7c\x05\x59\xe1\x6d\xd9\x16\xb5\x56\x6a\x08\x4a\x16\xc4\x07\xd6\xfc\x99\xa6\xb5\x75\xb0\xa7\x5a\xaf\x55\xd8\xd7\x28\x00\x6c\x16\xee\xb5\x0f\x78\x4c\xda\x67\x3c\x8c\x95\xed\x14\xef\xf5\xd7\xf4\x8d\x1f\xf6\x18\x5d\x77\x7b\xe8\xe3\x77\x5f\xf9\xa1\xea\x47\x39\x4c\x32\xb4\xb4\xf3\xb6\xb5\xd9\x57\xc3\x58\x1f\x32\xb1\x99\x1e\x5c\xc7\x05\x2c\x9c\x7a\x80\x7b\x18\x7e\xcd\x39\x86\x6e\x82\x58\xe6\x35\xee\xdf\x14\xed\x02\x98\xc3\x03\xec\xc0\x3f\x49\x5f\x88\x7b\x50\x1f\x74\xc7\x2f\x62\xa8\x3c\xa9\x3e\x9b\xea\xf8\xb7\x68\xdf\x2e\xe9\x2a\x84\x6d\x21\xf5\x35\x64\x2a\xc8\xc6\x85\xed\x08\xc6\x56\xc2\xf7\x0e\xb1\x9e\x03\xc9\x4d\x75\xea\xe0\x77\x83\x14\x35\xe6\xab\xa8\x25\x2e\x6e\x64\xb5\xb7\x31\x26\xac\xeb\x43\xa3\xad\x20\x35\x2a\x81\x52\x2f\xb3\x4a\xae\x71\x43\x90\x08\x8b\x24\xc5\x3a\xbc\x06\x17\x4f\xae\x67\x1d\x37\x49\x68\x9c\x05\x15\x2c\xcb\x4d\x46\x74\x69\x0b\x4a\x7e\x83\x1a\x5e\x8a\x27\x45\x8d\xa1\x39\xd3\xc6\x82\x9f\x92\x6d\xb6\x74\xd2\x5e\xb2\xe0\xdc\xb3\x84\x47\xd9\x44\xe1\xca\xe9\x82\x26\xed\xf8\x44\x81\x93\x75\x1b\xd6\x07\x6e\x99\x4e\x4f\x23\x29\xba\x1e\xb9\x87\xeb\x00\xeb\xf0\x77\x3b\x53\x60\x2d\x1e\x29\xd7\xbb\xee\x0b\xdf\x71\xe9\x3f\x05\xe6\xc8\xfe\x45\x05\x30\x70\x42\x6a\xaf\xc0\x6e\x07\xdd\x7a\x85\xcd\x68\xcc\xad\xed\x5f\x49\xc0\x8d\xad\xb1\x76\xd0\xcd\x44\x68\x64\x18\xf7\x6c\x91\x7b\xa8\xb8\x1d\x74\x73\xea\xe5\xd8\xcc\x93\xd2\x56\xfb\x65\x4d\x17\x74\x60\x74\xe2\x4f\x0f\x1f\xba\x35\xbe\xe0\x67\x49\x21\x2b\xf9\x53\x39\x90\x90\xd1\xc4\x0e\x29\xc1\x62\xdf\x8a\x36\x50\x55\x61\xe2\x8f\x0e\x56\xd2\x2c\xdc\xfd\x27\x55\x87\x60\x46\x93\x0b\x53\xe3\x68\x90\xd8\x1b\x14\x34\x27\x84\x7a\x82\x82\xbd\x64\x1f\x8f\x09\x72\x9b\xe3\x83\x82\xc7\x04\xf1\xce\xe9\x4e\xd3\x67\xaf\xbe\x1f\x8c\xe3\x61\x95\x43\x5d\xd0\x48\x12\x87\x62\x47\x9c\x40\x75\x02\x77\x07\xc6\x04\x7b\x42\x82\x16\xe8\xcc\x77\x8e\xd4\x14\x4e\x01\x29\x02\x76\xc2\x4e\xaf\xfe\xba\x3f\xec\xd8\x28\x1f\x05\x57\x63\xe6\xf0\xcc\x99\xfa\xe6\x5e\xf4\x0d\xb9\x01\xf5\x18\x76\x6c\x0e\xaa\x96\xf9\x3e\x6e\x9e\x1e\x1d\x67\x1c\x0c\x33\x0e\x45\x19\x1d\xd2\xee\x89\x31\x22\xc2\x3d\x31\xc6\x0e\x85\x5c\xa2\xb4\x0e\x1c\xdd\xaf\x8f\xc1\x4f\x5a\xe7\xe0\x1d\x01\xd4\x3e\xeb\x77\x40\x7e\x60\x7f\x76\x80\x0d\x82\x46\x04\xe8\xb8\xfc\x40\xe7\x94\xe0\xd4\x7a\xbb\x12\x0e\x82\x3e\x07\xa7\x04\xe8\xca\x51\x3e\x69\x50\xc0\x0e\x2a\x15\x0e\x44\x8e\x09\xe8\xe5\x89\x68\xbf\x86\xf2\xf5\xd0\x26\x98\x9b\x04\x1c\x8a\x1a\x0a\xfa\x1a\x51\x70\xc0\xb4\x0e\xc8\x0f\x0c\x9c\x22\xb4\xa1\xa3\xb1\x73\x83\x63\x11\x73\x13\xc5\x84\x7e\xc4\x0e\xae\x8a\x1a\x74\x7f\xdb\xed\x86\xfd\x6b\x8e\x3c\xbc\xd5\xec\x7c\xb6\x8a\x16\x64\xbf\xd9\xd2\x51\x89\xe5\x52\x31\x8c\x78\x6f\x74\x74\xce\xe6\x4e\x9b\xb7\x61\x95\x7c\x00\xbe\x11\xdf\xc4\x51\xdf\xf2\x7b\x1b\xe0\x34\x0d\xef\xda\x97\x87\xa1\x99\x38\x3b\x9d\x8d\x87\x88\xeb\xe8\x70\x9f\x17\x98\x73\x14\x61\xbc\xff\x60\x35\xa0\xdd\xd5\x4c\x19\x2a\x60\x30\x10\xc9\x24\x20\x4a\xbe\x09\x6f\xc4\xf8\xdc\x9a\x67\xfb\xcd\x7e\xa0\xb7\x4d\x6a\xb7\x53\xf2\x36\xd1\xdf\x17\xc9\x76\xe8\x3a\x14\xb8\x56\xf5\xc9\xfd\xc3\x62\xc6\xd4\x0e\xf7\xc3\xd7\x6e\x95\xab\xf2\xea\xae\x3f\x64\x74\xd6\x50\xfe\x4d\x80\x99\x6f\x9d\x42\x4a\x52\xce\x6c\xd8\xf9\x6f\x36\xc6\x2e\x07\xed\xeb\x54\x28\xa5\xa4\x81\x01\x03\xdb\xf8\x09\x34\x49\xea\xcb\x4f\x65\xc9\xb1\xbe\x0c\x5d\x18\x17\x15\x19\x4e\xec\x3b\xe7\x3a\x8e\x21\x78\x26\x1b\xe3\x14\x4c\x8c\x20\x39\x57\xcd\xba\xbc\x9d\x3b\x3e\x06\x63\xef\xee\xee\x45\x20\x6b\x01\x35\x78\xba\x16\xa9\x3b\x43\xc3\xd0\xf1\xee\x2c\xfa\x82\x6d\x9d\x49\x6e\xd5\x93\xcc\xf9\x08\xf0\x08\x42\x7d\x89\xa8\x26\x9f\x37\xc6\x94\xa3\x7d\xad\x5f\x6d\x6f\x53\xb8\x26\xc3\xcc\xc2\x50\xae\xa1\xcb\x3a\xd4\x7c\x8c\x75\x0c\xd8\xdc\xee\x71\xee\x62\x4e\x28\x1e\x41\x0d\x86\xf1\x87\x93\xc3\xdd\xb0\x34\x16\xf0\xa8\x30\x0a\xeb\x00\x3a\xc3\xb8\x2f\x0d\xeb\x6c\x60\xb2\xb5\x3a\xe2\xf2\xb8\x74\xa8\x9b\x81\xe3\xb3\x58\x40\x96\xdf\x96\x80\xb3\x99\x9f\x7d\x49\x8a\xe1\x2c\xc5\x70\x9a\x62\x38\x4f\x31\x98\xa8\xe0\xdb\x15\x7b\x6a\xb9\x9d\x54\x05\xe7\x61\xbf\x58\x50\x4b\xd9\x36\x91\x5e\x4a\xb6\xd5\xbd\xeb\x99\xc9\xef\x5a\x71\xfd\x98\x8f\x8d\xb5\xff\x01\x01\x8f\xff\x4d\x02\x30\xa7\x1f\x6f\x57\x60\xb7\x73\xf5\x8f\x73\x04\x53\xb9\xf9\x32\x53\xfa\xd2\xbd\x55\x79\xef\x3d\x8b\xf6\x1f\x59\x38\x34\x20\xfd\xf2\xd1\xc5\xdb\x2f\xbc\x67\x91\xba\x61\x7f\xc5\x4e\xbc\xfd\x2d\xb7\xcf\xd0\xbf\x9f\xc1\xf7\xce\x94\xc5\x35\xff\xb6\x97\x66\x8b\xd9\xd2\xbd\xaf\xfb\xd0\x8b\x61\xfa\xae\x78\x79\xbb\x5d\x58\x16\x40\x1c\x70\xc7\x6f\x35\xbc\xc5\xb2\xda\x05\x5f\x71\xd9\xb9\xc5\x25\x68\xde\x7b\x39\xeb\xbf\xe9\x05\xa7\xe0\xb6\xe4\xc3\xd6\x2f\xca\x4b\x9a\xac\x7f\xa8\x09\x81\x96\x56\x3f\xe2\xce\x0d\x29\x0e\x1b\x34\x6f\x8e\xc7\x33\xf0\xce\x82\x1d\x7a\xb3\x25\xad\xd1\xfe\x9b\x2d\x6b\xc8\x7b\x0f\xd7\x37\xfe\x05\x8f\xc0\x12\xd8\x1e\xb0\x77\xd6\x7a\xe0\x46\xcb\x71\x08\x92\x77\xfb\xf7\xbb\xd8\xb2\x9e\xd7\xa1\x17\x5b\x3a\x17\x5a\x36\xe7\x8c\xa7\xc2\xed\xb4\x8f\xba\xd4\x12\x17\x6a\xe0\x66\x21\xeb\x45\x75\xda\x38\x81\xe5\xba\x45\xdf\x79\xf1\x23\x6e\xbd\x74\x56\xf9\x37\xdd\x7a\xe9\xc0\xb1\xe7\x03\x8f\xfa\xe7\x17\x40\x7f\x3c\x18\xe2\xa8\xce\x5d\x96\x47\xde\x96\xe8\x84\x73\x98\xa8\xad\xfb\x5e\xfa\xef\x2f\x29\x2f\x45\x00\x82\x88\x18\x8e\xe2\x74\x4b\xb8\xfa\xae\x78\x19\x29\x72\xc4\x43\x2a\x4f\xf9\xb8\x0f\xde\x38\xf9\xdd\x11\xd7\x4d\xde\x3f\xe8\x96\xc2\x69\x83\xa3\xf6\x54\x66\xd0\x84\x0f\xa8\xcc\xa0\x4a\x8c\x6c\xf1\x0f\xcc\x38\x8a\xb3\x5d\xda\xf5\x32\xb7\x0a\xbe\xc0\x3b\x22\x28\xc0\x98\x11\x63\xc8\x3f\xab\x46\xd9\xeb\x2d\x8e\x8d\x51\x3e\xaa\xcd\xc6\xe0\x74\x19\xa3\xb8\x93\x3b\x07\x1a\x05\x1b\x3d\x78\x0f\x5d\x1c\x8a\x77\x25\x99\x6c\x24\xf4\x77\x35\xd8\x9e\xc2\x0d\x43\xe7\x06\x0f\xf2\xf8\x38\x05\x77\xe0\xb9\xbd\x56\x69\x59\x83\xf5\x8f\x49\x22\xe3\x8c\xbe\x3c\x89\xec\xf4\xde\x73\x87\x1d\xce\xe6\x7f\xfb\x0e\xbb\x1a\xbb\xae\x15\x31\xa8\x80\x5e\x6f\x17\x49\x5c\xae\x6b\xfd\xf3\xdb\x2e\xb0\x3b\xc4\xfa\xf8\x92\x8b\xe9\x4c\xde\x72\xfc\x72\xba\x8e\x96\xb0\xb3\x93\xd4\xa5\xbd\xa1\x8e\x93\x98\x7b\x0c\x9a\xa9\x93\x9d\x6c\x6c\x05\x37\x25\x39\xa0\x57\x1a\xc9\xc8\x76\x2e\xb2\x9d\x8a\xfc\x37\xbe\x65\x8e\x0c\xa0\x2f\xbd\x65\x6e\x80\x2a\xbd\xb2\xef\xb0\x5b\xe6\x8c\x5e\xf8\xc3\xee\x93\x1b\x40\xf9\x00\x55\xa5\x86\x75\x15\x56\x8c\x1c\xa0\x86\xa0\x81\xcd\x5e\xb4\xd5\x11\x80\xe8\x6a\x24\x78\x79\xe7\x40\x37\x9d\xf9\x04\x97\xe9\x8c\x25\xfa\xed\x6f\x01\x25\x07\xf0\xe0\xc0\xc7\x58\x6e\xb0\xf8\x38\x1b\x18\xc6\x24\x33\xba\x40\x4c\xcd\x9a\x41\xa4\x27\x01\xd0\x7b\x4b\xde\xa1\x4a\xb9\x2f\x32\x3f\xae\x95\xfb\xaf\xa3\x75\x79\x58\x74\x73\xbf\x6a\xee\x8d\x93\x37\x34\x73\xeb\x36\x3d\xf3\xcf\x82\x4a\xa2\xda\x49\x29\x87\x03\xca\x1a\x27\x67\x24\x3d\x30\x4d\x5b\x57\x9f\x10\xae\xbf\x8f\xc2\x3e\xd4\xc6\xda\x17\x1e\xdf\xab\xa0\xed\x40\x04\xd8\x82\xf3\x9d\x65\xf8\x17\xf9\xa3\x31\xa6\xc6\x76\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 30113, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xaa, 0x4c, 0x32, 0x4a, 0x2f, 0x24, 0x79, 0xa0, 0x3f, 0xa3, 0x41, 0x23, 0x40, 0xa8, 0x67, 0xa6, 0x9a, 0xd8, 0x7a, 0x58, 0x9c, 0x7, 0x95, 0xb1, 0x79, 0x5a, 0x61, 0x21, 0xce, 0xf1, 0x44, 0x2a}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 30406, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xcd, 0x4e, 0xc3, 0xf3, 0xc5, 0xb3, 0xf6, 0x91, 0x4, 0x59, 0x1f, 0xc8, 0x87, 0x37, 0xd8, 0x6f, 0xd3, 0x33, 0x6c, 0x9c, 0x78, 0xe6, 0xa0, 0xed, 0xfe, 0xd5, 0xf7, 0x5f, 0xff, 0x3a, 0xf1, 0x5c}}
 	return a, nil
 }
 
-- 
2.43.0


From cceb6ff242d163236d5e43dd846547ce54fc9cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:31 +0000
Subject: [PATCH 21/42] fix: send every value of the headers of an error

---
 gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl | 7 +++++--
 gengokit/template/template.go                              | 6 +++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index 2a74bb2..3dd79f0 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -368,8 +368,11 @@ func errorEncoder(_ context.Context, err error, w http.ResponseWriter) {
 	}
 	w.Header().Set("Content-Type", contentType)
 	if headerer, ok := err.(httptransport.Headerer); ok {
-		for k := range headerer.Headers() {
-			w.Header().Set(k, headerer.Headers().Get(k))
+		for k, values := range headerer.Headers() {
+			w.Header().Del(k)
+			for _, v := range values {
+				w.Header().Add(k, v)
+			}
 		}
 	}
 	code := http.StatusInternalServerError
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index b7b4621..6585b54 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x02\xff\xed\x3d\x6b\x8f\xdb\x46\x92\x9f\xa5\x5f\xd1\x11\x62\x87\xf4\x69\x38\xce\x02\x77\xd8\x9b\x60\x0e\xf0\x2b\x89\x77\xe3\xc7\xda\xe3\xe4\x83\x61\x78\x29\xb1\x35\xe2\x0e\x45\xd2\x24\x35\xe3\x59\x65\xfe\xfb\xd6\xab\x9b\xcd\xa7\x24\x27\x39\x2c\x0e\x67\x20\x31\x45\x76\x57\x57\x57\x57\xd7\xbb\xdb\xa7\xa7\xea\x49\x16\x69\x75\xa9\x53\x5d\x84\x95\x8e\xd4\xe2\x56\x2d\xc2\x22\x4b\x03\xf5\xf4\x95\x7a\xf9\xea\x42\x3d\x7b\xfa\xfc\x22\x98\x9e\x9e\xaa\x37\xba\xd8\xa6\x69\x9c\x5e\x72\x03\x75\x13\x27\x89\xca\xae\x75\x71\x53\xc4\x95\x56\xd5\x3a\x2e\xd5\x2a\x4e\x34\x35\xfe\x59\x17\x65\x9c\xa5\x67\x6a\xb7\x0b\xe4\xf9\xee\xce\xf9\xa0\x9e\xc2\x68\xee\x57\xfc\x0d\x2d\xa6\x79\xb8\xbc\x0a\x2f\x35\x7e\x79\xcd\x8f\x2f\xc3\x0d\x7d\x81\xce\x17\x66\x0c\xb5\xcc\xd2\x2a\x8c\xd3\x52\x6d\x74\xb5\xce\xa2\x52\x55\x99\xda\x84\x57\x5a\xc5\x69\x14\x5f\xc7\xd1\x36\x4c\x94\x4e\xa3\x3c\x8b\xd3\x0a\xba\x14\xd9\x46\x95\xba\xb8\x8e\x97\xba\x9c\x23\xa4\x42\x7f\xda\xea\xb2\x52\x61\x1a\xc1\x73\x99\x67\x69\x09\x53\xb8\xcd\x35\x41\xc2\xa6\x38\xa3\x0c\x5e\x5a\x28\x73\x15\x96\xea\x46\xc3\xa4\xe1\x6f\x9d\x2e\x81\x6e\x45\x89\x00\x10\x5e\xa4\xe5\xf7\x2a\x2b\xa4\x23\x41\x9b\xd3\x8b\x10\x29\xb5\x52\xd9\xb6\x50\xe5\x36\xcf\xb3\x02\x29\x5d\x15\x61\x5a\xe2\x33\x0e\x17\x87\x49\xfc\xcf\xb0\x02\x42\x20\x34\xe8\xb3\x09\xab\x32\x98\x4e\xe3\x0d\xb5\xf0\xa6\x93\xd9\xe2\xb6\xd2\xe5\x0c\x1e\x70\xee\xfa\x73\x85\x8f\x84\x06\x2c\xc9\xe9\x3f\xca\x2c\xc5\x17\xab\x0d\xbd\x8f\x33\xfe\xff\x69\x9c\x6d\xab\x38\xc1\x1f\xa9\xae\x4e\xd7\x55\x95\x9b\xe7\x6d\x41\xaf\xcb\xaa\x00\x78\xd7\xf2\x08\xa0\x60\x08\x78\xbe\x8c\xab\xf5\x76\x11\x2c\xb3\xcd\xe9\x65\x76\x72\x15\x57\xa7\xf8\x9f\xa1\x05\xb4\x0e\xd3\xdb\x7c\xa1\x66\x97\x59\x76\x09\x4b\x7e\x99\x25\x61\x7a\x19\x64\xc5\xe5\x69\x5e\x64\x55\xb6\xd8\xae\x4e\x69\xfe\xa7\x57\x69\x76\x93\x9e\x52\x6b\xe8\x15\x6d\x0b\x9a\xe4\x11\x5d\xeb\x2e\xd0\x5f\x6f\xf2\xea\x98\x71\xa5\x3d\xf4\x5c\xc5\x3a\x89\x36\x61\x79\x75\x44\x6f\xa7\x0f\x40\x00\xf2\x6c\x97\xd5\x11\xdd\x4d\x07\xe8\x5b\xc5\x1b\xe0\xb6\x70\x93\x1f\xd1\xdd\xe9\x03\x10\x6e\x8a\x30\xcf\x81\xc1\x8e\x00\x50\x77\xe9\x2e\x69\x01\x9b\x37\x3c\xdd\x6c\x3f\xcf\x9a\x5f\xf2\xab\xcb\x53\x5d\x14\x59\x41\x9c\x36\x32\x90\xe5\x3c\x7a\x63\xd8\x6f\xa4\x03\x3d\x20\x22\xbb\xdd\x89\x8a\x57\x4a\x7f\x52\xc1\x93\x2c\x5d\xc5\x97\xc1\x85\xdd\x09\x33\xd8\x29\x33\x35\x4b\x81\xf9\x67\x0a\x36\x7d\x03\x37\x7c\x7b\x02\x3c\x8d\x7f\xc3\x10\x33\x06\x05\x3c\x89\x0d\x0f\x80\x7a\x59\xe4\x4b\x03\xb5\x83\x27\x7d\x1c\xfc\x72\x0a\x62\x26\x8c\xc2\x2a\x6c\x0f\x7a\xf0\x90\xf8\x54\xef\xf8\x81\xfd\x65\x1b\x18\x74\x9c\xb1\x70\xef\x1e\x01\x40\xb6\xfa\x51\xc4\xc6\xa7\x23\x86\xa0\x8e\x2e\x8e\xfe\x74\x3a\xbd\x0e\x0b\x94\x56\x1f\xd5\xb9\x02\x59\x14\xbc\xcd\x41\xa6\x54\xfc\x9b\x04\x18\xa0\xb1\xc9\xc3\x42\xf3\x2b\x91\x3e\xc1\xa3\x2a\x8b\xf9\x4d\x63\x9a\xc1\x4b\x7d\xf3\x16\x65\x71\xc1\x1f\x59\x9a\x05\x2f\xb3\xfc\x49\x02\x22\xd6\xbe\x05\xa0\xf9\x2d\xff\x60\xe6\x0d\x7e\x01\xde\x9f\x4e\x40\x94\xca\x7a\x1a\x36\x64\xa9\x8c\x4d\x49\x24\x05\x8f\x52\xea\x57\x0b\x99\xe0\xa9\x3c\xe2\x6b\x11\x1f\xc1\x33\xfc\x1b\x5f\x98\x2d\x1d\xbc\xa5\x07\x7c\xe5\x6c\xd3\xe0\xc2\x3c\xe3\x87\x7a\xfb\x61\x6b\xd8\x2a\x3f\x87\xc9\x96\xe6\xed\xc8\x95\xe0\x7b\x7c\x7e\x01\xcf\x48\xbd\xd3\x07\x07\xfd\x51\xcf\xac\x66\x7b\x70\xf0\x9f\x53\xd2\xa0\xcf\x53\x15\xb2\x7a\x2b\xe6\x2a\xae\xbe\x29\xd5\xb6\xd4\xab\x6d\x42\x6a\x6a\xb5\x4d\x97\x38\x75\xd0\x81\xeb\xb0\x52\xa9\x46\x2d\x95\xa9\x2c\x27\xdb\x40\x65\xd8\x17\x9e\x4f\x8c\x1a\x40\x80\x8b\xb0\x8c\xcb\x40\x7d\x0f\xdd\xf5\x67\x98\x79\xa2\xe7\xea\x36\xdb\xaa\x4d\x7c\xb9\xae\x54\x1e\x96\xa8\x22\x1d\x84\x01\x5e\x68\x07\xe2\x71\x60\x6d\xa2\x2d\x28\x66\x04\x07\x6d\x91\x03\x82\x1f\x41\xaf\x26\x88\xe3\x0d\x30\xa1\xd2\xe1\x72\x2d\x9a\x5e\x79\x66\x74\x1f\xbe\x15\x80\xe1\x36\x67\xa0\x65\xae\x97\xf1\x2a\x5e\xc2\xa0\xd5\x3a\x50\xde\x73\xc2\x0f\x0c\x06\x80\xbf\x08\x17\xc9\x2d\xb4\xd9\xc4\xb0\x3c\x64\x25\x80\xc6\x2e\xe3\xcb\x14\xbb\xc6\xe9\x75\x76\x85\xea\x5e\xab\xb7\x6c\x23\x58\xab\x82\x50\xd4\x08\xa7\x9e\x01\xf3\x00\x82\x30\x94\x0c\x7c\x68\x61\xa9\xbb\x4c\x62\x9d\x56\x4d\xea\xc2\x28\xcb\x2c\x49\x34\xf5\x33\x06\x0a\x60\x04\xcc\xcf\xe0\x60\x1e\xb5\xb9\x02\xff\x83\x09\x21\xc0\x12\xd8\x26\x61\x53\x82\x69\x15\x23\x85\x37\x9a\x28\xe9\xe0\x0b\x3d\x74\xb1\x0a\x97\x7a\x68\x25\x10\x98\x1d\xac\xdf\x48\xda\xe2\x60\xaa\x29\x41\x70\x03\x3e\x91\xf9\x80\x1c\x58\xc4\x29\xd1\x69\x23\x28\x3a\x0b\x3b\x17\x53\xaa\xda\x16\x29\x4c\x1d\x67\x8c\x08\x2e\x61\x9a\xba\x40\x8b\x29\x34\xc8\x06\x53\x9a\x4e\x87\xa0\xbb\xe9\xe4\x5d\x6a\xe7\xa7\x23\xb0\x00\x4d\x0f\x36\x01\x45\x12\xec\x76\x80\x22\x58\x88\x5f\xc7\xea\xec\x5c\xd9\x36\x2f\x78\xc9\x58\x2c\x7f\x1d\x4b\x1f\x33\x8a\x82\x3f\x66\xaa\x81\x79\x09\xa0\x58\x70\xb1\x75\x69\x31\xda\x3f\x04\x32\x30\x70\x62\xdd\xc5\x57\xce\xa0\xde\xb2\xfa\xac\xc4\x4a\x43\xb1\x8b\x7f\xcf\x91\x61\x1e\xec\x76\x3f\x64\xd8\x06\x20\x07\x6f\xd8\x04\xbd\x00\x62\x48\x3f\x5f\x79\xad\x16\x6c\x98\x3a\x4d\xe6\x2c\xe0\x7c\xa4\x96\xb1\x5b\xe9\x1d\x22\xaa\x83\x9e\x99\x23\x32\x38\xb8\x3f\x9d\xa0\x22\x80\x96\x5f\x9d\xab\x34\x4e\x10\xc2\x44\xd6\x0b\x7e\x12\x90\xe9\xe4\x6e\x6a\xde\x19\xe8\xc1\x5e\x9c\xfc\x39\x02\x00\x22\x1a\x72\x22\x31\x5f\xe0\x36\x73\x29\x4a\x1b\xf9\x6b\x10\x23\x48\xd1\x3b\x6c\x7c\xa2\x5c\x2a\xc3\xa7\x21\x42\x23\xac\xbe\x99\x95\x48\x74\xa7\x9b\xcb\x26\x7e\x77\xb9\x99\x66\x34\x39\x04\xdb\xbf\x4a\xc6\x31\xb0\x3b\x6a\x87\xcb\x62\x5d\x04\xe7\x35\x93\xbd\x5e\x0e\x80\xfd\x09\x27\x22\x10\x3a\x74\xeb\xac\x36\x74\xb9\xb6\x6b\x57\x06\x2d\x06\x22\x54\xb0\x4d\x77\xd5\xba\xcb\x86\xeb\x66\xde\x5e\xf3\x72\x4c\xee\xa6\x4c\x64\x5e\x13\x77\x6d\x50\x39\x3e\x4a\x92\x67\x9f\x97\x3a\xaf\x48\x4f\x95\x2c\x62\x2d\xa5\x48\x43\xa1\xcb\x22\x7b\xb3\xde\xac\xb4\x8c\x24\x9b\x7a\xfc\x82\xe0\x45\x1c\x81\xd8\xbe\x01\xfd\x4e\x5e\xe0\xbb\xd2\xf8\x85\xe8\x04\xe5\x79\x72\x8b\x22\x06\xc5\x66\x85\xc0\x37\xb6\x35\xe9\x05\x0d\xcb\x76\x6b\x97\x0d\xf7\x0b\x4a\x90\xd2\x48\x0d\x80\xf7\x2a\x47\xad\x81\x92\x73\xee\x08\xae\x25\xc8\xa1\x85\x26\x5d\x03\x62\x14\xba\x81\x0f\x9b\x22\xd9\x01\x26\xbc\xd7\x9f\x97\xc9\x36\x82\x2f\xe4\x05\x2e\x34\xa2\xc0\xba\x39\x0a\x3a\xd4\xf0\x6a\x9c\xe6\x6a\xf6\xb6\x0a\xab\x6d\x39\x83\xa7\xd7\xd0\x6b\xe6\xdb\x7d\xff\xc0\xd9\xf8\x43\xfd\x55\x0f\x55\xe6\x35\x36\x41\x10\xb0\xc3\x45\xcc\x13\xa7\xf2\x1a\x58\x61\x13\xe6\xef\xf9\xd3\x07\x26\xff\xee\x0e\x57\xbd\xbd\x61\xfa\x24\xdf\x64\x32\x73\xd8\x68\x06\x0e\xf6\xdd\x5c\xba\x8a\x19\x09\x1c\x30\xc1\xd5\xf8\x88\xa8\x10\xbb\x12\x48\x8b\xd6\x8e\x39\x0e\x3e\x67\x57\xf8\xd9\x20\xf6\x5e\x7f\xfe\xf0\x9d\xfa\x0a\x5e\x12\x07\xe6\x61\x1a\x2f\xbd\xda\xc2\x5b\x79\xb3\x67\x06\x84\x5d\xc1\x6f\xee\x95\xdf\xa8\x28\x83\xd5\x4d\xb3\x0a\x86\x00\xe5\xfb\x1d\xac\xa7\x76\x17\xde\xf2\x0e\x99\xf4\x88\x94\xef\x0b\x3f\x47\x3a\xd1\x95\xf6\x0c\x06\xf4\xad\x9e\x00\xbc\xae\xd1\xb7\xe4\x3b\x9c\x50\x30\x49\x04\x71\x7e\xae\x1a\x24\xe3\xe9\x4d\x7a\x45\x29\x98\x97\x35\xe6\x5e\x6f\x13\xc4\x9d\x90\x6f\x90\x9c\xb7\xdd\x4f\xe1\x02\x66\x14\xd5\xdc\xc0\x21\x94\x4b\x5d\x19\xde\x45\x7e\xb7\xd4\x23\x16\xbe\x59\xeb\xd4\x7e\xcd\x1c\x76\x15\x60\xcc\x75\x73\xde\x65\xb2\x11\xb6\xdc\x58\x71\x5c\x26\xe4\xe0\x0e\xd8\x45\x60\xd4\xc0\x5f\x64\x66\x39\x5c\x7a\xb3\x8e\x61\xe7\x63\xd7\x12\x86\xee\x41\x41\x34\xb9\xf4\x36\x76\x4c\x56\x88\x1e\xef\xce\x8a\x84\x2b\x33\xf0\xbc\x2b\x85\x7b\x04\xf3\x74\x68\x5e\x5f\x2c\x9b\x3a\x48\xcd\x65\x9e\x44\xf1\x42\x2f\x75\x7c\xcd\x16\x1f\x4d\x11\x80\xb9\xf3\x0e\xc0\x54\xd1\x16\x8c\x03\x85\x3e\x18\x43\xd4\xee\x7b\x44\x14\x39\x32\x02\x1f\x31\x4e\xc8\x68\x34\xdb\x89\x82\x39\x62\xec\x86\x49\x5c\xdd\x06\x63\x22\xa4\x31\x77\x57\x92\x1c\x4d\xd1\xff\x97\x33\xff\x77\xe4\x4c\xa3\xdb\x5c\x1d\x25\x76\x0e\x0f\x50\x1c\xea\x7a\xfe\xf0\xe6\xf5\x13\xb6\xb0\x8e\xf6\x3d\xd1\x8c\x73\xba\x63\xb8\xb6\xac\x8d\x81\x5a\x9f\x87\xd7\xb0\x8d\xc0\x61\xd3\xec\x36\x5c\x42\x17\x35\xe0\x0c\x04\xb5\x81\x58\x43\xf6\x6a\x50\x8e\x7b\x92\xe5\xec\xda\xc2\x7e\x68\xc4\x62\x02\xee\xc4\xa6\x85\x3f\x34\x10\x2e\x57\xe9\x34\x2c\x71\xc1\xdf\x7f\x18\x86\x84\xcb\xdb\xf7\xf5\xb1\x06\xa6\xd2\x1e\x62\xfb\x42\x62\x4a\x17\x99\x58\x9f\xfe\x9c\x0c\xf0\xe6\x38\xe7\x68\x38\xc1\x8c\xbc\xc6\x6b\x3b\x1f\x98\x8e\x4f\x81\x8e\xdd\x4e\x5d\x64\x3f\x65\x37\x80\x6b\x63\x06\x14\xd9\x11\xd3\xf0\x3e\x62\xc4\x78\xec\xd0\x4d\xda\xcb\xbd\xbb\x9d\x81\x69\x59\xee\x4c\x35\xa7\x65\x43\x34\x1e\xf2\x60\xbd\xcb\x7a\xb8\x14\x45\xc4\xe4\x29\x45\xca\x71\xfe\x4e\x0b\xb1\x8e\xa9\xc1\xb3\xb4\xb7\x81\xf8\x3a\xd8\xa2\x41\x09\x20\x00\xbe\x44\xda\xf5\xe8\xdc\x7a\xc2\x6d\xd7\xd9\x1a\xe7\xfd\xeb\x6d\x0d\x7d\xd6\x72\x0e\x9c\x3f\xc0\x5d\xed\x10\x19\xbc\xd5\x26\x95\x25\x1e\xe2\x18\xf4\xe2\x66\x49\xa0\x02\x25\x95\x83\x23\x46\x35\x0c\x6a\x87\xcf\xf4\x40\xb7\xb7\x54\x0f\xea\xa1\x7c\xe5\x7a\x39\x63\xfe\x2f\xba\x47\xbf\xaf\x03\xfc\x11\x81\xe6\x0d\x17\xaa\x43\x49\xde\x76\xc8\x4d\xae\x53\x75\xa4\x27\x9c\x7f\xa1\x13\x2c\x14\x66\x96\xdf\x4f\x5e\xe8\x31\xb6\x3b\x30\x96\x15\xaa\x66\x8c\x38\xe0\x0e\xd2\xe2\x7b\x5c\x1f\x8a\x13\x61\x54\x55\x17\x28\x4c\x69\x17\xb0\x08\xed\xb2\x99\xf1\x76\x29\x80\x06\x76\x63\x71\x12\x65\x9b\x10\x5c\xa8\x91\xc6\x81\x7a\x5d\xc4\x9b\xb0\x88\x93\x5b\x13\xde\x72\x63\x61\xcc\x24\x63\xf3\xf0\x3e\x76\x99\x03\xe7\x02\x9f\x5b\x6e\x77\xdb\xdb\xb6\x81\x0f\x72\xb4\xa5\xcf\x21\x8e\xb6\x5d\xc9\x4f\x23\xcb\xc4\x82\xe7\xa0\x65\x1a\x95\x51\xbd\xeb\xc4\x3d\x4c\x93\xa1\x85\xda\xbf\x04\x26\x55\x99\xd5\x9a\xb1\xaf\x19\xb8\xda\x07\xad\xd3\xe8\x44\xfa\x16\xaa\x2f\x12\x32\xb6\x52\x65\xce\x31\x91\x83\x83\x49\x8d\x00\x54\xdf\x6a\xfd\xa8\x13\x0c\xab\x4f\x79\x02\xbd\x8a\xb4\x5f\x00\x6d\x22\x65\xd2\x38\xc1\x8b\xa7\x7e\xbb\x01\xe2\x8b\x62\xf4\x6a\xae\xae\x6b\x8b\x6f\x63\x4d\xd5\xeb\x46\x08\x86\xb2\xd1\x5a\x5d\xe9\x5b\x5a\xee\x08\x8d\xc2\x45\x06\xfe\x07\xd0\xd8\x8c\x22\x79\x5c\xe5\x5d\xf9\xe2\x7e\x60\x53\x70\x40\x12\x5c\x2f\x81\x12\x8a\xd3\x45\xe1\xd6\x27\x61\x9a\x81\xc1\x1b\x26\x3f\xea\x30\xd2\xc5\x5f\x01\xba\xf8\x26\x38\x50\x99\x49\x10\xb8\x12\x57\xcf\x80\x58\x2e\xb5\x89\x7d\x68\xf0\x81\x80\x17\x78\x64\xfc\x8e\xa4\x38\xb7\x73\xfd\x05\x3e\x53\x1e\x82\xa5\x21\xce\xf5\xfd\xc3\x0f\xfe\xde\x86\x03\xd8\xc1\xcc\x6a\x08\x62\xf5\xcb\xf2\x41\x37\xd2\x51\x47\xd8\x95\x1c\x69\x3e\xda\xae\x04\x0b\xc4\xe9\xcd\xc3\x53\xd6\x41\x42\x47\x6a\x11\x2e\xaf\xb8\xb4\x41\xf6\x0c\x87\xe8\x71\xae\xa9\x26\xdf\x2c\x50\xcf\x49\xbc\x4a\xb0\x5f\xd8\x35\x5e\xc4\xe8\xb3\x99\x25\x90\x58\x36\x6c\xbd\x28\x0e\x13\x0e\x78\x27\x21\xf0\x3d\xc0\xcb\x30\x0c\x4b\x8d\x6a\x98\xcc\xa0\x0d\xec\x3c\xfc\xcc\xea\x33\xe0\x37\xc0\x7c\xe9\x88\x71\xca\x8d\x8c\x71\xea\x0d\x18\x19\xee\x96\x43\x0b\xa1\x1d\x6b\x9d\x38\x6f\xf3\xab\x4b\xda\x7e\x12\x72\x6d\x16\x59\x4c\xba\x5e\x4d\x7f\x5c\x76\x82\x79\xbe\x1e\xd1\x63\x5d\x98\xae\x93\x3f\xd9\xf5\x1b\x94\x8e\xd7\xd3\xb1\x2c\x85\x6a\xc4\x9e\x48\x28\xe3\x79\xca\x24\x40\xbd\xf7\x45\x80\x67\xf3\x8e\x87\x3a\x66\x59\xd6\xa6\xe7\x80\xd6\x72\x4c\xcf\x3d\xd2\x8b\xdd\xe0\x49\xd6\x34\x4d\x2d\x0d\x3c\xf2\x2b\x09\x8c\xd8\xa9\xf5\x93\x15\x71\x66\x03\x59\xdf\x65\xaf\xa9\xae\x4e\x04\x54\x87\xa6\x67\x98\xf7\x18\xa1\xf9\xbc\x1e\x77\x72\x67\x84\x2d\xee\x00\xa4\x81\x92\x1d\xf5\xdb\xcd\x97\x11\xbd\x68\xec\x97\x71\xbd\x38\xae\xe9\x0e\x35\x5f\x44\x07\x0d\xe8\x45\x16\x0a\xe3\xf6\xcb\xb0\x5e\x64\x63\x04\x91\x39\x50\x31\x62\x53\x6b\xc4\xa0\xba\x3e\x4a\x35\xe6\x18\x02\xef\xea\x46\x77\xd9\x7e\xbb\x39\x33\x6c\x75\x1a\x6b\x66\xd4\xea\x3c\xd0\x9e\xdc\x6b\xcb\x8c\x5a\x9d\x8d\x55\x1b\x9b\x47\xbf\x31\xd3\x97\xec\x19\xb7\x3a\x8f\x48\xef\x8c\x5b\x9d\x82\x05\x29\xd9\xf2\x22\x73\x0d\x19\xa6\x79\x9f\x26\x70\x48\xce\x53\x1e\x81\xe2\x81\xcd\x50\xaa\xf7\x1f\x4c\xf8\x6f\x0f\xbc\x83\xd2\x63\x60\x0e\x3d\xd8\x67\x44\x91\x6e\xc8\xc3\xb8\xa8\x07\x87\x97\x12\x0c\xbc\xaa\x4d\x2b\x42\x6f\x27\x31\xb2\x6b\x13\x08\x84\x61\x03\x36\x3c\xae\xfc\x40\x82\x9e\xfe\x77\xca\x04\x04\x27\x0c\xd8\x46\x45\xe8\x27\x1b\x32\x36\x08\x86\x42\x14\x61\x72\x53\xd7\x6a\x7b\x00\xf8\x9f\xd7\x56\xe0\x5f\x40\x06\x7a\xf0\x6e\x5e\xbf\x7a\x8d\x7d\x18\x2a\x86\x56\x7c\x03\xce\xb1\x6a\x24\xb2\xc6\x2b\x79\xa8\x7d\xf3\xe3\xc5\xc5\xeb\x2f\x89\x9b\x51\xd2\x9e\xa9\x9c\x12\x7b\x01\xfe\x33\x4c\xa5\x81\x1d\x86\x4a\x86\x2a\xff\xbe\x53\xcb\x75\x58\x94\xba\x3a\xdf\x56\xab\x93\x3f\xcf\x6c\xb8\x0d\x47\x95\xd0\x41\x6d\x18\xa9\xb5\xbc\xa1\x3d\xbb\x3f\x0c\x87\xc0\xb2\x54\xe5\x85\x8e\xf4\x2a\x4e\xc1\x92\xc2\x0a\x8b\xd2\x89\xbd\x39\xc3\xec\x0d\xbe\x35\x0b\x7c\x9a\xc1\x37\xb7\xf4\xc3\xd8\x32\xb0\x8e\x01\xc1\x27\xb3\xbf\x11\x9d\xea\x09\xc8\x0d\x43\xa7\xf5\xef\xfb\x2c\x11\x39\x1e\x03\xed\xda\xb2\x11\x90\xeb\xef\xf4\x0c\xc5\x02\x8b\x1b\x98\xb2\xf3\x63\xb8\xcb\xa3\x15\x88\x15\xaf\xfd\xa5\x7a\x52\x2f\xad\xe7\x2c\xb3\x4f\x80\xba\xb3\x3c\x28\x1c\x28\x51\x22\x0a\xfd\xc1\xe2\xbd\x86\xe5\x82\x35\x2b\x40\x2e\x55\x54\xb3\x8a\xc9\xc9\x72\x19\xe6\x18\xec\x06\xa3\xf5\x16\x98\xe0\x56\xad\xb3\x24\xc2\xaa\x28\xe2\xa5\x70\x59\xa1\x87\xb2\xa1\x3c\xc1\xf6\x33\xda\x62\x6f\xb2\x2d\x4e\xc0\x0f\xde\x95\x9a\x27\x1b\x21\x60\xb0\x69\x1c\xfb\x44\x72\x23\xa8\x69\x06\x16\xcd\x36\x5d\x60\x15\x4a\x7a\x49\x36\x26\x77\x0b\x1e\xf3\x2b\x89\x9c\x6f\x4c\x3f\x0a\x81\x4b\x73\xac\x17\x5e\xa8\x5f\xd5\x45\xf6\x0e\xab\xab\xc0\xb4\xf3\x03\x42\xc3\x6d\x83\x2f\x2e\xf4\x26\x4f\xa8\xa8\x18\x5a\x18\xe6\x1c\xa8\x2e\xf3\x38\x16\xef\xc6\x2e\x05\xa3\x9e\x00\xa6\x58\x89\x38\x3d\x67\x48\xca\xdd\x34\xad\x49\xb1\x37\xb1\xe1\x0f\x9c\x82\x6b\x98\x92\xbd\x61\xcc\x09\x49\x9c\x56\x5d\xa3\x3c\x8a\x08\xda\x98\x72\x15\x87\xeb\x38\xd7\xc7\x81\x4d\xe2\x46\x93\xb5\x33\x23\xfe\x82\xdf\xc1\x4f\x00\x1f\x08\x36\x71\xb8\x4d\x2a\xd4\x9d\xcc\x6e\x08\x8c\x82\x9c\xb0\xfd\xdb\x92\x05\xbc\x1c\x70\x6b\x23\xf2\x81\xf0\x37\x3b\x11\xe8\x8c\xce\x68\x9c\x99\xf5\x5f\xaf\xa9\xba\x0d\x40\xd1\xfb\x80\xb0\xf3\x7c\xf6\x92\x40\xba\x50\x26\x5d\x21\xb2\x08\xea\x3f\x1f\x3e\x04\x97\x6b\xe5\xe0\xeb\x44\x67\x79\x17\x02\xb6\x84\x18\xb4\xc8\x8b\xec\x3a\x46\x07\x7b\xcd\xfb\x93\xb3\x78\x0b\xcd\xd8\x72\xb2\x13\xdb\xd5\x16\x9e\x0b\x9a\xaa\xc0\x6a\xe8\x38\x8b\xe0\x05\x48\xcb\x75\x48\x05\x66\x06\xff\x0d\xbf\x42\x8e\x2c\xb7\xe0\x50\xeb\xa8\x64\x8f\xee\x2f\x6f\x5f\xbd\x94\x7a\xef\xc8\x14\x67\xdb\x8c\x21\xe1\x6e\xd0\xc1\xc4\xeb\xf0\xb4\xb8\x98\x00\xcb\xed\x8b\xb9\x71\x34\xed\xcc\xea\x8f\x0d\x68\x60\x99\x94\x15\x4c\xda\xd0\x8c\x45\xae\x2b\x6f\xfa\xcc\x1a\x5b\x97\x32\x57\x37\x2c\x53\x9b\x6c\x40\xe6\x0c\xae\xea\x5c\x7d\xc4\xed\xe7\x92\x84\x85\xd9\x2f\x5c\xbb\xb8\xa3\x55\x3c\x43\x60\x66\x41\xef\x38\x7a\xba\xa9\x09\xc8\x6a\x1b\x9b\x78\x4d\xda\xd6\x5a\x3b\x66\xe6\x79\x4c\x43\x4a\xd7\x67\x1c\xb4\xb5\x80\x4c\x3f\x24\xb7\x07\x5d\x9d\x66\xe7\x8e\x06\x27\x66\x3c\xb7\xe0\x4c\xd8\x61\x72\x13\x30\xdb\x80\x7c\x02\xa1\xea\xcd\x44\xac\x9e\xa0\x2c\x9d\xcd\x5d\x05\xca\x13\x58\x1b\x26\x73\xf1\x6f\x8a\x07\xc3\x87\xf5\x3c\x28\x3c\x54\x1b\x30\x06\x86\xb4\x2c\x3d\xae\x03\x6a\xe3\x02\xb6\x49\xb7\x65\xf0\x03\x7e\xf1\x6d\xdc\x64\x42\x5b\xe3\x8c\x0b\x60\x03\x66\x87\xe7\x68\x88\xa6\x61\xe2\xa8\x1c\xc2\xbd\x5c\x8e\x60\xed\xb0\x59\x8d\x38\x01\x3f\x87\x8e\xce\x67\x71\x46\x6f\x02\x62\x0a\xc1\x18\x1b\xfa\xf6\xa5\x87\xd4\xf6\x51\xde\xd4\x7c\xc7\xd2\xaf\xf0\xb0\x98\xf6\xfd\x07\xac\xe9\xf5\x85\xd7\x77\x1c\x15\xb8\x51\x2e\x0b\xd9\x58\xbb\xe1\xb3\x77\xa9\xac\x2c\x42\x98\xab\xfb\x37\x80\x65\x2b\x16\xcf\x36\x4f\x19\xff\x13\x71\xfe\xf3\xb7\xff\xfd\x5f\xcc\x42\x89\x4e\xb1\x8f\xaf\xfe\x87\xbf\x31\x3f\x00\x1a\xe7\x0a\xfe\xff\xfe\x0c\x5f\x7e\x68\xd6\x42\x61\xe2\x98\xe8\xb6\xf2\x66\x36\x72\x49\x2c\x84\x39\xe3\x33\x0c\xa3\x61\xca\x38\x47\xe3\x49\xa5\x59\x7a\x42\x32\xce\xb8\x05\xd8\x10\x78\x07\xc7\x6c\x84\xb6\xa4\xc6\x18\xd4\x87\x77\xc3\xe0\x89\x46\x24\x43\xdd\xb9\x3b\xa9\x22\x6a\xa5\xd8\x9a\x55\x7f\xc7\x51\xce\x44\x80\xfe\x5d\xc4\x39\xae\xa2\xb4\x02\xf1\x5b\xae\x62\x11\xe7\x86\x0b\x49\x50\x39\x8b\x5b\x3b\x2d\x58\x30\x4a\xc2\x44\x8e\xce\x1c\x52\x1a\x2e\xc5\x1b\xce\xa0\x16\x55\x16\x9a\x93\xb2\x96\x48\x14\xbd\x31\xb2\x17\xfe\x38\x85\x03\xd6\xc0\x37\x3c\xe2\xad\x6b\xa0\xbe\x72\xb9\x4d\x35\x4b\xf0\xd6\x41\x3d\xc2\x40\xef\x7a\x5b\xb1\x61\x48\x3f\x1b\x20\x04\x29\x21\x21\x07\x3d\xa9\xa2\xda\x5a\xbb\x48\x42\x72\x4c\x44\x62\x63\xbd\x47\x54\xd7\x90\x6c\xca\x4b\xf6\x23\xd1\xa4\x55\x40\x07\x58\xf9\xe2\x76\x2a\x71\xd9\x9b\xb5\xa6\x68\x6a\x4c\x5e\x30\x58\xc8\x67\xb0\x85\xc2\x24\x44\x1b\xaa\x64\xcb\x89\xaa\x12\xb0\x28\x63\xbb\x31\x2f\xe3\x42\xc1\xaf\x05\x2f\x19\x83\xba\xad\xd6\xb8\xf0\x3a\x29\x29\xa9\x8d\x32\x6e\x6e\x0a\xdc\x48\x9f\xc0\x08\xeb\xb0\x64\x54\x90\xed\x44\xd2\x3b\x33\xf2\x10\x55\x2a\x63\x07\xb3\xa8\x2c\x61\xa1\xe7\x5c\xbc\x62\xdc\x3b\x8f\xa6\x69\xaa\x44\x60\xe3\x2f\xb2\x2c\x69\x17\x29\xb2\x41\x57\x82\x89\x84\x90\xde\xe8\x15\xd6\xf2\xa0\x24\x60\x8a\xe0\xc7\xe0\x29\xd8\x86\x45\x9c\x57\x28\xee\xb9\x3e\x1d\xe5\xd5\xe3\xdb\x0b\x80\x8f\xf6\x90\x87\xc3\xb2\x14\xe5\x5e\xe7\x9d\x34\xda\x0c\xb6\xcd\x2a\x4c\xa4\x36\x15\x37\x8b\xd9\x85\xf7\x4a\x9a\x68\x9a\x49\xdf\x7b\x9f\xa0\x69\x7b\xcc\x6d\x92\xd0\x40\x3e\x4f\x91\x05\x15\x0c\xf7\xd5\x06\x2c\xb9\xd2\xa3\x9e\xbe\xba\x7f\x5f\xf1\x23\xbe\x7c\x0d\xdb\x1b\x94\x34\xf2\xd9\xaf\xbf\x32\xec\xe0\x79\xf9\x53\x0c\x8e\x7f\xe3\xcd\x8b\x30\xf7\x7c\x7f\x00\x57\xa9\x9b\xa4\xa1\x5a\x20\x60\xb0\xaf\x1a\x30\xf0\x0d\xbf\x90\xe5\x80\x57\x0e\x21\xb8\xb6\x85\x8e\x3c\x30\x55\x51\xde\x33\xe2\xc1\x73\xb3\x73\x61\xae\x9e\xc8\xd0\xef\xd4\x57\xdc\xd8\x2d\xf0\xac\xeb\x5e\xbc\x21\x00\x40\x22\xd8\xb9\x06\x77\xd1\x25\x59\xca\xc1\xa5\x0d\xc9\x28\x9f\x5f\x90\x2e\x22\x00\xf3\x06\x3a\xf0\x59\x24\x32\x7a\x5d\xd0\xcb\x9e\xe8\x31\x2a\x59\x4c\x54\xc4\xec\x51\x92\x64\x37\xaf\xc3\xa2\x8a\xc3\x84\x82\x8b\x34\x38\x7c\x00\xa7\x80\x58\x0a\xd7\xad\x3c\x6b\x7e\x78\x06\xdb\xe1\x25\xed\x08\xfc\x62\x3e\x3c\xdb\xc4\xd5\xbb\x34\xcf\xf2\x2d\x9a\xe9\xd1\x99\xf9\x00\xf8\xa3\x27\x6e\xd3\xba\x35\x72\xd6\x46\xa1\xe9\xb8\x44\x18\xc9\xe8\x76\x59\x11\xa5\xf3\x0a\xed\x9c\xb9\x9a\x2d\xb3\x6d\x12\xa5\xdf\x54\x62\xe0\x59\xa6\xc4\x5d\x4a\x87\x9a\x5c\x0e\x44\xed\x46\x0d\x4a\x57\x04\x12\xa5\xde\x84\x37\xc2\x06\x23\x0a\x8f\xa7\x75\x9f\x41\x74\xd5\x5e\x2f\xc2\x6e\x22\x9a\x07\xe4\x65\x2b\xdf\x23\x5e\x1f\x1a\xcb\xcf\x52\x70\x6b\xc6\x63\x41\x08\x52\xab\x1c\x92\x7c\x54\x11\x1b\x57\x2c\x90\x48\xd8\x88\xdc\x69\xc2\xd8\x23\x7a\xe6\xca\x91\x3c\x8e\x31\x80\xbb\x88\x28\xf0\x33\x98\xd5\x91\x30\x3a\x49\xa9\xe6\x06\x6c\x4b\x88\x4f\x28\x6c\x51\x2d\xcb\x02\x50\x0f\xa2\xc3\xa0\xf4\xea\x30\xbc\x9d\x40\x87\xa7\xed\x72\x8c\x70\xb5\x61\xd1\xa7\x31\x88\xfb\x22\x7a\x97\xd2\x81\x3a\x97\x43\xeb\x35\x76\x47\x72\xd6\x5a\x66\xdb\xa8\x5c\xdb\xdd\xfb\x74\xa6\xee\x95\x77\xc2\x54\x32\x33\x58\xc2\x0e\x3f\x0f\xf1\x86\x61\x88\x2f\x93\xd6\x34\x8c\x23\x40\x11\xf0\xc6\x15\x0b\xd4\xa0\x21\x19\xee\x58\x67\x71\xcb\x27\x89\x0e\x0b\xf9\xe6\xf2\x65\xcd\x7b\xcb\x2c\xbf\x65\x1c\x7a\xf9\xae\x44\xc6\x8b\x38\xe4\x7b\x83\xc1\x27\x52\xa1\x18\x8e\x00\xc5\x57\x16\x4b\xe1\xbe\x1a\x8a\x07\x8d\xe7\xf8\xa5\x8f\xfd\xca\x56\x6d\x23\x4c\x80\x64\x2d\xf4\x69\x31\x08\x81\xe8\xaa\x3c\x8e\x48\xa6\x92\x0d\x63\x9b\x9e\x01\x93\xb1\x6f\x68\x5c\x1e\x4c\x63\x32\xce\xdb\x14\x9e\x44\x2e\x89\xcb\x26\x7d\x27\x4e\xad\x12\x9a\x20\x5d\xe3\xa5\xdf\x60\xe9\x35\x1c\xe8\xe0\x13\x93\xd0\xc2\xda\xbb\x77\x91\xd1\x1e\x88\x81\x20\xf6\x29\x60\xcd\x8e\x64\x06\xae\x0b\xd1\xa6\x65\x87\x58\xa1\x88\xdb\xc0\x68\x3d\x54\xc7\x58\xb7\x09\xca\x96\xe4\x01\x56\x3c\xce\x98\x04\xba\x3e\x98\x67\x76\x79\xde\x88\x49\x29\xde\xf4\x74\xde\x6e\xd6\x52\xfa\xda\xdd\x07\x88\x29\x02\x33\x1f\xed\x48\xc1\xac\x31\x70\x10\xcc\xdc\x7d\x23\x47\x9b\x03\xcc\xb4\xe0\x0e\xe3\xe9\x41\x27\xf8\xdf\xbd\x3f\x3d\x83\xbf\x4e\xbe\x6d\xb0\xf4\xb6\x48\x28\x8a\xf4\x8c\xc2\x64\x2c\xb4\x9c\x65\xfa\x19\x4d\x40\x77\x95\xb6\xa9\x04\xd4\x54\xde\x0a\xb6\x61\x50\xc5\x26\x0d\xea\xc5\x41\x08\x1e\x50\x5e\xdc\x73\xfa\x0c\x36\x5c\xb3\x26\xd7\x2c\x90\x18\x6f\xd7\x38\x6a\xa7\x70\x17\xfe\xda\xdd\x31\x37\xb3\x54\xa1\x48\x8c\x53\xc1\xb0\xc5\x80\x3a\x8e\xc6\x8b\x51\xc7\x08\x50\x7a\xc9\x3c\xdf\x09\xfe\x1e\x75\x3e\xe0\xd8\x89\x35\xd3\x77\x3d\x5a\xb5\xb3\xb8\x66\x4d\xe7\xae\x7b\xfb\x38\x8c\x4c\xb8\x0c\x61\xde\x89\xeb\x86\xb3\x64\xe5\x06\x0b\x8d\xc8\xba\xeb\x82\x1f\x5d\x65\x17\x46\x11\x6f\x19\x78\x18\xdc\x2f\x12\x1e\x22\xd3\x7e\x8e\x01\x65\x6b\xcf\xcb\x82\x18\x28\x3c\xfb\x92\xa8\xc2\x19\x95\xb9\xda\x67\x76\x5b\x75\xe7\x6c\x19\xa6\xed\xd8\xa6\x19\x95\xee\x28\xaa\xaf\x24\x93\x82\x48\x04\x8f\xa2\xc8\x73\x34\x46\xbf\xec\x65\x84\xd0\x5c\x6d\x70\x26\xcd\xda\x65\x48\x3a\x8b\xa3\x12\x6c\xc7\x45\xf4\xb4\x33\xd4\x23\x39\x6c\x58\x83\x32\x25\xf3\x68\x22\x61\x40\x0a\x4f\x4e\xa6\xd4\x7d\x93\x15\x94\xcd\xbd\x8c\xaf\xe1\x8d\x38\x34\x42\xcb\x1a\x0d\x8f\xc6\xa8\xf3\x4f\xe6\x49\x6c\x03\x74\xe7\xb1\x05\x99\xcd\xdf\x92\xf8\xc0\x9f\xef\x1f\x7e\x60\xd1\x81\xfb\xd9\x60\xf7\x44\xae\x7b\x78\x94\xde\x9a\x46\xc0\x66\xf3\xf7\x33\xb1\x24\x00\x5c\xc3\x66\x6c\x44\xb4\x68\x10\xd6\xa8\xe7\x5d\x6e\x36\x58\xed\xc4\xba\x42\x38\xfe\x9d\x35\xa5\xa5\x15\xc2\x10\x3a\x13\x41\x3b\x64\xd6\x26\xcc\x47\xfb\x9d\x66\x2e\x62\x5a\xd8\xce\xd2\xaa\xd0\xb9\x46\x83\x97\x65\x89\x59\x16\xba\x5d\x22\x4b\xb1\x80\x64\xb3\xc1\x6c\x0c\x7e\xc2\x63\xa1\xbc\x9b\xb3\xc2\x7c\x27\x53\x2d\x2c\x8a\xd0\xf8\x88\x16\x1f\xc3\xbd\xa3\x14\xe7\x36\x3e\x72\xdf\xb7\x2e\xef\xf1\x7b\xc3\x7e\xfc\xab\x5e\x8a\x66\x85\xa4\x35\x86\xed\xa4\xdf\x1f\x61\x05\x8b\x65\x64\x87\x00\xa1\x70\xdf\x00\x6a\x2e\x13\xb0\x84\x1d\xc1\xd9\x2d\x44\x5c\x12\x83\x57\xda\x7b\x6f\xe5\x24\xce\xce\xc2\xf1\x25\x5a\x17\xcf\x0d\x08\xe7\x0c\x82\x81\x69\x72\x8f\xfd\x78\x4a\x33\xc0\x8e\x38\x2e\xfe\xd0\xb5\xca\x18\x17\xf8\xc4\x47\xd9\x91\x7d\xa4\x97\x93\x8b\x9c\x34\x78\xa8\x63\xce\x97\x60\x1f\x26\x71\x55\xd3\x03\x19\x7b\x66\x94\xcd\x40\x05\xe9\xde\x34\x8b\x53\xc5\xb3\x27\xcf\x62\xab\x36\x46\x13\x1a\xed\x2a\x00\x12\xe3\xfd\xb5\xa7\x04\x92\xef\x43\xc1\x3e\xc8\xaf\x27\x12\x3e\x77\x13\xfc\x75\xae\xa6\xc0\x04\x7e\xab\x26\x80\x3c\x13\x0a\x7f\x01\x56\xe6\x2d\x41\xa6\xe8\xc8\x9e\xd2\xc6\x89\x53\xc3\x31\x3a\xad\xde\xa2\x80\x8e\x52\x1e\x28\x08\x98\x44\x7a\x85\x79\xd5\x00\x03\xd1\x01\xdd\x48\xe0\xf9\x92\xfe\xc6\x62\x81\xba\x3e\xa0\x35\x57\xa7\x58\xc0\x16\x67\x01\x1b\xda\x66\x08\x8f\xad\x4c\xfa\x4c\x71\x52\xe1\x51\xb9\x01\xe1\x8d\x0e\x23\x70\x5a\x3c\x1e\xfb\xb0\x53\xa2\x1d\xd7\x97\x63\x9f\x05\xa6\x17\x4c\x8a\x07\x27\x6e\xa8\x3d\x33\xe7\x63\x9a\xa1\xd7\x87\x0c\x1c\x27\x49\xbd\x0e\x9e\xe5\x91\x3e\xd9\xb0\x57\x36\xe8\x97\x31\xba\x86\x14\x83\xae\x19\xc7\x9d\x29\xb4\xdd\xb3\xa3\xfb\x82\xcf\xc3\xe1\xe7\xde\x00\xb4\xe0\x71\xb8\xbd\xe4\x06\x9c\x8f\x8d\x4c\x33\x45\x26\xfd\x76\x15\x7f\x43\x04\x6a\xb4\xee\xb8\x9a\xce\xba\x58\xf7\xa9\x3e\x85\xe8\x61\xe5\x8b\xf1\x89\x7a\x59\x72\x4e\x27\x99\x52\x2e\xac\x93\x3a\x08\xc3\x2b\x75\xba\x72\x8a\xa5\x1a\xd5\xfa\x35\x6a\xb8\xd2\xf2\x6f\x6d\xfa\x1e\x75\xb4\x19\x6f\xf6\xa8\xa1\x21\x6c\xd2\x7a\xfc\x93\x24\x7b\xf0\xee\xcd\x4f\xc1\xdf\xf0\x25\xed\x41\xec\xe0\x34\x99\xba\x89\x67\xeb\xd8\xd9\xd9\x39\x9b\x8d\xef\x74\x49\x4d\xb3\xe0\xa7\x8c\xb3\xa1\x6a\x46\x34\xe7\x36\x58\x6a\xc7\x9f\x7f\xd0\x29\x0d\x6a\xb9\x0b\x53\xd2\xfd\x15\x7e\xe3\x28\xbc\x4a\x75\xb6\xea\xe0\x01\x52\xa4\x83\x07\x4d\xeb\xb7\x20\x62\x89\xcc\x2b\x6f\xac\x4e\x53\x34\x70\xd2\x3a\x2d\x3e\x98\xc5\xee\xd5\x09\x43\x75\xee\xac\x01\x4a\x93\xd2\xb5\xc9\x18\x31\x1e\xdb\x29\x5c\x4e\x68\x17\x47\xd4\xb0\xf7\x20\xd8\x27\xdd\x7b\x13\xa2\x43\x65\xed\xd6\xb6\xff\x77\x0b\x90\xba\x2a\xa1\x27\x3e\x5a\x97\xdb\x37\x3c\x17\xff\x10\xe7\xe3\xe3\x5c\xa4\xa7\xcd\x01\x52\xfa\xcb\x69\xe5\x96\xe1\xd7\x77\xc6\x48\x06\xa7\xaf\x8c\x66\xe0\x3c\x50\x5b\xcf\x0e\xd5\xe3\xd7\x96\x5b\xe1\xe4\x80\x46\x2b\xf0\x49\x8f\x75\xaa\xef\x31\x50\xb2\x0e\x23\xee\x3b\x54\x6f\x4f\x55\xde\x11\x16\x3c\xc5\x6c\xc2\xdb\x23\x93\xce\xf5\x6f\x98\xbe\x27\x28\xc6\x86\x33\x66\x8d\x2d\xf3\x47\x66\xc6\x82\xbb\xce\x61\x80\x46\x3d\x3f\x03\x69\x16\xf5\x8f\x96\xf3\xef\xab\xe6\x37\x14\x72\xd2\xcb\xa3\x5d\x5a\xf8\x53\x3d\x7f\x17\x06\x0a\x2f\x24\xf7\x16\xe4\xa2\xbd\x66\x67\xb9\xc6\x35\x09\xe8\x4b\x98\x94\x19\x2e\x81\xec\x61\x56\x52\xe0\x45\x4f\xc7\x47\x37\x8a\xef\x04\x2f\xa3\x9b\x8b\x10\xc7\x70\x84\xbf\xaf\xa3\x5d\x15\x8c\xe0\x20\xcf\xa1\x10\x99\xf9\x5f\x7c\xfc\x00\x41\x7c\xf9\xf1\x03\xa7\x77\x5d\x65\xd7\x73\xfa\x20\x65\x73\x96\xa5\x17\xf8\x03\xd7\x74\x1d\x46\x25\x54\xdb\x64\x15\x79\xdf\x58\xf3\x11\xa6\x78\x97\xcf\x2f\x78\x60\x3a\xe7\x5b\x83\xf8\x1d\xdf\x24\x04\xca\x99\x0c\xe4\x7a\x90\x08\x2c\xa2\x8c\xee\xcf\x28\x6f\xcb\x4a\x6f\xe6\xc8\x5c\x00\x2b\x89\xaf\x74\x62\x4f\x30\x50\xc4\x70\xb6\xce\xca\xea\x8c\x68\x57\x1f\x51\xa8\x67\xe0\xd9\xa1\x6c\x2a\x71\xa8\x78\xef\xf8\xc3\x09\x98\x12\x30\x2c\xc7\x49\xbb\x55\xfc\xd9\x8e\x08\x4b\x49\xd7\x96\x89\x4f\x6f\xf0\x38\xe7\xd7\x67\xa7\xa7\x33\xf5\x1f\x96\x12\x24\xac\xb6\xad\x40\x16\x18\x4b\x16\xda\xc1\xc7\xfc\xd0\x56\xd8\x4e\xe5\x36\x37\x34\xba\x7a\x7c\x2a\x29\xb1\xe7\xe3\xe8\xb3\x97\x19\x2f\xa4\x53\xe1\xc8\x17\x30\x30\x0f\x50\x05\x0f\x02\xba\xc9\x0a\xd8\x93\x5c\x35\xa9\x44\xd3\x53\xac\xf6\x16\xaf\x82\x24\xd9\xcc\x5f\x63\x24\xe1\xcc\x9f\x36\xec\xa7\xa3\x8a\xea\xc8\x81\x68\xb9\x77\x82\x34\x7e\xe5\xb3\x1f\x8e\x2b\x08\x4f\xfa\x73\xb7\xc7\x43\xd3\x47\x0e\x78\xb4\xfd\xa6\xb1\xf3\x1d\x38\x12\x1b\x9c\x23\xfd\x7a\x6e\x78\x73\x0e\x79\xc8\xb1\x8d\xc1\x5a\x3f\x31\x68\xc9\x7c\x05\x59\xe1\x6d\xd9\x16\xb5\x56\x6a\x08\x4a\x16\xc4\x07\xd6\xfc\x99\xa6\xb5\x75\xb0\xa7\x5a\xaf\x55\xd8\xd7\x28\x00\x6c\x16\xee\xb5\x0f\x78\x4c\xda\x67\x3c\x8c\x95\xed\x14\xef\xf5\xd7\xf4\x8d\x1f\xf6\x18\x5d\x77\x7b\xe8\xe3\x77\x5f\xf9\xa1\xea\x47\x39\x4c\x32\xb4\xb4\xf3\xb6\xb5\xd9\x57\xc3\x58\x1f\x32\xb1\x99\x1e\x5c\xc7\x05\x2c\x9c\x7a\x80\x7b\x18\x7e\xcd\x39\x86\x6e\x82\x58\xe6\x35\xee\xdf\x14\xed\x02\x98\xc3\x03\xec\xc0\x3f\x49\x5f\x88\x7b\x50\x1f\x74\xc7\x2f\x62\xa8\x3c\xa9\x3e\x9b\xea\xf8\xb7\x68\xdf\x2e\xe9\x2a\x84\x6d\x21\xf5\x35\x64\x2a\xc8\xc6\x85\xed\x08\xc6\x56\xc2\xf7\x0e\xb1\x9e\x03\xc9\x4d\x75\xea\xe0\x77\x83\x14\x35\xe6\xab\xa8\x25\x2e\x6e\x64\xb5\xb7\x31\x26\xac\xeb\x43\xa3\xad\x20\x35\x2a\x81\x52\x2f\xb3\x4a\xae\x71\x43\x90\x08\x8b\x24\xc5\x3a\xbc\x06\x17\x4f\xae\x67\x1d\x37\x49\x68\x9c\x05\x15\x2c\xcb\x4d\x46\x74\x69\x0b\x4a\x7e\x83\x1a\x5e\x8a\x27\x45\x8d\xa1\x39\xd3\xc6\x82\x9f\x92\x6d\xb6\x74\xd2\x5e\xb2\xe0\xdc\xb3\x84\x47\xd9\x44\xe1\xca\xe9\x82\x26\xed\xf8\x44\x81\x93\x75\x1b\xd6\x07\x6e\x99\x4e\x4f\x23\x29\xba\x1e\xb9\x87\xeb\x00\xeb\xf0\x77\x3b\x53\x60\x2d\x1e\x29\xd7\xbb\xee\x0b\xdf\x71\xe9\x3f\x05\xe6\xc8\xfe\x45\x05\x30\x70\x42\x6a\xaf\xc0\x6e\x07\xdd\x7a\x85\xcd\x68\xcc\xad\xed\x5f\x49\xc0\x8d\xad\xb1\x76\xd0\xcd\x44\x68\x64\x18\xf7\x6c\x91\x7b\xa8\xb8\x1d\x74\x73\xea\xe5\xd8\xcc\x93\xd2\x56\xfb\x65\x4d\x17\x74\x60\x74\xe2\x4f\x0f\x1f\xba\x35\xbe\xe0\x67\x49\x21\x2b\xf9\x53\x39\x90\x90\xd1\xc4\x0e\x29\xc1\x62\xdf\x8a\x36\x50\x55\x61\xe2\x8f\x0e\x56\xd2\x2c\xdc\xfd\x27\x55\x87\x60\x46\x93\x0b\x53\xe3\x68\x90\xd8\x1b\x14\x34\x27\x84\x7a\x82\x82\xbd\x64\x1f\x8f\x09\x72\x9b\xe3\x83\x82\xc7\x04\xf1\xce\xe9\x4e\xd3\x67\xaf\xbe\x1f\x8c\xe3\x61\x95\x43\x5d\xd0\x48\x12\x87\x62\x47\x9c\x40\x75\x02\x77\x07\xc6\x04\x7b\x42\x82\x16\xe8\xcc\x77\x8e\xd4\x14\x4e\x01\x29\x02\x76\xc2\x4e\xaf\xfe\xba\x3f\xec\xd8\x28\x1f\x05\x57\x63\xe6\xf0\xcc\x99\xfa\xe6\x5e\xf4\x0d\xb9\x01\xf5\x18\x76\x6c\x0e\xaa\x96\xf9\x3e\x6e\x9e\x1e\x1d\x67\x1c\x0c\x33\x0e\x45\x19\x1d\xd2\xee\x89\x31\x22\xc2\x3d\x31\xc6\x0e\x85\x5c\xa2\xb4\x0e\x1c\xdd\xaf\x8f\xc1\x4f\x5a\xe7\xe0\x1d\x01\xd4\x3e\xeb\x77\x40\x7e\x60\x7f\x76\x80\x0d\x82\x46\x04\xe8\xb8\xfc\x40\xe7\x94\xe0\xd4\x7a\xbb\x12\x0e\x82\x3e\x07\xa7\x04\xe8\xca\x51\x3e\x69\x50\xc0\x0e\x2a\x15\x0e\x44\x8e\x09\xe8\xe5\x89\x68\xbf\x86\xf2\xf5\xd0\x26\x98\x9b\x04\x1c\x8a\x1a\x0a\xfa\x1a\x51\x70\xc0\xb4\x0e\xc8\x0f\x0c\x9c\x22\xb4\xa1\xa3\xb1\x73\x83\x63\x11\x73\x13\xc5\x84\x7e\xc4\x0e\xae\x8a\x1a\x74\x7f\xdb\xed\x86\xfd\x6b\x8e\x3c\xbc\xd5\xec\x7c\xb6\x8a\x16\x64\xbf\xd9\xd2\x51\x89\xe5\x52\x31\x8c\x78\x6f\x74\x74\xce\xe6\x4e\x9b\xb7\x61\x95\x7c\x00\xbe\x11\xdf\xc4\x51\xdf\xf2\x7b\x1b\xe0\x34\x0d\xef\xda\x97\x87\xa1\x99\x38\x3b\x9d\x8d\x87\x88\xeb\xe8\x70\x9f\x17\x98\x73\x14\x61\xbc\xff\x60\x35\xa0\xdd\xd5\x4c\x19\x2a\x60\x30\x10\xc9\x24\x20\x4a\xbe\x09\x6f\xc4\xf8\xdc\x9a\x67\xfb\xcd\x7e\xa0\xb7\x4d\x6a\xb7\x53\xf2\x36\xd1\xdf\x17\xc9\x76\xe8\x3a\x14\xb8\x56\xf5\xc9\xfd\xc3\x62\xc6\xd4\x0e\xf7\xc3\xd7\x6e\x95\xab\xf2\xea\xae\x3f\x64\x74\xd6\x50\xfe\x4d\x80\x99\x6f\x9d\x42\x4a\x52\xce\x6c\xd8\xf9\x6f\x36\xc6\x2e\x07\xed\xeb\x54\x28\xa5\xa4\x81\x01\x03\xdb\xf8\x09\x34\x49\xea\xcb\x4f\x65\xc9\xb1\xbe\x0c\x5d\x18\x17\x15\x19\x4e\xec\x3b\xe7\x3a\x8e\x21\x78\x26\x1b\xe3\x14\x4c\x8c\x20\x39\x57\xcd\xba\xbc\x9d\x3b\x3e\x06\x63\xef\xee\xee\x45\x20\x6b\x01\x35\x78\xba\x16\xa9\x3b\x43\xc3\xd0\xf1\xee\x2c\xfa\x82\x6d\x9d\x49\x6e\xd5\x93\xcc\xf9\x08\xf0\x08\x42\x7d\x89\xa8\x26\x9f\x37\xc6\x94\xa3\x7d\xad\x5f\x6d\x6f\x53\xb8\x26\xc3\xcc\xc2\x50\xae\xa1\xcb\x3a\xd4\x7c\x8c\x75\x0c\xd8\xdc\xee\x71\xee\x62\x4e\x28\x1e\x41\x0d\x86\xf1\x87\x93\xc3\xdd\xb0\x34\x16\xf0\xa8\x30\x0a\xeb\x00\x3a\xc3\xb8\x2f\x0d\xeb\x6c\x60\xb2\xb5\x3a\xe2\xf2\xb8\x74\xa8\x9b\x81\xe3\xb3\x58\x40\x96\xdf\x96\x80\xb3\x99\x9f\x7d\x49\x8a\xe1\x2c\xc5\x70\x9a\x62\x38\x4f\x31\x98\xa8\xe0\xdb\x15\x7b\x6a\xb9\x9d\x54\x05\xe7\x61\xbf\x58\x50\x4b\xd9\x36\x91\x5e\x4a\xb6\xd5\xbd\xeb\x99\xc9\xef\x5a\x71\xfd\x98\x8f\x8d\xb5\xff\x01\x01\x8f\xff\x4d\x02\x30\xa7\x1f\x6f\x57\x60\xb7\x73\xf5\x8f\x73\x04\x53\xb9\xf9\x32\x53\xfa\xd2\xbd\x55\x79\xef\x3d\x8b\xf6\x1f\x59\x38\x34\x20\xfd\xf2\xd1\xc5\xdb\x2f\xbc\x67\x91\xba\x61\x7f\xc5\x4e\xbc\xfd\x2d\xb7\xcf\xd0\xbf\x9f\xc1\xf7\xce\x94\xc5\x35\xff\xb6\x97\x66\x8b\xd9\xd2\xbd\xaf\xfb\xd0\x8b\x61\xfa\xae\x78\x79\xbb\x5d\x58\x16\x40\x1c\x70\xc7\x6f\x35\xbc\xc5\xb2\xda\x05\x5f\x71\xd9\xb9\xc5\x25\x68\xde\x7b\x39\xeb\xbf\xe9\x05\xa7\xe0\xb6\xe4\xc3\xd6\x2f\xca\x4b\x9a\xac\x7f\xa8\x09\x81\x96\x56\x3f\xe2\xce\x0d\x29\x0e\x1b\x34\x6f\x8e\xc7\x33\xf0\xce\x82\x1d\x7a\xb3\x25\xad\xd1\xfe\x9b\x2d\x6b\xc8\x7b\x0f\xd7\x37\xfe\x05\x8f\xc0\x12\xd8\x1e\xb0\x77\xd6\x7a\xe0\x46\xcb\x71\x08\x92\x77\xfb\xf7\xbb\xd8\xb2\x9e\xd7\xa1\x17\x5b\x3a\x17\x5a\x36\xe7\x8c\xa7\xc2\xed\xb4\x8f\xba\xd4\x12\x17\x6a\xe0\x66\x21\xeb\x45\x75\xda\x38\x81\xe5\xba\x45\xdf\x79\xf1\x23\x6e\xbd\x74\x56\xf9\x37\xdd\x7a\xe9\xc0\xb1\xe7\x03\x8f\xfa\xe7\x17\x40\x7f\x3c\x18\xe2\xa8\xce\x5d\x96\x47\xde\x96\xe8\x84\x73\x98\xa8\xad\xfb\x5e\xfa\xef\x2f\x29\x2f\x45\x00\x82\x88\x18\x8e\xe2\x74\x4b\xb8\xfa\xae\x78\x19\x29\x72\xc4\x43\x2a\x4f\xf9\xb8\x0f\xde\x38\xf9\xdd\x11\xd7\x4d\xde\x3f\xe8\x96\xc2\x69\x83\xa3\xf6\x54\x66\xd0\x84\x0f\xa8\xcc\xa0\x4a\x8c\x6c\xf1\x0f\xcc\x38\x8a\xb3\x5d\xda\xf5\x32\xb7\x0a\xbe\xc0\x3b\x22\x28\xc0\x98\x11\x63\xc8\x3f\xab\x46\xd9\xeb\x2d\x8e\x8d\x51\x3e\xaa\xcd\xc6\xe0\x74\x19\xa3\xb8\x93\x3b\x07\x1a\x05\x1b\x3d\x78\x0f\x5d\x1c\x8a\x77\x25\x99\x6c\x24\xf4\x77\x35\xd8\x9e\xc2\x0d\x43\xe7\x06\x0f\xf2\xf8\x38\x05\x77\xe0\xb9\xbd\x56\x69\x59\x83\xf5\x8f\x49\x22\xe3\x8c\xbe\x3c\x89\xec\xf4\xde\x73\x87\x1d\xce\xe6\x7f\xfb\x0e\xbb\x1a\xbb\xae\x15\x31\xa8\x80\x5e\x6f\x17\x49\x5c\xae\x6b\xfd\xf3\xdb\x2e\xb0\x3b\xc4\xfa\xf8\x92\x8b\xe9\x4c\xde\x72\xfc\x72\xba\x8e\x96\xb0\xb3\x93\xd4\xa5\xbd\xa1\x8e\x93\x98\x7b\x0c\x9a\xa9\x93\x9d\x6c\x6c\x05\x37\x25\x39\xa0\x57\x1a\xc9\xc8\x76\x2e\xb2\x9d\x8a\xfc\x37\xbe\x65\x8e\x0c\xa0\x2f\xbd\x65\x6e\x80\x2a\xbd\xb2\xef\xb0\x5b\xe6\x8c\x5e\xf8\xc3\xee\x93\x1b\x40\xf9\x00\x55\xa5\x86\x75\x15\x56\x8c\x1c\xa0\x86\xa0\x81\xcd\x5e\xb4\xd5\x11\x80\xe8\x6a\x24\x78\x79\xe7\x40\x37\x9d\xf9\x04\x97\xe9\x8c\x25\xfa\xed\x6f\x01\x25\x07\xf0\xe0\xc0\xc7\x58\x6e\xb0\xf8\x38\x1b\x18\xc6\x24\x33\xba\x40\x4c\xcd\x9a\x41\xa4\x27\x01\xd0\x7b\x4b\xde\xa1\x4a\xb9\x2f\x32\x3f\xae\x95\xfb\xaf\xa3\x75\x79\x58\x74\x73\xbf\x6a\xee\x8d\x93\x37\x34\x73\xeb\x36\x3d\xf3\xcf\x82\x4a\xa2\xda\x49\x29\x87\x03\xca\x1a\x27\x67\x24\x3d\x30\x4d\x5b\x57\x9f\x10\xae\xbf\x8f\xc2\x3e\xd4\xc6\xda\x17\x1e\xdf\xab\xa0\xed\x40\x04\xd8\x82\xf3\x9d\x65\xf8\x17\xf9\xa3\x31\xa6\xc6\x76\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x02\xff\xed\x3d\x6b\x8f\xdb\x38\x92\x9f\xed\x5f\xc1\x31\x26\x89\x9c\x73\xab\x33\x0b\xdc\x61\xaf\x83\x3e\x20\x8f\x9e\x4c\x76\x27\x8f\x4d\x3a\x33\x1f\x1a\x41\x56\xb6\xe8\xb6\xb6\x65\x49\x91\xe4\xee\xf4\x7a\xfa\xbf\x6f\xbd\x48\x51\x4f\xdb\xc9\xcc\x61\x71\xb8\xc1\x6e\x22\x4b\x64\xb1\x58\x2c\xd6\x9b\xcc\xf1\xb1\x7a\x96\x86\x5a\x5d\xea\x44\xe7\x41\xa9\x43\x35\xbf\x55\xf3\x20\x4f\x13\x5f\x3d\x7f\xa3\x5e\xbf\x39\x57\x67\xcf\x5f\x9e\xfb\xe3\xe3\x63\xf5\x4e\xe7\x9b\x24\x89\x92\x4b\x6e\xa0\x6e\xa2\x38\x56\xe9\xb5\xce\x6f\xf2\xa8\xd4\xaa\x5c\x45\x85\x5a\x46\xb1\xa6\xc6\xbf\xe8\xbc\x88\xd2\xe4\x44\x6d\xb7\xbe\x3c\xdf\xdd\x39\x1f\xd4\x73\x18\xcd\xfd\x8a\xbf\xa1\xc5\x38\x0b\x16\x57\xc1\xa5\xc6\x2f\x6f\xf9\xf1\x75\xb0\xa6\x2f\xd0\xf9\xdc\x8c\xa1\x16\x69\x52\x06\x51\x52\xa8\xb5\x2e\x57\x69\x58\xa8\x32\x55\xeb\xe0\x4a\xab\x28\x09\xa3\xeb\x28\xdc\x04\xb1\xd2\x49\x98\xa5\x51\x52\x42\x97\x3c\x5d\xab\x42\xe7\xd7\xd1\x42\x17\x33\x84\x94\xeb\xcf\x1b\x5d\x94\x2a\x48\x42\x78\x2e\xb2\x34\x29\x60\x0a\xb7\x99\x26\x48\xd8\x14\x67\x94\xc2\x4b\x0b\x65\xa6\x82\x42\xdd\x68\x98\x34\xfc\xad\x93\x05\xd0\x2d\x2f\x10\x00\xc2\x0b\xb5\xfc\x5e\xa6\xb9\x74\x24\x68\x33\x7a\x11\x20\xa5\x96\x2a\xdd\xe4\xaa\xd8\x64\x59\x9a\x23\xa5\xcb\x3c\x48\x0a\x7c\xc6\xe1\xa2\x20\x8e\xfe\x19\x94\x40\x08\x84\x06\x7d\xd6\x41\x59\xf8\xe3\x71\xb4\xa6\x16\xde\x78\x34\x99\xdf\x96\xba\x98\xc0\x03\xce\x5d\x7f\x29\xf1\x91\xd0\x80\x25\x39\xfe\x47\x91\x26\xf8\x62\xb9\xa6\xf7\x51\xca\x7f\x1e\x47\xe9\xa6\x8c\x62\xfc\x91\xe8\xf2\x78\x55\x96\x99\x79\xde\xe4\xf4\xba\x28\x73\x80\x77\x2d\x8f\x00\x0a\x86\x80\xe7\xcb\xa8\x5c\x6d\xe6\xfe\x22\x5d\x1f\x5f\xa6\x47\x57\x51\x79\x8c\xff\x37\xb4\x80\xd6\x41\x72\x9b\xcd\xd5\xe4\x32\x4d\x2f\x61\xc9\x2f\xd3\x38\x48\x2e\xfd\x34\xbf\x3c\xce\xf2\xb4\x4c\xe7\x9b\xe5\x31\xcd\xff\xf8\x2a\x49\x6f\x92\x63\x6a\x0d\xbd\xc2\x4d\x4e\x93\x3c\xa0\x6b\xd5\x05\xfa\xeb\x75\x56\x1e\x32\xae\xb4\x87\x9e\xcb\x48\xc7\xe1\x3a\x28\xae\x0e\xe8\xed\xf4\x01\x08\x40\x9e\xcd\xa2\x3c\xa0\xbb\xe9\x00\x7d\xcb\x68\x0d\xdc\x16\xac\xb3\x03\xba\x3b\x7d\x00\xc2\x4d\x1e\x64\x19\x30\xd8\x01\x00\xaa\x2e\xed\x25\xcd\x61\xf3\x06\xc7\xeb\xcd\x97\x49\xfd\x4b\x76\x75\x79\xac\xf3\x3c\xcd\x89\xd3\x06\x06\xb2\x9c\x47\x6f\x0c\xfb\x0d\x74\xa0\x07\x44\x64\xbb\x3d\x52\xd1\x52\xe9\xcf\xca\x7f\x96\x26\xcb\xe8\xd2\x3f\xb7\x3b\x61\x02\x3b\x65\xa2\x26\x09\x30\xff\x44\xc1\xa6\xaf\xe1\x86\x6f\x8f\x80\xa7\xf1\x6f\x18\x62\xc2\xa0\x80\x27\xb1\xe1\x1e\x50\x2f\xf3\x6c\x61\xa0\xb6\xf0\xa4\x8f\xbd\x5f\x8e\x41\xcc\x04\x61\x50\x06\xcd\x41\xf7\x1e\x12\x9f\xaa\x1d\xdf\xb3\xbf\x6c\x03\x83\x8e\x33\x16\xee\xdd\x03\x00\xc8\x56\x3f\x88\xd8\xf8\x74\xc0\x10\xd4\xd1\xc5\x71\x3a\x1e\x8f\xaf\x83\x1c\xa5\xd5\x27\x75\xaa\x40\x16\xf9\xef\x33\x90\x29\x25\xff\x26\x01\x06\x68\xac\xb3\x20\xd7\xfc\x4a\xa4\x8f\xff\xa4\x4c\x23\x7e\x53\x9b\xa6\xff\x5a\xdf\xbc\x47\x59\x9c\xf3\x47\x96\x66\xfe\xeb\x34\x7b\x16\x83\x88\xb5\x6f\x01\x68\x76\xcb\x3f\x98\x79\xfd\x5f\x81\xf7\xc7\x23\x10\xa5\xb2\x9e\x86\x0d\x59\x2a\x63\x53\x12\x49\xfe\x93\x84\xfa\x55\x42\xc6\x7f\x2e\x8f\xf8\x5a\xc4\x87\x7f\x86\x7f\xe3\x0b\xb3\xa5\xfd\xf7\xf4\x80\xaf\x9c\x6d\xea\x9f\x9b\x67\xfc\x50\x6d\x3f\x6c\x0d\x5b\xe5\x97\x20\xde\xd0\xbc\x1d\xb9\xe2\xff\x88\xcf\xaf\xe0\x19\xa9\x77\xfc\x70\xaf\xff\xd4\x99\xd5\x6c\x0f\xf7\xfe\xef\x98\x34\xe8\xcb\x44\x05\xac\xde\xf2\x99\x8a\xca\x07\x85\xda\x14\x7a\xb9\x89\x49\x4d\x2d\x37\xc9\x02\xa7\x0e\x3a\x70\x15\x94\x2a\xd1\xa8\xa5\x52\x95\x66\x64\x1b\xa8\x14\xfb\xc2\xf3\x91\x51\x03\x08\x70\x1e\x14\x51\xe1\xab\x1f\xa1\xbb\xfe\x02\x33\x8f\xf5\x4c\xdd\xa6\x1b\xb5\x8e\x2e\x57\xa5\xca\x82\x02\x55\xa4\x83\x30\xc0\x0b\xec\x40\x3c\x0e\xac\x4d\xb8\x01\xc5\x8c\xe0\xa0\x2d\x72\x80\xff\x13\xe8\xd5\x18\x71\xbc\x01\x26\x54\x3a\x58\xac\x44\xd3\x2b\xcf\x8c\x3e\x85\x6f\x39\x60\xb8\xc9\x18\x68\x91\xe9\x45\xb4\x8c\x16\x30\x68\xb9\xf2\x95\xf7\x92\xf0\x03\x83\x01\xe0\xcf\x83\x79\x7c\x0b\x6d\xd6\x11\x2c\x0f\x59\x09\xa0\xb1\x8b\xe8\x32\xc1\xae\x51\x72\x9d\x5e\xa1\xba\xd7\xea\x3d\xdb\x08\xd6\xaa\x20\x14\x35\xc2\xa9\x66\xc0\x3c\x80\x20\x0c\x25\xfd\x29\xb4\xb0\xd4\x5d\xc4\x91\x4e\xca\x3a\x75\x61\x94\x45\x1a\xc7\x9a\xfa\x19\x03\x05\x30\x02\xe6\x67\x70\x30\x8f\xca\x5c\x81\x3f\x60\x42\x08\xb0\x00\xb6\x89\xd9\x94\x60\x5a\x45\x48\xe1\xb5\x26\x4a\x3a\xf8\x42\x0f\x9d\x2f\x83\x85\xee\x5b\x09\x04\x66\x07\xeb\x36\x92\x36\x38\x98\xaa\x4b\x10\xdc\x80\xcf\x64\x3e\x20\x07\xe6\x51\x42\x74\x5a\x0b\x8a\xce\xc2\xce\xc4\x94\x2a\x37\x79\x02\x53\xc7\x19\x23\x82\x0b\x98\xa6\xce\xd1\x62\x0a\x0c\xb2\xfe\x98\xa6\xd3\x22\xe8\x76\x3c\xfa\x90\xd8\xf9\xe9\x10\x2c\x40\xd3\x83\x4d\x40\x91\x04\xdb\x2d\xa0\x08\x16\xe2\xf7\x91\x3a\x39\x55\xb6\xcd\x2b\x5e\x32\x16\xcb\xdf\x47\xd2\xc7\x8c\xa2\xe0\x3f\x33\x55\xdf\xbc\x04\x50\x2c\xb8\xd8\xba\xb4\x18\xed\x1e\x02\x19\x18\x38\xb1\xea\x32\x55\xce\xa0\xde\xa2\xfc\xa2\xc4\x4a\x43\xb1\x8b\x7f\xcf\x90\x61\x1e\x6e\xb7\x2f\x52\x6c\x03\x90\xfd\x77\x6c\x82\x9e\x03\x31\xa4\xdf\x54\x79\x8d\x16\x6c\x98\x3a\x4d\x66\x2c\xe0\xa6\x48\x2d\x63\xb7\xd2\x3b\x44\x54\xfb\x1d\x33\x47\x64\x70\xf0\xe9\x78\x84\x8a\x00\x5a\x7e\x77\xaa\x92\x28\x46\x08\x23\x59\x2f\xf8\x49\x40\xc6\xa3\xbb\xb1\x79\x67\xa0\xfb\x3b\x71\x9a\xce\x10\x00\x10\xd1\x90\x13\x89\xf9\x0a\xb7\x99\x4b\x51\xda\xc8\xdf\x83\x18\x41\x8a\xde\x61\xe3\x23\xe5\x52\x19\x3e\xf5\x11\x1a\x61\x75\xcd\xac\x40\xa2\x3b\xdd\x5c\x36\x99\xb6\x97\x9b\x69\x46\x93\x43\xb0\xdd\xab\x64\x1c\x03\xbb\xa3\xb6\xb8\x2c\xd6\x45\x70\x5e\x33\xd9\xab\xe5\x00\xd8\x9f\x71\x22\x02\xa1\x45\xb7\xd6\x6a\x43\x97\x6b\xbb\x76\x85\xdf\x60\x20\x42\x05\xdb\xb4\x57\xad\xbd\x6c\xb8\x6e\xe6\xed\x35\x2f\xc7\xe8\x6e\xcc\x44\xe6\x35\x71\xd7\x06\x95\xe3\x93\x38\x3e\xfb\xb2\xd0\x59\x49\x7a\xaa\x60\x11\x6b\x29\x45\x1a\x0a\x5d\x16\xd9\x9b\xd5\x66\xa5\x65\x24\xd9\xd4\xe1\x17\xf8\xaf\xa2\x10\xc4\xf6\x0d\xe8\x77\xf2\x02\x3f\x14\xc6\x2f\x44\x27\x28\xcb\xe2\x5b\x14\x31\x28\x36\x4b\x04\xbe\xb6\xad\x49\x2f\x68\x58\xb6\x5b\xbb\x6c\xb8\x5f\x50\x82\x14\x46\x6a\x00\xbc\x37\x19\x6a\x0d\x94\x9c\x33\x47\x70\x2d\x40\x0e\xcd\x35\xe9\x1a\x10\xa3\xd0\x0d\x7c\xd8\x04\xc9\x0e\x30\xe1\xbd\xfe\xb2\x88\x37\x21\x7c\x21\x2f\x70\xae\x11\x05\xd6\xcd\xa1\xdf\xa2\x86\x57\xe1\x34\x53\x93\xf7\x65\x50\x6e\x8a\x09\x3c\xbd\x85\x5e\x93\xa9\xdd\xf7\x0f\x9d\x8d\xdf\xd7\x5f\x75\x50\x65\x56\x61\xe3\xfb\x3e\x3b\x5c\xc4\x3c\x51\x22\xaf\x81\x15\xd6\x41\x76\xc1\x9f\x3e\x32\xf9\xb7\x77\xb8\xea\xcd\x0d\xd3\x25\xf9\x46\xa3\x89\xc3\x46\x13\x70\xb0\xef\x66\xd2\x55\xcc\x48\xe0\x80\x11\xae\xc6\x27\x44\x85\xd8\x95\x40\x5a\xb4\xb6\xcc\x71\xf0\x39\xbd\xc2\xcf\x06\xb1\x0b\xfd\xe5\xe3\x63\xf5\x1d\xbc\x24\x0e\xcc\x82\x24\x5a\x78\x95\x85\xb7\xf4\x26\x67\x06\x84\x5d\xc1\x07\xf7\x8a\x07\x2a\x4c\x61\x75\x93\xb4\x84\x21\x40\xf9\x3e\x86\xf5\xd4\xee\xc2\x5b\xde\x21\x93\x1e\x91\x9a\x4e\x85\x9f\x43\x1d\xeb\x52\x7b\x06\x03\xfa\x56\x4d\x00\x5e\x57\xe8\x5b\xf2\xed\x4f\x28\x98\x24\x82\x38\x3d\x55\x35\x92\xf1\xf4\x46\x9d\xa2\x14\xcc\xcb\x0a\x73\xaf\xb3\x09\xe2\x4e\xc8\xd7\x48\xce\xdb\xee\xe7\x60\x0e\x33\x0a\x2b\x6e\xe0\x10\xca\xa5\x2e\x0d\xef\x22\xbf\x5b\xea\x11\x0b\xdf\xac\x74\x62\xbf\xa6\x0e\xbb\x0a\x30\xe6\xba\x19\xef\x32\xd9\x08\x1b\x6e\xac\x38\x2e\x13\x70\x70\x07\xec\x22\x30\x6a\xe0\x2f\x32\xb3\x1c\x2e\xbd\x59\x45\xb0\xf3\xb1\x6b\x01\x43\x77\xa0\x20\x9a\x5c\x7a\x1b\x3b\x26\xcd\x45\x8f\xb7\x67\x45\xc2\x95\x19\x78\xd6\x96\xc2\x1d\x82\x79\xdc\x37\xaf\xaf\x96\x4d\x2d\xa4\x66\x32\x4f\xa2\x78\xae\x17\x3a\xba\x66\x8b\x8f\xa6\x08\xc0\xdc\x79\xfb\x60\xaa\x68\x0b\xc6\x81\x42\x1f\x8c\x21\x6a\xf7\x3d\x22\x8a\x1c\x19\x82\x8f\x18\xc5\x64\x34\x9a\xed\x44\xc1\x1c\x31\x76\x83\x38\x2a\x6f\xfd\x21\x11\x52\x9b\xbb\x2b\x49\x0e\xa6\xe8\xff\xcb\x99\xff\x3b\x72\xa6\xd6\x6d\xa6\x0e\x12\x3b\xfb\x07\x28\xf6\x75\x3d\x5f\xbc\x7b\xfb\x8c\x2d\xac\x83\x7d\x4f\x34\xe3\x9c\xee\x18\xae\x2d\x2a\x63\xa0\xd2\xe7\xc1\x35\x6c\x23\x70\xd8\x34\xbb\x0d\x97\xd0\x45\xf5\x38\x03\x7e\x65\x20\x56\x90\xbd\x0a\x94\xe3\x9e\xa4\x19\xbb\xb6\xb0\x1f\x6a\xb1\x18\x9f\x3b\xb1\x69\x31\xed\x1b\x08\x97\xab\x70\x1a\x16\xb8\xe0\x17\x1f\xfb\x21\xe1\xf2\x76\x7d\x7d\xaa\x81\xa9\xb4\x87\xd8\xbe\x92\x98\xd2\x79\x2a\xd6\xe7\x74\x46\x06\x78\x7d\x9c\x53\x34\x9c\x60\x46\x5e\xed\xb5\x9d\x0f\x4c\x67\x4a\x81\x8e\xed\x56\x9d\xa7\x3f\xa7\x37\x80\x6b\x6d\x06\x14\xd9\x11\xd3\xf0\x3e\x62\xc4\x78\x6c\xd1\x4d\xda\xc9\xbd\xdb\xad\x81\x69\x59\xee\x44\xd5\xa7\x65\x43\x34\x1e\xf2\x60\xb5\xcb\x3a\xb8\x14\x45\xc4\xe8\x39\x45\xca\x71\xfe\x4e\x0b\xb1\x8e\xa9\xc1\x59\xd2\xd9\x40\x7c\x1d\x6c\x51\xa3\x04\x10\x00\x5f\x22\xed\x3a\x74\x6e\x35\xe1\xa6\xeb\x6c\x8d\xf3\xee\xf5\xb6\x86\x3e\x6b\x39\x07\xce\x1f\xe0\xae\xb6\x88\x0c\xde\x6a\x9d\xca\x12\x0f\x71\x0c\x7a\x71\xb3\x24\x50\x81\x92\xca\xc1\x11\xa3\x1a\x06\xb5\xfd\x67\xba\xa7\xdb\x5b\xa8\x87\xd5\x50\x53\xe5\x7a\x39\x43\xfe\x2f\xba\x47\xbf\xaf\x03\xfc\x09\x81\x66\x35\x17\xaa\x45\x49\xde\x76\xc8\x4d\xae\x53\x75\xa0\x27\x9c\x7d\xa5\x13\x2c\x14\x66\x96\xdf\x4d\x5e\xe8\x31\xb4\x3b\x30\x96\x15\xa8\x7a\x8c\xd8\xe7\x0e\xd2\xe2\x47\x5c\x1f\x8a\x13\x61\x54\x55\xe7\x28\x4c\x69\x17\xb0\x08\x6d\xb3\x99\xf1\x76\x29\x80\x06\x76\x63\x7e\x14\xa6\xeb\x00\x5c\xa8\x81\xc6\xbe\x7a\x9b\x47\xeb\x20\x8f\xe2\x5b\x13\xde\x72\x63\x61\xcc\x24\x43\xf3\xf0\x3e\xb5\x99\x03\xe7\x02\x9f\x1b\x6e\x77\xd3\xdb\xb6\x81\x0f\x72\xb4\xa5\xcf\x3e\x8e\xb6\x5d\xc9\xcf\x03\xcb\xc4\x82\x67\xaf\x65\x1a\x94\x51\x9d\xeb\xc4\x3d\x4c\x93\xbe\x85\xda\xbd\x04\x26\x55\x99\x56\x9a\xb1\xab\x19\xb8\xda\x7b\xad\xd3\xe0\x44\xba\x16\xaa\x2b\x12\x32\xb4\x52\x45\xc6\x31\x91\xbd\x83\x49\xb5\x00\x54\xd7\x6a\xfd\xa4\x63\x0c\xab\x8f\x79\x02\x9d\x8a\xb4\x5b\x00\xad\x43\x65\xd2\x38\xfe\xab\xe7\xd3\x66\x03\xc4\x17\xc5\xe8\xd5\x4c\x5d\x57\x16\xdf\xda\x9a\xaa\xd7\xb5\x10\x0c\x65\xa3\xb5\xba\xd2\xb7\xb4\xdc\x21\x1a\x85\xf3\x14\xfc\x0f\xa0\xb1\x19\x45\xf2\xb8\xca\xbb\x9a\x8a\xfb\x81\x4d\xc1\x01\x89\x71\xbd\x04\x4a\x20\x4e\x17\x85\x5b\x9f\x05\x49\x0a\x06\x6f\x10\xff\xa4\x83\x50\xe7\x7f\x05\xe8\xe2\x9b\xe0\x40\x45\x2a\x41\xe0\x52\x5c\x3d\x03\x62\xb1\xd0\x26\xf6\xa1\xc1\x07\x02\x5e\xe0\x91\xf1\x3b\x92\xe2\xd4\xce\xf5\x57\xf8\x4c\x79\x08\x96\x86\x38\xd7\x8b\x47\x1f\xa7\x3b\x1b\xf6\x60\x07\x33\xab\x20\x88\xd5\x2f\xcb\x07\xdd\x48\x47\x1d\x60\x57\x72\xa4\xf9\x60\xbb\x12\x2c\x10\xa7\x37\x0f\x4f\x59\x07\x09\x1d\xa9\x79\xb0\xb8\xe2\xd2\x06\xd9\x33\x1c\xa2\xc7\xb9\x26\x9a\x7c\x33\x5f\xbd\x24\xf1\x2a\xc1\x7e\x61\xd7\x68\x1e\xa1\xcf\x66\x96\x40\x62\xd9\xb0\xf5\xc2\x28\x88\x39\xe0\x1d\x07\xc0\xf7\x00\x2f\xc5\x30\x2c\x35\xaa\x60\x32\x83\xd6\xb0\xf3\xf0\x33\xab\x4f\x9f\xdf\x00\xf3\x25\x03\xc6\x29\x37\x32\xc6\xa9\xd7\x63\x64\xb8\x5b\x0e\x2d\x84\x66\xac\x75\xe4\xbc\xcd\xae\x2e\x69\xfb\x49\xc8\xb5\x5e\x64\x31\x6a\x7b\x35\xdd\x71\xd9\x11\xe6\xf9\x3a\x44\x8f\x75\x61\xda\x4e\xfe\x68\xdb\x6d\x50\x3a\x5e\x4f\xcb\xb2\x14\xaa\x11\x7b\x22\xa1\x8c\xe7\x29\x93\x00\xf5\xde\x15\x01\x9e\xcc\x5a\x1e\xea\x90\x65\x59\x99\x9e\x3d\x5a\xcb\x31\x3d\x77\x48\x2f\x76\x83\x47\x69\xdd\x34\xb5\x34\xf0\xc8\xaf\x24\x30\x62\xa7\x56\x4f\x56\xc4\x99\x0d\x64\x7d\x97\x9d\xa6\xba\x3a\x12\x50\x2d\x9a\x9e\x60\xde\x63\x80\xe6\xb3\x6a\xdc\xd1\x9d\x11\xb6\xb8\x03\x90\x06\x4a\x76\xd4\xb7\x9b\x2f\x03\x7a\xd1\xd8\x2f\xc3\x7a\x71\x58\xd3\xed\x6b\xbe\x88\x0e\xea\xd1\x8b\x2c\x14\x86\xed\x97\x7e\xbd\xc8\xc6\x08\x22\xb3\xa7\x62\xc4\xa6\xd6\x88\x41\x75\x7d\x90\x6a\xcc\x30\x04\xde\xd6\x8d\xee\xb2\x7d\xbb\x39\xd3\x6f\x75\x1a\x6b\x66\xd0\xea\xdc\xd3\x9e\xdc\x69\xcb\x0c\x5a\x9d\xb5\x55\x1b\x9a\x47\xb7\x31\xd3\x95\xec\x19\xb6\x3a\x0f\x48\xef\x0c\x5b\x9d\x82\x05\x29\xd9\xe2\x3c\x75\x0d\x19\xa6\x79\x97\x26\x70\x48\xce\x53\x1e\x80\xe2\x81\xcd\x50\xa8\x8b\x8f\x26\xfc\xb7\x03\xde\x5e\xe9\x31\x30\x87\x1e\xee\x32\xa2\x48\x37\x64\x41\x94\x57\x83\xc3\x4b\x09\x06\x5e\x55\xa6\x15\xa1\xb7\x95\x18\xd9\xb5\x09\x04\xc2\xb0\x3e\x1b\x1e\x57\x53\x5f\x82\x9e\xd3\xc7\xca\x04\x04\x47\x0c\xd8\x46\x45\xe8\x27\x1b\x32\x36\x08\x86\x42\x14\x61\x72\x53\xd7\x6a\x7b\x08\xf8\x9f\x56\x56\xe0\x5f\x40\x06\x7a\xf0\x6e\x56\xbd\x7a\x8b\x7d\x18\x2a\x86\x56\xa6\x06\x9c\x63\xd5\x48\x64\x8d\x57\x72\x5f\xfb\xe6\xa7\xf3\xf3\xb7\x5f\x13\x37\xa3\xa4\x3d\x53\x39\x21\xf6\x02\xfc\x27\x98\x4a\x03\x3b\x0c\x95\x0c\x55\xfe\x3d\x56\x8b\x55\x90\x17\xba\x3c\xdd\x94\xcb\xa3\x3f\x4f\x6c\xb8\x0d\x47\x95\xd0\x41\x65\x18\xa9\x95\xbc\xa1\x3d\xbb\x3b\x0c\x87\xc0\xd2\x44\x65\xb9\x0e\xf5\x32\x4a\xc0\x92\xc2\x0a\x8b\xc2\x89\xbd\x39\xc3\xec\x0c\xbe\xd5\x0b\x7c\xea\xc1\x37\xb7\xf4\xc3\xd8\x32\xb0\x8e\x3e\xc1\x27\xb3\xbf\x16\x9d\xea\x08\xc8\xf5\x43\xa7\xf5\xef\xfa\x2c\x11\x39\x1e\x03\xed\xda\xa2\x16\x90\xeb\xee\x74\x86\x62\x81\xc5\x0d\x4c\xd9\xf9\xd1\xdf\xe5\xc9\x12\xc4\x8a\xd7\xfc\x52\x3e\xab\x96\xd6\x73\x96\x79\x4a\x80\xda\xb3\xdc\x2b\x1c\x28\x51\x22\x0a\xfd\xc1\xe2\xbd\x85\xe5\x82\x35\xcb\x41\x2e\x95\x54\xb3\x8a\xc9\xc9\x62\x11\x64\x18\xec\x06\xa3\xf5\x16\x98\xe0\x56\xad\xd2\x38\xc4\xaa\x28\xe2\xa5\x60\x51\xa2\x87\xb2\xa6\x3c\xc1\xe6\x0b\xda\x62\xef\xd2\x0d\x4e\x60\xea\x7f\x28\x34\x4f\x36\x44\xc0\x60\xd3\x38\xf6\x89\xe4\x46\x50\xd3\xf4\x2c\x9a\x6d\x3a\xc7\x2a\x94\xe4\x92\x6c\x4c\xee\xe6\x3f\xe5\x57\x12\x39\x5f\x9b\x7e\x14\x02\x97\xe6\x58\x2f\x3c\x57\xbf\xa9\xf3\xf4\x03\x56\x57\x81\x69\x37\xf5\x09\x0d\xb7\x0d\xbe\x38\xd7\xeb\x2c\xa6\xa2\x62\x68\x61\x98\xb3\xa7\xba\xcc\xe3\x58\xbc\x1b\xbb\x14\x8c\x3a\x02\x98\x62\x25\xe2\xf4\x9c\x21\x29\x77\x53\xb7\x26\xc5\xde\xc4\x86\x2f\x38\x05\x57\x33\x25\x3b\xc3\x98\x23\x92\x38\x8d\xba\x46\x79\x14\x11\xb4\x36\xe5\x2a\x0e\xd7\x71\xae\x8f\x03\x9b\xc4\x8d\x26\x6b\x67\x46\xfc\x15\xbf\x83\x9f\x00\x3e\x10\x6c\xe2\x60\x13\x97\xa8\x3b\x99\xdd\x10\x18\x05\x39\x61\xfb\x37\x25\x0b\x78\x39\xe0\xd6\x86\xe4\x03\xe1\x6f\x76\x22\xd0\x19\x9d\xd0\x38\x13\xeb\xbf\x5e\x53\x75\x1b\x80\xa2\xf7\x3e\x61\xe7\x4d\xd9\x4b\x02\xe9\x42\x99\x74\x85\xc8\x22\xa8\xff\x7c\xf4\x08\x5c\xae\xa5\x83\xaf\x13\x9d\xe5\x5d\x08\xd8\x12\x62\xd0\x22\xcb\xd3\xeb\x08\x1d\xec\x15\xef\x4f\xce\xe2\xcd\x35\x63\xcb\xc9\x4e\x6c\x57\x59\x78\x2e\x68\xaa\x02\xab\xa0\xe3\x2c\xfc\x57\x20\x2d\x57\x01\x15\x98\x19\xfc\xd7\xfc\x0a\x39\xb2\xd8\x80\x43\xad\xc3\x82\x3d\xba\xbf\xbc\x7f\xf3\x5a\xea\xbd\x43\x53\x9c\x6d\x33\x86\x84\xbb\x41\x07\x13\xaf\xfd\xd3\xe2\x62\x02\x2c\xb7\xcf\x67\xc6\xd1\xb4\x33\xab\x3e\xd6\xa0\x81\x65\x52\x94\x30\x69\x43\x33\x16\xb9\xae\xbc\xe9\x32\x6b\x6c\x5d\xca\x4c\xdd\xb0\x4c\xad\xb3\x01\x99\x33\xb8\xaa\x33\xf5\x09\xb7\x9f\x4b\x12\x16\x66\xbf\x72\xed\xe2\x96\x56\xf1\x04\x81\x99\x05\xbd\xe3\xe8\xe9\xba\x22\x20\xab\x6d\x6c\xe2\xd5\x69\x5b\x69\xed\x88\x99\xe7\x29\x0d\x29\x5d\xcf\x38\x68\x6b\x01\x99\x7e\x48\x6e\x0f\xba\x3a\xcd\x4e\x1d\x0d\x4e\xcc\x78\x6a\xc1\x99\xb0\xc3\xe8\xc6\x67\xb6\x01\xf9\x04\x42\xd5\x9b\x88\x58\x3d\x42\x59\x3a\x99\xb9\x0a\x94\x27\xb0\x32\x4c\xe6\xe2\x5f\x17\x0f\x86\x0f\xab\x79\x98\xf0\x10\x19\x5b\x95\x21\x63\x60\x49\x8f\xc2\xe3\x7a\x20\x17\xa7\xe7\x3a\x06\x7b\x06\x5f\x8a\x1d\xe4\x84\x98\x04\x1c\x9b\x37\x4e\x9f\x27\x61\xe8\x35\xec\x1a\xfc\x1f\xed\xa1\x13\xae\x94\xf5\x99\x6f\x5e\xa2\xc5\x9a\x04\xb1\xa3\x9b\x68\x92\xc5\x62\x60\x7a\x0e\x3f\x56\x33\x24\xe0\xa7\xd0\xd1\xf9\x2c\x5e\xeb\x8d\x4f\xdc\x23\xe8\x61\xc3\xa9\x7d\xe9\xe1\xb2\x4c\x51\x30\x55\x0c\xca\x62\x32\xf7\xb0\xea\xf6\xe2\x23\x16\xff\x4e\x65\x53\x6c\x39\x7c\x70\xa3\x5c\x5e\xb3\x41\x79\xc3\x90\x1f\x12\x61\x01\x84\x30\x53\xf7\x6f\x00\xcb\x46\xd0\x9e\x8d\xa3\x22\xfa\x27\xe2\xfc\xe7\x1f\xfe\xfb\xbf\x98\xd7\x62\x9d\x60\x9f\xa9\xfa\x1f\xfe\xc6\x8c\x03\x68\x9c\x2a\xf8\xf3\xe2\x04\x5f\x7e\xac\x17\x4d\x61\x86\x99\xe8\xb6\xf4\x26\x36\xc4\x49\xbc\x86\xc9\xe5\x13\x8c\xb7\x61\x6e\x39\x43\x2b\x4b\x25\x69\x72\x44\xc2\xd0\xf8\x0f\xd8\x10\x98\x0c\xc7\xac\xc5\xc0\xa4\x18\x19\xf4\x8c\x77\xc3\xe0\x89\x46\x24\x6c\xdd\xb9\x3b\x39\x25\x6a\xa5\xd8\xec\x55\x7f\xc7\x51\x4e\x44\xd2\xfe\x5d\xe4\x3e\xae\xa2\xb4\x02\x39\x5d\x2c\x23\x91\xfb\x86\x5d\x49\xa2\x39\x8b\x5b\x79\x37\x58\x59\x4a\x52\x47\xce\xd8\xec\x53\x43\x2e\x55\x1e\xce\xa0\x16\x55\x96\xae\xa3\xa2\x12\x5d\x14\xe6\x31\x42\x1a\xfe\x73\x2a\x0c\xac\x27\x60\x78\xc4\x5b\x55\x40\xa7\xca\xe5\x36\x55\xaf\xd5\x5b\xf9\xd5\x08\x3d\xbd\xab\x7d\xc7\x16\x24\xfd\xac\x81\x10\xa4\x84\x84\x1c\x1d\xa5\xd2\x6b\x6b\x16\x23\x09\xc9\x83\x11\xd1\x8e\x85\x21\x61\x55\x6c\xb2\x2e\x2e\xd9\xe1\x44\xdb\x57\x01\x1d\x60\xe5\xf3\xdb\xb1\x04\x70\x6f\x56\x9a\xc2\xae\x11\xb9\xcb\x60\x4a\x9f\xc0\x16\x0a\xe2\x00\x8d\xad\x82\x4d\x2c\x2a\x5f\xc0\xea\x8d\xcd\xda\xbc\x8c\x72\x05\xbf\xe6\xbc\x64\x0c\xea\xb6\x5c\xe1\xc2\xeb\xb8\xa0\xec\x37\x0a\xc3\x99\xa9\x84\x23\xc5\x03\x23\xac\x82\x82\x51\x41\xb6\x13\x95\xe0\xcc\xc8\x43\x54\xa9\xde\x1d\xec\xa7\xa2\x80\x85\x9e\x71\x95\x8b\xf1\x03\x3d\x9a\xa6\x29\x27\x81\x8d\x3f\x4f\xd3\xb8\x59\xcd\xc8\x96\x5f\x01\xb6\x14\x42\x7a\xa7\x97\x58\xf4\x83\x92\x80\x29\x82\x1f\x41\xa8\x15\x8b\x3c\xca\x4a\xd4\x0b\x5c\xc8\x0e\x4b\xe0\x3f\xbd\x3d\x07\xf8\x68\x38\x79\x38\x2c\x8b\x5b\xee\x75\xda\xca\xb7\x4d\x60\xdb\x2c\x83\x58\x8a\x58\x71\xb3\x98\x5d\x78\xaf\xa0\x89\x26\xa9\xf4\xbd\xf7\x19\x9a\x36\xc7\xdc\xc4\x31\x0d\x34\xe5\x29\xb2\xa0\x82\xe1\xbe\x5b\x83\xc9\x57\x78\xd4\x73\xaa\xee\xdf\x57\xfc\x88\x2f\xdf\xc2\xf6\x06\x6d\x8e\x7c\xf6\xdb\x6f\x0c\xdb\x7f\x59\xfc\x1c\x15\x65\xfd\xcd\xab\x20\xf3\xa6\xd3\x1e\x5c\xa5\xc0\x92\x86\x6a\x80\x80\xc1\xbe\xab\xc1\xc0\x37\xfc\x42\x96\x03\x5e\x39\x84\xe0\x22\x18\x3a\x1b\xc1\x54\x7d\x01\xea\x8b\x11\xf7\x5f\x9a\x9d\x0b\x73\xf5\x44\x86\x3e\x56\xdf\x71\x63\xb7\x12\xb4\x2a\x90\xf1\xfa\x00\x00\x89\x60\xe7\x1a\xdc\x45\x97\xa4\x09\x47\xa1\xd6\x24\xa3\xa6\xfc\x82\x14\x28\x01\x98\xd5\xd0\x81\xcf\x22\x91\xd1\x3d\x83\x5e\xf6\xe8\x8f\xd1\xdd\x62\xcb\x22\x66\x4f\xe2\x38\xbd\x79\x1b\xe4\x65\x14\xc4\x14\x85\xa4\xc1\xe1\x03\x78\x0f\xc4\x52\xb8\x6e\xc5\x49\xfd\xc3\x19\x6c\x87\xd7\xb4\x23\xf0\x8b\xf9\x70\xb6\x8e\xca\x0f\x49\x96\x66\x1b\xb4\xe7\xc3\x13\xf3\x01\xf0\x47\x97\xdd\xe6\x7f\x2b\xe4\xac\x31\x43\xd3\x71\x89\x30\x90\xfa\x6d\xb3\x22\x4a\xe7\x25\x1a\x44\x33\x35\x59\xa4\x9b\x38\x4c\x1e\x94\x62\x09\x5a\xa6\xc4\x5d\x4a\xa7\x9f\x5c\x0e\x44\xed\x46\x0d\x0a\x57\x04\x12\xa5\xde\x05\x37\xc2\x06\x03\x0a\x8f\xa7\x75\x9f\x41\xb4\xd5\x5e\x27\xc2\x6e\xc6\x9a\x07\xe4\x65\x2b\x2e\x10\xaf\x8f\xb5\xe5\x67\x29\xb8\x31\xe3\xb1\x20\x04\xa9\x55\xf4\x49\x3e\x2a\x9d\x8d\x4a\x16\x48\x24\x6c\x44\xee\xd4\x61\xec\x10\x3d\x33\xe5\x48\x1e\xc7\x18\xc0\x5d\x44\x14\xf8\x05\xec\xef\x50\x18\x9d\xa4\x54\x7d\x03\x36\x25\xc4\x67\x14\xb6\xa8\x96\x65\x01\xa8\x07\xd1\xa1\x57\x7a\xb5\x18\xde\x4e\xa0\xc5\xd3\x76\x39\x06\xb8\xda\xb0\xe8\xf3\x08\xc4\x7d\x1e\x7e\x48\xe8\xe4\x9d\xcb\xa1\xd5\x1a\xbb\x23\x39\x6b\x2d\xb3\xad\x95\xb8\x6d\xef\x7d\x3e\x51\xf7\x8a\x3b\x61\x2a\x99\x19\x2c\x61\x8b\x9f\xfb\x78\xc3\x30\xc4\xd7\x49\x6b\x1a\xc6\x11\xa0\x08\x78\xed\x8a\x05\x6a\x50\x93\x0c\x77\xac\xb3\xb8\xe5\xb3\x58\x07\xb9\x7c\x73\xf9\xb2\xe2\xbd\x45\x9a\xdd\x32\x0e\x9d\x7c\x57\x20\xe3\x85\x1c\x1b\xbe\xc1\x28\x15\xa9\x50\x8c\x5b\x80\xe2\x2b\xf2\x85\x70\x5f\x05\xc5\x83\xc6\x33\xfc\xd2\xc5\x7e\x45\xa3\x08\x12\x26\x40\xb2\x16\xfa\x34\x18\x84\x40\xb4\x55\x1e\x9b\xec\x89\xa4\xcd\xd8\x6a\x67\xc0\xe4\x15\x18\x1a\x17\x7b\xd3\x98\x8c\xf3\x26\x85\x47\xa1\x4b\xe2\xa2\x4e\xdf\x91\x53\xd4\x84\x26\x48\xdb\x78\xe9\x36\x58\x3a\x0d\x07\x3a\x21\xc5\x24\xb4\xb0\x76\xee\x5d\x64\xb4\x87\x62\x20\x88\x7d\x0a\x58\xb3\xc7\x99\x82\x9f\x42\xb4\x69\xd8\x21\x56\x28\xe2\x36\x30\x5a\x0f\xd5\x31\x16\x78\x82\xb2\x25\x79\x80\xa5\x91\x13\x26\x81\xae\x4e\xf0\x99\x5d\x9e\xd5\x82\x57\x8a\x37\x3d\x1d\xcc\x9b\x34\x94\xbe\x76\xf7\x01\x62\x8a\xc0\xcc\x47\x3b\x92\x3f\xa9\x0d\xec\xfb\x13\x77\xdf\xc8\x19\x68\x1f\x53\x32\xb8\xc3\x78\x7a\xd0\x09\xfe\xb8\xf7\xa7\x33\xf8\xeb\xe8\x87\x1a\x4b\x6f\xf2\x98\xc2\x4d\x67\x14\x4f\x63\xa1\xe5\x2c\xd3\x2f\x68\x02\xba\xab\xb4\x49\x24\xf2\xa6\xb2\x46\x54\x0e\xa3\x2f\x36\xbb\x50\x2d\x0e\x42\xf0\x80\xf2\xe2\xc7\xd3\x67\xb0\xe1\xea\xc5\xbb\x66\x81\xc4\x78\xbb\xc6\x51\x5b\x15\xbe\xf0\xd7\xf6\x8e\xb9\x99\xa5\x0a\x39\x9e\x4e\xa9\xc3\x06\x23\xef\x38\x1a\x2f\x46\x15\x4c\x40\xe9\x25\xf3\xfc\x20\xf8\x7b\xd4\x79\x8f\xf3\x29\xd6\x4c\xdf\x76\x68\xd5\xd6\xe2\x9a\x35\x9d\xb9\xee\xed\xd3\x20\x34\x71\x35\x84\x29\xae\x30\xcd\x92\x95\x1b\x2c\x34\x22\xeb\xae\x0b\x7e\x74\x95\x5d\x10\x86\xbc\x65\xe0\xa1\x77\xbf\x48\x1c\x89\x4c\xfb\x19\x46\x9e\xad\x3d\x2f\x0b\x62\xa0\x78\xe2\xb3\x23\x55\x38\xf5\x32\x53\xbb\xcc\x6e\xab\xee\x9c\x2d\xc3\xb4\x1d\xda\x34\x83\xd2\x1d\x45\xf5\x95\xa4\x5c\x10\x09\x0a\x19\x38\x1a\xa3\x5b\xf6\x32\x42\x68\xae\xd6\x38\x93\x66\xed\x32\x24\x1d\xda\x51\x31\xb6\xe3\x6a\x7b\xda\x19\xea\x89\x9c\x4a\xac\x40\x99\xda\x7a\x34\x91\x30\x72\x85\x47\x2c\x13\xea\xbe\x4e\x73\x4a\xfb\x5e\x46\xd7\xf0\x46\x1c\x1a\xa1\x65\x85\x86\x47\x63\x54\x89\x2a\xf3\x24\xb6\x01\xba\xf3\xd8\x82\xcc\xe6\x1f\x48\x7c\xe0\xcf\x8b\x47\x1f\x59\x74\xe0\x7e\x36\xd8\x3d\x93\x7b\x21\x9e\x24\xb7\xa6\x11\xb0\xd9\xec\x62\x22\x96\x04\x80\xab\xd9\x8c\xb5\xd0\x17\x0d\xc2\x1a\xf5\xb4\xcd\xcd\x06\xab\xad\x58\x57\x08\x67\x5a\x85\x65\xa4\x15\xc2\x10\x3a\x13\x41\x5b\x64\xd6\x26\x1e\x48\xfb\x9d\x66\x2e\x62\x5a\xd8\xce\xd2\x2a\xd7\x99\x46\x83\x97\x65\x89\x59\x16\xba\x86\x22\x4d\xb0\xd2\x64\xbd\xc6\xb4\x0d\x7e\xc2\xf3\xa3\xbc\x9b\xd3\xdc\x7c\x27\x53\x2d\xc8\xf3\xc0\xf8\x88\x16\x1f\xc3\xbd\x83\x14\xe7\x36\x53\xe4\xbe\x1f\x5c\xde\xe3\xf7\x86\xfd\xf8\x57\xb5\x14\xf5\x52\x4a\x6b\x0c\xdb\x49\x5f\x1c\x60\x05\x8b\x65\x64\x87\x00\xa1\x70\xdf\x00\xaa\x2f\x13\xb0\x84\x1d\xc1\xd9\x2d\x44\x5c\x12\x83\x57\xda\xbb\xb0\x72\x12\x67\x67\xe1\x4c\x25\xac\x17\xcd\x0c\x08\xe7\xb0\x82\x81\x69\x92\x94\xdd\x78\x4a\x33\xc0\x8e\x38\x2e\xfa\xd8\xb6\xca\x18\x17\xf8\xc4\x67\xde\x91\x7d\xa4\x97\x1b\xdc\xab\xf1\x50\xcb\x9c\x2f\xc0\x3e\x8c\xa3\xb2\xa2\x07\x32\xf6\xc4\x28\x9b\x9e\x52\xd3\x9d\xf9\x18\xa7\xdc\x67\x47\x42\xc6\x96\x77\x0c\x66\x3e\x9a\xe5\x02\x24\xc6\xbb\x8b\x54\x09\x24\x5f\x9c\x82\x7d\x90\x5f\x8f\x24\xce\xee\x56\x02\x54\x49\x9d\x1c\x33\xfd\x8d\xe2\x01\xf2\x4c\x28\xfc\x05\x58\x99\xb7\x04\x99\xa2\x23\x3b\x6a\x20\x47\x4e\xb1\xc7\xe0\xb4\x3a\xab\x07\x5a\x4a\xb9\xa7\x72\x60\x14\xea\x25\x26\x60\x7d\x8c\x58\xfb\x74\x75\x81\x37\x95\x3c\x39\x56\x15\x54\x85\x04\x8d\xb9\x3a\x55\x05\xb6\x8a\x0b\xd8\xd0\x36\x43\x78\x6c\x65\xd2\x67\x8a\x93\x0a\x8f\xca\x55\x09\xef\x74\x10\x82\xd3\xe2\xf1\xd8\xfb\x1d\x27\x6d\xb9\xbe\x1c\xfb\xcc\x31\x0f\x61\x72\x41\x38\x71\x43\xed\x89\x39\x48\x53\x0f\xbd\x3e\x62\xe0\x38\x49\xea\xb5\xf7\x2c\x0f\xf4\xc9\xfa\xbd\xb2\x5e\xbf\x8c\xd1\x35\xa4\xe8\x75\xcd\x38\xee\x4c\xa1\xed\x8e\x1d\xdd\x15\x7c\xee\x0f\x3f\x77\x06\xa0\x05\x8f\xfd\xed\x25\x37\xe0\x7c\x68\x64\x9a\x29\x32\xea\xb6\xab\xf8\x1b\x22\x50\xa1\x75\xc7\x65\x77\xd6\xc5\xba\x4f\x85\x2c\x44\x0f\x2b\x5f\x8c\x4f\xd4\xc9\x92\x33\x3a\xf2\x94\x70\x05\x9e\x14\x4c\x18\x5e\xa9\xf2\x9a\x63\xac\xe9\x28\x57\x6f\x51\xc3\x15\x96\x7f\x2b\xd3\xf7\xa0\x33\xd0\x78\x05\x48\x05\x0d\x61\x93\xd6\xe3\x9f\x24\xd9\xfd\x0f\xef\x7e\xf6\xff\x86\x2f\x69\x0f\x62\x07\xa7\xc9\xd8\xcd\x50\x5b\xc7\xce\xce\xce\xd9\x6c\x7c\xf9\x4b\x62\x9a\xf9\x3f\xa7\x9c\x36\x55\x13\xa2\x39\xb7\xc1\x9a\x3c\xfe\xfc\x42\x27\x34\xa8\xe5\x2e\xcc\x5d\x77\x97\x02\x0e\xa3\xf0\x26\xd1\xe9\xb2\x85\x07\x48\x91\x16\x1e\x34\xad\x6f\x41\xc4\x12\x99\x57\xde\x58\x9d\xa6\xba\xe0\xa8\x71\xac\xbc\x37\xdd\xdd\xa9\x13\xfa\x0a\xe2\x59\x03\x14\x26\xf7\x6b\x93\x31\x62\x3c\x36\x73\xbd\x9c\xf9\xce\x0f\x28\x76\xef\x40\xb0\x4b\xba\x77\x66\x4e\xfb\xea\xdf\xad\x6d\xff\xef\x16\x20\x75\x55\x42\x47\x7c\xb4\xaa\xcb\xaf\x79\x2e\xd3\x7d\x9c\x8f\x4f\x33\x91\x9e\x36\x07\x48\xe9\x2f\xa7\x95\x5b\xaf\x5f\x5d\x2e\x23\x19\x9c\xae\x7a\x9b\x9e\x83\x43\x4d\x3d\xdb\x57\xb8\x5f\x59\x6e\xb9\x93\x03\x1a\x2c\xd5\x27\x3d\xd6\x2a\xd3\xc7\x40\xc9\x2a\x08\xb9\x6f\x5f\x61\x3e\x95\x83\x87\x58\x19\x15\xb1\x09\x6f\xcf\x56\x3a\xf7\xc4\x61\x9e\x9f\xa0\x18\x1b\xce\x98\x35\xf6\x3c\x00\x32\x33\x56\xe6\xb5\x4e\x0d\xd4\x0a\xff\x19\x48\xbd\xfa\x7f\xb0\xee\x7f\x57\xd9\xbf\xa1\x10\x45\x99\xae\xc8\x0c\x1e\xec\xd2\xc0\x9f\x0a\xff\xdb\x30\x50\x78\x21\xb9\x37\x20\x17\xed\x7d\x3c\x8b\x15\xae\x89\x4f\x5f\x82\xb8\x48\x71\x09\x64\x0f\xb3\x92\x02\x2f\x7a\x3c\x3c\xba\x51\x7c\x47\x78\x6b\xdd\x4c\x84\x38\x86\x23\xa6\xbb\x3a\xda\x55\xc1\x08\x0e\xf2\x1c\x0a\x91\xc9\xf4\xab\xcf\x29\x20\x88\xaf\x3f\xa7\xe0\xf4\xae\xca\xf1\x3a\x8e\x29\x24\x6c\xce\xb2\xf4\x02\x7f\xe0\x9a\xee\xcd\x28\x85\x6a\xeb\xb4\x24\xef\x1b\x8b\x43\x82\x04\x2f\xfd\xf9\x15\x4f\x56\x67\x7c\xbd\x10\xbf\xe3\x2b\x87\x40\x39\x93\x81\x5c\x0d\x12\x82\x45\x94\xd2\x45\x1b\xc5\x6d\x51\xea\xf5\x0c\x99\x0b\x60\xc5\xd1\x95\x8e\xed\x51\x07\x8a\x18\x4e\x56\x69\x51\x9e\x10\xed\xaa\xb3\x0c\xd5\x0c\x3c\x3b\x94\x4d\x25\xf6\x55\xf9\x1d\x7e\x8a\x01\x53\x02\x86\xe5\x38\x69\xb7\x8c\xbe\xd8\x11\x61\x29\xe9\x7e\x33\xf1\xe9\x0d\x1e\xa7\xfc\xfa\xe4\xf8\x78\xa2\xfe\xc3\x52\x82\x84\xd5\xa6\x11\xc8\x02\x63\xc9\x42\xdb\xfb\x3c\x20\xda\x0a\x9b\xb1\x5c\xfb\x86\x46\x57\x87\x4f\x25\xb5\xf8\x7c\x6e\x7d\xf2\x3a\xe5\x85\x74\x4a\x21\xf9\xa6\x06\xe6\x01\x2a\xf5\x41\x40\x37\x69\x0e\x7b\x92\xcb\x2b\x95\x68\x7a\x8a\xd5\xde\xe2\x9d\x91\x24\x9b\xf9\x6b\x84\x24\x9c\x4c\xc7\x35\xfb\xe9\xa0\xea\x3b\x72\x20\x1a\xee\x9d\x20\x8d\x5f\xf9\x90\x88\xe3\x0a\xc2\x93\xfe\xd2\xee\xf1\xc8\xf4\x91\x93\x20\x4d\xbf\x69\xe8\x20\x08\x8e\xc4\x06\xe7\x40\xbf\x8e\xab\xe0\x9c\xd3\x20\x72\xbe\xa3\xb7\x28\x50\x0c\x5a\x32\x5f\x41\x56\x78\x1b\xb6\x45\xad\x95\x1a\x80\x92\x05\xf1\x81\xc5\x81\xa6\x69\x65\x1d\xec\x28\xeb\x6b\x54\x00\xd6\x2a\x05\xeb\x15\x7e\xcd\x93\x20\xa3\xe6\x61\x10\x63\x65\x3b\x55\x7e\xdd\xc5\x7f\xc3\xa7\x42\x06\xd7\xdd\x9e\x0e\xf9\xdd\x57\xbe\xaf\x4c\x52\x4e\x9d\xf4\x2d\xed\xac\x69\x6d\x76\x15\x3b\x56\xa7\x51\x6c\xa6\x07\xd7\x71\x0e\x0b\xa7\x1e\xe2\x1e\x86\x5f\x33\x8e\xa1\x9b\x20\x96\x79\x8d\xfb\x37\x41\xbb\x00\xe6\xf0\x10\x3b\xf0\x4f\xd2\x17\xe2\x1e\x54\x27\xe2\xf1\x8b\x18\x2a\xcf\xca\x2f\xa6\x8c\xfe\x3d\xda\xb7\x0b\xba\x33\x61\x93\x4b\x7d\x0d\x99\x0a\xb2\x71\x61\x3b\x82\xb1\x15\xf3\x05\x45\xac\xe7\x40\x72\x53\x41\x3b\xf8\xdd\x20\x45\x8d\xf9\x2a\x6a\x89\xab\x20\x59\xed\xad\x8d\x09\xeb\xfa\xd0\x68\x2b\x48\x8d\x8a\xaf\xd4\xeb\xb4\x94\xfb\xde\x10\x24\xc2\x22\x49\xb1\x0a\xae\xc1\xc5\x93\x7b\x5c\x87\x4d\x12\x1a\x67\x4e\x95\xcd\x72\xe5\x11\xdd\xee\x82\x92\xdf\xa0\x86\xb7\xe7\x49\xf5\x63\x60\x0e\xbf\xb1\xe0\xa7\x64\x9b\xad\xb1\xb4\xb7\x31\x38\x17\x32\xe1\x99\x37\x51\xb8\x72\x0c\xa1\x4e\x3b\x3e\x7a\xe0\x64\xdd\xfa\xf5\x81\x5b\xa6\xd3\xd1\x48\xaa\xb3\x07\x2e\xec\xda\xc3\x3a\xfc\xdd\x0e\x1f\x58\x8b\x07\x13\x75\xcd\xda\xbc\xfa\x19\x01\x0a\xcc\x91\xfd\x8b\x0a\xa0\xe7\x28\xd5\x4e\x81\xdd\x0c\xba\x75\x0a\x9b\xc1\x98\x5b\xd3\xbf\x92\x80\x1b\x5b\x63\xcd\xa0\x9b\x89\xd0\xc8\x30\xee\x21\x24\xf7\xf4\x71\x33\xe8\xe6\xd4\xcb\xb1\x99\x27\x35\xb0\xf6\xcb\x8a\x6e\xf2\xc0\xe8\xc4\x9f\x1e\x3d\x72\x8b\x81\xc1\xcf\x92\x8a\x57\xf2\xa7\x32\x20\x21\xa3\x89\x1d\x12\x82\xc5\xbe\x15\x6d\xa0\xb2\xc4\xc4\x1f\x9d\xc0\xa4\x59\xb8\xfb\x4f\xaa\x0e\xc1\x8c\x26\x17\xa6\xc2\xd1\x20\xb1\x33\x28\x68\x8e\x12\x75\x04\x05\x3b\xc9\x3e\x1c\x13\xe4\x36\x87\x07\x05\x0f\x09\xe2\x9d\xd2\xe5\xa7\x67\x6f\x7e\xec\x8d\xe3\x61\x95\x43\x55\xd0\x48\x12\x87\x62\x47\x9c\x40\x75\x02\x77\x7b\xc6\x04\x3b\x42\x82\x16\xe8\x64\xea\x9c\xbd\xc9\x9d\x02\x52\x04\xec\x84\x9d\xde\xfc\x75\x77\xd8\xb1\x56\x3e\x0a\xae\xc6\xc4\xe1\x99\x13\xf5\xe0\x5e\xf8\x80\xdc\x80\x6a\x0c\x3b\x36\x07\x55\x8b\x6c\x17\x37\x8f\x0f\x8e\x33\xf6\x86\x19\xfb\xa2\x8c\x0e\x69\x77\xc4\x18\x11\xe1\x8e\x18\x63\x8b\x42\x2e\x51\x1a\x27\x93\xee\x57\xe7\xe5\x47\x8d\x03\xf3\x8e\x00\x6a\x1e\x0a\xdc\x23\x3f\xb0\x3b\x3b\xc0\x06\x41\x2d\x02\x74\x58\x7e\xa0\x75\x9c\x70\x6c\xbd\x5d\x09\x07\x41\x9f\xbd\x53\x02\x74\x37\x29\x1f\x49\xc8\x61\x07\x15\x0a\x07\x22\xc7\x04\xf4\xf2\x48\xb4\x5f\x4d\xf9\x7a\x68\x13\xcc\x4c\x02\x0e\x45\x0d\x05\x7d\x8d\x28\xd8\x63\x5a\x7b\xe4\x07\x7a\x8e\x1b\xda\xd0\xd1\xd0\x01\xc3\xa1\x88\xb9\x89\x62\x42\x3f\x62\x07\x57\x45\xf5\xba\xbf\xcd\x76\xfd\xfe\x35\x47\x1e\xde\x6b\x76\x3e\x1b\x45\x0b\xb2\xdf\x6c\xe9\xa8\xc4\x72\xa9\x18\x46\xbc\x37\x3a\x63\x67\x73\xa7\xf5\x6b\xb3\x0a\x3e\x29\x5f\x8b\x6f\xe2\xa8\xef\xf9\xbd\x0d\x70\x9a\x86\x77\xcd\x5b\xc6\xd0\x4c\x9c\x1c\x4f\x86\x43\xc4\x55\x74\xb8\xcb\x0b\xcc\x38\x8a\x30\xdc\xbf\xb7\x1a\xd0\xee\x6a\xa6\x0c\x15\x30\x18\x88\x64\x12\x10\x25\xdf\x05\x37\x62\x7c\x6e\xcc\xb3\xfd\x66\x3f\xd0\xdb\x3a\xb5\x9b\x29\x79\x9b\xe8\xef\x8a\x64\x3b\x74\xed\x0b\x5c\xab\xea\x88\xff\x7e\x31\x63\x6a\x87\xfb\xe1\x7b\xb7\xca\x55\x79\x55\xd7\x17\x29\x1d\x4a\x94\x7f\x3c\x60\x32\xb5\x4e\x21\x25\x29\x27\x36\xec\xfc\x37\x1b\x63\x97\x13\xf9\x55\x2a\x94\x52\xd2\xc0\x80\xbe\x6d\xfc\x0c\x9a\xc4\xd5\x2d\xa9\xb2\xe4\x58\x5f\x86\x2e\x8c\x8b\x8a\x0c\xd7\x3e\x54\xd1\x07\xcf\x64\x63\x9c\x82\x89\x01\x24\x67\xaa\x5e\x97\xb7\x75\xc7\xc7\x60\xec\xdd\xdd\xbd\x10\x64\x2d\xa0\x06\x4f\xd7\x22\x75\x27\x68\x18\x3a\xde\x9d\x45\x5f\xb0\xad\x32\xc9\x8d\x7a\x92\x19\x9f\x15\x1e\x40\xa8\x2b\x11\x55\xe7\xf3\xda\x98\x72\x06\xb0\xf1\xab\xe9\x6d\x0a\xd7\xa4\x98\x59\xe8\xcb\x35\xb4\x59\x87\x9a\x0f\xb1\x8e\x01\x9b\xd9\x3d\xce\x5d\xcc\x51\xc6\x03\xa8\xc1\x30\xfe\x70\x72\xb8\x1b\x96\xc6\x02\x1e\x15\x46\x61\x1d\x40\x87\x1d\x77\xa5\x61\x9d\x0d\x4c\xb6\x56\x4b\x5c\x1e\x96\x0e\x75\x33\x70\x7c\x68\x0b\xc8\xf2\x6d\x09\x38\x9b\xf9\xd9\x95\xa4\xe8\xcf\x52\xf4\xa7\x29\xfa\xf3\x14\xbd\x89\x0a\xbe\x86\xb1\xa3\x96\xdb\x49\x55\x70\x1e\xf6\xab\x05\xb5\x94\x6d\x13\xe9\xa5\x64\x5b\xdd\xbb\x9e\x98\xfc\xae\x15\xd7\x4f\xf9\x7c\x59\xf3\x5f\x1a\xf0\xf8\x1f\x2f\x00\x73\xfa\xe9\x66\x09\x76\x3b\x57\xff\x38\x67\x35\x95\x9b\x2f\x33\xa5\x2f\xed\xeb\x97\x77\x5e\xc8\x68\xff\x35\x86\x7d\x03\xd2\xaf\x9f\x9c\xbf\xff\xca\x0b\x19\xa9\x1b\xf6\x57\xec\xc4\xdb\xdf\x72\x4d\x0d\xfd\x43\x1b\x7c\x41\x4d\x91\x5f\xf3\x6f\x7b\xbb\xb6\x98\x2d\xed\x8b\xbd\xf7\xbd\x41\xa6\xeb\x2e\x98\xf7\x9b\xb9\x65\x01\xc4\x01\x77\xfc\x46\xc3\x5b\x2c\xab\x9d\xf3\x5d\x98\xad\xeb\x5e\xfc\xfa\x05\x99\x93\xee\x2b\x61\x70\x0a\x6e\x4b\x3e\x95\xfd\xaa\xb8\xa4\xc9\x4e\xf7\x35\x21\xd0\xd2\xea\x46\xdc\xb9\x4a\xc5\x61\x83\xfa\x15\xf3\x78\x58\xde\x59\xb0\x7d\xaf\xc0\xa4\x35\xda\x7d\x05\x66\x05\x79\xe7\x29\xfc\xda\x3f\xf5\xe1\x5b\x02\xdb\x93\xf8\xce\x5a\xf7\x5c\x7d\x39\x0c\x41\xf2\x6e\xff\x7e\x37\x60\x56\xf3\xda\xf7\x06\x4c\xe7\xe6\xcb\xfa\x9c\xf1\xf8\xb8\x9d\xf6\x41\xb7\x5f\xe2\x42\xf5\x5c\x41\x64\xbd\xa8\x56\x1b\x27\xb0\x5c\xb5\xe8\x3a\x58\x7e\xc0\xf5\x98\xce\x2a\x7f\xd3\xf5\x98\x0e\x1c\x7b\x3e\xf0\xa0\x7f\xa7\x01\xf4\xc7\xc3\x3e\x8e\x6a\x5d\x7a\x79\xe0\xb5\x8a\x4e\x38\x87\x89\xda\xb8\x18\xa6\xfb\xa2\x93\xe2\x52\x04\x20\x88\x88\xfe\x28\x4e\xbb\x84\xab\xeb\x2e\x98\x81\x22\x47\x3c\xa4\xf2\x9c\x8f\xfb\xe0\xd5\x94\x8f\x0f\xb8\x97\xf2\xfe\x5e\xd7\x19\x8e\x6b\x1c\xb5\xa3\x32\x83\x26\xbc\x47\x65\x06\x55\x62\xa4\xf3\x7f\x60\xc6\x51\x9c\xed\xc2\xae\x97\xb9\x7e\xf0\x15\x5e\x26\x41\x01\xc6\x94\x18\x43\xfe\xfd\x35\xca\x5e\x6f\x70\x6c\x8c\xf2\x51\x6d\x36\x06\xa7\x8b\x08\xc5\x9d\x5c\x4e\x50\x2b\xd8\xe8\xc0\xbb\xef\x86\x51\xbc\x54\xc9\x64\x23\xa1\xbf\xab\xc1\x76\x14\x6e\x18\x3a\xd7\x78\x90\xc7\xc7\x29\xb8\x03\xcf\xec\xfd\x4b\x8b\x0a\xec\xf4\x90\x24\x32\xce\xe8\xeb\x93\xc8\x4e\xef\x1d\x97\xdd\xe1\x6c\xfe\xb7\x2f\xbb\xab\xb0\x6b\x5b\x11\xbd\x0a\xe8\xed\x66\x1e\x47\xc5\xaa\xd2\x3f\xdf\x76\xd3\xdd\x3e\xd6\xc7\xd7\xdc\x60\x67\xf2\x96\xc3\xb7\xd8\xb5\xb4\x84\x9d\x9d\xa4\x2e\xed\x55\x76\x9c\xc4\xdc\x61\xd0\x8c\x9d\xec\x64\x6d\x2b\xb8\x29\xc9\x1e\xbd\x52\x4b\x46\x36\x73\x91\xcd\x54\xe4\xbf\xf1\x75\x74\x64\x00\x7d\xed\x75\x74\x3d\x54\xe9\x94\x7d\xfb\x5d\x47\x67\xf4\xc2\x1f\x76\xf1\x5c\x0f\xca\x7b\xa8\x2a\xd5\xaf\xab\xb0\x62\x64\x0f\x35\x04\x0d\x6c\xf6\xa2\xa9\x8e\x00\x44\x5b\x23\xc1\xcb\x3b\x07\xba\xe9\xcc\x27\xb8\x4c\x67\x2c\xd1\x6f\x7e\xf3\x29\x39\x80\x07\x07\x3e\x45\x72\x83\xc5\xa7\x49\xcf\x30\x26\x99\xd1\x06\x62\x6a\xd6\x0c\x22\x1d\x09\x80\xce\xeb\xf4\xf6\x55\xca\x5d\x91\xf9\x61\xad\xdc\x7d\x6f\xad\xcb\xc3\xa2\x9b\xbb\x55\x73\x67\x9c\xbc\xa6\x99\x1b\xd7\xee\x99\x7f\x3f\x54\x12\xd5\x4e\x4a\x39\xe8\x51\xd6\x38\x39\x23\xe9\x81\x69\x9a\xba\xfa\x88\x70\xfd\x7d\x14\xf6\xbe\x36\xd6\xae\xf0\xf8\x4e\x05\x6d\x07\x22\xc0\x16\xdc\xd4\x59\x86\x7f\x01\xd1\xd2\x00\x78\xef\x76\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 30406, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xcd, 0x4e, 0xc3, 0xf3, 0xc5, 0xb3, 0xf6, 0x91, 0x4, 0x59, 0x1f, 0xc8, 0x87, 0x37, 0xd8, 0x6f, 0xd3, 0x33, 0x6c, 0x9c, 0x78, 0xe6, 0xa0, 0xed, 0xfe, 0xd5, 0xf7, 0x5f, 0xff, 0x3a, 0xf1, 0x5c}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 30447, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xd0, 0x5f, 0xb5, 0xc7, 0x9f, 0x45, 0x27, 0x66, 0xf9, 0x73, 0xab, 0x7c, 0xe7, 0x58, 0x60, 0x43, 0x4, 0x6b, 0xd2, 0xc0, 0x5, 0xbe, 0x40, 0x4c, 0x5, 0x22, 0xf7, 0xbe, 0x28, 0xf2, 0xe2, 0xd7}}
 	return a, nil
 }
 
-- 
2.43.0


From 24320426d3634c956df2607513cdf74574c9e617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:54 +0000
Subject: [PATCH 22/42] fix: keep RPCs apart whose names differ in case only or
 are Go keywords

---
 .../NAME-service/baron/NAME.pb.baron.go.tmpl  | 22 +++++++++----------
 .../NAME-service/server/server.go.tmpl        |  4 ++--
 gengokit/template/template.go                 | 12 +++++-----
 3 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index 3dd79f0..6fa9086 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -187,7 +187,7 @@ func MakeGRPCServer(endpoints Endpoints, options ...grpctransport.ServerOption)
 	// {{ ToLower .Service.Name }}
 	return &grpcServer{
 	{{range $i := .Service.Methods}}
-		{{ToLower $i.Name}}: grpctransport.NewServer(
+		rpc{{$i.Name}}: grpctransport.NewServer(
 			endpoints.{{$i.Name}}Endpoint,
 			DecodeGRPC{{$i.Name}}Request,
 			EncodeGRPC{{$i.Name}}Response,
@@ -201,14 +201,14 @@ func MakeGRPCServer(endpoints Endpoints, options ...grpctransport.ServerOption)
 type grpcServer struct {
 	Unimplemented{{.Service.Name}}Server
 {{range $i := .Service.Methods}}
-	{{ToLower $i.Name}}   grpctransport.Handler
+	rpc{{$i.Name}}   grpctransport.Handler
 {{- end}}
 }
 
 // Methods for grpcServer to implement {{GoName .Service.Name}}Server interface
 {{range $i := .Service.Methods}}
 func (s *grpcServer) {{GoName $i.Name}}(ctx context.Context, req *{{GoName $i.RequestType.Name}}) (*{{GoName $i.ResponseType.Name}}, error) {
-	_, rep, err := s.{{ToLower $i.Name}}.ServeGRPC(ctx, req)
+	_, rep, err := s.rpc{{$i.Name}}.ServeGRPC(ctx, req)
 	if err != nil {
 		return nil, err
 	}
@@ -260,9 +260,9 @@ func NewGRPCClient(conn *grpc.ClientConn, options ...grpctransport.ClientOption)
 	{{- with $te := .}}
 		{{- with $pkgName := $te.PackageName}}
 			{{- range $i := $te.Service.Methods}}
-	var {{ToLower $i.Name}}Endpoint endpoint.Endpoint
+	var rpc{{$i.Name}}Endpoint endpoint.Endpoint
 	{
-		{{ToLower $i.Name}}Endpoint = grpctransport.NewClient(
+		rpc{{$i.Name}}Endpoint = grpctransport.NewClient(
 			conn,
 			"{{$pkgName}}.{{$te.Service.Name}}",
 			"{{$i.Name}}",
@@ -278,7 +278,7 @@ func NewGRPCClient(conn *grpc.ClientConn, options ...grpctransport.ClientOption)
 
 	return Endpoints{
 	{{range $i := .Service.Methods -}}
-		{{$i.Name}}Endpoint:    {{ToLower $i.Name}}Endpoint,
+		{{$i.Name}}Endpoint:    rpc{{$i.Name}}Endpoint,
 	{{end}}
 	}, nil
 }
@@ -844,11 +844,11 @@ func CtxValuesToSend(keys ...string) httptransport.ClientOption {
 func ServeNATS(conn *nats.Conn, srv *natsServer) error {
 {{with $te := .}}
 	{{- range $i := $te.Service.Methods}}
-		{{ToLower $i.Name}}Sub, err := conn.QueueSubscribe("{{$te.Service.Name}}.{{$i.Name}}", "{{$te.Service.Name}}", srv.{{$i.Name}}.ServeMsg(conn))
+		rpc{{$i.Name}}Sub, err := conn.QueueSubscribe("{{$te.Service.Name}}.{{$i.Name}}", "{{$te.Service.Name}}", srv.{{$i.Name}}.ServeMsg(conn))
 		if err != nil {
 			return err
 		}
-		_ = {{ToLower $i.Name}}Sub
+		_ = rpc{{$i.Name}}Sub
 	{{end}}
 	return nil
 {{end}}
@@ -908,9 +908,9 @@ func EncodeNATSGenericResponse(ctx context.Context, reply string, nc *nats.Conn,
 func NewNATSClient(conn *nats.Conn, options ...natstransport.PublisherOption) ({{.Service.Name}}Server, error) {
 	{{- with $te := .}}
 		{{- range $i := $te.Service.Methods}}
-			var {{ToLower $i.Name}}Endpoint endpoint.Endpoint
+			var rpc{{$i.Name}}Endpoint endpoint.Endpoint
 			{
-				{{ToLower $i.Name}}Endpoint = natstransport.NewPublisher(
+				rpc{{$i.Name}}Endpoint = natstransport.NewPublisher(
 					conn,
 					"{{$te.Service.Name}}.{{$i.Name}}",
 					EncodeNATSGenericRequest,
@@ -923,7 +923,7 @@ func NewNATSClient(conn *nats.Conn, options ...natstransport.PublisherOption) ({
 
 	return Endpoints{
 	{{range $i := .Service.Methods -}}
-		{{$i.Name}}Endpoint:    {{ToLower $i.Name}}Endpoint,
+		{{$i.Name}}Endpoint:    rpc{{$i.Name}}Endpoint,
 	{{end}}
 	}, nil
 }
diff --git a/gengokit/template/NAME-service/server/server.go.tmpl b/gengokit/template/NAME-service/server/server.go.tmpl
index 863b683..83320c0 100644
--- a/gengokit/template/NAME-service/server/server.go.tmpl
+++ b/gengokit/template/NAME-service/server/server.go.tmpl
@@ -128,13 +128,13 @@ func NewEndpoints(svc pb.{{.Service.Name}}Server) pb.Endpoints {
 	// Endpoint domain
 	var (
 	{{range $i := .Service.Methods -}}
-		{{ToLower $i.Name}}Endpoint = pb.Make{{$i.Name}}Endpoint(svc)
+		rpc{{$i.Name}}Endpoint = pb.Make{{$i.Name}}Endpoint(svc)
 	{{end}}
 	)
 
 	endpoints := pb.Endpoints{
 	{{range $i := .Service.Methods -}}
-		{{$i.Name}}Endpoint:    {{ToLower $i.Name}}Endpoint,
+		{{$i.Name}}Endpoint:    rpc{{$i.Name}}Endpoint,
 	{{end}}
 	}
 	// Wrap selected Endpoints with middlewares
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index 6585b54..470e758 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x02\xff\xed\x3d\x6b\x8f\xdb\x38\x92\x9f\xed\x5f\xc1\x31\x26\x89\x9c\x73\xab\x33\x0b\xdc\x61\xaf\x83\x3e\x20\x8f\x9e\x4c\x76\x27\x8f\x4d\x3a\x33\x1f\x1a\x41\x56\xb6\xe8\xb6\xb6\x65\x49\x91\xe4\xee\xf4\x7a\xfa\xbf\x6f\xbd\x48\x51\x4f\xdb\xc9\xcc\x61\x71\xb8\xc1\x6e\x22\x4b\x64\xb1\x58\x2c\xd6\x9b\xcc\xf1\xb1\x7a\x96\x86\x5a\x5d\xea\x44\xe7\x41\xa9\x43\x35\xbf\x55\xf3\x20\x4f\x13\x5f\x3d\x7f\xa3\x5e\xbf\x39\x57\x67\xcf\x5f\x9e\xfb\xe3\xe3\x63\xf5\x4e\xe7\x9b\x24\x89\x92\x4b\x6e\xa0\x6e\xa2\x38\x56\xe9\xb5\xce\x6f\xf2\xa8\xd4\xaa\x5c\x45\x85\x5a\x46\xb1\xa6\xc6\xbf\xe8\xbc\x88\xd2\xe4\x44\x6d\xb7\xbe\x3c\xdf\xdd\x39\x1f\xd4\x73\x18\xcd\xfd\x8a\xbf\xa1\xc5\x38\x0b\x16\x57\xc1\xa5\xc6\x2f\x6f\xf9\xf1\x75\xb0\xa6\x2f\xd0\xf9\xdc\x8c\xa1\x16\x69\x52\x06\x51\x52\xa8\xb5\x2e\x57\x69\x58\xa8\x32\x55\xeb\xe0\x4a\xab\x28\x09\xa3\xeb\x28\xdc\x04\xb1\xd2\x49\x98\xa5\x51\x52\x42\x97\x3c\x5d\xab\x42\xe7\xd7\xd1\x42\x17\x33\x84\x94\xeb\xcf\x1b\x5d\x94\x2a\x48\x42\x78\x2e\xb2\x34\x29\x60\x0a\xb7\x99\x26\x48\xd8\x14\x67\x94\xc2\x4b\x0b\x65\xa6\x82\x42\xdd\x68\x98\x34\xfc\xad\x93\x05\xd0\x2d\x2f\x10\x00\xc2\x0b\xb5\xfc\x5e\xa6\xb9\x74\x24\x68\x33\x7a\x11\x20\xa5\x96\x2a\xdd\xe4\xaa\xd8\x64\x59\x9a\x23\xa5\xcb\x3c\x48\x0a\x7c\xc6\xe1\xa2\x20\x8e\xfe\x19\x94\x40\x08\x84\x06\x7d\xd6\x41\x59\xf8\xe3\x71\xb4\xa6\x16\xde\x78\x34\x99\xdf\x96\xba\x98\xc0\x03\xce\x5d\x7f\x29\xf1\x91\xd0\x80\x25\x39\xfe\x47\x91\x26\xf8\x62\xb9\xa6\xf7\x51\xca\x7f\x1e\x47\xe9\xa6\x8c\x62\xfc\x91\xe8\xf2\x78\x55\x96\x99\x79\xde\xe4\xf4\xba\x28\x73\x80\x77\x2d\x8f\x00\x0a\x86\x80\xe7\xcb\xa8\x5c\x6d\xe6\xfe\x22\x5d\x1f\x5f\xa6\x47\x57\x51\x79\x8c\xff\x37\xb4\x80\xd6\x41\x72\x9b\xcd\xd5\xe4\x32\x4d\x2f\x61\xc9\x2f\xd3\x38\x48\x2e\xfd\x34\xbf\x3c\xce\xf2\xb4\x4c\xe7\x9b\xe5\x31\xcd\xff\xf8\x2a\x49\x6f\x92\x63\x6a\x0d\xbd\xc2\x4d\x4e\x93\x3c\xa0\x6b\xd5\x05\xfa\xeb\x75\x56\x1e\x32\xae\xb4\x87\x9e\xcb\x48\xc7\xe1\x3a\x28\xae\x0e\xe8\xed\xf4\x01\x08\x40\x9e\xcd\xa2\x3c\xa0\xbb\xe9\x00\x7d\xcb\x68\x0d\xdc\x16\xac\xb3\x03\xba\x3b\x7d\x00\xc2\x4d\x1e\x64\x19\x30\xd8\x01\x00\xaa\x2e\xed\x25\xcd\x61\xf3\x06\xc7\xeb\xcd\x97\x49\xfd\x4b\x76\x75\x79\xac\xf3\x3c\xcd\x89\xd3\x06\x06\xb2\x9c\x47\x6f\x0c\xfb\x0d\x74\xa0\x07\x44\x64\xbb\x3d\x52\xd1\x52\xe9\xcf\xca\x7f\x96\x26\xcb\xe8\xd2\x3f\xb7\x3b\x61\x02\x3b\x65\xa2\x26\x09\x30\xff\x44\xc1\xa6\xaf\xe1\x86\x6f\x8f\x80\xa7\xf1\x6f\x18\x62\xc2\xa0\x80\x27\xb1\xe1\x1e\x50\x2f\xf3\x6c\x61\xa0\xb6\xf0\xa4\x8f\xbd\x5f\x8e\x41\xcc\x04\x61\x50\x06\xcd\x41\xf7\x1e\x12\x9f\xaa\x1d\xdf\xb3\xbf\x6c\x03\x83\x8e\x33\x16\xee\xdd\x03\x00\xc8\x56\x3f\x88\xd8\xf8\x74\xc0\x10\xd4\xd1\xc5\x71\x3a\x1e\x8f\xaf\x83\x1c\xa5\xd5\x27\x75\xaa\x40\x16\xf9\xef\x33\x90\x29\x25\xff\x26\x01\x06\x68\xac\xb3\x20\xd7\xfc\x4a\xa4\x8f\xff\xa4\x4c\x23\x7e\x53\x9b\xa6\xff\x5a\xdf\xbc\x47\x59\x9c\xf3\x47\x96\x66\xfe\xeb\x34\x7b\x16\x83\x88\xb5\x6f\x01\x68\x76\xcb\x3f\x98\x79\xfd\x5f\x81\xf7\xc7\x23\x10\xa5\xb2\x9e\x86\x0d\x59\x2a\x63\x53\x12\x49\xfe\x93\x84\xfa\x55\x42\xc6\x7f\x2e\x8f\xf8\x5a\xc4\x87\x7f\x86\x7f\xe3\x0b\xb3\xa5\xfd\xf7\xf4\x80\xaf\x9c\x6d\xea\x9f\x9b\x67\xfc\x50\x6d\x3f\x6c\x0d\x5b\xe5\x97\x20\xde\xd0\xbc\x1d\xb9\xe2\xff\x88\xcf\xaf\xe0\x19\xa9\x77\xfc\x70\xaf\xff\xd4\x99\xd5\x6c\x0f\xf7\xfe\xef\x98\x34\xe8\xcb\x44\x05\xac\xde\xf2\x99\x8a\xca\x07\x85\xda\x14\x7a\xb9\x89\x49\x4d\x2d\x37\xc9\x02\xa7\x0e\x3a\x70\x15\x94\x2a\xd1\xa8\xa5\x52\x95\x66\x64\x1b\xa8\x14\xfb\xc2\xf3\x91\x51\x03\x08\x70\x1e\x14\x51\xe1\xab\x1f\xa1\xbb\xfe\x02\x33\x8f\xf5\x4c\xdd\xa6\x1b\xb5\x8e\x2e\x57\xa5\xca\x82\x02\x55\xa4\x83\x30\xc0\x0b\xec\x40\x3c\x0e\xac\x4d\xb8\x01\xc5\x8c\xe0\xa0\x2d\x72\x80\xff\x13\xe8\xd5\x18\x71\xbc\x01\x26\x54\x3a\x58\xac\x44\xd3\x2b\xcf\x8c\x3e\x85\x6f\x39\x60\xb8\xc9\x18\x68\x91\xe9\x45\xb4\x8c\x16\x30\x68\xb9\xf2\x95\xf7\x92\xf0\x03\x83\x01\xe0\xcf\x83\x79\x7c\x0b\x6d\xd6\x11\x2c\x0f\x59\x09\xa0\xb1\x8b\xe8\x32\xc1\xae\x51\x72\x9d\x5e\xa1\xba\xd7\xea\x3d\xdb\x08\xd6\xaa\x20\x14\x35\xc2\xa9\x66\xc0\x3c\x80\x20\x0c\x25\xfd\x29\xb4\xb0\xd4\x5d\xc4\x91\x4e\xca\x3a\x75\x61\x94\x45\x1a\xc7\x9a\xfa\x19\x03\x05\x30\x02\xe6\x67\x70\x30\x8f\xca\x5c\x81\x3f\x60\x42\x08\xb0\x00\xb6\x89\xd9\x94\x60\x5a\x45\x48\xe1\xb5\x26\x4a\x3a\xf8\x42\x0f\x9d\x2f\x83\x85\xee\x5b\x09\x04\x66\x07\xeb\x36\x92\x36\x38\x98\xaa\x4b\x10\xdc\x80\xcf\x64\x3e\x20\x07\xe6\x51\x42\x74\x5a\x0b\x8a\xce\xc2\xce\xc4\x94\x2a\x37\x79\x02\x53\xc7\x19\x23\x82\x0b\x98\xa6\xce\xd1\x62\x0a\x0c\xb2\xfe\x98\xa6\xd3\x22\xe8\x76\x3c\xfa\x90\xd8\xf9\xe9\x10\x2c\x40\xd3\x83\x4d\x40\x91\x04\xdb\x2d\xa0\x08\x16\xe2\xf7\x91\x3a\x39\x55\xb6\xcd\x2b\x5e\x32\x16\xcb\xdf\x47\xd2\xc7\x8c\xa2\xe0\x3f\x33\x55\xdf\xbc\x04\x50\x2c\xb8\xd8\xba\xb4\x18\xed\x1e\x02\x19\x18\x38\xb1\xea\x32\x55\xce\xa0\xde\xa2\xfc\xa2\xc4\x4a\x43\xb1\x8b\x7f\xcf\x90\x61\x1e\x6e\xb7\x2f\x52\x6c\x03\x90\xfd\x77\x6c\x82\x9e\x03\x31\xa4\xdf\x54\x79\x8d\x16\x6c\x98\x3a\x4d\x66\x2c\xe0\xa6\x48\x2d\x63\xb7\xd2\x3b\x44\x54\xfb\x1d\x33\x47\x64\x70\xf0\xe9\x78\x84\x8a\x00\x5a\x7e\x77\xaa\x92\x28\x46\x08\x23\x59\x2f\xf8\x49\x40\xc6\xa3\xbb\xb1\x79\x67\xa0\xfb\x3b\x71\x9a\xce\x10\x00\x10\xd1\x90\x13\x89\xf9\x0a\xb7\x99\x4b\x51\xda\xc8\xdf\x83\x18\x41\x8a\xde\x61\xe3\x23\xe5\x52\x19\x3e\xf5\x11\x1a\x61\x75\xcd\xac\x40\xa2\x3b\xdd\x5c\x36\x99\xb6\x97\x9b\x69\x46\x93\x43\xb0\xdd\xab\x64\x1c\x03\xbb\xa3\xb6\xb8\x2c\xd6\x45\x70\x5e\x33\xd9\xab\xe5\x00\xd8\x9f\x71\x22\x02\xa1\x45\xb7\xd6\x6a\x43\x97\x6b\xbb\x76\x85\xdf\x60\x20\x42\x05\xdb\xb4\x57\xad\xbd\x6c\xb8\x6e\xe6\xed\x35\x2f\xc7\xe8\x6e\xcc\x44\xe6\x35\x71\xd7\x06\x95\xe3\x93\x38\x3e\xfb\xb2\xd0\x59\x49\x7a\xaa\x60\x11\x6b\x29\x45\x1a\x0a\x5d\x16\xd9\x9b\xd5\x66\xa5\x65\x24\xd9\xd4\xe1\x17\xf8\xaf\xa2\x10\xc4\xf6\x0d\xe8\x77\xf2\x02\x3f\x14\xc6\x2f\x44\x27\x28\xcb\xe2\x5b\x14\x31\x28\x36\x4b\x04\xbe\xb6\xad\x49\x2f\x68\x58\xb6\x5b\xbb\x6c\xb8\x5f\x50\x82\x14\x46\x6a\x00\xbc\x37\x19\x6a\x0d\x94\x9c\x33\x47\x70\x2d\x40\x0e\xcd\x35\xe9\x1a\x10\xa3\xd0\x0d\x7c\xd8\x04\xc9\x0e\x30\xe1\xbd\xfe\xb2\x88\x37\x21\x7c\x21\x2f\x70\xae\x11\x05\xd6\xcd\xa1\xdf\xa2\x86\x57\xe1\x34\x53\x93\xf7\x65\x50\x6e\x8a\x09\x3c\xbd\x85\x5e\x93\xa9\xdd\xf7\x0f\x9d\x8d\xdf\xd7\x5f\x75\x50\x65\x56\x61\xe3\xfb\x3e\x3b\x5c\xc4\x3c\x51\x22\xaf\x81\x15\xd6\x41\x76\xc1\x9f\x3e\x32\xf9\xb7\x77\xb8\xea\xcd\x0d\xd3\x25\xf9\x46\xa3\x89\xc3\x46\x13\x70\xb0\xef\x66\xd2\x55\xcc\x48\xe0\x80\x11\xae\xc6\x27\x44\x85\xd8\x95\x40\x5a\xb4\xb6\xcc\x71\xf0\x39\xbd\xc2\xcf\x06\xb1\x0b\xfd\xe5\xe3\x63\xf5\x1d\xbc\x24\x0e\xcc\x82\x24\x5a\x78\x95\x85\xb7\xf4\x26\x67\x06\x84\x5d\xc1\x07\xf7\x8a\x07\x2a\x4c\x61\x75\x93\xb4\x84\x21\x40\xf9\x3e\x86\xf5\xd4\xee\xc2\x5b\xde\x21\x93\x1e\x91\x9a\x4e\x85\x9f\x43\x1d\xeb\x52\x7b\x06\x03\xfa\x56\x4d\x00\x5e\x57\xe8\x5b\xf2\xed\x4f\x28\x98\x24\x82\x38\x3d\x55\x35\x92\xf1\xf4\x46\x9d\xa2\x14\xcc\xcb\x0a\x73\xaf\xb3\x09\xe2\x4e\xc8\xd7\x48\xce\xdb\xee\xe7\x60\x0e\x33\x0a\x2b\x6e\xe0\x10\xca\xa5\x2e\x0d\xef\x22\xbf\x5b\xea\x11\x0b\xdf\xac\x74\x62\xbf\xa6\x0e\xbb\x0a\x30\xe6\xba\x19\xef\x32\xd9\x08\x1b\x6e\xac\x38\x2e\x13\x70\x70\x07\xec\x22\x30\x6a\xe0\x2f\x32\xb3\x1c\x2e\xbd\x59\x45\xb0\xf3\xb1\x6b\x01\x43\x77\xa0\x20\x9a\x5c\x7a\x1b\x3b\x26\xcd\x45\x8f\xb7\x67\x45\xc2\x95\x19\x78\xd6\x96\xc2\x1d\x82\x79\xdc\x37\xaf\xaf\x96\x4d\x2d\xa4\x66\x32\x4f\xa2\x78\xae\x17\x3a\xba\x66\x8b\x8f\xa6\x08\xc0\xdc\x79\xfb\x60\xaa\x68\x0b\xc6\x81\x42\x1f\x8c\x21\x6a\xf7\x3d\x22\x8a\x1c\x19\x82\x8f\x18\xc5\x64\x34\x9a\xed\x44\xc1\x1c\x31\x76\x83\x38\x2a\x6f\xfd\x21\x11\x52\x9b\xbb\x2b\x49\x0e\xa6\xe8\xff\xcb\x99\xff\x3b\x72\xa6\xd6\x6d\xa6\x0e\x12\x3b\xfb\x07\x28\xf6\x75\x3d\x5f\xbc\x7b\xfb\x8c\x2d\xac\x83\x7d\x4f\x34\xe3\x9c\xee\x18\xae\x2d\x2a\x63\xa0\xd2\xe7\xc1\x35\x6c\x23\x70\xd8\x34\xbb\x0d\x97\xd0\x45\xf5\x38\x03\x7e\x65\x20\x56\x90\xbd\x0a\x94\xe3\x9e\xa4\x19\xbb\xb6\xb0\x1f\x6a\xb1\x18\x9f\x3b\xb1\x69\x31\xed\x1b\x08\x97\xab\x70\x1a\x16\xb8\xe0\x17\x1f\xfb\x21\xe1\xf2\x76\x7d\x7d\xaa\x81\xa9\xb4\x87\xd8\xbe\x92\x98\xd2\x79\x2a\xd6\xe7\x74\x46\x06\x78\x7d\x9c\x53\x34\x9c\x60\x46\x5e\xed\xb5\x9d\x0f\x4c\x67\x4a\x81\x8e\xed\x56\x9d\xa7\x3f\xa7\x37\x80\x6b\x6d\x06\x14\xd9\x11\xd3\xf0\x3e\x62\xc4\x78\x6c\xd1\x4d\xda\xc9\xbd\xdb\xad\x81\x69\x59\xee\x44\xd5\xa7\x65\x43\x34\x1e\xf2\x60\xb5\xcb\x3a\xb8\x14\x45\xc4\xe8\x39\x45\xca\x71\xfe\x4e\x0b\xb1\x8e\xa9\xc1\x59\xd2\xd9\x40\x7c\x1d\x6c\x51\xa3\x04\x10\x00\x5f\x22\xed\x3a\x74\x6e\x35\xe1\xa6\xeb\x6c\x8d\xf3\xee\xf5\xb6\x86\x3e\x6b\x39\x07\xce\x1f\xe0\xae\xb6\x88\x0c\xde\x6a\x9d\xca\x12\x0f\x71\x0c\x7a\x71\xb3\x24\x50\x81\x92\xca\xc1\x11\xa3\x1a\x06\xb5\xfd\x67\xba\xa7\xdb\x5b\xa8\x87\xd5\x50\x53\xe5\x7a\x39\x43\xfe\x2f\xba\x47\xbf\xaf\x03\xfc\x09\x81\x66\x35\x17\xaa\x45\x49\xde\x76\xc8\x4d\xae\x53\x75\xa0\x27\x9c\x7d\xa5\x13\x2c\x14\x66\x96\xdf\x4d\x5e\xe8\x31\xb4\x3b\x30\x96\x15\xa8\x7a\x8c\xd8\xe7\x0e\xd2\xe2\x47\x5c\x1f\x8a\x13\x61\x54\x55\xe7\x28\x4c\x69\x17\xb0\x08\x6d\xb3\x99\xf1\x76\x29\x80\x06\x76\x63\x7e\x14\xa6\xeb\x00\x5c\xa8\x81\xc6\xbe\x7a\x9b\x47\xeb\x20\x8f\xe2\x5b\x13\xde\x72\x63\x61\xcc\x24\x43\xf3\xf0\x3e\xb5\x99\x03\xe7\x02\x9f\x1b\x6e\x77\xd3\xdb\xb6\x81\x0f\x72\xb4\xa5\xcf\x3e\x8e\xb6\x5d\xc9\xcf\x03\xcb\xc4\x82\x67\xaf\x65\x1a\x94\x51\x9d\xeb\xc4\x3d\x4c\x93\xbe\x85\xda\xbd\x04\x26\x55\x99\x56\x9a\xb1\xab\x19\xb8\xda\x7b\xad\xd3\xe0\x44\xba\x16\xaa\x2b\x12\x32\xb4\x52\x45\xc6\x31\x91\xbd\x83\x49\xb5\x00\x54\xd7\x6a\xfd\xa4\x63\x0c\xab\x8f\x79\x02\x9d\x8a\xb4\x5b\x00\xad\x43\x65\xd2\x38\xfe\xab\xe7\xd3\x66\x03\xc4\x17\xc5\xe8\xd5\x4c\x5d\x57\x16\xdf\xda\x9a\xaa\xd7\xb5\x10\x0c\x65\xa3\xb5\xba\xd2\xb7\xb4\xdc\x21\x1a\x85\xf3\x14\xfc\x0f\xa0\xb1\x19\x45\xf2\xb8\xca\xbb\x9a\x8a\xfb\x81\x4d\xc1\x01\x89\x71\xbd\x04\x4a\x20\x4e\x17\x85\x5b\x9f\x05\x49\x0a\x06\x6f\x10\xff\xa4\x83\x50\xe7\x7f\x05\xe8\xe2\x9b\xe0\x40\x45\x2a\x41\xe0\x52\x5c\x3d\x03\x62\xb1\xd0\x26\xf6\xa1\xc1\x07\x02\x5e\xe0\x91\xf1\x3b\x92\xe2\xd4\xce\xf5\x57\xf8\x4c\x79\x08\x96\x86\x38\xd7\x8b\x47\x1f\xa7\x3b\x1b\xf6\x60\x07\x33\xab\x20\x88\xd5\x2f\xcb\x07\xdd\x48\x47\x1d\x60\x57\x72\xa4\xf9\x60\xbb\x12\x2c\x10\xa7\x37\x0f\x4f\x59\x07\x09\x1d\xa9\x79\xb0\xb8\xe2\xd2\x06\xd9\x33\x1c\xa2\xc7\xb9\x26\x9a\x7c\x33\x5f\xbd\x24\xf1\x2a\xc1\x7e\x61\xd7\x68\x1e\xa1\xcf\x66\x96\x40\x62\xd9\xb0\xf5\xc2\x28\x88\x39\xe0\x1d\x07\xc0\xf7\x00\x2f\xc5\x30\x2c\x35\xaa\x60\x32\x83\xd6\xb0\xf3\xf0\x33\xab\x4f\x9f\xdf\x00\xf3\x25\x03\xc6\x29\x37\x32\xc6\xa9\xd7\x63\x64\xb8\x5b\x0e\x2d\x84\x66\xac\x75\xe4\xbc\xcd\xae\x2e\x69\xfb\x49\xc8\xb5\x5e\x64\x31\x6a\x7b\x35\xdd\x71\xd9\x11\xe6\xf9\x3a\x44\x8f\x75\x61\xda\x4e\xfe\x68\xdb\x6d\x50\x3a\x5e\x4f\xcb\xb2\x14\xaa\x11\x7b\x22\xa1\x8c\xe7\x29\x93\x00\xf5\xde\x15\x01\x9e\xcc\x5a\x1e\xea\x90\x65\x59\x99\x9e\x3d\x5a\xcb\x31\x3d\x77\x48\x2f\x76\x83\x47\x69\xdd\x34\xb5\x34\xf0\xc8\xaf\x24\x30\x62\xa7\x56\x4f\x56\xc4\x99\x0d\x64\x7d\x97\x9d\xa6\xba\x3a\x12\x50\x2d\x9a\x9e\x60\xde\x63\x80\xe6\xb3\x6a\xdc\xd1\x9d\x11\xb6\xb8\x03\x90\x06\x4a\x76\xd4\xb7\x9b\x2f\x03\x7a\xd1\xd8\x2f\xc3\x7a\x71\x58\xd3\xed\x6b\xbe\x88\x0e\xea\xd1\x8b\x2c\x14\x86\xed\x97\x7e\xbd\xc8\xc6\x08\x22\xb3\xa7\x62\xc4\xa6\xd6\x88\x41\x75\x7d\x90\x6a\xcc\x30\x04\xde\xd6\x8d\xee\xb2\x7d\xbb\x39\xd3\x6f\x75\x1a\x6b\x66\xd0\xea\xdc\xd3\x9e\xdc\x69\xcb\x0c\x5a\x9d\xb5\x55\x1b\x9a\x47\xb7\x31\xd3\x95\xec\x19\xb6\x3a\x0f\x48\xef\x0c\x5b\x9d\x82\x05\x29\xd9\xe2\x3c\x75\x0d\x19\xa6\x79\x97\x26\x70\x48\xce\x53\x1e\x80\xe2\x81\xcd\x50\xa8\x8b\x8f\x26\xfc\xb7\x03\xde\x5e\xe9\x31\x30\x87\x1e\xee\x32\xa2\x48\x37\x64\x41\x94\x57\x83\xc3\x4b\x09\x06\x5e\x55\xa6\x15\xa1\xb7\x95\x18\xd9\xb5\x09\x04\xc2\xb0\x3e\x1b\x1e\x57\x53\x5f\x82\x9e\xd3\xc7\xca\x04\x04\x47\x0c\xd8\x46\x45\xe8\x27\x1b\x32\x36\x08\x86\x42\x14\x61\x72\x53\xd7\x6a\x7b\x08\xf8\x9f\x56\x56\xe0\x5f\x40\x06\x7a\xf0\x6e\x56\xbd\x7a\x8b\x7d\x18\x2a\x86\x56\xa6\x06\x9c\x63\xd5\x48\x64\x8d\x57\x72\x5f\xfb\xe6\xa7\xf3\xf3\xb7\x5f\x13\x37\xa3\xa4\x3d\x53\x39\x21\xf6\x02\xfc\x27\x98\x4a\x03\x3b\x0c\x95\x0c\x55\xfe\x3d\x56\x8b\x55\x90\x17\xba\x3c\xdd\x94\xcb\xa3\x3f\x4f\x6c\xb8\x0d\x47\x95\xd0\x41\x65\x18\xa9\x95\xbc\xa1\x3d\xbb\x3b\x0c\x87\xc0\xd2\x44\x65\xb9\x0e\xf5\x32\x4a\xc0\x92\xc2\x0a\x8b\xc2\x89\xbd\x39\xc3\xec\x0c\xbe\xd5\x0b\x7c\xea\xc1\x37\xb7\xf4\xc3\xd8\x32\xb0\x8e\x3e\xc1\x27\xb3\xbf\x16\x9d\xea\x08\xc8\xf5\x43\xa7\xf5\xef\xfa\x2c\x11\x39\x1e\x03\xed\xda\xa2\x16\x90\xeb\xee\x74\x86\x62\x81\xc5\x0d\x4c\xd9\xf9\xd1\xdf\xe5\xc9\x12\xc4\x8a\xd7\xfc\x52\x3e\xab\x96\xd6\x73\x96\x79\x4a\x80\xda\xb3\xdc\x2b\x1c\x28\x51\x22\x0a\xfd\xc1\xe2\xbd\x85\xe5\x82\x35\xcb\x41\x2e\x95\x54\xb3\x8a\xc9\xc9\x62\x11\x64\x18\xec\x06\xa3\xf5\x16\x98\xe0\x56\xad\xd2\x38\xc4\xaa\x28\xe2\xa5\x60\x51\xa2\x87\xb2\xa6\x3c\xc1\xe6\x0b\xda\x62\xef\xd2\x0d\x4e\x60\xea\x7f\x28\x34\x4f\x36\x44\xc0\x60\xd3\x38\xf6\x89\xe4\x46\x50\xd3\xf4\x2c\x9a\x6d\x3a\xc7\x2a\x94\xe4\x92\x6c\x4c\xee\xe6\x3f\xe5\x57\x12\x39\x5f\x9b\x7e\x14\x02\x97\xe6\x58\x2f\x3c\x57\xbf\xa9\xf3\xf4\x03\x56\x57\x81\x69\x37\xf5\x09\x0d\xb7\x0d\xbe\x38\xd7\xeb\x2c\xa6\xa2\x62\x68\x61\x98\xb3\xa7\xba\xcc\xe3\x58\xbc\x1b\xbb\x14\x8c\x3a\x02\x98\x62\x25\xe2\xf4\x9c\x21\x29\x77\x53\xb7\x26\xc5\xde\xc4\x86\x2f\x38\x05\x57\x33\x25\x3b\xc3\x98\x23\x92\x38\x8d\xba\x46\x79\x14\x11\xb4\x36\xe5\x2a\x0e\xd7\x71\xae\x8f\x03\x9b\xc4\x8d\x26\x6b\x67\x46\xfc\x15\xbf\x83\x9f\x00\x3e\x10\x6c\xe2\x60\x13\x97\xa8\x3b\x99\xdd\x10\x18\x05\x39\x61\xfb\x37\x25\x0b\x78\x39\xe0\xd6\x86\xe4\x03\xe1\x6f\x76\x22\xd0\x19\x9d\xd0\x38\x13\xeb\xbf\x5e\x53\x75\x1b\x80\xa2\xf7\x3e\x61\xe7\x4d\xd9\x4b\x02\xe9\x42\x99\x74\x85\xc8\x22\xa8\xff\x7c\xf4\x08\x5c\xae\xa5\x83\xaf\x13\x9d\xe5\x5d\x08\xd8\x12\x62\xd0\x22\xcb\xd3\xeb\x08\x1d\xec\x15\xef\x4f\xce\xe2\xcd\x35\x63\xcb\xc9\x4e\x6c\x57\x59\x78\x2e\x68\xaa\x02\xab\xa0\xe3\x2c\xfc\x57\x20\x2d\x57\x01\x15\x98\x19\xfc\xd7\xfc\x0a\x39\xb2\xd8\x80\x43\xad\xc3\x82\x3d\xba\xbf\xbc\x7f\xf3\x5a\xea\xbd\x43\x53\x9c\x6d\x33\x86\x84\xbb\x41\x07\x13\xaf\xfd\xd3\xe2\x62\x02\x2c\xb7\xcf\x67\xc6\xd1\xb4\x33\xab\x3e\xd6\xa0\x81\x65\x52\x94\x30\x69\x43\x33\x16\xb9\xae\xbc\xe9\x32\x6b\x6c\x5d\xca\x4c\xdd\xb0\x4c\xad\xb3\x01\x99\x33\xb8\xaa\x33\xf5\x09\xb7\x9f\x4b\x12\x16\x66\xbf\x72\xed\xe2\x96\x56\xf1\x04\x81\x99\x05\xbd\xe3\xe8\xe9\xba\x22\x20\xab\x6d\x6c\xe2\xd5\x69\x5b\x69\xed\x88\x99\xe7\x29\x0d\x29\x5d\xcf\x38\x68\x6b\x01\x99\x7e\x48\x6e\x0f\xba\x3a\xcd\x4e\x1d\x0d\x4e\xcc\x78\x6a\xc1\x99\xb0\xc3\xe8\xc6\x67\xb6\x01\xf9\x04\x42\xd5\x9b\x88\x58\x3d\x42\x59\x3a\x99\xb9\x0a\x94\x27\xb0\x32\x4c\xe6\xe2\x5f\x17\x0f\x86\x0f\xab\x79\x98\xf0\x10\x19\x5b\x95\x21\x63\x60\x49\x8f\xc2\xe3\x7a\x20\x17\xa7\xe7\x3a\x06\x7b\x06\x5f\x8a\x1d\xe4\x84\x98\x04\x1c\x9b\x37\x4e\x9f\x27\x61\xe8\x35\xec\x1a\xfc\x1f\xed\xa1\x13\xae\x94\xf5\x99\x6f\x5e\xa2\xc5\x9a\x04\xb1\xa3\x9b\x68\x92\xc5\x62\x60\x7a\x0e\x3f\x56\x33\x24\xe0\xa7\xd0\xd1\xf9\x2c\x5e\xeb\x8d\x4f\xdc\x23\xe8\x61\xc3\xa9\x7d\xe9\xe1\xb2\x4c\x51\x30\x55\x0c\xca\x62\x32\xf7\xb0\xea\xf6\xe2\x23\x16\xff\x4e\x65\x53\x6c\x39\x7c\x70\xa3\x5c\x5e\xb3\x41\x79\xc3\x90\x1f\x12\x61\x01\x84\x30\x53\xf7\x6f\x00\xcb\x46\xd0\x9e\x8d\xa3\x22\xfa\x27\xe2\xfc\xe7\x1f\xfe\xfb\xbf\x98\xd7\x62\x9d\x60\x9f\xa9\xfa\x1f\xfe\xc6\x8c\x03\x68\x9c\x2a\xf8\xf3\xe2\x04\x5f\x7e\xac\x17\x4d\x61\x86\x99\xe8\xb6\xf4\x26\x36\xc4\x49\xbc\x86\xc9\xe5\x13\x8c\xb7\x61\x6e\x39\x43\x2b\x4b\x25\x69\x72\x44\xc2\xd0\xf8\x0f\xd8\x10\x98\x0c\xc7\xac\xc5\xc0\xa4\x18\x19\xf4\x8c\x77\xc3\xe0\x89\x46\x24\x6c\xdd\xb9\x3b\x39\x25\x6a\xa5\xd8\xec\x55\x7f\xc7\x51\x4e\x44\xd2\xfe\x5d\xe4\x3e\xae\xa2\xb4\x02\x39\x5d\x2c\x23\x91\xfb\x86\x5d\x49\xa2\x39\x8b\x5b\x79\x37\x58\x59\x4a\x52\x47\xce\xd8\xec\x53\x43\x2e\x55\x1e\xce\xa0\x16\x55\x96\xae\xa3\xa2\x12\x5d\x14\xe6\x31\x42\x1a\xfe\x73\x2a\x0c\xac\x27\x60\x78\xc4\x5b\x55\x40\xa7\xca\xe5\x36\x55\xaf\xd5\x5b\xf9\xd5\x08\x3d\xbd\xab\x7d\xc7\x16\x24\xfd\xac\x81\x10\xa4\x84\x84\x1c\x1d\xa5\xd2\x6b\x6b\x16\x23\x09\xc9\x83\x11\xd1\x8e\x85\x21\x61\x55\x6c\xb2\x2e\x2e\xd9\xe1\x44\xdb\x57\x01\x1d\x60\xe5\xf3\xdb\xb1\x04\x70\x6f\x56\x9a\xc2\xae\x11\xb9\xcb\x60\x4a\x9f\xc0\x16\x0a\xe2\x00\x8d\xad\x82\x4d\x2c\x2a\x5f\xc0\xea\x8d\xcd\xda\xbc\x8c\x72\x05\xbf\xe6\xbc\x64\x0c\xea\xb6\x5c\xe1\xc2\xeb\xb8\xa0\xec\x37\x0a\xc3\x99\xa9\x84\x23\xc5\x03\x23\xac\x82\x82\x51\x41\xb6\x13\x95\xe0\xcc\xc8\x43\x54\xa9\xde\x1d\xec\xa7\xa2\x80\x85\x9e\x71\x95\x8b\xf1\x03\x3d\x9a\xa6\x29\x27\x81\x8d\x3f\x4f\xd3\xb8\x59\xcd\xc8\x96\x5f\x01\xb6\x14\x42\x7a\xa7\x97\x58\xf4\x83\x92\x80\x29\x82\x1f\x41\xa8\x15\x8b\x3c\xca\x4a\xd4\x0b\x5c\xc8\x0e\x4b\xe0\x3f\xbd\x3d\x07\xf8\x68\x38\x79\x38\x2c\x8b\x5b\xee\x75\xda\xca\xb7\x4d\x60\xdb\x2c\x83\x58\x8a\x58\x71\xb3\x98\x5d\x78\xaf\xa0\x89\x26\xa9\xf4\xbd\xf7\x19\x9a\x36\xc7\xdc\xc4\x31\x0d\x34\xe5\x29\xb2\xa0\x82\xe1\xbe\x5b\x83\xc9\x57\x78\xd4\x73\xaa\xee\xdf\x57\xfc\x88\x2f\xdf\xc2\xf6\x06\x6d\x8e\x7c\xf6\xdb\x6f\x0c\xdb\x7f\x59\xfc\x1c\x15\x65\xfd\xcd\xab\x20\xf3\xa6\xd3\x1e\x5c\xa5\xc0\x92\x86\x6a\x80\x80\xc1\xbe\xab\xc1\xc0\x37\xfc\x42\x96\x03\x5e\x39\x84\xe0\x22\x18\x3a\x1b\xc1\x54\x7d\x01\xea\x8b\x11\xf7\x5f\x9a\x9d\x0b\x73\xf5\x44\x86\x3e\x56\xdf\x71\x63\xb7\x12\xb4\x2a\x90\xf1\xfa\x00\x00\x89\x60\xe7\x1a\xdc\x45\x97\xa4\x09\x47\xa1\xd6\x24\xa3\xa6\xfc\x82\x14\x28\x01\x98\xd5\xd0\x81\xcf\x22\x91\xd1\x3d\x83\x5e\xf6\xe8\x8f\xd1\xdd\x62\xcb\x22\x66\x4f\xe2\x38\xbd\x79\x1b\xe4\x65\x14\xc4\x14\x85\xa4\xc1\xe1\x03\x78\x0f\xc4\x52\xb8\x6e\xc5\x49\xfd\xc3\x19\x6c\x87\xd7\xb4\x23\xf0\x8b\xf9\x70\xb6\x8e\xca\x0f\x49\x96\x66\x1b\xb4\xe7\xc3\x13\xf3\x01\xf0\x47\x97\xdd\xe6\x7f\x2b\xe4\xac\x31\x43\xd3\x71\x89\x30\x90\xfa\x6d\xb3\x22\x4a\xe7\x25\x1a\x44\x33\x35\x59\xa4\x9b\x38\x4c\x1e\x94\x62\x09\x5a\xa6\xc4\x5d\x4a\xa7\x9f\x5c\x0e\x44\xed\x46\x0d\x0a\x57\x04\x12\xa5\xde\x05\x37\xc2\x06\x03\x0a\x8f\xa7\x75\x9f\x41\xb4\xd5\x5e\x27\xc2\x6e\xc6\x9a\x07\xe4\x65\x2b\x2e\x10\xaf\x8f\xb5\xe5\x67\x29\xb8\x31\xe3\xb1\x20\x04\xa9\x55\xf4\x49\x3e\x2a\x9d\x8d\x4a\x16\x48\x24\x6c\x44\xee\xd4\x61\xec\x10\x3d\x33\xe5\x48\x1e\xc7\x18\xc0\x5d\x44\x14\xf8\x05\xec\xef\x50\x18\x9d\xa4\x54\x7d\x03\x36\x25\xc4\x67\x14\xb6\xa8\x96\x65\x01\xa8\x07\xd1\xa1\x57\x7a\xb5\x18\xde\x4e\xa0\xc5\xd3\x76\x39\x06\xb8\xda\xb0\xe8\xf3\x08\xc4\x7d\x1e\x7e\x48\xe8\xe4\x9d\xcb\xa1\xd5\x1a\xbb\x23\x39\x6b\x2d\xb3\xad\x95\xb8\x6d\xef\x7d\x3e\x51\xf7\x8a\x3b\x61\x2a\x99\x19\x2c\x61\x8b\x9f\xfb\x78\xc3\x30\xc4\xd7\x49\x6b\x1a\xc6\x11\xa0\x08\x78\xed\x8a\x05\x6a\x50\x93\x0c\x77\xac\xb3\xb8\xe5\xb3\x58\x07\xb9\x7c\x73\xf9\xb2\xe2\xbd\x45\x9a\xdd\x32\x0e\x9d\x7c\x57\x20\xe3\x85\x1c\x1b\xbe\xc1\x28\x15\xa9\x50\x8c\x5b\x80\xe2\x2b\xf2\x85\x70\x5f\x05\xc5\x83\xc6\x33\xfc\xd2\xc5\x7e\x45\xa3\x08\x12\x26\x40\xb2\x16\xfa\x34\x18\x84\x40\xb4\x55\x1e\x9b\xec\x89\xa4\xcd\xd8\x6a\x67\xc0\xe4\x15\x18\x1a\x17\x7b\xd3\x98\x8c\xf3\x26\x85\x47\xa1\x4b\xe2\xa2\x4e\xdf\x91\x53\xd4\x84\x26\x48\xdb\x78\xe9\x36\x58\x3a\x0d\x07\x3a\x21\xc5\x24\xb4\xb0\x76\xee\x5d\x64\xb4\x87\x62\x20\x88\x7d\x0a\x58\xb3\xc7\x99\x82\x9f\x42\xb4\x69\xd8\x21\x56\x28\xe2\x36\x30\x5a\x0f\xd5\x31\x16\x78\x82\xb2\x25\x79\x80\xa5\x91\x13\x26\x81\xae\x4e\xf0\x99\x5d\x9e\xd5\x82\x57\x8a\x37\x3d\x1d\xcc\x9b\x34\x94\xbe\x76\xf7\x01\x62\x8a\xc0\xcc\x47\x3b\x92\x3f\xa9\x0d\xec\xfb\x13\x77\xdf\xc8\x19\x68\x1f\x53\x32\xb8\xc3\x78\x7a\xd0\x09\xfe\xb8\xf7\xa7\x33\xf8\xeb\xe8\x87\x1a\x4b\x6f\xf2\x98\xc2\x4d\x67\x14\x4f\x63\xa1\xe5\x2c\xd3\x2f\x68\x02\xba\xab\xb4\x49\x24\xf2\xa6\xb2\x46\x54\x0e\xa3\x2f\x36\xbb\x50\x2d\x0e\x42\xf0\x80\xf2\xe2\xc7\xd3\x67\xb0\xe1\xea\xc5\xbb\x66\x81\xc4\x78\xbb\xc6\x51\x5b\x15\xbe\xf0\xd7\xf6\x8e\xb9\x99\xa5\x0a\x39\x9e\x4e\xa9\xc3\x06\x23\xef\x38\x1a\x2f\x46\x15\x4c\x40\xe9\x25\xf3\xfc\x20\xf8\x7b\xd4\x79\x8f\xf3\x29\xd6\x4c\xdf\x76\x68\xd5\xd6\xe2\x9a\x35\x9d\xb9\xee\xed\xd3\x20\x34\x71\x35\x84\x29\xae\x30\xcd\x92\x95\x1b\x2c\x34\x22\xeb\xae\x0b\x7e\x74\x95\x5d\x10\x86\xbc\x65\xe0\xa1\x77\xbf\x48\x1c\x89\x4c\xfb\x19\x46\x9e\xad\x3d\x2f\x0b\x62\xa0\x78\xe2\xb3\x23\x55\x38\xf5\x32\x53\xbb\xcc\x6e\xab\xee\x9c\x2d\xc3\xb4\x1d\xda\x34\x83\xd2\x1d\x45\xf5\x95\xa4\x5c\x10\x09\x0a\x19\x38\x1a\xa3\x5b\xf6\x32\x42\x68\xae\xd6\x38\x93\x66\xed\x32\x24\x1d\xda\x51\x31\xb6\xe3\x6a\x7b\xda\x19\xea\x89\x9c\x4a\xac\x40\x99\xda\x7a\x34\x91\x30\x72\x85\x47\x2c\x13\xea\xbe\x4e\x73\x4a\xfb\x5e\x46\xd7\xf0\x46\x1c\x1a\xa1\x65\x85\x86\x47\x63\x54\x89\x2a\xf3\x24\xb6\x01\xba\xf3\xd8\x82\xcc\xe6\x1f\x48\x7c\xe0\xcf\x8b\x47\x1f\x59\x74\xe0\x7e\x36\xd8\x3d\x93\x7b\x21\x9e\x24\xb7\xa6\x11\xb0\xd9\xec\x62\x22\x96\x04\x80\xab\xd9\x8c\xb5\xd0\x17\x0d\xc2\x1a\xf5\xb4\xcd\xcd\x06\xab\xad\x58\x57\x08\x67\x5a\x85\x65\xa4\x15\xc2\x10\x3a\x13\x41\x5b\x64\xd6\x26\x1e\x48\xfb\x9d\x66\x2e\x62\x5a\xd8\xce\xd2\x2a\xd7\x99\x46\x83\x97\x65\x89\x59\x16\xba\x86\x22\x4d\xb0\xd2\x64\xbd\xc6\xb4\x0d\x7e\xc2\xf3\xa3\xbc\x9b\xd3\xdc\x7c\x27\x53\x2d\xc8\xf3\xc0\xf8\x88\x16\x1f\xc3\xbd\x83\x14\xe7\x36\x53\xe4\xbe\x1f\x5c\xde\xe3\xf7\x86\xfd\xf8\x57\xb5\x14\xf5\x52\x4a\x6b\x0c\xdb\x49\x5f\x1c\x60\x05\x8b\x65\x64\x87\x00\xa1\x70\xdf\x00\xaa\x2f\x13\xb0\x84\x1d\xc1\xd9\x2d\x44\x5c\x12\x83\x57\xda\xbb\xb0\x72\x12\x67\x67\xe1\x4c\x25\xac\x17\xcd\x0c\x08\xe7\xb0\x82\x81\x69\x92\x94\xdd\x78\x4a\x33\xc0\x8e\x38\x2e\xfa\xd8\xb6\xca\x18\x17\xf8\xc4\x67\xde\x91\x7d\xa4\x97\x1b\xdc\xab\xf1\x50\xcb\x9c\x2f\xc0\x3e\x8c\xa3\xb2\xa2\x07\x32\xf6\xc4\x28\x9b\x9e\x52\xd3\x9d\xf9\x18\xa7\xdc\x67\x47\x42\xc6\x96\x77\x0c\x66\x3e\x9a\xe5\x02\x24\xc6\xbb\x8b\x54\x09\x24\x5f\x9c\x82\x7d\x90\x5f\x8f\x24\xce\xee\x56\x02\x54\x49\x9d\x1c\x33\xfd\x8d\xe2\x01\xf2\x4c\x28\xfc\x05\x58\x99\xb7\x04\x99\xa2\x23\x3b\x6a\x20\x47\x4e\xb1\xc7\xe0\xb4\x3a\xab\x07\x5a\x4a\xb9\xa7\x72\x60\x14\xea\x25\x26\x60\x7d\x8c\x58\xfb\x74\x75\x81\x37\x95\x3c\x39\x56\x15\x54\x85\x04\x8d\xb9\x3a\x55\x05\xb6\x8a\x0b\xd8\xd0\x36\x43\x78\x6c\x65\xd2\x67\x8a\x93\x0a\x8f\xca\x55\x09\xef\x74\x10\x82\xd3\xe2\xf1\xd8\xfb\x1d\x27\x6d\xb9\xbe\x1c\xfb\xcc\x31\x0f\x61\x72\x41\x38\x71\x43\xed\x89\x39\x48\x53\x0f\xbd\x3e\x62\xe0\x38\x49\xea\xb5\xf7\x2c\x0f\xf4\xc9\xfa\xbd\xb2\x5e\xbf\x8c\xd1\x35\xa4\xe8\x75\xcd\x38\xee\x4c\xa1\xed\x8e\x1d\xdd\x15\x7c\xee\x0f\x3f\x77\x06\xa0\x05\x8f\xfd\xed\x25\x37\xe0\x7c\x68\x64\x9a\x29\x32\xea\xb6\xab\xf8\x1b\x22\x50\xa1\x75\xc7\x65\x77\xd6\xc5\xba\x4f\x85\x2c\x44\x0f\x2b\x5f\x8c\x4f\xd4\xc9\x92\x33\x3a\xf2\x94\x70\x05\x9e\x14\x4c\x18\x5e\xa9\xf2\x9a\x63\xac\xe9\x28\x57\x6f\x51\xc3\x15\x96\x7f\x2b\xd3\xf7\xa0\x33\xd0\x78\x05\x48\x05\x0d\x61\x93\xd6\xe3\x9f\x24\xd9\xfd\x0f\xef\x7e\xf6\xff\x86\x2f\x69\x0f\x62\x07\xa7\xc9\xd8\xcd\x50\x5b\xc7\xce\xce\xce\xd9\x6c\x7c\xf9\x4b\x62\x9a\xf9\x3f\xa7\x9c\x36\x55\x13\xa2\x39\xb7\xc1\x9a\x3c\xfe\xfc\x42\x27\x34\xa8\xe5\x2e\xcc\x5d\x77\x97\x02\x0e\xa3\xf0\x26\xd1\xe9\xb2\x85\x07\x48\x91\x16\x1e\x34\xad\x6f\x41\xc4\x12\x99\x57\xde\x58\x9d\xa6\xba\xe0\xa8\x71\xac\xbc\x37\xdd\xdd\xa9\x13\xfa\x0a\xe2\x59\x03\x14\x26\xf7\x6b\x93\x31\x62\x3c\x36\x73\xbd\x9c\xf9\xce\x0f\x28\x76\xef\x40\xb0\x4b\xba\x77\x66\x4e\xfb\xea\xdf\xad\x6d\xff\xef\x16\x20\x75\x55\x42\x47\x7c\xb4\xaa\xcb\xaf\x79\x2e\xd3\x7d\x9c\x8f\x4f\x33\x91\x9e\x36\x07\x48\xe9\x2f\xa7\x95\x5b\xaf\x5f\x5d\x2e\x23\x19\x9c\xae\x7a\x9b\x9e\x83\x43\x4d\x3d\xdb\x57\xb8\x5f\x59\x6e\xb9\x93\x03\x1a\x2c\xd5\x27\x3d\xd6\x2a\xd3\xc7\x40\xc9\x2a\x08\xb9\x6f\x5f\x61\x3e\x95\x83\x87\x58\x19\x15\xb1\x09\x6f\xcf\x56\x3a\xf7\xc4\x61\x9e\x9f\xa0\x18\x1b\xce\x98\x35\xf6\x3c\x00\x32\x33\x56\xe6\xb5\x4e\x0d\xd4\x0a\xff\x19\x48\xbd\xfa\x7f\xb0\xee\x7f\x57\xd9\xbf\xa1\x10\x45\x99\xae\xc8\x0c\x1e\xec\xd2\xc0\x9f\x0a\xff\xdb\x30\x50\x78\x21\xb9\x37\x20\x17\xed\x7d\x3c\x8b\x15\xae\x89\x4f\x5f\x82\xb8\x48\x71\x09\x64\x0f\xb3\x92\x02\x2f\x7a\x3c\x3c\xba\x51\x7c\x47\x78\x6b\xdd\x4c\x84\x38\x86\x23\xa6\xbb\x3a\xda\x55\xc1\x08\x0e\xf2\x1c\x0a\x91\xc9\xf4\xab\xcf\x29\x20\x88\xaf\x3f\xa7\xe0\xf4\xae\xca\xf1\x3a\x8e\x29\x24\x6c\xce\xb2\xf4\x02\x7f\xe0\x9a\xee\xcd\x28\x85\x6a\xeb\xb4\x24\xef\x1b\x8b\x43\x82\x04\x2f\xfd\xf9\x15\x4f\x56\x67\x7c\xbd\x10\xbf\xe3\x2b\x87\x40\x39\x93\x81\x5c\x0d\x12\x82\x45\x94\xd2\x45\x1b\xc5\x6d\x51\xea\xf5\x0c\x99\x0b\x60\xc5\xd1\x95\x8e\xed\x51\x07\x8a\x18\x4e\x56\x69\x51\x9e\x10\xed\xaa\xb3\x0c\xd5\x0c\x3c\x3b\x94\x4d\x25\xf6\x55\xf9\x1d\x7e\x8a\x01\x53\x02\x86\xe5\x38\x69\xb7\x8c\xbe\xd8\x11\x61\x29\xe9\x7e\x33\xf1\xe9\x0d\x1e\xa7\xfc\xfa\xe4\xf8\x78\xa2\xfe\xc3\x52\x82\x84\xd5\xa6\x11\xc8\x02\x63\xc9\x42\xdb\xfb\x3c\x20\xda\x0a\x9b\xb1\x5c\xfb\x86\x46\x57\x87\x4f\x25\xb5\xf8\x7c\x6e\x7d\xf2\x3a\xe5\x85\x74\x4a\x21\xf9\xa6\x06\xe6\x01\x2a\xf5\x41\x40\x37\x69\x0e\x7b\x92\xcb\x2b\x95\x68\x7a\x8a\xd5\xde\xe2\x9d\x91\x24\x9b\xf9\x6b\x84\x24\x9c\x4c\xc7\x35\xfb\xe9\xa0\xea\x3b\x72\x20\x1a\xee\x9d\x20\x8d\x5f\xf9\x90\x88\xe3\x0a\xc2\x93\xfe\xd2\xee\xf1\xc8\xf4\x91\x93\x20\x4d\xbf\x69\xe8\x20\x08\x8e\xc4\x06\xe7\x40\xbf\x8e\xab\xe0\x9c\xd3\x20\x72\xbe\xa3\xb7\x28\x50\x0c\x5a\x32\x5f\x41\x56\x78\x1b\xb6\x45\xad\x95\x1a\x80\x92\x05\xf1\x81\xc5\x81\xa6\x69\x65\x1d\xec\x28\xeb\x6b\x54\x00\xd6\x2a\x05\xeb\x15\x7e\xcd\x93\x20\xa3\xe6\x61\x10\x63\x65\x3b\x55\x7e\xdd\xc5\x7f\xc3\xa7\x42\x06\xd7\xdd\x9e\x0e\xf9\xdd\x57\xbe\xaf\x4c\x52\x4e\x9d\xf4\x2d\xed\xac\x69\x6d\x76\x15\x3b\x56\xa7\x51\x6c\xa6\x07\xd7\x71\x0e\x0b\xa7\x1e\xe2\x1e\x86\x5f\x33\x8e\xa1\x9b\x20\x96\x79\x8d\xfb\x37\x41\xbb\x00\xe6\xf0\x10\x3b\xf0\x4f\xd2\x17\xe2\x1e\x54\x27\xe2\xf1\x8b\x18\x2a\xcf\xca\x2f\xa6\x8c\xfe\x3d\xda\xb7\x0b\xba\x33\x61\x93\x4b\x7d\x0d\x99\x0a\xb2\x71\x61\x3b\x82\xb1\x15\xf3\x05\x45\xac\xe7\x40\x72\x53\x41\x3b\xf8\xdd\x20\x45\x8d\xf9\x2a\x6a\x89\xab\x20\x59\xed\xad\x8d\x09\xeb\xfa\xd0\x68\x2b\x48\x8d\x8a\xaf\xd4\xeb\xb4\x94\xfb\xde\x10\x24\xc2\x22\x49\xb1\x0a\xae\xc1\xc5\x93\x7b\x5c\x87\x4d\x12\x1a\x67\x4e\x95\xcd\x72\xe5\x11\xdd\xee\x82\x92\xdf\xa0\x86\xb7\xe7\x49\xf5\x63\x60\x0e\xbf\xb1\xe0\xa7\x64\x9b\xad\xb1\xb4\xb7\x31\x38\x17\x32\xe1\x99\x37\x51\xb8\x72\x0c\xa1\x4e\x3b\x3e\x7a\xe0\x64\xdd\xfa\xf5\x81\x5b\xa6\xd3\xd1\x48\xaa\xb3\x07\x2e\xec\xda\xc3\x3a\xfc\xdd\x0e\x1f\x58\x8b\x07\x13\x75\xcd\xda\xbc\xfa\x19\x01\x0a\xcc\x91\xfd\x8b\x0a\xa0\xe7\x28\xd5\x4e\x81\xdd\x0c\xba\x75\x0a\x9b\xc1\x98\x5b\xd3\xbf\x92\x80\x1b\x5b\x63\xcd\xa0\x9b\x89\xd0\xc8\x30\xee\x21\x24\xf7\xf4\x71\x33\xe8\xe6\xd4\xcb\xb1\x99\x27\x35\xb0\xf6\xcb\x8a\x6e\xf2\xc0\xe8\xc4\x9f\x1e\x3d\x72\x8b\x81\xc1\xcf\x92\x8a\x57\xf2\xa7\x32\x20\x21\xa3\x89\x1d\x12\x82\xc5\xbe\x15\x6d\xa0\xb2\xc4\xc4\x1f\x9d\xc0\xa4\x59\xb8\xfb\x4f\xaa\x0e\xc1\x8c\x26\x17\xa6\xc2\xd1\x20\xb1\x33\x28\x68\x8e\x12\x75\x04\x05\x3b\xc9\x3e\x1c\x13\xe4\x36\x87\x07\x05\x0f\x09\xe2\x9d\xd2\xe5\xa7\x67\x6f\x7e\xec\x8d\xe3\x61\x95\x43\x55\xd0\x48\x12\x87\x62\x47\x9c\x40\x75\x02\x77\x7b\xc6\x04\x3b\x42\x82\x16\xe8\x64\xea\x9c\xbd\xc9\x9d\x02\x52\x04\xec\x84\x9d\xde\xfc\x75\x77\xd8\xb1\x56\x3e\x0a\xae\xc6\xc4\xe1\x99\x13\xf5\xe0\x5e\xf8\x80\xdc\x80\x6a\x0c\x3b\x36\x07\x55\x8b\x6c\x17\x37\x8f\x0f\x8e\x33\xf6\x86\x19\xfb\xa2\x8c\x0e\x69\x77\xc4\x18\x11\xe1\x8e\x18\x63\x8b\x42\x2e\x51\x1a\x27\x93\xee\x57\xe7\xe5\x47\x8d\x03\xf3\x8e\x00\x6a\x1e\x0a\xdc\x23\x3f\xb0\x3b\x3b\xc0\x06\x41\x2d\x02\x74\x58\x7e\xa0\x75\x9c\x70\x6c\xbd\x5d\x09\x07\x41\x9f\xbd\x53\x02\x74\x37\x29\x1f\x49\xc8\x61\x07\x15\x0a\x07\x22\xc7\x04\xf4\xf2\x48\xb4\x5f\x4d\xf9\x7a\x68\x13\xcc\x4c\x02\x0e\x45\x0d\x05\x7d\x8d\x28\xd8\x63\x5a\x7b\xe4\x07\x7a\x8e\x1b\xda\xd0\xd1\xd0\x01\xc3\xa1\x88\xb9\x89\x62\x42\x3f\x62\x07\x57\x45\xf5\xba\xbf\xcd\x76\xfd\xfe\x35\x47\x1e\xde\x6b\x76\x3e\x1b\x45\x0b\xb2\xdf\x6c\xe9\xa8\xc4\x72\xa9\x18\x46\xbc\x37\x3a\x63\x67\x73\xa7\xf5\x6b\xb3\x0a\x3e\x29\x5f\x8b\x6f\xe2\xa8\xef\xf9\xbd\x0d\x70\x9a\x86\x77\xcd\x5b\xc6\xd0\x4c\x9c\x1c\x4f\x86\x43\xc4\x55\x74\xb8\xcb\x0b\xcc\x38\x8a\x30\xdc\xbf\xb7\x1a\xd0\xee\x6a\xa6\x0c\x15\x30\x18\x88\x64\x12\x10\x25\xdf\x05\x37\x62\x7c\x6e\xcc\xb3\xfd\x66\x3f\xd0\xdb\x3a\xb5\x9b\x29\x79\x9b\xe8\xef\x8a\x64\x3b\x74\xed\x0b\x5c\xab\xea\x88\xff\x7e\x31\x63\x6a\x87\xfb\xe1\x7b\xb7\xca\x55\x79\x55\xd7\x17\x29\x1d\x4a\x94\x7f\x3c\x60\x32\xb5\x4e\x21\x25\x29\x27\x36\xec\xfc\x37\x1b\x63\x97\x13\xf9\x55\x2a\x94\x52\xd2\xc0\x80\xbe\x6d\xfc\x0c\x9a\xc4\xd5\x2d\xa9\xb2\xe4\x58\x5f\x86\x2e\x8c\x8b\x8a\x0c\xd7\x3e\x54\xd1\x07\xcf\x64\x63\x9c\x82\x89\x01\x24\x67\xaa\x5e\x97\xb7\x75\xc7\xc7\x60\xec\xdd\xdd\xbd\x10\x64\x2d\xa0\x06\x4f\xd7\x22\x75\x27\x68\x18\x3a\xde\x9d\x45\x5f\xb0\xad\x32\xc9\x8d\x7a\x92\x19\x9f\x15\x1e\x40\xa8\x2b\x11\x55\xe7\xf3\xda\x98\x72\x06\xb0\xf1\xab\xe9\x6d\x0a\xd7\xa4\x98\x59\xe8\xcb\x35\xb4\x59\x87\x9a\x0f\xb1\x8e\x01\x9b\xd9\x3d\xce\x5d\xcc\x51\xc6\x03\xa8\xc1\x30\xfe\x70\x72\xb8\x1b\x96\xc6\x02\x1e\x15\x46\x61\x1d\x40\x87\x1d\x77\xa5\x61\x9d\x0d\x4c\xb6\x56\x4b\x5c\x1e\x96\x0e\x75\x33\x70\x7c\x68\x0b\xc8\xf2\x6d\x09\x38\x9b\xf9\xd9\x95\xa4\xe8\xcf\x52\xf4\xa7\x29\xfa\xf3\x14\xbd\x89\x0a\xbe\x86\xb1\xa3\x96\xdb\x49\x55\x70\x1e\xf6\xab\x05\xb5\x94\x6d\x13\xe9\xa5\x64\x5b\xdd\xbb\x9e\x98\xfc\xae\x15\xd7\x4f\xf9\x7c\x59\xf3\x5f\x1a\xf0\xf8\x1f\x2f\x00\x73\xfa\xe9\x66\x09\x76\x3b\x57\xff\x38\x67\x35\x95\x9b\x2f\x33\xa5\x2f\xed\xeb\x97\x77\x5e\xc8\x68\xff\x35\x86\x7d\x03\xd2\xaf\x9f\x9c\xbf\xff\xca\x0b\x19\xa9\x1b\xf6\x57\xec\xc4\xdb\xdf\x72\x4d\x0d\xfd\x43\x1b\x7c\x41\x4d\x91\x5f\xf3\x6f\x7b\xbb\xb6\x98\x2d\xed\x8b\xbd\xf7\xbd\x41\xa6\xeb\x2e\x98\xf7\x9b\xb9\x65\x01\xc4\x01\x77\xfc\x46\xc3\x5b\x2c\xab\x9d\xf3\x5d\x98\xad\xeb\x5e\xfc\xfa\x05\x99\x93\xee\x2b\x61\x70\x0a\x6e\x4b\x3e\x95\xfd\xaa\xb8\xa4\xc9\x4e\xf7\x35\x21\xd0\xd2\xea\x46\xdc\xb9\x4a\xc5\x61\x83\xfa\x15\xf3\x78\x58\xde\x59\xb0\x7d\xaf\xc0\xa4\x35\xda\x7d\x05\x66\x05\x79\xe7\x29\xfc\xda\x3f\xf5\xe1\x5b\x02\xdb\x93\xf8\xce\x5a\xf7\x5c\x7d\x39\x0c\x41\xf2\x6e\xff\x7e\x37\x60\x56\xf3\xda\xf7\x06\x4c\xe7\xe6\xcb\xfa\x9c\xf1\xf8\xb8\x9d\xf6\x41\xb7\x5f\xe2\x42\xf5\x5c\x41\x64\xbd\xa8\x56\x1b\x27\xb0\x5c\xb5\xe8\x3a\x58\x7e\xc0\xf5\x98\xce\x2a\x7f\xd3\xf5\x98\x0e\x1c\x7b\x3e\xf0\xa0\x7f\xa7\x01\xf4\xc7\xc3\x3e\x8e\x6a\x5d\x7a\x79\xe0\xb5\x8a\x4e\x38\x87\x89\xda\xb8\x18\xa6\xfb\xa2\x93\xe2\x52\x04\x20\x88\x88\xfe\x28\x4e\xbb\x84\xab\xeb\x2e\x98\x81\x22\x47\x3c\xa4\xf2\x9c\x8f\xfb\xe0\xd5\x94\x8f\x0f\xb8\x97\xf2\xfe\x5e\xd7\x19\x8e\x6b\x1c\xb5\xa3\x32\x83\x26\xbc\x47\x65\x06\x55\x62\xa4\xf3\x7f\x60\xc6\x51\x9c\xed\xc2\xae\x97\xb9\x7e\xf0\x15\x5e\x26\x41\x01\xc6\x94\x18\x43\xfe\xfd\x35\xca\x5e\x6f\x70\x6c\x8c\xf2\x51\x6d\x36\x06\xa7\x8b\x08\xc5\x9d\x5c\x4e\x50\x2b\xd8\xe8\xc0\xbb\xef\x86\x51\xbc\x54\xc9\x64\x23\xa1\xbf\xab\xc1\x76\x14\x6e\x18\x3a\xd7\x78\x90\xc7\xc7\x29\xb8\x03\xcf\xec\xfd\x4b\x8b\x0a\xec\xf4\x90\x24\x32\xce\xe8\xeb\x93\xc8\x4e\xef\x1d\x97\xdd\xe1\x6c\xfe\xb7\x2f\xbb\xab\xb0\x6b\x5b\x11\xbd\x0a\xe8\xed\x66\x1e\x47\xc5\xaa\xd2\x3f\xdf\x76\xd3\xdd\x3e\xd6\xc7\xd7\xdc\x60\x67\xf2\x96\xc3\xb7\xd8\xb5\xb4\x84\x9d\x9d\xa4\x2e\xed\x55\x76\x9c\xc4\xdc\x61\xd0\x8c\x9d\xec\x64\x6d\x2b\xb8\x29\xc9\x1e\xbd\x52\x4b\x46\x36\x73\x91\xcd\x54\xe4\xbf\xf1\x75\x74\x64\x00\x7d\xed\x75\x74\x3d\x54\xe9\x94\x7d\xfb\x5d\x47\x67\xf4\xc2\x1f\x76\xf1\x5c\x0f\xca\x7b\xa8\x2a\xd5\xaf\xab\xb0\x62\x64\x0f\x35\x04\x0d\x6c\xf6\xa2\xa9\x8e\x00\x44\x5b\x23\xc1\xcb\x3b\x07\xba\xe9\xcc\x27\xb8\x4c\x67\x2c\xd1\x6f\x7e\xf3\x29\x39\x80\x07\x07\x3e\x45\x72\x83\xc5\xa7\x49\xcf\x30\x26\x99\xd1\x06\x62\x6a\xd6\x0c\x22\x1d\x09\x80\xce\xeb\xf4\xf6\x55\xca\x5d\x91\xf9\x61\xad\xdc\x7d\x6f\xad\xcb\xc3\xa2\x9b\xbb\x55\x73\x67\x9c\xbc\xa6\x99\x1b\xd7\xee\x99\x7f\x3f\x54\x12\xd5\x4e\x4a\x39\xe8\x51\xd6\x38\x39\x23\xe9\x81\x69\x9a\xba\xfa\x88\x70\xfd\x7d\x14\xf6\xbe\x36\xd6\xae\xf0\xf8\x4e\x05\x6d\x07\x22\xc0\x16\xdc\xd4\x59\x86\x7f\x01\xd1\xd2\x00\x78\xef\x76\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x02\xff\xed\x3d\x69\x8f\xdb\x46\x96\x9f\xa5\x5f\x51\x11\x62\x87\xf2\xaa\xd9\xce\x00\xbb\x98\x6d\xa3\x17\xf0\xd1\x49\x3c\x13\x1f\x63\xb7\x93\x0f\x86\xe1\xa1\xa4\x52\x8b\xd3\x14\x49\x93\x54\xb7\x7b\x3a\xfd\xdf\xe7\x5d\x75\xf0\x94\x64\x67\x16\xc1\x62\x83\x19\x9b\x22\xab\x5e\xbd\x7a\xf5\xea\xdd\x55\x3e\x3e\x56\x4f\xb3\xa5\x56\x17\x3a\xd5\x45\x54\xe9\xa5\x9a\xdf\xa8\x79\x54\x64\x69\xa8\x9e\xbd\x52\x2f\x5f\x9d\xab\xb3\x67\xcf\xcf\xc3\xf1\xf1\xb1\x7a\xa3\x8b\x6d\x9a\xc6\xe9\x05\x37\x50\xd7\x71\x92\xa8\xec\x4a\x17\xd7\x45\x5c\x69\x55\xad\xe3\x52\xad\xe2\x44\x53\xe3\x5f\x74\x51\xc6\x59\x7a\xa2\x6e\x6f\x43\x79\xbe\xbb\xf3\x3e\xa8\x67\x30\x9a\xff\x15\x7f\x43\x8b\x71\x1e\x2d\x2e\xa3\x0b\x8d\x5f\x5e\xf3\xe3\xcb\x68\x43\x5f\xa0\xf3\xb9\x19\x43\x2d\xb2\xb4\x8a\xe2\xb4\x54\x1b\x5d\xad\xb3\x65\xa9\xaa\x4c\x6d\xa2\x4b\xad\xe2\x74\x19\x5f\xc5\xcb\x6d\x94\x28\x9d\x2e\xf3\x2c\x4e\x2b\xe8\x52\x64\x1b\x55\xea\xe2\x2a\x5e\xe8\x72\x86\x90\x0a\xfd\x69\xab\xcb\x4a\x45\xe9\x12\x9e\xcb\x3c\x4b\x4b\x98\xc2\x4d\xae\x09\x12\x36\xc5\x19\x65\xf0\xd2\x42\x99\xa9\xa8\x54\xd7\x1a\x26\x0d\x7f\xeb\x74\x01\x74\x2b\x4a\x04\x80\xf0\x96\x5a\x7e\xaf\xb2\x42\x3a\x12\xb4\x19\xbd\x88\x90\x52\x2b\x95\x6d\x0b\x55\x6e\xf3\x3c\x2b\x90\xd2\x55\x11\xa5\x25\x3e\xe3\x70\x71\x94\xc4\xff\x8c\x2a\x20\x04\x42\x83\x3e\x9b\xa8\x2a\xc3\xf1\x38\xde\x50\x8b\x60\x3c\x9a\xcc\x6f\x2a\x5d\x4e\xe0\x01\xe7\xae\x3f\x57\xf8\x48\x68\xc0\x92\x1c\xff\xa3\xcc\x52\x7c\xb1\xda\xd0\xfb\x38\xe3\x3f\x8f\xe3\x6c\x5b\xc5\x09\xfe\x48\x75\x75\xbc\xae\xaa\xdc\x3c\x6f\x0b\x7a\x5d\x56\x05\xc0\xbb\x92\x47\x00\x05\x43\xc0\xf3\x45\x5c\xad\xb7\xf3\x70\x91\x6d\x8e\x2f\xb2\xa3\xcb\xb8\x3a\xc6\xff\x1b\x5a\x40\xeb\x28\xbd\xc9\xe7\x6a\x72\x91\x65\x17\xb0\xe4\x17\x59\x12\xa5\x17\x61\x56\x5c\x1c\xe7\x45\x56\x65\xf3\xed\xea\x98\xe6\x7f\x7c\x99\x66\xd7\xe9\x31\xb5\x86\x5e\xcb\x6d\x41\x93\x3c\xa0\xab\xeb\x02\xfd\xf5\x26\xaf\x0e\x19\x57\xda\x43\xcf\x55\xac\x93\xe5\x26\x2a\x2f\x0f\xe8\xed\xf5\x01\x08\x40\x9e\xed\xa2\x3a\xa0\xbb\xe9\x00\x7d\xab\x78\x03\xdc\x16\x6d\xf2\x03\xba\x7b\x7d\x00\xc2\x75\x11\xe5\x39\x30\xd8\x01\x00\x5c\x97\xf6\x92\x16\xb0\x79\xa3\xe3\xcd\xf6\xf3\xa4\xfe\x25\xbf\xbc\x38\xd6\x45\x91\x15\xc4\x69\x03\x03\x59\xce\xa3\x37\x86\xfd\x06\x3a\xd0\x03\x22\x72\x7b\x7b\xa4\xe2\x95\xd2\x9f\x54\xf8\x34\x4b\x57\xf1\x45\x78\x6e\x77\xc2\x04\x76\xca\x44\x4d\x52\x60\xfe\x89\x82\x4d\x5f\xc3\x0d\xdf\x1e\x01\x4f\xe3\xdf\x30\xc4\x84\x41\x01\x4f\x62\xc3\x3d\xa0\x5e\x14\xf9\xc2\x40\x6d\xe1\x49\x1f\x7b\xbf\x1c\x83\x98\x89\x96\x51\x15\x35\x07\xdd\x7b\x48\x7c\x72\x3b\xbe\x67\x7f\xd9\x06\x06\x1d\x6f\x2c\xdc\xbb\x07\x00\x90\xad\x7e\x10\xb1\xf1\xe9\x80\x21\xa8\xa3\x8f\xe3\x74\x3c\x1e\x5f\x45\x05\x4a\xab\x8f\xea\x54\x81\x2c\x0a\xdf\xe6\x20\x53\x2a\xfe\x4d\x02\x0c\xd0\xd8\xe4\x51\xa1\xf9\x95\x48\x9f\xf0\x71\x95\xc5\xfc\xa6\x36\xcd\xf0\xa5\xbe\x7e\x8b\xb2\xb8\xe0\x8f\x2c\xcd\xc2\x97\x59\xfe\x34\x01\x11\x6b\xdf\x02\xd0\xfc\x86\x7f\x30\xf3\x86\xbf\x02\xef\x8f\x47\x20\x4a\x65\x3d\x0d\x1b\xb2\x54\xc6\xa6\x24\x92\xc2\xc7\x29\xf5\x73\x42\x26\x7c\x26\x8f\xf8\x5a\xc4\x47\x78\x86\x7f\xe3\x0b\xb3\xa5\xc3\xb7\xf4\x80\xaf\xbc\x6d\x1a\x9e\x9b\x67\xfc\xe0\xb6\x1f\xb6\x86\xad\xf2\x4b\x94\x6c\x69\xde\x9e\x5c\x09\x7f\xc0\xe7\x17\xf0\x8c\xd4\x3b\x7e\xb0\xd7\x7f\xea\xcc\x6a\xb6\x07\x7b\xff\x77\x4c\x1a\xf4\x79\xaa\x22\x56\x6f\xc5\x4c\xc5\xd5\x77\xa5\xda\x96\x7a\xb5\x4d\x48\x4d\xad\xb6\xe9\x02\xa7\x0e\x3a\x70\x1d\x55\x2a\xd5\xa8\xa5\x32\x95\xe5\x64\x1b\xa8\x0c\xfb\xc2\xf3\x91\x51\x03\x08\x70\x1e\x95\x71\x19\xaa\x1f\xa0\xbb\xfe\x0c\x33\x4f\xf4\x4c\xdd\x64\x5b\xb5\x89\x2f\xd6\x95\xca\xa3\x12\x55\xa4\x87\x30\xc0\x8b\xec\x40\x3c\x0e\xac\xcd\x72\x0b\x8a\x19\xc1\x41\x5b\xe4\x80\xf0\x27\xd0\xab\x09\xe2\x78\x0d\x4c\xa8\x74\xb4\x58\x8b\xa6\x57\x81\x19\x7d\x0a\xdf\x0a\xc0\x70\x9b\x33\xd0\x32\xd7\x8b\x78\x15\x2f\x60\xd0\x6a\x1d\xaa\xe0\x39\xe1\x07\x06\x03\xc0\x9f\x47\xf3\xe4\x06\xda\x6c\x62\x58\x1e\xb2\x12\x40\x63\x97\xf1\x45\x8a\x5d\xe3\xf4\x2a\xbb\x44\x75\xaf\xd5\x5b\xb6\x11\xac\x55\x41\x28\x6a\x84\xe3\x66\xc0\x3c\x80\x20\x0c\x25\xc3\x29\xb4\xb0\xd4\x5d\x24\xb1\x4e\xab\x3a\x75\x61\x94\x45\x96\x24\x9a\xfa\x19\x03\x05\x30\x02\xe6\x67\x70\x30\x0f\x67\xae\xc0\x1f\x30\x21\x04\x58\x02\xdb\x24\x6c\x4a\x30\xad\x62\xa4\xf0\x46\x13\x25\x3d\x7c\xa1\x87\x2e\x56\xd1\x42\xf7\xad\x04\x02\xb3\x83\x75\x1b\x49\x5b\x1c\x4c\xd5\x25\x08\x6e\xc0\xa7\x32\x1f\x90\x03\xf3\x38\x25\x3a\x6d\x04\x45\x6f\x61\x67\x62\x4a\x55\xdb\x22\x85\xa9\xe3\x8c\x11\xc1\x05\x4c\x53\x17\x68\x31\x45\x06\xd9\x70\x4c\xd3\x69\x11\xf4\x76\x3c\x7a\x97\xda\xf9\xe9\x25\x58\x80\xa6\x07\x9b\x80\x22\x09\x6e\x6f\x01\x45\xb0\x10\xbf\x8d\xd5\xc9\xa9\xb2\x6d\x5e\xf0\x92\xb1\x58\xfe\x36\x96\x3e\x66\x14\x05\xff\x99\xa9\x86\xe6\x25\x80\x62\xc1\xc5\xd6\xa5\xc5\x68\xf7\x10\xc8\xc0\xc0\x89\xae\xcb\x54\x79\x83\x06\x8b\xea\xb3\x12\x2b\x0d\xc5\x2e\xfe\x3d\x43\x86\x79\x70\x7b\xfb\x63\x86\x6d\x00\x72\xf8\x86\x4d\xd0\x73\x20\x86\xf4\x9b\xaa\xa0\xd1\x82\x0d\x53\xaf\xc9\x8c\x05\xdc\x14\xa9\x65\xec\x56\x7a\x87\x88\xea\xb0\x63\xe6\x88\x0c\x0e\x3e\x1d\x8f\x50\x11\x40\xcb\x6f\x4e\x55\x1a\x27\x08\x61\x24\xeb\x05\x3f\x09\xc8\x78\x74\x37\x36\xef\x0c\xf4\x70\x27\x4e\xd3\x19\x02\x00\x22\x1a\x72\x22\x31\x5f\xe0\x36\xf3\x29\x4a\x1b\xf9\x5b\x10\x23\x48\xd1\x3b\x6c\x7c\xa4\x7c\x2a\xc3\xa7\x3e\x42\x23\xac\xae\x99\x95\x48\x74\xaf\x9b\xcf\x26\xd3\xf6\x72\x33\xcd\x68\x72\x08\xb6\x7b\x95\x8c\x63\x60\x77\xd4\x2d\x2e\x8b\x75\x11\xbc\xd7\x4c\x76\xb7\x1c\x00\xfb\x13\x4e\x44\x20\xb4\xe8\xd6\x5a\x6d\xe8\x72\x65\xd7\xae\x0c\x1b\x0c\x44\xa8\x60\x9b\xf6\xaa\xb5\x97\x0d\xd7\xcd\xbc\xbd\xe2\xe5\x18\xdd\x8d\x99\xc8\xbc\x26\xfe\xda\xa0\x72\x7c\x9c\x24\x67\x9f\x17\x3a\xaf\x48\x4f\x95\x2c\x62\x2d\xa5\x48\x43\xa1\xcb\x22\x7b\xd3\x6d\x56\x5a\x46\x92\x4d\x1d\x7e\x41\xf8\x22\x5e\x82\xd8\xbe\x06\xfd\x4e\x5e\xe0\xbb\xd2\xf8\x85\xe8\x04\xe5\x79\x72\x83\x22\x06\xc5\x66\x85\xc0\x37\xb6\x35\xe9\x05\x0d\xcb\x76\x63\x97\x0d\xf7\x0b\x4a\x90\xd2\x48\x0d\x80\xf7\x2a\x47\xad\x81\x92\x73\xe6\x09\xae\x05\xc8\xa1\xb9\x26\x5d\x03\x62\x14\xba\x81\x0f\x9b\x22\xd9\x01\x26\xbc\xd7\x9f\x17\xc9\x76\x09\x5f\xc8\x0b\x9c\x6b\x44\x81\x75\xf3\x32\x6c\x51\x23\x70\x38\xcd\xd4\xe4\x6d\x15\x55\xdb\x72\x02\x4f\xaf\xa1\xd7\x64\x6a\xf7\xfd\x03\x6f\xe3\xf7\xf5\x57\x1d\x54\x99\x39\x6c\xc2\x30\x64\x87\x8b\x98\x27\x4e\xe5\x35\xb0\xc2\x26\xca\xdf\xf3\xa7\x0f\x4c\xfe\xdb\x3b\x5c\xf5\xe6\x86\xe9\x92\x7c\xa3\xd1\xc4\x63\xa3\x09\x38\xd8\x77\x33\xe9\x2a\x66\x24\x70\xc0\x08\x57\xe3\x23\xa2\x42\xec\x4a\x20\x2d\x5a\xb7\xcc\x71\xf0\x39\xbb\xc4\xcf\x06\xb1\xf7\xfa\xf3\x87\x47\xea\x1b\x78\x49\x1c\x98\x47\x69\xbc\x08\x9c\x85\xb7\x0a\x26\x67\x06\x84\x5d\xc1\xef\xee\x95\xdf\xa9\x65\x06\xab\x9b\x66\x15\x0c\x01\xca\xf7\x11\xac\xa7\xf6\x17\xde\xf2\x0e\x99\xf4\x88\xd4\x74\x2a\xfc\xbc\xd4\x89\xae\x74\x60\x30\xa0\x6f\x6e\x02\xf0\xda\xa1\x6f\xc9\xb7\x3f\xa1\x60\x92\x08\xe2\xf4\x54\xd5\x48\xc6\xd3\x1b\x75\x8a\x52\x30\x2f\x1d\xe6\x41\x67\x13\xc4\x9d\x90\xaf\x91\x9c\xb7\xdd\xcf\xd1\x1c\x66\xb4\x74\xdc\xc0\x21\x94\x0b\x5d\x19\xde\x45\x7e\xb7\xd4\x23\x16\xbe\x5e\xeb\xd4\x7e\xcd\x3c\x76\x15\x60\xcc\x75\x33\xde\x65\xb2\x11\xb6\xdc\x58\x71\x5c\x26\xe2\xe0\x0e\xd8\x45\x60\xd4\xc0\x5f\x64\x66\x79\x5c\x7a\xbd\x8e\x61\xe7\x63\xd7\x12\x86\xee\x40\x41\x34\xb9\xf4\x36\x76\x4c\x56\x88\x1e\x6f\xcf\x8a\x84\x2b\x33\xf0\xac\x2d\x85\x3b\x04\xf3\xb8\x6f\x5e\x5f\x2c\x9b\x5a\x48\xcd\x64\x9e\x44\xf1\x42\x2f\x74\x7c\xc5\x16\x1f\x4d\x11\x80\xf9\xf3\x0e\xc1\x54\xd1\x16\x8c\x07\x85\x3e\x18\x43\xd4\xee\x7b\x44\x14\x39\x72\x09\x3e\x62\x9c\x90\xd1\x68\xb6\x13\x05\x73\xc4\xd8\x8d\x92\xb8\xba\x09\x87\x44\x48\x6d\xee\xbe\x24\x39\x98\xa2\xff\x2f\x67\xfe\xef\xc8\x99\x5a\xb7\x99\x3a\x48\xec\xec\x1f\xa0\xd8\xd7\xf5\xfc\xf1\xcd\xeb\xa7\x6c\x61\x1d\xec\x7b\xa2\x19\xe7\x75\xc7\x70\x6d\xe9\x8c\x01\xa7\xcf\xa3\x2b\xd8\x46\xe0\xb0\x69\x76\x1b\x2e\xa0\x8b\xea\x71\x06\x42\x67\x20\x3a\xc8\x81\x03\xe5\xb9\x27\x59\xce\xae\x2d\xec\x87\x5a\x2c\x26\xe4\x4e\x6c\x5a\x4c\xfb\x06\xc2\xe5\x2a\xbd\x86\x25\x2e\xf8\xfb\x0f\xfd\x90\x70\x79\xbb\xbe\x3e\xd1\xc0\x54\x3a\x40\x6c\x5f\x48\x4c\xe9\x3c\x13\xeb\x73\x3a\x23\x03\xbc\x3e\xce\x29\x1a\x4e\x30\xa3\xa0\xf6\xda\xce\x07\xa6\x33\xa5\x40\xc7\xed\xad\x3a\xcf\x7e\xce\xae\x01\xd7\xda\x0c\x28\xb2\x23\xa6\xe1\x7d\xc4\x88\xf1\xb8\x45\x37\x69\x27\xf7\x42\x73\x8f\xdb\x4e\x54\x7d\x46\x36\x3a\x13\x20\xfb\xb9\x0d\xd6\xc1\xa0\x28\x1d\x46\xcf\x28\x48\x8e\x53\xf7\x5a\x88\x61\x4c\x0d\xce\xd2\xce\x06\xe2\xe6\x60\x8b\x1a\x11\x60\xee\xf8\x12\xc9\xd6\xa1\x6e\xdd\x5c\x9b\x5e\xb3\xb5\xcb\xbb\x97\xda\xda\xf8\xac\xe0\x3c\x38\xbf\xbb\xa7\x5a\xa7\x2f\xf8\xa8\x75\x02\x4b\x14\xc4\x33\xe3\xc5\xb9\x92\xf0\x04\xca\x27\x0f\x3d\x8c\x65\x18\xac\xf6\x9f\xe4\x9e\xce\x6e\xa9\x1e\xb8\xa1\xa6\xca\xf7\x6d\x86\xbc\x5e\x74\x8a\x7e\x5f\xb7\xf7\x23\x02\xcd\x3d\xc7\xa9\x4e\x44\xde\x67\xc8\x43\xbe\x17\x75\xa0\xeb\x9b\x7f\xa1\xd7\x2b\xc4\x65\x46\xdf\x4d\x59\xe8\x31\xb4\x27\x30\x78\x15\xa9\x7a\x50\x38\xe4\x0e\xd2\xe2\x07\x5c\x1a\x0a\x0c\x61\x18\x55\x17\x28\x3d\x89\xf7\x59\x66\x1a\x81\xe0\x38\xcc\xb8\xb7\x14\x31\x03\x43\xb1\x38\x5a\x66\x9b\x08\x7c\xa6\x81\xc6\xa1\x7a\x5d\xc4\x9b\xa8\x88\x93\x1b\x13\xcf\xf2\x83\x5f\xcc\x1f\x43\xf3\x08\x3e\xb6\xf9\x02\xe7\x02\x9f\x1b\x7e\x76\xd3\xbd\xb6\x91\x0e\xf2\xac\xa5\xcf\x3e\x9e\xb5\x5d\xc9\x4f\x03\xcb\xc4\xe2\x66\xaf\x65\x1a\x94\x4c\x9d\xeb\xc4\x3d\x4c\x93\xbe\x85\xda\xbd\x04\x26\x37\x99\x39\x55\xd8\xd5\x0c\x7c\xeb\xbd\xd6\x69\x70\x22\x5d\x0b\xd5\x15\xfa\x18\x5a\xa9\x32\xe7\x20\xc8\xde\xd1\xa3\x5a\xc4\xa9\x6b\xb5\x7e\xd2\x09\xc6\xd1\xc7\x3c\x81\x4e\xcd\xd9\x2d\x7b\x36\x4b\x65\xf2\x36\xe1\x8b\x67\xd3\x66\x03\xc4\x17\x25\xe8\xe5\x4c\x5d\x39\x13\x6f\x63\x6d\xd3\xab\x5a\xcc\x85\xd2\xcf\x5a\x5d\xea\x1b\x5a\xee\x25\x5a\x81\xf3\x0c\x1c\x0e\xa0\xb1\x19\x45\x12\xb7\x2a\xb8\x9c\x8a\xbf\x81\x4d\xc1\xe3\x48\x70\xbd\x04\x4a\x24\x5e\x16\xc5\x57\x9f\x46\x69\x06\x16\x6e\x94\xfc\xa4\xa3\xa5\x2e\xfe\x0a\xd0\xc5\x19\xc1\x81\xca\x4c\xa2\xbe\x95\xf8\x76\x06\xc4\x62\xa1\x4d\xb0\x43\x83\xd3\x03\xbc\xc0\x23\xe3\x77\x24\xc5\xa9\x9d\xeb\xaf\xf0\x99\x12\x0f\x2c\x0d\x71\xae\xef\x1f\x7e\x98\xee\x6c\xd8\x83\x1d\xcc\xcc\x41\x10\x33\x5f\x96\x0f\xba\x91\x7a\x3a\xc0\x90\xe4\xd0\xf2\xc1\x86\x24\xd8\x1d\x5e\x6f\x1e\x9e\xd2\x0c\x12\x2b\x52\xf3\x68\x71\xc9\xb5\x0c\xb2\x67\x38\x26\x8f\x73\x4d\x35\x39\x63\xa1\x7a\x4e\xe2\x55\xa2\xfb\xc2\xae\xf1\x3c\x46\x27\xcd\x2c\x81\x04\xaf\x61\xeb\x2d\xe3\x28\xe1\x08\x77\x12\x01\xdf\x03\xbc\x0c\xe3\xae\xd4\xc8\xc1\x64\x06\xad\x61\x17\xe0\x67\xd6\x9c\x21\xbf\x01\xe6\x4b\x07\xac\x51\x6e\x64\xac\xd1\xa0\xc7\xb4\xf0\xb7\x1c\x1a\x07\xcd\xe0\xea\xc8\x7b\x9b\x5f\x5e\xd0\xf6\x93\x18\x6b\xbd\xaa\x62\xd4\x76\x63\xba\x03\xb1\x23\x4c\xec\xd5\x35\xad\x75\x57\xda\x0e\xfd\xe8\xb6\x65\x3c\x7a\xce\x4d\xcb\x8a\x14\x5a\x11\x53\x22\x79\x8c\x83\x29\xa8\x83\x52\xef\x0a\xf4\x4e\x66\x2d\x47\x74\xc8\x8a\x74\x66\x66\x8f\xae\xf2\xcc\xcc\x1d\x32\x8b\xbd\xdd\x51\x56\x37\x43\xed\xf4\x03\x72\x1f\x09\x8c\xd8\xa4\xee\xc9\x0a\x36\xb3\x6d\xac\x8b\xb2\xd3\x22\x57\x47\x02\xaa\x45\xd3\x13\x4c\x6f\x74\x93\x7b\xe6\x86\x1c\xdd\x19\xe9\x8a\x2c\x8f\xd3\x57\xb2\x85\xbe\xde\x5e\x19\x50\x84\xc6\x60\x19\x56\x84\xc3\xaa\x6d\x5f\x7b\x45\x94\x4e\x8f\x22\x64\x29\x30\x6c\xb0\xf4\x2b\x42\xb6\x3e\x10\x99\x3d\x35\x21\x36\xb5\x56\x0b\xea\xe7\x83\x74\x61\x8e\x41\xee\xb6\x32\xf4\x97\xed\xeb\xed\x97\x7e\x33\xd3\x98\x2f\x83\x66\xe6\x9e\x06\xe4\x4e\xe3\x65\xd0\xcc\xac\xad\xda\xd0\x3c\xba\xad\x97\xae\x74\xce\xb0\x99\x79\x40\x02\x67\xd8\xcc\x14\x2c\x48\xab\x96\xe7\x99\x6f\xb9\x30\xcd\xbb\x44\xbf\x47\x72\x9e\xf2\x00\x94\x00\x8c\x84\x52\xbd\xff\x60\x02\x7c\x3b\xe0\xed\x95\x00\x03\xfb\xe7\xc1\x2e\xab\x89\x94\x41\x1e\xc5\x85\x1b\x1c\x5e\x4a\xb8\xef\xd2\xd9\x52\x84\xde\xad\x44\xc1\xae\x4c\xa8\x0f\x86\x0d\xd9\xd2\xb8\x9c\x86\x12\xd6\x9c\x3e\x52\x26\xe4\x37\x62\xc0\x36\xee\x41\x3f\xd9\x72\xb1\x61\x2e\x94\x9f\x08\x93\x9b\xfa\x66\xda\x03\xc0\xff\xd4\x99\x7d\x7f\x01\x19\x18\xc0\xbb\x99\x7b\xf5\x1a\xfb\x30\x54\x0c\x9e\x4c\x0d\x38\xcf\x8c\x91\xd8\x19\xaf\xe4\xbe\x06\xcd\x4f\xe7\xe7\xaf\xbf\x24\x32\x46\x69\x79\xa6\x72\x4a\xec\x05\xf8\x4f\x30\x59\x06\x86\x17\xea\x17\xaa\xed\x7b\xa4\x16\xeb\xa8\x28\x75\x75\xba\xad\x56\x47\x7f\x9e\xd8\x80\x1a\x8e\x2a\x61\x02\x67\x09\xa9\xb5\xbc\xa1\x3d\xbb\x3b\xd0\x86\xc0\xb2\x54\xe5\x85\x5e\xea\x55\x9c\x82\xe9\x84\x35\x14\xa5\x17\x5d\xf3\x86\xd9\x19\x5e\xab\x97\xf0\xd4\xc3\x6b\x7e\x71\x87\x31\x5e\x60\x1d\x43\x82\x4f\x76\x7e\x2d\xfe\xd4\x11\x72\xeb\x87\x4e\xeb\xdf\xf5\x59\x62\x6e\x3c\x06\x1a\xb2\x65\x2d\xe4\xd6\xdd\xe9\x0c\xc5\x02\x8b\x1b\x98\xb2\xf7\xa3\xbf\xcb\xe3\x15\x88\x95\xa0\xf9\xa5\x7a\xea\x96\x36\xf0\x96\x79\x4a\x80\xda\xb3\xdc\x2b\xe0\x27\x11\x21\x0a\xee\xc1\xe2\xbd\x86\xe5\x82\x35\x2b\x40\x2e\x55\x54\x95\x8a\xe9\xc7\x72\x11\xe5\x18\xce\x06\x2b\xf5\x06\x98\xe0\x46\xad\xb3\x64\x89\x75\x4f\xc4\x4b\xd1\xa2\x42\x97\x64\x43\x99\x80\xed\x67\x34\xc3\xde\x64\x5b\x9c\xc0\x34\x7c\x57\x6a\x9e\xec\x12\x01\x83\x39\xe3\x99\x26\x92\xfd\x40\x4d\xd3\xb3\x68\xb6\xe9\x1c\xeb\x4c\xd2\x0b\x32\x2a\xb9\x5b\xf8\x84\x5f\x49\x6c\x7c\x63\xfa\x51\x90\x5b\x9a\x63\x45\xf0\x5c\xfd\xa6\xce\xb3\x77\x58\x3f\x05\x56\xdd\x34\x24\x34\xfc\x36\xf8\xe2\x5c\x6f\xf2\x84\xca\x86\xa1\x85\x61\xce\x9e\xfa\xb1\x80\xa3\xed\x7e\x88\x52\x30\xea\x88\x53\x8a\x81\x88\xd3\xf3\x86\xa4\xec\x4c\xdd\x90\x14\x53\x13\x1b\xfe\xc8\x49\xb6\x9a\x15\xd9\x19\xad\x1c\x91\xc4\x69\x54\x2e\xca\xa3\x88\xa0\x8d\x29\x48\xf1\xb8\x8e\xb3\x79\x1c\xbf\x24\x6e\x34\x79\x39\x33\xe2\xaf\xf8\x1d\x1c\x03\x70\x7a\x60\x13\x47\xdb\xa4\x42\xdd\xc9\xec\x86\xc0\x28\x96\x09\xdb\xbf\x29\x59\xc0\xad\x01\x3f\x76\x49\x4e\x0f\xfe\x66\xaf\x01\xbd\xcf\x09\x8d\x33\xb1\x0e\xeb\x15\xd5\xaf\x01\x28\x7a\x1f\x12\x76\xc1\x94\xdd\x22\x90\x2e\x94\x2b\x57\x88\x2c\x82\xfa\xcf\x87\x0f\xc1\xc7\x5a\x79\xf8\x7a\x41\x58\xde\x85\x80\x2d\x21\x06\x2d\xf2\x22\xbb\x8a\xd1\xa3\x5e\xf3\xfe\xe4\x3c\xdd\x5c\x33\xb6\x9c\xce\xc4\x76\xce\xc2\xf3\x41\x53\x9d\x97\x83\x8e\xb3\x08\x5f\x80\xb4\x5c\x47\x54\x42\x66\xf0\xdf\xf0\x2b\xe4\xc8\x72\x0b\x1e\xb4\x5e\x96\xec\xc2\xfd\xe5\xed\xab\x97\x52\xd1\xbd\x34\xe5\xd7\x36\x27\x48\xb8\x1b\x74\x30\xb5\xda\x3f\x2d\x2e\x17\xc0\x82\xfa\x62\x66\x3c\x4b\x3b\x33\xf7\xb1\x06\x0d\x2c\x93\xb2\x82\x49\x1b\x9a\xb1\xc8\xf5\xe5\x4d\x97\x59\x63\x2b\x4f\x66\xea\x9a\x65\x6a\x9d\x0d\xc8\x9c\xc1\x55\x9d\xa9\x8f\xb8\xfd\x7c\x92\xb0\x30\xfb\x95\xab\x13\x6f\x69\x15\x4f\x10\x98\x59\xd0\x3b\x0e\x97\x6e\x1c\x01\x59\x6d\x63\x93\xa0\x4e\x5b\xa7\xb5\x63\x66\x9e\x27\x34\xa4\x74\x3d\xe3\x00\xad\x05\x64\xfa\x21\xb9\x03\xe8\xea\x35\x3b\xf5\x34\x38\x31\xe3\xa9\x05\x67\xe2\x0c\xa3\xeb\x90\xd9\x06\xe4\x13\x08\xd5\x60\x22\x62\xf5\x08\x65\xe9\x64\xe6\x2b\x50\x9e\xc0\xda\x30\x99\x8f\x7f\x5d\x3c\x18\x3e\x74\xf3\x30\xf1\x20\x32\xb6\x9c\x21\x63\x60\x49\x8f\x32\xe0\x8a\x1f\x1f\xa7\x67\x3a\x01\x7b\x06\x5f\x8a\x1d\xe4\xc5\x94\x04\x1c\x9b\x37\x5e\x9f\xc7\xcb\x65\xd0\xb0\x6b\xf0\x7f\xb4\x87\x4e\xb8\x16\x36\x64\xbe\x79\x8e\x16\x6b\x1a\x25\x9e\x6e\xa2\x49\x96\x8b\x81\xe9\x79\xfc\xe8\x66\x48\xc0\x4f\xa1\xa3\xf7\x59\x1c\xd6\xeb\x90\xb8\x47\xd0\xc3\x86\x53\xfb\x32\xc0\x65\x99\xa2\x60\x72\x0c\xca\x62\xb2\x08\xb0\xae\xf6\xfd\x07\x2c\xef\x9d\xca\xa6\xb8\xe5\x78\xc1\xb5\xf2\x79\xcd\x46\xe1\x0d\x43\xbe\x4b\x85\x05\x10\xc2\x4c\xdd\xbf\x06\x2c\x1b\x51\x7a\x36\x8e\xca\xf8\x9f\x88\xf3\x9f\xbf\xff\xef\xff\x62\x5e\x4b\x74\x8a\x7d\xa6\xea\x7f\xf8\x1b\x33\x0e\xa0\x71\xaa\xe0\xcf\xf7\x27\xf8\xf2\x43\xbd\x2c\x0a\x73\xc8\x44\xb7\x55\x30\xb1\x31\x4d\xe2\x35\x4c\x1f\x9f\x60\x80\x0d\xb3\xc7\x39\x5a\x59\x2a\xcd\xd2\x23\x12\x86\xc6\x7f\xc0\x86\xc0\x64\x38\x66\x2d\xe8\x25\xe5\xc6\xa0\x67\x82\x6b\x06\x4f\x34\x22\x61\xeb\xcf\xdd\x4b\x1d\x51\x2b\xc5\x66\xaf\xfa\x3b\x8e\x72\x22\x92\xf6\xef\x22\xf7\x71\x15\xa5\x15\xc8\xe9\x72\x15\x8b\xdc\x37\xec\x4a\x12\xcd\x5b\x5c\xe7\xdd\x60\xed\x28\x49\x1d\x39\x45\xb3\x4f\x95\xb8\xd4\x71\x78\x83\x5a\x54\x59\xba\x8e\x4a\x27\xba\x28\xb8\x63\x84\x34\xfc\xe7\xd5\x10\x58\x4f\xc0\xf0\x48\xb0\x76\x40\xa7\xca\xe7\x36\x55\xaf\xc6\x5b\x87\x6e\x84\x9e\xde\x6e\xdf\xb1\x05\x49\x3f\x6b\x20\x04\x29\x21\x21\x87\x43\xa9\xb8\xda\x9a\xc5\x48\x42\xf2\x60\x44\xb4\x63\xe9\xc7\xd2\x95\x93\x6c\xca\x0b\x76\x38\xd1\xf6\x55\x40\x07\x58\xf9\xe2\x66\x2c\x11\xdb\xeb\xb5\xa6\x38\x6b\x4c\xee\x32\x98\xd2\x27\xb0\x85\xa2\x24\x42\x63\xab\x64\x13\x8b\x0a\x14\xb0\x3e\x63\xbb\x31\x2f\xe3\x42\xc1\xaf\x39\x2f\x19\x83\xba\xa9\xd6\xb8\xf0\x3a\x29\x29\xbf\x8d\xc2\x70\x66\x6a\xdd\x48\xf1\xc0\x08\xeb\xa8\x64\x54\x90\xed\x44\x25\x78\x33\x0a\x10\x55\xaa\x68\x07\xfb\xa9\x2c\x61\xa1\x67\x5c\xc7\x62\xfc\xc0\x80\xa6\x69\x0a\x46\x60\xe3\xcf\xb3\x2c\x69\xd6\x2b\xb2\xe5\x57\x82\x2d\x85\x90\xde\xe8\x15\x96\xf5\xa0\x24\x60\x8a\xe0\x47\x10\x6a\xe5\xa2\x88\xf3\x0a\xf5\x02\x97\xaa\xc3\x12\x84\x4f\x6e\xce\x01\x3e\x1a\x4e\x01\x0e\xcb\xe2\x96\x7b\x9d\xb6\x12\x6c\x13\xd8\x36\xab\x28\x91\x32\x55\xdc\x2c\x66\x17\xde\x2b\x69\xa2\x69\x26\x7d\xef\x7d\x82\xa6\xcd\x31\xb7\x49\x42\x03\x4d\x79\x8a\x2c\xa8\x60\xb8\x6f\x36\x60\xf2\x95\x01\xf5\x9c\xaa\xfb\xf7\x15\x3f\xe2\xcb\xd7\xb0\xbd\x41\x9b\x23\x9f\xfd\xf6\x1b\xc3\x0e\x9f\x97\x3f\xc7\x65\x55\x7f\xf3\x22\xca\x83\xe9\xb4\x07\x57\x29\xa1\xa4\xa1\x1a\x20\x60\xb0\x6f\x6a\x30\xf0\x0d\xbf\x90\xe5\x80\x57\x1e\x21\xb8\xcc\x85\x4e\x3f\x30\x55\x7f\x04\xf5\xc5\x88\x87\xcf\xcd\xce\x85\xb9\x06\x22\x43\x1f\xa9\x6f\xb8\xb1\x5f\xeb\xe9\x4a\x60\x82\x3e\x00\x40\x22\xd8\xb9\x06\x77\xd1\x25\x59\xca\x51\xa8\x0d\xc9\xa8\x29\xbf\x20\x05\x4a\x00\x66\x35\x74\xe0\xb3\x48\x64\x74\xcf\xa0\x97\x3d\xdc\x63\x74\xb7\xd8\xb2\x88\xd9\xe3\x24\xc9\xae\x5f\x47\x45\x15\x47\x09\x05\x20\x69\x70\xf8\x00\xde\x03\xb1\x14\xae\x5b\x79\x52\xff\x70\x06\xdb\xe1\x25\xed\x08\xfc\x62\x3e\x9c\x6d\xe2\xea\x5d\x9a\x67\xf9\x16\xed\xf9\xe5\x89\xf9\x00\xf8\xa3\xcb\x6e\x73\xbd\x0e\x39\x6b\xcc\xd0\x74\x7c\x22\x0c\xe4\x7a\xdb\xac\x88\xd2\x79\x85\x06\xd1\x4c\x4d\x16\xd9\x36\x59\xa6\xdf\x55\x62\x09\x5a\xa6\xc4\x5d\x4a\xe7\x9b\x7c\x0e\x44\xed\x46\x0d\x4a\x5f\x04\x12\xa5\xde\x44\xd7\xc2\x06\x03\x0a\x8f\xa7\x75\x9f\x41\xb4\xd5\x5e\x27\xc2\x7e\x8a\x9a\x07\xe4\x65\x2b\xdf\x23\x5e\x1f\x6a\xcb\xcf\x52\x70\x6b\xc6\x63\x41\x08\x52\xab\xec\x93\x7c\x54\x1c\x1b\x57\x2c\x90\x48\xd8\x88\xdc\xa9\xc3\xd8\x21\x7a\x66\xca\x93\x3c\x9e\x31\x80\xbb\x88\x28\xf0\x0b\xd8\xdf\x4b\x61\x74\x92\x52\xf5\x0d\xd8\x94\x10\x9f\x50\xd8\xa2\x5a\x96\x05\xa0\x1e\x44\x87\x5e\xe9\xd5\x62\x78\x3b\x81\x16\x4f\xdb\xe5\x18\xe0\x6a\xc3\xa2\xcf\x62\x10\xf7\xc5\xf2\x5d\x4a\x67\xeb\x7c\x0e\x75\x6b\xec\x8f\xe4\xad\xb5\xcc\xb6\x56\xc4\x76\x7b\xef\xd3\x89\xba\x57\xde\x09\x53\xc9\xcc\x60\x09\x5b\xfc\xdc\xc7\x1b\x86\x21\xbe\x4c\x5a\xd3\x30\x9e\x00\x45\xc0\x1b\x5f\x2c\x50\x83\x9a\x64\xb8\x63\x9d\xc5\x2d\x9f\x26\x3a\x2a\xe4\x9b\xcf\x97\x8e\xf7\x16\x59\x7e\xc3\x38\x74\xf2\x5d\x89\x8c\xb7\xe4\xd8\xf0\x35\x46\xa9\x48\x85\x62\xdc\x02\x14\x5f\x59\x2c\x84\xfb\x1c\x94\x00\x1a\xcf\xf0\x4b\x17\xfb\x95\x8d\x32\x47\x98\x00\xc9\x5a\xe8\xd3\x60\x10\x02\xd1\x56\x79\x6c\xb2\xa7\x92\x27\x63\xab\x9d\x01\x93\x57\x60\x68\x5c\xee\x4d\x63\x32\xce\x9b\x14\x1e\x2d\x7d\x12\x97\x75\xfa\x8e\xbc\xda\x25\x34\x41\xda\xc6\x4b\xb7\xc1\xd2\x69\x38\xd0\x19\x28\x26\xa1\x85\xb5\x73\xef\x22\xa3\x3d\x10\x03\x41\xec\x53\xc0\x9a\x3d\xce\x0c\xfc\x14\xa2\x4d\xc3\x0e\xb1\x42\x11\xb7\x81\xd1\x7a\xa8\x8e\xb1\x84\x13\x94\x2d\xc9\x03\x2c\x7e\x9c\x30\x09\xb4\x3b\xa3\x67\x76\x79\x5e\x0b\x5e\x29\xde\xf4\x74\xf4\x6e\xd2\x50\xfa\xda\xdf\x07\x88\x29\x02\x33\x1f\xed\x48\xe1\xa4\x36\x70\x18\x4e\xfc\x7d\x23\xa7\x9c\x43\x4c\xc9\xe0\x0e\xe3\xe9\x41\x27\xf8\xe3\xde\x9f\xce\xe0\xaf\xa3\xef\x6b\x2c\xbd\x2d\x12\x0a\x37\x9d\x51\x3c\x8d\x85\x96\xb7\x4c\xbf\xa0\x09\xe8\xaf\xd2\x36\x95\xc8\x9b\xca\x1b\x51\x39\x8c\xbe\xd8\xec\x82\x5b\x1c\x84\x10\x00\xe5\xc5\x8f\xa7\xcf\x60\xc3\xd5\xcb\x73\xcd\x02\x89\xf1\x76\x85\xa3\xb6\x6a\x78\xe1\xaf\xdb\x3b\xe6\x66\x96\x2a\xe4\x78\x7a\xb5\x0d\x5b\x8c\xbc\xe3\x68\xbc\x18\x2e\x98\x80\xd2\x4b\xe6\xf9\x4e\xf0\x0f\xa8\xf3\x1e\x27\x50\xac\x99\x7e\xdb\xa1\x55\x5b\x8b\x6b\xd6\x74\xe6\xbb\xb7\x4f\xa2\xa5\x89\xab\x21\x4c\x71\x85\x69\x96\xac\xdc\x60\xa1\x11\x59\x7f\x5d\xf0\xa3\xaf\xec\xa2\xe5\x92\xb7\x0c\x3c\xf4\xee\x17\x89\x23\x91\x69\x3f\xc3\xc8\xb3\xb5\xe7\x65\x41\x0c\x94\x40\x7c\x76\xa4\x0a\xa7\x5e\x66\x6a\x97\xd9\x6d\xd5\x9d\xb7\x65\x98\xb6\x43\x9b\x66\x50\xba\xa3\xa8\xbe\x94\x94\x0b\x22\x41\x21\x03\x4f\x63\x74\xcb\x5e\x46\x08\xcd\xd5\x1a\x67\xd2\xac\x7d\x86\xa4\x63\x39\x2a\xc1\x76\x5c\x4f\x4f\x3b\x43\x3d\x96\x73\x87\x0e\x94\xa9\x9e\x47\x13\x09\x23\x57\x78\x88\x32\xa5\xee\x9b\xac\xa0\xb4\xef\x45\x7c\x05\x6f\xc4\xa1\x11\x5a\x3a\x34\x02\x1a\xc3\x25\xaa\xcc\x93\xd8\x06\xe8\xce\x63\x0b\x32\x9b\xbf\x27\xf1\x81\x3f\xdf\x3f\xfc\xc0\xa2\x03\xf7\xb3\xc1\xee\xa9\xdc\xfc\xf0\x38\xbd\x31\x8d\x80\xcd\x66\xef\x27\x62\x49\x00\xb8\x9a\xcd\x58\x0b\x7d\xd1\x20\xac\x51\x4f\xdb\xdc\x6c\xb0\xba\x15\xeb\x0a\xe1\x4c\x5d\x58\x46\x5a\x21\x0c\xa1\x33\x11\xb4\x45\x66\x6d\xe2\x81\xb4\xdf\x69\xe6\x22\xa6\x85\xed\x2c\xad\x0a\x9d\x6b\x34\x78\x59\x96\x98\x65\xa1\x8b\x26\xb2\x14\x4b\x4b\x36\x1b\x4c\xdb\xe0\x27\x3c\x21\xca\xbb\x39\x2b\xcc\x77\x32\xd5\xa2\xa2\x88\x8c\x8f\x68\xf1\x31\xdc\x3b\x48\x71\x6e\x33\x45\xee\xfb\xde\xe7\x3d\x7e\x6f\xd8\x8f\x7f\xb9\xa5\xa8\xd7\x4e\x5a\x63\xd8\x4e\xfa\xfd\x01\x56\xb0\x58\x46\x76\x08\x10\x0a\xf7\x0d\xa0\xfa\x32\x01\x4b\xd8\x11\xbc\xdd\x42\xc4\x25\x31\x78\xa9\x83\xf7\x56\x4e\xe2\xec\x2c\x9c\xa9\x84\xf5\xe2\x99\x01\xe1\x1d\x47\x30\x30\x4d\x92\xb2\x1b\x4f\x69\x06\xd8\x11\xc7\xc5\x1f\xda\x56\x19\xe3\x02\x9f\xf8\x54\x3b\xb2\x8f\xf4\xf2\x83\x7b\x35\x1e\x6a\x99\xf3\x25\xd8\x87\x49\x5c\x39\x7a\x20\x63\x4f\x8c\xb2\xe9\xa9\x2d\xdd\x99\x8f\xf1\xea\x7b\x76\x24\x64\x6c\x79\xc7\x60\xe6\xa3\x59\x2e\x40\x62\xbc\xbb\x2a\x95\x40\xf2\xd5\x28\xd8\x07\xf9\xf5\x48\xe2\xec\x7e\x25\x80\x4b\xea\x14\x98\xe9\x6f\x14\x0f\x90\x67\x42\xe1\x2f\xc0\xca\xbc\x25\xc8\x14\x1d\xd9\x51\xf4\x38\xf2\x8a\x3d\x06\xa7\xd5\x59\x3d\xd0\x52\xca\x3d\x95\x03\xa3\xa5\x5e\x61\x02\x36\xc4\x88\x75\x48\x97\x13\x04\x53\xc9\x93\x63\x55\x81\x2b\x24\x68\xcc\xd5\xab\x2a\xb0\x65\x5b\xc0\x86\xb6\x19\xc2\x63\x2b\x93\x3e\x53\x9c\x54\x78\x54\x2e\x43\x78\xa3\xa3\x25\x38\x2d\x01\x8f\xbd\xdf\x81\xd1\x96\xeb\xcb\xb1\xcf\x02\xf3\x10\x26\x17\x84\x13\x37\xd4\x9e\x98\xa3\x32\xf5\xd0\xeb\x43\x06\x8e\x93\xa4\x5e\x7b\xcf\xf2\x40\x9f\xac\xdf\x2b\xeb\xf5\xcb\x18\x5d\x43\x8a\x5e\xd7\x8c\xe3\xce\x14\xda\xee\xd8\xd1\x5d\xc1\xe7\xfe\xf0\x73\x67\x00\x5a\xf0\xd8\xdf\x5e\xf2\x03\xce\x87\x46\xa6\x99\x22\xa3\x6e\xbb\x8a\xbf\x21\x02\x0e\xad\x3b\xae\xb8\xb3\x2e\xd6\x7d\x2a\x64\x21\x7a\x58\xf9\x62\x7c\xa2\x4e\x96\x9c\xd1\xa1\xa6\x94\x8b\xef\xa4\x60\xc2\xf0\x8a\xcb\x6b\x8e\xb1\xa6\xa3\x5a\xbf\x46\x0d\x57\x5a\xfe\x75\xa6\xef\x41\xa7\x9c\xf1\x92\x0f\x07\x0d\x61\x93\xd6\xe3\x9f\x24\xd9\xc3\x77\x6f\x7e\x0e\xff\x86\x2f\x69\x0f\x62\x07\xaf\xc9\xd8\xcf\x50\x5b\xc7\xce\xce\xce\xdb\x6c\x7c\xbd\x4b\x6a\x9a\x85\x3f\x67\x9c\x36\x55\x13\xa2\x39\xb7\xc1\x72\x3c\xfe\xfc\xa3\x4e\x69\x50\xcb\x5d\x98\xbb\xee\xae\x02\x1c\x46\xe1\x55\xaa\xb3\x55\x0b\x0f\x90\x22\x2d\x3c\x68\x5a\x5f\x83\x88\x25\x32\xaf\xbc\xb1\x3a\x4d\x75\xc1\x51\xe3\xe0\x78\x6f\xba\xbb\x53\x27\xf4\x55\xc0\xb3\x06\x28\x4d\xee\xd7\x26\x63\xc4\x78\x6c\xe6\x7a\x39\xf3\x5d\x1c\x50\xdd\xde\x81\x60\x97\x74\xef\xcc\x9c\xf6\x15\xbc\x5b\xdb\xfe\x8f\x16\x20\xf5\x55\x42\x47\x7c\xd4\x15\xe2\xd7\x3c\x97\xe9\x3e\xce\xc7\xc7\x99\x48\x4f\x9b\x03\xa4\xf4\x97\xd7\xca\x2f\xd0\x77\xd7\xc7\x48\x06\xa7\xab\xde\xa6\xe7\x90\x50\x53\xcf\xf6\x55\xea\x3b\xcb\xad\xf0\x72\x40\x83\xb5\xf9\xa4\xc7\x5a\x75\xf9\x18\x28\x59\x47\x4b\xee\xdb\x57\x89\x4f\xf5\xdf\x4b\xac\x8c\x8a\xd9\x84\xb7\xa7\x27\xbd\x9b\xe0\x30\xcf\x4f\x50\x8c\x0d\x67\xcc\x1a\x7b\x00\x00\x99\x19\x2b\xf3\x5a\xc7\x04\x6a\x95\xfe\x0c\xa4\x5e\xee\x3f\x58\xe8\xbf\xab\xce\xdf\x50\x88\xa2\x4c\x97\x64\x06\x0f\x76\x69\xe0\x4f\x95\xfe\x6d\x18\x28\xbc\x90\xdc\x5b\x90\x8b\xf6\xc6\x9d\xc5\x1a\xd7\x24\xa4\x2f\x51\x52\x66\xb8\x04\xb2\x87\x59\x49\x81\x17\x3d\x1e\x1e\xdd\x28\xbe\x23\xbc\x97\x6e\x26\x42\x1c\xc3\x11\xd3\x5d\x1d\xed\xaa\x60\x04\x07\x79\x0e\x85\xc8\x64\xfa\xc5\x07\x13\x10\xc4\x97\x1f\x4c\xf0\x7a\xbb\x72\xbc\x8e\x73\x09\x29\x9b\xb3\x2c\xbd\xc0\x1f\xb8\xa2\x9b\x31\x2a\xa1\xda\x26\xab\xc8\xfb\xc6\xe2\x90\x28\xc5\x6b\x7d\x7e\xc5\xb3\xd3\x39\x5f\x20\xc4\xef\xf8\x52\x21\x50\xce\x64\x20\xbb\x41\x96\x60\x11\x65\x74\x95\x46\x79\x53\x56\x7a\x33\x43\xe6\x02\x58\x49\x7c\xa9\x13\x7b\xb6\x81\x22\x86\x93\x75\x56\x56\x27\x44\x3b\x77\x78\xc1\xcd\x20\xb0\x43\xd9\x54\x62\x5f\x95\xdf\xe1\xc7\x16\x30\x25\x60\x58\x8e\x93\x76\xab\xf8\xb3\x1d\x11\x96\x92\x6e\x30\x13\x9f\xde\xe0\x71\xca\xaf\x4f\x8e\x8f\x27\xea\x3f\x2c\x25\x48\x58\x6d\x1b\x81\x2c\x30\x96\x2c\xb4\xbd\x0f\x00\xa2\xad\xb0\x1d\xcb\xc5\x6e\x68\x74\x75\xf8\x54\x52\x86\xcf\x27\xd3\x27\x2f\x33\x5e\x48\xaf\x14\x92\xef\x62\x60\x1e\xa0\x52\x1f\x04\x74\x9d\x15\xb0\x27\xb9\xbc\x52\x89\xa6\xa7\x58\xed\x0d\xde\x0a\x49\xb2\x99\xbf\xc6\x48\xc2\xc9\x74\x5c\xb3\x9f\x0e\xaa\xbe\x23\x07\xa2\xe1\xde\x09\xd2\xf8\x95\x4f\x85\x78\xae\x20\x3c\xe9\xcf\xed\x1e\x0f\x4d\x1f\x32\xf0\xdb\x7e\xd3\xd0\xf1\x0f\x1c\x89\x0d\xce\x81\x7e\x1d\x97\xbd\x79\x07\x41\xe4\x68\x47\x6f\x51\xa0\x18\xb4\x64\xbe\x82\xac\x08\xb6\x6c\x8b\x5a\x2b\x35\x02\x25\x0b\xe2\x03\x8b\x03\x4d\x53\x67\x1d\xec\x28\xeb\x6b\x54\x00\xd6\x2a\x05\xeb\x15\x7e\xcd\x43\x20\xa3\xe6\x39\x10\x63\x65\x7b\x55\x7e\xdd\xc5\x7f\xc3\x07\x42\x06\xd7\xdd\x1e\x0c\xf9\xdd\x57\xbe\xaf\x4c\x92\xcc\x99\xfe\xa5\x9d\x35\xad\xcd\xae\x62\x47\x77\x1a\xc5\x66\x7a\x70\x1d\xe7\xb0\x70\xea\x01\xee\x61\xf8\x35\xe3\x18\xba\x09\x62\x99\xd7\xb8\x7f\x53\xb4\x0b\x60\x0e\x0f\xb0\x03\xff\x24\x7d\x21\xee\x81\x3b\xf3\x8e\x5f\xc4\x50\x79\x5a\x7d\x36\x65\xf4\x6f\xd1\xbe\x5d\xd0\xad\x08\xdb\x42\xea\x6b\xc8\x54\x90\x8d\x0b\xdb\x11\x8c\xad\x84\xaf\x20\x62\x3d\x07\x92\x9b\x0a\xda\xc1\xef\x06\x29\x6a\xcc\x57\x51\x4b\x5c\x05\xc9\x6a\x6f\x63\x4c\x58\xdf\x87\x46\x5b\x41\x6a\x54\x42\xa5\x5e\x66\x95\xdc\xe8\x86\x20\x11\x16\x49\x8a\x75\x74\x05\x2e\x9e\xdc\xd4\x3a\x6c\x92\xd0\x38\x73\xaa\x6c\x96\x4b\x8d\xe8\xfe\x16\x94\xfc\x06\x35\xbc\x1f\x4f\xaa\x1f\x23\x73\xda\x8d\x05\x3f\x25\xdb\x6c\x8d\xa5\xbd\x6f\xc1\xbb\x72\x09\x0f\xb9\x89\xc2\x95\x63\x08\x75\xda\xf1\xd1\x03\x2f\xeb\xd6\xaf\x0f\xfc\x32\x9d\x8e\x46\x52\x9d\x3d\x70\x25\xd7\x1e\xd6\xe1\xef\x76\xf8\xc0\x5a\x3c\x98\xa8\x6b\xd6\xe6\xd5\xcf\x08\x50\x60\x8e\xec\x5f\x54\x00\x3d\x47\xa9\x76\x0a\xec\x66\xd0\xad\x53\xd8\x0c\xc6\xdc\x9a\xfe\x95\x04\xdc\xd8\x1a\x6b\x06\xdd\x4c\x84\x46\x86\xf1\x0f\x21\xf9\xc7\x8d\x9b\x41\x37\xaf\x5e\x8e\xcd\x3c\xa9\x81\xb5\x5f\xd6\x74\x57\x07\x46\x27\xfe\xf4\xf0\xa1\x5f\x0c\x0c\x7e\x96\x54\xbc\x92\x3f\x95\x03\x09\x19\x4d\xec\x90\x12\x2c\xf6\xad\x68\x03\x55\x15\x26\xfe\xe8\xc8\x25\xcd\xc2\xdf\x7f\x52\x75\x08\x66\x34\xb9\x30\x0e\x47\x83\xc4\xce\xa0\xa0\x39\x4a\xd4\x11\x14\xec\x24\xfb\x70\x4c\x90\xdb\x1c\x1e\x14\x3c\x24\x88\x77\x4a\xd7\x9b\x9e\xbd\xfa\xa1\x37\x8e\x87\x55\x0e\xae\xa0\x91\x24\x0e\xc5\x8e\x38\x81\xea\x05\xee\xf6\x8c\x09\x76\x84\x04\x2d\xd0\xc9\xd4\x3b\x7b\x53\x78\x05\xa4\x08\xd8\x0b\x3b\xbd\xfa\xeb\xee\xb0\x63\xad\x7c\x14\x5c\x8d\x89\xc7\x33\x27\xea\xbb\x7b\xcb\xef\xc8\x0d\x70\x63\xd8\xb1\x39\xa8\x5a\xe6\xbb\xb8\x79\x7c\x70\x9c\xb1\x37\xcc\xd8\x17\x65\xf4\x48\xbb\x23\xc6\x88\x08\x77\xc4\x18\x5b\x14\xf2\x89\xd2\x38\x99\x74\xdf\x1d\x90\x1f\x35\x4e\xc8\x7b\x02\xa8\x79\x28\x70\x8f\xfc\xc0\xee\xec\x00\x1b\x04\xb5\x08\xd0\x61\xf9\x81\xd6\x71\xc2\xb1\xf5\x76\x25\x1c\x04\x7d\xf6\x4e\x09\xd0\xed\xa3\x7c\x24\xa1\x80\x1d\x54\x2a\x1c\x88\x1c\x13\xd0\xcb\x23\xd1\x7e\x35\xe5\x1b\xa0\x4d\x30\x33\x09\x38\x14\x35\x14\xf4\x35\xa2\x60\x8f\x69\xed\x91\x1f\xe8\x39\x6e\x68\x43\x47\x43\x07\x0c\x87\x22\xe6\x26\x8a\x09\xfd\x88\x1d\x7c\x15\xd5\xeb\xfe\x36\xdb\xf5\xfb\xd7\x1c\x79\x78\xab\xd9\xf9\x6c\x14\x2d\xc8\x7e\xb3\xa5\xa3\x12\xcb\xa5\x62\x18\xf1\xde\xe8\x8c\x9d\xcd\x9d\xd6\x2f\xc6\x2a\xf9\x68\x7c\x2d\xbe\x89\xa3\xbe\xe5\xf7\x36\xc0\x69\x1a\xde\x35\xef\x11\x43\x33\x71\x72\x3c\x19\x0e\x11\xbb\xe8\x70\x97\x17\x98\x73\x14\x61\xb8\x7f\x6f\x35\xa0\xdd\xd5\x4c\x19\x2a\x60\x30\x10\xc9\x24\x20\x4a\xbe\x89\xae\xc5\xf8\xdc\x9a\x67\xfb\xcd\x7e\xa0\xb7\x75\x6a\x37\x53\xf2\x36\xd1\xdf\x15\xc9\xf6\xe8\xda\x17\xb8\x56\xee\x4c\xff\x7e\x31\x63\x6a\x87\xfb\xe1\x5b\xbf\xca\x55\x05\xae\xeb\x8f\x19\x1d\x4a\x94\x7f\x1e\x60\x32\xb5\x4e\x21\x25\x29\x27\x36\xec\xfc\x37\x1b\x63\x97\xc3\xf8\x2e\x15\x4a\x29\x69\x60\xc0\xd0\x36\x7e\x0a\x4d\x12\x77\x0f\xaa\x2c\x39\xd6\x97\xa1\x0b\xe3\xa3\x22\xc3\xb5\x0f\x55\xf4\xc1\x33\xd9\x18\xaf\x60\x62\x00\xc9\x99\xaa\xd7\xe5\xdd\xfa\xe3\x63\x30\xf6\xee\xee\xde\x12\x64\x2d\xa0\x06\x4f\x57\x22\x75\x27\x68\x18\x7a\xde\x9d\x45\x5f\xb0\x75\x99\xe4\x46\x3d\xc9\x8c\xcf\x0a\x0f\x20\xd4\x95\x88\xaa\xf3\x79\x6d\x4c\x39\x03\xd8\xf8\xd5\xf4\x36\x85\x6b\x32\xcc\x2c\xf4\xe5\x1a\xda\xac\x43\xcd\x87\x58\xc7\x80\xcd\xed\x1e\xe7\x2e\xe6\x28\xe3\x01\xd4\x60\x18\xff\x76\x72\xf8\x1b\x96\xc6\x02\x1e\x15\x46\x61\x1d\x40\x87\x1d\x77\xa5\x61\xbd\x0d\x4c\xb6\x56\x4b\x5c\x1e\x96\x0e\xf5\x33\x70\x7c\x68\x0b\xc8\xf2\x75\x09\x38\x9b\xf9\xd9\x95\xa4\xe8\xcf\x52\xf4\xa7\x29\xfa\xf3\x14\xbd\x89\x0a\xbe\x68\xb1\xa3\x96\xdb\x4b\x55\x70\x1e\xf6\x8b\x05\xb5\x94\x6d\x13\xe9\xa5\x64\x5b\xdd\xbb\x9a\x98\xfc\xae\x15\xd7\x4f\xf8\x7c\x59\xf3\xdf\x12\x08\xf8\x9f\x27\x00\x73\xfa\xc9\x76\x05\x76\x3b\x57\xff\x78\x67\x35\x95\x9f\x2f\x33\xa5\x2f\xed\x0b\x96\x77\x5e\xb9\x68\xff\xbd\x85\x7d\x03\xd2\x2f\x1f\x9f\xbf\xfd\xc2\x2b\x17\xa9\x1b\xf6\x57\xec\xc4\xdb\xdf\x72\x2f\x0d\xfd\x53\x1a\x7c\x23\x4d\x59\x5c\xf1\x6f\x7b\x7f\xb6\x98\x2d\xed\xab\xbb\xf7\xbd\x32\xa6\x71\x03\xcc\xdb\xed\xdc\xae\x3e\x0e\x8f\x9b\x7d\xab\xe1\x2d\x56\xd4\xce\xf9\xa2\xcb\xd6\x25\x2f\x61\xfd\xf6\xcb\x49\xf7\x45\x30\x88\x7d\xd8\xba\x04\xee\x45\x79\x41\xf3\x9c\xee\x6b\x3d\x90\x91\xd5\xc4\xd9\xbb\x40\xc5\x5b\xfc\xfa\xd5\xf1\x78\x44\xde\x5b\xa6\x7d\xaf\xb6\xa4\x95\xd9\x7d\xb5\xa5\x83\xbc\xf3\xec\x7d\xed\x9f\xf0\x08\x2d\x6d\xed\xf9\x7b\x6f\x85\x7b\xae\xb4\x1c\x86\x20\xd9\xb6\x3f\xde\xcd\x96\x6e\x5e\xfb\xdd\x6c\x59\xbb\xd6\xb2\x3e\x67\x3c\x34\x6e\xa7\x7d\xd0\xd5\x96\xb8\x50\x3d\x77\x0e\x59\xdf\xa9\xd5\xc6\x0b\x27\xbb\x16\x5d\xc7\xc9\x0f\xb8\xfb\xd2\x5b\xe5\xaf\xba\xfb\xd2\x83\x63\x4f\x05\x1e\xf4\xef\x2f\x80\xd6\x78\xd0\xc7\x51\xad\x6b\x2d\x0f\xbc\x3d\xd1\x0b\xe2\x30\x51\x1b\xd7\xc1\x74\x5f\x6f\x52\x5e\x88\xd8\x03\xe9\xd0\x1f\xbb\x69\x17\x6e\x75\xdd\x00\x33\x50\xda\x88\x47\x53\x9e\xf1\x21\x1f\xbc\x81\xf2\xd1\x01\xd7\x4f\xde\xdf\xeb\xd6\xc2\x71\x8d\xa3\x76\xd4\x63\xd0\x84\xf7\xa8\xc7\xa0\xfa\x8b\x6c\xfe\x0f\xcc\x33\x8a\x8b\x5d\xda\xf5\x32\xb7\x0c\xbe\xc0\x2b\x24\x28\xac\x98\x11\x63\xc8\xbf\xab\x46\x39\xeb\x2d\x8e\x8d\xb1\x3d\xaa\xc8\xc6\x90\x74\x19\xa3\xb8\x93\x2b\x09\x6a\x65\x1a\x1d\x78\xf7\xdd\x21\x8a\x57\x29\x99\x1c\x24\xf4\xf7\xf5\xd6\x8e\x72\x0d\x43\xe7\x1a\x0f\xf2\xf8\x38\x05\x7f\xe0\x99\xbd\x75\x69\xe1\xc0\x4e\x0f\x49\x1d\xe3\x8c\xbe\x3c\x75\xec\xf5\xde\x71\xa7\x1d\xce\xe6\x7f\xfb\x4e\x3b\x87\x5d\xdb\x76\xe8\x55\x40\xaf\xb7\xf3\x24\x2e\xd7\x4e\xff\x7c\xdd\x85\x76\xfb\xd8\x1c\x07\x5e\x54\x67\x12\x95\xbd\x97\xd5\xb5\x74\x83\x9d\x93\xa4\x29\xed\x8d\x75\x9c\xb0\xdc\x61\xc1\x8c\xbd\x4c\x64\x6d\x03\xf8\xe9\xc7\x1e\x6d\x52\x4b\x3c\x36\xf3\x8e\xcd\xb4\xe3\x1f\xf3\xd6\x39\xb2\x78\xbe\xf4\xd6\xb9\x1e\x82\x74\x0a\xbb\xfd\x6e\x9d\x33\x8a\xe0\xdf\x76\xbf\x5c\x0f\xca\x7b\xe8\x26\xd5\xaf\x9c\xb0\x30\x64\x0f\xbd\x03\x0d\x6c\x92\xa2\xa9\x7f\x00\x44\x5b\x05\xc1\xcb\x3b\x0f\xba\xe9\xcc\x07\xb5\x4c\x67\xac\xc4\x6f\x7e\x0b\x29\x07\x80\xe7\x03\x3e\xc6\x72\x51\xc5\xc7\x49\xcf\x30\x26\x67\xd1\x06\x62\x4a\xd3\x0c\x22\x1d\x71\xfe\xce\x5b\xf3\xf6\xd5\xc2\x5d\x01\xf8\x61\x35\xdc\x7d\x1f\xad\xcf\xc3\xa2\x8c\xbb\x75\x71\x67\x38\xbc\xa6\x8a\x1b\xb7\xeb\x99\x7f\x08\x54\xf2\xd1\x5e\xe6\x38\xea\xd1\xce\x38\x39\x23\xda\x81\x69\x9a\xca\xf9\x88\x70\xfd\x7d\x34\xf4\xbe\x46\xd5\xae\x28\xf8\x4e\x8d\x6c\x07\x22\xc0\x16\xdc\xd4\x5b\x86\x7f\x01\x50\x89\x29\x7b\xb8\x76\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 30447, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xd0, 0x5f, 0xb5, 0xc7, 0x9f, 0x45, 0x27, 0x66, 0xf9, 0x73, 0xab, 0x7c, 0xe7, 0x58, 0x60, 0x43, 0x4, 0x6b, 0xd2, 0xc0, 0x5, 0xbe, 0x40, 0x4c, 0x5, 0x22, 0xf7, 0xbe, 0x28, 0xf2, 0xe2, 0xd7}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 30392, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xed, 0xb5, 0x6, 0x97, 0xfb, 0x54, 0xd7, 0x45, 0x7, 0xbe, 0x56, 0x30, 0x83, 0xa9, 0x54, 0x21, 0x96, 0x50, 0xb4, 0xa0, 0x8a, 0x6b, 0xd3, 0x34, 0x15, 0x2f, 0x69, 0x6a, 0x55, 0x21, 0x2b, 0x98}}
 	return a, nil
 }
 
@@ -178,7 +178,7 @@ func serverInterruptGoTmpl() (*asset, error) {
 	return a, nil
 }
 
-var _serverServerGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\x9c\x57\x41\x6f\xdb\x38\x13\x3d\x8b\xbf\x62\x3e\xa1\x07\xe9\x83\x43\xdd\x8b\xf6\x90\x3a\xe9\x36\x40\x9b\x1a\x89\xb1\x7b\x5c\xd0\xd2\x58\x26\x4a\x93\x2a\x49\xd9\xe9\x0a\xfa\xef\x8b\x21\x25\xd9\xae\x53\x6f\x93\x4b\x2c\x91\xc3\xc7\x37\xef\xcd\x90\x4a\x51\xc0\xdc\x54\x08\x35\x6a\xb4\xc2\x63\x05\xab\x1f\xb0\x12\xd6\x68\x0e\x37\x5f\xe1\xfe\xeb\x12\x6e\x6f\xee\x96\x9c\x15\x05\x3c\xa0\x6d\xb5\x96\xba\x8e\x01\xb0\x97\x4a\x81\xd9\xa1\xdd\x5b\xe9\x11\xfc\x46\x3a\x58\x4b\x85\x21\xf8\x4f\xb4\x4e\x1a\xfd\x16\xba\x8e\x0f\xcf\x7d\x7f\x34\x01\x37\xc2\xe3\xf1\x2c\xbd\xf7\x3d\x63\x8d\x28\xbf\x89\x1a\xc1\xa1\xdd\xa1\x65\x4c\x6e\x1b\x63\x3d\x64\x2c\x49\x95\xa9\x53\x96\xa4\x1a\xfd\xf0\x53\x6c\xbc\x6f\x8e\x9f\x8b\xa6\xb1\x66\x4d\x23\xb6\xd5\x5e\x6e\x31\x65\x2c\xe9\x3a\xb9\x06\xfc\x0e\x7c\x6e\xf4\x5a\xd6\x7c\x69\x85\x76\x01\x34\x15\x4a\xa5\x90\x6a\xe1\x5d\x0a\x7d\xcf\x92\xb4\x96\x7e\xd3\xae\x78\x69\xb6\x05\x8d\x5e\x49\x13\x7e\x79\x6d\x52\x02\x42\x5d\x51\xd8\x7f\x22\xd6\xb6\x29\x47\x44\x63\x6a\x85\xbc\x36\x4a\xe8\x9a\x1b\x5b\x17\x61\xf2\x80\xc6\x92\x66\x05\x69\xd7\xf1\xc5\x87\xbb\x90\xeb\x42\xf8\x0d\x5c\xf5\x3d\xa5\xd1\x75\xfc\x74\xb0\x20\x5d\x64\x89\x29\xcb\x19\xdb\x09\x4b\xc2\xfc\x0d\x43\xb6\xfc\xd6\x5a\x63\x69\x40\xa3\x1f\x5e\x72\xc6\x82\xc9\x44\x14\x4a\xa3\xbd\x90\xda\x81\xdf\x20\x58\xfc\xde\x4a\x8b\x15\xac\x25\xaa\xca\xc1\xda\x58\x18\x1d\x16\xa3\xfe\xfe\x47\x83\xe3\x6a\xe7\x6d\x5b\x7a\xe8\x58\xf2\x69\xb9\x5c\x5c\x57\x95\xa5\x21\xa9\x6b\x96\xdc\xe0\xaa\xad\x4f\x46\xfe\x78\x58\xcc\x4f\x06\xee\xaf\x97\x8f\xe7\x6b\x60\x65\x8c\x62\x7d\x20\xf9\xd0\x6a\x70\x5e\x58\xef\x40\x80\xc6\x3d\x90\xa5\x03\x91\x19\xd4\x0f\x8b\xf9\xf4\x22\x74\x05\x02\xaa\x80\x10\xc7\x60\x2f\xfd\x86\xf2\x22\xa4\x46\x38\x87\x15\xa5\x4b\xbc\x29\x58\x99\xba\x46\xcb\xd6\xad\x2e\x69\x9f\xac\x5c\xd7\x43\x5a\x39\x25\x54\x14\x70\xdd\x34\x4a\x96\xc2\x53\x71\x56\x66\x2b\xa4\x66\x09\xea\xaa\x31\x52\x7b\x07\x6f\xdf\xc3\xed\xf8\x92\xe5\x2c\xac\x58\x90\xe3\x53\xa8\xb5\x25\x45\x6d\xc5\x37\xcc\xca\x8d\xd0\x80\xa4\xff\x10\xfa\x18\x39\xde\x69\x8f\xd6\xb6\x8d\x07\x96\xd4\xe6\xf0\x9a\xd1\xea\x21\x34\xca\xa2\xa4\xf3\xd4\x93\x2c\x91\x6b\x28\xd7\x35\x8f\xc3\x1d\x4b\x68\x21\xa5\x91\x05\xe2\x49\xa2\x4c\xcd\x17\x56\x6a\xaf\x74\x96\xfa\xb1\x12\xd3\x19\xa4\x41\x1e\x7a\x10\x55\x65\xd3\xd9\x01\x86\x6c\xa0\xdd\x92\x64\x4b\x94\x49\x66\x7e\x8f\xfb\x40\xf2\x4b\xfb\x94\xe5\x61\x8a\x7f\x12\xba\x52\x98\xa5\x45\x00\x8a\xbd\x55\xa4\xb3\x18\x1f\x27\xed\x47\x62\x12\x66\xf8\x9d\xae\xf0\x29\xbf\xb4\xb6\xdc\x56\x4a\x6a\xfc\x35\xc4\x3c\x06\x5c\x04\xa1\x3f\x52\x5d\x00\x59\xc4\x80\x8b\x20\xee\xc7\x76\x65\xd4\xaf\x31\x1e\xc3\xfc\x45\x08\x6f\x45\x79\x81\xc5\x92\xa6\xf3\xa8\x72\xa8\x8d\x77\x57\x31\xf4\x73\x70\xf6\x5a\x57\x41\xee\xec\xc4\x94\x19\x6c\x69\xcb\x9e\x1c\x18\xcf\x19\x4e\xcd\xf6\x09\x55\x83\x96\x7f\x41\xbf\x31\x95\xa3\x83\xa5\x28\x80\x26\x60\x72\x7c\xaa\x94\xa9\x39\xff\xf7\x1e\xd2\xf4\x65\x25\x43\x6b\x7f\xaa\x98\x11\x2e\x68\xb1\xa1\x7a\x69\x56\xfc\x8b\xf8\x86\x81\x57\xcc\x3b\x9b\x1a\x65\x16\x58\xc5\x72\xff\xda\x50\x33\xb9\x2c\xe7\x9c\xe7\xbf\xa3\xc3\xb8\xd5\x0c\x36\xa7\x32\xbc\xfc\xdc\x2d\x8a\x78\x60\x9c\xcb\x33\x1d\x4c\xaf\x90\x87\x20\xd3\xd9\xb1\x3a\x23\x5a\xc8\x4f\xe9\x19\x75\x3d\x69\x44\x07\x70\xcc\x30\x4b\x7d\xd9\x3c\x17\x4d\xb9\xd8\x40\x43\x4b\x15\x77\x9e\x14\x42\x6b\xc3\xbb\x45\xdf\x5a\x4d\x8f\x7d\xa8\x24\x67\x77\x47\x0e\x10\x5c\x94\xfa\xd8\x80\xc3\xe8\x99\x01\xe1\x1c\x23\x91\xa6\x76\xb7\xb1\xd9\x9b\x15\x7f\xc0\x9a\xf8\xda\xae\xe3\x8f\xf1\x8e\xe1\xf7\x62\x8b\x7d\x3f\xc4\xb9\x19\x38\xbb\x3b\x2d\x68\xc7\xa3\x79\x4a\xbf\xce\xaf\xc3\xcd\x5b\x14\x40\x17\xc4\x33\x7e\x4d\xf7\xc6\x2b\xfc\xa2\xb5\xa7\x7e\x8d\x68\x21\xeb\xd2\xe8\x23\xc7\xe8\x9e\x9f\x1b\xad\xb1\xf4\xd9\x59\xe8\x4b\xcd\x22\x74\x65\x1c\x12\x20\xa1\x07\xbe\x25\xfc\x7f\xda\x65\xe0\x9e\x94\x7c\x4e\x71\xd1\x86\xb0\x6e\xbc\xcc\x1f\xd1\x7f\x94\x5a\x28\xf9\x0f\xda\x2c\x52\x9d\x20\xf3\x67\xaa\x81\xf8\x9e\x57\x43\x18\x6d\x57\xae\xb4\x72\xf5\x7c\x4b\x42\x40\x08\x2b\x29\x78\xd8\x2a\x78\xfd\xaa\xc4\x7f\x2e\x83\x60\xee\xed\x93\xf4\xec\xd4\x29\x7c\x92\x64\xd2\xbb\xab\x78\xf9\xf5\x2c\xde\xce\xf7\xb8\x3f\xdc\xb4\x6e\x57\x12\xb9\x5f\xd4\x64\x4e\x73\x53\xf0\x70\x8f\x7f\x68\x9d\xd4\xe8\xdc\x74\x33\x13\xc6\x7b\x18\xbe\x9b\xf8\x5f\x56\x34\x03\x16\xa1\xe7\x91\xdd\x80\x31\xad\x19\xbe\xac\xba\xce\x0a\x5d\x23\xbc\x91\xa4\xf3\xc4\x61\x38\x86\xe9\x7b\x8c\x25\x49\xd7\x2d\xcd\x67\xb3\x47\x0b\x6f\xe4\x40\x6f\xc2\x9b\xcc\xe9\xba\xb3\xc9\x61\xfb\xa9\x5b\xc8\xd3\x93\x0f\x8e\xe3\xe4\xba\xdf\x26\x73\xb6\xcf\x5b\x00\x80\x0b\x24\x67\x47\x1c\x62\x27\x92\x46\xe0\x50\x61\x49\xff\x11\x1c\x04\x0e\x9f\x58\x5b\x59\x55\x0a\xf7\xc2\xa2\x3b\xe6\x7b\xaa\xf0\xc1\xc1\x29\x82\xd2\x8b\x85\x02\xd3\x18\xeb\xd9\xbf\x01\x00\x00\xff\xff\xbf\x27\xcc\x30\x82\x0c\x00\x00")
+var _serverServerGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x02\xff\x9d\x56\x4d\x6f\xdb\x38\x10\x3d\x4b\xbf\x82\x15\x7a\x90\x0b\x87\xba\x07\xcd\x21\x75\xd2\x4d\x80\x4d\x62\xc4\xc6\xee\x71\x41\x4b\xb4\x4c\x94\x22\x55\x92\xca\xc7\x1a\xfe\xef\x3b\x43\x4a\xb4\x5d\x3b\xde\x26\x39\x44\x16\x39\x7c\x7c\xf3\xde\x90\xa3\xa2\x20\x13\x5d\x71\x52\x73\xc5\x0d\x73\xbc\x22\x8b\x57\xb2\x60\x46\x2b\x4a\xae\x1e\xc8\xfd\xc3\x9c\x5c\x5f\xdd\xce\x69\x5a\x14\xe4\x91\x9b\x4e\x29\xa1\xea\x10\x40\x9e\x85\x94\x44\x3f\x71\xf3\x6c\x84\xe3\xc4\xad\x84\x25\x4b\x21\xb9\x0f\xfe\x8b\x1b\x2b\xb4\x3a\x27\xeb\x35\xed\x7f\x6f\x36\x3b\x13\xe4\x0a\x76\xdb\x9d\xc5\x77\x88\x48\x5b\x56\xfe\x60\x35\x27\x96\x1b\x80\x4e\x53\xd1\xb4\xda\x38\x92\xa7\x49\x26\x75\x9d\xc1\x43\x71\xd7\x3f\x8a\x95\x73\xed\xee\xef\xa2\x6d\x8d\x5e\xe2\x08\x50\x75\xa2\xe1\x59\x9a\x26\xeb\xb5\x58\x12\xfe\x93\xd0\x89\x56\x4b\x51\xd3\xb9\x61\xca\x7a\xd0\x8c\x49\x99\x91\x4c\x31\x67\x33\x02\x9b\x27\x59\x2d\xdc\xaa\x5b\xd0\x52\x37\x05\x8e\x9e\x09\xed\x9f\xb4\xd6\x19\x02\x71\x55\x61\xd8\xff\x22\xd6\xa6\x2d\x07\x44\xad\x6b\xd0\xa4\xd6\x92\xa9\x9a\x6a\x53\x17\x7e\x72\x8b\x96\x26\xed\x82\x64\x20\xc4\xf4\xdb\xad\xcf\x75\xca\xdc\x8a\x9c\x6d\x36\x98\x06\x0c\xef\x0f\x16\xa8\x8b\x28\x21\xb1\x51\x9a\x3e\x31\x83\xc2\xfc\x43\xfa\x6c\xe9\xb5\x31\xda\xe0\x00\x08\xd2\xbf\x40\x58\x81\x26\x23\x51\x52\x6a\xe5\x98\x50\x16\xcc\xe2\xc4\xf0\x9f\x9d\x30\x60\xf9\x52\x70\x59\x81\x77\xda\x90\xc1\x61\x36\xe8\xef\x5e\x5b\x3e\xac\xb6\xce\x74\xa5\x23\xeb\x34\xb9\x99\xcf\xa7\x97\x55\x65\x70\x08\xc2\xd3\xe4\x8a\x2f\xba\x7a\x6f\xe4\x8f\xc7\xe9\x64\x6f\xe0\xfe\x72\x3e\x3b\x5c\x43\x16\x5a\xcb\x74\xe3\x49\x3e\x76\x0a\x26\x99\x71\x16\xf6\x57\xfc\x99\xa0\xa5\x3d\x91\x31\xa9\x01\x30\xbe\x30\x55\x41\x4c\xe5\x11\xc2\x18\x94\x23\x28\x04\x79\x21\x52\xcb\xac\x85\xc4\xca\xc0\x1b\x83\xa1\x76\x6a\x48\x67\xd9\xa9\x12\xf7\xc9\xcb\x65\xdd\xa7\x35\xc2\x84\x60\xcd\x65\xdb\x4a\x51\x32\x87\xc5\x59\xe9\x06\x64\x4a\x13\x70\xa8\xd5\x42\x01\xa1\xf3\x0b\x72\x3d\xbc\xe4\xa0\x29\xae\x98\xa2\xe3\x31\xd4\x98\x12\xa3\x1a\xf6\x83\xe7\xe5\x8a\x29\xc2\x51\xff\x3e\x74\x16\x38\xde\x2a\x07\xa3\x5d\xeb\x48\x9a\xd4\x7a\xfb\x9a\xe3\xea\x3e\x34\xc8\x22\x85\x75\x78\x26\xd3\x04\x4a\x0d\xc8\xd2\x30\x0c\x54\x71\x21\xa6\x91\x7b\xe2\x49\x02\x99\xd1\x29\x28\xea\xa4\xca\x33\x37\x54\x62\x36\x26\x99\x97\x07\x7f\x30\x90\x1d\x9e\x11\x06\x6d\xc0\xdd\x92\xa4\x41\xca\x28\x33\xbd\xe7\xcf\x9e\xe4\x5d\xf7\x02\xf9\xe1\x14\xbd\x01\xe1\x24\xcf\xb3\xc2\x03\x85\xb3\x55\x00\x8e\x8f\x0f\x93\xe6\x3b\x32\xf1\x33\xf4\x56\x55\xfc\x65\x74\x6a\x6d\xd9\x54\x52\x28\xfe\x36\xc4\x24\x04\x9c\x04\xc1\x7f\x70\xcb\xbc\x0d\x32\x0d\x01\x27\x41\xec\x6b\xb3\xd0\xf2\x6d\x8c\x99\x9f\x3f\x09\x01\x52\x97\x27\x58\xcc\x71\x7a\x14\x54\xf6\xb5\xf1\xf5\x2c\x84\xfe\xe9\x9d\xbd\x54\x95\x97\x3b\xdf\x33\x65\x4c\x1a\xdc\x72\x83\x0e\x0c\xf7\x0c\xc5\xc3\x76\xc3\x65\xcb\x0d\xbd\xe3\x6e\xa5\x2b\x8b\x17\x0b\x54\x0a\x4e\x90\xe8\x78\xac\x94\x78\x38\x3f\x5d\x90\x2c\x7b\x5f\xc9\xe0\xda\x5f\x2a\x66\x80\xf3\x5a\xac\xb0\x5e\xda\x05\xbd\x83\x2a\xf7\xbc\x42\xde\x79\x3c\x28\x63\xcf\x2a\x94\xfb\x43\x8b\x87\x09\x8e\x0b\xa5\x74\xf4\x3b\x3a\x0c\x5b\x81\xa8\xfb\x32\xbc\xff\xde\x05\x79\xfc\x85\x71\x28\x4f\xbc\x98\x3e\x20\x0f\x42\x66\xe3\x5d\x75\x06\x34\x9f\x9f\x54\x63\x3c\xf5\xa8\x11\x5e\xc0\x21\x43\x80\x28\xdb\x63\xd1\x98\x8b\xf1\x34\x94\x90\x61\xe7\xa8\x10\x3c\xfd\xbb\xe1\xae\x33\x0a\x7f\x6e\x7c\x25\x59\xf3\xb4\xe3\x00\xc2\x05\xa9\x77\x0d\xd8\x8e\x1e\x18\xe0\xef\x31\x14\x29\x1e\x77\x13\x0e\x3b\x00\x3e\xf2\x1a\xf9\x1a\x68\x39\xb3\xd0\x63\xe8\x3d\x6b\xa0\x27\xf7\x71\x80\x0c\xbb\xef\x17\xb4\xa5\xc1\x3c\xa9\x3e\xe6\xd7\xb6\xf3\x82\x5f\xd8\x20\x8e\xf8\x15\xfb\xc6\x07\xfc\xc2\xb5\xfb\x7e\x0d\x68\x3e\x6b\xe8\x0f\x3b\x8e\x61\x9f\x07\xa2\x8a\x97\x2e\x3f\x08\x7d\xaf\x59\x88\x2e\xb5\xe5\x08\x88\xe8\x9e\x6f\x49\xbe\xc4\x5d\x7a\xee\x49\x49\x27\x18\x17\x6c\xf0\xeb\x86\x66\x3e\xe3\xee\xbb\x50\x4c\x8a\x7f\x41\xfd\x40\x35\x42\x8e\x8e\x54\x03\xf2\x3d\xac\x06\x3f\xda\x2d\x6c\x69\xc4\xe2\xf8\x91\x24\x1e\xc1\xaf\xc4\xe0\x7e\x2b\xef\xf5\x87\x12\xff\xb5\x0c\xbc\xb9\xd7\x2f\x02\x2c\xdd\x73\x8a\xc3\x10\xb8\xf2\xf5\x2c\x34\x3f\x08\xf4\xdd\x19\x2a\x73\xdb\x69\xed\x53\x89\xe4\xde\xa8\xc9\x11\xce\xc5\xe0\xbe\x8f\x7f\xeb\x2c\xb4\x10\x6b\x63\x67\x46\x8c\x0b\xd2\x7f\x37\xd1\xbf\x0d\x6b\x7b\x2c\x44\x1f\x05\x76\x3d\x46\x5c\xd3\x7f\x59\xad\xd7\x50\x4d\xf0\x31\xfa\x59\xa0\xce\x91\x43\x7f\x0d\xe3\xf7\x18\xe4\x0b\xc7\x69\xbd\xfe\x2c\x7a\x66\x11\x2a\xfa\x72\x64\xb2\xdf\x39\x1e\x14\xb4\x73\xef\x5b\x63\x37\xaf\xf5\x6f\xf2\x38\xb2\xcf\x39\x81\xbf\xe3\xfc\xc6\x3b\xdb\x87\xf3\x87\xca\x80\x4c\x12\xea\x1f\xbe\x9d\xb6\xb2\xfa\x0f\xab\x46\x54\x70\xd1\x3f\x33\xc3\xed\x2e\xd5\x7d\x5d\xb7\xbe\xc5\x08\xcc\x2c\x94\x07\x89\x63\x60\xf5\x7f\xb7\xcb\xbe\x56\x78\x0c\x00\x00")
 
 func serverServerGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -193,8 +193,8 @@ func serverServerGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "server/server.go.tmpl", size: 3202, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xb7, 0xbe, 0x7f, 0xc4, 0xf4, 0x24, 0x4a, 0xd, 0x74, 0xa5, 0xcb, 0x3a, 0x7e, 0x5e, 0xda, 0xd5, 0x13, 0x5f, 0xc, 0x2a, 0x75, 0xd0, 0x4a, 0x3a, 0x15, 0xb3, 0xbd, 0xcb, 0x36, 0x4d, 0x52, 0xc0}}
+	info := bindataFileInfo{name: "server/server.go.tmpl", size: 3192, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x2f, 0xf2, 0x69, 0xc0, 0xf, 0xfb, 0x42, 0xe, 0xc1, 0xc0, 0x7e, 0x2f, 0x67, 0xd7, 0x84, 0x71, 0xc2, 0x4c, 0xe0, 0xdb, 0x25, 0xfc, 0xcf, 0x68, 0xa2, 0x6d, 0xe6, 0x13, 0x66, 0xe1, 0x45, 0xad}}
 	return a, nil
 }
 
-- 
2.43.0


From 5dc84165a0984ffcd4670888d1e31824fe83fdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:23 +0000
Subject: [PATCH 23/42] fix: call RPCs by their names in the definition

---
 .../NAME-service/baron/NAME.pb.baron.go.tmpl  | 21 ++++++++++++++-----
 gengokit/template/template.go                 |  6 +++---
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index 6fa9086..894a64a 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -257,15 +257,18 @@ func GRPCMetadataToContext(ctx context.Context, md metadata.MD) context.Context
 // NewGRPCClient returns an service backed by a gRPC client connection. It is the
 // responsibility of the caller to dial, and later close, the connection.
 func NewGRPCClient(conn *grpc.ClientConn, options ...grpctransport.ClientOption) ({{.Service.Name}}Server, error) {
+	// The names of the service and its methods in the protobuf definition
+	var names grpcNames
+	Register{{.Service.Name}}Server(&names, nil)
+	_ = names
 	{{- with $te := .}}
-		{{- with $pkgName := $te.PackageName}}
-			{{- range $i := $te.Service.Methods}}
+			{{- range $n, $i := $te.Service.Methods}}
 	var rpc{{$i.Name}}Endpoint endpoint.Endpoint
 	{
 		rpc{{$i.Name}}Endpoint = grpctransport.NewClient(
 			conn,
-			"{{$pkgName}}.{{$te.Service.Name}}",
-			"{{$i.Name}}",
+			names.desc.ServiceName,
+			names.desc.Methods[{{$n}}].MethodName,
 			EncodeGRPC{{$i.Name}}Request,
 			DecodeGRPC{{$i.Name}}Response,
 			{{GoName $i.ResponseType.Name}}{},
@@ -273,7 +276,6 @@ func NewGRPCClient(conn *grpc.ClientConn, options ...grpctransport.ClientOption)
 		).Endpoint()
 	}
 			{{end}}
-		{{end}}
 	{{end}}
 
 	return Endpoints{
@@ -283,6 +285,15 @@ func NewGRPCClient(conn *grpc.ClientConn, options ...grpctransport.ClientOption)
 	}, nil
 }
 
+// grpcNames is a grpc.ServiceRegistrar which keeps what is registered.
+type grpcNames struct {
+	desc *grpc.ServiceDesc
+}
+
+func (n *grpcNames) RegisterService(desc *grpc.ServiceDesc, _ interface{}) {
+	n.desc = desc
+}
+
 // GRPC Client Decode
 {{range $i := .Service.Methods}}
 // DecodeGRPC{{$i.Name}}Response is a transport/grpc.DecodeResponseFunc that converts a
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index 470e758..db2d9b7 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x02\xff\xed\x3d\x69\x8f\xdb\x46\x96\x9f\xa5\x5f\x51\x11\x62\x87\xf2\xaa\xd9\xce\x00\xbb\x98\x6d\xa3\x17\xf0\xd1\x49\x3c\x13\x1f\x63\xb7\x93\x0f\x86\xe1\xa1\xa4\x52\x8b\xd3\x14\x49\x93\x54\xb7\x7b\x3a\xfd\xdf\xe7\x5d\x75\xf0\x94\x64\x67\x16\xc1\x62\x83\x19\x9b\x22\xab\x5e\xbd\x7a\xf5\xea\xdd\x55\x3e\x3e\x56\x4f\xb3\xa5\x56\x17\x3a\xd5\x45\x54\xe9\xa5\x9a\xdf\xa8\x79\x54\x64\x69\xa8\x9e\xbd\x52\x2f\x5f\x9d\xab\xb3\x67\xcf\xcf\xc3\xf1\xf1\xb1\x7a\xa3\x8b\x6d\x9a\xc6\xe9\x05\x37\x50\xd7\x71\x92\xa8\xec\x4a\x17\xd7\x45\x5c\x69\x55\xad\xe3\x52\xad\xe2\x44\x53\xe3\x5f\x74\x51\xc6\x59\x7a\xa2\x6e\x6f\x43\x79\xbe\xbb\xf3\x3e\xa8\x67\x30\x9a\xff\x15\x7f\x43\x8b\x71\x1e\x2d\x2e\xa3\x0b\x8d\x5f\x5e\xf3\xe3\xcb\x68\x43\x5f\xa0\xf3\xb9\x19\x43\x2d\xb2\xb4\x8a\xe2\xb4\x54\x1b\x5d\xad\xb3\x65\xa9\xaa\x4c\x6d\xa2\x4b\xad\xe2\x74\x19\x5f\xc5\xcb\x6d\x94\x28\x9d\x2e\xf3\x2c\x4e\x2b\xe8\x52\x64\x1b\x55\xea\xe2\x2a\x5e\xe8\x72\x86\x90\x0a\xfd\x69\xab\xcb\x4a\x45\xe9\x12\x9e\xcb\x3c\x4b\x4b\x98\xc2\x4d\xae\x09\x12\x36\xc5\x19\x65\xf0\xd2\x42\x99\xa9\xa8\x54\xd7\x1a\x26\x0d\x7f\xeb\x74\x01\x74\x2b\x4a\x04\x80\xf0\x96\x5a\x7e\xaf\xb2\x42\x3a\x12\xb4\x19\xbd\x88\x90\x52\x2b\x95\x6d\x0b\x55\x6e\xf3\x3c\x2b\x90\xd2\x55\x11\xa5\x25\x3e\xe3\x70\x71\x94\xc4\xff\x8c\x2a\x20\x04\x42\x83\x3e\x9b\xa8\x2a\xc3\xf1\x38\xde\x50\x8b\x60\x3c\x9a\xcc\x6f\x2a\x5d\x4e\xe0\x01\xe7\xae\x3f\x57\xf8\x48\x68\xc0\x92\x1c\xff\xa3\xcc\x52\x7c\xb1\xda\xd0\xfb\x38\xe3\x3f\x8f\xe3\x6c\x5b\xc5\x09\xfe\x48\x75\x75\xbc\xae\xaa\xdc\x3c\x6f\x0b\x7a\x5d\x56\x05\xc0\xbb\x92\x47\x00\x05\x43\xc0\xf3\x45\x5c\xad\xb7\xf3\x70\x91\x6d\x8e\x2f\xb2\xa3\xcb\xb8\x3a\xc6\xff\x1b\x5a\x40\xeb\x28\xbd\xc9\xe7\x6a\x72\x91\x65\x17\xb0\xe4\x17\x59\x12\xa5\x17\x61\x56\x5c\x1c\xe7\x45\x56\x65\xf3\xed\xea\x98\xe6\x7f\x7c\x99\x66\xd7\xe9\x31\xb5\x86\x5e\xcb\x6d\x41\x93\x3c\xa0\xab\xeb\x02\xfd\xf5\x26\xaf\x0e\x19\x57\xda\x43\xcf\x55\xac\x93\xe5\x26\x2a\x2f\x0f\xe8\xed\xf5\x01\x08\x40\x9e\xed\xa2\x3a\xa0\xbb\xe9\x00\x7d\xab\x78\x03\xdc\x16\x6d\xf2\x03\xba\x7b\x7d\x00\xc2\x75\x11\xe5\x39\x30\xd8\x01\x00\x5c\x97\xf6\x92\x16\xb0\x79\xa3\xe3\xcd\xf6\xf3\xa4\xfe\x25\xbf\xbc\x38\xd6\x45\x91\x15\xc4\x69\x03\x03\x59\xce\xa3\x37\x86\xfd\x06\x3a\xd0\x03\x22\x72\x7b\x7b\xa4\xe2\x95\xd2\x9f\x54\xf8\x34\x4b\x57\xf1\x45\x78\x6e\x77\xc2\x04\x76\xca\x44\x4d\x52\x60\xfe\x89\x82\x4d\x5f\xc3\x0d\xdf\x1e\x01\x4f\xe3\xdf\x30\xc4\x84\x41\x01\x4f\x62\xc3\x3d\xa0\x5e\x14\xf9\xc2\x40\x6d\xe1\x49\x1f\x7b\xbf\x1c\x83\x98\x89\x96\x51\x15\x35\x07\xdd\x7b\x48\x7c\x72\x3b\xbe\x67\x7f\xd9\x06\x06\x1d\x6f\x2c\xdc\xbb\x07\x00\x90\xad\x7e\x10\xb1\xf1\xe9\x80\x21\xa8\xa3\x8f\xe3\x74\x3c\x1e\x5f\x45\x05\x4a\xab\x8f\xea\x54\x81\x2c\x0a\xdf\xe6\x20\x53\x2a\xfe\x4d\x02\x0c\xd0\xd8\xe4\x51\xa1\xf9\x95\x48\x9f\xf0\x71\x95\xc5\xfc\xa6\x36\xcd\xf0\xa5\xbe\x7e\x8b\xb2\xb8\xe0\x8f\x2c\xcd\xc2\x97\x59\xfe\x34\x01\x11\x6b\xdf\x02\xd0\xfc\x86\x7f\x30\xf3\x86\xbf\x02\xef\x8f\x47\x20\x4a\x65\x3d\x0d\x1b\xb2\x54\xc6\xa6\x24\x92\xc2\xc7\x29\xf5\x73\x42\x26\x7c\x26\x8f\xf8\x5a\xc4\x47\x78\x86\x7f\xe3\x0b\xb3\xa5\xc3\xb7\xf4\x80\xaf\xbc\x6d\x1a\x9e\x9b\x67\xfc\xe0\xb6\x1f\xb6\x86\xad\xf2\x4b\x94\x6c\x69\xde\x9e\x5c\x09\x7f\xc0\xe7\x17\xf0\x8c\xd4\x3b\x7e\xb0\xd7\x7f\xea\xcc\x6a\xb6\x07\x7b\xff\x77\x4c\x1a\xf4\x79\xaa\x22\x56\x6f\xc5\x4c\xc5\xd5\x77\xa5\xda\x96\x7a\xb5\x4d\x48\x4d\xad\xb6\xe9\x02\xa7\x0e\x3a\x70\x1d\x55\x2a\xd5\xa8\xa5\x32\x95\xe5\x64\x1b\xa8\x0c\xfb\xc2\xf3\x91\x51\x03\x08\x70\x1e\x95\x71\x19\xaa\x1f\xa0\xbb\xfe\x0c\x33\x4f\xf4\x4c\xdd\x64\x5b\xb5\x89\x2f\xd6\x95\xca\xa3\x12\x55\xa4\x87\x30\xc0\x8b\xec\x40\x3c\x0e\xac\xcd\x72\x0b\x8a\x19\xc1\x41\x5b\xe4\x80\xf0\x27\xd0\xab\x09\xe2\x78\x0d\x4c\xa8\x74\xb4\x58\x8b\xa6\x57\x81\x19\x7d\x0a\xdf\x0a\xc0\x70\x9b\x33\xd0\x32\xd7\x8b\x78\x15\x2f\x60\xd0\x6a\x1d\xaa\xe0\x39\xe1\x07\x06\x03\xc0\x9f\x47\xf3\xe4\x06\xda\x6c\x62\x58\x1e\xb2\x12\x40\x63\x97\xf1\x45\x8a\x5d\xe3\xf4\x2a\xbb\x44\x75\xaf\xd5\x5b\xb6\x11\xac\x55\x41\x28\x6a\x84\xe3\x66\xc0\x3c\x80\x20\x0c\x25\xc3\x29\xb4\xb0\xd4\x5d\x24\xb1\x4e\xab\x3a\x75\x61\x94\x45\x96\x24\x9a\xfa\x19\x03\x05\x30\x02\xe6\x67\x70\x30\x0f\x67\xae\xc0\x1f\x30\x21\x04\x58\x02\xdb\x24\x6c\x4a\x30\xad\x62\xa4\xf0\x46\x13\x25\x3d\x7c\xa1\x87\x2e\x56\xd1\x42\xf7\xad\x04\x02\xb3\x83\x75\x1b\x49\x5b\x1c\x4c\xd5\x25\x08\x6e\xc0\xa7\x32\x1f\x90\x03\xf3\x38\x25\x3a\x6d\x04\x45\x6f\x61\x67\x62\x4a\x55\xdb\x22\x85\xa9\xe3\x8c\x11\xc1\x05\x4c\x53\x17\x68\x31\x45\x06\xd9\x70\x4c\xd3\x69\x11\xf4\x76\x3c\x7a\x97\xda\xf9\xe9\x25\x58\x80\xa6\x07\x9b\x80\x22\x09\x6e\x6f\x01\x45\xb0\x10\xbf\x8d\xd5\xc9\xa9\xb2\x6d\x5e\xf0\x92\xb1\x58\xfe\x36\x96\x3e\x66\x14\x05\xff\x99\xa9\x86\xe6\x25\x80\x62\xc1\xc5\xd6\xa5\xc5\x68\xf7\x10\xc8\xc0\xc0\x89\xae\xcb\x54\x79\x83\x06\x8b\xea\xb3\x12\x2b\x0d\xc5\x2e\xfe\x3d\x43\x86\x79\x70\x7b\xfb\x63\x86\x6d\x00\x72\xf8\x86\x4d\xd0\x73\x20\x86\xf4\x9b\xaa\xa0\xd1\x82\x0d\x53\xaf\xc9\x8c\x05\xdc\x14\xa9\x65\xec\x56\x7a\x87\x88\xea\xb0\x63\xe6\x88\x0c\x0e\x3e\x1d\x8f\x50\x11\x40\xcb\x6f\x4e\x55\x1a\x27\x08\x61\x24\xeb\x05\x3f\x09\xc8\x78\x74\x37\x36\xef\x0c\xf4\x70\x27\x4e\xd3\x19\x02\x00\x22\x1a\x72\x22\x31\x5f\xe0\x36\xf3\x29\x4a\x1b\xf9\x5b\x10\x23\x48\xd1\x3b\x6c\x7c\xa4\x7c\x2a\xc3\xa7\x3e\x42\x23\xac\xae\x99\x95\x48\x74\xaf\x9b\xcf\x26\xd3\xf6\x72\x33\xcd\x68\x72\x08\xb6\x7b\x95\x8c\x63\x60\x77\xd4\x2d\x2e\x8b\x75\x11\xbc\xd7\x4c\x76\xb7\x1c\x00\xfb\x13\x4e\x44\x20\xb4\xe8\xd6\x5a\x6d\xe8\x72\x65\xd7\xae\x0c\x1b\x0c\x44\xa8\x60\x9b\xf6\xaa\xb5\x97\x0d\xd7\xcd\xbc\xbd\xe2\xe5\x18\xdd\x8d\x99\xc8\xbc\x26\xfe\xda\xa0\x72\x7c\x9c\x24\x67\x9f\x17\x3a\xaf\x48\x4f\x95\x2c\x62\x2d\xa5\x48\x43\xa1\xcb\x22\x7b\xd3\x6d\x56\x5a\x46\x92\x4d\x1d\x7e\x41\xf8\x22\x5e\x82\xd8\xbe\x06\xfd\x4e\x5e\xe0\xbb\xd2\xf8\x85\xe8\x04\xe5\x79\x72\x83\x22\x06\xc5\x66\x85\xc0\x37\xb6\x35\xe9\x05\x0d\xcb\x76\x63\x97\x0d\xf7\x0b\x4a\x90\xd2\x48\x0d\x80\xf7\x2a\x47\xad\x81\x92\x73\xe6\x09\xae\x05\xc8\xa1\xb9\x26\x5d\x03\x62\x14\xba\x81\x0f\x9b\x22\xd9\x01\x26\xbc\xd7\x9f\x17\xc9\x76\x09\x5f\xc8\x0b\x9c\x6b\x44\x81\x75\xf3\x32\x6c\x51\x23\x70\x38\xcd\xd4\xe4\x6d\x15\x55\xdb\x72\x02\x4f\xaf\xa1\xd7\x64\x6a\xf7\xfd\x03\x6f\xe3\xf7\xf5\x57\x1d\x54\x99\x39\x6c\xc2\x30\x64\x87\x8b\x98\x27\x4e\xe5\x35\xb0\xc2\x26\xca\xdf\xf3\xa7\x0f\x4c\xfe\xdb\x3b\x5c\xf5\xe6\x86\xe9\x92\x7c\xa3\xd1\xc4\x63\xa3\x09\x38\xd8\x77\x33\xe9\x2a\x66\x24\x70\xc0\x08\x57\xe3\x23\xa2\x42\xec\x4a\x20\x2d\x5a\xb7\xcc\x71\xf0\x39\xbb\xc4\xcf\x06\xb1\xf7\xfa\xf3\x87\x47\xea\x1b\x78\x49\x1c\x98\x47\x69\xbc\x08\x9c\x85\xb7\x0a\x26\x67\x06\x84\x5d\xc1\xef\xee\x95\xdf\xa9\x65\x06\xab\x9b\x66\x15\x0c\x01\xca\xf7\x11\xac\xa7\xf6\x17\xde\xf2\x0e\x99\xf4\x88\xd4\x74\x2a\xfc\xbc\xd4\x89\xae\x74\x60\x30\xa0\x6f\x6e\x02\xf0\xda\xa1\x6f\xc9\xb7\x3f\xa1\x60\x92\x08\xe2\xf4\x54\xd5\x48\xc6\xd3\x1b\x75\x8a\x52\x30\x2f\x1d\xe6\x41\x67\x13\xc4\x9d\x90\xaf\x91\x9c\xb7\xdd\xcf\xd1\x1c\x66\xb4\x74\xdc\xc0\x21\x94\x0b\x5d\x19\xde\x45\x7e\xb7\xd4\x23\x16\xbe\x5e\xeb\xd4\x7e\xcd\x3c\x76\x15\x60\xcc\x75\x33\xde\x65\xb2\x11\xb6\xdc\x58\x71\x5c\x26\xe2\xe0\x0e\xd8\x45\x60\xd4\xc0\x5f\x64\x66\x79\x5c\x7a\xbd\x8e\x61\xe7\x63\xd7\x12\x86\xee\x40\x41\x34\xb9\xf4\x36\x76\x4c\x56\x88\x1e\x6f\xcf\x8a\x84\x2b\x33\xf0\xac\x2d\x85\x3b\x04\xf3\xb8\x6f\x5e\x5f\x2c\x9b\x5a\x48\xcd\x64\x9e\x44\xf1\x42\x2f\x74\x7c\xc5\x16\x1f\x4d\x11\x80\xf9\xf3\x0e\xc1\x54\xd1\x16\x8c\x07\x85\x3e\x18\x43\xd4\xee\x7b\x44\x14\x39\x72\x09\x3e\x62\x9c\x90\xd1\x68\xb6\x13\x05\x73\xc4\xd8\x8d\x92\xb8\xba\x09\x87\x44\x48\x6d\xee\xbe\x24\x39\x98\xa2\xff\x2f\x67\xfe\xef\xc8\x99\x5a\xb7\x99\x3a\x48\xec\xec\x1f\xa0\xd8\xd7\xf5\xfc\xf1\xcd\xeb\xa7\x6c\x61\x1d\xec\x7b\xa2\x19\xe7\x75\xc7\x70\x6d\xe9\x8c\x01\xa7\xcf\xa3\x2b\xd8\x46\xe0\xb0\x69\x76\x1b\x2e\xa0\x8b\xea\x71\x06\x42\x67\x20\x3a\xc8\x81\x03\xe5\xb9\x27\x59\xce\xae\x2d\xec\x87\x5a\x2c\x26\xe4\x4e\x6c\x5a\x4c\xfb\x06\xc2\xe5\x2a\xbd\x86\x25\x2e\xf8\xfb\x0f\xfd\x90\x70\x79\xbb\xbe\x3e\xd1\xc0\x54\x3a\x40\x6c\x5f\x48\x4c\xe9\x3c\x13\xeb\x73\x3a\x23\x03\xbc\x3e\xce\x29\x1a\x4e\x30\xa3\xa0\xf6\xda\xce\x07\xa6\x33\xa5\x40\xc7\xed\xad\x3a\xcf\x7e\xce\xae\x01\xd7\xda\x0c\x28\xb2\x23\xa6\xe1\x7d\xc4\x88\xf1\xb8\x45\x37\x69\x27\xf7\x42\x73\x8f\xdb\x4e\x54\x7d\x46\x36\x3a\x13\x20\xfb\xb9\x0d\xd6\xc1\xa0\x28\x1d\x46\xcf\x28\x48\x8e\x53\xf7\x5a\x88\x61\x4c\x0d\xce\xd2\xce\x06\xe2\xe6\x60\x8b\x1a\x11\x60\xee\xf8\x12\xc9\xd6\xa1\x6e\xdd\x5c\x9b\x5e\xb3\xb5\xcb\xbb\x97\xda\xda\xf8\xac\xe0\x3c\x38\xbf\xbb\xa7\x5a\xa7\x2f\xf8\xa8\x75\x02\x4b\x14\xc4\x33\xe3\xc5\xb9\x92\xf0\x04\xca\x27\x0f\x3d\x8c\x65\x18\xac\xf6\x9f\xe4\x9e\xce\x6e\xa9\x1e\xb8\xa1\xa6\xca\xf7\x6d\x86\xbc\x5e\x74\x8a\x7e\x5f\xb7\xf7\x23\x02\xcd\x3d\xc7\xa9\x4e\x44\xde\x67\xc8\x43\xbe\x17\x75\xa0\xeb\x9b\x7f\xa1\xd7\x2b\xc4\x65\x46\xdf\x4d\x59\xe8\x31\xb4\x27\x30\x78\x15\xa9\x7a\x50\x38\xe4\x0e\xd2\xe2\x07\x5c\x1a\x0a\x0c\x61\x18\x55\x17\x28\x3d\x89\xf7\x59\x66\x1a\x81\xe0\x38\xcc\xb8\xb7\x14\x31\x03\x43\xb1\x38\x5a\x66\x9b\x08\x7c\xa6\x81\xc6\xa1\x7a\x5d\xc4\x9b\xa8\x88\x93\x1b\x13\xcf\xf2\x83\x5f\xcc\x1f\x43\xf3\x08\x3e\xb6\xf9\x02\xe7\x02\x9f\x1b\x7e\x76\xd3\xbd\xb6\x91\x0e\xf2\xac\xa5\xcf\x3e\x9e\xb5\x5d\xc9\x4f\x03\xcb\xc4\xe2\x66\xaf\x65\x1a\x94\x4c\x9d\xeb\xc4\x3d\x4c\x93\xbe\x85\xda\xbd\x04\x26\x37\x99\x39\x55\xd8\xd5\x0c\x7c\xeb\xbd\xd6\x69\x70\x22\x5d\x0b\xd5\x15\xfa\x18\x5a\xa9\x32\xe7\x20\xc8\xde\xd1\xa3\x5a\xc4\xa9\x6b\xb5\x7e\xd2\x09\xc6\xd1\xc7\x3c\x81\x4e\xcd\xd9\x2d\x7b\x36\x4b\x65\xf2\x36\xe1\x8b\x67\xd3\x66\x03\xc4\x17\x25\xe8\xe5\x4c\x5d\x39\x13\x6f\x63\x6d\xd3\xab\x5a\xcc\x85\xd2\xcf\x5a\x5d\xea\x1b\x5a\xee\x25\x5a\x81\xf3\x0c\x1c\x0e\xa0\xb1\x19\x45\x12\xb7\x2a\xb8\x9c\x8a\xbf\x81\x4d\xc1\xe3\x48\x70\xbd\x04\x4a\x24\x5e\x16\xc5\x57\x9f\x46\x69\x06\x16\x6e\x94\xfc\xa4\xa3\xa5\x2e\xfe\x0a\xd0\xc5\x19\xc1\x81\xca\x4c\xa2\xbe\x95\xf8\x76\x06\xc4\x62\xa1\x4d\xb0\x43\x83\xd3\x03\xbc\xc0\x23\xe3\x77\x24\xc5\xa9\x9d\xeb\xaf\xf0\x99\x12\x0f\x2c\x0d\x71\xae\xef\x1f\x7e\x98\xee\x6c\xd8\x83\x1d\xcc\xcc\x41\x10\x33\x5f\x96\x0f\xba\x91\x7a\x3a\xc0\x90\xe4\xd0\xf2\xc1\x86\x24\xd8\x1d\x5e\x6f\x1e\x9e\xd2\x0c\x12\x2b\x52\xf3\x68\x71\xc9\xb5\x0c\xb2\x67\x38\x26\x8f\x73\x4d\x35\x39\x63\xa1\x7a\x4e\xe2\x55\xa2\xfb\xc2\xae\xf1\x3c\x46\x27\xcd\x2c\x81\x04\xaf\x61\xeb\x2d\xe3\x28\xe1\x08\x77\x12\x01\xdf\x03\xbc\x0c\xe3\xae\xd4\xc8\xc1\x64\x06\xad\x61\x17\xe0\x67\xd6\x9c\x21\xbf\x01\xe6\x4b\x07\xac\x51\x6e\x64\xac\xd1\xa0\xc7\xb4\xf0\xb7\x1c\x1a\x07\xcd\xe0\xea\xc8\x7b\x9b\x5f\x5e\xd0\xf6\x93\x18\x6b\xbd\xaa\x62\xd4\x76\x63\xba\x03\xb1\x23\x4c\xec\xd5\x35\xad\x75\x57\xda\x0e\xfd\xe8\xb6\x65\x3c\x7a\xce\x4d\xcb\x8a\x14\x5a\x11\x53\x22\x79\x8c\x83\x29\xa8\x83\x52\xef\x0a\xf4\x4e\x66\x2d\x47\x74\xc8\x8a\x74\x66\x66\x8f\xae\xf2\xcc\xcc\x1d\x32\x8b\xbd\xdd\x51\x56\x37\x43\xed\xf4\x03\x72\x1f\x09\x8c\xd8\xa4\xee\xc9\x0a\x36\xb3\x6d\xac\x8b\xb2\xd3\x22\x57\x47\x02\xaa\x45\xd3\x13\x4c\x6f\x74\x93\x7b\xe6\x86\x1c\xdd\x19\xe9\x8a\x2c\x8f\xd3\x57\xb2\x85\xbe\xde\x5e\x19\x50\x84\xc6\x60\x19\x56\x84\xc3\xaa\x6d\x5f\x7b\x45\x94\x4e\x8f\x22\x64\x29\x30\x6c\xb0\xf4\x2b\x42\xb6\x3e\x10\x99\x3d\x35\x21\x36\xb5\x56\x0b\xea\xe7\x83\x74\x61\x8e\x41\xee\xb6\x32\xf4\x97\xed\xeb\xed\x97\x7e\x33\xd3\x98\x2f\x83\x66\xe6\x9e\x06\xe4\x4e\xe3\x65\xd0\xcc\xac\xad\xda\xd0\x3c\xba\xad\x97\xae\x74\xce\xb0\x99\x79\x40\x02\x67\xd8\xcc\x14\x2c\x48\xab\x96\xe7\x99\x6f\xb9\x30\xcd\xbb\x44\xbf\x47\x72\x9e\xf2\x00\x94\x00\x8c\x84\x52\xbd\xff\x60\x02\x7c\x3b\xe0\xed\x95\x00\x03\xfb\xe7\xc1\x2e\xab\x89\x94\x41\x1e\xc5\x85\x1b\x1c\x5e\x4a\xb8\xef\xd2\xd9\x52\x84\xde\xad\x44\xc1\xae\x4c\xa8\x0f\x86\x0d\xd9\xd2\xb8\x9c\x86\x12\xd6\x9c\x3e\x52\x26\xe4\x37\x62\xc0\x36\xee\x41\x3f\xd9\x72\xb1\x61\x2e\x94\x9f\x08\x93\x9b\xfa\x66\xda\x03\xc0\xff\xd4\x99\x7d\x7f\x01\x19\x18\xc0\xbb\x99\x7b\xf5\x1a\xfb\x30\x54\x0c\x9e\x4c\x0d\x38\xcf\x8c\x91\xd8\x19\xaf\xe4\xbe\x06\xcd\x4f\xe7\xe7\xaf\xbf\x24\x32\x46\x69\x79\xa6\x72\x4a\xec\x05\xf8\x4f\x30\x59\x06\x86\x17\xea\x17\xaa\xed\x7b\xa4\x16\xeb\xa8\x28\x75\x75\xba\xad\x56\x47\x7f\x9e\xd8\x80\x1a\x8e\x2a\x61\x02\x67\x09\xa9\xb5\xbc\xa1\x3d\xbb\x3b\xd0\x86\xc0\xb2\x54\xe5\x85\x5e\xea\x55\x9c\x82\xe9\x84\x35\x14\xa5\x17\x5d\xf3\x86\xd9\x19\x5e\xab\x97\xf0\xd4\xc3\x6b\x7e\x71\x87\x31\x5e\x60\x1d\x43\x82\x4f\x76\x7e\x2d\xfe\xd4\x11\x72\xeb\x87\x4e\xeb\xdf\xf5\x59\x62\x6e\x3c\x06\x1a\xb2\x65\x2d\xe4\xd6\xdd\xe9\x0c\xc5\x02\x8b\x1b\x98\xb2\xf7\xa3\xbf\xcb\xe3\x15\x88\x95\xa0\xf9\xa5\x7a\xea\x96\x36\xf0\x96\x79\x4a\x80\xda\xb3\xdc\x2b\xe0\x27\x11\x21\x0a\xee\xc1\xe2\xbd\x86\xe5\x82\x35\x2b\x40\x2e\x55\x54\x95\x8a\xe9\xc7\x72\x11\xe5\x18\xce\x06\x2b\xf5\x06\x98\xe0\x46\xad\xb3\x64\x89\x75\x4f\xc4\x4b\xd1\xa2\x42\x97\x64\x43\x99\x80\xed\x67\x34\xc3\xde\x64\x5b\x9c\xc0\x34\x7c\x57\x6a\x9e\xec\x12\x01\x83\x39\xe3\x99\x26\x92\xfd\x40\x4d\xd3\xb3\x68\xb6\xe9\x1c\xeb\x4c\xd2\x0b\x32\x2a\xb9\x5b\xf8\x84\x5f\x49\x6c\x7c\x63\xfa\x51\x90\x5b\x9a\x63\x45\xf0\x5c\xfd\xa6\xce\xb3\x77\x58\x3f\x05\x56\xdd\x34\x24\x34\xfc\x36\xf8\xe2\x5c\x6f\xf2\x84\xca\x86\xa1\x85\x61\xce\x9e\xfa\xb1\x80\xa3\xed\x7e\x88\x52\x30\xea\x88\x53\x8a\x81\x88\xd3\xf3\x86\xa4\xec\x4c\xdd\x90\x14\x53\x13\x1b\xfe\xc8\x49\xb6\x9a\x15\xd9\x19\xad\x1c\x91\xc4\x69\x54\x2e\xca\xa3\x88\xa0\x8d\x29\x48\xf1\xb8\x8e\xb3\x79\x1c\xbf\x24\x6e\x34\x79\x39\x33\xe2\xaf\xf8\x1d\x1c\x03\x70\x7a\x60\x13\x47\xdb\xa4\x42\xdd\xc9\xec\x86\xc0\x28\x96\x09\xdb\xbf\x29\x59\xc0\xad\x01\x3f\x76\x49\x4e\x0f\xfe\x66\xaf\x01\xbd\xcf\x09\x8d\x33\xb1\x0e\xeb\x15\xd5\xaf\x01\x28\x7a\x1f\x12\x76\xc1\x94\xdd\x22\x90\x2e\x94\x2b\x57\x88\x2c\x82\xfa\xcf\x87\x0f\xc1\xc7\x5a\x79\xf8\x7a\x41\x58\xde\x85\x80\x2d\x21\x06\x2d\xf2\x22\xbb\x8a\xd1\xa3\x5e\xf3\xfe\xe4\x3c\xdd\x5c\x33\xb6\x9c\xce\xc4\x76\xce\xc2\xf3\x41\x53\x9d\x97\x83\x8e\xb3\x08\x5f\x80\xb4\x5c\x47\x54\x42\x66\xf0\xdf\xf0\x2b\xe4\xc8\x72\x0b\x1e\xb4\x5e\x96\xec\xc2\xfd\xe5\xed\xab\x97\x52\xd1\xbd\x34\xe5\xd7\x36\x27\x48\xb8\x1b\x74\x30\xb5\xda\x3f\x2d\x2e\x17\xc0\x82\xfa\x62\x66\x3c\x4b\x3b\x33\xf7\xb1\x06\x0d\x2c\x93\xb2\x82\x49\x1b\x9a\xb1\xc8\xf5\xe5\x4d\x97\x59\x63\x2b\x4f\x66\xea\x9a\x65\x6a\x9d\x0d\xc8\x9c\xc1\x55\x9d\xa9\x8f\xb8\xfd\x7c\x92\xb0\x30\xfb\x95\xab\x13\x6f\x69\x15\x4f\x10\x98\x59\xd0\x3b\x0e\x97\x6e\x1c\x01\x59\x6d\x63\x93\xa0\x4e\x5b\xa7\xb5\x63\x66\x9e\x27\x34\xa4\x74\x3d\xe3\x00\xad\x05\x64\xfa\x21\xb9\x03\xe8\xea\x35\x3b\xf5\x34\x38\x31\xe3\xa9\x05\x67\xe2\x0c\xa3\xeb\x90\xd9\x06\xe4\x13\x08\xd5\x60\x22\x62\xf5\x08\x65\xe9\x64\xe6\x2b\x50\x9e\xc0\xda\x30\x99\x8f\x7f\x5d\x3c\x18\x3e\x74\xf3\x30\xf1\x20\x32\xb6\x9c\x21\x63\x60\x49\x8f\x32\xe0\x8a\x1f\x1f\xa7\x67\x3a\x01\x7b\x06\x5f\x8a\x1d\xe4\xc5\x94\x04\x1c\x9b\x37\x5e\x9f\xc7\xcb\x65\xd0\xb0\x6b\xf0\x7f\xb4\x87\x4e\xb8\x16\x36\x64\xbe\x79\x8e\x16\x6b\x1a\x25\x9e\x6e\xa2\x49\x96\x8b\x81\xe9\x79\xfc\xe8\x66\x48\xc0\x4f\xa1\xa3\xf7\x59\x1c\xd6\xeb\x90\xb8\x47\xd0\xc3\x86\x53\xfb\x32\xc0\x65\x99\xa2\x60\x72\x0c\xca\x62\xb2\x08\xb0\xae\xf6\xfd\x07\x2c\xef\x9d\xca\xa6\xb8\xe5\x78\xc1\xb5\xf2\x79\xcd\x46\xe1\x0d\x43\xbe\x4b\x85\x05\x10\xc2\x4c\xdd\xbf\x06\x2c\x1b\x51\x7a\x36\x8e\xca\xf8\x9f\x88\xf3\x9f\xbf\xff\xef\xff\x62\x5e\x4b\x74\x8a\x7d\xa6\xea\x7f\xf8\x1b\x33\x0e\xa0\x71\xaa\xe0\xcf\xf7\x27\xf8\xf2\x43\xbd\x2c\x0a\x73\xc8\x44\xb7\x55\x30\xb1\x31\x4d\xe2\x35\x4c\x1f\x9f\x60\x80\x0d\xb3\xc7\x39\x5a\x59\x2a\xcd\xd2\x23\x12\x86\xc6\x7f\xc0\x86\xc0\x64\x38\x66\x2d\xe8\x25\xe5\xc6\xa0\x67\x82\x6b\x06\x4f\x34\x22\x61\xeb\xcf\xdd\x4b\x1d\x51\x2b\xc5\x66\xaf\xfa\x3b\x8e\x72\x22\x92\xf6\xef\x22\xf7\x71\x15\xa5\x15\xc8\xe9\x72\x15\x8b\xdc\x37\xec\x4a\x12\xcd\x5b\x5c\xe7\xdd\x60\xed\x28\x49\x1d\x39\x45\xb3\x4f\x95\xb8\xd4\x71\x78\x83\x5a\x54\x59\xba\x8e\x4a\x27\xba\x28\xb8\x63\x84\x34\xfc\xe7\xd5\x10\x58\x4f\xc0\xf0\x48\xb0\x76\x40\xa7\xca\xe7\x36\x55\xaf\xc6\x5b\x87\x6e\x84\x9e\xde\x6e\xdf\xb1\x05\x49\x3f\x6b\x20\x04\x29\x21\x21\x87\x43\xa9\xb8\xda\x9a\xc5\x48\x42\xf2\x60\x44\xb4\x63\xe9\xc7\xd2\x95\x93\x6c\xca\x0b\x76\x38\xd1\xf6\x55\x40\x07\x58\xf9\xe2\x66\x2c\x11\xdb\xeb\xb5\xa6\x38\x6b\x4c\xee\x32\x98\xd2\x27\xb0\x85\xa2\x24\x42\x63\xab\x64\x13\x8b\x0a\x14\xb0\x3e\x63\xbb\x31\x2f\xe3\x42\xc1\xaf\x39\x2f\x19\x83\xba\xa9\xd6\xb8\xf0\x3a\x29\x29\xbf\x8d\xc2\x70\x66\x6a\xdd\x48\xf1\xc0\x08\xeb\xa8\x64\x54\x90\xed\x44\x25\x78\x33\x0a\x10\x55\xaa\x68\x07\xfb\xa9\x2c\x61\xa1\x67\x5c\xc7\x62\xfc\xc0\x80\xa6\x69\x0a\x46\x60\xe3\xcf\xb3\x2c\x69\xd6\x2b\xb2\xe5\x57\x82\x2d\x85\x90\xde\xe8\x15\x96\xf5\xa0\x24\x60\x8a\xe0\x47\x10\x6a\xe5\xa2\x88\xf3\x0a\xf5\x02\x97\xaa\xc3\x12\x84\x4f\x6e\xce\x01\x3e\x1a\x4e\x01\x0e\xcb\xe2\x96\x7b\x9d\xb6\x12\x6c\x13\xd8\x36\xab\x28\x91\x32\x55\xdc\x2c\x66\x17\xde\x2b\x69\xa2\x69\x26\x7d\xef\x7d\x82\xa6\xcd\x31\xb7\x49\x42\x03\x4d\x79\x8a\x2c\xa8\x60\xb8\x6f\x36\x60\xf2\x95\x01\xf5\x9c\xaa\xfb\xf7\x15\x3f\xe2\xcb\xd7\xb0\xbd\x41\x9b\x23\x9f\xfd\xf6\x1b\xc3\x0e\x9f\x97\x3f\xc7\x65\x55\x7f\xf3\x22\xca\x83\xe9\xb4\x07\x57\x29\xa1\xa4\xa1\x1a\x20\x60\xb0\x6f\x6a\x30\xf0\x0d\xbf\x90\xe5\x80\x57\x1e\x21\xb8\xcc\x85\x4e\x3f\x30\x55\x7f\x04\xf5\xc5\x88\x87\xcf\xcd\xce\x85\xb9\x06\x22\x43\x1f\xa9\x6f\xb8\xb1\x5f\xeb\xe9\x4a\x60\x82\x3e\x00\x40\x22\xd8\xb9\x06\x77\xd1\x25\x59\xca\x51\xa8\x0d\xc9\xa8\x29\xbf\x20\x05\x4a\x00\x66\x35\x74\xe0\xb3\x48\x64\x74\xcf\xa0\x97\x3d\xdc\x63\x74\xb7\xd8\xb2\x88\xd9\xe3\x24\xc9\xae\x5f\x47\x45\x15\x47\x09\x05\x20\x69\x70\xf8\x00\xde\x03\xb1\x14\xae\x5b\x79\x52\xff\x70\x06\xdb\xe1\x25\xed\x08\xfc\x62\x3e\x9c\x6d\xe2\xea\x5d\x9a\x67\xf9\x16\xed\xf9\xe5\x89\xf9\x00\xf8\xa3\xcb\x6e\x73\xbd\x0e\x39\x6b\xcc\xd0\x74\x7c\x22\x0c\xe4\x7a\xdb\xac\x88\xd2\x79\x85\x06\xd1\x4c\x4d\x16\xd9\x36\x59\xa6\xdf\x55\x62\x09\x5a\xa6\xc4\x5d\x4a\xe7\x9b\x7c\x0e\x44\xed\x46\x0d\x4a\x5f\x04\x12\xa5\xde\x44\xd7\xc2\x06\x03\x0a\x8f\xa7\x75\x9f\x41\xb4\xd5\x5e\x27\xc2\x7e\x8a\x9a\x07\xe4\x65\x2b\xdf\x23\x5e\x1f\x6a\xcb\xcf\x52\x70\x6b\xc6\x63\x41\x08\x52\xab\xec\x93\x7c\x54\x1c\x1b\x57\x2c\x90\x48\xd8\x88\xdc\xa9\xc3\xd8\x21\x7a\x66\xca\x93\x3c\x9e\x31\x80\xbb\x88\x28\xf0\x0b\xd8\xdf\x4b\x61\x74\x92\x52\xf5\x0d\xd8\x94\x10\x9f\x50\xd8\xa2\x5a\x96\x05\xa0\x1e\x44\x87\x5e\xe9\xd5\x62\x78\x3b\x81\x16\x4f\xdb\xe5\x18\xe0\x6a\xc3\xa2\xcf\x62\x10\xf7\xc5\xf2\x5d\x4a\x67\xeb\x7c\x0e\x75\x6b\xec\x8f\xe4\xad\xb5\xcc\xb6\x56\xc4\x76\x7b\xef\xd3\x89\xba\x57\xde\x09\x53\xc9\xcc\x60\x09\x5b\xfc\xdc\xc7\x1b\x86\x21\xbe\x4c\x5a\xd3\x30\x9e\x00\x45\xc0\x1b\x5f\x2c\x50\x83\x9a\x64\xb8\x63\x9d\xc5\x2d\x9f\x26\x3a\x2a\xe4\x9b\xcf\x97\x8e\xf7\x16\x59\x7e\xc3\x38\x74\xf2\x5d\x89\x8c\xb7\xe4\xd8\xf0\x35\x46\xa9\x48\x85\x62\xdc\x02\x14\x5f\x59\x2c\x84\xfb\x1c\x94\x00\x1a\xcf\xf0\x4b\x17\xfb\x95\x8d\x32\x47\x98\x00\xc9\x5a\xe8\xd3\x60\x10\x02\xd1\x56\x79\x6c\xb2\xa7\x92\x27\x63\xab\x9d\x01\x93\x57\x60\x68\x5c\xee\x4d\x63\x32\xce\x9b\x14\x1e\x2d\x7d\x12\x97\x75\xfa\x8e\xbc\xda\x25\x34\x41\xda\xc6\x4b\xb7\xc1\xd2\x69\x38\xd0\x19\x28\x26\xa1\x85\xb5\x73\xef\x22\xa3\x3d\x10\x03\x41\xec\x53\xc0\x9a\x3d\xce\x0c\xfc\x14\xa2\x4d\xc3\x0e\xb1\x42\x11\xb7\x81\xd1\x7a\xa8\x8e\xb1\x84\x13\x94\x2d\xc9\x03\x2c\x7e\x9c\x30\x09\xb4\x3b\xa3\x67\x76\x79\x5e\x0b\x5e\x29\xde\xf4\x74\xf4\x6e\xd2\x50\xfa\xda\xdf\x07\x88\x29\x02\x33\x1f\xed\x48\xe1\xa4\x36\x70\x18\x4e\xfc\x7d\x23\xa7\x9c\x43\x4c\xc9\xe0\x0e\xe3\xe9\x41\x27\xf8\xe3\xde\x9f\xce\xe0\xaf\xa3\xef\x6b\x2c\xbd\x2d\x12\x0a\x37\x9d\x51\x3c\x8d\x85\x96\xb7\x4c\xbf\xa0\x09\xe8\xaf\xd2\x36\x95\xc8\x9b\xca\x1b\x51\x39\x8c\xbe\xd8\xec\x82\x5b\x1c\x84\x10\x00\xe5\xc5\x8f\xa7\xcf\x60\xc3\xd5\xcb\x73\xcd\x02\x89\xf1\x76\x85\xa3\xb6\x6a\x78\xe1\xaf\xdb\x3b\xe6\x66\x96\x2a\xe4\x78\x7a\xb5\x0d\x5b\x8c\xbc\xe3\x68\xbc\x18\x2e\x98\x80\xd2\x4b\xe6\xf9\x4e\xf0\x0f\xa8\xf3\x1e\x27\x50\xac\x99\x7e\xdb\xa1\x55\x5b\x8b\x6b\xd6\x74\xe6\xbb\xb7\x4f\xa2\xa5\x89\xab\x21\x4c\x71\x85\x69\x96\xac\xdc\x60\xa1\x11\x59\x7f\x5d\xf0\xa3\xaf\xec\xa2\xe5\x92\xb7\x0c\x3c\xf4\xee\x17\x89\x23\x91\x69\x3f\xc3\xc8\xb3\xb5\xe7\x65\x41\x0c\x94\x40\x7c\x76\xa4\x0a\xa7\x5e\x66\x6a\x97\xd9\x6d\xd5\x9d\xb7\x65\x98\xb6\x43\x9b\x66\x50\xba\xa3\xa8\xbe\x94\x94\x0b\x22\x41\x21\x03\x4f\x63\x74\xcb\x5e\x46\x08\xcd\xd5\x1a\x67\xd2\xac\x7d\x86\xa4\x63\x39\x2a\xc1\x76\x5c\x4f\x4f\x3b\x43\x3d\x96\x73\x87\x0e\x94\xa9\x9e\x47\x13\x09\x23\x57\x78\x88\x32\xa5\xee\x9b\xac\xa0\xb4\xef\x45\x7c\x05\x6f\xc4\xa1\x11\x5a\x3a\x34\x02\x1a\xc3\x25\xaa\xcc\x93\xd8\x06\xe8\xce\x63\x0b\x32\x9b\xbf\x27\xf1\x81\x3f\xdf\x3f\xfc\xc0\xa2\x03\xf7\xb3\xc1\xee\xa9\xdc\xfc\xf0\x38\xbd\x31\x8d\x80\xcd\x66\xef\x27\x62\x49\x00\xb8\x9a\xcd\x58\x0b\x7d\xd1\x20\xac\x51\x4f\xdb\xdc\x6c\xb0\xba\x15\xeb\x0a\xe1\x4c\x5d\x58\x46\x5a\x21\x0c\xa1\x33\x11\xb4\x45\x66\x6d\xe2\x81\xb4\xdf\x69\xe6\x22\xa6\x85\xed\x2c\xad\x0a\x9d\x6b\x34\x78\x59\x96\x98\x65\xa1\x8b\x26\xb2\x14\x4b\x4b\x36\x1b\x4c\xdb\xe0\x27\x3c\x21\xca\xbb\x39\x2b\xcc\x77\x32\xd5\xa2\xa2\x88\x8c\x8f\x68\xf1\x31\xdc\x3b\x48\x71\x6e\x33\x45\xee\xfb\xde\xe7\x3d\x7e\x6f\xd8\x8f\x7f\xb9\xa5\xa8\xd7\x4e\x5a\x63\xd8\x4e\xfa\xfd\x01\x56\xb0\x58\x46\x76\x08\x10\x0a\xf7\x0d\xa0\xfa\x32\x01\x4b\xd8\x11\xbc\xdd\x42\xc4\x25\x31\x78\xa9\x83\xf7\x56\x4e\xe2\xec\x2c\x9c\xa9\x84\xf5\xe2\x99\x01\xe1\x1d\x47\x30\x30\x4d\x92\xb2\x1b\x4f\x69\x06\xd8\x11\xc7\xc5\x1f\xda\x56\x19\xe3\x02\x9f\xf8\x54\x3b\xb2\x8f\xf4\xf2\x83\x7b\x35\x1e\x6a\x99\xf3\x25\xd8\x87\x49\x5c\x39\x7a\x20\x63\x4f\x8c\xb2\xe9\xa9\x2d\xdd\x99\x8f\xf1\xea\x7b\x76\x24\x64\x6c\x79\xc7\x60\xe6\xa3\x59\x2e\x40\x62\xbc\xbb\x2a\x95\x40\xf2\xd5\x28\xd8\x07\xf9\xf5\x48\xe2\xec\x7e\x25\x80\x4b\xea\x14\x98\xe9\x6f\x14\x0f\x90\x67\x42\xe1\x2f\xc0\xca\xbc\x25\xc8\x14\x1d\xd9\x51\xf4\x38\xf2\x8a\x3d\x06\xa7\xd5\x59\x3d\xd0\x52\xca\x3d\x95\x03\xa3\xa5\x5e\x61\x02\x36\xc4\x88\x75\x48\x97\x13\x04\x53\xc9\x93\x63\x55\x81\x2b\x24\x68\xcc\xd5\xab\x2a\xb0\x65\x5b\xc0\x86\xb6\x19\xc2\x63\x2b\x93\x3e\x53\x9c\x54\x78\x54\x2e\x43\x78\xa3\xa3\x25\x38\x2d\x01\x8f\xbd\xdf\x81\xd1\x96\xeb\xcb\xb1\xcf\x02\xf3\x10\x26\x17\x84\x13\x37\xd4\x9e\x98\xa3\x32\xf5\xd0\xeb\x43\x06\x8e\x93\xa4\x5e\x7b\xcf\xf2\x40\x9f\xac\xdf\x2b\xeb\xf5\xcb\x18\x5d\x43\x8a\x5e\xd7\x8c\xe3\xce\x14\xda\xee\xd8\xd1\x5d\xc1\xe7\xfe\xf0\x73\x67\x00\x5a\xf0\xd8\xdf\x5e\xf2\x03\xce\x87\x46\xa6\x99\x22\xa3\x6e\xbb\x8a\xbf\x21\x02\x0e\xad\x3b\xae\xb8\xb3\x2e\xd6\x7d\x2a\x64\x21\x7a\x58\xf9\x62\x7c\xa2\x4e\x96\x9c\xd1\xa1\xa6\x94\x8b\xef\xa4\x60\xc2\xf0\x8a\xcb\x6b\x8e\xb1\xa6\xa3\x5a\xbf\x46\x0d\x57\x5a\xfe\x75\xa6\xef\x41\xa7\x9c\xf1\x92\x0f\x07\x0d\x61\x93\xd6\xe3\x9f\x24\xd9\xc3\x77\x6f\x7e\x0e\xff\x86\x2f\x69\x0f\x62\x07\xaf\xc9\xd8\xcf\x50\x5b\xc7\xce\xce\xce\xdb\x6c\x7c\xbd\x4b\x6a\x9a\x85\x3f\x67\x9c\x36\x55\x13\xa2\x39\xb7\xc1\x72\x3c\xfe\xfc\xa3\x4e\x69\x50\xcb\x5d\x98\xbb\xee\xae\x02\x1c\x46\xe1\x55\xaa\xb3\x55\x0b\x0f\x90\x22\x2d\x3c\x68\x5a\x5f\x83\x88\x25\x32\xaf\xbc\xb1\x3a\x4d\x75\xc1\x51\xe3\xe0\x78\x6f\xba\xbb\x53\x27\xf4\x55\xc0\xb3\x06\x28\x4d\xee\xd7\x26\x63\xc4\x78\x6c\xe6\x7a\x39\xf3\x5d\x1c\x50\xdd\xde\x81\x60\x97\x74\xef\xcc\x9c\xf6\x15\xbc\x5b\xdb\xfe\x8f\x16\x20\xf5\x55\x42\x47\x7c\xd4\x15\xe2\xd7\x3c\x97\xe9\x3e\xce\xc7\xc7\x99\x48\x4f\x9b\x03\xa4\xf4\x97\xd7\xca\x2f\xd0\x77\xd7\xc7\x48\x06\xa7\xab\xde\xa6\xe7\x90\x50\x53\xcf\xf6\x55\xea\x3b\xcb\xad\xf0\x72\x40\x83\xb5\xf9\xa4\xc7\x5a\x75\xf9\x18\x28\x59\x47\x4b\xee\xdb\x57\x89\x4f\xf5\xdf\x4b\xac\x8c\x8a\xd9\x84\xb7\xa7\x27\xbd\x9b\xe0\x30\xcf\x4f\x50\x8c\x0d\x67\xcc\x1a\x7b\x00\x00\x99\x19\x2b\xf3\x5a\xc7\x04\x6a\x95\xfe\x0c\xa4\x5e\xee\x3f\x58\xe8\xbf\xab\xce\xdf\x50\x88\xa2\x4c\x97\x64\x06\x0f\x76\x69\xe0\x4f\x95\xfe\x6d\x18\x28\xbc\x90\xdc\x5b\x90\x8b\xf6\xc6\x9d\xc5\x1a\xd7\x24\xa4\x2f\x51\x52\x66\xb8\x04\xb2\x87\x59\x49\x81\x17\x3d\x1e\x1e\xdd\x28\xbe\x23\xbc\x97\x6e\x26\x42\x1c\xc3\x11\xd3\x5d\x1d\xed\xaa\x60\x04\x07\x79\x0e\x85\xc8\x64\xfa\xc5\x07\x13\x10\xc4\x97\x1f\x4c\xf0\x7a\xbb\x72\xbc\x8e\x73\x09\x29\x9b\xb3\x2c\xbd\xc0\x1f\xb8\xa2\x9b\x31\x2a\xa1\xda\x26\xab\xc8\xfb\xc6\xe2\x90\x28\xc5\x6b\x7d\x7e\xc5\xb3\xd3\x39\x5f\x20\xc4\xef\xf8\x52\x21\x50\xce\x64\x20\xbb\x41\x96\x60\x11\x65\x74\x95\x46\x79\x53\x56\x7a\x33\x43\xe6\x02\x58\x49\x7c\xa9\x13\x7b\xb6\x81\x22\x86\x93\x75\x56\x56\x27\x44\x3b\x77\x78\xc1\xcd\x20\xb0\x43\xd9\x54\x62\x5f\x95\xdf\xe1\xc7\x16\x30\x25\x60\x58\x8e\x93\x76\xab\xf8\xb3\x1d\x11\x96\x92\x6e\x30\x13\x9f\xde\xe0\x71\xca\xaf\x4f\x8e\x8f\x27\xea\x3f\x2c\x25\x48\x58\x6d\x1b\x81\x2c\x30\x96\x2c\xb4\xbd\x0f\x00\xa2\xad\xb0\x1d\xcb\xc5\x6e\x68\x74\x75\xf8\x54\x52\x86\xcf\x27\xd3\x27\x2f\x33\x5e\x48\xaf\x14\x92\xef\x62\x60\x1e\xa0\x52\x1f\x04\x74\x9d\x15\xb0\x27\xb9\xbc\x52\x89\xa6\xa7\x58\xed\x0d\xde\x0a\x49\xb2\x99\xbf\xc6\x48\xc2\xc9\x74\x5c\xb3\x9f\x0e\xaa\xbe\x23\x07\xa2\xe1\xde\x09\xd2\xf8\x95\x4f\x85\x78\xae\x20\x3c\xe9\xcf\xed\x1e\x0f\x4d\x1f\x32\xf0\xdb\x7e\xd3\xd0\xf1\x0f\x1c\x89\x0d\xce\x81\x7e\x1d\x97\xbd\x79\x07\x41\xe4\x68\x47\x6f\x51\xa0\x18\xb4\x64\xbe\x82\xac\x08\xb6\x6c\x8b\x5a\x2b\x35\x02\x25\x0b\xe2\x03\x8b\x03\x4d\x53\x67\x1d\xec\x28\xeb\x6b\x54\x00\xd6\x2a\x05\xeb\x15\x7e\xcd\x43\x20\xa3\xe6\x39\x10\x63\x65\x7b\x55\x7e\xdd\xc5\x7f\xc3\x07\x42\x06\xd7\xdd\x1e\x0c\xf9\xdd\x57\xbe\xaf\x4c\x92\xcc\x99\xfe\xa5\x9d\x35\xad\xcd\xae\x62\x47\x77\x1a\xc5\x66\x7a\x70\x1d\xe7\xb0\x70\xea\x01\xee\x61\xf8\x35\xe3\x18\xba\x09\x62\x99\xd7\xb8\x7f\x53\xb4\x0b\x60\x0e\x0f\xb0\x03\xff\x24\x7d\x21\xee\x81\x3b\xf3\x8e\x5f\xc4\x50\x79\x5a\x7d\x36\x65\xf4\x6f\xd1\xbe\x5d\xd0\xad\x08\xdb\x42\xea\x6b\xc8\x54\x90\x8d\x0b\xdb\x11\x8c\xad\x84\xaf\x20\x62\x3d\x07\x92\x9b\x0a\xda\xc1\xef\x06\x29\x6a\xcc\x57\x51\x4b\x5c\x05\xc9\x6a\x6f\x63\x4c\x58\xdf\x87\x46\x5b\x41\x6a\x54\x42\xa5\x5e\x66\x95\xdc\xe8\x86\x20\x11\x16\x49\x8a\x75\x74\x05\x2e\x9e\xdc\xd4\x3a\x6c\x92\xd0\x38\x73\xaa\x6c\x96\x4b\x8d\xe8\xfe\x16\x94\xfc\x06\x35\xbc\x1f\x4f\xaa\x1f\x23\x73\xda\x8d\x05\x3f\x25\xdb\x6c\x8d\xa5\xbd\x6f\xc1\xbb\x72\x09\x0f\xb9\x89\xc2\x95\x63\x08\x75\xda\xf1\xd1\x03\x2f\xeb\xd6\xaf\x0f\xfc\x32\x9d\x8e\x46\x52\x9d\x3d\x70\x25\xd7\x1e\xd6\xe1\xef\x76\xf8\xc0\x5a\x3c\x98\xa8\x6b\xd6\xe6\xd5\xcf\x08\x50\x60\x8e\xec\x5f\x54\x00\x3d\x47\xa9\x76\x0a\xec\x66\xd0\xad\x53\xd8\x0c\xc6\xdc\x9a\xfe\x95\x04\xdc\xd8\x1a\x6b\x06\xdd\x4c\x84\x46\x86\xf1\x0f\x21\xf9\xc7\x8d\x9b\x41\x37\xaf\x5e\x8e\xcd\x3c\xa9\x81\xb5\x5f\xd6\x74\x57\x07\x46\x27\xfe\xf4\xf0\xa1\x5f\x0c\x0c\x7e\x96\x54\xbc\x92\x3f\x95\x03\x09\x19\x4d\xec\x90\x12\x2c\xf6\xad\x68\x03\x55\x15\x26\xfe\xe8\xc8\x25\xcd\xc2\xdf\x7f\x52\x75\x08\x66\x34\xb9\x30\x0e\x47\x83\xc4\xce\xa0\xa0\x39\x4a\xd4\x11\x14\xec\x24\xfb\x70\x4c\x90\xdb\x1c\x1e\x14\x3c\x24\x88\x77\x4a\xd7\x9b\x9e\xbd\xfa\xa1\x37\x8e\x87\x55\x0e\xae\xa0\x91\x24\x0e\xc5\x8e\x38\x81\xea\x05\xee\xf6\x8c\x09\x76\x84\x04\x2d\xd0\xc9\xd4\x3b\x7b\x53\x78\x05\xa4\x08\xd8\x0b\x3b\xbd\xfa\xeb\xee\xb0\x63\xad\x7c\x14\x5c\x8d\x89\xc7\x33\x27\xea\xbb\x7b\xcb\xef\xc8\x0d\x70\x63\xd8\xb1\x39\xa8\x5a\xe6\xbb\xb8\x79\x7c\x70\x9c\xb1\x37\xcc\xd8\x17\x65\xf4\x48\xbb\x23\xc6\x88\x08\x77\xc4\x18\x5b\x14\xf2\x89\xd2\x38\x99\x74\xdf\x1d\x90\x1f\x35\x4e\xc8\x7b\x02\xa8\x79\x28\x70\x8f\xfc\xc0\xee\xec\x00\x1b\x04\xb5\x08\xd0\x61\xf9\x81\xd6\x71\xc2\xb1\xf5\x76\x25\x1c\x04\x7d\xf6\x4e\x09\xd0\xed\xa3\x7c\x24\xa1\x80\x1d\x54\x2a\x1c\x88\x1c\x13\xd0\xcb\x23\xd1\x7e\x35\xe5\x1b\xa0\x4d\x30\x33\x09\x38\x14\x35\x14\xf4\x35\xa2\x60\x8f\x69\xed\x91\x1f\xe8\x39\x6e\x68\x43\x47\x43\x07\x0c\x87\x22\xe6\x26\x8a\x09\xfd\x88\x1d\x7c\x15\xd5\xeb\xfe\x36\xdb\xf5\xfb\xd7\x1c\x79\x78\xab\xd9\xf9\x6c\x14\x2d\xc8\x7e\xb3\xa5\xa3\x12\xcb\xa5\x62\x18\xf1\xde\xe8\x8c\x9d\xcd\x9d\xd6\x2f\xc6\x2a\xf9\x68\x7c\x2d\xbe\x89\xa3\xbe\xe5\xf7\x36\xc0\x69\x1a\xde\x35\xef\x11\x43\x33\x71\x72\x3c\x19\x0e\x11\xbb\xe8\x70\x97\x17\x98\x73\x14\x61\xb8\x7f\x6f\x35\xa0\xdd\xd5\x4c\x19\x2a\x60\x30\x10\xc9\x24\x20\x4a\xbe\x89\xae\xc5\xf8\xdc\x9a\x67\xfb\xcd\x7e\xa0\xb7\x75\x6a\x37\x53\xf2\x36\xd1\xdf\x15\xc9\xf6\xe8\xda\x17\xb8\x56\xee\x4c\xff\x7e\x31\x63\x6a\x87\xfb\xe1\x5b\xbf\xca\x55\x05\xae\xeb\x8f\x19\x1d\x4a\x94\x7f\x1e\x60\x32\xb5\x4e\x21\x25\x29\x27\x36\xec\xfc\x37\x1b\x63\x97\xc3\xf8\x2e\x15\x4a\x29\x69\x60\xc0\xd0\x36\x7e\x0a\x4d\x12\x77\x0f\xaa\x2c\x39\xd6\x97\xa1\x0b\xe3\xa3\x22\xc3\xb5\x0f\x55\xf4\xc1\x33\xd9\x18\xaf\x60\x62\x00\xc9\x99\xaa\xd7\xe5\xdd\xfa\xe3\x63\x30\xf6\xee\xee\xde\x12\x64\x2d\xa0\x06\x4f\x57\x22\x75\x27\x68\x18\x7a\xde\x9d\x45\x5f\xb0\x75\x99\xe4\x46\x3d\xc9\x8c\xcf\x0a\x0f\x20\xd4\x95\x88\xaa\xf3\x79\x6d\x4c\x39\x03\xd8\xf8\xd5\xf4\x36\x85\x6b\x32\xcc\x2c\xf4\xe5\x1a\xda\xac\x43\xcd\x87\x58\xc7\x80\xcd\xed\x1e\xe7\x2e\xe6\x28\xe3\x01\xd4\x60\x18\xff\x76\x72\xf8\x1b\x96\xc6\x02\x1e\x15\x46\x61\x1d\x40\x87\x1d\x77\xa5\x61\xbd\x0d\x4c\xb6\x56\x4b\x5c\x1e\x96\x0e\xf5\x33\x70\x7c\x68\x0b\xc8\xf2\x75\x09\x38\x9b\xf9\xd9\x95\xa4\xe8\xcf\x52\xf4\xa7\x29\xfa\xf3\x14\xbd\x89\x0a\xbe\x68\xb1\xa3\x96\xdb\x4b\x55\x70\x1e\xf6\x8b\x05\xb5\x94\x6d\x13\xe9\xa5\x64\x5b\xdd\xbb\x9a\x98\xfc\xae\x15\xd7\x4f\xf8\x7c\x59\xf3\xdf\x12\x08\xf8\x9f\x27\x00\x73\xfa\xc9\x76\x05\x76\x3b\x57\xff\x78\x67\x35\x95\x9f\x2f\x33\xa5\x2f\xed\x0b\x96\x77\x5e\xb9\x68\xff\xbd\x85\x7d\x03\xd2\x2f\x1f\x9f\xbf\xfd\xc2\x2b\x17\xa9\x1b\xf6\x57\xec\xc4\xdb\xdf\x72\x2f\x0d\xfd\x53\x1a\x7c\x23\x4d\x59\x5c\xf1\x6f\x7b\x7f\xb6\x98\x2d\xed\xab\xbb\xf7\xbd\x32\xa6\x71\x03\xcc\xdb\xed\xdc\xae\x3e\x0e\x8f\x9b\x7d\xab\xe1\x2d\x56\xd4\xce\xf9\xa2\xcb\xd6\x25\x2f\x61\xfd\xf6\xcb\x49\xf7\x45\x30\x88\x7d\xd8\xba\x04\xee\x45\x79\x41\xf3\x9c\xee\x6b\x3d\x90\x91\xd5\xc4\xd9\xbb\x40\xc5\x5b\xfc\xfa\xd5\xf1\x78\x44\xde\x5b\xa6\x7d\xaf\xb6\xa4\x95\xd9\x7d\xb5\xa5\x83\xbc\xf3\xec\x7d\xed\x9f\xf0\x08\x2d\x6d\xed\xf9\x7b\x6f\x85\x7b\xae\xb4\x1c\x86\x20\xd9\xb6\x3f\xde\xcd\x96\x6e\x5e\xfb\xdd\x6c\x59\xbb\xd6\xb2\x3e\x67\x3c\x34\x6e\xa7\x7d\xd0\xd5\x96\xb8\x50\x3d\x77\x0e\x59\xdf\xa9\xd5\xc6\x0b\x27\xbb\x16\x5d\xc7\xc9\x0f\xb8\xfb\xd2\x5b\xe5\xaf\xba\xfb\xd2\x83\x63\x4f\x05\x1e\xf4\xef\x2f\x80\xd6\x78\xd0\xc7\x51\xad\x6b\x2d\x0f\xbc\x3d\xd1\x0b\xe2\x30\x51\x1b\xd7\xc1\x74\x5f\x6f\x52\x5e\x88\xd8\x03\xe9\xd0\x1f\xbb\x69\x17\x6e\x75\xdd\x00\x33\x50\xda\x88\x47\x53\x9e\xf1\x21\x1f\xbc\x81\xf2\xd1\x01\xd7\x4f\xde\xdf\xeb\xd6\xc2\x71\x8d\xa3\x76\xd4\x63\xd0\x84\xf7\xa8\xc7\xa0\xfa\x8b\x6c\xfe\x0f\xcc\x33\x8a\x8b\x5d\xda\xf5\x32\xb7\x0c\xbe\xc0\x2b\x24\x28\xac\x98\x11\x63\xc8\xbf\xab\x46\x39\xeb\x2d\x8e\x8d\xb1\x3d\xaa\xc8\xc6\x90\x74\x19\xa3\xb8\x93\x2b\x09\x6a\x65\x1a\x1d\x78\xf7\xdd\x21\x8a\x57\x29\x99\x1c\x24\xf4\xf7\xf5\xd6\x8e\x72\x0d\x43\xe7\x1a\x0f\xf2\xf8\x38\x05\x7f\xe0\x99\xbd\x75\x69\xe1\xc0\x4e\x0f\x49\x1d\xe3\x8c\xbe\x3c\x75\xec\xf5\xde\x71\xa7\x1d\xce\xe6\x7f\xfb\x4e\x3b\x87\x5d\xdb\x76\xe8\x55\x40\xaf\xb7\xf3\x24\x2e\xd7\x4e\xff\x7c\xdd\x85\x76\xfb\xd8\x1c\x07\x5e\x54\x67\x12\x95\xbd\x97\xd5\xb5\x74\x83\x9d\x93\xa4\x29\xed\x8d\x75\x9c\xb0\xdc\x61\xc1\x8c\xbd\x4c\x64\x6d\x03\xf8\xe9\xc7\x1e\x6d\x52\x4b\x3c\x36\xf3\x8e\xcd\xb4\xe3\x1f\xf3\xd6\x39\xb2\x78\xbe\xf4\xd6\xb9\x1e\x82\x74\x0a\xbb\xfd\x6e\x9d\x33\x8a\xe0\xdf\x76\xbf\x5c\x0f\xca\x7b\xe8\x26\xd5\xaf\x9c\xb0\x30\x64\x0f\xbd\x03\x0d\x6c\x92\xa2\xa9\x7f\x00\x44\x5b\x05\xc1\xcb\x3b\x0f\xba\xe9\xcc\x07\xb5\x4c\x67\xac\xc4\x6f\x7e\x0b\x29\x07\x80\xe7\x03\x3e\xc6\x72\x51\xc5\xc7\x49\xcf\x30\x26\x67\xd1\x06\x62\x4a\xd3\x0c\x22\x1d\x71\xfe\xce\x5b\xf3\xf6\xd5\xc2\x5d\x01\xf8\x61\x35\xdc\x7d\x1f\xad\xcf\xc3\xa2\x8c\xbb\x75\x71\x67\x38\xbc\xa6\x8a\x1b\xb7\xeb\x99\x7f\x08\x54\xf2\xd1\x5e\xe6\x38\xea\xd1\xce\x38\x39\x23\xda\x81\x69\x9a\xca\xf9\x88\x70\xfd\x7d\x34\xf4\xbe\x46\xd5\xae\x28\xf8\x4e\x8d\x6c\x07\x22\xc0\x16\xdc\xd4\x5b\x86\x7f\x01\x50\x89\x29\x7b\xb8\x76\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x02\xff\xed\x5d\xeb\x93\xdb\x36\x92\xff\x2c\xfd\x15\x88\x2a\x76\x48\x9f\x86\xe3\x6c\xd5\x5d\xed\x4d\x6a\xae\xca\x8f\x49\xe2\xdd\xf8\xb1\xf6\x38\xf9\x30\xe5\xf2\x52\x22\x34\xe2\x0e\x45\xd2\x24\x35\xe3\xd9\xc9\xfc\xef\xdb\x2f\x80\xe0\x53\x92\x93\xbd\x4a\x5d\x5d\x6a\xd7\xa6\x48\xa0\xd1\x00\x1a\x8d\x5f\x3f\x00\x1f\x1f\xab\x67\x59\xa4\xd5\xa5\x4e\x75\x11\x56\x3a\x52\x8b\x5b\xb5\x08\x8b\x2c\x0d\xd4\xf3\xd7\xea\xd5\xeb\x73\x75\xf6\xfc\xc5\x79\x30\x3d\x3e\x56\x6f\x75\xb1\x4d\xd3\x38\xbd\xe4\x02\xea\x26\x4e\x12\x95\x5d\xeb\xe2\xa6\x88\x2b\xad\xaa\x75\x5c\xaa\x55\x9c\x68\x2a\xfc\xb3\x2e\xca\x38\x4b\x4f\xd4\xdd\x5d\x20\xcf\xf7\xf7\xce\x07\xf5\x1c\x5a\x73\xbf\xe2\x6f\x28\x31\xcd\xc3\xe5\x55\x78\xa9\xf1\xcb\x1b\x7e\x7c\x15\x6e\xe8\x0b\x54\x3e\x37\x6d\xa8\x65\x96\x56\x61\x9c\x96\x6a\xa3\xab\x75\x16\x95\xaa\xca\xd4\x26\xbc\xd2\x2a\x4e\xa3\xf8\x3a\x8e\xb6\x61\xa2\x74\x1a\xe5\x59\x9c\x56\x50\xa5\xc8\x36\xaa\xd4\xc5\x75\xbc\xd4\xe5\x1c\x29\x15\xfa\xd3\x56\x97\x95\x0a\xd3\x08\x9e\xcb\x3c\x4b\x4b\xe8\xc2\x6d\xae\x89\x12\x16\xc5\x1e\x65\xf0\xd2\x52\x99\xab\xb0\x54\x37\x1a\x3a\x0d\x7f\xeb\x74\x09\xe3\x56\x94\x48\x00\xe9\x45\x5a\x7e\xaf\xb2\x42\x2a\x12\xb5\x39\xbd\x08\x71\xa4\x56\x2a\xdb\x16\xaa\xdc\xe6\x79\x56\xe0\x48\x57\x45\x98\x96\xf8\x8c\xcd\xc5\x61\x12\xff\x33\xac\x60\x20\x90\x1a\xd4\xd9\x84\x55\x19\x4c\xa7\xf1\x86\x4a\x78\xd3\xc9\x6c\x71\x5b\xe9\x72\x06\x0f\xd8\x77\xfd\xb9\xc2\x47\x62\x03\xa6\xe4\xf8\x1f\x65\x96\xe2\x8b\xd5\x86\xde\xc7\x19\xff\x79\x1c\x67\xdb\x2a\x4e\xf0\x47\xaa\xab\xe3\x75\x55\xe5\xe6\x79\x5b\xd0\xeb\xb2\x2a\x80\xde\xb5\x3c\x02\x29\x68\x02\x9e\x2f\xe3\x6a\xbd\x5d\x04\xcb\x6c\x73\x7c\x99\x1d\x5d\xc5\xd5\x31\xfe\xdf\x8c\x05\x94\x0e\xd3\xdb\x7c\xa1\x66\x97\x59\x76\x09\x53\x7e\x99\x25\x61\x7a\x19\x64\xc5\xe5\x71\x5e\x64\x55\xb6\xd8\xae\x8e\xa9\xff\xc7\x57\x69\x76\x93\x1e\x53\x69\xa8\x15\x6d\x0b\xea\xe4\x01\x55\xeb\x2a\x50\x5f\x6f\xf2\xea\x90\x76\xa5\x3c\xd4\x5c\xc5\x3a\x89\x36\x61\x79\x75\x40\x6d\xa7\x0e\x50\x80\xe1\xd9\x2e\xab\x03\xaa\x9b\x0a\x50\xb7\x8a\x37\x20\x6d\xe1\x26\x3f\xa0\xba\x53\x07\x28\xdc\x14\x61\x9e\x83\x80\x1d\x40\xa0\xae\xd2\x9d\xd2\x02\x16\x6f\x78\xbc\xd9\x7e\x9e\x35\xbf\xe4\x57\x97\xc7\xba\x28\xb2\x82\x24\x6d\xa4\x21\x2b\x79\xf4\xc6\x88\xdf\x48\x05\x7a\x40\x46\xee\xee\x8e\x54\xbc\x52\xfa\x93\x0a\x9e\x65\xe9\x2a\xbe\x0c\xce\xed\x4a\x98\xc1\x4a\x99\xa9\x59\x0a\xc2\x3f\x53\xb0\xe8\x1b\xbc\xe1\xdb\x23\x90\x69\xfc\x1b\x9a\x98\x31\x29\x90\x49\x2c\xb8\x07\xd5\xcb\x22\x5f\x1a\xaa\x1d\x3e\xe9\xe3\xe0\x97\x63\x50\x33\x61\x14\x56\x61\xbb\xd1\xbd\x9b\xc4\xa7\x7a\xc5\x0f\xac\x2f\x5b\xc0\xb0\xe3\xb4\x85\x6b\xf7\x00\x02\xb2\xd4\x0f\x1a\x6c\x7c\x3a\xa0\x09\xaa\xe8\xf2\xe8\x4f\xa7\xd3\xeb\xb0\x40\x6d\xf5\x51\x9d\x2a\xd0\x45\xc1\xbb\x1c\x74\x4a\xc5\xbf\x49\x81\x01\x1b\x9b\x3c\x2c\x34\xbf\x12\xed\x13\x3c\xa9\xb2\x98\xdf\x34\xba\x19\xbc\xd2\x37\xef\x50\x17\x17\xfc\x91\xb5\x59\xf0\x2a\xcb\x9f\x25\xa0\x62\xed\x5b\x20\x9a\xdf\xf2\x0f\x16\xde\xe0\x17\x90\xfd\xe9\x04\x54\xa9\xcc\xa7\x11\x43\xd6\xca\x58\x94\x54\x52\xf0\x24\xa5\x7a\xb5\x92\x09\x9e\xcb\x23\xbe\x16\xf5\x11\x9c\xe1\xdf\xf8\xc2\x2c\xe9\xe0\x1d\x3d\xe0\x2b\x67\x99\x06\xe7\xe6\x19\x3f\xd4\xcb\x0f\x4b\xc3\x52\xf9\x39\x4c\xb6\xd4\x6f\x47\xaf\x04\xdf\xe3\xf3\x4b\x78\xc6\xd1\x3b\x7e\xb4\xd7\x7f\xea\xcc\xee\x6c\x8f\xf6\xfe\xef\x98\x76\xd0\x17\xa9\x0a\x79\x7b\x2b\xe6\x2a\xae\xbe\x29\xd5\xb6\xd4\xab\x6d\x42\xdb\xd4\x6a\x9b\x2e\xb1\xeb\xb0\x07\xae\xc3\x4a\xa5\x1a\x77\xa9\x4c\x65\x39\x61\x03\x95\x61\x5d\x78\x3e\x32\xdb\x00\x12\x5c\x84\x65\x5c\x06\xea\x7b\xa8\xae\x3f\x43\xcf\x13\x3d\x57\xb7\xd9\x56\x6d\xe2\xcb\x75\xa5\xf2\xb0\xc4\x2d\xd2\x61\x18\xe8\x85\xb6\x21\x6e\x07\xe6\x26\xda\xc2\xc6\x8c\xe4\xa0\x2c\x4a\x40\xf0\x23\xec\xab\x09\xf2\x78\x03\x42\xa8\x74\xb8\x5c\xcb\x4e\xaf\x3c\xd3\xba\x0f\xdf\x0a\xe0\x70\x9b\x33\xd1\x32\xd7\xcb\x78\x15\x2f\xa1\xd1\x6a\x1d\x28\xef\x05\xf1\x07\x80\x01\xe8\x2f\xc2\x45\x72\x0b\x65\x36\x31\x4c\x0f\xa1\x04\xd8\xb1\xcb\xf8\x32\xc5\xaa\x71\x7a\x9d\x5d\xe1\x76\xaf\xd5\x3b\xc6\x08\x16\x55\x10\x8b\x1a\xe9\xd4\x3d\x60\x19\x40\x12\x66\x24\x03\x1f\x4a\xd8\xd1\x5d\x26\xb1\x4e\xab\xe6\xe8\x42\x2b\xcb\x2c\x49\x34\xd5\x33\x00\x05\x38\x02\xe1\x67\x72\xd0\x8f\x1a\xae\xc0\x1f\xd0\x21\x24\x58\x82\xd8\x24\x0c\x25\x78\xac\x62\x1c\xe1\x8d\xa6\x91\x74\xf8\x85\x1a\xba\x58\x85\x4b\x3d\x34\x13\x48\xcc\x36\xd6\x0f\x92\xb6\xd8\x98\x6a\x6a\x10\x5c\x80\xcf\xa4\x3f\xa0\x07\x16\x71\x4a\xe3\xb4\x11\x16\x9d\x89\x9d\x0b\x94\xaa\xb6\x45\x0a\x5d\xc7\x1e\x23\x83\x4b\xe8\xa6\x2e\x10\x31\x85\x86\xd9\x60\x4a\xdd\xe9\x0c\xe8\xdd\x74\xf2\x3e\xb5\xfd\xd3\x11\x20\x40\x53\x83\x21\xa0\x68\x82\xbb\x3b\x60\x11\x10\xe2\xd7\xb1\x3a\x39\x55\xb6\xcc\x4b\x9e\x32\x56\xcb\x5f\xc7\x52\xc7\xb4\xa2\xe0\x3f\xd3\xd5\xc0\xbc\x04\x52\xac\xb8\x18\x5d\x5a\x8e\x76\x37\x81\x02\x0c\x92\x58\x57\xf1\x95\xd3\xa8\xb7\xac\x3e\x2b\x41\x69\xa8\x76\xf1\xef\x39\x0a\xcc\xa3\xbb\xbb\x1f\x32\x2c\x03\x94\x83\xb7\x0c\x41\xcf\x61\x30\xa4\x9e\xaf\xbc\x56\x09\x06\xa6\x4e\x91\x39\x2b\x38\x1f\x47\xcb\xe0\x56\x7a\x87\x8c\xea\xa0\xa7\xe7\xc8\x0c\x36\xee\x4f\x27\xb8\x11\x40\xc9\xaf\x4e\x55\x1a\x27\x48\x61\x22\xf3\x05\x3f\x89\xc8\x74\x72\x3f\x35\xef\x0c\xf5\x60\x27\x4f\xfe\x1c\x09\xc0\x20\x9a\xe1\xc4\xc1\x7c\x89\xcb\xcc\x1d\x51\x5a\xc8\x5f\x83\x1a\xc1\x11\xbd\xc7\xc2\x47\xca\x1d\x65\xf8\x34\x34\xd0\x48\xab\xaf\x67\x25\x0e\xba\x53\xcd\x15\x13\xbf\x3b\xdd\x3c\x66\xd4\x39\x24\xdb\x3f\x4b\xc6\x30\xb0\x2b\xea\x0e\xa7\xc5\x9a\x08\xce\x6b\x1e\xf6\x7a\x3a\x80\xf6\x27\xec\x88\x50\xe8\x8c\x5b\x67\xb6\xa1\xca\xb5\x9d\xbb\x32\x68\x09\x10\xb1\x82\x65\xba\xb3\xd6\x9d\x36\x9c\x37\xf3\xf6\x9a\xa7\x63\x72\x3f\xe5\x41\xe6\x39\x71\xe7\x06\x37\xc7\x27\x49\x72\xf6\x79\xa9\xf3\x8a\xf6\xa9\x92\x55\xac\x1d\x29\xda\xa1\xd0\x64\x91\xb5\x59\x2f\x56\x9a\x46\xd2\x4d\x3d\x76\x41\xf0\x32\x8e\x40\x6d\xdf\xc0\xfe\x4e\x56\xe0\xfb\xd2\xd8\x85\x68\x04\xe5\x79\x72\x8b\x2a\x06\xd5\x66\x85\xc4\x37\xb6\x34\xed\x0b\x1a\xa6\xed\xd6\x4e\x1b\xae\x17\xd4\x20\xa5\xd1\x1a\x40\xef\x75\x8e\xbb\x06\x6a\xce\xb9\xa3\xb8\x96\xa0\x87\x16\x9a\xf6\x1a\x50\xa3\x50\x0d\x6c\xd8\x14\x87\x1d\x68\xc2\x7b\xfd\x79\x99\x6c\x23\xf8\x42\x56\xe0\x42\x23\x0b\xbc\x37\x47\x41\x67\x34\xbc\x9a\xa7\xb9\x9a\xbd\xab\xc2\x6a\x5b\xce\xe0\xe9\x0d\xd4\x9a\xf9\x76\xdd\x3f\x72\x16\xfe\x50\x7d\xd5\x33\x2a\xf3\x9a\x9b\x20\x08\xd8\xe0\x22\xe1\x89\x53\x79\x0d\xa2\xb0\x09\xf3\x0b\xfe\xf4\x81\x87\xff\xee\x1e\x67\xbd\xbd\x60\xfa\x34\xdf\x64\x32\x73\xc4\x68\x06\x06\xf6\xfd\x5c\xaa\x0a\x8c\x04\x09\x98\xe0\x6c\x7c\x44\x56\x48\x5c\x89\xa4\x65\xeb\x8e\x25\x0e\x3e\x67\x57\xf8\xd9\x30\x76\xa1\x3f\x7f\xf8\x4e\x7d\x05\x2f\x49\x02\xf3\x30\x8d\x97\x5e\x8d\xf0\x56\xde\xec\xcc\x90\xb0\x33\xf8\xcd\x83\xf2\x1b\x15\x65\x30\xbb\x69\x56\x41\x13\xb0\xf9\x7e\x07\xf3\xa9\xdd\x89\xb7\xb2\x43\x90\x1e\x99\xf2\x7d\x91\xe7\x48\x27\xba\xd2\x9e\xe1\x80\xbe\xd5\x1d\x80\xd7\x35\xfb\x76\xf8\xf6\x1f\x28\xe8\x24\x92\x38\x3d\x55\x8d\x21\xe3\xee\x4d\x7a\x55\x29\xc0\xcb\x9a\x73\xaf\xb7\x08\xf2\x4e\xcc\x37\x86\x9c\x97\xdd\x4f\xe1\x02\x7a\x14\xd5\xd2\xc0\x2e\x94\x4b\x5d\x19\xd9\x45\x79\xb7\xa3\x47\x22\x7c\xb3\xd6\xa9\xfd\x9a\x39\xe2\x2a\xc4\x58\xea\xe6\xbc\xca\x64\x21\x6c\xb9\xb0\x62\xbf\x4c\xc8\xce\x1d\xc0\x45\x00\x6a\xe0\x2f\x82\x59\x8e\x94\xde\xac\x63\x58\xf9\x58\xb5\x84\xa6\x7b\x58\x90\x9d\x5c\x6a\x1b\x1c\x93\x15\xb2\x8f\x77\x7b\x45\xca\x95\x05\x78\xde\xd5\xc2\x3d\x8a\x79\x3a\xd4\xaf\x2f\xd6\x4d\x1d\xa6\xe6\xd2\x4f\x1a\xf1\x42\x2f\x75\x7c\xcd\x88\x8f\xba\x08\xc4\xdc\x7e\x07\x00\x55\xb4\x25\xe3\x50\xa1\x0f\x06\x88\xda\x75\x8f\x8c\xa2\x44\x46\x60\x23\xc6\x09\x81\x46\xb3\x9c\xc8\x99\x23\x60\x37\x4c\xe2\xea\x36\x18\x53\x21\x8d\xbe\xbb\x9a\xe4\xe0\x11\xfd\x7f\x3d\xf3\x7f\x47\xcf\x34\xaa\xcd\xd5\x41\x6a\x67\x7f\x07\xc5\xbe\xa6\xe7\x0f\x6f\xdf\x3c\x63\x84\x75\xb0\xed\x89\x30\xce\xa9\x8e\xee\xda\xb2\x06\x03\xf5\x7e\x1e\x5e\xc3\x32\x02\x83\x4d\xb3\xd9\x70\x09\x55\xd4\x80\x31\x10\xd4\x00\xb1\xa6\xec\xd5\xa4\x1c\xf3\x24\xcb\xd9\xb4\x85\xf5\xd0\xf0\xc5\x04\x5c\x89\xa1\x85\x3f\xd4\x10\x4e\x57\xe9\x14\x2c\x71\xc2\x2f\x3e\x0c\x53\xc2\xe9\xed\xfb\xfa\x54\x83\x50\x69\x0f\xb9\x7d\x29\x3e\xa5\xf3\x4c\xd0\xa7\x3f\x27\x00\xde\x6c\xe7\x14\x81\x13\xf4\xc8\x6b\xbc\xb6\xfd\x81\xee\xf8\xe4\xe8\xb8\xbb\x53\xe7\xd9\x4f\xd9\x0d\xf0\xda\xe8\x01\x79\x76\x04\x1a\x3e\x44\x8e\x98\x8f\x3b\x34\x93\x76\x4a\x2f\x14\x77\xa4\xed\x44\x35\x7b\x64\xbd\x33\x1e\x8a\x5f\xbd\xc0\x7a\x04\x14\xb5\xc3\xe4\x39\x39\xc9\xb1\xeb\x4e\x09\x01\xc6\x54\xe0\x2c\xed\x2d\x20\x66\x0e\x96\x68\x0c\x02\xf4\x1d\x5f\xe2\xb0\xf5\x6c\xb7\x75\x5f\xdb\x56\xb3\xc5\xe5\xfd\x53\x6d\x31\x3e\x6f\x70\x0e\x9d\xdf\xdd\x52\x6d\x8e\x2f\xd8\xa8\xcd\x01\x16\x2f\x88\x03\xe3\xc5\xb8\x12\xf7\x04\xea\x27\x87\x3d\xf4\x65\x18\xae\xf6\xef\xe4\x9e\xc6\x6e\xa9\x1e\xd5\x4d\xf9\xca\xb5\x6d\xc6\xac\x5e\x34\x8a\x7e\x5f\xb3\xf7\x23\x12\xcd\x1d\xc3\xa9\x39\x88\xbc\xce\x50\x86\x5c\x2b\xea\x40\xd3\x37\xff\x42\xab\x57\x06\x97\x05\x7d\xf7\xc8\x42\x8d\xb1\x35\x81\xce\xab\x50\x35\x9d\xc2\x01\x57\x90\x12\xdf\xe3\xd4\x90\x63\x08\xdd\xa8\xba\x40\xed\x49\xb2\xcf\x3a\xd3\x28\x84\x5a\xc2\x8c\x79\x4b\x1e\x33\x00\x8a\xc5\x51\x94\x6d\x42\xb0\x99\x46\x0a\x07\xea\x4d\x11\x6f\xc2\x22\x4e\x6e\x8d\x3f\xcb\x75\x7e\xb1\x7c\x8c\xf5\xc3\xfb\xd8\x95\x0b\xec\x0b\x7c\x6e\xd9\xd9\x6d\xf3\xda\x7a\x3a\xc8\xb2\x96\x3a\xfb\x58\xd6\x76\x26\x3f\x8d\x4c\x13\xab\x9b\xbd\xa6\x69\x54\x33\xf5\xce\x13\xd7\x30\x45\x86\x26\x6a\xf7\x14\x98\xd8\x64\x56\x6f\x85\x7d\xc5\xc0\xb6\xde\x6b\x9e\x46\x3b\xd2\x37\x51\x7d\xae\x8f\xb1\x99\x2a\x73\x76\x82\xec\xed\x3d\x6a\x78\x9c\xfa\x66\xeb\x47\x9d\xa0\x1f\x7d\xca\x1d\xe8\xdd\x39\xfb\x75\xcf\x26\x52\x26\x6e\x13\xbc\x7c\xee\xb7\x0b\x20\xbf\xa8\x41\xaf\xe6\xea\xba\x86\x78\x1b\x8b\x4d\xaf\x1b\x3e\x17\x0a\x3f\x6b\x75\xa5\x6f\x69\xba\x23\x44\x81\x8b\x0c\x0c\x0e\x18\x63\xd3\x8a\x04\x6e\x95\x77\xe5\x8b\xbd\x81\x45\xc1\xe2\x48\x70\xbe\x84\x4a\x28\x56\x16\xf9\x57\x9f\x85\x69\x06\x08\x37\x4c\x7e\xd4\x61\xa4\x8b\xbf\x02\x75\x31\x46\xb0\xa1\x32\x13\xaf\x6f\x25\xb6\x9d\x21\xb1\x5c\x6a\xe3\xec\xd0\x60\xf4\x80\x2c\x70\xcb\xf8\x1d\x87\xe2\xd4\xf6\xf5\x17\xf8\x4c\x81\x07\xd6\x86\xd8\xd7\x8b\xc7\x1f\xfc\x9d\x05\x07\xb8\x83\x9e\xd5\x14\x04\xe6\xcb\xf4\x41\x35\xda\x9e\x0e\x00\x92\xec\x5a\x3e\x18\x48\x02\xee\x70\x6a\x73\xf3\x14\x66\x10\x5f\x91\x5a\x84\xcb\x2b\xce\x65\x90\x35\xc3\x3e\x79\xec\x6b\xaa\xc9\x18\x0b\xd4\x0b\x52\xaf\xe2\xdd\x17\x71\x8d\x17\x31\x1a\x69\x66\x0a\xc4\x79\x0d\x4b\x2f\x8a\xc3\x84\x3d\xdc\x49\x08\x72\x0f\xf4\x32\xf4\xbb\x52\xa1\x9a\x26\x0b\x68\x83\x3b\x0f\x3f\xf3\xce\x19\xf0\x1b\x10\xbe\x74\x04\x8d\x72\x21\x83\x46\xbd\x01\x68\xe1\x2e\x39\x11\x4c\x34\x64\x4b\xc3\xb9\x19\x08\xe4\x38\xae\xea\x2c\x09\xf1\xa9\xd9\x68\x58\xa4\x57\x71\x1a\x73\xb8\x0b\x23\x77\x4c\x04\x39\xc2\xd6\xca\xe9\xe4\xad\xbe\x04\x6b\x0a\xe0\x62\x3f\x1f\xde\x43\xaa\x41\xab\xd6\xe7\x00\x5c\xca\x15\x11\xb2\xb4\x5d\xbe\x93\x86\xcd\x04\xa3\x30\xe6\xf9\x25\x7e\x9a\x5b\xbb\xb5\x8f\xba\x1e\x84\xc9\x5d\x07\xad\x3a\xd6\x54\x07\xb6\xca\xe4\xd0\x2a\xc0\xf9\xc0\x07\x62\x3c\x88\x74\xb9\x34\xdc\x20\x9d\xf6\x27\x61\xf0\x02\x1a\x4a\xef\xef\x3f\xc8\x6f\x5b\x72\x40\xbd\xd6\x10\x77\x60\x9f\x74\x20\xee\x0e\x7d\xc9\x96\xf6\x24\x6b\x42\x60\x3b\x12\x1e\x99\xae\x44\xc6\x06\xa9\x45\x95\x9a\x85\x6a\x8d\xa2\x9d\x36\x80\x3a\xba\x67\xa3\xb2\x33\xa8\x27\x18\x50\xe9\x1f\xef\x79\xdd\xe4\xe4\xde\xe8\x73\x03\xc8\x49\xac\x78\xbf\xa4\x35\x21\x0d\xb2\x98\x15\x30\xe3\xac\x36\xaf\xb4\xce\x4b\x78\x0e\x69\x91\x16\x22\x84\xe8\xb0\xb5\x90\x9c\x29\xd5\x88\x1c\x67\x47\x16\x9a\x10\x7d\x0e\x6f\xb0\x69\xc6\xaf\xb2\x0a\xa9\x9a\xaf\x8c\x5c\x4b\x51\xaf\xbf\xf6\x5c\x7d\x6c\x6e\x7b\xd0\x4e\x4a\x72\x00\x42\x15\x09\x79\xe8\x19\x4e\xa7\x12\x75\xf4\xdb\xb1\xdf\x08\xa8\x30\xe0\x6f\x1c\x54\x8c\xc3\x84\x7d\xb1\x9f\x6c\xe0\x03\xa0\x82\x35\xea\x38\xf8\x1b\x06\x15\x8c\xe4\x90\x99\x3d\x51\x05\x16\xb5\x08\x10\xb1\xce\x41\xb8\x22\xc7\x80\x41\x17\x58\xb8\xd3\xf6\xdb\xb1\xe0\x30\x64\x37\x50\x70\x14\xb2\xef\x09\xc6\x77\x02\xc1\x51\xc8\xde\x98\xb5\xb1\x7e\xf4\x23\xc1\xbe\xd0\xd8\x38\x64\x3f\x20\x18\x36\x0e\xd9\x85\x0b\x42\x28\xe5\x79\xe6\xa2\xc0\x5a\x9d\xb4\xb7\x51\x67\xc8\xb9\xcb\x23\x54\x3c\x00\x5c\xa5\xba\xf8\x60\x9c\xa5\x3b\xe8\xed\x15\x4c\x04\x2c\xf9\x68\x17\x02\xa5\x7d\x2e\x0f\xe3\xa2\x6e\x1c\x5e\x8a\xeb\xf4\xaa\xc6\xa5\xc4\xde\x9d\x78\x14\xaf\x8d\xdb\x14\x9a\x0d\x18\xb5\x5d\xf9\x81\xb8\x88\xfd\xef\x94\x71\x9f\x4e\x98\xb0\xf5\x21\xd1\x4f\x46\x81\xd6\x65\x88\x3b\x03\xd2\xe4\xa2\x2e\xe4\x7d\x04\xfc\x9f\xd6\x10\xfa\x2f\xa0\xdd\x3d\x78\x37\xaf\x5f\xbd\xc1\x3a\x4c\x15\x1d\x51\xbe\x21\xe7\x40\x42\xf1\x43\xf2\x4c\xee\x0b\x0e\x7f\x3c\x3f\x7f\xf3\x25\x5e\x46\x4a\x71\xe0\x51\x4e\x49\xbc\x80\xff\x19\x06\x1e\x01\xc4\xe2\x7e\x49\x79\x92\xdf\xa9\xe5\x3a\x2c\x4a\x5d\x9d\x6e\xab\xd5\xd1\x9f\x67\xd6\x39\x89\xad\x8a\xcb\xa5\x46\x95\x6a\x2d\x6f\x68\xcd\xee\x76\x5a\x22\xb1\x2c\x05\x88\xa5\x09\x5c\x01\x0c\xc5\x7c\x94\xd2\xf1\x54\x3a\xcd\xec\x74\x55\x36\xd3\xa1\x9a\xae\x4a\x37\x51\x46\xdd\xd9\x5c\xaf\x80\xe8\x93\xcd\xd4\xf0\xe5\xf5\xb8\x2f\x87\xa9\xd3\xfc\xf7\x7d\x16\xff\x25\xb7\x81\x46\x41\xd9\x70\x5f\xf6\x57\x3a\x43\xb5\xc0\xea\x06\xba\xec\xfc\x18\xae\xf2\x64\x05\x6a\xc5\x6b\x7f\xa9\x9e\xd5\x53\xeb\x39\xd3\xec\x13\xa1\x6e\x2f\xf7\x72\x9e\x8a\x77\x8d\x1c\xa5\x30\x79\x6f\x60\xba\x60\xce\x0a\xd0\x4b\x15\x65\xf8\x62\x28\xb7\x5c\x86\x39\x86\x06\x00\x3d\xdf\x82\x10\xdc\xaa\x75\x96\x44\x98\x43\x46\xb2\x14\x2e\x2b\x34\xef\x36\x14\x55\xd9\x7e\x46\x84\xf9\x36\xdb\x62\x07\xfc\xe0\x7d\xa9\xb9\xb3\x11\x12\x06\x78\xe6\x80\x2e\x89\x24\xe1\x4e\x33\x30\x69\xb6\xe8\x02\x73\x76\xd2\x4b\xc2\xcb\x5c\x2d\x78\xca\xaf\x24\xce\xb0\x31\xf5\x28\x60\x20\xc5\x31\xbb\x7a\xa1\x7e\x55\xe7\xd9\x7b\xcc\x45\xbb\xbf\x9f\xf9\x01\xb1\xe1\x96\xc1\x17\xe7\x7a\x93\x27\x94\x82\x0d\x25\x8c\x70\x0e\xe4\xe2\x79\x1c\xb9\x70\xdd\xbd\xc2\x51\x8f\xcf\x57\x00\x2f\x76\xcf\x69\x92\x22\x5d\x4d\x60\x2c\xd0\x19\x0b\xfe\xc0\x01\xcb\x06\x2a\xee\xf5\xfc\x4e\x48\xe3\xb4\xb2\x40\xe5\x51\x54\xd0\xc6\x24\xf7\x38\x52\xc7\x91\x51\xf6\x05\x93\x34\x9a\x18\xa7\x69\xf1\x17\xfc\x0e\x46\x16\x18\x90\xb0\x88\xc3\x6d\x52\xe1\xde\xc9\xe2\x86\xc4\x08\x84\xc2\xf2\x6f\x6b\x16\x30\x11\xd5\x22\x8b\xc8\x80\xc4\xdf\x6c\x01\xa1\x25\x3f\xa3\x76\x66\xd6\xf8\xbf\xa6\x5c\x40\x20\x45\xef\x03\xe2\xce\xf3\xd9\xc4\x04\xed\x42\x79\x07\x0a\x99\x45\x52\xff\xf9\xf8\x31\xd8\xab\x2b\x87\x5f\xc7\xa1\xcd\xab\x10\xb8\x25\xc6\xd8\xb8\xbb\x8e\xd1\x3b\xb1\xe6\xf5\xc9\x31\xcf\x85\x66\x6e\x39\x34\x8c\xe5\x6a\x84\xe7\x92\xa6\x9c\xb9\x9a\x3a\xf6\x22\x78\x09\xda\x72\x1d\x52\x3a\x9e\xe1\x7f\xc3\xaf\x50\x22\xcb\xed\x72\xa9\x75\x54\xb2\x39\xfc\x97\x77\xaf\x5f\x49\x76\x7c\x64\x52\xd9\x6d\x7c\x95\x78\x37\xec\x60\x98\x7a\xb8\x5b\x9c\x7a\x81\x87\x13\x8a\xb9\xb1\xd2\x6d\xcf\xea\x8f\x0d\x6a\x80\x4c\x00\xd3\x87\x91\x19\x33\x56\xb9\xae\xbe\xe9\x83\x35\x36\x8b\x67\xae\x6e\x58\xa7\x36\xc5\x80\xe0\x0c\xce\x2a\x5a\x03\xb0\xfc\xdc\x21\x61\x65\xf6\x0b\x67\x7a\xde\xd1\x2c\x9e\x20\x31\x33\xa1\xf7\xec\x7a\xde\xd4\x03\xc8\xdb\x36\x16\xf1\x9a\x63\x5b\xef\xda\x31\x0b\xcf\x53\x6a\x52\xaa\x9e\xb1\xb3\xdb\x12\x32\xf5\x70\xb8\x3d\xa8\xea\x14\x3b\x75\x76\x70\x12\xc6\x53\x4b\xce\xf8\x6c\x26\x37\x01\x8b\x0d\xe8\x27\x50\xaa\xde\x4c\xd4\xea\x11\xea\xd2\xd9\xdc\xdd\x40\xb9\x03\x6b\x23\x64\x2e\xff\x4d\xf5\x60\xe4\xb0\xee\x87\xf1\xad\x11\xd8\xaa\x81\x8c\xa1\x25\x35\x4a\x8f\xb3\xa7\x5c\x9e\x9e\xeb\x04\xf0\x0c\xbe\x14\x1c\xe4\xf8\xe7\x84\x1c\xc3\x1b\xa7\xce\x93\x28\xf2\x5a\xb8\x06\xff\x47\x6b\xe8\x84\xf3\x8a\x03\x96\x9b\x17\x88\x58\xd3\x30\x71\xf6\x26\xea\x24\xda\x7b\x83\xdd\x73\xe4\xb1\xee\x21\x11\x3f\x55\xe8\x31\xb0\x9f\xc5\x00\xbf\x09\x48\x7a\x84\x3d\x2c\xe8\xdb\x97\x1e\x4e\x8b\x6f\x4d\x53\x92\x21\x56\x93\x85\x87\x5e\x99\x8b\x0f\x98\x2a\xed\xcb\xa2\xb8\x63\x57\xc8\x8d\x72\x65\xcd\x46\x34\x8c\x40\xbe\x4f\x45\x04\x90\xc2\x5c\x3d\xbc\x01\x2e\x5b\x11\x0f\x06\x47\x65\xfc\x4f\xe4\xf9\xcf\xdf\xfe\xf7\x7f\xb1\xac\x25\x3a\xc5\x3a\xbe\xfa\x1f\xfe\xc6\x82\x03\x6c\x9c\x2a\xf8\xf3\xe2\x04\x5f\x7e\x68\xa6\x98\x61\x3c\x9e\xc6\x6d\xe5\xcd\xac\x7f\x98\x64\x0d\x43\xf1\x27\xe8\xac\xc4\x48\x7c\x8e\x28\x4b\xa5\x59\x7a\x44\xca\xd0\xd8\x0f\x58\x10\x84\x0c\xdb\x6c\x38\x10\x25\x75\x1b\xf6\x19\xef\x86\xc9\xd3\x18\x91\xb2\x75\xfb\xee\x18\xfd\x54\x4a\x31\xec\x55\x7f\xc7\x56\x4e\x44\xd3\xfe\x5d\xf4\x3e\xce\xa2\x94\x02\x3d\x5d\xae\x62\xd1\xfb\x46\x5c\x49\xa3\x39\x93\x5b\x5b\x37\xe8\x2d\x23\xad\x23\x27\x92\xf6\xc9\xb8\x17\xff\x84\xd3\xa8\x65\x95\xb5\xeb\xa4\xac\x55\x17\xf9\xad\x8c\x92\x86\xff\x9c\x7c\x0c\x6b\x09\x58\xf7\xc5\xba\x26\xea\x2b\x57\xda\x54\x33\xb3\x71\x1d\xd4\x2d\x0c\xd4\xae\xd7\x1d\x23\x48\xfa\xd9\x20\x21\x4c\xc9\x10\xb2\x6b\x99\x12\xd5\x2d\x2c\xc6\x21\x24\x0b\x46\x54\x3b\x7a\xc8\xa2\x3a\x35\x67\x53\x5e\xb2\xc1\x89\xd8\x57\xc1\x38\xc0\xcc\x17\xb7\x53\xf1\x7e\xdf\xac\x35\xf9\xac\x63\x32\x97\x01\x4a\x9f\xc0\x12\x0a\x93\x10\xc1\x56\xc9\x10\x8b\x92\x3d\x30\xd7\x65\xbb\x31\x2f\xe3\x42\xc1\xaf\x05\x4f\x19\x93\xba\xad\xd6\x38\xf1\x3a\x29\x29\x57\x00\x95\xe1\xdc\xf8\x38\x69\xe3\x81\x16\xd6\x61\xc9\xac\xa0\xd8\xc9\x96\xe0\xf4\xc8\x43\x56\xc9\x1f\x0a\xf8\xa9\x2c\x61\xa2\xe7\x9c\x13\x64\xec\x40\x8f\xba\x69\x92\x6f\x60\xe1\x2f\xb2\x2c\x69\xe7\x7e\x32\xf2\x2b\x01\x4b\x21\xa5\xb7\x7a\x85\x29\x52\xa8\x09\x78\x44\xf0\x63\x80\x0e\xa5\x22\xce\x2b\xdc\x17\x38\xed\x1f\xa6\x20\x78\x7a\x7b\x0e\xf4\x11\x38\x79\xd8\x2c\xab\x5b\xae\x75\xda\x09\x56\xce\x60\xd9\xac\xc2\x44\x52\x7e\x71\xb1\x98\x55\xf8\xa0\xa4\x8e\xa6\x99\xd4\x7d\xf0\x09\x8a\xb6\xdb\xdc\x26\x09\x35\xe4\x73\x17\x59\x51\x41\x73\x5f\x6d\x00\xf2\x95\x1e\xd5\xf4\xd5\xc3\x87\x8a\x1f\xf1\xe5\x1b\x58\xde\xb0\x9b\xa3\x9c\xfd\xfa\x2b\xd3\x0e\x5e\x94\x3f\xc5\x65\xd5\x7c\xf3\x32\xcc\x3d\xdf\x1f\xe0\x55\xd2\x51\xa9\xa9\x16\x09\x68\xec\xab\x06\x0d\x7c\xc3\x2f\x64\x3a\xe0\x95\x33\x10\x9c\x32\x44\x27\x49\x78\x54\x7f\x80\xed\x8b\x19\x0f\x5e\x98\x95\x0b\x7d\xf5\x44\x87\x7e\xa7\xbe\xe2\xc2\x6e\xde\x6c\x9d\x4e\xe4\x0d\x11\x80\x21\x82\x95\x6b\x78\x97\xbd\x24\x4b\xd9\x0b\xb5\x21\x1d\xe5\xf3\x0b\xda\x40\x89\xc0\xbc\xc1\x0e\x7c\x16\x8d\x8c\xe6\x19\xd4\xb2\x07\xa5\xcc\xde\x2d\x58\x16\x39\x7b\x92\x24\xd9\xcd\x9b\xb0\xa8\xe2\x30\x21\xd7\x2a\x35\x0e\x1f\xc0\x7a\x20\x91\x22\xb7\xe5\x49\xf3\xc3\x19\x2c\x87\x57\xb4\x22\xf0\x8b\xf9\x70\xb6\x89\xab\xf7\x69\x9e\xe5\x5b\xc4\xf3\xd1\x89\xf9\x00\xfc\xa3\xc9\x6e\xe3\xe6\x35\x73\x16\xcc\x50\x77\xdc\x41\x18\x89\x9b\x77\x45\x11\xb5\xf3\x0a\x01\xd1\x5c\xcd\x96\xd9\x36\x89\xd2\x6f\x2a\x41\x82\x56\x28\x71\x95\xd2\x59\x31\x57\x02\x71\x77\xa3\x02\xa5\xab\x02\x69\xa4\xde\x86\x37\x22\x06\x23\x1b\x1e\x77\xeb\x21\x93\xe8\x6e\x7b\xbd\x0c\xbb\xe1\x7e\x6e\x90\xa7\xad\xbc\x40\xbe\x3e\x34\xa6\x9f\xb5\xe0\xd6\xb4\xc7\x8a\x10\xb4\x56\x39\xa4\xf9\x28\xd1\x18\xc3\x2e\x04\x86\x51\xd9\x88\xde\x69\xd2\xd8\xa1\x7a\xe6\xca\xd1\x3c\x0e\x18\xc0\x55\x44\x23\xf0\x33\xe0\xef\x48\x04\x9d\xb4\x54\x73\x01\xb6\x35\xc4\x27\x54\xb6\xb8\x2d\xcb\x04\x50\x0d\x1a\x87\x41\xed\xd5\x11\x78\xdb\x81\x8e\x4c\xdb\xe9\x18\x91\x6a\x23\xa2\xcf\x63\x50\xf7\x45\xf4\x3e\xa5\x73\x8a\xae\x84\xd6\x73\xec\xb6\xe4\xcc\xb5\xf4\xb6\x91\x10\x78\xf7\xe0\xd3\x89\x7a\x50\xde\x8b\x50\x49\xcf\x60\x0a\x3b\xf2\x3c\x24\x1b\x46\x20\xbe\x4c\x5b\x53\x33\x8e\x02\x45\xc2\x1b\x57\x2d\x50\x81\x86\x66\xb8\xe7\x3d\x8b\x4b\x3e\x4b\x74\x58\xc8\x37\x57\x2e\x6b\xd9\x5b\x66\xf9\x2d\xf3\xd0\x2b\x77\x14\xf6\x8b\xd8\x37\x4c\x31\x13\xda\x42\xd1\x6f\x01\x1b\x5f\x59\x2c\x45\xfa\x6a\x2a\x1e\x14\x9e\xe3\x97\x3e\xf1\x2b\x5b\x29\xa3\xd0\x01\xd2\xb5\x50\xa7\x25\x20\x44\xa2\xbb\xe5\x31\x64\x27\x49\xb6\xa8\x9d\x09\x93\x55\x60\xc6\xb8\xdc\x7b\x8c\x09\x9c\xb7\x47\x78\x12\xb9\x43\x5c\x36\xc7\x77\xe2\xe4\x81\x21\x04\xe9\x82\x97\x7e\xc0\xd2\x0b\x1c\xe8\x3c\x19\x0f\xa1\xa5\xb5\x73\xed\xa2\xa0\x3d\x12\x80\x20\xf8\x14\xb8\x66\x8b\x33\x03\x3b\x85\xc6\xa6\x85\x43\xac\x52\xc4\x65\x60\x76\x3d\xdc\x8e\x31\x1d\x16\x36\x5b\xd2\x07\x98\x48\x3a\xe3\x21\xd0\xf5\x79\x47\xb3\xca\xf3\x86\xf3\x4a\xf1\xa2\xa7\x63\x8c\xb3\xd6\xa6\xaf\xdd\x75\x80\x9c\x22\x31\xf3\xd1\xb6\x14\xcc\x1a\x0d\x07\xc1\xcc\x5d\x37\x72\x62\x3c\xc0\x90\x0c\xae\x30\xee\x1e\x54\x82\x3f\x1e\xfc\xe9\x0c\xfe\x3a\xfa\xb6\x21\xd2\xdb\x22\x21\x77\xd3\x19\xf9\xd3\x58\x69\x39\xd3\xf4\x33\x42\x40\x77\x96\xb6\xa9\x78\xde\x54\xde\xf2\xca\xa1\xf7\xc5\x46\x17\xea\xc9\x41\x0a\x1e\x8c\xbc\xd8\xf1\xf4\x19\x30\x5c\x33\xd5\xd9\x4c\x90\x80\xb7\x6b\x6c\xb5\x93\x0f\x0d\x7f\xdd\xdd\xb3\x34\xb3\x56\x21\xc3\xd3\xc9\x13\xd9\xa2\xe7\x1d\x5b\xe3\xc9\xa8\x9d\x09\xa8\xbd\xa4\x9f\xef\x85\x7f\x8f\x2a\xef\x71\x9a\xc7\xc2\xf4\xbb\x9e\x5d\xb5\x33\xb9\x66\x4e\xe7\xae\x79\xfb\x34\x8c\x8c\x5f\x0d\x69\x8a\x29\x4c\xbd\xe4\xcd\x0d\x26\x1a\x99\x75\xe7\x05\x3f\xba\x9b\x5d\x18\x45\xbc\x64\xe0\x61\x70\xbd\x88\x1f\x89\xa0\xfd\x1c\x3d\xcf\x16\xcf\xcb\x84\x18\x2a\x9e\xd8\xec\x38\x2a\x1c\x7a\x99\xab\x5d\xb0\xdb\x6e\x77\xce\x92\xe1\xb1\x1d\x5b\x34\xa3\xda\x1d\x55\xf5\x95\x84\x5c\x90\x09\x72\x19\x38\x3b\x46\xbf\xee\x65\x86\x10\xae\x36\x24\x93\x7a\xed\x0a\x24\x1d\x71\x52\x09\x96\xe3\xb3\x09\xb4\x32\xd4\x13\x39\xc3\x59\x93\x32\x27\x11\x10\x22\xa1\xe7\x0a\x0f\xa4\xa6\x54\x7d\x93\x15\x14\xf6\xbd\x8c\xaf\xe1\x8d\x18\x34\x32\x96\x35\x1b\x1e\xb5\x51\x07\xaa\xcc\x93\x60\x03\x34\xe7\xb1\x04\xc1\xe6\x6f\x49\x7d\xe0\xcf\x8b\xc7\x1f\x58\x75\xe0\x7a\x36\xdc\x3d\x93\x5b\x34\x9e\xa4\xb7\xa6\x10\x88\xd9\xfc\x62\x26\x48\x02\xc8\x35\x30\x63\xc3\xf5\x45\x8d\xf0\x8e\x7a\xda\x95\x66\xc3\xd5\x9d\xa0\x2b\xa4\xe3\xd7\x6e\x19\x29\x85\x34\x64\x9c\x69\x40\x3b\xc3\xac\x8d\x3f\x90\xd6\x3b\xf5\x5c\xd4\xb4\x88\x9d\x1d\xab\x42\xe7\x1a\x01\x2f\xeb\x12\x33\x2d\x74\x69\x47\x96\x62\x9a\xce\x66\x83\x61\x1b\xfc\x84\xa7\x6d\x79\x35\x67\x85\xf9\x4e\x50\x2d\x2c\x8a\xd0\xd8\x88\x96\x1f\x23\xbd\xa3\x23\xce\x65\x7c\x94\xbe\x6f\x5d\xd9\xe3\xf7\x46\xfc\xf8\x57\x3d\x15\xcd\x3c\x54\x0b\x86\x6d\xa7\x2f\x0e\x40\xc1\x82\x8c\x6c\x13\xa0\x14\x1e\x1a\x42\xcd\x69\x02\x91\xb0\x2d\x38\xab\x85\x06\x97\xd4\xe0\x95\xf6\x2e\xac\x9e\xc4\xde\x59\x3a\xbe\xb8\xf5\xe2\xb9\x21\xe1\x1c\xed\x30\x34\x4d\x90\xb2\x9f\x4f\x29\x06\xdc\x91\xc4\xc5\x1f\xba\xa8\x8c\x79\x81\x4f\x7c\x43\x00\x8a\x8f\xd4\x72\x9d\x7b\x0d\x19\xea\xc0\xf9\x12\xf0\x61\x12\x57\xf5\x78\xa0\x60\xcf\xcc\x66\x33\x90\xa7\xbb\x33\x1e\xe3\xa4\x2f\xed\x08\xc8\xd8\xf4\x8e\xd1\xc8\x47\x3b\x5d\x80\xd4\x78\x7f\x86\x2f\x91\xe4\x6b\x66\xb0\x0e\xca\xeb\x91\xf8\xd9\xdd\x4c\x80\x3a\xa8\x53\x60\xa4\xbf\x95\x3c\x40\x96\x09\xb9\xbf\x80\x2b\xf3\x96\x28\x93\x77\x64\x47\x02\xe9\xc4\x49\xf6\x18\xed\x56\x6f\xf6\x40\x67\x53\x1e\xc8\x1c\x98\x44\x7a\x85\x01\xd8\x00\x3d\xd6\x01\x5d\xf4\xe0\xf9\x12\x27\xc7\xac\x82\x3a\x91\xa0\xd5\x57\x27\xab\xe0\xde\x9c\x85\x01\x31\xb4\xc5\x90\x1e\xa3\x4c\xfa\x4c\x7e\x52\x91\x51\xb9\x58\xe2\xad\x0e\x23\x30\x5a\x3c\x6e\x7b\xbf\xc3\xb7\x1d\xd3\x97\x7d\x9f\x05\xc6\x21\x4c\x2c\x08\x3b\x6e\x46\x7b\x66\x8e\x1d\x35\x5d\xaf\x8f\x99\x38\x76\x92\x6a\xed\xdd\xcb\x03\x6d\xb2\x61\xab\x6c\xd0\x2e\x63\x76\xcd\x50\x0c\x9a\x66\xec\x77\x26\xd7\x76\xcf\x8a\xee\x73\x3e\x0f\xbb\x9f\x7b\x1d\xd0\xc2\xc7\xfe\x78\xc9\x75\x38\x1f\xea\x99\xe6\x11\x99\xf4\xe3\x2a\xfe\x86\x0c\xd4\x6c\xdd\x73\x32\xa1\x35\xb1\x1e\x52\x22\x0b\x8d\x87\xd5\x2f\xc6\x26\xea\x15\xc9\x39\x1d\x10\x4b\xf9\x9c\x97\x24\x4c\x18\x59\xa9\xe3\x9a\x53\xcc\xe9\xa8\xd6\x6f\x70\x87\x2b\xad\xfc\xd6\xd0\xf7\xa0\x13\xe3\x98\xaf\x59\x53\x43\xda\xb4\xeb\xf1\x4f\xd2\xec\xc1\xfb\xb7\x3f\x05\x7f\xc3\x97\xb4\x06\xb1\x82\x53\x64\xea\x46\xa8\xad\x61\x67\x7b\xe7\x2c\x36\xbe\x2a\x27\x35\xc5\x82\x9f\x32\x0e\x9b\xaa\x19\x8d\x39\x97\xc1\x44\x43\xfe\xfc\x83\x4e\xa9\x51\x2b\x5d\x18\xbb\x6e\x64\x35\x3a\x69\x8d\x63\x2c\xbc\x4e\x75\xb6\xea\xf0\x01\x5a\xa4\xc3\x07\x75\xeb\xb7\x30\x62\x07\x99\x67\xde\xa0\x4e\x93\x5d\x70\xd4\x3a\x84\x3f\x18\xee\xee\xdd\x13\x86\x4e\x13\xf0\x0e\x50\x9a\xd8\xaf\x0d\xc6\x08\x78\x6c\xc7\x7a\x39\xf2\x5d\x1c\x70\x52\xa0\x87\xc1\x3e\xed\xde\x1b\x39\x1d\x3a\x3c\x60\xb1\xfd\x1f\xcd\x41\xea\x6e\x09\x3d\xfe\xd1\xfa\x50\x43\xc3\x72\xf1\xf7\x31\x3e\x3e\xce\x45\x7b\xda\x18\x20\x85\xbf\x9c\x52\xee\x61\x87\xfa\x2a\x1e\x89\xe0\xf4\xe5\xdb\x0c\x1c\xb8\x6a\xef\xb3\x43\xa7\x1e\x6a\xe4\x56\x38\x31\xa0\xd1\x73\x0e\xb4\x8f\x75\xce\x38\xa0\xa3\x64\x1d\x46\x5c\x77\xe8\x54\x03\xe5\xd2\x47\x98\x19\x15\x33\x84\xb7\x27\x51\x9d\x5b\xf5\x30\xce\x4f\x54\x0c\x86\x33\xb0\xc6\x1e\xa6\x40\x61\xc6\xcc\xbc\xce\x91\x8b\xc6\xa9\x09\x26\xd2\x3c\x3a\x31\x7a\x68\x62\xd7\x99\x09\x33\x42\xe4\x65\xba\x22\x18\x3c\x5a\xa5\xc5\x3f\x9d\x9a\xe8\xd2\x40\xe5\x85\xc3\xbd\x05\xbd\x68\x6f\x2f\x5a\xae\x71\x4e\x02\xfa\x12\x26\x65\x86\x53\x20\x6b\x98\x37\x29\xb0\xa2\xa7\xe3\xad\x9b\x8d\xef\x08\xef\xf8\x9b\x8b\x12\x47\x77\x84\xbf\xab\xa2\x9d\x15\xf4\xe0\xa0\xcc\xa1\x12\x99\xf9\x5f\x7c\xc8\x03\x49\x7c\xf9\x21\x0f\xa7\x76\x9d\x8e\xd7\x73\xc6\x23\x65\x38\xcb\xda\x0b\xec\x81\x6b\xba\x65\xa4\x92\x51\xdb\x64\x15\x59\xdf\x98\x1c\x12\xa6\x78\x45\xd2\x2f\x78\x0e\x3d\xe7\xcb\x98\xf8\x1d\x5f\xd0\x04\x9b\x33\x01\xe4\xba\x91\x08\x10\x51\x46\xd7\x92\x94\xb7\x65\xa5\x37\x73\x14\x2e\xa0\x95\xc4\x57\x3a\xb1\xe7\x44\xc8\x63\x38\x5b\x67\x65\x75\x42\x63\x57\x1f\x04\xa9\x7b\xe0\xd9\xa6\x6c\x28\x71\x28\xcb\xef\xf0\x23\x20\x18\x12\x30\x22\xc7\x41\xbb\x55\xfc\xd9\xb6\x08\x53\x49\xb7\xc1\x89\x4d\x6f\xf8\x38\xe5\xd7\x27\xc7\xc7\x33\xf5\x1f\x76\x24\x48\x59\x6d\x5b\x8e\x2c\x00\x4b\x96\xda\xde\x87\x29\x11\x2b\x6c\xa7\x72\x49\x1e\x82\xae\x1e\x9b\x4a\x0e\x18\xf0\x29\xff\xd9\xab\x8c\x27\xd2\x49\x85\xe4\x7b\x2d\x58\x06\x28\xd5\x07\x09\xdd\x64\x05\xac\x49\x4e\xaf\x54\xb2\xd3\x93\xaf\xf6\x16\x6f\xd8\x24\xdd\xec\x9c\x6c\x99\xf9\xd3\x06\x7e\x3a\x28\xfb\x8e\x0c\x88\x96\x79\x27\x4c\xe3\x57\x3e\xe1\xe2\x98\x82\xf0\xa4\x3f\x77\x6b\x3c\x36\x75\x08\xe0\x77\xed\xa6\xb1\x93\x2d\xd8\x12\x03\xce\x91\x7a\x3d\x17\xe7\x39\x67\x5c\xe4\xbe\x86\xc1\xa4\x40\x01\xb4\x04\x5f\x41\x57\x78\x5b\xc6\xa2\x16\xa5\x86\xb0\xc9\x82\xfa\xc0\xe4\x40\x53\xb4\x46\x07\x3b\xd2\xfa\x5a\x19\x80\x8d\x4c\xc1\x66\x86\x5f\xfb\x50\xcb\xa4\x7d\xae\xc5\xa0\x6c\x27\xcb\xaf\x3f\xf9\x6f\xfc\xa8\xcb\xe8\xbc\xdb\x23\x2f\xbf\xfb\xcc\x0f\xa5\x49\x12\x9c\x19\x9e\xda\x79\x1b\x6d\xf6\x25\x3b\xd6\xe7\x6c\x6c\xa4\x07\xe7\x71\x01\x13\xa7\x1e\xe1\x1a\x86\x5f\x73\xf6\xa1\x1b\x27\x96\x79\x4d\x67\x5a\x10\x17\x40\x1f\x1e\x61\x05\xfe\x49\xfb\x85\x98\x07\xf5\xfd\x01\xf8\x45\x80\xca\xb3\xea\xb3\x49\xa3\x7f\x87\xf8\x76\x49\x37\x4c\x6c\x0b\xc9\xaf\x21\xa8\x20\x0b\x17\x96\x23\x80\xad\x84\x4f\xa6\xf1\x3e\x07\x9a\x9b\x12\xda\xc1\xee\x06\x2d\x6a\xe0\xab\x6c\x4b\x9c\x05\xc9\xdb\xde\xc6\x40\x58\xd7\x86\x46\xac\x20\x39\x2a\x81\x52\xaf\xb2\x4a\x6e\xc7\x43\x92\x48\x8b\x34\xc5\x3a\xbc\x06\x13\x4f\x6e\xbd\x1d\x87\x24\xd4\xce\x82\x32\x9b\xe5\x82\x28\xba\x0b\x07\x35\xbf\x61\x0d\xef\x1a\x94\xec\xc7\xd0\x9c\x1c\x64\xc5\x4f\xc1\x36\x9b\x63\x69\xef\xae\x70\xae\xaf\xc2\x03\x83\xb2\xe1\xca\x31\x84\xe6\xd8\xf1\xd1\x03\x27\xea\x36\xbc\x1f\xb8\x69\x3a\x3d\x85\x24\x3b\x7b\xe4\x7a\xb3\x3d\xd0\xe1\xef\x76\xf8\xc0\x22\x1e\x0c\xd4\xb5\x73\xf3\x9a\x67\x04\xc8\x31\x47\xf8\x17\x37\x80\x81\xa3\x54\x3b\x15\x76\xdb\xe9\xd6\xab\x6c\x46\x7d\x6e\x6d\xfb\x4a\x1c\x6e\x8c\xc6\xda\x4e\x37\xe3\xa1\x91\x66\xdc\x43\x48\xee\xd1\xed\xb6\xd3\xcd\xc9\x97\x63\x98\x27\x39\xb0\xf6\xcb\x9a\xee\x3d\x41\xef\xc4\x9f\x1e\x3f\x76\x93\x81\xc1\xce\x92\x8c\x57\xb2\xa7\x72\x18\x42\x66\x13\x2b\xa4\x44\x8b\x6d\x2b\x5a\x40\x55\x85\x81\x3f\x3a\xbe\x4a\xbd\x70\xd7\x9f\x64\x1d\x02\x8c\x26\x13\xa6\xe6\xd1\x30\xb1\xd3\x29\x68\x8e\x12\xf5\x38\x05\x7b\x87\x7d\xdc\x27\xc8\x65\x0e\x77\x0a\x1e\xe2\xc4\x3b\xa5\xab\x62\xcf\x5e\x7f\x3f\xe8\xc7\xc3\x2c\x87\x3a\xa1\x91\x34\x0e\xf9\x8e\x38\x80\xea\x38\xee\xf6\xf4\x09\xf6\xb8\x04\x2d\xd1\x99\xef\x9c\xbd\x29\x9c\x04\x52\x24\xec\xb8\x9d\x5e\xff\x75\xb7\xdb\xb1\x91\x3e\x0a\xa6\xc6\xcc\x91\x99\x13\xf5\xcd\x83\xe8\x1b\x32\x03\xea\x36\x6c\xdb\xec\x54\x2d\xf3\x5d\xd2\x3c\x3d\xd8\xcf\x38\xe8\x66\x1c\xf2\x32\x3a\x43\xbb\xc3\xc7\x88\x0c\xf7\xf8\x18\x3b\x23\xe4\x0e\x4a\xeb\x64\xd2\xc3\xfa\xb2\x81\x49\xeb\xb6\x01\x47\x01\xb5\x0f\x05\xee\x11\x1f\xd8\x1d\x1d\x60\x40\xd0\xf0\x00\x1d\x16\x1f\xe8\x1c\x27\x9c\x5a\x6b\x57\xdc\x41\x50\x67\xef\x90\x00\xdd\xe4\xca\x47\x12\x0a\x58\x41\xa5\xc2\x86\xc8\x30\x81\x7d\x79\x22\xbb\x5f\x63\xf3\xf5\x10\x13\xcc\x4d\x00\x0e\x55\x0d\x39\x7d\x8d\x2a\xd8\xa3\x5b\x7b\xc4\x07\x06\x8e\x1b\x5a\xd7\xd1\xd8\x01\xc3\x31\x8f\xb9\xf1\x62\x42\x3d\x12\x07\x77\x8b\x1a\x34\x7f\xdb\xe5\x86\xed\x6b\xf6\x3c\xbc\xd3\x6c\x7c\xb6\x92\x16\x64\xbd\xd9\xd4\x51\xf1\xe5\x52\x32\x8c\x58\x6f\x74\xc6\xce\xc6\x4e\x9b\x97\x8c\x95\x7c\xcd\x40\xc3\xbf\x89\xad\xbe\xe3\xf7\xd6\xc1\x69\x0a\xde\xb7\xef\x64\x43\x98\x38\x3b\x9e\x8d\xbb\x88\x6b\xef\x70\x9f\x15\x98\xb3\x17\x61\xbc\xfe\x60\x36\xa0\x5d\xd5\x3c\x32\x94\xc0\x60\x28\x12\x24\xa0\x91\x7c\x1b\xde\x08\xf8\xdc\x9a\x67\xfb\xcd\x7e\xa0\xb7\xcd\xd1\x6e\x87\xe4\x6d\xa0\xbf\xcf\x93\xed\x8c\xeb\x90\xe3\x5a\xd5\x57\x16\xec\xe7\x33\xa6\x72\xb8\x1e\xbe\x76\xb3\x5c\x95\x57\x57\xfd\x21\xa3\x43\x89\xf2\x4f\x2d\xcc\x7c\x6b\x14\x52\x90\x72\x66\xdd\xce\x7f\xb3\x3e\x76\xb9\xf7\xad\x0e\x85\x52\x48\x1a\x04\x30\xb0\x85\x9f\x41\x91\xa4\xbe\x53\x56\xa6\x1c\xf3\xcb\xd0\x84\x71\x59\x91\xe6\xba\x87\x2a\x86\xe8\x99\x68\x8c\x93\x30\x31\xc2\xe4\x5c\x35\xf3\xf2\xee\xdc\xf6\xd1\x19\x7b\x7f\xff\x20\x02\x5d\x0b\xac\xc1\xd3\xb5\x68\xdd\x19\x02\x43\xc7\xba\xb3\xec\x0b\xb7\x75\x24\xb9\x95\x4f\x32\xe7\xb3\xc2\x23\x0c\xf5\x05\xa2\x9a\x72\xde\x68\x53\xce\x00\xb6\x7e\xb5\xad\x4d\x91\x9a\x0c\x23\x0b\x43\xb1\x86\xae\xe8\x50\xf1\x31\xd1\x31\x64\x73\xbb\xc6\xb9\x8a\x39\xca\x78\xc0\x68\x30\x8d\x7f\xfb\x70\xb8\x0b\x96\xda\x02\x19\x15\x41\xe1\x3d\x80\x0e\x3b\xee\x0a\xc3\x3a\x0b\x98\xb0\x56\x47\x5d\x1e\x16\x0e\x75\x23\x70\x7c\x68\x0b\x86\xe5\xb7\x05\xe0\x6c\xe4\x67\x57\x90\x62\x38\x4a\x31\x1c\xa6\x18\x8e\x53\x0c\x06\x2a\xf8\xd2\xca\x9e\x5c\x6e\x27\x54\xc1\x71\xd8\x2f\x56\xd4\x92\xb6\x4d\x43\x2f\x29\xdb\xea\xc1\xf5\xcc\xc4\x77\xad\xba\x7e\xca\xe7\xcb\xda\xff\x2e\x83\xc7\xff\xd4\x03\xc0\xe9\xa7\xdb\x15\xe0\x76\xce\xfe\x71\xce\x6a\x2a\x37\x5e\x66\x52\x5f\xba\x97\x55\xef\xbc\xbe\xd2\xfe\xdb\x15\xfb\x3a\xa4\x5f\x3d\x39\x7f\xf7\x85\xd7\x57\x52\x35\xac\xaf\xd8\x88\xb7\xbf\xe5\x8e\x1f\xfa\x67\x49\xf8\x76\x9f\xb2\xb8\xe6\xdf\xf6\x2e\x72\x81\x2d\xdd\x6b\xd0\x27\xfb\xdd\x83\xde\xbe\xdc\xe6\xdd\x76\x61\x67\x1f\x9b\xc7\xc5\xbe\xd5\xf0\x16\x33\x6a\x17\x7c\x69\x68\xe7\x66\xf4\xa0\x79\x93\x68\x6f\x99\x19\x71\x1f\x74\x2e\xd4\x7b\x59\x5e\x52\x3f\xfd\x7d\xd1\x03\x81\xac\x36\xcf\xce\xd5\x30\xce\xe4\x37\xaf\xe1\xc7\x23\xf2\xce\x34\xed\x7b\x4d\x28\xcd\xcc\xee\x6b\x42\x6b\xca\x3b\xcf\xde\x37\xfe\x39\x94\xc0\x8e\xad\x3d\x7f\xef\xcc\xf0\xc0\xf5\xa0\xe3\x14\x24\xda\xf6\xc7\xbb\x25\xb4\xee\xd7\x7e\xb7\x84\x36\xae\x08\x6d\xf6\x19\x0f\x8d\xdb\x6e\x1f\x74\x4d\x28\x4e\xd4\xc0\x1d\x4a\xd6\x76\xea\x94\x71\xdc\xc9\x75\x89\xbe\xe3\xe4\x07\xdc\x23\xea\xcc\xf2\x6f\xba\x47\xd4\xa1\x63\x4f\x05\x1e\xf4\x6f\x59\xc0\xae\xf1\x68\x48\xa2\x3a\x57\x84\x1e\x78\x13\xa5\xe3\xc4\xe1\x41\x6d\x5d\x07\xd3\x7f\xbd\x49\x79\x29\x6a\x0f\xb4\xc3\xb0\xef\xa6\x9b\xb8\xd5\x77\x03\xcc\x48\x6a\x23\x1e\x4d\x79\xce\x87\x7c\xf0\x36\xcf\xef\x0e\xb8\xca\xf3\xe1\x5e\x37\x40\x4e\x1b\x12\xb5\x23\x1f\x83\x3a\xbc\x47\x3e\x06\xe5\x5f\x64\x8b\x7f\x60\x9c\x51\x4c\xec\xd2\xce\x97\xb9\xb1\xf1\x25\x5e\x21\x41\x6e\xc5\x8c\x04\x43\xfe\x8d\x3a\x8a\x59\x6f\xb1\x6d\xf4\xed\x51\x46\x36\xba\xa4\xcb\x18\xd5\x9d\x5c\x49\xd0\x48\xd3\xe8\xe1\x7b\xe8\x3e\x56\xbc\x4a\xc9\xc4\x20\xa1\xbe\xbb\x6f\xed\x48\xd7\x30\xe3\xdc\x90\x41\x6e\x1f\xbb\xe0\x36\x3c\xb7\xb7\x2e\x2d\x6b\xb2\xfe\x21\xa1\x63\xec\xd1\x97\x87\x8e\x9d\xda\x3b\xee\x07\xc4\xde\xfc\x6f\xdf\x0f\x58\x73\xd7\xc5\x0e\x83\x1b\xd0\x9b\xed\x22\x89\xcb\x75\xbd\xff\xec\x13\x19\xee\xbf\x86\x6f\x5f\xcc\x71\xe0\x1d\x7c\x26\x50\x39\x78\x0f\x5f\x67\x6f\xb0\x7d\x92\x30\xa5\xbd\x8c\x8f\x03\x96\x3b\x10\xcc\xd4\x89\x44\x36\x16\x80\x1b\x7e\x1c\xd8\x4d\x1a\x81\xc7\x76\xdc\xb1\x1d\x76\x6c\xa4\x79\xfd\x61\xee\xd3\x23\xc4\xf3\xa5\xb7\xce\x0d\x0c\x48\xaf\xb2\xdb\xef\xd6\x39\xb3\x11\xfc\xdb\xee\x97\x1b\x60\x79\x8f\xbd\x49\x0d\x6f\x4e\x98\x18\xb2\xc7\xbe\x03\x05\x6c\x90\xa2\xbd\xff\x00\x89\xee\x16\x04\x2f\xef\x1d\xea\xa6\x32\x1f\xd4\x32\x95\x31\x13\xbf\xfd\x2d\xa0\x18\x00\x9e\x0f\xf8\x18\xcb\x45\x15\x1f\x67\x03\xcd\x98\x98\x45\x97\x88\x49\x4d\x33\x8c\xf4\xf8\xf9\x7b\x6f\xcd\xdb\x77\x17\xee\x73\xc0\x8f\x6f\xc3\xfd\x77\xfb\xba\x32\x2c\x9b\x71\xff\x5e\xdc\xeb\x0e\x6f\x6c\xc5\xad\xdb\xf5\xcc\x3f\xaa\x2a\xf1\x68\x27\x72\x1c\x0e\xec\xce\xd8\x39\xa3\xda\x41\x68\xda\x9b\xf3\x11\xf1\xfa\xfb\xec\xd0\xfb\x82\xaa\x5d\x5e\xf0\x9d\x3b\xb2\x6d\x88\x08\x5b\x72\xbe\x33\x0d\xff\x02\xe7\x6e\x0c\x22\x04\x78\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 30392, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xed, 0xb5, 0x6, 0x97, 0xfb, 0x54, 0xd7, 0x45, 0x7, 0xbe, 0x56, 0x30, 0x83, 0xa9, 0x54, 0x21, 0x96, 0x50, 0xb4, 0xa0, 0x8a, 0x6b, 0xd3, 0x34, 0x15, 0x2f, 0x69, 0x6a, 0x55, 0x21, 0x2b, 0x98}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 30724, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x22, 0xa4, 0xc9, 0x6d, 0xf7, 0x49, 0xc0, 0xf5, 0x7c, 0xd1, 0xa7, 0x95, 0xe9, 0x9c, 0x30, 0x31, 0x17, 0x23, 0xd4, 0x2e, 0xd, 0x30, 0xb0, 0x97, 0x82, 0x51, 0xe6, 0x96, 0xe9, 0x53, 0x3a, 0xf4}}
 	return a, nil
 }
 
-- 
2.43.0


From 555788194d9af3b076e476bdcfa62ac7fd5dd636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:02 +0000
Subject: [PATCH 24/42] fix: NATS carries oneofs and tells errors from
 responses

---
 .../NAME-service/baron/NAME.pb.baron.go.tmpl  | 65 ++++++++++++++++---
 gengokit/template/template.go                 |  6 +-
 2 files changed, 58 insertions(+), 13 deletions(-)

diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index 894a64a..b50787f 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -869,6 +869,7 @@ func ServeNATS(conn *nats.Conn, srv *natsServer) error {
 func MakeNATSServer(endpoints Endpoints, options ...natstransport.SubscriberOption) *natsServer {
 	serverOptions := []natstransport.SubscriberOption{
 		// grpctransport.ServerBefore(GRPCMetadataToContext),
+		natstransport.SubscriberErrorEncoder(EncodeNATSError),
 	}
 	serverOptions = append(serverOptions, options...)
 	// {{ ToLower .Service.Name }}
@@ -896,7 +897,11 @@ type natsServer struct {
 {{range $i := .Service.Methods}}
 func DecodeNATS{{.Name}}Request(ctx context.Context, msg *nats.Msg) (interface{}, error) {
 	var req {{GoName $i.RequestType.Name}}
-	if err := json.Unmarshal(msg.Data, &req); err != nil {
+	unmarshaller := protojson.UnmarshalOptions{
+		AllowPartial:   true,
+		DiscardUnknown: true,
+	}
+	if err := unmarshaller.Unmarshal(msg.Data, &req); err != nil {
 		return nil, err
 	}
 	return &req, nil
@@ -909,7 +914,34 @@ func DecodeNATS{{.Name}}Request(ctx context.Context, msg *nats.Msg) (interface{}
 // JSON object to the subscriber reply. Many JSON-over services can use it as
 // a sensible default.
 func EncodeNATSGenericResponse(ctx context.Context, reply string, nc *nats.Conn, response interface{}) error {
-	return natstransport.EncodeJSONResponse(ctx, reply, nc, response)
+	marshaller := protojson.MarshalOptions{
+		AllowPartial:    true,
+		UseProtoNames:   true,
+		UseEnumNumbers:  true,
+		EmitUnpopulated: true,
+	}
+	data, err := marshaller.Marshal(response.(proto.Message))
+	if err != nil {
+		return err
+	}
+	return nc.Publish(reply, data)
+}
+
+// natsError is the reply to a request which failed. The marker is the name of
+// no field, so that no response can be taken for it.
+type natsError struct {
+	Error  string `json:"err"`
+	Marker bool   `json:"@error"`
+}
+
+// EncodeNATSError is a transport/nats.ErrorEncoder that encodes the error as a
+// JSON object to the subscriber reply.
+func EncodeNATSError(_ context.Context, err error, reply string, nc *nats.Conn) {
+	data, marshalErr := json.Marshal(natsError{Error: err.Error(), Marker: true})
+	if marshalErr != nil {
+		return
+	}
+	nc.Publish(reply, data)
 }
 
 /************************************** NATSClient ******************************************/
@@ -944,14 +976,16 @@ func NewNATSClient(conn *nats.Conn, options ...natstransport.PublisherOption) ({
 // DecodeNATS{{$i.Name}}Response is a transport/nats.DecodeResponseFunc that converts a
 // nats.Msg to a user-domain {{ToLower $i.Name}} response. Primarily useful in a client.
 func DecodeNATS{{$i.Name}}Response(ctx context.Context, msg *nats.Msg ) (interface{}, error) {
-	// if err := json.Unmarshal(msg.Data, &errResponse); err != nil {
-	// 	return nil, err
-	// }
-	// if errResponse.Error != nil && errResponse.Error.Code == "_internal_" {
-	// 	return nil, errors.New(errResponse.Error.Message)
-	// }
+	var failure natsError
+	if err := json.Unmarshal(msg.Data, &failure); err == nil && failure.Marker {
+		return nil, errors.New(failure.Error)
+	}
 	var resp {{GoName $i.ResponseType.Name}}
-	if err := json.Unmarshal(msg.Data, &resp); err != nil {
+	unmarshaller := protojson.UnmarshalOptions{
+		AllowPartial:   true,
+		DiscardUnknown: true,
+	}
+	if err := unmarshaller.Unmarshal(msg.Data, &resp); err != nil {
 		return nil, err
 	}
 	return &resp, nil
@@ -963,6 +997,17 @@ func DecodeNATS{{$i.Name}}Response(ctx context.Context, msg *nats.Msg ) (interfa
 // JSON object to the Data of the Msg. Many JSON-over-NATS services can use it as
 // a sensible default.
 func EncodeNATSGenericRequest(ctx context.Context, msg *nats.Msg, request interface{}) error {
-	return natstransport.EncodeJSONRequest(ctx, msg, request)
+	marshaller := protojson.MarshalOptions{
+		AllowPartial:    true,
+		UseProtoNames:   true,
+		UseEnumNumbers:  true,
+		EmitUnpopulated: true,
+	}
+	data, err := marshaller.Marshal(request.(proto.Message))
+	if err != nil {
+		return err
+	}
+	msg.Data = data
+	return nil
 }
 {{end}}
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index db2d9b7..e923b77 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x02\xff\xed\x5d\xeb\x93\xdb\x36\x92\xff\x2c\xfd\x15\x88\x2a\x76\x48\x9f\x86\xe3\x6c\xd5\x5d\xed\x4d\x6a\xae\xca\x8f\x49\xe2\xdd\xf8\xb1\xf6\x38\xf9\x30\xe5\xf2\x52\x22\x34\xe2\x0e\x45\xd2\x24\x35\xe3\xd9\xc9\xfc\xef\xdb\x2f\x80\xe0\x53\x92\x93\xbd\x4a\x5d\x5d\x6a\xd7\xa6\x48\xa0\xd1\x00\x1a\x8d\x5f\x3f\x00\x1f\x1f\xab\x67\x59\xa4\xd5\xa5\x4e\x75\x11\x56\x3a\x52\x8b\x5b\xb5\x08\x8b\x2c\x0d\xd4\xf3\xd7\xea\xd5\xeb\x73\x75\xf6\xfc\xc5\x79\x30\x3d\x3e\x56\x6f\x75\xb1\x4d\xd3\x38\xbd\xe4\x02\xea\x26\x4e\x12\x95\x5d\xeb\xe2\xa6\x88\x2b\xad\xaa\x75\x5c\xaa\x55\x9c\x68\x2a\xfc\xb3\x2e\xca\x38\x4b\x4f\xd4\xdd\x5d\x20\xcf\xf7\xf7\xce\x07\xf5\x1c\x5a\x73\xbf\xe2\x6f\x28\x31\xcd\xc3\xe5\x55\x78\xa9\xf1\xcb\x1b\x7e\x7c\x15\x6e\xe8\x0b\x54\x3e\x37\x6d\xa8\x65\x96\x56\x61\x9c\x96\x6a\xa3\xab\x75\x16\x95\xaa\xca\xd4\x26\xbc\xd2\x2a\x4e\xa3\xf8\x3a\x8e\xb6\x61\xa2\x74\x1a\xe5\x59\x9c\x56\x50\xa5\xc8\x36\xaa\xd4\xc5\x75\xbc\xd4\xe5\x1c\x29\x15\xfa\xd3\x56\x97\x95\x0a\xd3\x08\x9e\xcb\x3c\x4b\x4b\xe8\xc2\x6d\xae\x89\x12\x16\xc5\x1e\x65\xf0\xd2\x52\x99\xab\xb0\x54\x37\x1a\x3a\x0d\x7f\xeb\x74\x09\xe3\x56\x94\x48\x00\xe9\x45\x5a\x7e\xaf\xb2\x42\x2a\x12\xb5\x39\xbd\x08\x71\xa4\x56\x2a\xdb\x16\xaa\xdc\xe6\x79\x56\xe0\x48\x57\x45\x98\x96\xf8\x8c\xcd\xc5\x61\x12\xff\x33\xac\x60\x20\x90\x1a\xd4\xd9\x84\x55\x19\x4c\xa7\xf1\x86\x4a\x78\xd3\xc9\x6c\x71\x5b\xe9\x72\x06\x0f\xd8\x77\xfd\xb9\xc2\x47\x62\x03\xa6\xe4\xf8\x1f\x65\x96\xe2\x8b\xd5\x86\xde\xc7\x19\xff\x79\x1c\x67\xdb\x2a\x4e\xf0\x47\xaa\xab\xe3\x75\x55\xe5\xe6\x79\x5b\xd0\xeb\xb2\x2a\x80\xde\xb5\x3c\x02\x29\x68\x02\x9e\x2f\xe3\x6a\xbd\x5d\x04\xcb\x6c\x73\x7c\x99\x1d\x5d\xc5\xd5\x31\xfe\xdf\x8c\x05\x94\x0e\xd3\xdb\x7c\xa1\x66\x97\x59\x76\x09\x53\x7e\x99\x25\x61\x7a\x19\x64\xc5\xe5\x71\x5e\x64\x55\xb6\xd8\xae\x8e\xa9\xff\xc7\x57\x69\x76\x93\x1e\x53\x69\xa8\x15\x6d\x0b\xea\xe4\x01\x55\xeb\x2a\x50\x5f\x6f\xf2\xea\x90\x76\xa5\x3c\xd4\x5c\xc5\x3a\x89\x36\x61\x79\x75\x40\x6d\xa7\x0e\x50\x80\xe1\xd9\x2e\xab\x03\xaa\x9b\x0a\x50\xb7\x8a\x37\x20\x6d\xe1\x26\x3f\xa0\xba\x53\x07\x28\xdc\x14\x61\x9e\x83\x80\x1d\x40\xa0\xae\xd2\x9d\xd2\x02\x16\x6f\x78\xbc\xd9\x7e\x9e\x35\xbf\xe4\x57\x97\xc7\xba\x28\xb2\x82\x24\x6d\xa4\x21\x2b\x79\xf4\xc6\x88\xdf\x48\x05\x7a\x40\x46\xee\xee\x8e\x54\xbc\x52\xfa\x93\x0a\x9e\x65\xe9\x2a\xbe\x0c\xce\xed\x4a\x98\xc1\x4a\x99\xa9\x59\x0a\xc2\x3f\x53\xb0\xe8\x1b\xbc\xe1\xdb\x23\x90\x69\xfc\x1b\x9a\x98\x31\x29\x90\x49\x2c\xb8\x07\xd5\xcb\x22\x5f\x1a\xaa\x1d\x3e\xe9\xe3\xe0\x97\x63\x50\x33\x61\x14\x56\x61\xbb\xd1\xbd\x9b\xc4\xa7\x7a\xc5\x0f\xac\x2f\x5b\xc0\xb0\xe3\xb4\x85\x6b\xf7\x00\x02\xb2\xd4\x0f\x1a\x6c\x7c\x3a\xa0\x09\xaa\xe8\xf2\xe8\x4f\xa7\xd3\xeb\xb0\x40\x6d\xf5\x51\x9d\x2a\xd0\x45\xc1\xbb\x1c\x74\x4a\xc5\xbf\x49\x81\x01\x1b\x9b\x3c\x2c\x34\xbf\x12\xed\x13\x3c\xa9\xb2\x98\xdf\x34\xba\x19\xbc\xd2\x37\xef\x50\x17\x17\xfc\x91\xb5\x59\xf0\x2a\xcb\x9f\x25\xa0\x62\xed\x5b\x20\x9a\xdf\xf2\x0f\x16\xde\xe0\x17\x90\xfd\xe9\x04\x54\xa9\xcc\xa7\x11\x43\xd6\xca\x58\x94\x54\x52\xf0\x24\xa5\x7a\xb5\x92\x09\x9e\xcb\x23\xbe\x16\xf5\x11\x9c\xe1\xdf\xf8\xc2\x2c\xe9\xe0\x1d\x3d\xe0\x2b\x67\x99\x06\xe7\xe6\x19\x3f\xd4\xcb\x0f\x4b\xc3\x52\xf9\x39\x4c\xb6\xd4\x6f\x47\xaf\x04\xdf\xe3\xf3\x4b\x78\xc6\xd1\x3b\x7e\xb4\xd7\x7f\xea\xcc\xee\x6c\x8f\xf6\xfe\xef\x98\x76\xd0\x17\xa9\x0a\x79\x7b\x2b\xe6\x2a\xae\xbe\x29\xd5\xb6\xd4\xab\x6d\x42\xdb\xd4\x6a\x9b\x2e\xb1\xeb\xb0\x07\xae\xc3\x4a\xa5\x1a\x77\xa9\x4c\x65\x39\x61\x03\x95\x61\x5d\x78\x3e\x32\xdb\x00\x12\x5c\x84\x65\x5c\x06\xea\x7b\xa8\xae\x3f\x43\xcf\x13\x3d\x57\xb7\xd9\x56\x6d\xe2\xcb\x75\xa5\xf2\xb0\xc4\x2d\xd2\x61\x18\xe8\x85\xb6\x21\x6e\x07\xe6\x26\xda\xc2\xc6\x8c\xe4\xa0\x2c\x4a\x40\xf0\x23\xec\xab\x09\xf2\x78\x03\x42\xa8\x74\xb8\x5c\xcb\x4e\xaf\x3c\xd3\xba\x0f\xdf\x0a\xe0\x70\x9b\x33\xd1\x32\xd7\xcb\x78\x15\x2f\xa1\xd1\x6a\x1d\x28\xef\x05\xf1\x07\x80\x01\xe8\x2f\xc2\x45\x72\x0b\x65\x36\x31\x4c\x0f\xa1\x04\xd8\xb1\xcb\xf8\x32\xc5\xaa\x71\x7a\x9d\x5d\xe1\x76\xaf\xd5\x3b\xc6\x08\x16\x55\x10\x8b\x1a\xe9\xd4\x3d\x60\x19\x40\x12\x66\x24\x03\x1f\x4a\xd8\xd1\x5d\x26\xb1\x4e\xab\xe6\xe8\x42\x2b\xcb\x2c\x49\x34\xd5\x33\x00\x05\x38\x02\xe1\x67\x72\xd0\x8f\x1a\xae\xc0\x1f\xd0\x21\x24\x58\x82\xd8\x24\x0c\x25\x78\xac\x62\x1c\xe1\x8d\xa6\x91\x74\xf8\x85\x1a\xba\x58\x85\x4b\x3d\x34\x13\x48\xcc\x36\xd6\x0f\x92\xb6\xd8\x98\x6a\x6a\x10\x5c\x80\xcf\xa4\x3f\xa0\x07\x16\x71\x4a\xe3\xb4\x11\x16\x9d\x89\x9d\x0b\x94\xaa\xb6\x45\x0a\x5d\xc7\x1e\x23\x83\x4b\xe8\xa6\x2e\x10\x31\x85\x86\xd9\x60\x4a\xdd\xe9\x0c\xe8\xdd\x74\xf2\x3e\xb5\xfd\xd3\x11\x20\x40\x53\x83\x21\xa0\x68\x82\xbb\x3b\x60\x11\x10\xe2\xd7\xb1\x3a\x39\x55\xb6\xcc\x4b\x9e\x32\x56\xcb\x5f\xc7\x52\xc7\xb4\xa2\xe0\x3f\xd3\xd5\xc0\xbc\x04\x52\xac\xb8\x18\x5d\x5a\x8e\x76\x37\x81\x02\x0c\x92\x58\x57\xf1\x95\xd3\xa8\xb7\xac\x3e\x2b\x41\x69\xa8\x76\xf1\xef\x39\x0a\xcc\xa3\xbb\xbb\x1f\x32\x2c\x03\x94\x83\xb7\x0c\x41\xcf\x61\x30\xa4\x9e\xaf\xbc\x56\x09\x06\xa6\x4e\x91\x39\x2b\x38\x1f\x47\xcb\xe0\x56\x7a\x87\x8c\xea\xa0\xa7\xe7\xc8\x0c\x36\xee\x4f\x27\xb8\x11\x40\xc9\xaf\x4e\x55\x1a\x27\x48\x61\x22\xf3\x05\x3f\x89\xc8\x74\x72\x3f\x35\xef\x0c\xf5\x60\x27\x4f\xfe\x1c\x09\xc0\x20\x9a\xe1\xc4\xc1\x7c\x89\xcb\xcc\x1d\x51\x5a\xc8\x5f\x83\x1a\xc1\x11\xbd\xc7\xc2\x47\xca\x1d\x65\xf8\x34\x34\xd0\x48\xab\xaf\x67\x25\x0e\xba\x53\xcd\x15\x13\xbf\x3b\xdd\x3c\x66\xd4\x39\x24\xdb\x3f\x4b\xc6\x30\xb0\x2b\xea\x0e\xa7\xc5\x9a\x08\xce\x6b\x1e\xf6\x7a\x3a\x80\xf6\x27\xec\x88\x50\xe8\x8c\x5b\x67\xb6\xa1\xca\xb5\x9d\xbb\x32\x68\x09\x10\xb1\x82\x65\xba\xb3\xd6\x9d\x36\x9c\x37\xf3\xf6\x9a\xa7\x63\x72\x3f\xe5\x41\xe6\x39\x71\xe7\x06\x37\xc7\x27\x49\x72\xf6\x79\xa9\xf3\x8a\xf6\xa9\x92\x55\xac\x1d\x29\xda\xa1\xd0\x64\x91\xb5\x59\x2f\x56\x9a\x46\xd2\x4d\x3d\x76\x41\xf0\x32\x8e\x40\x6d\xdf\xc0\xfe\x4e\x56\xe0\xfb\xd2\xd8\x85\x68\x04\xe5\x79\x72\x8b\x2a\x06\xd5\x66\x85\xc4\x37\xb6\x34\xed\x0b\x1a\xa6\xed\xd6\x4e\x1b\xae\x17\xd4\x20\xa5\xd1\x1a\x40\xef\x75\x8e\xbb\x06\x6a\xce\xb9\xa3\xb8\x96\xa0\x87\x16\x9a\xf6\x1a\x50\xa3\x50\x0d\x6c\xd8\x14\x87\x1d\x68\xc2\x7b\xfd\x79\x99\x6c\x23\xf8\x42\x56\xe0\x42\x23\x0b\xbc\x37\x47\x41\x67\x34\xbc\x9a\xa7\xb9\x9a\xbd\xab\xc2\x6a\x5b\xce\xe0\xe9\x0d\xd4\x9a\xf9\x76\xdd\x3f\x72\x16\xfe\x50\x7d\xd5\x33\x2a\xf3\x9a\x9b\x20\x08\xd8\xe0\x22\xe1\x89\x53\x79\x0d\xa2\xb0\x09\xf3\x0b\xfe\xf4\x81\x87\xff\xee\x1e\x67\xbd\xbd\x60\xfa\x34\xdf\x64\x32\x73\xc4\x68\x06\x06\xf6\xfd\x5c\xaa\x0a\x8c\x04\x09\x98\xe0\x6c\x7c\x44\x56\x48\x5c\x89\xa4\x65\xeb\x8e\x25\x0e\x3e\x67\x57\xf8\xd9\x30\x76\xa1\x3f\x7f\xf8\x4e\x7d\x05\x2f\x49\x02\xf3\x30\x8d\x97\x5e\x8d\xf0\x56\xde\xec\xcc\x90\xb0\x33\xf8\xcd\x83\xf2\x1b\x15\x65\x30\xbb\x69\x56\x41\x13\xb0\xf9\x7e\x07\xf3\xa9\xdd\x89\xb7\xb2\x43\x90\x1e\x99\xf2\x7d\x91\xe7\x48\x27\xba\xd2\x9e\xe1\x80\xbe\xd5\x1d\x80\xd7\x35\xfb\x76\xf8\xf6\x1f\x28\xe8\x24\x92\x38\x3d\x55\x8d\x21\xe3\xee\x4d\x7a\x55\x29\xc0\xcb\x9a\x73\xaf\xb7\x08\xf2\x4e\xcc\x37\x86\x9c\x97\xdd\x4f\xe1\x02\x7a\x14\xd5\xd2\xc0\x2e\x94\x4b\x5d\x19\xd9\x45\x79\xb7\xa3\x47\x22\x7c\xb3\xd6\xa9\xfd\x9a\x39\xe2\x2a\xc4\x58\xea\xe6\xbc\xca\x64\x21\x6c\xb9\xb0\x62\xbf\x4c\xc8\xce\x1d\xc0\x45\x00\x6a\xe0\x2f\x82\x59\x8e\x94\xde\xac\x63\x58\xf9\x58\xb5\x84\xa6\x7b\x58\x90\x9d\x5c\x6a\x1b\x1c\x93\x15\xb2\x8f\x77\x7b\x45\xca\x95\x05\x78\xde\xd5\xc2\x3d\x8a\x79\x3a\xd4\xaf\x2f\xd6\x4d\x1d\xa6\xe6\xd2\x4f\x1a\xf1\x42\x2f\x75\x7c\xcd\x88\x8f\xba\x08\xc4\xdc\x7e\x07\x00\x55\xb4\x25\xe3\x50\xa1\x0f\x06\x88\xda\x75\x8f\x8c\xa2\x44\x46\x60\x23\xc6\x09\x81\x46\xb3\x9c\xc8\x99\x23\x60\x37\x4c\xe2\xea\x36\x18\x53\x21\x8d\xbe\xbb\x9a\xe4\xe0\x11\xfd\x7f\x3d\xf3\x7f\x47\xcf\x34\xaa\xcd\xd5\x41\x6a\x67\x7f\x07\xc5\xbe\xa6\xe7\x0f\x6f\xdf\x3c\x63\x84\x75\xb0\xed\x89\x30\xce\xa9\x8e\xee\xda\xb2\x06\x03\xf5\x7e\x1e\x5e\xc3\x32\x02\x83\x4d\xb3\xd9\x70\x09\x55\xd4\x80\x31\x10\xd4\x00\xb1\xa6\xec\xd5\xa4\x1c\xf3\x24\xcb\xd9\xb4\x85\xf5\xd0\xf0\xc5\x04\x5c\x89\xa1\x85\x3f\xd4\x10\x4e\x57\xe9\x14\x2c\x71\xc2\x2f\x3e\x0c\x53\xc2\xe9\xed\xfb\xfa\x54\x83\x50\x69\x0f\xb9\x7d\x29\x3e\xa5\xf3\x4c\xd0\xa7\x3f\x27\x00\xde\x6c\xe7\x14\x81\x13\xf4\xc8\x6b\xbc\xb6\xfd\x81\xee\xf8\xe4\xe8\xb8\xbb\x53\xe7\xd9\x4f\xd9\x0d\xf0\xda\xe8\x01\x79\x76\x04\x1a\x3e\x44\x8e\x98\x8f\x3b\x34\x93\x76\x4a\x2f\x14\x77\xa4\xed\x44\x35\x7b\x64\xbd\x33\x1e\x8a\x5f\xbd\xc0\x7a\x04\x14\xb5\xc3\xe4\x39\x39\xc9\xb1\xeb\x4e\x09\x01\xc6\x54\xe0\x2c\xed\x2d\x20\x66\x0e\x96\x68\x0c\x02\xf4\x1d\x5f\xe2\xb0\xf5\x6c\xb7\x75\x5f\xdb\x56\xb3\xc5\xe5\xfd\x53\x6d\x31\x3e\x6f\x70\x0e\x9d\xdf\xdd\x52\x6d\x8e\x2f\xd8\xa8\xcd\x01\x16\x2f\x88\x03\xe3\xc5\xb8\x12\xf7\x04\xea\x27\x87\x3d\xf4\x65\x18\xae\xf6\xef\xe4\x9e\xc6\x6e\xa9\x1e\xd5\x4d\xf9\xca\xb5\x6d\xc6\xac\x5e\x34\x8a\x7e\x5f\xb3\xf7\x23\x12\xcd\x1d\xc3\xa9\x39\x88\xbc\xce\x50\x86\x5c\x2b\xea\x40\xd3\x37\xff\x42\xab\x57\x06\x97\x05\x7d\xf7\xc8\x42\x8d\xb1\x35\x81\xce\xab\x50\x35\x9d\xc2\x01\x57\x90\x12\xdf\xe3\xd4\x90\x63\x08\xdd\xa8\xba\x40\xed\x49\xb2\xcf\x3a\xd3\x28\x84\x5a\xc2\x8c\x79\x4b\x1e\x33\x00\x8a\xc5\x51\x94\x6d\x42\xb0\x99\x46\x0a\x07\xea\x4d\x11\x6f\xc2\x22\x4e\x6e\x8d\x3f\xcb\x75\x7e\xb1\x7c\x8c\xf5\xc3\xfb\xd8\x95\x0b\xec\x0b\x7c\x6e\xd9\xd9\x6d\xf3\xda\x7a\x3a\xc8\xb2\x96\x3a\xfb\x58\xd6\x76\x26\x3f\x8d\x4c\x13\xab\x9b\xbd\xa6\x69\x54\x33\xf5\xce\x13\xd7\x30\x45\x86\x26\x6a\xf7\x14\x98\xd8\x64\x56\x6f\x85\x7d\xc5\xc0\xb6\xde\x6b\x9e\x46\x3b\xd2\x37\x51\x7d\xae\x8f\xb1\x99\x2a\x73\x76\x82\xec\xed\x3d\x6a\x78\x9c\xfa\x66\xeb\x47\x9d\xa0\x1f\x7d\xca\x1d\xe8\xdd\x39\xfb\x75\xcf\x26\x52\x26\x6e\x13\xbc\x7c\xee\xb7\x0b\x20\xbf\xa8\x41\xaf\xe6\xea\xba\x86\x78\x1b\x8b\x4d\xaf\x1b\x3e\x17\x0a\x3f\x6b\x75\xa5\x6f\x69\xba\x23\x44\x81\x8b\x0c\x0c\x0e\x18\x63\xd3\x8a\x04\x6e\x95\x77\xe5\x8b\xbd\x81\x45\xc1\xe2\x48\x70\xbe\x84\x4a\x28\x56\x16\xf9\x57\x9f\x85\x69\x06\x08\x37\x4c\x7e\xd4\x61\xa4\x8b\xbf\x02\x75\x31\x46\xb0\xa1\x32\x13\xaf\x6f\x25\xb6\x9d\x21\xb1\x5c\x6a\xe3\xec\xd0\x60\xf4\x80\x2c\x70\xcb\xf8\x1d\x87\xe2\xd4\xf6\xf5\x17\xf8\x4c\x81\x07\xd6\x86\xd8\xd7\x8b\xc7\x1f\xfc\x9d\x05\x07\xb8\x83\x9e\xd5\x14\x04\xe6\xcb\xf4\x41\x35\xda\x9e\x0e\x00\x92\xec\x5a\x3e\x18\x48\x02\xee\x70\x6a\x73\xf3\x14\x66\x10\x5f\x91\x5a\x84\xcb\x2b\xce\x65\x90\x35\xc3\x3e\x79\xec\x6b\xaa\xc9\x18\x0b\xd4\x0b\x52\xaf\xe2\xdd\x17\x71\x8d\x17\x31\x1a\x69\x66\x0a\xc4\x79\x0d\x4b\x2f\x8a\xc3\x84\x3d\xdc\x49\x08\x72\x0f\xf4\x32\xf4\xbb\x52\xa1\x9a\x26\x0b\x68\x83\x3b\x0f\x3f\xf3\xce\x19\xf0\x1b\x10\xbe\x74\x04\x8d\x72\x21\x83\x46\xbd\x01\x68\xe1\x2e\x39\x11\x4c\x34\x64\x4b\xc3\xb9\x19\x08\xe4\x38\xae\xea\x2c\x09\xf1\xa9\xd9\x68\x58\xa4\x57\x71\x1a\x73\xb8\x0b\x23\x77\x4c\x04\x39\xc2\xd6\xca\xe9\xe4\xad\xbe\x04\x6b\x0a\xe0\x62\x3f\x1f\xde\x43\xaa\x41\xab\xd6\xe7\x00\x5c\xca\x15\x11\xb2\xb4\x5d\xbe\x93\x86\xcd\x04\xa3\x30\xe6\xf9\x25\x7e\x9a\x5b\xbb\xb5\x8f\xba\x1e\x84\xc9\x5d\x07\xad\x3a\xd6\x54\x07\xb6\xca\xe4\xd0\x2a\xc0\xf9\xc0\x07\x62\x3c\x88\x74\xb9\x34\xdc\x20\x9d\xf6\x27\x61\xf0\x02\x1a\x4a\xef\xef\x3f\xc8\x6f\x5b\x72\x40\xbd\xd6\x10\x77\x60\x9f\x74\x20\xee\x0e\x7d\xc9\x96\xf6\x24\x6b\x42\x60\x3b\x12\x1e\x99\xae\x44\xc6\x06\xa9\x45\x95\x9a\x85\x6a\x8d\xa2\x9d\x36\x80\x3a\xba\x67\xa3\xb2\x33\xa8\x27\x18\x50\xe9\x1f\xef\x79\xdd\xe4\xe4\xde\xe8\x73\x03\xc8\x49\xac\x78\xbf\xa4\x35\x21\x0d\xb2\x98\x15\x30\xe3\xac\x36\xaf\xb4\xce\x4b\x78\x0e\x69\x91\x16\x22\x84\xe8\xb0\xb5\x90\x9c\x29\xd5\x88\x1c\x67\x47\x16\x9a\x10\x7d\x0e\x6f\xb0\x69\xc6\xaf\xb2\x0a\xa9\x9a\xaf\x8c\x5c\x4b\x51\xaf\xbf\xf6\x5c\x7d\x6c\x6e\x7b\xd0\x4e\x4a\x72\x00\x42\x15\x09\x79\xe8\x19\x4e\xa7\x12\x75\xf4\xdb\xb1\xdf\x08\xa8\x30\xe0\x6f\x1c\x54\x8c\xc3\x84\x7d\xb1\x9f\x6c\xe0\x03\xa0\x82\x35\xea\x38\xf8\x1b\x06\x15\x8c\xe4\x90\x99\x3d\x51\x05\x16\xb5\x08\x10\xb1\xce\x41\xb8\x22\xc7\x80\x41\x17\x58\xb8\xd3\xf6\xdb\xb1\xe0\x30\x64\x37\x50\x70\x14\xb2\xef\x09\xc6\x77\x02\xc1\x51\xc8\xde\x98\xb5\xb1\x7e\xf4\x23\xc1\xbe\xd0\xd8\x38\x64\x3f\x20\x18\x36\x0e\xd9\x85\x0b\x42\x28\xe5\x79\xe6\xa2\xc0\x5a\x9d\xb4\xb7\x51\x67\xc8\xb9\xcb\x23\x54\x3c\x00\x5c\xa5\xba\xf8\x60\x9c\xa5\x3b\xe8\xed\x15\x4c\x04\x2c\xf9\x68\x17\x02\xa5\x7d\x2e\x0f\xe3\xa2\x6e\x1c\x5e\x8a\xeb\xf4\xaa\xc6\xa5\xc4\xde\x9d\x78\x14\xaf\x8d\xdb\x14\x9a\x0d\x18\xb5\x5d\xf9\x81\xb8\x88\xfd\xef\x94\x71\x9f\x4e\x98\xb0\xf5\x21\xd1\x4f\x46\x81\xd6\x65\x88\x3b\x03\xd2\xe4\xa2\x2e\xe4\x7d\x04\xfc\x9f\xd6\x10\xfa\x2f\xa0\xdd\x3d\x78\x37\xaf\x5f\xbd\xc1\x3a\x4c\x15\x1d\x51\xbe\x21\xe7\x40\x42\xf1\x43\xf2\x4c\xee\x0b\x0e\x7f\x3c\x3f\x7f\xf3\x25\x5e\x46\x4a\x71\xe0\x51\x4e\x49\xbc\x80\xff\x19\x06\x1e\x01\xc4\xe2\x7e\x49\x79\x92\xdf\xa9\xe5\x3a\x2c\x4a\x5d\x9d\x6e\xab\xd5\xd1\x9f\x67\xd6\x39\x89\xad\x8a\xcb\xa5\x46\x95\x6a\x2d\x6f\x68\xcd\xee\x76\x5a\x22\xb1\x2c\x05\x88\xa5\x09\x5c\x01\x0c\xc5\x7c\x94\xd2\xf1\x54\x3a\xcd\xec\x74\x55\x36\xd3\xa1\x9a\xae\x4a\x37\x51\x46\xdd\xd9\x5c\xaf\x80\xe8\x93\xcd\xd4\xf0\xe5\xf5\xb8\x2f\x87\xa9\xd3\xfc\xf7\x7d\x16\xff\x25\xb7\x81\x46\x41\xd9\x70\x5f\xf6\x57\x3a\x43\xb5\xc0\xea\x06\xba\xec\xfc\x18\xae\xf2\x64\x05\x6a\xc5\x6b\x7f\xa9\x9e\xd5\x53\xeb\x39\xd3\xec\x13\xa1\x6e\x2f\xf7\x72\x9e\x8a\x77\x8d\x1c\xa5\x30\x79\x6f\x60\xba\x60\xce\x0a\xd0\x4b\x15\x65\xf8\x62\x28\xb7\x5c\x86\x39\x86\x06\x00\x3d\xdf\x82\x10\xdc\xaa\x75\x96\x44\x98\x43\x46\xb2\x14\x2e\x2b\x34\xef\x36\x14\x55\xd9\x7e\x46\x84\xf9\x36\xdb\x62\x07\xfc\xe0\x7d\xa9\xb9\xb3\x11\x12\x06\x78\xe6\x80\x2e\x89\x24\xe1\x4e\x33\x30\x69\xb6\xe8\x02\x73\x76\xd2\x4b\xc2\xcb\x5c\x2d\x78\xca\xaf\x24\xce\xb0\x31\xf5\x28\x60\x20\xc5\x31\xbb\x7a\xa1\x7e\x55\xe7\xd9\x7b\xcc\x45\xbb\xbf\x9f\xf9\x01\xb1\xe1\x96\xc1\x17\xe7\x7a\x93\x27\x94\x82\x0d\x25\x8c\x70\x0e\xe4\xe2\x79\x1c\xb9\x70\xdd\xbd\xc2\x51\x8f\xcf\x57\x00\x2f\x76\xcf\x69\x92\x22\x5d\x4d\x60\x2c\xd0\x19\x0b\xfe\xc0\x01\xcb\x06\x2a\xee\xf5\xfc\x4e\x48\xe3\xb4\xb2\x40\xe5\x51\x54\xd0\xc6\x24\xf7\x38\x52\xc7\x91\x51\xf6\x05\x93\x34\x9a\x18\xa7\x69\xf1\x17\xfc\x0e\x46\x16\x18\x90\xb0\x88\xc3\x6d\x52\xe1\xde\xc9\xe2\x86\xc4\x08\x84\xc2\xf2\x6f\x6b\x16\x30\x11\xd5\x22\x8b\xc8\x80\xc4\xdf\x6c\x01\xa1\x25\x3f\xa3\x76\x66\xd6\xf8\xbf\xa6\x5c\x40\x20\x45\xef\x03\xe2\xce\xf3\xd9\xc4\x04\xed\x42\x79\x07\x0a\x99\x45\x52\xff\xf9\xf8\x31\xd8\xab\x2b\x87\x5f\xc7\xa1\xcd\xab\x10\xb8\x25\xc6\xd8\xb8\xbb\x8e\xd1\x3b\xb1\xe6\xf5\xc9\x31\xcf\x85\x66\x6e\x39\x34\x8c\xe5\x6a\x84\xe7\x92\xa6\x9c\xb9\x9a\x3a\xf6\x22\x78\x09\xda\x72\x1d\x52\x3a\x9e\xe1\x7f\xc3\xaf\x50\x22\xcb\xed\x72\xa9\x75\x54\xb2\x39\xfc\x97\x77\xaf\x5f\x49\x76\x7c\x64\x52\xd9\x6d\x7c\x95\x78\x37\xec\x60\x98\x7a\xb8\x5b\x9c\x7a\x81\x87\x13\x8a\xb9\xb1\xd2\x6d\xcf\xea\x8f\x0d\x6a\x80\x4c\x00\xd3\x87\x91\x19\x33\x56\xb9\xae\xbe\xe9\x83\x35\x36\x8b\x67\xae\x6e\x58\xa7\x36\xc5\x80\xe0\x0c\xce\x2a\x5a\x03\xb0\xfc\xdc\x21\x61\x65\xf6\x0b\x67\x7a\xde\xd1\x2c\x9e\x20\x31\x33\xa1\xf7\xec\x7a\xde\xd4\x03\xc8\xdb\x36\x16\xf1\x9a\x63\x5b\xef\xda\x31\x0b\xcf\x53\x6a\x52\xaa\x9e\xb1\xb3\xdb\x12\x32\xf5\x70\xb8\x3d\xa8\xea\x14\x3b\x75\x76\x70\x12\xc6\x53\x4b\xce\xf8\x6c\x26\x37\x01\x8b\x0d\xe8\x27\x50\xaa\xde\x4c\xd4\xea\x11\xea\xd2\xd9\xdc\xdd\x40\xb9\x03\x6b\x23\x64\x2e\xff\x4d\xf5\x60\xe4\xb0\xee\x87\xf1\xad\x11\xd8\xaa\x81\x8c\xa1\x25\x35\x4a\x8f\xb3\xa7\x5c\x9e\x9e\xeb\x04\xf0\x0c\xbe\x14\x1c\xe4\xf8\xe7\x84\x1c\xc3\x1b\xa7\xce\x93\x28\xf2\x5a\xb8\x06\xff\x47\x6b\xe8\x84\xf3\x8a\x03\x96\x9b\x17\x88\x58\xd3\x30\x71\xf6\x26\xea\x24\xda\x7b\x83\xdd\x73\xe4\xb1\xee\x21\x11\x3f\x55\xe8\x31\xb0\x9f\xc5\x00\xbf\x09\x48\x7a\x84\x3d\x2c\xe8\xdb\x97\x1e\x4e\x8b\x6f\x4d\x53\x92\x21\x56\x93\x85\x87\x5e\x99\x8b\x0f\x98\x2a\xed\xcb\xa2\xb8\x63\x57\xc8\x8d\x72\x65\xcd\x46\x34\x8c\x40\xbe\x4f\x45\x04\x90\xc2\x5c\x3d\xbc\x01\x2e\x5b\x11\x0f\x06\x47\x65\xfc\x4f\xe4\xf9\xcf\xdf\xfe\xf7\x7f\xb1\xac\x25\x3a\xc5\x3a\xbe\xfa\x1f\xfe\xc6\x82\x03\x6c\x9c\x2a\xf8\xf3\xe2\x04\x5f\x7e\x68\xa6\x98\x61\x3c\x9e\xc6\x6d\xe5\xcd\xac\x7f\x98\x64\x0d\x43\xf1\x27\xe8\xac\xc4\x48\x7c\x8e\x28\x4b\xa5\x59\x7a\x44\xca\xd0\xd8\x0f\x58\x10\x84\x0c\xdb\x6c\x38\x10\x25\x75\x1b\xf6\x19\xef\x86\xc9\xd3\x18\x91\xb2\x75\xfb\xee\x18\xfd\x54\x4a\x31\xec\x55\x7f\xc7\x56\x4e\x44\xd3\xfe\x5d\xf4\x3e\xce\xa2\x94\x02\x3d\x5d\xae\x62\xd1\xfb\x46\x5c\x49\xa3\x39\x93\x5b\x5b\x37\xe8\x2d\x23\xad\x23\x27\x92\xf6\xc9\xb8\x17\xff\x84\xd3\xa8\x65\x95\xb5\xeb\xa4\xac\x55\x17\xf9\xad\x8c\x92\x86\xff\x9c\x7c\x0c\x6b\x09\x58\xf7\xc5\xba\x26\xea\x2b\x57\xda\x54\x33\xb3\x71\x1d\xd4\x2d\x0c\xd4\xae\xd7\x1d\x23\x48\xfa\xd9\x20\x21\x4c\xc9\x10\xb2\x6b\x99\x12\xd5\x2d\x2c\xc6\x21\x24\x0b\x46\x54\x3b\x7a\xc8\xa2\x3a\x35\x67\x53\x5e\xb2\xc1\x89\xd8\x57\xc1\x38\xc0\xcc\x17\xb7\x53\xf1\x7e\xdf\xac\x35\xf9\xac\x63\x32\x97\x01\x4a\x9f\xc0\x12\x0a\x93\x10\xc1\x56\xc9\x10\x8b\x92\x3d\x30\xd7\x65\xbb\x31\x2f\xe3\x42\xc1\xaf\x05\x4f\x19\x93\xba\xad\xd6\x38\xf1\x3a\x29\x29\x57\x00\x95\xe1\xdc\xf8\x38\x69\xe3\x81\x16\xd6\x61\xc9\xac\xa0\xd8\xc9\x96\xe0\xf4\xc8\x43\x56\xc9\x1f\x0a\xf8\xa9\x2c\x61\xa2\xe7\x9c\x13\x64\xec\x40\x8f\xba\x69\x92\x6f\x60\xe1\x2f\xb2\x2c\x69\xe7\x7e\x32\xf2\x2b\x01\x4b\x21\xa5\xb7\x7a\x85\x29\x52\xa8\x09\x78\x44\xf0\x63\x80\x0e\xa5\x22\xce\x2b\xdc\x17\x38\xed\x1f\xa6\x20\x78\x7a\x7b\x0e\xf4\x11\x38\x79\xd8\x2c\xab\x5b\xae\x75\xda\x09\x56\xce\x60\xd9\xac\xc2\x44\x52\x7e\x71\xb1\x98\x55\xf8\xa0\xa4\x8e\xa6\x99\xd4\x7d\xf0\x09\x8a\xb6\xdb\xdc\x26\x09\x35\xe4\x73\x17\x59\x51\x41\x73\x5f\x6d\x00\xf2\x95\x1e\xd5\xf4\xd5\xc3\x87\x8a\x1f\xf1\xe5\x1b\x58\xde\xb0\x9b\xa3\x9c\xfd\xfa\x2b\xd3\x0e\x5e\x94\x3f\xc5\x65\xd5\x7c\xf3\x32\xcc\x3d\xdf\x1f\xe0\x55\xd2\x51\xa9\xa9\x16\x09\x68\xec\xab\x06\x0d\x7c\xc3\x2f\x64\x3a\xe0\x95\x33\x10\x9c\x32\x44\x27\x49\x78\x54\x7f\x80\xed\x8b\x19\x0f\x5e\x98\x95\x0b\x7d\xf5\x44\x87\x7e\xa7\xbe\xe2\xc2\x6e\xde\x6c\x9d\x4e\xe4\x0d\x11\x80\x21\x82\x95\x6b\x78\x97\xbd\x24\x4b\xd9\x0b\xb5\x21\x1d\xe5\xf3\x0b\xda\x40\x89\xc0\xbc\xc1\x0e\x7c\x16\x8d\x8c\xe6\x19\xd4\xb2\x07\xa5\xcc\xde\x2d\x58\x16\x39\x7b\x92\x24\xd9\xcd\x9b\xb0\xa8\xe2\x30\x21\xd7\x2a\x35\x0e\x1f\xc0\x7a\x20\x91\x22\xb7\xe5\x49\xf3\xc3\x19\x2c\x87\x57\xb4\x22\xf0\x8b\xf9\x70\xb6\x89\xab\xf7\x69\x9e\xe5\x5b\xc4\xf3\xd1\x89\xf9\x00\xfc\xa3\xc9\x6e\xe3\xe6\x35\x73\x16\xcc\x50\x77\xdc\x41\x18\x89\x9b\x77\x45\x11\xb5\xf3\x0a\x01\xd1\x5c\xcd\x96\xd9\x36\x89\xd2\x6f\x2a\x41\x82\x56\x28\x71\x95\xd2\x59\x31\x57\x02\x71\x77\xa3\x02\xa5\xab\x02\x69\xa4\xde\x86\x37\x22\x06\x23\x1b\x1e\x77\xeb\x21\x93\xe8\x6e\x7b\xbd\x0c\xbb\xe1\x7e\x6e\x90\xa7\xad\xbc\x40\xbe\x3e\x34\xa6\x9f\xb5\xe0\xd6\xb4\xc7\x8a\x10\xb4\x56\x39\xa4\xf9\x28\xd1\x18\xc3\x2e\x04\x86\x51\xd9\x88\xde\x69\xd2\xd8\xa1\x7a\xe6\xca\xd1\x3c\x0e\x18\xc0\x55\x44\x23\xf0\x33\xe0\xef\x48\x04\x9d\xb4\x54\x73\x01\xb6\x35\xc4\x27\x54\xb6\xb8\x2d\xcb\x04\x50\x0d\x1a\x87\x41\xed\xd5\x11\x78\xdb\x81\x8e\x4c\xdb\xe9\x18\x91\x6a\x23\xa2\xcf\x63\x50\xf7\x45\xf4\x3e\xa5\x73\x8a\xae\x84\xd6\x73\xec\xb6\xe4\xcc\xb5\xf4\xb6\x91\x10\x78\xf7\xe0\xd3\x89\x7a\x50\xde\x8b\x50\x49\xcf\x60\x0a\x3b\xf2\x3c\x24\x1b\x46\x20\xbe\x4c\x5b\x53\x33\x8e\x02\x45\xc2\x1b\x57\x2d\x50\x81\x86\x66\xb8\xe7\x3d\x8b\x4b\x3e\x4b\x74\x58\xc8\x37\x57\x2e\x6b\xd9\x5b\x66\xf9\x2d\xf3\xd0\x2b\x77\x14\xf6\x8b\xd8\x37\x4c\x31\x13\xda\x42\xd1\x6f\x01\x1b\x5f\x59\x2c\x45\xfa\x6a\x2a\x1e\x14\x9e\xe3\x97\x3e\xf1\x2b\x5b\x29\xa3\xd0\x01\xd2\xb5\x50\xa7\x25\x20\x44\xa2\xbb\xe5\x31\x64\x27\x49\xb6\xa8\x9d\x09\x93\x55\x60\xc6\xb8\xdc\x7b\x8c\x09\x9c\xb7\x47\x78\x12\xb9\x43\x5c\x36\xc7\x77\xe2\xe4\x81\x21\x04\xe9\x82\x97\x7e\xc0\xd2\x0b\x1c\xe8\x3c\x19\x0f\xa1\xa5\xb5\x73\xed\xa2\xa0\x3d\x12\x80\x20\xf8\x14\xb8\x66\x8b\x33\x03\x3b\x85\xc6\xa6\x85\x43\xac\x52\xc4\x65\x60\x76\x3d\xdc\x8e\x31\x1d\x16\x36\x5b\xd2\x07\x98\x48\x3a\xe3\x21\xd0\xf5\x79\x47\xb3\xca\xf3\x86\xf3\x4a\xf1\xa2\xa7\x63\x8c\xb3\xd6\xa6\xaf\xdd\x75\x80\x9c\x22\x31\xf3\xd1\xb6\x14\xcc\x1a\x0d\x07\xc1\xcc\x5d\x37\x72\x62\x3c\xc0\x90\x0c\xae\x30\xee\x1e\x54\x82\x3f\x1e\xfc\xe9\x0c\xfe\x3a\xfa\xb6\x21\xd2\xdb\x22\x21\x77\xd3\x19\xf9\xd3\x58\x69\x39\xd3\xf4\x33\x42\x40\x77\x96\xb6\xa9\x78\xde\x54\xde\xf2\xca\xa1\xf7\xc5\x46\x17\xea\xc9\x41\x0a\x1e\x8c\xbc\xd8\xf1\xf4\x19\x30\x5c\x33\xd5\xd9\x4c\x90\x80\xb7\x6b\x6c\xb5\x93\x0f\x0d\x7f\xdd\xdd\xb3\x34\xb3\x56\x21\xc3\xd3\xc9\x13\xd9\xa2\xe7\x1d\x5b\xe3\xc9\xa8\x9d\x09\xa8\xbd\xa4\x9f\xef\x85\x7f\x8f\x2a\xef\x71\x9a\xc7\xc2\xf4\xbb\x9e\x5d\xb5\x33\xb9\x66\x4e\xe7\xae\x79\xfb\x34\x8c\x8c\x5f\x0d\x69\x8a\x29\x4c\xbd\xe4\xcd\x0d\x26\x1a\x99\x75\xe7\x05\x3f\xba\x9b\x5d\x18\x45\xbc\x64\xe0\x61\x70\xbd\x88\x1f\x89\xa0\xfd\x1c\x3d\xcf\x16\xcf\xcb\x84\x18\x2a\x9e\xd8\xec\x38\x2a\x1c\x7a\x99\xab\x5d\xb0\xdb\x6e\x77\xce\x92\xe1\xb1\x1d\x5b\x34\xa3\xda\x1d\x55\xf5\x95\x84\x5c\x90\x09\x72\x19\x38\x3b\x46\xbf\xee\x65\x86\x10\xae\x36\x24\x93\x7a\xed\x0a\x24\x1d\x71\x52\x09\x96\xe3\xb3\x09\xb4\x32\xd4\x13\x39\xc3\x59\x93\x32\x27\x11\x10\x22\xa1\xe7\x0a\x0f\xa4\xa6\x54\x7d\x93\x15\x14\xf6\xbd\x8c\xaf\xe1\x8d\x18\x34\x32\x96\x35\x1b\x1e\xb5\x51\x07\xaa\xcc\x93\x60\x03\x34\xe7\xb1\x04\xc1\xe6\x6f\x49\x7d\xe0\xcf\x8b\xc7\x1f\x58\x75\xe0\x7a\x36\xdc\x3d\x93\x5b\x34\x9e\xa4\xb7\xa6\x10\x88\xd9\xfc\x62\x26\x48\x02\xc8\x35\x30\x63\xc3\xf5\x45\x8d\xf0\x8e\x7a\xda\x95\x66\xc3\xd5\x9d\xa0\x2b\xa4\xe3\xd7\x6e\x19\x29\x85\x34\x64\x9c\x69\x40\x3b\xc3\xac\x8d\x3f\x90\xd6\x3b\xf5\x5c\xd4\xb4\x88\x9d\x1d\xab\x42\xe7\x1a\x01\x2f\xeb\x12\x33\x2d\x74\x69\x47\x96\x62\x9a\xce\x66\x83\x61\x1b\xfc\x84\xa7\x6d\x79\x35\x67\x85\xf9\x4e\x50\x2d\x2c\x8a\xd0\xd8\x88\x96\x1f\x23\xbd\xa3\x23\xce\x65\x7c\x94\xbe\x6f\x5d\xd9\xe3\xf7\x46\xfc\xf8\x57\x3d\x15\xcd\x3c\x54\x0b\x86\x6d\xa7\x2f\x0e\x40\xc1\x82\x8c\x6c\x13\xa0\x14\x1e\x1a\x42\xcd\x69\x02\x91\xb0\x2d\x38\xab\x85\x06\x97\xd4\xe0\x95\xf6\x2e\xac\x9e\xc4\xde\x59\x3a\xbe\xb8\xf5\xe2\xb9\x21\xe1\x1c\xed\x30\x34\x4d\x90\xb2\x9f\x4f\x29\x06\xdc\x91\xc4\xc5\x1f\xba\xa8\x8c\x79\x81\x4f\x7c\x43\x00\x8a\x8f\xd4\x72\x9d\x7b\x0d\x19\xea\xc0\xf9\x12\xf0\x61\x12\x57\xf5\x78\xa0\x60\xcf\xcc\x66\x33\x90\xa7\xbb\x33\x1e\xe3\xa4\x2f\xed\x08\xc8\xd8\xf4\x8e\xd1\xc8\x47\x3b\x5d\x80\xd4\x78\x7f\x86\x2f\x91\xe4\x6b\x66\xb0\x0e\xca\xeb\x91\xf8\xd9\xdd\x4c\x80\x3a\xa8\x53\x60\xa4\xbf\x95\x3c\x40\x96\x09\xb9\xbf\x80\x2b\xf3\x96\x28\x93\x77\x64\x47\x02\xe9\xc4\x49\xf6\x18\xed\x56\x6f\xf6\x40\x67\x53\x1e\xc8\x1c\x98\x44\x7a\x85\x01\xd8\x00\x3d\xd6\x01\x5d\xf4\xe0\xf9\x12\x27\xc7\xac\x82\x3a\x91\xa0\xd5\x57\x27\xab\xe0\xde\x9c\x85\x01\x31\xb4\xc5\x90\x1e\xa3\x4c\xfa\x4c\x7e\x52\x91\x51\xb9\x58\xe2\xad\x0e\x23\x30\x5a\x3c\x6e\x7b\xbf\xc3\xb7\x1d\xd3\x97\x7d\x9f\x05\xc6\x21\x4c\x2c\x08\x3b\x6e\x46\x7b\x66\x8e\x1d\x35\x5d\xaf\x8f\x99\x38\x76\x92\x6a\xed\xdd\xcb\x03\x6d\xb2\x61\xab\x6c\xd0\x2e\x63\x76\xcd\x50\x0c\x9a\x66\xec\x77\x26\xd7\x76\xcf\x8a\xee\x73\x3e\x0f\xbb\x9f\x7b\x1d\xd0\xc2\xc7\xfe\x78\xc9\x75\x38\x1f\xea\x99\xe6\x11\x99\xf4\xe3\x2a\xfe\x86\x0c\xd4\x6c\xdd\x73\x32\xa1\x35\xb1\x1e\x52\x22\x0b\x8d\x87\xd5\x2f\xc6\x26\xea\x15\xc9\x39\x1d\x10\x4b\xf9\x9c\x97\x24\x4c\x18\x59\xa9\xe3\x9a\x53\xcc\xe9\xa8\xd6\x6f\x70\x87\x2b\xad\xfc\xd6\xd0\xf7\xa0\x13\xe3\x98\xaf\x59\x53\x43\xda\xb4\xeb\xf1\x4f\xd2\xec\xc1\xfb\xb7\x3f\x05\x7f\xc3\x97\xb4\x06\xb1\x82\x53\x64\xea\x46\xa8\xad\x61\x67\x7b\xe7\x2c\x36\xbe\x2a\x27\x35\xc5\x82\x9f\x32\x0e\x9b\xaa\x19\x8d\x39\x97\xc1\x44\x43\xfe\xfc\x83\x4e\xa9\x51\x2b\x5d\x18\xbb\x6e\x64\x35\x3a\x69\x8d\x63\x2c\xbc\x4e\x75\xb6\xea\xf0\x01\x5a\xa4\xc3\x07\x75\xeb\xb7\x30\x62\x07\x99\x67\xde\xa0\x4e\x93\x5d\x70\xd4\x3a\x84\x3f\x18\xee\xee\xdd\x13\x86\x4e\x13\xf0\x0e\x50\x9a\xd8\xaf\x0d\xc6\x08\x78\x6c\xc7\x7a\x39\xf2\x5d\x1c\x70\x52\xa0\x87\xc1\x3e\xed\xde\x1b\x39\x1d\x3a\x3c\x60\xb1\xfd\x1f\xcd\x41\xea\x6e\x09\x3d\xfe\xd1\xfa\x50\x43\xc3\x72\xf1\xf7\x31\x3e\x3e\xce\x45\x7b\xda\x18\x20\x85\xbf\x9c\x52\xee\x61\x87\xfa\x2a\x1e\x89\xe0\xf4\xe5\xdb\x0c\x1c\xb8\x6a\xef\xb3\x43\xa7\x1e\x6a\xe4\x56\x38\x31\xa0\xd1\x73\x0e\xb4\x8f\x75\xce\x38\xa0\xa3\x64\x1d\x46\x5c\x77\xe8\x54\x03\xe5\xd2\x47\x98\x19\x15\x33\x84\xb7\x27\x51\x9d\x5b\xf5\x30\xce\x4f\x54\x0c\x86\x33\xb0\xc6\x1e\xa6\x40\x61\xc6\xcc\xbc\xce\x91\x8b\xc6\xa9\x09\x26\xd2\x3c\x3a\x31\x7a\x68\x62\xd7\x99\x09\x33\x42\xe4\x65\xba\x22\x18\x3c\x5a\xa5\xc5\x3f\x9d\x9a\xe8\xd2\x40\xe5\x85\xc3\xbd\x05\xbd\x68\x6f\x2f\x5a\xae\x71\x4e\x02\xfa\x12\x26\x65\x86\x53\x20\x6b\x98\x37\x29\xb0\xa2\xa7\xe3\xad\x9b\x8d\xef\x08\xef\xf8\x9b\x8b\x12\x47\x77\x84\xbf\xab\xa2\x9d\x15\xf4\xe0\xa0\xcc\xa1\x12\x99\xf9\x5f\x7c\xc8\x03\x49\x7c\xf9\x21\x0f\xa7\x76\x9d\x8e\xd7\x73\xc6\x23\x65\x38\xcb\xda\x0b\xec\x81\x6b\xba\x65\xa4\x92\x51\xdb\x64\x15\x59\xdf\x98\x1c\x12\xa6\x78\x45\xd2\x2f\x78\x0e\x3d\xe7\xcb\x98\xf8\x1d\x5f\xd0\x04\x9b\x33\x01\xe4\xba\x91\x08\x10\x51\x46\xd7\x92\x94\xb7\x65\xa5\x37\x73\x14\x2e\xa0\x95\xc4\x57\x3a\xb1\xe7\x44\xc8\x63\x38\x5b\x67\x65\x75\x42\x63\x57\x1f\x04\xa9\x7b\xe0\xd9\xa6\x6c\x28\x71\x28\xcb\xef\xf0\x23\x20\x18\x12\x30\x22\xc7\x41\xbb\x55\xfc\xd9\xb6\x08\x53\x49\xb7\xc1\x89\x4d\x6f\xf8\x38\xe5\xd7\x27\xc7\xc7\x33\xf5\x1f\x76\x24\x48\x59\x6d\x5b\x8e\x2c\x00\x4b\x96\xda\xde\x87\x29\x11\x2b\x6c\xa7\x72\x49\x1e\x82\xae\x1e\x9b\x4a\x0e\x18\xf0\x29\xff\xd9\xab\x8c\x27\xd2\x49\x85\xe4\x7b\x2d\x58\x06\x28\xd5\x07\x09\xdd\x64\x05\xac\x49\x4e\xaf\x54\xb2\xd3\x93\xaf\xf6\x16\x6f\xd8\x24\xdd\xec\x9c\x6c\x99\xf9\xd3\x06\x7e\x3a\x28\xfb\x8e\x0c\x88\x96\x79\x27\x4c\xe3\x57\x3e\xe1\xe2\x98\x82\xf0\xa4\x3f\x77\x6b\x3c\x36\x75\x08\xe0\x77\xed\xa6\xb1\x93\x2d\xd8\x12\x03\xce\x91\x7a\x3d\x17\xe7\x39\x67\x5c\xe4\xbe\x86\xc1\xa4\x40\x01\xb4\x04\x5f\x41\x57\x78\x5b\xc6\xa2\x16\xa5\x86\xb0\xc9\x82\xfa\xc0\xe4\x40\x53\xb4\x46\x07\x3b\xd2\xfa\x5a\x19\x80\x8d\x4c\xc1\x66\x86\x5f\xfb\x50\xcb\xa4\x7d\xae\xc5\xa0\x6c\x27\xcb\xaf\x3f\xf9\x6f\xfc\xa8\xcb\xe8\xbc\xdb\x23\x2f\xbf\xfb\xcc\x0f\xa5\x49\x12\x9c\x19\x9e\xda\x79\x1b\x6d\xf6\x25\x3b\xd6\xe7\x6c\x6c\xa4\x07\xe7\x71\x01\x13\xa7\x1e\xe1\x1a\x86\x5f\x73\xf6\xa1\x1b\x27\x96\x79\x4d\x67\x5a\x10\x17\x40\x1f\x1e\x61\x05\xfe\x49\xfb\x85\x98\x07\xf5\xfd\x01\xf8\x45\x80\xca\xb3\xea\xb3\x49\xa3\x7f\x87\xf8\x76\x49\x37\x4c\x6c\x0b\xc9\xaf\x21\xa8\x20\x0b\x17\x96\x23\x80\xad\x84\x4f\xa6\xf1\x3e\x07\x9a\x9b\x12\xda\xc1\xee\x06\x2d\x6a\xe0\xab\x6c\x4b\x9c\x05\xc9\xdb\xde\xc6\x40\x58\xd7\x86\x46\xac\x20\x39\x2a\x81\x52\xaf\xb2\x4a\x6e\xc7\x43\x92\x48\x8b\x34\xc5\x3a\xbc\x06\x13\x4f\x6e\xbd\x1d\x87\x24\xd4\xce\x82\x32\x9b\xe5\x82\x28\xba\x0b\x07\x35\xbf\x61\x0d\xef\x1a\x94\xec\xc7\xd0\x9c\x1c\x64\xc5\x4f\xc1\x36\x9b\x63\x69\xef\xae\x70\xae\xaf\xc2\x03\x83\xb2\xe1\xca\x31\x84\xe6\xd8\xf1\xd1\x03\x27\xea\x36\xbc\x1f\xb8\x69\x3a\x3d\x85\x24\x3b\x7b\xe4\x7a\xb3\x3d\xd0\xe1\xef\x76\xf8\xc0\x22\x1e\x0c\xd4\xb5\x73\xf3\x9a\x67\x04\xc8\x31\x47\xf8\x17\x37\x80\x81\xa3\x54\x3b\x15\x76\xdb\xe9\xd6\xab\x6c\x46\x7d\x6e\x6d\xfb\x4a\x1c\x6e\x8c\xc6\xda\x4e\x37\xe3\xa1\x91\x66\xdc\x43\x48\xee\xd1\xed\xb6\xd3\xcd\xc9\x97\x63\x98\x27\x39\xb0\xf6\xcb\x9a\xee\x3d\x41\xef\xc4\x9f\x1e\x3f\x76\x93\x81\xc1\xce\x92\x8c\x57\xb2\xa7\x72\x18\x42\x66\x13\x2b\xa4\x44\x8b\x6d\x2b\x5a\x40\x55\x85\x81\x3f\x3a\xbe\x4a\xbd\x70\xd7\x9f\x64\x1d\x02\x8c\x26\x13\xa6\xe6\xd1\x30\xb1\xd3\x29\x68\x8e\x12\xf5\x38\x05\x7b\x87\x7d\xdc\x27\xc8\x65\x0e\x77\x0a\x1e\xe2\xc4\x3b\xa5\xab\x62\xcf\x5e\x7f\x3f\xe8\xc7\xc3\x2c\x87\x3a\xa1\x91\x34\x0e\xf9\x8e\x38\x80\xea\x38\xee\xf6\xf4\x09\xf6\xb8\x04\x2d\xd1\x99\xef\x9c\xbd\x29\x9c\x04\x52\x24\xec\xb8\x9d\x5e\xff\x75\xb7\xdb\xb1\x91\x3e\x0a\xa6\xc6\xcc\x91\x99\x13\xf5\xcd\x83\xe8\x1b\x32\x03\xea\x36\x6c\xdb\xec\x54\x2d\xf3\x5d\xd2\x3c\x3d\xd8\xcf\x38\xe8\x66\x1c\xf2\x32\x3a\x43\xbb\xc3\xc7\x88\x0c\xf7\xf8\x18\x3b\x23\xe4\x0e\x4a\xeb\x64\xd2\xc3\xfa\xb2\x81\x49\xeb\xb6\x01\x47\x01\xb5\x0f\x05\xee\x11\x1f\xd8\x1d\x1d\x60\x40\xd0\xf0\x00\x1d\x16\x1f\xe8\x1c\x27\x9c\x5a\x6b\x57\xdc\x41\x50\x67\xef\x90\x00\xdd\xe4\xca\x47\x12\x0a\x58\x41\xa5\xc2\x86\xc8\x30\x81\x7d\x79\x22\xbb\x5f\x63\xf3\xf5\x10\x13\xcc\x4d\x00\x0e\x55\x0d\x39\x7d\x8d\x2a\xd8\xa3\x5b\x7b\xc4\x07\x06\x8e\x1b\x5a\xd7\xd1\xd8\x01\xc3\x31\x8f\xb9\xf1\x62\x42\x3d\x12\x07\x77\x8b\x1a\x34\x7f\xdb\xe5\x86\xed\x6b\xf6\x3c\xbc\xd3\x6c\x7c\xb6\x92\x16\x64\xbd\xd9\xd4\x51\xf1\xe5\x52\x32\x8c\x58\x6f\x74\xc6\xce\xc6\x4e\x9b\x97\x8c\x95\x7c\xcd\x40\xc3\xbf\x89\xad\xbe\xe3\xf7\xd6\xc1\x69\x0a\xde\xb7\xef\x64\x43\x98\x38\x3b\x9e\x8d\xbb\x88\x6b\xef\x70\x9f\x15\x98\xb3\x17\x61\xbc\xfe\x60\x36\xa0\x5d\xd5\x3c\x32\x94\xc0\x60\x28\x12\x24\xa0\x91\x7c\x1b\xde\x08\xf8\xdc\x9a\x67\xfb\xcd\x7e\xa0\xb7\xcd\xd1\x6e\x87\xe4\x6d\xa0\xbf\xcf\x93\xed\x8c\xeb\x90\xe3\x5a\xd5\x57\x16\xec\xe7\x33\xa6\x72\xb8\x1e\xbe\x76\xb3\x5c\x95\x57\x57\xfd\x21\xa3\x43\x89\xf2\x4f\x2d\xcc\x7c\x6b\x14\x52\x90\x72\x66\xdd\xce\x7f\xb3\x3e\x76\xb9\xf7\xad\x0e\x85\x52\x48\x1a\x04\x30\xb0\x85\x9f\x41\x91\xa4\xbe\x53\x56\xa6\x1c\xf3\xcb\xd0\x84\x71\x59\x91\xe6\xba\x87\x2a\x86\xe8\x99\x68\x8c\x93\x30\x31\xc2\xe4\x5c\x35\xf3\xf2\xee\xdc\xf6\xd1\x19\x7b\x7f\xff\x20\x02\x5d\x0b\xac\xc1\xd3\xb5\x68\xdd\x19\x02\x43\xc7\xba\xb3\xec\x0b\xb7\x75\x24\xb9\x95\x4f\x32\xe7\xb3\xc2\x23\x0c\xf5\x05\xa2\x9a\x72\xde\x68\x53\xce\x00\xb6\x7e\xb5\xad\x4d\x91\x9a\x0c\x23\x0b\x43\xb1\x86\xae\xe8\x50\xf1\x31\xd1\x31\x64\x73\xbb\xc6\xb9\x8a\x39\xca\x78\xc0\x68\x30\x8d\x7f\xfb\x70\xb8\x0b\x96\xda\x02\x19\x15\x41\xe1\x3d\x80\x0e\x3b\xee\x0a\xc3\x3a\x0b\x98\xb0\x56\x47\x5d\x1e\x16\x0e\x75\x23\x70\x7c\x68\x0b\x86\xe5\xb7\x05\xe0\x6c\xe4\x67\x57\x90\x62\x38\x4a\x31\x1c\xa6\x18\x8e\x53\x0c\x06\x2a\xf8\xd2\xca\x9e\x5c\x6e\x27\x54\xc1\x71\xd8\x2f\x56\xd4\x92\xb6\x4d\x43\x2f\x29\xdb\xea\xc1\xf5\xcc\xc4\x77\xad\xba\x7e\xca\xe7\xcb\xda\xff\x2e\x83\xc7\xff\xd4\x03\xc0\xe9\xa7\xdb\x15\xe0\x76\xce\xfe\x71\xce\x6a\x2a\x37\x5e\x66\x52\x5f\xba\x97\x55\xef\xbc\xbe\xd2\xfe\xdb\x15\xfb\x3a\xa4\x5f\x3d\x39\x7f\xf7\x85\xd7\x57\x52\x35\xac\xaf\xd8\x88\xb7\xbf\xe5\x8e\x1f\xfa\x67\x49\xf8\x76\x9f\xb2\xb8\xe6\xdf\xf6\x2e\x72\x81\x2d\xdd\x6b\xd0\x27\xfb\xdd\x83\xde\xbe\xdc\xe6\xdd\x76\x61\x67\x1f\x9b\xc7\xc5\xbe\xd5\xf0\x16\x33\x6a\x17\x7c\x69\x68\xe7\x66\xf4\xa0\x79\x93\x68\x6f\x99\x19\x71\x1f\x74\x2e\xd4\x7b\x59\x5e\x52\x3f\xfd\x7d\xd1\x03\x81\xac\x36\xcf\xce\xd5\x30\xce\xe4\x37\xaf\xe1\xc7\x23\xf2\xce\x34\xed\x7b\x4d\x28\xcd\xcc\xee\x6b\x42\x6b\xca\x3b\xcf\xde\x37\xfe\x39\x94\xc0\x8e\xad\x3d\x7f\xef\xcc\xf0\xc0\xf5\xa0\xe3\x14\x24\xda\xf6\xc7\xbb\x25\xb4\xee\xd7\x7e\xb7\x84\x36\xae\x08\x6d\xf6\x19\x0f\x8d\xdb\x6e\x1f\x74\x4d\x28\x4e\xd4\xc0\x1d\x4a\xd6\x76\xea\x94\x71\xdc\xc9\x75\x89\xbe\xe3\xe4\x07\xdc\x23\xea\xcc\xf2\x6f\xba\x47\xd4\xa1\x63\x4f\x05\x1e\xf4\x6f\x59\xc0\xae\xf1\x68\x48\xa2\x3a\x57\x84\x1e\x78\x13\xa5\xe3\xc4\xe1\x41\x6d\x5d\x07\xd3\x7f\xbd\x49\x79\x29\x6a\x0f\xb4\xc3\xb0\xef\xa6\x9b\xb8\xd5\x77\x03\xcc\x48\x6a\x23\x1e\x4d\x79\xce\x87\x7c\xf0\x36\xcf\xef\x0e\xb8\xca\xf3\xe1\x5e\x37\x40\x4e\x1b\x12\xb5\x23\x1f\x83\x3a\xbc\x47\x3e\x06\xe5\x5f\x64\x8b\x7f\x60\x9c\x51\x4c\xec\xd2\xce\x97\xb9\xb1\xf1\x25\x5e\x21\x41\x6e\xc5\x8c\x04\x43\xfe\x8d\x3a\x8a\x59\x6f\xb1\x6d\xf4\xed\x51\x46\x36\xba\xa4\xcb\x18\xd5\x9d\x5c\x49\xd0\x48\xd3\xe8\xe1\x7b\xe8\x3e\x56\xbc\x4a\xc9\xc4\x20\xa1\xbe\xbb\x6f\xed\x48\xd7\x30\xe3\xdc\x90\x41\x6e\x1f\xbb\xe0\x36\x3c\xb7\xb7\x2e\x2d\x6b\xb2\xfe\x21\xa1\x63\xec\xd1\x97\x87\x8e\x9d\xda\x3b\xee\x07\xc4\xde\xfc\x6f\xdf\x0f\x58\x73\xd7\xc5\x0e\x83\x1b\xd0\x9b\xed\x22\x89\xcb\x75\xbd\xff\xec\x13\x19\xee\xbf\x86\x6f\x5f\xcc\x71\xe0\x1d\x7c\x26\x50\x39\x78\x0f\x5f\x67\x6f\xb0\x7d\x92\x30\xa5\xbd\x8c\x8f\x03\x96\x3b\x10\xcc\xd4\x89\x44\x36\x16\x80\x1b\x7e\x1c\xd8\x4d\x1a\x81\xc7\x76\xdc\xb1\x1d\x76\x6c\xa4\x79\xfd\x61\xee\xd3\x23\xc4\xf3\xa5\xb7\xce\x0d\x0c\x48\xaf\xb2\xdb\xef\xd6\x39\xb3\x11\xfc\xdb\xee\x97\x1b\x60\x79\x8f\xbd\x49\x0d\x6f\x4e\x98\x18\xb2\xc7\xbe\x03\x05\x6c\x90\xa2\xbd\xff\x00\x89\xee\x16\x04\x2f\xef\x1d\xea\xa6\x32\x1f\xd4\x32\x95\x31\x13\xbf\xfd\x2d\xa0\x18\x00\x9e\x0f\xf8\x18\xcb\x45\x15\x1f\x67\x03\xcd\x98\x98\x45\x97\x88\x49\x4d\x33\x8c\xf4\xf8\xf9\x7b\x6f\xcd\xdb\x77\x17\xee\x73\xc0\x8f\x6f\xc3\xfd\x77\xfb\xba\x32\x2c\x9b\x71\xff\x5e\xdc\xeb\x0e\x6f\x6c\xc5\xad\xdb\xf5\xcc\x3f\xaa\x2a\xf1\x68\x27\x72\x1c\x0e\xec\xce\xd8\x39\xa3\xda\x41\x68\xda\x9b\xf3\x11\xf1\xfa\xfb\xec\xd0\xfb\x82\xaa\x5d\x5e\xf0\x9d\x3b\xb2\x6d\x88\x08\x5b\x72\xbe\x33\x0d\xff\x02\xe7\x6e\x0c\x22\x04\x78\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x02\xff\xed\x5d\xeb\x73\xdb\x46\x92\xff\x4c\xfe\x15\x13\x56\xec\x80\x3e\x0a\x72\xb6\xea\xae\xf6\x94\xd2\xd5\xf9\xa1\x24\xde\x8d\x1f\x6b\xcb\xc9\x07\x95\x2b\x0b\x12\x43\x11\x2b\x10\xa0\x01\x50\xb2\x56\xd1\xff\x7e\xfd\x9a\x07\x9e\x24\x9d\xe4\x2a\x7b\x75\xae\x44\x22\x81\x99\x9e\x9e\x9e\x9e\x9e\x5f\xf7\xf4\x8c\x8e\x8f\xd5\xb3\x3c\xd6\xea\x52\x67\xba\x88\x2a\x1d\xab\xf9\xad\x9a\x47\x45\x9e\x85\xea\xf9\x6b\xf5\xea\xf5\xb9\x3a\x7b\xfe\xe2\x3c\x1c\x1f\x1f\xab\xb7\xba\xd8\x66\x59\x92\x5d\x72\x01\x75\x93\xa4\xa9\xca\xaf\x75\x71\x53\x24\x95\x56\xd5\x2a\x29\xd5\x32\x49\x35\x15\xfe\x51\x17\x65\x92\x67\x27\xea\xee\x2e\x94\xcf\xf7\xf7\xde\x0b\xf5\x1c\x5a\xf3\xdf\xe2\x77\x28\x31\xde\x44\x8b\xab\xe8\x52\xe3\x9b\x37\xfc\xf1\x55\xb4\xa6\x37\x50\xf9\xdc\xb4\xa1\x16\x79\x56\x45\x49\x56\xaa\xb5\xae\x56\x79\x5c\xaa\x2a\x57\xeb\xe8\x4a\xab\x24\x8b\x93\xeb\x24\xde\x46\xa9\xd2\x59\xbc\xc9\x93\xac\x82\x2a\x45\xbe\x56\xa5\x2e\xae\x93\x85\x2e\x67\x48\xa9\xd0\x1f\xb7\xba\xac\x54\x94\xc5\xf0\xb9\xdc\xe4\x59\x09\x5d\xb8\xdd\x68\xa2\x84\x45\xb1\x47\x39\x3c\xb4\x54\x66\x2a\x2a\xd5\x8d\x86\x4e\xc3\x6f\x9d\x2d\x40\x6e\x45\x89\x04\x90\x5e\xac\xe5\xfb\x32\x2f\xa4\x22\x51\x9b\xd1\x83\x08\x25\xb5\x54\xf9\xb6\x50\xe5\x76\xb3\xc9\x0b\x94\x74\x55\x44\x59\x89\x9f\xb1\xb9\x24\x4a\x93\x7f\x46\x15\x08\x02\xa9\x41\x9d\x75\x54\x95\xe1\x78\x9c\xac\xa9\x44\x30\x1e\x4d\xe6\xb7\x95\x2e\x27\xf0\x01\xfb\xae\x3f\x55\xf8\x91\xd8\x80\x21\x39\xfe\x47\x99\x67\xf8\x60\xb9\xa6\xe7\x49\xce\x3f\x8f\x93\x7c\x5b\x25\x29\x7e\xc9\x74\x75\xbc\xaa\xaa\x8d\xf9\xbc\x2d\xe8\x71\x59\x15\x40\xef\x5a\x3e\x02\x29\x68\x02\x3e\x5f\x26\xd5\x6a\x3b\x0f\x17\xf9\xfa\xf8\x32\x3f\xba\x4a\xaa\x63\xfc\xdf\xc8\x02\x4a\x47\xd9\xed\x66\xae\x26\x97\x79\x7e\x09\x43\x7e\x99\xa7\x51\x76\x19\xe6\xc5\xe5\xf1\xa6\xc8\xab\x7c\xbe\x5d\x1e\x53\xff\x8f\xaf\xb2\xfc\x26\x3b\xa6\xd2\x50\x2b\xde\x16\xd4\xc9\x03\xaa\xba\x2a\x50\x5f\xaf\x37\xd5\x21\xed\x4a\x79\xa8\xb9\x4c\x74\x1a\xaf\xa3\xf2\xea\x80\xda\x5e\x1d\xa0\x00\xe2\xd9\x2e\xaa\x03\xaa\x9b\x0a\x50\xb7\x4a\xd6\xa0\x6d\xd1\x7a\x73\x40\x75\xaf\x0e\x50\xb8\x29\xa2\xcd\x06\x14\xec\x00\x02\xae\x4a\x7b\x48\x0b\x98\xbc\xd1\xf1\x7a\xfb\x69\x52\x7f\xb3\xb9\xba\x3c\xd6\x45\x91\x17\xa4\x69\x03\x0d\x59\xcd\xa3\x27\x46\xfd\x06\x2a\xd0\x07\x64\xe4\xee\xee\x48\x25\x4b\xa5\x3f\xaa\xf0\x59\x9e\x2d\x93\xcb\xf0\xdc\xce\x84\x09\xcc\x94\x89\x9a\x64\xa0\xfc\x13\x05\x93\xbe\xc6\x1b\x3e\x3d\x02\x9d\xc6\xdf\xd0\xc4\x84\x49\x81\x4e\x62\xc1\x3d\xa8\x5e\x16\x9b\x85\xa1\xda\xe2\x93\x5e\xf6\xbe\x39\x06\x33\x13\xc5\x51\x15\x35\x1b\xdd\xbb\x49\xfc\xe4\x66\x7c\xcf\xfc\xb2\x05\x0c\x3b\x5e\x5b\x38\x77\x0f\x20\x20\x53\xfd\x20\x61\xe3\xa7\x03\x9a\xa0\x8a\x3e\x8f\xd3\xf1\x78\x7c\x1d\x15\x68\xad\x7e\x56\xa7\x0a\x6c\x51\xf8\x6e\x03\x36\xa5\xe2\xef\x64\xc0\x80\x8d\xf5\x26\x2a\x34\x3f\x12\xeb\x13\x3e\xa9\xf2\x84\x9f\xd4\xba\x19\xbe\xd2\x37\xef\xd0\x16\x17\xfc\x92\xad\x59\xf8\x2a\xdf\x3c\x4b\xc1\xc4\xda\xa7\x40\x74\x73\xcb\x5f\x58\x79\xc3\x9f\x40\xf7\xc7\x23\x30\xa5\x32\x9e\x46\x0d\xd9\x2a\x63\x51\x32\x49\xe1\x93\x8c\xea\x39\x23\x13\x3e\x97\x8f\xf8\x58\xcc\x47\x78\x86\xbf\xf1\x81\x99\xd2\xe1\x3b\xfa\x80\x8f\xbc\x69\x1a\x9e\x9b\xcf\xf8\xc2\x4d\x3f\x2c\x0d\x53\xe5\xc7\x28\xdd\x52\xbf\x3d\xbb\x12\x7e\x8b\x9f\x5f\xc2\x67\x94\xde\xf1\xa3\xbd\xfe\xa9\x33\xbb\xb2\x3d\xda\xfb\xdf\x31\xad\xa0\x2f\x32\x15\xf1\xf2\x56\xcc\x54\x52\x7d\x55\xaa\x6d\xa9\x97\xdb\x94\x96\xa9\xe5\x36\x5b\x60\xd7\x61\x0d\x5c\x45\x95\xca\x34\xae\x52\xb9\xca\x37\x84\x0d\x54\x8e\x75\xe1\xf3\x91\x59\x06\x90\xe0\x3c\x2a\x93\x32\x54\xdf\x42\x75\xfd\x09\x7a\x9e\xea\x99\xba\xcd\xb7\x6a\x9d\x5c\xae\x2a\xb5\x89\x4a\x5c\x22\x3d\x86\x81\x5e\x64\x1b\xe2\x76\x60\x6c\xe2\x2d\x2c\xcc\x48\x0e\xca\xa2\x06\x84\xdf\xc3\xba\x9a\x22\x8f\x37\xa0\x84\x4a\x47\x8b\x95\xac\xf4\x2a\x30\xad\x4f\xe1\x5d\x01\x1c\x6e\x37\x4c\xb4\xdc\xe8\x45\xb2\x4c\x16\xd0\x68\xb5\x0a\x55\xf0\x82\xf8\x03\xc0\x00\xf4\xe7\xd1\x3c\xbd\x85\x32\xeb\x04\x86\x87\x50\x02\xac\xd8\x65\x72\x99\x61\xd5\x24\xbb\xce\xaf\x70\xb9\xd7\xea\x1d\x63\x04\x8b\x2a\x88\x45\x8d\x74\x5c\x0f\x58\x07\x90\x84\x91\x64\x38\x85\x12\x56\xba\x8b\x34\xd1\x59\x55\x97\x2e\xb4\xb2\xc8\xd3\x54\x53\x3d\x03\x50\x80\x23\x50\x7e\x26\x07\xfd\x70\x70\x05\x7e\x40\x87\x90\x60\x09\x6a\x93\x32\x94\x60\x59\x25\x28\xe1\xb5\x26\x49\x7a\xfc\x42\x0d\x5d\x2c\xa3\x85\xee\x1b\x09\x24\x66\x1b\xeb\x06\x49\x5b\x6c\x4c\xd5\x2d\x08\x4e\xc0\x67\xd2\x1f\xb0\x03\xf3\x24\x23\x39\xad\x85\x45\x6f\x60\x67\x02\xa5\xaa\x6d\x91\x41\xd7\xb1\xc7\xc8\xe0\x02\xba\xa9\x0b\x44\x4c\x91\x61\x36\x1c\x53\x77\x5a\x02\xbd\x1b\x8f\xde\x67\xb6\x7f\x3a\x06\x04\x68\x6a\x30\x04\x14\x4b\x70\x77\x07\x2c\x02\x42\xfc\x32\x51\x27\xa7\xca\x96\x79\xc9\x43\xc6\x66\xf9\xcb\x44\xea\x98\x56\x14\xfc\x33\x5d\x0d\xcd\x43\x20\xc5\x86\x8b\xd1\xa5\xe5\x68\x77\x13\xa8\xc0\xa0\x89\xae\xca\x54\x79\x8d\x06\x8b\xea\x93\x12\x94\x86\x66\x17\x7f\xcf\x50\x61\x1e\xdd\xdd\x7d\x97\x63\x19\xa0\x1c\xbe\x65\x08\x7a\x0e\xc2\x90\x7a\x53\x15\x34\x4a\x30\x30\xf5\x8a\xcc\xd8\xc0\x4d\x51\x5a\x06\xb7\xd2\x33\x64\x54\x87\x1d\x3d\x47\x66\xb0\xf1\xe9\x78\x84\x0b\x01\x94\xfc\xe2\x54\x65\x49\x8a\x14\x46\x32\x5e\xf0\x95\x88\x8c\x47\xf7\x63\xf3\xcc\x50\x0f\x77\xf2\x34\x9d\x21\x01\x10\xa2\x11\x27\x0a\xf3\x25\x4e\x33\x5f\xa2\x34\x91\xbf\x04\x33\x82\x12\xbd\xc7\xc2\x47\xca\x97\x32\xbc\xea\x13\x34\xd2\xea\xea\x59\x89\x42\xf7\xaa\xf9\x6a\x32\x6d\x0f\x37\xcb\x8c\x3a\x87\x64\xbb\x47\xc9\x38\x06\x76\x46\xdd\xe1\xb0\x58\x17\xc1\x7b\xcc\x62\x77\xc3\x01\xb4\x3f\x62\x47\x84\x42\x4b\x6e\xad\xd1\x86\x2a\xd7\x76\xec\xca\xb0\xa1\x40\xc4\x0a\x96\x69\x8f\x5a\x7b\xd8\x70\xdc\xcc\xd3\x6b\x1e\x8e\xd1\xfd\x98\x85\xcc\x63\xe2\x8f\x0d\x2e\x8e\x4f\xd2\xf4\xec\xd3\x42\x6f\x2a\x5a\xa7\x4a\x36\xb1\x56\x52\xb4\x42\xa1\xcb\x22\x73\xd3\x4d\x56\x1a\x46\xb2\x4d\x1d\x7e\x41\xf8\x32\x89\xc1\x6c\xdf\xc0\xfa\x4e\x5e\xe0\xfb\xd2\xf8\x85\xe8\x04\x6d\x36\xe9\x2d\x9a\x18\x34\x9b\x15\x12\x5f\xdb\xd2\xb4\x2e\x68\x18\xb6\x5b\x3b\x6c\x38\x5f\xd0\x82\x94\xc6\x6a\x00\xbd\xd7\x1b\x5c\x35\xd0\x72\xce\x3c\xc3\xb5\x00\x3b\x34\xd7\xb4\xd6\x80\x19\x85\x6a\xe0\xc3\x66\x28\x76\xa0\x09\xcf\xf5\xa7\x45\xba\x8d\xe1\x0d\x79\x81\x73\x8d\x2c\xf0\xda\x1c\x87\x2d\x69\x04\x8e\xa7\x99\x9a\xbc\xab\xa2\x6a\x5b\x4e\xe0\xd3\x1b\xa8\x35\x99\xda\x79\xff\xc8\x9b\xf8\x7d\xf5\x55\x87\x54\x66\x8e\x9b\x30\x0c\xd9\xe1\x22\xe5\x49\x32\x79\x0c\xaa\xb0\x8e\x36\x17\xfc\xea\x03\x8b\xff\xee\x1e\x47\xbd\x39\x61\xba\x2c\xdf\x68\x34\xf1\xd4\x68\x02\x0e\xf6\xfd\x4c\xaa\x0a\x8c\x04\x0d\x18\xe1\x68\xfc\x8c\xac\x90\xba\x12\x49\xcb\xd6\x1d\x6b\x1c\xbc\xce\xaf\xf0\xb5\x61\xec\x42\x7f\xfa\xf0\x8d\xfa\x02\x1e\x92\x06\x6e\xa2\x2c\x59\x04\x0e\xe1\x2d\x83\xc9\x99\x21\x61\x47\xf0\xab\x07\xe5\x57\x2a\xce\x61\x74\xb3\xbc\x82\x26\x60\xf1\xfd\x06\xc6\x53\xfb\x03\x6f\x75\x87\x20\x3d\x32\x35\x9d\x8a\x3e\xc7\x3a\xd5\x95\x0e\x0c\x07\xf4\xce\x75\x00\x1e\x3b\xf6\xad\xf8\xf6\x17\x14\x74\x12\x49\x9c\x9e\xaa\x9a\xc8\xb8\x7b\xa3\x4e\x53\x0a\xf0\xd2\x71\x1e\x74\x16\x41\xde\x89\xf9\x9a\xc8\x79\xda\xfd\x10\xcd\xa1\x47\xb1\xd3\x06\x0e\xa1\x5c\xea\xca\xe8\x2e\xea\xbb\x95\x1e\xa9\xf0\xcd\x4a\x67\xf6\x6d\xee\xa9\xab\x10\x63\xad\x9b\xf1\x2c\x93\x89\xb0\xe5\xc2\x8a\xe3\x32\x11\x07\x77\x00\x17\x01\xa8\x81\x5f\x04\xb3\x3c\x2d\xbd\x59\x25\x30\xf3\xb1\x6a\x09\x4d\x77\xb0\x20\x2b\xb9\xd4\x36\x38\x26\x2f\x64\x1d\x6f\xf7\x8a\x8c\x2b\x2b\xf0\xac\x6d\x85\x3b\x0c\xf3\xb8\xaf\x5f\x9f\x6d\x9b\x5a\x4c\xcd\xa4\x9f\x24\xf1\x42\x2f\x74\x72\xcd\x88\x8f\xba\x08\xc4\xfc\x7e\x87\x00\x55\xb4\x25\xe3\x51\xa1\x17\x06\x88\xda\x79\x8f\x8c\xa2\x46\xc6\xe0\x23\x26\x29\x81\x46\x33\x9d\x28\x98\x23\x60\x37\x4a\x93\xea\x36\x1c\x32\x21\xb5\xbe\xfb\x96\xe4\x60\x89\xfe\xbf\x9d\xf9\xbf\x63\x67\x6a\xd5\x66\xea\x20\xb3\xb3\x7f\x80\x62\x5f\xd7\xf3\xbb\xb7\x6f\x9e\x31\xc2\x3a\xd8\xf7\x44\x18\xe7\x55\xc7\x70\x6d\xe9\xc0\x80\x5b\xcf\xa3\x6b\x98\x46\xe0\xb0\x69\x76\x1b\x2e\xa1\x8a\xea\x71\x06\x42\x07\x10\x1d\xe5\xc0\x91\xf2\xdc\x93\x7c\xc3\xae\x2d\xcc\x87\x5a\x2c\x26\xe4\x4a\x0c\x2d\xa6\x7d\x0d\xe1\x70\x95\x5e\xc1\x12\x07\xfc\xe2\x43\x3f\x25\x1c\xde\xae\xb7\x4f\x35\x28\x95\x0e\x90\xdb\x97\x12\x53\x3a\xcf\x05\x7d\x4e\x67\x04\xc0\xeb\xed\x9c\x22\x70\x82\x1e\x05\xb5\xc7\xb6\x3f\xd0\x9d\x29\x05\x3a\xee\xee\xd4\x79\xfe\x43\x7e\x03\xbc\xd6\x7a\x40\x91\x1d\x81\x86\x0f\x91\x23\xe6\xe3\x0e\xdd\xa4\x9d\xda\x0b\xc5\x3d\x6d\x3b\x51\xf5\x1e\xd9\xe8\x4c\x80\xea\xe7\x26\x58\x87\x82\xa2\x75\x18\x3d\xa7\x20\x39\x76\xdd\x2b\x21\xc0\x98\x0a\x9c\x65\x9d\x05\xc4\xcd\xc1\x12\x35\x21\x40\xdf\xf1\x21\x8a\xad\x63\xb9\x75\x7d\x6d\x7a\xcd\x16\x97\x77\x0f\xb5\xc5\xf8\xbc\xc0\x79\x74\x7e\x73\x4f\xb5\x2e\x5f\xf0\x51\xeb\x02\x96\x28\x88\x07\xe3\xc5\xb9\x92\xf0\x04\xda\x27\x8f\x3d\x8c\x65\x18\xae\xf6\xef\xe4\x9e\xce\x6e\xa9\x1e\xb9\xa6\xa6\xca\xf7\x6d\x86\xbc\x5e\x74\x8a\x7e\x5b\xb7\xf7\x67\x24\xba\xf1\x1c\xa7\xba\x10\x79\x9e\xa1\x0e\xf9\x5e\xd4\x81\xae\xef\xe6\x33\xbd\x5e\x11\x2e\x2b\xfa\x6e\xc9\x42\x8d\xa1\x39\x81\xc1\xab\x48\xd5\x83\xc2\x21\x57\x90\x12\xdf\xe2\xd0\x50\x60\x08\xc3\xa8\xba\x40\xeb\x49\xba\xcf\x36\xd3\x18\x04\xa7\x61\xc6\xbd\xa5\x88\x19\x00\xc5\xe2\x28\xce\xd7\x11\xf8\x4c\x03\x85\x43\xf5\xa6\x48\xd6\x51\x91\xa4\xb7\x26\x9e\xe5\x07\xbf\x58\x3f\x86\xfa\x11\xfc\xdc\xd6\x0b\xec\x0b\xbc\x6e\xf8\xd9\x4d\xf7\xda\x46\x3a\xc8\xb3\x96\x3a\xfb\x78\xd6\x76\x24\x3f\x0e\x0c\x13\x9b\x9b\xbd\x86\x69\xd0\x32\x75\x8e\x13\xd7\x30\x45\xfa\x06\x6a\xf7\x10\x98\xbd\xc9\xdc\x2d\x85\x5d\xc5\xc0\xb7\xde\x6b\x9c\x06\x3b\xd2\x35\x50\x5d\xa1\x8f\xa1\x91\x2a\x37\x1c\x04\xd9\x3b\x7a\x54\x8b\x38\x75\x8d\xd6\xf7\x3a\xc5\x38\xfa\x98\x3b\xd0\xb9\x72\x76\xdb\x9e\x75\xac\xcc\xbe\x4d\xf8\xf2\xf9\xb4\x59\x00\xf9\x45\x0b\x7a\x35\x53\xd7\x0e\xe2\xad\x2d\x36\xbd\xae\xc5\x5c\x68\xfb\x59\xab\x2b\x7d\x4b\xc3\x1d\x23\x0a\x9c\xe7\xe0\x70\x80\x8c\x4d\x2b\xb2\x71\xab\x82\xab\xa9\xf8\x1b\x58\x14\x3c\x8e\x14\xc7\x4b\xa8\x44\xe2\x65\x51\x7c\xf5\x59\x94\xe5\x80\x70\xa3\xf4\x7b\x1d\xc5\xba\xf8\x2b\x50\x17\x67\x04\x1b\x2a\x73\x89\xfa\x56\xe2\xdb\x19\x12\x8b\x85\x36\xc1\x0e\x0d\x4e\x0f\xe8\x02\xb7\x8c\xef\x51\x14\xa7\xb6\xaf\x3f\xc1\x6b\xda\x78\x60\x6b\x88\x7d\xbd\x78\xfc\x61\xba\xb3\x60\x0f\x77\xd0\x33\x47\x41\x60\xbe\x0c\x1f\x54\xa3\xe5\xe9\x00\x20\xc9\xa1\xe5\x83\x81\x24\xe0\x0e\xaf\x36\x37\x4f\xdb\x0c\x12\x2b\x52\xf3\x68\x71\xc5\xb9\x0c\x32\x67\x38\x26\x8f\x7d\xcd\x34\x39\x63\xa1\x7a\x41\xe6\x55\xa2\xfb\xa2\xae\xc9\x3c\x41\x27\xcd\x0c\x81\x04\xaf\x61\xea\xc5\x49\x94\x72\x84\x3b\x8d\x40\xef\x81\x5e\x8e\x71\x57\x2a\xe4\x68\xb2\x82\xd6\xb8\x0b\xf0\x35\xaf\x9c\x21\x3f\x01\xe5\xcb\x06\xd0\x28\x17\x32\x68\x34\xe8\x81\x16\xfe\x94\x13\xc5\x44\x47\xb6\x34\x9c\x1b\x41\x20\xc7\x49\xe5\xb2\x24\x24\xa6\x66\x77\xc3\x62\xbd\x4c\xb2\x84\xb7\xbb\x70\xe7\x8e\x89\x20\x47\xd8\x5a\x39\x1e\xbd\xd5\x97\xe0\x4d\x01\x5c\xec\xe6\x23\x78\x48\x35\x68\xd6\x4e\x79\x03\x2e\xe3\x8a\x08\x59\x9a\x21\xdf\x51\xcd\x67\x02\x29\x0c\x45\x7e\x89\x9f\xfa\xd2\x6e\xfd\xa3\x76\x04\x61\x74\xd7\x42\xab\x9e\x37\xd5\x82\xad\x32\x38\x34\x0b\x70\x3c\xf0\x03\x31\x1e\xc6\xba\x5c\x18\x6e\x90\x4e\xf3\x95\x30\x78\x01\x0d\x65\xf7\xf7\x1f\xe4\xbb\x2d\xd9\x63\x5e\x1d\xc4\xed\x59\x27\x3d\x88\xbb\xc3\x5e\xb2\xa7\x3d\xca\xeb\x10\xd8\x4a\x22\x20\xd7\x95\xc8\xd8\x4d\x6a\x31\xa5\x66\xa2\x5a\xa7\x68\xa7\x0f\xa0\x8e\xee\xd9\xa9\x6c\x09\xf5\x04\x37\x54\xba\xe5\x3d\x73\x4d\x8e\xee\x8d\x3d\x37\x80\x9c\xd4\x8a\xd7\x4b\x9a\x13\xd2\x20\xab\x59\x01\x23\xce\x66\xf3\x4a\xeb\x4d\x09\x9f\x23\x9a\xa4\x85\x28\x21\x06\x6c\x2d\x24\x67\x4a\x0e\x91\xe3\xe8\xc8\x44\x13\xa2\xcf\xe1\x09\x36\xcd\xf8\x55\x66\x21\x55\x9b\x2a\xa3\xd7\x52\x34\xe8\xae\x3d\x53\x3f\xd7\x97\x3d\x68\x27\x23\x3d\x00\xa5\x8a\x85\x3c\xf4\x0c\x87\x53\x89\x39\xfa\xf5\xd8\x6f\x00\x54\x18\xf0\x37\x0c\x2a\x86\x61\xc2\xbe\xd8\x4f\x16\xf0\x1e\x50\xc1\x16\x75\x18\xfc\xf5\x83\x0a\x46\x72\xc8\xcc\x9e\xa8\x02\x8b\x5a\x04\x88\x58\xe7\x20\x5c\xb1\xc1\x0d\x83\x36\xb0\xf0\x87\xed\xd7\x63\xc1\x7e\xc8\x6e\xa0\xe0\x20\x64\xdf\x13\x8c\xef\x04\x82\x83\x90\xbd\x36\x6a\x43\xfd\xe8\x46\x82\x5d\x5b\x63\xc3\x90\xfd\x80\xcd\xb0\x61\xc8\x2e\x5c\x10\x42\x29\xcf\x73\x1f\x05\x3a\x73\xd2\x5c\x46\x3d\x91\x73\x97\x07\xa8\x04\x00\xb8\x4a\x75\xf1\xc1\x04\x4b\x77\xd0\xdb\x6b\x33\x11\xb0\xe4\xa3\x5d\x08\x94\xd6\xb9\x4d\x94\x14\xae\x71\x78\x28\xa1\xd3\x2b\x87\x4b\x89\xbd\x3b\x89\x28\x5e\x9b\xb0\x29\x34\x1b\x32\x6a\xbb\x9a\x86\x12\x22\x9e\x7e\xa3\x4c\xf8\x74\xc4\x84\x6d\x0c\x89\xbe\x32\x0a\xb4\x21\x43\x5c\x19\x90\x26\x17\xf5\x21\xef\x23\xe0\xff\xd4\x41\xe8\xbf\x80\x75\x0f\xe0\xd9\xcc\x3d\x7a\x83\x75\x98\x2a\x06\xa2\xa6\x86\x9c\x07\x09\x25\x0e\xc9\x23\xb9\x2f\x38\xfc\xfe\xfc\xfc\xcd\xe7\x44\x19\x29\xc5\x81\xa5\x9c\x91\x7a\x01\xff\x13\xdc\x78\x04\x10\x8b\xeb\x25\xe5\x49\x7e\xa3\x16\xab\xa8\x28\x75\x75\xba\xad\x96\x47\x7f\x9e\xd8\xe0\x24\xb6\x2a\x21\x17\x87\x2a\xd5\x4a\x9e\xd0\x9c\xdd\x1d\xb4\x44\x62\x79\x06\x10\x4b\x13\xb8\x02\x18\x8a\xf9\x28\xa5\x17\xa9\xf4\x9a\xd9\x19\xaa\xac\xa7\x43\xd5\x43\x95\x7e\xa2\x8c\xba\xb3\xb9\x5e\x21\xd1\x27\x9f\xa9\x16\xcb\xeb\x08\x5f\xf6\x53\xa7\xf1\xef\x7a\x2d\xf1\x4b\x6e\x03\x9d\x82\xb2\x16\xbe\xec\xae\x74\x86\x66\x81\xcd\x0d\x74\xd9\xfb\xd2\x5f\xe5\xc9\x12\xcc\x4a\xd0\x7c\x53\x3d\x73\x43\x1b\x78\xc3\x3c\x25\x42\xed\x5e\xee\x15\x3c\x95\xe8\x1a\x05\x4a\x61\xf0\xde\xc0\x70\xc1\x98\x15\x60\x97\x2a\xca\xf0\xc5\xad\xdc\x72\x11\x6d\x70\x6b\x00\xd0\xf3\x2d\x28\xc1\xad\x5a\xe5\x69\x8c\x39\x64\xa4\x4b\xd1\xa2\x42\xf7\x6e\x4d\xbb\x2a\xdb\x4f\x88\x30\xdf\xe6\x5b\xec\xc0\x34\x7c\x5f\x6a\xee\x6c\x8c\x84\x01\x9e\x79\xa0\x4b\x76\x92\x70\xa5\xe9\x19\x34\x5b\x74\x8e\x39\x3b\xd9\x25\xe1\x65\xae\x16\x3e\xe5\x47\xb2\xcf\xb0\x36\xf5\x68\xc3\x40\x8a\x63\x76\xf5\x5c\xfd\xa2\xce\xf3\xf7\x98\x8b\x76\x7f\x3f\x99\x86\xc4\x86\x5f\x06\x1f\x9c\xeb\xf5\x26\xa5\x14\x6c\x28\x61\x94\xb3\x27\x17\x2f\xe0\x9d\x0b\x3f\xdc\x2b\x1c\x75\xc4\x7c\x05\xf0\x62\xf7\xbc\x26\x69\xa7\xab\x0e\x8c\x05\x3a\x63\xc1\xef\x78\xc3\xb2\x86\x8a\x3b\x23\xbf\x23\xb2\x38\x8d\x2c\x50\xf9\x28\x26\x68\x6d\x92\x7b\x3c\xad\xe3\x9d\x51\x8e\x05\x93\x36\x9a\x3d\x4e\xd3\xe2\x4f\xf8\x1e\x9c\x2c\x70\x20\x61\x12\x47\xdb\xb4\xc2\xb5\x93\xd5\x0d\x89\x11\x08\x85\xe9\xdf\xb4\x2c\xe0\x22\xaa\x79\x1e\x93\x03\x89\xdf\xd9\x03\x42\x4f\x7e\x42\xed\x4c\xac\xf3\x7f\x4d\xb9\x80\x40\x8a\x9e\x87\xc4\x5d\x30\x65\x17\x13\xac\x0b\xe5\x1d\x28\x64\x16\x49\xfd\xfb\xe3\xc7\xe0\xaf\x2e\x3d\x7e\xbd\x80\x36\xcf\x42\xe0\x96\x18\x63\xe7\xee\x3a\xc1\xe8\xc4\x8a\xe7\x27\xef\x79\xce\x35\x73\xcb\x5b\xc3\x58\xce\x21\x3c\x9f\x34\xe5\xcc\x39\xea\xd8\x8b\xf0\x25\x58\xcb\x55\x44\xe9\x78\x86\xff\x35\x3f\x42\x8d\x2c\xb7\x8b\x85\xd6\x71\xc9\xee\xf0\x5f\xde\xbd\x7e\x25\xd9\xf1\xb1\x49\x65\xb7\xfb\xab\xc4\xbb\x61\x07\xb7\xa9\xfb\xbb\xc5\xa9\x17\x78\x38\xa1\x98\x19\x2f\xdd\xf6\xcc\xbd\xac\x51\x03\x64\x02\x98\x3e\x8a\x8d\xcc\xd8\xe4\xfa\xf6\xa6\x0b\xd6\xd8\x2c\x9e\x99\xba\x61\x9b\x5a\x57\x03\x82\x33\x38\xaa\xe8\x0d\xc0\xf4\xf3\x45\xc2\xc6\xec\x27\xce\xf4\xbc\xa3\x51\x3c\x41\x62\x66\x40\xef\x39\xf4\xbc\x76\x02\xe4\x65\x1b\x8b\x04\x75\xd9\xba\x55\x3b\x61\xe5\x79\x4a\x4d\x4a\xd5\x33\x0e\x76\x5b\x42\xa6\x1e\x8a\x3b\x80\xaa\x5e\xb1\x53\x6f\x05\x27\x65\x3c\xb5\xe4\x4c\xcc\x66\x74\x13\xb2\xda\x80\x7d\x02\xa3\x1a\x4c\xc4\xac\x1e\xa1\x2d\x9d\xcc\xfc\x05\x94\x3b\xb0\x32\x4a\xe6\xf3\x5f\x37\x0f\x46\x0f\x5d\x3f\x4c\x6c\x8d\xc0\x96\x03\x32\x86\x96\xd4\x28\x03\xce\x9e\xf2\x79\x7a\xae\x53\xc0\x33\xf8\x50\x70\x90\x17\x9f\x13\x72\x0c\x6f\xbc\x3a\x4f\xe2\x38\x68\xe0\x1a\xfc\x8f\xe6\xd0\x09\xe7\x15\x87\xac\x37\x2f\x10\xb1\x66\x51\xea\xad\x4d\xd4\x49\xf4\xf7\x7a\xbb\xe7\xe9\xa3\xeb\x21\x11\x3f\x55\x18\x31\xb0\xaf\xc5\x01\xbf\x09\x49\x7b\x84\x3d\x2c\x38\xb5\x0f\x03\x1c\x96\xa9\x75\x4d\x49\x87\xd8\x4c\x16\x01\x46\x65\x2e\x3e\x60\xaa\xf4\x54\x26\xc5\x1d\x87\x42\x6e\x94\xaf\x6b\x76\x47\xc3\x28\xe4\xfb\x4c\x54\x00\x29\xcc\xd4\xc3\x1b\xe0\xb2\xb1\xe3\xc1\xe0\xa8\x4c\xfe\x89\x3c\xff\xf9\xeb\xff\xfc\x0f\xd6\xb5\x54\x67\x58\x67\xaa\xfe\x8b\xdf\xb1\xe2\x00\x1b\xa7\x0a\x7e\x5e\x9c\xe0\xc3\x0f\xf5\x14\x33\xdc\x8f\x27\xb9\x2d\x83\x89\x8d\x0f\x93\xae\xe1\x56\xfc\x09\x06\x2b\x71\x27\x7e\x83\x28\x4b\x65\x79\x76\x44\xc6\xd0\xf8\x0f\x58\x10\x94\x0c\xdb\xac\x05\x10\x25\x75\x1b\xd6\x99\xe0\x86\xc9\x93\x8c\xc8\xd8\xfa\x7d\xf7\x9c\x7e\x2a\xa5\x18\xf6\xaa\xbf\x63\x2b\x27\x62\x69\xff\x2e\x76\x1f\x47\x51\x4a\x81\x9d\x2e\x97\x89\xd8\x7d\xa3\xae\x64\xd1\xbc\xc1\x75\xde\x0d\x46\xcb\xc8\xea\xc8\x89\xa4\x7d\x32\xee\x25\x3e\xe1\x35\x6a\x59\x65\xeb\x3a\x2a\x9d\xe9\xa2\xb8\x95\x31\xd2\xf0\xcf\xcb\xc7\xb0\x9e\x80\x0d\x5f\xac\x1c\xd1\xa9\xf2\xb5\x4d\xd5\x33\x1b\x57\xa1\x6b\xa1\xa7\xb6\x9b\x77\x8c\x20\xe9\x6b\x8d\x84\x30\x25\x22\xe4\xd0\x32\x25\xaa\x5b\x58\x8c\x22\x24\x0f\x46\x4c\x3b\x46\xc8\x62\x97\x9a\xb3\x2e\x2f\xd9\xe1\x44\xec\xab\x40\x0e\x30\xf2\xc5\xed\x58\xa2\xdf\x37\x2b\x4d\x31\xeb\x84\xdc\x65\x80\xd2\x27\x30\x85\xa2\x34\x42\xb0\x55\x32\xc4\xa2\x64\x0f\xcc\x75\xd9\xae\xcd\xc3\xa4\x50\xf0\x6d\xce\x43\xc6\xa4\x6e\xab\x15\x0e\xbc\x4e\x4b\xca\x15\x40\x63\x38\x33\x31\x4e\x5a\x78\xa0\x85\x55\x54\x32\x2b\xa8\x76\xb2\x24\x78\x3d\x0a\x90\x55\x8a\x87\x02\x7e\x2a\x4b\x18\xe8\x19\xe7\x04\x19\x3f\x30\xa0\x6e\x9a\xe4\x1b\x98\xf8\xf3\x3c\x4f\x9b\xb9\x9f\x8c\xfc\x4a\xc0\x52\x48\xe9\xad\x5e\x62\x8a\x14\x5a\x02\x96\x08\xbe\x0c\x31\xa0\x54\x24\x9b\x0a\xd7\x05\x4e\xfb\x87\x21\x08\x9f\xde\x9e\x03\x7d\x04\x4e\x01\x36\xcb\xe6\x96\x6b\x9d\xb6\x36\x2b\x27\x30\x6d\x96\x51\x2a\x29\xbf\x38\x59\xcc\x2c\x7c\x50\x52\x47\xb3\x5c\xea\x3e\xf8\x08\x45\x9b\x6d\x6e\xd3\x94\x1a\x9a\x72\x17\xd9\x50\x41\x73\x5f\xac\x01\xf2\x95\x01\xd5\x9c\xaa\x87\x0f\x15\x7f\xc4\x87\x6f\x60\x7a\xc3\x6a\x8e\x7a\xf6\xcb\x2f\x4c\x3b\x7c\x51\xfe\x90\x94\x55\xfd\xc9\xcb\x68\x13\x4c\xa7\x3d\xbc\x4a\x3a\x2a\x35\xd5\x20\x01\x8d\x7d\x51\xa3\x81\x4f\xf8\x81\x0c\x07\x3c\xf2\x04\xc1\x29\x43\x74\x92\x84\xa5\xfa\x1d\x2c\x5f\xcc\x78\xf8\xc2\xcc\x5c\xe8\x6b\x20\x36\xf4\x1b\xf5\x05\x17\xf6\xf3\x66\x5d\x3a\x51\xd0\x47\x00\x44\x04\x33\xd7\xf0\x2e\x6b\x49\x9e\x71\x14\x6a\x4d\x36\x6a\xca\x0f\x68\x01\x25\x02\xb3\x1a\x3b\xf0\x5a\x2c\x32\xba\x67\x50\xcb\x1e\x94\x32\x6b\xb7\x60\x59\xe4\xec\x49\x9a\xe6\x37\x6f\xa2\xa2\x4a\xa2\x94\x42\xab\xd4\x38\xbc\x00\xef\x81\x54\x8a\xc2\x96\x27\xf5\x17\x67\x30\x1d\x5e\xd1\x8c\xc0\x37\xe6\xc5\xd9\x3a\xa9\xde\x67\x9b\x7c\xb3\x45\x3c\x1f\x9f\x98\x17\xc0\x3f\xba\xec\x76\xdf\xdc\x31\x67\xc1\x0c\x75\xc7\x17\xc2\xc0\xbe\x79\x5b\x15\xd1\x3a\x2f\x11\x10\xcd\xd4\x64\x91\x6f\xd3\x38\xfb\xaa\x12\x24\x68\x95\x12\x67\x29\x9d\x15\xf3\x35\x10\x57\x37\x2a\x50\xfa\x26\x90\x24\xf5\x36\xba\x11\x35\x18\x58\xf0\xb8\x5b\x0f\x99\x44\x7b\xd9\xeb\x64\xd8\xdf\xee\xe7\x06\x79\xd8\xca\x0b\xe4\xeb\x43\x6d\xf8\xd9\x0a\x6e\x4d\x7b\x6c\x08\xc1\x6a\x95\x7d\x96\x8f\x12\x8d\x71\xdb\x85\xc0\x30\x1a\x1b\xb1\x3b\x75\x1a\x3b\x4c\xcf\x4c\x79\x96\xc7\x03\x03\x38\x8b\x48\x02\x3f\x02\xfe\x8e\x45\xd1\xc9\x4a\xd5\x27\x60\xd3\x42\x7c\x44\x63\x8b\xcb\xb2\x0c\x00\xd5\x20\x39\xf4\x5a\xaf\x96\xc2\xdb\x0e\xb4\x74\xda\x0e\xc7\x80\x56\x1b\x15\x7d\x9e\x80\xb9\x2f\xe2\xf7\x19\x9d\x53\xf4\x35\xd4\x8d\xb1\xdf\x92\x37\xd6\xd2\xdb\x5a\x42\xe0\xdd\x83\x8f\x27\xea\x41\x79\x2f\x4a\x25\x3d\x83\x21\x6c\xe9\x73\x9f\x6e\x18\x85\xf8\x3c\x6b\x4d\xcd\x78\x06\x14\x09\xaf\x7d\xb3\x40\x05\x6a\x96\xe1\x9e\xd7\x2c\x2e\xf9\x2c\xd5\x51\x21\xef\x7c\xbd\x74\xba\xb7\xc8\x37\xb7\xcc\x43\xa7\xde\xd1\xb6\x5f\xcc\xb1\x61\xda\x33\xa1\x25\x14\xe3\x16\xb0\xf0\x95\xc5\x42\xb4\xcf\x51\x09\xa0\xf0\x0c\xdf\x74\xa9\x5f\xd9\x48\x19\x85\x0e\x90\xad\x85\x3a\x0d\x05\x21\x12\xed\x25\x8f\x21\x3b\x69\xb2\x45\xed\x4c\x98\xbc\x02\x23\xe3\x72\x6f\x19\x13\x38\x6f\x4a\x78\x14\xfb\x22\x2e\xeb\xf2\x1d\x79\x79\x60\x08\x41\xda\xe0\xa5\x1b\xb0\x74\x02\x07\x3a\x4f\xc6\x22\xb4\xb4\x76\xce\x5d\x54\xb4\x47\x02\x10\x04\x9f\x02\xd7\xec\x71\xe6\xe0\xa7\x90\x6c\x1a\x38\xc4\x1a\x45\x9c\x06\x66\xd5\xc3\xe5\x18\xd3\x61\x61\xb1\x25\x7b\x80\x89\xa4\x13\x16\x81\x76\xe7\x1d\xcd\x2c\xdf\xd4\x82\x57\x8a\x27\x3d\x1d\x63\x9c\x34\x16\x7d\xed\xcf\x03\xe4\x14\x89\x99\x97\xb6\xa5\x70\x52\x6b\x38\x0c\x27\xfe\xbc\x91\x13\xe3\x21\x6e\xc9\xe0\x0c\xe3\xee\x41\x25\xf8\xf1\xe0\x4f\x67\xf0\xeb\xe8\xeb\x9a\x4a\x6f\x8b\x94\xc2\x4d\x67\x14\x4f\x63\xa3\xe5\x0d\xd3\x8f\x08\x01\xfd\x51\xda\x66\x12\x79\x53\x9b\x46\x54\x0e\xa3\x2f\x76\x77\xc1\x0d\x0e\x52\x08\x40\xf2\xe2\xc7\xd3\x6b\xc0\x70\xf5\x54\x67\x33\x40\x02\xde\xae\xb1\xd5\x56\x3e\x34\xfc\xba\xbb\x67\x6d\x66\xab\x42\x8e\xa7\x97\x27\xb2\xc5\xc8\x3b\xb6\xc6\x83\xe1\x82\x09\x68\xbd\xa4\x9f\xef\x85\xff\x80\x2a\xef\x71\x9a\xc7\xc2\xf4\xbb\x8e\x55\xb5\x35\xb8\x66\x4c\x67\xbe\x7b\xfb\x34\x8a\x4d\x5c\x0d\x69\x8a\x2b\x4c\xbd\xe4\xc5\x0d\x06\x1a\x99\xf5\xc7\x05\x5f\xfa\x8b\x5d\x14\xc7\x3c\x65\xe0\x43\xef\x7c\x91\x38\x12\x41\xfb\x19\x46\x9e\x2d\x9e\x97\x01\x31\x54\x02\xf1\xd9\x51\x2a\xbc\xf5\x32\x53\xbb\x60\xb7\x5d\xee\xbc\x29\xc3\xb2\x1d\x9a\x34\x83\xd6\x1d\x4d\xf5\x95\x6c\xb9\x20\x13\x14\x32\xf0\x56\x8c\x6e\xdb\xcb\x0c\x21\x5c\xad\x69\x26\xf5\xda\x57\x48\x3a\xe2\xa4\x52\x2c\xc7\x67\x13\x68\x66\xa8\x27\x72\x86\xd3\x91\x32\x27\x11\x10\x22\x61\xe4\x0a\x0f\xa4\x66\x54\x7d\x9d\x17\xb4\xed\x7b\x99\x5c\xc3\x13\x71\x68\x44\x96\x8e\x8d\x80\xda\x70\x1b\x55\xe6\x93\x60\x03\x74\xe7\xb1\x04\xc1\xe6\xaf\xc9\x7c\xe0\xd7\x8b\xc7\x1f\xd8\x74\xe0\x7c\x36\xdc\x3d\x93\x5b\x34\x9e\x64\xb7\xa6\x10\xa8\xd9\xec\x62\x22\x48\x02\xc8\xd5\x30\x63\x2d\xf4\x45\x8d\xf0\x8a\x7a\xda\xd6\x66\xc3\xd5\x9d\xa0\x2b\xa4\x33\x75\x61\x19\x29\x85\x34\x44\xce\x24\xd0\x96\x98\xb5\x89\x07\xd2\x7c\xa7\x9e\x8b\x99\x16\xb5\xb3\xb2\x2a\xf4\x46\x23\xe0\x65\x5b\x62\x86\x85\x2e\xed\xc8\x33\x4c\xd3\x59\xaf\x71\xdb\x06\x5f\xe1\x69\x5b\x9e\xcd\x79\x61\xde\x13\x54\x8b\x8a\x22\x32\x3e\xa2\xe5\xc7\x68\xef\xa0\xc4\xb9\xcc\x14\xb5\xef\x6b\x5f\xf7\xf8\xb9\x51\x3f\xfe\xe6\x86\xa2\x9e\x87\x6a\xc1\xb0\xed\xf4\xc5\x01\x28\x58\x90\x91\x6d\x02\x8c\xc2\x43\x43\xa8\x3e\x4c\xa0\x12\xb6\x05\x6f\xb6\x90\x70\xc9\x0c\x5e\xe9\xe0\xc2\xda\x49\xec\x9d\xa5\x33\x95\xb0\x5e\x32\x33\x24\xbc\xa3\x1d\x86\xa6\xd9\xa4\xec\xe6\x53\x8a\x01\x77\xa4\x71\xc9\x87\x36\x2a\x63\x5e\xe0\x15\xdf\x10\x80\xea\x23\xb5\xfc\xe0\x5e\x4d\x87\x5a\x70\xbe\x04\x7c\x98\x26\x95\x93\x07\x2a\xf6\xc4\x2c\x36\x3d\x79\xba\x3b\xf7\x63\xbc\xf4\xa5\x1d\x1b\x32\x36\xbd\x63\x70\xe7\xa3\x99\x2e\x40\x66\xbc\x3b\xc3\x97\x48\xf2\x35\x33\x58\x07\xf5\xf5\x48\xe2\xec\x7e\x26\x80\xdb\xd4\x29\x70\xa7\xbf\x91\x3c\x40\x9e\x09\x85\xbf\x80\x2b\xf3\x94\x28\x53\x74\x64\x47\x02\xe9\xc8\x4b\xf6\x18\xec\x56\x67\xf6\x40\x6b\x51\xee\xc9\x1c\x18\xc5\x7a\x89\x1b\xb0\x21\x46\xac\x43\xba\xe8\x21\x98\xca\x3e\x39\x66\x15\xb8\x44\x82\x46\x5f\xbd\xac\x82\x7b\x73\x16\x06\xd4\xd0\x16\x43\x7a\x8c\x32\xe9\x35\xc5\x49\x45\x47\xe5\x62\x89\xb7\x3a\x8a\xc1\x69\x09\xb8\xed\xfd\x0e\xdf\xb6\x5c\x5f\x8e\x7d\x16\xb8\x0f\x61\xf6\x82\xb0\xe3\x46\xda\x13\x73\xec\xa8\x1e\x7a\x7d\xcc\xc4\xb1\x93\x54\x6b\xef\x5e\x1e\xe8\x93\xf5\x7b\x65\xbd\x7e\x19\xb3\x6b\x44\xd1\xeb\x9a\x71\xdc\x99\x42\xdb\x1d\x33\xba\x2b\xf8\xdc\x1f\x7e\xee\x0c\x40\x0b\x1f\xfb\xe3\x25\x3f\xe0\x7c\x68\x64\x9a\x25\x32\xea\xc6\x55\xfc\x0e\x19\x70\x6c\xdd\x73\x32\xa1\x75\xb1\x1e\x52\x22\x0b\xc9\xc3\xda\x17\xe3\x13\x75\xaa\xe4\x8c\x0e\x88\x65\x7c\xce\x4b\x12\x26\x8c\xae\xb8\x7d\xcd\x31\xe6\x74\x54\xab\x37\xb8\xc2\x95\x56\x7f\x1d\xf4\x3d\xe8\xc4\x38\xe6\x6b\x3a\x6a\x48\x9b\x56\x3d\xfe\x4a\x96\x3d\x7c\xff\xf6\x87\xf0\x6f\xf8\x90\xe6\x20\x56\xf0\x8a\x8c\xfd\x1d\x6a\xeb\xd8\xd9\xde\x79\x93\x8d\xaf\xca\xc9\x4c\xb1\xf0\x87\x9c\xb7\x4d\xd5\x84\x64\xce\x65\x30\xd1\x90\x5f\x7f\xa7\x33\x6a\xd4\x6a\x17\xee\x5d\xd7\xb2\x1a\xbd\xb4\xc6\x21\x16\x5e\x67\x3a\x5f\xb6\xf8\x00\x2b\xd2\xe2\x83\xba\xf5\x6b\x18\xb1\x42\xe6\x91\x37\xa8\xd3\x64\x17\x1c\x35\x0e\xe1\xf7\x6e\x77\x77\xae\x09\x7d\xa7\x09\x78\x05\x28\xcd\xde\xaf\xdd\x8c\x11\xf0\xd8\xdc\xeb\xe5\x9d\xef\xe2\x80\x93\x02\x1d\x0c\x76\x59\xf7\xce\x9d\xd3\xbe\xc3\x03\x16\xdb\xff\xd1\x02\xa4\xfe\x92\xd0\x11\x1f\x75\x87\x1a\x6a\x9e\xcb\x74\x1f\xe7\xe3\xe7\x99\x58\x4f\xbb\x07\x48\xdb\x5f\x5e\x29\xff\xb0\x83\xbb\x8a\x47\x76\x70\xba\xf2\x6d\x7a\x0e\x5c\x35\xd7\xd9\xbe\x53\x0f\x0e\xb9\x15\xde\x1e\xd0\xe0\x39\x07\x5a\xc7\x5a\x67\x1c\x30\x50\xb2\x8a\x62\xae\xdb\x77\xaa\x81\x72\xe9\x63\xcc\x8c\x4a\x18\xc2\xdb\x93\xa8\xde\xad\x7a\xb8\xcf\x4f\x54\x0c\x86\x33\xb0\xc6\x1e\xa6\x40\x65\xc6\xcc\xbc\xd6\x91\x8b\xda\xa9\x09\x26\x52\x3f\x3a\x31\x78\x68\x62\xd7\x99\x09\x23\x21\x8a\x32\x5d\x11\x0c\x1e\xac\xd2\xe0\x9f\x4e\x4d\xb4\x69\xa0\xf1\x42\x71\x6f\xc1\x2e\xda\xdb\x8b\x16\x2b\x1c\x93\x90\xde\x44\x69\x99\xe3\x10\xc8\x1c\xe6\x45\x0a\xbc\xe8\xf1\x70\xeb\x66\xe1\x3b\xc2\x3b\xfe\x66\x62\xc4\x31\x1c\x31\xdd\x55\xd1\x8e\x0a\x46\x70\x50\xe7\xd0\x88\x4c\xa6\x9f\x7d\xc8\x03\x49\x7c\xfe\x21\x0f\xaf\xb6\x4b\xc7\xeb\x38\xe3\x91\x31\x9c\x65\xeb\x05\xfe\xc0\x35\xdd\x32\x52\x89\xd4\xd6\x79\x45\xde\x37\x26\x87\x44\x19\x5e\x91\xf4\x13\x9e\x43\xdf\xf0\x65\x4c\xfc\x8c\x2f\x68\x82\xc5\x99\x00\xb2\x6b\x24\x06\x44\x94\xd3\xb5\x24\xe5\x6d\x59\xe9\xf5\x0c\x95\x0b\x68\xa5\xc9\x95\x4e\xed\x39\x11\x8a\x18\x4e\x56\x79\x59\x9d\x90\xec\xdc\x41\x10\xd7\x83\xc0\x36\x65\xb7\x12\xfb\xb2\xfc\x0e\x3f\x02\x82\x5b\x02\x46\xe5\x78\xd3\x6e\x99\x7c\xb2\x2d\xc2\x50\xd2\x6d\x70\xe2\xd3\x1b\x3e\x4e\xf9\xf1\xc9\xf1\xf1\x44\xfd\x9b\x95\x04\x19\xab\x6d\x23\x90\x05\x60\xc9\x52\xdb\xfb\x30\x25\x62\x85\xed\x58\x2e\xc9\x43\xd0\xd5\xe1\x53\xc9\x01\x03\x3e\xe5\x3f\x79\x95\xf3\x40\x7a\xa9\x90\x7c\xaf\x05\xeb\x00\xa5\xfa\x20\xa1\x9b\xbc\x80\x39\xc9\xe9\x95\x4a\x56\x7a\x8a\xd5\xde\xe2\x0d\x9b\x64\x9b\xbd\x93\x2d\x93\xe9\xb8\x86\x9f\x0e\xca\xbe\x23\x07\xa2\xe1\xde\x09\xd3\xf8\x96\x4f\xb8\x78\xae\x20\x7c\xd2\x9f\xda\x35\x1e\x9b\x3a\x04\xf0\xdb\x7e\xd3\xd0\xc9\x16\x6c\x89\x01\xe7\x40\xbd\x8e\x8b\xf3\xbc\x33\x2e\x72\x5f\x43\x6f\x52\xa0\x00\x5a\x82\xaf\x60\x2b\x82\x2d\x63\x51\x8b\x52\x23\x58\x64\xc1\x7c\x60\x72\xa0\x29\xea\xd0\xc1\x8e\xb4\xbe\x46\x06\x60\x2d\x53\xb0\x9e\xe1\xd7\x3c\xd4\x32\x6a\x9e\x6b\x31\x28\xdb\xcb\xf2\xeb\x4e\xfe\x1b\x3e\xea\x32\x38\xee\xf6\xc8\xcb\x6f\x3e\xf2\x7d\x69\x92\x04\x67\xfa\x87\x76\xd6\x44\x9b\x5d\xc9\x8e\xee\x9c\x8d\xdd\xe9\xc1\x71\x9c\xc3\xc0\xa9\x47\x38\x87\xe1\xdb\x8c\x63\xe8\x26\x88\x65\x1e\xd3\x99\x16\xc4\x05\xd0\x87\x47\x58\x81\xbf\xd2\x7a\x21\xee\x81\xbb\x3f\x00\xdf\x08\x50\x79\x56\x7d\x32\x69\xf4\xef\x10\xdf\x2e\xe8\x86\x89\x6d\x21\xf9\x35\x04\x15\x64\xe2\xc2\x74\x04\xb0\x95\xf2\xc9\x34\x5e\xe7\xc0\x72\x53\x42\x3b\xf8\xdd\x60\x45\x0d\x7c\x95\x65\x89\xb3\x20\x79\xd9\x5b\x1b\x08\xeb\xfb\xd0\x88\x15\x24\x47\x25\x54\xea\x55\x5e\xc9\xed\x78\x48\x12\x69\x91\xa5\x58\x45\xd7\xe0\xe2\xc9\xad\xb7\xc3\x90\x84\xda\x99\x53\x66\xb3\x5c\x10\x45\x77\xe1\xa0\xe5\x37\xac\xe1\x5d\x83\x92\xfd\x18\x99\x93\x83\x6c\xf8\x69\xb3\xcd\xe6\x58\xda\xbb\x2b\xbc\xeb\xab\xf0\xc0\xa0\x2c\xb8\x72\x0c\xa1\x2e\x3b\x3e\x7a\xe0\xed\xba\xf5\xaf\x07\x7e\x9a\x4e\x47\x21\xc9\xce\x1e\xb8\xde\x6c\x0f\x74\xf8\x9b\x1d\x3e\xb0\x88\x07\x37\xea\x9a\xb9\x79\xf5\x33\x02\x14\x98\x23\xfc\x8b\x0b\x40\xcf\x51\xaa\x9d\x06\xbb\x19\x74\xeb\x34\x36\x83\x31\xb7\xa6\x7f\x25\x01\x37\x46\x63\xcd\xa0\x9b\x89\xd0\x48\x33\xfe\x21\x24\xff\xe8\x76\x33\xe8\xe6\xe5\xcb\x31\xcc\x93\x1c\x58\xfb\x66\x45\xf7\x9e\x60\x74\xe2\x4f\x8f\x1f\xfb\xc9\xc0\xe0\x67\x49\xc6\x2b\xf9\x53\x1b\x10\x21\xb3\x89\x15\x32\xa2\xc5\xbe\x15\x4d\xa0\xaa\xc2\x8d\x3f\x3a\xbe\x4a\xbd\xf0\xe7\x9f\x64\x1d\x02\x8c\x26\x17\xc6\xf1\x68\x98\xd8\x19\x14\x34\x47\x89\x3a\x82\x82\x9d\x62\x1f\x8e\x09\x72\x99\xc3\x83\x82\x87\x04\xf1\x4e\xe9\xaa\xd8\xb3\xd7\xdf\xf6\xc6\xf1\x30\xcb\xc1\x25\x34\x92\xc5\xa1\xd8\x11\x6f\xa0\x7a\x81\xbb\x3d\x63\x82\x1d\x21\x41\x4b\x74\x32\xf5\xce\xde\x14\x5e\x02\x29\x12\xf6\xc2\x4e\xaf\xff\xba\x3b\xec\x58\x4b\x1f\x05\x57\x63\xe2\xe9\xcc\x89\xfa\xea\x41\xfc\x15\xb9\x01\xae\x0d\xdb\x36\x07\x55\xcb\xcd\x2e\x6d\x1e\x1f\x1c\x67\xec\x0d\x33\xf6\x45\x19\x3d\xd1\xee\x88\x31\x22\xc3\x1d\x31\xc6\x96\x84\x7c\xa1\x34\x4e\x26\x3d\x74\x97\x0d\x8c\x1a\xb7\x0d\x78\x06\xa8\x79\x28\x70\x8f\xfd\x81\xdd\xbb\x03\x0c\x08\x6a\x11\xa0\xc3\xf6\x07\x5a\xc7\x09\xc7\xd6\xdb\x95\x70\x10\xd4\xd9\x7b\x4b\x80\x6e\x72\xe5\x23\x09\x05\xcc\xa0\x52\x61\x43\xe4\x98\xc0\xba\x3c\x92\xd5\xaf\xb6\xf8\x06\x88\x09\x66\x66\x03\x0e\x4d\x0d\x05\x7d\x8d\x29\xd8\xa3\x5b\x7b\xec\x0f\xf4\x1c\x37\xb4\xa1\xa3\xa1\x03\x86\x43\x11\x73\x13\xc5\x84\x7a\xa4\x0e\xfe\x12\xd5\xeb\xfe\x36\xcb\xf5\xfb\xd7\x1c\x79\x78\xa7\xd9\xf9\x6c\x24\x2d\xc8\x7c\xb3\xa9\xa3\x12\xcb\xa5\x64\x18\xf1\xde\xe8\x8c\x9d\xdd\x3b\xad\x5f\x32\x56\xf2\x35\x03\xb5\xf8\x26\xb6\xfa\x8e\x9f\xdb\x00\xa7\x29\x78\xdf\xbc\x93\x0d\x61\xe2\xe4\x78\x32\x1c\x22\x76\xd1\xe1\x2e\x2f\x70\xc3\x51\x84\xe1\xfa\xbd\xd9\x80\x76\x56\xb3\x64\x28\x81\xc1\x50\x24\x48\x40\x92\x7c\x1b\xdd\x08\xf8\xdc\x9a\xcf\xf6\x9d\x7d\x41\x4f\xeb\xd2\x6e\x6e\xc9\xdb\x8d\xfe\xae\x48\xb6\x27\xd7\xbe\xc0\xb5\x72\x57\x16\xec\x17\x33\xa6\x72\x38\x1f\xbe\xf4\xb3\x5c\x55\xe0\xaa\x7e\x97\xd3\xa1\x44\xf9\x53\x0b\x93\xa9\x75\x0a\x69\x93\x72\x62\xc3\xce\x7f\xb3\x31\x76\xb9\xf7\xcd\x6d\x85\xd2\x96\x34\x28\x60\x68\x0b\x3f\x83\x22\xa9\xbb\x53\x56\x86\x1c\xf3\xcb\xd0\x85\xf1\x59\x91\xe6\xda\x87\x2a\xfa\xe8\x99\xdd\x18\x2f\x61\x62\x80\xc9\x99\xaa\xe7\xe5\xdd\xf9\xed\x63\x30\xf6\xfe\xfe\x41\x0c\xb6\x16\x58\x83\x4f\xd7\x62\x75\x27\x08\x0c\x3d\xef\xce\xb2\x2f\xdc\xba\x9d\xe4\x46\x3e\xc9\x8c\xcf\x0a\x0f\x30\xd4\xb5\x11\x55\xd7\xf3\x5a\x9b\x72\x06\xb0\xf1\xad\xe9\x6d\x8a\xd6\xe4\xb8\xb3\xd0\xb7\xd7\xd0\x56\x1d\x2a\x3e\xa4\x3a\x86\xec\xc6\xce\x71\xae\x62\x8e\x32\x1e\x20\x0d\xa6\xf1\xbb\x8b\xc3\x9f\xb0\xd4\x16\xe8\xa8\x28\x0a\xaf\x01\x74\xd8\x71\xd7\x36\xac\x37\x81\x09\x6b\xb5\xcc\xe5\x61\xdb\xa1\xfe\x0e\x1c\x1f\xda\x02\xb1\xfc\xba\x0d\x38\xbb\xf3\xb3\x6b\x93\xa2\x7f\x97\xa2\x7f\x9b\xa2\x7f\x9f\xa2\x77\xa3\x82\x2f\xad\xec\xc8\xe5\xf6\xb6\x2a\x78\x1f\xf6\xb3\x0d\xb5\xa4\x6d\x93\xe8\x25\x65\x5b\x3d\xb8\x9e\x98\xfd\x5d\x6b\xae\x9f\xf2\xf9\xb2\xe6\xdf\x65\x08\xf8\x4f\x3d\x00\x9c\x7e\xba\x5d\x02\x6e\xe7\xec\x1f\xef\xac\xa6\xf2\xf7\xcb\x4c\xea\x4b\xfb\xb2\xea\x9d\xd7\x57\xda\xbf\x5d\xb1\x6f\x40\xfa\xd5\x93\xf3\x77\x9f\x79\x7d\x25\x55\xc3\xfa\x8a\x9d\x78\xfb\x5d\xee\xf8\xa1\x3f\x4b\xc2\xb7\xfb\x94\xc5\x35\x7f\xb7\x77\x91\x0b\x6c\x69\x5f\x83\x3e\xda\xef\x1e\xf4\xe6\xe5\x36\xef\xb6\x73\x3b\xfa\xd8\x3c\x4e\xf6\xad\x86\xa7\x98\x51\x3b\xe7\x4b\x43\x5b\x37\xa3\x87\xf5\x9b\x44\x3b\xcb\x4c\x88\xfb\xb0\x75\xa1\xde\xcb\xf2\x92\xfa\x39\xdd\x17\x3d\x10\xc8\x6a\xf2\xec\x5d\x0d\xe3\x0d\x7e\xfd\x1a\x7e\x3c\x22\xef\x0d\xd3\xbe\xd7\x84\xd2\xc8\xec\xbe\x26\xd4\x51\xde\x79\xf6\xbe\xf6\xe7\x50\x42\x2b\x5b\x7b\xfe\xde\x1b\xe1\x9e\xeb\x41\x87\x29\xc8\x6e\xdb\xe7\xdc\x12\x3a\xea\xa3\x5c\x3b\x69\xcf\xbf\xb1\xc7\x7c\xf2\xeb\x77\xbf\x5e\xd4\x09\x64\xbf\xeb\x45\x6b\x77\x8b\xd6\xbb\x84\xa7\xcd\x6d\xaf\x0e\xba\x5f\x14\xfb\xdb\x73\xf9\x92\x75\xba\x5a\x65\xbc\x38\xb4\x2b\xd1\x75\x0e\xfd\x80\x0b\x48\x3d\xf5\xf8\x55\x17\x90\x7a\x74\xec\x71\xc2\x83\xfe\x08\x06\x2c\x37\x8f\xfa\x14\xa6\x75\xb7\xe8\x81\x57\x58\x7a\xd1\x1f\x16\x6a\xe3\x1e\x99\xee\x7b\x51\xca\x4b\xb1\x97\x60\x56\xfa\x83\x3e\xed\x8c\xaf\xae\xab\x63\xfe\x00\xa7\x52\xf0\xec\xcc\x73\x3e\x85\x84\xd7\x8d\x7e\x73\xc0\x5d\xa3\x0f\xf7\xba\xa2\x72\x5c\xd3\xdc\x1d\x09\x23\x24\xd8\x3d\x12\x46\x28\x41\x24\x9f\xff\x03\x37\x42\x25\x06\x50\x5a\xbd\x30\x57\x4a\xbe\xc4\x3b\x2e\x28\xee\x99\x93\x02\xca\x1f\xd1\xa3\x4d\xf5\x2d\xb6\x8d\xc1\x47\x4a\x19\xc7\x98\x79\x99\xa0\x3d\x96\x3b\x13\x6a\x79\x24\x1d\x7c\xf7\x5d\x18\x8b\x77\x3d\x99\x4d\x52\xa8\xef\x2f\xac\xff\x62\xf9\x24\xbb\x0e\xdc\xfd\x9a\x84\x12\xa3\x53\x8b\xf0\xcd\x76\x9e\x26\xe5\x2a\x90\x7b\xae\x08\x6b\x79\x26\x88\x0f\x22\xcb\x8e\x85\x77\x03\x98\x89\xaf\x70\x6e\xc5\x12\x16\x53\xbc\x8f\xe1\x9c\x2f\x77\xb8\xd2\xb6\x8a\xdc\x90\x4f\xe4\xe4\x78\xe9\xcc\xde\x4c\x09\x4f\xec\x98\x48\x9e\x85\xcb\x67\x4f\xaa\xd0\x59\xb0\xe6\x79\x68\xfe\xde\x3e\xbb\x3d\xf9\xfb\x78\xf4\x92\x19\xc0\x93\xb6\x30\x02\xf2\xee\xbf\xeb\x07\xbb\x1b\x8b\x5b\xf7\x24\xf0\x2f\xfd\xa8\x05\xc8\xdc\x9d\x13\x91\xdc\xbf\xb5\xcf\x6c\x68\x2a\x34\xdf\xf2\x30\x7c\xa7\xc4\x80\x3e\xf3\xf1\x2a\xd2\x91\xfa\x35\x0f\xb5\x3c\x7b\x2b\xbc\x8e\xfb\x25\x66\x8a\x45\xc5\x4a\x57\xbf\x6d\xe2\xac\x4b\x7d\x48\x75\x86\x74\xe6\x00\x1c\xfd\xf9\x89\x1d\x5e\xed\x1d\xb7\x77\x62\xe7\xff\xb7\x6f\xef\x74\xdc\xb5\x91\x7d\x2f\x3c\x14\x81\x3a\x74\xb8\x4f\xde\x46\xf7\x25\x99\xfb\x7a\x04\x07\xde\x90\x69\xd2\x08\x7a\x6f\xc9\x6c\x01\x30\xdb\x27\x49\x22\xb0\x57\x65\x72\x3a\xc1\x0e\xff\x62\xec\xe5\x09\xd4\xac\xbf\x9f\x1c\xd0\x03\xd9\x6a\x69\x01\xcd\xac\x80\x66\x52\x40\x2d\x09\xf3\x0f\x73\xdb\x25\xf9\x23\x9f\x7b\x27\x64\x8f\x40\x3a\x8d\xdc\x7e\x77\x42\x1a\xb4\xf5\xbb\xdd\xfe\xd8\xc3\xf2\x1e\x00\x50\x0d\x23\x40\x5c\x99\xb6\x85\xb7\x88\x0c\x1c\x82\xf1\x80\x98\x54\x6b\x1d\x7d\x91\xe7\xa1\xac\x31\x1d\xf0\xcc\xec\x04\x9a\x92\x72\x15\x89\x39\x9d\xd3\xd8\x2e\xeb\xbc\x7c\xf2\x8f\x86\x49\xbb\xf6\xcb\x86\x41\x69\xf7\x55\xdc\xbe\x52\x0b\x34\xed\x46\xa6\x9d\xbb\x57\x35\x60\xda\xb8\x0c\xd3\xfc\x0d\x64\x5d\xd6\x92\x1d\x07\x56\x67\xec\x9c\xb1\xf5\xa0\x45\x4d\xa8\x7a\x44\xbc\xfe\x36\x78\x75\x5f\x57\x66\xd7\xa6\xd5\xbf\x1e\x3e\x95\xcd\xb5\xc3\xe1\xa9\x51\x3f\xbc\x28\x17\x7e\x35\x0e\x56\x1a\x9d\xfa\x1f\x2a\x5e\xb6\x6d\x80\x7c\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 30724, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x22, 0xa4, 0xc9, 0x6d, 0xf7, 0x49, 0xc0, 0xf5, 0x7c, 0xd1, 0xa7, 0x95, 0xe9, 0x9c, 0x30, 0x31, 0x17, 0x23, 0xd4, 0x2e, 0xd, 0x30, 0xb0, 0x97, 0x82, 0x51, 0xe6, 0x96, 0xe9, 0x53, 0x3a, 0xf4}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 31872, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xfe, 0x27, 0x22, 0xe0, 0x7f, 0x2f, 0x50, 0x3e, 0x6c, 0xf4, 0xb2, 0x60, 0x9d, 0xcd, 0x1d, 0xb5, 0x60, 0x69, 0x2e, 0xaf, 0xad, 0x2d, 0x30, 0x15, 0x41, 0x6c, 0xd7, 0x5e, 0x4b, 0x5, 0x2e, 0xc1}}
 	return a, nil
 }
 
-- 
2.43.0


From 8e4ea16d0e9547350f1b467b9568c472af82daa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:25 +0000
Subject: [PATCH 25/42] fix: accept fully qualified message names starting with
 a dot

---
 svcdef/svcparse/parser.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/svcdef/svcparse/parser.go b/svcdef/svcparse/parser.go
index 63b43c3..05d5b71 100644
--- a/svcdef/svcparse/parser.go
+++ b/svcdef/svcparse/parser.go
@@ -317,6 +317,10 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 	if val == "stream" {
 		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	}
+	// A fully qualified name starts with a '.'
+	if tk == SYMBOL && val == "." {
+		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
+	}
 	if tk != IDENT {
 		return nil, parserErr{
 			expected: "a string identifier in first argument to method",
@@ -368,6 +372,10 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 	if val == "stream" {
 		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	}
+	// A fully qualified name starts with a '.'
+	if tk == SYMBOL && val == "." {
+		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
+	}
 	if tk != IDENT {
 		return nil, parserErr{
 			expected: "a string identifier in return argument to method",
-- 
2.43.0


From bcb1e214e8676b6e578ac92ecc4d5f09e4bfa865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:31 +0000
Subject: [PATCH 26/42] fix: generate code that compiles for a service without
 RPCs

---
 .../NAME-service/baron/NAME.pb.baron.go.tmpl   | 14 ++++++++------
 .../NAME-service/cmd/NAME-client/main.go.tmpl  | 12 ++++++++----
 .../NAME-service/service/service.go.tmpl       |  2 ++
 gengokit/template/template.go                  | 18 +++++++++---------
 4 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index b50787f..529806c 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -136,11 +136,12 @@ func (e *Endpoints) WrapAllExcept(middleware endpoint.Middleware, excluded ...st
 	}
 
 	for inc := range included {
+		switch inc {
 		{{- range $i := .Service.Methods}}
-			if inc == "{{$i.Name}}" {
-				e.{{$i.Name}}Endpoint = middleware(e.{{$i.Name}}Endpoint)
-			}
+		case "{{$i.Name}}":
+			e.{{$i.Name}}Endpoint = middleware(e.{{$i.Name}}Endpoint)
 		{{- end}}
+		}
 	}
 }
 
@@ -168,11 +169,12 @@ func (e *Endpoints) WrapAllLabeledExcept(middleware func(string, endpoint.Endpoi
 	}
 
 	for inc := range included {
+		switch inc {
 		{{- range $i := .Service.Methods}}
-			if inc == "{{$i.Name}}" {
-				e.{{$i.Name}}Endpoint = middleware("{{$i.Name}}", e.{{$i.Name}}Endpoint)
-			}
+		case "{{$i.Name}}":
+			e.{{$i.Name}}Endpoint = middleware("{{$i.Name}}", e.{{$i.Name}}Endpoint)
 		{{- end}}
+		}
 	}
 }
 {{if eq .Config.Transport "all" "grpc" }}
diff --git a/gengokit/template/NAME-service/cmd/NAME-client/main.go.tmpl b/gengokit/template/NAME-service/cmd/NAME-client/main.go.tmpl
index 71beb66..0c5cb27 100644
--- a/gengokit/template/NAME-service/cmd/NAME-client/main.go.tmpl
+++ b/gengokit/template/NAME-service/cmd/NAME-client/main.go.tmpl
@@ -1,15 +1,19 @@
 package main
 
 import (
+	{{if .Service.Methods}}
 	"context"
+	{{end}}
 	"flag"
 	"log"
-	{{if eq .Config.Transport "all" "nats" }}
+	{{if and .Service.Methods (eq .Config.Transport "all" "nats") }}
 	"github.com/nats-io/nats.go"
 	{{end}}
 
+	{{if .Service.Methods}}
 	pb "{{.PBImportPath -}}"
-	{{if eq .Config.Transport "all" "grpc" }}
+	{{end}}
+	{{if and .Service.Methods (eq .Config.Transport "all" "grpc") }}
 	"google.golang.org/grpc"
 	{{end}}
 )
@@ -29,7 +33,7 @@ func init() {
 func main() {
 	flag.Parse()
 	{{with $te := . }}
-	{{if eq $te.Config.Transport "all" "grpc" }}
+	{{if and $te.Service.Methods (eq $te.Config.Transport "all" "grpc") }}
 	// Baron GRPC Client
 	log.Println("[GRPC.{{$te.Service.Name}}]")
 	pln()
@@ -84,7 +88,7 @@ func main() {
 	{{end}}
 	{{end}}
 
-	{{if eq $te.Config.Transport "all" "nats"}}
+	{{if and $te.Service.Methods (eq $te.Config.Transport "all" "nats") }}
 	// Baron NATS Client
 	log.Println("[NATS.{{$te.Service.Name}}]")
 	pln()
diff --git a/gengokit/template/NAME-service/service/service.go.tmpl b/gengokit/template/NAME-service/service/service.go.tmpl
index 709cbdf..b1b0330 100644
--- a/gengokit/template/NAME-service/service/service.go.tmpl
+++ b/gengokit/template/NAME-service/service/service.go.tmpl
@@ -6,6 +6,8 @@ import (
 	pb "{{.PBImportPath -}}"
 )
 
+var _ context.Context
+
 func NewService() *{{ToLower .Service.Name}}Service {
 	return &{{ToLower .Service.Name}}Service{}
 }
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index e923b77..7838e87 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x02\xff\xed\x5d\xeb\x73\xdb\x46\x92\xff\x4c\xfe\x15\x13\x56\xec\x80\x3e\x0a\x72\xb6\xea\xae\xf6\x94\xd2\xd5\xf9\xa1\x24\xde\x8d\x1f\x6b\xcb\xc9\x07\x95\x2b\x0b\x12\x43\x11\x2b\x10\xa0\x01\x50\xb2\x56\xd1\xff\x7e\xfd\x9a\x07\x9e\x24\x9d\xe4\x2a\x7b\x75\xae\x44\x22\x81\x99\x9e\x9e\x9e\x9e\x9e\x5f\xf7\xf4\x8c\x8e\x8f\xd5\xb3\x3c\xd6\xea\x52\x67\xba\x88\x2a\x1d\xab\xf9\xad\x9a\x47\x45\x9e\x85\xea\xf9\x6b\xf5\xea\xf5\xb9\x3a\x7b\xfe\xe2\x3c\x1c\x1f\x1f\xab\xb7\xba\xd8\x66\x59\x92\x5d\x72\x01\x75\x93\xa4\xa9\xca\xaf\x75\x71\x53\x24\x95\x56\xd5\x2a\x29\xd5\x32\x49\x35\x15\xfe\x51\x17\x65\x92\x67\x27\xea\xee\x2e\x94\xcf\xf7\xf7\xde\x0b\xf5\x1c\x5a\xf3\xdf\xe2\x77\x28\x31\xde\x44\x8b\xab\xe8\x52\xe3\x9b\x37\xfc\xf1\x55\xb4\xa6\x37\x50\xf9\xdc\xb4\xa1\x16\x79\x56\x45\x49\x56\xaa\xb5\xae\x56\x79\x5c\xaa\x2a\x57\xeb\xe8\x4a\xab\x24\x8b\x93\xeb\x24\xde\x46\xa9\xd2\x59\xbc\xc9\x93\xac\x82\x2a\x45\xbe\x56\xa5\x2e\xae\x93\x85\x2e\x67\x48\xa9\xd0\x1f\xb7\xba\xac\x54\x94\xc5\xf0\xb9\xdc\xe4\x59\x09\x5d\xb8\xdd\x68\xa2\x84\x45\xb1\x47\x39\x3c\xb4\x54\x66\x2a\x2a\xd5\x8d\x86\x4e\xc3\x6f\x9d\x2d\x40\x6e\x45\x89\x04\x90\x5e\xac\xe5\xfb\x32\x2f\xa4\x22\x51\x9b\xd1\x83\x08\x25\xb5\x54\xf9\xb6\x50\xe5\x76\xb3\xc9\x0b\x94\x74\x55\x44\x59\x89\x9f\xb1\xb9\x24\x4a\x93\x7f\x46\x15\x08\x02\xa9\x41\x9d\x75\x54\x95\xe1\x78\x9c\xac\xa9\x44\x30\x1e\x4d\xe6\xb7\x95\x2e\x27\xf0\x01\xfb\xae\x3f\x55\xf8\x91\xd8\x80\x21\x39\xfe\x47\x99\x67\xf8\x60\xb9\xa6\xe7\x49\xce\x3f\x8f\x93\x7c\x5b\x25\x29\x7e\xc9\x74\x75\xbc\xaa\xaa\x8d\xf9\xbc\x2d\xe8\x71\x59\x15\x40\xef\x5a\x3e\x02\x29\x68\x02\x3e\x5f\x26\xd5\x6a\x3b\x0f\x17\xf9\xfa\xf8\x32\x3f\xba\x4a\xaa\x63\xfc\xdf\xc8\x02\x4a\x47\xd9\xed\x66\xae\x26\x97\x79\x7e\x09\x43\x7e\x99\xa7\x51\x76\x19\xe6\xc5\xe5\xf1\xa6\xc8\xab\x7c\xbe\x5d\x1e\x53\xff\x8f\xaf\xb2\xfc\x26\x3b\xa6\xd2\x50\x2b\xde\x16\xd4\xc9\x03\xaa\xba\x2a\x50\x5f\xaf\x37\xd5\x21\xed\x4a\x79\xa8\xb9\x4c\x74\x1a\xaf\xa3\xf2\xea\x80\xda\x5e\x1d\xa0\x00\xe2\xd9\x2e\xaa\x03\xaa\x9b\x0a\x50\xb7\x4a\xd6\xa0\x6d\xd1\x7a\x73\x40\x75\xaf\x0e\x50\xb8\x29\xa2\xcd\x06\x14\xec\x00\x02\xae\x4a\x7b\x48\x0b\x98\xbc\xd1\xf1\x7a\xfb\x69\x52\x7f\xb3\xb9\xba\x3c\xd6\x45\x91\x17\xa4\x69\x03\x0d\x59\xcd\xa3\x27\x46\xfd\x06\x2a\xd0\x07\x64\xe4\xee\xee\x48\x25\x4b\xa5\x3f\xaa\xf0\x59\x9e\x2d\x93\xcb\xf0\xdc\xce\x84\x09\xcc\x94\x89\x9a\x64\xa0\xfc\x13\x05\x93\xbe\xc6\x1b\x3e\x3d\x02\x9d\xc6\xdf\xd0\xc4\x84\x49\x81\x4e\x62\xc1\x3d\xa8\x5e\x16\x9b\x85\xa1\xda\xe2\x93\x5e\xf6\xbe\x39\x06\x33\x13\xc5\x51\x15\x35\x1b\xdd\xbb\x49\xfc\xe4\x66\x7c\xcf\xfc\xb2\x05\x0c\x3b\x5e\x5b\x38\x77\x0f\x20\x20\x53\xfd\x20\x61\xe3\xa7\x03\x9a\xa0\x8a\x3e\x8f\xd3\xf1\x78\x7c\x1d\x15\x68\xad\x7e\x56\xa7\x0a\x6c\x51\xf8\x6e\x03\x36\xa5\xe2\xef\x64\xc0\x80\x8d\xf5\x26\x2a\x34\x3f\x12\xeb\x13\x3e\xa9\xf2\x84\x9f\xd4\xba\x19\xbe\xd2\x37\xef\xd0\x16\x17\xfc\x92\xad\x59\xf8\x2a\xdf\x3c\x4b\xc1\xc4\xda\xa7\x40\x74\x73\xcb\x5f\x58\x79\xc3\x9f\x40\xf7\xc7\x23\x30\xa5\x32\x9e\x46\x0d\xd9\x2a\x63\x51\x32\x49\xe1\x93\x8c\xea\x39\x23\x13\x3e\x97\x8f\xf8\x58\xcc\x47\x78\x86\xbf\xf1\x81\x99\xd2\xe1\x3b\xfa\x80\x8f\xbc\x69\x1a\x9e\x9b\xcf\xf8\xc2\x4d\x3f\x2c\x0d\x53\xe5\xc7\x28\xdd\x52\xbf\x3d\xbb\x12\x7e\x8b\x9f\x5f\xc2\x67\x94\xde\xf1\xa3\xbd\xfe\xa9\x33\xbb\xb2\x3d\xda\xfb\xdf\x31\xad\xa0\x2f\x32\x15\xf1\xf2\x56\xcc\x54\x52\x7d\x55\xaa\x6d\xa9\x97\xdb\x94\x96\xa9\xe5\x36\x5b\x60\xd7\x61\x0d\x5c\x45\x95\xca\x34\xae\x52\xb9\xca\x37\x84\x0d\x54\x8e\x75\xe1\xf3\x91\x59\x06\x90\xe0\x3c\x2a\x93\x32\x54\xdf\x42\x75\xfd\x09\x7a\x9e\xea\x99\xba\xcd\xb7\x6a\x9d\x5c\xae\x2a\xb5\x89\x4a\x5c\x22\x3d\x86\x81\x5e\x64\x1b\xe2\x76\x60\x6c\xe2\x2d\x2c\xcc\x48\x0e\xca\xa2\x06\x84\xdf\xc3\xba\x9a\x22\x8f\x37\xa0\x84\x4a\x47\x8b\x95\xac\xf4\x2a\x30\xad\x4f\xe1\x5d\x01\x1c\x6e\x37\x4c\xb4\xdc\xe8\x45\xb2\x4c\x16\xd0\x68\xb5\x0a\x55\xf0\x82\xf8\x03\xc0\x00\xf4\xe7\xd1\x3c\xbd\x85\x32\xeb\x04\x86\x87\x50\x02\xac\xd8\x65\x72\x99\x61\xd5\x24\xbb\xce\xaf\x70\xb9\xd7\xea\x1d\x63\x04\x8b\x2a\x88\x45\x8d\x74\x5c\x0f\x58\x07\x90\x84\x91\x64\x38\x85\x12\x56\xba\x8b\x34\xd1\x59\x55\x97\x2e\xb4\xb2\xc8\xd3\x54\x53\x3d\x03\x50\x80\x23\x50\x7e\x26\x07\xfd\x70\x70\x05\x7e\x40\x87\x90\x60\x09\x6a\x93\x32\x94\x60\x59\x25\x28\xe1\xb5\x26\x49\x7a\xfc\x42\x0d\x5d\x2c\xa3\x85\xee\x1b\x09\x24\x66\x1b\xeb\x06\x49\x5b\x6c\x4c\xd5\x2d\x08\x4e\xc0\x67\xd2\x1f\xb0\x03\xf3\x24\x23\x39\xad\x85\x45\x6f\x60\x67\x02\xa5\xaa\x6d\x91\x41\xd7\xb1\xc7\xc8\xe0\x02\xba\xa9\x0b\x44\x4c\x91\x61\x36\x1c\x53\x77\x5a\x02\xbd\x1b\x8f\xde\x67\xb6\x7f\x3a\x06\x04\x68\x6a\x30\x04\x14\x4b\x70\x77\x07\x2c\x02\x42\xfc\x32\x51\x27\xa7\xca\x96\x79\xc9\x43\xc6\x66\xf9\xcb\x44\xea\x98\x56\x14\xfc\x33\x5d\x0d\xcd\x43\x20\xc5\x86\x8b\xd1\xa5\xe5\x68\x77\x13\xa8\xc0\xa0\x89\xae\xca\x54\x79\x8d\x06\x8b\xea\x93\x12\x94\x86\x66\x17\x7f\xcf\x50\x61\x1e\xdd\xdd\x7d\x97\x63\x19\xa0\x1c\xbe\x65\x08\x7a\x0e\xc2\x90\x7a\x53\x15\x34\x4a\x30\x30\xf5\x8a\xcc\xd8\xc0\x4d\x51\x5a\x06\xb7\xd2\x33\x64\x54\x87\x1d\x3d\x47\x66\xb0\xf1\xe9\x78\x84\x0b\x01\x94\xfc\xe2\x54\x65\x49\x8a\x14\x46\x32\x5e\xf0\x95\x88\x8c\x47\xf7\x63\xf3\xcc\x50\x0f\x77\xf2\x34\x9d\x21\x01\x10\xa2\x11\x27\x0a\xf3\x25\x4e\x33\x5f\xa2\x34\x91\xbf\x04\x33\x82\x12\xbd\xc7\xc2\x47\xca\x97\x32\xbc\xea\x13\x34\xd2\xea\xea\x59\x89\x42\xf7\xaa\xf9\x6a\x32\x6d\x0f\x37\xcb\x8c\x3a\x87\x64\xbb\x47\xc9\x38\x06\x76\x46\xdd\xe1\xb0\x58\x17\xc1\x7b\xcc\x62\x77\xc3\x01\xb4\x3f\x62\x47\x84\x42\x4b\x6e\xad\xd1\x86\x2a\xd7\x76\xec\xca\xb0\xa1\x40\xc4\x0a\x96\x69\x8f\x5a\x7b\xd8\x70\xdc\xcc\xd3\x6b\x1e\x8e\xd1\xfd\x98\x85\xcc\x63\xe2\x8f\x0d\x2e\x8e\x4f\xd2\xf4\xec\xd3\x42\x6f\x2a\x5a\xa7\x4a\x36\xb1\x56\x52\xb4\x42\xa1\xcb\x22\x73\xd3\x4d\x56\x1a\x46\xb2\x4d\x1d\x7e\x41\xf8\x32\x89\xc1\x6c\xdf\xc0\xfa\x4e\x5e\xe0\xfb\xd2\xf8\x85\xe8\x04\x6d\x36\xe9\x2d\x9a\x18\x34\x9b\x15\x12\x5f\xdb\xd2\xb4\x2e\x68\x18\xb6\x5b\x3b\x6c\x38\x5f\xd0\x82\x94\xc6\x6a\x00\xbd\xd7\x1b\x5c\x35\xd0\x72\xce\x3c\xc3\xb5\x00\x3b\x34\xd7\xb4\xd6\x80\x19\x85\x6a\xe0\xc3\x66\x28\x76\xa0\x09\xcf\xf5\xa7\x45\xba\x8d\xe1\x0d\x79\x81\x73\x8d\x2c\xf0\xda\x1c\x87\x2d\x69\x04\x8e\xa7\x99\x9a\xbc\xab\xa2\x6a\x5b\x4e\xe0\xd3\x1b\xa8\x35\x99\xda\x79\xff\xc8\x9b\xf8\x7d\xf5\x55\x87\x54\x66\x8e\x9b\x30\x0c\xd9\xe1\x22\xe5\x49\x32\x79\x0c\xaa\xb0\x8e\x36\x17\xfc\xea\x03\x8b\xff\xee\x1e\x47\xbd\x39\x61\xba\x2c\xdf\x68\x34\xf1\xd4\x68\x02\x0e\xf6\xfd\x4c\xaa\x0a\x8c\x04\x0d\x18\xe1\x68\xfc\x8c\xac\x90\xba\x12\x49\xcb\xd6\x1d\x6b\x1c\xbc\xce\xaf\xf0\xb5\x61\xec\x42\x7f\xfa\xf0\x8d\xfa\x02\x1e\x92\x06\x6e\xa2\x2c\x59\x04\x0e\xe1\x2d\x83\xc9\x99\x21\x61\x47\xf0\xab\x07\xe5\x57\x2a\xce\x61\x74\xb3\xbc\x82\x26\x60\xf1\xfd\x06\xc6\x53\xfb\x03\x6f\x75\x87\x20\x3d\x32\x35\x9d\x8a\x3e\xc7\x3a\xd5\x95\x0e\x0c\x07\xf4\xce\x75\x00\x1e\x3b\xf6\xad\xf8\xf6\x17\x14\x74\x12\x49\x9c\x9e\xaa\x9a\xc8\xb8\x7b\xa3\x4e\x53\x0a\xf0\xd2\x71\x1e\x74\x16\x41\xde\x89\xf9\x9a\xc8\x79\xda\xfd\x10\xcd\xa1\x47\xb1\xd3\x06\x0e\xa1\x5c\xea\xca\xe8\x2e\xea\xbb\x95\x1e\xa9\xf0\xcd\x4a\x67\xf6\x6d\xee\xa9\xab\x10\x63\xad\x9b\xf1\x2c\x93\x89\xb0\xe5\xc2\x8a\xe3\x32\x11\x07\x77\x00\x17\x01\xa8\x81\x5f\x04\xb3\x3c\x2d\xbd\x59\x25\x30\xf3\xb1\x6a\x09\x4d\x77\xb0\x20\x2b\xb9\xd4\x36\x38\x26\x2f\x64\x1d\x6f\xf7\x8a\x8c\x2b\x2b\xf0\xac\x6d\x85\x3b\x0c\xf3\xb8\xaf\x5f\x9f\x6d\x9b\x5a\x4c\xcd\xa4\x9f\x24\xf1\x42\x2f\x74\x72\xcd\x88\x8f\xba\x08\xc4\xfc\x7e\x87\x00\x55\xb4\x25\xe3\x51\xa1\x17\x06\x88\xda\x79\x8f\x8c\xa2\x46\xc6\xe0\x23\x26\x29\x81\x46\x33\x9d\x28\x98\x23\x60\x37\x4a\x93\xea\x36\x1c\x32\x21\xb5\xbe\xfb\x96\xe4\x60\x89\xfe\xbf\x9d\xf9\xbf\x63\x67\x6a\xd5\x66\xea\x20\xb3\xb3\x7f\x80\x62\x5f\xd7\xf3\xbb\xb7\x6f\x9e\x31\xc2\x3a\xd8\xf7\x44\x18\xe7\x55\xc7\x70\x6d\xe9\xc0\x80\x5b\xcf\xa3\x6b\x98\x46\xe0\xb0\x69\x76\x1b\x2e\xa1\x8a\xea\x71\x06\x42\x07\x10\x1d\xe5\xc0\x91\xf2\xdc\x93\x7c\xc3\xae\x2d\xcc\x87\x5a\x2c\x26\xe4\x4a\x0c\x2d\xa6\x7d\x0d\xe1\x70\x95\x5e\xc1\x12\x07\xfc\xe2\x43\x3f\x25\x1c\xde\xae\xb7\x4f\x35\x28\x95\x0e\x90\xdb\x97\x12\x53\x3a\xcf\x05\x7d\x4e\x67\x04\xc0\xeb\xed\x9c\x22\x70\x82\x1e\x05\xb5\xc7\xb6\x3f\xd0\x9d\x29\x05\x3a\xee\xee\xd4\x79\xfe\x43\x7e\x03\xbc\xd6\x7a\x40\x91\x1d\x81\x86\x0f\x91\x23\xe6\xe3\x0e\xdd\xa4\x9d\xda\x0b\xc5\x3d\x6d\x3b\x51\xf5\x1e\xd9\xe8\x4c\x80\xea\xe7\x26\x58\x87\x82\xa2\x75\x18\x3d\xa7\x20\x39\x76\xdd\x2b\x21\xc0\x98\x0a\x9c\x65\x9d\x05\xc4\xcd\xc1\x12\x35\x21\x40\xdf\xf1\x21\x8a\xad\x63\xb9\x75\x7d\x6d\x7a\xcd\x16\x97\x77\x0f\xb5\xc5\xf8\xbc\xc0\x79\x74\x7e\x73\x4f\xb5\x2e\x5f\xf0\x51\xeb\x02\x96\x28\x88\x07\xe3\xc5\xb9\x92\xf0\x04\xda\x27\x8f\x3d\x8c\x65\x18\xae\xf6\xef\xe4\x9e\xce\x6e\xa9\x1e\xb9\xa6\xa6\xca\xf7\x6d\x86\xbc\x5e\x74\x8a\x7e\x5b\xb7\xf7\x67\x24\xba\xf1\x1c\xa7\xba\x10\x79\x9e\xa1\x0e\xf9\x5e\xd4\x81\xae\xef\xe6\x33\xbd\x5e\x11\x2e\x2b\xfa\x6e\xc9\x42\x8d\xa1\x39\x81\xc1\xab\x48\xd5\x83\xc2\x21\x57\x90\x12\xdf\xe2\xd0\x50\x60\x08\xc3\xa8\xba\x40\xeb\x49\xba\xcf\x36\xd3\x18\x04\xa7\x61\xc6\xbd\xa5\x88\x19\x00\xc5\xe2\x28\xce\xd7\x11\xf8\x4c\x03\x85\x43\xf5\xa6\x48\xd6\x51\x91\xa4\xb7\x26\x9e\xe5\x07\xbf\x58\x3f\x86\xfa\x11\xfc\xdc\xd6\x0b\xec\x0b\xbc\x6e\xf8\xd9\x4d\xf7\xda\x46\x3a\xc8\xb3\x96\x3a\xfb\x78\xd6\x76\x24\x3f\x0e\x0c\x13\x9b\x9b\xbd\x86\x69\xd0\x32\x75\x8e\x13\xd7\x30\x45\xfa\x06\x6a\xf7\x10\x98\xbd\xc9\xdc\x2d\x85\x5d\xc5\xc0\xb7\xde\x6b\x9c\x06\x3b\xd2\x35\x50\x5d\xa1\x8f\xa1\x91\x2a\x37\x1c\x04\xd9\x3b\x7a\x54\x8b\x38\x75\x8d\xd6\xf7\x3a\xc5\x38\xfa\x98\x3b\xd0\xb9\x72\x76\xdb\x9e\x75\xac\xcc\xbe\x4d\xf8\xf2\xf9\xb4\x59\x00\xf9\x45\x0b\x7a\x35\x53\xd7\x0e\xe2\xad\x2d\x36\xbd\xae\xc5\x5c\x68\xfb\x59\xab\x2b\x7d\x4b\xc3\x1d\x23\x0a\x9c\xe7\xe0\x70\x80\x8c\x4d\x2b\xb2\x71\xab\x82\xab\xa9\xf8\x1b\x58\x14\x3c\x8e\x14\xc7\x4b\xa8\x44\xe2\x65\x51\x7c\xf5\x59\x94\xe5\x80\x70\xa3\xf4\x7b\x1d\xc5\xba\xf8\x2b\x50\x17\x67\x04\x1b\x2a\x73\x89\xfa\x56\xe2\xdb\x19\x12\x8b\x85\x36\xc1\x0e\x0d\x4e\x0f\xe8\x02\xb7\x8c\xef\x51\x14\xa7\xb6\xaf\x3f\xc1\x6b\xda\x78\x60\x6b\x88\x7d\xbd\x78\xfc\x61\xba\xb3\x60\x0f\x77\xd0\x33\x47\x41\x60\xbe\x0c\x1f\x54\xa3\xe5\xe9\x00\x20\xc9\xa1\xe5\x83\x81\x24\xe0\x0e\xaf\x36\x37\x4f\xdb\x0c\x12\x2b\x52\xf3\x68\x71\xc5\xb9\x0c\x32\x67\x38\x26\x8f\x7d\xcd\x34\x39\x63\xa1\x7a\x41\xe6\x55\xa2\xfb\xa2\xae\xc9\x3c\x41\x27\xcd\x0c\x81\x04\xaf\x61\xea\xc5\x49\x94\x72\x84\x3b\x8d\x40\xef\x81\x5e\x8e\x71\x57\x2a\xe4\x68\xb2\x82\xd6\xb8\x0b\xf0\x35\xaf\x9c\x21\x3f\x01\xe5\xcb\x06\xd0\x28\x17\x32\x68\x34\xe8\x81\x16\xfe\x94\x13\xc5\x44\x47\xb6\x34\x9c\x1b\x41\x20\xc7\x49\xe5\xb2\x24\x24\xa6\x66\x77\xc3\x62\xbd\x4c\xb2\x84\xb7\xbb\x70\xe7\x8e\x89\x20\x47\xd8\x5a\x39\x1e\xbd\xd5\x97\xe0\x4d\x01\x5c\xec\xe6\x23\x78\x48\x35\x68\xd6\x4e\x79\x03\x2e\xe3\x8a\x08\x59\x9a\x21\xdf\x51\xcd\x67\x02\x29\x0c\x45\x7e\x89\x9f\xfa\xd2\x6e\xfd\xa3\x76\x04\x61\x74\xd7\x42\xab\x9e\x37\xd5\x82\xad\x32\x38\x34\x0b\x70\x3c\xf0\x03\x31\x1e\xc6\xba\x5c\x18\x6e\x90\x4e\xf3\x95\x30\x78\x01\x0d\x65\xf7\xf7\x1f\xe4\xbb\x2d\xd9\x63\x5e\x1d\xc4\xed\x59\x27\x3d\x88\xbb\xc3\x5e\xb2\xa7\x3d\xca\xeb\x10\xd8\x4a\x22\x20\xd7\x95\xc8\xd8\x4d\x6a\x31\xa5\x66\xa2\x5a\xa7\x68\xa7\x0f\xa0\x8e\xee\xd9\xa9\x6c\x09\xf5\x04\x37\x54\xba\xe5\x3d\x73\x4d\x8e\xee\x8d\x3d\x37\x80\x9c\xd4\x8a\xd7\x4b\x9a\x13\xd2\x20\xab\x59\x01\x23\xce\x66\xf3\x4a\xeb\x4d\x09\x9f\x23\x9a\xa4\x85\x28\x21\x06\x6c\x2d\x24\x67\x4a\x0e\x91\xe3\xe8\xc8\x44\x13\xa2\xcf\xe1\x09\x36\xcd\xf8\x55\x66\x21\x55\x9b\x2a\xa3\xd7\x52\x34\xe8\xae\x3d\x53\x3f\xd7\x97\x3d\x68\x27\x23\x3d\x00\xa5\x8a\x85\x3c\xf4\x0c\x87\x53\x89\x39\xfa\xf5\xd8\x6f\x00\x54\x18\xf0\x37\x0c\x2a\x86\x61\xc2\xbe\xd8\x4f\x16\xf0\x1e\x50\xc1\x16\x75\x18\xfc\xf5\x83\x0a\x46\x72\xc8\xcc\x9e\xa8\x02\x8b\x5a\x04\x88\x58\xe7\x20\x5c\xb1\xc1\x0d\x83\x36\xb0\xf0\x87\xed\xd7\x63\xc1\x7e\xc8\x6e\xa0\xe0\x20\x64\xdf\x13\x8c\xef\x04\x82\x83\x90\xbd\x36\x6a\x43\xfd\xe8\x46\x82\x5d\x5b\x63\xc3\x90\xfd\x80\xcd\xb0\x61\xc8\x2e\x5c\x10\x42\x29\xcf\x73\x1f\x05\x3a\x73\xd2\x5c\x46\x3d\x91\x73\x97\x07\xa8\x04\x00\xb8\x4a\x75\xf1\xc1\x04\x4b\x77\xd0\xdb\x6b\x33\x11\xb0\xe4\xa3\x5d\x08\x94\xd6\xb9\x4d\x94\x14\xae\x71\x78\x28\xa1\xd3\x2b\x87\x4b\x89\xbd\x3b\x89\x28\x5e\x9b\xb0\x29\x34\x1b\x32\x6a\xbb\x9a\x86\x12\x22\x9e\x7e\xa3\x4c\xf8\x74\xc4\x84\x6d\x0c\x89\xbe\x32\x0a\xb4\x21\x43\x5c\x19\x90\x26\x17\xf5\x21\xef\x23\xe0\xff\xd4\x41\xe8\xbf\x80\x75\x0f\xe0\xd9\xcc\x3d\x7a\x83\x75\x98\x2a\x06\xa2\xa6\x86\x9c\x07\x09\x25\x0e\xc9\x23\xb9\x2f\x38\xfc\xfe\xfc\xfc\xcd\xe7\x44\x19\x29\xc5\x81\xa5\x9c\x91\x7a\x01\xff\x13\xdc\x78\x04\x10\x8b\xeb\x25\xe5\x49\x7e\xa3\x16\xab\xa8\x28\x75\x75\xba\xad\x96\x47\x7f\x9e\xd8\xe0\x24\xb6\x2a\x21\x17\x87\x2a\xd5\x4a\x9e\xd0\x9c\xdd\x1d\xb4\x44\x62\x79\x06\x10\x4b\x13\xb8\x02\x18\x8a\xf9\x28\xa5\x17\xa9\xf4\x9a\xd9\x19\xaa\xac\xa7\x43\xd5\x43\x95\x7e\xa2\x8c\xba\xb3\xb9\x5e\x21\xd1\x27\x9f\xa9\x16\xcb\xeb\x08\x5f\xf6\x53\xa7\xf1\xef\x7a\x2d\xf1\x4b\x6e\x03\x9d\x82\xb2\x16\xbe\xec\xae\x74\x86\x66\x81\xcd\x0d\x74\xd9\xfb\xd2\x5f\xe5\xc9\x12\xcc\x4a\xd0\x7c\x53\x3d\x73\x43\x1b\x78\xc3\x3c\x25\x42\xed\x5e\xee\x15\x3c\x95\xe8\x1a\x05\x4a\x61\xf0\xde\xc0\x70\xc1\x98\x15\x60\x97\x2a\xca\xf0\xc5\xad\xdc\x72\x11\x6d\x70\x6b\x00\xd0\xf3\x2d\x28\xc1\xad\x5a\xe5\x69\x8c\x39\x64\xa4\x4b\xd1\xa2\x42\xf7\x6e\x4d\xbb\x2a\xdb\x4f\x88\x30\xdf\xe6\x5b\xec\xc0\x34\x7c\x5f\x6a\xee\x6c\x8c\x84\x01\x9e\x79\xa0\x4b\x76\x92\x70\xa5\xe9\x19\x34\x5b\x74\x8e\x39\x3b\xd9\x25\xe1\x65\xae\x16\x3e\xe5\x47\xb2\xcf\xb0\x36\xf5\x68\xc3\x40\x8a\x63\x76\xf5\x5c\xfd\xa2\xce\xf3\xf7\x98\x8b\x76\x7f\x3f\x99\x86\xc4\x86\x5f\x06\x1f\x9c\xeb\xf5\x26\xa5\x14\x6c\x28\x61\x94\xb3\x27\x17\x2f\xe0\x9d\x0b\x3f\xdc\x2b\x1c\x75\xc4\x7c\x05\xf0\x62\xf7\xbc\x26\x69\xa7\xab\x0e\x8c\x05\x3a\x63\xc1\xef\x78\xc3\xb2\x86\x8a\x3b\x23\xbf\x23\xb2\x38\x8d\x2c\x50\xf9\x28\x26\x68\x6d\x92\x7b\x3c\xad\xe3\x9d\x51\x8e\x05\x93\x36\x9a\x3d\x4e\xd3\xe2\x4f\xf8\x1e\x9c\x2c\x70\x20\x61\x12\x47\xdb\xb4\xc2\xb5\x93\xd5\x0d\x89\x11\x08\x85\xe9\xdf\xb4\x2c\xe0\x22\xaa\x79\x1e\x93\x03\x89\xdf\xd9\x03\x42\x4f\x7e\x42\xed\x4c\xac\xf3\x7f\x4d\xb9\x80\x40\x8a\x9e\x87\xc4\x5d\x30\x65\x17\x13\xac\x0b\xe5\x1d\x28\x64\x16\x49\xfd\xfb\xe3\xc7\xe0\xaf\x2e\x3d\x7e\xbd\x80\x36\xcf\x42\xe0\x96\x18\x63\xe7\xee\x3a\xc1\xe8\xc4\x8a\xe7\x27\xef\x79\xce\x35\x73\xcb\x5b\xc3\x58\xce\x21\x3c\x9f\x34\xe5\xcc\x39\xea\xd8\x8b\xf0\x25\x58\xcb\x55\x44\xe9\x78\x86\xff\x35\x3f\x42\x8d\x2c\xb7\x8b\x85\xd6\x71\xc9\xee\xf0\x5f\xde\xbd\x7e\x25\xd9\xf1\xb1\x49\x65\xb7\xfb\xab\xc4\xbb\x61\x07\xb7\xa9\xfb\xbb\xc5\xa9\x17\x78\x38\xa1\x98\x19\x2f\xdd\xf6\xcc\xbd\xac\x51\x03\x64\x02\x98\x3e\x8a\x8d\xcc\xd8\xe4\xfa\xf6\xa6\x0b\xd6\xd8\x2c\x9e\x99\xba\x61\x9b\x5a\x57\x03\x82\x33\x38\xaa\xe8\x0d\xc0\xf4\xf3\x45\xc2\xc6\xec\x27\xce\xf4\xbc\xa3\x51\x3c\x41\x62\x66\x40\xef\x39\xf4\xbc\x76\x02\xe4\x65\x1b\x8b\x04\x75\xd9\xba\x55\x3b\x61\xe5\x79\x4a\x4d\x4a\xd5\x33\x0e\x76\x5b\x42\xa6\x1e\x8a\x3b\x80\xaa\x5e\xb1\x53\x6f\x05\x27\x65\x3c\xb5\xe4\x4c\xcc\x66\x74\x13\xb2\xda\x80\x7d\x02\xa3\x1a\x4c\xc4\xac\x1e\xa1\x2d\x9d\xcc\xfc\x05\x94\x3b\xb0\x32\x4a\xe6\xf3\x5f\x37\x0f\x46\x0f\x5d\x3f\x4c\x6c\x8d\xc0\x96\x03\x32\x86\x96\xd4\x28\x03\xce\x9e\xf2\x79\x7a\xae\x53\xc0\x33\xf8\x50\x70\x90\x17\x9f\x13\x72\x0c\x6f\xbc\x3a\x4f\xe2\x38\x68\xe0\x1a\xfc\x8f\xe6\xd0\x09\xe7\x15\x87\xac\x37\x2f\x10\xb1\x66\x51\xea\xad\x4d\xd4\x49\xf4\xf7\x7a\xbb\xe7\xe9\xa3\xeb\x21\x11\x3f\x55\x18\x31\xb0\xaf\xc5\x01\xbf\x09\x49\x7b\x84\x3d\x2c\x38\xb5\x0f\x03\x1c\x96\xa9\x75\x4d\x49\x87\xd8\x4c\x16\x01\x46\x65\x2e\x3e\x60\xaa\xf4\x54\x26\xc5\x1d\x87\x42\x6e\x94\xaf\x6b\x76\x47\xc3\x28\xe4\xfb\x4c\x54\x00\x29\xcc\xd4\xc3\x1b\xe0\xb2\xb1\xe3\xc1\xe0\xa8\x4c\xfe\x89\x3c\xff\xf9\xeb\xff\xfc\x0f\xd6\xb5\x54\x67\x58\x67\xaa\xfe\x8b\xdf\xb1\xe2\x00\x1b\xa7\x0a\x7e\x5e\x9c\xe0\xc3\x0f\xf5\x14\x33\xdc\x8f\x27\xb9\x2d\x83\x89\x8d\x0f\x93\xae\xe1\x56\xfc\x09\x06\x2b\x71\x27\x7e\x83\x28\x4b\x65\x79\x76\x44\xc6\xd0\xf8\x0f\x58\x10\x94\x0c\xdb\xac\x05\x10\x25\x75\x1b\xd6\x99\xe0\x86\xc9\x93\x8c\xc8\xd8\xfa\x7d\xf7\x9c\x7e\x2a\xa5\x18\xf6\xaa\xbf\x63\x2b\x27\x62\x69\xff\x2e\x76\x1f\x47\x51\x4a\x81\x9d\x2e\x97\x89\xd8\x7d\xa3\xae\x64\xd1\xbc\xc1\x75\xde\x0d\x46\xcb\xc8\xea\xc8\x89\xa4\x7d\x32\xee\x25\x3e\xe1\x35\x6a\x59\x65\xeb\x3a\x2a\x9d\xe9\xa2\xb8\x95\x31\xd2\xf0\xcf\xcb\xc7\xb0\x9e\x80\x0d\x5f\xac\x1c\xd1\xa9\xf2\xb5\x4d\xd5\x33\x1b\x57\xa1\x6b\xa1\xa7\xb6\x9b\x77\x8c\x20\xe9\x6b\x8d\x84\x30\x25\x22\xe4\xd0\x32\x25\xaa\x5b\x58\x8c\x22\x24\x0f\x46\x4c\x3b\x46\xc8\x62\x97\x9a\xb3\x2e\x2f\xd9\xe1\x44\xec\xab\x40\x0e\x30\xf2\xc5\xed\x58\xa2\xdf\x37\x2b\x4d\x31\xeb\x84\xdc\x65\x80\xd2\x27\x30\x85\xa2\x34\x42\xb0\x55\x32\xc4\xa2\x64\x0f\xcc\x75\xd9\xae\xcd\xc3\xa4\x50\xf0\x6d\xce\x43\xc6\xa4\x6e\xab\x15\x0e\xbc\x4e\x4b\xca\x15\x40\x63\x38\x33\x31\x4e\x5a\x78\xa0\x85\x55\x54\x32\x2b\xa8\x76\xb2\x24\x78\x3d\x0a\x90\x55\x8a\x87\x02\x7e\x2a\x4b\x18\xe8\x19\xe7\x04\x19\x3f\x30\xa0\x6e\x9a\xe4\x1b\x98\xf8\xf3\x3c\x4f\x9b\xb9\x9f\x8c\xfc\x4a\xc0\x52\x48\xe9\xad\x5e\x62\x8a\x14\x5a\x02\x96\x08\xbe\x0c\x31\xa0\x54\x24\x9b\x0a\xd7\x05\x4e\xfb\x87\x21\x08\x9f\xde\x9e\x03\x7d\x04\x4e\x01\x36\xcb\xe6\x96\x6b\x9d\xb6\x36\x2b\x27\x30\x6d\x96\x51\x2a\x29\xbf\x38\x59\xcc\x2c\x7c\x50\x52\x47\xb3\x5c\xea\x3e\xf8\x08\x45\x9b\x6d\x6e\xd3\x94\x1a\x9a\x72\x17\xd9\x50\x41\x73\x5f\xac\x01\xf2\x95\x01\xd5\x9c\xaa\x87\x0f\x15\x7f\xc4\x87\x6f\x60\x7a\xc3\x6a\x8e\x7a\xf6\xcb\x2f\x4c\x3b\x7c\x51\xfe\x90\x94\x55\xfd\xc9\xcb\x68\x13\x4c\xa7\x3d\xbc\x4a\x3a\x2a\x35\xd5\x20\x01\x8d\x7d\x51\xa3\x81\x4f\xf8\x81\x0c\x07\x3c\xf2\x04\xc1\x29\x43\x74\x92\x84\xa5\xfa\x1d\x2c\x5f\xcc\x78\xf8\xc2\xcc\x5c\xe8\x6b\x20\x36\xf4\x1b\xf5\x05\x17\xf6\xf3\x66\x5d\x3a\x51\xd0\x47\x00\x44\x04\x33\xd7\xf0\x2e\x6b\x49\x9e\x71\x14\x6a\x4d\x36\x6a\xca\x0f\x68\x01\x25\x02\xb3\x1a\x3b\xf0\x5a\x2c\x32\xba\x67\x50\xcb\x1e\x94\x32\x6b\xb7\x60\x59\xe4\xec\x49\x9a\xe6\x37\x6f\xa2\xa2\x4a\xa2\x94\x42\xab\xd4\x38\xbc\x00\xef\x81\x54\x8a\xc2\x96\x27\xf5\x17\x67\x30\x1d\x5e\xd1\x8c\xc0\x37\xe6\xc5\xd9\x3a\xa9\xde\x67\x9b\x7c\xb3\x45\x3c\x1f\x9f\x98\x17\xc0\x3f\xba\xec\x76\xdf\xdc\x31\x67\xc1\x0c\x75\xc7\x17\xc2\xc0\xbe\x79\x5b\x15\xd1\x3a\x2f\x11\x10\xcd\xd4\x64\x91\x6f\xd3\x38\xfb\xaa\x12\x24\x68\x95\x12\x67\x29\x9d\x15\xf3\x35\x10\x57\x37\x2a\x50\xfa\x26\x90\x24\xf5\x36\xba\x11\x35\x18\x58\xf0\xb8\x5b\x0f\x99\x44\x7b\xd9\xeb\x64\xd8\xdf\xee\xe7\x06\x79\xd8\xca\x0b\xe4\xeb\x43\x6d\xf8\xd9\x0a\x6e\x4d\x7b\x6c\x08\xc1\x6a\x95\x7d\x96\x8f\x12\x8d\x71\xdb\x85\xc0\x30\x1a\x1b\xb1\x3b\x75\x1a\x3b\x4c\xcf\x4c\x79\x96\xc7\x03\x03\x38\x8b\x48\x02\x3f\x02\xfe\x8e\x45\xd1\xc9\x4a\xd5\x27\x60\xd3\x42\x7c\x44\x63\x8b\xcb\xb2\x0c\x00\xd5\x20\x39\xf4\x5a\xaf\x96\xc2\xdb\x0e\xb4\x74\xda\x0e\xc7\x80\x56\x1b\x15\x7d\x9e\x80\xb9\x2f\xe2\xf7\x19\x9d\x53\xf4\x35\xd4\x8d\xb1\xdf\x92\x37\xd6\xd2\xdb\x5a\x42\xe0\xdd\x83\x8f\x27\xea\x41\x79\x2f\x4a\x25\x3d\x83\x21\x6c\xe9\x73\x9f\x6e\x18\x85\xf8\x3c\x6b\x4d\xcd\x78\x06\x14\x09\xaf\x7d\xb3\x40\x05\x6a\x96\xe1\x9e\xd7\x2c\x2e\xf9\x2c\xd5\x51\x21\xef\x7c\xbd\x74\xba\xb7\xc8\x37\xb7\xcc\x43\xa7\xde\xd1\xb6\x5f\xcc\xb1\x61\xda\x33\xa1\x25\x14\xe3\x16\xb0\xf0\x95\xc5\x42\xb4\xcf\x51\x09\xa0\xf0\x0c\xdf\x74\xa9\x5f\xd9\x48\x19\x85\x0e\x90\xad\x85\x3a\x0d\x05\x21\x12\xed\x25\x8f\x21\x3b\x69\xb2\x45\xed\x4c\x98\xbc\x02\x23\xe3\x72\x6f\x19\x13\x38\x6f\x4a\x78\x14\xfb\x22\x2e\xeb\xf2\x1d\x79\x79\x60\x08\x41\xda\xe0\xa5\x1b\xb0\x74\x02\x07\x3a\x4f\xc6\x22\xb4\xb4\x76\xce\x5d\x54\xb4\x47\x02\x10\x04\x9f\x02\xd7\xec\x71\xe6\xe0\xa7\x90\x6c\x1a\x38\xc4\x1a\x45\x9c\x06\x66\xd5\xc3\xe5\x18\xd3\x61\x61\xb1\x25\x7b\x80\x89\xa4\x13\x16\x81\x76\xe7\x1d\xcd\x2c\xdf\xd4\x82\x57\x8a\x27\x3d\x1d\x63\x9c\x34\x16\x7d\xed\xcf\x03\xe4\x14\x89\x99\x97\xb6\xa5\x70\x52\x6b\x38\x0c\x27\xfe\xbc\x91\x13\xe3\x21\x6e\xc9\xe0\x0c\xe3\xee\x41\x25\xf8\xf1\xe0\x4f\x67\xf0\xeb\xe8\xeb\x9a\x4a\x6f\x8b\x94\xc2\x4d\x67\x14\x4f\x63\xa3\xe5\x0d\xd3\x8f\x08\x01\xfd\x51\xda\x66\x12\x79\x53\x9b\x46\x54\x0e\xa3\x2f\x76\x77\xc1\x0d\x0e\x52\x08\x40\xf2\xe2\xc7\xd3\x6b\xc0\x70\xf5\x54\x67\x33\x40\x02\xde\xae\xb1\xd5\x56\x3e\x34\xfc\xba\xbb\x67\x6d\x66\xab\x42\x8e\xa7\x97\x27\xb2\xc5\xc8\x3b\xb6\xc6\x83\xe1\x82\x09\x68\xbd\xa4\x9f\xef\x85\xff\x80\x2a\xef\x71\x9a\xc7\xc2\xf4\xbb\x8e\x55\xb5\x35\xb8\x66\x4c\x67\xbe\x7b\xfb\x34\x8a\x4d\x5c\x0d\x69\x8a\x2b\x4c\xbd\xe4\xc5\x0d\x06\x1a\x99\xf5\xc7\x05\x5f\xfa\x8b\x5d\x14\xc7\x3c\x65\xe0\x43\xef\x7c\x91\x38\x12\x41\xfb\x19\x46\x9e\x2d\x9e\x97\x01\x31\x54\x02\xf1\xd9\x51\x2a\xbc\xf5\x32\x53\xbb\x60\xb7\x5d\xee\xbc\x29\xc3\xb2\x1d\x9a\x34\x83\xd6\x1d\x4d\xf5\x95\x6c\xb9\x20\x13\x14\x32\xf0\x56\x8c\x6e\xdb\xcb\x0c\x21\x5c\xad\x69\x26\xf5\xda\x57\x48\x3a\xe2\xa4\x52\x2c\xc7\x67\x13\x68\x66\xa8\x27\x72\x86\xd3\x91\x32\x27\x11\x10\x22\x61\xe4\x0a\x0f\xa4\x66\x54\x7d\x9d\x17\xb4\xed\x7b\x99\x5c\xc3\x13\x71\x68\x44\x96\x8e\x8d\x80\xda\x70\x1b\x55\xe6\x93\x60\x03\x74\xe7\xb1\x04\xc1\xe6\xaf\xc9\x7c\xe0\xd7\x8b\xc7\x1f\xd8\x74\xe0\x7c\x36\xdc\x3d\x93\x5b\x34\x9e\x64\xb7\xa6\x10\xa8\xd9\xec\x62\x22\x48\x02\xc8\xd5\x30\x63\x2d\xf4\x45\x8d\xf0\x8a\x7a\xda\xd6\x66\xc3\xd5\x9d\xa0\x2b\xa4\x33\x75\x61\x19\x29\x85\x34\x44\xce\x24\xd0\x96\x98\xb5\x89\x07\xd2\x7c\xa7\x9e\x8b\x99\x16\xb5\xb3\xb2\x2a\xf4\x46\x23\xe0\x65\x5b\x62\x86\x85\x2e\xed\xc8\x33\x4c\xd3\x59\xaf\x71\xdb\x06\x5f\xe1\x69\x5b\x9e\xcd\x79\x61\xde\x13\x54\x8b\x8a\x22\x32\x3e\xa2\xe5\xc7\x68\xef\xa0\xc4\xb9\xcc\x14\xb5\xef\x6b\x5f\xf7\xf8\xb9\x51\x3f\xfe\xe6\x86\xa2\x9e\x87\x6a\xc1\xb0\xed\xf4\xc5\x01\x28\x58\x90\x91\x6d\x02\x8c\xc2\x43\x43\xa8\x3e\x4c\xa0\x12\xb6\x05\x6f\xb6\x90\x70\xc9\x0c\x5e\xe9\xe0\xc2\xda\x49\xec\x9d\xa5\x33\x95\xb0\x5e\x32\x33\x24\xbc\xa3\x1d\x86\xa6\xd9\xa4\xec\xe6\x53\x8a\x01\x77\xa4\x71\xc9\x87\x36\x2a\x63\x5e\xe0\x15\xdf\x10\x80\xea\x23\xb5\xfc\xe0\x5e\x4d\x87\x5a\x70\xbe\x04\x7c\x98\x26\x95\x93\x07\x2a\xf6\xc4\x2c\x36\x3d\x79\xba\x3b\xf7\x63\xbc\xf4\xa5\x1d\x1b\x32\x36\xbd\x63\x70\xe7\xa3\x99\x2e\x40\x66\xbc\x3b\xc3\x97\x48\xf2\x35\x33\x58\x07\xf5\xf5\x48\xe2\xec\x7e\x26\x80\xdb\xd4\x29\x70\xa7\xbf\x91\x3c\x40\x9e\x09\x85\xbf\x80\x2b\xf3\x94\x28\x53\x74\x64\x47\x02\xe9\xc8\x4b\xf6\x18\xec\x56\x67\xf6\x40\x6b\x51\xee\xc9\x1c\x18\xc5\x7a\x89\x1b\xb0\x21\x46\xac\x43\xba\xe8\x21\x98\xca\x3e\x39\x66\x15\xb8\x44\x82\x46\x5f\xbd\xac\x82\x7b\x73\x16\x06\xd4\xd0\x16\x43\x7a\x8c\x32\xe9\x35\xc5\x49\x45\x47\xe5\x62\x89\xb7\x3a\x8a\xc1\x69\x09\xb8\xed\xfd\x0e\xdf\xb6\x5c\x5f\x8e\x7d\x16\xb8\x0f\x61\xf6\x82\xb0\xe3\x46\xda\x13\x73\xec\xa8\x1e\x7a\x7d\xcc\xc4\xb1\x93\x54\x6b\xef\x5e\x1e\xe8\x93\xf5\x7b\x65\xbd\x7e\x19\xb3\x6b\x44\xd1\xeb\x9a\x71\xdc\x99\x42\xdb\x1d\x33\xba\x2b\xf8\xdc\x1f\x7e\xee\x0c\x40\x0b\x1f\xfb\xe3\x25\x3f\xe0\x7c\x68\x64\x9a\x25\x32\xea\xc6\x55\xfc\x0e\x19\x70\x6c\xdd\x73\x32\xa1\x75\xb1\x1e\x52\x22\x0b\xc9\xc3\xda\x17\xe3\x13\x75\xaa\xe4\x8c\x0e\x88\x65\x7c\xce\x4b\x12\x26\x8c\xae\xb8\x7d\xcd\x31\xe6\x74\x54\xab\x37\xb8\xc2\x95\x56\x7f\x1d\xf4\x3d\xe8\xc4\x38\xe6\x6b\x3a\x6a\x48\x9b\x56\x3d\xfe\x4a\x96\x3d\x7c\xff\xf6\x87\xf0\x6f\xf8\x90\xe6\x20\x56\xf0\x8a\x8c\xfd\x1d\x6a\xeb\xd8\xd9\xde\x79\x93\x8d\xaf\xca\xc9\x4c\xb1\xf0\x87\x9c\xb7\x4d\xd5\x84\x64\xce\x65\x30\xd1\x90\x5f\x7f\xa7\x33\x6a\xd4\x6a\x17\xee\x5d\xd7\xb2\x1a\xbd\xb4\xc6\x21\x16\x5e\x67\x3a\x5f\xb6\xf8\x00\x2b\xd2\xe2\x83\xba\xf5\x6b\x18\xb1\x42\xe6\x91\x37\xa8\xd3\x64\x17\x1c\x35\x0e\xe1\xf7\x6e\x77\x77\xae\x09\x7d\xa7\x09\x78\x05\x28\xcd\xde\xaf\xdd\x8c\x11\xf0\xd8\xdc\xeb\xe5\x9d\xef\xe2\x80\x93\x02\x1d\x0c\x76\x59\xf7\xce\x9d\xd3\xbe\xc3\x03\x16\xdb\xff\xd1\x02\xa4\xfe\x92\xd0\x11\x1f\x75\x87\x1a\x6a\x9e\xcb\x74\x1f\xe7\xe3\xe7\x99\x58\x4f\xbb\x07\x48\xdb\x5f\x5e\x29\xff\xb0\x83\xbb\x8a\x47\x76\x70\xba\xf2\x6d\x7a\x0e\x5c\x35\xd7\xd9\xbe\x53\x0f\x0e\xb9\x15\xde\x1e\xd0\xe0\x39\x07\x5a\xc7\x5a\x67\x1c\x30\x50\xb2\x8a\x62\xae\xdb\x77\xaa\x81\x72\xe9\x63\xcc\x8c\x4a\x18\xc2\xdb\x93\xa8\xde\xad\x7a\xb8\xcf\x4f\x54\x0c\x86\x33\xb0\xc6\x1e\xa6\x40\x65\xc6\xcc\xbc\xd6\x91\x8b\xda\xa9\x09\x26\x52\x3f\x3a\x31\x78\x68\x62\xd7\x99\x09\x23\x21\x8a\x32\x5d\x11\x0c\x1e\xac\xd2\xe0\x9f\x4e\x4d\xb4\x69\xa0\xf1\x42\x71\x6f\xc1\x2e\xda\xdb\x8b\x16\x2b\x1c\x93\x90\xde\x44\x69\x99\xe3\x10\xc8\x1c\xe6\x45\x0a\xbc\xe8\xf1\x70\xeb\x66\xe1\x3b\xc2\x3b\xfe\x66\x62\xc4\x31\x1c\x31\xdd\x55\xd1\x8e\x0a\x46\x70\x50\xe7\xd0\x88\x4c\xa6\x9f\x7d\xc8\x03\x49\x7c\xfe\x21\x0f\xaf\xb6\x4b\xc7\xeb\x38\xe3\x91\x31\x9c\x65\xeb\x05\xfe\xc0\x35\xdd\x32\x52\x89\xd4\xd6\x79\x45\xde\x37\x26\x87\x44\x19\x5e\x91\xf4\x13\x9e\x43\xdf\xf0\x65\x4c\xfc\x8c\x2f\x68\x82\xc5\x99\x00\xb2\x6b\x24\x06\x44\x94\xd3\xb5\x24\xe5\x6d\x59\xe9\xf5\x0c\x95\x0b\x68\xa5\xc9\x95\x4e\xed\x39\x11\x8a\x18\x4e\x56\x79\x59\x9d\x90\xec\xdc\x41\x10\xd7\x83\xc0\x36\x65\xb7\x12\xfb\xb2\xfc\x0e\x3f\x02\x82\x5b\x02\x46\xe5\x78\xd3\x6e\x99\x7c\xb2\x2d\xc2\x50\xd2\x6d\x70\xe2\xd3\x1b\x3e\x4e\xf9\xf1\xc9\xf1\xf1\x44\xfd\x9b\x95\x04\x19\xab\x6d\x23\x90\x05\x60\xc9\x52\xdb\xfb\x30\x25\x62\x85\xed\x58\x2e\xc9\x43\xd0\xd5\xe1\x53\xc9\x01\x03\x3e\xe5\x3f\x79\x95\xf3\x40\x7a\xa9\x90\x7c\xaf\x05\xeb\x00\xa5\xfa\x20\xa1\x9b\xbc\x80\x39\xc9\xe9\x95\x4a\x56\x7a\x8a\xd5\xde\xe2\x0d\x9b\x64\x9b\xbd\x93\x2d\x93\xe9\xb8\x86\x9f\x0e\xca\xbe\x23\x07\xa2\xe1\xde\x09\xd3\xf8\x96\x4f\xb8\x78\xae\x20\x7c\xd2\x9f\xda\x35\x1e\x9b\x3a\x04\xf0\xdb\x7e\xd3\xd0\xc9\x16\x6c\x89\x01\xe7\x40\xbd\x8e\x8b\xf3\xbc\x33\x2e\x72\x5f\x43\x6f\x52\xa0\x00\x5a\x82\xaf\x60\x2b\x82\x2d\x63\x51\x8b\x52\x23\x58\x64\xc1\x7c\x60\x72\xa0\x29\xea\xd0\xc1\x8e\xb4\xbe\x46\x06\x60\x2d\x53\xb0\x9e\xe1\xd7\x3c\xd4\x32\x6a\x9e\x6b\x31\x28\xdb\xcb\xf2\xeb\x4e\xfe\x1b\x3e\xea\x32\x38\xee\xf6\xc8\xcb\x6f\x3e\xf2\x7d\x69\x92\x04\x67\xfa\x87\x76\xd6\x44\x9b\x5d\xc9\x8e\xee\x9c\x8d\xdd\xe9\xc1\x71\x9c\xc3\xc0\xa9\x47\x38\x87\xe1\xdb\x8c\x63\xe8\x26\x88\x65\x1e\xd3\x99\x16\xc4\x05\xd0\x87\x47\x58\x81\xbf\xd2\x7a\x21\xee\x81\xbb\x3f\x00\xdf\x08\x50\x79\x56\x7d\x32\x69\xf4\xef\x10\xdf\x2e\xe8\x86\x89\x6d\x21\xf9\x35\x04\x15\x64\xe2\xc2\x74\x04\xb0\x95\xf2\xc9\x34\x5e\xe7\xc0\x72\x53\x42\x3b\xf8\xdd\x60\x45\x0d\x7c\x95\x65\x89\xb3\x20\x79\xd9\x5b\x1b\x08\xeb\xfb\xd0\x88\x15\x24\x47\x25\x54\xea\x55\x5e\xc9\xed\x78\x48\x12\x69\x91\xa5\x58\x45\xd7\xe0\xe2\xc9\xad\xb7\xc3\x90\x84\xda\x99\x53\x66\xb3\x5c\x10\x45\x77\xe1\xa0\xe5\x37\xac\xe1\x5d\x83\x92\xfd\x18\x99\x93\x83\x6c\xf8\x69\xb3\xcd\xe6\x58\xda\xbb\x2b\xbc\xeb\xab\xf0\xc0\xa0\x2c\xb8\x72\x0c\xa1\x2e\x3b\x3e\x7a\xe0\xed\xba\xf5\xaf\x07\x7e\x9a\x4e\x47\x21\xc9\xce\x1e\xb8\xde\x6c\x0f\x74\xf8\x9b\x1d\x3e\xb0\x88\x07\x37\xea\x9a\xb9\x79\xf5\x33\x02\x14\x98\x23\xfc\x8b\x0b\x40\xcf\x51\xaa\x9d\x06\xbb\x19\x74\xeb\x34\x36\x83\x31\xb7\xa6\x7f\x25\x01\x37\x46\x63\xcd\xa0\x9b\x89\xd0\x48\x33\xfe\x21\x24\xff\xe8\x76\x33\xe8\xe6\xe5\xcb\x31\xcc\x93\x1c\x58\xfb\x66\x45\xf7\x9e\x60\x74\xe2\x4f\x8f\x1f\xfb\xc9\xc0\xe0\x67\x49\xc6\x2b\xf9\x53\x1b\x10\x21\xb3\x89\x15\x32\xa2\xc5\xbe\x15\x4d\xa0\xaa\xc2\x8d\x3f\x3a\xbe\x4a\xbd\xf0\xe7\x9f\x64\x1d\x02\x8c\x26\x17\xc6\xf1\x68\x98\xd8\x19\x14\x34\x47\x89\x3a\x82\x82\x9d\x62\x1f\x8e\x09\x72\x99\xc3\x83\x82\x87\x04\xf1\x4e\xe9\xaa\xd8\xb3\xd7\xdf\xf6\xc6\xf1\x30\xcb\xc1\x25\x34\x92\xc5\xa1\xd8\x11\x6f\xa0\x7a\x81\xbb\x3d\x63\x82\x1d\x21\x41\x4b\x74\x32\xf5\xce\xde\x14\x5e\x02\x29\x12\xf6\xc2\x4e\xaf\xff\xba\x3b\xec\x58\x4b\x1f\x05\x57\x63\xe2\xe9\xcc\x89\xfa\xea\x41\xfc\x15\xb9\x01\xae\x0d\xdb\x36\x07\x55\xcb\xcd\x2e\x6d\x1e\x1f\x1c\x67\xec\x0d\x33\xf6\x45\x19\x3d\xd1\xee\x88\x31\x22\xc3\x1d\x31\xc6\x96\x84\x7c\xa1\x34\x4e\x26\x3d\x74\x97\x0d\x8c\x1a\xb7\x0d\x78\x06\xa8\x79\x28\x70\x8f\xfd\x81\xdd\xbb\x03\x0c\x08\x6a\x11\xa0\xc3\xf6\x07\x5a\xc7\x09\xc7\xd6\xdb\x95\x70\x10\xd4\xd9\x7b\x4b\x80\x6e\x72\xe5\x23\x09\x05\xcc\xa0\x52\x61\x43\xe4\x98\xc0\xba\x3c\x92\xd5\xaf\xb6\xf8\x06\x88\x09\x66\x66\x03\x0e\x4d\x0d\x05\x7d\x8d\x29\xd8\xa3\x5b\x7b\xec\x0f\xf4\x1c\x37\xb4\xa1\xa3\xa1\x03\x86\x43\x11\x73\x13\xc5\x84\x7a\xa4\x0e\xfe\x12\xd5\xeb\xfe\x36\xcb\xf5\xfb\xd7\x1c\x79\x78\xa7\xd9\xf9\x6c\x24\x2d\xc8\x7c\xb3\xa9\xa3\x12\xcb\xa5\x64\x18\xf1\xde\xe8\x8c\x9d\xdd\x3b\xad\x5f\x32\x56\xf2\x35\x03\xb5\xf8\x26\xb6\xfa\x8e\x9f\xdb\x00\xa7\x29\x78\xdf\xbc\x93\x0d\x61\xe2\xe4\x78\x32\x1c\x22\x76\xd1\xe1\x2e\x2f\x70\xc3\x51\x84\xe1\xfa\xbd\xd9\x80\x76\x56\xb3\x64\x28\x81\xc1\x50\x24\x48\x40\x92\x7c\x1b\xdd\x08\xf8\xdc\x9a\xcf\xf6\x9d\x7d\x41\x4f\xeb\xd2\x6e\x6e\xc9\xdb\x8d\xfe\xae\x48\xb6\x27\xd7\xbe\xc0\xb5\x72\x57\x16\xec\x17\x33\xa6\x72\x38\x1f\xbe\xf4\xb3\x5c\x55\xe0\xaa\x7e\x97\xd3\xa1\x44\xf9\x53\x0b\x93\xa9\x75\x0a\x69\x93\x72\x62\xc3\xce\x7f\xb3\x31\x76\xb9\xf7\xcd\x6d\x85\xd2\x96\x34\x28\x60\x68\x0b\x3f\x83\x22\xa9\xbb\x53\x56\x86\x1c\xf3\xcb\xd0\x85\xf1\x59\x91\xe6\xda\x87\x2a\xfa\xe8\x99\xdd\x18\x2f\x61\x62\x80\xc9\x99\xaa\xe7\xe5\xdd\xf9\xed\x63\x30\xf6\xfe\xfe\x41\x0c\xb6\x16\x58\x83\x4f\xd7\x62\x75\x27\x08\x0c\x3d\xef\xce\xb2\x2f\xdc\xba\x9d\xe4\x46\x3e\xc9\x8c\xcf\x0a\x0f\x30\xd4\xb5\x11\x55\xd7\xf3\x5a\x9b\x72\x06\xb0\xf1\xad\xe9\x6d\x8a\xd6\xe4\xb8\xb3\xd0\xb7\xd7\xd0\x56\x1d\x2a\x3e\xa4\x3a\x86\xec\xc6\xce\x71\xae\x62\x8e\x32\x1e\x20\x0d\xa6\xf1\xbb\x8b\xc3\x9f\xb0\xd4\x16\xe8\xa8\x28\x0a\xaf\x01\x74\xd8\x71\xd7\x36\xac\x37\x81\x09\x6b\xb5\xcc\xe5\x61\xdb\xa1\xfe\x0e\x1c\x1f\xda\x02\xb1\xfc\xba\x0d\x38\xbb\xf3\xb3\x6b\x93\xa2\x7f\x97\xa2\x7f\x9b\xa2\x7f\x9f\xa2\x77\xa3\x82\x2f\xad\xec\xc8\xe5\xf6\xb6\x2a\x78\x1f\xf6\xb3\x0d\xb5\xa4\x6d\x93\xe8\x25\x65\x5b\x3d\xb8\x9e\x98\xfd\x5d\x6b\xae\x9f\xf2\xf9\xb2\xe6\xdf\x65\x08\xf8\x4f\x3d\x00\x9c\x7e\xba\x5d\x02\x6e\xe7\xec\x1f\xef\xac\xa6\xf2\xf7\xcb\x4c\xea\x4b\xfb\xb2\xea\x9d\xd7\x57\xda\xbf\x5d\xb1\x6f\x40\xfa\xd5\x93\xf3\x77\x9f\x79\x7d\x25\x55\xc3\xfa\x8a\x9d\x78\xfb\x5d\xee\xf8\xa1\x3f\x4b\xc2\xb7\xfb\x94\xc5\x35\x7f\xb7\x77\x91\x0b\x6c\x69\x5f\x83\x3e\xda\xef\x1e\xf4\xe6\xe5\x36\xef\xb6\x73\x3b\xfa\xd8\x3c\x4e\xf6\xad\x86\xa7\x98\x51\x3b\xe7\x4b\x43\x5b\x37\xa3\x87\xf5\x9b\x44\x3b\xcb\x4c\x88\xfb\xb0\x75\xa1\xde\xcb\xf2\x92\xfa\x39\xdd\x17\x3d\x10\xc8\x6a\xf2\xec\x5d\x0d\xe3\x0d\x7e\xfd\x1a\x7e\x3c\x22\xef\x0d\xd3\xbe\xd7\x84\xd2\xc8\xec\xbe\x26\xd4\x51\xde\x79\xf6\xbe\xf6\xe7\x50\x42\x2b\x5b\x7b\xfe\xde\x1b\xe1\x9e\xeb\x41\x87\x29\xc8\x6e\xdb\xe7\xdc\x12\x3a\xea\xa3\x5c\x3b\x69\xcf\xbf\xb1\xc7\x7c\xf2\xeb\x77\xbf\x5e\xd4\x09\x64\xbf\xeb\x45\x6b\x77\x8b\xd6\xbb\x84\xa7\xcd\x6d\xaf\x0e\xba\x5f\x14\xfb\xdb\x73\xf9\x92\x75\xba\x5a\x65\xbc\x38\xb4\x2b\xd1\x75\x0e\xfd\x80\x0b\x48\x3d\xf5\xf8\x55\x17\x90\x7a\x74\xec\x71\xc2\x83\xfe\x08\x06\x2c\x37\x8f\xfa\x14\xa6\x75\xb7\xe8\x81\x57\x58\x7a\xd1\x1f\x16\x6a\xe3\x1e\x99\xee\x7b\x51\xca\x4b\xb1\x97\x60\x56\xfa\x83\x3e\xed\x8c\xaf\xae\xab\x63\xfe\x00\xa7\x52\xf0\xec\xcc\x73\x3e\x85\x84\xd7\x8d\x7e\x73\xc0\x5d\xa3\x0f\xf7\xba\xa2\x72\x5c\xd3\xdc\x1d\x09\x23\x24\xd8\x3d\x12\x46\x28\x41\x24\x9f\xff\x03\x37\x42\x25\x06\x50\x5a\xbd\x30\x57\x4a\xbe\xc4\x3b\x2e\x28\xee\x99\x93\x02\xca\x1f\xd1\xa3\x4d\xf5\x2d\xb6\x8d\xc1\x47\x4a\x19\xc7\x98\x79\x99\xa0\x3d\x96\x3b\x13\x6a\x79\x24\x1d\x7c\xf7\x5d\x18\x8b\x77\x3d\x99\x4d\x52\xa8\xef\x2f\xac\xff\x62\xf9\x24\xbb\x0e\xdc\xfd\x9a\x84\x12\xa3\x53\x8b\xf0\xcd\x76\x9e\x26\xe5\x2a\x90\x7b\xae\x08\x6b\x79\x26\x88\x0f\x22\xcb\x8e\x85\x77\x03\x98\x89\xaf\x70\x6e\xc5\x12\x16\x53\xbc\x8f\xe1\x9c\x2f\x77\xb8\xd2\xb6\x8a\xdc\x90\x4f\xe4\xe4\x78\xe9\xcc\xde\x4c\x09\x4f\xec\x98\x48\x9e\x85\xcb\x67\x4f\xaa\xd0\x59\xb0\xe6\x79\x68\xfe\xde\x3e\xbb\x3d\xf9\xfb\x78\xf4\x92\x19\xc0\x93\xb6\x30\x02\xf2\xee\xbf\xeb\x07\xbb\x1b\x8b\x5b\xf7\x24\xf0\x2f\xfd\xa8\x05\xc8\xdc\x9d\x13\x91\xdc\xbf\xb5\xcf\x6c\x68\x2a\x34\xdf\xf2\x30\x7c\xa7\xc4\x80\x3e\xf3\xf1\x2a\xd2\x91\xfa\x35\x0f\xb5\x3c\x7b\x2b\xbc\x8e\xfb\x25\x66\x8a\x45\xc5\x4a\x57\xbf\x6d\xe2\xac\x4b\x7d\x48\x75\x86\x74\xe6\x00\x1c\xfd\xf9\x89\x1d\x5e\xed\x1d\xb7\x77\x62\xe7\xff\xb7\x6f\xef\x74\xdc\xb5\x91\x7d\x2f\x3c\x14\x81\x3a\x74\xb8\x4f\xde\x46\xf7\x25\x99\xfb\x7a\x04\x07\xde\x90\x69\xd2\x08\x7a\x6f\xc9\x6c\x01\x30\xdb\x27\x49\x22\xb0\x57\x65\x72\x3a\xc1\x0e\xff\x62\xec\xe5\x09\xd4\xac\xbf\x9f\x1c\xd0\x03\xd9\x6a\x69\x01\xcd\xac\x80\x66\x52\x40\x2d\x09\xf3\x0f\x73\xdb\x25\xf9\x23\x9f\x7b\x27\x64\x8f\x40\x3a\x8d\xdc\x7e\x77\x42\x1a\xb4\xf5\xbb\xdd\xfe\xd8\xc3\xf2\x1e\x00\x50\x0d\x23\x40\x5c\x99\xb6\x85\xb7\x88\x0c\x1c\x82\xf1\x80\x98\x54\x6b\x1d\x7d\x91\xe7\xa1\xac\x31\x1d\xf0\xcc\xec\x04\x9a\x92\x72\x15\x89\x39\x9d\xd3\xd8\x2e\xeb\xbc\x7c\xf2\x8f\x86\x49\xbb\xf6\xcb\x86\x41\x69\xf7\x55\xdc\xbe\x52\x0b\x34\xed\x46\xa6\x9d\xbb\x57\x35\x60\xda\xb8\x0c\xd3\xfc\x0d\x64\x5d\xd6\x92\x1d\x07\x56\x67\xec\x9c\xb1\xf5\xa0\x45\x4d\xa8\x7a\x44\xbc\xfe\x36\x78\x75\x5f\x57\x66\xd7\xa6\xd5\xbf\x1e\x3e\x95\xcd\xb5\xc3\xe1\xa9\x51\x3f\xbc\x28\x17\x7e\x35\x0e\x56\x1a\x9d\xfa\x1f\x2a\x5e\xb6\x6d\x80\x7c\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x02\xff\xed\x5d\xeb\x73\xdc\x36\x92\xff\x3c\xf3\x57\x20\x53\xb1\x43\xfa\x46\x94\xb3\x55\x77\xb5\xa7\x94\xae\xce\x0f\x25\xf1\x6e\xfc\x58\x5b\x4e\x3e\xa8\x5c\x59\xce\x10\xa3\xe1\x8a\x43\xd2\x24\x47\xb2\x56\xd1\xff\x7e\xfd\x02\x08\x3e\x67\xc6\x49\xae\xb2\x57\xe7\x4a\xa4\x19\x12\x68\x34\x80\x46\xe3\xd7\x0f\x40\xc7\xc7\xea\x59\x16\x69\x75\xa9\x53\x5d\x84\x95\x8e\xd4\xe2\x56\x2d\xc2\x22\x4b\x03\xf5\xfc\xb5\x7a\xf5\xfa\x5c\x9d\x3d\x7f\x71\x1e\x4c\x8f\x8f\xd5\x5b\x5d\x6c\xd3\x34\x4e\x2f\xb9\x80\xba\x89\x93\x44\x65\xd7\xba\xb8\x29\xe2\x4a\xab\x6a\x1d\x97\x6a\x15\x27\x9a\x0a\xff\xa8\x8b\x32\xce\xd2\x13\x75\x77\x17\xc8\xe7\xfb\x7b\xe7\x85\x7a\x0e\xad\xb9\x6f\xf1\x3b\x94\x98\xe6\xe1\xf2\x2a\xbc\xd4\xf8\xe6\x0d\x7f\x7c\x15\x6e\xe8\x0d\x54\x3e\x37\x6d\xa8\x65\x96\x56\x61\x9c\x96\x6a\xa3\xab\x75\x16\x95\xaa\xca\xd4\x26\xbc\xd2\x2a\x4e\xa3\xf8\x3a\x8e\xb6\x61\xa2\x74\x1a\xe5\x59\x9c\x56\x50\xa5\xc8\x36\xaa\xd4\xc5\x75\xbc\xd4\xe5\x1c\x29\x15\xfa\xe3\x56\x97\x95\x0a\xd3\x08\x3e\x97\x79\x96\x96\xd0\x85\xdb\x5c\x13\x25\x2c\x8a\x3d\xca\xe0\xa1\xa5\x32\x57\x61\xa9\x6e\x34\x74\x1a\x7e\xeb\x74\x09\xe3\x56\x94\x48\x00\xe9\x45\x5a\xbe\xaf\xb2\x42\x2a\x12\xb5\x39\x3d\x08\x71\xa4\x56\x2a\xdb\x16\xaa\xdc\xe6\x79\x56\xe0\x48\x57\x45\x98\x96\xf8\x19\x9b\x8b\xc3\x24\xfe\x67\x58\xc1\x40\x20\x35\xa8\xb3\x09\xab\x32\x98\x4e\xe3\x0d\x95\xf0\xa6\x93\xd9\xe2\xb6\xd2\xe5\x0c\x3e\x60\xdf\xf5\xa7\x0a\x3f\x12\x1b\x30\x25\xc7\xff\x28\xb3\x14\x1f\xac\x36\xf4\x3c\xce\xf8\xe7\x71\x9c\x6d\xab\x38\xc1\x2f\xa9\xae\x8e\xd7\x55\x95\x9b\xcf\xdb\x82\x1e\x97\x55\x01\xf4\xae\xe5\x23\x90\x82\x26\xe0\xf3\x65\x5c\xad\xb7\x8b\x60\x99\x6d\x8e\x2f\xb3\xa3\xab\xb8\x3a\xc6\xff\xcd\x58\x40\xe9\x30\xbd\xcd\x17\x6a\x76\x99\x65\x97\x30\xe5\x97\x59\x12\xa6\x97\x41\x56\x5c\x1e\xe7\x45\x56\x65\x8b\xed\xea\x98\xfa\x7f\x7c\x95\x66\x37\xe9\x31\x95\x86\x5a\xd1\xb6\xa0\x4e\x1e\x50\xb5\xae\x02\xf5\xf5\x26\xaf\x0e\x69\x57\xca\x43\xcd\x55\xac\x93\x68\x13\x96\x57\x07\xd4\x76\xea\x00\x05\x18\x9e\xed\xb2\x3a\xa0\xba\xa9\x00\x75\xab\x78\x03\xd2\x16\x6e\xf2\x03\xaa\x3b\x75\x80\xc2\x4d\x11\xe6\x39\x08\xd8\x01\x04\xea\x2a\xdd\x29\x2d\x60\xf1\x86\xc7\x9b\xed\xa7\x59\xf3\x4d\x7e\x75\x79\xac\x8b\x22\x2b\x48\xd2\x46\x1a\xb2\x92\x47\x4f\x8c\xf8\x8d\x54\xa0\x0f\xc8\xc8\xdd\xdd\x91\x8a\x57\x4a\x7f\x54\xc1\xb3\x2c\x5d\xc5\x97\xc1\xb9\x5d\x09\x33\x58\x29\x33\x35\x4b\x41\xf8\x67\x0a\x16\x7d\x83\x37\x7c\x7a\x04\x32\x8d\xbf\xa1\x89\x19\x93\x02\x99\xc4\x82\x7b\x50\xbd\x2c\xf2\xa5\xa1\xda\xe1\x93\x5e\x0e\xbe\x39\x06\x35\x13\x46\x61\x15\xb6\x1b\xdd\xbb\x49\xfc\x54\xaf\xf8\x81\xf5\x65\x0b\x18\x76\x9c\xb6\x70\xed\x1e\x40\x40\x96\xfa\x41\x83\x8d\x9f\x0e\x68\x82\x2a\xba\x3c\xfa\xd3\xe9\xf4\x3a\x2c\x50\x5b\xfd\xac\x4e\x15\xe8\xa2\xe0\x5d\x0e\x3a\xa5\xe2\xef\xa4\xc0\x80\x8d\x4d\x1e\x16\x9a\x1f\x89\xf6\x09\x9e\x54\x59\xcc\x4f\x1a\xdd\x0c\x5e\xe9\x9b\x77\xa8\x8b\x0b\x7e\xc9\xda\x2c\x78\x95\xe5\xcf\x12\x50\xb1\xf6\x29\x10\xcd\x6f\xf9\x0b\x0b\x6f\xf0\x13\xc8\xfe\x74\x02\xaa\x54\xe6\xd3\x88\x21\x6b\x65\x2c\x4a\x2a\x29\x78\x92\x52\xbd\x5a\xc9\x04\xcf\xe5\x23\x3e\x16\xf5\x11\x9c\xe1\x6f\x7c\x60\x96\x74\xf0\x8e\x3e\xe0\x23\x67\x99\x06\xe7\xe6\x33\xbe\xa8\x97\x1f\x96\x86\xa5\xf2\x63\x98\x6c\xa9\xdf\x8e\x5e\x09\xbe\xc5\xcf\x2f\xe1\x33\x8e\xde\xf1\xa3\xbd\xfe\xa9\x33\xbb\xb3\x3d\xda\xfb\xdf\x31\xed\xa0\x2f\x52\x15\xf2\xf6\x56\xcc\x55\x5c\x7d\x55\xaa\x6d\xa9\x57\xdb\x84\xb6\xa9\xd5\x36\x5d\x62\xd7\x61\x0f\x5c\x87\x95\x4a\x35\xee\x52\x99\xca\x72\xc2\x06\x2a\xc3\xba\xf0\xf9\xc8\x6c\x03\x48\x70\x11\x96\x71\x19\xa8\x6f\xa1\xba\xfe\x04\x3d\x4f\xf4\x5c\xdd\x66\x5b\xb5\x89\x2f\xd7\x95\xca\xc3\x12\xb7\x48\x87\x61\xa0\x17\xda\x86\xb8\x1d\x98\x9b\x68\x0b\x1b\x33\x92\x83\xb2\x28\x01\xc1\xf7\xb0\xaf\x26\xc8\xe3\x0d\x08\xa1\xd2\xe1\x72\x2d\x3b\xbd\xf2\x4c\xeb\x3e\xbc\x2b\x80\xc3\x6d\xce\x44\xcb\x5c\x2f\xe3\x55\xbc\x84\x46\xab\x75\xa0\xbc\x17\xc4\x1f\x00\x06\xa0\xbf\x08\x17\xc9\x2d\x94\xd9\xc4\x30\x3d\x84\x12\x60\xc7\x2e\xe3\xcb\x14\xab\xc6\xe9\x75\x76\x85\xdb\xbd\x56\xef\x18\x23\x58\x54\x41\x2c\x6a\xa4\x53\xf7\x80\x65\x00\x49\x98\x91\x0c\x7c\x28\x61\x47\x77\x99\xc4\x3a\xad\x9a\xa3\x0b\xad\x2c\xb3\x24\xd1\x54\xcf\x00\x14\xe0\x08\x84\x9f\xc9\x41\x3f\x6a\xb8\x02\x3f\xa0\x43\x48\xb0\x04\xb1\x49\x18\x4a\xf0\x58\xc5\x38\xc2\x1b\x4d\x23\xe9\xf0\x0b\x35\x74\xb1\x0a\x97\x7a\x68\x26\x90\x98\x6d\xac\x1f\x24\x6d\xb1\x31\xd5\xd4\x20\xb8\x00\x9f\x49\x7f\x40\x0f\x2c\xe2\x94\xc6\x69\x23\x2c\x3a\x13\x3b\x17\x28\x55\x6d\x8b\x14\xba\x8e\x3d\x46\x06\x97\xd0\x4d\x5d\x20\x62\x0a\x0d\xb3\xc1\x94\xba\xd3\x19\xd0\xbb\xe9\xe4\x7d\x6a\xfb\xa7\x23\x40\x80\xa6\x06\x43\x40\xd1\x04\x77\x77\xc0\x22\x20\xc4\x2f\x63\x75\x72\xaa\x6c\x99\x97\x3c\x65\xac\x96\xbf\x8c\xa5\x8e\x69\x45\xc1\x3f\xd3\xd5\xc0\x3c\x04\x52\xac\xb8\x18\x5d\x5a\x8e\x76\x37\x81\x02\x0c\x92\x58\x57\xf1\x95\xd3\xa8\xb7\xac\x3e\x29\x41\x69\xa8\x76\xf1\xf7\x1c\x05\xe6\xd1\xdd\xdd\x77\x19\x96\x01\xca\xc1\x5b\x86\xa0\xe7\x30\x18\x52\xcf\x57\x5e\xab\x04\x03\x53\xa7\xc8\x9c\x15\x9c\x8f\xa3\x65\x70\x2b\x3d\x43\x46\x75\xd0\xd3\x73\x64\x06\x1b\xf7\xa7\x13\xdc\x08\xa0\xe4\x17\xa7\x2a\x8d\x13\xa4\x30\x91\xf9\x82\xaf\x44\x64\x3a\xb9\x9f\x9a\x67\x86\x7a\xb0\x93\x27\x7f\x8e\x04\x60\x10\xcd\x70\xe2\x60\xbe\xc4\x65\xe6\x8e\x28\x2d\xe4\x2f\x41\x8d\xe0\x88\xde\x63\xe1\x23\xe5\x8e\x32\xbc\x1a\x1a\x68\xa4\xd5\xd7\xb3\x12\x07\xdd\xa9\xe6\x8a\x89\xdf\x9d\x6e\x1e\x33\xea\x1c\x92\xed\x9f\x25\x63\x18\xd8\x15\x75\x87\xd3\x62\x4d\x04\xe7\x31\x0f\x7b\x3d\x1d\x40\xfb\x23\x76\x44\x28\x74\xc6\xad\x33\xdb\x50\xe5\xda\xce\x5d\x19\xb4\x04\x88\x58\xc1\x32\xdd\x59\xeb\x4e\x1b\xce\x9b\x79\x7a\xcd\xd3\x31\xb9\x9f\xf2\x20\xf3\x9c\xb8\x73\x83\x9b\xe3\x93\x24\x39\xfb\xb4\xd4\x79\x45\xfb\x54\xc9\x2a\xd6\x8e\x14\xed\x50\x68\xb2\xc8\xda\xac\x17\x2b\x4d\x23\xe9\xa6\x1e\xbb\x20\x78\x19\x47\xa0\xb6\x6f\x60\x7f\x27\x2b\xf0\x7d\x69\xec\x42\x34\x82\xf2\x3c\xb9\x45\x15\x83\x6a\xb3\x42\xe2\x1b\x5b\x9a\xf6\x05\x0d\xd3\x76\x6b\xa7\x0d\xd7\x0b\x6a\x90\xd2\x68\x0d\xa0\xf7\x3a\xc7\x5d\x03\x35\xe7\xdc\x51\x5c\x4b\xd0\x43\x0b\x4d\x7b\x0d\xa8\x51\xa8\x06\x36\x6c\x8a\xc3\x0e\x34\xe1\xb9\xfe\xb4\x4c\xb6\x11\xbc\x21\x2b\x70\xa1\x91\x05\xde\x9b\xa3\xa0\x33\x1a\x5e\xcd\xd3\x5c\xcd\xde\x55\x61\xb5\x2d\x67\xf0\xe9\x0d\xd4\x9a\xf9\x76\xdd\x3f\x72\x16\xfe\x50\x7d\xd5\x33\x2a\xf3\x9a\x9b\x20\x08\xd8\xe0\x22\xe1\x89\x53\x79\x0c\xa2\xb0\x09\xf3\x0b\x7e\xf5\x81\x87\xff\xee\x1e\x67\xbd\xbd\x60\xfa\x34\xdf\x64\x32\x73\xc4\x68\x06\x06\xf6\xfd\x5c\xaa\x0a\x8c\x04\x09\x98\xe0\x6c\xfc\x8c\xac\x90\xb8\x12\x49\xcb\xd6\x1d\x4b\x1c\xbc\xce\xae\xf0\xb5\x61\xec\x42\x7f\xfa\xf0\x8d\xfa\x02\x1e\x92\x04\xe6\x61\x1a\x2f\xbd\x1a\xe1\xad\xbc\xd9\x99\x21\x61\x67\xf0\xab\x07\xe5\x57\x2a\xca\x60\x76\xd3\xac\x82\x26\x60\xf3\xfd\x06\xe6\x53\xbb\x13\x6f\x65\x87\x20\x3d\x32\xe5\xfb\x22\xcf\x91\x4e\x74\xa5\x3d\xc3\x01\xbd\xab\x3b\x00\x8f\x6b\xf6\xed\xf0\x21\x73\x25\xc8\x28\x08\x33\x16\xd8\x7b\xdc\x96\x21\x88\x6a\x73\xec\xb0\x9b\xbd\x1a\x15\x50\x66\xdd\x01\xaf\xb7\x88\xdf\x1c\xf4\xc9\x3d\x2f\x47\x14\xb7\x1f\xc2\x05\xf4\x2b\xaa\x65\x82\x1d\x29\x97\xba\x32\x12\x8c\x52\x6f\xc7\x90\x04\xf9\x66\xad\x53\xfb\x36\x73\x84\x56\x88\xb1\xec\xcd\x79\xad\xc9\x72\xd8\x72\x61\xc5\xde\x99\x90\x5d\x3c\x80\x8e\x00\xda\xc0\x2f\x02\x5b\x8e\xac\xde\xac\x63\x18\x32\xac\x5a\x42\xd3\x3d\x2c\xc8\x7e\x2e\xb5\x0d\x9a\xc9\x0a\xd9\xcd\xbb\xbd\x22\x15\xcb\x62\x3c\xef\xea\xe2\x1e\xf5\x3c\x1d\xea\xd7\x67\x6b\xa8\x0e\x53\x73\xe9\x27\x8d\x78\xa1\x97\x3a\xbe\x66\xdc\x47\x5d\x04\x62\x6e\xbf\x03\x00\x2c\xda\x92\x71\xa8\xd0\x0b\x03\x47\xed\xea\x47\x46\x51\x2e\x23\xb0\x14\xe3\x84\xa0\xa3\x59\x54\xe4\xd2\x11\xc8\x1b\x26\x71\x75\x1b\x8c\x29\x92\x46\xdf\x5d\x7d\x72\xf0\x88\xfe\xbf\xb6\xf9\x3f\xa7\x6d\x1a\x95\xe6\xea\x10\xe5\xb3\xbf\xb3\x62\x5f\x33\xf4\xbb\xb7\x6f\x9e\x31\xda\x3a\xd8\x0e\x45\x48\xe7\x54\x47\xd7\x6d\x59\x03\x83\x7a\x6f\x0f\xaf\x61\x31\x81\xf1\xa6\xd9\x84\xb8\x84\x2a\x6a\xc0\x30\x08\x6a\xb0\x58\x53\xf6\x6a\x52\x8e\xa9\x92\xe5\x6c\xe6\xc2\xaa\x68\xf8\x65\x02\xae\xc4\x30\xc3\x1f\x6a\x08\xe7\xb9\x74\x0a\x96\x38\xcf\x17\x1f\x86\x29\xa1\x5c\xf4\xbd\x7d\xaa\x41\xb4\xb4\x87\xdc\xbe\x14\xff\xd2\x79\x26\x48\xd4\x9f\x13\x18\x6f\xb6\x73\x8a\x20\x0a\x7a\xe4\x35\x1e\xdb\xfe\x40\x77\x7c\x72\x7a\xdc\xdd\xa9\xf3\xec\x87\xec\x06\x78\x6d\xf4\x80\xbc\x3c\x02\x13\x1f\x22\x47\xcc\xc7\x1d\x9a\x4c\x3b\x85\x16\x8a\x3b\xc2\x76\xa2\x9a\x3d\xb2\x9e\x1a\x8f\x24\xd9\x2e\xb3\x1e\xf9\x44\x1d\x31\x79\x4e\x0e\x73\xec\xba\x53\x42\x40\x32\x15\x38\x4b\x7b\x0b\x88\xc9\x83\x25\x1a\x83\x00\x7d\xc7\x87\x38\x6c\x0d\xfd\xc3\x9b\x6e\xdd\xd7\xb6\x05\x6d\x31\x7a\xff\x54\x5b\xbc\xcf\xdb\x9c\x43\xe7\x37\xb7\x5a\x9b\xe3\x0b\xf6\x6a\x73\x80\xc5\x23\xe2\x40\x7a\x31\xb4\xc4\x55\x81\x5a\xca\x61\x0f\xfd\x1a\x86\xab\xfd\x3b\xb9\xa7\xe1\x5b\xaa\x47\x75\x53\xbe\x72\xed\x9c\x31\x0b\x18\x0d\xa4\xdf\xd6\x04\xfe\x19\x89\xe6\x8e\x11\xd5\x1c\x44\x5e\x67\x28\x43\xae\x45\x75\xa0\x19\x9c\x7f\xa6\x05\x2c\x83\xcb\x82\xbe\x7b\x64\xa1\xc6\xd8\x9a\x40\x47\x56\xa8\x9a\x0e\xe2\x80\x2b\x48\x89\x6f\x71\x6a\xc8\x49\x84\x2e\x55\x5d\xa0\xf6\x24\xd9\x67\x9d\x69\x14\x42\x2d\x61\xc6\xd4\x25\xef\x19\xc0\xc5\xe2\x28\xca\x36\x21\xd8\x4f\x23\x85\x03\xf5\xa6\x88\x37\x61\x11\x27\xb7\xc6\xb7\xe5\x3a\xc2\x58\x3e\xc6\xfa\xe1\xfd\xdc\x95\x0b\xec\x0b\xbc\x6e\xd9\xdc\x6d\x53\xdb\x7a\x3d\xc8\xca\x96\x3a\xfb\x58\xd9\x76\x26\x3f\x8e\x4c\x13\xab\x9b\xbd\xa6\x69\x54\x33\xf5\xce\x13\xd7\x30\x45\x86\x26\x6a\xf7\x14\x98\x38\x65\x56\x6f\x85\x7d\xc5\xc0\xce\xde\x6b\x9e\x46\x3b\xd2\x37\x51\x7d\x6e\x90\xb1\x99\x2a\x73\x76\x88\xec\xed\x49\x6a\x78\x9f\xfa\x66\xeb\x7b\x9d\xa0\x4f\x7d\xca\x1d\xe8\xdd\x39\xfb\x75\xcf\x26\x52\x26\x86\x13\xbc\x7c\xee\xb7\x0b\x20\xbf\xa8\x41\xaf\xe6\xea\xba\x06\x7a\x1b\x8b\x50\xaf\x1b\xfe\x17\x0a\x45\x6b\x75\xa5\x6f\x69\xba\x23\xc4\x82\x8b\xac\x42\x14\x68\x5b\x91\x20\xae\xf2\xae\x7c\xb1\x3a\xb0\x28\xd8\x1d\x09\xce\x97\x50\x09\xc5\xd6\x22\x5f\xeb\xb3\x30\xcd\x00\xe7\x86\xc9\xf7\x3a\x8c\x74\xf1\x57\xa0\x2e\x26\x09\x36\x54\x66\xe2\x01\xae\xc4\xc2\x33\x24\x96\x4b\x6d\x1c\x1f\x1a\x4c\x1f\x90\x05\x6e\x19\xdf\xe3\x50\x9c\xda\xbe\xfe\x04\xaf\x29\x08\xc1\xda\x10\xfb\x7a\xf1\xf8\x83\xbf\xb3\xe0\x00\x77\xd0\xb3\x9a\x82\x80\x7d\x99\x3e\xa8\x46\xdb\xd3\x01\x40\x92\xdd\xcc\x07\x03\x49\xc0\x1d\x4e\x6d\x6e\x9e\x42\x0e\xe2\x37\x52\x8b\x70\x79\xc5\x79\x0d\xb2\x66\xd8\x3f\x8f\x7d\x4d\x35\x99\x64\x81\x7a\x41\xea\x55\x3c\xfd\x22\xae\xf1\x22\x46\x53\xcd\x4c\x81\x38\xb2\x61\xe9\x45\x71\x98\xb0\xb7\x3b\x09\x41\xee\x81\x5e\x86\x3e\x58\x2a\x54\xd3\x64\x01\x6d\x70\xe7\xe1\x6b\xde\x39\x03\x7e\x02\xc2\x97\x8e\xa0\x51\x2e\x64\xd0\xa8\x37\x00\x2d\xdc\x25\x27\x82\x89\xe6\x6c\x69\x38\x37\x03\x81\x1c\xc7\x55\x9d\x31\x21\xfe\x35\x1b\x19\x8b\xf4\x2a\x4e\x63\x0e\x7d\x61\x14\x8f\x89\x20\x47\xd8\x5a\x39\x9d\xbc\xd5\x97\x60\x53\x01\x5c\xec\xe7\xc3\x7b\x48\x35\x68\xd5\xfa\x1c\x8c\x4b\xb9\x22\x42\x96\xb6\xfb\x77\xd2\x30\x95\x60\x14\xc6\xbc\xc0\xc4\x4f\x73\x6b\xb7\xe6\x51\xd7\x8f\x30\xb9\xeb\xa0\x55\xc7\x98\xea\xc0\x56\x99\x1c\x5a\x05\x38\x1f\xf8\x81\x18\x0f\x22\x5d\x2e\x0d\x37\x48\xa7\xfd\x4a\x18\xbc\x80\x86\xd2\xfb\xfb\x0f\xf2\xdd\x96\x1c\x50\xaf\x35\xc4\x1d\xd8\x27\x1d\x88\xbb\x43\x5f\xb2\xbd\x3d\xc9\x9a\x10\xd8\x8e\x84\x47\x06\x2c\x91\xb1\x01\x6b\x51\xa5\x66\xa1\x5a\xa3\x68\xa7\x0d\xa0\x8e\x68\xd6\x7a\x06\xf5\x04\x83\x2b\xfd\xe3\x3d\xaf\x9b\x9c\xdc\x1b\x7d\x6e\x00\x39\x89\x15\xef\x97\xb4\x26\xa4\x41\x16\xb3\x02\x66\x9c\xd5\xe6\x95\xd6\x79\x09\x9f\x43\x5a\xa4\x85\x08\x21\x3a\x6f\x2d\x24\x67\x4a\x35\x22\xc7\xd9\x91\x85\x26\x44\x9f\xc3\x13\x6c\x9a\xf1\xab\xac\x42\xaa\xe6\x2b\x23\xd7\x52\xd4\xeb\xaf\x3d\x57\x3f\x37\xb7\x3d\x68\x27\x25\x39\x00\xa1\x8a\x84\x3c\xf4\x0c\xa7\x53\x89\x3a\xfa\xf5\xd8\x6f\x04\x54\x18\xf0\x37\x0e\x2a\xc6\x61\xc2\xbe\xd8\x4f\x36\xf0\x01\x50\xc1\x1a\x75\x1c\xfc\x0d\x83\x0a\x46\x72\xc8\xcc\x9e\xa8\x02\x8b\x5a\x04\x88\x58\xe7\x20\x5c\x91\x63\xf0\xa0\x0b\x2c\xdc\x69\xfb\xf5\x58\x70\x18\xb2\x1b\x28\x38\x0a\xd9\xf7\x04\xe3\x3b\x81\xe0\x28\x64\x6f\xcc\xda\x58\x3f\xfa\x91\x60\x5f\x98\x6c\x1c\xb2\x1f\x10\x18\x1b\x87\xec\xc2\x05\x21\x94\xf2\x3c\x73\x51\x60\xad\x4e\xda\xdb\xa8\x33\xe4\xdc\xe5\x11\x2a\x1e\x00\xae\x52\x5d\x7c\x30\x2e\xd3\x1d\xf4\xf6\x0a\x2c\x02\x96\x7c\xb4\x0b\x81\xd2\x3e\x97\x87\x71\x51\x37\x0e\x0f\xc5\x81\x7a\x55\xe3\x52\x62\x8f\x90\x28\x42\x53\xe3\x3c\x85\x66\x03\x46\x6d\x57\x7e\x20\x8e\x62\xff\x1b\x65\x9c\xa8\x13\x26\x6c\x7d\x48\xf4\x95\x51\x20\x41\x40\x76\x15\x32\xdc\xe5\xa2\x2e\xe4\x7d\x04\xfc\x9f\xd6\x10\xfa\x2f\xa0\xdd\x3d\x78\x36\xaf\x1f\xbd\xc1\x3a\x4c\x15\x1d\x51\xbe\x21\xe7\x40\x42\xf1\x43\xf2\x4c\xee\x0b\x0e\xbf\x3f\x3f\x7f\xf3\x39\x5e\x46\x4a\x77\xe0\x51\x4e\x49\xbc\x80\xff\x19\x06\x21\x01\xc4\xe2\x7e\x49\x39\x93\xdf\xa8\xe5\x3a\x2c\x4a\x5d\x9d\x6e\xab\xd5\xd1\x9f\x67\xd6\x39\x89\xad\x8a\xcb\xa5\x46\x95\x6a\x2d\x4f\x68\xcd\xee\x76\x5a\x22\xb1\x2c\x05\x88\xa5\x09\x5c\x01\x0c\xc5\xdc\x94\xd2\xf1\x54\x3a\xcd\xec\x74\x55\x36\x53\xa3\x9a\xae\x4a\x37\x69\x46\xdd\xd9\xbc\xaf\x80\xe8\x93\xcd\xd4\xf0\xe5\xf5\xb8\x2f\x87\xa9\xd3\xfc\xf7\xbd\x16\xff\x25\xb7\x81\x46\x41\xd9\x70\x5f\xf6\x57\x3a\x43\xb5\xc0\xea\x06\xba\xec\x7c\x19\xae\xf2\x64\x05\x6a\xc5\x6b\xbf\xa9\x9e\xd5\x53\xeb\x39\xd3\xec\x13\xa1\x6e\x2f\xf7\x72\x9e\x8a\x77\x8d\x1c\xa5\x30\x79\x6f\x60\xba\x60\xce\x0a\xd0\x4b\x15\x65\xfb\x62\x58\xb7\x5c\x86\x39\x06\x08\x00\x3d\xdf\x82\x10\xdc\xaa\x75\x96\x44\x98\x4f\x46\xb2\x14\x2e\x2b\x34\xef\x36\x14\x5b\xd9\x7e\x42\x84\xf9\x36\xdb\x62\x07\xfc\xe0\x7d\xa9\xb9\xb3\x11\x12\x06\x78\xe6\x80\x2e\x89\x27\xe1\x4e\x33\x30\x69\xb6\xe8\x02\xf3\x77\xd2\x4b\xc2\xcb\x5c\x2d\x78\xca\x8f\x24\x2c\xb3\x31\xf5\x28\x5e\x20\xc5\x31\xd3\x7a\xa1\x7e\x51\xe7\xd9\x7b\xcc\x4b\xbb\xbf\x9f\xf9\x01\xb1\xe1\x96\xc1\x07\xe7\x7a\x93\x27\x94\x8e\x0d\x25\x8c\x70\x0e\xe4\xe5\x11\x6c\x6e\xba\x7b\x85\xa3\x1e\x9f\xaf\x00\x5e\xec\x9e\xd3\x24\xc5\xbb\x9a\xc0\x58\xa0\x33\x16\xfc\x8e\xc3\x96\x0d\x54\xdc\xeb\xf9\x9d\xf8\xad\xb8\x87\xf3\x51\x54\xd0\xc6\x24\xfa\x38\x52\xc7\xf1\x51\xf6\x05\x93\x34\x9a\x48\xa7\x69\xf1\x27\x7c\x0f\x46\x16\x18\x90\xb0\x88\xc3\x6d\x52\xe1\xde\xc9\xe2\x86\xc4\x08\x84\xc2\xf2\x6f\x6b\x16\x30\x11\xd5\x22\x8b\xc8\x80\xc4\xef\x6c\x01\xa1\x25\x3f\xa3\x76\x66\xd6\xf8\xbf\xa6\xbc\x40\x20\x45\xcf\x03\xe2\xce\xf3\xd9\xc4\x04\xed\x42\x39\x08\x0a\x99\x45\x52\xff\xfe\xf8\x31\xd8\xab\x2b\x87\x5f\xc7\xa1\xcd\xab\x10\xb8\x25\xc6\xd8\xb8\xbb\x8e\xd1\x3b\xb1\xe6\xf5\xc9\x91\xcf\x85\x66\x6e\x39\x40\x8c\xe5\x6a\x84\xe7\x92\xa6\xfc\xb9\x9a\x3a\xf6\x22\x78\x09\xda\x72\x1d\x52\x6a\x9e\xe1\x7f\xc3\x8f\x50\x22\xcb\xed\x72\xa9\x75\x54\xb2\x39\xfc\x97\x77\xaf\x5f\x49\xa6\x7c\x64\xd2\xda\x6d\x94\x95\x78\x37\xec\x60\xb0\x7a\xb8\x5b\x9c\x86\x81\x07\x15\x8a\xb9\xb1\xd2\x6d\xcf\xea\x97\x0d\x6a\x80\x4c\x00\xd3\x87\x91\x19\x33\x56\xb9\xae\xbe\xe9\x83\x35\x36\xa3\x67\xae\x6e\x58\xa7\x36\xc5\x80\xe0\x0c\xce\x2a\x5a\x03\xb0\xfc\xdc\x21\x61\x65\xf6\x13\x67\x7d\xde\xd1\x2c\x9e\x20\x31\x33\xa1\xf7\xec\x7a\xde\xd4\x03\xc8\xdb\x36\x16\xf1\x9a\x63\x5b\xef\xda\x31\x0b\xcf\x53\x6a\x52\xaa\x9e\xb1\xb3\xdb\x12\x32\xf5\x70\xb8\x3d\xa8\xea\x14\x3b\x75\x76\x70\x12\xc6\x53\x4b\xce\xf8\x6c\x26\x37\x01\x8b\x0d\xe8\x27\x50\xaa\xde\x4c\xd4\xea\x11\xea\xd2\xd9\xdc\xdd\x40\xb9\x03\x6b\x23\x64\x2e\xff\x4d\xf5\x60\xe4\xb0\xee\x87\xf1\xad\x11\xd8\xaa\x81\x8c\xa1\x25\x35\x4a\x8f\x33\xa9\x5c\x9e\x9e\xeb\x04\xf0\x0c\x3e\x14\x1c\xe4\xf8\xe7\x84\x1c\xc3\x1b\xa7\xce\x93\x28\xf2\x5a\xb8\x06\xff\xa3\x35\x74\xc2\x39\xc6\x01\xcb\xcd\x0b\x44\xac\x69\x98\x38\x7b\x13\x75\x12\xed\xbd\xc1\xee\x39\xf2\x58\xf7\x90\x88\x9f\x2a\xf4\x18\xd8\xd7\x62\x80\xdf\x04\x24\x3d\xc2\x1e\x16\xf4\xed\x43\x0f\xa7\xc5\xb7\xa6\x29\xc9\x10\xab\xc9\xc2\x43\xaf\xcc\xc5\x07\x4c\x9b\xf6\x65\x51\xdc\xb1\x2b\xe4\x46\xb9\xb2\x66\x23\x1a\x46\x20\xdf\xa7\x22\x02\x48\x61\xae\x1e\xde\x00\x97\xad\x88\x07\x83\xa3\x32\xfe\x27\xf2\xfc\xe7\xaf\xff\xf3\x3f\x58\xd6\x12\x9d\x62\x1d\x5f\xfd\x17\xbf\x63\xc1\x01\x36\x4e\x15\xfc\xbc\x38\xc1\x87\x1f\x9a\xe9\x66\x18\x95\xa7\x71\x5b\x79\x33\xeb\x1f\x26\x59\xc3\x80\xfc\x09\x3a\x2b\x31\x1e\x9f\x23\xca\x52\x69\x96\x1e\x91\x32\x34\xf6\x03\x16\x04\x21\xc3\x36\x1b\x0e\x44\x49\xe3\x86\x7d\xc6\xbb\x61\xf2\x34\x46\xa4\x6c\xdd\xbe\x3b\x46\x3f\x95\x52\x0c\x7b\xd5\xdf\xb1\x95\x13\xd1\xb4\x7f\x17\xbd\x8f\xb3\x28\xa5\x40\x4f\x97\xab\x58\xf4\xbe\x11\x57\xd2\x68\xce\xe4\xd6\xd6\x0d\x7a\xcb\x48\xeb\xc8\xe9\xa4\x7d\xb2\xef\xc5\x3f\xe1\x34\x6a\x59\x65\xed\x3a\x29\x6b\xd5\x45\x7e\x2b\xa3\xa4\xe1\x9f\x93\x95\x61\x2d\x01\xeb\xbe\x58\xd7\x44\x7d\xe5\x4a\x9b\x6a\x66\x39\xae\x83\xba\x85\x81\xda\xf5\xba\x63\x04\x49\x5f\x1b\x24\x84\x29\x19\x42\x76\x2d\x53\xd2\xba\x85\xc5\x38\x84\x64\xc1\x88\x6a\x47\x0f\x59\x54\x27\xe8\x6c\xca\x4b\x36\x38\x11\xfb\x2a\x18\x07\x98\xf9\xe2\x76\x2a\xde\xef\x9b\xb5\x26\x9f\x75\x4c\xe6\x32\x40\xe9\x13\x58\x42\x61\x12\x22\xd8\x2a\x19\x62\x51\xca\x07\x66\xbc\x6c\x37\xe6\x61\x5c\x28\xf8\xb6\xe0\x29\x63\x52\xb7\xd5\x1a\x27\x5e\x27\x25\xe5\x0a\xa0\x32\x9c\x1b\x1f\x27\x6d\x3c\xd0\xc2\x3a\x2c\x99\x15\x14\x3b\xd9\x12\x9c\x1e\x79\xc8\x2a\xf9\x43\x01\x3f\x95\x25\x4c\xf4\x9c\x33\x83\x8c\x1d\xe8\x51\x37\x4d\x0a\x0e\x2c\xfc\x45\x96\x25\xed\x3c\x50\x46\x7e\x25\x60\x29\xa4\xf4\x56\xaf\x30\x51\x0a\x35\x01\x8f\x08\xbe\x0c\xd0\xa1\x54\xc4\x79\x85\xfb\x02\x1f\x01\x80\x29\x08\x9e\xde\x9e\x03\x7d\x04\x4e\x1e\x36\xcb\xea\x96\x6b\x9d\x76\x82\x95\x33\x58\x36\xab\x30\x91\xf4\x5f\x5c\x2c\x66\x15\x3e\x28\xa9\xa3\x69\x26\x75\x1f\x7c\x84\xa2\xed\x36\xb7\x49\x42\x0d\xf9\xdc\x45\x56\x54\xd0\xdc\x17\x1b\x80\x7c\xa5\x47\x35\x7d\xf5\xf0\xa1\xe2\x8f\xf8\xf0\x0d\x2c\x6f\xd8\xcd\x51\xce\x7e\xf9\x85\x69\x07\x2f\xca\x1f\xe2\xb2\x6a\x3e\x79\x19\xe6\x9e\xef\x0f\xf0\x2a\xa9\xa9\xd4\x54\x8b\x04\x34\xf6\x45\x83\x06\x3e\xe1\x07\x32\x1d\xf0\xc8\x19\x08\x4e\x1c\xa2\x53\x25\x3c\xaa\xdf\xc1\xf6\xc5\x8c\x07\x2f\xcc\xca\x85\xbe\x7a\xa2\x43\xbf\x51\x5f\x70\x61\x37\x87\xb6\x4e\x2a\xf2\x86\x08\xc0\x10\xc1\xca\x35\xbc\xcb\x5e\x92\xa5\xec\x85\xda\x90\x8e\xf2\xf9\x01\x6d\xa0\x44\x60\xde\x60\x07\x5e\x8b\x46\x46\xf3\x0c\x6a\xd9\x43\x53\x66\xef\x16\x2c\x8b\x9c\x3d\x49\x92\xec\xe6\x4d\x58\x54\x71\x98\x90\x6b\x95\x1a\x87\x17\x60\x3d\x90\x48\x91\xdb\xf2\xa4\xf9\xe2\x0c\x96\xc3\x2b\x5a\x11\xf8\xc6\xbc\x38\xdb\xc4\xd5\xfb\x34\xcf\xf2\x2d\xe2\xf9\xe8\xc4\xbc\x00\xfe\xd1\x64\xb7\x71\xf3\x9a\x39\x0b\x66\xa8\x3b\xee\x20\x8c\xc4\xcd\xbb\xa2\x88\xda\x79\x85\x80\x68\xae\x66\xcb\x6c\x9b\x44\xe9\x57\x95\x20\x41\x2b\x94\xb8\x4a\xe9\xdc\x98\x2b\x81\xb8\xbb\x51\x81\xd2\x55\x81\x34\x52\x6f\xc3\x1b\x11\x83\x91\x0d\x8f\xbb\xf5\x90\x49\x74\xb7\xbd\x5e\x86\xdd\x70\x3f\x37\xc8\xd3\x56\x5e\x20\x5f\x1f\x1a\xd3\xcf\x5a\x70\x6b\xda\x63\x45\x08\x5a\xab\x1c\xd2\x7c\x94\x74\x8c\x61\x17\x02\xc3\xa8\x6c\x44\xef\x34\x69\xec\x50\x3d\x73\xe5\x68\x1e\x07\x0c\xe0\x2a\xa2\x11\xf8\x11\xf0\x77\x24\x82\x4e\x5a\xaa\xb9\x00\xdb\x1a\xe2\x23\x2a\x5b\xdc\x96\x65\x02\xa8\x06\x8d\xc3\xa0\xf6\xea\x08\xbc\xed\x40\x47\xa6\xed\x74\x8c\x48\xb5\x11\xd1\xe7\x31\xa8\xfb\x22\x7a\x9f\xd2\x99\x45\x57\x42\xeb\x39\x76\x5b\x72\xe6\x5a\x7a\xdb\x48\x0b\xbc\x7b\xf0\xf1\x44\x3d\x28\xef\x45\xa8\xa4\x67\x30\x85\x1d\x79\x1e\x92\x0d\x23\x10\x9f\xa7\xad\xa9\x19\x47\x81\x22\xe1\x8d\xab\x16\xa8\x40\x43\x33\xdc\xf3\x9e\xc5\x25\x9f\x25\x3a\x2c\xe4\x9d\x2b\x97\xb5\xec\x2d\xb3\xfc\x96\x79\xe8\x95\x3b\x0a\xfb\x45\xec\x1b\xa6\x98\x09\x6d\xa1\xe8\xb7\x80\x8d\xaf\x2c\x96\x22\x7d\x35\x15\x0f\x0a\xcf\xf1\x4d\x9f\xf8\x95\xad\xc4\x51\xe8\x00\xe9\x5a\xa8\xd3\x12\x10\x22\xd1\xdd\xf2\x18\xb2\x93\x24\x5b\xd4\xce\x84\xc9\x2a\x30\x63\x5c\xee\x3d\xc6\x04\xce\xdb\x23\x3c\x89\xdc\x21\x2e\x9b\xe3\xeb\x26\x5f\x23\x04\xe9\x82\x97\x7e\xc0\xd2\x0b\x1c\xe8\x6c\x19\x0f\xa1\xa5\xb5\x73\xed\xa2\xa0\x3d\x12\x80\x20\xf8\x14\xb8\x66\x8b\x33\x03\x3b\x85\xc6\xa6\x85\x43\xac\x52\xc4\x65\x60\x76\x3d\xdc\x8e\x31\x29\x16\x36\x5b\xd2\x07\xf0\x78\x36\xe3\x21\xd0\xf5\xd9\x47\xb3\xca\xf3\x86\xf3\x4a\xf1\xa2\xa7\x23\x8d\xb3\xd6\xa6\xaf\xdd\x75\x80\x9c\x22\x31\xf3\xd2\xb6\x14\xcc\x1a\x0d\x07\xf0\xdd\x59\x37\x72\x7a\x3c\xc0\x90\x0c\xae\x30\xee\x1e\x54\x82\x1f\x0f\xfe\x74\x06\xbf\x8e\xbe\x6e\x88\xf4\xb6\x48\xc8\xdd\x74\x46\xfe\x34\x56\x5a\xce\x34\xfd\x88\x10\xd0\x9d\xa5\x6d\x2a\x9e\x37\x95\xb7\xbc\x72\xe8\x7d\xb1\xd1\x85\x7a\x72\x90\x82\x07\x23\x2f\x76\x3c\xbd\x06\x0c\xd7\x4c\x78\x36\x13\x24\xe0\xed\x1a\x5b\xed\x64\x45\xc3\xaf\xbb\x7b\x96\x66\xd6\x2a\x64\x78\x3a\x79\x22\x5b\xf4\xbc\x63\x6b\x3c\x19\xb5\x33\x01\xb5\x97\xf4\xf3\xbd\xf0\xef\x51\xe5\x3d\x4e\xf6\x58\x98\x7e\xd7\xb3\xab\x76\x26\xd7\xcc\xe9\xdc\x35\x6f\x9f\x86\x91\xf1\xab\x21\x4d\x31\x85\xa9\x97\xbc\xb9\xc1\x44\x23\xb3\xee\xbc\xe0\x4b\x77\xb3\x0b\xa3\x88\x97\x0c\x7c\x18\x5c\x2f\xe2\x47\x22\x68\x3f\x47\xcf\xb3\xc5\xf3\x32\x21\x86\x8a\x27\x36\x3b\x8e\x0a\x87\x5e\xe6\x6a\x17\xec\xb6\xdb\x9d\xb3\x64\x78\x6c\xc7\x16\xcd\xa8\x76\x47\x55\x7d\x25\x21\x17\x64\x82\x5c\x06\xce\x8e\xd1\xaf\x7b\x99\x21\x84\xab\x0d\xc9\xa4\x5e\xbb\x02\x49\xc7\x9d\x54\x82\xe5\xf8\x84\x02\xad\x0c\xf5\x44\xce\x73\xd6\xa4\xcc\x79\x04\x84\x48\xe8\xb9\xc2\xc3\xa9\x29\x55\xdf\x64\x05\x85\x7d\x2f\xe3\x6b\x78\x22\x06\x8d\x8c\x65\xcd\x86\x47\x6d\xd4\x81\x2a\xf3\x49\xb0\x01\x9a\xf3\x58\x82\x60\xf3\xd7\xa4\x3e\xf0\xeb\xc5\xe3\x0f\xac\x3a\x70\x3d\x1b\xee\x9e\xc9\x8d\x1a\x4f\xd2\x5b\x53\x08\xc4\x6c\x7e\x31\x13\x24\x01\xe4\x1a\x98\xb1\xe1\xfa\xa2\x46\x78\x47\x3d\xed\x4a\xb3\xe1\xea\x4e\xd0\x15\xd2\xf1\x6b\xb7\x8c\x94\x42\x1a\x32\xce\x34\xa0\x9d\x61\xd6\xc6\x1f\x48\xeb\x9d\x7a\x2e\x6a\x5a\xc4\xce\x8e\x55\xa1\x73\x8d\x80\x97\x75\x89\x99\x16\xba\xc0\x23\x4b\x31\x4d\x67\xb3\xc1\xb0\x0d\xbe\xc2\x93\xb7\xbc\x9a\xb3\xc2\xbc\x27\xa8\x16\x16\x45\x68\x6c\x44\xcb\x8f\x91\xde\xd1\x11\xe7\x32\x3e\x4a\xdf\xd7\xae\xec\xf1\x73\x23\x7e\xfc\xad\x9e\x8a\x66\x1e\xaa\x05\xc3\xb6\xd3\x17\x07\xa0\x60\x41\x46\xb6\x09\x50\x0a\x0f\x0d\xa1\xe6\x34\x81\x48\xd8\x16\x9c\xd5\x42\x83\x4b\x6a\xf0\x4a\x7b\x17\x56\x4f\x62\xef\x2c\x1d\x5f\xdc\x7a\xf1\xdc\x90\x70\x0e\x78\x18\x9a\x26\x48\xd9\xcf\xa7\x14\x03\xee\x48\xe2\xe2\x0f\x5d\x54\xc6\xbc\xc0\x2b\xbe\x2d\x00\xc5\x47\x6a\xb9\xce\xbd\x86\x0c\x75\xe0\x7c\x09\xf8\x30\x89\xab\x7a\x3c\x50\xb0\x67\x66\xb3\x19\xc8\xd3\xdd\x19\x8f\x71\xd2\x97\x76\x04\x64\x6c\x7a\xc7\x68\xe4\xa3\x9d\x2e\x40\x6a\xbc\x3f\xc3\x97\x48\xf2\x95\x33\x58\x07\xe5\xf5\x48\xfc\xec\x6e\x26\x40\x1d\xd4\x29\x30\xd2\xdf\x4a\x1e\x20\xcb\x84\xdc\x5f\xc0\x95\x79\x4a\x94\xc9\x3b\xb2\x23\x81\x74\xe2\x24\x7b\x8c\x76\xab\x37\x7b\xa0\xb3\x29\x0f\x64\x0e\x4c\x22\xbd\xc2\x00\x6c\x80\x1e\xeb\x80\x2e\x7d\xf0\x7c\x89\x93\x63\x56\x41\x9d\x48\xd0\xea\xab\x93\x55\x20\xb1\x33\x8a\x87\xda\x62\x48\x8f\x51\x26\xbd\x26\x3f\xa9\xc8\xa8\x5c\x32\xf1\x56\x87\x11\x18\x2d\x1e\xb7\xbd\xdf\x41\xdc\x8e\xe9\xcb\xbe\xcf\x02\xe3\x10\x26\x16\x84\x1d\x37\xa3\x3d\x33\x87\x8f\x9a\xae\xd7\xc7\x4c\x1c\x3b\x49\xb5\xf6\xee\xe5\x81\x36\xd9\xb0\x55\x36\x68\x97\x31\xbb\x66\x28\x06\x4d\x33\xf6\x3b\x93\x6b\xbb\x67\x45\xf7\x39\x9f\x87\xdd\xcf\xbd\x0e\x68\xe1\x63\x7f\xbc\xe4\x3a\x9c\x0f\xf5\x4c\xf3\x88\x4c\xfa\x71\x15\xbf\x43\x06\x6a\xb6\xee\x39\x99\xd0\x9a\x58\x0f\x29\x91\x85\xc6\xc3\xea\x17\x63\x13\xf5\x8a\xe4\x9c\x4e\x87\xa5\x7c\xcc\x4b\x12\x26\x8c\xac\xd4\x71\xcd\x29\xe6\x74\x54\xeb\x37\xb8\xc3\x95\x56\x7e\x6b\xe8\x7b\xd0\xe9\x71\xcc\xd7\xac\xa9\x21\x6d\xda\xf5\xf8\x2b\x69\xf6\xe0\xfd\xdb\x1f\x82\xbf\xe1\x43\x5a\x83\x58\xc1\x29\x32\x75\x23\xd4\xd6\xb0\xb3\xbd\x73\x16\x1b\x5f\x9b\x93\x9a\x62\xc1\x0f\x19\x87\x4d\xd5\x8c\xc6\x9c\xcb\x60\xa2\x21\xbf\xfe\x4e\xa7\xd4\xa8\x95\x2e\x8c\x5d\x37\xb2\x1a\x9d\xb4\xc6\x31\x16\x5e\xa7\x3a\x5b\x75\xf8\x00\x2d\xd2\xe1\x83\xba\xf5\x6b\x18\xb1\x83\xcc\x33\x6f\x50\xa7\xc9\x2e\x38\x6a\x1d\xc8\x1f\x0c\x77\xf7\xee\x09\x43\xa7\x09\x78\x07\x28\x4d\xec\xd7\x06\x63\x04\x3c\xb6\x63\xbd\x1c\xf9\x2e\x0e\x38\x29\xd0\xc3\x60\x9f\x76\xef\x8d\x9c\x0e\x1d\x1e\xb0\xd8\xfe\x8f\xe6\x20\x75\xb7\x84\x1e\xff\x68\x7d\xa8\xa1\x61\xb9\xf8\xfb\x18\x1f\x3f\xcf\x45\x7b\xda\x18\x20\x85\xbf\x9c\x52\xee\x61\x87\xfa\x5a\x1e\x89\xe0\xf4\xe5\xdb\x0c\x1c\xb8\x6a\xef\xb3\x43\xa7\x1e\x6a\xe4\x56\x38\x31\xa0\xd1\x73\x0e\xb4\x8f\x75\xce\x38\xa0\xa3\x64\x1d\x46\x5c\x77\xe8\x54\x03\xe5\xd2\x47\x98\x19\x15\x33\x84\xb7\x27\x51\x9d\x1b\xf6\x30\xce\x4f\x54\x0c\x86\x33\xb0\xc6\x1e\xa6\x40\x61\xc6\xcc\xbc\xce\x91\x8b\xc6\xa9\x09\x26\xd2\x3c\x3a\x31\x7a\x68\x62\xd7\x99\x09\x33\x42\xe4\x65\xba\x22\x18\x3c\x5a\xa5\xc5\x3f\x9d\x9a\xe8\xd2\x40\xe5\x85\xc3\xbd\x05\xbd\x68\x6f\x32\x5a\xae\x71\x4e\x02\x7a\x13\x26\x65\x86\x53\x20\x6b\x98\x37\x29\xb0\xa2\xa7\xe3\xad\x9b\x8d\xef\x08\xef\xfb\x9b\x8b\x12\x47\x77\x84\xbf\xab\xa2\x9d\x15\xf4\xe0\xa0\xcc\xa1\x12\x99\xf9\x9f\x7d\xc8\x03\x49\x7c\xfe\x21\x0f\xa7\x76\x9d\x8e\xd7\x73\xc6\x23\x65\x38\xcb\xda\x0b\xec\x81\x6b\xba\x71\xa4\x92\x51\xdb\x64\x15\x59\xdf\x98\x1c\x12\xa6\x78\x5d\xd2\x4f\x78\x1a\x3d\xe7\x8b\x99\xf8\x19\x5f\xd6\x04\x9b\x33\x01\xe4\xba\x91\x08\x10\x51\x46\x57\x94\x94\xb7\x65\xa5\x37\x73\x14\x2e\xa0\x95\xc4\x57\x3a\xb1\xe7\x44\xc8\x63\x38\x5b\x67\x65\x75\x42\x63\x57\x1f\x04\xa9\x7b\xe0\xd9\xa6\x6c\x28\x71\x28\xcb\xef\xf0\x23\x20\x18\x12\x30\x22\xc7\x41\xbb\x55\xfc\xc9\xb6\x08\x53\x49\x37\xc3\x89\x4d\x6f\xf8\x38\xe5\xc7\x27\xc7\xc7\x33\xf5\x6f\x76\x24\x48\x59\x6d\x5b\x8e\x2c\x00\x4b\x96\xda\xde\x87\x29\x11\x2b\x6c\xa7\x72\x61\x1e\x82\xae\x1e\x9b\x4a\x0e\x18\xf0\x59\xff\xd9\xab\x8c\x27\xd2\x49\x85\xe4\xdb\x2d\x58\x06\x28\xd5\x07\x09\xdd\x64\x05\xac\x49\x4e\xaf\x54\xb2\xd3\x93\xaf\xf6\x16\x6f\xdb\x24\xdd\xec\x9c\x6c\x99\xf9\xd3\x06\x7e\x3a\x28\xfb\x8e\x0c\x88\x96\x79\x27\x4c\xe3\x5b\x3e\xe1\xe2\x98\x82\xf0\x49\x7f\xea\xd6\x78\x6c\xea\x10\xc0\xef\xda\x4d\x63\x27\x5b\xb0\x25\x06\x9c\x23\xf5\x7a\x2e\xd1\x73\xce\xb8\xc8\xad\x0d\x83\x49\x81\x02\x68\x09\xbe\x82\xae\xf0\xb6\x8c\x45\x2d\x4a\x0d\x61\x93\x05\xf5\x81\xc9\x81\xa6\x68\x8d\x0e\x76\xa4\xf5\xb5\x32\x00\x1b\x99\x82\xcd\x0c\xbf\xf6\xa1\x96\x49\xfb\x5c\x8b\x41\xd9\xee\x45\x07\xbd\xc9\x7f\xe3\x47\x5d\x46\xe7\xdd\x1e\x79\xf9\xcd\x67\x7e\x28\x4d\x92\xe0\xcc\xf0\xd4\xce\xdb\x68\xb3\x2f\xd9\xb1\x3e\x67\x63\x23\x3d\x38\x8f\x0b\xbc\x73\xe2\x11\xae\x61\xf8\x36\x67\x1f\xba\x71\x62\x99\xc7\x74\xa6\x05\x71\x01\xf4\xe1\x11\x56\xe0\xaf\xb4\x5f\x88\x79\x50\xdf\x1f\x80\x6f\x04\xa8\x3c\xab\x3e\x99\x34\xfa\x77\x88\x6f\x97\x74\xc3\xc4\xb6\x90\xfc\x1a\x82\x0a\xb2\x70\x61\x39\x02\xd8\x4a\xf8\x64\x1a\xef\x73\xa0\xb9\x29\xa1\x1d\xec\x6e\xd0\xa2\x06\xbe\xca\xb6\xc4\x59\x90\xbc\xed\x6d\x0c\x84\x75\x6d\x68\xc4\x0a\x92\xa3\x12\x28\xf5\x2a\xab\xe4\xa6\x3c\x24\x89\xb4\x48\x53\xac\xc3\x6b\x30\xf1\xe4\x06\xdc\x71\x48\x42\xed\x2c\x28\xb3\x59\x2e\x8b\xa2\x1b\x71\x50\xf3\x1b\xd6\xf0\xde\x41\xc9\x7e\x0c\xcd\xc9\x41\x56\xfc\x14\x6c\xb3\x39\x96\xf6\xee\x0a\xe7\x2a\x2b\x3c\x30\x28\x1b\xae\x1c\x43\x68\x8e\x1d\x1f\x3d\x70\xa2\x6e\xc3\xfb\x81\x9b\xa6\xd3\x53\x48\xb2\xb3\x47\xae\x3a\xdb\x03\x1d\xfe\x66\x87\x0f\x2c\xe2\xc1\x40\x5d\x3b\x37\xaf\x79\x46\x80\x1c\x73\x84\x7f\x71\x03\x18\x38\x4a\xb5\x53\x61\xb7\x9d\x6e\xbd\xca\x66\xd4\xe7\xd6\xb6\xaf\xc4\xe1\xc6\x68\xac\xed\x74\x33\x1e\x1a\x69\xc6\x3d\x84\xe4\x1e\xdd\x6e\x3b\xdd\x9c\x7c\x39\x86\x79\x92\x03\x6b\xdf\xac\xe9\xde\x13\xf4\x4e\xfc\xe9\xf1\x63\x37\x19\x18\xec\x2c\xc9\x78\x25\x7b\x2a\x87\x21\x64\x36\xb1\x42\x4a\xb4\xd8\xb6\xa2\x05\x54\x55\x18\xf8\xa3\xe3\xab\xd4\x0b\x77\xfd\x49\xd6\x21\xc0\x68\x32\x61\x6a\x1e\x0d\x13\x3b\x9d\x82\xe6\x28\x51\x8f\x53\xb0\x77\xd8\xc7\x7d\x82\x5c\xe6\x70\xa7\xe0\x21\x4e\xbc\x53\xba\x36\xf6\xec\xf5\xb7\x83\x7e\x3c\xcc\x72\xa8\x13\x1a\x49\xe3\x90\xef\x88\x03\xa8\x8e\xe3\x6e\x4f\x9f\x60\x8f\x4b\xd0\x12\x9d\xf9\xce\xd9\x9b\xc2\x49\x20\x45\xc2\x8e\xdb\xe9\xf5\x5f\x77\xbb\x1d\x1b\xe9\xa3\x60\x6a\xcc\x1c\x99\x39\x51\x5f\x3d\x88\xbe\x22\x33\xa0\x6e\xc3\xb6\xcd\x4e\xd5\x32\xdf\x25\xcd\xd3\x83\xfd\x8c\x83\x6e\xc6\x21\x2f\xa3\x33\xb4\x3b\x7c\x8c\xc8\x70\x8f\x8f\xb1\x33\x42\xee\xa0\xb4\x4e\x26\x3d\xac\x2f\x1b\x98\xb4\x6e\x1b\x70\x14\x50\xfb\x50\xe0\x1e\xf1\x81\xdd\xd1\x01\x06\x04\x0d\x0f\xd0\x61\xf1\x81\xce\x71\xc2\xa9\xb5\x76\xc5\x1d\x04\x75\xf6\x0e\x09\xd0\xad\xae\x7c\x24\xa1\x80\x15\x54\x2a\x6c\x88\x0c\x13\xd8\x97\x27\xb2\xfb\x35\x36\x5f\x0f\x31\xc1\xdc\x04\xe0\x50\xd5\x90\xd3\xd7\xa8\x82\x3d\xba\xb5\x47\x7c\x60\xe0\xb8\xa1\x75\x1d\x8d\x1d\x30\x1c\xf3\x98\x1b\x2f\x26\xd4\x23\x71\x70\xb7\xa8\x41\xf3\xb7\x5d\x6e\xd8\xbe\x66\xcf\xc3\x3b\xcd\xc6\x67\x2b\x69\x41\xd6\x9b\x4d\x1d\x15\x5f\x2e\x25\xc3\x88\xf5\x46\x67\xec\x6c\xec\xb4\x79\xb7\x58\xc9\xd7\x0c\x34\xfc\x9b\xd8\xea\x3b\x7e\x6e\x1d\x9c\xa6\xe0\x7d\xfb\x66\x36\x84\x89\xb3\xe3\xd9\xb8\x8b\xb8\xf6\x0e\xf7\x59\x81\x39\x7b\x11\xc6\xeb\x0f\x66\x03\xda\x55\xcd\x23\x43\x09\x0c\x86\x22\x41\x02\x1a\xc9\xb7\xe1\x8d\x80\xcf\xad\xf9\x6c\xdf\xd9\x17\xf4\xb4\x39\xda\xed\x90\xbc\x0d\xf4\xf7\x79\xb2\x9d\x71\x1d\x72\x5c\xab\xfa\xca\x82\xfd\x7c\xc6\x54\x0e\xd7\xc3\x97\x6e\x96\xab\xf2\xea\xaa\xdf\x65\x74\x28\x51\xfe\xec\xc2\xcc\xb7\x46\x21\x05\x29\x67\xd6\xed\xfc\x37\xeb\x63\x97\x6b\xdf\xea\x50\x28\x85\xa4\x41\x00\x03\x5b\xf8\x19\x14\x49\xea\xfb\x65\x65\xca\x31\xbf\x0c\x4d\x18\x97\x15\x69\xae\x7b\xa8\x62\x88\x9e\x89\xc6\x38\x09\x13\x23\x4c\xce\x55\x33\x2f\xef\xce\x6d\x1f\x9d\xb1\xf7\xf7\x0f\x22\xd0\xb5\xc0\x1a\x7c\xba\x16\xad\x3b\x43\x60\xe8\x58\x77\x96\x7d\xe1\xb6\x8e\x24\xb7\xf2\x49\xe6\x7c\x56\x78\x84\xa1\xbe\x40\x54\x53\xce\x1b\x6d\xca\x19\xc0\xd6\xb7\xb6\xb5\x29\x52\x93\x61\x64\x61\x28\xd6\xd0\x15\x1d\x2a\x3e\x26\x3a\x86\x6c\x6e\xd7\x38\x57\x31\x47\x19\x0f\x18\x0d\xa6\xf1\xbb\x0f\x87\xbb\x60\xa9\x2d\x90\x51\x11\x14\xde\x03\xe8\xb0\xe3\xae\x30\xac\xb3\x80\x09\x6b\x75\xd4\xe5\x61\xe1\x50\x37\x02\xc7\x87\xb6\x60\x58\x7e\x5d\x00\xce\x46\x7e\x76\x05\x29\x86\xa3\x14\xc3\x61\x8a\xe1\x38\xc5\x60\xa0\x82\xaf\xae\xec\xc9\xe5\x76\x42\x15\x1c\x87\xfd\x6c\x45\x2d\x69\xdb\x34\xf4\x92\xb2\xad\x1e\x5c\xcf\x4c\x7c\xd7\xaa\xeb\xa7\x7c\xbe\xac\xfd\x37\x1a\x3c\xfe\xb3\x0f\x00\xa7\x9f\x6e\x57\x80\xdb\x39\xfb\xc7\x39\xab\xa9\xdc\x78\x99\x49\x7d\xe9\x5e\x5c\xbd\xf3\xfa\x4a\xfb\x77\x2c\xf6\x75\x48\xbf\x7a\x72\xfe\xee\x33\xaf\xaf\xa4\x6a\x58\x5f\xb1\x11\x6f\xbf\xcb\x1d\x3f\xf4\x27\x4a\xf8\x76\x9f\xb2\xb8\xe6\xef\xf6\x5e\x72\x81\x2d\xdd\x2b\xd1\x27\xfb\xdd\x89\xde\xbe\xdc\xe6\xdd\x76\x61\x67\x1f\x9b\xc7\xc5\xbe\xd5\xf0\x14\x33\x6a\x17\x7c\x67\x68\xe7\x96\xf4\xa0\x79\x91\x68\x6f\x99\x19\x71\x1f\x74\x2e\xd4\x7b\x59\x5e\x52\x3f\xfd\x7d\xd1\x03\x81\xac\x36\xcf\xce\xd5\x30\xce\xe4\x37\xaf\xe4\xc7\x23\xf2\xce\x34\xed\x7b\x4d\x28\xcd\xcc\xee\x6b\x42\x6b\xca\x3b\xcf\xde\x37\xfe\x34\x4a\x60\xc7\xd6\x9e\xbf\x77\x66\x78\xe0\x7a\xd0\x71\x0a\x12\x6d\xfb\x9c\x5b\x42\x27\x43\x94\x1b\x27\xed\xf9\x37\xf6\x98\x4f\x7e\xfd\xee\xd7\x8b\xd6\x03\xb2\xdf\xf5\xa2\x8d\xbb\x45\x9b\x5d\xc2\xd3\xe6\xb6\x57\x07\xdd\x2f\x8a\xfd\x1d\xb8\x7c\xc9\x1a\x5d\x9d\x32\x8e\x1f\xba\x2e\xd1\x77\x0e\xfd\x80\x0b\x48\x1d\xf1\xf8\x55\x17\x90\x3a\x74\xec\x71\xc2\x83\xfe\x20\x06\x6c\x37\x8f\x86\x04\xa6\x73\xb7\xe8\x81\x57\x58\x3a\xde\x1f\x1e\xd4\xd6\x3d\x32\xfd\xf7\xa2\x94\x97\xa2\x2f\x41\xad\x0c\x3b\x7d\xba\x19\x5f\x7d\x57\xc7\xfc\x01\x4e\xa5\xe0\xd9\x99\xe7\x7c\x0a\x09\xaf\x1b\xfd\xe6\x80\xbb\x46\x1f\xee\x75\x45\xe5\xb4\x21\xb9\x3b\x12\x46\x68\x60\xf7\x48\x18\xa1\x04\x91\x6c\xf1\x0f\x0c\x84\x8a\x0f\xa0\xb4\x72\x61\xae\x94\x7c\x89\x77\x5c\x90\xdf\x33\x23\x01\x94\x3f\xa8\x47\x41\xf5\x2d\xb6\x8d\xce\x47\x4a\x19\x47\x9f\x79\x19\xa3\x3e\x96\x3b\x13\x1a\x79\x24\x3d\x7c\x0f\x5d\x18\x8b\x77\x3d\x99\x20\x29\xd4\x77\x37\xd6\x7f\xb1\x7c\x92\x5d\x07\xee\x7e\x4d\x42\x89\x91\xa9\x65\xf0\x66\xbb\x48\xe2\x72\xed\xc9\x3d\x57\x84\xb5\x1c\x15\xc4\x07\x91\x25\x62\xe1\xdc\x00\x66\xfc\x2b\x9c\x5b\xb1\x82\xcd\x14\xef\x63\x38\xe7\xcb\x1d\xae\xb4\xad\x22\xf7\xe4\x13\x39\x39\x5e\x3a\xb7\x37\x53\xc2\x13\x3b\x27\x92\x67\x51\xe7\xb3\xc7\x55\x50\x6b\xb0\xf6\x79\x68\xfe\xde\x3d\xbb\x3d\xfb\xfb\x74\xf2\x92\x19\xc0\x93\xb6\x30\x03\xf2\xee\xbf\x9b\x07\xbb\x5b\x9b\x5b\xff\x22\x70\x2f\xfd\x68\x38\xc8\xea\x3b\x27\x42\xb9\x7f\x6b\x9f\xd5\xd0\x16\x68\xbe\xe5\x61\xfc\x4e\x89\x11\x79\xe6\xe3\x55\x24\x23\xcd\x6b\x1e\x1a\x79\xf6\x76\xf0\x7a\xee\x97\x98\x2b\x1e\x2a\x16\xba\xe6\x6d\x13\x67\x7d\xe2\x43\xa2\x33\x26\x33\x07\xe0\xe8\xcf\x4f\xec\x70\x6a\xef\xb8\xbd\x13\x3b\xff\xbf\x7d\x7b\x67\xcd\x5d\x17\xd9\x0f\xc2\x43\x19\xd0\x1a\x1d\xee\x93\xb7\xd1\x7f\x49\xe6\xbe\x16\xc1\x81\x37\x64\x9a\x34\x82\xc1\x5b\x32\x3b\x00\xcc\xf6\x49\x92\x08\xec\x55\x99\x9c\x4e\xb0\xc3\xbe\x98\x3a\x79\x02\x0d\xed\xef\x26\x07\x0c\x40\xb6\x46\x5a\x40\x3b\x2b\xa0\x9d\x14\xd0\x48\xc2\xfc\xc3\xdc\x76\x49\xf6\xc8\xe7\xde\x09\x39\x30\x20\xbd\x4a\x6e\xbf\x3b\x21\x0d\xda\xfa\xdd\x6e\x7f\x1c\x60\x79\x0f\x00\xa8\xc6\x11\x20\xee\x4c\xdb\xc2\xd9\x44\x46\x0e\xc1\x38\x40\x4c\xaa\x75\x8e\xbe\xc8\xf3\x40\xf6\x98\x1e\x78\x66\x22\x81\xa6\xa4\x5c\x45\x62\x4e\xe7\xb4\xc2\x65\xbd\x97\x4f\xfe\xd1\x30\x69\x5f\xbc\x6c\x1c\x94\xf6\x5f\xc5\xed\x0a\xb5\x40\xd3\x7e\x64\xda\x1b\xbd\x6a\x00\xd3\xd6\x65\x98\xe6\xef\x21\xeb\xb2\x91\xec\x38\xb2\x3b\x63\xe7\x8c\xae\x07\x29\x6a\x43\xd5\x23\xe2\xf5\xb7\xc1\xab\xfb\x9a\x32\xbb\x82\x56\xff\x7a\xf8\x54\x82\x6b\x87\xc3\x53\x23\x7e\x78\x51\x2e\xfc\x6a\x1d\xac\x34\x32\xf5\x3f\x61\xe5\xb2\xe2\x8c\x7c\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 31872, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xfe, 0x27, 0x22, 0xe0, 0x7f, 0x2f, 0x50, 0x3e, 0x6c, 0xf4, 0xb2, 0x60, 0x9d, 0xcd, 0x1d, 0xb5, 0x60, 0x69, 0x2e, 0xaf, 0xad, 0x2d, 0x30, 0x15, 0x41, 0x6c, 0xd7, 0x5e, 0x4b, 0x5, 0x2e, 0xc1}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 31884, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xf2, 0x5b, 0xe5, 0xb4, 0x74, 0x38, 0xa2, 0x8, 0xf8, 0xee, 0x8d, 0x82, 0x38, 0xc4, 0x4, 0x4e, 0x40, 0x8b, 0xa4, 0xbe, 0xfa, 0x4b, 0x6e, 0x58, 0xb0, 0x5f, 0x1f, 0xd7, 0x79, 0x7a, 0xa2, 0x26}}
 	return a, nil
 }
 
@@ -118,7 +118,7 @@ func cmdNameMainGoTmpl() (*asset, error) {
 	return a, nil
 }
 
-var _cmdNameClientMainGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xbc\x56\x4d\x6f\xe3\x36\x10\x3d\x8b\xbf\x82\x25\xbc\x0b\xaa\x75\xe8\x45\xb0\x7b\x59\xc0\x87\xb5\x8b\xee\xe6\xd0\xc0\x48\x8c\xf6\x90\xe6\x40\x53\xb4\x4c\x84\x26\x15\x8a\x4a\x52\x08\xfa\xef\xc5\x50\x92\xe5\xcf\xd8\x75\xd2\xfa\x22\x82\x63\xbe\x37\x6f\xf8\x66\xa4\x8c\x8b\x07\x9e\x4a\xbc\xe4\xca\x20\xa4\x96\x99\x75\x1e\x53\x14\x11\x61\x8d\x97\x2f\x9e\xa0\x88\xcc\x35\x4f\xe1\xa9\x2d\x3c\xca\x52\xcd\xb1\x7c\xc4\x6c\x6c\xcd\x5c\xa5\x6c\xea\xb8\xc9\xc3\x31\xc2\xb5\x26\x98\x18\xee\x73\x82\xab\x0a\x45\x24\x55\x7e\x51\xcc\x98\xb0\xcb\x01\xec\x5e\x28\x1b\x9e\x2c\xb5\x01\x48\x9a\xa4\xaa\x10\x8a\xb2\x19\x26\x65\xc9\x26\xa3\xab\xc0\x3f\xe1\x7e\x81\x2f\xaa\xea\x14\xb2\xd4\x65\xa2\x25\xb3\x36\xd5\x92\xa5\x56\x73\x93\x32\xeb\xd2\x41\x08\x76\x44\x31\x42\x4f\xdc\x81\x3a\x08\x7c\x4b\x12\x87\x73\xef\x94\x49\x51\xb4\xf0\x3e\xdb\xd8\x80\x34\xd7\x37\x62\x84\xe6\x85\x11\x58\x19\xe5\x69\x8c\x4b\x14\x41\x55\xd8\x6d\x88\xfe\xc1\x1d\xfd\xd8\x62\xf6\xeb\xa4\x18\x4f\x12\x47\xfa\x98\x7c\xfd\xf2\xe9\xf3\x27\x58\xa4\x37\x93\x31\xa6\x3f\xa6\xd3\x49\x8c\xb5\xca\xbd\x34\x18\xfe\x23\xf3\x9c\xc4\xbb\x70\x6d\x46\x7d\x4c\x60\xb9\x0e\xf7\x25\xc0\x01\xd0\x09\x38\xad\x90\x7e\x7d\x31\x1d\xce\xe7\xcb\xcb\x4b\x58\x5c\x7f\x9b\xde\xee\xe2\x54\x8d\x5e\xf0\xc5\x9a\xde\x09\x77\xb9\xa4\x31\xd4\xf4\x59\xf9\x05\xee\x79\x89\xbf\x0e\x31\x0b\x37\xd0\x5e\x56\xcf\xcb\x13\xee\x6b\x30\xc0\x23\xee\xac\xc1\xdf\xa1\x2e\x63\xad\xa4\xf1\x28\xd2\x36\x65\x13\xa7\x8c\xd7\x86\x92\x3b\x08\xb1\xb2\x04\xc0\x5b\xe9\x9e\x94\x90\xec\x9a\x2f\x65\x55\xdd\x83\xd4\x4c\x1b\x48\x45\x58\x63\xfa\x58\x3a\x07\x99\x84\xd2\xff\xaa\xb8\xa6\x28\x5a\x5d\x73\xbf\x59\xb3\x3f\x95\x5f\x5c\x99\x5c\x8a\xc2\x49\x1a\x6f\x6c\x8f\xb4\x15\x0f\x61\x2f\x46\x11\xe8\x70\x0e\xff\x34\xc4\x46\x69\x10\x1f\xf2\xfa\x8d\x7b\xae\xa9\x74\x2e\x46\x51\x85\xa2\x44\xce\xa5\xc3\xc0\xce\xc6\xda\xd6\x65\x99\x81\x22\xc8\xba\xd6\xb3\x4a\x2b\x9b\xb1\x6b\xf9\xdc\x05\x28\x1c\x3b\x95\xa8\x2c\x1d\x37\xa9\xc4\x3d\x05\x50\xeb\xc5\xf8\x5d\xfa\x85\x4d\xf2\xa6\x9c\x07\xab\x05\x9b\xaa\x59\xa3\x08\x58\x84\x7f\x01\xac\xa6\xc9\xd9\x88\x8b\x87\xd4\xd9\xc2\x24\x20\x22\x82\x2e\x51\x06\x92\x2e\xcb\xef\x16\xce\xe1\x9e\x62\x37\xf2\xb1\x90\xb9\x9f\xfe\x9d\xc9\x15\x56\x64\x8b\x4e\xe4\x96\xf8\x8d\xc3\xf5\x01\x2a\xfc\x4b\x1f\x7f\x54\x20\x7d\x8f\xf6\x4e\xfc\x9c\x92\xbb\xe0\x0e\xd6\xe1\xdd\xe3\x03\xda\xb6\x59\x00\x76\xf8\xe1\xe9\x2f\x43\x42\x6a\xc0\x55\x35\x95\x0d\xd6\x7a\x1b\xb8\x93\x79\xa1\xfd\xf0\xc3\x2f\x35\xc1\xcf\xb6\xf0\xc0\xd0\x98\xb1\xea\xc6\xcd\xda\x80\x0b\x9d\x01\xf0\xd0\xb4\x3f\xa4\xce\xa4\xdb\xba\xbb\xba\x15\x42\x4f\xef\x6f\x05\x08\xdd\xdf\x1d\xeb\x85\x95\x55\x96\x01\xbd\xf5\xcb\x41\x5a\x08\x1c\xb4\x4c\x8d\xf1\x46\xdf\x34\x20\x6b\xe6\x09\xbe\x09\x5e\x01\xf6\xbd\x8d\xd2\x05\x68\x3b\x07\x8f\x39\x86\xae\xdd\xf4\x8e\x29\x3b\xbc\xdd\xcc\xce\x76\x66\x07\x7a\xd4\x3c\x1b\x54\xa7\xdb\xf3\x6c\x86\xd7\x3d\xfa\x9a\x49\x8f\x8c\xef\xf0\x6e\xdf\xb0\x6c\x78\x7d\xec\xb7\x2c\x84\x8e\x4e\x6f\x23\x56\x57\x15\xde\x4f\x63\x6b\x8c\x14\x9e\xb6\xef\xad\x7f\x37\x8d\x8d\xd8\x9a\xc5\x90\xc3\x5e\x8b\x75\x01\x6a\xc4\x7b\x4f\xe2\x83\xca\xff\xcf\x49\xdc\x29\x7c\x9f\x49\xdc\xe1\xfd\x07\x93\xf8\x1c\xf0\xf3\x26\x71\xbd\xaa\xea\xcf\x9b\xf0\x5f\x50\xbc\xe1\xdc\x8b\xf7\xfe\x85\x0f\xaa\x7f\x02\x00\x00\xff\xff\x06\x3c\xfd\x90\x6b\x0b\x00\x00")
+var _cmdNameClientMainGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x02\xff\xbd\x56\x4d\x53\xdb\x30\x10\x3d\xc7\xbf\x42\xf5\x00\xe3\xb4\x41\x61\x18\xb8\x30\x93\x03\x49\xa7\xc0\xa1\x4c\x06\x32\xed\x81\x72\x50\x1c\xc5\xd1\xa0\x48\x46\x56\x80\x8e\xc7\xff\xbd\xbb\xb2\x13\xdb\xf9\x80\x34\xd0\xe6\x62\x65\x57\x7a\xbb\x6f\xf7\x69\xed\x98\x85\x0f\x2c\xe2\x64\xca\x84\xf2\x3c\x31\x8d\xb5\xb1\x24\xf0\x1a\x69\x2a\xc6\x84\xde\x72\xf3\x24\x42\x4e\xbf\x73\x3b\xd1\xa3\x24\xcb\xbc\x86\x1f\x6a\x65\xf9\x8b\xf5\x71\x0f\x57\x23\x67\x1b\x4b\x16\x81\xc1\x97\x3a\xf2\x8b\xb3\x4c\x8d\x56\xce\x93\x80\x3f\x12\xda\xd3\x6a\x2c\x22\x3a\x30\x4c\x25\x2e\x9c\xcf\xa4\xf4\x89\xaf\x98\x4d\xfc\x26\x71\x80\x91\xb0\x93\xd9\x90\x86\x7a\xda\x46\xf3\xa1\xd0\xee\x49\x23\x5d\x89\xfb\x4a\x96\xf1\x90\xf8\x69\x4a\xfb\xdd\x2b\xc7\xa8\xcf\xec\x84\x1c\x66\x59\x35\xe9\x1d\xb3\x8c\x4c\x1c\x2e\xb2\xd4\x3a\x92\x1c\x92\x92\x4c\x45\x54\x9b\xa8\xed\xbc\x65\x90\xa6\xe7\x3d\x31\x83\xf5\x44\xc7\xf9\x68\x64\x48\x62\x8d\x50\x91\xd7\x98\x58\x1b\xd7\x0c\xc8\xaf\x6a\x80\xb3\xe3\x99\x0a\x89\x50\xc2\x06\x4d\x92\x7a\x0d\xac\x32\xbd\x75\xde\x1f\xcc\x04\x07\x73\xcc\x56\x9e\x15\x65\xb0\xf6\xe1\xcf\xd9\xe9\xd1\xc9\x11\x2e\xa2\x9b\x7e\x8f\x04\x97\x83\x41\xbf\x49\xa4\x48\x2c\x57\x04\xf7\xf0\x04\xea\xbc\x0a\x37\xcf\x08\x0e\xe2\xb2\x0a\x77\xea\xe0\x10\x68\x0b\x9c\x39\x91\x56\xde\xd2\x12\xe7\xe4\xf8\xf8\x18\x17\xd7\xe7\x83\xdb\x55\x9c\xac\xe0\x8b\x4a\xac\xf0\xed\x33\x93\xf0\xa0\x89\x35\x7d\x06\x51\x90\x3d\xcb\xc9\x59\x87\x50\x52\xeb\x21\x58\xd7\xb6\x11\xed\x5b\x74\xb2\xdd\x26\x5d\x66\xb4\x22\x17\x58\xb1\x9e\x14\x5c\x59\xaf\x01\x6a\xa6\x7d\xa0\x65\xa5\x0a\xfc\x3b\x74\xd1\x34\xad\x46\xba\x66\x53\x9e\x65\xf7\x58\x84\x18\xf6\xc0\x03\x2e\x87\x6a\x11\x6e\x0c\xe6\xe8\x9a\xf2\x55\x30\x09\xfd\x5f\x08\xa0\x55\xac\xe9\x4f\x60\x73\xa5\x12\x1e\xce\x0c\xf0\xab\x99\xbb\x52\x87\x0f\xce\x06\x90\xc0\x10\xf1\x3e\x75\x88\x12\x12\xcb\xe2\xf2\xfa\xc6\x2c\xe0\x82\x03\x76\x00\x81\x11\x1f\x73\x43\x30\x3a\xed\x49\x9d\x17\x6c\x88\x8c\x30\xeb\x9c\xcf\x22\xad\x78\x48\xaf\xf9\x73\xe9\x08\xf0\xd8\xb6\x81\xd2\x14\xca\x08\xf3\x62\x4f\x20\xd4\x9a\xb2\x17\xe5\xdc\x58\x2d\x34\x8a\x62\x0d\x70\x10\x25\xb4\x2f\x88\x55\xcc\x15\xda\x85\x89\x14\x19\x3d\x53\x23\x24\xd1\xc0\xfb\x23\x14\x26\x9d\xa6\x17\x1a\xcf\x41\x6c\x7a\xc3\x1f\x67\x3c\xb1\x83\xdf\x31\x5f\x60\x35\xf4\xac\x24\xb9\x44\xbe\x76\x38\x3f\x10\x40\xdc\x16\x39\x10\x48\x7d\x0d\xf7\x92\xfc\x18\x9a\xef\xd4\x41\x4b\xbc\x7b\xb2\x81\xdb\x72\x14\x84\xed\xec\x3f\xfd\x52\xbe\x4b\x0d\x63\x65\x45\x65\x9d\xb4\xde\x07\x0e\x57\x67\x26\x6d\x67\xff\x4b\x1e\xe0\x33\x54\x00\x23\x14\x62\xcc\x6a\xd3\xae\x36\x33\x11\x1e\xaf\xf3\x25\x97\x31\x37\x4b\xbd\xcb\xaf\x82\xbb\xed\xeb\xaf\x02\xba\xee\xef\xde\xba\x0b\x0b\xa9\x4c\x1d\xfa\x5c\x2f\x1b\xc3\xa2\x63\xa3\x64\x72\x8c\x77\xea\xa6\x00\xa9\x88\xc7\xe9\xc6\x69\x05\xa3\xaf\xbd\x28\xa5\x23\x98\x4f\xc8\xb7\x14\x13\x54\x3a\xbd\x22\xca\x12\x6f\x35\xb3\x9d\x95\x59\x82\xbe\x29\x9e\x5a\xa8\xed\xe5\xb9\x73\x84\xd7\x35\xfa\x9a\x48\x77\x1d\xec\x95\x0f\x89\x85\x9a\xdd\x3b\x67\xbd\x9a\xd1\xf5\xe6\x60\x57\xe1\xa2\x8b\xee\xa5\x06\xb1\x15\x0f\x6d\x30\x7f\xd9\xfd\xdd\xa0\x56\xe1\xd2\x98\xc6\x1c\xd6\xaa\xaf\x74\x04\x2a\xfc\xe8\x21\xbd\x91\xf9\xff\x1c\xd2\x25\xc3\x8f\x19\xd2\x25\xde\x3f\x18\xd2\xbb\x80\xef\x36\xa4\xf3\x55\x96\x7f\x13\xb9\xbd\xc8\xb8\xa6\xdc\xc3\x8f\xfe\xb9\xaf\xb0\x3f\x08\xde\xea\x63\x12\x0c\x00\x00")
 
 func cmdNameClientMainGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -133,8 +133,8 @@ func cmdNameClientMainGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "cmd/NAME-client/main.go.tmpl", size: 2923, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xc2, 0xcd, 0x51, 0x79, 0x9a, 0x4c, 0xcc, 0x37, 0xb0, 0xb7, 0x60, 0x7c, 0x1d, 0x9f, 0xa5, 0x53, 0x53, 0x2e, 0xf6, 0x2, 0xf2, 0x9c, 0x5c, 0x8c, 0x6d, 0x31, 0xc4, 0x35, 0xab, 0x44, 0x75, 0xee}}
+	info := bindataFileInfo{name: "cmd/NAME-client/main.go.tmpl", size: 3090, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x6, 0x20, 0xcc, 0x48, 0x1d, 0x0, 0xc9, 0x1e, 0x5, 0xe7, 0x22, 0x4a, 0x15, 0x14, 0x62, 0x59, 0x7f, 0x17, 0x8e, 0x12, 0x83, 0xe9, 0xf5, 0xa5, 0x9f, 0xf0, 0x44, 0x17, 0x99, 0x38, 0xd8, 0x29}}
 	return a, nil
 }
 
@@ -218,7 +218,7 @@ func serverWrapperGoTmpl() (*asset, error) {
 	return a, nil
 }
 
-var _serviceServiceGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\x84\x91\x5f\x4a\x03\x31\x10\x87\x9f\x33\xa7\x18\x96\x45\x76\x4b\x9b\x03\x08\xbe\xe8\x83\x08\x5a\x8a\xd6\x03\x6c\xb7\x63\x1b\xec\x26\x31\x99\xed\x1f\x86\xdc\x5d\xd2\x6e\xa5\xa2\xd0\xa7\x24\x93\xef\xf7\x91\x99\xf8\xa6\xfd\x6c\x56\x84\x91\xc2\xd6\xb4\x04\x60\x3a\xef\x02\x63\x05\xaa\x68\x9d\x65\xda\x73\x01\xa0\xfc\x02\x0b\x11\x3d\xbb\x7f\x3a\x5e\xcf\x1a\x5e\xe3\x24\xa5\x02\x6a\x80\x8f\xde\xb6\x38\xa5\xdd\xdb\x49\x51\xd5\x38\x12\x99\xbb\x67\xb7\xa3\x80\x7a\xa8\xea\x69\xd3\x51\x4a\xc3\x09\x05\x54\x20\xee\x83\xc5\x9b\x6b\xac\x24\x48\x00\x7c\xf0\x84\x57\xb5\x91\x43\xdf\x72\xb6\xfb\x85\x7e\xb7\xa6\xf3\x1b\xea\xc8\x32\x2d\x45\xfe\x89\x50\xc8\x6a\x91\x9d\xe1\x35\x96\x4c\x78\x7b\x87\x1a\x53\x02\x25\x12\x1a\xbb\x22\x2c\x4d\xae\x95\x4c\x3f\xe9\x17\xe2\xb5\x5b\xc6\x0c\xa9\x63\xe7\x55\xbc\xec\xf7\x12\xfd\xf5\xb6\x1a\x45\x4a\x33\xd4\xaa\x96\xf7\x38\x8c\x57\x3f\x9c\xd6\x31\x1a\x8b\x23\xbf\xd0\x22\x8f\x2e\x63\x58\x1a\xfd\x4a\x5f\x3d\x45\x9e\x1f\xfc\x59\x57\x63\xf5\x17\x8a\xde\xd9\x48\x17\xd4\x18\x29\x04\x17\x6a\x01\xa5\xd4\xb6\x09\x18\x28\x7a\xbc\x9e\xcb\xf8\xf9\x63\x72\x64\x8c\xd6\x6c\x40\xa9\xe3\x48\xc8\x2e\x53\x02\x91\x09\x9e\x76\xdf\x01\x00\x00\xff\xff\xb2\xb4\x55\x6e\x3c\x02\x00\x00")
+var _serviceServiceGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x02\xff\x85\x91\xc1\x4e\x02\x31\x10\x86\xcf\x9d\xa7\x98\x6c\x88\xd9\x25\xd0\x07\x30\xf1\xa2\x07\x63\xa2\x84\x28\x9e\xcd\xb2\x8c\xd2\x08\xed\xda\x76\x01\x33\xe9\xbb\x3b\x85\xd5\x20\x1c\x38\xb5\x9d\xf9\xfe\xe9\xfc\x33\x6d\xdd\x7c\xd6\x1f\x84\x81\xfc\xc6\x34\x04\x60\xd6\xad\xf3\x11\x4b\x50\x45\xe3\x6c\xa4\x5d\x2c\x00\x54\x3b\xc7\x82\x59\x4f\x6f\x1f\xf6\xe9\x69\x1d\x97\x38\x4e\xa9\x80\x0a\x60\x53\x7b\x7c\xc3\x1e\xd6\x77\x87\x13\xe0\xbd\xb3\x0d\x4e\x68\xfb\x72\xa8\x5c\x56\x38\x64\x9e\xb9\x47\xb7\x25\x8f\xba\x8f\xea\x49\xbd\xa6\x94\xfa\x17\x32\x28\x4f\xb1\xf3\x16\xaf\x2e\xb1\x9c\x20\x01\xc4\xef\x56\x54\x97\xca\x86\xe8\xbb\x26\xe6\xea\xed\x5c\xbf\x5a\xb1\xb8\xa2\x35\x49\x9f\x0b\xf1\x74\x2e\x21\x9f\x4b\x33\x6f\x8d\xb8\x1c\x44\xc2\xeb\x1b\xd4\x98\x12\x28\x66\x5f\x5b\x99\xd6\xc0\xe4\x98\xa4\xfe\xd4\x4f\x14\x97\x6e\x11\x32\xa4\xf6\xce\xcb\x70\xec\xf7\x18\xfd\xd7\x5b\x25\xdd\x0f\x4c\x1f\x2b\x9b\xb8\x3b\x1d\xe4\x08\x8d\xc5\xa1\xf4\xcd\x7c\xef\x32\x26\x9f\xeb\x67\xfa\xea\x28\xc4\x99\xb8\xef\xa5\x15\x96\xe7\x50\x68\x9d\x0d\x74\x44\x8d\x90\xbc\x77\xbe\x92\x49\x28\x95\xf7\xe6\x85\xc1\xcb\xba\x8c\xff\x2e\x26\x4b\x46\x68\xcd\x4a\x82\xfb\x91\x90\x5d\x08\xc1\x3c\xc6\xc3\xed\x07\xfa\xc8\xfd\xb9\x53\x02\x00\x00")
 
 func serviceServiceGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -233,8 +233,8 @@ func serviceServiceGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "service/service.go.tmpl", size: 572, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xcf, 0x67, 0xd4, 0x35, 0x7d, 0x82, 0xea, 0x92, 0x9a, 0xdd, 0x29, 0x78, 0xfd, 0xb4, 0xc4, 0xb4, 0x66, 0xb4, 0x58, 0x32, 0x35, 0x9a, 0x5d, 0xa7, 0xfa, 0x9a, 0x94, 0xe, 0x89, 0xcc, 0xfd, 0xcb}}
+	info := bindataFileInfo{name: "service/service.go.tmpl", size: 595, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x85, 0xc7, 0x2a, 0x16, 0xa7, 0x52, 0x58, 0x83, 0xf3, 0x54, 0x5b, 0x8, 0xa0, 0x97, 0x1c, 0x90, 0x75, 0x16, 0x30, 0xba, 0x77, 0xbd, 0xe4, 0xaa, 0x75, 0x70, 0x52, 0x55, 0xb2, 0x77, 0xa0, 0xed}}
 	return a, nil
 }
 
-- 
2.43.0


From 5226ef7784528f64af1079a8aa4c509683ce09d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:32 +0000
Subject: [PATCH 27/42] fix: excluding an endpoint twice is not excluding one
 that does not exist

---
 gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl | 4 ++++
 gengokit/template/template.go                              | 6 +++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index 529806c..2aad084 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -132,6 +132,8 @@ func (e *Endpoints) WrapAllExcept(middleware endpoint.Middleware, excluded ...st
 		if _, ok := included[ex]; !ok {
 			panic(fmt.Sprintf("Excluded endpoint '%s' does not exist; see middlewares/endpoints.go", ex))
 		}
+	}
+	for _, ex := range excluded {
 		delete(included, ex)
 	}
 
@@ -165,6 +167,8 @@ func (e *Endpoints) WrapAllLabeledExcept(middleware func(string, endpoint.Endpoi
 		if _, ok := included[ex]; !ok {
 			panic(fmt.Sprintf("Excluded endpoint '%s' does not exist; see middlewares/endpoints.go", ex))
 		}
+	}
+	for _, ex := range excluded {
 		delete(included, ex)
 	}
 
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index 7838e87..b6c2334 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x02\xff\xed\x5d\xeb\x73\xdc\x36\x92\xff\x3c\xf3\x57\x20\x53\xb1\x43\xfa\x46\x94\xb3\x55\x77\xb5\xa7\x94\xae\xce\x0f\x25\xf1\x6e\xfc\x58\x5b\x4e\x3e\xa8\x5c\x59\xce\x10\xa3\xe1\x8a\x43\xd2\x24\x47\xb2\x56\xd1\xff\x7e\xfd\x02\x08\x3e\x67\xc6\x49\xae\xb2\x57\xe7\x4a\xa4\x19\x12\x68\x34\x80\x46\xe3\xd7\x0f\x40\xc7\xc7\xea\x59\x16\x69\x75\xa9\x53\x5d\x84\x95\x8e\xd4\xe2\x56\x2d\xc2\x22\x4b\x03\xf5\xfc\xb5\x7a\xf5\xfa\x5c\x9d\x3d\x7f\x71\x1e\x4c\x8f\x8f\xd5\x5b\x5d\x6c\xd3\x34\x4e\x2f\xb9\x80\xba\x89\x93\x44\x65\xd7\xba\xb8\x29\xe2\x4a\xab\x6a\x1d\x97\x6a\x15\x27\x9a\x0a\xff\xa8\x8b\x32\xce\xd2\x13\x75\x77\x17\xc8\xe7\xfb\x7b\xe7\x85\x7a\x0e\xad\xb9\x6f\xf1\x3b\x94\x98\xe6\xe1\xf2\x2a\xbc\xd4\xf8\xe6\x0d\x7f\x7c\x15\x6e\xe8\x0d\x54\x3e\x37\x6d\xa8\x65\x96\x56\x61\x9c\x96\x6a\xa3\xab\x75\x16\x95\xaa\xca\xd4\x26\xbc\xd2\x2a\x4e\xa3\xf8\x3a\x8e\xb6\x61\xa2\x74\x1a\xe5\x59\x9c\x56\x50\xa5\xc8\x36\xaa\xd4\xc5\x75\xbc\xd4\xe5\x1c\x29\x15\xfa\xe3\x56\x97\x95\x0a\xd3\x08\x3e\x97\x79\x96\x96\xd0\x85\xdb\x5c\x13\x25\x2c\x8a\x3d\xca\xe0\xa1\xa5\x32\x57\x61\xa9\x6e\x34\x74\x1a\x7e\xeb\x74\x09\xe3\x56\x94\x48\x00\xe9\x45\x5a\xbe\xaf\xb2\x42\x2a\x12\xb5\x39\x3d\x08\x71\xa4\x56\x2a\xdb\x16\xaa\xdc\xe6\x79\x56\xe0\x48\x57\x45\x98\x96\xf8\x19\x9b\x8b\xc3\x24\xfe\x67\x58\xc1\x40\x20\x35\xa8\xb3\x09\xab\x32\x98\x4e\xe3\x0d\x95\xf0\xa6\x93\xd9\xe2\xb6\xd2\xe5\x0c\x3e\x60\xdf\xf5\xa7\x0a\x3f\x12\x1b\x30\x25\xc7\xff\x28\xb3\x14\x1f\xac\x36\xf4\x3c\xce\xf8\xe7\x71\x9c\x6d\xab\x38\xc1\x2f\xa9\xae\x8e\xd7\x55\x95\x9b\xcf\xdb\x82\x1e\x97\x55\x01\xf4\xae\xe5\x23\x90\x82\x26\xe0\xf3\x65\x5c\xad\xb7\x8b\x60\x99\x6d\x8e\x2f\xb3\xa3\xab\xb8\x3a\xc6\xff\xcd\x58\x40\xe9\x30\xbd\xcd\x17\x6a\x76\x99\x65\x97\x30\xe5\x97\x59\x12\xa6\x97\x41\x56\x5c\x1e\xe7\x45\x56\x65\x8b\xed\xea\x98\xfa\x7f\x7c\x95\x66\x37\xe9\x31\x95\x86\x5a\xd1\xb6\xa0\x4e\x1e\x50\xb5\xae\x02\xf5\xf5\x26\xaf\x0e\x69\x57\xca\x43\xcd\x55\xac\x93\x68\x13\x96\x57\x07\xd4\x76\xea\x00\x05\x18\x9e\xed\xb2\x3a\xa0\xba\xa9\x00\x75\xab\x78\x03\xd2\x16\x6e\xf2\x03\xaa\x3b\x75\x80\xc2\x4d\x11\xe6\x39\x08\xd8\x01\x04\xea\x2a\xdd\x29\x2d\x60\xf1\x86\xc7\x9b\xed\xa7\x59\xf3\x4d\x7e\x75\x79\xac\x8b\x22\x2b\x48\xd2\x46\x1a\xb2\x92\x47\x4f\x8c\xf8\x8d\x54\xa0\x0f\xc8\xc8\xdd\xdd\x91\x8a\x57\x4a\x7f\x54\xc1\xb3\x2c\x5d\xc5\x97\xc1\xb9\x5d\x09\x33\x58\x29\x33\x35\x4b\x41\xf8\x67\x0a\x16\x7d\x83\x37\x7c\x7a\x04\x32\x8d\xbf\xa1\x89\x19\x93\x02\x99\xc4\x82\x7b\x50\xbd\x2c\xf2\xa5\xa1\xda\xe1\x93\x5e\x0e\xbe\x39\x06\x35\x13\x46\x61\x15\xb6\x1b\xdd\xbb\x49\xfc\x54\xaf\xf8\x81\xf5\x65\x0b\x18\x76\x9c\xb6\x70\xed\x1e\x40\x40\x96\xfa\x41\x83\x8d\x9f\x0e\x68\x82\x2a\xba\x3c\xfa\xd3\xe9\xf4\x3a\x2c\x50\x5b\xfd\xac\x4e\x15\xe8\xa2\xe0\x5d\x0e\x3a\xa5\xe2\xef\xa4\xc0\x80\x8d\x4d\x1e\x16\x9a\x1f\x89\xf6\x09\x9e\x54\x59\xcc\x4f\x1a\xdd\x0c\x5e\xe9\x9b\x77\xa8\x8b\x0b\x7e\xc9\xda\x2c\x78\x95\xe5\xcf\x12\x50\xb1\xf6\x29\x10\xcd\x6f\xf9\x0b\x0b\x6f\xf0\x13\xc8\xfe\x74\x02\xaa\x54\xe6\xd3\x88\x21\x6b\x65\x2c\x4a\x2a\x29\x78\x92\x52\xbd\x5a\xc9\x04\xcf\xe5\x23\x3e\x16\xf5\x11\x9c\xe1\x6f\x7c\x60\x96\x74\xf0\x8e\x3e\xe0\x23\x67\x99\x06\xe7\xe6\x33\xbe\xa8\x97\x1f\x96\x86\xa5\xf2\x63\x98\x6c\xa9\xdf\x8e\x5e\x09\xbe\xc5\xcf\x2f\xe1\x33\x8e\xde\xf1\xa3\xbd\xfe\xa9\x33\xbb\xb3\x3d\xda\xfb\xdf\x31\xed\xa0\x2f\x52\x15\xf2\xf6\x56\xcc\x55\x5c\x7d\x55\xaa\x6d\xa9\x57\xdb\x84\xb6\xa9\xd5\x36\x5d\x62\xd7\x61\x0f\x5c\x87\x95\x4a\x35\xee\x52\x99\xca\x72\xc2\x06\x2a\xc3\xba\xf0\xf9\xc8\x6c\x03\x48\x70\x11\x96\x71\x19\xa8\x6f\xa1\xba\xfe\x04\x3d\x4f\xf4\x5c\xdd\x66\x5b\xb5\x89\x2f\xd7\x95\xca\xc3\x12\xb7\x48\x87\x61\xa0\x17\xda\x86\xb8\x1d\x98\x9b\x68\x0b\x1b\x33\x92\x83\xb2\x28\x01\xc1\xf7\xb0\xaf\x26\xc8\xe3\x0d\x08\xa1\xd2\xe1\x72\x2d\x3b\xbd\xf2\x4c\xeb\x3e\xbc\x2b\x80\xc3\x6d\xce\x44\xcb\x5c\x2f\xe3\x55\xbc\x84\x46\xab\x75\xa0\xbc\x17\xc4\x1f\x00\x06\xa0\xbf\x08\x17\xc9\x2d\x94\xd9\xc4\x30\x3d\x84\x12\x60\xc7\x2e\xe3\xcb\x14\xab\xc6\xe9\x75\x76\x85\xdb\xbd\x56\xef\x18\x23\x58\x54\x41\x2c\x6a\xa4\x53\xf7\x80\x65\x00\x49\x98\x91\x0c\x7c\x28\x61\x47\x77\x99\xc4\x3a\xad\x9a\xa3\x0b\xad\x2c\xb3\x24\xd1\x54\xcf\x00\x14\xe0\x08\x84\x9f\xc9\x41\x3f\x6a\xb8\x02\x3f\xa0\x43\x48\xb0\x04\xb1\x49\x18\x4a\xf0\x58\xc5\x38\xc2\x1b\x4d\x23\xe9\xf0\x0b\x35\x74\xb1\x0a\x97\x7a\x68\x26\x90\x98\x6d\xac\x1f\x24\x6d\xb1\x31\xd5\xd4\x20\xb8\x00\x9f\x49\x7f\x40\x0f\x2c\xe2\x94\xc6\x69\x23\x2c\x3a\x13\x3b\x17\x28\x55\x6d\x8b\x14\xba\x8e\x3d\x46\x06\x97\xd0\x4d\x5d\x20\x62\x0a\x0d\xb3\xc1\x94\xba\xd3\x19\xd0\xbb\xe9\xe4\x7d\x6a\xfb\xa7\x23\x40\x80\xa6\x06\x43\x40\xd1\x04\x77\x77\xc0\x22\x20\xc4\x2f\x63\x75\x72\xaa\x6c\x99\x97\x3c\x65\xac\x96\xbf\x8c\xa5\x8e\x69\x45\xc1\x3f\xd3\xd5\xc0\x3c\x04\x52\xac\xb8\x18\x5d\x5a\x8e\x76\x37\x81\x02\x0c\x92\x58\x57\xf1\x95\xd3\xa8\xb7\xac\x3e\x29\x41\x69\xa8\x76\xf1\xf7\x1c\x05\xe6\xd1\xdd\xdd\x77\x19\x96\x01\xca\xc1\x5b\x86\xa0\xe7\x30\x18\x52\xcf\x57\x5e\xab\x04\x03\x53\xa7\xc8\x9c\x15\x9c\x8f\xa3\x65\x70\x2b\x3d\x43\x46\x75\xd0\xd3\x73\x64\x06\x1b\xf7\xa7\x13\xdc\x08\xa0\xe4\x17\xa7\x2a\x8d\x13\xa4\x30\x91\xf9\x82\xaf\x44\x64\x3a\xb9\x9f\x9a\x67\x86\x7a\xb0\x93\x27\x7f\x8e\x04\x60\x10\xcd\x70\xe2\x60\xbe\xc4\x65\xe6\x8e\x28\x2d\xe4\x2f\x41\x8d\xe0\x88\xde\x63\xe1\x23\xe5\x8e\x32\xbc\x1a\x1a\x68\xa4\xd5\xd7\xb3\x12\x07\xdd\xa9\xe6\x8a\x89\xdf\x9d\x6e\x1e\x33\xea\x1c\x92\xed\x9f\x25\x63\x18\xd8\x15\x75\x87\xd3\x62\x4d\x04\xe7\x31\x0f\x7b\x3d\x1d\x40\xfb\x23\x76\x44\x28\x74\xc6\xad\x33\xdb\x50\xe5\xda\xce\x5d\x19\xb4\x04\x88\x58\xc1\x32\xdd\x59\xeb\x4e\x1b\xce\x9b\x79\x7a\xcd\xd3\x31\xb9\x9f\xf2\x20\xf3\x9c\xb8\x73\x83\x9b\xe3\x93\x24\x39\xfb\xb4\xd4\x79\x45\xfb\x54\xc9\x2a\xd6\x8e\x14\xed\x50\x68\xb2\xc8\xda\xac\x17\x2b\x4d\x23\xe9\xa6\x1e\xbb\x20\x78\x19\x47\xa0\xb6\x6f\x60\x7f\x27\x2b\xf0\x7d\x69\xec\x42\x34\x82\xf2\x3c\xb9\x45\x15\x83\x6a\xb3\x42\xe2\x1b\x5b\x9a\xf6\x05\x0d\xd3\x76\x6b\xa7\x0d\xd7\x0b\x6a\x90\xd2\x68\x0d\xa0\xf7\x3a\xc7\x5d\x03\x35\xe7\xdc\x51\x5c\x4b\xd0\x43\x0b\x4d\x7b\x0d\xa8\x51\xa8\x06\x36\x6c\x8a\xc3\x0e\x34\xe1\xb9\xfe\xb4\x4c\xb6\x11\xbc\x21\x2b\x70\xa1\x91\x05\xde\x9b\xa3\xa0\x33\x1a\x5e\xcd\xd3\x5c\xcd\xde\x55\x61\xb5\x2d\x67\xf0\xe9\x0d\xd4\x9a\xf9\x76\xdd\x3f\x72\x16\xfe\x50\x7d\xd5\x33\x2a\xf3\x9a\x9b\x20\x08\xd8\xe0\x22\xe1\x89\x53\x79\x0c\xa2\xb0\x09\xf3\x0b\x7e\xf5\x81\x87\xff\xee\x1e\x67\xbd\xbd\x60\xfa\x34\xdf\x64\x32\x73\xc4\x68\x06\x06\xf6\xfd\x5c\xaa\x0a\x8c\x04\x09\x98\xe0\x6c\xfc\x8c\xac\x90\xb8\x12\x49\xcb\xd6\x1d\x4b\x1c\xbc\xce\xae\xf0\xb5\x61\xec\x42\x7f\xfa\xf0\x8d\xfa\x02\x1e\x92\x04\xe6\x61\x1a\x2f\xbd\x1a\xe1\xad\xbc\xd9\x99\x21\x61\x67\xf0\xab\x07\xe5\x57\x2a\xca\x60\x76\xd3\xac\x82\x26\x60\xf3\xfd\x06\xe6\x53\xbb\x13\x6f\x65\x87\x20\x3d\x32\xe5\xfb\x22\xcf\x91\x4e\x74\xa5\x3d\xc3\x01\xbd\xab\x3b\x00\x8f\x6b\xf6\xed\xf0\x21\x73\x25\xc8\x28\x08\x33\x16\xd8\x7b\xdc\x96\x21\x88\x6a\x73\xec\xb0\x9b\xbd\x1a\x15\x50\x66\xdd\x01\xaf\xb7\x88\xdf\x1c\xf4\xc9\x3d\x2f\x47\x14\xb7\x1f\xc2\x05\xf4\x2b\xaa\x65\x82\x1d\x29\x97\xba\x32\x12\x8c\x52\x6f\xc7\x90\x04\xf9\x66\xad\x53\xfb\x36\x73\x84\x56\x88\xb1\xec\xcd\x79\xad\xc9\x72\xd8\x72\x61\xc5\xde\x99\x90\x5d\x3c\x80\x8e\x00\xda\xc0\x2f\x02\x5b\x8e\xac\xde\xac\x63\x18\x32\xac\x5a\x42\xd3\x3d\x2c\xc8\x7e\x2e\xb5\x0d\x9a\xc9\x0a\xd9\xcd\xbb\xbd\x22\x15\xcb\x62\x3c\xef\xea\xe2\x1e\xf5\x3c\x1d\xea\xd7\x67\x6b\xa8\x0e\x53\x73\xe9\x27\x8d\x78\xa1\x97\x3a\xbe\x66\xdc\x47\x5d\x04\x62\x6e\xbf\x03\x00\x2c\xda\x92\x71\xa8\xd0\x0b\x03\x47\xed\xea\x47\x46\x51\x2e\x23\xb0\x14\xe3\x84\xa0\xa3\x59\x54\xe4\xd2\x11\xc8\x1b\x26\x71\x75\x1b\x8c\x29\x92\x46\xdf\x5d\x7d\x72\xf0\x88\xfe\xbf\xb6\xf9\x3f\xa7\x6d\x1a\x95\xe6\xea\x10\xe5\xb3\xbf\xb3\x62\x5f\x33\xf4\xbb\xb7\x6f\x9e\x31\xda\x3a\xd8\x0e\x45\x48\xe7\x54\x47\xd7\x6d\x59\x03\x83\x7a\x6f\x0f\xaf\x61\x31\x81\xf1\xa6\xd9\x84\xb8\x84\x2a\x6a\xc0\x30\x08\x6a\xb0\x58\x53\xf6\x6a\x52\x8e\xa9\x92\xe5\x6c\xe6\xc2\xaa\x68\xf8\x65\x02\xae\xc4\x30\xc3\x1f\x6a\x08\xe7\xb9\x74\x0a\x96\x38\xcf\x17\x1f\x86\x29\xa1\x5c\xf4\xbd\x7d\xaa\x41\xb4\xb4\x87\xdc\xbe\x14\xff\xd2\x79\x26\x48\xd4\x9f\x13\x18\x6f\xb6\x73\x8a\x20\x0a\x7a\xe4\x35\x1e\xdb\xfe\x40\x77\x7c\x72\x7a\xdc\xdd\xa9\xf3\xec\x87\xec\x06\x78\x6d\xf4\x80\xbc\x3c\x02\x13\x1f\x22\x47\xcc\xc7\x1d\x9a\x4c\x3b\x85\x16\x8a\x3b\xc2\x76\xa2\x9a\x3d\xb2\x9e\x1a\x8f\x24\xd9\x2e\xb3\x1e\xf9\x44\x1d\x31\x79\x4e\x0e\x73\xec\xba\x53\x42\x40\x32\x15\x38\x4b\x7b\x0b\x88\xc9\x83\x25\x1a\x83\x00\x7d\xc7\x87\x38\x6c\x0d\xfd\xc3\x9b\x6e\xdd\xd7\xb6\x05\x6d\x31\x7a\xff\x54\x5b\xbc\xcf\xdb\x9c\x43\xe7\x37\xb7\x5a\x9b\xe3\x0b\xf6\x6a\x73\x80\xc5\x23\xe2\x40\x7a\x31\xb4\xc4\x55\x81\x5a\xca\x61\x0f\xfd\x1a\x86\xab\xfd\x3b\xb9\xa7\xe1\x5b\xaa\x47\x75\x53\xbe\x72\xed\x9c\x31\x0b\x18\x0d\xa4\xdf\xd6\x04\xfe\x19\x89\xe6\x8e\x11\xd5\x1c\x44\x5e\x67\x28\x43\xae\x45\x75\xa0\x19\x9c\x7f\xa6\x05\x2c\x83\xcb\x82\xbe\x7b\x64\xa1\xc6\xd8\x9a\x40\x47\x56\xa8\x9a\x0e\xe2\x80\x2b\x48\x89\x6f\x71\x6a\xc8\x49\x84\x2e\x55\x5d\xa0\xf6\x24\xd9\x67\x9d\x69\x14\x42\x2d\x61\xc6\xd4\x25\xef\x19\xc0\xc5\xe2\x28\xca\x36\x21\xd8\x4f\x23\x85\x03\xf5\xa6\x88\x37\x61\x11\x27\xb7\xc6\xb7\xe5\x3a\xc2\x58\x3e\xc6\xfa\xe1\xfd\xdc\x95\x0b\xec\x0b\xbc\x6e\xd9\xdc\x6d\x53\xdb\x7a\x3d\xc8\xca\x96\x3a\xfb\x58\xd9\x76\x26\x3f\x8e\x4c\x13\xab\x9b\xbd\xa6\x69\x54\x33\xf5\xce\x13\xd7\x30\x45\x86\x26\x6a\xf7\x14\x98\x38\x65\x56\x6f\x85\x7d\xc5\xc0\xce\xde\x6b\x9e\x46\x3b\xd2\x37\x51\x7d\x6e\x90\xb1\x99\x2a\x73\x76\x88\xec\xed\x49\x6a\x78\x9f\xfa\x66\xeb\x7b\x9d\xa0\x4f\x7d\xca\x1d\xe8\xdd\x39\xfb\x75\xcf\x26\x52\x26\x86\x13\xbc\x7c\xee\xb7\x0b\x20\xbf\xa8\x41\xaf\xe6\xea\xba\x06\x7a\x1b\x8b\x50\xaf\x1b\xfe\x17\x0a\x45\x6b\x75\xa5\x6f\x69\xba\x23\xc4\x82\x8b\xac\x42\x14\x68\x5b\x91\x20\xae\xf2\xae\x7c\xb1\x3a\xb0\x28\xd8\x1d\x09\xce\x97\x50\x09\xc5\xd6\x22\x5f\xeb\xb3\x30\xcd\x00\xe7\x86\xc9\xf7\x3a\x8c\x74\xf1\x57\xa0\x2e\x26\x09\x36\x54\x66\xe2\x01\xae\xc4\xc2\x33\x24\x96\x4b\x6d\x1c\x1f\x1a\x4c\x1f\x90\x05\x6e\x19\xdf\xe3\x50\x9c\xda\xbe\xfe\x04\xaf\x29\x08\xc1\xda\x10\xfb\x7a\xf1\xf8\x83\xbf\xb3\xe0\x00\x77\xd0\xb3\x9a\x82\x80\x7d\x99\x3e\xa8\x46\xdb\xd3\x01\x40\x92\xdd\xcc\x07\x03\x49\xc0\x1d\x4e\x6d\x6e\x9e\x42\x0e\xe2\x37\x52\x8b\x70\x79\xc5\x79\x0d\xb2\x66\xd8\x3f\x8f\x7d\x4d\x35\x99\x64\x81\x7a\x41\xea\x55\x3c\xfd\x22\xae\xf1\x22\x46\x53\xcd\x4c\x81\x38\xb2\x61\xe9\x45\x71\x98\xb0\xb7\x3b\x09\x41\xee\x81\x5e\x86\x3e\x58\x2a\x54\xd3\x64\x01\x6d\x70\xe7\xe1\x6b\xde\x39\x03\x7e\x02\xc2\x97\x8e\xa0\x51\x2e\x64\xd0\xa8\x37\x00\x2d\xdc\x25\x27\x82\x89\xe6\x6c\x69\x38\x37\x03\x81\x1c\xc7\x55\x9d\x31\x21\xfe\x35\x1b\x19\x8b\xf4\x2a\x4e\x63\x0e\x7d\x61\x14\x8f\x89\x20\x47\xd8\x5a\x39\x9d\xbc\xd5\x97\x60\x53\x01\x5c\xec\xe7\xc3\x7b\x48\x35\x68\xd5\xfa\x1c\x8c\x4b\xb9\x22\x42\x96\xb6\xfb\x77\xd2\x30\x95\x60\x14\xc6\xbc\xc0\xc4\x4f\x73\x6b\xb7\xe6\x51\xd7\x8f\x30\xb9\xeb\xa0\x55\xc7\x98\xea\xc0\x56\x99\x1c\x5a\x05\x38\x1f\xf8\x81\x18\x0f\x22\x5d\x2e\x0d\x37\x48\xa7\xfd\x4a\x18\xbc\x80\x86\xd2\xfb\xfb\x0f\xf2\xdd\x96\x1c\x50\xaf\x35\xc4\x1d\xd8\x27\x1d\x88\xbb\x43\x5f\xb2\xbd\x3d\xc9\x9a\x10\xd8\x8e\x84\x47\x06\x2c\x91\xb1\x01\x6b\x51\xa5\x66\xa1\x5a\xa3\x68\xa7\x0d\xa0\x8e\x68\xd6\x7a\x06\xf5\x04\x83\x2b\xfd\xe3\x3d\xaf\x9b\x9c\xdc\x1b\x7d\x6e\x00\x39\x89\x15\xef\x97\xb4\x26\xa4\x41\x16\xb3\x02\x66\x9c\xd5\xe6\x95\xd6\x79\x09\x9f\x43\x5a\xa4\x85\x08\x21\x3a\x6f\x2d\x24\x67\x4a\x35\x22\xc7\xd9\x91\x85\x26\x44\x9f\xc3\x13\x6c\x9a\xf1\xab\xac\x42\xaa\xe6\x2b\x23\xd7\x52\xd4\xeb\xaf\x3d\x57\x3f\x37\xb7\x3d\x68\x27\x25\x39\x00\xa1\x8a\x84\x3c\xf4\x0c\xa7\x53\x89\x3a\xfa\xf5\xd8\x6f\x04\x54\x18\xf0\x37\x0e\x2a\xc6\x61\xc2\xbe\xd8\x4f\x36\xf0\x01\x50\xc1\x1a\x75\x1c\xfc\x0d\x83\x0a\x46\x72\xc8\xcc\x9e\xa8\x02\x8b\x5a\x04\x88\x58\xe7\x20\x5c\x91\x63\xf0\xa0\x0b\x2c\xdc\x69\xfb\xf5\x58\x70\x18\xb2\x1b\x28\x38\x0a\xd9\xf7\x04\xe3\x3b\x81\xe0\x28\x64\x6f\xcc\xda\x58\x3f\xfa\x91\x60\x5f\x98\x6c\x1c\xb2\x1f\x10\x18\x1b\x87\xec\xc2\x05\x21\x94\xf2\x3c\x73\x51\x60\xad\x4e\xda\xdb\xa8\x33\xe4\xdc\xe5\x11\x2a\x1e\x00\xae\x52\x5d\x7c\x30\x2e\xd3\x1d\xf4\xf6\x0a\x2c\x02\x96\x7c\xb4\x0b\x81\xd2\x3e\x97\x87\x71\x51\x37\x0e\x0f\xc5\x81\x7a\x55\xe3\x52\x62\x8f\x90\x28\x42\x53\xe3\x3c\x85\x66\x03\x46\x6d\x57\x7e\x20\x8e\x62\xff\x1b\x65\x9c\xa8\x13\x26\x6c\x7d\x48\xf4\x95\x51\x20\x41\x40\x76\x15\x32\xdc\xe5\xa2\x2e\xe4\x7d\x04\xfc\x9f\xd6\x10\xfa\x2f\xa0\xdd\x3d\x78\x36\xaf\x1f\xbd\xc1\x3a\x4c\x15\x1d\x51\xbe\x21\xe7\x40\x42\xf1\x43\xf2\x4c\xee\x0b\x0e\xbf\x3f\x3f\x7f\xf3\x39\x5e\x46\x4a\x77\xe0\x51\x4e\x49\xbc\x80\xff\x19\x06\x21\x01\xc4\xe2\x7e\x49\x39\x93\xdf\xa8\xe5\x3a\x2c\x4a\x5d\x9d\x6e\xab\xd5\xd1\x9f\x67\xd6\x39\x89\xad\x8a\xcb\xa5\x46\x95\x6a\x2d\x4f\x68\xcd\xee\x76\x5a\x22\xb1\x2c\x05\x88\xa5\x09\x5c\x01\x0c\xc5\xdc\x94\xd2\xf1\x54\x3a\xcd\xec\x74\x55\x36\x53\xa3\x9a\xae\x4a\x37\x69\x46\xdd\xd9\xbc\xaf\x80\xe8\x93\xcd\xd4\xf0\xe5\xf5\xb8\x2f\x87\xa9\xd3\xfc\xf7\xbd\x16\xff\x25\xb7\x81\x46\x41\xd9\x70\x5f\xf6\x57\x3a\x43\xb5\xc0\xea\x06\xba\xec\x7c\x19\xae\xf2\x64\x05\x6a\xc5\x6b\xbf\xa9\x9e\xd5\x53\xeb\x39\xd3\xec\x13\xa1\x6e\x2f\xf7\x72\x9e\x8a\x77\x8d\x1c\xa5\x30\x79\x6f\x60\xba\x60\xce\x0a\xd0\x4b\x15\x65\xfb\x62\x58\xb7\x5c\x86\x39\x06\x08\x00\x3d\xdf\x82\x10\xdc\xaa\x75\x96\x44\x98\x4f\x46\xb2\x14\x2e\x2b\x34\xef\x36\x14\x5b\xd9\x7e\x42\x84\xf9\x36\xdb\x62\x07\xfc\xe0\x7d\xa9\xb9\xb3\x11\x12\x06\x78\xe6\x80\x2e\x89\x27\xe1\x4e\x33\x30\x69\xb6\xe8\x02\xf3\x77\xd2\x4b\xc2\xcb\x5c\x2d\x78\xca\x8f\x24\x2c\xb3\x31\xf5\x28\x5e\x20\xc5\x31\xd3\x7a\xa1\x7e\x51\xe7\xd9\x7b\xcc\x4b\xbb\xbf\x9f\xf9\x01\xb1\xe1\x96\xc1\x07\xe7\x7a\x93\x27\x94\x8e\x0d\x25\x8c\x70\x0e\xe4\xe5\x11\x6c\x6e\xba\x7b\x85\xa3\x1e\x9f\xaf\x00\x5e\xec\x9e\xd3\x24\xc5\xbb\x9a\xc0\x58\xa0\x33\x16\xfc\x8e\xc3\x96\x0d\x54\xdc\xeb\xf9\x9d\xf8\xad\xb8\x87\xf3\x51\x54\xd0\xc6\x24\xfa\x38\x52\xc7\xf1\x51\xf6\x05\x93\x34\x9a\x48\xa7\x69\xf1\x27\x7c\x0f\x46\x16\x18\x90\xb0\x88\xc3\x6d\x52\xe1\xde\xc9\xe2\x86\xc4\x08\x84\xc2\xf2\x6f\x6b\x16\x30\x11\xd5\x22\x8b\xc8\x80\xc4\xef\x6c\x01\xa1\x25\x3f\xa3\x76\x66\xd6\xf8\xbf\xa6\xbc\x40\x20\x45\xcf\x03\xe2\xce\xf3\xd9\xc4\x04\xed\x42\x39\x08\x0a\x99\x45\x52\xff\xfe\xf8\x31\xd8\xab\x2b\x87\x5f\xc7\xa1\xcd\xab\x10\xb8\x25\xc6\xd8\xb8\xbb\x8e\xd1\x3b\xb1\xe6\xf5\xc9\x91\xcf\x85\x66\x6e\x39\x40\x8c\xe5\x6a\x84\xe7\x92\xa6\xfc\xb9\x9a\x3a\xf6\x22\x78\x09\xda\x72\x1d\x52\x6a\x9e\xe1\x7f\xc3\x8f\x50\x22\xcb\xed\x72\xa9\x75\x54\xb2\x39\xfc\x97\x77\xaf\x5f\x49\xa6\x7c\x64\xd2\xda\x6d\x94\x95\x78\x37\xec\x60\xb0\x7a\xb8\x5b\x9c\x86\x81\x07\x15\x8a\xb9\xb1\xd2\x6d\xcf\xea\x97\x0d\x6a\x80\x4c\x00\xd3\x87\x91\x19\x33\x56\xb9\xae\xbe\xe9\x83\x35\x36\xa3\x67\xae\x6e\x58\xa7\x36\xc5\x80\xe0\x0c\xce\x2a\x5a\x03\xb0\xfc\xdc\x21\x61\x65\xf6\x13\x67\x7d\xde\xd1\x2c\x9e\x20\x31\x33\xa1\xf7\xec\x7a\xde\xd4\x03\xc8\xdb\x36\x16\xf1\x9a\x63\x5b\xef\xda\x31\x0b\xcf\x53\x6a\x52\xaa\x9e\xb1\xb3\xdb\x12\x32\xf5\x70\xb8\x3d\xa8\xea\x14\x3b\x75\x76\x70\x12\xc6\x53\x4b\xce\xf8\x6c\x26\x37\x01\x8b\x0d\xe8\x27\x50\xaa\xde\x4c\xd4\xea\x11\xea\xd2\xd9\xdc\xdd\x40\xb9\x03\x6b\x23\x64\x2e\xff\x4d\xf5\x60\xe4\xb0\xee\x87\xf1\xad\x11\xd8\xaa\x81\x8c\xa1\x25\x35\x4a\x8f\x33\xa9\x5c\x9e\x9e\xeb\x04\xf0\x0c\x3e\x14\x1c\xe4\xf8\xe7\x84\x1c\xc3\x1b\xa7\xce\x93\x28\xf2\x5a\xb8\x06\xff\xa3\x35\x74\xc2\x39\xc6\x01\xcb\xcd\x0b\x44\xac\x69\x98\x38\x7b\x13\x75\x12\xed\xbd\xc1\xee\x39\xf2\x58\xf7\x90\x88\x9f\x2a\xf4\x18\xd8\xd7\x62\x80\xdf\x04\x24\x3d\xc2\x1e\x16\xf4\xed\x43\x0f\xa7\xc5\xb7\xa6\x29\xc9\x10\xab\xc9\xc2\x43\xaf\xcc\xc5\x07\x4c\x9b\xf6\x65\x51\xdc\xb1\x2b\xe4\x46\xb9\xb2\x66\x23\x1a\x46\x20\xdf\xa7\x22\x02\x48\x61\xae\x1e\xde\x00\x97\xad\x88\x07\x83\xa3\x32\xfe\x27\xf2\xfc\xe7\xaf\xff\xf3\x3f\x58\xd6\x12\x9d\x62\x1d\x5f\xfd\x17\xbf\x63\xc1\x01\x36\x4e\x15\xfc\xbc\x38\xc1\x87\x1f\x9a\xe9\x66\x18\x95\xa7\x71\x5b\x79\x33\xeb\x1f\x26\x59\xc3\x80\xfc\x09\x3a\x2b\x31\x1e\x9f\x23\xca\x52\x69\x96\x1e\x91\x32\x34\xf6\x03\x16\x04\x21\xc3\x36\x1b\x0e\x44\x49\xe3\x86\x7d\xc6\xbb\x61\xf2\x34\x46\xa4\x6c\xdd\xbe\x3b\x46\x3f\x95\x52\x0c\x7b\xd5\xdf\xb1\x95\x13\xd1\xb4\x7f\x17\xbd\x8f\xb3\x28\xa5\x40\x4f\x97\xab\x58\xf4\xbe\x11\x57\xd2\x68\xce\xe4\xd6\xd6\x0d\x7a\xcb\x48\xeb\xc8\xe9\xa4\x7d\xb2\xef\xc5\x3f\xe1\x34\x6a\x59\x65\xed\x3a\x29\x6b\xd5\x45\x7e\x2b\xa3\xa4\xe1\x9f\x93\x95\x61\x2d\x01\xeb\xbe\x58\xd7\x44\x7d\xe5\x4a\x9b\x6a\x66\x39\xae\x83\xba\x85\x81\xda\xf5\xba\x63\x04\x49\x5f\x1b\x24\x84\x29\x19\x42\x76\x2d\x53\xd2\xba\x85\xc5\x38\x84\x64\xc1\x88\x6a\x47\x0f\x59\x54\x27\xe8\x6c\xca\x4b\x36\x38\x11\xfb\x2a\x18\x07\x98\xf9\xe2\x76\x2a\xde\xef\x9b\xb5\x26\x9f\x75\x4c\xe6\x32\x40\xe9\x13\x58\x42\x61\x12\x22\xd8\x2a\x19\x62\x51\xca\x07\x66\xbc\x6c\x37\xe6\x61\x5c\x28\xf8\xb6\xe0\x29\x63\x52\xb7\xd5\x1a\x27\x5e\x27\x25\xe5\x0a\xa0\x32\x9c\x1b\x1f\x27\x6d\x3c\xd0\xc2\x3a\x2c\x99\x15\x14\x3b\xd9\x12\x9c\x1e\x79\xc8\x2a\xf9\x43\x01\x3f\x95\x25\x4c\xf4\x9c\x33\x83\x8c\x1d\xe8\x51\x37\x4d\x0a\x0e\x2c\xfc\x45\x96\x25\xed\x3c\x50\x46\x7e\x25\x60\x29\xa4\xf4\x56\xaf\x30\x51\x0a\x35\x01\x8f\x08\xbe\x0c\xd0\xa1\x54\xc4\x79\x85\xfb\x02\x1f\x01\x80\x29\x08\x9e\xde\x9e\x03\x7d\x04\x4e\x1e\x36\xcb\xea\x96\x6b\x9d\x76\x82\x95\x33\x58\x36\xab\x30\x91\xf4\x5f\x5c\x2c\x66\x15\x3e\x28\xa9\xa3\x69\x26\x75\x1f\x7c\x84\xa2\xed\x36\xb7\x49\x42\x0d\xf9\xdc\x45\x56\x54\xd0\xdc\x17\x1b\x80\x7c\xa5\x47\x35\x7d\xf5\xf0\xa1\xe2\x8f\xf8\xf0\x0d\x2c\x6f\xd8\xcd\x51\xce\x7e\xf9\x85\x69\x07\x2f\xca\x1f\xe2\xb2\x6a\x3e\x79\x19\xe6\x9e\xef\x0f\xf0\x2a\xa9\xa9\xd4\x54\x8b\x04\x34\xf6\x45\x83\x06\x3e\xe1\x07\x32\x1d\xf0\xc8\x19\x08\x4e\x1c\xa2\x53\x25\x3c\xaa\xdf\xc1\xf6\xc5\x8c\x07\x2f\xcc\xca\x85\xbe\x7a\xa2\x43\xbf\x51\x5f\x70\x61\x37\x87\xb6\x4e\x2a\xf2\x86\x08\xc0\x10\xc1\xca\x35\xbc\xcb\x5e\x92\xa5\xec\x85\xda\x90\x8e\xf2\xf9\x01\x6d\xa0\x44\x60\xde\x60\x07\x5e\x8b\x46\x46\xf3\x0c\x6a\xd9\x43\x53\x66\xef\x16\x2c\x8b\x9c\x3d\x49\x92\xec\xe6\x4d\x58\x54\x71\x98\x90\x6b\x95\x1a\x87\x17\x60\x3d\x90\x48\x91\xdb\xf2\xa4\xf9\xe2\x0c\x96\xc3\x2b\x5a\x11\xf8\xc6\xbc\x38\xdb\xc4\xd5\xfb\x34\xcf\xf2\x2d\xe2\xf9\xe8\xc4\xbc\x00\xfe\xd1\x64\xb7\x71\xf3\x9a\x39\x0b\x66\xa8\x3b\xee\x20\x8c\xc4\xcd\xbb\xa2\x88\xda\x79\x85\x80\x68\xae\x66\xcb\x6c\x9b\x44\xe9\x57\x95\x20\x41\x2b\x94\xb8\x4a\xe9\xdc\x98\x2b\x81\xb8\xbb\x51\x81\xd2\x55\x81\x34\x52\x6f\xc3\x1b\x11\x83\x91\x0d\x8f\xbb\xf5\x90\x49\x74\xb7\xbd\x5e\x86\xdd\x70\x3f\x37\xc8\xd3\x56\x5e\x20\x5f\x1f\x1a\xd3\xcf\x5a\x70\x6b\xda\x63\x45\x08\x5a\xab\x1c\xd2\x7c\x94\x74\x8c\x61\x17\x02\xc3\xa8\x6c\x44\xef\x34\x69\xec\x50\x3d\x73\xe5\x68\x1e\x07\x0c\xe0\x2a\xa2\x11\xf8\x11\xf0\x77\x24\x82\x4e\x5a\xaa\xb9\x00\xdb\x1a\xe2\x23\x2a\x5b\xdc\x96\x65\x02\xa8\x06\x8d\xc3\xa0\xf6\xea\x08\xbc\xed\x40\x47\xa6\xed\x74\x8c\x48\xb5\x11\xd1\xe7\x31\xa8\xfb\x22\x7a\x9f\xd2\x99\x45\x57\x42\xeb\x39\x76\x5b\x72\xe6\x5a\x7a\xdb\x48\x0b\xbc\x7b\xf0\xf1\x44\x3d\x28\xef\x45\xa8\xa4\x67\x30\x85\x1d\x79\x1e\x92\x0d\x23\x10\x9f\xa7\xad\xa9\x19\x47\x81\x22\xe1\x8d\xab\x16\xa8\x40\x43\x33\xdc\xf3\x9e\xc5\x25\x9f\x25\x3a\x2c\xe4\x9d\x2b\x97\xb5\xec\x2d\xb3\xfc\x96\x79\xe8\x95\x3b\x0a\xfb\x45\xec\x1b\xa6\x98\x09\x6d\xa1\xe8\xb7\x80\x8d\xaf\x2c\x96\x22\x7d\x35\x15\x0f\x0a\xcf\xf1\x4d\x9f\xf8\x95\xad\xc4\x51\xe8\x00\xe9\x5a\xa8\xd3\x12\x10\x22\xd1\xdd\xf2\x18\xb2\x93\x24\x5b\xd4\xce\x84\xc9\x2a\x30\x63\x5c\xee\x3d\xc6\x04\xce\xdb\x23\x3c\x89\xdc\x21\x2e\x9b\xe3\xeb\x26\x5f\x23\x04\xe9\x82\x97\x7e\xc0\xd2\x0b\x1c\xe8\x6c\x19\x0f\xa1\xa5\xb5\x73\xed\xa2\xa0\x3d\x12\x80\x20\xf8\x14\xb8\x66\x8b\x33\x03\x3b\x85\xc6\xa6\x85\x43\xac\x52\xc4\x65\x60\x76\x3d\xdc\x8e\x31\x29\x16\x36\x5b\xd2\x07\xf0\x78\x36\xe3\x21\xd0\xf5\xd9\x47\xb3\xca\xf3\x86\xf3\x4a\xf1\xa2\xa7\x23\x8d\xb3\xd6\xa6\xaf\xdd\x75\x80\x9c\x22\x31\xf3\xd2\xb6\x14\xcc\x1a\x0d\x07\xf0\xdd\x59\x37\x72\x7a\x3c\xc0\x90\x0c\xae\x30\xee\x1e\x54\x82\x1f\x0f\xfe\x74\x06\xbf\x8e\xbe\x6e\x88\xf4\xb6\x48\xc8\xdd\x74\x46\xfe\x34\x56\x5a\xce\x34\xfd\x88\x10\xd0\x9d\xa5\x6d\x2a\x9e\x37\x95\xb7\xbc\x72\xe8\x7d\xb1\xd1\x85\x7a\x72\x90\x82\x07\x23\x2f\x76\x3c\xbd\x06\x0c\xd7\x4c\x78\x36\x13\x24\xe0\xed\x1a\x5b\xed\x64\x45\xc3\xaf\xbb\x7b\x96\x66\xd6\x2a\x64\x78\x3a\x79\x22\x5b\xf4\xbc\x63\x6b\x3c\x19\xb5\x33\x01\xb5\x97\xf4\xf3\xbd\xf0\xef\x51\xe5\x3d\x4e\xf6\x58\x98\x7e\xd7\xb3\xab\x76\x26\xd7\xcc\xe9\xdc\x35\x6f\x9f\x86\x91\xf1\xab\x21\x4d\x31\x85\xa9\x97\xbc\xb9\xc1\x44\x23\xb3\xee\xbc\xe0\x4b\x77\xb3\x0b\xa3\x88\x97\x0c\x7c\x18\x5c\x2f\xe2\x47\x22\x68\x3f\x47\xcf\xb3\xc5\xf3\x32\x21\x86\x8a\x27\x36\x3b\x8e\x0a\x87\x5e\xe6\x6a\x17\xec\xb6\xdb\x9d\xb3\x64\x78\x6c\xc7\x16\xcd\xa8\x76\x47\x55\x7d\x25\x21\x17\x64\x82\x5c\x06\xce\x8e\xd1\xaf\x7b\x99\x21\x84\xab\x0d\xc9\xa4\x5e\xbb\x02\x49\xc7\x9d\x54\x82\xe5\xf8\x84\x02\xad\x0c\xf5\x44\xce\x73\xd6\xa4\xcc\x79\x04\x84\x48\xe8\xb9\xc2\xc3\xa9\x29\x55\xdf\x64\x05\x85\x7d\x2f\xe3\x6b\x78\x22\x06\x8d\x8c\x65\xcd\x86\x47\x6d\xd4\x81\x2a\xf3\x49\xb0\x01\x9a\xf3\x58\x82\x60\xf3\xd7\xa4\x3e\xf0\xeb\xc5\xe3\x0f\xac\x3a\x70\x3d\x1b\xee\x9e\xc9\x8d\x1a\x4f\xd2\x5b\x53\x08\xc4\x6c\x7e\x31\x13\x24\x01\xe4\x1a\x98\xb1\xe1\xfa\xa2\x46\x78\x47\x3d\xed\x4a\xb3\xe1\xea\x4e\xd0\x15\xd2\xf1\x6b\xb7\x8c\x94\x42\x1a\x32\xce\x34\xa0\x9d\x61\xd6\xc6\x1f\x48\xeb\x9d\x7a\x2e\x6a\x5a\xc4\xce\x8e\x55\xa1\x73\x8d\x80\x97\x75\x89\x99\x16\xba\xc0\x23\x4b\x31\x4d\x67\xb3\xc1\xb0\x0d\xbe\xc2\x93\xb7\xbc\x9a\xb3\xc2\xbc\x27\xa8\x16\x16\x45\x68\x6c\x44\xcb\x8f\x91\xde\xd1\x11\xe7\x32\x3e\x4a\xdf\xd7\xae\xec\xf1\x73\x23\x7e\xfc\xad\x9e\x8a\x66\x1e\xaa\x05\xc3\xb6\xd3\x17\x07\xa0\x60\x41\x46\xb6\x09\x50\x0a\x0f\x0d\xa1\xe6\x34\x81\x48\xd8\x16\x9c\xd5\x42\x83\x4b\x6a\xf0\x4a\x7b\x17\x56\x4f\x62\xef\x2c\x1d\x5f\xdc\x7a\xf1\xdc\x90\x70\x0e\x78\x18\x9a\x26\x48\xd9\xcf\xa7\x14\x03\xee\x48\xe2\xe2\x0f\x5d\x54\xc6\xbc\xc0\x2b\xbe\x2d\x00\xc5\x47\x6a\xb9\xce\xbd\x86\x0c\x75\xe0\x7c\x09\xf8\x30\x89\xab\x7a\x3c\x50\xb0\x67\x66\xb3\x19\xc8\xd3\xdd\x19\x8f\x71\xd2\x97\x76\x04\x64\x6c\x7a\xc7\x68\xe4\xa3\x9d\x2e\x40\x6a\xbc\x3f\xc3\x97\x48\xf2\x95\x33\x58\x07\xe5\xf5\x48\xfc\xec\x6e\x26\x40\x1d\xd4\x29\x30\xd2\xdf\x4a\x1e\x20\xcb\x84\xdc\x5f\xc0\x95\x79\x4a\x94\xc9\x3b\xb2\x23\x81\x74\xe2\x24\x7b\x8c\x76\xab\x37\x7b\xa0\xb3\x29\x0f\x64\x0e\x4c\x22\xbd\xc2\x00\x6c\x80\x1e\xeb\x80\x2e\x7d\xf0\x7c\x89\x93\x63\x56\x41\x9d\x48\xd0\xea\xab\x93\x55\x20\xb1\x33\x8a\x87\xda\x62\x48\x8f\x51\x26\xbd\x26\x3f\xa9\xc8\xa8\x5c\x32\xf1\x56\x87\x11\x18\x2d\x1e\xb7\xbd\xdf\x41\xdc\x8e\xe9\xcb\xbe\xcf\x02\xe3\x10\x26\x16\x84\x1d\x37\xa3\x3d\x33\x87\x8f\x9a\xae\xd7\xc7\x4c\x1c\x3b\x49\xb5\xf6\xee\xe5\x81\x36\xd9\xb0\x55\x36\x68\x97\x31\xbb\x66\x28\x06\x4d\x33\xf6\x3b\x93\x6b\xbb\x67\x45\xf7\x39\x9f\x87\xdd\xcf\xbd\x0e\x68\xe1\x63\x7f\xbc\xe4\x3a\x9c\x0f\xf5\x4c\xf3\x88\x4c\xfa\x71\x15\xbf\x43\x06\x6a\xb6\xee\x39\x99\xd0\x9a\x58\x0f\x29\x91\x85\xc6\xc3\xea\x17\x63\x13\xf5\x8a\xe4\x9c\x4e\x87\xa5\x7c\xcc\x4b\x12\x26\x8c\xac\xd4\x71\xcd\x29\xe6\x74\x54\xeb\x37\xb8\xc3\x95\x56\x7e\x6b\xe8\x7b\xd0\xe9\x71\xcc\xd7\xac\xa9\x21\x6d\xda\xf5\xf8\x2b\x69\xf6\xe0\xfd\xdb\x1f\x82\xbf\xe1\x43\x5a\x83\x58\xc1\x29\x32\x75\x23\xd4\xd6\xb0\xb3\xbd\x73\x16\x1b\x5f\x9b\x93\x9a\x62\xc1\x0f\x19\x87\x4d\xd5\x8c\xc6\x9c\xcb\x60\xa2\x21\xbf\xfe\x4e\xa7\xd4\xa8\x95\x2e\x8c\x5d\x37\xb2\x1a\x9d\xb4\xc6\x31\x16\x5e\xa7\x3a\x5b\x75\xf8\x00\x2d\xd2\xe1\x83\xba\xf5\x6b\x18\xb1\x83\xcc\x33\x6f\x50\xa7\xc9\x2e\x38\x6a\x1d\xc8\x1f\x0c\x77\xf7\xee\x09\x43\xa7\x09\x78\x07\x28\x4d\xec\xd7\x06\x63\x04\x3c\xb6\x63\xbd\x1c\xf9\x2e\x0e\x38\x29\xd0\xc3\x60\x9f\x76\xef\x8d\x9c\x0e\x1d\x1e\xb0\xd8\xfe\x8f\xe6\x20\x75\xb7\x84\x1e\xff\x68\x7d\xa8\xa1\x61\xb9\xf8\xfb\x18\x1f\x3f\xcf\x45\x7b\xda\x18\x20\x85\xbf\x9c\x52\xee\x61\x87\xfa\x5a\x1e\x89\xe0\xf4\xe5\xdb\x0c\x1c\xb8\x6a\xef\xb3\x43\xa7\x1e\x6a\xe4\x56\x38\x31\xa0\xd1\x73\x0e\xb4\x8f\x75\xce\x38\xa0\xa3\x64\x1d\x46\x5c\x77\xe8\x54\x03\xe5\xd2\x47\x98\x19\x15\x33\x84\xb7\x27\x51\x9d\x1b\xf6\x30\xce\x4f\x54\x0c\x86\x33\xb0\xc6\x1e\xa6\x40\x61\xc6\xcc\xbc\xce\x91\x8b\xc6\xa9\x09\x26\xd2\x3c\x3a\x31\x7a\x68\x62\xd7\x99\x09\x33\x42\xe4\x65\xba\x22\x18\x3c\x5a\xa5\xc5\x3f\x9d\x9a\xe8\xd2\x40\xe5\x85\xc3\xbd\x05\xbd\x68\x6f\x32\x5a\xae\x71\x4e\x02\x7a\x13\x26\x65\x86\x53\x20\x6b\x98\x37\x29\xb0\xa2\xa7\xe3\xad\x9b\x8d\xef\x08\xef\xfb\x9b\x8b\x12\x47\x77\x84\xbf\xab\xa2\x9d\x15\xf4\xe0\xa0\xcc\xa1\x12\x99\xf9\x9f\x7d\xc8\x03\x49\x7c\xfe\x21\x0f\xa7\x76\x9d\x8e\xd7\x73\xc6\x23\x65\x38\xcb\xda\x0b\xec\x81\x6b\xba\x71\xa4\x92\x51\xdb\x64\x15\x59\xdf\x98\x1c\x12\xa6\x78\x5d\xd2\x4f\x78\x1a\x3d\xe7\x8b\x99\xf8\x19\x5f\xd6\x04\x9b\x33\x01\xe4\xba\x91\x08\x10\x51\x46\x57\x94\x94\xb7\x65\xa5\x37\x73\x14\x2e\xa0\x95\xc4\x57\x3a\xb1\xe7\x44\xc8\x63\x38\x5b\x67\x65\x75\x42\x63\x57\x1f\x04\xa9\x7b\xe0\xd9\xa6\x6c\x28\x71\x28\xcb\xef\xf0\x23\x20\x18\x12\x30\x22\xc7\x41\xbb\x55\xfc\xc9\xb6\x08\x53\x49\x37\xc3\x89\x4d\x6f\xf8\x38\xe5\xc7\x27\xc7\xc7\x33\xf5\x6f\x76\x24\x48\x59\x6d\x5b\x8e\x2c\x00\x4b\x96\xda\xde\x87\x29\x11\x2b\x6c\xa7\x72\x61\x1e\x82\xae\x1e\x9b\x4a\x0e\x18\xf0\x59\xff\xd9\xab\x8c\x27\xd2\x49\x85\xe4\xdb\x2d\x58\x06\x28\xd5\x07\x09\xdd\x64\x05\xac\x49\x4e\xaf\x54\xb2\xd3\x93\xaf\xf6\x16\x6f\xdb\x24\xdd\xec\x9c\x6c\x99\xf9\xd3\x06\x7e\x3a\x28\xfb\x8e\x0c\x88\x96\x79\x27\x4c\xe3\x5b\x3e\xe1\xe2\x98\x82\xf0\x49\x7f\xea\xd6\x78\x6c\xea\x10\xc0\xef\xda\x4d\x63\x27\x5b\xb0\x25\x06\x9c\x23\xf5\x7a\x2e\xd1\x73\xce\xb8\xc8\xad\x0d\x83\x49\x81\x02\x68\x09\xbe\x82\xae\xf0\xb6\x8c\x45\x2d\x4a\x0d\x61\x93\x05\xf5\x81\xc9\x81\xa6\x68\x8d\x0e\x76\xa4\xf5\xb5\x32\x00\x1b\x99\x82\xcd\x0c\xbf\xf6\xa1\x96\x49\xfb\x5c\x8b\x41\xd9\xee\x45\x07\xbd\xc9\x7f\xe3\x47\x5d\x46\xe7\xdd\x1e\x79\xf9\xcd\x67\x7e\x28\x4d\x92\xe0\xcc\xf0\xd4\xce\xdb\x68\xb3\x2f\xd9\xb1\x3e\x67\x63\x23\x3d\x38\x8f\x0b\xbc\x73\xe2\x11\xae\x61\xf8\x36\x67\x1f\xba\x71\x62\x99\xc7\x74\xa6\x05\x71\x01\xf4\xe1\x11\x56\xe0\xaf\xb4\x5f\x88\x79\x50\xdf\x1f\x80\x6f\x04\xa8\x3c\xab\x3e\x99\x34\xfa\x77\x88\x6f\x97\x74\xc3\xc4\xb6\x90\xfc\x1a\x82\x0a\xb2\x70\x61\x39\x02\xd8\x4a\xf8\x64\x1a\xef\x73\xa0\xb9\x29\xa1\x1d\xec\x6e\xd0\xa2\x06\xbe\xca\xb6\xc4\x59\x90\xbc\xed\x6d\x0c\x84\x75\x6d\x68\xc4\x0a\x92\xa3\x12\x28\xf5\x2a\xab\xe4\xa6\x3c\x24\x89\xb4\x48\x53\xac\xc3\x6b\x30\xf1\xe4\x06\xdc\x71\x48\x42\xed\x2c\x28\xb3\x59\x2e\x8b\xa2\x1b\x71\x50\xf3\x1b\xd6\xf0\xde\x41\xc9\x7e\x0c\xcd\xc9\x41\x56\xfc\x14\x6c\xb3\x39\x96\xf6\xee\x0a\xe7\x2a\x2b\x3c\x30\x28\x1b\xae\x1c\x43\x68\x8e\x1d\x1f\x3d\x70\xa2\x6e\xc3\xfb\x81\x9b\xa6\xd3\x53\x48\xb2\xb3\x47\xae\x3a\xdb\x03\x1d\xfe\x66\x87\x0f\x2c\xe2\xc1\x40\x5d\x3b\x37\xaf\x79\x46\x80\x1c\x73\x84\x7f\x71\x03\x18\x38\x4a\xb5\x53\x61\xb7\x9d\x6e\xbd\xca\x66\xd4\xe7\xd6\xb6\xaf\xc4\xe1\xc6\x68\xac\xed\x74\x33\x1e\x1a\x69\xc6\x3d\x84\xe4\x1e\xdd\x6e\x3b\xdd\x9c\x7c\x39\x86\x79\x92\x03\x6b\xdf\xac\xe9\xde\x13\xf4\x4e\xfc\xe9\xf1\x63\x37\x19\x18\xec\x2c\xc9\x78\x25\x7b\x2a\x87\x21\x64\x36\xb1\x42\x4a\xb4\xd8\xb6\xa2\x05\x54\x55\x18\xf8\xa3\xe3\xab\xd4\x0b\x77\xfd\x49\xd6\x21\xc0\x68\x32\x61\x6a\x1e\x0d\x13\x3b\x9d\x82\xe6\x28\x51\x8f\x53\xb0\x77\xd8\xc7\x7d\x82\x5c\xe6\x70\xa7\xe0\x21\x4e\xbc\x53\xba\x36\xf6\xec\xf5\xb7\x83\x7e\x3c\xcc\x72\xa8\x13\x1a\x49\xe3\x90\xef\x88\x03\xa8\x8e\xe3\x6e\x4f\x9f\x60\x8f\x4b\xd0\x12\x9d\xf9\xce\xd9\x9b\xc2\x49\x20\x45\xc2\x8e\xdb\xe9\xf5\x5f\x77\xbb\x1d\x1b\xe9\xa3\x60\x6a\xcc\x1c\x99\x39\x51\x5f\x3d\x88\xbe\x22\x33\xa0\x6e\xc3\xb6\xcd\x4e\xd5\x32\xdf\x25\xcd\xd3\x83\xfd\x8c\x83\x6e\xc6\x21\x2f\xa3\x33\xb4\x3b\x7c\x8c\xc8\x70\x8f\x8f\xb1\x33\x42\xee\xa0\xb4\x4e\x26\x3d\xac\x2f\x1b\x98\xb4\x6e\x1b\x70\x14\x50\xfb\x50\xe0\x1e\xf1\x81\xdd\xd1\x01\x06\x04\x0d\x0f\xd0\x61\xf1\x81\xce\x71\xc2\xa9\xb5\x76\xc5\x1d\x04\x75\xf6\x0e\x09\xd0\xad\xae\x7c\x24\xa1\x80\x15\x54\x2a\x6c\x88\x0c\x13\xd8\x97\x27\xb2\xfb\x35\x36\x5f\x0f\x31\xc1\xdc\x04\xe0\x50\xd5\x90\xd3\xd7\xa8\x82\x3d\xba\xb5\x47\x7c\x60\xe0\xb8\xa1\x75\x1d\x8d\x1d\x30\x1c\xf3\x98\x1b\x2f\x26\xd4\x23\x71\x70\xb7\xa8\x41\xf3\xb7\x5d\x6e\xd8\xbe\x66\xcf\xc3\x3b\xcd\xc6\x67\x2b\x69\x41\xd6\x9b\x4d\x1d\x15\x5f\x2e\x25\xc3\x88\xf5\x46\x67\xec\x6c\xec\xb4\x79\xb7\x58\xc9\xd7\x0c\x34\xfc\x9b\xd8\xea\x3b\x7e\x6e\x1d\x9c\xa6\xe0\x7d\xfb\x66\x36\x84\x89\xb3\xe3\xd9\xb8\x8b\xb8\xf6\x0e\xf7\x59\x81\x39\x7b\x11\xc6\xeb\x0f\x66\x03\xda\x55\xcd\x23\x43\x09\x0c\x86\x22\x41\x02\x1a\xc9\xb7\xe1\x8d\x80\xcf\xad\xf9\x6c\xdf\xd9\x17\xf4\xb4\x39\xda\xed\x90\xbc\x0d\xf4\xf7\x79\xb2\x9d\x71\x1d\x72\x5c\xab\xfa\xca\x82\xfd\x7c\xc6\x54\x0e\xd7\xc3\x97\x6e\x96\xab\xf2\xea\xaa\xdf\x65\x74\x28\x51\xfe\xec\xc2\xcc\xb7\x46\x21\x05\x29\x67\xd6\xed\xfc\x37\xeb\x63\x97\x6b\xdf\xea\x50\x28\x85\xa4\x41\x00\x03\x5b\xf8\x19\x14\x49\xea\xfb\x65\x65\xca\x31\xbf\x0c\x4d\x18\x97\x15\x69\xae\x7b\xa8\x62\x88\x9e\x89\xc6\x38\x09\x13\x23\x4c\xce\x55\x33\x2f\xef\xce\x6d\x1f\x9d\xb1\xf7\xf7\x0f\x22\xd0\xb5\xc0\x1a\x7c\xba\x16\xad\x3b\x43\x60\xe8\x58\x77\x96\x7d\xe1\xb6\x8e\x24\xb7\xf2\x49\xe6\x7c\x56\x78\x84\xa1\xbe\x40\x54\x53\xce\x1b\x6d\xca\x19\xc0\xd6\xb7\xb6\xb5\x29\x52\x93\x61\x64\x61\x28\xd6\xd0\x15\x1d\x2a\x3e\x26\x3a\x86\x6c\x6e\xd7\x38\x57\x31\x47\x19\x0f\x18\x0d\xa6\xf1\xbb\x0f\x87\xbb\x60\xa9\x2d\x90\x51\x11\x14\xde\x03\xe8\xb0\xe3\xae\x30\xac\xb3\x80\x09\x6b\x75\xd4\xe5\x61\xe1\x50\x37\x02\xc7\x87\xb6\x60\x58\x7e\x5d\x00\xce\x46\x7e\x76\x05\x29\x86\xa3\x14\xc3\x61\x8a\xe1\x38\xc5\x60\xa0\x82\xaf\xae\xec\xc9\xe5\x76\x42\x15\x1c\x87\xfd\x6c\x45\x2d\x69\xdb\x34\xf4\x92\xb2\xad\x1e\x5c\xcf\x4c\x7c\xd7\xaa\xeb\xa7\x7c\xbe\xac\xfd\x37\x1a\x3c\xfe\xb3\x0f\x00\xa7\x9f\x6e\x57\x80\xdb\x39\xfb\xc7\x39\xab\xa9\xdc\x78\x99\x49\x7d\xe9\x5e\x5c\xbd\xf3\xfa\x4a\xfb\x77\x2c\xf6\x75\x48\xbf\x7a\x72\xfe\xee\x33\xaf\xaf\xa4\x6a\x58\x5f\xb1\x11\x6f\xbf\xcb\x1d\x3f\xf4\x27\x4a\xf8\x76\x9f\xb2\xb8\xe6\xef\xf6\x5e\x72\x81\x2d\xdd\x2b\xd1\x27\xfb\xdd\x89\xde\xbe\xdc\xe6\xdd\x76\x61\x67\x1f\x9b\xc7\xc5\xbe\xd5\xf0\x14\x33\x6a\x17\x7c\x67\x68\xe7\x96\xf4\xa0\x79\x91\x68\x6f\x99\x19\x71\x1f\x74\x2e\xd4\x7b\x59\x5e\x52\x3f\xfd\x7d\xd1\x03\x81\xac\x36\xcf\xce\xd5\x30\xce\xe4\x37\xaf\xe4\xc7\x23\xf2\xce\x34\xed\x7b\x4d\x28\xcd\xcc\xee\x6b\x42\x6b\xca\x3b\xcf\xde\x37\xfe\x34\x4a\x60\xc7\xd6\x9e\xbf\x77\x66\x78\xe0\x7a\xd0\x71\x0a\x12\x6d\xfb\x9c\x5b\x42\x27\x43\x94\x1b\x27\xed\xf9\x37\xf6\x98\x4f\x7e\xfd\xee\xd7\x8b\xd6\x03\xb2\xdf\xf5\xa2\x8d\xbb\x45\x9b\x5d\xc2\xd3\xe6\xb6\x57\x07\xdd\x2f\x8a\xfd\x1d\xb8\x7c\xc9\x1a\x5d\x9d\x32\x8e\x1f\xba\x2e\xd1\x77\x0e\xfd\x80\x0b\x48\x1d\xf1\xf8\x55\x17\x90\x3a\x74\xec\x71\xc2\x83\xfe\x20\x06\x6c\x37\x8f\x86\x04\xa6\x73\xb7\xe8\x81\x57\x58\x3a\xde\x1f\x1e\xd4\xd6\x3d\x32\xfd\xf7\xa2\x94\x97\xa2\x2f\x41\xad\x0c\x3b\x7d\xba\x19\x5f\x7d\x57\xc7\xfc\x01\x4e\xa5\xe0\xd9\x99\xe7\x7c\x0a\x09\xaf\x1b\xfd\xe6\x80\xbb\x46\x1f\xee\x75\x45\xe5\xb4\x21\xb9\x3b\x12\x46\x68\x60\xf7\x48\x18\xa1\x04\x91\x6c\xf1\x0f\x0c\x84\x8a\x0f\xa0\xb4\x72\x61\xae\x94\x7c\x89\x77\x5c\x90\xdf\x33\x23\x01\x94\x3f\xa8\x47\x41\xf5\x2d\xb6\x8d\xce\x47\x4a\x19\x47\x9f\x79\x19\xa3\x3e\x96\x3b\x13\x1a\x79\x24\x3d\x7c\x0f\x5d\x18\x8b\x77\x3d\x99\x20\x29\xd4\x77\x37\xd6\x7f\xb1\x7c\x92\x5d\x07\xee\x7e\x4d\x42\x89\x91\xa9\x65\xf0\x66\xbb\x48\xe2\x72\xed\xc9\x3d\x57\x84\xb5\x1c\x15\xc4\x07\x91\x25\x62\xe1\xdc\x00\x66\xfc\x2b\x9c\x5b\xb1\x82\xcd\x14\xef\x63\x38\xe7\xcb\x1d\xae\xb4\xad\x22\xf7\xe4\x13\x39\x39\x5e\x3a\xb7\x37\x53\xc2\x13\x3b\x27\x92\x67\x51\xe7\xb3\xc7\x55\x50\x6b\xb0\xf6\x79\x68\xfe\xde\x3d\xbb\x3d\xfb\xfb\x74\xf2\x92\x19\xc0\x93\xb6\x30\x03\xf2\xee\xbf\x9b\x07\xbb\x5b\x9b\x5b\xff\x22\x70\x2f\xfd\x68\x38\xc8\xea\x3b\x27\x42\xb9\x7f\x6b\x9f\xd5\xd0\x16\x68\xbe\xe5\x61\xfc\x4e\x89\x11\x79\xe6\xe3\x55\x24\x23\xcd\x6b\x1e\x1a\x79\xf6\x76\xf0\x7a\xee\x97\x98\x2b\x1e\x2a\x16\xba\xe6\x6d\x13\x67\x7d\xe2\x43\xa2\x33\x26\x33\x07\xe0\xe8\xcf\x4f\xec\x70\x6a\xef\xb8\xbd\x13\x3b\xff\xbf\x7d\x7b\x67\xcd\x5d\x17\xd9\x0f\xc2\x43\x19\xd0\x1a\x1d\xee\x93\xb7\xd1\x7f\x49\xe6\xbe\x16\xc1\x81\x37\x64\x9a\x34\x82\xc1\x5b\x32\x3b\x00\xcc\xf6\x49\x92\x08\xec\x55\x99\x9c\x4e\xb0\xc3\xbe\x98\x3a\x79\x02\x0d\xed\xef\x26\x07\x0c\x40\xb6\x46\x5a\x40\x3b\x2b\xa0\x9d\x14\xd0\x48\xc2\xfc\xc3\xdc\x76\x49\xf6\xc8\xe7\xde\x09\x39\x30\x20\xbd\x4a\x6e\xbf\x3b\x21\x0d\xda\xfa\xdd\x6e\x7f\x1c\x60\x79\x0f\x00\xa8\xc6\x11\x20\xee\x4c\xdb\xc2\xd9\x44\x46\x0e\xc1\x38\x40\x4c\xaa\x75\x8e\xbe\xc8\xf3\x40\xf6\x98\x1e\x78\x66\x22\x81\xa6\xa4\x5c\x45\x62\x4e\xe7\xb4\xc2\x65\xbd\x97\x4f\xfe\xd1\x30\x69\x5f\xbc\x6c\x1c\x94\xf6\x5f\xc5\xed\x0a\xb5\x40\xd3\x7e\x64\xda\x1b\xbd\x6a\x00\xd3\xd6\x65\x98\xe6\xef\x21\xeb\xb2\x91\xec\x38\xb2\x3b\x63\xe7\x8c\xae\x07\x29\x6a\x43\xd5\x23\xe2\xf5\xb7\xc1\xab\xfb\x9a\x32\xbb\x82\x56\xff\x7a\xf8\x54\x82\x6b\x87\xc3\x53\x23\x7e\x78\x51\x2e\xfc\x6a\x1d\xac\x34\x32\xf5\x3f\x61\xe5\xb2\xe2\x8c\x7c\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x02\xff\xed\x5d\xeb\x73\xdc\x36\x92\xff\x3c\xf3\x57\x20\x53\xb1\x43\xfa\x46\x94\xb3\x55\x77\xb5\xa7\x94\xae\xce\x0f\x25\xf1\x6e\xfc\x58\x5b\x4e\x3e\xa8\x5c\x59\xce\x10\xa3\xe1\x8a\x43\xd2\x24\x47\xb2\x56\xd1\xff\x7e\xfd\x02\x08\x3e\x67\xc6\x49\xae\xb2\x75\xe7\x4a\xa4\x19\x12\x68\x34\x80\x46\xe3\xd7\x0f\x40\xc7\xc7\xea\x59\x16\x69\x75\xa9\x53\x5d\x84\x95\x8e\xd4\xe2\x56\x2d\xc2\x22\x4b\x03\xf5\xfc\xb5\x7a\xf5\xfa\x5c\x9d\x3d\x7f\x71\x1e\x4c\x8f\x8f\xd5\x5b\x5d\x6c\xd3\x34\x4e\x2f\xb9\x80\xba\x89\x93\x44\x65\xd7\xba\xb8\x29\xe2\x4a\xab\x6a\x1d\x97\x6a\x15\x27\x9a\x0a\xff\xa8\x8b\x32\xce\xd2\x13\x75\x77\x17\xc8\xe7\xfb\x7b\xe7\x85\x7a\x0e\xad\xb9\x6f\xf1\x3b\x94\x98\xe6\xe1\xf2\x2a\xbc\xd4\xf8\xe6\x0d\x7f\x7c\x15\x6e\xe8\x0d\x54\x3e\x37\x6d\xa8\x65\x96\x56\x61\x9c\x96\x6a\xa3\xab\x75\x16\x95\xaa\xca\xd4\x26\xbc\xd2\x2a\x4e\xa3\xf8\x3a\x8e\xb6\x61\xa2\x74\x1a\xe5\x59\x9c\x56\x50\xa5\xc8\x36\xaa\xd4\xc5\x75\xbc\xd4\xe5\x1c\x29\x15\xfa\xe3\x56\x97\x95\x0a\xd3\x08\x3e\x97\x79\x96\x96\xd0\x85\xdb\x5c\x13\x25\x2c\x8a\x3d\xca\xe0\xa1\xa5\x32\x57\x61\xa9\x6e\x34\x74\x1a\x7e\xeb\x74\x09\xe3\x56\x94\x48\x00\xe9\x45\x5a\xbe\xaf\xb2\x42\x2a\x12\xb5\x39\x3d\x08\x71\xa4\x56\x2a\xdb\x16\xaa\xdc\xe6\x79\x56\xe0\x48\x57\x45\x98\x96\xf8\x19\x9b\x8b\xc3\x24\xfe\x67\x58\xc1\x40\x20\x35\xa8\xb3\x09\xab\x32\x98\x4e\xe3\x0d\x95\xf0\xa6\x93\xd9\xe2\xb6\xd2\xe5\x0c\x3e\x60\xdf\xf5\xa7\x0a\x3f\x12\x1b\x30\x25\xc7\xff\x28\xb3\x14\x1f\xac\x36\xf4\x3c\xce\xf8\xe7\x71\x9c\x6d\xab\x38\xc1\x2f\xa9\xae\x8e\xd7\x55\x95\x9b\xcf\xdb\x82\x1e\x97\x55\x01\xf4\xae\xe5\x23\x90\x82\x26\xe0\xf3\x65\x5c\xad\xb7\x8b\x60\x99\x6d\x8e\x2f\xb3\xa3\xab\xb8\x3a\xc6\xff\xcd\x58\x40\xe9\x30\xbd\xcd\x17\x6a\x76\x99\x65\x97\x30\xe5\x97\x59\x12\xa6\x97\x41\x56\x5c\x1e\xe7\x45\x56\x65\x8b\xed\xea\x98\xfa\x7f\x7c\x95\x66\x37\xe9\x31\x95\x86\x5a\xd1\xb6\xa0\x4e\x1e\x50\xb5\xae\x02\xf5\xf5\x26\xaf\x0e\x69\x57\xca\x43\xcd\x55\xac\x93\x68\x13\x96\x57\x07\xd4\x76\xea\x00\x05\x18\x9e\xed\xb2\x3a\xa0\xba\xa9\x00\x75\xab\x78\x03\xd2\x16\x6e\xf2\x03\xaa\x3b\x75\x80\xc2\x4d\x11\xe6\x39\x08\xd8\x01\x04\xea\x2a\xdd\x29\x2d\x60\xf1\x86\xc7\x9b\xed\xa7\x59\xf3\x4d\x7e\x75\x79\xac\x8b\x22\x2b\x48\xd2\x46\x1a\xb2\x92\x47\x4f\x8c\xf8\x8d\x54\xa0\x0f\xc8\xc8\xdd\xdd\x91\x8a\x57\x4a\x7f\x54\xc1\xb3\x2c\x5d\xc5\x97\xc1\xb9\x5d\x09\x33\x58\x29\x33\x35\x4b\x41\xf8\x67\x0a\x16\x7d\x83\x37\x7c\x7a\x04\x32\x8d\xbf\xa1\x89\x19\x93\x02\x99\xc4\x82\x7b\x50\xbd\x2c\xf2\xa5\xa1\xda\xe1\x93\x5e\x0e\xbe\x39\x06\x35\x13\x46\x61\x15\xb6\x1b\xdd\xbb\x49\xfc\x54\xaf\xf8\x81\xf5\x65\x0b\x18\x76\x9c\xb6\x70\xed\x1e\x40\x40\x96\xfa\x41\x83\x8d\x9f\x0e\x68\x82\x2a\xba\x3c\xfa\xd3\xe9\xf4\x3a\x2c\x50\x5b\xfd\xac\x4e\x15\xe8\xa2\xe0\x5d\x0e\x3a\xa5\xe2\xef\xa4\xc0\x80\x8d\x4d\x1e\x16\x9a\x1f\x89\xf6\x09\x9e\x54\x59\xcc\x4f\x1a\xdd\x0c\x5e\xe9\x9b\x77\xa8\x8b\x0b\x7e\xc9\xda\x2c\x78\x95\xe5\xcf\x12\x50\xb1\xf6\x29\x10\xcd\x6f\xf9\x0b\x0b\x6f\xf0\x13\xc8\xfe\x74\x02\xaa\x54\xe6\xd3\x88\x21\x6b\x65\x2c\x4a\x2a\x29\x78\x92\x52\xbd\x5a\xc9\x04\xcf\xe5\x23\x3e\x16\xf5\x11\x9c\xe1\x6f\x7c\x60\x96\x74\xf0\x8e\x3e\xe0\x23\x67\x99\x06\xe7\xe6\x33\xbe\xa8\x97\x1f\x96\x86\xa5\xf2\x63\x98\x6c\xa9\xdf\x8e\x5e\x09\xbe\xc5\xcf\x2f\xe1\x33\x8e\xde\xf1\xa3\xbd\xfe\xa9\x33\xbb\xb3\x3d\xda\xfb\xdf\x31\xed\xa0\x2f\x52\x15\xf2\xf6\x56\xcc\x55\x5c\x7d\x55\xaa\x6d\xa9\x57\xdb\x84\xb6\xa9\xd5\x36\x5d\x62\xd7\x61\x0f\x5c\x87\x95\x4a\x35\xee\x52\x99\xca\x72\xc2\x06\x2a\xc3\xba\xf0\xf9\xc8\x6c\x03\x48\x70\x11\x96\x71\x19\xa8\x6f\xa1\xba\xfe\x04\x3d\x4f\xf4\x5c\xdd\x66\x5b\xb5\x89\x2f\xd7\x95\xca\xc3\x12\xb7\x48\x87\x61\xa0\x17\xda\x86\xb8\x1d\x98\x9b\x68\x0b\x1b\x33\x92\x83\xb2\x28\x01\xc1\xf7\xb0\xaf\x26\xc8\xe3\x0d\x08\xa1\xd2\xe1\x72\x2d\x3b\xbd\xf2\x4c\xeb\x3e\xbc\x2b\x80\xc3\x6d\xce\x44\xcb\x5c\x2f\xe3\x55\xbc\x84\x46\xab\x75\xa0\xbc\x17\xc4\x1f\x00\x06\xa0\xbf\x08\x17\xc9\x2d\x94\xd9\xc4\x30\x3d\x84\x12\x60\xc7\x2e\xe3\xcb\x14\xab\xc6\xe9\x75\x76\x85\xdb\xbd\x56\xef\x18\x23\x58\x54\x41\x2c\x6a\xa4\x53\xf7\x80\x65\x00\x49\x98\x91\x0c\x7c\x28\x61\x47\x77\x99\xc4\x3a\xad\x9a\xa3\x0b\xad\x2c\xb3\x24\xd1\x54\xcf\x00\x14\xe0\x08\x84\x9f\xc9\x41\x3f\x6a\xb8\x02\x3f\xa0\x43\x48\xb0\x04\xb1\x49\x18\x4a\xf0\x58\xc5\x38\xc2\x1b\x4d\x23\xe9\xf0\x0b\x35\x74\xb1\x0a\x97\x7a\x68\x26\x90\x98\x6d\xac\x1f\x24\x6d\xb1\x31\xd5\xd4\x20\xb8\x00\x9f\x49\x7f\x40\x0f\x2c\xe2\x94\xc6\x69\x23\x2c\x3a\x13\x3b\x17\x28\x55\x6d\x8b\x14\xba\x8e\x3d\x46\x06\x97\xd0\x4d\x5d\x20\x62\x0a\x0d\xb3\xc1\x94\xba\xd3\x19\xd0\xbb\xe9\xe4\x7d\x6a\xfb\xa7\x23\x40\x80\xa6\x06\x43\x40\xd1\x04\x77\x77\xc0\x22\x20\xc4\x2f\x63\x75\x72\xaa\x6c\x99\x97\x3c\x65\xac\x96\xbf\x8c\xa5\x8e\x69\x45\xc1\x3f\xd3\xd5\xc0\x3c\x04\x52\xac\xb8\x18\x5d\x5a\x8e\x76\x37\x81\x02\x0c\x92\x58\x57\xf1\x95\xd3\xa8\xb7\xac\x3e\x29\x41\x69\xa8\x76\xf1\xf7\x1c\x05\xe6\xd1\xdd\xdd\x77\x19\x96\x01\xca\xc1\x5b\x86\xa0\xe7\x30\x18\x52\xcf\x57\x5e\xab\x04\x03\x53\xa7\xc8\x9c\x15\x9c\x8f\xa3\x65\x70\x2b\x3d\x43\x46\x75\xd0\xd3\x73\x64\x06\x1b\xf7\xa7\x13\xdc\x08\xa0\xe4\x17\xa7\x2a\x8d\x13\xa4\x30\x91\xf9\x82\xaf\x44\x64\x3a\xb9\x9f\x9a\x67\x86\x7a\xb0\x93\x27\x7f\x8e\x04\x60\x10\xcd\x70\xe2\x60\xbe\xc4\x65\xe6\x8e\x28\x2d\xe4\x2f\x41\x8d\xe0\x88\xde\x63\xe1\x23\xe5\x8e\x32\xbc\x1a\x1a\x68\xa4\xd5\xd7\xb3\x12\x07\xdd\xa9\xe6\x8a\x89\xdf\x9d\x6e\x1e\x33\xea\x1c\x92\xed\x9f\x25\x63\x18\xd8\x15\x75\x87\xd3\x62\x4d\x04\xe7\x31\x0f\x7b\x3d\x1d\x40\xfb\x23\x76\x44\x28\x74\xc6\xad\x33\xdb\x50\xe5\xda\xce\x5d\x19\xb4\x04\x88\x58\xc1\x32\xdd\x59\xeb\x4e\x1b\xce\x9b\x79\x7a\xcd\xd3\x31\xb9\x9f\xf2\x20\xf3\x9c\xb8\x73\x83\x9b\xe3\x93\x24\x39\xfb\xb4\xd4\x79\x45\xfb\x54\xc9\x2a\xd6\x8e\x14\xed\x50\x68\xb2\xc8\xda\xac\x17\x2b\x4d\x23\xe9\xa6\x1e\xbb\x20\x78\x19\x47\xa0\xb6\x6f\x60\x7f\x27\x2b\xf0\x7d\x69\xec\x42\x34\x82\xf2\x3c\xb9\x45\x15\x83\x6a\xb3\x42\xe2\x1b\x5b\x9a\xf6\x05\x0d\xd3\x76\x6b\xa7\x0d\xd7\x0b\x6a\x90\xd2\x68\x0d\xa0\xf7\x3a\xc7\x5d\x03\x35\xe7\xdc\x51\x5c\x4b\xd0\x43\x0b\x4d\x7b\x0d\xa8\x51\xa8\x06\x36\x6c\x8a\xc3\x0e\x34\xe1\xb9\xfe\xb4\x4c\xb6\x11\xbc\x21\x2b\x70\xa1\x91\x05\xde\x9b\xa3\xa0\x33\x1a\x5e\xcd\xd3\x5c\xcd\xde\x55\x61\xb5\x2d\x67\xf0\xe9\x0d\xd4\x9a\xf9\x76\xdd\x3f\x72\x16\xfe\x50\x7d\xd5\x33\x2a\xf3\x9a\x9b\x20\x08\xd8\xe0\x22\xe1\x89\x53\x79\x0c\xa2\xb0\x09\xf3\x0b\x7e\xf5\x81\x87\xff\xee\x1e\x67\xbd\xbd\x60\xfa\x34\xdf\x64\x32\x73\xc4\x68\x06\x06\xf6\xfd\x5c\xaa\x0a\x8c\x04\x09\x98\xe0\x6c\xfc\x8c\xac\x90\xb8\x12\x49\xcb\xd6\x1d\x4b\x1c\xbc\xce\xae\xf0\xb5\x61\xec\x42\x7f\xfa\xf0\x8d\xfa\x02\x1e\x92\x04\xe6\x61\x1a\x2f\xbd\x1a\xe1\xad\xbc\xd9\x99\x21\x61\x67\xf0\xab\x07\xe5\x57\x2a\xca\x60\x76\xd3\xac\x82\x26\x60\xf3\xfd\x06\xe6\x53\xbb\x13\x6f\x65\x87\x20\x3d\x32\xe5\xfb\x2c\xcf\xf7\xbb\x19\x8d\x74\xa2\x2b\xed\x19\x1e\xa9\x76\xdd\x45\x78\x5c\xd7\xb3\x03\x8c\xf5\x4a\x90\x62\x10\x77\x2c\xb0\xf7\xc8\x2e\x43\x10\xe6\xe6\xe8\xe2\x40\xf4\xea\x5c\xc0\xa1\x75\x17\xbd\xde\x22\x7e\x73\x5a\xb8\xc3\xbc\x3c\x7f\x08\x17\xd0\xaf\xa8\x96\x1a\x76\xb5\x5c\xea\xca\xc8\x38\xae\x0b\x3b\xca\x24\xea\x37\x6b\x9d\xda\xb7\x99\x23\xd6\x42\x8c\xa5\x73\xce\xab\x51\x16\xcc\x96\x0b\x2b\xf6\xdf\x84\xec\x04\x02\xfc\x04\xe0\x07\x7e\x11\x1c\x73\xa4\xf9\x66\x1d\xc3\x90\x61\xd5\x12\x9a\xee\x61\x41\x76\x7c\xa9\x6d\xf0\x4e\x56\xc8\x7e\xdf\xed\x15\x29\x61\x16\xf4\x79\x57\x5b\xf7\x28\xf0\xe9\x50\xbf\x3e\x5b\x87\x75\x98\x9a\x4b\x3f\x69\xc4\x0b\xbd\xd4\xf1\x35\x23\x43\xea\x22\x10\x73\xfb\x1d\x00\xa4\xd1\x96\x8c\x43\x85\x5e\x18\xc0\x6a\xf5\x03\x32\x8a\x72\x19\x81\x2d\x19\x27\x04\x2e\x8d\x34\x93\xd3\x47\x40\x71\x98\xc4\xd5\x6d\x30\xa6\x6a\x1a\x7d\x77\x35\xce\xc1\x23\xfa\xff\xfa\xe8\xff\xa0\x3e\x6a\x54\x9a\xab\x43\xd4\xd3\xfe\x0e\x8f\x7d\x4d\xd9\xef\xde\xbe\x79\xc6\x88\xed\x60\x5b\x16\x61\xa1\x53\x1d\xdd\xbf\x65\x0d\x2e\x6a\x7c\x10\x5e\xc3\x72\x03\x03\x50\xb3\x19\x72\x09\x55\xd4\x80\x71\x11\xd4\x80\xb3\xa6\xec\xd5\xa4\x1c\x73\x27\xcb\xd9\x54\x86\x75\xd3\xf0\xed\x04\x5c\x89\xa1\x8a\x3f\xd4\x10\xce\x73\xe9\x14\x2c\x71\x9e\x2f\x3e\x0c\x53\x42\xb9\xe8\x7b\xfb\x54\x83\x68\x69\x0f\xb9\x7d\x29\x3e\xaa\xf3\x4c\xd0\xac\x3f\x27\xa9\x6d\xb6\x73\x8a\x40\x0c\x7a\xe4\x35\x1e\xdb\xfe\x40\x77\x7c\x72\x9c\xdc\xdd\xa9\xf3\xec\x87\xec\x06\x78\x6d\xf4\x80\x3c\x45\x02\x35\x1f\x22\x47\xcc\xc7\x1d\x9a\x5d\x3b\x85\x16\x8a\x3b\xc2\x76\xa2\x9a\x3d\xb2\xde\x1e\x8f\x24\xd9\x2e\xc4\x1e\xf9\x44\x2d\x32\x79\x4e\x4e\x77\xec\xba\x53\x42\x80\x36\x15\x38\x4b\x7b\x0b\x88\xd9\x84\x25\x1a\x83\x00\x7d\xc7\x87\x38\x6c\x0d\x0d\xc5\xdb\x72\xdd\xd7\xb6\x15\x6e\x71\x7e\xff\x54\x5b\x9b\x81\x37\x42\x87\xce\x6f\x6e\xf9\x36\xc7\x17\x6c\xde\xe6\x00\x8b\x57\xc5\x31\x0b\xc4\x58\x13\x77\x07\x6a\x29\x87\x3d\xf4\x8d\x18\xae\xf6\xef\xe4\x9e\xc6\x73\xa9\x1e\xd5\x4d\xf9\xca\xb5\x95\xc6\xac\x68\x34\xb2\x7e\x5b\x33\xfa\x67\x24\x9a\x3b\x86\x58\x73\x10\x79\x9d\xa1\x0c\xb9\x56\xd9\x81\xa6\x74\xfe\x99\x56\xb4\x0c\x2e\x0b\xfa\xee\x91\x85\x1a\x63\x6b\x02\x9d\x61\xa1\x6a\x3a\x99\x03\xae\x20\x25\xbe\xc5\xa9\x21\x47\x13\xba\x65\x75\x81\xda\x93\x64\x9f\x75\xa6\x51\x08\xb5\x84\x19\x73\x99\x3c\x70\x00\x28\x8b\xa3\x28\xdb\x84\x60\x83\x8d\x14\x0e\xd4\x9b\x22\xde\x84\x45\x9c\xdc\x1a\xff\x98\xeb\x4c\x63\xf9\x18\xeb\x87\xf7\x73\x57\x2e\xb0\x2f\xf0\xba\x65\xb7\xb7\xcd\x75\xeb\x39\x21\x4b\x5d\xea\xec\x63\xa9\xdb\x99\xfc\x38\x32\x4d\xac\x6e\xf6\x9a\xa6\x51\xcd\xd4\x3b\x4f\x5c\xc3\x14\x19\x9a\xa8\xdd\x53\x60\x62\x9d\x59\xbd\x15\xf6\x15\x03\x5b\x7d\xaf\x79\x1a\xed\x48\xdf\x44\xf5\xb9\x52\xc6\x66\xaa\xcc\xd9\xa9\xb2\xb7\x37\xaa\xe1\xc1\xea\x9b\xad\xef\x75\x82\x7e\xf9\x29\x77\xa0\x77\xe7\xec\xd7\x3d\x9b\x48\x99\x38\x50\xf0\xf2\xb9\xdf\x2e\x80\xfc\xa2\x06\xbd\x9a\xab\xeb\x1a\xe8\x6d\x2c\x86\xbd\x6e\xf8\x70\x28\x9c\xad\xd5\x95\xbe\xa5\xe9\x8e\x10\x0b\x2e\xb2\x0a\x51\xa0\x6d\x45\x02\xc1\xca\xbb\xf2\xc5\x2e\xc1\xa2\x60\x99\x24\x38\x5f\x42\x25\x14\x6b\x8c\xfc\xb5\xcf\xc2\x34\x03\x24\x1c\x26\xdf\xeb\x30\xd2\xc5\x5f\x81\xba\x18\x2d\xd8\x50\x99\x89\x17\xb9\x12\x1b\xd0\x90\x58\x2e\xb5\x71\x9e\x68\x30\x8e\x40\x16\xb8\x65\x7c\x8f\x43\x71\x6a\xfb\xfa\x13\xbc\xa6\x40\x06\x6b\x43\xec\xeb\xc5\xe3\x0f\xfe\xce\x82\x03\xdc\x41\xcf\x6a\x0a\x62\x0e\xc8\xf4\x41\x35\xda\x9e\x0e\x00\x92\xec\xaa\x3e\x18\x48\x02\xee\x70\x6a\x73\xf3\x14\xb6\x10\xdf\x93\x5a\x84\xcb\x2b\xce\x8d\x90\x35\xc3\x3e\x7e\xec\x6b\xaa\xc9\x68\x0b\xd4\x0b\x52\xaf\x12\x2d\x10\x71\x8d\x17\x31\x1a\x73\x66\x0a\xc4\x19\x0e\x4b\x2f\x8a\xc3\x84\x3d\xe6\x49\x08\x72\x0f\xf4\x32\xf4\xe3\x52\xa1\x9a\x26\x0b\x68\x83\x3b\x0f\x5f\xf3\xce\x19\xf0\x13\x10\xbe\x74\x04\x8d\x72\x21\x83\x46\xbd\x01\x68\xe1\x2e\x39\x11\x4c\x34\x78\x4b\xc3\xb9\x19\x08\xe4\x38\xae\xea\xac\x0b\xf1\xd1\xd9\xe8\x5a\xa4\x57\x71\x1a\x73\xf8\x0c\x23\x81\x4c\x04\x39\xc2\xd6\xca\xe9\xe4\xad\xbe\x04\xab\x0b\xe0\x62\x3f\x1f\xde\x43\xaa\x41\xab\xd6\xe7\x80\x5e\xca\x15\x11\xb2\xb4\x5d\xc8\x93\x86\xa9\x04\xa3\x30\xe6\x49\x26\x7e\x9a\x5b\xbb\x35\x8f\xba\x9e\x86\xc9\x5d\x07\xad\x3a\xc6\x54\x07\xb6\xca\xe4\xd0\x2a\xc0\xf9\xc0\x0f\xc4\x78\x10\xe9\x72\x69\xb8\x41\x3a\xed\x57\xc2\xe0\x05\x34\x94\xde\xdf\x7f\x90\xef\xb6\xe4\x80\x7a\xad\x21\xee\xc0\x3e\xe9\x40\xdc\x1d\xfa\x92\x2d\xf2\x49\xd6\x84\xc0\x76\x24\x3c\x32\x60\x89\x8c\x0d\x7a\x8b\x2a\x35\x0b\xd5\x1a\x45\x3b\x6d\x00\x75\x44\xb3\xd6\x33\xa8\x27\x18\xa0\xe9\x1f\xef\x79\xdd\xe4\xe4\xde\xe8\x73\x03\xc8\x49\xac\x78\xbf\xa4\x35\x21\x0d\xb2\x98\x15\x30\xe3\xac\x36\xaf\xb4\xce\x4b\xf8\x1c\xd2\x22\x2d\x44\x08\xd1\x01\x6c\x21\x39\x53\xaa\x11\x39\xce\x8e\x2c\x34\x21\xfa\x1c\x9e\x60\xd3\x8c\x5f\x65\x15\x52\x35\x5f\x19\xb9\x96\xa2\x5e\x7f\xed\xb9\xfa\xb9\xb9\xed\x41\x3b\x29\xc9\x01\x08\x55\x24\xe4\xa1\x67\x38\x9d\x4a\xd4\xd1\xaf\xc7\x7e\x23\xa0\xc2\x80\xbf\x71\x50\x31\x0e\x13\xf6\xc5\x7e\xb2\x81\x0f\x80\x0a\xd6\xa8\xe3\xe0\x6f\x18\x54\x30\x92\x43\x66\xf6\x44\x15\x58\xd4\x22\x40\xc4\x3a\x07\xe1\x8a\x1c\x03\x10\x5d\x60\xe1\x4e\xdb\xaf\xc7\x82\xc3\x90\xdd\x40\xc1\x51\xc8\xbe\x27\x18\xdf\x09\x04\x47\x21\x7b\x63\xd6\xc6\xfa\xd1\x8f\x04\xfb\x42\x6d\xe3\x90\xfd\x80\xe0\xda\x38\x64\x17\x2e\x08\xa1\x94\xe7\x99\x8b\x02\x6b\x75\xd2\xde\x46\x9d\x21\xe7\x2e\x8f\x50\xf1\x00\x70\x95\xea\xe2\x83\x71\xaa\xee\xa0\xb7\x57\x70\x12\xb0\xe4\xa3\x5d\x08\x94\xf6\xb9\x3c\x8c\x8b\xba\x71\x78\x28\x9e\xcb\xab\x1a\x97\x12\x7b\x84\x44\x11\x9a\x1a\xf7\x2a\x34\x1b\x30\x6a\xbb\xf2\x03\x71\x25\xfb\xdf\x28\xe3\x66\x9d\x30\x61\xeb\x43\xa2\xaf\x8c\x02\x09\x02\xb2\xab\x90\xe1\x2e\x17\x75\x21\xef\x23\xe0\xff\xb4\x86\xd0\x7f\x01\xed\xee\xc1\xb3\x79\xfd\xe8\x0d\xd6\x61\xaa\xe8\x88\xf2\x0d\x39\x07\x12\x8a\x1f\x92\x67\x72\x5f\x70\xf8\xfd\xf9\xf9\x9b\xcf\xf1\x32\x52\xca\x04\x8f\x72\x4a\xe2\x05\xfc\xcf\x30\x90\x09\x20\x16\xf7\x4b\xca\xbb\xfc\x46\x2d\xd7\x61\x51\xea\xea\x74\x5b\xad\x8e\xfe\x3c\xb3\xce\x49\x6c\x55\x5c\x2e\x35\xaa\x54\x6b\x79\x42\x6b\x76\xb7\xd3\x12\x89\x65\x29\x40\x2c\x4d\xe0\x0a\x60\x28\xe6\xb7\x94\x8e\xa7\xd2\x69\x66\xa7\xab\xb2\x99\x5e\xd5\x74\x55\xba\x89\x37\xea\xce\xe6\x8e\x05\x44\x9f\x6c\xa6\x86\x2f\xaf\xc7\x7d\x39\x4c\x9d\xe6\xbf\xef\xb5\xf8\x2f\xb9\x0d\x34\x0a\xca\x86\xfb\xb2\xbf\xd2\x19\xaa\x05\x56\x37\xd0\x65\xe7\xcb\x70\x95\x27\x2b\x50\x2b\x5e\xfb\x4d\xf5\xac\x9e\x5a\xcf\x99\x66\x9f\x08\x75\x7b\xb9\x97\xf3\x54\xbc\x6b\xe4\x28\x85\xc9\x7b\x03\xd3\x05\x73\x56\x80\x5e\xaa\x28\x63\x18\x43\xc3\xe5\x32\xcc\x31\x40\x00\xe8\xf9\x16\x84\xe0\x56\xad\xb3\x24\xc2\x9c\x34\x92\xa5\x70\x59\xa1\x79\xb7\xa1\xe8\xcb\xf6\x13\x22\xcc\xb7\xd9\x16\x3b\xe0\x07\xef\x4b\xcd\x9d\x8d\x90\x30\xc0\x33\x07\x74\x49\xc4\x09\x77\x9a\x81\x49\xb3\x45\x17\x98\x03\x94\x5e\x12\x5e\xe6\x6a\xc1\x53\x7e\x24\x81\x9b\x8d\xa9\x47\xf1\x02\x29\x8e\xd9\xda\x0b\xf5\x8b\x3a\xcf\xde\x63\x6e\xdb\xfd\xfd\xcc\x0f\x88\x0d\xb7\x0c\x3e\x38\xd7\x9b\x3c\xa1\x94\x6e\x28\x61\x84\x73\x20\xb7\x8f\x60\x73\xd3\xdd\x2b\x1c\xf5\xf8\x7c\x05\xf0\x62\xf7\x9c\x26\x29\x22\xd6\x04\xc6\x02\x9d\xb1\xe0\x77\x1c\xd8\x6c\xa0\xe2\x5e\xcf\xef\xc4\x6f\xc5\x3d\x9c\x8f\xa2\x82\x36\x26\x59\xc8\x91\x3a\x8e\xa0\xb2\x2f\x98\xa4\xd1\xc4\x42\x4d\x8b\x3f\xe1\x7b\x30\xb2\xc0\x80\x84\x45\x1c\x6e\x93\x0a\xf7\x4e\x16\x37\x24\x46\x20\x14\x96\x7f\x5b\xb3\x80\x89\xa8\x16\x59\x44\x06\x24\x7e\x67\x0b\x08\x2d\xf9\x19\xb5\x33\xb3\xc6\xff\x35\xe5\x16\x02\x29\x7a\x1e\x10\x77\x9e\xcf\x26\x26\x68\x17\xca\x63\x50\xc8\x2c\x92\xfa\xf7\xc7\x8f\xc1\x5e\x5d\x39\xfc\x3a\x0e\x6d\x5e\x85\xc0\x2d\x31\xc6\xc6\xdd\x75\x8c\xde\x89\x35\xaf\x4f\x8e\x8d\x2e\x34\x73\xcb\x21\x64\x2c\x57\x23\x3c\x97\x34\xe5\xe0\xd5\xd4\xb1\x17\xc1\x4b\xd0\x96\xeb\x90\xd2\xfb\x0c\xff\x1b\x7e\x84\x12\x59\x6e\x97\x4b\xad\xa3\x92\xcd\xe1\xbf\xbc\x7b\xfd\x4a\xb2\xed\x23\x93\x1a\x6f\xe3\xb0\xc4\xbb\x61\x07\xc3\xd9\xc3\xdd\xe2\x54\x0e\x3c\xec\x50\xcc\x8d\x95\x6e\x7b\x56\xbf\x6c\x50\x03\x64\x02\x98\x3e\x8c\xcc\x98\xb1\xca\x75\xf5\x4d\x1f\xac\xb1\x59\x41\x73\x75\xc3\x3a\xb5\x29\x06\x04\x67\x70\x56\xd1\x1a\x80\xe5\xe7\x0e\x09\x2b\xb3\x9f\x38\x73\xf4\x8e\x66\xf1\x04\x89\x99\x09\xbd\x67\xd7\xf3\xa6\x1e\x40\xde\xb6\xb1\x88\xd7\x1c\xdb\x7a\xd7\x8e\x59\x78\x9e\x52\x93\x52\xf5\x8c\x9d\xdd\x96\x90\xa9\x87\xc3\xed\x41\x55\xa7\xd8\xa9\xb3\x83\x93\x30\x9e\x5a\x72\x36\x30\x7a\x13\xb0\xd8\x80\x7e\x02\xa5\xea\xcd\x44\xad\x1e\xa1\x2e\x9d\xcd\xdd\x0d\x94\x3b\xb0\x36\x42\xe6\xf2\xdf\x54\x0f\x46\x0e\xeb\x7e\x18\xdf\x1a\x81\xad\x1a\xc8\x18\x5a\x52\xa3\xf4\x38\x1b\xcb\xe5\xe9\xb9\x4e\x00\xcf\xe0\x43\xc1\x41\x8e\x7f\x4e\xc8\x31\xbc\x71\xea\x3c\x89\x22\xaf\x85\x6b\xf0\x3f\x5a\x43\x27\x9c\xa7\x1c\xb0\xdc\xbc\x40\xc4\x9a\x86\x89\xb3\x37\x51\x27\xd1\xde\x1b\xec\x9e\x23\x8f\x75\x0f\x89\xf8\xa9\x42\x8f\x81\x7d\x2d\x06\xf8\x4d\x40\xd2\x23\xec\x61\x41\xdf\x3e\xf4\x70\x5a\x7c\x6b\x9a\x92\x0c\xb1\x9a\x2c\x3c\xf4\xca\x5c\x7c\xc0\xd4\x6b\x5f\x16\xc5\x1d\xbb\x42\x6e\x94\x2b\x6b\x36\xa2\x61\x04\xf2\x7d\x2a\x22\x80\x14\xe6\xea\xe1\x0d\x70\xd9\x8a\x78\x30\x38\x2a\xe3\x7f\x22\xcf\x7f\xfe\xfa\x3f\xff\x83\x65\x2d\xd1\x29\xd6\xf1\xd5\x7f\xf1\x3b\x16\x1c\x60\xe3\x54\xc1\xcf\x8b\x13\x7c\xf8\xa1\x99\xb2\x86\x71\x7b\x1a\xb7\x95\x37\xb3\xfe\x61\x92\x35\x0c\xd9\x9f\xa0\xb3\x12\x23\xf6\x39\xa2\x2c\x95\x66\xe9\x11\x29\x43\x63\x3f\x60\x41\x10\x32\x6c\xb3\xe1\x40\x94\x54\x70\xd8\x67\xbc\x1b\x26\x4f\x63\x44\xca\xd6\xed\xbb\x63\xf4\x53\x29\xc5\xb0\x57\xfd\x1d\x5b\x39\x11\x4d\xfb\x77\xd1\xfb\x38\x8b\x52\x0a\xf4\x74\xb9\x8a\x45\xef\x1b\x71\x25\x8d\xe6\x4c\x6e\x6d\xdd\xa0\xb7\x8c\xb4\x8e\x9c\x70\xda\x27\x83\x5f\xfc\x13\x4e\xa3\x96\x55\xd6\xae\x93\xb2\x56\x5d\xe4\xb7\x32\x4a\x1a\xfe\x39\x79\x1b\xd6\x12\xb0\xee\x8b\x75\x4d\xd4\x57\xae\xb4\xa9\x66\xa6\xe4\x3a\xa8\x5b\x18\xa8\x5d\xaf\x3b\x46\x90\xf4\xb5\x41\x42\x98\x92\x21\x64\xd7\x32\x25\xbe\x5b\x58\x8c\x43\x48\x16\x8c\xa8\x76\xf4\x90\x45\x75\x0a\xcf\xa6\xbc\x64\x83\x13\xb1\xaf\x82\x71\x80\x99\x2f\x6e\xa7\xe2\xfd\xbe\x59\x6b\xf2\x59\xc7\x64\x2e\x03\x94\x3e\x81\x25\x14\x26\x21\x82\xad\x92\x21\x16\x25\x85\x60\x4e\xcc\x76\x63\x1e\xc6\x85\x82\x6f\x0b\x9e\x32\x26\x75\x5b\xad\x71\xe2\x75\x52\x52\xae\x00\x2a\xc3\xb9\xf1\x71\xd2\xc6\x03\x2d\xac\xc3\x92\x59\x41\xb1\x93\x2d\xc1\xe9\x91\x87\xac\x92\x3f\x14\xf0\x53\x59\xc2\x44\xcf\x39\x77\xc8\xd8\x81\x1e\x75\xd3\x24\xe9\xc0\xc2\x5f\x64\x59\xd2\xce\x25\x65\xe4\x57\x02\x96\x42\x4a\x6f\xf5\x0a\x53\xa9\x50\x13\xf0\x88\xe0\xcb\x00\x1d\x4a\x45\x9c\x57\xb8\x2f\xf0\x31\x02\x98\x82\xe0\xe9\xed\x39\xd0\x47\xe0\xe4\x61\xb3\xac\x6e\xb9\xd6\x69\x27\x58\x39\x83\x65\xb3\x0a\x13\x49\x21\xc6\xc5\x62\x56\xe1\x83\x92\x3a\x9a\x66\x52\xf7\xc1\x47\x28\xda\x6e\x73\x9b\x24\xd4\x90\xcf\x5d\x64\x45\x05\xcd\x7d\xb1\x01\xc8\x57\x7a\x54\xd3\x57\x0f\x1f\x2a\xfe\x88\x0f\xdf\xc0\xf2\x86\xdd\x1c\xe5\xec\x97\x5f\x98\x76\xf0\xa2\xfc\x21\x2e\xab\xe6\x93\x97\x61\xee\xf9\xfe\x00\xaf\x92\xde\x4a\x4d\xb5\x48\x40\x63\x5f\x34\x68\xe0\x13\x7e\x20\xd3\x01\x8f\x9c\x81\xe0\xd4\x22\x3a\x99\xc2\xa3\xfa\x1d\x6c\x5f\xcc\x78\xf0\xc2\xac\x5c\xe8\xab\x27\x3a\xf4\x1b\xf5\x05\x17\x76\xf3\x70\xeb\xb4\x23\x6f\x88\x00\x0c\x11\xac\x5c\xc3\xbb\xec\x25\x59\xca\x5e\xa8\x0d\xe9\x28\x9f\x1f\xd0\x06\x4a\x04\xe6\x0d\x76\xe0\xb5\x68\x64\x34\xcf\xa0\x96\x3d\x78\x65\xf6\x6e\xc1\xb2\xc8\xd9\x93\x24\xc9\x6e\xde\x84\x45\x15\x87\x09\xb9\x56\xa9\x71\x78\x01\xd6\x03\x89\x14\xb9\x2d\x4f\x9a\x2f\xce\x60\x39\xbc\xa2\x15\x81\x6f\xcc\x8b\xb3\x4d\x5c\xbd\x4f\xf3\x2c\xdf\x22\x9e\x8f\x4e\xcc\x0b\xe0\x1f\x4d\x76\x1b\x37\xaf\x99\xb3\x60\x86\xba\xe3\x0e\xc2\x48\xdc\xbc\x2b\x8a\xa8\x9d\x57\x08\x88\xe6\x6a\xb6\xcc\xb6\x49\x94\x7e\x55\x09\x12\xb4\x42\x89\xab\x94\xce\x9e\xb9\x12\x88\xbb\x1b\x15\x28\x5d\x15\x48\x23\xf5\x36\xbc\x11\x31\x18\xd9\xf0\xb8\x5b\x0f\x99\x44\x77\xdb\xeb\x65\xd8\x0d\xf7\x73\x83\x3c\x6d\xe5\x05\xf2\xf5\xa1\x31\xfd\xac\x05\xb7\xa6\x3d\x56\x84\xa0\xb5\xca\x21\xcd\x47\x89\xcb\x18\x76\x21\x30\x8c\xca\x46\xf4\x4e\x93\xc6\x0e\xd5\x33\x57\x8e\xe6\x71\xc0\x00\xae\x22\x1a\x81\x1f\x01\x7f\x47\x22\xe8\xa4\xa5\x9a\x0b\xb0\xad\x21\x3e\xa2\xb2\xc5\x6d\x59\x26\x80\x6a\xd0\x38\x0c\x6a\xaf\x8e\xc0\xdb\x0e\x74\x64\xda\x4e\xc7\x88\x54\x1b\x11\x7d\x1e\x83\xba\x2f\xa2\xf7\x29\x9d\x7b\x74\x25\xb4\x9e\x63\xb7\x25\x67\xae\xa5\xb7\x8d\xc4\xc1\xbb\x07\x1f\x4f\xd4\x83\xf2\x5e\x84\x4a\x7a\x06\x53\xd8\x91\xe7\x21\xd9\x30\x02\xf1\x79\xda\x9a\x9a\x71\x14\x28\x12\xde\xb8\x6a\x81\x0a\x34\x34\xc3\x3d\xef\x59\x5c\xf2\x59\xa2\xc3\x42\xde\xb9\x72\x59\xcb\xde\x32\xcb\x6f\x99\x87\x5e\xb9\xa3\xb0\x5f\xc4\xbe\x61\x8a\x99\xd0\x16\x8a\x7e\x0b\xd8\xf8\xca\x62\x29\xd2\x57\x53\xf1\xa0\xf0\x1c\xdf\xf4\x89\x5f\xd9\x4a\x2d\x85\x0e\x90\xae\x85\x3a\x2d\x01\x21\x12\xdd\x2d\x8f\x21\x3b\x49\xb2\x45\xed\x4c\x98\xac\x02\x33\xc6\xe5\xde\x63\x4c\xe0\xbc\x3d\xc2\x93\xc8\x1d\xe2\xb2\x39\xbe\x6e\x7a\x36\x42\x90\x2e\x78\xe9\x07\x2c\xbd\xc0\x81\xce\xa7\xf1\x10\x5a\x5a\x3b\xd7\x2e\x0a\xda\x23\x01\x08\x82\x4f\x81\x6b\xb6\x38\x33\xb0\x53\x68\x6c\x5a\x38\xc4\x2a\x45\x5c\x06\x66\xd7\xc3\xed\x18\xd3\x66\x61\xb3\x25\x7d\x00\x8f\x67\x33\x1e\x02\x5d\x9f\x9f\x34\xab\x3c\x6f\x38\xaf\x14\x2f\x7a\x3a\x16\x39\x6b\x6d\xfa\xda\x5d\x07\xc8\x29\x12\x33\x2f\x6d\x4b\xc1\xac\xd1\x70\x00\xdf\x9d\x75\x23\x27\xd0\x03\x0c\xc9\xe0\x0a\xe3\xee\x41\x25\xf8\xf1\xe0\x4f\x67\xf0\xeb\xe8\xeb\x86\x48\x6f\x8b\x84\xdc\x4d\x67\xe4\x4f\x63\xa5\xe5\x4c\xd3\x8f\x08\x01\xdd\x59\xda\xa6\xe2\x79\x53\x79\xcb\x2b\x87\xde\x17\x1b\x5d\xa8\x27\x07\x29\x78\x30\xf2\x62\xc7\xd3\x6b\xc0\x70\xcd\x94\x68\x33\x41\x02\xde\xae\xb1\xd5\x4e\xde\x34\xfc\xba\x93\x14\x62\xd6\x2a\x64\x78\x3a\x79\x22\x5b\xf4\xbc\x63\x6b\x3c\x19\xb5\x33\x01\xb5\x97\xf4\xf3\xbd\xf0\xef\x51\xe5\x3d\x4e\x07\x59\x98\x7e\xd7\xb3\xab\x76\x26\xd7\xcc\xe9\xdc\x35\x6f\x9f\x86\x91\xf1\xab\x21\x4d\x31\x85\xa9\x97\xbc\xb9\xc1\x44\x23\xb3\xee\xbc\xe0\x4b\x77\xb3\x0b\xa3\x88\x97\x0c\x7c\x18\x5c\x2f\xe2\x47\x22\x68\x3f\x47\xcf\xb3\xc5\xf3\x32\x21\x86\x8a\x27\x36\x3b\x8e\x0a\x87\x5e\xe6\x6a\x17\xec\xb6\xdb\x9d\xb3\x64\x78\x6c\xc7\x16\xcd\xa8\x76\x47\x55\x7d\x25\x21\x17\x64\x82\x5c\x06\xce\x8e\xd1\xaf\x7b\x99\x21\x84\xab\x0d\xc9\xa4\x5e\xbb\x02\x49\x47\xa6\x54\x82\xe5\xf8\x0c\x03\xad\x0c\xf5\x44\xce\x84\xd6\xa4\xcc\x89\x05\x84\x48\xe8\xb9\xc2\x03\xae\x29\x55\xdf\x64\x05\x85\x7d\x2f\xe3\x6b\x78\x22\x06\x8d\x8c\x65\xcd\x86\x47\x6d\xd4\x81\x2a\xf3\x49\xb0\x01\x9a\xf3\x58\x82\x60\xf3\xd7\xa4\x3e\xf0\xeb\xc5\xe3\x0f\xac\x3a\x70\x3d\x1b\xee\x9e\xc9\xad\x1c\x4f\xd2\x5b\x53\x08\xc4\x6c\x7e\x31\x13\x24\x01\xe4\x1a\x98\xb1\xe1\xfa\xa2\x46\x78\x47\x3d\xed\x4a\xb3\xe1\xea\x4e\xd0\x15\xd2\xf1\x6b\xb7\x8c\x94\x42\x1a\x32\xce\x34\xa0\x9d\x61\xd6\xc6\x1f\x48\xeb\x9d\x7a\x2e\x6a\x5a\xc4\xce\x8e\x55\xa1\x73\x8d\x80\x97\x75\x89\x99\x16\xba\x04\x24\x4b\x31\x4d\x67\xb3\xc1\xb0\x0d\xbe\xc2\xd3\xbb\xbc\x9a\xb3\xc2\xbc\x27\xa8\x16\x16\x45\x68\x6c\x44\xcb\x8f\x91\xde\xd1\x11\xe7\x32\x3e\x4a\xdf\xd7\xae\xec\xf1\x73\x23\x7e\xfc\xad\x9e\x8a\x66\x1e\xaa\x05\xc3\xb6\xd3\x17\x07\xa0\x60\x41\x46\xb6\x09\x50\x0a\x0f\x0d\xa1\xe6\x34\x81\x48\xd8\x16\x9c\xd5\x42\x83\x4b\x6a\xf0\x4a\x7b\x17\x56\x4f\x62\xef\x2c\x1d\x5f\xdc\x7a\xf1\xdc\x90\x70\x4e\x56\x18\x9a\x26\x48\xd9\xcf\xa7\x14\x03\xee\x48\xe2\xe2\x0f\x5d\x54\xc6\xbc\xc0\x2b\xbe\x71\x00\xc5\x47\x6a\xb9\xce\xbd\x86\x0c\x75\xe0\x7c\x09\xf8\x30\x89\xab\x7a\x3c\x50\xb0\x67\x66\xb3\x19\xc8\xd3\xdd\x19\x8f\x71\xd2\x97\x76\x04\x64\x6c\x7a\xc7\x68\xe4\xa3\x9d\x2e\x40\x6a\xbc\x3f\xc3\x97\x48\xf2\xb5\x35\x58\x07\xe5\xf5\x48\xfc\xec\x6e\x26\x40\x1d\xd4\x29\x30\xd2\xdf\x4a\x1e\x20\xcb\x84\xdc\x5f\xc0\x95\x79\x4a\x94\xc9\x3b\xb2\x23\x81\x74\xe2\x24\x7b\x8c\x76\xab\x37\x7b\xa0\xb3\x29\x0f\x64\x0e\x4c\x22\xbd\xc2\x00\x6c\x80\x1e\xeb\x80\x2e\x8e\xf0\x7c\x89\x93\x63\x56\x41\x9d\x48\xd0\xea\xab\x93\x55\x20\xb1\x33\x8a\x87\xda\x62\x48\x8f\x51\x26\xbd\x26\x3f\xa9\xc8\xa8\x5c\x54\xf1\x56\x87\x11\x18\x2d\x1e\xb7\xbd\xdf\x61\xde\x8e\xe9\xcb\xbe\xcf\x02\xe3\x10\x26\x16\x84\x1d\x37\xa3\x3d\x13\x78\xda\x72\xbd\x3e\x66\xe2\xd8\x49\xaa\xb5\x77\x2f\x0f\xb4\xc9\x86\xad\xb2\x41\xbb\x8c\xd9\x35\x43\x31\x68\x9a\xb1\xdf\x99\x5c\xdb\x3d\x2b\xba\xcf\xf9\x3c\xec\x7e\xee\x75\x40\x0b\x1f\xfb\xe3\x25\xd7\xe1\x7c\xa8\x67\x9a\x47\x64\xd2\x8f\xab\xf8\x1d\x32\x50\xb3\x75\xcf\xc9\x84\xd6\xc4\x7a\x48\x89\x2c\x34\x1e\x56\xbf\x18\x9b\xa8\x57\x24\xe7\x74\x3a\x2c\xe5\x63\x5e\x92\x30\x61\x64\xa5\x8e\x6b\x4e\x31\xa7\xa3\x5a\xbf\xc1\x1d\xae\xb4\xf2\x5b\x43\xdf\x83\x4e\xa0\x63\xbe\x66\x4d\x0d\x69\xd3\xae\xc7\x5f\x49\xb3\x07\xef\xdf\xfe\x10\xfc\x0d\x1f\xd2\x1a\xc4\x0a\x4e\x91\xa9\x1b\xa1\xb6\x86\x9d\xed\x9d\xb3\xd8\xf8\xea\x9d\xd4\x14\x0b\x7e\xc8\x38\x6c\xaa\x66\x34\xe6\x5c\x06\x13\x0d\xf9\xf5\x77\x3a\xa5\x46\xad\x74\x61\xec\xba\x91\xd5\xe8\xa4\x35\x8e\xb1\xf0\x3a\xd5\xd9\xaa\xc3\x07\x68\x91\x0e\x1f\xd4\xad\x5f\xc3\x88\x1d\x64\x9e\x79\x83\x3a\x4d\x76\xc1\x51\xeb\x50\xff\x60\xb8\xbb\x77\x4f\x18\x3a\x4d\xc0\x3b\x40\x69\x62\xbf\x36\x18\x23\xe0\xb1\x1d\xeb\xe5\xc8\x77\x71\xc0\x49\x81\x1e\x06\xfb\xb4\x7b\x6f\xe4\x74\xe8\xf0\x80\xc5\xf6\x7f\x34\x07\xa9\xbb\x25\xf4\xf8\x47\xeb\x43\x0d\x0d\xcb\xc5\xdf\xc7\xf8\xf8\x79\x2e\xda\xd3\xc6\x00\x29\xfc\xe5\x94\x72\x0f\x3b\xd4\x57\xfb\x48\x04\xa7\x2f\xdf\x66\xe0\xc0\x55\x7b\x9f\x1d\x3a\xf5\x50\x23\xb7\xc2\x89\x01\x8d\x9e\x73\xa0\x7d\xac\x73\xc6\x01\x1d\x25\xeb\x30\xe2\xba\x43\xa7\x1a\x28\x97\x3e\xc2\xcc\xa8\x98\x21\xbc\x3d\x89\xea\xdc\xd2\x87\x71\x7e\xa2\x62\x30\x9c\x81\x35\xf6\x30\x05\x0a\x33\x66\xe6\x75\x8e\x5c\x34\x4e\x4d\x30\x91\xe6\xd1\x89\xd1\x43\x13\xbb\xce\x4c\x98\x11\x22\x2f\xd3\x15\xc1\xe0\xd1\x2a\x2d\xfe\xe9\xd4\x44\x97\x06\x2a\x2f\x1c\xee\x2d\xe8\x45\x7b\x1b\xd2\x72\x8d\x73\x12\xd0\x9b\x30\x29\x33\x9c\x02\x59\xc3\xbc\x49\x81\x15\x3d\x1d\x6f\xdd\x6c\x7c\x47\x78\x67\xe0\x5c\x94\x38\xba\x23\xfc\x5d\x15\xed\xac\xa0\x07\x07\x65\x0e\x95\xc8\xcc\xff\xec\x43\x1e\x48\xe2\xf3\x0f\x79\x38\xb5\xeb\x74\xbc\x9e\x33\x1e\x29\xc3\x59\xd6\x5e\x60\x0f\x5c\xd3\xad\x25\x95\x8c\xda\x26\xab\xc8\xfa\xc6\xe4\x90\x30\xc5\x2b\x97\x7e\xc2\x63\xe0\x39\x5f\xee\xc4\xcf\xf8\xc2\x27\xd8\x9c\x09\x20\xd7\x8d\x44\x80\x88\x32\xba\xe6\xa4\xbc\x2d\x2b\xbd\x99\xa3\x70\x01\xad\x24\xbe\xd2\x89\x3d\x27\x42\x1e\xc3\xd9\x3a\x2b\xab\x13\x1a\xbb\xfa\x20\x48\xdd\x03\xcf\x36\x65\x43\x89\x43\x59\x7e\x87\x1f\x01\xc1\x90\x80\x11\x39\x0e\xda\xad\xe2\x4f\xb6\x45\x98\x4a\xba\x5d\x4e\x6c\x7a\xc3\xc7\x29\x3f\x3e\x39\x3e\x9e\xa9\x7f\xb3\x23\x41\xca\x6a\xdb\x72\x64\x01\x58\xb2\xd4\xf6\x3e\x4c\x89\x58\x61\x3b\x95\x4b\xf7\x10\x74\xf5\xd8\x54\x72\xc0\x80\x6f\x03\x98\xbd\xca\x78\x22\x9d\x54\x48\xbe\xff\x82\x65\x80\x52\x7d\x90\xd0\x4d\x56\xc0\x9a\xe4\xf4\x4a\x25\x3b\x3d\xf9\x6a\x6f\xf1\xc6\x4e\xd2\xcd\xce\xc9\x96\x99\x3f\x6d\xe0\xa7\x83\xb2\xef\xc8\x80\x68\x99\x77\xc2\x34\xbe\xe5\x13\x2e\x8e\x29\x08\x9f\xf4\xa7\x6e\x8d\xc7\xa6\x0e\x01\xfc\xae\xdd\x34\x76\xb2\x05\x5b\x62\xc0\x39\x52\xaf\xe7\x22\x3e\xe7\x8c\x8b\xdc\xeb\x30\x98\x14\x28\x80\x96\xe0\x2b\xe8\x0a\x6f\xcb\x58\xd4\xa2\xd4\x10\x36\x59\x50\x1f\x98\x1c\x68\x8a\xd6\xe8\x60\x47\x5a\x5f\x2b\x03\xb0\x91\x29\xd8\xcc\xf0\x6b\x1f\x6a\x99\xb4\xcf\xb5\x18\x94\xed\x5e\x74\xd0\x9b\xfc\x37\x7e\xd4\x65\x74\xde\xed\x91\x97\xdf\x7c\xe6\x87\xd2\x24\x09\xce\x0c\x4f\xed\xbc\x8d\x36\xfb\x92\x1d\xeb\x73\x36\x36\xd2\x83\xf3\xb8\xc0\x3b\x27\x1e\xe1\x1a\x86\x6f\x73\xf6\xa1\x1b\x27\x96\x79\x4c\x67\x5a\x10\x17\x40\x1f\x1e\x61\x05\xfe\x4a\xfb\x85\x98\x07\xf5\xfd\x01\xf8\x46\x80\xca\xb3\xea\x93\x49\xa3\x7f\x87\xf8\x76\x49\x37\x4c\x6c\x0b\xc9\xaf\x21\xa8\x20\x0b\x17\x96\x23\x80\xad\x84\x4f\xa6\xf1\x3e\x07\x9a\x9b\x12\xda\xc1\xee\x06\x2d\x6a\xe0\xab\x6c\x4b\x9c\x05\xc9\xdb\xde\xc6\x40\x58\xd7\x86\x46\xac\x20\x39\x2a\x81\x52\xaf\xb2\x4a\x6e\xdb\x43\x92\x48\x8b\x34\xc5\x3a\xbc\x06\x13\x4f\x6e\xd1\x1d\x87\x24\xd4\xce\x82\x32\x9b\xe5\xc2\x29\xba\x33\x07\x35\xbf\x61\x0d\xef\x2e\x94\xec\xc7\xd0\x9c\x1c\x64\xc5\x4f\xc1\x36\x9b\x63\x69\xef\xae\x70\xae\xc3\xc2\x03\x83\xb2\xe1\xca\x31\x84\xe6\xd8\xf1\xd1\x03\x27\xea\x36\xbc\x1f\xb8\x69\x3a\x3d\x85\x24\x3b\x7b\xe4\xba\xb4\x3d\xd0\xe1\x6f\x76\xf8\xc0\x22\x1e\x0c\xd4\xb5\x73\xf3\x9a\x67\x04\xc8\x31\x47\xf8\x17\x37\x80\x81\xa3\x54\x3b\x15\x76\xdb\xe9\xd6\xab\x6c\x46\x7d\x6e\x6d\xfb\x4a\x1c\x6e\x8c\xc6\xda\x4e\x37\xe3\xa1\x91\x66\xdc\x43\x48\xee\xd1\xed\xb6\xd3\xcd\xc9\x97\x63\x98\x27\x39\xb0\xf6\xcd\x9a\xee\x3d\x41\xef\xc4\x9f\x1e\x3f\x76\x93\x81\xc1\xce\x92\x8c\x57\xb2\xa7\x72\x18\x42\x66\x13\x2b\xa4\x44\x8b\x6d\x2b\x5a\x40\x55\x85\x81\x3f\x3a\xbe\x4a\xbd\x70\xd7\x9f\x64\x1d\x02\x8c\x26\x13\xa6\xe6\xd1\x30\xb1\xd3\x29\x68\x8e\x12\xf5\x38\x05\x7b\x87\x7d\xdc\x27\xc8\x65\x0e\x77\x0a\x1e\xe2\xc4\x3b\xa5\xab\x67\xcf\x5e\x7f\x3b\xe8\xc7\xc3\x2c\x87\x3a\xa1\x91\x34\x0e\xf9\x8e\x38\x80\xea\x38\xee\xf6\xf4\x09\xf6\xb8\x04\x2d\xd1\x99\xef\x9c\xbd\x29\x9c\x04\x52\x24\xec\xb8\x9d\x5e\xff\x75\xb7\xdb\xb1\x91\x3e\x0a\xa6\xc6\xcc\x91\x99\x13\xf5\xd5\x83\xe8\x2b\x32\x03\xea\x36\x6c\xdb\xec\x54\x2d\xf3\x5d\xd2\x3c\x3d\xd8\xcf\x38\xe8\x66\x1c\xf2\x32\x3a\x43\xbb\xc3\xc7\x88\x0c\xf7\xf8\x18\x3b\x23\xe4\x0e\x4a\xeb\x64\xd2\xc3\xfa\xb2\x81\x49\xeb\xb6\x01\x47\x01\xb5\x0f\x05\xee\x11\x1f\xd8\x1d\x1d\x60\x40\xd0\xf0\x00\x1d\x16\x1f\xe8\x1c\x27\x9c\x5a\x6b\x57\xdc\x41\x50\x67\xef\x90\x00\xdd\x0c\xcb\x47\x12\x0a\x58\x41\xa5\xc2\x86\xc8\x30\x81\x7d\x79\x22\xbb\x5f\x63\xf3\xf5\x10\x13\xcc\x4d\x00\x0e\x55\x0d\x39\x7d\x8d\x2a\xd8\xa3\x5b\x7b\xc4\x07\x06\x8e\x1b\x5a\xd7\xd1\xd8\x01\xc3\x31\x8f\xb9\xf1\x62\x42\x3d\x12\x07\x77\x8b\x1a\x34\x7f\xdb\xe5\x86\xed\x6b\xf6\x3c\xbc\xd3\x6c\x7c\xb6\x92\x16\x64\xbd\xd9\xd4\x51\xf1\xe5\x52\x32\x8c\x58\x6f\x74\xc6\xce\xc6\x4e\x9b\x77\x8b\x95\x7c\xcd\x40\xc3\xbf\x89\xad\xbe\xe3\xe7\xd6\xc1\x69\x0a\xde\xb7\xef\x6e\x43\x98\x38\x3b\x9e\x8d\xbb\x88\x6b\xef\x70\x9f\x15\x98\xb3\x17\x61\xbc\xfe\x60\x36\xa0\x5d\xd5\x3c\x32\x94\xc0\x60\x28\x12\x24\xa0\x91\x7c\x1b\xde\x08\xf8\xdc\x9a\xcf\xf6\x9d\x7d\x41\x4f\x9b\xa3\xdd\x0e\xc9\xdb\x40\x7f\x9f\x27\xdb\x19\xd7\x21\xc7\xb5\xaa\xaf\x2c\xd8\xcf\x67\x4c\xe5\x70\x3d\x7c\xe9\x66\xb9\x2a\xaf\xae\xfa\x5d\x46\x87\x12\xe5\x4f\x37\xcc\x7c\x6b\x14\x52\x90\x72\x66\xdd\xce\x7f\xb3\x3e\x76\xb9\xf6\xad\x0e\x85\x52\x48\x1a\x04\x30\xb0\x85\x9f\x41\x91\xa4\xbe\xa3\x56\xa6\x1c\xf3\xcb\xd0\x84\x71\x59\x91\xe6\xba\x87\x2a\x86\xe8\x99\x68\x8c\x93\x30\x31\xc2\xe4\x5c\x35\xf3\xf2\xee\xdc\xf6\xd1\x19\x7b\x7f\xff\x20\x02\x5d\x0b\xac\xc1\xa7\x6b\xd1\xba\x33\x04\x86\x8e\x75\x67\xd9\x17\x6e\xeb\x48\x72\x2b\x9f\x64\xce\x67\x85\x47\x18\xea\x0b\x44\x35\xe5\xbc\xd1\xa6\x9c\x01\x6c\x7d\x6b\x5b\x9b\x22\x35\x19\x46\x16\x86\x62\x0d\x5d\xd1\xa1\xe2\x63\xa2\x63\xc8\xe6\x76\x8d\x73\x15\x73\x94\xf1\x80\xd1\x60\x1a\xbf\xfb\x70\xb8\x0b\x96\xda\x02\x19\x15\x41\xe1\x3d\x80\x0e\x3b\xee\x0a\xc3\x3a\x0b\x98\xb0\x56\x47\x5d\x1e\x16\x0e\x75\x23\x70\x7c\x68\x0b\x86\xe5\xd7\x05\xe0\x6c\xe4\x67\x57\x90\x62\x38\x4a\x31\x1c\xa6\x18\x8e\x53\x0c\x06\x2a\x68\x8e\xfa\x72\xb9\x9d\x50\x05\xc7\x61\x3f\x5b\x51\x4b\xda\x36\x0d\xbd\xa4\x6c\xab\x07\xd7\x33\x13\xdf\xb5\xea\xfa\x29\x9f\x2f\x6b\xff\x9d\x07\x8f\xff\x74\x04\xc0\xe9\xa7\xdb\x15\xe0\x76\xce\xfe\x71\xce\x6a\x2a\x37\x5e\x66\x52\x5f\xba\x97\x5f\xef\xbc\xbe\xd2\xfe\x2d\x8c\x7d\x1d\xd2\xaf\x9e\x9c\xbf\xfb\xcc\xeb\x2b\xa9\x1a\xd6\x57\x6c\xc4\xdb\xef\x72\xc7\x0f\xfd\x99\x13\xbe\xdd\xa7\x2c\xae\xf9\xbb\xbd\xdb\x5c\x60\x4b\xf7\x5a\xf5\xc9\x7e\xf7\xaa\xb7\x2f\xb7\x79\xb7\x5d\xd8\xd9\xc7\xe6\x71\xb1\x6f\x35\x3c\xc5\x8c\xda\x05\xdf\x19\xda\xb9\x69\x3d\x68\x5e\x24\xda\x5b\x66\x46\xdc\x07\x9d\x0b\xf5\x5e\x96\x97\xd4\x4f\x7f\x5f\xf4\x40\x20\xab\xcd\xb3\x73\x35\x8c\x33\xf9\xcd\x6b\xfd\xf1\x88\xbc\x33\x4d\xfb\x5e\x13\x4a\x33\xb3\xfb\x9a\xd0\x9a\xf2\xce\xb3\xf7\x8d\x3f\xaf\x12\xd8\xb1\xb5\xe7\xef\x9d\x19\x1e\xb8\x1e\x74\x9c\x82\x44\xdb\x3e\xe7\x96\xd0\xc9\x10\xe5\xc6\x49\x7b\xfe\x8d\x3d\xe6\x93\x5f\xbf\xfb\xf5\xa2\xf5\x80\xec\x77\xbd\x68\xe3\x6e\xd1\x66\x97\xf0\xb4\xb9\xed\xd5\x41\xf7\x8b\x62\x7f\x07\x2e\x5f\xb2\x46\x57\xa7\x8c\xe3\x87\xae\x4b\xf4\x9d\x43\x3f\xe0\x02\x52\x47\x3c\x7e\xd5\x05\xa4\x0e\x1d\x7b\x9c\xf0\xa0\x3f\xaa\x01\xdb\xcd\xa3\x21\x81\xe9\xdc\x2d\x7a\xe0\x15\x96\x8e\xf7\x87\x07\xb5\x75\x8f\x4c\xff\xbd\x28\xe5\xa5\xe8\x4b\x50\x2b\xc3\x4e\x9f\x6e\xc6\x57\xdf\xd5\x31\x7f\x80\x53\x29\x78\x76\xe6\x39\x9f\x42\xc2\xeb\x46\xbf\x39\xe0\xae\xd1\x87\x7b\x5d\x51\x39\x6d\x48\xee\x8e\x84\x11\x1a\xd8\x3d\x12\x46\x28\x41\x24\x5b\xfc\x03\x03\xa1\xe2\x03\x28\xad\x5c\x98\x2b\x25\x5f\xe2\x1d\x17\xe4\xf7\xcc\x48\x00\xe5\x8f\xf2\x51\x50\x7d\x8b\x6d\xa3\xf3\x91\x52\xc6\xd1\x67\x5e\xc6\xa8\x8f\xe5\xce\x84\x46\x1e\x49\x0f\xdf\x43\x17\xc6\xe2\x5d\x4f\x26\x48\x0a\xf5\xdd\x8d\xf5\x5f\x2c\x9f\x64\xd7\x81\xbb\x5f\x93\x50\x62\x64\x6a\x19\xbc\xd9\x2e\x92\xb8\x5c\x7b\x72\xcf\x15\x61\x2d\x47\x05\xf1\x41\x64\x89\x58\x38\x37\x80\x19\xff\x0a\xe7\x56\xac\x60\x33\xc5\xfb\x18\xce\xf9\x72\x87\x2b\x6d\xab\xc8\x4d\xfa\x44\x4e\x8e\x97\xce\xed\xcd\x94\xf0\xc4\xce\x89\xe4\x59\xd4\xf9\xec\x71\x15\xd4\x1a\xac\x7d\x1e\x9a\xbf\x77\xcf\x6e\xcf\xfe\x3e\x9d\xbc\x64\x06\xf0\xa4\x2d\xcc\x80\xbc\xfb\xef\xe6\xc1\xee\xd6\xe6\xd6\xbf\x08\xdc\x4b\x3f\x1a\x0e\xb2\xfa\xce\x89\x50\xee\xdf\xda\x67\x35\xb4\x05\x9a\x6f\x79\x18\xbf\x53\x62\x44\x9e\xf9\x78\x15\xc9\x48\xf3\x9a\x87\x46\x9e\xbd\x1d\xbc\x9e\xfb\x25\xe6\x8a\x87\x8a\x85\xae\x79\xdb\xc4\x59\x9f\xf8\x90\xe8\x8c\xc9\xcc\x01\x38\xfa\xf3\x13\x3b\x9c\xda\x3b\x6e\xef\xc4\xce\xff\x6f\xdf\xde\x59\x73\xd7\x45\xf6\x83\xf0\x50\x06\xb4\x46\x87\xfb\xe4\x6d\xf4\x5f\x92\xb9\xaf\x45\x70\xe0\x0d\x99\x26\x8d\x60\xf0\x96\xcc\x0e\x00\xb3\x7d\x92\x24\x02\x7b\x55\x26\xa7\x13\xec\xb0\x2f\xa6\x4e\x9e\x40\x43\xfb\xbb\xc9\x01\x03\x90\xad\x91\x16\xd0\xce\x0a\x68\x27\x05\x34\x92\x30\xff\x30\xb7\x5d\x92\x3d\xf2\xb9\x77\x42\x0e\x0c\x48\xaf\x92\xdb\xef\x4e\x48\x83\xb6\x7e\xb7\xdb\x1f\x07\x58\xde\x03\x00\xaa\x71\x04\x88\x3b\xd3\xb6\x70\x36\x91\x91\x43\x30\x0e\x10\x93\x6a\x9d\xa3\x2f\xf2\x3c\x90\x3d\xa6\x07\x9e\x99\x48\xa0\x29\x29\x57\x91\x98\xd3\x39\xad\x70\x59\xef\xe5\x93\x7f\x34\x4c\xda\x17\x2f\x1b\x07\xa5\xfd\x57\x71\xbb\x42\x2d\xd0\xb4\x1f\x99\xf6\x46\xaf\x1a\xc0\xb4\x75\x19\xa6\xf9\x9b\xca\xba\x6c\x24\x3b\x8e\xec\xce\xd8\x39\xa3\xeb\x41\x8a\xda\x50\xf5\x88\x78\xfd\x6d\xf0\xea\xbe\xa6\xcc\xae\xa0\xd5\xbf\x1e\x3e\x95\xe0\xda\xe1\xf0\xd4\x88\x1f\x5e\x94\x0b\xbf\x5a\x07\x2b\x8d\x4c\xfd\x0f\x77\x8a\x0b\x53\xd0\x7c\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 31884, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xf2, 0x5b, 0xe5, 0xb4, 0x74, 0x38, 0xa2, 0x8, 0xf8, 0xee, 0x8d, 0x82, 0x38, 0xc4, 0x4, 0x4e, 0x40, 0x8b, 0xa4, 0xbe, 0xfa, 0x4b, 0x6e, 0x58, 0xb0, 0x5f, 0x1f, 0xd7, 0x79, 0x7a, 0xa2, 0x26}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 31952, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x1, 0x41, 0x56, 0xa5, 0x9, 0x80, 0x53, 0x2b, 0x8f, 0xb8, 0xc6, 0xf7, 0xbf, 0xa, 0x38, 0xd5, 0x64, 0x9e, 0x8d, 0x0, 0xcd, 0xdc, 0xaf, 0xb2, 0x79, 0xd9, 0x3, 0x7d, 0x9b, 0x7f, 0xa9, 0xf8}}
 	return a, nil
 }
 
-- 
2.43.0


From 9c64f9ed6d90d092cd457b70f4b03bb36596e0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:58 +0000
Subject: [PATCH 28/42] fix: --start takes only the suffix .proto off a name

---
 internal/start/start.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/start/start.go b/internal/start/start.go
index fd0edee..ecc56fd 100644
--- a/internal/start/start.go
+++ b/internal/start/start.go
@@ -109,7 +109,7 @@ command to enter next time:
 
 For now this program is continuing as though you used '{{.Want}}'.
 `
-	want := strings.Replace(pkg, ".proto", "", -1)
+	want := strings.TrimSuffix(pkg, ".proto")
 	if strings.HasSuffix(pkg, ".proto") {
 		executor := struct{ Got, Want string }{pkg, want}
 		warn, err := renderTemplate("dotProtoInName", dotProtoInName, executor)
-- 
2.43.0


From 207e47bbde516125e47c6360f1eb01c9b174f89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:59 +0000
Subject: [PATCH 29/42] fix: --start creates its file and never writes to one
 that exists

---
 internal/start/start.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/start/start.go b/internal/start/start.go
index ecc56fd..3b2b35e 100644
--- a/internal/start/start.go
+++ b/internal/start/start.go
@@ -70,7 +70,8 @@ func Do(pkg string, outDir string) int {
 			return 1
 		}
 	}
-	f, err := os.Create(pinfo.FileName())
+	// O_EXCL: the file may have been created since, or be a dangling link
+	f, err := os.OpenFile(pinfo.FileName(), os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0666)
 	if err != nil {
 		log.Error(errors.Wrapf(err, "cannot create %q", pinfo.FileName()))
 		return 1
-- 
2.43.0


From 9d807f77d36b124e8f890f20b87bbc0e889843cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:59 +0000
Subject: [PATCH 30/42] fix: --start refuses names no definition can have

---
 internal/start/start.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/internal/start/start.go b/internal/start/start.go
index 3b2b35e..fd6c891 100644
--- a/internal/start/start.go
+++ b/internal/start/start.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"os"
 	"path/filepath"
+	"regexp"
 	"strings"
 	"text/template"
 
@@ -38,6 +39,24 @@ func (p protoInfo) ServiceName() string {
 	return pkg.GoCamelCase(a)
 }
 
+var (
+	packageExp = regexp.MustCompile(`^[a-z_][a-z0-9_]*(\.[a-z_][a-z0-9_]*)*$`)
+	serviceExp = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*$`)
+)
+
+// valid reports whether a definition of that name is one protoc accepts: it
+// is made of identifiers, and hides none of the names used in startProto.
+func (p protoInfo) valid() bool {
+	switch p.ServiceName() {
+	case "ServiceStatus", "StatusRequest", "StatusResponse", "FAIL", "OK":
+		return false
+	}
+	if strings.Contains(p.PackageName()+".", ".google.") {
+		return false
+	}
+	return packageExp.MatchString(p.PackageName()) && serviceExp.MatchString(p.ServiceName())
+}
+
 // Do writes a default protobuf file to the current directory, in a file named
 // based on the 'pkg' param, defaulting to "start.proto" if pkg is empty.
 // If the file exists, Do prints a warning and returns a non-zero exit code.
@@ -53,6 +72,10 @@ func Do(pkg string, outDir string) int {
 		alias: pkg,
 		out:   outDir,
 	}
+	if !pinfo.valid() {
+		log.Errorf("%q cannot name a protobuf package and service", pkg)
+		return 1
+	}
 	if _, err := os.Stat(pinfo.FileName()); err == nil {
 		existingFile, err := renderTemplate("existingFileMsg", existingFileMsg, pinfo)
 		if err != nil {
-- 
2.43.0


From d7386731f2e523549684fdcdcdfbb04482a948c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:25 +0000
Subject: [PATCH 31/42] fix: an empty -o names the current directory for import
 paths too

---
 cmd/baron/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/baron/main.go b/cmd/baron/main.go
index fa2d33c..441320c 100644
--- a/cmd/baron/main.go
+++ b/cmd/baron/main.go
@@ -224,7 +224,10 @@ func parseInput() (*config.Config, error) {
 
 	// svcPath := filepath.Join(filepath.Dir(cfg.DefPaths[0]), svcDirName)
 	// svcOut 服务输出目录不与 proto 关联,默认当前目录
-	svcPath := filepath.Join(".", svcDirName)
+	svcPath, err := filepath.Abs(svcDirName)
+	if err != nil {
+		return nil, errors.Wrap(err, "cannot get working directory of baron")
+	}
 
 	if *svcOutFlag != "" {
 		svcOut := *svcOutFlag
-- 
2.43.0


From 3cac90e6d27df682db7a4d2681c5acaa5ee2bbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:25 +0000
Subject: [PATCH 32/42] fix: an absolute path is not an import path below
 GOPATH

---
 cmd/baron/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/baron/main.go b/cmd/baron/main.go
index 441320c..3de6eb8 100644
--- a/cmd/baron/main.go
+++ b/cmd/baron/main.go
@@ -284,7 +284,7 @@ func parseInput() (*config.Config, error) {
 // 如果是相对路径转化为绝对路径
 // 否则使用 GOPATH + svcOut 路径
 func parseSVCOut(svcOut string, GOPATH string) (string, error) {
-	if build.IsLocalImport(svcOut) {
+	if build.IsLocalImport(svcOut) || filepath.IsAbs(svcOut) {
 		return filepath.Abs(svcOut)
 	}
 	return filepath.Join(GOPATH, "src", svcOut), nil
-- 
2.43.0


From 92012921478791327204014b2625f1b59763b415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:25 +0000
Subject: [PATCH 33/42] fix: refuse directories no Go package can be imported
 from

---
 cmd/baron/main.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/cmd/baron/main.go b/cmd/baron/main.go
index 3de6eb8..9d1d8df 100644
--- a/cmd/baron/main.go
+++ b/cmd/baron/main.go
@@ -188,9 +188,12 @@ func parseInput() (*config.Config, error) {
 
 	protoDir := filepath.Dir(cfg.DefPaths[0])
 	p, err := packages.Load(nil, protoDir) // 获取导入包
-	if err != nil || len(p) == 0 {
+	if err != nil {
 		return nil, errors.Wrap(err, "proto files not found in importable go package")
 	}
+	if !importable(p) {
+		return nil, errors.Errorf("proto files not found in importable go package: %s", protoDir)
+	}
 
 	cfg.PBPackage = p[0].PkgPath
 	cfg.PBPath = protoDir
@@ -258,9 +261,12 @@ func parseInput() (*config.Config, error) {
 	}
 
 	p, err = packages.Load(nil, svcPath)
-	if err != nil || len(p) == 0 {
+	if err != nil {
 		return nil, errors.Wrap(err, "generated service not found in importable go package")
 	}
+	if !importable(p) {
+		return nil, errors.Errorf("generated service not found in importable go package: %s", svcPath)
+	}
 
 	log.WithField("Service Packages", p).Debug()
 
@@ -280,6 +286,12 @@ func parseInput() (*config.Config, error) {
 	return &cfg, nil
 }
 
+// importable reports whether packages loaded from a directory have an import
+// path; outside of the main module the path is the directory itself.
+func importable(p []*packages.Package) bool {
+	return len(p) != 0 && !filepath.IsAbs(p[0].PkgPath)
+}
+
 // parseSVCOut 解析服务输出目录
 // 如果是相对路径转化为绝对路径
 // 否则使用 GOPATH + svcOut 路径
-- 
2.43.0


From 230dad42e981916ee865cbd8371c15a1179291c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:25 +0000
Subject: [PATCH 34/42] fix: read the previous generation through symbolic
 links

---
 cmd/baron/main.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/cmd/baron/main.go b/cmd/baron/main.go
index 9d1d8df..8ac7c41 100644
--- a/cmd/baron/main.go
+++ b/cmd/baron/main.go
@@ -451,7 +451,19 @@ func readPreviousGeneration(serviceDir string, svcName string) (map[string]io.Re
 
 	files := make(map[string]io.Reader)
 
-	addFileToFiles := func(path string, info os.FileInfo, err error) error {
+	// a trailing separator makes Walk enter a directory behind a link
+	const sep = string(filepath.Separator)
+
+	var addFileToFiles filepath.WalkFunc
+	addFileToFiles = func(path string, info os.FileInfo, err error) error {
+		if err != nil {
+			return err
+		}
+		if info.Mode()&os.ModeSymlink != 0 {
+			if to, err := os.Stat(path); err == nil && to.IsDir() {
+				return filepath.Walk(path+sep, addFileToFiles)
+			}
+		}
 		if info.IsDir() {
 			switch info.Name() {
 			// Only files within the handlers dir are used to
@@ -487,7 +499,7 @@ func readPreviousGeneration(serviceDir string, svcName string) (map[string]io.Re
 		return nil
 	}
 
-	err := filepath.Walk(serviceDir, addFileToFiles)
+	err := filepath.Walk(serviceDir+sep, addFileToFiles)
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot fully walk directory %v", serviceDir)
 	}
-- 
2.43.0


From bf455de50a5fef9856a3243280b6a59bd4713500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:23 +0000
Subject: [PATCH 35/42] fix: keep one method for an RPC named NewService

The constructor was told by its name alone, so that a handler method of that
name was taken for it and a second stub appended by every run.
---
 gengokit/service/services.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gengokit/service/services.go b/gengokit/service/services.go
index bc33f23..023af20 100644
--- a/gengokit/service/services.go
+++ b/gengokit/service/services.go
@@ -166,7 +166,7 @@ func (m methodMap) pruneDecls(decls []ast.Decl, svcName string) []ast.Decl {
 		case *ast.FuncDecl:
 			name := x.Name.Name
 			// Special case NewService and ignore unexported
-			if name == ignoredFunc || !ast.IsExported(name) {
+			if name == ignoredFunc && x.Recv == nil || !ast.IsExported(name) {
 				log.WithField("Func", name).
 					Debug("Ignoring")
 				newDecls = append(newDecls, x)
-- 
2.43.0


From cc62f50e1d0dda7233d50019dc7b8e06200d4a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:26 +0000
Subject: [PATCH 36/42] fix: leave no gRPC code of a file whose service was
 moved or removed

---
 internal/execprotoc/execprotoc.go | 48 +++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/internal/execprotoc/execprotoc.go b/internal/execprotoc/execprotoc.go
index 8ab0062..3ee053a 100644
--- a/internal/execprotoc/execprotoc.go
+++ b/internal/execprotoc/execprotoc.go
@@ -5,16 +5,24 @@ import (
 	"os"
 	"os/exec"
 	"path/filepath"
+	"strings"
 
 	"github.com/pkg/errors"
 	log "github.com/sirupsen/logrus"
 )
 
 // GeneratePBDotGo creates .pb.go files from the passed protoPaths and writes
-// them to outDir.
+// them to outDir. A _grpc.pb.go file which an earlier definition has left there
+// is removed if its .proto file has no service any more.
 func GeneratePBDotGo(protoPaths, gopath []string, outDir string) error {
+	genDir, err := ioutil.TempDir("", "baron-pb")
+	if err != nil {
+		return errors.Wrap(err, "cannot create temporary directory for .pb.go files")
+	}
+	defer os.RemoveAll(genDir)
+
 	genGoCode := []string{
-		"--go_out=" + outDir,
+		"--go_out=" + genDir,
 		// "Mgoogle/protobuf/any.proto=google.golang.org/protobuf/types/known/anypb;" +
 		// "Mgoogle/protobuf/duration.proto=google.golang.org/protobuf/types/known/durationpb;" +
 		// "Mgoogle/protobuf/empty.proto=google.golang.org/protobuf/types/known/emptypb;" +
@@ -22,15 +30,15 @@ func GeneratePBDotGo(protoPaths, gopath []string, outDir string) error {
 		// "Mgoogle/protobuf/timestamp.proto=google.golang.org/protobuf/types/known/timestampb;" +
 		// "Mgoogle/protobuf/wrappers.proto=google.golang.org/protobuf/types/known/wrapperspb;" +
 		// "Mgoogle/protobuf/field_mask.proto=google.golang.org/protobuf/types/known/fieldmaskpb" +
-		// ":" + outDir,
+		// ":" + genDir,
 		"--go_opt=paths=source_relative",
-		"--go-grpc_out=" + outDir,
-		// "--go-grpc_out=require_unimplemented_servers=false:" + outDir,
+		"--go-grpc_out=" + genDir,
+		// "--go-grpc_out=require_unimplemented_servers=false:" + genDir,
 		"--go-grpc_opt=paths=source_relative",
 	}
 
 	// go_out
-	_, err := exec.LookPath("protoc-gen-go")
+	_, err = exec.LookPath("protoc-gen-go")
 	if err != nil {
 		return errors.Wrap(err, "cannot find protoc-gen-go in PATH")
 	}
@@ -45,6 +53,34 @@ func GeneratePBDotGo(protoPaths, gopath []string, outDir string) error {
 		return errors.Wrap(err, "cannot exec protoc with protoc-gen-go")
 	}
 
+	return install(protoPaths, genDir, outDir)
+}
+
+// install copies the files in genDir to outDir and removes the _grpc.pb.go
+// files of protoPaths that are in outDir but not in genDir.
+func install(protoPaths []string, genDir, outDir string) error {
+	files, err := ioutil.ReadDir(genDir)
+	if err != nil {
+		return errors.Wrapf(err, "cannot read directory: %v", genDir)
+	}
+	for _, f := range files {
+		code, err := ioutil.ReadFile(filepath.Join(genDir, f.Name()))
+		if err != nil {
+			return errors.Wrap(err, "cannot read generated file")
+		}
+		if err := ioutil.WriteFile(filepath.Join(outDir, f.Name()), code, 0666); err != nil {
+			return errors.Wrap(err, "cannot write generated file")
+		}
+	}
+	for _, p := range protoPaths {
+		name := strings.TrimSuffix(filepath.Base(p), filepath.Ext(p)) + "_grpc.pb.go"
+		if _, err := os.Stat(filepath.Join(genDir, name)); err == nil {
+			continue
+		}
+		if err := os.Remove(filepath.Join(outDir, name)); err != nil && !os.IsNotExist(err) {
+			return errors.Wrap(err, "cannot remove the code of an earlier definition")
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From bad44458b70197512bd0132384e35343c78629b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:29 +0000
Subject: [PATCH 37/42] fix: leave one .pb.baron.go when the definitions are
 given in another order

---
 cmd/baron/main.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/cmd/baron/main.go b/cmd/baron/main.go
index 8ac7c41..fe6dfd0 100644
--- a/cmd/baron/main.go
+++ b/cmd/baron/main.go
@@ -404,6 +404,20 @@ func generateBaronCode(cfg *config.Config, sd *svcdef.Svcdef) error {
 	// log.Infof("*> %s", baronPath)
 	// }
 
+	// the file of an earlier run with the definitions in another order
+	for _, p := range protoDefPaths[1:] {
+		base := filepath.Base(p)
+		barename := strings.TrimSuffix(base, filepath.Ext(p))
+		earlierPath := filepath.Join(cfg.PBPath, barename+".pb.baron.go")
+		if earlierPath == baronPath {
+			continue
+		}
+		err := os.Remove(earlierPath)
+		if err != nil && !os.IsNotExist(err) {
+			return errors.Wrap(err, "cannot remove the code of an earlier run")
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 1e17bda2bb7e3b2608a2394881cf0482bcfbc379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:51 +0000
Subject: [PATCH 38/42] fix: give the tenth binding of an RPC a name of its own

---
 gengokit/httptransport/httptransport.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index ee3c7eb..2e7c66e 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -61,11 +61,21 @@ func NewMethod(meth *svcdef.ServiceMethod) *Method {
 	return &nMeth
 }
 
+// bindingLabel names the i'th binding of a method, such that no two bindings of
+// a service have the same label: were the tenth of "Do" named like the first
+// nine, by its digits, it would go by the name of the one of "DoOne".
+func bindingLabel(name string, i int) string {
+	if i < 10 {
+		return name + EnglishNumber(i)
+	}
+	return name + "_" + EnglishNumber(i) + "_"
+}
+
 // NewBinding 创建HTTPBinding, 通过索引,请求访问父级对象 SeeriveMethod, 创建方法绑定信息
 func NewBinding(i int, meth *svcdef.ServiceMethod) *Binding {
 	binding := meth.Bindings[i]
 	nBinding := Binding{
-		Label:        meth.Name + EnglishNumber(i),
+		Label:        bindingLabel(meth.Name, i),
 		PathTemplate: binding.Path,
 		BasePath:     basePath(binding.Path),
 		Verb:         binding.Verb,
-- 
2.43.0


From 463ddb4aa7515924cacdca8c8972f904ea1dccde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:10 +0000
Subject: [PATCH 39/42] fix: drop the comments of a removed method with it

---
 gengokit/service/services.go | 40 +++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/gengokit/service/services.go b/gengokit/service/services.go
index 023af20..00c30e1 100644
--- a/gengokit/service/services.go
+++ b/gengokit/service/services.go
@@ -84,7 +84,10 @@ func (h *handler) Render(alias string, data *gengokit.Data) (io.Reader, error) {
 	// Lowercase the service name before pruning because the templates all
 	// lowercase the service name when generating code to ensure Identifiers
 	// incorporating the service name remain unexported.
-	h.ast.Decls = h.mMap.pruneDecls(h.ast.Decls, strings.ToLower(data.Service.Name))
+	decls := h.ast.Decls
+	h.ast.Decls = h.mMap.pruneDecls(decls, strings.ToLower(data.Service.Name))
+	// The comments of a removed func would be printed as those of the next one
+	h.ast.Comments = h.pruneComments(decls)
 	log.WithField("Service Methods", len(h.mMap)).Trace("After prune")
 
 	// create a new handlerData, and add all methods not defined in the previous file
@@ -127,6 +130,41 @@ func (h *handler) Render(alias string, data *gengokit.Data) (io.Reader, error) {
 	return code, nil
 }
 
+// pruneComments returns the comments of the file without the ones of the
+// funcs in decls that are no longer in the file: those of its doc, those
+// inside it and those on the line it ends on.
+func (h *handler) pruneComments(decls []ast.Decl) []*ast.CommentGroup {
+	line := func(p token.Pos) int { return h.fset.PositionFor(p, false).Line }
+
+	kept := make(map[ast.Decl]bool)
+	for _, d := range h.ast.Decls {
+		kept[d] = true
+	}
+
+	comments := h.ast.Comments
+	for i, d := range decls {
+		f, ok := d.(*ast.FuncDecl)
+		if !ok || kept[d] {
+			continue
+		}
+		start, end := f.Pos(), f.End()
+		if f.Doc != nil {
+			start = f.Doc.Pos()
+		}
+		var rest []*ast.CommentGroup
+		for _, c := range comments {
+			inside := start <= c.Pos() && c.Pos() < end
+			trailing := end <= c.Pos() && line(c.Pos()) == line(end) &&
+				(i+1 == len(decls) || c.Pos() < decls[i+1].Pos())
+			if !inside && !trailing {
+				rest = append(rest, c)
+			}
+		}
+		comments = rest
+	}
+	return comments
+}
+
 func (h *handler) buffer() (*bytes.Buffer, error) {
 	code := bytes.NewBuffer(nil)
 	err := printer.Fprint(code, h.fset, h.ast)
-- 
2.43.0


From becd2813e378e7ae9eaf8b1ff87e2127be4f397d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:10 +0000
Subject: [PATCH 40/42] fix: take a host name that begins with http for a host
 name

---
 gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl | 2 +-
 gengokit/template/template.go                              | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index 2aad084..17a9769 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -678,7 +678,7 @@ func HTTPHeadersToContext(ctx context.Context, r *http.Request) context.Context
 // instance. We expect instance to come from a service discovery system, so
 // likely of the form "host:port".
 func NewHTTPClient(instance string, options ...httptransport.ClientOption) ({{.Service.Name}}Server, error) {
-	if !strings.HasPrefix(instance, "http") {
+	if !strings.Contains(instance, "://") {
 		instance = "http://" + instance
 	}
 	u, err := url.Parse(instance)
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index b6c2334..2d45eb9 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x02\xff\xed\x5d\xeb\x73\xdc\x36\x92\xff\x3c\xf3\x57\x20\x53\xb1\x43\xfa\x46\x94\xb3\x55\x77\xb5\xa7\x94\xae\xce\x0f\x25\xf1\x6e\xfc\x58\x5b\x4e\x3e\xa8\x5c\x59\xce\x10\xa3\xe1\x8a\x43\xd2\x24\x47\xb2\x56\xd1\xff\x7e\xfd\x02\x08\x3e\x67\xc6\x49\xae\xb2\x75\xe7\x4a\xa4\x19\x12\x68\x34\x80\x46\xe3\xd7\x0f\x40\xc7\xc7\xea\x59\x16\x69\x75\xa9\x53\x5d\x84\x95\x8e\xd4\xe2\x56\x2d\xc2\x22\x4b\x03\xf5\xfc\xb5\x7a\xf5\xfa\x5c\x9d\x3d\x7f\x71\x1e\x4c\x8f\x8f\xd5\x5b\x5d\x6c\xd3\x34\x4e\x2f\xb9\x80\xba\x89\x93\x44\x65\xd7\xba\xb8\x29\xe2\x4a\xab\x6a\x1d\x97\x6a\x15\x27\x9a\x0a\xff\xa8\x8b\x32\xce\xd2\x13\x75\x77\x17\xc8\xe7\xfb\x7b\xe7\x85\x7a\x0e\xad\xb9\x6f\xf1\x3b\x94\x98\xe6\xe1\xf2\x2a\xbc\xd4\xf8\xe6\x0d\x7f\x7c\x15\x6e\xe8\x0d\x54\x3e\x37\x6d\xa8\x65\x96\x56\x61\x9c\x96\x6a\xa3\xab\x75\x16\x95\xaa\xca\xd4\x26\xbc\xd2\x2a\x4e\xa3\xf8\x3a\x8e\xb6\x61\xa2\x74\x1a\xe5\x59\x9c\x56\x50\xa5\xc8\x36\xaa\xd4\xc5\x75\xbc\xd4\xe5\x1c\x29\x15\xfa\xe3\x56\x97\x95\x0a\xd3\x08\x3e\x97\x79\x96\x96\xd0\x85\xdb\x5c\x13\x25\x2c\x8a\x3d\xca\xe0\xa1\xa5\x32\x57\x61\xa9\x6e\x34\x74\x1a\x7e\xeb\x74\x09\xe3\x56\x94\x48\x00\xe9\x45\x5a\xbe\xaf\xb2\x42\x2a\x12\xb5\x39\x3d\x08\x71\xa4\x56\x2a\xdb\x16\xaa\xdc\xe6\x79\x56\xe0\x48\x57\x45\x98\x96\xf8\x19\x9b\x8b\xc3\x24\xfe\x67\x58\xc1\x40\x20\x35\xa8\xb3\x09\xab\x32\x98\x4e\xe3\x0d\x95\xf0\xa6\x93\xd9\xe2\xb6\xd2\xe5\x0c\x3e\x60\xdf\xf5\xa7\x0a\x3f\x12\x1b\x30\x25\xc7\xff\x28\xb3\x14\x1f\xac\x36\xf4\x3c\xce\xf8\xe7\x71\x9c\x6d\xab\x38\xc1\x2f\xa9\xae\x8e\xd7\x55\x95\x9b\xcf\xdb\x82\x1e\x97\x55\x01\xf4\xae\xe5\x23\x90\x82\x26\xe0\xf3\x65\x5c\xad\xb7\x8b\x60\x99\x6d\x8e\x2f\xb3\xa3\xab\xb8\x3a\xc6\xff\xcd\x58\x40\xe9\x30\xbd\xcd\x17\x6a\x76\x99\x65\x97\x30\xe5\x97\x59\x12\xa6\x97\x41\x56\x5c\x1e\xe7\x45\x56\x65\x8b\xed\xea\x98\xfa\x7f\x7c\x95\x66\x37\xe9\x31\x95\x86\x5a\xd1\xb6\xa0\x4e\x1e\x50\xb5\xae\x02\xf5\xf5\x26\xaf\x0e\x69\x57\xca\x43\xcd\x55\xac\x93\x68\x13\x96\x57\x07\xd4\x76\xea\x00\x05\x18\x9e\xed\xb2\x3a\xa0\xba\xa9\x00\x75\xab\x78\x03\xd2\x16\x6e\xf2\x03\xaa\x3b\x75\x80\xc2\x4d\x11\xe6\x39\x08\xd8\x01\x04\xea\x2a\xdd\x29\x2d\x60\xf1\x86\xc7\x9b\xed\xa7\x59\xf3\x4d\x7e\x75\x79\xac\x8b\x22\x2b\x48\xd2\x46\x1a\xb2\x92\x47\x4f\x8c\xf8\x8d\x54\xa0\x0f\xc8\xc8\xdd\xdd\x91\x8a\x57\x4a\x7f\x54\xc1\xb3\x2c\x5d\xc5\x97\xc1\xb9\x5d\x09\x33\x58\x29\x33\x35\x4b\x41\xf8\x67\x0a\x16\x7d\x83\x37\x7c\x7a\x04\x32\x8d\xbf\xa1\x89\x19\x93\x02\x99\xc4\x82\x7b\x50\xbd\x2c\xf2\xa5\xa1\xda\xe1\x93\x5e\x0e\xbe\x39\x06\x35\x13\x46\x61\x15\xb6\x1b\xdd\xbb\x49\xfc\x54\xaf\xf8\x81\xf5\x65\x0b\x18\x76\x9c\xb6\x70\xed\x1e\x40\x40\x96\xfa\x41\x83\x8d\x9f\x0e\x68\x82\x2a\xba\x3c\xfa\xd3\xe9\xf4\x3a\x2c\x50\x5b\xfd\xac\x4e\x15\xe8\xa2\xe0\x5d\x0e\x3a\xa5\xe2\xef\xa4\xc0\x80\x8d\x4d\x1e\x16\x9a\x1f\x89\xf6\x09\x9e\x54\x59\xcc\x4f\x1a\xdd\x0c\x5e\xe9\x9b\x77\xa8\x8b\x0b\x7e\xc9\xda\x2c\x78\x95\xe5\xcf\x12\x50\xb1\xf6\x29\x10\xcd\x6f\xf9\x0b\x0b\x6f\xf0\x13\xc8\xfe\x74\x02\xaa\x54\xe6\xd3\x88\x21\x6b\x65\x2c\x4a\x2a\x29\x78\x92\x52\xbd\x5a\xc9\x04\xcf\xe5\x23\x3e\x16\xf5\x11\x9c\xe1\x6f\x7c\x60\x96\x74\xf0\x8e\x3e\xe0\x23\x67\x99\x06\xe7\xe6\x33\xbe\xa8\x97\x1f\x96\x86\xa5\xf2\x63\x98\x6c\xa9\xdf\x8e\x5e\x09\xbe\xc5\xcf\x2f\xe1\x33\x8e\xde\xf1\xa3\xbd\xfe\xa9\x33\xbb\xb3\x3d\xda\xfb\xdf\x31\xed\xa0\x2f\x52\x15\xf2\xf6\x56\xcc\x55\x5c\x7d\x55\xaa\x6d\xa9\x57\xdb\x84\xb6\xa9\xd5\x36\x5d\x62\xd7\x61\x0f\x5c\x87\x95\x4a\x35\xee\x52\x99\xca\x72\xc2\x06\x2a\xc3\xba\xf0\xf9\xc8\x6c\x03\x48\x70\x11\x96\x71\x19\xa8\x6f\xa1\xba\xfe\x04\x3d\x4f\xf4\x5c\xdd\x66\x5b\xb5\x89\x2f\xd7\x95\xca\xc3\x12\xb7\x48\x87\x61\xa0\x17\xda\x86\xb8\x1d\x98\x9b\x68\x0b\x1b\x33\x92\x83\xb2\x28\x01\xc1\xf7\xb0\xaf\x26\xc8\xe3\x0d\x08\xa1\xd2\xe1\x72\x2d\x3b\xbd\xf2\x4c\xeb\x3e\xbc\x2b\x80\xc3\x6d\xce\x44\xcb\x5c\x2f\xe3\x55\xbc\x84\x46\xab\x75\xa0\xbc\x17\xc4\x1f\x00\x06\xa0\xbf\x08\x17\xc9\x2d\x94\xd9\xc4\x30\x3d\x84\x12\x60\xc7\x2e\xe3\xcb\x14\xab\xc6\xe9\x75\x76\x85\xdb\xbd\x56\xef\x18\x23\x58\x54\x41\x2c\x6a\xa4\x53\xf7\x80\x65\x00\x49\x98\x91\x0c\x7c\x28\x61\x47\x77\x99\xc4\x3a\xad\x9a\xa3\x0b\xad\x2c\xb3\x24\xd1\x54\xcf\x00\x14\xe0\x08\x84\x9f\xc9\x41\x3f\x6a\xb8\x02\x3f\xa0\x43\x48\xb0\x04\xb1\x49\x18\x4a\xf0\x58\xc5\x38\xc2\x1b\x4d\x23\xe9\xf0\x0b\x35\x74\xb1\x0a\x97\x7a\x68\x26\x90\x98\x6d\xac\x1f\x24\x6d\xb1\x31\xd5\xd4\x20\xb8\x00\x9f\x49\x7f\x40\x0f\x2c\xe2\x94\xc6\x69\x23\x2c\x3a\x13\x3b\x17\x28\x55\x6d\x8b\x14\xba\x8e\x3d\x46\x06\x97\xd0\x4d\x5d\x20\x62\x0a\x0d\xb3\xc1\x94\xba\xd3\x19\xd0\xbb\xe9\xe4\x7d\x6a\xfb\xa7\x23\x40\x80\xa6\x06\x43\x40\xd1\x04\x77\x77\xc0\x22\x20\xc4\x2f\x63\x75\x72\xaa\x6c\x99\x97\x3c\x65\xac\x96\xbf\x8c\xa5\x8e\x69\x45\xc1\x3f\xd3\xd5\xc0\x3c\x04\x52\xac\xb8\x18\x5d\x5a\x8e\x76\x37\x81\x02\x0c\x92\x58\x57\xf1\x95\xd3\xa8\xb7\xac\x3e\x29\x41\x69\xa8\x76\xf1\xf7\x1c\x05\xe6\xd1\xdd\xdd\x77\x19\x96\x01\xca\xc1\x5b\x86\xa0\xe7\x30\x18\x52\xcf\x57\x5e\xab\x04\x03\x53\xa7\xc8\x9c\x15\x9c\x8f\xa3\x65\x70\x2b\x3d\x43\x46\x75\xd0\xd3\x73\x64\x06\x1b\xf7\xa7\x13\xdc\x08\xa0\xe4\x17\xa7\x2a\x8d\x13\xa4\x30\x91\xf9\x82\xaf\x44\x64\x3a\xb9\x9f\x9a\x67\x86\x7a\xb0\x93\x27\x7f\x8e\x04\x60\x10\xcd\x70\xe2\x60\xbe\xc4\x65\xe6\x8e\x28\x2d\xe4\x2f\x41\x8d\xe0\x88\xde\x63\xe1\x23\xe5\x8e\x32\xbc\x1a\x1a\x68\xa4\xd5\xd7\xb3\x12\x07\xdd\xa9\xe6\x8a\x89\xdf\x9d\x6e\x1e\x33\xea\x1c\x92\xed\x9f\x25\x63\x18\xd8\x15\x75\x87\xd3\x62\x4d\x04\xe7\x31\x0f\x7b\x3d\x1d\x40\xfb\x23\x76\x44\x28\x74\xc6\xad\x33\xdb\x50\xe5\xda\xce\x5d\x19\xb4\x04\x88\x58\xc1\x32\xdd\x59\xeb\x4e\x1b\xce\x9b\x79\x7a\xcd\xd3\x31\xb9\x9f\xf2\x20\xf3\x9c\xb8\x73\x83\x9b\xe3\x93\x24\x39\xfb\xb4\xd4\x79\x45\xfb\x54\xc9\x2a\xd6\x8e\x14\xed\x50\x68\xb2\xc8\xda\xac\x17\x2b\x4d\x23\xe9\xa6\x1e\xbb\x20\x78\x19\x47\xa0\xb6\x6f\x60\x7f\x27\x2b\xf0\x7d\x69\xec\x42\x34\x82\xf2\x3c\xb9\x45\x15\x83\x6a\xb3\x42\xe2\x1b\x5b\x9a\xf6\x05\x0d\xd3\x76\x6b\xa7\x0d\xd7\x0b\x6a\x90\xd2\x68\x0d\xa0\xf7\x3a\xc7\x5d\x03\x35\xe7\xdc\x51\x5c\x4b\xd0\x43\x0b\x4d\x7b\x0d\xa8\x51\xa8\x06\x36\x6c\x8a\xc3\x0e\x34\xe1\xb9\xfe\xb4\x4c\xb6\x11\xbc\x21\x2b\x70\xa1\x91\x05\xde\x9b\xa3\xa0\x33\x1a\x5e\xcd\xd3\x5c\xcd\xde\x55\x61\xb5\x2d\x67\xf0\xe9\x0d\xd4\x9a\xf9\x76\xdd\x3f\x72\x16\xfe\x50\x7d\xd5\x33\x2a\xf3\x9a\x9b\x20\x08\xd8\xe0\x22\xe1\x89\x53\x79\x0c\xa2\xb0\x09\xf3\x0b\x7e\xf5\x81\x87\xff\xee\x1e\x67\xbd\xbd\x60\xfa\x34\xdf\x64\x32\x73\xc4\x68\x06\x06\xf6\xfd\x5c\xaa\x0a\x8c\x04\x09\x98\xe0\x6c\xfc\x8c\xac\x90\xb8\x12\x49\xcb\xd6\x1d\x4b\x1c\xbc\xce\xae\xf0\xb5\x61\xec\x42\x7f\xfa\xf0\x8d\xfa\x02\x1e\x92\x04\xe6\x61\x1a\x2f\xbd\x1a\xe1\xad\xbc\xd9\x99\x21\x61\x67\xf0\xab\x07\xe5\x57\x2a\xca\x60\x76\xd3\xac\x82\x26\x60\xf3\xfd\x06\xe6\x53\xbb\x13\x6f\x65\x87\x20\x3d\x32\xe5\xfb\x2c\xcf\xf7\xbb\x19\x8d\x74\xa2\x2b\xed\x19\x1e\xa9\x76\xdd\x45\x78\x5c\xd7\xb3\x03\x8c\xf5\x4a\x90\x62\x10\x77\x2c\xb0\xf7\xc8\x2e\x43\x10\xe6\xe6\xe8\xe2\x40\xf4\xea\x5c\xc0\xa1\x75\x17\xbd\xde\x22\x7e\x73\x5a\xb8\xc3\xbc\x3c\x7f\x08\x17\xd0\xaf\xa8\x96\x1a\x76\xb5\x5c\xea\xca\xc8\x38\xae\x0b\x3b\xca\x24\xea\x37\x6b\x9d\xda\xb7\x99\x23\xd6\x42\x8c\xa5\x73\xce\xab\x51\x16\xcc\x96\x0b\x2b\xf6\xdf\x84\xec\x04\x02\xfc\x04\xe0\x07\x7e\x11\x1c\x73\xa4\xf9\x66\x1d\xc3\x90\x61\xd5\x12\x9a\xee\x61\x41\x76\x7c\xa9\x6d\xf0\x4e\x56\xc8\x7e\xdf\xed\x15\x29\x61\x16\xf4\x79\x57\x5b\xf7\x28\xf0\xe9\x50\xbf\x3e\x5b\x87\x75\x98\x9a\x4b\x3f\x69\xc4\x0b\xbd\xd4\xf1\x35\x23\x43\xea\x22\x10\x73\xfb\x1d\x00\xa4\xd1\x96\x8c\x43\x85\x5e\x18\xc0\x6a\xf5\x03\x32\x8a\x72\x19\x81\x2d\x19\x27\x04\x2e\x8d\x34\x93\xd3\x47\x40\x71\x98\xc4\xd5\x6d\x30\xa6\x6a\x1a\x7d\x77\x35\xce\xc1\x23\xfa\xff\xfa\xe8\xff\xa0\x3e\x6a\x54\x9a\xab\x43\xd4\xd3\xfe\x0e\x8f\x7d\x4d\xd9\xef\xde\xbe\x79\xc6\x88\xed\x60\x5b\x16\x61\xa1\x53\x1d\xdd\xbf\x65\x0d\x2e\x6a\x7c\x10\x5e\xc3\x72\x03\x03\x50\xb3\x19\x72\x09\x55\xd4\x80\x71\x11\xd4\x80\xb3\xa6\xec\xd5\xa4\x1c\x73\x27\xcb\xd9\x54\x86\x75\xd3\xf0\xed\x04\x5c\x89\xa1\x8a\x3f\xd4\x10\xce\x73\xe9\x14\x2c\x71\x9e\x2f\x3e\x0c\x53\x42\xb9\xe8\x7b\xfb\x54\x83\x68\x69\x0f\xb9\x7d\x29\x3e\xaa\xf3\x4c\xd0\xac\x3f\x27\xa9\x6d\xb6\x73\x8a\x40\x0c\x7a\xe4\x35\x1e\xdb\xfe\x40\x77\x7c\x72\x9c\xdc\xdd\xa9\xf3\xec\x87\xec\x06\x78\x6d\xf4\x80\x3c\x45\x02\x35\x1f\x22\x47\xcc\xc7\x1d\x9a\x5d\x3b\x85\x16\x8a\x3b\xc2\x76\xa2\x9a\x3d\xb2\xde\x1e\x8f\x24\xd9\x2e\xc4\x1e\xf9\x44\x2d\x32\x79\x4e\x4e\x77\xec\xba\x53\x42\x80\x36\x15\x38\x4b\x7b\x0b\x88\xd9\x84\x25\x1a\x83\x00\x7d\xc7\x87\x38\x6c\x0d\x0d\xc5\xdb\x72\xdd\xd7\xb6\x15\x6e\x71\x7e\xff\x54\x5b\x9b\x81\x37\x42\x87\xce\x6f\x6e\xf9\x36\xc7\x17\x6c\xde\xe6\x00\x8b\x57\xc5\x31\x0b\xc4\x58\x13\x77\x07\x6a\x29\x87\x3d\xf4\x8d\x18\xae\xf6\xef\xe4\x9e\xc6\x73\xa9\x1e\xd5\x4d\xf9\xca\xb5\x95\xc6\xac\x68\x34\xb2\x7e\x5b\x33\xfa\x67\x24\x9a\x3b\x86\x58\x73\x10\x79\x9d\xa1\x0c\xb9\x56\xd9\x81\xa6\x74\xfe\x99\x56\xb4\x0c\x2e\x0b\xfa\xee\x91\x85\x1a\x63\x6b\x02\x9d\x61\xa1\x6a\x3a\x99\x03\xae\x20\x25\xbe\xc5\xa9\x21\x47\x13\xba\x65\x75\x81\xda\x93\x64\x9f\x75\xa6\x51\x08\xb5\x84\x19\x73\x99\x3c\x70\x00\x28\x8b\xa3\x28\xdb\x84\x60\x83\x8d\x14\x0e\xd4\x9b\x22\xde\x84\x45\x9c\xdc\x1a\xff\x98\xeb\x4c\x63\xf9\x18\xeb\x87\xf7\x73\x57\x2e\xb0\x2f\xf0\xba\x65\xb7\xb7\xcd\x75\xeb\x39\x21\x4b\x5d\xea\xec\x63\xa9\xdb\x99\xfc\x38\x32\x4d\xac\x6e\xf6\x9a\xa6\x51\xcd\xd4\x3b\x4f\x5c\xc3\x14\x19\x9a\xa8\xdd\x53\x60\x62\x9d\x59\xbd\x15\xf6\x15\x03\x5b\x7d\xaf\x79\x1a\xed\x48\xdf\x44\xf5\xb9\x52\xc6\x66\xaa\xcc\xd9\xa9\xb2\xb7\x37\xaa\xe1\xc1\xea\x9b\xad\xef\x75\x82\x7e\xf9\x29\x77\xa0\x77\xe7\xec\xd7\x3d\x9b\x48\x99\x38\x50\xf0\xf2\xb9\xdf\x2e\x80\xfc\xa2\x06\xbd\x9a\xab\xeb\x1a\xe8\x6d\x2c\x86\xbd\x6e\xf8\x70\x28\x9c\xad\xd5\x95\xbe\xa5\xe9\x8e\x10\x0b\x2e\xb2\x0a\x51\xa0\x6d\x45\x02\xc1\xca\xbb\xf2\xc5\x2e\xc1\xa2\x60\x99\x24\x38\x5f\x42\x25\x14\x6b\x8c\xfc\xb5\xcf\xc2\x34\x03\x24\x1c\x26\xdf\xeb\x30\xd2\xc5\x5f\x81\xba\x18\x2d\xd8\x50\x99\x89\x17\xb9\x12\x1b\xd0\x90\x58\x2e\xb5\x71\x9e\x68\x30\x8e\x40\x16\xb8\x65\x7c\x8f\x43\x71\x6a\xfb\xfa\x13\xbc\xa6\x40\x06\x6b\x43\xec\xeb\xc5\xe3\x0f\xfe\xce\x82\x03\xdc\x41\xcf\x6a\x0a\x62\x0e\xc8\xf4\x41\x35\xda\x9e\x0e\x00\x92\xec\xaa\x3e\x18\x48\x02\xee\x70\x6a\x73\xf3\x14\xb6\x10\xdf\x93\x5a\x84\xcb\x2b\xce\x8d\x90\x35\xc3\x3e\x7e\xec\x6b\xaa\xc9\x68\x0b\xd4\x0b\x52\xaf\x12\x2d\x10\x71\x8d\x17\x31\x1a\x73\x66\x0a\xc4\x19\x0e\x4b\x2f\x8a\xc3\x84\x3d\xe6\x49\x08\x72\x0f\xf4\x32\xf4\xe3\x52\xa1\x9a\x26\x0b\x68\x83\x3b\x0f\x5f\xf3\xce\x19\xf0\x13\x10\xbe\x74\x04\x8d\x72\x21\x83\x46\xbd\x01\x68\xe1\x2e\x39\x11\x4c\x34\x78\x4b\xc3\xb9\x19\x08\xe4\x38\xae\xea\xac\x0b\xf1\xd1\xd9\xe8\x5a\xa4\x57\x71\x1a\x73\xf8\x0c\x23\x81\x4c\x04\x39\xc2\xd6\xca\xe9\xe4\xad\xbe\x04\xab\x0b\xe0\x62\x3f\x1f\xde\x43\xaa\x41\xab\xd6\xe7\x80\x5e\xca\x15\x11\xb2\xb4\x5d\xc8\x93\x86\xa9\x04\xa3\x30\xe6\x49\x26\x7e\x9a\x5b\xbb\x35\x8f\xba\x9e\x86\xc9\x5d\x07\xad\x3a\xc6\x54\x07\xb6\xca\xe4\xd0\x2a\xc0\xf9\xc0\x0f\xc4\x78\x10\xe9\x72\x69\xb8\x41\x3a\xed\x57\xc2\xe0\x05\x34\x94\xde\xdf\x7f\x90\xef\xb6\xe4\x80\x7a\xad\x21\xee\xc0\x3e\xe9\x40\xdc\x1d\xfa\x92\x2d\xf2\x49\xd6\x84\xc0\x76\x24\x3c\x32\x60\x89\x8c\x0d\x7a\x8b\x2a\x35\x0b\xd5\x1a\x45\x3b\x6d\x00\x75\x44\xb3\xd6\x33\xa8\x27\x18\xa0\xe9\x1f\xef\x79\xdd\xe4\xe4\xde\xe8\x73\x03\xc8\x49\xac\x78\xbf\xa4\x35\x21\x0d\xb2\x98\x15\x30\xe3\xac\x36\xaf\xb4\xce\x4b\xf8\x1c\xd2\x22\x2d\x44\x08\xd1\x01\x6c\x21\x39\x53\xaa\x11\x39\xce\x8e\x2c\x34\x21\xfa\x1c\x9e\x60\xd3\x8c\x5f\x65\x15\x52\x35\x5f\x19\xb9\x96\xa2\x5e\x7f\xed\xb9\xfa\xb9\xb9\xed\x41\x3b\x29\xc9\x01\x08\x55\x24\xe4\xa1\x67\x38\x9d\x4a\xd4\xd1\xaf\xc7\x7e\x23\xa0\xc2\x80\xbf\x71\x50\x31\x0e\x13\xf6\xc5\x7e\xb2\x81\x0f\x80\x0a\xd6\xa8\xe3\xe0\x6f\x18\x54\x30\x92\x43\x66\xf6\x44\x15\x58\xd4\x22\x40\xc4\x3a\x07\xe1\x8a\x1c\x03\x10\x5d\x60\xe1\x4e\xdb\xaf\xc7\x82\xc3\x90\xdd\x40\xc1\x51\xc8\xbe\x27\x18\xdf\x09\x04\x47\x21\x7b\x63\xd6\xc6\xfa\xd1\x8f\x04\xfb\x42\x6d\xe3\x90\xfd\x80\xe0\xda\x38\x64\x17\x2e\x08\xa1\x94\xe7\x99\x8b\x02\x6b\x75\xd2\xde\x46\x9d\x21\xe7\x2e\x8f\x50\xf1\x00\x70\x95\xea\xe2\x83\x71\xaa\xee\xa0\xb7\x57\x70\x12\xb0\xe4\xa3\x5d\x08\x94\xf6\xb9\x3c\x8c\x8b\xba\x71\x78\x28\x9e\xcb\xab\x1a\x97\x12\x7b\x84\x44\x11\x9a\x1a\xf7\x2a\x34\x1b\x30\x6a\xbb\xf2\x03\x71\x25\xfb\xdf\x28\xe3\x66\x9d\x30\x61\xeb\x43\xa2\xaf\x8c\x02\x09\x02\xb2\xab\x90\xe1\x2e\x17\x75\x21\xef\x23\xe0\xff\xb4\x86\xd0\x7f\x01\xed\xee\xc1\xb3\x79\xfd\xe8\x0d\xd6\x61\xaa\xe8\x88\xf2\x0d\x39\x07\x12\x8a\x1f\x92\x67\x72\x5f\x70\xf8\xfd\xf9\xf9\x9b\xcf\xf1\x32\x52\xca\x04\x8f\x72\x4a\xe2\x05\xfc\xcf\x30\x90\x09\x20\x16\xf7\x4b\xca\xbb\xfc\x46\x2d\xd7\x61\x51\xea\xea\x74\x5b\xad\x8e\xfe\x3c\xb3\xce\x49\x6c\x55\x5c\x2e\x35\xaa\x54\x6b\x79\x42\x6b\x76\xb7\xd3\x12\x89\x65\x29\x40\x2c\x4d\xe0\x0a\x60\x28\xe6\xb7\x94\x8e\xa7\xd2\x69\x66\xa7\xab\xb2\x99\x5e\xd5\x74\x55\xba\x89\x37\xea\xce\xe6\x8e\x05\x44\x9f\x6c\xa6\x86\x2f\xaf\xc7\x7d\x39\x4c\x9d\xe6\xbf\xef\xb5\xf8\x2f\xb9\x0d\x34\x0a\xca\x86\xfb\xb2\xbf\xd2\x19\xaa\x05\x56\x37\xd0\x65\xe7\xcb\x70\x95\x27\x2b\x50\x2b\x5e\xfb\x4d\xf5\xac\x9e\x5a\xcf\x99\x66\x9f\x08\x75\x7b\xb9\x97\xf3\x54\xbc\x6b\xe4\x28\x85\xc9\x7b\x03\xd3\x05\x73\x56\x80\x5e\xaa\x28\x63\x18\x43\xc3\xe5\x32\xcc\x31\x40\x00\xe8\xf9\x16\x84\xe0\x56\xad\xb3\x24\xc2\x9c\x34\x92\xa5\x70\x59\xa1\x79\xb7\xa1\xe8\xcb\xf6\x13\x22\xcc\xb7\xd9\x16\x3b\xe0\x07\xef\x4b\xcd\x9d\x8d\x90\x30\xc0\x33\x07\x74\x49\xc4\x09\x77\x9a\x81\x49\xb3\x45\x17\x98\x03\x94\x5e\x12\x5e\xe6\x6a\xc1\x53\x7e\x24\x81\x9b\x8d\xa9\x47\xf1\x02\x29\x8e\xd9\xda\x0b\xf5\x8b\x3a\xcf\xde\x63\x6e\xdb\xfd\xfd\xcc\x0f\x88\x0d\xb7\x0c\x3e\x38\xd7\x9b\x3c\xa1\x94\x6e\x28\x61\x84\x73\x20\xb7\x8f\x60\x73\xd3\xdd\x2b\x1c\xf5\xf8\x7c\x05\xf0\x62\xf7\x9c\x26\x29\x22\xd6\x04\xc6\x02\x9d\xb1\xe0\x77\x1c\xd8\x6c\xa0\xe2\x5e\xcf\xef\xc4\x6f\xc5\x3d\x9c\x8f\xa2\x82\x36\x26\x59\xc8\x91\x3a\x8e\xa0\xb2\x2f\x98\xa4\xd1\xc4\x42\x4d\x8b\x3f\xe1\x7b\x30\xb2\xc0\x80\x84\x45\x1c\x6e\x93\x0a\xf7\x4e\x16\x37\x24\x46\x20\x14\x96\x7f\x5b\xb3\x80\x89\xa8\x16\x59\x44\x06\x24\x7e\x67\x0b\x08\x2d\xf9\x19\xb5\x33\xb3\xc6\xff\x35\xe5\x16\x02\x29\x7a\x1e\x10\x77\x9e\xcf\x26\x26\x68\x17\xca\x63\x50\xc8\x2c\x92\xfa\xf7\xc7\x8f\xc1\x5e\x5d\x39\xfc\x3a\x0e\x6d\x5e\x85\xc0\x2d\x31\xc6\xc6\xdd\x75\x8c\xde\x89\x35\xaf\x4f\x8e\x8d\x2e\x34\x73\xcb\x21\x64\x2c\x57\x23\x3c\x97\x34\xe5\xe0\xd5\xd4\xb1\x17\xc1\x4b\xd0\x96\xeb\x90\xd2\xfb\x0c\xff\x1b\x7e\x84\x12\x59\x6e\x97\x4b\xad\xa3\x92\xcd\xe1\xbf\xbc\x7b\xfd\x4a\xb2\xed\x23\x93\x1a\x6f\xe3\xb0\xc4\xbb\x61\x07\xc3\xd9\xc3\xdd\xe2\x54\x0e\x3c\xec\x50\xcc\x8d\x95\x6e\x7b\x56\xbf\x6c\x50\x03\x64\x02\x98\x3e\x8c\xcc\x98\xb1\xca\x75\xf5\x4d\x1f\xac\xb1\x59\x41\x73\x75\xc3\x3a\xb5\x29\x06\x04\x67\x70\x56\xd1\x1a\x80\xe5\xe7\x0e\x09\x2b\xb3\x9f\x38\x73\xf4\x8e\x66\xf1\x04\x89\x99\x09\xbd\x67\xd7\xf3\xa6\x1e\x40\xde\xb6\xb1\x88\xd7\x1c\xdb\x7a\xd7\x8e\x59\x78\x9e\x52\x93\x52\xf5\x8c\x9d\xdd\x96\x90\xa9\x87\xc3\xed\x41\x55\xa7\xd8\xa9\xb3\x83\x93\x30\x9e\x5a\x72\x36\x30\x7a\x13\xb0\xd8\x80\x7e\x02\xa5\xea\xcd\x44\xad\x1e\xa1\x2e\x9d\xcd\xdd\x0d\x94\x3b\xb0\x36\x42\xe6\xf2\xdf\x54\x0f\x46\x0e\xeb\x7e\x18\xdf\x1a\x81\xad\x1a\xc8\x18\x5a\x52\xa3\xf4\x38\x1b\xcb\xe5\xe9\xb9\x4e\x00\xcf\xe0\x43\xc1\x41\x8e\x7f\x4e\xc8\x31\xbc\x71\xea\x3c\x89\x22\xaf\x85\x6b\xf0\x3f\x5a\x43\x27\x9c\xa7\x1c\xb0\xdc\xbc\x40\xc4\x9a\x86\x89\xb3\x37\x51\x27\xd1\xde\x1b\xec\x9e\x23\x8f\x75\x0f\x89\xf8\xa9\x42\x8f\x81\x7d\x2d\x06\xf8\x4d\x40\xd2\x23\xec\x61\x41\xdf\x3e\xf4\x70\x5a\x7c\x6b\x9a\x92\x0c\xb1\x9a\x2c\x3c\xf4\xca\x5c\x7c\xc0\xd4\x6b\x5f\x16\xc5\x1d\xbb\x42\x6e\x94\x2b\x6b\x36\xa2\x61\x04\xf2\x7d\x2a\x22\x80\x14\xe6\xea\xe1\x0d\x70\xd9\x8a\x78\x30\x38\x2a\xe3\x7f\x22\xcf\x7f\xfe\xfa\x3f\xff\x83\x65\x2d\xd1\x29\xd6\xf1\xd5\x7f\xf1\x3b\x16\x1c\x60\xe3\x54\xc1\xcf\x8b\x13\x7c\xf8\xa1\x99\xb2\x86\x71\x7b\x1a\xb7\x95\x37\xb3\xfe\x61\x92\x35\x0c\xd9\x9f\xa0\xb3\x12\x23\xf6\x39\xa2\x2c\x95\x66\xe9\x11\x29\x43\x63\x3f\x60\x41\x10\x32\x6c\xb3\xe1\x40\x94\x54\x70\xd8\x67\xbc\x1b\x26\x4f\x63\x44\xca\xd6\xed\xbb\x63\xf4\x53\x29\xc5\xb0\x57\xfd\x1d\x5b\x39\x11\x4d\xfb\x77\xd1\xfb\x38\x8b\x52\x0a\xf4\x74\xb9\x8a\x45\xef\x1b\x71\x25\x8d\xe6\x4c\x6e\x6d\xdd\xa0\xb7\x8c\xb4\x8e\x9c\x70\xda\x27\x83\x5f\xfc\x13\x4e\xa3\x96\x55\xd6\xae\x93\xb2\x56\x5d\xe4\xb7\x32\x4a\x1a\xfe\x39\x79\x1b\xd6\x12\xb0\xee\x8b\x75\x4d\xd4\x57\xae\xb4\xa9\x66\xa6\xe4\x3a\xa8\x5b\x18\xa8\x5d\xaf\x3b\x46\x90\xf4\xb5\x41\x42\x98\x92\x21\x64\xd7\x32\x25\xbe\x5b\x58\x8c\x43\x48\x16\x8c\xa8\x76\xf4\x90\x45\x75\x0a\xcf\xa6\xbc\x64\x83\x13\xb1\xaf\x82\x71\x80\x99\x2f\x6e\xa7\xe2\xfd\xbe\x59\x6b\xf2\x59\xc7\x64\x2e\x03\x94\x3e\x81\x25\x14\x26\x21\x82\xad\x92\x21\x16\x25\x85\x60\x4e\xcc\x76\x63\x1e\xc6\x85\x82\x6f\x0b\x9e\x32\x26\x75\x5b\xad\x71\xe2\x75\x52\x52\xae\x00\x2a\xc3\xb9\xf1\x71\xd2\xc6\x03\x2d\xac\xc3\x92\x59\x41\xb1\x93\x2d\xc1\xe9\x91\x87\xac\x92\x3f\x14\xf0\x53\x59\xc2\x44\xcf\x39\x77\xc8\xd8\x81\x1e\x75\xd3\x24\xe9\xc0\xc2\x5f\x64\x59\xd2\xce\x25\x65\xe4\x57\x02\x96\x42\x4a\x6f\xf5\x0a\x53\xa9\x50\x13\xf0\x88\xe0\xcb\x00\x1d\x4a\x45\x9c\x57\xb8\x2f\xf0\x31\x02\x98\x82\xe0\xe9\xed\x39\xd0\x47\xe0\xe4\x61\xb3\xac\x6e\xb9\xd6\x69\x27\x58\x39\x83\x65\xb3\x0a\x13\x49\x21\xc6\xc5\x62\x56\xe1\x83\x92\x3a\x9a\x66\x52\xf7\xc1\x47\x28\xda\x6e\x73\x9b\x24\xd4\x90\xcf\x5d\x64\x45\x05\xcd\x7d\xb1\x01\xc8\x57\x7a\x54\xd3\x57\x0f\x1f\x2a\xfe\x88\x0f\xdf\xc0\xf2\x86\xdd\x1c\xe5\xec\x97\x5f\x98\x76\xf0\xa2\xfc\x21\x2e\xab\xe6\x93\x97\x61\xee\xf9\xfe\x00\xaf\x92\xde\x4a\x4d\xb5\x48\x40\x63\x5f\x34\x68\xe0\x13\x7e\x20\xd3\x01\x8f\x9c\x81\xe0\xd4\x22\x3a\x99\xc2\xa3\xfa\x1d\x6c\x5f\xcc\x78\xf0\xc2\xac\x5c\xe8\xab\x27\x3a\xf4\x1b\xf5\x05\x17\x76\xf3\x70\xeb\xb4\x23\x6f\x88\x00\x0c\x11\xac\x5c\xc3\xbb\xec\x25\x59\xca\x5e\xa8\x0d\xe9\x28\x9f\x1f\xd0\x06\x4a\x04\xe6\x0d\x76\xe0\xb5\x68\x64\x34\xcf\xa0\x96\x3d\x78\x65\xf6\x6e\xc1\xb2\xc8\xd9\x93\x24\xc9\x6e\xde\x84\x45\x15\x87\x09\xb9\x56\xa9\x71\x78\x01\xd6\x03\x89\x14\xb9\x2d\x4f\x9a\x2f\xce\x60\x39\xbc\xa2\x15\x81\x6f\xcc\x8b\xb3\x4d\x5c\xbd\x4f\xf3\x2c\xdf\x22\x9e\x8f\x4e\xcc\x0b\xe0\x1f\x4d\x76\x1b\x37\xaf\x99\xb3\x60\x86\xba\xe3\x0e\xc2\x48\xdc\xbc\x2b\x8a\xa8\x9d\x57\x08\x88\xe6\x6a\xb6\xcc\xb6\x49\x94\x7e\x55\x09\x12\xb4\x42\x89\xab\x94\xce\x9e\xb9\x12\x88\xbb\x1b\x15\x28\x5d\x15\x48\x23\xf5\x36\xbc\x11\x31\x18\xd9\xf0\xb8\x5b\x0f\x99\x44\x77\xdb\xeb\x65\xd8\x0d\xf7\x73\x83\x3c\x6d\xe5\x05\xf2\xf5\xa1\x31\xfd\xac\x05\xb7\xa6\x3d\x56\x84\xa0\xb5\xca\x21\xcd\x47\x89\xcb\x18\x76\x21\x30\x8c\xca\x46\xf4\x4e\x93\xc6\x0e\xd5\x33\x57\x8e\xe6\x71\xc0\x00\xae\x22\x1a\x81\x1f\x01\x7f\x47\x22\xe8\xa4\xa5\x9a\x0b\xb0\xad\x21\x3e\xa2\xb2\xc5\x6d\x59\x26\x80\x6a\xd0\x38\x0c\x6a\xaf\x8e\xc0\xdb\x0e\x74\x64\xda\x4e\xc7\x88\x54\x1b\x11\x7d\x1e\x83\xba\x2f\xa2\xf7\x29\x9d\x7b\x74\x25\xb4\x9e\x63\xb7\x25\x67\xae\xa5\xb7\x8d\xc4\xc1\xbb\x07\x1f\x4f\xd4\x83\xf2\x5e\x84\x4a\x7a\x06\x53\xd8\x91\xe7\x21\xd9\x30\x02\xf1\x79\xda\x9a\x9a\x71\x14\x28\x12\xde\xb8\x6a\x81\x0a\x34\x34\xc3\x3d\xef\x59\x5c\xf2\x59\xa2\xc3\x42\xde\xb9\x72\x59\xcb\xde\x32\xcb\x6f\x99\x87\x5e\xb9\xa3\xb0\x5f\xc4\xbe\x61\x8a\x99\xd0\x16\x8a\x7e\x0b\xd8\xf8\xca\x62\x29\xd2\x57\x53\xf1\xa0\xf0\x1c\xdf\xf4\x89\x5f\xd9\x4a\x2d\x85\x0e\x90\xae\x85\x3a\x2d\x01\x21\x12\xdd\x2d\x8f\x21\x3b\x49\xb2\x45\xed\x4c\x98\xac\x02\x33\xc6\xe5\xde\x63\x4c\xe0\xbc\x3d\xc2\x93\xc8\x1d\xe2\xb2\x39\xbe\x6e\x7a\x36\x42\x90\x2e\x78\xe9\x07\x2c\xbd\xc0\x81\xce\xa7\xf1\x10\x5a\x5a\x3b\xd7\x2e\x0a\xda\x23\x01\x08\x82\x4f\x81\x6b\xb6\x38\x33\xb0\x53\x68\x6c\x5a\x38\xc4\x2a\x45\x5c\x06\x66\xd7\xc3\xed\x18\xd3\x66\x61\xb3\x25\x7d\x00\x8f\x67\x33\x1e\x02\x5d\x9f\x9f\x34\xab\x3c\x6f\x38\xaf\x14\x2f\x7a\x3a\x16\x39\x6b\x6d\xfa\xda\x5d\x07\xc8\x29\x12\x33\x2f\x6d\x4b\xc1\xac\xd1\x70\x00\xdf\x9d\x75\x23\x27\xd0\x03\x0c\xc9\xe0\x0a\xe3\xee\x41\x25\xf8\xf1\xe0\x4f\x67\xf0\xeb\xe8\xeb\x86\x48\x6f\x8b\x84\xdc\x4d\x67\xe4\x4f\x63\xa5\xe5\x4c\xd3\x8f\x08\x01\xdd\x59\xda\xa6\xe2\x79\x53\x79\xcb\x2b\x87\xde\x17\x1b\x5d\xa8\x27\x07\x29\x78\x30\xf2\x62\xc7\xd3\x6b\xc0\x70\xcd\x94\x68\x33\x41\x02\xde\xae\xb1\xd5\x4e\xde\x34\xfc\xba\x93\x14\x62\xd6\x2a\x64\x78\x3a\x79\x22\x5b\xf4\xbc\x63\x6b\x3c\x19\xb5\x33\x01\xb5\x97\xf4\xf3\xbd\xf0\xef\x51\xe5\x3d\x4e\x07\x59\x98\x7e\xd7\xb3\xab\x76\x26\xd7\xcc\xe9\xdc\x35\x6f\x9f\x86\x91\xf1\xab\x21\x4d\x31\x85\xa9\x97\xbc\xb9\xc1\x44\x23\xb3\xee\xbc\xe0\x4b\x77\xb3\x0b\xa3\x88\x97\x0c\x7c\x18\x5c\x2f\xe2\x47\x22\x68\x3f\x47\xcf\xb3\xc5\xf3\x32\x21\x86\x8a\x27\x36\x3b\x8e\x0a\x87\x5e\xe6\x6a\x17\xec\xb6\xdb\x9d\xb3\x64\x78\x6c\xc7\x16\xcd\xa8\x76\x47\x55\x7d\x25\x21\x17\x64\x82\x5c\x06\xce\x8e\xd1\xaf\x7b\x99\x21\x84\xab\x0d\xc9\xa4\x5e\xbb\x02\x49\x47\xa6\x54\x82\xe5\xf8\x0c\x03\xad\x0c\xf5\x44\xce\x84\xd6\xa4\xcc\x89\x05\x84\x48\xe8\xb9\xc2\x03\xae\x29\x55\xdf\x64\x05\x85\x7d\x2f\xe3\x6b\x78\x22\x06\x8d\x8c\x65\xcd\x86\x47\x6d\xd4\x81\x2a\xf3\x49\xb0\x01\x9a\xf3\x58\x82\x60\xf3\xd7\xa4\x3e\xf0\xeb\xc5\xe3\x0f\xac\x3a\x70\x3d\x1b\xee\x9e\xc9\xad\x1c\x4f\xd2\x5b\x53\x08\xc4\x6c\x7e\x31\x13\x24\x01\xe4\x1a\x98\xb1\xe1\xfa\xa2\x46\x78\x47\x3d\xed\x4a\xb3\xe1\xea\x4e\xd0\x15\xd2\xf1\x6b\xb7\x8c\x94\x42\x1a\x32\xce\x34\xa0\x9d\x61\xd6\xc6\x1f\x48\xeb\x9d\x7a\x2e\x6a\x5a\xc4\xce\x8e\x55\xa1\x73\x8d\x80\x97\x75\x89\x99\x16\xba\x04\x24\x4b\x31\x4d\x67\xb3\xc1\xb0\x0d\xbe\xc2\xd3\xbb\xbc\x9a\xb3\xc2\xbc\x27\xa8\x16\x16\x45\x68\x6c\x44\xcb\x8f\x91\xde\xd1\x11\xe7\x32\x3e\x4a\xdf\xd7\xae\xec\xf1\x73\x23\x7e\xfc\xad\x9e\x8a\x66\x1e\xaa\x05\xc3\xb6\xd3\x17\x07\xa0\x60\x41\x46\xb6\x09\x50\x0a\x0f\x0d\xa1\xe6\x34\x81\x48\xd8\x16\x9c\xd5\x42\x83\x4b\x6a\xf0\x4a\x7b\x17\x56\x4f\x62\xef\x2c\x1d\x5f\xdc\x7a\xf1\xdc\x90\x70\x4e\x56\x18\x9a\x26\x48\xd9\xcf\xa7\x14\x03\xee\x48\xe2\xe2\x0f\x5d\x54\xc6\xbc\xc0\x2b\xbe\x71\x00\xc5\x47\x6a\xb9\xce\xbd\x86\x0c\x75\xe0\x7c\x09\xf8\x30\x89\xab\x7a\x3c\x50\xb0\x67\x66\xb3\x19\xc8\xd3\xdd\x19\x8f\x71\xd2\x97\x76\x04\x64\x6c\x7a\xc7\x68\xe4\xa3\x9d\x2e\x40\x6a\xbc\x3f\xc3\x97\x48\xf2\xb5\x35\x58\x07\xe5\xf5\x48\xfc\xec\x6e\x26\x40\x1d\xd4\x29\x30\xd2\xdf\x4a\x1e\x20\xcb\x84\xdc\x5f\xc0\x95\x79\x4a\x94\xc9\x3b\xb2\x23\x81\x74\xe2\x24\x7b\x8c\x76\xab\x37\x7b\xa0\xb3\x29\x0f\x64\x0e\x4c\x22\xbd\xc2\x00\x6c\x80\x1e\xeb\x80\x2e\x8e\xf0\x7c\x89\x93\x63\x56\x41\x9d\x48\xd0\xea\xab\x93\x55\x20\xb1\x33\x8a\x87\xda\x62\x48\x8f\x51\x26\xbd\x26\x3f\xa9\xc8\xa8\x5c\x54\xf1\x56\x87\x11\x18\x2d\x1e\xb7\xbd\xdf\x61\xde\x8e\xe9\xcb\xbe\xcf\x02\xe3\x10\x26\x16\x84\x1d\x37\xa3\x3d\x13\x78\xda\x72\xbd\x3e\x66\xe2\xd8\x49\xaa\xb5\x77\x2f\x0f\xb4\xc9\x86\xad\xb2\x41\xbb\x8c\xd9\x35\x43\x31\x68\x9a\xb1\xdf\x99\x5c\xdb\x3d\x2b\xba\xcf\xf9\x3c\xec\x7e\xee\x75\x40\x0b\x1f\xfb\xe3\x25\xd7\xe1\x7c\xa8\x67\x9a\x47\x64\xd2\x8f\xab\xf8\x1d\x32\x50\xb3\x75\xcf\xc9\x84\xd6\xc4\x7a\x48\x89\x2c\x34\x1e\x56\xbf\x18\x9b\xa8\x57\x24\xe7\x74\x3a\x2c\xe5\x63\x5e\x92\x30\x61\x64\xa5\x8e\x6b\x4e\x31\xa7\xa3\x5a\xbf\xc1\x1d\xae\xb4\xf2\x5b\x43\xdf\x83\x4e\xa0\x63\xbe\x66\x4d\x0d\x69\xd3\xae\xc7\x5f\x49\xb3\x07\xef\xdf\xfe\x10\xfc\x0d\x1f\xd2\x1a\xc4\x0a\x4e\x91\xa9\x1b\xa1\xb6\x86\x9d\xed\x9d\xb3\xd8\xf8\xea\x9d\xd4\x14\x0b\x7e\xc8\x38\x6c\xaa\x66\x34\xe6\x5c\x06\x13\x0d\xf9\xf5\x77\x3a\xa5\x46\xad\x74\x61\xec\xba\x91\xd5\xe8\xa4\x35\x8e\xb1\xf0\x3a\xd5\xd9\xaa\xc3\x07\x68\x91\x0e\x1f\xd4\xad\x5f\xc3\x88\x1d\x64\x9e\x79\x83\x3a\x4d\x76\xc1\x51\xeb\x50\xff\x60\xb8\xbb\x77\x4f\x18\x3a\x4d\xc0\x3b\x40\x69\x62\xbf\x36\x18\x23\xe0\xb1\x1d\xeb\xe5\xc8\x77\x71\xc0\x49\x81\x1e\x06\xfb\xb4\x7b\x6f\xe4\x74\xe8\xf0\x80\xc5\xf6\x7f\x34\x07\xa9\xbb\x25\xf4\xf8\x47\xeb\x43\x0d\x0d\xcb\xc5\xdf\xc7\xf8\xf8\x79\x2e\xda\xd3\xc6\x00\x29\xfc\xe5\x94\x72\x0f\x3b\xd4\x57\xfb\x48\x04\xa7\x2f\xdf\x66\xe0\xc0\x55\x7b\x9f\x1d\x3a\xf5\x50\x23\xb7\xc2\x89\x01\x8d\x9e\x73\xa0\x7d\xac\x73\xc6\x01\x1d\x25\xeb\x30\xe2\xba\x43\xa7\x1a\x28\x97\x3e\xc2\xcc\xa8\x98\x21\xbc\x3d\x89\xea\xdc\xd2\x87\x71\x7e\xa2\x62\x30\x9c\x81\x35\xf6\x30\x05\x0a\x33\x66\xe6\x75\x8e\x5c\x34\x4e\x4d\x30\x91\xe6\xd1\x89\xd1\x43\x13\xbb\xce\x4c\x98\x11\x22\x2f\xd3\x15\xc1\xe0\xd1\x2a\x2d\xfe\xe9\xd4\x44\x97\x06\x2a\x2f\x1c\xee\x2d\xe8\x45\x7b\x1b\xd2\x72\x8d\x73\x12\xd0\x9b\x30\x29\x33\x9c\x02\x59\xc3\xbc\x49\x81\x15\x3d\x1d\x6f\xdd\x6c\x7c\x47\x78\x67\xe0\x5c\x94\x38\xba\x23\xfc\x5d\x15\xed\xac\xa0\x07\x07\x65\x0e\x95\xc8\xcc\xff\xec\x43\x1e\x48\xe2\xf3\x0f\x79\x38\xb5\xeb\x74\xbc\x9e\x33\x1e\x29\xc3\x59\xd6\x5e\x60\x0f\x5c\xd3\xad\x25\x95\x8c\xda\x26\xab\xc8\xfa\xc6\xe4\x90\x30\xc5\x2b\x97\x7e\xc2\x63\xe0\x39\x5f\xee\xc4\xcf\xf8\xc2\x27\xd8\x9c\x09\x20\xd7\x8d\x44\x80\x88\x32\xba\xe6\xa4\xbc\x2d\x2b\xbd\x99\xa3\x70\x01\xad\x24\xbe\xd2\x89\x3d\x27\x42\x1e\xc3\xd9\x3a\x2b\xab\x13\x1a\xbb\xfa\x20\x48\xdd\x03\xcf\x36\x65\x43\x89\x43\x59\x7e\x87\x1f\x01\xc1\x90\x80\x11\x39\x0e\xda\xad\xe2\x4f\xb6\x45\x98\x4a\xba\x5d\x4e\x6c\x7a\xc3\xc7\x29\x3f\x3e\x39\x3e\x9e\xa9\x7f\xb3\x23\x41\xca\x6a\xdb\x72\x64\x01\x58\xb2\xd4\xf6\x3e\x4c\x89\x58\x61\x3b\x95\x4b\xf7\x10\x74\xf5\xd8\x54\x72\xc0\x80\x6f\x03\x98\xbd\xca\x78\x22\x9d\x54\x48\xbe\xff\x82\x65\x80\x52\x7d\x90\xd0\x4d\x56\xc0\x9a\xe4\xf4\x4a\x25\x3b\x3d\xf9\x6a\x6f\xf1\xc6\x4e\xd2\xcd\xce\xc9\x96\x99\x3f\x6d\xe0\xa7\x83\xb2\xef\xc8\x80\x68\x99\x77\xc2\x34\xbe\xe5\x13\x2e\x8e\x29\x08\x9f\xf4\xa7\x6e\x8d\xc7\xa6\x0e\x01\xfc\xae\xdd\x34\x76\xb2\x05\x5b\x62\xc0\x39\x52\xaf\xe7\x22\x3e\xe7\x8c\x8b\xdc\xeb\x30\x98\x14\x28\x80\x96\xe0\x2b\xe8\x0a\x6f\xcb\x58\xd4\xa2\xd4\x10\x36\x59\x50\x1f\x98\x1c\x68\x8a\xd6\xe8\x60\x47\x5a\x5f\x2b\x03\xb0\x91\x29\xd8\xcc\xf0\x6b\x1f\x6a\x99\xb4\xcf\xb5\x18\x94\xed\x5e\x74\xd0\x9b\xfc\x37\x7e\xd4\x65\x74\xde\xed\x91\x97\xdf\x7c\xe6\x87\xd2\x24\x09\xce\x0c\x4f\xed\xbc\x8d\x36\xfb\x92\x1d\xeb\x73\x36\x36\xd2\x83\xf3\xb8\xc0\x3b\x27\x1e\xe1\x1a\x86\x6f\x73\xf6\xa1\x1b\x27\x96\x79\x4c\x67\x5a\x10\x17\x40\x1f\x1e\x61\x05\xfe\x4a\xfb\x85\x98\x07\xf5\xfd\x01\xf8\x46\x80\xca\xb3\xea\x93\x49\xa3\x7f\x87\xf8\x76\x49\x37\x4c\x6c\x0b\xc9\xaf\x21\xa8\x20\x0b\x17\x96\x23\x80\xad\x84\x4f\xa6\xf1\x3e\x07\x9a\x9b\x12\xda\xc1\xee\x06\x2d\x6a\xe0\xab\x6c\x4b\x9c\x05\xc9\xdb\xde\xc6\x40\x58\xd7\x86\x46\xac\x20\x39\x2a\x81\x52\xaf\xb2\x4a\x6e\xdb\x43\x92\x48\x8b\x34\xc5\x3a\xbc\x06\x13\x4f\x6e\xd1\x1d\x87\x24\xd4\xce\x82\x32\x9b\xe5\xc2\x29\xba\x33\x07\x35\xbf\x61\x0d\xef\x2e\x94\xec\xc7\xd0\x9c\x1c\x64\xc5\x4f\xc1\x36\x9b\x63\x69\xef\xae\x70\xae\xc3\xc2\x03\x83\xb2\xe1\xca\x31\x84\xe6\xd8\xf1\xd1\x03\x27\xea\x36\xbc\x1f\xb8\x69\x3a\x3d\x85\x24\x3b\x7b\xe4\xba\xb4\x3d\xd0\xe1\x6f\x76\xf8\xc0\x22\x1e\x0c\xd4\xb5\x73\xf3\x9a\x67\x04\xc8\x31\x47\xf8\x17\x37\x80\x81\xa3\x54\x3b\x15\x76\xdb\xe9\xd6\xab\x6c\x46\x7d\x6e\x6d\xfb\x4a\x1c\x6e\x8c\xc6\xda\x4e\x37\xe3\xa1\x91\x66\xdc\x43\x48\xee\xd1\xed\xb6\xd3\xcd\xc9\x97\x63\x98\x27\x39\xb0\xf6\xcd\x9a\xee\x3d\x41\xef\xc4\x9f\x1e\x3f\x76\x93\x81\xc1\xce\x92\x8c\x57\xb2\xa7\x72\x18\x42\x66\x13\x2b\xa4\x44\x8b\x6d\x2b\x5a\x40\x55\x85\x81\x3f\x3a\xbe\x4a\xbd\x70\xd7\x9f\x64\x1d\x02\x8c\x26\x13\xa6\xe6\xd1\x30\xb1\xd3\x29\x68\x8e\x12\xf5\x38\x05\x7b\x87\x7d\xdc\x27\xc8\x65\x0e\x77\x0a\x1e\xe2\xc4\x3b\xa5\xab\x67\xcf\x5e\x7f\x3b\xe8\xc7\xc3\x2c\x87\x3a\xa1\x91\x34\x0e\xf9\x8e\x38\x80\xea\x38\xee\xf6\xf4\x09\xf6\xb8\x04\x2d\xd1\x99\xef\x9c\xbd\x29\x9c\x04\x52\x24\xec\xb8\x9d\x5e\xff\x75\xb7\xdb\xb1\x91\x3e\x0a\xa6\xc6\xcc\x91\x99\x13\xf5\xd5\x83\xe8\x2b\x32\x03\xea\x36\x6c\xdb\xec\x54\x2d\xf3\x5d\xd2\x3c\x3d\xd8\xcf\x38\xe8\x66\x1c\xf2\x32\x3a\x43\xbb\xc3\xc7\x88\x0c\xf7\xf8\x18\x3b\x23\xe4\x0e\x4a\xeb\x64\xd2\xc3\xfa\xb2\x81\x49\xeb\xb6\x01\x47\x01\xb5\x0f\x05\xee\x11\x1f\xd8\x1d\x1d\x60\x40\xd0\xf0\x00\x1d\x16\x1f\xe8\x1c\x27\x9c\x5a\x6b\x57\xdc\x41\x50\x67\xef\x90\x00\xdd\x0c\xcb\x47\x12\x0a\x58\x41\xa5\xc2\x86\xc8\x30\x81\x7d\x79\x22\xbb\x5f\x63\xf3\xf5\x10\x13\xcc\x4d\x00\x0e\x55\x0d\x39\x7d\x8d\x2a\xd8\xa3\x5b\x7b\xc4\x07\x06\x8e\x1b\x5a\xd7\xd1\xd8\x01\xc3\x31\x8f\xb9\xf1\x62\x42\x3d\x12\x07\x77\x8b\x1a\x34\x7f\xdb\xe5\x86\xed\x6b\xf6\x3c\xbc\xd3\x6c\x7c\xb6\x92\x16\x64\xbd\xd9\xd4\x51\xf1\xe5\x52\x32\x8c\x58\x6f\x74\xc6\xce\xc6\x4e\x9b\x77\x8b\x95\x7c\xcd\x40\xc3\xbf\x89\xad\xbe\xe3\xe7\xd6\xc1\x69\x0a\xde\xb7\xef\x6e\x43\x98\x38\x3b\x9e\x8d\xbb\x88\x6b\xef\x70\x9f\x15\x98\xb3\x17\x61\xbc\xfe\x60\x36\xa0\x5d\xd5\x3c\x32\x94\xc0\x60\x28\x12\x24\xa0\x91\x7c\x1b\xde\x08\xf8\xdc\x9a\xcf\xf6\x9d\x7d\x41\x4f\x9b\xa3\xdd\x0e\xc9\xdb\x40\x7f\x9f\x27\xdb\x19\xd7\x21\xc7\xb5\xaa\xaf\x2c\xd8\xcf\x67\x4c\xe5\x70\x3d\x7c\xe9\x66\xb9\x2a\xaf\xae\xfa\x5d\x46\x87\x12\xe5\x4f\x37\xcc\x7c\x6b\x14\x52\x90\x72\x66\xdd\xce\x7f\xb3\x3e\x76\xb9\xf6\xad\x0e\x85\x52\x48\x1a\x04\x30\xb0\x85\x9f\x41\x91\xa4\xbe\xa3\x56\xa6\x1c\xf3\xcb\xd0\x84\x71\x59\x91\xe6\xba\x87\x2a\x86\xe8\x99\x68\x8c\x93\x30\x31\xc2\xe4\x5c\x35\xf3\xf2\xee\xdc\xf6\xd1\x19\x7b\x7f\xff\x20\x02\x5d\x0b\xac\xc1\xa7\x6b\xd1\xba\x33\x04\x86\x8e\x75\x67\xd9\x17\x6e\xeb\x48\x72\x2b\x9f\x64\xce\x67\x85\x47\x18\xea\x0b\x44\x35\xe5\xbc\xd1\xa6\x9c\x01\x6c\x7d\x6b\x5b\x9b\x22\x35\x19\x46\x16\x86\x62\x0d\x5d\xd1\xa1\xe2\x63\xa2\x63\xc8\xe6\x76\x8d\x73\x15\x73\x94\xf1\x80\xd1\x60\x1a\xbf\xfb\x70\xb8\x0b\x96\xda\x02\x19\x15\x41\xe1\x3d\x80\x0e\x3b\xee\x0a\xc3\x3a\x0b\x98\xb0\x56\x47\x5d\x1e\x16\x0e\x75\x23\x70\x7c\x68\x0b\x86\xe5\xd7\x05\xe0\x6c\xe4\x67\x57\x90\x62\x38\x4a\x31\x1c\xa6\x18\x8e\x53\x0c\x06\x2a\x68\x8e\xfa\x72\xb9\x9d\x50\x05\xc7\x61\x3f\x5b\x51\x4b\xda\x36\x0d\xbd\xa4\x6c\xab\x07\xd7\x33\x13\xdf\xb5\xea\xfa\x29\x9f\x2f\x6b\xff\x9d\x07\x8f\xff\x74\x04\xc0\xe9\xa7\xdb\x15\xe0\x76\xce\xfe\x71\xce\x6a\x2a\x37\x5e\x66\x52\x5f\xba\x97\x5f\xef\xbc\xbe\xd2\xfe\x2d\x8c\x7d\x1d\xd2\xaf\x9e\x9c\xbf\xfb\xcc\xeb\x2b\xa9\x1a\xd6\x57\x6c\xc4\xdb\xef\x72\xc7\x0f\xfd\x99\x13\xbe\xdd\xa7\x2c\xae\xf9\xbb\xbd\xdb\x5c\x60\x4b\xf7\x5a\xf5\xc9\x7e\xf7\xaa\xb7\x2f\xb7\x79\xb7\x5d\xd8\xd9\xc7\xe6\x71\xb1\x6f\x35\x3c\xc5\x8c\xda\x05\xdf\x19\xda\xb9\x69\x3d\x68\x5e\x24\xda\x5b\x66\x46\xdc\x07\x9d\x0b\xf5\x5e\x96\x97\xd4\x4f\x7f\x5f\xf4\x40\x20\xab\xcd\xb3\x73\x35\x8c\x33\xf9\xcd\x6b\xfd\xf1\x88\xbc\x33\x4d\xfb\x5e\x13\x4a\x33\xb3\xfb\x9a\xd0\x9a\xf2\xce\xb3\xf7\x8d\x3f\xaf\x12\xd8\xb1\xb5\xe7\xef\x9d\x19\x1e\xb8\x1e\x74\x9c\x82\x44\xdb\x3e\xe7\x96\xd0\xc9\x10\xe5\xc6\x49\x7b\xfe\x8d\x3d\xe6\x93\x5f\xbf\xfb\xf5\xa2\xf5\x80\xec\x77\xbd\x68\xe3\x6e\xd1\x66\x97\xf0\xb4\xb9\xed\xd5\x41\xf7\x8b\x62\x7f\x07\x2e\x5f\xb2\x46\x57\xa7\x8c\xe3\x87\xae\x4b\xf4\x9d\x43\x3f\xe0\x02\x52\x47\x3c\x7e\xd5\x05\xa4\x0e\x1d\x7b\x9c\xf0\xa0\x3f\xaa\x01\xdb\xcd\xa3\x21\x81\xe9\xdc\x2d\x7a\xe0\x15\x96\x8e\xf7\x87\x07\xb5\x75\x8f\x4c\xff\xbd\x28\xe5\xa5\xe8\x4b\x50\x2b\xc3\x4e\x9f\x6e\xc6\x57\xdf\xd5\x31\x7f\x80\x53\x29\x78\x76\xe6\x39\x9f\x42\xc2\xeb\x46\xbf\x39\xe0\xae\xd1\x87\x7b\x5d\x51\x39\x6d\x48\xee\x8e\x84\x11\x1a\xd8\x3d\x12\x46\x28\x41\x24\x5b\xfc\x03\x03\xa1\xe2\x03\x28\xad\x5c\x98\x2b\x25\x5f\xe2\x1d\x17\xe4\xf7\xcc\x48\x00\xe5\x8f\xf2\x51\x50\x7d\x8b\x6d\xa3\xf3\x91\x52\xc6\xd1\x67\x5e\xc6\xa8\x8f\xe5\xce\x84\x46\x1e\x49\x0f\xdf\x43\x17\xc6\xe2\x5d\x4f\x26\x48\x0a\xf5\xdd\x8d\xf5\x5f\x2c\x9f\x64\xd7\x81\xbb\x5f\x93\x50\x62\x64\x6a\x19\xbc\xd9\x2e\x92\xb8\x5c\x7b\x72\xcf\x15\x61\x2d\x47\x05\xf1\x41\x64\x89\x58\x38\x37\x80\x19\xff\x0a\xe7\x56\xac\x60\x33\xc5\xfb\x18\xce\xf9\x72\x87\x2b\x6d\xab\xc8\x4d\xfa\x44\x4e\x8e\x97\xce\xed\xcd\x94\xf0\xc4\xce\x89\xe4\x59\xd4\xf9\xec\x71\x15\xd4\x1a\xac\x7d\x1e\x9a\xbf\x77\xcf\x6e\xcf\xfe\x3e\x9d\xbc\x64\x06\xf0\xa4\x2d\xcc\x80\xbc\xfb\xef\xe6\xc1\xee\xd6\xe6\xd6\xbf\x08\xdc\x4b\x3f\x1a\x0e\xb2\xfa\xce\x89\x50\xee\xdf\xda\x67\x35\xb4\x05\x9a\x6f\x79\x18\xbf\x53\x62\x44\x9e\xf9\x78\x15\xc9\x48\xf3\x9a\x87\x46\x9e\xbd\x1d\xbc\x9e\xfb\x25\xe6\x8a\x87\x8a\x85\xae\x79\xdb\xc4\x59\x9f\xf8\x90\xe8\x8c\xc9\xcc\x01\x38\xfa\xf3\x13\x3b\x9c\xda\x3b\x6e\xef\xc4\xce\xff\x6f\xdf\xde\x59\x73\xd7\x45\xf6\x83\xf0\x50\x06\xb4\x46\x87\xfb\xe4\x6d\xf4\x5f\x92\xb9\xaf\x45\x70\xe0\x0d\x99\x26\x8d\x60\xf0\x96\xcc\x0e\x00\xb3\x7d\x92\x24\x02\x7b\x55\x26\xa7\x13\xec\xb0\x2f\xa6\x4e\x9e\x40\x43\xfb\xbb\xc9\x01\x03\x90\xad\x91\x16\xd0\xce\x0a\x68\x27\x05\x34\x92\x30\xff\x30\xb7\x5d\x92\x3d\xf2\xb9\x77\x42\x0e\x0c\x48\xaf\x92\xdb\xef\x4e\x48\x83\xb6\x7e\xb7\xdb\x1f\x07\x58\xde\x03\x00\xaa\x71\x04\x88\x3b\xd3\xb6\x70\x36\x91\x91\x43\x30\x0e\x10\x93\x6a\x9d\xa3\x2f\xf2\x3c\x90\x3d\xa6\x07\x9e\x99\x48\xa0\x29\x29\x57\x91\x98\xd3\x39\xad\x70\x59\xef\xe5\x93\x7f\x34\x4c\xda\x17\x2f\x1b\x07\xa5\xfd\x57\x71\xbb\x42\x2d\xd0\xb4\x1f\x99\xf6\x46\xaf\x1a\xc0\xb4\x75\x19\xa6\xf9\x9b\xca\xba\x6c\x24\x3b\x8e\xec\xce\xd8\x39\xa3\xeb\x41\x8a\xda\x50\xf5\x88\x78\xfd\x6d\xf0\xea\xbe\xa6\xcc\xae\xa0\xd5\xbf\x1e\x3e\x95\xe0\xda\xe1\xf0\xd4\x88\x1f\x5e\x94\x0b\xbf\x5a\x07\x2b\x8d\x4c\xfd\x0f\x77\x8a\x0b\x53\xd0\x7c\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x02\xff\xed\x5d\xeb\x73\xdc\x36\x92\xff\x3c\xf3\x57\x20\x53\xb1\x43\xfa\x46\x94\xb3\x55\x77\xb5\xa7\x94\xae\xce\x0f\x25\xf1\x6e\xfc\x58\x5b\x4e\x3e\xa8\x5c\x59\xce\x10\xa3\xe1\x8a\x43\xd2\x24\x47\xb2\x56\xd1\xff\x7e\xfd\x02\x08\x3e\x67\xc6\x49\xae\xb2\x75\xe7\x4a\xa4\x19\x12\x68\x34\x80\x46\xe3\xd7\x0f\x40\xc7\xc7\xea\x59\x16\x69\x75\xa9\x53\x5d\x84\x95\x8e\xd4\xe2\x56\x2d\xc2\x22\x4b\x03\xf5\xfc\xb5\x7a\xf5\xfa\x5c\x9d\x3d\x7f\x71\x1e\x4c\x8f\x8f\xd5\x5b\x5d\x6c\xd3\x34\x4e\x2f\xb9\x80\xba\x89\x93\x44\x65\xd7\xba\xb8\x29\xe2\x4a\xab\x6a\x1d\x97\x6a\x15\x27\x9a\x0a\xff\xa8\x8b\x32\xce\xd2\x13\x75\x77\x17\xc8\xe7\xfb\x7b\xe7\x85\x7a\x0e\xad\xb9\x6f\xf1\x3b\x94\x98\xe6\xe1\xf2\x2a\xbc\xd4\xf8\xe6\x0d\x7f\x7c\x15\x6e\xe8\x0d\x54\x3e\x37\x6d\xa8\x65\x96\x56\x61\x9c\x96\x6a\xa3\xab\x75\x16\x95\xaa\xca\xd4\x26\xbc\xd2\x2a\x4e\xa3\xf8\x3a\x8e\xb6\x61\xa2\x74\x1a\xe5\x59\x9c\x56\x50\xa5\xc8\x36\xaa\xd4\xc5\x75\xbc\xd4\xe5\x1c\x29\x15\xfa\xe3\x56\x97\x95\x0a\xd3\x08\x3e\x97\x79\x96\x96\xd0\x85\xdb\x5c\x13\x25\x2c\x8a\x3d\xca\xe0\xa1\xa5\x32\x57\x61\xa9\x6e\x34\x74\x1a\x7e\xeb\x74\x09\xe3\x56\x94\x48\x00\xe9\x45\x5a\xbe\xaf\xb2\x42\x2a\x12\xb5\x39\x3d\x08\x71\xa4\x56\x2a\xdb\x16\xaa\xdc\xe6\x79\x56\xe0\x48\x57\x45\x98\x96\xf8\x19\x9b\x8b\xc3\x24\xfe\x67\x58\xc1\x40\x20\x35\xa8\xb3\x09\xab\x32\x98\x4e\xe3\x0d\x95\xf0\xa6\x93\xd9\xe2\xb6\xd2\xe5\x0c\x3e\x60\xdf\xf5\xa7\x0a\x3f\x12\x1b\x30\x25\xc7\xff\x28\xb3\x14\x1f\xac\x36\xf4\x3c\xce\xf8\xe7\x71\x9c\x6d\xab\x38\xc1\x2f\xa9\xae\x8e\xd7\x55\x95\x9b\xcf\xdb\x82\x1e\x97\x55\x01\xf4\xae\xe5\x23\x90\x82\x26\xe0\xf3\x65\x5c\xad\xb7\x8b\x60\x99\x6d\x8e\x2f\xb3\xa3\xab\xb8\x3a\xc6\xff\xcd\x58\x40\xe9\x30\xbd\xcd\x17\x6a\x76\x99\x65\x97\x30\xe5\x97\x59\x12\xa6\x97\x41\x56\x5c\x1e\xe7\x45\x56\x65\x8b\xed\xea\x98\xfa\x7f\x7c\x95\x66\x37\xe9\x31\x95\x86\x5a\xd1\xb6\xa0\x4e\x1e\x50\xb5\xae\x02\xf5\xf5\x26\xaf\x0e\x69\x57\xca\x43\xcd\x55\xac\x93\x68\x13\x96\x57\x07\xd4\x76\xea\x00\x05\x18\x9e\xed\xb2\x3a\xa0\xba\xa9\x00\x75\xab\x78\x03\xd2\x16\x6e\xf2\x03\xaa\x3b\x75\x80\xc2\x4d\x11\xe6\x39\x08\xd8\x01\x04\xea\x2a\xdd\x29\x2d\x60\xf1\x86\xc7\x9b\xed\xa7\x59\xf3\x4d\x7e\x75\x79\xac\x8b\x22\x2b\x48\xd2\x46\x1a\xb2\x92\x47\x4f\x8c\xf8\x8d\x54\xa0\x0f\xc8\xc8\xdd\xdd\x91\x8a\x57\x4a\x7f\x54\xc1\xb3\x2c\x5d\xc5\x97\xc1\xb9\x5d\x09\x33\x58\x29\x33\x35\x4b\x41\xf8\x67\x0a\x16\x7d\x83\x37\x7c\x7a\x04\x32\x8d\xbf\xa1\x89\x19\x93\x02\x99\xc4\x82\x7b\x50\xbd\x2c\xf2\xa5\xa1\xda\xe1\x93\x5e\x0e\xbe\x39\x06\x35\x13\x46\x61\x15\xb6\x1b\xdd\xbb\x49\xfc\x54\xaf\xf8\x81\xf5\x65\x0b\x18\x76\x9c\xb6\x70\xed\x1e\x40\x40\x96\xfa\x41\x83\x8d\x9f\x0e\x68\x82\x2a\xba\x3c\xfa\xd3\xe9\xf4\x3a\x2c\x50\x5b\xfd\xac\x4e\x15\xe8\xa2\xe0\x5d\x0e\x3a\xa5\xe2\xef\xa4\xc0\x80\x8d\x4d\x1e\x16\x9a\x1f\x89\xf6\x09\x9e\x54\x59\xcc\x4f\x1a\xdd\x0c\x5e\xe9\x9b\x77\xa8\x8b\x0b\x7e\xc9\xda\x2c\x78\x95\xe5\xcf\x12\x50\xb1\xf6\x29\x10\xcd\x6f\xf9\x0b\x0b\x6f\xf0\x13\xc8\xfe\x74\x02\xaa\x54\xe6\xd3\x88\x21\x6b\x65\x2c\x4a\x2a\x29\x78\x92\x52\xbd\x5a\xc9\x04\xcf\xe5\x23\x3e\x16\xf5\x11\x9c\xe1\x6f\x7c\x60\x96\x74\xf0\x8e\x3e\xe0\x23\x67\x99\x06\xe7\xe6\x33\xbe\xa8\x97\x1f\x96\x86\xa5\xf2\x63\x98\x6c\xa9\xdf\x8e\x5e\x09\xbe\xc5\xcf\x2f\xe1\x33\x8e\xde\xf1\xa3\xbd\xfe\xa9\x33\xbb\xb3\x3d\xda\xfb\xdf\x31\xed\xa0\x2f\x52\x15\xf2\xf6\x56\xcc\x55\x5c\x7d\x55\xaa\x6d\xa9\x57\xdb\x84\xb6\xa9\xd5\x36\x5d\x62\xd7\x61\x0f\x5c\x87\x95\x4a\x35\xee\x52\x99\xca\x72\xc2\x06\x2a\xc3\xba\xf0\xf9\xc8\x6c\x03\x48\x70\x11\x96\x71\x19\xa8\x6f\xa1\xba\xfe\x04\x3d\x4f\xf4\x5c\xdd\x66\x5b\xb5\x89\x2f\xd7\x95\xca\xc3\x12\xb7\x48\x87\x61\xa0\x17\xda\x86\xb8\x1d\x98\x9b\x68\x0b\x1b\x33\x92\x83\xb2\x28\x01\xc1\xf7\xb0\xaf\x26\xc8\xe3\x0d\x08\xa1\xd2\xe1\x72\x2d\x3b\xbd\xf2\x4c\xeb\x3e\xbc\x2b\x80\xc3\x6d\xce\x44\xcb\x5c\x2f\xe3\x55\xbc\x84\x46\xab\x75\xa0\xbc\x17\xc4\x1f\x00\x06\xa0\xbf\x08\x17\xc9\x2d\x94\xd9\xc4\x30\x3d\x84\x12\x60\xc7\x2e\xe3\xcb\x14\xab\xc6\xe9\x75\x76\x85\xdb\xbd\x56\xef\x18\x23\x58\x54\x41\x2c\x6a\xa4\x53\xf7\x80\x65\x00\x49\x98\x91\x0c\x7c\x28\x61\x47\x77\x99\xc4\x3a\xad\x9a\xa3\x0b\xad\x2c\xb3\x24\xd1\x54\xcf\x00\x14\xe0\x08\x84\x9f\xc9\x41\x3f\x6a\xb8\x02\x3f\xa0\x43\x48\xb0\x04\xb1\x49\x18\x4a\xf0\x58\xc5\x38\xc2\x1b\x4d\x23\xe9\xf0\x0b\x35\x74\xb1\x0a\x97\x7a\x68\x26\x90\x98\x6d\xac\x1f\x24\x6d\xb1\x31\xd5\xd4\x20\xb8\x00\x9f\x49\x7f\x40\x0f\x2c\xe2\x94\xc6\x69\x23\x2c\x3a\x13\x3b\x17\x28\x55\x6d\x8b\x14\xba\x8e\x3d\x46\x06\x97\xd0\x4d\x5d\x20\x62\x0a\x0d\xb3\xc1\x94\xba\xd3\x19\xd0\xbb\xe9\xe4\x7d\x6a\xfb\xa7\x23\x40\x80\xa6\x06\x43\x40\xd1\x04\x77\x77\xc0\x22\x20\xc4\x2f\x63\x75\x72\xaa\x6c\x99\x97\x3c\x65\xac\x96\xbf\x8c\xa5\x8e\x69\x45\xc1\x3f\xd3\xd5\xc0\x3c\x04\x52\xac\xb8\x18\x5d\x5a\x8e\x76\x37\x81\x02\x0c\x92\x58\x57\xf1\x95\xd3\xa8\xb7\xac\x3e\x29\x41\x69\xa8\x76\xf1\xf7\x1c\x05\xe6\xd1\xdd\xdd\x77\x19\x96\x01\xca\xc1\x5b\x86\xa0\xe7\x30\x18\x52\xcf\x57\x5e\xab\x04\x03\x53\xa7\xc8\x9c\x15\x9c\x8f\xa3\x65\x70\x2b\x3d\x43\x46\x75\xd0\xd3\x73\x64\x06\x1b\xf7\xa7\x13\xdc\x08\xa0\xe4\x17\xa7\x2a\x8d\x13\xa4\x30\x91\xf9\x82\xaf\x44\x64\x3a\xb9\x9f\x9a\x67\x86\x7a\xb0\x93\x27\x7f\x8e\x04\x60\x10\xcd\x70\xe2\x60\xbe\xc4\x65\xe6\x8e\x28\x2d\xe4\x2f\x41\x8d\xe0\x88\xde\x63\xe1\x23\xe5\x8e\x32\xbc\x1a\x1a\x68\xa4\xd5\xd7\xb3\x12\x07\xdd\xa9\xe6\x8a\x89\xdf\x9d\x6e\x1e\x33\xea\x1c\x92\xed\x9f\x25\x63\x18\xd8\x15\x75\x87\xd3\x62\x4d\x04\xe7\x31\x0f\x7b\x3d\x1d\x40\xfb\x23\x76\x44\x28\x74\xc6\xad\x33\xdb\x50\xe5\xda\xce\x5d\x19\xb4\x04\x88\x58\xc1\x32\xdd\x59\xeb\x4e\x1b\xce\x9b\x79\x7a\xcd\xd3\x31\xb9\x9f\xf2\x20\xf3\x9c\xb8\x73\x83\x9b\xe3\x93\x24\x39\xfb\xb4\xd4\x79\x45\xfb\x54\xc9\x2a\xd6\x8e\x14\xed\x50\x68\xb2\xc8\xda\xac\x17\x2b\x4d\x23\xe9\xa6\x1e\xbb\x20\x78\x19\x47\xa0\xb6\x6f\x60\x7f\x27\x2b\xf0\x7d\x69\xec\x42\x34\x82\xf2\x3c\xb9\x45\x15\x83\x6a\xb3\x42\xe2\x1b\x5b\x9a\xf6\x05\x0d\xd3\x76\x6b\xa7\x0d\xd7\x0b\x6a\x90\xd2\x68\x0d\xa0\xf7\x3a\xc7\x5d\x03\x35\xe7\xdc\x51\x5c\x4b\xd0\x43\x0b\x4d\x7b\x0d\xa8\x51\xa8\x06\x36\x6c\x8a\xc3\x0e\x34\xe1\xb9\xfe\xb4\x4c\xb6\x11\xbc\x21\x2b\x70\xa1\x91\x05\xde\x9b\xa3\xa0\x33\x1a\x5e\xcd\xd3\x5c\xcd\xde\x55\x61\xb5\x2d\x67\xf0\xe9\x0d\xd4\x9a\xf9\x76\xdd\x3f\x72\x16\xfe\x50\x7d\xd5\x33\x2a\xf3\x9a\x9b\x20\x08\xd8\xe0\x22\xe1\x89\x53\x79\x0c\xa2\xb0\x09\xf3\x0b\x7e\xf5\x81\x87\xff\xee\x1e\x67\xbd\xbd\x60\xfa\x34\xdf\x64\x32\x73\xc4\x68\x06\x06\xf6\xfd\x5c\xaa\x0a\x8c\x04\x09\x98\xe0\x6c\xfc\x8c\xac\x90\xb8\x12\x49\xcb\xd6\x1d\x4b\x1c\xbc\xce\xae\xf0\xb5\x61\xec\x42\x7f\xfa\xf0\x8d\xfa\x02\x1e\x92\x04\xe6\x61\x1a\x2f\xbd\x1a\xe1\xad\xbc\xd9\x99\x21\x61\x67\xf0\xab\x07\xe5\x57\x2a\xca\x60\x76\xd3\xac\x82\x26\x60\xf3\xfd\x06\xe6\x53\xbb\x13\x6f\x65\x87\x20\x3d\x32\xe5\xfb\x2c\xcf\xf7\xbb\x19\x8d\x74\xa2\x2b\xed\x19\x1e\xa9\x76\xdd\x45\x78\x5c\xd7\xb3\x03\x8c\xf5\x4a\x90\x62\x10\x77\x2c\xb0\xf7\xc8\x2e\x43\x10\xe6\xe6\xe8\xe2\x40\xf4\xea\x5c\xc0\xa1\x75\x17\xbd\xde\x22\x7e\x73\x5a\xb8\xc3\xbc\x3c\x7f\x08\x17\xd0\xaf\xa8\x96\x1a\x76\xb5\x5c\xea\xca\xc8\x38\xae\x0b\x3b\xca\x24\xea\x37\x6b\x9d\xda\xb7\x99\x23\xd6\x42\x8c\xa5\x73\xce\xab\x51\x16\xcc\x96\x0b\x2b\xf6\xdf\x84\xec\x04\x02\xfc\x04\xe0\x07\x7e\x11\x1c\x73\xa4\xf9\x66\x1d\xc3\x90\x61\xd5\x12\x9a\xee\x61\x41\x76\x7c\xa9\x6d\xf0\x4e\x56\xc8\x7e\xdf\xed\x15\x29\x61\x16\xf4\x79\x57\x5b\xf7\x28\xf0\xe9\x50\xbf\x3e\x5b\x87\x75\x98\x9a\x4b\x3f\x69\xc4\x0b\xbd\xd4\xf1\x35\x23\x43\xea\x22\x10\x73\xfb\x1d\x00\xa4\xd1\x96\x8c\x43\x85\x5e\x18\xc0\x6a\xf5\x03\x32\x8a\x72\x19\x81\x2d\x19\x27\x04\x2e\x8d\x34\x93\xd3\x47\x40\x71\x98\xc4\xd5\x6d\x30\xa6\x6a\x1a\x7d\x77\x35\xce\xc1\x23\xfa\xff\xfa\xe8\xff\xa0\x3e\x6a\x54\x9a\xab\x43\xd4\xd3\xfe\x0e\x8f\x7d\x4d\xd9\xef\xde\xbe\x79\xc6\x88\xed\x60\x5b\x16\x61\xa1\x53\x1d\xdd\xbf\x65\x0d\x2e\x6a\x7c\x10\x5e\xc3\x72\x03\x03\x50\xb3\x19\x72\x09\x55\xd4\x80\x71\x11\xd4\x80\xb3\xa6\xec\xd5\xa4\x1c\x73\x27\xcb\xd9\x54\x86\x75\xd3\xf0\xed\x04\x5c\x89\xa1\x8a\x3f\xd4\x10\xce\x73\xe9\x14\x2c\x71\x9e\x2f\x3e\x0c\x53\x42\xb9\xe8\x7b\xfb\x54\x83\x68\x69\x0f\xb9\x7d\x29\x3e\xaa\xf3\x4c\xd0\xac\x3f\x27\xa9\x6d\xb6\x73\x8a\x40\x0c\x7a\xe4\x35\x1e\xdb\xfe\x40\x77\x7c\x72\x9c\xdc\xdd\xa9\xf3\xec\x87\xec\x06\x78\x6d\xf4\x80\x3c\x45\x02\x35\x1f\x22\x47\xcc\xc7\x1d\x9a\x5d\x3b\x85\x16\x8a\x3b\xc2\x76\xa2\x9a\x3d\xb2\xde\x1e\x8f\x24\xd9\x2e\xc4\x1e\xf9\x44\x2d\x32\x79\x4e\x4e\x77\xec\xba\x53\x42\x80\x36\x15\x38\x4b\x7b\x0b\x88\xd9\x84\x25\x1a\x83\x00\x7d\xc7\x87\x38\x6c\x0d\x0d\xc5\xdb\x72\xdd\xd7\xb6\x15\x6e\x71\x7e\xff\x54\x5b\x9b\x81\x37\x42\x87\xce\x6f\x6e\xf9\x36\xc7\x17\x6c\xde\xe6\x00\x8b\x57\xc5\x31\x0b\xc4\x58\x13\x77\x07\x6a\x29\x87\x3d\xf4\x8d\x18\xae\xf6\xef\xe4\x9e\xc6\x73\xa9\x1e\xd5\x4d\xf9\xca\xb5\x95\xc6\xac\x68\x34\xb2\x7e\x5b\x33\xfa\x67\x24\x9a\x3b\x86\x58\x73\x10\x79\x9d\xa1\x0c\xb9\x56\xd9\x81\xa6\x74\xfe\x99\x56\xb4\x0c\x2e\x0b\xfa\xee\x91\x85\x1a\x63\x6b\x02\x9d\x61\xa1\x6a\x3a\x99\x03\xae\x20\x25\xbe\xc5\xa9\x21\x47\x13\xba\x65\x75\x81\xda\x93\x64\x9f\x75\xa6\x51\x08\xb5\x84\x19\x73\x99\x3c\x70\x00\x28\x8b\xa3\x28\xdb\x84\x60\x83\x8d\x14\x0e\xd4\x9b\x22\xde\x84\x45\x9c\xdc\x1a\xff\x98\xeb\x4c\x63\xf9\x18\xeb\x87\xf7\x73\x57\x2e\xb0\x2f\xf0\xba\x65\xb7\xb7\xcd\x75\xeb\x39\x21\x4b\x5d\xea\xec\x63\xa9\xdb\x99\xfc\x38\x32\x4d\xac\x6e\xf6\x9a\xa6\x51\xcd\xd4\x3b\x4f\x5c\xc3\x14\x19\x9a\xa8\xdd\x53\x60\x62\x9d\x59\xbd\x15\xf6\x15\x03\x5b\x7d\xaf\x79\x1a\xed\x48\xdf\x44\xf5\xb9\x52\xc6\x66\xaa\xcc\xd9\xa9\xb2\xb7\x37\xaa\xe1\xc1\xea\x9b\xad\xef\x75\x82\x7e\xf9\x29\x77\xa0\x77\xe7\xec\xd7\x3d\x9b\x48\x99\x38\x50\xf0\xf2\xb9\xdf\x2e\x80\xfc\xa2\x06\xbd\x9a\xab\xeb\x1a\xe8\x6d\x2c\x86\xbd\x6e\xf8\x70\x28\x9c\xad\xd5\x95\xbe\xa5\xe9\x8e\x10\x0b\x2e\xb2\x0a\x51\xa0\x6d\x45\x02\xc1\xca\xbb\xf2\xc5\x2e\xc1\xa2\x60\x99\x24\x38\x5f\x42\x25\x14\x6b\x8c\xfc\xb5\xcf\xc2\x34\x03\x24\x1c\x26\xdf\xeb\x30\xd2\xc5\x5f\x81\xba\x18\x2d\xd8\x50\x99\x89\x17\xb9\x12\x1b\xd0\x90\x58\x2e\xb5\x71\x9e\x68\x30\x8e\x40\x16\xb8\x65\x7c\x8f\x43\x71\x6a\xfb\xfa\x13\xbc\xa6\x40\x06\x6b\x43\xec\xeb\xc5\xe3\x0f\xfe\xce\x82\x03\xdc\x41\xcf\x6a\x0a\x62\x0e\xc8\xf4\x41\x35\xda\x9e\x0e\x00\x92\xec\xaa\x3e\x18\x48\x02\xee\x70\x6a\x73\xf3\x14\xb6\x10\xdf\x93\x5a\x84\xcb\x2b\xce\x8d\x90\x35\xc3\x3e\x7e\xec\x6b\xaa\xc9\x68\x0b\xd4\x0b\x52\xaf\x12\x2d\x10\x71\x8d\x17\x31\x1a\x73\x66\x0a\xc4\x19\x0e\x4b\x2f\x8a\xc3\x84\x3d\xe6\x49\x08\x72\x0f\xf4\x32\xf4\xe3\x52\xa1\x9a\x26\x0b\x68\x83\x3b\x0f\x5f\xf3\xce\x19\xf0\x13\x10\xbe\x74\x04\x8d\x72\x21\x83\x46\xbd\x01\x68\xe1\x2e\x39\x11\x4c\x34\x78\x4b\xc3\xb9\x19\x08\xe4\x38\xae\xea\xac\x0b\xf1\xd1\xd9\xe8\x5a\xa4\x57\x71\x1a\x73\xf8\x0c\x23\x81\x4c\x04\x39\xc2\xd6\xca\xe9\xe4\xad\xbe\x04\xab\x0b\xe0\x62\x3f\x1f\xde\x43\xaa\x41\xab\xd6\xe7\x80\x5e\xca\x15\x11\xb2\xb4\x5d\xc8\x93\x86\xa9\x04\xa3\x30\xe6\x49\x26\x7e\x9a\x5b\xbb\x35\x8f\xba\x9e\x86\xc9\x5d\x07\xad\x3a\xc6\x54\x07\xb6\xca\xe4\xd0\x2a\xc0\xf9\xc0\x0f\xc4\x78\x10\xe9\x72\x69\xb8\x41\x3a\xed\x57\xc2\xe0\x05\x34\x94\xde\xdf\x7f\x90\xef\xb6\xe4\x80\x7a\xad\x21\xee\xc0\x3e\xe9\x40\xdc\x1d\xfa\x92\x2d\xf2\x49\xd6\x84\xc0\x76\x24\x3c\x32\x60\x89\x8c\x0d\x7a\x8b\x2a\x35\x0b\xd5\x1a\x45\x3b\x6d\x00\x75\x44\xb3\xd6\x33\xa8\x27\x18\xa0\xe9\x1f\xef\x79\xdd\xe4\xe4\xde\xe8\x73\x03\xc8\x49\xac\x78\xbf\xa4\x35\x21\x0d\xb2\x98\x15\x30\xe3\xac\x36\xaf\xb4\xce\x4b\xf8\x1c\xd2\x22\x2d\x44\x08\xd1\x01\x6c\x21\x39\x53\xaa\x11\x39\xce\x8e\x2c\x34\x21\xfa\x1c\x9e\x60\xd3\x8c\x5f\x65\x15\x52\x35\x5f\x19\xb9\x96\xa2\x5e\x7f\xed\xb9\xfa\xb9\xb9\xed\x41\x3b\x29\xc9\x01\x08\x55\x24\xe4\xa1\x67\x38\x9d\x4a\xd4\xd1\xaf\xc7\x7e\x23\xa0\xc2\x80\xbf\x71\x50\x31\x0e\x13\xf6\xc5\x7e\xb2\x81\x0f\x80\x0a\xd6\xa8\xe3\xe0\x6f\x18\x54\x30\x92\x43\x66\xf6\x44\x15\x58\xd4\x22\x40\xc4\x3a\x07\xe1\x8a\x1c\x03\x10\x5d\x60\xe1\x4e\xdb\xaf\xc7\x82\xc3\x90\xdd\x40\xc1\x51\xc8\xbe\x27\x18\xdf\x09\x04\x47\x21\x7b\x63\xd6\xc6\xfa\xd1\x8f\x04\xfb\x42\x6d\xe3\x90\xfd\x80\xe0\xda\x38\x64\x17\x2e\x08\xa1\x94\xe7\x99\x8b\x02\x6b\x75\xd2\xde\x46\x9d\x21\xe7\x2e\x8f\x50\xf1\x00\x70\x95\xea\xe2\x83\x71\xaa\xee\xa0\xb7\x57\x70\x12\xb0\xe4\xa3\x5d\x08\x94\xf6\xb9\x3c\x8c\x8b\xba\x71\x78\x28\x9e\xcb\xab\x1a\x97\x12\x7b\x84\x44\x11\x9a\x1a\xf7\x2a\x34\x1b\x30\x6a\xbb\xf2\x03\x71\x25\xfb\xdf\x28\xe3\x66\x9d\x30\x61\xeb\x43\xa2\xaf\x8c\x02\x09\x02\xb2\xab\x90\xe1\x2e\x17\x75\x21\xef\x23\xe0\xff\xb4\x86\xd0\x7f\x01\xed\xee\xc1\xb3\x79\xfd\xe8\x0d\xd6\x61\xaa\xe8\x88\xf2\x0d\x39\x07\x12\x8a\x1f\x92\x67\x72\x5f\x70\xf8\xfd\xf9\xf9\x9b\xcf\xf1\x32\x52\xca\x04\x8f\x72\x4a\xe2\x05\xfc\xcf\x30\x90\x09\x20\x16\xf7\x4b\xca\xbb\xfc\x46\x2d\xd7\x61\x51\xea\xea\x74\x5b\xad\x8e\xfe\x3c\xb3\xce\x49\x6c\x55\x5c\x2e\x35\xaa\x54\x6b\x79\x42\x6b\x76\xb7\xd3\x12\x89\x65\x29\x40\x2c\x4d\xe0\x0a\x60\x28\xe6\xb7\x94\x8e\xa7\xd2\x69\x66\xa7\xab\xb2\x99\x5e\xd5\x74\x55\xba\x89\x37\xea\xce\xe6\x8e\x05\x44\x9f\x6c\xa6\x86\x2f\xaf\xc7\x7d\x39\x4c\x9d\xe6\xbf\xef\xb5\xf8\x2f\xb9\x0d\x34\x0a\xca\x86\xfb\xb2\xbf\xd2\x19\xaa\x05\x56\x37\xd0\x65\xe7\xcb\x70\x95\x27\x2b\x50\x2b\x5e\xfb\x4d\xf5\xac\x9e\x5a\xcf\x99\x66\x9f\x08\x75\x7b\xb9\x97\xf3\x54\xbc\x6b\xe4\x28\x85\xc9\x7b\x03\xd3\x05\x73\x56\x80\x5e\xaa\x28\x63\x18\x43\xc3\xe5\x32\xcc\x31\x40\x00\xe8\xf9\x16\x84\xe0\x56\xad\xb3\x24\xc2\x9c\x34\x92\xa5\x70\x59\xa1\x79\xb7\xa1\xe8\xcb\xf6\x13\x22\xcc\xb7\xd9\x16\x3b\xe0\x07\xef\x4b\xcd\x9d\x8d\x90\x30\xc0\x33\x07\x74\x49\xc4\x09\x77\x9a\x81\x49\xb3\x45\x17\x98\x03\x94\x5e\x12\x5e\xe6\x6a\xc1\x53\x7e\x24\x81\x9b\x8d\xa9\x47\xf1\x02\x29\x8e\xd9\xda\x0b\xf5\x8b\x3a\xcf\xde\x63\x6e\xdb\xfd\xfd\xcc\x0f\x88\x0d\xb7\x0c\x3e\x38\xd7\x9b\x3c\xa1\x94\x6e\x28\x61\x84\x73\x20\xb7\x8f\x60\x73\xd3\xdd\x2b\x1c\xf5\xf8\x7c\x05\xf0\x62\xf7\x9c\x26\x29\x22\xd6\x04\xc6\x02\x9d\xb1\xe0\x77\x1c\xd8\x6c\xa0\xe2\x5e\xcf\xef\xc4\x6f\xc5\x3d\x9c\x8f\xa2\x82\x36\x26\x59\xc8\x91\x3a\x8e\xa0\xb2\x2f\x98\xa4\xd1\xc4\x42\x4d\x8b\x3f\xe1\x7b\x30\xb2\xc0\x80\x84\x45\x1c\x6e\x93\x0a\xf7\x4e\x16\x37\x24\x46\x20\x14\x96\x7f\x5b\xb3\x80\x89\xa8\x16\x59\x44\x06\x24\x7e\x67\x0b\x08\x2d\xf9\x19\xb5\x33\xb3\xc6\xff\x35\xe5\x16\x02\x29\x7a\x1e\x10\x77\x9e\xcf\x26\x26\x68\x17\xca\x63\x50\xc8\x2c\x92\xfa\xf7\xc7\x8f\xc1\x5e\x5d\x39\xfc\x3a\x0e\x6d\x5e\x85\xc0\x2d\x31\xc6\xc6\xdd\x75\x8c\xde\x89\x35\xaf\x4f\x8e\x8d\x2e\x34\x73\xcb\x21\x64\x2c\x57\x23\x3c\x97\x34\xe5\xe0\xd5\xd4\xb1\x17\xc1\x4b\xd0\x96\xeb\x90\xd2\xfb\x0c\xff\x1b\x7e\x84\x12\x59\x6e\x97\x4b\xad\xa3\x92\xcd\xe1\xbf\xbc\x7b\xfd\x4a\xb2\xed\x23\x93\x1a\x6f\xe3\xb0\xc4\xbb\x61\x07\xc3\xd9\xc3\xdd\xe2\x54\x0e\x3c\xec\x50\xcc\x8d\x95\x6e\x7b\x56\xbf\x6c\x50\x03\x64\x02\x98\x3e\x8c\xcc\x98\xb1\xca\x75\xf5\x4d\x1f\xac\xb1\x59\x41\x73\x75\xc3\x3a\xb5\x29\x06\x04\x67\x70\x56\xd1\x1a\x80\xe5\xe7\x0e\x09\x2b\xb3\x9f\x38\x73\xf4\x8e\x66\xf1\x04\x89\x99\x09\xbd\x67\xd7\xf3\xa6\x1e\x40\xde\xb6\xb1\x88\xd7\x1c\xdb\x7a\xd7\x8e\x59\x78\x9e\x52\x93\x52\xf5\x8c\x9d\xdd\x96\x90\xa9\x87\xc3\xed\x41\x55\xa7\xd8\xa9\xb3\x83\x93\x30\x9e\x5a\x72\x36\x30\x7a\x13\xb0\xd8\x80\x7e\x02\xa5\xea\xcd\x44\xad\x1e\xa1\x2e\x9d\xcd\xdd\x0d\x94\x3b\xb0\x36\x42\xe6\xf2\xdf\x54\x0f\x46\x0e\xeb\x7e\x18\xdf\x1a\x81\xad\x1a\xc8\x18\x5a\x52\xa3\xf4\x38\x1b\xcb\xe5\xe9\xb9\x4e\x00\xcf\xe0\x43\xc1\x41\x8e\x7f\x4e\xc8\x31\xbc\x71\xea\x3c\x89\x22\xaf\x85\x6b\xf0\x3f\x5a\x43\x27\x9c\xa7\x1c\xb0\xdc\xbc\x40\xc4\x9a\x86\x89\xb3\x37\x51\x27\xd1\xde\x1b\xec\x9e\x23\x8f\x75\x0f\x89\xf8\xa9\x42\x8f\x81\x7d\x2d\x06\xf8\x4d\x40\xd2\x23\xec\x61\x41\xdf\x3e\xf4\x70\x5a\x7c\x6b\x9a\x92\x0c\xb1\x9a\x2c\x3c\xf4\xca\x5c\x7c\xc0\xd4\x6b\x5f\x16\xc5\x1d\xbb\x42\x6e\x94\x2b\x6b\x36\xa2\x61\x04\xf2\x7d\x2a\x22\x80\x14\xe6\xea\xe1\x0d\x70\xd9\x8a\x78\x30\x38\x2a\xe3\x7f\x22\xcf\x7f\xfe\xfa\x3f\xff\x83\x65\x2d\xd1\x29\xd6\xf1\xd5\x7f\xf1\x3b\x16\x1c\x60\xe3\x54\xc1\xcf\x8b\x13\x7c\xf8\xa1\x99\xb2\x86\x71\x7b\x1a\xb7\x95\x37\xb3\xfe\x61\x92\x35\x0c\xd9\x9f\xa0\xb3\x12\x23\xf6\x39\xa2\x2c\x95\x66\xe9\x11\x29\x43\x63\x3f\x60\x41\x10\x32\x6c\xb3\xe1\x40\x94\x54\x70\xd8\x67\xbc\x1b\x26\x4f\x63\x44\xca\xd6\xed\xbb\x63\xf4\x53\x29\xc5\xb0\x57\xfd\x1d\x5b\x39\x11\x4d\xfb\x77\xd1\xfb\x38\x8b\x52\x0a\xf4\x74\xb9\x8a\x45\xef\x1b\x71\x25\x8d\xe6\x4c\x6e\x6d\xdd\xa0\xb7\x8c\xb4\x8e\x9c\x70\xda\x27\x83\x5f\xfc\x13\x4e\xa3\x96\x55\xd6\xae\x93\xb2\x56\x5d\xe4\xb7\x32\x4a\x1a\xfe\x39\x79\x1b\xd6\x12\xb0\xee\x8b\x75\x4d\xd4\x57\xae\xb4\xa9\x66\xa6\xe4\x3a\xa8\x5b\x18\xa8\x5d\xaf\x3b\x46\x90\xf4\xb5\x41\x42\x98\x92\x21\x64\xd7\x32\x25\xbe\x5b\x58\x8c\x43\x48\x16\x8c\xa8\x76\xf4\x90\x45\x75\x0a\xcf\xa6\xbc\x64\x83\x13\xb1\xaf\x82\x71\x80\x99\x2f\x6e\xa7\xe2\xfd\xbe\x59\x6b\xf2\x59\xc7\x64\x2e\x03\x94\x3e\x81\x25\x14\x26\x21\x82\xad\x92\x21\x16\x25\x85\x60\x4e\xcc\x76\x63\x1e\xc6\x85\x82\x6f\x0b\x9e\x32\x26\x75\x5b\xad\x71\xe2\x75\x52\x52\xae\x00\x2a\xc3\xb9\xf1\x71\xd2\xc6\x03\x2d\xac\xc3\x92\x59\x41\xb1\x93\x2d\xc1\xe9\x91\x87\xac\x92\x3f\x14\xf0\x53\x59\xc2\x44\xcf\x39\x77\xc8\xd8\x81\x1e\x75\xd3\x24\xe9\xc0\xc2\x5f\x64\x59\xd2\xce\x25\x65\xe4\x57\x02\x96\x42\x4a\x6f\xf5\x0a\x53\xa9\x50\x13\xf0\x88\xe0\xcb\x00\x1d\x4a\x45\x9c\x57\xb8\x2f\xf0\x31\x02\x98\x82\xe0\xe9\xed\x39\xd0\x47\xe0\xe4\x61\xb3\xac\x6e\xb9\xd6\x69\x27\x58\x39\x83\x65\xb3\x0a\x13\x49\x21\xc6\xc5\x62\x56\xe1\x83\x92\x3a\x9a\x66\x52\xf7\xc1\x47\x28\xda\x6e\x73\x9b\x24\xd4\x90\xcf\x5d\x64\x45\x05\xcd\x7d\xb1\x01\xc8\x57\x7a\x54\xd3\x57\x0f\x1f\x2a\xfe\x88\x0f\xdf\xc0\xf2\x86\xdd\x1c\xe5\xec\x97\x5f\x98\x76\xf0\xa2\xfc\x21\x2e\xab\xe6\x93\x97\x61\xee\xf9\xfe\x00\xaf\x92\xde\x4a\x4d\xb5\x48\x40\x63\x5f\x34\x68\xe0\x13\x7e\x20\xd3\x01\x8f\x9c\x81\xe0\xd4\x22\x3a\x99\xc2\xa3\xfa\x1d\x6c\x5f\xcc\x78\xf0\xc2\xac\x5c\xe8\xab\x27\x3a\xf4\x1b\xf5\x05\x17\x76\xf3\x70\xeb\xb4\x23\x6f\x88\x00\x0c\x11\xac\x5c\xc3\xbb\xec\x25\x59\xca\x5e\xa8\x0d\xe9\x28\x9f\x1f\xd0\x06\x4a\x04\xe6\x0d\x76\xe0\xb5\x68\x64\x34\xcf\xa0\x96\x3d\x78\x65\xf6\x6e\xc1\xb2\xc8\xd9\x93\x24\xc9\x6e\xde\x84\x45\x15\x87\x09\xb9\x56\xa9\x71\x78\x01\xd6\x03\x89\x14\xb9\x2d\x4f\x9a\x2f\xce\x60\x39\xbc\xa2\x15\x81\x6f\xcc\x8b\xb3\x4d\x5c\xbd\x4f\xf3\x2c\xdf\x22\x9e\x8f\x4e\xcc\x0b\xe0\x1f\x4d\x76\x1b\x37\xaf\x99\xb3\x60\x86\xba\xe3\x0e\xc2\x48\xdc\xbc\x2b\x8a\xa8\x9d\x57\x08\x88\xe6\x6a\xb6\xcc\xb6\x49\x94\x7e\x55\x09\x12\xb4\x42\x89\xab\x94\xce\x9e\xb9\x12\x88\xbb\x1b\x15\x28\x5d\x15\x48\x23\xf5\x36\xbc\x11\x31\x18\xd9\xf0\xb8\x5b\x0f\x99\x44\x77\xdb\xeb\x65\xd8\x0d\xf7\x73\x83\x3c\x6d\xe5\x05\xf2\xf5\xa1\x31\xfd\xac\x05\xb7\xa6\x3d\x56\x84\xa0\xb5\xca\x21\xcd\x47\x89\xcb\x18\x76\x21\x30\x8c\xca\x46\xf4\x4e\x93\xc6\x0e\xd5\x33\x57\x8e\xe6\x71\xc0\x00\xae\x22\x1a\x81\x1f\x01\x7f\x47\x22\xe8\xa4\xa5\x9a\x0b\xb0\xad\x21\x3e\xa2\xb2\xc5\x6d\x59\x26\x80\x6a\xd0\x38\x0c\x6a\xaf\x8e\xc0\xdb\x0e\x74\x64\xda\x4e\xc7\x88\x54\x1b\x11\x7d\x1e\x83\xba\x2f\xa2\xf7\x29\x9d\x7b\x74\x25\xb4\x9e\x63\xb7\x25\x67\xae\xa5\xb7\x8d\xc4\xc1\xbb\x07\x1f\x4f\xd4\x83\xf2\x5e\x84\x4a\x7a\x06\x53\xd8\x91\xe7\x21\xd9\x30\x02\xf1\x79\xda\x9a\x9a\x71\x14\x28\x12\xde\xb8\x6a\x81\x0a\x34\x34\xc3\x3d\xef\x59\x5c\xf2\x59\xa2\xc3\x42\xde\xb9\x72\x59\xcb\xde\x32\xcb\x6f\x99\x87\x5e\xb9\xa3\xb0\x5f\xc4\xbe\x61\x8a\x99\xd0\x16\x8a\x7e\x0b\xd8\xf8\xca\x62\x29\xd2\x57\x53\xf1\xa0\xf0\x1c\xdf\xf4\x89\x5f\xd9\x4a\x2d\x85\x0e\x90\xae\x85\x3a\x2d\x01\x21\x12\xdd\x2d\x8f\x21\x3b\x49\xb2\x45\xed\x4c\x98\xac\x02\x33\xc6\xe5\xde\x63\x4c\xe0\xbc\x3d\xc2\x93\xc8\x1d\xe2\xb2\x39\xbe\x6e\x7a\x36\x42\x90\x2e\x78\xe9\x07\x2c\xbd\xc0\x81\xce\xa7\xf1\x10\x5a\x5a\x3b\xd7\x2e\x0a\xda\x23\x01\x08\x82\x4f\x81\x6b\xb6\x38\x33\xb0\x53\x68\x6c\x5a\x38\xc4\x2a\x45\x5c\x06\x66\xd7\xc3\xed\x18\xd3\x66\x61\xb3\x25\x7d\x00\x8f\x67\x33\x1e\x02\x5d\x9f\x9f\x34\xab\x3c\x6f\x38\xaf\x14\x2f\x7a\x3a\x16\x39\x6b\x6d\xfa\xda\x5d\x07\xc8\x29\x12\x33\x2f\x6d\x4b\xc1\xac\xd1\x70\x00\xdf\x9d\x75\x23\x27\xd0\x03\x0c\xc9\xe0\x0a\xe3\xee\x41\x25\xf8\xf1\xe0\x4f\x67\xf0\xeb\xe8\xeb\x86\x48\x6f\x8b\x84\xdc\x4d\x67\xe4\x4f\x63\xa5\xe5\x4c\xd3\x8f\x08\x01\xdd\x59\xda\xa6\xe2\x79\x53\x79\xcb\x2b\x87\xde\x17\x1b\x5d\xa8\x27\x07\x29\x78\x30\xf2\x62\xc7\xd3\x6b\xc0\x70\xcd\x94\x68\x33\x41\x02\xde\xae\xb1\xd5\x4e\xde\x34\xfc\xba\x93\x14\x62\xd6\x2a\x64\x78\x3a\x79\x22\x5b\xf4\xbc\x63\x6b\x3c\x19\xb5\x33\x01\xb5\x97\xf4\xf3\xbd\xf0\xef\x51\xe5\x3d\x4e\x07\x59\x98\x7e\xd7\xb3\xab\x76\x26\xd7\xcc\xe9\xdc\x35\x6f\x9f\x86\x91\xf1\xab\x21\x4d\x31\x85\xa9\x97\xbc\xb9\xc1\x44\x23\xb3\xee\xbc\xe0\x4b\x77\xb3\x0b\xa3\x88\x97\x0c\x7c\x18\x5c\x2f\xe2\x47\x22\x68\x3f\x47\xcf\xb3\xc5\xf3\x32\x21\x86\x8a\x27\x36\x3b\x8e\x0a\x87\x5e\xe6\x6a\x17\xec\xb6\xdb\x9d\xb3\x64\x78\x6c\xc7\x16\xcd\xa8\x76\x47\x55\x7d\x25\x21\x17\x64\x82\x5c\x06\xce\x8e\xd1\xaf\x7b\x99\x21\x84\xab\x0d\xc9\xa4\x5e\xbb\x02\x49\x47\xa6\x54\x82\xe5\xf8\x0c\x03\xad\x0c\xf5\x44\xce\x84\xd6\xa4\xcc\x89\x05\x84\x48\xe8\xb9\xc2\x03\xae\x29\x55\xdf\x64\x05\x85\x7d\x2f\xe3\x6b\x78\x22\x06\x8d\x8c\x65\xcd\x86\x47\x6d\xd4\x81\x2a\xf3\x49\xb0\x01\x9a\xf3\x58\x82\x60\xf3\xd7\xa4\x3e\xf0\xeb\xc5\xe3\x0f\xac\x3a\x70\x3d\x1b\xee\x9e\xc9\xad\x1c\x4f\xd2\x5b\x53\x08\xc4\x6c\x7e\x31\x13\x24\x01\xe4\x1a\x98\xb1\xe1\xfa\xa2\x46\x78\x47\x3d\xed\x4a\xb3\xe1\xea\x4e\xd0\x15\xd2\xf1\x6b\xb7\x8c\x94\x42\x1a\x32\xce\x34\xa0\x9d\x61\xd6\xc6\x1f\x48\xeb\x9d\x7a\x2e\x6a\x5a\xc4\xce\x8e\x55\xa1\x73\x8d\x80\x97\x75\x89\x99\x16\xba\x04\x24\x4b\x31\x4d\x67\xb3\xc1\xb0\x0d\xbe\xc2\xd3\xbb\xbc\x9a\xb3\xc2\xbc\x27\xa8\x16\x16\x45\x68\x6c\x44\xcb\x8f\x91\xde\xd1\x11\xe7\x32\x3e\x4a\xdf\xd7\xae\xec\xf1\x73\x23\x7e\xfc\xad\x9e\x8a\x66\x1e\xaa\x05\xc3\xb6\xd3\x17\x07\xa0\x60\x41\x46\xb6\x09\x50\x0a\x0f\x0d\xa1\xe6\x34\x81\x48\xd8\x16\x9c\xd5\x42\x83\x4b\x6a\xf0\x4a\x7b\x17\x56\x4f\x62\xef\x2c\x1d\x5f\xdc\x7a\xf1\xdc\x90\x70\x4e\x56\x18\x9a\x26\x48\xd9\xcf\xa7\x14\x03\xee\x48\xe2\xe2\x0f\x5d\x54\xc6\xbc\xc0\x2b\xbe\x71\x00\xc5\x47\x6a\xb9\xce\xbd\x86\x0c\x75\xe0\x7c\x09\xf8\x30\x89\xab\x7a\x3c\x50\xb0\x67\x66\xb3\x19\xc8\xd3\xdd\x19\x8f\x71\xd2\x97\x76\x04\x64\x6c\x7a\xc7\x68\xe4\xa3\x9d\x2e\x40\x6a\xbc\x3f\xc3\x97\x48\xf2\xb5\x35\x58\x07\xe5\xf5\x48\xfc\xec\x6e\x26\x40\x1d\xd4\x29\x30\xd2\xdf\x4a\x1e\x20\xcb\x84\xdc\x5f\xc0\x95\x79\x4a\x94\xc9\x3b\xb2\x23\x81\x74\xe2\x24\x7b\x8c\x76\xab\x37\x7b\xa0\xb3\x29\x0f\x64\x0e\x4c\x22\xbd\xc2\x00\x6c\x80\x1e\xeb\x80\x2e\x8e\xf0\x7c\x89\x93\x63\x56\x41\x9d\x48\xd0\xea\xab\x93\x55\x20\xb1\x33\x8a\x87\xda\x62\x48\x8f\x51\x26\xbd\x26\x3f\xa9\xc8\xa8\x5c\x54\xf1\x56\x87\x11\x18\x2d\x1e\xb7\xbd\xdf\x61\xde\x8e\xe9\xcb\xbe\xcf\x02\xe3\x10\x26\x16\x84\x1d\x37\xa3\x3d\x13\x78\xda\x72\xbd\x3e\x66\xe2\xd8\x49\xaa\xb5\x77\x2f\x0f\xb4\xc9\x86\xad\xb2\x41\xbb\x8c\xd9\x35\x43\x31\x68\x9a\xb1\xdf\x99\x5c\xdb\x3d\x2b\xba\xcf\xf9\x3c\xec\x7e\xee\x75\x40\x0b\x1f\xfb\xe3\x25\xd7\xe1\x7c\xa8\x67\x9a\x47\x64\xd2\x8f\xab\xf8\x1d\x32\x50\xb3\x75\xcf\xc9\x84\xd6\xc4\x7a\x48\x89\x2c\x34\x1e\x56\xbf\x18\x9b\xa8\x57\x24\xe7\x74\x3a\x2c\xe5\x63\x5e\x92\x30\x61\x64\xa5\x8e\x6b\x4e\x31\xa7\xa3\x5a\xbf\xc1\x1d\xae\xb4\xf2\x5b\x43\xdf\x83\x4e\xa0\x63\xbe\x66\x4d\x0d\x69\xd3\xae\xc7\x5f\x49\xb3\x07\xef\xdf\xfe\x10\xfc\x0d\x1f\xd2\x1a\xc4\x0a\x4e\x91\xa9\x1b\xa1\xb6\x86\x9d\xed\x9d\xb3\xd8\xf8\xea\x9d\xd4\x14\x0b\x7e\xc8\x38\x6c\xaa\x66\x34\xe6\x5c\x06\x13\x0d\xf9\xf5\x77\x3a\xa5\x46\xad\x74\x61\xec\xba\x91\xd5\xe8\xa4\x35\x8e\xb1\xf0\x3a\xd5\xd9\xaa\xc3\x07\x68\x91\x0e\x1f\xd4\xad\x5f\xc3\x88\x1d\x64\x9e\x79\x83\x3a\x4d\x76\xc1\x51\xeb\x50\xff\x60\xb8\xbb\x77\x4f\x18\x3a\x4d\xc0\x3b\x40\x69\x62\xbf\x36\x18\x23\xe0\xb1\x1d\xeb\xe5\xc8\x77\x71\xc0\x49\x81\x1e\x06\xfb\xb4\x7b\x6f\xe4\x74\xe8\xf0\x80\xc5\xf6\x7f\x34\x07\xa9\xbb\x25\xf4\xf8\x47\xeb\x43\x0d\x0d\xcb\xc5\xdf\xc7\xf8\xf8\x79\x2e\xda\xd3\xc6\x00\x29\xfc\xe5\x94\x72\x0f\x3b\xd4\x57\xfb\x48\x04\xa7\x2f\xdf\x66\xe0\xc0\x55\x7b\x9f\x1d\x3a\xf5\x50\x23\xb7\xc2\x89\x01\x8d\x9e\x73\xa0\x7d\xac\x73\xc6\x01\x1d\x25\xeb\x30\xe2\xba\x43\xa7\x1a\x28\x97\x3e\xc2\xcc\xa8\x98\x21\xbc\x3d\x89\xea\xdc\xd2\x87\x71\x7e\xa2\x62\x30\x9c\x81\x35\xf6\x30\x05\x0a\x33\x66\xe6\x75\x8e\x5c\x34\x4e\x4d\x30\x91\xe6\xd1\x89\xd1\x43\x13\xbb\xce\x4c\x98\x11\x22\x2f\xd3\x15\xc1\xe0\xd1\x2a\x2d\xfe\xe9\xd4\x44\x97\x06\x2a\x2f\x1c\xee\x2d\xe8\x45\x7b\x1b\xd2\x72\x8d\x73\x12\xd0\x9b\x30\x29\x33\x9c\x02\x59\xc3\xbc\x49\x81\x15\x3d\x1d\x6f\xdd\x6c\x7c\x47\x78\x67\xe0\x5c\x94\x38\xba\x23\xfc\x5d\x15\xed\xac\xa0\x07\x07\x65\x0e\x95\xc8\xcc\xff\xec\x43\x1e\x48\xe2\xf3\x0f\x79\x38\xb5\xeb\x74\xbc\x9e\x33\x1e\x29\xc3\x59\xd6\x5e\x60\x0f\x5c\xd3\xad\x25\x95\x8c\xda\x26\xab\xc8\xfa\xc6\xe4\x90\x30\xc5\x2b\x97\x7e\xc2\x63\xe0\x39\x5f\xee\xc4\xcf\xf8\xc2\x27\xd8\x9c\x09\x20\xd7\x8d\x44\x80\x88\x32\xba\xe6\xa4\xbc\x2d\x2b\xbd\x99\xa3\x70\x01\xad\x24\xbe\xd2\x89\x3d\x27\x42\x1e\xc3\xd9\x3a\x2b\xab\x13\x1a\xbb\xfa\x20\x48\xdd\x03\xcf\x36\x65\x43\x89\x43\x59\x7e\x87\x1f\x01\xc1\x90\x40\xdb\xa6\xb7\x0d\xc2\x4c\x9e\x1c\x1f\x8b\xcb\xd0\x72\x01\xf6\x27\xb6\x8a\x6f\xd4\xbf\xd9\x71\x20\x55\xb5\x6d\xb9\xb1\x00\x2a\x59\x62\x7b\x1f\xa5\x44\xa4\xb0\x9d\xca\x95\x7b\x08\xb9\x7a\x2c\x2a\x39\x5e\xc0\x77\x01\xcc\x5e\x65\x3c\x8d\x4e\x22\x24\xdf\x7e\xc1\x12\x40\x89\x3e\x48\xe8\x26\x2b\x60\x45\x72\x72\xa5\x92\x7d\x9e\x3c\xb5\xb7\x78\x5f\x27\x69\x66\xe7\x5c\xcb\xcc\x9f\x36\xd0\xd3\x41\xb9\x77\x64\x3e\xb4\x8c\x3b\x61\x1a\xdf\xf2\xf9\x16\xc7\x10\x84\x4f\xfa\x53\xb7\xc6\x63\x53\x87\xe0\x7d\xd7\x6a\x1a\x3b\xd7\x82\x2d\x31\xdc\x1c\xa9\xd7\x73\x0d\x9f\x73\xc2\x45\x6e\x75\x18\x4c\x09\x14\x38\x4b\xe0\x15\x34\x85\xb7\x65\x24\x6a\x31\x6a\x08\x5b\x2c\x28\x0f\x4c\x0d\x34\x45\x6b\x6c\xb0\x23\xa9\xaf\x95\xff\xd7\xc8\x13\x6c\xe6\xf7\xb5\x8f\xb4\x4c\xda\xa7\x5a\x0c\xc6\x76\xaf\x39\xe8\x4d\xfd\x1b\x3f\xe8\x32\x3a\xef\xf6\xc0\xcb\x6f\x3e\xf3\x43\x49\x92\x04\x66\x86\xa7\x76\xde\xc6\x9a\x7d\xa9\x8e\xf5\x29\x1b\x1b\xe7\xc1\x79\x5c\xe0\x8d\x13\x8f\x70\x0d\xc3\xb7\x39\x7b\xd0\x8d\x0b\xcb\x3c\xa6\x13\x2d\x88\x0a\xa0\x0f\x8f\xb0\x02\x7f\xa5\xdd\x42\x8c\x83\xfa\xf6\x00\x7c\x23\x30\xe5\x59\xf5\xc9\x24\xd1\xbf\x43\x74\xbb\xa4\xfb\x25\xb6\x85\x64\xd7\x10\x50\x90\x85\x0b\xcb\x11\xa0\x56\xc2\xe7\xd2\x78\x97\x03\xbd\x4d\xe9\xec\x60\x75\x83\x0e\x35\xe0\x55\x36\x25\xce\x81\xe4\x4d\x6f\x63\x00\xac\x6b\x41\x23\x52\x90\x0c\x95\x40\xa9\x57\x59\x25\x77\xed\x21\x49\xa4\x45\x9a\x62\x1d\x5e\x83\x81\x27\x77\xe8\x8e\x03\x12\x6a\x67\x41\x79\xcd\x72\xdd\x14\xdd\x98\x83\x7a\xdf\xb0\x86\x37\x17\x4a\xee\x63\x68\xce\x0d\xb2\xda\xa7\x50\x9b\xcd\xb0\xb4\x37\x57\x38\x97\x61\xe1\x71\x41\xd9\x6e\xe5\x10\x42\x73\xec\xf8\xe0\x81\x13\x73\x1b\xde\x0d\xdc\x24\x9d\x9e\x42\x92\x9b\x3d\x72\x59\xda\x1e\xd8\xf0\x37\x3b\x7a\x60\xf1\x0e\x86\xe9\xda\x99\x79\xcd\x13\x02\xe4\x96\x23\xf4\x8b\x1b\xc0\xc0\x41\xaa\x9d\x0a\xbb\xed\x72\xeb\x55\x36\xa3\x1e\xb7\xb6\x75\x25\xee\x36\xc6\x62\x6d\x97\x9b\xf1\xcf\x48\x33\xee\x11\x24\xf7\xe0\x76\xdb\xe5\xe6\x64\xcb\x31\xc8\x93\x0c\x58\xfb\x66\x4d\xb7\x9e\xa0\x6f\xe2\x4f\x8f\x1f\xbb\xa9\xc0\x60\x65\x49\xbe\x2b\x59\x53\x39\x0c\x21\xb3\x89\x15\x52\xa2\xc5\x96\x15\x2d\xa0\xaa\xc2\xb0\x1f\x1d\x5e\xa5\x5e\xb8\xeb\x4f\x72\x0e\x01\x44\x93\x01\x53\xf3\x68\x98\xd8\xe9\x12\x34\x07\x89\x7a\x5c\x82\xbd\xc3\x3e\xee\x11\xe4\x32\x87\xbb\x04\x0f\x71\xe1\x9d\xd2\xc5\xb3\x67\xaf\xbf\x1d\xf4\xe2\x61\x8e\x43\x9d\xce\x48\x1a\x87\x3c\x47\x1c\x3e\x75\xdc\x76\x7b\x7a\x04\x7b\x1c\x82\x96\xe8\xcc\x77\x4e\xde\x14\x4e\xfa\x28\x12\x76\x9c\x4e\xaf\xff\xba\xdb\xe9\xd8\x48\x1e\x05\x43\x63\xe6\xc8\xcc\x89\xfa\xea\x41\xf4\x15\x19\x01\x75\x1b\xb6\x6d\x76\xa9\x96\xf9\x2e\x69\x9e\x1e\xec\x65\x1c\x74\x32\x0e\xf9\x18\x9d\xa1\xdd\xe1\x61\x44\x86\x7b\x3c\x8c\x9d\x11\x72\x07\xa5\x75\x2e\xe9\x61\x7d\xd5\xc0\xa4\x75\xd7\x80\xa3\x80\xda\x47\x02\xf7\x88\x0e\xec\x8e\x0d\x30\x20\x68\xf8\x7f\x0e\x8b\x0e\x74\x0e\x13\x4e\xad\xad\x2b\xce\x20\xa8\xb3\x77\x40\x80\xee\x85\xe5\x03\x09\x05\xac\xa0\x52\x61\x43\x64\x96\xc0\xbe\x3c\x91\xdd\xaf\xb1\xf9\x7a\x88\x09\xe6\x26\xfc\x86\xaa\x86\x5c\xbe\x46\x15\xec\xd1\xad\x3d\xa2\x03\x03\x87\x0d\xad\xe3\x68\xec\x78\xe1\x98\xbf\xdc\xf8\x30\xa1\x1e\x89\x83\xbb\x45\x0d\x1a\xbf\xed\x72\xc3\xd6\x35\xfb\x1d\xde\x69\x36\x3d\x5b\x29\x0b\xb2\xde\x6c\xe2\xa8\x78\x72\x29\x15\x46\x6c\x37\x3a\x61\x67\x23\xa7\xcd\x9b\xc5\x4a\xbe\x64\xa0\xe1\xdd\xc4\x56\xdf\xf1\x73\xeb\xde\x34\x05\xef\xdb\x37\xb7\x21\x4c\x9c\x1d\xcf\xc6\x1d\xc4\xb5\x6f\xb8\xcf\x0a\xcc\xd9\x87\x30\x5e\x7f\x30\x17\xd0\xae\x6a\x1e\x19\x4a\x5f\x30\x14\x09\x12\xd0\x48\xbe\x0d\x6f\x04\x7c\x6e\xcd\x67\xfb\xce\xbe\xa0\xa7\xcd\xd1\x6e\x07\xe4\x6d\x98\xbf\xcf\x8f\xed\x8c\xeb\x90\xdb\x5a\xd5\x17\x16\xec\xe7\x31\xa6\x72\xb8\x1e\xbe\x74\x73\x5c\x95\x57\x57\xfd\x2e\xa3\x23\x89\xf2\x87\x1b\x66\xbe\x35\x0a\x29\x44\x39\xb3\x4e\xe7\xbf\x59\x0f\xbb\x5c\xfa\x56\x07\x42\x29\x20\x0d\x02\x18\xd8\xc2\xcf\xa0\x48\x52\xdf\x50\x2b\x53\x8e\xd9\x65\x68\xc2\xb8\xac\x48\x73\xdd\x23\x15\x43\xf4\x4c\x2c\xc6\x49\x97\x18\x61\x72\xae\x9a\x59\x79\x77\x6e\xfb\xe8\x8a\xbd\xbf\x7f\x10\x81\xae\x05\xd6\xe0\xd3\xb5\x68\xdd\x19\x02\x43\xc7\xba\xb3\xec\x0b\xb7\x75\x1c\xb9\x95\x4d\x32\xe7\x93\xc2\x23\x0c\xf5\x85\xa1\x9a\x72\xde\x68\x53\x4e\x00\xb6\xbe\xb5\xad\x4d\x91\x9a\x0c\xe3\x0a\x43\x91\x86\xae\xe8\x50\xf1\x31\xd1\x31\x64\x73\xbb\xc6\xb9\x8a\x39\xc8\x78\xc0\x68\x30\x8d\xdf\x7d\x38\xdc\x05\x4b\x6d\x81\x8c\x8a\xa0\xf0\x1e\x40\x47\x1d\x77\x05\x61\x9d\x05\x4c\x58\xab\xa3\x2e\x0f\x0b\x86\xba\xf1\x37\x3e\xb2\x05\xc3\xf2\xeb\xc2\x6f\x36\xee\xb3\x2b\x44\x31\x1c\xa3\x18\x0e\x52\x0c\x47\x29\x06\xc3\x14\x34\x47\x7d\x99\xdc\x4e\xa0\x82\xa3\xb0\x9f\xad\xa8\x25\x69\x9b\x86\x5e\x12\xb6\xd5\x83\xeb\x99\x89\xee\x5a\x75\xfd\x94\x4f\x97\xb5\xff\xca\x83\xc7\x7f\x38\x02\xe0\xf4\xd3\xed\x0a\x70\x3b\xe7\xfe\x38\x27\x35\x95\x1b\x2d\x33\x89\x2f\xdd\xab\xaf\x77\x5e\x5e\x69\xff\x12\xc6\xbe\xee\xe8\x57\x4f\xce\xdf\x7d\xe6\xe5\x95\x54\x0d\xeb\x2b\x36\xe2\xed\x77\xb9\xe1\x87\xfe\xc8\x09\xdf\xed\x53\x16\xd7\xfc\xdd\xde\x6c\x2e\xb0\xa5\x7b\xa9\xfa\x64\xbf\x5b\xd5\xdb\x57\xdb\xbc\xdb\x2e\xec\xec\x63\xf3\xb8\xd8\xb7\x1a\x9e\x62\x3e\xed\x82\x6f\x0c\xed\xdc\xb3\x1e\x34\xaf\x11\xed\x2d\x33\x23\xee\x83\xce\x75\x7a\x2f\xcb\x4b\xea\xa7\xbf\x2f\x7a\x20\x90\xd5\xe6\xd9\xb9\x18\xc6\x99\xfc\xe6\xa5\xfe\x78\x40\xde\x99\xa6\x7d\x2f\x09\xa5\x99\xd9\x7d\x49\x68\x4d\x79\xe7\xc9\xfb\xc6\x1f\x57\x09\xec\xd8\xda\xd3\xf7\xce\x0c\x0f\x5c\x0e\x3a\x4e\x41\x62\x6d\x9f\x73\x47\xe8\x64\x88\x72\xe3\x9c\x3d\xff\xc6\x1e\xf3\xb9\xaf\xdf\xfd\x72\xd1\x7a\x40\xf6\xbb\x5c\xb4\x71\xb3\x68\xb3\x4b\x78\xd6\xdc\xf6\xea\xa0\xdb\x45\xb1\xbf\x03\x57\x2f\x59\xa3\xab\x53\xc6\xf1\x43\xd7\x25\xfa\x4e\xa1\x1f\x70\xfd\xa8\x23\x1e\xbf\xea\xfa\x51\x87\x8e\x3d\x4c\x78\xd0\x9f\xd4\x80\xed\xe6\xd1\x90\xc0\x74\x6e\x16\x3d\xf0\x02\x4b\xc7\xfb\xc3\x83\xda\xba\x45\xa6\xff\x56\x94\xf2\x52\xf4\x25\xa8\x95\x61\xa7\x4f\x37\xdf\xab\xef\xe2\x98\x3f\xc0\x99\x14\x3c\x39\xf3\x9c\xcf\x20\xe1\x65\xa3\xdf\x1c\x70\xd3\xe8\xc3\xbd\x2e\xa8\x9c\x36\x24\x77\x47\xba\x08\x0d\xec\x1e\xe9\x22\x94\x1e\x92\x2d\xfe\x81\x61\x50\xf1\x01\x94\x56\x2e\xcc\x85\x92\x2f\xf1\x86\x0b\xf2\x7b\x66\x24\x80\xf2\x27\xf9\x28\xa4\xbe\xc5\xb6\xd1\xf9\x48\x09\xe3\xe8\x33\x2f\x63\xd4\xc7\x72\x63\x42\x23\x8b\xa4\x87\xef\xa1\xeb\x62\xf1\xa6\x27\x13\x22\x85\xfa\xee\xc6\xfa\x2f\x96\x4d\xb2\xeb\xb8\xdd\xaf\x49\x27\x31\x32\xb5\x0c\xde\x6c\x17\x49\x5c\xae\x3d\xb9\xe5\x8a\xb0\x96\xa3\x82\xf8\x18\xb2\x44\x2c\x9c\xfb\xbf\x8c\x7f\x85\x33\x2b\x56\xb0\x99\xe2\x6d\x0c\xe7\x7c\xb5\xc3\x95\xb6\x55\xe4\x1e\x7d\x22\x27\x87\x4b\xe7\xf6\x5e\x4a\x78\x62\xe7\x44\xb2\x2c\xea\x6c\xf6\xb8\x0a\x6a\x0d\xd6\x3e\x0d\xcd\xdf\xbb\x27\xb7\x67\x7f\x9f\x4e\x5e\x32\x03\x78\xce\x16\x66\x40\xde\xfd\x77\xf3\x58\x77\x6b\x73\xeb\x5f\x04\xee\x95\x1f\x0d\x07\x59\x7d\xe3\x44\x28\xb7\x6f\xed\xb3\x1a\xda\x02\xcd\x77\x3c\x8c\xdf\x28\x31\x22\xcf\x7c\xb8\x8a\x64\xa4\x79\xc9\x43\x23\xcb\xde\x0e\x5e\xcf\xed\x12\x73\xc5\x43\xc5\x42\xd7\xbc\x6b\xe2\xac\x4f\x7c\x48\x74\xc6\x64\xe6\x00\x1c\xfd\xf9\x69\x1d\x4e\xed\x1d\x77\x77\x62\xe7\xff\xb7\xef\xee\xac\xb9\xeb\x22\xfb\x41\x78\x28\x03\x5a\xa3\xc3\x7d\xb2\x36\xfa\xaf\xc8\xdc\xd7\x22\x38\xf0\x7e\x4c\x93\x46\x30\x78\x47\x66\x07\x80\xd9\x3e\x49\x12\x81\xbd\x28\x93\xd3\x09\x76\xd8\x17\x53\x27\x4f\xa0\xa1\xfd\xdd\xe4\x80\x01\xc8\xd6\x48\x0b\x68\x67\x05\xb4\x93\x02\x1a\x29\x98\x7f\x98\xbb\x2e\xc9\x1e\xf9\xdc\x1b\x21\x07\x06\xa4\x57\xc9\xed\x77\x23\xa4\x41\x5b\xbf\xdb\xdd\x8f\x03\x2c\xef\x01\x00\xd5\x38\x02\xc4\x9d\x69\x5b\x38\x9b\xc8\xc8\x11\x18\x07\x88\x49\xb5\xce\xc1\x17\x79\x1e\xc8\x1e\xd3\x03\xcf\x4c\x24\xd0\x94\x94\x8b\x48\xcc\xd9\x9c\x56\xb8\xac\xf7\xea\xc9\x3f\x1a\x26\xed\x8b\x97\x8d\x83\xd2\xfe\x8b\xb8\x5d\xa1\x16\x68\xda\x8f\x4c\x7b\xa3\x57\x0d\x60\xda\xba\x0a\xd3\xfc\x45\x65\x5d\x36\x52\x1d\x47\x76\x67\xec\x9c\xd1\xf5\x20\x45\x6d\xa8\x7a\x44\xbc\xfe\x36\x78\x75\x5f\x53\x66\x57\xd0\xea\x5f\x0f\x9f\x4a\x70\xed\x70\x78\x6a\xc4\x0f\xaf\xc9\x85\x5f\xad\x63\x95\x46\xa6\xfe\x07\x01\x33\xb3\x07\xce\x7c\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 31952, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x1, 0x41, 0x56, 0xa5, 0x9, 0x80, 0x53, 0x2b, 0x8f, 0xb8, 0xc6, 0xf7, 0xbf, 0xa, 0x38, 0xd5, 0x64, 0x9e, 0x8d, 0x0, 0xcd, 0xdc, 0xaf, 0xb2, 0x79, 0xd9, 0x3, 0x7d, 0x9b, 0x7f, 0xa9, 0xf8}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 31950, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x1b, 0x25, 0x7c, 0xb4, 0xe0, 0x8c, 0x87, 0x14, 0x6b, 0x39, 0x7c, 0x65, 0xa9, 0xc4, 0x1f, 0x31, 0x77, 0xfe, 0xc8, 0x1e, 0xf9, 0xb3, 0x2d, 0x81, 0x52, 0xf5, 0xab, 0xb3, 0xcf, 0xbe, 0x79, 0xdf}}
 	return a, nil
 }
 
-- 
2.43.0


From 03d1b48cd13f5cd133f509d2ccad53270abe02d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:10 +0000
Subject: [PATCH 41/42] fix: refuse a request whose query cannot be parsed

---
 gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl | 5 ++++-
 gengokit/template/template.go                              | 6 +++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index 17a9769..33f7c89 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -616,7 +616,10 @@ func queryList(values []string) []string {
 		}
 		_ = pathParams
 
-		queryParams := r.URL.Query()
+		queryParams, err := url.ParseQuery(r.URL.RawQuery)
+		if err != nil {
+			return nil, httpError{errors.Wrap(err, "cannot parse the query of the http request"), http.StatusBadRequest, nil}
+		}
 		_ = queryParams
 
 		{{range $field := $binding.Fields}}
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index 2d45eb9..09f2a3b 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x02\xff\xed\x5d\xeb\x73\xdc\x36\x92\xff\x3c\xf3\x57\x20\x53\xb1\x43\xfa\x46\x94\xb3\x55\x77\xb5\xa7\x94\xae\xce\x0f\x25\xf1\x6e\xfc\x58\x5b\x4e\x3e\xa8\x5c\x59\xce\x10\xa3\xe1\x8a\x43\xd2\x24\x47\xb2\x56\xd1\xff\x7e\xfd\x02\x08\x3e\x67\xc6\x49\xae\xb2\x75\xe7\x4a\xa4\x19\x12\x68\x34\x80\x46\xe3\xd7\x0f\x40\xc7\xc7\xea\x59\x16\x69\x75\xa9\x53\x5d\x84\x95\x8e\xd4\xe2\x56\x2d\xc2\x22\x4b\x03\xf5\xfc\xb5\x7a\xf5\xfa\x5c\x9d\x3d\x7f\x71\x1e\x4c\x8f\x8f\xd5\x5b\x5d\x6c\xd3\x34\x4e\x2f\xb9\x80\xba\x89\x93\x44\x65\xd7\xba\xb8\x29\xe2\x4a\xab\x6a\x1d\x97\x6a\x15\x27\x9a\x0a\xff\xa8\x8b\x32\xce\xd2\x13\x75\x77\x17\xc8\xe7\xfb\x7b\xe7\x85\x7a\x0e\xad\xb9\x6f\xf1\x3b\x94\x98\xe6\xe1\xf2\x2a\xbc\xd4\xf8\xe6\x0d\x7f\x7c\x15\x6e\xe8\x0d\x54\x3e\x37\x6d\xa8\x65\x96\x56\x61\x9c\x96\x6a\xa3\xab\x75\x16\x95\xaa\xca\xd4\x26\xbc\xd2\x2a\x4e\xa3\xf8\x3a\x8e\xb6\x61\xa2\x74\x1a\xe5\x59\x9c\x56\x50\xa5\xc8\x36\xaa\xd4\xc5\x75\xbc\xd4\xe5\x1c\x29\x15\xfa\xe3\x56\x97\x95\x0a\xd3\x08\x3e\x97\x79\x96\x96\xd0\x85\xdb\x5c\x13\x25\x2c\x8a\x3d\xca\xe0\xa1\xa5\x32\x57\x61\xa9\x6e\x34\x74\x1a\x7e\xeb\x74\x09\xe3\x56\x94\x48\x00\xe9\x45\x5a\xbe\xaf\xb2\x42\x2a\x12\xb5\x39\x3d\x08\x71\xa4\x56\x2a\xdb\x16\xaa\xdc\xe6\x79\x56\xe0\x48\x57\x45\x98\x96\xf8\x19\x9b\x8b\xc3\x24\xfe\x67\x58\xc1\x40\x20\x35\xa8\xb3\x09\xab\x32\x98\x4e\xe3\x0d\x95\xf0\xa6\x93\xd9\xe2\xb6\xd2\xe5\x0c\x3e\x60\xdf\xf5\xa7\x0a\x3f\x12\x1b\x30\x25\xc7\xff\x28\xb3\x14\x1f\xac\x36\xf4\x3c\xce\xf8\xe7\x71\x9c\x6d\xab\x38\xc1\x2f\xa9\xae\x8e\xd7\x55\x95\x9b\xcf\xdb\x82\x1e\x97\x55\x01\xf4\xae\xe5\x23\x90\x82\x26\xe0\xf3\x65\x5c\xad\xb7\x8b\x60\x99\x6d\x8e\x2f\xb3\xa3\xab\xb8\x3a\xc6\xff\xcd\x58\x40\xe9\x30\xbd\xcd\x17\x6a\x76\x99\x65\x97\x30\xe5\x97\x59\x12\xa6\x97\x41\x56\x5c\x1e\xe7\x45\x56\x65\x8b\xed\xea\x98\xfa\x7f\x7c\x95\x66\x37\xe9\x31\x95\x86\x5a\xd1\xb6\xa0\x4e\x1e\x50\xb5\xae\x02\xf5\xf5\x26\xaf\x0e\x69\x57\xca\x43\xcd\x55\xac\x93\x68\x13\x96\x57\x07\xd4\x76\xea\x00\x05\x18\x9e\xed\xb2\x3a\xa0\xba\xa9\x00\x75\xab\x78\x03\xd2\x16\x6e\xf2\x03\xaa\x3b\x75\x80\xc2\x4d\x11\xe6\x39\x08\xd8\x01\x04\xea\x2a\xdd\x29\x2d\x60\xf1\x86\xc7\x9b\xed\xa7\x59\xf3\x4d\x7e\x75\x79\xac\x8b\x22\x2b\x48\xd2\x46\x1a\xb2\x92\x47\x4f\x8c\xf8\x8d\x54\xa0\x0f\xc8\xc8\xdd\xdd\x91\x8a\x57\x4a\x7f\x54\xc1\xb3\x2c\x5d\xc5\x97\xc1\xb9\x5d\x09\x33\x58\x29\x33\x35\x4b\x41\xf8\x67\x0a\x16\x7d\x83\x37\x7c\x7a\x04\x32\x8d\xbf\xa1\x89\x19\x93\x02\x99\xc4\x82\x7b\x50\xbd\x2c\xf2\xa5\xa1\xda\xe1\x93\x5e\x0e\xbe\x39\x06\x35\x13\x46\x61\x15\xb6\x1b\xdd\xbb\x49\xfc\x54\xaf\xf8\x81\xf5\x65\x0b\x18\x76\x9c\xb6\x70\xed\x1e\x40\x40\x96\xfa\x41\x83\x8d\x9f\x0e\x68\x82\x2a\xba\x3c\xfa\xd3\xe9\xf4\x3a\x2c\x50\x5b\xfd\xac\x4e\x15\xe8\xa2\xe0\x5d\x0e\x3a\xa5\xe2\xef\xa4\xc0\x80\x8d\x4d\x1e\x16\x9a\x1f\x89\xf6\x09\x9e\x54\x59\xcc\x4f\x1a\xdd\x0c\x5e\xe9\x9b\x77\xa8\x8b\x0b\x7e\xc9\xda\x2c\x78\x95\xe5\xcf\x12\x50\xb1\xf6\x29\x10\xcd\x6f\xf9\x0b\x0b\x6f\xf0\x13\xc8\xfe\x74\x02\xaa\x54\xe6\xd3\x88\x21\x6b\x65\x2c\x4a\x2a\x29\x78\x92\x52\xbd\x5a\xc9\x04\xcf\xe5\x23\x3e\x16\xf5\x11\x9c\xe1\x6f\x7c\x60\x96\x74\xf0\x8e\x3e\xe0\x23\x67\x99\x06\xe7\xe6\x33\xbe\xa8\x97\x1f\x96\x86\xa5\xf2\x63\x98\x6c\xa9\xdf\x8e\x5e\x09\xbe\xc5\xcf\x2f\xe1\x33\x8e\xde\xf1\xa3\xbd\xfe\xa9\x33\xbb\xb3\x3d\xda\xfb\xdf\x31\xed\xa0\x2f\x52\x15\xf2\xf6\x56\xcc\x55\x5c\x7d\x55\xaa\x6d\xa9\x57\xdb\x84\xb6\xa9\xd5\x36\x5d\x62\xd7\x61\x0f\x5c\x87\x95\x4a\x35\xee\x52\x99\xca\x72\xc2\x06\x2a\xc3\xba\xf0\xf9\xc8\x6c\x03\x48\x70\x11\x96\x71\x19\xa8\x6f\xa1\xba\xfe\x04\x3d\x4f\xf4\x5c\xdd\x66\x5b\xb5\x89\x2f\xd7\x95\xca\xc3\x12\xb7\x48\x87\x61\xa0\x17\xda\x86\xb8\x1d\x98\x9b\x68\x0b\x1b\x33\x92\x83\xb2\x28\x01\xc1\xf7\xb0\xaf\x26\xc8\xe3\x0d\x08\xa1\xd2\xe1\x72\x2d\x3b\xbd\xf2\x4c\xeb\x3e\xbc\x2b\x80\xc3\x6d\xce\x44\xcb\x5c\x2f\xe3\x55\xbc\x84\x46\xab\x75\xa0\xbc\x17\xc4\x1f\x00\x06\xa0\xbf\x08\x17\xc9\x2d\x94\xd9\xc4\x30\x3d\x84\x12\x60\xc7\x2e\xe3\xcb\x14\xab\xc6\xe9\x75\x76\x85\xdb\xbd\x56\xef\x18\x23\x58\x54\x41\x2c\x6a\xa4\x53\xf7\x80\x65\x00\x49\x98\x91\x0c\x7c\x28\x61\x47\x77\x99\xc4\x3a\xad\x9a\xa3\x0b\xad\x2c\xb3\x24\xd1\x54\xcf\x00\x14\xe0\x08\x84\x9f\xc9\x41\x3f\x6a\xb8\x02\x3f\xa0\x43\x48\xb0\x04\xb1\x49\x18\x4a\xf0\x58\xc5\x38\xc2\x1b\x4d\x23\xe9\xf0\x0b\x35\x74\xb1\x0a\x97\x7a\x68\x26\x90\x98\x6d\xac\x1f\x24\x6d\xb1\x31\xd5\xd4\x20\xb8\x00\x9f\x49\x7f\x40\x0f\x2c\xe2\x94\xc6\x69\x23\x2c\x3a\x13\x3b\x17\x28\x55\x6d\x8b\x14\xba\x8e\x3d\x46\x06\x97\xd0\x4d\x5d\x20\x62\x0a\x0d\xb3\xc1\x94\xba\xd3\x19\xd0\xbb\xe9\xe4\x7d\x6a\xfb\xa7\x23\x40\x80\xa6\x06\x43\x40\xd1\x04\x77\x77\xc0\x22\x20\xc4\x2f\x63\x75\x72\xaa\x6c\x99\x97\x3c\x65\xac\x96\xbf\x8c\xa5\x8e\x69\x45\xc1\x3f\xd3\xd5\xc0\x3c\x04\x52\xac\xb8\x18\x5d\x5a\x8e\x76\x37\x81\x02\x0c\x92\x58\x57\xf1\x95\xd3\xa8\xb7\xac\x3e\x29\x41\x69\xa8\x76\xf1\xf7\x1c\x05\xe6\xd1\xdd\xdd\x77\x19\x96\x01\xca\xc1\x5b\x86\xa0\xe7\x30\x18\x52\xcf\x57\x5e\xab\x04\x03\x53\xa7\xc8\x9c\x15\x9c\x8f\xa3\x65\x70\x2b\x3d\x43\x46\x75\xd0\xd3\x73\x64\x06\x1b\xf7\xa7\x13\xdc\x08\xa0\xe4\x17\xa7\x2a\x8d\x13\xa4\x30\x91\xf9\x82\xaf\x44\x64\x3a\xb9\x9f\x9a\x67\x86\x7a\xb0\x93\x27\x7f\x8e\x04\x60\x10\xcd\x70\xe2\x60\xbe\xc4\x65\xe6\x8e\x28\x2d\xe4\x2f\x41\x8d\xe0\x88\xde\x63\xe1\x23\xe5\x8e\x32\xbc\x1a\x1a\x68\xa4\xd5\xd7\xb3\x12\x07\xdd\xa9\xe6\x8a\x89\xdf\x9d\x6e\x1e\x33\xea\x1c\x92\xed\x9f\x25\x63\x18\xd8\x15\x75\x87\xd3\x62\x4d\x04\xe7\x31\x0f\x7b\x3d\x1d\x40\xfb\x23\x76\x44\x28\x74\xc6\xad\x33\xdb\x50\xe5\xda\xce\x5d\x19\xb4\x04\x88\x58\xc1\x32\xdd\x59\xeb\x4e\x1b\xce\x9b\x79\x7a\xcd\xd3\x31\xb9\x9f\xf2\x20\xf3\x9c\xb8\x73\x83\x9b\xe3\x93\x24\x39\xfb\xb4\xd4\x79\x45\xfb\x54\xc9\x2a\xd6\x8e\x14\xed\x50\x68\xb2\xc8\xda\xac\x17\x2b\x4d\x23\xe9\xa6\x1e\xbb\x20\x78\x19\x47\xa0\xb6\x6f\x60\x7f\x27\x2b\xf0\x7d\x69\xec\x42\x34\x82\xf2\x3c\xb9\x45\x15\x83\x6a\xb3\x42\xe2\x1b\x5b\x9a\xf6\x05\x0d\xd3\x76\x6b\xa7\x0d\xd7\x0b\x6a\x90\xd2\x68\x0d\xa0\xf7\x3a\xc7\x5d\x03\x35\xe7\xdc\x51\x5c\x4b\xd0\x43\x0b\x4d\x7b\x0d\xa8\x51\xa8\x06\x36\x6c\x8a\xc3\x0e\x34\xe1\xb9\xfe\xb4\x4c\xb6\x11\xbc\x21\x2b\x70\xa1\x91\x05\xde\x9b\xa3\xa0\x33\x1a\x5e\xcd\xd3\x5c\xcd\xde\x55\x61\xb5\x2d\x67\xf0\xe9\x0d\xd4\x9a\xf9\x76\xdd\x3f\x72\x16\xfe\x50\x7d\xd5\x33\x2a\xf3\x9a\x9b\x20\x08\xd8\xe0\x22\xe1\x89\x53\x79\x0c\xa2\xb0\x09\xf3\x0b\x7e\xf5\x81\x87\xff\xee\x1e\x67\xbd\xbd\x60\xfa\x34\xdf\x64\x32\x73\xc4\x68\x06\x06\xf6\xfd\x5c\xaa\x0a\x8c\x04\x09\x98\xe0\x6c\xfc\x8c\xac\x90\xb8\x12\x49\xcb\xd6\x1d\x4b\x1c\xbc\xce\xae\xf0\xb5\x61\xec\x42\x7f\xfa\xf0\x8d\xfa\x02\x1e\x92\x04\xe6\x61\x1a\x2f\xbd\x1a\xe1\xad\xbc\xd9\x99\x21\x61\x67\xf0\xab\x07\xe5\x57\x2a\xca\x60\x76\xd3\xac\x82\x26\x60\xf3\xfd\x06\xe6\x53\xbb\x13\x6f\x65\x87\x20\x3d\x32\xe5\xfb\x2c\xcf\xf7\xbb\x19\x8d\x74\xa2\x2b\xed\x19\x1e\xa9\x76\xdd\x45\x78\x5c\xd7\xb3\x03\x8c\xf5\x4a\x90\x62\x10\x77\x2c\xb0\xf7\xc8\x2e\x43\x10\xe6\xe6\xe8\xe2\x40\xf4\xea\x5c\xc0\xa1\x75\x17\xbd\xde\x22\x7e\x73\x5a\xb8\xc3\xbc\x3c\x7f\x08\x17\xd0\xaf\xa8\x96\x1a\x76\xb5\x5c\xea\xca\xc8\x38\xae\x0b\x3b\xca\x24\xea\x37\x6b\x9d\xda\xb7\x99\x23\xd6\x42\x8c\xa5\x73\xce\xab\x51\x16\xcc\x96\x0b\x2b\xf6\xdf\x84\xec\x04\x02\xfc\x04\xe0\x07\x7e\x11\x1c\x73\xa4\xf9\x66\x1d\xc3\x90\x61\xd5\x12\x9a\xee\x61\x41\x76\x7c\xa9\x6d\xf0\x4e\x56\xc8\x7e\xdf\xed\x15\x29\x61\x16\xf4\x79\x57\x5b\xf7\x28\xf0\xe9\x50\xbf\x3e\x5b\x87\x75\x98\x9a\x4b\x3f\x69\xc4\x0b\xbd\xd4\xf1\x35\x23\x43\xea\x22\x10\x73\xfb\x1d\x00\xa4\xd1\x96\x8c\x43\x85\x5e\x18\xc0\x6a\xf5\x03\x32\x8a\x72\x19\x81\x2d\x19\x27\x04\x2e\x8d\x34\x93\xd3\x47\x40\x71\x98\xc4\xd5\x6d\x30\xa6\x6a\x1a\x7d\x77\x35\xce\xc1\x23\xfa\xff\xfa\xe8\xff\xa0\x3e\x6a\x54\x9a\xab\x43\xd4\xd3\xfe\x0e\x8f\x7d\x4d\xd9\xef\xde\xbe\x79\xc6\x88\xed\x60\x5b\x16\x61\xa1\x53\x1d\xdd\xbf\x65\x0d\x2e\x6a\x7c\x10\x5e\xc3\x72\x03\x03\x50\xb3\x19\x72\x09\x55\xd4\x80\x71\x11\xd4\x80\xb3\xa6\xec\xd5\xa4\x1c\x73\x27\xcb\xd9\x54\x86\x75\xd3\xf0\xed\x04\x5c\x89\xa1\x8a\x3f\xd4\x10\xce\x73\xe9\x14\x2c\x71\x9e\x2f\x3e\x0c\x53\x42\xb9\xe8\x7b\xfb\x54\x83\x68\x69\x0f\xb9\x7d\x29\x3e\xaa\xf3\x4c\xd0\xac\x3f\x27\xa9\x6d\xb6\x73\x8a\x40\x0c\x7a\xe4\x35\x1e\xdb\xfe\x40\x77\x7c\x72\x9c\xdc\xdd\xa9\xf3\xec\x87\xec\x06\x78\x6d\xf4\x80\x3c\x45\x02\x35\x1f\x22\x47\xcc\xc7\x1d\x9a\x5d\x3b\x85\x16\x8a\x3b\xc2\x76\xa2\x9a\x3d\xb2\xde\x1e\x8f\x24\xd9\x2e\xc4\x1e\xf9\x44\x2d\x32\x79\x4e\x4e\x77\xec\xba\x53\x42\x80\x36\x15\x38\x4b\x7b\x0b\x88\xd9\x84\x25\x1a\x83\x00\x7d\xc7\x87\x38\x6c\x0d\x0d\xc5\xdb\x72\xdd\xd7\xb6\x15\x6e\x71\x7e\xff\x54\x5b\x9b\x81\x37\x42\x87\xce\x6f\x6e\xf9\x36\xc7\x17\x6c\xde\xe6\x00\x8b\x57\xc5\x31\x0b\xc4\x58\x13\x77\x07\x6a\x29\x87\x3d\xf4\x8d\x18\xae\xf6\xef\xe4\x9e\xc6\x73\xa9\x1e\xd5\x4d\xf9\xca\xb5\x95\xc6\xac\x68\x34\xb2\x7e\x5b\x33\xfa\x67\x24\x9a\x3b\x86\x58\x73\x10\x79\x9d\xa1\x0c\xb9\x56\xd9\x81\xa6\x74\xfe\x99\x56\xb4\x0c\x2e\x0b\xfa\xee\x91\x85\x1a\x63\x6b\x02\x9d\x61\xa1\x6a\x3a\x99\x03\xae\x20\x25\xbe\xc5\xa9\x21\x47\x13\xba\x65\x75\x81\xda\x93\x64\x9f\x75\xa6\x51\x08\xb5\x84\x19\x73\x99\x3c\x70\x00\x28\x8b\xa3\x28\xdb\x84\x60\x83\x8d\x14\x0e\xd4\x9b\x22\xde\x84\x45\x9c\xdc\x1a\xff\x98\xeb\x4c\x63\xf9\x18\xeb\x87\xf7\x73\x57\x2e\xb0\x2f\xf0\xba\x65\xb7\xb7\xcd\x75\xeb\x39\x21\x4b\x5d\xea\xec\x63\xa9\xdb\x99\xfc\x38\x32\x4d\xac\x6e\xf6\x9a\xa6\x51\xcd\xd4\x3b\x4f\x5c\xc3\x14\x19\x9a\xa8\xdd\x53\x60\x62\x9d\x59\xbd\x15\xf6\x15\x03\x5b\x7d\xaf\x79\x1a\xed\x48\xdf\x44\xf5\xb9\x52\xc6\x66\xaa\xcc\xd9\xa9\xb2\xb7\x37\xaa\xe1\xc1\xea\x9b\xad\xef\x75\x82\x7e\xf9\x29\x77\xa0\x77\xe7\xec\xd7\x3d\x9b\x48\x99\x38\x50\xf0\xf2\xb9\xdf\x2e\x80\xfc\xa2\x06\xbd\x9a\xab\xeb\x1a\xe8\x6d\x2c\x86\xbd\x6e\xf8\x70\x28\x9c\xad\xd5\x95\xbe\xa5\xe9\x8e\x10\x0b\x2e\xb2\x0a\x51\xa0\x6d\x45\x02\xc1\xca\xbb\xf2\xc5\x2e\xc1\xa2\x60\x99\x24\x38\x5f\x42\x25\x14\x6b\x8c\xfc\xb5\xcf\xc2\x34\x03\x24\x1c\x26\xdf\xeb\x30\xd2\xc5\x5f\x81\xba\x18\x2d\xd8\x50\x99\x89\x17\xb9\x12\x1b\xd0\x90\x58\x2e\xb5\x71\x9e\x68\x30\x8e\x40\x16\xb8\x65\x7c\x8f\x43\x71\x6a\xfb\xfa\x13\xbc\xa6\x40\x06\x6b\x43\xec\xeb\xc5\xe3\x0f\xfe\xce\x82\x03\xdc\x41\xcf\x6a\x0a\x62\x0e\xc8\xf4\x41\x35\xda\x9e\x0e\x00\x92\xec\xaa\x3e\x18\x48\x02\xee\x70\x6a\x73\xf3\x14\xb6\x10\xdf\x93\x5a\x84\xcb\x2b\xce\x8d\x90\x35\xc3\x3e\x7e\xec\x6b\xaa\xc9\x68\x0b\xd4\x0b\x52\xaf\x12\x2d\x10\x71\x8d\x17\x31\x1a\x73\x66\x0a\xc4\x19\x0e\x4b\x2f\x8a\xc3\x84\x3d\xe6\x49\x08\x72\x0f\xf4\x32\xf4\xe3\x52\xa1\x9a\x26\x0b\x68\x83\x3b\x0f\x5f\xf3\xce\x19\xf0\x13\x10\xbe\x74\x04\x8d\x72\x21\x83\x46\xbd\x01\x68\xe1\x2e\x39\x11\x4c\x34\x78\x4b\xc3\xb9\x19\x08\xe4\x38\xae\xea\xac\x0b\xf1\xd1\xd9\xe8\x5a\xa4\x57\x71\x1a\x73\xf8\x0c\x23\x81\x4c\x04\x39\xc2\xd6\xca\xe9\xe4\xad\xbe\x04\xab\x0b\xe0\x62\x3f\x1f\xde\x43\xaa\x41\xab\xd6\xe7\x80\x5e\xca\x15\x11\xb2\xb4\x5d\xc8\x93\x86\xa9\x04\xa3\x30\xe6\x49\x26\x7e\x9a\x5b\xbb\x35\x8f\xba\x9e\x86\xc9\x5d\x07\xad\x3a\xc6\x54\x07\xb6\xca\xe4\xd0\x2a\xc0\xf9\xc0\x0f\xc4\x78\x10\xe9\x72\x69\xb8\x41\x3a\xed\x57\xc2\xe0\x05\x34\x94\xde\xdf\x7f\x90\xef\xb6\xe4\x80\x7a\xad\x21\xee\xc0\x3e\xe9\x40\xdc\x1d\xfa\x92\x2d\xf2\x49\xd6\x84\xc0\x76\x24\x3c\x32\x60\x89\x8c\x0d\x7a\x8b\x2a\x35\x0b\xd5\x1a\x45\x3b\x6d\x00\x75\x44\xb3\xd6\x33\xa8\x27\x18\xa0\xe9\x1f\xef\x79\xdd\xe4\xe4\xde\xe8\x73\x03\xc8\x49\xac\x78\xbf\xa4\x35\x21\x0d\xb2\x98\x15\x30\xe3\xac\x36\xaf\xb4\xce\x4b\xf8\x1c\xd2\x22\x2d\x44\x08\xd1\x01\x6c\x21\x39\x53\xaa\x11\x39\xce\x8e\x2c\x34\x21\xfa\x1c\x9e\x60\xd3\x8c\x5f\x65\x15\x52\x35\x5f\x19\xb9\x96\xa2\x5e\x7f\xed\xb9\xfa\xb9\xb9\xed\x41\x3b\x29\xc9\x01\x08\x55\x24\xe4\xa1\x67\x38\x9d\x4a\xd4\xd1\xaf\xc7\x7e\x23\xa0\xc2\x80\xbf\x71\x50\x31\x0e\x13\xf6\xc5\x7e\xb2\x81\x0f\x80\x0a\xd6\xa8\xe3\xe0\x6f\x18\x54\x30\x92\x43\x66\xf6\x44\x15\x58\xd4\x22\x40\xc4\x3a\x07\xe1\x8a\x1c\x03\x10\x5d\x60\xe1\x4e\xdb\xaf\xc7\x82\xc3\x90\xdd\x40\xc1\x51\xc8\xbe\x27\x18\xdf\x09\x04\x47\x21\x7b\x63\xd6\xc6\xfa\xd1\x8f\x04\xfb\x42\x6d\xe3\x90\xfd\x80\xe0\xda\x38\x64\x17\x2e\x08\xa1\x94\xe7\x99\x8b\x02\x6b\x75\xd2\xde\x46\x9d\x21\xe7\x2e\x8f\x50\xf1\x00\x70\x95\xea\xe2\x83\x71\xaa\xee\xa0\xb7\x57\x70\x12\xb0\xe4\xa3\x5d\x08\x94\xf6\xb9\x3c\x8c\x8b\xba\x71\x78\x28\x9e\xcb\xab\x1a\x97\x12\x7b\x84\x44\x11\x9a\x1a\xf7\x2a\x34\x1b\x30\x6a\xbb\xf2\x03\x71\x25\xfb\xdf\x28\xe3\x66\x9d\x30\x61\xeb\x43\xa2\xaf\x8c\x02\x09\x02\xb2\xab\x90\xe1\x2e\x17\x75\x21\xef\x23\xe0\xff\xb4\x86\xd0\x7f\x01\xed\xee\xc1\xb3\x79\xfd\xe8\x0d\xd6\x61\xaa\xe8\x88\xf2\x0d\x39\x07\x12\x8a\x1f\x92\x67\x72\x5f\x70\xf8\xfd\xf9\xf9\x9b\xcf\xf1\x32\x52\xca\x04\x8f\x72\x4a\xe2\x05\xfc\xcf\x30\x90\x09\x20\x16\xf7\x4b\xca\xbb\xfc\x46\x2d\xd7\x61\x51\xea\xea\x74\x5b\xad\x8e\xfe\x3c\xb3\xce\x49\x6c\x55\x5c\x2e\x35\xaa\x54\x6b\x79\x42\x6b\x76\xb7\xd3\x12\x89\x65\x29\x40\x2c\x4d\xe0\x0a\x60\x28\xe6\xb7\x94\x8e\xa7\xd2\x69\x66\xa7\xab\xb2\x99\x5e\xd5\x74\x55\xba\x89\x37\xea\xce\xe6\x8e\x05\x44\x9f\x6c\xa6\x86\x2f\xaf\xc7\x7d\x39\x4c\x9d\xe6\xbf\xef\xb5\xf8\x2f\xb9\x0d\x34\x0a\xca\x86\xfb\xb2\xbf\xd2\x19\xaa\x05\x56\x37\xd0\x65\xe7\xcb\x70\x95\x27\x2b\x50\x2b\x5e\xfb\x4d\xf5\xac\x9e\x5a\xcf\x99\x66\x9f\x08\x75\x7b\xb9\x97\xf3\x54\xbc\x6b\xe4\x28\x85\xc9\x7b\x03\xd3\x05\x73\x56\x80\x5e\xaa\x28\x63\x18\x43\xc3\xe5\x32\xcc\x31\x40\x00\xe8\xf9\x16\x84\xe0\x56\xad\xb3\x24\xc2\x9c\x34\x92\xa5\x70\x59\xa1\x79\xb7\xa1\xe8\xcb\xf6\x13\x22\xcc\xb7\xd9\x16\x3b\xe0\x07\xef\x4b\xcd\x9d\x8d\x90\x30\xc0\x33\x07\x74\x49\xc4\x09\x77\x9a\x81\x49\xb3\x45\x17\x98\x03\x94\x5e\x12\x5e\xe6\x6a\xc1\x53\x7e\x24\x81\x9b\x8d\xa9\x47\xf1\x02\x29\x8e\xd9\xda\x0b\xf5\x8b\x3a\xcf\xde\x63\x6e\xdb\xfd\xfd\xcc\x0f\x88\x0d\xb7\x0c\x3e\x38\xd7\x9b\x3c\xa1\x94\x6e\x28\x61\x84\x73\x20\xb7\x8f\x60\x73\xd3\xdd\x2b\x1c\xf5\xf8\x7c\x05\xf0\x62\xf7\x9c\x26\x29\x22\xd6\x04\xc6\x02\x9d\xb1\xe0\x77\x1c\xd8\x6c\xa0\xe2\x5e\xcf\xef\xc4\x6f\xc5\x3d\x9c\x8f\xa2\x82\x36\x26\x59\xc8\x91\x3a\x8e\xa0\xb2\x2f\x98\xa4\xd1\xc4\x42\x4d\x8b\x3f\xe1\x7b\x30\xb2\xc0\x80\x84\x45\x1c\x6e\x93\x0a\xf7\x4e\x16\x37\x24\x46\x20\x14\x96\x7f\x5b\xb3\x80\x89\xa8\x16\x59\x44\x06\x24\x7e\x67\x0b\x08\x2d\xf9\x19\xb5\x33\xb3\xc6\xff\x35\xe5\x16\x02\x29\x7a\x1e\x10\x77\x9e\xcf\x26\x26\x68\x17\xca\x63\x50\xc8\x2c\x92\xfa\xf7\xc7\x8f\xc1\x5e\x5d\x39\xfc\x3a\x0e\x6d\x5e\x85\xc0\x2d\x31\xc6\xc6\xdd\x75\x8c\xde\x89\x35\xaf\x4f\x8e\x8d\x2e\x34\x73\xcb\x21\x64\x2c\x57\x23\x3c\x97\x34\xe5\xe0\xd5\xd4\xb1\x17\xc1\x4b\xd0\x96\xeb\x90\xd2\xfb\x0c\xff\x1b\x7e\x84\x12\x59\x6e\x97\x4b\xad\xa3\x92\xcd\xe1\xbf\xbc\x7b\xfd\x4a\xb2\xed\x23\x93\x1a\x6f\xe3\xb0\xc4\xbb\x61\x07\xc3\xd9\xc3\xdd\xe2\x54\x0e\x3c\xec\x50\xcc\x8d\x95\x6e\x7b\x56\xbf\x6c\x50\x03\x64\x02\x98\x3e\x8c\xcc\x98\xb1\xca\x75\xf5\x4d\x1f\xac\xb1\x59\x41\x73\x75\xc3\x3a\xb5\x29\x06\x04\x67\x70\x56\xd1\x1a\x80\xe5\xe7\x0e\x09\x2b\xb3\x9f\x38\x73\xf4\x8e\x66\xf1\x04\x89\x99\x09\xbd\x67\xd7\xf3\xa6\x1e\x40\xde\xb6\xb1\x88\xd7\x1c\xdb\x7a\xd7\x8e\x59\x78\x9e\x52\x93\x52\xf5\x8c\x9d\xdd\x96\x90\xa9\x87\xc3\xed\x41\x55\xa7\xd8\xa9\xb3\x83\x93\x30\x9e\x5a\x72\x36\x30\x7a\x13\xb0\xd8\x80\x7e\x02\xa5\xea\xcd\x44\xad\x1e\xa1\x2e\x9d\xcd\xdd\x0d\x94\x3b\xb0\x36\x42\xe6\xf2\xdf\x54\x0f\x46\x0e\xeb\x7e\x18\xdf\x1a\x81\xad\x1a\xc8\x18\x5a\x52\xa3\xf4\x38\x1b\xcb\xe5\xe9\xb9\x4e\x00\xcf\xe0\x43\xc1\x41\x8e\x7f\x4e\xc8\x31\xbc\x71\xea\x3c\x89\x22\xaf\x85\x6b\xf0\x3f\x5a\x43\x27\x9c\xa7\x1c\xb0\xdc\xbc\x40\xc4\x9a\x86\x89\xb3\x37\x51\x27\xd1\xde\x1b\xec\x9e\x23\x8f\x75\x0f\x89\xf8\xa9\x42\x8f\x81\x7d\x2d\x06\xf8\x4d\x40\xd2\x23\xec\x61\x41\xdf\x3e\xf4\x70\x5a\x7c\x6b\x9a\x92\x0c\xb1\x9a\x2c\x3c\xf4\xca\x5c\x7c\xc0\xd4\x6b\x5f\x16\xc5\x1d\xbb\x42\x6e\x94\x2b\x6b\x36\xa2\x61\x04\xf2\x7d\x2a\x22\x80\x14\xe6\xea\xe1\x0d\x70\xd9\x8a\x78\x30\x38\x2a\xe3\x7f\x22\xcf\x7f\xfe\xfa\x3f\xff\x83\x65\x2d\xd1\x29\xd6\xf1\xd5\x7f\xf1\x3b\x16\x1c\x60\xe3\x54\xc1\xcf\x8b\x13\x7c\xf8\xa1\x99\xb2\x86\x71\x7b\x1a\xb7\x95\x37\xb3\xfe\x61\x92\x35\x0c\xd9\x9f\xa0\xb3\x12\x23\xf6\x39\xa2\x2c\x95\x66\xe9\x11\x29\x43\x63\x3f\x60\x41\x10\x32\x6c\xb3\xe1\x40\x94\x54\x70\xd8\x67\xbc\x1b\x26\x4f\x63\x44\xca\xd6\xed\xbb\x63\xf4\x53\x29\xc5\xb0\x57\xfd\x1d\x5b\x39\x11\x4d\xfb\x77\xd1\xfb\x38\x8b\x52\x0a\xf4\x74\xb9\x8a\x45\xef\x1b\x71\x25\x8d\xe6\x4c\x6e\x6d\xdd\xa0\xb7\x8c\xb4\x8e\x9c\x70\xda\x27\x83\x5f\xfc\x13\x4e\xa3\x96\x55\xd6\xae\x93\xb2\x56\x5d\xe4\xb7\x32\x4a\x1a\xfe\x39\x79\x1b\xd6\x12\xb0\xee\x8b\x75\x4d\xd4\x57\xae\xb4\xa9\x66\xa6\xe4\x3a\xa8\x5b\x18\xa8\x5d\xaf\x3b\x46\x90\xf4\xb5\x41\x42\x98\x92\x21\x64\xd7\x32\x25\xbe\x5b\x58\x8c\x43\x48\x16\x8c\xa8\x76\xf4\x90\x45\x75\x0a\xcf\xa6\xbc\x64\x83\x13\xb1\xaf\x82\x71\x80\x99\x2f\x6e\xa7\xe2\xfd\xbe\x59\x6b\xf2\x59\xc7\x64\x2e\x03\x94\x3e\x81\x25\x14\x26\x21\x82\xad\x92\x21\x16\x25\x85\x60\x4e\xcc\x76\x63\x1e\xc6\x85\x82\x6f\x0b\x9e\x32\x26\x75\x5b\xad\x71\xe2\x75\x52\x52\xae\x00\x2a\xc3\xb9\xf1\x71\xd2\xc6\x03\x2d\xac\xc3\x92\x59\x41\xb1\x93\x2d\xc1\xe9\x91\x87\xac\x92\x3f\x14\xf0\x53\x59\xc2\x44\xcf\x39\x77\xc8\xd8\x81\x1e\x75\xd3\x24\xe9\xc0\xc2\x5f\x64\x59\xd2\xce\x25\x65\xe4\x57\x02\x96\x42\x4a\x6f\xf5\x0a\x53\xa9\x50\x13\xf0\x88\xe0\xcb\x00\x1d\x4a\x45\x9c\x57\xb8\x2f\xf0\x31\x02\x98\x82\xe0\xe9\xed\x39\xd0\x47\xe0\xe4\x61\xb3\xac\x6e\xb9\xd6\x69\x27\x58\x39\x83\x65\xb3\x0a\x13\x49\x21\xc6\xc5\x62\x56\xe1\x83\x92\x3a\x9a\x66\x52\xf7\xc1\x47\x28\xda\x6e\x73\x9b\x24\xd4\x90\xcf\x5d\x64\x45\x05\xcd\x7d\xb1\x01\xc8\x57\x7a\x54\xd3\x57\x0f\x1f\x2a\xfe\x88\x0f\xdf\xc0\xf2\x86\xdd\x1c\xe5\xec\x97\x5f\x98\x76\xf0\xa2\xfc\x21\x2e\xab\xe6\x93\x97\x61\xee\xf9\xfe\x00\xaf\x92\xde\x4a\x4d\xb5\x48\x40\x63\x5f\x34\x68\xe0\x13\x7e\x20\xd3\x01\x8f\x9c\x81\xe0\xd4\x22\x3a\x99\xc2\xa3\xfa\x1d\x6c\x5f\xcc\x78\xf0\xc2\xac\x5c\xe8\xab\x27\x3a\xf4\x1b\xf5\x05\x17\x76\xf3\x70\xeb\xb4\x23\x6f\x88\x00\x0c\x11\xac\x5c\xc3\xbb\xec\x25\x59\xca\x5e\xa8\x0d\xe9\x28\x9f\x1f\xd0\x06\x4a\x04\xe6\x0d\x76\xe0\xb5\x68\x64\x34\xcf\xa0\x96\x3d\x78\x65\xf6\x6e\xc1\xb2\xc8\xd9\x93\x24\xc9\x6e\xde\x84\x45\x15\x87\x09\xb9\x56\xa9\x71\x78\x01\xd6\x03\x89\x14\xb9\x2d\x4f\x9a\x2f\xce\x60\x39\xbc\xa2\x15\x81\x6f\xcc\x8b\xb3\x4d\x5c\xbd\x4f\xf3\x2c\xdf\x22\x9e\x8f\x4e\xcc\x0b\xe0\x1f\x4d\x76\x1b\x37\xaf\x99\xb3\x60\x86\xba\xe3\x0e\xc2\x48\xdc\xbc\x2b\x8a\xa8\x9d\x57\x08\x88\xe6\x6a\xb6\xcc\xb6\x49\x94\x7e\x55\x09\x12\xb4\x42\x89\xab\x94\xce\x9e\xb9\x12\x88\xbb\x1b\x15\x28\x5d\x15\x48\x23\xf5\x36\xbc\x11\x31\x18\xd9\xf0\xb8\x5b\x0f\x99\x44\x77\xdb\xeb\x65\xd8\x0d\xf7\x73\x83\x3c\x6d\xe5\x05\xf2\xf5\xa1\x31\xfd\xac\x05\xb7\xa6\x3d\x56\x84\xa0\xb5\xca\x21\xcd\x47\x89\xcb\x18\x76\x21\x30\x8c\xca\x46\xf4\x4e\x93\xc6\x0e\xd5\x33\x57\x8e\xe6\x71\xc0\x00\xae\x22\x1a\x81\x1f\x01\x7f\x47\x22\xe8\xa4\xa5\x9a\x0b\xb0\xad\x21\x3e\xa2\xb2\xc5\x6d\x59\x26\x80\x6a\xd0\x38\x0c\x6a\xaf\x8e\xc0\xdb\x0e\x74\x64\xda\x4e\xc7\x88\x54\x1b\x11\x7d\x1e\x83\xba\x2f\xa2\xf7\x29\x9d\x7b\x74\x25\xb4\x9e\x63\xb7\x25\x67\xae\xa5\xb7\x8d\xc4\xc1\xbb\x07\x1f\x4f\xd4\x83\xf2\x5e\x84\x4a\x7a\x06\x53\xd8\x91\xe7\x21\xd9\x30\x02\xf1\x79\xda\x9a\x9a\x71\x14\x28\x12\xde\xb8\x6a\x81\x0a\x34\x34\xc3\x3d\xef\x59\x5c\xf2\x59\xa2\xc3\x42\xde\xb9\x72\x59\xcb\xde\x32\xcb\x6f\x99\x87\x5e\xb9\xa3\xb0\x5f\xc4\xbe\x61\x8a\x99\xd0\x16\x8a\x7e\x0b\xd8\xf8\xca\x62\x29\xd2\x57\x53\xf1\xa0\xf0\x1c\xdf\xf4\x89\x5f\xd9\x4a\x2d\x85\x0e\x90\xae\x85\x3a\x2d\x01\x21\x12\xdd\x2d\x8f\x21\x3b\x49\xb2\x45\xed\x4c\x98\xac\x02\x33\xc6\xe5\xde\x63\x4c\xe0\xbc\x3d\xc2\x93\xc8\x1d\xe2\xb2\x39\xbe\x6e\x7a\x36\x42\x90\x2e\x78\xe9\x07\x2c\xbd\xc0\x81\xce\xa7\xf1\x10\x5a\x5a\x3b\xd7\x2e\x0a\xda\x23\x01\x08\x82\x4f\x81\x6b\xb6\x38\x33\xb0\x53\x68\x6c\x5a\x38\xc4\x2a\x45\x5c\x06\x66\xd7\xc3\xed\x18\xd3\x66\x61\xb3\x25\x7d\x00\x8f\x67\x33\x1e\x02\x5d\x9f\x9f\x34\xab\x3c\x6f\x38\xaf\x14\x2f\x7a\x3a\x16\x39\x6b\x6d\xfa\xda\x5d\x07\xc8\x29\x12\x33\x2f\x6d\x4b\xc1\xac\xd1\x70\x00\xdf\x9d\x75\x23\x27\xd0\x03\x0c\xc9\xe0\x0a\xe3\xee\x41\x25\xf8\xf1\xe0\x4f\x67\xf0\xeb\xe8\xeb\x86\x48\x6f\x8b\x84\xdc\x4d\x67\xe4\x4f\x63\xa5\xe5\x4c\xd3\x8f\x08\x01\xdd\x59\xda\xa6\xe2\x79\x53\x79\xcb\x2b\x87\xde\x17\x1b\x5d\xa8\x27\x07\x29\x78\x30\xf2\x62\xc7\xd3\x6b\xc0\x70\xcd\x94\x68\x33\x41\x02\xde\xae\xb1\xd5\x4e\xde\x34\xfc\xba\x93\x14\x62\xd6\x2a\x64\x78\x3a\x79\x22\x5b\xf4\xbc\x63\x6b\x3c\x19\xb5\x33\x01\xb5\x97\xf4\xf3\xbd\xf0\xef\x51\xe5\x3d\x4e\x07\x59\x98\x7e\xd7\xb3\xab\x76\x26\xd7\xcc\xe9\xdc\x35\x6f\x9f\x86\x91\xf1\xab\x21\x4d\x31\x85\xa9\x97\xbc\xb9\xc1\x44\x23\xb3\xee\xbc\xe0\x4b\x77\xb3\x0b\xa3\x88\x97\x0c\x7c\x18\x5c\x2f\xe2\x47\x22\x68\x3f\x47\xcf\xb3\xc5\xf3\x32\x21\x86\x8a\x27\x36\x3b\x8e\x0a\x87\x5e\xe6\x6a\x17\xec\xb6\xdb\x9d\xb3\x64\x78\x6c\xc7\x16\xcd\xa8\x76\x47\x55\x7d\x25\x21\x17\x64\x82\x5c\x06\xce\x8e\xd1\xaf\x7b\x99\x21\x84\xab\x0d\xc9\xa4\x5e\xbb\x02\x49\x47\xa6\x54\x82\xe5\xf8\x0c\x03\xad\x0c\xf5\x44\xce\x84\xd6\xa4\xcc\x89\x05\x84\x48\xe8\xb9\xc2\x03\xae\x29\x55\xdf\x64\x05\x85\x7d\x2f\xe3\x6b\x78\x22\x06\x8d\x8c\x65\xcd\x86\x47\x6d\xd4\x81\x2a\xf3\x49\xb0\x01\x9a\xf3\x58\x82\x60\xf3\xd7\xa4\x3e\xf0\xeb\xc5\xe3\x0f\xac\x3a\x70\x3d\x1b\xee\x9e\xc9\xad\x1c\x4f\xd2\x5b\x53\x08\xc4\x6c\x7e\x31\x13\x24\x01\xe4\x1a\x98\xb1\xe1\xfa\xa2\x46\x78\x47\x3d\xed\x4a\xb3\xe1\xea\x4e\xd0\x15\xd2\xf1\x6b\xb7\x8c\x94\x42\x1a\x32\xce\x34\xa0\x9d\x61\xd6\xc6\x1f\x48\xeb\x9d\x7a\x2e\x6a\x5a\xc4\xce\x8e\x55\xa1\x73\x8d\x80\x97\x75\x89\x99\x16\xba\x04\x24\x4b\x31\x4d\x67\xb3\xc1\xb0\x0d\xbe\xc2\xd3\xbb\xbc\x9a\xb3\xc2\xbc\x27\xa8\x16\x16\x45\x68\x6c\x44\xcb\x8f\x91\xde\xd1\x11\xe7\x32\x3e\x4a\xdf\xd7\xae\xec\xf1\x73\x23\x7e\xfc\xad\x9e\x8a\x66\x1e\xaa\x05\xc3\xb6\xd3\x17\x07\xa0\x60\x41\x46\xb6\x09\x50\x0a\x0f\x0d\xa1\xe6\x34\x81\x48\xd8\x16\x9c\xd5\x42\x83\x4b\x6a\xf0\x4a\x7b\x17\x56\x4f\x62\xef\x2c\x1d\x5f\xdc\x7a\xf1\xdc\x90\x70\x4e\x56\x18\x9a\x26\x48\xd9\xcf\xa7\x14\x03\xee\x48\xe2\xe2\x0f\x5d\x54\xc6\xbc\xc0\x2b\xbe\x71\x00\xc5\x47\x6a\xb9\xce\xbd\x86\x0c\x75\xe0\x7c\x09\xf8\x30\x89\xab\x7a\x3c\x50\xb0\x67\x66\xb3\x19\xc8\xd3\xdd\x19\x8f\x71\xd2\x97\x76\x04\x64\x6c\x7a\xc7\x68\xe4\xa3\x9d\x2e\x40\x6a\xbc\x3f\xc3\x97\x48\xf2\xb5\x35\x58\x07\xe5\xf5\x48\xfc\xec\x6e\x26\x40\x1d\xd4\x29\x30\xd2\xdf\x4a\x1e\x20\xcb\x84\xdc\x5f\xc0\x95\x79\x4a\x94\xc9\x3b\xb2\x23\x81\x74\xe2\x24\x7b\x8c\x76\xab\x37\x7b\xa0\xb3\x29\x0f\x64\x0e\x4c\x22\xbd\xc2\x00\x6c\x80\x1e\xeb\x80\x2e\x8e\xf0\x7c\x89\x93\x63\x56\x41\x9d\x48\xd0\xea\xab\x93\x55\x20\xb1\x33\x8a\x87\xda\x62\x48\x8f\x51\x26\xbd\x26\x3f\xa9\xc8\xa8\x5c\x54\xf1\x56\x87\x11\x18\x2d\x1e\xb7\xbd\xdf\x61\xde\x8e\xe9\xcb\xbe\xcf\x02\xe3\x10\x26\x16\x84\x1d\x37\xa3\x3d\x13\x78\xda\x72\xbd\x3e\x66\xe2\xd8\x49\xaa\xb5\x77\x2f\x0f\xb4\xc9\x86\xad\xb2\x41\xbb\x8c\xd9\x35\x43\x31\x68\x9a\xb1\xdf\x99\x5c\xdb\x3d\x2b\xba\xcf\xf9\x3c\xec\x7e\xee\x75\x40\x0b\x1f\xfb\xe3\x25\xd7\xe1\x7c\xa8\x67\x9a\x47\x64\xd2\x8f\xab\xf8\x1d\x32\x50\xb3\x75\xcf\xc9\x84\xd6\xc4\x7a\x48\x89\x2c\x34\x1e\x56\xbf\x18\x9b\xa8\x57\x24\xe7\x74\x3a\x2c\xe5\x63\x5e\x92\x30\x61\x64\xa5\x8e\x6b\x4e\x31\xa7\xa3\x5a\xbf\xc1\x1d\xae\xb4\xf2\x5b\x43\xdf\x83\x4e\xa0\x63\xbe\x66\x4d\x0d\x69\xd3\xae\xc7\x5f\x49\xb3\x07\xef\xdf\xfe\x10\xfc\x0d\x1f\xd2\x1a\xc4\x0a\x4e\x91\xa9\x1b\xa1\xb6\x86\x9d\xed\x9d\xb3\xd8\xf8\xea\x9d\xd4\x14\x0b\x7e\xc8\x38\x6c\xaa\x66\x34\xe6\x5c\x06\x13\x0d\xf9\xf5\x77\x3a\xa5\x46\xad\x74\x61\xec\xba\x91\xd5\xe8\xa4\x35\x8e\xb1\xf0\x3a\xd5\xd9\xaa\xc3\x07\x68\x91\x0e\x1f\xd4\xad\x5f\xc3\x88\x1d\x64\x9e\x79\x83\x3a\x4d\x76\xc1\x51\xeb\x50\xff\x60\xb8\xbb\x77\x4f\x18\x3a\x4d\xc0\x3b\x40\x69\x62\xbf\x36\x18\x23\xe0\xb1\x1d\xeb\xe5\xc8\x77\x71\xc0\x49\x81\x1e\x06\xfb\xb4\x7b\x6f\xe4\x74\xe8\xf0\x80\xc5\xf6\x7f\x34\x07\xa9\xbb\x25\xf4\xf8\x47\xeb\x43\x0d\x0d\xcb\xc5\xdf\xc7\xf8\xf8\x79\x2e\xda\xd3\xc6\x00\x29\xfc\xe5\x94\x72\x0f\x3b\xd4\x57\xfb\x48\x04\xa7\x2f\xdf\x66\xe0\xc0\x55\x7b\x9f\x1d\x3a\xf5\x50\x23\xb7\xc2\x89\x01\x8d\x9e\x73\xa0\x7d\xac\x73\xc6\x01\x1d\x25\xeb\x30\xe2\xba\x43\xa7\x1a\x28\x97\x3e\xc2\xcc\xa8\x98\x21\xbc\x3d\x89\xea\xdc\xd2\x87\x71\x7e\xa2\x62\x30\x9c\x81\x35\xf6\x30\x05\x0a\x33\x66\xe6\x75\x8e\x5c\x34\x4e\x4d\x30\x91\xe6\xd1\x89\xd1\x43\x13\xbb\xce\x4c\x98\x11\x22\x2f\xd3\x15\xc1\xe0\xd1\x2a\x2d\xfe\xe9\xd4\x44\x97\x06\x2a\x2f\x1c\xee\x2d\xe8\x45\x7b\x1b\xd2\x72\x8d\x73\x12\xd0\x9b\x30\x29\x33\x9c\x02\x59\xc3\xbc\x49\x81\x15\x3d\x1d\x6f\xdd\x6c\x7c\x47\x78\x67\xe0\x5c\x94\x38\xba\x23\xfc\x5d\x15\xed\xac\xa0\x07\x07\x65\x0e\x95\xc8\xcc\xff\xec\x43\x1e\x48\xe2\xf3\x0f\x79\x38\xb5\xeb\x74\xbc\x9e\x33\x1e\x29\xc3\x59\xd6\x5e\x60\x0f\x5c\xd3\xad\x25\x95\x8c\xda\x26\xab\xc8\xfa\xc6\xe4\x90\x30\xc5\x2b\x97\x7e\xc2\x63\xe0\x39\x5f\xee\xc4\xcf\xf8\xc2\x27\xd8\x9c\x09\x20\xd7\x8d\x44\x80\x88\x32\xba\xe6\xa4\xbc\x2d\x2b\xbd\x99\xa3\x70\x01\xad\x24\xbe\xd2\x89\x3d\x27\x42\x1e\xc3\xd9\x3a\x2b\xab\x13\x1a\xbb\xfa\x20\x48\xdd\x03\xcf\x36\x65\x43\x89\x43\x59\x7e\x87\x1f\x01\xc1\x90\x40\xdb\xa6\xb7\x0d\xc2\x4c\x9e\x1c\x1f\x8b\xcb\xd0\x72\x01\xf6\x27\xb6\x8a\x6f\xd4\xbf\xd9\x71\x20\x55\xb5\x6d\xb9\xb1\x00\x2a\x59\x62\x7b\x1f\xa5\x44\xa4\xb0\x9d\xca\x95\x7b\x08\xb9\x7a\x2c\x2a\x39\x5e\xc0\x77\x01\xcc\x5e\x65\x3c\x8d\x4e\x22\x24\xdf\x7e\xc1\x12\x40\x89\x3e\x48\xe8\x26\x2b\x60\x45\x72\x72\xa5\x92\x7d\x9e\x3c\xb5\xb7\x78\x5f\x27\x69\x66\xe7\x5c\xcb\xcc\x9f\x36\xd0\xd3\x41\xb9\x77\x64\x3e\xb4\x8c\x3b\x61\x1a\xdf\xf2\xf9\x16\xc7\x10\x84\x4f\xfa\x53\xb7\xc6\x63\x53\x87\xe0\x7d\xd7\x6a\x1a\x3b\xd7\x82\x2d\x31\xdc\x1c\xa9\xd7\x73\x0d\x9f\x73\xc2\x45\x6e\x75\x18\x4c\x09\x14\x38\x4b\xe0\x15\x34\x85\xb7\x65\x24\x6a\x31\x6a\x08\x5b\x2c\x28\x0f\x4c\x0d\x34\x45\x6b\x6c\xb0\x23\xa9\xaf\x95\xff\xd7\xc8\x13\x6c\xe6\xf7\xb5\x8f\xb4\x4c\xda\xa7\x5a\x0c\xc6\x76\xaf\x39\xe8\x4d\xfd\x1b\x3f\xe8\x32\x3a\xef\xf6\xc0\xcb\x6f\x3e\xf3\x43\x49\x92\x04\x66\x86\xa7\x76\xde\xc6\x9a\x7d\xa9\x8e\xf5\x29\x1b\x1b\xe7\xc1\x79\x5c\xe0\x8d\x13\x8f\x70\x0d\xc3\xb7\x39\x7b\xd0\x8d\x0b\xcb\x3c\xa6\x13\x2d\x88\x0a\xa0\x0f\x8f\xb0\x02\x7f\xa5\xdd\x42\x8c\x83\xfa\xf6\x00\x7c\x23\x30\xe5\x59\xf5\xc9\x24\xd1\xbf\x43\x74\xbb\xa4\xfb\x25\xb6\x85\x64\xd7\x10\x50\x90\x85\x0b\xcb\x11\xa0\x56\xc2\xe7\xd2\x78\x97\x03\xbd\x4d\xe9\xec\x60\x75\x83\x0e\x35\xe0\x55\x36\x25\xce\x81\xe4\x4d\x6f\x63\x00\xac\x6b\x41\x23\x52\x90\x0c\x95\x40\xa9\x57\x59\x25\x77\xed\x21\x49\xa4\x45\x9a\x62\x1d\x5e\x83\x81\x27\x77\xe8\x8e\x03\x12\x6a\x67\x41\x79\xcd\x72\xdd\x14\xdd\x98\x83\x7a\xdf\xb0\x86\x37\x17\x4a\xee\x63\x68\xce\x0d\xb2\xda\xa7\x50\x9b\xcd\xb0\xb4\x37\x57\x38\x97\x61\xe1\x71\x41\xd9\x6e\xe5\x10\x42\x73\xec\xf8\xe0\x81\x13\x73\x1b\xde\x0d\xdc\x24\x9d\x9e\x42\x92\x9b\x3d\x72\x59\xda\x1e\xd8\xf0\x37\x3b\x7a\x60\xf1\x0e\x86\xe9\xda\x99\x79\xcd\x13\x02\xe4\x96\x23\xf4\x8b\x1b\xc0\xc0\x41\xaa\x9d\x0a\xbb\xed\x72\xeb\x55\x36\xa3\x1e\xb7\xb6\x75\x25\xee\x36\xc6\x62\x6d\x97\x9b\xf1\xcf\x48\x33\xee\x11\x24\xf7\xe0\x76\xdb\xe5\xe6\x64\xcb\x31\xc8\x93\x0c\x58\xfb\x66\x4d\xb7\x9e\xa0\x6f\xe2\x4f\x8f\x1f\xbb\xa9\xc0\x60\x65\x49\xbe\x2b\x59\x53\x39\x0c\x21\xb3\x89\x15\x52\xa2\xc5\x96\x15\x2d\xa0\xaa\xc2\xb0\x1f\x1d\x5e\xa5\x5e\xb8\xeb\x4f\x72\x0e\x01\x44\x93\x01\x53\xf3\x68\x98\xd8\xe9\x12\x34\x07\x89\x7a\x5c\x82\xbd\xc3\x3e\xee\x11\xe4\x32\x87\xbb\x04\x0f\x71\xe1\x9d\xd2\xc5\xb3\x67\xaf\xbf\x1d\xf4\xe2\x61\x8e\x43\x9d\xce\x48\x1a\x87\x3c\x47\x1c\x3e\x75\xdc\x76\x7b\x7a\x04\x7b\x1c\x82\x96\xe8\xcc\x77\x4e\xde\x14\x4e\xfa\x28\x12\x76\x9c\x4e\xaf\xff\xba\xdb\xe9\xd8\x48\x1e\x05\x43\x63\xe6\xc8\xcc\x89\xfa\xea\x41\xf4\x15\x19\x01\x75\x1b\xb6\x6d\x76\xa9\x96\xf9\x2e\x69\x9e\x1e\xec\x65\x1c\x74\x32\x0e\xf9\x18\x9d\xa1\xdd\xe1\x61\x44\x86\x7b\x3c\x8c\x9d\x11\x72\x07\xa5\x75\x2e\xe9\x61\x7d\xd5\xc0\xa4\x75\xd7\x80\xa3\x80\xda\x47\x02\xf7\x88\x0e\xec\x8e\x0d\x30\x20\x68\xf8\x7f\x0e\x8b\x0e\x74\x0e\x13\x4e\xad\xad\x2b\xce\x20\xa8\xb3\x77\x40\x80\xee\x85\xe5\x03\x09\x05\xac\xa0\x52\x61\x43\x64\x96\xc0\xbe\x3c\x91\xdd\xaf\xb1\xf9\x7a\x88\x09\xe6\x26\xfc\x86\xaa\x86\x5c\xbe\x46\x15\xec\xd1\xad\x3d\xa2\x03\x03\x87\x0d\xad\xe3\x68\xec\x78\xe1\x98\xbf\xdc\xf8\x30\xa1\x1e\x89\x83\xbb\x45\x0d\x1a\xbf\xed\x72\xc3\xd6\x35\xfb\x1d\xde\x69\x36\x3d\x5b\x29\x0b\xb2\xde\x6c\xe2\xa8\x78\x72\x29\x15\x46\x6c\x37\x3a\x61\x67\x23\xa7\xcd\x9b\xc5\x4a\xbe\x64\xa0\xe1\xdd\xc4\x56\xdf\xf1\x73\xeb\xde\x34\x05\xef\xdb\x37\xb7\x21\x4c\x9c\x1d\xcf\xc6\x1d\xc4\xb5\x6f\xb8\xcf\x0a\xcc\xd9\x87\x30\x5e\x7f\x30\x17\xd0\xae\x6a\x1e\x19\x4a\x5f\x30\x14\x09\x12\xd0\x48\xbe\x0d\x6f\x04\x7c\x6e\xcd\x67\xfb\xce\xbe\xa0\xa7\xcd\xd1\x6e\x07\xe4\x6d\x98\xbf\xcf\x8f\xed\x8c\xeb\x90\xdb\x5a\xd5\x17\x16\xec\xe7\x31\xa6\x72\xb8\x1e\xbe\x74\x73\x5c\x95\x57\x57\xfd\x2e\xa3\x23\x89\xf2\x87\x1b\x66\xbe\x35\x0a\x29\x44\x39\xb3\x4e\xe7\xbf\x59\x0f\xbb\x5c\xfa\x56\x07\x42\x29\x20\x0d\x02\x18\xd8\xc2\xcf\xa0\x48\x52\xdf\x50\x2b\x53\x8e\xd9\x65\x68\xc2\xb8\xac\x48\x73\xdd\x23\x15\x43\xf4\x4c\x2c\xc6\x49\x97\x18\x61\x72\xae\x9a\x59\x79\x77\x6e\xfb\xe8\x8a\xbd\xbf\x7f\x10\x81\xae\x05\xd6\xe0\xd3\xb5\x68\xdd\x19\x02\x43\xc7\xba\xb3\xec\x0b\xb7\x75\x1c\xb9\x95\x4d\x32\xe7\x93\xc2\x23\x0c\xf5\x85\xa1\x9a\x72\xde\x68\x53\x4e\x00\xb6\xbe\xb5\xad\x4d\x91\x9a\x0c\xe3\x0a\x43\x91\x86\xae\xe8\x50\xf1\x31\xd1\x31\x64\x73\xbb\xc6\xb9\x8a\x39\xc8\x78\xc0\x68\x30\x8d\xdf\x7d\x38\xdc\x05\x4b\x6d\x81\x8c\x8a\xa0\xf0\x1e\x40\x47\x1d\x77\x05\x61\x9d\x05\x4c\x58\xab\xa3\x2e\x0f\x0b\x86\xba\xf1\x37\x3e\xb2\x05\xc3\xf2\xeb\xc2\x6f\x36\xee\xb3\x2b\x44\x31\x1c\xa3\x18\x0e\x52\x0c\x47\x29\x06\xc3\x14\x34\x47\x7d\x99\xdc\x4e\xa0\x82\xa3\xb0\x9f\xad\xa8\x25\x69\x9b\x86\x5e\x12\xb6\xd5\x83\xeb\x99\x89\xee\x5a\x75\xfd\x94\x4f\x97\xb5\xff\xca\x83\xc7\x7f\x38\x02\xe0\xf4\xd3\xed\x0a\x70\x3b\xe7\xfe\x38\x27\x35\x95\x1b\x2d\x33\x89\x2f\xdd\xab\xaf\x77\x5e\x5e\x69\xff\x12\xc6\xbe\xee\xe8\x57\x4f\xce\xdf\x7d\xe6\xe5\x95\x54\x0d\xeb\x2b\x36\xe2\xed\x77\xb9\xe1\x87\xfe\xc8\x09\xdf\xed\x53\x16\xd7\xfc\xdd\xde\x6c\x2e\xb0\xa5\x7b\xa9\xfa\x64\xbf\x5b\xd5\xdb\x57\xdb\xbc\xdb\x2e\xec\xec\x63\xf3\xb8\xd8\xb7\x1a\x9e\x62\x3e\xed\x82\x6f\x0c\xed\xdc\xb3\x1e\x34\xaf\x11\xed\x2d\x33\x23\xee\x83\xce\x75\x7a\x2f\xcb\x4b\xea\xa7\xbf\x2f\x7a\x20\x90\xd5\xe6\xd9\xb9\x18\xc6\x99\xfc\xe6\xa5\xfe\x78\x40\xde\x99\xa6\x7d\x2f\x09\xa5\x99\xd9\x7d\x49\x68\x4d\x79\xe7\xc9\xfb\xc6\x1f\x57\x09\xec\xd8\xda\xd3\xf7\xce\x0c\x0f\x5c\x0e\x3a\x4e\x41\x62\x6d\x9f\x73\x47\xe8\x64\x88\x72\xe3\x9c\x3d\xff\xc6\x1e\xf3\xb9\xaf\xdf\xfd\x72\xd1\x7a\x40\xf6\xbb\x5c\xb4\x71\xb3\x68\xb3\x4b\x78\xd6\xdc\xf6\xea\xa0\xdb\x45\xb1\xbf\x03\x57\x2f\x59\xa3\xab\x53\xc6\xf1\x43\xd7\x25\xfa\x4e\xa1\x1f\x70\xfd\xa8\x23\x1e\xbf\xea\xfa\x51\x87\x8e\x3d\x4c\x78\xd0\x9f\xd4\x80\xed\xe6\xd1\x90\xc0\x74\x6e\x16\x3d\xf0\x02\x4b\xc7\xfb\xc3\x83\xda\xba\x45\xa6\xff\x56\x94\xf2\x52\xf4\x25\xa8\x95\x61\xa7\x4f\x37\xdf\xab\xef\xe2\x98\x3f\xc0\x99\x14\x3c\x39\xf3\x9c\xcf\x20\xe1\x65\xa3\xdf\x1c\x70\xd3\xe8\xc3\xbd\x2e\xa8\x9c\x36\x24\x77\x47\xba\x08\x0d\xec\x1e\xe9\x22\x94\x1e\x92\x2d\xfe\x81\x61\x50\xf1\x01\x94\x56\x2e\xcc\x85\x92\x2f\xf1\x86\x0b\xf2\x7b\x66\x24\x80\xf2\x27\xf9\x28\xa4\xbe\xc5\xb6\xd1\xf9\x48\x09\xe3\xe8\x33\x2f\x63\xd4\xc7\x72\x63\x42\x23\x8b\xa4\x87\xef\xa1\xeb\x62\xf1\xa6\x27\x13\x22\x85\xfa\xee\xc6\xfa\x2f\x96\x4d\xb2\xeb\xb8\xdd\xaf\x49\x27\x31\x32\xb5\x0c\xde\x6c\x17\x49\x5c\xae\x3d\xb9\xe5\x8a\xb0\x96\xa3\x82\xf8\x18\xb2\x44\x2c\x9c\xfb\xbf\x8c\x7f\x85\x33\x2b\x56\xb0\x99\xe2\x6d\x0c\xe7\x7c\xb5\xc3\x95\xb6\x55\xe4\x1e\x7d\x22\x27\x87\x4b\xe7\xf6\x5e\x4a\x78\x62\xe7\x44\xb2\x2c\xea\x6c\xf6\xb8\x0a\x6a\x0d\xd6\x3e\x0d\xcd\xdf\xbb\x27\xb7\x67\x7f\x9f\x4e\x5e\x32\x03\x78\xce\x16\x66\x40\xde\xfd\x77\xf3\x58\x77\x6b\x73\xeb\x5f\x04\xee\x95\x1f\x0d\x07\x59\x7d\xe3\x44\x28\xb7\x6f\xed\xb3\x1a\xda\x02\xcd\x77\x3c\x8c\xdf\x28\x31\x22\xcf\x7c\xb8\x8a\x64\xa4\x79\xc9\x43\x23\xcb\xde\x0e\x5e\xcf\xed\x12\x73\xc5\x43\xc5\x42\xd7\xbc\x6b\xe2\xac\x4f\x7c\x48\x74\xc6\x64\xe6\x00\x1c\xfd\xf9\x69\x1d\x4e\xed\x1d\x77\x77\x62\xe7\xff\xb7\xef\xee\xac\xb9\xeb\x22\xfb\x41\x78\x28\x03\x5a\xa3\xc3\x7d\xb2\x36\xfa\xaf\xc8\xdc\xd7\x22\x38\xf0\x7e\x4c\x93\x46\x30\x78\x47\x66\x07\x80\xd9\x3e\x49\x12\x81\xbd\x28\x93\xd3\x09\x76\xd8\x17\x53\x27\x4f\xa0\xa1\xfd\xdd\xe4\x80\x01\xc8\xd6\x48\x0b\x68\x67\x05\xb4\x93\x02\x1a\x29\x98\x7f\x98\xbb\x2e\xc9\x1e\xf9\xdc\x1b\x21\x07\x06\xa4\x57\xc9\xed\x77\x23\xa4\x41\x5b\xbf\xdb\xdd\x8f\x03\x2c\xef\x01\x00\xd5\x38\x02\xc4\x9d\x69\x5b\x38\x9b\xc8\xc8\x11\x18\x07\x88\x49\xb5\xce\xc1\x17\x79\x1e\xc8\x1e\xd3\x03\xcf\x4c\x24\xd0\x94\x94\x8b\x48\xcc\xd9\x9c\x56\xb8\xac\xf7\xea\xc9\x3f\x1a\x26\xed\x8b\x97\x8d\x83\xd2\xfe\x8b\xb8\x5d\xa1\x16\x68\xda\x8f\x4c\x7b\xa3\x57\x0d\x60\xda\xba\x0a\xd3\xfc\x45\x65\x5d\x36\x52\x1d\x47\x76\x67\xec\x9c\xd1\xf5\x20\x45\x6d\xa8\x7a\x44\xbc\xfe\x36\x78\x75\x5f\x53\x66\x57\xd0\xea\x5f\x0f\x9f\x4a\x70\xed\x70\x78\x6a\xc4\x0f\xaf\xc9\x85\x5f\xad\x63\x95\x46\xa6\xfe\x07\x01\x33\xb3\x07\xce\x7c\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x02\xff\xed\x5d\xeb\x73\xdc\x36\x92\xff\x3c\xf3\x57\x20\x53\xb1\x43\xfa\x46\x94\xb3\x55\x77\xb5\xa7\x94\xae\xce\x0f\x25\xf1\x6e\xfc\x58\x5b\x4e\x3e\xa8\x5c\x59\xce\x10\xa3\xe1\x8a\x43\xd2\x24\x47\xb2\x56\xd1\xff\x7e\xfd\x02\x08\x3e\x67\xc6\x49\xae\xb2\x75\xe7\x4a\xa4\x19\x12\x68\x34\x1a\x8d\xc6\xaf\x1b\x0d\xe8\xf8\x58\x3d\xcb\x22\xad\x2e\x75\xaa\x8b\xb0\xd2\x91\x5a\xdc\xaa\x45\x58\x64\x69\xa0\x9e\xbf\x56\xaf\x5e\x9f\xab\xb3\xe7\x2f\xce\x83\xe9\xf1\xb1\x7a\xab\x8b\x6d\x9a\xc6\xe9\x25\x17\x50\x37\x71\x92\xa8\xec\x5a\x17\x37\x45\x5c\x69\x55\xad\xe3\x52\xad\xe2\x44\x53\xe1\x1f\x75\x51\xc6\x59\x7a\xa2\xee\xee\x02\xf9\x7c\x7f\xef\xbc\x50\xcf\xa1\x35\xf7\x2d\x7e\x87\x12\xd3\x3c\x5c\x5e\x85\x97\x1a\xdf\xbc\xe1\x8f\xaf\xc2\x0d\xbd\x81\xca\xe7\xa6\x0d\xb5\xcc\xd2\x2a\x8c\xd3\x52\x6d\x74\xb5\xce\xa2\x52\x55\x99\xda\x84\x57\x5a\xc5\x69\x14\x5f\xc7\xd1\x36\x4c\x94\x4e\xa3\x3c\x8b\xd3\x0a\xaa\x14\xd9\x46\x95\xba\xb8\x8e\x97\xba\x9c\x23\xa5\x42\x7f\xdc\xea\xb2\x52\x61\x1a\xc1\xe7\x32\xcf\xd2\x12\xba\x70\x9b\x6b\xa2\x84\x45\xb1\x47\x19\x3c\xb4\x54\xe6\x2a\x2c\xd5\x8d\x86\x4e\xc3\x6f\x9d\x2e\x41\x6e\x45\x89\x04\x90\x5e\xa4\xe5\xfb\x2a\x2b\xa4\x22\x51\x9b\xd3\x83\x10\x25\xb5\x52\xd9\xb6\x50\xe5\x36\xcf\xb3\x02\x25\x5d\x15\x61\x5a\xe2\x67\x6c\x2e\x0e\x93\xf8\x9f\x61\x05\x82\x40\x6a\x50\x67\x13\x56\x65\x30\x9d\xc6\x1b\x2a\xe1\x4d\x27\xb3\xc5\x6d\xa5\xcb\x19\x7c\xc0\xbe\xeb\x4f\x15\x7e\x24\x36\x60\x48\x8e\xff\x51\x66\x29\x3e\x58\x6d\xe8\x79\x9c\xf1\xcf\xe3\x38\xdb\x56\x71\x82\x5f\x52\x5d\x1d\xaf\xab\x2a\x37\x9f\xb7\x05\x3d\x2e\xab\x02\xe8\x5d\xcb\x47\x20\x05\x4d\xc0\xe7\xcb\xb8\x5a\x6f\x17\xc1\x32\xdb\x1c\x5f\x66\x47\x57\x71\x75\x8c\xff\x1b\x59\x40\xe9\x30\xbd\xcd\x17\x6a\x76\x99\x65\x97\x30\xe4\x97\x59\x12\xa6\x97\x41\x56\x5c\x1e\xe7\x45\x56\x65\x8b\xed\xea\x98\xfa\x7f\x7c\x95\x66\x37\xe9\x31\x95\x86\x5a\xd1\xb6\xa0\x4e\x1e\x50\xb5\xae\x02\xf5\xf5\x26\xaf\x0e\x69\x57\xca\x43\xcd\x55\xac\x93\x68\x13\x96\x57\x07\xd4\x76\xea\x00\x05\x10\xcf\x76\x59\x1d\x50\xdd\x54\x80\xba\x55\xbc\x01\x6d\x0b\x37\xf9\x01\xd5\x9d\x3a\x40\xe1\xa6\x08\xf3\x1c\x14\xec\x00\x02\x75\x95\xee\x90\x16\x30\x79\xc3\xe3\xcd\xf6\xd3\xac\xf9\x26\xbf\xba\x3c\xd6\x45\x91\x15\xa4\x69\x23\x0d\x59\xcd\xa3\x27\x46\xfd\x46\x2a\xd0\x07\x64\xe4\xee\xee\x48\xc5\x2b\xa5\x3f\xaa\xe0\x59\x96\xae\xe2\xcb\xe0\xdc\xce\x84\x19\xcc\x94\x99\x9a\xa5\xa0\xfc\x33\x05\x93\xbe\xc1\x1b\x3e\x3d\x02\x9d\xc6\xdf\xd0\xc4\x8c\x49\x81\x4e\x62\xc1\x3d\xa8\x5e\x16\xf9\xd2\x50\xed\xf0\x49\x2f\x07\xdf\x1c\x83\x99\x09\xa3\xb0\x0a\xdb\x8d\xee\xdd\x24\x7e\xaa\x67\xfc\xc0\xfc\xb2\x05\x0c\x3b\x4e\x5b\x38\x77\x0f\x20\x20\x53\xfd\x20\x61\xe3\xa7\x03\x9a\xa0\x8a\x2e\x8f\xfe\x74\x3a\xbd\x0e\x0b\xb4\x56\x3f\xab\x53\x05\xb6\x28\x78\x97\x83\x4d\xa9\xf8\x3b\x19\x30\x60\x63\x93\x87\x85\xe6\x47\x62\x7d\x82\x27\x55\x16\xf3\x93\x46\x37\x83\x57\xfa\xe6\x1d\xda\xe2\x82\x5f\xb2\x35\x0b\x5e\x65\xf9\xb3\x04\x4c\xac\x7d\x0a\x44\xf3\x5b\xfe\xc2\xca\x1b\xfc\x04\xba\x3f\x9d\x80\x29\x95\xf1\x34\x6a\xc8\x56\x19\x8b\x92\x49\x0a\x9e\xa4\x54\xaf\x36\x32\xc1\x73\xf9\x88\x8f\xc5\x7c\x04\x67\xf8\x1b\x1f\x98\x29\x1d\xbc\xa3\x0f\xf8\xc8\x99\xa6\xc1\xb9\xf9\x8c\x2f\xea\xe9\x87\xa5\x61\xaa\xfc\x18\x26\x5b\xea\xb7\x63\x57\x82\x6f\xf1\xf3\x4b\xf8\x8c\xd2\x3b\x7e\xb4\xd7\x3f\x75\x66\x57\xb6\x47\x7b\xff\x3b\xa6\x15\xf4\x45\xaa\x42\x5e\xde\x8a\xb9\x8a\xab\xaf\x4a\xb5\x2d\xf5\x6a\x9b\xd0\x32\xb5\xda\xa6\x4b\xec\x3a\xac\x81\xeb\xb0\x52\xa9\xc6\x55\x2a\x53\x59\x4e\xd8\x40\x65\x58\x17\x3e\x1f\x99\x65\x00\x09\x2e\xc2\x32\x2e\x03\xf5\x2d\x54\xd7\x9f\xa0\xe7\x89\x9e\xab\xdb\x6c\xab\x36\xf1\xe5\xba\x52\x79\x58\xe2\x12\xe9\x30\x0c\xf4\x42\xdb\x10\xb7\x03\x63\x13\x6d\x61\x61\x46\x72\x50\x16\x35\x20\xf8\x1e\xd6\xd5\x04\x79\xbc\x01\x25\x54\x3a\x5c\xae\x65\xa5\x57\x9e\x69\xdd\x87\x77\x05\x70\xb8\xcd\x99\x68\x99\xeb\x65\xbc\x8a\x97\xd0\x68\xb5\x0e\x94\xf7\x82\xf8\x03\xc0\x00\xf4\x17\xe1\x22\xb9\x85\x32\x9b\x18\x86\x87\x50\x02\xac\xd8\x65\x7c\x99\x62\xd5\x38\xbd\xce\xae\x70\xb9\xd7\xea\x1d\x63\x04\x8b\x2a\x88\x45\x8d\x74\xea\x1e\xb0\x0e\x20\x09\x23\xc9\xc0\x87\x12\x56\xba\xcb\x24\xd6\x69\xd5\x94\x2e\xb4\xb2\xcc\x92\x44\x53\x3d\x03\x50\x80\x23\x50\x7e\x26\x07\xfd\xa8\xe1\x0a\xfc\x80\x0e\x21\xc1\x12\xd4\x26\x61\x28\xc1\xb2\x8a\x51\xc2\x1b\x4d\x92\x74\xf8\x85\x1a\xba\x58\x85\x4b\x3d\x34\x12\x48\xcc\x36\xd6\x0f\x92\xb6\xd8\x98\x6a\x5a\x10\x9c\x80\xcf\xa4\x3f\x60\x07\x16\x71\x4a\x72\xda\x08\x8b\xce\xc0\xce\x05\x4a\x55\xdb\x22\x85\xae\x63\x8f\x91\xc1\x25\x74\x53\x17\x88\x98\x42\xc3\x6c\x30\xa5\xee\x74\x04\x7a\x37\x9d\xbc\x4f\x6d\xff\x74\x04\x08\xd0\xd4\x60\x08\x28\x96\xe0\xee\x0e\x58\x04\x84\xf8\x65\xac\x4e\x4e\x95\x2d\xf3\x92\x87\x8c\xcd\xf2\x97\xb1\xd4\x31\xad\x28\xf8\x67\xba\x1a\x98\x87\x40\x8a\x0d\x17\xa3\x4b\xcb\xd1\xee\x26\x50\x81\x41\x13\xeb\x2a\xbe\x72\x1a\xf5\x96\xd5\x27\x25\x28\x0d\xcd\x2e\xfe\x9e\xa3\xc2\x3c\xba\xbb\xfb\x2e\xc3\x32\x40\x39\x78\xcb\x10\xf4\x1c\x84\x21\xf5\x7c\xe5\xb5\x4a\x30\x30\x75\x8a\xcc\xd9\xc0\xf9\x28\x2d\x83\x5b\xe9\x19\x32\xaa\x83\x9e\x9e\x23\x33\xd8\xb8\x3f\x9d\xe0\x42\x00\x25\xbf\x38\x55\x69\x9c\x20\x85\x89\x8c\x17\x7c\x25\x22\xd3\xc9\xfd\xd4\x3c\x33\xd4\x83\x9d\x3c\xf9\x73\x24\x00\x42\x34\xe2\x44\x61\xbe\xc4\x69\xe6\x4a\x94\x26\xf2\x97\x60\x46\x50\xa2\xf7\x58\xf8\x48\xb9\x52\x86\x57\x43\x82\x46\x5a\x7d\x3d\x2b\x51\xe8\x4e\x35\x57\x4d\xfc\xee\x70\xb3\xcc\xa8\x73\x48\xb6\x7f\x94\x8c\x63\x60\x67\xd4\x1d\x0e\x8b\x75\x11\x9c\xc7\x2c\xf6\x7a\x38\x80\xf6\x47\xec\x88\x50\xe8\xc8\xad\x33\xda\x50\xe5\xda\x8e\x5d\x19\xb4\x14\x88\x58\xc1\x32\xdd\x51\xeb\x0e\x1b\x8e\x9b\x79\x7a\xcd\xc3\x31\xb9\x9f\xb2\x90\x79\x4c\xdc\xb1\xc1\xc5\xf1\x49\x92\x9c\x7d\x5a\xea\xbc\xa2\x75\xaa\x64\x13\x6b\x25\x45\x2b\x14\xba\x2c\x32\x37\xeb\xc9\x4a\xc3\x48\xb6\xa9\xc7\x2f\x08\x5e\xc6\x11\x98\xed\x1b\x58\xdf\xc9\x0b\x7c\x5f\x1a\xbf\x10\x9d\xa0\x3c\x4f\x6e\xd1\xc4\xa0\xd9\xac\x90\xf8\xc6\x96\xa6\x75\x41\xc3\xb0\xdd\xda\x61\xc3\xf9\x82\x16\xa4\x34\x56\x03\xe8\xbd\xce\x71\xd5\x40\xcb\x39\x77\x0c\xd7\x12\xec\xd0\x42\xd3\x5a\x03\x66\x14\xaa\x81\x0f\x9b\xa2\xd8\x81\x26\x3c\xd7\x9f\x96\xc9\x36\x82\x37\xe4\x05\x2e\x34\xb2\xc0\x6b\x73\x14\x74\xa4\xe1\xd5\x3c\xcd\xd5\xec\x5d\x15\x56\xdb\x72\x06\x9f\xde\x40\xad\x99\x6f\xe7\xfd\x23\x67\xe2\x0f\xd5\x57\x3d\x52\x99\xd7\xdc\x04\x41\xc0\x0e\x17\x29\x4f\x9c\xca\x63\x50\x85\x4d\x98\x5f\xf0\xab\x0f\x2c\xfe\xbb\x7b\x1c\xf5\xf6\x84\xe9\xb3\x7c\x93\xc9\xcc\x51\xa3\x19\x38\xd8\xf7\x73\xa9\x2a\x30\x12\x34\x60\x82\xa3\xf1\x33\xb2\x42\xea\x4a\x24\x2d\x5b\x77\xac\x71\xf0\x3a\xbb\xc2\xd7\x86\xb1\x0b\xfd\xe9\xc3\x37\xea\x0b\x78\x48\x1a\x98\x87\x69\xbc\xf4\x6a\x84\xb7\xf2\x66\x67\x86\x84\x1d\xc1\xaf\x1e\x94\x5f\xa9\x28\x83\xd1\x4d\xb3\x0a\x9a\x80\xc5\xf7\x1b\x18\x4f\xed\x0e\xbc\xd5\x1d\x82\xf4\xc8\x94\xef\xb3\x3e\xdf\xef\x66\x34\xd2\x89\xae\xb4\x67\x78\xa4\xda\x75\x17\xe1\x71\x5d\xcf\x0a\x18\xeb\x95\xa0\xc5\xa0\xee\x58\x60\x6f\xc9\x2e\x43\x50\xe6\xa6\x74\x51\x10\xbd\x36\x17\x70\x68\xdd\x45\xaf\xb7\x88\xdf\x1c\x16\xee\x30\x4f\xcf\x1f\xc2\x05\xf4\x2b\xaa\xb5\x86\x43\x2d\x97\xba\x32\x3a\x8e\xf3\xc2\x4a\x99\x54\xfd\x66\xad\x53\xfb\x36\x73\xd4\x5a\x88\xb1\x76\xce\x79\x36\xca\x84\xd9\x72\x61\xc5\xf1\x9b\x90\x83\x40\x80\x9f\x00\xfc\xc0\x2f\x82\x63\x8e\x36\xdf\xac\x63\x10\x19\x56\x2d\xa1\xe9\x1e\x16\x64\xc5\x97\xda\x06\xef\x64\x85\xac\xf7\xdd\x5e\x91\x11\x66\x45\x9f\x77\xad\x75\x8f\x01\x9f\x0e\xf5\xeb\xb3\x6d\x58\x87\xa9\xb9\xf4\x93\x24\x5e\xe8\xa5\x8e\xaf\x19\x19\x52\x17\x81\x98\xdb\xef\x00\x20\x8d\xb6\x64\x1c\x2a\xf4\xc2\x00\x56\x6b\x1f\x90\x51\xd4\xcb\x08\x7c\xc9\x38\x21\x70\x69\xb4\x99\x82\x3e\x02\x8a\xc3\x24\xae\x6e\x83\x31\x53\xd3\xe8\xbb\x6b\x71\x0e\x96\xe8\xff\xdb\xa3\xff\x83\xf6\xa8\x51\x69\xae\x0e\x31\x4f\xfb\x07\x3c\xf6\x75\x65\xbf\x7b\xfb\xe6\x19\x23\xb6\x83\x7d\x59\x84\x85\x4e\x75\x0c\xff\x96\x35\xb8\xa8\xf1\x41\x78\x0d\xd3\x0d\x1c\x40\xcd\x6e\xc8\x25\x54\x51\x03\xce\x45\x50\x03\xce\x9a\xb2\x57\x93\x72\xdc\x9d\x2c\x67\x57\x19\xe6\x4d\x23\xb6\x13\x70\x25\x86\x2a\xfe\x50\x43\x38\xce\xa5\x53\xb0\xc4\x71\xbe\xf8\x30\x4c\x09\xf5\xa2\xef\xed\x53\x0d\xaa\xa5\x3d\xe4\xf6\xa5\xc4\xa8\xce\x33\x41\xb3\xfe\x9c\xb4\xb6\xd9\xce\x29\x02\x31\xe8\x91\xd7\x78\x6c\xfb\x03\xdd\xf1\x29\x70\x72\x77\xa7\xce\xb3\x1f\xb2\x1b\xe0\xb5\xd1\x03\x8a\x14\x09\xd4\x7c\x88\x1c\x31\x1f\x77\xe8\x76\xed\x54\x5a\x28\xee\x28\xdb\x89\x6a\xf6\xc8\x46\x7b\x3c\xd2\x64\x3b\x11\x7b\xf4\x13\xad\xc8\xe4\x39\x05\xdd\xb1\xeb\x4e\x09\x01\xda\x54\xe0\x2c\xed\x2d\x20\x6e\x13\x96\x68\x08\x01\xfa\x8e\x0f\x51\x6c\x0d\x0b\xc5\xcb\x72\xdd\xd7\xb6\x17\x6e\x71\x7e\xff\x50\x5b\x9f\x81\x17\x42\x87\xce\x6f\xee\xf9\x36\xe5\x0b\x3e\x6f\x53\xc0\x12\x55\x71\xdc\x02\x71\xd6\x24\xdc\x81\x56\xca\x61\x0f\x63\x23\x86\xab\xfd\x3b\xb9\xa7\xf3\x5c\xaa\x47\x75\x53\xbe\x72\x7d\xa5\x31\x2f\x1a\x9d\xac\xdf\xd6\x8d\xfe\x19\x89\xe6\x8e\x23\xd6\x14\x22\xcf\x33\xd4\x21\xd7\x2b\x3b\xd0\x95\xce\x3f\xd3\x8b\x16\xe1\xb2\xa2\xef\x96\x2c\xd4\x18\x9b\x13\x18\x0c\x0b\x55\x33\xc8\x1c\x70\x05\x29\xf1\x2d\x0e\x0d\x05\x9a\x30\x2c\xab\x0b\xb4\x9e\xa4\xfb\x6c\x33\x8d\x41\xa8\x35\xcc\xb8\xcb\x14\x81\x03\x40\x59\x1c\x45\xd9\x26\x04\x1f\x6c\xa4\x70\xa0\xde\x14\xf1\x26\x2c\xe2\xe4\xd6\xc4\xc7\xdc\x60\x1a\xeb\xc7\x58\x3f\xbc\x9f\xbb\x7a\x81\x7d\x81\xd7\x2d\xbf\xbd\xed\xae\xdb\xc8\x09\x79\xea\x52\x67\x1f\x4f\xdd\x8e\xe4\xc7\x91\x61\x62\x73\xb3\xd7\x30\x8d\x5a\xa6\xde\x71\xe2\x1a\xa6\xc8\xd0\x40\xed\x1e\x02\xb3\xd7\x99\xd5\x4b\x61\x5f\x31\xf0\xd5\xf7\x1a\xa7\xd1\x8e\xf4\x0d\x54\x5f\x28\x65\x6c\xa4\xca\x9c\x83\x2a\x7b\x47\xa3\x1a\x11\xac\xbe\xd1\xfa\x5e\x27\x18\x97\x9f\x72\x07\x7a\x57\xce\x7e\xdb\xb3\x89\x94\xd9\x07\x0a\x5e\x3e\xf7\xdb\x05\x90\x5f\xb4\xa0\x57\x73\x75\x5d\x03\xbd\x8d\xc5\xb0\xd7\x8d\x18\x0e\x6d\x67\x6b\x75\xa5\x6f\x69\xb8\x23\xc4\x82\x8b\xac\x42\x14\x68\x5b\x91\x8d\x60\xe5\x5d\xf9\xe2\x97\x60\x51\xf0\x4c\x12\x1c\x2f\xa1\x12\x8a\x37\x46\xf1\xda\x67\x61\x9a\x01\x12\x0e\x93\xef\x75\x18\xe9\xe2\xaf\x40\x5d\x9c\x16\x6c\xa8\xcc\x24\x8a\x5c\x89\x0f\x68\x48\x2c\x97\xda\x04\x4f\x34\x38\x47\xa0\x0b\xdc\x32\xbe\x47\x51\x9c\xda\xbe\xfe\x04\xaf\x69\x23\x83\xad\x21\xf6\xf5\xe2\xf1\x07\x7f\x67\xc1\x01\xee\xa0\x67\x35\x05\x71\x07\x64\xf8\xa0\x1a\x2d\x4f\x07\x00\x49\x0e\x55\x1f\x0c\x24\x01\x77\x38\xb5\xb9\x79\xda\xb6\x90\xd8\x93\x5a\x84\xcb\x2b\xce\x8d\x90\x39\xc3\x31\x7e\xec\x6b\xaa\xc9\x69\x0b\xd4\x0b\x32\xaf\xb2\x5b\x20\xea\x1a\x2f\x62\x74\xe6\xcc\x10\x48\x30\x1c\xa6\x5e\x14\x87\x09\x47\xcc\x93\x10\xf4\x1e\xe8\x65\x18\xc7\xa5\x42\x35\x4d\x56\xd0\x06\x77\x1e\xbe\xe6\x95\x33\xe0\x27\xa0\x7c\xe9\x08\x1a\xe5\x42\x06\x8d\x7a\x03\xd0\xc2\x9d\x72\xa2\x98\xe8\xf0\x96\x86\x73\x23\x08\xe4\x38\xae\xea\xac\x0b\x89\xd1\xd9\xdd\xb5\x48\xaf\xe2\x34\xe6\xed\x33\xdc\x09\x64\x22\xc8\x11\xb6\x56\x4e\x27\x6f\xf5\x25\x78\x5d\x00\x17\xfb\xf9\xf0\x1e\x52\x0d\x9a\xb5\x3e\x6f\xe8\xa5\x5c\x11\x21\x4b\x3b\x84\x3c\x69\xb8\x4a\x20\x85\xb1\x48\x32\xf1\xd3\x5c\xda\xad\x7b\xd4\x8d\x34\x4c\xee\x3a\x68\xd5\x71\xa6\x3a\xb0\x55\x06\x87\x66\x01\x8e\x07\x7e\x20\xc6\x83\x48\x97\x4b\xc3\x0d\xd2\x69\xbf\x12\x06\x2f\xa0\xa1\xf4\xfe\xfe\x83\x7c\xb7\x25\x07\xcc\x6b\x0d\x71\x07\xd6\x49\x07\xe2\xee\xb0\x97\xec\x91\x4f\xb2\x26\x04\xb6\x92\xf0\xc8\x81\x25\x32\x76\xd3\x5b\x4c\xa9\x99\xa8\xd6\x29\xda\xe9\x03\xa8\x23\x1a\xb5\x1e\xa1\x9e\xe0\x06\x4d\xbf\xbc\xe7\x75\x93\x93\x7b\x63\xcf\x0d\x20\x27\xb5\xe2\xf5\x92\xe6\x84\x34\xc8\x6a\x56\xc0\x88\xb3\xd9\xbc\xd2\x3a\x2f\xe1\x73\x48\x93\xb4\x10\x25\xc4\x00\xb0\x85\xe4\x4c\xa9\x46\xe4\x38\x3a\x32\xd1\x84\xe8\x73\x78\x82\x4d\x33\x7e\x95\x59\x48\xd5\x7c\x65\xf4\x5a\x8a\x7a\xfd\xb5\xe7\xea\xe7\xe6\xb2\x07\xed\xa4\xa4\x07\xa0\x54\x91\x90\x87\x9e\xe1\x70\x2a\x31\x47\xbf\x1e\xfb\x8d\x80\x0a\x03\xfe\xc6\x41\xc5\x38\x4c\xd8\x17\xfb\xc9\x02\x3e\x00\x2a\xd8\xa2\x8e\x83\xbf\x61\x50\xc1\x48\x0e\x99\xd9\x13\x55\x60\x51\x8b\x00\x11\xeb\x1c\x84\x2b\x72\xdc\x80\xe8\x02\x0b\x77\xd8\x7e\x3d\x16\x1c\x86\xec\x06\x0a\x8e\x42\xf6\x3d\xc1\xf8\x4e\x20\x38\x0a\xd9\x1b\xa3\x36\xd6\x8f\x7e\x24\xd8\xb7\xd5\x36\x0e\xd9\x0f\xd8\x5c\x1b\x87\xec\xc2\x05\x21\x94\xf2\x3c\x73\x51\x60\x6d\x4e\xda\xcb\xa8\x23\x72\xee\xf2\x08\x15\x0f\x00\x57\xa9\x2e\x3e\x98\xa0\xea\x0e\x7a\x7b\x6d\x4e\x02\x96\x7c\xb4\x0b\x81\xd2\x3a\x97\x87\x71\x51\x37\x0e\x0f\x25\x72\x79\x55\xe3\x52\x62\x8f\x90\x28\x42\x53\x13\x5e\x85\x66\x03\x46\x6d\x57\x7e\x20\xa1\x64\xff\x1b\x65\xc2\xac\x13\x26\x6c\x63\x48\xf4\x95\x51\x20\x41\x40\x0e\x15\x32\xdc\xe5\xa2\x2e\xe4\x7d\x04\xfc\x9f\xd6\x10\xfa\x2f\x60\xdd\x3d\x78\x36\xaf\x1f\xbd\xc1\x3a\x4c\x15\x03\x51\xbe\x21\xe7\x40\x42\x89\x43\xf2\x48\xee\x0b\x0e\xbf\x3f\x3f\x7f\xf3\x39\x51\x46\x4a\x99\x60\x29\xa7\xa4\x5e\xc0\xff\x0c\x37\x32\x01\xc4\xe2\x7a\x49\x79\x97\xdf\xa8\xe5\x3a\x2c\x4a\x5d\x9d\x6e\xab\xd5\xd1\x9f\x67\x36\x38\x89\xad\x4a\xc8\xa5\x46\x95\x6a\x2d\x4f\x68\xce\xee\x0e\x5a\x22\xb1\x2c\x05\x88\xa5\x09\x5c\x01\x0c\xc5\xfc\x96\xd2\x89\x54\x3a\xcd\xec\x0c\x55\x36\xd3\xab\x9a\xa1\x4a\x37\xf1\x46\xdd\xd9\xdc\xb1\x80\xe8\x93\xcf\xd4\x88\xe5\xf5\x84\x2f\x87\xa9\xd3\xf8\xf7\xbd\x96\xf8\x25\xb7\x81\x4e\x41\xd9\x08\x5f\xf6\x57\x3a\x43\xb3\xc0\xe6\x06\xba\xec\x7c\x19\xae\xf2\x64\x05\x66\xc5\x6b\xbf\xa9\x9e\xd5\x43\xeb\x39\xc3\xec\x13\xa1\x6e\x2f\xf7\x0a\x9e\x4a\x74\x8d\x02\xa5\x30\x78\x6f\x60\xb8\x60\xcc\x0a\xb0\x4b\x15\x65\x0c\xe3\xd6\x70\xb9\x0c\x73\xdc\x20\x00\xf4\x7c\x0b\x4a\x70\xab\xd6\x59\x12\x61\x4e\x1a\xe9\x52\xb8\xac\xd0\xbd\xdb\xd0\xee\xcb\xf6\x13\x22\xcc\xb7\xd9\x16\x3b\xe0\x07\xef\x4b\xcd\x9d\x8d\x90\x30\xc0\x33\x07\x74\xc9\x8e\x13\xae\x34\x03\x83\x66\x8b\x2e\x30\x07\x28\xbd\x24\xbc\xcc\xd5\x82\xa7\xfc\x48\x36\x6e\x36\xa6\x1e\xed\x17\x48\x71\xcc\xd6\x5e\xa8\x5f\xd4\x79\xf6\x1e\x73\xdb\xee\xef\x67\x7e\x40\x6c\xb8\x65\xf0\xc1\xb9\xde\xe4\x09\xa5\x74\x43\x09\xa3\x9c\x03\xb9\x7d\x04\x9b\x9b\xe1\x5e\xe1\xa8\x27\xe6\x2b\x80\x17\xbb\xe7\x34\x49\x3b\x62\x4d\x60\x2c\xd0\x19\x0b\x7e\xc7\x1b\x9b\x0d\x54\xdc\x1b\xf9\x9d\xf8\xad\x7d\x0f\xe7\xa3\x98\xa0\x8d\x49\x16\x72\xb4\x8e\x77\x50\x39\x16\x4c\xda\x68\xf6\x42\x4d\x8b\x3f\xe1\x7b\x70\xb2\xc0\x81\x84\x49\x1c\x6e\x93\x0a\xd7\x4e\x56\x37\x24\x46\x20\x14\xa6\x7f\xdb\xb2\x80\x8b\xa8\x16\x59\x44\x0e\x24\x7e\x67\x0f\x08\x3d\xf9\x19\xb5\x33\xb3\xce\xff\x35\xe5\x16\x02\x29\x7a\x1e\x10\x77\x9e\xcf\x2e\x26\x58\x17\xca\x63\x50\xc8\x2c\x92\xfa\xf7\xc7\x8f\xc1\x5f\x5d\x39\xfc\x3a\x01\x6d\x9e\x85\xc0\x2d\x31\xc6\xce\xdd\x75\x8c\xd1\x89\x35\xcf\x4f\xde\x1b\x5d\x68\xe6\x96\xb7\x90\xb1\x5c\x8d\xf0\x5c\xd2\x94\x83\x57\x53\xc7\x5e\x04\x2f\xc1\x5a\xae\x43\x4a\xef\x33\xfc\x6f\xf8\x11\x6a\x64\xb9\x5d\x2e\xb5\x8e\x4a\x76\x87\xff\xf2\xee\xf5\x2b\xc9\xb6\x8f\x4c\x6a\xbc\xdd\x87\x25\xde\x0d\x3b\xb8\x9d\x3d\xdc\x2d\x4e\xe5\xc0\xc3\x0e\xc5\xdc\x78\xe9\xb6\x67\xf5\xcb\x06\x35\x40\x26\x80\xe9\xc3\xc8\xc8\x8c\x4d\xae\x6b\x6f\xfa\x60\x8d\xcd\x0a\x9a\xab\x1b\xb6\xa9\x4d\x35\x20\x38\x83\xa3\x8a\xde\x00\x4c\x3f\x57\x24\x6c\xcc\x7e\xe2\xcc\xd1\x3b\x1a\xc5\x13\x24\x66\x06\xf4\x9e\x43\xcf\x9b\x5a\x80\xbc\x6c\x63\x11\xaf\x29\xdb\x7a\xd5\x8e\x59\x79\x9e\x52\x93\x52\xf5\x8c\x83\xdd\x96\x90\xa9\x87\xe2\xf6\xa0\xaa\x53\xec\xd4\x59\xc1\x49\x19\x4f\x2d\x39\xbb\x31\x7a\x13\xb0\xda\x80\x7d\x02\xa3\xea\xcd\xc4\xac\x1e\xa1\x2d\x9d\xcd\xdd\x05\x94\x3b\xb0\x36\x4a\xe6\xf2\xdf\x34\x0f\x46\x0f\xeb\x7e\x98\xd8\x1a\x81\xad\x1a\xc8\x18\x5a\x52\xa3\xf4\x38\x1b\xcb\xe5\xe9\xb9\x4e\x00\xcf\xe0\x43\xc1\x41\x4e\x7c\x4e\xc8\x31\xbc\x71\xea\x3c\x89\x22\xaf\x85\x6b\xf0\x3f\x9a\x43\x27\x9c\xa7\x1c\xb0\xde\xbc\x40\xc4\x9a\x86\x89\xb3\x36\x51\x27\xd1\xdf\x1b\xec\x9e\xa3\x8f\x75\x0f\x89\xf8\xa9\xc2\x88\x81\x7d\x2d\x0e\xf8\x4d\x40\xda\x23\xec\x61\x41\xdf\x3e\xf4\x70\x58\x7c\xeb\x9a\x92\x0e\xb1\x99\x2c\x3c\x8c\xca\x5c\x7c\xc0\xd4\x6b\x5f\x26\xc5\x1d\x87\x42\x6e\x94\xab\x6b\x76\x47\xc3\x28\xe4\xfb\x54\x54\x00\x29\xcc\xd5\xc3\x1b\xe0\xb2\xb5\xe3\xc1\xe0\xa8\x8c\xff\x89\x3c\xff\xf9\xeb\xff\xfc\x0f\xd6\xb5\x44\xa7\x58\xc7\x57\xff\xc5\xef\x58\x71\x80\x8d\x53\x05\x3f\x2f\x4e\xf0\xe1\x87\x66\xca\x1a\xee\xdb\x93\xdc\x56\xde\xcc\xc6\x87\x49\xd7\x70\xcb\xfe\x04\x83\x95\xb8\x63\x9f\x23\xca\x52\x69\x96\x1e\x91\x31\x34\xfe\x03\x16\x04\x25\xc3\x36\x1b\x01\x44\x49\x05\x87\x75\xc6\xbb\x61\xf2\x24\x23\x32\xb6\x6e\xdf\x1d\xa7\x9f\x4a\x29\x86\xbd\xea\xef\xd8\xca\x89\x58\xda\xbf\x8b\xdd\xc7\x51\x94\x52\x60\xa7\xcb\x55\x2c\x76\xdf\xa8\x2b\x59\x34\x67\x70\x6b\xef\x06\xa3\x65\x64\x75\xe4\x84\xd3\x3e\x19\xfc\x12\x9f\x70\x1a\xb5\xac\xb2\x75\x9d\x94\xb5\xe9\xa2\xb8\x95\x31\xd2\xf0\xcf\xc9\xdb\xb0\x9e\x80\x0d\x5f\xac\x6b\xa2\xbe\x72\xb5\x4d\x35\x33\x25\xd7\x41\xdd\xc2\x40\xed\x7a\xde\x31\x82\xa4\xaf\x0d\x12\xc2\x94\x88\x90\x43\xcb\x94\xf8\x6e\x61\x31\x8a\x90\x3c\x18\x31\xed\x18\x21\x8b\xea\x14\x9e\x4d\x79\xc9\x0e\x27\x62\x5f\x05\x72\x80\x91\x2f\x6e\xa7\x12\xfd\xbe\x59\x6b\x8a\x59\xc7\xe4\x2e\x03\x94\x3e\x81\x29\x14\x26\x21\x82\xad\x92\x21\x16\x25\x85\x60\x4e\xcc\x76\x63\x1e\xc6\x85\x82\x6f\x0b\x1e\x32\x26\x75\x5b\xad\x71\xe0\x75\x52\x52\xae\x00\x1a\xc3\xb9\x89\x71\xd2\xc2\x03\x2d\xac\xc3\x92\x59\x41\xb5\x93\x25\xc1\xe9\x91\x87\xac\x52\x3c\x14\xf0\x53\x59\xc2\x40\xcf\x39\x77\xc8\xf8\x81\x1e\x75\xd3\x24\xe9\xc0\xc4\x5f\x64\x59\xd2\xce\x25\x65\xe4\x57\x02\x96\x42\x4a\x6f\xf5\x0a\x53\xa9\xd0\x12\xb0\x44\xf0\x65\x80\x01\xa5\x22\xce\x2b\x5c\x17\xf8\x18\x01\x0c\x41\xf0\xf4\xf6\x1c\xe8\x23\x70\xf2\xb0\x59\x36\xb7\x5c\xeb\xb4\xb3\x59\x39\x83\x69\xb3\x0a\x13\x49\x21\xc6\xc9\x62\x66\xe1\x83\x92\x3a\x9a\x66\x52\xf7\xc1\x47\x28\xda\x6e\x73\x9b\x24\xd4\x90\xcf\x5d\x64\x43\x05\xcd\x7d\xb1\x01\xc8\x57\x7a\x54\xd3\x57\x0f\x1f\x2a\xfe\x88\x0f\xdf\xc0\xf4\x86\xd5\x1c\xf5\xec\x97\x5f\x98\x76\xf0\xa2\xfc\x21\x2e\xab\xe6\x93\x97\x61\xee\xf9\xfe\x00\xaf\x92\xde\x4a\x4d\xb5\x48\x40\x63\x5f\x34\x68\xe0\x13\x7e\x20\xc3\x01\x8f\x1c\x41\x70\x6a\x11\x9d\x4c\x61\xa9\x7e\x07\xcb\x17\x33\x1e\xbc\x30\x33\x17\xfa\xea\x89\x0d\xfd\x46\x7d\xc1\x85\xdd\x3c\xdc\x3a\xed\xc8\x1b\x22\x00\x22\x82\x99\x6b\x78\x97\xb5\x24\x4b\x39\x0a\xb5\x21\x1b\xe5\xf3\x03\x5a\x40\x89\xc0\xbc\xc1\x0e\xbc\x16\x8b\x8c\xee\x19\xd4\xb2\x07\xaf\xcc\xda\x2d\x58\x16\x39\x7b\x92\x24\xd9\xcd\x9b\xb0\xa8\xe2\x30\xa1\xd0\x2a\x35\x0e\x2f\xc0\x7b\x20\x95\xa2\xb0\xe5\x49\xf3\xc5\x19\x4c\x87\x57\x34\x23\xf0\x8d\x79\x71\xb6\x89\xab\xf7\x69\x9e\xe5\x5b\xc4\xf3\xd1\x89\x79\x01\xfc\xa3\xcb\x6e\xf7\xcd\x6b\xe6\x2c\x98\xa1\xee\xb8\x42\x18\xd9\x37\xef\xaa\x22\x5a\xe7\x15\x02\xa2\xb9\x9a\x2d\xb3\x6d\x12\xa5\x5f\x55\x82\x04\xad\x52\xe2\x2c\xa5\xb3\x67\xae\x06\xe2\xea\x46\x05\x4a\xd7\x04\x92\xa4\xde\x86\x37\xa2\x06\x23\x0b\x1e\x77\xeb\x21\x93\xe8\x2e\x7b\xbd\x0c\xbb\xdb\xfd\xdc\x20\x0f\x5b\x79\x81\x7c\x7d\x68\x0c\x3f\x5b\xc1\xad\x69\x8f\x0d\x21\x58\xad\x72\xc8\xf2\x51\xe2\x32\x6e\xbb\x10\x18\x46\x63\x23\x76\xa7\x49\x63\x87\xe9\x99\x2b\xc7\xf2\x38\x60\x00\x67\x11\x49\xe0\x47\xc0\xdf\x91\x28\x3a\x59\xa9\xe6\x04\x6c\x5b\x88\x8f\x68\x6c\x71\x59\x96\x01\xa0\x1a\x24\x87\x41\xeb\xd5\x51\x78\xdb\x81\x8e\x4e\xdb\xe1\x18\xd1\x6a\xa3\xa2\xcf\x63\x30\xf7\x45\xf4\x3e\xa5\x73\x8f\xae\x86\xd6\x63\xec\xb6\xe4\x8c\xb5\xf4\xb6\x91\x38\x78\xf7\xe0\xe3\x89\x7a\x50\xde\x8b\x52\x49\xcf\x60\x08\x3b\xfa\x3c\xa4\x1b\x46\x21\x3e\xcf\x5a\x53\x33\x8e\x01\x45\xc2\x1b\xd7\x2c\x50\x81\x86\x65\xb8\xe7\x35\x8b\x4b\x3e\x4b\x74\x58\xc8\x3b\x57\x2f\x6b\xdd\x5b\x66\xf9\x2d\xf3\xd0\xab\x77\xb4\xed\x17\x71\x6c\x98\xf6\x4c\x68\x09\xc5\xb8\x05\x2c\x7c\x65\xb1\x14\xed\xab\xa9\x78\x50\x78\x8e\x6f\xfa\xd4\xaf\x6c\xa5\x96\x42\x07\xc8\xd6\x42\x9d\x96\x82\x10\x89\xee\x92\xc7\x90\x9d\x34\xd9\xa2\x76\x26\x4c\x5e\x81\x91\x71\xb9\xb7\x8c\x09\x9c\xb7\x25\x3c\x89\x5c\x11\x97\x4d\xf9\xba\xe9\xd9\x08\x41\xba\xe0\xa5\x1f\xb0\xf4\x02\x07\x3a\x9f\xc6\x22\xb4\xb4\x76\xce\x5d\x54\xb4\x47\x02\x10\x04\x9f\x02\xd7\xec\x71\x66\xe0\xa7\x90\x6c\x5a\x38\xc4\x1a\x45\x9c\x06\x66\xd5\xc3\xe5\x18\xd3\x66\x61\xb1\x25\x7b\x00\x8f\x67\x33\x16\x81\xae\xcf\x4f\x9a\x59\x9e\x37\x82\x57\x8a\x27\x3d\x1d\x8b\x9c\xb5\x16\x7d\xed\xce\x03\xe4\x14\x89\x99\x97\xb6\xa5\x60\xd6\x68\x38\x80\xef\xce\xbc\x91\x13\xe8\x01\x6e\xc9\xe0\x0c\xe3\xee\x41\x25\xf8\xf1\xe0\x4f\x67\xf0\xeb\xe8\xeb\x86\x4a\x6f\x8b\x84\xc2\x4d\x67\x14\x4f\x63\xa3\xe5\x0c\xd3\x8f\x08\x01\xdd\x51\xda\xa6\x12\x79\x53\x79\x2b\x2a\x87\xd1\x17\xbb\xbb\x50\x0f\x0e\x52\xf0\x40\xf2\xe2\xc7\xd3\x6b\xc0\x70\xcd\x94\x68\x33\x40\x02\xde\xae\xb1\xd5\x4e\xde\x34\xfc\xba\x93\x14\x62\xb6\x2a\xe4\x78\x3a\x79\x22\x5b\x8c\xbc\x63\x6b\x3c\x18\x75\x30\x01\xad\x97\xf4\xf3\xbd\xf0\xef\x51\xe5\x3d\x4e\x07\x59\x98\x7e\xd7\xb3\xaa\x76\x06\xd7\x8c\xe9\xdc\x75\x6f\x9f\x86\x91\x89\xab\x21\x4d\x71\x85\xa9\x97\xbc\xb8\xc1\x40\x23\xb3\xee\xb8\xe0\x4b\x77\xb1\x0b\xa3\x88\xa7\x0c\x7c\x18\x9c\x2f\x12\x47\x22\x68\x3f\xc7\xc8\xb3\xc5\xf3\x32\x20\x86\x8a\x27\x3e\x3b\x4a\x85\xb7\x5e\xe6\x6a\x17\xec\xb6\xcb\x9d\x33\x65\x58\xb6\x63\x93\x66\xd4\xba\xa3\xa9\xbe\x92\x2d\x17\x64\x82\x42\x06\xce\x8a\xd1\x6f\x7b\x99\x21\x84\xab\x0d\xcd\xa4\x5e\xbb\x0a\x49\x47\xa6\x54\x82\xe5\xf8\x0c\x03\xcd\x0c\xf5\x44\xce\x84\xd6\xa4\xcc\x89\x05\x84\x48\x18\xb9\xc2\x03\xae\x29\x55\xdf\x64\x05\x6d\xfb\x5e\xc6\xd7\xf0\x44\x1c\x1a\x91\x65\xcd\x86\x47\x6d\xd4\x1b\x55\xe6\x93\x60\x03\x74\xe7\xb1\x04\xc1\xe6\xaf\xc9\x7c\xe0\xd7\x8b\xc7\x1f\xd8\x74\xe0\x7c\x36\xdc\x3d\x93\x5b\x39\x9e\xa4\xb7\xa6\x10\xa8\xd9\xfc\x62\x26\x48\x02\xc8\x35\x30\x63\x23\xf4\x45\x8d\xf0\x8a\x7a\xda\xd5\x66\xc3\xd5\x9d\xa0\x2b\xa4\xe3\xd7\x61\x19\x29\x85\x34\x44\xce\x24\xd0\x8e\x98\xb5\x89\x07\xd2\x7c\xa7\x9e\x8b\x99\x16\xb5\xb3\xb2\x2a\x74\xae\x11\xf0\xb2\x2d\x31\xc3\x42\x97\x80\x64\x29\xa6\xe9\x6c\x36\xb8\x6d\x83\xaf\xf0\xf4\x2e\xcf\xe6\xac\x30\xef\x09\xaa\x85\x45\x11\x1a\x1f\xd1\xf2\x63\xb4\x77\x54\xe2\x5c\xc6\x47\xed\xfb\xda\xd5\x3d\x7e\x6e\xd4\x8f\xbf\xd5\x43\xd1\xcc\x43\xb5\x60\xd8\x76\xfa\xe2\x00\x14\x2c\xc8\xc8\x36\x01\x46\xe1\xa1\x21\xd4\x1c\x26\x50\x09\xdb\x82\x33\x5b\x48\xb8\x64\x06\xaf\xb4\x77\x61\xed\x24\xf6\xce\xd2\xf1\x25\xac\x17\xcf\x0d\x09\xe7\x64\x85\xa1\x69\x36\x29\xfb\xf9\x94\x62\xc0\x1d\x69\x5c\xfc\xa1\x8b\xca\x98\x17\x78\xc5\x37\x0e\xa0\xfa\x48\x2d\x37\xb8\xd7\xd0\xa1\x0e\x9c\x2f\x01\x1f\x26\x71\x55\xcb\x03\x15\x7b\x66\x16\x9b\x81\x3c\xdd\x9d\xfb\x31\x4e\xfa\xd2\x8e\x0d\x19\x9b\xde\x31\xba\xf3\xd1\x4e\x17\x20\x33\xde\x9f\xe1\x4b\x24\xf9\xda\x1a\xac\x83\xfa\x7a\x24\x71\x76\x37\x13\xa0\xde\xd4\x29\x70\xa7\xbf\x95\x3c\x40\x9e\x09\x85\xbf\x80\x2b\xf3\x94\x28\x53\x74\x64\x47\x02\xe9\xc4\x49\xf6\x18\xed\x56\x6f\xf6\x40\x67\x51\x1e\xc8\x1c\x98\x44\x7a\x85\x1b\xb0\x01\x46\xac\x03\xba\x38\xc2\xf3\x65\x9f\x1c\xb3\x0a\xea\x44\x82\x56\x5f\x9d\xac\x02\xd9\x3b\xa3\xfd\x50\x5b\x0c\xe9\x31\xca\xa4\xd7\x14\x27\x15\x1d\x95\x8b\x2a\xde\xea\x30\x02\xa7\xc5\xe3\xb6\xf7\x3b\xcc\xdb\x71\x7d\x39\xf6\x59\xe0\x3e\x84\xd9\x0b\xc2\x8e\x1b\x69\xcf\x04\x9e\xb6\x42\xaf\x8f\x99\x38\x76\x92\x6a\xed\xdd\xcb\x03\x7d\xb2\x61\xaf\x6c\xd0\x2f\x63\x76\x8d\x28\x06\x5d\x33\x8e\x3b\x53\x68\xbb\x67\x46\xf7\x05\x9f\x87\xc3\xcf\xbd\x01\x68\xe1\x63\x7f\xbc\xe4\x06\x9c\x0f\x8d\x4c\xb3\x44\x26\xfd\xb8\x8a\xdf\x21\x03\x35\x5b\xf7\x9c\x4c\x68\x5d\xac\x87\x94\xc8\x42\xf2\xb0\xf6\xc5\xf8\x44\xbd\x2a\x39\xa7\xd3\x61\x29\x1f\xf3\x92\x84\x09\xa3\x2b\xf5\xbe\xe6\x14\x73\x3a\xaa\xf5\x1b\x5c\xe1\x4a\xab\xbf\x35\xf4\x3d\xe8\x04\x3a\xe6\x6b\xd6\xd4\x90\x36\xad\x7a\x2d\xe2\x0c\x66\x41\x60\x7f\xc3\x97\x30\x39\xde\xbf\xfd\x01\xd7\x24\xfa\xfa\xb9\x98\xb6\x39\x5b\x78\x3c\x6a\x5c\x25\x51\xe5\xe6\xbc\xd9\x07\xe5\x62\x8f\x9c\x3e\x4c\xdd\x2d\x74\xeb\x79\x5a\xf1\x3b\xd6\x80\xef\x06\x4a\x4d\xb1\xe0\x87\x8c\xf7\x75\xd5\x8c\x94\x82\xcb\x60\x26\x24\xbf\xfe\x4e\xa7\xd4\x7d\xab\xfe\xb8\xb9\xde\x48\xbb\x74\xf2\x2e\xc7\x58\x78\x9d\xea\x6c\xd5\xe1\x03\xcc\x5c\x87\x0f\xea\xd6\xaf\x61\xc4\x8e\x0a\xab\xa6\x81\xc5\x26\xfd\xe1\xa8\x75\xeb\xc0\xe0\x7e\x7c\xef\xa2\x35\x74\xdc\x81\x97\xa8\xd2\x6c\x4e\xdb\xdd\x22\x41\xb7\xed\xcd\x68\xde\x9a\x2f\x0e\x38\xca\xd0\xc3\x60\xdf\xf2\xd3\xbb\xb5\x3b\x74\xba\xc1\x3a\x1f\x7f\xb4\x08\xae\xbb\x66\xf5\x04\x70\xeb\x53\x17\x0d\xd7\xca\xdf\xc7\x3b\xfa\x79\x2e\xe6\xdd\x6e\x52\xd2\xfe\x9c\x53\xca\x3d\x8d\x51\xdf\x3d\x24\x5b\x4c\x7d\x09\x41\x03\x27\xc2\xda\x40\x60\xe8\x58\x46\x0d\x2d\x0b\x67\x93\x6a\xf4\x20\x06\x19\x8c\xce\x21\x0c\x8c\xe4\xac\xc3\x88\xeb\x0e\x1d\xbb\xa0\x64\xff\x08\x53\xb7\x62\xf6\x31\xec\x51\x59\xe7\x1a\x41\x4c\x44\x20\x2a\x06\x64\x1a\xdc\x65\x4f\x7b\xa0\x32\x63\xea\x60\xe7\x4c\x48\xe3\x58\x07\x13\x69\x9e\xed\x18\x3d\xd5\xb1\xeb\x50\x87\x91\x10\x85\xc1\xae\x08\xa7\x8f\x56\x69\xf1\x4f\xc7\x3a\xba\x34\xd0\x78\xa1\xb8\xb7\x60\x17\xed\x75\x4d\xcb\x35\x8e\x49\x40\x6f\xc2\xa4\xcc\x70\x08\x64\x0e\xf3\x2a\x0a\xeb\xc5\x74\xbc\x75\xb3\x32\x1f\xe1\xa5\x86\xd8\x30\xae\x28\x18\x2f\xf1\x77\x55\xb4\xa3\x82\x21\x26\xd4\x39\x34\x22\x33\xff\xb3\x4f\xa1\x20\x89\xcf\x3f\x85\xe2\xd4\xae\xf3\x05\x7b\x0e\xa1\xa4\x8c\xb7\xd9\x7a\x81\xc3\x72\x4d\xd7\xaa\x54\x22\xb5\x4d\x56\x51\x78\x00\xb3\x57\xc2\x14\xef\x84\xfa\x09\xcf\xa9\xe7\x7c\xfb\x14\x3f\xe3\x1b\xa9\x00\x3d\x10\x82\xaf\x1b\x89\x00\xb2\x65\x74\x0f\x4b\x79\x5b\x56\x7a\x33\x47\xe5\x02\x5a\x49\x7c\xa5\x13\xbb\x8e\x52\x48\x73\xb6\xce\xca\xea\x84\x64\x57\x9f\x54\xa9\x7b\xe0\xd9\xa6\xec\x5e\xe7\x50\x1a\xe2\xe1\x67\x54\x70\xcf\xa2\x1d\x74\xb0\x0d\xc2\x48\x9e\x1c\x1f\x4b\x4c\xd3\x72\x01\x0e\x32\xb6\x8a\x6f\xd4\xbf\x59\x39\x90\xa9\xda\x76\xa1\x89\x25\xb6\xf7\x59\x4f\x44\x0a\xdb\xa9\xdc\x09\x88\x18\xa4\xc7\xe5\x93\xf3\x0f\x7c\x59\xc1\xec\x55\xc6\xc3\xe8\x64\x6a\xf2\xf5\x1c\xac\x01\x94\x89\x84\x84\x6e\xb2\x02\x66\x24\x67\x7f\x2a\x59\xe7\x29\x94\x7c\x8b\x17\x8a\x92\x65\x76\x0e\xde\xcc\xfc\x69\x03\xde\x1d\x94\x1c\x48\xfe\x4d\xcb\xfb\x14\xa6\xf1\x2d\x1f\xc0\x71\x3c\x55\xf8\xa4\x3f\x75\x6b\x3c\x36\x75\xc8\xff\xe8\xba\x75\x63\x07\x6f\xb0\x25\xc6\xc3\x23\xf5\x7a\xee\x09\x74\x8e\xe0\xc8\xb5\x13\x83\x39\x8b\x82\xb7\x09\x5d\x83\xa5\xf0\xb6\x0c\x95\x2d\x88\x0e\x61\x89\x05\xe3\x81\xb9\x8b\xa6\x68\x8d\x0d\x76\x64\x1d\xb6\x12\x14\x1b\x89\x8c\xcd\x04\xc4\xf6\x99\x9b\x49\xfb\xd8\x8d\x71\x02\xdc\x7b\x18\x7a\x73\x13\xc7\x4f\xe2\x8c\x8e\xbb\x3d\x91\xf3\x9b\x8f\xfc\x50\x16\x27\x81\x99\xe1\xa1\x9d\xb7\xb1\x66\x5f\x2e\x66\x7d\x0c\xc8\x6e\x44\xe1\x38\x2e\xf0\x4a\x8c\x47\x38\x87\xe1\xdb\x9c\x43\xfc\x26\xc6\x66\x1e\xd3\x91\x1b\x44\x05\xd0\x87\x47\x58\x81\xbf\xd2\x6a\x21\xde\x4b\x7d\xbd\x01\xbe\x11\x98\xf2\xac\xfa\x64\xb2\xfc\xdf\x21\xba\x5d\xd2\x05\x18\xdb\x42\xd2\x7f\x08\x28\xc8\xc4\x85\xe9\x08\x50\x2b\xe1\x83\x73\xbc\xca\x81\xdd\xa6\x7c\xfb\x6c\x8b\x0b\xb7\x01\xaf\xb2\x28\x71\x92\x26\x2f\x7a\x1b\x03\x60\x5d\x57\x05\x91\x82\xa4\xd0\x04\x4a\xbd\xca\x2a\xb9\x0c\x10\x49\x22\x2d\xb2\x14\xeb\xf0\x1a\x3c\x50\xb9\xe4\x77\x1c\x90\x50\x3b\x0b\x4a\xbc\x96\xfb\xb0\xe8\x4a\x1f\xb4\xfb\x86\x35\xbc\x5a\x51\x92\x33\x43\x73\xb0\x91\xcd\x3e\xed\x05\xda\x14\x50\x7b\xb5\x86\x73\x5b\x17\x9e\x67\x94\xe5\x56\x4e\x49\x34\x65\xc7\x27\x23\x9c\x4d\xc1\xe1\xd5\xc0\xcd\x22\xea\x29\x24\xc9\xe3\x23\xb7\xb9\xed\x81\x0d\x7f\xb3\xb3\x11\x16\xef\xe0\x3e\x62\x3b\x75\xb0\x79\x84\x81\xe2\x86\x84\x7e\x71\x01\x18\x38\xe9\xb5\xd3\x60\xb7\x63\x82\xbd\xc6\x66\x34\x24\xd8\xf6\xae\x24\x1e\xc8\x58\xac\x1d\x13\x34\x01\x24\x69\xc6\x3d\x23\xe5\x9e\x2c\x6f\xc7\x04\x9d\x74\x3e\x06\x79\x92\xa2\x6b\xdf\xac\xe9\x5a\x16\x0c\x9e\xfc\xe9\xf1\x63\x37\x57\x19\xbc\x2c\x49\xc8\x25\x6f\x2a\x07\x11\x32\x9b\x58\x21\x25\x5a\xec\x59\xd1\x04\xaa\x2a\xdc\x97\xa4\xd3\xb5\xd4\x0b\x77\xfe\x49\x52\x24\x80\x68\x72\x60\x6a\x1e\x0d\x13\x3b\x63\x96\xe6\xa4\x53\x4f\xcc\xb2\x57\xec\xe3\x21\x4b\x2e\x73\x78\xcc\xf2\x90\x18\xe3\x29\xdd\x8c\x7b\xf6\xfa\xdb\xc1\x30\x23\x26\x61\xd4\xf9\x96\x64\x71\x28\xb4\xc5\xfb\xbb\x4e\x5c\x71\xcf\x90\x65\x4f\xc4\xd2\x12\x9d\xf9\xce\xd1\xa0\xc2\xc9\x6f\x45\xc2\x4e\x1c\xe6\xf5\x5f\x77\x47\x45\x1b\xd9\xad\xe0\x68\xcc\x1c\x9d\x39\x51\x5f\x3d\x88\xbe\x22\x27\xa0\x6e\xc3\xb6\xcd\x31\xdf\x32\xdf\xa5\xcd\xd3\x83\xc3\xa0\x83\x51\xd0\xa1\x20\xa8\x23\xda\x1d\x21\x50\x64\xb8\x27\x04\xda\x91\x90\x2b\x94\xd6\xc1\xa9\x87\xf5\x5d\x08\x93\xd6\x65\x08\x8e\x01\x6a\x9f\x59\xdc\x63\xfb\x62\xf7\xe6\x05\x03\x82\x46\xfc\xe7\xb0\xed\x8b\xce\x69\xc7\xa9\xf5\x75\x25\x18\x04\x75\xf6\xde\xb1\xa0\x8b\x6b\xf9\xc4\x44\x01\x33\xa8\x54\xd8\x10\xb9\x25\xb0\x2e\x4f\x64\xf5\x6b\x2c\xbe\x1e\x62\x82\xb9\xd9\x1f\x44\x53\x43\x31\x69\x63\x0a\xf6\xe8\xd6\x1e\xdb\x17\x03\xa7\x21\x6d\xe0\x68\xec\xfc\xe3\x58\x40\xdf\x97\x18\x26\xd4\x23\x75\x70\x97\xa8\x41\xe7\xb7\x5d\x6e\xd8\xbb\xe6\xb8\xc3\x3b\xcd\xae\x67\x2b\xa7\x42\xe6\x9b\xcd\x6c\x95\x50\x33\xe5\xea\x88\xef\x46\x47\x00\xed\xd6\x6e\xf3\xea\xb3\x92\x6f\x41\x68\x44\x37\xb1\xd5\x77\xfc\xdc\x86\x37\x4d\xc1\xfb\xf6\xd5\x72\x08\x13\x67\xc7\xb3\xf1\x88\x72\x1d\xbc\xee\xf3\x02\x73\x8e\x21\x8c\xd7\x1f\x4c\x56\xb4\xb3\x9a\x25\x43\xf9\x15\x86\x22\x41\x02\x13\xf9\x16\xf0\xb9\x35\x9f\xed\x3b\xfb\x82\x9e\x36\xa5\xdd\xce\x18\xb0\x79\x08\xa4\x27\x54\x9d\x03\xec\x7e\x53\xae\x43\x61\x6b\x55\xdf\xa8\xb0\x5f\xc4\x98\xca\xe1\x7c\xf8\xd2\x4d\xc2\x55\x5e\x5d\xf5\xbb\x8c\xce\x4c\xca\x5f\x96\x98\xf9\xd6\x29\xa4\x3d\xd4\x99\x0d\x3a\xff\xcd\x46\xd8\xe5\x56\xba\x7a\xa7\x96\x76\xcc\x41\x01\x03\x5b\xf8\x19\x14\x49\xea\x2b\x74\x65\xc8\x31\xfd\x0d\x5d\x18\x97\x15\x69\xae\x7b\xe6\x63\x88\x9e\xd9\x2c\x72\xf2\x39\x46\x98\x9c\xab\x66\xda\xe0\x9d\xdb\x3e\x86\x62\xef\xef\x1f\x44\x60\x6b\x81\x35\xf8\x74\x2d\x56\x77\x86\xc0\xd0\xf1\xee\x2c\xfb\xc2\x6d\xbd\xd1\xdd\x4a\x77\x99\xf3\x51\xe6\x11\x86\xfa\xf6\xc9\x9a\x7a\xde\x68\x53\x8e\x28\xb6\xbe\xb5\xbd\x4d\xd1\x9a\x0c\xf7\x15\x86\x76\x1a\xba\xaa\x43\xc5\xc7\x54\xc7\x90\xcd\xed\x1c\xe7\x2a\xe6\xa4\xe5\x01\xd2\x60\x1a\xbf\xbb\x38\xdc\x09\x4b\x6d\x81\x8e\x8a\xa2\xf0\x1a\x40\x67\x31\x77\xed\x12\x3b\x13\x98\xb0\x56\xc7\x5c\x1e\xb6\x5b\xeb\x6e\x10\xf2\x99\x32\x10\xcb\xaf\xdb\x1f\xb4\xfb\x3e\xbb\xb6\x28\x86\xf7\x28\x86\x37\x29\x86\x77\x29\x06\xb7\x29\x68\x8c\xfa\x52\xcd\x9d\x8d\x0a\xde\x26\xfe\x6c\x43\x2d\x59\xe5\x24\x7a\xc9\x28\x57\x0f\xae\x67\x66\xfb\xd9\x9a\xeb\xa7\x7c\xfc\xad\xfd\x67\x28\x3c\xfe\xcb\x16\x00\xa7\x9f\x6e\x57\x80\xdb\x39\x39\xc9\x39\x4a\xaa\xdc\xdd\x32\x93\x99\xd3\xbd\x9b\x7b\xe7\xed\x9a\xf6\x4f\x75\xec\x1b\x8e\x7e\xf5\xe4\xfc\xdd\x67\xde\xae\x49\xd5\xb0\xbe\x62\x27\xde\x7e\x97\x2b\x88\xe8\xaf\xb0\xf0\xe5\x43\x65\x71\xcd\xdf\xed\xd5\xeb\x02\x5b\xba\xb7\xbe\x4f\xf6\xbb\xf6\xbd\x7d\xf7\xce\xbb\xed\xc2\x8e\x3e\x36\x8f\x93\x7d\xab\xe1\x29\x26\xfc\x2e\xf8\x4a\xd3\xce\x45\xf0\x41\xf3\x9e\xd3\xde\x32\x33\xe2\x3e\xe8\xdc\xf7\xf7\xb2\xbc\xa4\x7e\xfa\xfb\xa2\x07\x02\x59\x6d\x9e\x9d\x9b\x6b\x9c\xc1\x6f\xfe\xd5\x01\x3c\xc1\xef\x0c\xd3\xbe\xb7\x98\xd2\xc8\xec\xbe\xc5\xb4\xa6\xbc\xf3\x6a\x80\xc6\x5f\x7f\x09\xac\x6c\xed\xf5\x00\xce\x08\x0f\xdc\x5e\x3a\x4e\x41\xf6\xda\x3e\xe7\x12\xd3\xc9\x10\xe5\xc6\x45\x00\xfc\x1b\x7b\xcc\x07\xd3\x7e\xf7\xdb\x4f\x6b\x81\xec\x77\xfb\x69\xe3\xea\xd3\x66\x97\xf0\x30\xbc\xed\xd5\x41\xd7\x9f\x62\x7f\x07\xee\x86\xb2\x4e\x57\xa7\x8c\x13\x87\xae\x4b\xf4\x1d\x93\x3f\xe0\x7e\x54\x47\x3d\x7e\xd5\xfd\xa8\x0e\x1d\x7b\xda\xf1\xa0\xbf\xf9\x01\xcb\xcd\xa3\x21\x85\xe9\x5c\x7d\x7a\xe0\x0d\x9b\x4e\xf4\x87\x85\xda\xba\xe6\xa6\xff\xda\x96\xf2\x52\xec\x25\x98\x95\xe1\xa0\x4f\x37\x21\xad\xef\x66\x9b\x3f\xc0\xa1\x19\x3c\xda\xf3\x9c\x0f\x49\xe1\x6d\xa8\xdf\x1c\x70\x15\xea\xc3\xbd\x6e\xd0\x9c\x36\x34\x77\x47\xba\x08\x09\x76\x8f\x74\x11\x4a\x0f\xc9\x16\xff\xc0\x6d\x50\x89\x01\x94\x56\x2f\xcc\x8d\x97\x2f\xf1\x0a\x0e\x8a\x7b\x66\xa4\x80\xf2\x37\x03\x69\x4b\x7d\x8b\x6d\x63\xf0\x91\x32\xda\x31\x66\x5e\xc6\x68\x8f\xe5\x4a\x87\x46\x16\x49\x0f\xdf\x43\xf7\xd9\xe2\x55\x54\x66\x8b\x14\xea\xbb\x0b\xeb\xbf\x58\x36\xc9\xae\xf3\x80\xbf\x26\x9d\xc4\xe8\xd4\x32\x78\xb3\x5d\x24\x71\xb9\xf6\xe4\x1a\x2e\xc2\x5a\x8e\x09\xe2\x73\xd2\xb2\x63\xe1\x5c\x50\x66\xe2\x2b\x9c\x59\xb1\x82\xc5\x14\xaf\x8b\x38\xe7\xbb\x27\xae\xb4\xad\x22\x17\xfd\x13\x39\x39\xfd\x3a\xb7\x17\x67\xc2\x13\x3b\x26\x92\x65\x51\xa7\xdb\xc7\x55\x50\x5b\xb0\xf6\x71\x6d\xfe\xde\x3d\x5a\x3e\xfb\xfb\x74\xf2\x92\x19\xc0\x83\xc0\x30\x02\xf2\xee\xbf\x9b\xe7\xce\x5b\x8b\x5b\xff\x24\x70\xef\x24\x69\x04\xc8\xea\x2b\x31\x42\xb9\x1e\x6c\x9f\xd9\xd0\x56\x68\xbe\x84\x62\xfc\xca\x8b\x11\x7d\xe6\xd3\x5f\xa4\x23\xcd\x5b\x28\x1a\xc7\x00\xac\xf0\x7a\xae\xbf\x98\x2b\x16\x15\x2b\x5d\xf3\x32\x8c\xb3\x3e\xf5\x21\xd5\x19\xd3\x99\x03\x70\xf4\xe7\xa7\x75\x38\xb5\x77\x5c\x2e\x8a\x9d\xff\xdf\xbe\x5c\xb4\xe6\xae\x8b\xec\x07\xe1\xa1\x08\xb4\x46\x87\xfb\x64\x6d\xf4\xdf\xe1\xb9\xaf\x47\x70\xe0\x05\x9e\x26\x8d\x60\xf0\x12\xcf\x0e\x00\xb3\x7d\x92\x24\x02\x7b\x93\x27\xa7\x13\xec\xf0\x2f\xa6\x4e\x9e\x40\xc3\xfa\xbb\xc9\x01\x03\x90\xad\x91\x16\xd0\xce\x0a\x68\x27\x05\x34\x52\x30\xff\x30\x97\x71\x92\x3f\xf2\xb9\x57\x56\x0e\x08\xa4\xd7\xc8\xed\x77\x65\xa5\x41\x5b\xbf\xdb\xe5\x94\x03\x2c\xef\x01\x00\xd5\x38\x02\xc4\x95\x69\x5b\x38\x8b\xc8\xc8\x19\x1d\x07\x88\x49\xb5\xce\xc9\x1c\x79\x1e\xc8\x1a\xd3\x03\xcf\xcc\x4e\xa0\x29\x29\x37\xa5\x98\xc3\x43\xad\xed\xb2\xde\xbb\x31\xff\x68\x98\xb4\x6f\xbf\x6c\x1c\x94\xf6\xdf\x14\xee\x2a\xb5\x40\xd3\x7e\x64\xda\xbb\x7b\xd5\x00\xa6\xad\xbb\x3a\xcd\x9f\x7c\xd6\x65\x23\xd5\x71\x64\x75\xc6\xce\x19\x5b\x0f\x5a\xd4\x86\xaa\x47\xc4\xeb\x6f\x83\x57\xf7\x75\x65\x76\x6d\x5a\xfd\xeb\xe1\x53\xd9\x5c\x3b\x1c\x9e\x1a\xf5\xc3\x7b\x7c\xe1\x57\xeb\xdc\xa7\xd1\xa9\xff\x01\x64\x8d\xe5\xe9\x6f\x7d\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 31950, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x1b, 0x25, 0x7c, 0xb4, 0xe0, 0x8c, 0x87, 0x14, 0x6b, 0x39, 0x7c, 0x65, 0xa9, 0xc4, 0x1f, 0x31, 0x77, 0xfe, 0xc8, 0x1e, 0xf9, 0xb3, 0x2d, 0x81, 0x52, 0xf5, 0xab, 0xb3, 0xcf, 0xbe, 0x79, 0xdf}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 32111, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x8b, 0xf4, 0x2b, 0xa, 0x3, 0xb5, 0xff, 0x4e, 0x2d, 0xc7, 0xec, 0xc6, 0x2f, 0xae, 0xa1, 0x6a, 0xd2, 0xe0, 0x58, 0xe7, 0xa7, 0x6b, 0x61, 0x76, 0x7f, 0xaf, 0x96, 0xa5, 0xa8, 0xf6, 0x5d, 0x97}}
 	return a, nil
 }
 
-- 
2.43.0


From eea97048013a1474d428628d7603ea9905d1c67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:10 +0000
Subject: [PATCH 42/42] fix: refuse texts in the path or query that are not
 UTF-8

---
 gengokit/httptransport/httptransport.go              | 12 +++---------
 .../NAME-service/baron/NAME.pb.baron.go.tmpl         |  9 +++++++++
 gengokit/template/template.go                        |  6 +++---
 3 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index 2e7c66e..ebc0f44 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -400,7 +400,6 @@ func (f *Field) IsList() bool {
 // convert the string form of the field to it's correct go type.
 func createDecodeConvertFunc(f Field) (string, bool) {
 	fType := ""
-	needsErrorCheck := true
 	switch f.GoType {
 	case "uint32":
 		fType = "%s, err := strconv.ParseUint(%s, 10, 32)"
@@ -417,15 +416,14 @@ func createDecodeConvertFunc(f Field) (string, bool) {
 	case "float64":
 		fType = "%s, err := strconv.ParseFloat(%s, 64)"
 	case "string":
-		fType = "%s := %s"
-		needsErrorCheck = false
+		fType = "%s, err := validText(%s)"
 	}
 	if f.IsEnum {
 		fType = "%s, err := strconv.ParseInt(%s, 10, 32)"
 	}
 
 	if f.isScalar() {
-		return fmt.Sprintf(fType, f.LocalName, f.LocalName+"Str"), needsErrorCheck
+		return fmt.Sprintf(fType, f.LocalName, f.LocalName+"Str"), true
 	}
 
 	// Anything but scalars and lists of them is given as JSON, in the form it
@@ -445,14 +443,10 @@ func createDecodeConvertFunc(f Field) (string, bool) {
 	listTmpl := `
 var {{.LocalName}} []{{.GoType}}
 for _, v := range queryList({{.LocalName}}StrArr) {
-	` + fmt.Sprintf(fType, "converted", value)
-	if needsErrorCheck {
-		listTmpl += `
+	` + fmt.Sprintf(fType, "converted", value) + `
 	if err != nil {
 		return nil, errors.Wrapf(err, "couldn't decode {{.LocalName}} from %v", {{.LocalName}}StrArr)
-	}`
 	}
-	listTmpl += `
 	{{.LocalName}} = append({{.LocalName}}, ` + createDecodeTypeConversion(element) + `)
 }`
 	code, err := ApplyTemplate("UnmarshalList", listTmpl, f, TemplateFuncs)
diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index 33f7c89..893697b 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -21,6 +21,7 @@ import (
 	"net/url"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/go-kit/kit/endpoint"
 	anypb "google.golang.org/protobuf/types/known/anypb"
@@ -531,6 +532,14 @@ func pathVars(r *http.Request) (map[string]string, error) {
 	return vars, nil
 }
 
+// validText returns the value of a string field, which must be UTF-8.
+func validText(text string) (string, error) {
+	if !utf8.ValidString(text) {
+		return "", errors.Errorf("%q is not valid UTF-8", text)
+	}
+	return text, nil
+}
+
 // addField adds the named field of msg to the query, if it is set.
 func addField(values url.Values, msg proto.Message, name string) error {
 	text, ok, err := formatField(msg, name)
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index 09f2a3b..218ecf4 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x02\xff\xed\x5d\xeb\x73\xdc\x36\x92\xff\x3c\xf3\x57\x20\x53\xb1\x43\xfa\x46\x94\xb3\x55\x77\xb5\xa7\x94\xae\xce\x0f\x25\xf1\x6e\xfc\x58\x5b\x4e\x3e\xa8\x5c\x59\xce\x10\xa3\xe1\x8a\x43\xd2\x24\x47\xb2\x56\xd1\xff\x7e\xfd\x02\x08\x3e\x67\xc6\x49\xae\xb2\x75\xe7\x4a\xa4\x19\x12\x68\x34\x1a\x8d\xc6\xaf\x1b\x0d\xe8\xf8\x58\x3d\xcb\x22\xad\x2e\x75\xaa\x8b\xb0\xd2\x91\x5a\xdc\xaa\x45\x58\x64\x69\xa0\x9e\xbf\x56\xaf\x5e\x9f\xab\xb3\xe7\x2f\xce\x83\xe9\xf1\xb1\x7a\xab\x8b\x6d\x9a\xc6\xe9\x25\x17\x50\x37\x71\x92\xa8\xec\x5a\x17\x37\x45\x5c\x69\x55\xad\xe3\x52\xad\xe2\x44\x53\xe1\x1f\x75\x51\xc6\x59\x7a\xa2\xee\xee\x02\xf9\x7c\x7f\xef\xbc\x50\xcf\xa1\x35\xf7\x2d\x7e\x87\x12\xd3\x3c\x5c\x5e\x85\x97\x1a\xdf\xbc\xe1\x8f\xaf\xc2\x0d\xbd\x81\xca\xe7\xa6\x0d\xb5\xcc\xd2\x2a\x8c\xd3\x52\x6d\x74\xb5\xce\xa2\x52\x55\x99\xda\x84\x57\x5a\xc5\x69\x14\x5f\xc7\xd1\x36\x4c\x94\x4e\xa3\x3c\x8b\xd3\x0a\xaa\x14\xd9\x46\x95\xba\xb8\x8e\x97\xba\x9c\x23\xa5\x42\x7f\xdc\xea\xb2\x52\x61\x1a\xc1\xe7\x32\xcf\xd2\x12\xba\x70\x9b\x6b\xa2\x84\x45\xb1\x47\x19\x3c\xb4\x54\xe6\x2a\x2c\xd5\x8d\x86\x4e\xc3\x6f\x9d\x2e\x41\x6e\x45\x89\x04\x90\x5e\xa4\xe5\xfb\x2a\x2b\xa4\x22\x51\x9b\xd3\x83\x10\x25\xb5\x52\xd9\xb6\x50\xe5\x36\xcf\xb3\x02\x25\x5d\x15\x61\x5a\xe2\x67\x6c\x2e\x0e\x93\xf8\x9f\x61\x05\x82\x40\x6a\x50\x67\x13\x56\x65\x30\x9d\xc6\x1b\x2a\xe1\x4d\x27\xb3\xc5\x6d\xa5\xcb\x19\x7c\xc0\xbe\xeb\x4f\x15\x7e\x24\x36\x60\x48\x8e\xff\x51\x66\x29\x3e\x58\x6d\xe8\x79\x9c\xf1\xcf\xe3\x38\xdb\x56\x71\x82\x5f\x52\x5d\x1d\xaf\xab\x2a\x37\x9f\xb7\x05\x3d\x2e\xab\x02\xe8\x5d\xcb\x47\x20\x05\x4d\xc0\xe7\xcb\xb8\x5a\x6f\x17\xc1\x32\xdb\x1c\x5f\x66\x47\x57\x71\x75\x8c\xff\x1b\x59\x40\xe9\x30\xbd\xcd\x17\x6a\x76\x99\x65\x97\x30\xe4\x97\x59\x12\xa6\x97\x41\x56\x5c\x1e\xe7\x45\x56\x65\x8b\xed\xea\x98\xfa\x7f\x7c\x95\x66\x37\xe9\x31\x95\x86\x5a\xd1\xb6\xa0\x4e\x1e\x50\xb5\xae\x02\xf5\xf5\x26\xaf\x0e\x69\x57\xca\x43\xcd\x55\xac\x93\x68\x13\x96\x57\x07\xd4\x76\xea\x00\x05\x10\xcf\x76\x59\x1d\x50\xdd\x54\x80\xba\x55\xbc\x01\x6d\x0b\x37\xf9\x01\xd5\x9d\x3a\x40\xe1\xa6\x08\xf3\x1c\x14\xec\x00\x02\x75\x95\xee\x90\x16\x30\x79\xc3\xe3\xcd\xf6\xd3\xac\xf9\x26\xbf\xba\x3c\xd6\x45\x91\x15\xa4\x69\x23\x0d\x59\xcd\xa3\x27\x46\xfd\x46\x2a\xd0\x07\x64\xe4\xee\xee\x48\xc5\x2b\xa5\x3f\xaa\xe0\x59\x96\xae\xe2\xcb\xe0\xdc\xce\x84\x19\xcc\x94\x99\x9a\xa5\xa0\xfc\x33\x05\x93\xbe\xc1\x1b\x3e\x3d\x02\x9d\xc6\xdf\xd0\xc4\x8c\x49\x81\x4e\x62\xc1\x3d\xa8\x5e\x16\xf9\xd2\x50\xed\xf0\x49\x2f\x07\xdf\x1c\x83\x99\x09\xa3\xb0\x0a\xdb\x8d\xee\xdd\x24\x7e\xaa\x67\xfc\xc0\xfc\xb2\x05\x0c\x3b\x4e\x5b\x38\x77\x0f\x20\x20\x53\xfd\x20\x61\xe3\xa7\x03\x9a\xa0\x8a\x2e\x8f\xfe\x74\x3a\xbd\x0e\x0b\xb4\x56\x3f\xab\x53\x05\xb6\x28\x78\x97\x83\x4d\xa9\xf8\x3b\x19\x30\x60\x63\x93\x87\x85\xe6\x47\x62\x7d\x82\x27\x55\x16\xf3\x93\x46\x37\x83\x57\xfa\xe6\x1d\xda\xe2\x82\x5f\xb2\x35\x0b\x5e\x65\xf9\xb3\x04\x4c\xac\x7d\x0a\x44\xf3\x5b\xfe\xc2\xca\x1b\xfc\x04\xba\x3f\x9d\x80\x29\x95\xf1\x34\x6a\xc8\x56\x19\x8b\x92\x49\x0a\x9e\xa4\x54\xaf\x36\x32\xc1\x73\xf9\x88\x8f\xc5\x7c\x04\x67\xf8\x1b\x1f\x98\x29\x1d\xbc\xa3\x0f\xf8\xc8\x99\xa6\xc1\xb9\xf9\x8c\x2f\xea\xe9\x87\xa5\x61\xaa\xfc\x18\x26\x5b\xea\xb7\x63\x57\x82\x6f\xf1\xf3\x4b\xf8\x8c\xd2\x3b\x7e\xb4\xd7\x3f\x75\x66\x57\xb6\x47\x7b\xff\x3b\xa6\x15\xf4\x45\xaa\x42\x5e\xde\x8a\xb9\x8a\xab\xaf\x4a\xb5\x2d\xf5\x6a\x9b\xd0\x32\xb5\xda\xa6\x4b\xec\x3a\xac\x81\xeb\xb0\x52\xa9\xc6\x55\x2a\x53\x59\x4e\xd8\x40\x65\x58\x17\x3e\x1f\x99\x65\x00\x09\x2e\xc2\x32\x2e\x03\xf5\x2d\x54\xd7\x9f\xa0\xe7\x89\x9e\xab\xdb\x6c\xab\x36\xf1\xe5\xba\x52\x79\x58\xe2\x12\xe9\x30\x0c\xf4\x42\xdb\x10\xb7\x03\x63\x13\x6d\x61\x61\x46\x72\x50\x16\x35\x20\xf8\x1e\xd6\xd5\x04\x79\xbc\x01\x25\x54\x3a\x5c\xae\x65\xa5\x57\x9e\x69\xdd\x87\x77\x05\x70\xb8\xcd\x99\x68\x99\xeb\x65\xbc\x8a\x97\xd0\x68\xb5\x0e\x94\xf7\x82\xf8\x03\xc0\x00\xf4\x17\xe1\x22\xb9\x85\x32\x9b\x18\x86\x87\x50\x02\xac\xd8\x65\x7c\x99\x62\xd5\x38\xbd\xce\xae\x70\xb9\xd7\xea\x1d\x63\x04\x8b\x2a\x88\x45\x8d\x74\xea\x1e\xb0\x0e\x20\x09\x23\xc9\xc0\x87\x12\x56\xba\xcb\x24\xd6\x69\xd5\x94\x2e\xb4\xb2\xcc\x92\x44\x53\x3d\x03\x50\x80\x23\x50\x7e\x26\x07\xfd\xa8\xe1\x0a\xfc\x80\x0e\x21\xc1\x12\xd4\x26\x61\x28\xc1\xb2\x8a\x51\xc2\x1b\x4d\x92\x74\xf8\x85\x1a\xba\x58\x85\x4b\x3d\x34\x12\x48\xcc\x36\xd6\x0f\x92\xb6\xd8\x98\x6a\x5a\x10\x9c\x80\xcf\xa4\x3f\x60\x07\x16\x71\x4a\x72\xda\x08\x8b\xce\xc0\xce\x05\x4a\x55\xdb\x22\x85\xae\x63\x8f\x91\xc1\x25\x74\x53\x17\x88\x98\x42\xc3\x6c\x30\xa5\xee\x74\x04\x7a\x37\x9d\xbc\x4f\x6d\xff\x74\x04\x08\xd0\xd4\x60\x08\x28\x96\xe0\xee\x0e\x58\x04\x84\xf8\x65\xac\x4e\x4e\x95\x2d\xf3\x92\x87\x8c\xcd\xf2\x97\xb1\xd4\x31\xad\x28\xf8\x67\xba\x1a\x98\x87\x40\x8a\x0d\x17\xa3\x4b\xcb\xd1\xee\x26\x50\x81\x41\x13\xeb\x2a\xbe\x72\x1a\xf5\x96\xd5\x27\x25\x28\x0d\xcd\x2e\xfe\x9e\xa3\xc2\x3c\xba\xbb\xfb\x2e\xc3\x32\x40\x39\x78\xcb\x10\xf4\x1c\x84\x21\xf5\x7c\xe5\xb5\x4a\x30\x30\x75\x8a\xcc\xd9\xc0\xf9\x28\x2d\x83\x5b\xe9\x19\x32\xaa\x83\x9e\x9e\x23\x33\xd8\xb8\x3f\x9d\xe0\x42\x00\x25\xbf\x38\x55\x69\x9c\x20\x85\x89\x8c\x17\x7c\x25\x22\xd3\xc9\xfd\xd4\x3c\x33\xd4\x83\x9d\x3c\xf9\x73\x24\x00\x42\x34\xe2\x44\x61\xbe\xc4\x69\xe6\x4a\x94\x26\xf2\x97\x60\x46\x50\xa2\xf7\x58\xf8\x48\xb9\x52\x86\x57\x43\x82\x46\x5a\x7d\x3d\x2b\x51\xe8\x4e\x35\x57\x4d\xfc\xee\x70\xb3\xcc\xa8\x73\x48\xb6\x7f\x94\x8c\x63\x60\x67\xd4\x1d\x0e\x8b\x75\x11\x9c\xc7\x2c\xf6\x7a\x38\x80\xf6\x47\xec\x88\x50\xe8\xc8\xad\x33\xda\x50\xe5\xda\x8e\x5d\x19\xb4\x14\x88\x58\xc1\x32\xdd\x51\xeb\x0e\x1b\x8e\x9b\x79\x7a\xcd\xc3\x31\xb9\x9f\xb2\x90\x79\x4c\xdc\xb1\xc1\xc5\xf1\x49\x92\x9c\x7d\x5a\xea\xbc\xa2\x75\xaa\x64\x13\x6b\x25\x45\x2b\x14\xba\x2c\x32\x37\xeb\xc9\x4a\xc3\x48\xb6\xa9\xc7\x2f\x08\x5e\xc6\x11\x98\xed\x1b\x58\xdf\xc9\x0b\x7c\x5f\x1a\xbf\x10\x9d\xa0\x3c\x4f\x6e\xd1\xc4\xa0\xd9\xac\x90\xf8\xc6\x96\xa6\x75\x41\xc3\xb0\xdd\xda\x61\xc3\xf9\x82\x16\xa4\x34\x56\x03\xe8\xbd\xce\x71\xd5\x40\xcb\x39\x77\x0c\xd7\x12\xec\xd0\x42\xd3\x5a\x03\x66\x14\xaa\x81\x0f\x9b\xa2\xd8\x81\x26\x3c\xd7\x9f\x96\xc9\x36\x82\x37\xe4\x05\x2e\x34\xb2\xc0\x6b\x73\x14\x74\xa4\xe1\xd5\x3c\xcd\xd5\xec\x5d\x15\x56\xdb\x72\x06\x9f\xde\x40\xad\x99\x6f\xe7\xfd\x23\x67\xe2\x0f\xd5\x57\x3d\x52\x99\xd7\xdc\x04\x41\xc0\x0e\x17\x29\x4f\x9c\xca\x63\x50\x85\x4d\x98\x5f\xf0\xab\x0f\x2c\xfe\xbb\x7b\x1c\xf5\xf6\x84\xe9\xb3\x7c\x93\xc9\xcc\x51\xa3\x19\x38\xd8\xf7\x73\xa9\x2a\x30\x12\x34\x60\x82\xa3\xf1\x33\xb2\x42\xea\x4a\x24\x2d\x5b\x77\xac\x71\xf0\x3a\xbb\xc2\xd7\x86\xb1\x0b\xfd\xe9\xc3\x37\xea\x0b\x78\x48\x1a\x98\x87\x69\xbc\xf4\x6a\x84\xb7\xf2\x66\x67\x86\x84\x1d\xc1\xaf\x1e\x94\x5f\xa9\x28\x83\xd1\x4d\xb3\x0a\x9a\x80\xc5\xf7\x1b\x18\x4f\xed\x0e\xbc\xd5\x1d\x82\xf4\xc8\x94\xef\xb3\x3e\xdf\xef\x66\x34\xd2\x89\xae\xb4\x67\x78\xa4\xda\x75\x17\xe1\x71\x5d\xcf\x0a\x18\xeb\x95\xa0\xc5\xa0\xee\x58\x60\x6f\xc9\x2e\x43\x50\xe6\xa6\x74\x51\x10\xbd\x36\x17\x70\x68\xdd\x45\xaf\xb7\x88\xdf\x1c\x16\xee\x30\x4f\xcf\x1f\xc2\x05\xf4\x2b\xaa\xb5\x86\x43\x2d\x97\xba\x32\x3a\x8e\xf3\xc2\x4a\x99\x54\xfd\x66\xad\x53\xfb\x36\x73\xd4\x5a\x88\xb1\x76\xce\x79\x36\xca\x84\xd9\x72\x61\xc5\xf1\x9b\x90\x83\x40\x80\x9f\x00\xfc\xc0\x2f\x82\x63\x8e\x36\xdf\xac\x63\x10\x19\x56\x2d\xa1\xe9\x1e\x16\x64\xc5\x97\xda\x06\xef\x64\x85\xac\xf7\xdd\x5e\x91\x11\x66\x45\x9f\x77\xad\x75\x8f\x01\x9f\x0e\xf5\xeb\xb3\x6d\x58\x87\xa9\xb9\xf4\x93\x24\x5e\xe8\xa5\x8e\xaf\x19\x19\x52\x17\x81\x98\xdb\xef\x00\x20\x8d\xb6\x64\x1c\x2a\xf4\xc2\x00\x56\x6b\x1f\x90\x51\xd4\xcb\x08\x7c\xc9\x38\x21\x70\x69\xb4\x99\x82\x3e\x02\x8a\xc3\x24\xae\x6e\x83\x31\x53\xd3\xe8\xbb\x6b\x71\x0e\x96\xe8\xff\xdb\xa3\xff\x83\xf6\xa8\x51\x69\xae\x0e\x31\x4f\xfb\x07\x3c\xf6\x75\x65\xbf\x7b\xfb\xe6\x19\x23\xb6\x83\x7d\x59\x84\x85\x4e\x75\x0c\xff\x96\x35\xb8\xa8\xf1\x41\x78\x0d\xd3\x0d\x1c\x40\xcd\x6e\xc8\x25\x54\x51\x03\xce\x45\x50\x03\xce\x9a\xb2\x57\x93\x72\xdc\x9d\x2c\x67\x57\x19\xe6\x4d\x23\xb6\x13\x70\x25\x86\x2a\xfe\x50\x43\x38\xce\xa5\x53\xb0\xc4\x71\xbe\xf8\x30\x4c\x09\xf5\xa2\xef\xed\x53\x0d\xaa\xa5\x3d\xe4\xf6\xa5\xc4\xa8\xce\x33\x41\xb3\xfe\x9c\xb4\xb6\xd9\xce\x29\x02\x31\xe8\x91\xd7\x78\x6c\xfb\x03\xdd\xf1\x29\x70\x72\x77\xa7\xce\xb3\x1f\xb2\x1b\xe0\xb5\xd1\x03\x8a\x14\x09\xd4\x7c\x88\x1c\x31\x1f\x77\xe8\x76\xed\x54\x5a\x28\xee\x28\xdb\x89\x6a\xf6\xc8\x46\x7b\x3c\xd2\x64\x3b\x11\x7b\xf4\x13\xad\xc8\xe4\x39\x05\xdd\xb1\xeb\x4e\x09\x01\xda\x54\xe0\x2c\xed\x2d\x20\x6e\x13\x96\x68\x08\x01\xfa\x8e\x0f\x51\x6c\x0d\x0b\xc5\xcb\x72\xdd\xd7\xb6\x17\x6e\x71\x7e\xff\x50\x5b\x9f\x81\x17\x42\x87\xce\x6f\xee\xf9\x36\xe5\x0b\x3e\x6f\x53\xc0\x12\x55\x71\xdc\x02\x71\xd6\x24\xdc\x81\x56\xca\x61\x0f\x63\x23\x86\xab\xfd\x3b\xb9\xa7\xf3\x5c\xaa\x47\x75\x53\xbe\x72\x7d\xa5\x31\x2f\x1a\x9d\xac\xdf\xd6\x8d\xfe\x19\x89\xe6\x8e\x23\xd6\x14\x22\xcf\x33\xd4\x21\xd7\x2b\x3b\xd0\x95\xce\x3f\xd3\x8b\x16\xe1\xb2\xa2\xef\x96\x2c\xd4\x18\x9b\x13\x18\x0c\x0b\x55\x33\xc8\x1c\x70\x05\x29\xf1\x2d\x0e\x0d\x05\x9a\x30\x2c\xab\x0b\xb4\x9e\xa4\xfb\x6c\x33\x8d\x41\xa8\x35\xcc\xb8\xcb\x14\x81\x03\x40\x59\x1c\x45\xd9\x26\x04\x1f\x6c\xa4\x70\xa0\xde\x14\xf1\x26\x2c\xe2\xe4\xd6\xc4\xc7\xdc\x60\x1a\xeb\xc7\x58\x3f\xbc\x9f\xbb\x7a\x81\x7d\x81\xd7\x2d\xbf\xbd\xed\xae\xdb\xc8\x09\x79\xea\x52\x67\x1f\x4f\xdd\x8e\xe4\xc7\x91\x61\x62\x73\xb3\xd7\x30\x8d\x5a\xa6\xde\x71\xe2\x1a\xa6\xc8\xd0\x40\xed\x1e\x02\xb3\xd7\x99\xd5\x4b\x61\x5f\x31\xf0\xd5\xf7\x1a\xa7\xd1\x8e\xf4\x0d\x54\x5f\x28\x65\x6c\xa4\xca\x9c\x83\x2a\x7b\x47\xa3\x1a\x11\xac\xbe\xd1\xfa\x5e\x27\x18\x97\x9f\x72\x07\x7a\x57\xce\x7e\xdb\xb3\x89\x94\xd9\x07\x0a\x5e\x3e\xf7\xdb\x05\x90\x5f\xb4\xa0\x57\x73\x75\x5d\x03\xbd\x8d\xc5\xb0\xd7\x8d\x18\x0e\x6d\x67\x6b\x75\xa5\x6f\x69\xb8\x23\xc4\x82\x8b\xac\x42\x14\x68\x5b\x91\x8d\x60\xe5\x5d\xf9\xe2\x97\x60\x51\xf0\x4c\x12\x1c\x2f\xa1\x12\x8a\x37\x46\xf1\xda\x67\x61\x9a\x01\x12\x0e\x93\xef\x75\x18\xe9\xe2\xaf\x40\x5d\x9c\x16\x6c\xa8\xcc\x24\x8a\x5c\x89\x0f\x68\x48\x2c\x97\xda\x04\x4f\x34\x38\x47\xa0\x0b\xdc\x32\xbe\x47\x51\x9c\xda\xbe\xfe\x04\xaf\x69\x23\x83\xad\x21\xf6\xf5\xe2\xf1\x07\x7f\x67\xc1\x01\xee\xa0\x67\x35\x05\x71\x07\x64\xf8\xa0\x1a\x2d\x4f\x07\x00\x49\x0e\x55\x1f\x0c\x24\x01\x77\x38\xb5\xb9\x79\xda\xb6\x90\xd8\x93\x5a\x84\xcb\x2b\xce\x8d\x90\x39\xc3\x31\x7e\xec\x6b\xaa\xc9\x69\x0b\xd4\x0b\x32\xaf\xb2\x5b\x20\xea\x1a\x2f\x62\x74\xe6\xcc\x10\x48\x30\x1c\xa6\x5e\x14\x87\x09\x47\xcc\x93\x10\xf4\x1e\xe8\x65\x18\xc7\xa5\x42\x35\x4d\x56\xd0\x06\x77\x1e\xbe\xe6\x95\x33\xe0\x27\xa0\x7c\xe9\x08\x1a\xe5\x42\x06\x8d\x7a\x03\xd0\xc2\x9d\x72\xa2\x98\xe8\xf0\x96\x86\x73\x23\x08\xe4\x38\xae\xea\xac\x0b\x89\xd1\xd9\xdd\xb5\x48\xaf\xe2\x34\xe6\xed\x33\xdc\x09\x64\x22\xc8\x11\xb6\x56\x4e\x27\x6f\xf5\x25\x78\x5d\x00\x17\xfb\xf9\xf0\x1e\x52\x0d\x9a\xb5\x3e\x6f\xe8\xa5\x5c\x11\x21\x4b\x3b\x84\x3c\x69\xb8\x4a\x20\x85\xb1\x48\x32\xf1\xd3\x5c\xda\xad\x7b\xd4\x8d\x34\x4c\xee\x3a\x68\xd5\x71\xa6\x3a\xb0\x55\x06\x87\x66\x01\x8e\x07\x7e\x20\xc6\x83\x48\x97\x4b\xc3\x0d\xd2\x69\xbf\x12\x06\x2f\xa0\xa1\xf4\xfe\xfe\x83\x7c\xb7\x25\x07\xcc\x6b\x0d\x71\x07\xd6\x49\x07\xe2\xee\xb0\x97\xec\x91\x4f\xb2\x26\x04\xb6\x92\xf0\xc8\x81\x25\x32\x76\xd3\x5b\x4c\xa9\x99\xa8\xd6\x29\xda\xe9\x03\xa8\x23\x1a\xb5\x1e\xa1\x9e\xe0\x06\x4d\xbf\xbc\xe7\x75\x93\x93\x7b\x63\xcf\x0d\x20\x27\xb5\xe2\xf5\x92\xe6\x84\x34\xc8\x6a\x56\xc0\x88\xb3\xd9\xbc\xd2\x3a\x2f\xe1\x73\x48\x93\xb4\x10\x25\xc4\x00\xb0\x85\xe4\x4c\xa9\x46\xe4\x38\x3a\x32\xd1\x84\xe8\x73\x78\x82\x4d\x33\x7e\x95\x59\x48\xd5\x7c\x65\xf4\x5a\x8a\x7a\xfd\xb5\xe7\xea\xe7\xe6\xb2\x07\xed\xa4\xa4\x07\xa0\x54\x91\x90\x87\x9e\xe1\x70\x2a\x31\x47\xbf\x1e\xfb\x8d\x80\x0a\x03\xfe\xc6\x41\xc5\x38\x4c\xd8\x17\xfb\xc9\x02\x3e\x00\x2a\xd8\xa2\x8e\x83\xbf\x61\x50\xc1\x48\x0e\x99\xd9\x13\x55\x60\x51\x8b\x00\x11\xeb\x1c\x84\x2b\x72\xdc\x80\xe8\x02\x0b\x77\xd8\x7e\x3d\x16\x1c\x86\xec\x06\x0a\x8e\x42\xf6\x3d\xc1\xf8\x4e\x20\x38\x0a\xd9\x1b\xa3\x36\xd6\x8f\x7e\x24\xd8\xb7\xd5\x36\x0e\xd9\x0f\xd8\x5c\x1b\x87\xec\xc2\x05\x21\x94\xf2\x3c\x73\x51\x60\x6d\x4e\xda\xcb\xa8\x23\x72\xee\xf2\x08\x15\x0f\x00\x57\xa9\x2e\x3e\x98\xa0\xea\x0e\x7a\x7b\x6d\x4e\x02\x96\x7c\xb4\x0b\x81\xd2\x3a\x97\x87\x71\x51\x37\x0e\x0f\x25\x72\x79\x55\xe3\x52\x62\x8f\x90\x28\x42\x53\x13\x5e\x85\x66\x03\x46\x6d\x57\x7e\x20\xa1\x64\xff\x1b\x65\xc2\xac\x13\x26\x6c\x63\x48\xf4\x95\x51\x20\x41\x40\x0e\x15\x32\xdc\xe5\xa2\x2e\xe4\x7d\x04\xfc\x9f\xd6\x10\xfa\x2f\x60\xdd\x3d\x78\x36\xaf\x1f\xbd\xc1\x3a\x4c\x15\x03\x51\xbe\x21\xe7\x40\x42\x89\x43\xf2\x48\xee\x0b\x0e\xbf\x3f\x3f\x7f\xf3\x39\x51\x46\x4a\x99\x60\x29\xa7\xa4\x5e\xc0\xff\x0c\x37\x32\x01\xc4\xe2\x7a\x49\x79\x97\xdf\xa8\xe5\x3a\x2c\x4a\x5d\x9d\x6e\xab\xd5\xd1\x9f\x67\x36\x38\x89\xad\x4a\xc8\xa5\x46\x95\x6a\x2d\x4f\x68\xce\xee\x0e\x5a\x22\xb1\x2c\x05\x88\xa5\x09\x5c\x01\x0c\xc5\xfc\x96\xd2\x89\x54\x3a\xcd\xec\x0c\x55\x36\xd3\xab\x9a\xa1\x4a\x37\xf1\x46\xdd\xd9\xdc\xb1\x80\xe8\x93\xcf\xd4\x88\xe5\xf5\x84\x2f\x87\xa9\xd3\xf8\xf7\xbd\x96\xf8\x25\xb7\x81\x4e\x41\xd9\x08\x5f\xf6\x57\x3a\x43\xb3\xc0\xe6\x06\xba\xec\x7c\x19\xae\xf2\x64\x05\x66\xc5\x6b\xbf\xa9\x9e\xd5\x43\xeb\x39\xc3\xec\x13\xa1\x6e\x2f\xf7\x0a\x9e\x4a\x74\x8d\x02\xa5\x30\x78\x6f\x60\xb8\x60\xcc\x0a\xb0\x4b\x15\x65\x0c\xe3\xd6\x70\xb9\x0c\x73\xdc\x20\x00\xf4\x7c\x0b\x4a\x70\xab\xd6\x59\x12\x61\x4e\x1a\xe9\x52\xb8\xac\xd0\xbd\xdb\xd0\xee\xcb\xf6\x13\x22\xcc\xb7\xd9\x16\x3b\xe0\x07\xef\x4b\xcd\x9d\x8d\x90\x30\xc0\x33\x07\x74\xc9\x8e\x13\xae\x34\x03\x83\x66\x8b\x2e\x30\x07\x28\xbd\x24\xbc\xcc\xd5\x82\xa7\xfc\x48\x36\x6e\x36\xa6\x1e\xed\x17\x48\x71\xcc\xd6\x5e\xa8\x5f\xd4\x79\xf6\x1e\x73\xdb\xee\xef\x67\x7e\x40\x6c\xb8\x65\xf0\xc1\xb9\xde\xe4\x09\xa5\x74\x43\x09\xa3\x9c\x03\xb9\x7d\x04\x9b\x9b\xe1\x5e\xe1\xa8\x27\xe6\x2b\x80\x17\xbb\xe7\x34\x49\x3b\x62\x4d\x60\x2c\xd0\x19\x0b\x7e\xc7\x1b\x9b\x0d\x54\xdc\x1b\xf9\x9d\xf8\xad\x7d\x0f\xe7\xa3\x98\xa0\x8d\x49\x16\x72\xb4\x8e\x77\x50\x39\x16\x4c\xda\x68\xf6\x42\x4d\x8b\x3f\xe1\x7b\x70\xb2\xc0\x81\x84\x49\x1c\x6e\x93\x0a\xd7\x4e\x56\x37\x24\x46\x20\x14\xa6\x7f\xdb\xb2\x80\x8b\xa8\x16\x59\x44\x0e\x24\x7e\x67\x0f\x08\x3d\xf9\x19\xb5\x33\xb3\xce\xff\x35\xe5\x16\x02\x29\x7a\x1e\x10\x77\x9e\xcf\x2e\x26\x58\x17\xca\x63\x50\xc8\x2c\x92\xfa\xf7\xc7\x8f\xc1\x5f\x5d\x39\xfc\x3a\x01\x6d\x9e\x85\xc0\x2d\x31\xc6\xce\xdd\x75\x8c\xd1\x89\x35\xcf\x4f\xde\x1b\x5d\x68\xe6\x96\xb7\x90\xb1\x5c\x8d\xf0\x5c\xd2\x94\x83\x57\x53\xc7\x5e\x04\x2f\xc1\x5a\xae\x43\x4a\xef\x33\xfc\x6f\xf8\x11\x6a\x64\xb9\x5d\x2e\xb5\x8e\x4a\x76\x87\xff\xf2\xee\xf5\x2b\xc9\xb6\x8f\x4c\x6a\xbc\xdd\x87\x25\xde\x0d\x3b\xb8\x9d\x3d\xdc\x2d\x4e\xe5\xc0\xc3\x0e\xc5\xdc\x78\xe9\xb6\x67\xf5\xcb\x06\x35\x40\x26\x80\xe9\xc3\xc8\xc8\x8c\x4d\xae\x6b\x6f\xfa\x60\x8d\xcd\x0a\x9a\xab\x1b\xb6\xa9\x4d\x35\x20\x38\x83\xa3\x8a\xde\x00\x4c\x3f\x57\x24\x6c\xcc\x7e\xe2\xcc\xd1\x3b\x1a\xc5\x13\x24\x66\x06\xf4\x9e\x43\xcf\x9b\x5a\x80\xbc\x6c\x63\x11\xaf\x29\xdb\x7a\xd5\x8e\x59\x79\x9e\x52\x93\x52\xf5\x8c\x83\xdd\x96\x90\xa9\x87\xe2\xf6\xa0\xaa\x53\xec\xd4\x59\xc1\x49\x19\x4f\x2d\x39\xbb\x31\x7a\x13\xb0\xda\x80\x7d\x02\xa3\xea\xcd\xc4\xac\x1e\xa1\x2d\x9d\xcd\xdd\x05\x94\x3b\xb0\x36\x4a\xe6\xf2\xdf\x34\x0f\x46\x0f\xeb\x7e\x98\xd8\x1a\x81\xad\x1a\xc8\x18\x5a\x52\xa3\xf4\x38\x1b\xcb\xe5\xe9\xb9\x4e\x00\xcf\xe0\x43\xc1\x41\x4e\x7c\x4e\xc8\x31\xbc\x71\xea\x3c\x89\x22\xaf\x85\x6b\xf0\x3f\x9a\x43\x27\x9c\xa7\x1c\xb0\xde\xbc\x40\xc4\x9a\x86\x89\xb3\x36\x51\x27\xd1\xdf\x1b\xec\x9e\xa3\x8f\x75\x0f\x89\xf8\xa9\xc2\x88\x81\x7d\x2d\x0e\xf8\x4d\x40\xda\x23\xec\x61\x41\xdf\x3e\xf4\x70\x58\x7c\xeb\x9a\x92\x0e\xb1\x99\x2c\x3c\x8c\xca\x5c\x7c\xc0\xd4\x6b\x5f\x26\xc5\x1d\x87\x42\x6e\x94\xab\x6b\x76\x47\xc3\x28\xe4\xfb\x54\x54\x00\x29\xcc\xd5\xc3\x1b\xe0\xb2\xb5\xe3\xc1\xe0\xa8\x8c\xff\x89\x3c\xff\xf9\xeb\xff\xfc\x0f\xd6\xb5\x44\xa7\x58\xc7\x57\xff\xc5\xef\x58\x71\x80\x8d\x53\x05\x3f\x2f\x4e\xf0\xe1\x87\x66\xca\x1a\xee\xdb\x93\xdc\x56\xde\xcc\xc6\x87\x49\xd7\x70\xcb\xfe\x04\x83\x95\xb8\x63\x9f\x23\xca\x52\x69\x96\x1e\x91\x31\x34\xfe\x03\x16\x04\x25\xc3\x36\x1b\x01\x44\x49\x05\x87\x75\xc6\xbb\x61\xf2\x24\x23\x32\xb6\x6e\xdf\x1d\xa7\x9f\x4a\x29\x86\xbd\xea\xef\xd8\xca\x89\x58\xda\xbf\x8b\xdd\xc7\x51\x94\x52\x60\xa7\xcb\x55\x2c\x76\xdf\xa8\x2b\x59\x34\x67\x70\x6b\xef\x06\xa3\x65\x64\x75\xe4\x84\xd3\x3e\x19\xfc\x12\x9f\x70\x1a\xb5\xac\xb2\x75\x9d\x94\xb5\xe9\xa2\xb8\x95\x31\xd2\xf0\xcf\xc9\xdb\xb0\x9e\x80\x0d\x5f\xac\x6b\xa2\xbe\x72\xb5\x4d\x35\x33\x25\xd7\x41\xdd\xc2\x40\xed\x7a\xde\x31\x82\xa4\xaf\x0d\x12\xc2\x94\x88\x90\x43\xcb\x94\xf8\x6e\x61\x31\x8a\x90\x3c\x18\x31\xed\x18\x21\x8b\xea\x14\x9e\x4d\x79\xc9\x0e\x27\x62\x5f\x05\x72\x80\x91\x2f\x6e\xa7\x12\xfd\xbe\x59\x6b\x8a\x59\xc7\xe4\x2e\x03\x94\x3e\x81\x29\x14\x26\x21\x82\xad\x92\x21\x16\x25\x85\x60\x4e\xcc\x76\x63\x1e\xc6\x85\x82\x6f\x0b\x1e\x32\x26\x75\x5b\xad\x71\xe0\x75\x52\x52\xae\x00\x1a\xc3\xb9\x89\x71\xd2\xc2\x03\x2d\xac\xc3\x92\x59\x41\xb5\x93\x25\xc1\xe9\x91\x87\xac\x52\x3c\x14\xf0\x53\x59\xc2\x40\xcf\x39\x77\xc8\xf8\x81\x1e\x75\xd3\x24\xe9\xc0\xc4\x5f\x64\x59\xd2\xce\x25\x65\xe4\x57\x02\x96\x42\x4a\x6f\xf5\x0a\x53\xa9\xd0\x12\xb0\x44\xf0\x65\x80\x01\xa5\x22\xce\x2b\x5c\x17\xf8\x18\x01\x0c\x41\xf0\xf4\xf6\x1c\xe8\x23\x70\xf2\xb0\x59\x36\xb7\x5c\xeb\xb4\xb3\x59\x39\x83\x69\xb3\x0a\x13\x49\x21\xc6\xc9\x62\x66\xe1\x83\x92\x3a\x9a\x66\x52\xf7\xc1\x47\x28\xda\x6e\x73\x9b\x24\xd4\x90\xcf\x5d\x64\x43\x05\xcd\x7d\xb1\x01\xc8\x57\x7a\x54\xd3\x57\x0f\x1f\x2a\xfe\x88\x0f\xdf\xc0\xf4\x86\xd5\x1c\xf5\xec\x97\x5f\x98\x76\xf0\xa2\xfc\x21\x2e\xab\xe6\x93\x97\x61\xee\xf9\xfe\x00\xaf\x92\xde\x4a\x4d\xb5\x48\x40\x63\x5f\x34\x68\xe0\x13\x7e\x20\xc3\x01\x8f\x1c\x41\x70\x6a\x11\x9d\x4c\x61\xa9\x7e\x07\xcb\x17\x33\x1e\xbc\x30\x33\x17\xfa\xea\x89\x0d\xfd\x46\x7d\xc1\x85\xdd\x3c\xdc\x3a\xed\xc8\x1b\x22\x00\x22\x82\x99\x6b\x78\x97\xb5\x24\x4b\x39\x0a\xb5\x21\x1b\xe5\xf3\x03\x5a\x40\x89\xc0\xbc\xc1\x0e\xbc\x16\x8b\x8c\xee\x19\xd4\xb2\x07\xaf\xcc\xda\x2d\x58\x16\x39\x7b\x92\x24\xd9\xcd\x9b\xb0\xa8\xe2\x30\xa1\xd0\x2a\x35\x0e\x2f\xc0\x7b\x20\x95\xa2\xb0\xe5\x49\xf3\xc5\x19\x4c\x87\x57\x34\x23\xf0\x8d\x79\x71\xb6\x89\xab\xf7\x69\x9e\xe5\x5b\xc4\xf3\xd1\x89\x79\x01\xfc\xa3\xcb\x6e\xf7\xcd\x6b\xe6\x2c\x98\xa1\xee\xb8\x42\x18\xd9\x37\xef\xaa\x22\x5a\xe7\x15\x02\xa2\xb9\x9a\x2d\xb3\x6d\x12\xa5\x5f\x55\x82\x04\xad\x52\xe2\x2c\xa5\xb3\x67\xae\x06\xe2\xea\x46\x05\x4a\xd7\x04\x92\xa4\xde\x86\x37\xa2\x06\x23\x0b\x1e\x77\xeb\x21\x93\xe8\x2e\x7b\xbd\x0c\xbb\xdb\xfd\xdc\x20\x0f\x5b\x79\x81\x7c\x7d\x68\x0c\x3f\x5b\xc1\xad\x69\x8f\x0d\x21\x58\xad\x72\xc8\xf2\x51\xe2\x32\x6e\xbb\x10\x18\x46\x63\x23\x76\xa7\x49\x63\x87\xe9\x99\x2b\xc7\xf2\x38\x60\x00\x67\x11\x49\xe0\x47\xc0\xdf\x91\x28\x3a\x59\xa9\xe6\x04\x6c\x5b\x88\x8f\x68\x6c\x71\x59\x96\x01\xa0\x1a\x24\x87\x41\xeb\xd5\x51\x78\xdb\x81\x8e\x4e\xdb\xe1\x18\xd1\x6a\xa3\xa2\xcf\x63\x30\xf7\x45\xf4\x3e\xa5\x73\x8f\xae\x86\xd6\x63\xec\xb6\xe4\x8c\xb5\xf4\xb6\x91\x38\x78\xf7\xe0\xe3\x89\x7a\x50\xde\x8b\x52\x49\xcf\x60\x08\x3b\xfa\x3c\xa4\x1b\x46\x21\x3e\xcf\x5a\x53\x33\x8e\x01\x45\xc2\x1b\xd7\x2c\x50\x81\x86\x65\xb8\xe7\x35\x8b\x4b\x3e\x4b\x74\x58\xc8\x3b\x57\x2f\x6b\xdd\x5b\x66\xf9\x2d\xf3\xd0\xab\x77\xb4\xed\x17\x71\x6c\x98\xf6\x4c\x68\x09\xc5\xb8\x05\x2c\x7c\x65\xb1\x14\xed\xab\xa9\x78\x50\x78\x8e\x6f\xfa\xd4\xaf\x6c\xa5\x96\x42\x07\xc8\xd6\x42\x9d\x96\x82\x10\x89\xee\x92\xc7\x90\x9d\x34\xd9\xa2\x76\x26\x4c\x5e\x81\x91\x71\xb9\xb7\x8c\x09\x9c\xb7\x25\x3c\x89\x5c\x11\x97\x4d\xf9\xba\xe9\xd9\x08\x41\xba\xe0\xa5\x1f\xb0\xf4\x02\x07\x3a\x9f\xc6\x22\xb4\xb4\x76\xce\x5d\x54\xb4\x47\x02\x10\x04\x9f\x02\xd7\xec\x71\x66\xe0\xa7\x90\x6c\x5a\x38\xc4\x1a\x45\x9c\x06\x66\xd5\xc3\xe5\x18\xd3\x66\x61\xb1\x25\x7b\x00\x8f\x67\x33\x16\x81\xae\xcf\x4f\x9a\x59\x9e\x37\x82\x57\x8a\x27\x3d\x1d\x8b\x9c\xb5\x16\x7d\xed\xce\x03\xe4\x14\x89\x99\x97\xb6\xa5\x60\xd6\x68\x38\x80\xef\xce\xbc\x91\x13\xe8\x01\x6e\xc9\xe0\x0c\xe3\xee\x41\x25\xf8\xf1\xe0\x4f\x67\xf0\xeb\xe8\xeb\x86\x4a\x6f\x8b\x84\xc2\x4d\x67\x14\x4f\x63\xa3\xe5\x0c\xd3\x8f\x08\x01\xdd\x51\xda\xa6\x12\x79\x53\x79\x2b\x2a\x87\xd1\x17\xbb\xbb\x50\x0f\x0e\x52\xf0\x40\xf2\xe2\xc7\xd3\x6b\xc0\x70\xcd\x94\x68\x33\x40\x02\xde\xae\xb1\xd5\x4e\xde\x34\xfc\xba\x93\x14\x62\xb6\x2a\xe4\x78\x3a\x79\x22\x5b\x8c\xbc\x63\x6b\x3c\x18\x75\x30\x01\xad\x97\xf4\xf3\xbd\xf0\xef\x51\xe5\x3d\x4e\x07\x59\x98\x7e\xd7\xb3\xaa\x76\x06\xd7\x8c\xe9\xdc\x75\x6f\x9f\x86\x91\x89\xab\x21\x4d\x71\x85\xa9\x97\xbc\xb8\xc1\x40\x23\xb3\xee\xb8\xe0\x4b\x77\xb1\x0b\xa3\x88\xa7\x0c\x7c\x18\x9c\x2f\x12\x47\x22\x68\x3f\xc7\xc8\xb3\xc5\xf3\x32\x20\x86\x8a\x27\x3e\x3b\x4a\x85\xb7\x5e\xe6\x6a\x17\xec\xb6\xcb\x9d\x33\x65\x58\xb6\x63\x93\x66\xd4\xba\xa3\xa9\xbe\x92\x2d\x17\x64\x82\x42\x06\xce\x8a\xd1\x6f\x7b\x99\x21\x84\xab\x0d\xcd\xa4\x5e\xbb\x0a\x49\x47\xa6\x54\x82\xe5\xf8\x0c\x03\xcd\x0c\xf5\x44\xce\x84\xd6\xa4\xcc\x89\x05\x84\x48\x18\xb9\xc2\x03\xae\x29\x55\xdf\x64\x05\x6d\xfb\x5e\xc6\xd7\xf0\x44\x1c\x1a\x91\x65\xcd\x86\x47\x6d\xd4\x1b\x55\xe6\x93\x60\x03\x74\xe7\xb1\x04\xc1\xe6\xaf\xc9\x7c\xe0\xd7\x8b\xc7\x1f\xd8\x74\xe0\x7c\x36\xdc\x3d\x93\x5b\x39\x9e\xa4\xb7\xa6\x10\xa8\xd9\xfc\x62\x26\x48\x02\xc8\x35\x30\x63\x23\xf4\x45\x8d\xf0\x8a\x7a\xda\xd5\x66\xc3\xd5\x9d\xa0\x2b\xa4\xe3\xd7\x61\x19\x29\x85\x34\x44\xce\x24\xd0\x8e\x98\xb5\x89\x07\xd2\x7c\xa7\x9e\x8b\x99\x16\xb5\xb3\xb2\x2a\x74\xae\x11\xf0\xb2\x2d\x31\xc3\x42\x97\x80\x64\x29\xa6\xe9\x6c\x36\xb8\x6d\x83\xaf\xf0\xf4\x2e\xcf\xe6\xac\x30\xef\x09\xaa\x85\x45\x11\x1a\x1f\xd1\xf2\x63\xb4\x77\x54\xe2\x5c\xc6\x47\xed\xfb\xda\xd5\x3d\x7e\x6e\xd4\x8f\xbf\xd5\x43\xd1\xcc\x43\xb5\x60\xd8\x76\xfa\xe2\x00\x14\x2c\xc8\xc8\x36\x01\x46\xe1\xa1\x21\xd4\x1c\x26\x50\x09\xdb\x82\x33\x5b\x48\xb8\x64\x06\xaf\xb4\x77\x61\xed\x24\xf6\xce\xd2\xf1\x25\xac\x17\xcf\x0d\x09\xe7\x64\x85\xa1\x69\x36\x29\xfb\xf9\x94\x62\xc0\x1d\x69\x5c\xfc\xa1\x8b\xca\x98\x17\x78\xc5\x37\x0e\xa0\xfa\x48\x2d\x37\xb8\xd7\xd0\xa1\x0e\x9c\x2f\x01\x1f\x26\x71\x55\xcb\x03\x15\x7b\x66\x16\x9b\x81\x3c\xdd\x9d\xfb\x31\x4e\xfa\xd2\x8e\x0d\x19\x9b\xde\x31\xba\xf3\xd1\x4e\x17\x20\x33\xde\x9f\xe1\x4b\x24\xf9\xda\x1a\xac\x83\xfa\x7a\x24\x71\x76\x37\x13\xa0\xde\xd4\x29\x70\xa7\xbf\x95\x3c\x40\x9e\x09\x85\xbf\x80\x2b\xf3\x94\x28\x53\x74\x64\x47\x02\xe9\xc4\x49\xf6\x18\xed\x56\x6f\xf6\x40\x67\x51\x1e\xc8\x1c\x98\x44\x7a\x85\x1b\xb0\x01\x46\xac\x03\xba\x38\xc2\xf3\x65\x9f\x1c\xb3\x0a\xea\x44\x82\x56\x5f\x9d\xac\x02\xd9\x3b\xa3\xfd\x50\x5b\x0c\xe9\x31\xca\xa4\xd7\x14\x27\x15\x1d\x95\x8b\x2a\xde\xea\x30\x02\xa7\xc5\xe3\xb6\xf7\x3b\xcc\xdb\x71\x7d\x39\xf6\x59\xe0\x3e\x84\xd9\x0b\xc2\x8e\x1b\x69\xcf\x04\x9e\xb6\x42\xaf\x8f\x99\x38\x76\x92\x6a\xed\xdd\xcb\x03\x7d\xb2\x61\xaf\x6c\xd0\x2f\x63\x76\x8d\x28\x06\x5d\x33\x8e\x3b\x53\x68\xbb\x67\x46\xf7\x05\x9f\x87\xc3\xcf\xbd\x01\x68\xe1\x63\x7f\xbc\xe4\x06\x9c\x0f\x8d\x4c\xb3\x44\x26\xfd\xb8\x8a\xdf\x21\x03\x35\x5b\xf7\x9c\x4c\x68\x5d\xac\x87\x94\xc8\x42\xf2\xb0\xf6\xc5\xf8\x44\xbd\x2a\x39\xa7\xd3\x61\x29\x1f\xf3\x92\x84\x09\xa3\x2b\xf5\xbe\xe6\x14\x73\x3a\xaa\xf5\x1b\x5c\xe1\x4a\xab\xbf\x35\xf4\x3d\xe8\x04\x3a\xe6\x6b\xd6\xd4\x90\x36\xad\x7a\x2d\xe2\x0c\x66\x41\x60\x7f\xc3\x97\x30\x39\xde\xbf\xfd\x01\xd7\x24\xfa\xfa\xb9\x98\xb6\x39\x5b\x78\x3c\x6a\x5c\x25\x51\xe5\xe6\xbc\xd9\x07\xe5\x62\x8f\x9c\x3e\x4c\xdd\x2d\x74\xeb\x79\x5a\xf1\x3b\xd6\x80\xef\x06\x4a\x4d\xb1\xe0\x87\x8c\xf7\x75\xd5\x8c\x94\x82\xcb\x60\x26\x24\xbf\xfe\x4e\xa7\xd4\x7d\xab\xfe\xb8\xb9\xde\x48\xbb\x74\xf2\x2e\xc7\x58\x78\x9d\xea\x6c\xd5\xe1\x03\xcc\x5c\x87\x0f\xea\xd6\xaf\x61\xc4\x8e\x0a\xab\xa6\x81\xc5\x26\xfd\xe1\xa8\x75\xeb\xc0\xe0\x7e\x7c\xef\xa2\x35\x74\xdc\x81\x97\xa8\xd2\x6c\x4e\xdb\xdd\x22\x41\xb7\xed\xcd\x68\xde\x9a\x2f\x0e\x38\xca\xd0\xc3\x60\xdf\xf2\xd3\xbb\xb5\x3b\x74\xba\xc1\x3a\x1f\x7f\xb4\x08\xae\xbb\x66\xf5\x04\x70\xeb\x53\x17\x0d\xd7\xca\xdf\xc7\x3b\xfa\x79\x2e\xe6\xdd\x6e\x52\xd2\xfe\x9c\x53\xca\x3d\x8d\x51\xdf\x3d\x24\x5b\x4c\x7d\x09\x41\x03\x27\xc2\xda\x40\x60\xe8\x58\x46\x0d\x2d\x0b\x67\x93\x6a\xf4\x20\x06\x19\x8c\xce\x21\x0c\x8c\xe4\xac\xc3\x88\xeb\x0e\x1d\xbb\xa0\x64\xff\x08\x53\xb7\x62\xf6\x31\xec\x51\x59\xe7\x1a\x41\x4c\x44\x20\x2a\x06\x64\x1a\xdc\x65\x4f\x7b\xa0\x32\x63\xea\x60\xe7\x4c\x48\xe3\x58\x07\x13\x69\x9e\xed\x18\x3d\xd5\xb1\xeb\x50\x87\x91\x10\x85\xc1\xae\x08\xa7\x8f\x56\x69\xf1\x4f\xc7\x3a\xba\x34\xd0\x78\xa1\xb8\xb7\x60\x17\xed\x75\x4d\xcb\x35\x8e\x49\x40\x6f\xc2\xa4\xcc\x70\x08\x64\x0e\xf3\x2a\x0a\xeb\xc5\x74\xbc\x75\xb3\x32\x1f\xe1\xa5\x86\xd8\x30\xae\x28\x18\x2f\xf1\x77\x55\xb4\xa3\x82\x21\x26\xd4\x39\x34\x22\x33\xff\xb3\x4f\xa1\x20\x89\xcf\x3f\x85\xe2\xd4\xae\xf3\x05\x7b\x0e\xa1\xa4\x8c\xb7\xd9\x7a\x81\xc3\x72\x4d\xd7\xaa\x54\x22\xb5\x4d\x56\x51\x78\x00\xb3\x57\xc2\x14\xef\x84\xfa\x09\xcf\xa9\xe7\x7c\xfb\x14\x3f\xe3\x1b\xa9\x00\x3d\x10\x82\xaf\x1b\x89\x00\xb2\x65\x74\x0f\x4b\x79\x5b\x56\x7a\x33\x47\xe5\x02\x5a\x49\x7c\xa5\x13\xbb\x8e\x52\x48\x73\xb6\xce\xca\xea\x84\x64\x57\x9f\x54\xa9\x7b\xe0\xd9\xa6\xec\x5e\xe7\x50\x1a\xe2\xe1\x67\x54\x70\xcf\xa2\x1d\x74\xb0\x0d\xc2\x48\x9e\x1c\x1f\x4b\x4c\xd3\x72\x01\x0e\x32\xb6\x8a\x6f\xd4\xbf\x59\x39\x90\xa9\xda\x76\xa1\x89\x25\xb6\xf7\x59\x4f\x44\x0a\xdb\xa9\xdc\x09\x88\x18\xa4\xc7\xe5\x93\xf3\x0f\x7c\x59\xc1\xec\x55\xc6\xc3\xe8\x64\x6a\xf2\xf5\x1c\xac\x01\x94\x89\x84\x84\x6e\xb2\x02\x66\x24\x67\x7f\x2a\x59\xe7\x29\x94\x7c\x8b\x17\x8a\x92\x65\x76\x0e\xde\xcc\xfc\x69\x03\xde\x1d\x94\x1c\x48\xfe\x4d\xcb\xfb\x14\xa6\xf1\x2d\x1f\xc0\x71\x3c\x55\xf8\xa4\x3f\x75\x6b\x3c\x36\x75\xc8\xff\xe8\xba\x75\x63\x07\x6f\xb0\x25\xc6\xc3\x23\xf5\x7a\xee\x09\x74\x8e\xe0\xc8\xb5\x13\x83\x39\x8b\x82\xb7\x09\x5d\x83\xa5\xf0\xb6\x0c\x95\x2d\x88\x0e\x61\x89\x05\xe3\x81\xb9\x8b\xa6\x68\x8d\x0d\x76\x64\x1d\xb6\x12\x14\x1b\x89\x8c\xcd\x04\xc4\xf6\x99\x9b\x49\xfb\xd8\x8d\x71\x02\xdc\x7b\x18\x7a\x73\x13\xc7\x4f\xe2\x8c\x8e\xbb\x3d\x91\xf3\x9b\x8f\xfc\x50\x16\x27\x81\x99\xe1\xa1\x9d\xb7\xb1\x66\x5f\x2e\x66\x7d\x0c\xc8\x6e\x44\xe1\x38\x2e\xf0\x4a\x8c\x47\x38\x87\xe1\xdb\x9c\x43\xfc\x26\xc6\x66\x1e\xd3\x91\x1b\x44\x05\xd0\x87\x47\x58\x81\xbf\xd2\x6a\x21\xde\x4b\x7d\xbd\x01\xbe\x11\x98\xf2\xac\xfa\x64\xb2\xfc\xdf\x21\xba\x5d\xd2\x05\x18\xdb\x42\xd2\x7f\x08\x28\xc8\xc4\x85\xe9\x08\x50\x2b\xe1\x83\x73\xbc\xca\x81\xdd\xa6\x7c\xfb\x6c\x8b\x0b\xb7\x01\xaf\xb2\x28\x71\x92\x26\x2f\x7a\x1b\x03\x60\x5d\x57\x05\x91\x82\xa4\xd0\x04\x4a\xbd\xca\x2a\xb9\x0c\x10\x49\x22\x2d\xb2\x14\xeb\xf0\x1a\x3c\x50\xb9\xe4\x77\x1c\x90\x50\x3b\x0b\x4a\xbc\x96\xfb\xb0\xe8\x4a\x1f\xb4\xfb\x86\x35\xbc\x5a\x51\x92\x33\x43\x73\xb0\x91\xcd\x3e\xed\x05\xda\x14\x50\x7b\xb5\x86\x73\x5b\x17\x9e\x67\x94\xe5\x56\x4e\x49\x34\x65\xc7\x27\x23\x9c\x4d\xc1\xe1\xd5\xc0\xcd\x22\xea\x29\x24\xc9\xe3\x23\xb7\xb9\xed\x81\x0d\x7f\xb3\xb3\x11\x16\xef\xe0\x3e\x62\x3b\x75\xb0\x79\x84\x81\xe2\x86\x84\x7e\x71\x01\x18\x38\xe9\xb5\xd3\x60\xb7\x63\x82\xbd\xc6\x66\x34\x24\xd8\xf6\xae\x24\x1e\xc8\x58\xac\x1d\x13\x34\x01\x24\x69\xc6\x3d\x23\xe5\x9e\x2c\x6f\xc7\x04\x9d\x74\x3e\x06\x79\x92\xa2\x6b\xdf\xac\xe9\x5a\x16\x0c\x9e\xfc\xe9\xf1\x63\x37\x57\x19\xbc\x2c\x49\xc8\x25\x6f\x2a\x07\x11\x32\x9b\x58\x21\x25\x5a\xec\x59\xd1\x04\xaa\x2a\xdc\x97\xa4\xd3\xb5\xd4\x0b\x77\xfe\x49\x52\x24\x80\x68\x72\x60\x6a\x1e\x0d\x13\x3b\x63\x96\xe6\xa4\x53\x4f\xcc\xb2\x57\xec\xe3\x21\x4b\x2e\x73\x78\xcc\xf2\x90\x18\xe3\x29\xdd\x8c\x7b\xf6\xfa\xdb\xc1\x30\x23\x26\x61\xd4\xf9\x96\x64\x71\x28\xb4\xc5\xfb\xbb\x4e\x5c\x71\xcf\x90\x65\x4f\xc4\xd2\x12\x9d\xf9\xce\xd1\xa0\xc2\xc9\x6f\x45\xc2\x4e\x1c\xe6\xf5\x5f\x77\x47\x45\x1b\xd9\xad\xe0\x68\xcc\x1c\x9d\x39\x51\x5f\x3d\x88\xbe\x22\x27\xa0\x6e\xc3\xb6\xcd\x31\xdf\x32\xdf\xa5\xcd\xd3\x83\xc3\xa0\x83\x51\xd0\xa1\x20\xa8\x23\xda\x1d\x21\x50\x64\xb8\x27\x04\xda\x91\x90\x2b\x94\xd6\xc1\xa9\x87\xf5\x5d\x08\x93\xd6\x65\x08\x8e\x01\x6a\x9f\x59\xdc\x63\xfb\x62\xf7\xe6\x05\x03\x82\x46\xfc\xe7\xb0\xed\x8b\xce\x69\xc7\xa9\xf5\x75\x25\x18\x04\x75\xf6\xde\xb1\xa0\x8b\x6b\xf9\xc4\x44\x01\x33\xa8\x54\xd8\x10\xb9\x25\xb0\x2e\x4f\x64\xf5\x6b\x2c\xbe\x1e\x62\x82\xb9\xd9\x1f\x44\x53\x43\x31\x69\x63\x0a\xf6\xe8\xd6\x1e\xdb\x17\x03\xa7\x21\x6d\xe0\x68\xec\xfc\xe3\x58\x40\xdf\x97\x18\x26\xd4\x23\x75\x70\x97\xa8\x41\xe7\xb7\x5d\x6e\xd8\xbb\xe6\xb8\xc3\x3b\xcd\xae\x67\x2b\xa7\x42\xe6\x9b\xcd\x6c\x95\x50\x33\xe5\xea\x88\xef\x46\x47\x00\xed\xd6\x6e\xf3\xea\xb3\x92\x6f\x41\x68\x44\x37\xb1\xd5\x77\xfc\xdc\x86\x37\x4d\xc1\xfb\xf6\xd5\x72\x08\x13\x67\xc7\xb3\xf1\x88\x72\x1d\xbc\xee\xf3\x02\x73\x8e\x21\x8c\xd7\x1f\x4c\x56\xb4\xb3\x9a\x25\x43\xf9\x15\x86\x22\x41\x02\x13\xf9\x16\xf0\xb9\x35\x9f\xed\x3b\xfb\x82\x9e\x36\xa5\xdd\xce\x18\xb0\x79\x08\xa4\x27\x54\x9d\x03\xec\x7e\x53\xae\x43\x61\x6b\x55\xdf\xa8\xb0\x5f\xc4\x98\xca\xe1\x7c\xf8\xd2\x4d\xc2\x55\x5e\x5d\xf5\xbb\x8c\xce\x4c\xca\x5f\x96\x98\xf9\xd6\x29\xa4\x3d\xd4\x99\x0d\x3a\xff\xcd\x46\xd8\xe5\x56\xba\x7a\xa7\x96\x76\xcc\x41\x01\x03\x5b\xf8\x19\x14\x49\xea\x2b\x74\x65\xc8\x31\xfd\x0d\x5d\x18\x97\x15\x69\xae\x7b\xe6\x63\x88\x9e\xd9\x2c\x72\xf2\x39\x46\x98\x9c\xab\x66\xda\xe0\x9d\xdb\x3e\x86\x62\xef\xef\x1f\x44\x60\x6b\x81\x35\xf8\x74\x2d\x56\x77\x86\xc0\xd0\xf1\xee\x2c\xfb\xc2\x6d\xbd\xd1\xdd\x4a\x77\x99\xf3\x51\xe6\x11\x86\xfa\xf6\xc9\x9a\x7a\xde\x68\x53\x8e\x28\xb6\xbe\xb5\xbd\x4d\xd1\x9a\x0c\xf7\x15\x86\x76\x1a\xba\xaa\x43\xc5\xc7\x54\xc7\x90\xcd\xed\x1c\xe7\x2a\xe6\xa4\xe5\x01\xd2\x60\x1a\xbf\xbb\x38\xdc\x09\x4b\x6d\x81\x8e\x8a\xa2\xf0\x1a\x40\x67\x31\x77\xed\x12\x3b\x13\x98\xb0\x56\xc7\x5c\x1e\xb6\x5b\xeb\x6e\x10\xf2\x99\x32\x10\xcb\xaf\xdb\x1f\xb4\xfb\x3e\xbb\xb6\x28\x86\xf7\x28\x86\x37\x29\x86\x77\x29\x06\xb7\x29\x68\x8c\xfa\x52\xcd\x9d\x8d\x0a\xde\x26\xfe\x6c\x43\x2d\x59\xe5\x24\x7a\xc9\x28\x57\x0f\xae\x67\x66\xfb\xd9\x9a\xeb\xa7\x7c\xfc\xad\xfd\x67\x28\x3c\xfe\xcb\x16\x00\xa7\x9f\x6e\x57\x80\xdb\x39\x39\xc9\x39\x4a\xaa\xdc\xdd\x32\x93\x99\xd3\xbd\x9b\x7b\xe7\xed\x9a\xf6\x4f\x75\xec\x1b\x8e\x7e\xf5\xe4\xfc\xdd\x67\xde\xae\x49\xd5\xb0\xbe\x62\x27\xde\x7e\x97\x2b\x88\xe8\xaf\xb0\xf0\xe5\x43\x65\x71\xcd\xdf\xed\xd5\xeb\x02\x5b\xba\xb7\xbe\x4f\xf6\xbb\xf6\xbd\x7d\xf7\xce\xbb\xed\xc2\x8e\x3e\x36\x8f\x93\x7d\xab\xe1\x29\x26\xfc\x2e\xf8\x4a\xd3\xce\x45\xf0\x41\xf3\x9e\xd3\xde\x32\x33\xe2\x3e\xe8\xdc\xf7\xf7\xb2\xbc\xa4\x7e\xfa\xfb\xa2\x07\x02\x59\x6d\x9e\x9d\x9b\x6b\x9c\xc1\x6f\xfe\xd5\x01\x3c\xc1\xef\x0c\xd3\xbe\xb7\x98\xd2\xc8\xec\xbe\xc5\xb4\xa6\xbc\xf3\x6a\x80\xc6\x5f\x7f\x09\xac\x6c\xed\xf5\x00\xce\x08\x0f\xdc\x5e\x3a\x4e\x41\xf6\xda\x3e\xe7\x12\xd3\xc9\x10\xe5\xc6\x45\x00\xfc\x1b\x7b\xcc\x07\xd3\x7e\xf7\xdb\x4f\x6b\x81\xec\x77\xfb\x69\xe3\xea\xd3\x66\x97\xf0\x30\xbc\xed\xd5\x41\xd7\x9f\x62\x7f\x07\xee\x86\xb2\x4e\x57\xa7\x8c\x13\x87\xae\x4b\xf4\x1d\x93\x3f\xe0\x7e\x54\x47\x3d\x7e\xd5\xfd\xa8\x0e\x1d\x7b\xda\xf1\xa0\xbf\xf9\x01\xcb\xcd\xa3\x21\x85\xe9\x5c\x7d\x7a\xe0\x0d\x9b\x4e\xf4\x87\x85\xda\xba\xe6\xa6\xff\xda\x96\xf2\x52\xec\x25\x98\x95\xe1\xa0\x4f\x37\x21\xad\xef\x66\x9b\x3f\xc0\xa1\x19\x3c\xda\xf3\x9c\x0f\x49\xe1\x6d\xa8\xdf\x1c\x70\x15\xea\xc3\xbd\x6e\xd0\x9c\x36\x34\x77\x47\xba\x08\x09\x76\x8f\x74\x11\x4a\x0f\xc9\x16\xff\xc0\x6d\x50\x89\x01\x94\x56\x2f\xcc\x8d\x97\x2f\xf1\x0a\x0e\x8a\x7b\x66\xa4\x80\xf2\x37\x03\x69\x4b\x7d\x8b\x6d\x63\xf0\x91\x32\xda\x31\x66\x5e\xc6\x68\x8f\xe5\x4a\x87\x46\x16\x49\x0f\xdf\x43\xf7\xd9\xe2\x55\x54\x66\x8b\x14\xea\xbb\x0b\xeb\xbf\x58\x36\xc9\xae\xf3\x80\xbf\x26\x9d\xc4\xe8\xd4\x32\x78\xb3\x5d\x24\x71\xb9\xf6\xe4\x1a\x2e\xc2\x5a\x8e\x09\xe2\x73\xd2\xb2\x63\xe1\x5c\x50\x66\xe2\x2b\x9c\x59\xb1\x82\xc5\x14\xaf\x8b\x38\xe7\xbb\x27\xae\xb4\xad\x22\x17\xfd\x13\x39\x39\xfd\x3a\xb7\x17\x67\xc2\x13\x3b\x26\x92\x65\x51\xa7\xdb\xc7\x55\x50\x5b\xb0\xf6\x71\x6d\xfe\xde\x3d\x5a\x3e\xfb\xfb\x74\xf2\x92\x19\xc0\x83\xc0\x30\x02\xf2\xee\xbf\x9b\xe7\xce\x5b\x8b\x5b\xff\x24\x70\xef\x24\x69\x04\xc8\xea\x2b\x31\x42\xb9\x1e\x6c\x9f\xd9\xd0\x56\x68\xbe\x84\x62\xfc\xca\x8b\x11\x7d\xe6\xd3\x5f\xa4\x23\xcd\x5b\x28\x1a\xc7\x00\xac\xf0\x7a\xae\xbf\x98\x2b\x16\x15\x2b\x5d\xf3\x32\x8c\xb3\x3e\xf5\x21\xd5\x19\xd3\x99\x03\x70\xf4\xe7\xa7\x75\x38\xb5\x77\x5c\x2e\x8a\x9d\xff\xdf\xbe\x5c\xb4\xe6\xae\x8b\xec\x07\xe1\xa1\x08\xb4\x46\x87\xfb\x64\x6d\xf4\xdf\xe1\xb9\xaf\x47\x70\xe0\x05\x9e\x26\x8d\x60\xf0\x12\xcf\x0e\x00\xb3\x7d\x92\x24\x02\x7b\x93\x27\xa7\x13\xec\xf0\x2f\xa6\x4e\x9e\x40\xc3\xfa\xbb\xc9\x01\x03\x90\xad\x91\x16\xd0\xce\x0a\x68\x27\x05\x34\x52\x30\xff\x30\x97\x71\x92\x3f\xf2\xb9\x57\x56\x0e\x08\xa4\xd7\xc8\xed\x77\x65\xa5\x41\x5b\xbf\xdb\xe5\x94\x03\x2c\xef\x01\x00\xd5\x38\x02\xc4\x95\x69\x5b\x38\x8b\xc8\xc8\x19\x1d\x07\x88\x49\xb5\xce\xc9\x1c\x79\x1e\xc8\x1a\xd3\x03\xcf\xcc\x4e\xa0\x29\x29\x37\xa5\x98\xc3\x43\xad\xed\xb2\xde\xbb\x31\xff\x68\x98\xb4\x6f\xbf\x6c\x1c\x94\xf6\xdf\x14\xee\x2a\xb5\x40\xd3\x7e\x64\xda\xbb\x7b\xd5\x00\xa6\xad\xbb\x3a\xcd\x9f\x7c\xd6\x65\x23\xd5\x71\x64\x75\xc6\xce\x19\x5b\x0f\x5a\xd4\x86\xaa\x47\xc4\xeb\x6f\x83\x57\xf7\x75\x65\x76\x6d\x5a\xfd\xeb\xe1\x53\xd9\x5c\x3b\x1c\x9e\x1a\xf5\xc3\x7b\x7c\xe1\x57\xeb\xdc\xa7\xd1\xa9\xff\x01\x64\x8d\xe5\xe9\x6f\x7d\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x02\xff\xed\x5d\xeb\x73\x1b\x37\x92\xff\x4c\xfe\x15\x08\x2b\x76\x66\x7c\xd4\xc8\xd9\xaa\xbb\xda\x53\x4a\x57\xe7\x87\x92\x78\x37\x7e\xac\x2d\x27\x1f\x54\xae\x64\xc8\x01\xc5\x59\x0d\x67\xe8\x79\x48\xd6\x6a\xf5\xbf\x5f\xbf\x80\xc1\x3c\x49\x3a\xc9\x55\xb6\xee\x52\xbb\x16\x39\x03\x34\x1a\x8d\x46\xe3\xd7\x8d\x06\x78\x7c\xac\x9e\x65\x91\x56\x97\x3a\xd5\x79\x58\xea\x48\x2d\x6e\xd5\x22\xcc\xb3\x34\x50\xcf\x5f\xab\x57\xaf\xcf\xd5\xd9\xf3\x17\xe7\xc1\xf4\xf8\x58\xbd\xd5\x79\x95\xa6\x71\x7a\xc9\x05\xd4\x4d\x9c\x24\x2a\xbb\xd6\xf9\x4d\x1e\x97\x5a\x95\xeb\xb8\x50\xab\x38\xd1\x54\xf8\x47\x9d\x17\x71\x96\x9e\xa8\xbb\xbb\x40\x3e\xdf\xdf\x3b\x2f\xd4\x73\x68\xcd\x7d\x8b\xdf\xa1\xc4\x74\x1b\x2e\xaf\xc2\x4b\x8d\x6f\xde\xf0\xc7\x57\xe1\x86\xde\x40\xe5\x73\xd3\x86\x5a\x66\x69\x19\xc6\x69\xa1\x36\xba\x5c\x67\x51\xa1\xca\x4c\x6d\xc2\x2b\xad\xe2\x34\x8a\xaf\xe3\xa8\x0a\x13\xa5\xd3\x68\x9b\xc5\x69\x09\x55\xf2\x6c\xa3\x0a\x9d\x5f\xc7\x4b\x5d\xcc\x91\x52\xae\x3f\x56\xba\x28\x55\x98\x46\xf0\xb9\xd8\x66\x69\x01\x5d\xb8\xdd\x6a\xa2\x84\x45\xb1\x47\x19\x3c\xb4\x54\xe6\x2a\x2c\xd4\x8d\x86\x4e\xc3\x5f\x9d\x2e\x41\x6e\x79\x81\x04\x90\x5e\xa4\xe5\xfb\x2a\xcb\xa5\x22\x51\x9b\xd3\x83\x10\x25\xb5\x52\x59\x95\xab\xa2\xda\x6e\xb3\x1c\x25\x5d\xe6\x61\x5a\xe0\x67\x6c\x2e\x0e\x93\xf8\x1f\x61\x09\x82\x40\x6a\x50\x67\x13\x96\x45\x30\x9d\xc6\x1b\x2a\xe1\x4d\x27\xb3\xc5\x6d\xa9\x8b\x19\x7c\xc0\xbe\xeb\x4f\x25\x7e\x24\x36\x60\x48\x8e\xff\x5e\x64\x29\x3e\x58\x6d\xe8\x79\x9c\xf1\xbf\xc7\x71\x56\x95\x71\x82\x5f\x52\x5d\x1e\xaf\xcb\x72\x6b\x3e\x57\x39\x3d\x2e\xca\x1c\xe8\x5d\xcb\x47\x20\x45\x4d\x54\x69\x8c\xfd\x39\xae\xca\xd5\x9f\x67\x53\x78\x70\x19\x97\xeb\x6a\x11\x2c\xb3\xcd\xf1\x65\x76\x74\x15\x97\xc7\xf8\x7f\x23\x1b\xa8\x12\xa6\xb7\xdb\x85\x9a\x5d\x66\xd9\x25\xa8\xc0\x65\x96\x84\xe9\x65\x90\xe5\x97\xc7\xdb\x3c\x2b\xb3\x45\xb5\x3a\x26\x79\x1c\x5f\xa5\xd9\x4d\x7a\x4c\xa5\xa1\x56\x54\xe5\xd4\xe9\x03\xaa\xd6\x55\xa0\xbe\xde\x6c\xcb\x43\xda\x95\xf2\x50\x73\x15\xeb\x24\xda\x84\xc5\xd5\x01\xb5\x9d\x3a\x40\x01\xc4\x55\x2d\xcb\x03\xaa\x9b\x0a\x50\xb7\x8c\x37\xa0\x7d\xe1\x66\x7b\x40\x75\xa7\x0e\x50\xb8\xc9\xc3\xed\x16\x14\xee\x00\x02\x75\x95\xee\x90\xe6\x30\x99\xc3\xe3\x4d\xf5\x69\xd6\x7c\xb3\xbd\xba\x3c\xd6\x79\x9e\xe5\xa4\x16\x23\x0d\x59\x4d\xa4\x27\x46\x1d\x47\x2a\xd0\x07\x64\xe4\xee\xee\x48\xc5\x2b\xa5\x3f\xaa\xe0\x59\x96\xae\xe2\xcb\xe0\xdc\xce\x8c\x19\xcc\x9c\x99\x9a\xa5\x30\x19\x66\x0a\x8c\x40\x83\x37\x7c\x7a\x04\x3a\x8e\x7f\xa1\x89\x19\x93\x02\x9d\xc4\x82\x7b\x50\xbd\xcc\xb7\x4b\x43\xb5\xc3\x27\xbd\x1c\x7c\x73\x0c\x66\x27\x8c\xc2\x32\x6c\x37\xba\x77\x93\xf8\xa9\xb6\x00\x03\xf3\xcb\x16\x30\xec\x38\x6d\xe1\x5c\x3e\x80\x80\x4c\xfd\x83\x84\x8d\x9f\x0e\x68\x82\x2a\xba\x3c\xfa\xd3\xe9\xf4\x3a\xcc\xd1\x7a\xfd\xac\x4e\x15\xd8\xa6\xe0\xdd\x16\x6c\x4c\xc9\xdf\xc9\xa0\x01\x1b\x9b\x6d\x98\x6b\x7e\x24\xd6\x28\x78\x52\x66\x31\x3f\x69\x74\x33\x78\xa5\x6f\xde\xa1\x6d\xce\xf9\x25\x5b\xb7\xe0\x55\xb6\x7d\x96\x80\xc9\xb5\x4f\x81\xe8\xf6\x96\xbf\xb0\xf2\x06\x3f\x81\xee\x4f\x27\x60\x5a\x65\x3c\x8d\x1a\xb2\x95\xc6\xa2\x64\x92\x82\x27\x29\xd5\xab\x8d\x4c\xf0\x5c\x3e\xe2\x63\x31\x1f\xc1\x19\xfe\xc5\x07\x66\x4a\x07\xef\xe8\x03\x3e\x72\xa6\x69\x70\x6e\x3e\xe3\x8b\x7a\xfa\x61\x69\x98\x2a\x3f\x86\x49\x45\xfd\x76\xec\x4a\xf0\x2d\x7e\x7e\x09\x9f\x51\x7a\xc7\x8f\xf6\xfa\x4f\x9d\xd9\x95\xee\xd1\xde\xff\x1d\xd3\x8a\xfa\x22\x55\x21\x2f\x77\xf9\x5c\xc5\xe5\x57\x85\xaa\x0a\xbd\xaa\x12\x5a\xb6\x56\x55\xba\xc4\xae\xc3\x9a\xb8\x0e\x4b\x95\x6a\x5c\xb5\x32\x95\x6d\x09\x2b\xa8\x0c\xeb\xc2\xe7\x23\xb3\x0c\x20\xc1\x45\x58\xc4\x45\xa0\xbe\x85\xea\xfa\x13\xf4\x3c\xd1\x73\x75\x9b\x55\x6a\x13\x5f\xae\x4b\xb5\x0d\x0b\x5c\x32\x1d\x86\x81\x5e\x68\x1b\xe2\x76\x60\x6c\xa2\x0a\x16\x6a\x24\x07\x65\x51\x03\x82\xef\x61\x9d\x4d\x90\xc7\x1b\x50\x42\xa5\xc3\xe5\x5a\x56\x7e\xe5\x99\xd6\x7d\x78\x97\x03\x87\xd5\x96\x89\x16\x5b\xbd\x8c\x57\xf1\x12\x1a\x2d\xd7\x81\xf2\x5e\x10\x7f\x00\x20\x80\xfe\x22\x5c\x24\xb7\x50\x66\x13\xc3\xf0\x10\x6a\x80\x15\xbc\x88\x2f\x53\xac\x1a\xa7\xd7\xd9\x15\x2e\xff\x5a\xbd\x63\xcc\x60\x51\x06\xb1\xa8\x91\x4e\xdd\x03\xd6\x01\x24\x61\x24\x19\xf8\x50\xc2\x4a\x77\x99\xc4\x3a\x2d\x9b\xd2\x85\x56\x96\x59\x92\x68\xaa\x67\x00\x0b\x70\x04\xca\xcf\xe4\xa0\x1f\x35\x7c\x81\x7f\xa0\x43\x48\xb0\x00\xb5\x49\x18\x5a\xb0\xac\x62\x94\xf0\x46\x93\x24\x1d\x7e\xa1\x86\xce\x57\xe1\x52\x0f\x8d\x04\x12\xb3\x8d\xf5\x83\xa6\x0a\x1b\x53\x4d\x0b\x82\x13\xf0\x99\xf4\x07\xec\xc0\x22\x4e\x49\x4e\x1b\x61\xd1\x19\xd8\xb9\x40\xab\xb2\xca\x53\xe8\x3a\xf6\x18\x19\x5c\x42\x37\x75\x8e\x08\x2a\x34\xcc\x06\x53\xea\x4e\x47\xa0\x77\xd3\xc9\xfb\xd4\xf6\x4f\x47\x80\x08\x4d\x0d\x86\x84\x62\x09\xee\xee\x80\x45\x40\x8c\x5f\xc6\xea\xe4\x54\xd9\x32\x2f\x79\xc8\xd8\x2c\x7f\x19\x4b\x1d\xd3\x8a\x82\xff\x4c\x57\x03\xf3\x10\x48\xb1\xe1\x62\xb4\x69\x39\xda\xdd\x04\x2a\x30\x68\x62\x5d\xc5\x57\x4e\xa3\xde\xb2\xfc\xa4\x04\xb5\xa1\xd9\xc5\xbf\x73\x54\x98\x47\x77\x77\xdf\x65\x58\x06\x28\x07\x6f\x19\x92\x9e\x83\x30\xa4\x9e\xaf\xbc\x56\x09\x06\xaa\x4e\x91\x39\x1b\x38\x1f\xa5\x65\x70\x2c\x3d\x43\x46\x75\xd0\xd3\x73\x64\x06\x1b\xf7\xa7\x13\x5c\x08\xa0\xe4\x17\xa7\x2a\x8d\x13\xa4\x30\x91\xf1\x82\xaf\x44\x64\x3a\xb9\x9f\x9a\x67\x86\x7a\xb0\x93\x27\x7f\x8e\x04\x40\x88\x46\x9c\x28\xcc\x97\x38\xcd\x5c\x89\xd2\x44\xfe\x12\xcc\x08\x4a\xf4\x1e\x0b\x1f\x29\x57\xca\xf0\x6a\x48\xd0\x48\xab\xaf\x67\x05\x0a\xdd\xa9\xe6\xaa\x89\xdf\x1d\x6e\x96\x19\x75\x0e\xc9\xf6\x8f\x92\x71\x14\xec\x8c\xba\xc3\x61\xb1\x2e\x83\xf3\x98\xc5\x5e\x0f\x07\xd0\xfe\x88\x1d\x11\x0a\x1d\xb9\x75\x46\x1b\xaa\x5c\xdb\xb1\x2b\x82\x96\x02\x11\x2b\x58\xa6\x3b\x6a\xdd\x61\xc3\x71\x33\x4f\xaf\x79\x38\x26\xf7\x53\x16\x32\x8f\x89\x3b\x36\xb8\x38\x3e\x49\x92\xb3\x4f\x4b\xbd\x2d\x69\x9d\x2a\xd8\xc4\x5a\x49\xd1\x0a\x85\x2e\x8c\xcc\xcd\x7a\xb2\xd2\x30\x92\x6d\xea\xf1\x0b\x82\x97\x71\x04\x66\xfb\x06\xd6\x77\xf2\x0a\xdf\x17\xc6\x4f\x44\xa7\x68\xbb\x4d\x6e\xd1\xc4\xa0\xd9\x2c\x91\xf8\xc6\x96\xa6\x75\x41\xc3\xb0\xdd\xda\x61\xc3\xf9\x82\x16\xa4\x30\x56\x03\xe8\xbd\xde\xe2\xaa\x81\x96\x73\xee\x18\xae\x25\xd8\xa1\x85\xa6\xb5\x06\xcc\x28\x54\x03\x9f\x36\x45\xb1\x03\x4d\x78\xae\x3f\x2d\x93\x2a\x82\x37\xe4\x15\x2e\x34\xb2\xc0\x6b\x73\x14\x74\xa4\xe1\xd5\x3c\xcd\xd5\xec\x5d\x19\x96\x55\x31\x83\x4f\x6f\xa0\xd6\xcc\xb7\xf3\xfe\x91\x33\xf1\x87\xea\xab\x1e\xa9\xcc\x6b\x6e\x82\x20\x60\x07\x8c\x94\x27\x4e\xe5\x31\xa8\xc2\x26\xdc\x5e\xf0\xab\x0f\x2c\xfe\xbb\x7b\x1c\xf5\xf6\x84\xe9\xb3\x7c\x93\xc9\xcc\x51\xa3\x19\x38\xdc\xf7\x73\xa9\x2a\x30\x12\x34\x60\x82\xa3\xf1\x33\xb2\x42\xea\x4a\x24\x2d\x5b\x77\xac\x71\xf0\x3a\xbb\xc2\xd7\x86\xb1\x0b\xfd\xe9\xc3\x37\xea\x0b\x78\x48\x1a\xb8\x0d\xc1\x63\xf4\x6a\x84\xb7\xf2\x66\x67\x86\x84\x1d\xc1\xaf\x1e\x14\x5f\xa9\x28\x83\xd1\x4d\xb3\x12\x9a\x80\xc5\xf7\x1b\x18\x4f\xed\x0e\xbc\xd5\x1d\x82\xf4\xc8\x94\xef\xb3\x3e\xdf\xef\x66\x34\xd2\x89\x2e\xb5\x67\x78\xa4\xda\x75\x17\xe1\x71\x5d\xcf\x0a\x18\xeb\x15\xa0\xc5\xa0\xee\x58\x60\x6f\xc9\x2e\x43\x50\xe6\xa6\x74\x51\x10\xbd\x36\x17\x70\x68\xdd\x45\xaf\xb7\x88\xdf\x1c\x16\xee\x30\x4f\xcf\x1f\xc2\x05\xf4\x2b\xaa\xb5\x86\x43\x2f\x97\xba\x34\x3a\x8e\xf3\xc2\x4a\x99\x54\xfd\x66\xad\x53\xfb\x36\x73\xd4\x5a\x88\xb1\x76\xce\x79\x36\xca\x84\xa9\xb8\xb0\xe2\x78\x4e\xc8\x41\x21\xc0\x4f\x00\x7e\xe0\x0f\xc1\x31\x47\x9b\x6f\xd6\x31\x88\x0c\xab\x16\xd0\x74\x0f\x0b\xb2\xe2\x4b\x6d\x83\x77\xb2\x5c\xd6\xfb\x6e\xaf\xc8\x08\xb3\xa2\xcf\xbb\xd6\xba\xc7\x80\x4f\x87\xfa\xf5\xd9\x36\xac\xc3\xd4\x5c\xfa\x49\x12\xcf\xf5\x52\xc7\xd7\x8c\x0c\xa9\x8b\x40\xcc\xed\x77\x00\x90\x46\x5b\x32\x0e\x15\x7a\x61\x00\xab\xb5\x0f\xc8\x28\xea\x65\x04\xbe\x64\x9c\x10\xb8\x34\xda\x4c\x41\x20\x01\xc5\x61\x12\x97\xb7\xc1\x98\xa9\x69\xf4\xdd\xb5\x38\x07\x4b\xf4\xff\xed\xd1\xff\x41\x7b\xd4\xa8\x34\x57\x87\x98\xa7\xfd\x03\x1e\xfb\xba\xb2\xdf\xbd\x7d\xf3\x8c\x11\xdb\xc1\xbe\x2c\xc2\x42\xa7\x3a\x86\x83\x8b\x1a\x5c\xd4\xf8\x20\xbc\x86\xe9\x06\x0e\xa0\x66\x37\xe4\x12\xaa\xa8\x01\xe7\x22\xa8\x01\x67\x4d\xd9\xab\x49\x39\xee\x4e\xb6\x65\x57\x19\xe6\x4d\x23\xb6\x13\x70\x25\x86\x2a\xfe\x50\x43\x38\xce\x85\x53\xb0\xc0\x71\xbe\xf8\x30\x4c\x09\xf5\xa2\xef\xed\x53\x0d\xaa\xa5\x3d\xe4\xf6\xa5\xc4\xa8\xce\x33\x41\xb3\xfe\x9c\xb4\xb6\xd9\xce\x29\x02\x31\xe8\x91\xd7\x78\x6c\xfb\x03\xdd\xf1\x29\x70\x72\x77\xa7\xce\xb3\x1f\xb2\x1b\xe0\xb5\xd1\x03\x8a\x14\x09\xd4\x7c\x88\x1c\x31\x1f\x77\xe8\x76\xed\x54\x5a\x28\xee\x28\xdb\x89\x6a\xf6\xc8\x46\x7b\x3c\xd2\x64\x3b\x11\x7b\xf4\x13\xad\xc8\xe4\x39\x05\xe1\xb1\xeb\x4e\x09\x01\xda\x54\xe0\x2c\xed\x2d\x20\x6e\x13\x96\x68\x08\x01\xfa\x8e\x0f\x51\x6c\x0d\x0b\xc5\xcb\x72\xdd\xd7\xb6\x17\x6e\x71\x7e\xff\x50\x5b\x9f\x81\x17\x42\x87\xce\x6f\xee\xf9\x36\xe5\x0b\x3e\x6f\x53\xc0\x12\x55\x71\xdc\x02\x71\xd6\x24\xdc\x81\x56\xca\x61\x0f\x63\x23\x86\xab\xfd\x3b\xb9\xa7\xf3\x5c\xa8\x47\x75\x53\xbe\x72\x7d\xa5\x31\x2f\x1a\x9d\xac\xdf\xd6\x8d\xfe\x19\x89\x6e\x1d\x47\xac\x29\x44\x9e\x67\xa8\x43\xae\x57\x76\xa0\x2b\xbd\xfd\x4c\x2f\x5a\x84\xcb\x8a\xbe\x5b\xb2\x50\x63\x6c\x4e\x60\x30\x2c\x54\xcd\x20\x73\xc0\x15\xa4\xc4\xb7\x38\x34\x14\x68\xc2\xb0\xac\xce\xd1\x7a\x92\xee\xb3\xcd\x34\x06\xa1\xd6\x30\xe3\x2e\x53\x04\x0e\x00\x65\x7e\x14\x65\x9b\x10\x7c\xb0\x91\xc2\x81\x7a\x93\xc7\x9b\x30\x8f\x93\x5b\x13\x1f\x73\x83\x69\xac\x1f\x63\xfd\xf0\x7e\xee\xea\x05\xf6\x05\x5e\xb7\xfc\xf6\xb6\xbb\x6e\x23\x27\xe4\xa9\x4b\x9d\x7d\x3c\x75\x3b\x92\x1f\x47\x86\x89\xcd\xcd\x5e\xc3\x34\x6a\x99\x7a\xc7\x89\x6b\x98\x22\x43\x03\xb5\x7b\x08\xcc\xde\x67\x56\x2f\x85\x7d\xc5\xc0\x57\xdf\x6b\x9c\x46\x3b\xd2\x37\x50\x7d\xa1\x94\xb1\x91\x2a\xb6\x1c\x54\xd9\x3b\x1a\xd5\x88\x60\xf5\x8d\xd6\xf7\x3a\xc1\xb8\xfc\x94\x3b\xd0\xbb\x72\xf6\xdb\x9e\x4d\xa4\xcc\x3e\x50\xf0\xf2\xb9\xdf\x2e\x80\xfc\xa2\x05\xbd\x9a\xab\xeb\x1a\xe8\x6d\x2c\x86\xbd\x6e\xc4\x70\x68\x7b\x5b\xab\x2b\x7d\x4b\xc3\x1d\x21\x16\x5c\x64\x25\xa2\x40\xdb\x8a\x6c\x0c\x2b\xef\xca\x17\xbf\x04\x8b\x82\x67\x92\xe0\x78\x09\x95\x50\xbc\x31\x8a\xd7\x3e\x0b\xd3\x0c\x90\x70\x98\x7c\xaf\xc3\x48\xe7\x7f\x05\xea\xe2\xb4\x60\x43\x45\x26\x51\xe4\x52\x7c\x40\x43\x62\xb9\xd4\x26\x78\xa2\xc1\x39\x02\x5d\xe0\x96\xf1\x3d\x8a\xe2\xd4\xf6\xf5\x27\x78\x4d\x1b\x19\x6c\x0d\xb1\xaf\x17\x8f\x3f\xf8\x3b\x0b\x0e\x70\x07\x3d\xab\x29\x88\x3b\x20\xc3\x07\xd5\x68\x79\x3a\x00\x48\x72\xa8\xfa\x60\x20\x09\xb8\xc3\xa9\xcd\xcd\xd3\xb6\x85\xc4\x9e\xd4\x22\x5c\x5e\x71\xae\x84\xcc\x19\x8e\xf1\x63\x5f\x53\x4d\x4e\x5b\xa0\x5e\x90\x79\x95\xdd\x02\x51\xd7\x78\x11\xa3\x33\x67\x86\x40\x82\xe1\x30\xf5\xa2\x38\x4c\x38\x62\x9e\x84\xa0\xf7\x40\x2f\xc3\x38\x2e\x15\xaa\x69\xb2\x82\x36\xb8\xf3\xf0\x35\xaf\x9c\x01\x3f\x01\xe5\x4b\x47\xd0\x28\x17\x32\x68\xd4\x1b\x80\x16\xee\x94\x13\xc5\x44\x87\xb7\x30\x9c\x1b\x41\x20\xc7\x71\x59\x67\x61\x48\x8c\xce\xee\xae\x45\x7a\x15\xa7\x31\x6f\x9f\xe1\x4e\x20\x13\x41\x8e\xb0\xb5\x62\x3a\x79\xab\x2f\xc1\xeb\x02\xb8\xd8\xcf\x87\xf7\x90\x6a\xd0\xac\xf5\x79\x43\x2f\xe5\x8a\x08\x59\xda\x21\xe4\x49\xc3\x55\x02\x29\x8c\x45\x92\x89\x9f\xe6\xd2\x6e\xdd\xa3\x6e\xa4\x61\x72\xd7\x41\xab\x8e\x33\xd5\x81\xad\x32\x38\x34\x0b\x70\x3c\xf0\x03\x31\x1e\x44\xba\x58\x1a\x6e\x90\x4e\xfb\x95\x30\x78\x01\x0d\xa5\xf7\xf7\x1f\xe4\xbb\x2d\x39\x60\x5e\x6b\x88\x3b\xb0\x4e\x3a\x10\x77\x87\xbd\x64\x8f\x7c\x92\x35\x21\xb0\x95\x84\x47\x0e\x2c\x91\xb1\x9b\xde\x62\x4a\xcd\x44\xb5\x4e\xd1\x4e\x1f\x40\x1d\xd1\xa8\xf5\x08\xf5\x04\x37\x68\xfa\xe5\x3d\xaf\x9b\x9c\xdc\x1b\x7b\x6e\x00\x39\xa9\x15\xaf\x97\x34\x27\xa4\x41\x56\xb3\x1c\x46\x9c\xcd\xe6\x95\xd6\xdb\x02\x3e\x87\x34\x49\x73\x51\x42\x0c\x00\x5b\x48\xce\x94\x6a\x44\x8e\xa3\x23\x13\x4d\x88\x3e\x87\x27\xd8\x34\xe3\x57\x99\x85\x54\xcd\x57\x46\xaf\xa5\xa8\xd7\x5f\x7b\xae\x7e\x6e\x2e\x7b\xd0\x4e\x4a\x7a\x00\x4a\x15\x09\x79\xe8\x19\x0e\xa7\x12\x73\xf4\xeb\xb1\xdf\x08\xa8\x30\xe0\x6f\x1c\x54\x8c\xc3\x84\x7d\xb1\x9f\x2c\xe0\x03\xa0\x82\x2d\xea\x38\xf8\x1b\x06\x15\x8c\xe4\x90\x99\x3d\x51\x05\x16\xb5\x08\x10\xb1\xce\x41\xb8\x62\x8b\x1b\x10\x5d\x60\xe1\x0e\xdb\xaf\xc7\x82\xc3\x90\xdd\x40\xc1\x51\xc8\xbe\x27\x18\xdf\x09\x04\x47\x21\x7b\x63\xd4\xc6\xfa\xd1\x8f\x04\xfb\xb6\xda\xc6\x21\xfb\x01\x9b\x6b\xe3\x90\x5d\xb8\x20\x84\x52\x9c\x67\x2e\x0a\xac\xcd\x49\x7b\x19\x75\x44\xce\x5d\x1e\xa1\xe2\x01\xe0\x2a\xd4\xc5\x07\x13\x54\xdd\x41\x6f\xaf\xcd\x49\xc0\x92\x8f\x76\x21\x50\x5a\xe7\xb6\x61\x9c\xd7\x8d\xc3\x43\x89\x5c\x5e\xd5\xb8\x94\xd8\x23\x24\x8a\xd0\xd4\x84\x57\xa1\xd9\x80\x51\xdb\x95\x1f\x48\x28\xd9\xff\x46\x99\x30\xeb\x84\x09\xdb\x18\x12\x7d\x65\x14\x48\x10\x90\x43\x85\x0c\x77\xb9\xa8\x0b\x79\x1f\x01\xff\xa7\x35\x84\xfe\x0b\x58\x77\x0f\x9e\xcd\xeb\x47\x6f\xb0\x0e\x53\xc5\x40\x94\x6f\xc8\x39\x90\x50\xe2\x90\x3c\x92\xfb\x82\xc3\xef\xcf\xcf\xdf\x7c\x4e\x94\x91\x52\x26\x58\xca\x29\xa9\x17\xf0\x3f\xc3\x8d\x4c\x00\xb1\xb8\x5e\x52\x1e\xe6\x37\x6a\xb9\x0e\xf3\x42\x97\xa7\x55\xb9\x3a\xc2\xfc\x49\x09\x4e\x62\xab\x12\x72\xa9\x51\xa5\x5a\xcb\x13\x9a\xb3\xbb\x83\x96\x48\x2c\x4b\x01\x62\x69\x02\x57\x00\x43\x31\xbf\xa5\x70\x22\x95\x4e\x33\x3b\x43\x95\xcd\xf4\xaa\x66\xa8\xd2\x4d\xbc\x51\x77\x36\x77\x2c\x20\xfa\xe4\x33\x35\x62\x79\x3d\xe1\xcb\x61\xea\x34\xfe\x7d\xaf\x25\x7e\xc9\x6d\xa0\x53\x50\x34\xc2\x97\xfd\x95\xce\xd0\x2c\xb0\xb9\x81\x2e\x3b\x5f\x86\xab\x3c\x59\x81\x59\xf1\xda\x6f\xca\x67\xf5\xd0\x7a\xce\x30\xfb\x44\xa8\xdb\xcb\xbd\x82\xa7\x12\x5d\xa3\x40\x29\x0c\xde\x1b\x18\x2e\x18\xb3\x1c\xec\x52\x49\x19\xc4\xb8\x35\x5c\x2c\xc3\x2d\x6e\x10\x00\x7a\xbe\x05\x25\xb8\x55\xeb\x2c\x89\x30\x27\x8d\x74\x29\x5c\x96\xe8\xde\x6d\x68\xf7\xa5\xfa\x84\x08\xf3\x6d\x56\x61\x07\xfc\xe0\x7d\xa1\xb9\xb3\x11\x12\x06\x78\xe6\x80\x2e\xd9\x71\xc2\x95\x66\x60\xd0\x6c\xd1\x05\xe6\x00\xa5\x97\x84\x97\xb9\x5a\xf0\x94\x1f\xc9\xc6\xcd\xc6\xd4\xa3\xfd\x02\x29\x8e\xd9\xdb\x0b\xf5\x4f\x75\x9e\xbd\xc7\xdc\xb6\xfb\xfb\x99\x1f\x10\x1b\x6e\x19\x7c\x70\xae\x37\xdb\x84\x52\xbc\xa1\x84\x51\xce\x81\xdc\x3e\x82\xcd\xcd\x70\xaf\x70\xd4\x13\xf3\x15\xc0\x8b\xdd\x73\x9a\xa4\x1d\xb1\x26\x30\x16\xe8\x8c\x05\xbf\xe3\x8d\xcd\x06\x2a\xee\x8d\xfc\x4e\xfc\xd6\xbe\x87\xf3\x51\x4c\xd0\xc6\x24\x0b\x39\x5a\xc7\x3b\xa8\x1c\x0b\x26\x6d\x34\x7b\xa1\xa6\xc5\x9f\xf0\x3d\x38\x59\xe0\x40\xc2\x24\x0e\xab\xa4\xc4\xb5\x93\xd5\x0d\x89\x11\x08\x85\xe9\xdf\xb6\x2c\xe0\x22\xaa\x45\x16\x91\x03\x89\xdf\xd9\x03\x42\x4f\x7e\x46\xed\xcc\xac\xf3\x7f\x4d\xb9\x85\x40\x8a\x9e\x07\xc4\x9d\xe7\xb3\x8b\x09\xd6\x85\xf2\x18\x14\x32\x8b\xa4\xfe\xfd\xf1\x63\xf0\x57\x57\x0e\xbf\x4e\x40\x9b\x67\x21\x70\x4b\x8c\xb1\x73\x77\x1d\x63\x74\x62\xcd\xf3\x93\xf7\x46\x17\x9a\xb9\xe5\x2d\x64\x2c\x57\x23\x3c\x97\x34\xe5\xe0\xd5\xd4\xb1\x17\xc1\x4b\xb0\x96\xeb\x90\xd2\xfb\x0c\xff\x1b\x7e\x84\x1a\x59\x54\xcb\xa5\xd6\x51\xc1\xee\xf0\x5f\xde\xbd\x7e\x25\xd9\xf7\x91\x49\x95\xb7\xfb\xb0\xc4\xbb\x61\x07\xb7\xb3\x87\xbb\xc5\xa9\x1c\x78\xf8\x21\x9f\x1b\x2f\xdd\xf6\xac\x7e\xd9\xa0\x06\xc8\x04\x30\x7d\x18\x19\x99\xb1\xc9\x75\xed\x4d\x1f\xac\xb1\x59\x41\x73\x75\xc3\x36\xb5\xa9\x06\x04\x67\x70\x54\xd1\x1b\x80\xe9\xe7\x8a\x84\x8d\xd9\x4f\x9c\x39\x7a\x47\xa3\x78\x82\xc4\xcc\x80\xde\x73\xe8\x79\x53\x0b\x90\x97\x6d\x2c\xe2\x35\x65\x5b\xaf\xda\x31\x2b\xcf\x53\x6a\x52\xaa\x9e\x71\xb0\xdb\x12\x32\xf5\x50\xdc\x1e\x54\x75\x8a\x9d\x3a\x2b\x38\x29\xe3\xa9\x25\x67\x37\x46\x6f\x02\x56\x1b\xb0\x4f\x60\x54\xbd\x99\x98\xd5\x23\xb4\xa5\xb3\xb9\xbb\x80\x72\x07\xd6\x46\xc9\x5c\xfe\x9b\xe6\xc1\xe8\x61\xdd\x0f\x13\x5b\x23\xb0\x55\x03\x19\x43\x4b\x6a\x14\x1e\x67\x63\xb9\x3c\x3d\xd7\x09\xe0\x19\x7c\x28\x38\xc8\x89\xcf\x09\x39\x86\x37\x4e\x9d\x27\x51\xe4\xb5\x70\x0d\xfe\x8f\xe6\xd0\x09\xe7\x29\x07\xac\x37\x2f\x10\xb1\xa6\x61\xe2\xac\x4d\xd4\x49\xf4\xf7\x06\xbb\xe7\xe8\x63\xdd\x43\x22\x7e\xaa\x30\x62\x60\x5f\x8b\x03\x7e\x13\x90\xf6\x08\x7b\x58\xd0\xb7\x0f\x3d\x1c\x16\xdf\xba\xa6\xa4\x43\x6c\x26\x73\x0f\xa3\x32\x17\x1f\x30\xf5\xda\x97\x49\x71\xc7\xa1\x90\x1b\xe5\xea\x9a\xdd\xd1\x30\x0a\xf9\x3e\x15\x15\x40\x0a\x73\xf5\xf0\x06\xb8\x6c\xed\x78\x30\x38\x2a\xe2\x7f\x20\xcf\x7f\xfe\xfa\x3f\xff\x83\x75\x2d\xd1\x29\xd6\xf1\xd5\x7f\xf1\x3b\x56\x1c\x60\xe3\x54\xc1\xbf\x17\x27\xf8\xf0\x43\x33\x65\x0d\xf7\xed\x49\x6e\x2b\x6f\x66\xe3\xc3\xa4\x6b\xb8\x65\x7f\x82\xc1\x4a\xdc\xb1\xdf\x22\xca\x52\x69\x96\x1e\x91\x31\x34\xfe\x03\x16\x04\x25\xc3\x36\x1b\x01\x44\x49\x05\x87\x75\xc6\xbb\x61\xf2\x24\x23\x32\xb6\x6e\xdf\x1d\xa7\x9f\x4a\x29\x86\xbd\xea\x17\x6c\xe5\x44\x2c\xed\x2f\x62\xf7\x71\x14\xa5\x14\xd8\xe9\x62\x15\x8b\xdd\x37\xea\x4a\x16\xcd\x19\xdc\xda\xbb\xc1\x68\x19\x59\x1d\x39\xf1\xb4\x4f\x06\xbf\xc4\x27\x9c\x46\x2d\xab\x6c\x5d\x27\x45\x6d\xba\x28\x6e\x65\x8c\x34\xfc\xe7\xe4\x6d\x58\x4f\xc0\x86\x2f\xd6\x35\x51\x5f\xb9\xda\xa6\x9a\x99\x92\xeb\xa0\x6e\x61\xa0\x76\x3d\xef\x18\x41\xd2\xd7\x06\x09\x61\x4a\x44\xc8\xa1\x65\x4a\x7c\xb7\xb0\x18\x45\x48\x1e\x8c\x98\x76\x8c\x90\x45\x75\x0a\xcf\xa6\xb8\x64\x87\x13\xb1\xaf\x02\x39\xc0\xc8\xe7\xb7\x53\x89\x7e\xdf\xac\x35\xc5\xac\x63\x72\x97\x01\x4a\x9f\xc0\x14\x0a\x93\x10\xc1\x56\xc1\x10\x8b\x92\x42\x30\x27\xa6\xda\x98\x87\x71\xae\xe0\xdb\x82\x87\x8c\x49\xdd\x96\x6b\x1c\x78\x9d\x14\x94\x2b\x80\xc6\x70\x6e\x62\x9c\xb4\xf0\x40\x0b\xeb\xb0\x60\x56\x50\xed\x64\x49\x70\x7a\xe4\x21\xab\x14\x0f\x05\xfc\x54\x14\x30\xd0\x73\xce\x1d\x32\x7e\xa0\x47\xdd\x34\x49\x3a\x30\xf1\x17\x59\x96\xb4\x73\x49\x19\xf9\x15\x80\xa5\x90\xd2\x5b\xbd\xc2\x54\x2a\xb4\x04\x2c\x11\x7c\x19\x60\x40\x29\x8f\xb7\x25\xae\x0b\x7c\x8c\x00\x86\x20\x78\x7a\x7b\x0e\xf4\x11\x38\x79\xd8\x2c\x9b\x5b\xae\x75\xda\xd9\xac\x9c\xc1\xb4\x59\x85\x89\xa4\x10\xe3\x64\x31\xb3\xf0\x41\x41\x1d\x4d\x33\xa9\xfb\xe0\x23\x14\x6d\xb7\x59\x25\x09\x35\xe4\x73\x17\xd9\x50\x41\x73\x5f\x6c\x00\xf2\x15\x1e\xd5\xf4\xd5\xc3\x87\x8a\x3f\xe2\xc3\x37\x30\xbd\x61\x35\x47\x3d\xfb\xe7\x3f\x99\x76\xf0\xa2\xf8\x21\x2e\xca\xe6\x93\x97\xe1\xd6\xf3\xfd\x01\x5e\x25\xbd\x95\x9a\x6a\x91\x80\xc6\xbe\x68\xd0\xc0\x27\xfc\x40\x86\x03\x1e\x39\x82\xe0\xd4\x22\x3a\x99\xc2\x52\xfd\x0e\x96\x2f\x66\x3c\x78\x61\x66\x2e\xf4\xd5\x13\x1b\xfa\x8d\xfa\x82\x0b\xbb\x79\xb8\x75\xda\x91\x37\x44\x00\x44\x04\x33\xd7\xf0\x2e\x6b\x49\x96\x72\x14\x6a\x43\x36\xca\xe7\x07\xb4\x80\x12\x81\x79\x83\x1d\x78\x2d\x16\x19\xdd\x33\xa8\x65\x0f\x5e\x99\xb5\x5b\xb0\x2c\x72\xf6\x24\x49\xb2\x9b\x37\x61\x5e\xc6\x61\x42\xa1\x55\x6a\x1c\x5e\x80\xf7\x40\x2a\x45\x61\xcb\x93\xe6\x8b\x33\x98\x0e\xaf\x68\x46\xe0\x1b\xf3\xe2\x6c\x13\x97\xef\xd3\x6d\xb6\xad\x10\xcf\x47\x27\xe6\x05\xf0\x8f\x2e\xbb\xdd\x37\xaf\x99\xb3\x60\x86\xba\xe3\x0a\x61\x64\xdf\xbc\xab\x8a\x68\x9d\x57\x08\x88\xe6\x6a\xb6\xcc\xaa\x24\x4a\xbf\x2a\x05\x09\x5a\xa5\xc4\x59\x4a\x67\xcf\x5c\x0d\xc4\xd5\x8d\x0a\x14\xae\x09\x24\x49\xbd\x0d\x6f\x44\x0d\x46\x16\x3c\xee\xd6\x43\x26\xd1\x5d\xf6\x7a\x19\x76\xb7\xfb\xb9\x41\x1e\xb6\xe2\x02\xf9\xfa\xd0\x18\x7e\xb6\x82\x95\x69\x8f\x0d\x21\x58\xad\x62\xc8\xf2\x51\xe2\x32\x6e\xbb\x10\x18\x46\x63\x23\x76\xa7\x49\x63\x87\xe9\x99\x2b\xc7\xf2\x38\x60\x00\x67\x11\x49\xe0\x47\xc0\xdf\x91\x28\x3a\x59\xa9\xe6\x04\x6c\x5b\x88\x8f\x68\x6c\x71\x59\x96\x01\xa0\x1a\x24\x87\x41\xeb\xd5\x51\x78\xdb\x81\x8e\x4e\xdb\xe1\x18\xd1\x6a\xa3\xa2\xcf\x63\x30\xf7\x79\xf4\x3e\xa5\x73\x8f\xae\x86\xd6\x63\xec\xb6\xe4\x8c\xb5\xf4\xb6\x91\x38\x78\xf7\xe0\xe3\x89\x7a\x50\xdc\x8b\x52\x49\xcf\x60\x08\x3b\xfa\x3c\xa4\x1b\x46\x21\x3e\xcf\x5a\x53\x33\x8e\x01\x45\xc2\x1b\xd7\x2c\x50\x81\x86\x65\xb8\xe7\x35\x8b\x4b\x3e\x4b\x74\x98\xcb\x3b\x57\x2f\x6b\xdd\x5b\x66\xdb\x5b\xe6\xa1\x57\xef\x68\xdb\x2f\xe2\xd8\x30\xed\x99\xd0\x12\x8a\x71\x0b\x58\xf8\x8a\x7c\x29\xda\x57\x53\xf1\xa0\xf0\x1c\xdf\xf4\xa9\x5f\xd1\x4a\x2d\x85\x0e\x90\xad\x85\x3a\x2d\x05\x21\x12\xdd\x25\x8f\x21\x3b\x69\xb2\x45\xed\x4c\x98\xbc\x02\x23\xe3\x62\x6f\x19\x13\x38\x6f\x4b\x78\x12\xb9\x22\x2e\x9a\xf2\x75\xd3\xb3\x11\x82\x74\xc1\x4b\x3f\x60\xe9\x05\x0e\x74\x3e\x8d\x45\x68\x69\xed\x9c\xbb\xa8\x68\x8f\x04\x20\x08\x3e\x05\xae\xd9\xe3\xcc\xc0\x4f\x21\xd9\xb4\x70\x88\x35\x8a\x38\x0d\xcc\xaa\x87\xcb\x31\xa6\xcd\xc2\x62\x4b\xf6\x00\x1e\xcf\x66\x2c\x02\x5d\x9f\x9f\x34\xb3\x7c\xdb\x08\x5e\x29\x9e\xf4\x74\x2c\x72\xd6\x5a\xf4\xb5\x3b\x0f\x90\x53\x24\x66\x5e\xda\x96\x82\x59\xa3\xe1\x00\xbe\x3b\xf3\x46\x4e\xa4\x07\xb8\x25\x83\x33\x8c\xbb\x07\x95\xe0\x9f\x07\x7f\x3a\x83\x3f\x47\x5f\x37\x54\xba\xca\x13\x0a\x37\x9d\x51\x3c\x8d\x8d\x96\x33\x4c\x3f\x22\x04\x74\x47\xa9\x4a\x25\xf2\xa6\xb6\xad\xa8\x1c\x46\x5f\xec\xee\x42\x3d\x38\x48\xc1\x03\xc9\x8b\x1f\x4f\xaf\x01\xc3\x35\x53\xa2\xcd\x00\x09\x78\xbb\xc6\x56\x3b\x79\xd3\xf0\xe7\x4e\x52\x88\xd9\xaa\x90\xe3\xe9\xe4\x89\x54\x18\x79\xc7\xd6\x78\x30\xea\x60\x02\x5a\x2f\xe9\xe7\x7b\xe1\xdf\xa3\xca\x7b\x9c\x0e\xb2\x30\xfd\xae\x67\x55\xed\x0c\xae\x19\xd3\xb9\xeb\xde\x3e\x0d\x23\x13\x57\x43\x9a\xe2\x0a\x53\x2f\x79\x71\x83\x81\x46\x66\xdd\x71\xc1\x97\xee\x62\x77\x8d\x4b\x0b\x4e\xc3\xc6\x68\xb0\x04\x48\xf2\xa2\xd2\x32\xfb\x78\xd3\x76\x53\xa1\x73\xa7\xd5\xfb\xf3\x6f\x8f\xfe\x2c\x63\x62\x09\x79\x8d\xc5\xcc\xeb\x8e\x02\x2e\x6b\x78\x9d\x01\x2f\x6b\x7c\x02\x97\x15\xa4\xbd\x8a\x0f\x2e\x6c\xd4\x18\x37\xdf\x58\xdf\xa4\x2e\x8f\x50\xdd\xc9\x30\x8a\xd8\x2e\xc0\x87\x41\xa3\x20\xc1\x32\xf2\x5f\xe6\x18\x5e\xb7\x4e\x8b\xf4\xd0\x50\xf1\x24\x30\x81\x43\xcf\xfb\x4b\x73\xb5\xcb\xb7\xb0\x6b\xba\x63\x17\x58\x81\xc6\x2c\xc3\xe8\x12\x86\xeb\xd1\x95\xec\x2b\x21\x13\x14\x17\x71\x96\xc5\xfe\x05\x86\x19\x42\x4c\xde\x18\x70\xea\xb5\x3b\xeb\xe8\x5c\x98\x4a\xb0\x1c\x1f\xd4\xa0\xe9\xaf\x9e\xc8\xc1\xd7\x9a\x94\x39\x96\x81\x38\x10\x75\x02\x4f\xf1\xa6\x54\x7d\x93\xe5\xb4\xb7\x7d\x19\x5f\xc3\x13\xf1\xda\x44\x96\x35\x1b\x1e\xb5\x51\xef\xc6\x99\x4f\xa2\x29\x18\xb3\xc0\x12\xe4\x1b\x7c\x4d\x36\x12\xbf\x5e\x3c\xfe\xc0\xf6\x11\x8d\x96\xe1\xee\x99\x5c\x45\xf2\x24\xbd\x35\x85\x60\x2e\xcd\x2f\x66\x02\x97\x80\x5c\x03\x18\x37\xe2\x7b\xd4\x08\xc3\x86\xd3\xee\x94\x35\x5c\xdd\x09\x84\x44\x3a\x7e\x1d\x7b\x92\x52\x48\x43\xe4\x4c\x02\xed\x88\x59\x9b\xa0\x27\x4d\x2d\xea\xb9\xac\x45\xa2\x76\x56\x56\xb9\xde\x6a\x44\xf5\x6c\x30\xcd\xb0\xd0\xcd\x27\x59\x8a\xb9\x48\x9b\x0d\xee\x4d\xe1\x2b\x3c\xa2\x2c\x13\x36\x37\xef\x09\x8f\x86\x79\x1e\x1a\x47\xd8\xf2\x63\xb4\x77\x54\xe2\x5c\xc6\x47\xed\xfb\xda\xd5\x3d\x7e\x6e\xd4\x8f\xbf\xd5\x43\xd1\x4c\xb6\xb5\x88\xdf\x76\xfa\xe2\x00\xa8\x2f\xf0\xcf\x36\x01\x96\xef\xa1\x21\xd4\x1c\x26\x50\x09\xdb\x82\x33\x5b\x48\xb8\x64\xeb\xaf\xb4\x77\x61\x17\x03\xec\x9d\xa5\xe3\x4b\xec\x32\x9e\x1b\x12\xce\xf1\x11\x43\xd3\xec\xc4\xf6\xf3\x29\xc5\x80\x3b\xd2\xb8\xf8\x43\x17\x7a\x32\x2f\xf0\x8a\xaf\x55\x40\xf5\x91\x5a\x6e\x04\xb3\xa1\x43\x1d\x9f\xa5\x00\x10\x9c\xc4\x65\x2d\x0f\x54\xec\x99\x59\x51\x07\x92\x91\x77\x6e\x3a\x39\x39\x5a\x3b\x76\x9d\x6c\x0e\xcb\xe8\xf6\x4e\x3b\x27\x82\xd6\xaa\xfe\x34\x66\x22\xc9\x77\xf5\x60\x1d\xd4\xd7\x23\xd9\x4c\x70\xd3\x1d\xea\x9d\xab\x1c\xd3\x19\x5a\x19\x12\xe4\x7e\x51\x8c\x0f\xb8\x32\x4f\x89\x32\x85\x80\x76\x64\xc9\x4e\x9c\x8c\x96\xd1\x6e\xf5\xa6\x48\x74\x90\xc7\x40\x7a\xc4\x24\xd2\x2b\xdc\x65\x0e\x30\x2c\x1f\xd0\xed\x18\x9e\x2f\xc9\x00\x98\x3a\x51\x67\x4b\xb4\xfa\xea\xa4\x4e\xc8\x06\x21\x6d\xfa\xda\x62\x48\x8f\xa1\x34\xbd\xa6\x60\xb0\xe8\xa8\xdc\xc6\xf1\x56\x87\x11\x78\x66\x1e\xb7\xbd\xdf\x89\xe5\x8e\x7f\xcf\x01\xde\x1c\x37\x5b\xcc\x86\x17\x76\xdc\x48\x7b\x26\x18\xbc\x15\x5f\x7e\xcc\xc4\xb1\x93\x54\x6b\xef\x5e\x1e\xe8\x78\x0e\xbb\x9e\x83\xce\x27\xb3\x6b\x44\x31\xe8\x7f\x72\x70\x9d\xe2\xf7\x3d\x33\xba\x2f\xc2\x3e\x1c\x63\xef\x8d\xb2\x0b\x1f\xfb\x83\x42\x37\xaa\x7e\x68\xf8\x9d\x25\x32\xe9\x07\x8f\xfc\x0e\x19\xa8\xd9\xba\xe7\x8c\x49\xeb\x47\x3e\xa4\x6c\x1d\x92\x87\xb5\x2f\xc6\xf1\xeb\x55\xc9\x39\x1d\x81\x4b\xf9\x2c\x9b\x64\x85\x18\x5d\xa9\x37\x6f\xa7\x98\xb8\x52\xae\xdf\xe0\x0a\x57\x58\xfd\xad\xf1\xfd\x41\xc7\xec\x31\x29\xb5\xa6\x86\xb4\x69\xd5\x6b\x11\x67\xc4\x0e\x02\xfb\x1b\xbe\x84\xc9\xf1\xfe\xed\x0f\xb8\x26\xd1\xd7\xcf\x05\xee\xcd\xd9\xc2\xe3\x51\xe3\x2a\x09\x9d\x37\xe7\xcd\x3e\x50\x1e\x7b\xe4\xf4\x61\xea\xe6\x09\x58\xf7\xda\x8a\xdf\xb1\x06\x7c\x01\x52\x6a\x8a\x05\x3f\x64\xbc\x79\xad\x66\xa4\x14\x5c\x06\xd3\x3d\xf9\xf5\x77\x3a\xa5\xee\x5b\xf5\xc7\x0c\x82\x46\x6e\xa9\x93\x5c\x3a\xc6\xc2\xeb\x54\x67\xab\x0e\x1f\x60\xe6\x3a\x7c\x50\xb7\x7e\x0d\x23\x76\x54\x58\x35\x0d\x2c\x36\x39\x1e\x47\xad\xab\x15\x06\x93\x0e\x7a\x17\xad\xa1\x33\x1d\xbc\x44\x15\x66\x07\xde\x6e\x89\x09\xba\x6d\xef\xb8\x73\xfe\x41\x7e\xc0\x79\x8d\x1e\x06\xfb\x96\x9f\xde\xfd\xeb\xa1\x23\x1c\xd6\xf9\xf8\xa3\x85\xa9\xdd\x35\xab\x27\x4a\x5d\x1f\x2d\x69\xb8\x56\xfe\x3e\xde\xd1\xcf\x73\x31\xef\x76\x27\x96\x36\x21\x9d\x52\xee\x91\x93\xfa\x82\x25\xd9\x47\xeb\xcb\x7a\x1a\x38\xf6\xd6\x06\x02\x43\x67\x4f\x6a\x68\x99\x3b\x3b\x71\xa3\xa7\x4d\xc8\x60\x74\x4e\x9a\x60\xb8\x6a\x1d\x46\x5c\x77\xe8\x6c\x09\x9d\x68\x88\x30\x3f\x2d\x66\x1f\xc3\x9e\x07\x76\xee\x4e\xc4\x6c\x0b\xa2\x62\x40\xa6\xc1\x5d\xf6\x48\x0b\x2a\x33\xe6\x47\x76\x0e\xbe\x34\xce\xae\x30\x91\xe6\x01\x96\xd1\xa3\x2b\xbb\x4e\xae\x18\x09\x51\xac\xef\x8a\x70\xfa\x68\x95\x16\xff\x74\x76\xa5\x4b\x03\x8d\x17\x8a\xbb\x02\xbb\x68\xef\xa4\x5a\xae\x71\x4c\x02\x7a\x13\x26\x45\x86\x43\x20\x73\x98\x57\x51\x58\x2f\xa6\xe3\xad\x9b\x95\xf9\x08\x6f\x72\xc4\x86\x71\x45\xc1\xa0\x90\xbf\xab\xa2\x1d\x15\x8c\xa3\xa1\xce\xa1\x11\x99\xf9\x9f\x7d\xd4\x06\x49\x7c\xfe\x51\x1b\xa7\x76\x9d\x14\xd9\x73\xd2\x26\x65\xbc\xcd\xd6\x0b\x1c\x96\x6b\xba\x3b\xa6\x14\xa9\x6d\xb2\x92\xc2\x03\x98\xa2\x13\xa6\x78\xf1\xd5\x4f\x78\x18\x7f\xcb\x57\x6c\xf1\x33\xbe\x76\x0b\xd0\x03\x21\xf8\xba\x91\x08\x20\x5b\x46\x97\xcd\x14\xb7\x45\xa9\x37\x73\x54\x2e\xa0\x95\xc4\x57\x3a\xb1\xeb\x28\xc5\x6d\x67\xeb\xac\x28\x4f\x48\x76\xf5\x71\x9c\xba\x07\x9e\x6d\xca\x6e\xe8\x0e\xe5\x5a\x1e\x7e\x10\x07\x23\x58\xed\xa0\x83\x6d\x10\x46\xf2\xe4\xf8\x58\x02\xb7\x96\x0b\x70\x90\xb1\x55\x7c\xa3\xfe\xcd\xca\x81\x4c\x55\xd5\x85\x26\x96\xd8\xde\x07\x5a\x11\x29\x54\x53\xb9\xf8\x10\x31\x48\x8f\xcb\x27\x87\x3c\xf8\x46\x86\xd9\xab\x8c\x87\xd1\x49\x47\xe5\x3b\x48\x58\x03\x28\xdd\x0a\x09\xdd\x64\x39\xcc\x48\x4e\x71\x55\xb2\xce\x53\xbc\xfc\x16\x6f\x51\x25\xcb\xec\x9c\x2e\x9a\xf9\xd3\x06\xbc\x3b\x28\x03\x92\xfc\x9b\x96\xf7\x29\x4c\xe3\x5b\x3e\x65\xe4\x78\xaa\xf0\x49\x7f\xea\xd6\x78\x6c\xea\x90\xff\xd1\x75\xeb\xc6\x4e\x17\x61\x4b\x8c\x87\x47\xea\xf5\x5c\x86\xe8\x9c\x33\x92\xbb\x35\x06\x13\x33\x05\x6f\x13\xba\x06\x4b\xe1\x55\x0c\x95\x2d\x88\x0e\x61\x89\x05\xe3\x81\x09\x9a\xa6\x68\x8d\x0d\x76\xa4\x56\xb6\xb2\x30\x1b\xd9\x9a\xcd\x2c\xcb\xf6\xc1\xa2\x49\xfb\x6c\x91\x71\x02\xdc\xcb\x26\x7a\x13\x30\xc7\x8f\x1b\x8d\x8e\xbb\x3d\x76\xf4\x9b\x8f\xfc\x50\xaa\x2a\x81\x99\xe1\xa1\x9d\xb7\xb1\x66\x5f\xc2\x69\x7d\xd6\xc9\xee\xb6\xe1\x38\x2e\xf0\xde\x8f\x47\x38\x87\xe1\xdb\x9c\xf7\x31\x4c\x8c\xcd\x3c\xa6\x73\x45\x88\x0a\xa0\x0f\x8f\xb0\x02\x7f\xa5\xd5\x42\xbc\x97\xfa\x0e\x07\x7c\x23\x30\xe5\x59\xf9\xc9\x1c\x65\x78\x87\xe8\x76\x49\xb7\x7c\x54\xb9\xe4\x38\x11\x50\x90\x89\x0b\xd3\x11\xa0\x56\xc2\xa7\x03\x79\x95\x03\xbb\x4d\x87\x0a\xb2\x0a\x17\x6e\x03\x5e\x65\x51\xe2\x4c\x54\x5e\xf4\x36\x06\xc0\xba\xae\x0a\x22\x05\xc9\x13\x0a\x94\x7a\x95\x95\x72\xe3\x21\x92\x44\x5a\x64\x29\xd6\xe1\x35\x78\xa0\x72\xb3\xf1\x38\x20\xa1\x76\x16\x94\x5d\x2e\x97\x7e\xd1\xbd\x45\x68\xf7\x0d\x6b\x78\x7f\xa4\x64\xa0\x86\xe6\xf4\x26\x9b\x7d\xda\xf0\xb4\x79\xae\xf6\xfe\x10\xe7\x4a\x32\x3c\xb4\x29\xcb\xad\x1c\x05\x69\xca\x8e\x8f\x7f\x38\x3b\x9f\xc3\xab\x81\x9b\x2a\xd5\x53\x48\x32\xe4\x47\xae\xac\xdb\x03\x1b\xfe\x66\x07\x40\x2c\xde\xc1\xcd\xd2\x76\x7e\x64\xf3\x9c\x06\xc5\x0d\x09\xfd\xe2\x02\x30\x70\x9c\x6d\xa7\xc1\x6e\xc7\x04\x7b\x8d\xcd\x68\x48\xb0\xed\x5d\x49\x3c\x90\xb1\x58\x3b\x26\x68\x02\x48\xd2\x8c\x7b\x10\xcc\x3d\x3e\xdf\x8e\x09\x3a\x39\x8b\x0c\xf2\x24\x0f\xd9\xbe\x59\xd3\xdd\x33\x18\x3c\xf9\xd3\xe3\xc7\x6e\x42\x36\x78\x59\x92\x75\x4c\xde\xd4\x16\x44\xc8\x6c\x62\x85\x94\x68\xb1\x67\x45\x13\xa8\x2c\x71\xf3\x95\x8e\x10\x53\x2f\xdc\xf9\x27\x99\x9f\x00\xa2\xc9\x81\xa9\x79\x34\x4c\xec\x8c\x59\x9a\xe3\x5c\x3d\x31\xcb\x5e\xb1\x8f\x87\x2c\xb9\xcc\xe1\x31\xcb\x43\x62\x8c\xa7\x74\xfd\xef\xd9\xeb\x6f\x07\xc3\x8c\x98\x69\x52\x27\x95\x92\xc5\xa1\xd0\x16\x6f\x62\x3b\x71\xc5\x3d\x43\x96\x3d\x11\x4b\x4b\x74\xe6\x3b\xe7\x9f\x72\x27\x89\x17\x09\x3b\x71\x98\xd7\x7f\xdd\x1d\x15\x6d\xa4\xf0\x82\xa3\x31\x73\x74\xe6\x44\x7d\xf5\x20\xfa\x8a\x9c\x80\xba\x0d\xdb\x36\xc7\x7c\x8b\xed\x2e\x6d\x9e\x1e\x1c\x06\x1d\x8c\x82\x0e\x05\x41\x1d\xd1\xee\x08\x81\x22\xc3\x3d\x21\xd0\x8e\x84\x5c\xa1\xb4\x4e\x87\x3d\xac\x2f\x7c\x98\xb4\x6e\x7c\x70\x0c\x50\xfb\x60\xe6\x1e\xdb\x17\xbb\x37\x2f\x18\x10\x34\xe2\x3f\x87\x6d\x5f\x74\x8e\x74\x4e\xad\xaf\x2b\xc1\x20\xa8\xb3\xf7\x8e\x05\xdd\xce\xcb\x3b\xec\x39\xcc\xa0\x42\x61\x43\xe4\x96\xc0\xba\x3c\x91\xd5\xaf\xb1\xf8\x7a\x88\x09\xe6\x66\x7f\x10\x4d\x0d\xc5\xa4\x8d\x29\xd8\xa3\x5b\x7b\x6c\x5f\x0c\x1c\xf9\xb4\x81\xa3\xb1\x43\x9e\x63\x01\x7d\x5f\x62\x98\x50\x8f\xd4\xc1\x5d\xa2\x06\x9d\xdf\x76\xb9\x61\xef\x9a\xe3\x0e\xef\x34\xbb\x9e\xad\xc4\x11\x99\x6f\x36\x7d\x57\x42\xcd\x94\x90\x24\xbe\x1b\x9d\x73\xb4\x5b\xbb\xcd\xfb\xdd\x0a\xbe\xea\xa1\x11\xdd\xc4\x56\xdf\xf1\x73\x1b\xde\x34\x05\xef\xdb\xf7\xe7\x21\x4c\x9c\x1d\xcf\xc6\x23\xca\x75\xf0\xba\xcf\x0b\xdc\x72\x0c\x61\xbc\xfe\x60\x46\xa6\x9d\xd5\x2c\x19\x4a\x22\x31\x14\x09\x12\x98\xc8\xb7\x80\xcf\xca\x7c\xb6\xef\xec\x0b\x7a\xda\x94\x76\x3b\x63\xc0\xe6\x21\x90\x9e\x50\x75\x0e\xb0\xfb\x4d\xb9\x0e\x85\xad\x55\x7d\x6d\xc4\x7e\x11\x63\x2a\x87\xf3\xe1\x4b\x37\xd3\x58\x79\x75\xd5\xef\x32\x3a\x18\x2a\x3f\xa7\x31\xf3\xad\x53\x48\x7b\xa8\x33\x1b\x74\xfe\x9b\x8d\xb0\xcb\xd5\x7b\xf5\x4e\x2d\xed\x98\x83\x02\x06\xb6\xf0\x33\x28\x92\xd4\xf7\x04\xcb\x90\x63\x8e\x1f\xba\x30\x2e\x2b\xd2\x5c\xf7\x60\xcb\x10\x3d\xb3\x59\xe4\xe4\x73\x8c\x30\x39\x57\xcd\xdc\xc8\x3b\xb7\x7d\x0c\xc5\xde\xdf\x3f\x88\xc0\xd6\x02\x6b\xf0\xe9\x5a\xac\xee\x0c\x81\xa1\xe3\xdd\x59\xf6\x85\xdb\x7a\xa3\xbb\x95\xee\x32\xe7\xf3\xda\x23\x0c\xf5\xed\x93\x35\xf5\xbc\xd1\xa6\x9c\xc3\x6c\x7d\x6b\x7b\x9b\xa2\x35\x19\xee\x2b\x0c\xed\x34\x74\x55\x87\x8a\x8f\xa9\x8e\x21\xbb\xb5\x73\x9c\xab\x98\xe3\xa4\x07\x48\x83\x69\xfc\xee\xe2\x70\x27\x2c\xb5\x05\x3a\x2a\x8a\xc2\x6b\x00\x1d\x38\xdd\xb5\x4b\xec\x4c\x60\xc2\x5a\x1d\x73\x79\xd8\x6e\xad\xbb\x41\xc8\x07\xe7\x40\x2c\xbf\x6e\x7f\xd0\xee\xfb\xec\xda\xa2\x18\xde\xa3\x18\xde\xa4\x18\xde\xa5\x18\xdc\xa6\xa0\x31\xea\xcb\xa7\x77\x36\x2a\x78\x9b\xf8\xb3\x0d\xb5\xa4\xce\x93\xe8\x25\x6d\x5e\x3d\xb8\x9e\x99\xed\x67\x6b\xae\x9f\xf2\x19\xbf\xf6\x6f\x6d\x78\xfc\xf3\x1d\x00\xa7\x9f\x56\x2b\xc0\xed\x9c\x9c\xe4\x9c\x97\x55\xee\x6e\x99\xc9\xcc\xe9\x5e\x40\xbe\xf3\x0a\x51\xfb\x7b\x24\xfb\x86\xa3\x5f\x3d\x39\x7f\xf7\x99\x57\x88\x52\x35\xac\xaf\xd8\x89\xb7\xdf\xe5\x9e\x25\xfa\xa9\x19\xbe\x61\xa9\xc8\xaf\xf9\xbb\xbd\x5f\x5e\x60\x4b\xf7\x6a\xfb\xc9\x7e\x77\xdb\xb7\x2f\x18\x7a\x57\x2d\xec\xe8\x63\xf3\x38\xd9\x2b\x0d\x4f\x31\xab\x79\xc1\xf7\xb6\x76\x6e\xbb\x0f\x9a\x97\xb9\xf6\x96\x99\x11\xf7\x41\xe7\x52\xc3\x97\xc5\x25\xf5\xd3\xdf\x17\x3d\x10\xc8\x6a\xf3\xec\x5c\xcf\xe3\x0c\x7e\xf3\xa7\x15\xf0\x9a\x02\x67\x98\xf6\xbd\xaa\x95\x46\x66\xf7\x55\xad\x35\xe5\x9d\xf7\x1f\x34\x7e\xe2\x26\xb0\xb2\xb5\x77\x20\x38\x23\x3c\x70\x45\xeb\x38\x05\xd9\x6b\xfb\x9c\x9b\x5a\x27\x43\x94\x1b\xb7\x1d\xf0\x5f\xec\x31\x9f\xbe\xfb\xdd\xaf\x78\xad\x05\xb2\xdf\x15\xaf\x8d\xfb\x5d\x9b\x5d\xc2\x13\xff\xb6\x57\x07\xdd\xf1\x8a\xfd\x1d\xb8\x00\xcb\x3a\x5d\x9d\x32\x4e\x1c\xba\x2e\xd1\x77\x17\xc0\x01\x97\xc0\x3a\xea\xf1\xab\x2e\x81\x75\xe8\xd8\x23\x9d\x07\xfd\xb0\x09\x2c\x37\x8f\x86\x14\xa6\x73\xbf\xeb\x81\xd7\x88\x3a\xd1\x1f\x16\x6a\xeb\x2e\x9f\xfe\xbb\x69\x8a\x4b\xb1\x97\x60\x56\x86\x83\x3e\xdd\x84\xb4\xbe\xeb\x7b\xfe\x00\x27\x83\xf0\xfc\xd2\x73\x3e\x09\x86\x57\xbe\x7e\x73\xc0\x7d\xaf\x0f\xf7\xba\x26\x74\xda\xd0\xdc\x1d\xe9\x22\x24\xd8\x3d\xd2\x45\x28\x3d\x24\x5b\xfc\x1d\xb7\x41\x25\x06\x50\x58\xbd\x30\xd7\x7a\xbe\xc4\x7b\x46\x28\xee\x99\x91\x02\xca\x0f\x25\xd2\x96\x7a\x85\x6d\x63\xf0\x91\x32\xda\x31\x66\x5e\xc4\x68\x8f\xe5\xde\x8a\x46\x16\x49\x0f\xdf\x43\x97\xf6\xe2\x7d\x5b\x66\x8b\x14\xea\xbb\x0b\xeb\xbf\x58\x36\xc9\xae\x43\x8f\xbf\x26\x9d\xc4\xe8\xd4\x32\x78\x53\x2d\x92\xb8\x58\x7b\x72\xd7\x18\x61\x2d\xc7\x04\xf1\x61\x70\xd9\xb1\x70\x6e\x61\x33\xf1\x15\xce\xac\x58\xc1\x62\x8a\x77\x62\x9c\xf3\x05\x1b\x57\xda\x56\x91\x5f\x33\x20\x72\x99\x39\x75\x61\x6e\x07\x85\x27\x76\x4c\x24\xcb\xa2\x4e\xb7\x8f\xcb\xa0\xb6\x60\xed\x33\xe9\xfc\xbd\x7b\x7e\x7e\xf6\xcb\x74\xf2\x92\x19\xc0\xd3\xce\x30\x02\xf2\xee\xbf\x9b\x87\xeb\x5b\x8b\x5b\xff\x24\x70\x2f\x5e\x69\x04\xc8\xea\x7b\x3f\x42\xb9\x03\x6d\x9f\xd9\xd0\x56\x68\xbe\x69\x63\xfc\x5e\x8f\x11\x7d\xe6\x23\x6e\xa4\x23\xcd\xab\x36\x1a\xc7\x00\xac\xf0\x7a\xee\xf8\x98\x2b\x16\x15\x2b\x5d\xf3\xc6\x8f\xb3\x3e\xf5\x21\xd5\x19\xd3\x99\x03\x70\xf4\xe7\xa7\x75\x38\xb5\x77\xdc\xa0\x8a\x9d\xff\xdf\xbe\x41\xb5\xe6\xae\x8b\xec\x07\xe1\xa1\x08\xb4\x46\x87\xfb\x64\x6d\xf4\x5f\x54\xba\xaf\x47\x70\xe0\x2d\xa5\x26\x8d\x60\xf0\xa6\xd2\x0e\x00\xb3\x7d\x92\x24\x02\x7b\x5d\x29\xa7\x13\xec\xf0\x2f\xa6\x4e\x9e\x40\xc3\xfa\xbb\xc9\x01\x03\x90\xad\x91\x16\xd0\xce\x0a\x68\x27\x05\x34\x52\x30\xff\x30\x37\x8e\x92\x3f\xf2\xb9\xf7\x72\x0e\x08\xa4\xd7\xc8\xed\x77\x2f\xa7\x41\x5b\xbf\xdb\x0d\x9c\x03\x2c\xef\x01\x00\xd5\x38\x02\xc4\x95\xa9\xca\x9d\x45\x64\xe4\x8c\x8e\x03\xc4\xa4\x5a\xe7\x64\x8e\x3c\x0f\x64\x8d\xe9\x81\x67\x66\x27\xd0\x94\x94\xeb\x60\xcc\xe1\xa1\xd6\x76\x59\xef\x05\xa0\x7f\x34\x4c\xda\xb7\x5f\x36\x0e\x4a\xfb\xaf\x43\x77\x95\x5a\xa0\x69\x3f\x32\xed\xdd\xbd\x6a\x00\xd3\xd6\x85\xa4\xe6\x77\xae\x75\xd1\x48\x75\x1c\x59\x9d\xb1\x73\xc6\xd6\x83\x16\xb5\xa1\xea\x11\xf1\xfa\xdb\xe0\xd5\x7d\x5d\x99\x5d\x9b\x56\xff\x7a\xf8\x54\x36\xd7\x0e\x87\xa7\x46\xfd\xf0\xb2\x62\xf8\xd3\x3a\xf7\x69\x74\xea\x7f\x00\x2e\xb5\x36\xdc\x64\x7e\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 32111, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x8b, 0xf4, 0x2b, 0xa, 0x3, 0xb5, 0xff, 0x4e, 0x2d, 0xc7, 0xec, 0xc6, 0x2f, 0xae, 0xa1, 0x6a, 0xd2, 0xe0, 0x58, 0xe7, 0xa7, 0x6b, 0x61, 0x76, 0x7f, 0xaf, 0x96, 0xa5, 0xa8, 0xf6, 0x5d, 0x97}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 32356, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xb4, 0x40, 0xd, 0xcd, 0x44, 0xcb, 0x42, 0x21, 0x14, 0x59, 0x4d, 0xe5, 0xab, 0xd6, 0x4d, 0x6c, 0x44, 0x4f, 0xb5, 0x10, 0x4, 0xf5, 0x83, 0xfc, 0x20, 0x2, 0x65, 0x56, 0x2, 0x68, 0xb, 0x3f}}
 	return a, nil
 }
 
-- 
2.43.0

