From b66b5c6d1e98ea91cf15bcbca4fcd57e1ee8145e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 01/19] fix: check and lint report a path that cannot be
 stat'ed instead of panicking

---
 internal/app/check/check.go | 1 +
 internal/app/lint/lint.go   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/internal/app/check/check.go b/internal/app/check/check.go
index 507c040..8225fbd 100644
--- a/internal/app/check/check.go
+++ b/internal/app/check/check.go
@@ -24,6 +24,7 @@ func (f Check) Run(args []string) error {
 		stat, err := os.Stat(filename)
 		if err != nil {
 			result = multierror.Append(result, errors.Errorf("%s: %v", filename, err))
+			continue
 		}
 		if stat.IsDir() {
 			continue
diff --git a/internal/app/lint/lint.go b/internal/app/lint/lint.go
index 37f83f8..744fa5c 100644
--- a/internal/app/lint/lint.go
+++ b/internal/app/lint/lint.go
@@ -31,6 +31,7 @@ func (l Lint) Run(args []string) error {
 		stat, err := os.Stat(filename)
 		if err != nil {
 			result = multierror.Append(result, errors.Errorf("%s: %v", filename, err))
+			continue
 		}
 		if stat.IsDir() {
 			continue
-- 
2.43.0


From 727775b4c86400df7ffcab81dec8e88ab9d7a3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 02/19] fix: indentation keeps regular expressions and
 selectors containing quotes or newlines intact

---
 ast/ast_helper.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ast/ast_helper.go b/ast/ast_helper.go
index 20f165f..4e66f3b 100644
--- a/ast/ast_helper.go
+++ b/ast/ast_helper.go
@@ -10,9 +10,11 @@ import (
 // This regular expression splits the config into indentable chunks that are:
 // * empty line
 // * line of comment
-// * line without any quotes
-// * line(s) with quoted strings, which are kept together to form a single "line of configuration"
-var linesRe = regexp.MustCompile(`(\n|\s*#[^\n]*\n|[^'"\n]*\n|([^"'\n]*("(\\"|[^"])*"|'(\\'|[^'])*')[^"'\n]*)*\n)`)
+// * line(s) with quoted strings, regular expressions or selectors, which are
+//   kept together to form a single "line of configuration"
+// A selector is distinguished from an array by the first character, because
+// the opening bracket of an array is always followed by a newline or "]".
+var linesRe = regexp.MustCompile(`(\n|\s*#[^\n]*\n|([^"'/\[\n]|"(\\"|[^"])*"|'(\\'|[^'])*'|/(\\/|[^/])*/|\[[^\]\[,\n][^\]\[,]*\]|\[)*\n)`)
 
 func prefix(in string, emptyNewline bool) string {
 	if len(in) == 0 {
-- 
2.43.0


From a239215c563894f569215b5e73ca75834066f0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 03/19] fix: every printed plugin section carries its own
 comments

---
 ast/ast.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 30ac8cb..e53dcf8 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -146,9 +146,7 @@ func pluginSectionString(pluginType string, ps []PluginSection) string {
 
 	var s bytes.Buffer
 	for i, p := range ps {
-		if len(ps) > 0 {
-			s.WriteString(ps[0].CommentBlock.String())
-		}
+		s.WriteString(p.CommentBlock.String())
 		s.WriteString(fmt.Sprint(pluginType + " {"))
 		s.WriteString(prefix(p.String(), false))
 		s.WriteString(prefix(p.FooterComment.String(), false))
-- 
2.43.0


From 26074a80186d25eecd1af2a96c0b18c0dba6e35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 04/19] fix: numbers are printed without loss of value

---
 ast/ast.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ast/ast.go b/ast/ast.go
index e53dcf8..7eb9877 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"strconv"
 	"strings"
 )
 
@@ -481,7 +482,11 @@ func (na NumberAttribute) ValueString() string {
 		if float64(int64(na.Value())+0) == na.Value() {
 			return fmt.Sprintf("%d", int64(na.Value()))
 		}
-		return strings.TrimRight(fmt.Sprintf("%.10f", na.Value()), "0")
+		fixed := strings.TrimRight(fmt.Sprintf("%.10f", na.Value()), "0")
+		if f, err := strconv.ParseFloat(fixed, 64); err != nil || f != na.Value() {
+			return strconv.FormatFloat(na.Value(), 'f', -1, 64)
+		}
+		return fixed
 	}
 	return value
 }
-- 
2.43.0


From a5be5ae4b5fb79d9cf97340dc135a57eb36b786e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 05/19] fix: quoting recognises an unescaped quote at the
 second byte

---
 ast/astutil/quote.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ast/astutil/quote.go b/ast/astutil/quote.go
index 206482d..2d40b63 100644
--- a/ast/astutil/quote.go
+++ b/ast/astutil/quote.go
@@ -19,7 +19,7 @@ func Quote(value string, quoteType ast.StringAttributeType) (string, error) {
 		var hasQuote bool
 		quote := quoteType.String()[0]
 		for i := 0; i < len(value); i++ {
-			if value[i] == quote && i > 1 && value[i-1] != '\\' {
+			if value[i] == quote && (i == 0 || value[i-1] != '\\') {
 				hasQuote = true
 				break
 			}
@@ -67,7 +67,7 @@ func escapeQuotes(value string, quote byte) string {
 	b := []byte(value)
 
 	for i := 0; i < len(b); i++ {
-		if b[i] == quote && (i == 0 || i > 1 && b[i-1] != '\\') {
+		if b[i] == quote && (i == 0 || b[i-1] != '\\') {
 			b = append(b[:i], append([]byte{'\\'}, b[i:]...)...)
 		}
 	}
-- 
2.43.0


From 763d836acb73c2147654b1823694987539278523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 06/19] fix: Quote rejects a value whose trailing backslash
 would escape the closing quote

---
 ast/astutil/quote.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ast/astutil/quote.go b/ast/astutil/quote.go
index 2d40b63..adec03a 100644
--- a/ast/astutil/quote.go
+++ b/ast/astutil/quote.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"regexp"
+	"strings"
 
 	"github.com/breml/logstash-config/ast"
 )
@@ -28,6 +29,9 @@ func Quote(value string, quoteType ast.StringAttributeType) (string, error) {
 		if hasQuote {
 			return "", errors.New("value %q contains unescaped quotes and can not be quoted without escaping")
 		}
+		if strings.HasSuffix(value, `\`) {
+			return "", errors.New("value ends with a backslash, which would escape the closing quote")
+		}
 		return quoteType.String() + value + quoteType.String(), nil
 
 	case ast.Bareword:
-- 
2.43.0


From 3ed8e40931b3bb51d2f6235a0f84363b6a5cc994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 07/19] fix: concurrent parses no longer race on the recorded
 farthest failure

---
 logstash_config_helper.go |  3 +++
 parse_error_helper.go     | 13 +++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/logstash_config_helper.go b/logstash_config_helper.go
index c60e9f1..d243900 100644
--- a/logstash_config_helper.go
+++ b/logstash_config_helper.go
@@ -28,6 +28,9 @@ func (c *current) initState() error {
 }
 
 func (c *current) initParser() (bool, error) {
+	farthestFailureMu.Lock()
+	defer farthestFailureMu.Unlock()
+
 	farthestFailure = []errPos{}
 	return true, nil
 }
diff --git a/parse_error_helper.go b/parse_error_helper.go
index ac32c01..e69777c 100644
--- a/parse_error_helper.go
+++ b/parse_error_helper.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"strings"
+	"sync"
 )
 
 type errPos struct {
@@ -12,11 +13,17 @@ type errPos struct {
 	pos int
 }
 
+// farthestFailureMu guards farthestFailure against concurrent parses.
+var farthestFailureMu sync.Mutex
+
 var farthestFailure []errPos
 
 // GetFarthestFailure returns the farthest position where the parser had a parse error.
 // The farthest position is normally close to the real source for the error.
 func GetFarthestFailure() (string, bool) {
+	farthestFailureMu.Lock()
+	defer farthestFailureMu.Unlock()
+
 	if len(farthestFailure) > 0 {
 		var bb bytes.Buffer
 		bb.WriteString(fmt.Sprintf("Parsing error at pos %s and [%d] (after: '%s'):\n", farthestFailure[0].c.pos, farthestFailure[0].pos, showNewline(string(farthestFailure[0].c.text))))
@@ -43,6 +50,9 @@ func pos(c *current) int {
 // the parsing fails.
 // The assumption is, that the longest successful parse tree is the most acurate.
 func (c *current) pushError(errorMsg string) (bool, error) {
+	farthestFailureMu.Lock()
+	defer farthestFailureMu.Unlock()
+
 	pos := pos(c)
 	if len(farthestFailure) == 0 || pos > farthestFailure[0].pos {
 		farthestFailure = []errPos{{msg: errorMsg, c: *c, pos: pos}}
@@ -63,6 +73,7 @@ func (c *current) pushError(errorMsg string) (bool, error) {
 // In most cases this is a missing closing character of a pair, which was opened before.
 // Example: a missing closing square bracket or a missing closing double quote.
 func (c *current) fatalError(errorMsg string) (bool, error) {
+	farthestFailureMu.Lock()
 	farthestFailure = []errPos{
 		{
 			msg: errorMsg,
@@ -70,6 +81,8 @@ func (c *current) fatalError(errorMsg string) (bool, error) {
 			pos: pos(c),
 		},
 	}
+	farthestFailureMu.Unlock()
+
 	var bb bytes.Buffer
 	bb.WriteString(fmt.Sprintf("Parsing error at pos %s and [%d] (after: '%s'):\n", c.pos, pos(c), showNewline(string(c.text))))
 	bb.WriteString(fmt.Sprintf("-> %s\n", errorMsg))
-- 
2.43.0


From 36f559667160658ddfc5062c7115b4cbc93e0224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 08/19] fix: a file that cannot be read is not blamed with the
 parse error of an earlier file

---
 internal/app/check/check.go   | 3 ++-
 internal/app/format/format.go | 3 ++-
 internal/app/lint/lint.go     | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/app/check/check.go b/internal/app/check/check.go
index 8225fbd..802a90d 100644
--- a/internal/app/check/check.go
+++ b/internal/app/check/check.go
@@ -32,7 +32,8 @@ func (f Check) Run(args []string) error {
 
 		_, err = config.ParseFile(filename, config.IgnoreComments(true))
 		if err != nil {
-			if errMsg, hasErr := config.GetFarthestFailure(); hasErr {
+			var pathErr *os.PathError
+			if errMsg, hasErr := config.GetFarthestFailure(); hasErr && !errors.As(err, &pathErr) {
 				if !strings.Contains(err.Error(), errMsg) {
 					err = errors.Errorf("%s: %v\n%s", filename, err, errMsg)
 				}
diff --git a/internal/app/format/format.go b/internal/app/format/format.go
index 33ef8f0..9cf77c1 100644
--- a/internal/app/format/format.go
+++ b/internal/app/format/format.go
@@ -36,7 +36,8 @@ func (f Format) Run(args []string) error {
 
 		c, err := config.ParseFile(filename)
 		if err != nil {
-			if errMsg, hasErr := config.GetFarthestFailure(); hasErr {
+			var pathErr *os.PathError
+			if errMsg, hasErr := config.GetFarthestFailure(); hasErr && !errors.As(err, &pathErr) {
 				if !strings.Contains(err.Error(), errMsg) {
 					return errors.Errorf("%s: %v\n%s", filename, err, errMsg)
 				}
diff --git a/internal/app/lint/lint.go b/internal/app/lint/lint.go
index 744fa5c..7ecd2f1 100644
--- a/internal/app/lint/lint.go
+++ b/internal/app/lint/lint.go
@@ -39,7 +39,8 @@ func (l Lint) Run(args []string) error {
 
 		c, err := config.ParseFile(filename, config.ExceptionalCommentsWarning(true))
 		if err != nil {
-			if errMsg, hasErr := config.GetFarthestFailure(); hasErr {
+			var pathErr *os.PathError
+			if errMsg, hasErr := config.GetFarthestFailure(); hasErr && !errors.As(err, &pathErr) {
 				if !strings.Contains(err.Error(), errMsg) {
 					err = errors.Errorf("%s: %v\n%s", filename, err, errMsg)
 				}
-- 
2.43.0


From 24bc39e9fc575e7338f00e4924a6cae64e2ffbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 09/19] fix: Plugin.ID finds an id attribute whose name is
 quoted

---
 ast/ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/ast.go b/ast/ast.go
index 7eb9877..a8f5b10 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -301,7 +301,7 @@ func (p Plugin) String() string {
 // the NotFounder interface.
 func (p Plugin) ID() (string, error) {
 	for _, attr := range p.Attributes {
-		if attr != nil && attr.Name() == "id" {
+		if attr != nil && strings.Trim(attr.Name(), `"'`) == "id" {
 			switch stringAttr := attr.(type) {
 			case StringAttribute:
 				return stringAttr.value, nil
-- 
2.43.0


From 302bfb6da037be2a98659b39ccb6f1802489f045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 10/19] fix: in-place rewriting reports every write error and
 renders before truncating the file

---
 internal/app/format/format.go | 19 +++----------------
 internal/app/lint/lint.go     | 18 ++++--------------
 2 files changed, 7 insertions(+), 30 deletions(-)

diff --git a/internal/app/format/format.go b/internal/app/format/format.go
index 9cf77c1..da2aa0e 100644
--- a/internal/app/format/format.go
+++ b/internal/app/format/format.go
@@ -46,23 +46,10 @@ func (f Format) Run(args []string) error {
 		}
 
 		if f.writeToSource {
-			err := func() error {
-				f, err := os.Create(filename)
-				if err != nil {
-					return errors.Wrap(err, "failed to open file for writting with automatically fixed ID")
-				}
-				defer f.Close()
-
-				conf := c.(ast.Config)
-				_, err = f.WriteString(conf.String())
-				if err != nil {
-					return errors.Wrap(err, "failed to write file with automatically fixed ID")
-				}
-
-				return nil
-			}()
+			conf := c.(ast.Config)
+			err := os.WriteFile(filename, []byte(conf.String()), 0o666)
 			if err != nil {
-				return err
+				return errors.Wrap(err, "failed to write formatted file")
 			}
 			continue
 		}
diff --git a/internal/app/lint/lint.go b/internal/app/lint/lint.go
index 7ecd2f1..1e81346 100644
--- a/internal/app/lint/lint.go
+++ b/internal/app/lint/lint.go
@@ -86,20 +86,10 @@ func (l Lint) Run(args []string) error {
 		}
 
 		if l.autoFixID && v.changed {
-			func() {
-				f, err := os.Create(filename)
-				if err != nil {
-					result = multierror.Append(result, errors.Wrap(err, "failed to open file for writting with automatically fixed ID"))
-					return
-				}
-				defer f.Close()
-
-				_, err = f.WriteString(conf.String())
-				if err != nil {
-					result = multierror.Append(result, errors.Wrap(err, "failed to write file with automatically fixed ID"))
-					return
-				}
-			}()
+			err := os.WriteFile(filename, []byte(conf.String()), 0o666)
+			if err != nil {
+				result = multierror.Append(result, errors.Wrap(err, "failed to write file with automatically fixed ID"))
+			}
 		}
 	}
 
-- 
2.43.0


From 21f1dcb6d86ff02d869f13250f170b9f6a949e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:33 +0000
Subject: [PATCH 11/19] fix: format reports a failure to write its output

---
 internal/app/format/format.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/app/format/format.go b/internal/app/format/format.go
index da2aa0e..0f2b345 100644
--- a/internal/app/format/format.go
+++ b/internal/app/format/format.go
@@ -54,7 +54,9 @@ func (f Format) Run(args []string) error {
 			continue
 		}
 
-		fmt.Fprint(f.out, c)
+		if _, err := fmt.Fprint(f.out, c); err != nil {
+			return errors.Errorf("%s: %v", filename, err)
+		}
 	}
 
 	return nil
-- 
2.43.0


From ee78db19cfd24b8076456290753c967f993c3b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:35 +0000
Subject: [PATCH 12/19] fix: lint warnings name the file they belong to

---
 internal/app/lint/lint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/app/lint/lint.go b/internal/app/lint/lint.go
index 1e81346..85a409c 100644
--- a/internal/app/lint/lint.go
+++ b/internal/app/lint/lint.go
@@ -50,7 +50,7 @@ func (l Lint) Run(args []string) error {
 		}
 		conf := c.(ast.Config)
 		for _, warning := range conf.Warnings {
-			result = multierror.Append(result, errors.New(warning))
+			result = multierror.Append(result, errors.Errorf("%s: %s", filename, warning))
 		}
 
 		v := validator{
-- 
2.43.0


From 2ec18833bfc0c8134ed15dfd6c3d07c62b0ac971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 13/19] fix: automatically added ids are valid strings, unique
 within the file and only added where none exists

---
 internal/app/lint/lint.go | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/internal/app/lint/lint.go b/internal/app/lint/lint.go
index 85a409c..74291db 100644
--- a/internal/app/lint/lint.go
+++ b/internal/app/lint/lint.go
@@ -3,6 +3,7 @@ package lint
 import (
 	"fmt"
 	"os"
+	"regexp"
 	"strings"
 
 	"github.com/hashicorp/go-multierror"
@@ -55,9 +56,16 @@ func (l Lint) Run(args []string) error {
 
 		v := validator{
 			autoFixID: l.autoFixID,
+			usedIDs:   map[string]struct{}{},
 			allIDs:    map[string]struct{}{},
 		}
 
+		for _, sections := range [][]ast.PluginSection{conf.Input, conf.Filter, conf.Output} {
+			for i := range sections {
+				astutil.ApplyPlugins(sections[i].BranchOrPlugins, v.collectID)
+			}
+		}
+
 		for i := range conf.Input {
 			astutil.ApplyPlugins(conf.Input[i].BranchOrPlugins, v.walk)
 		}
@@ -107,21 +115,44 @@ type validator struct {
 	autoFixID    bool
 	changed      bool
 	duplicateIDs []string
+	usedIDs      map[string]struct{}
 	allIDs       map[string]struct{}
 }
 
+func (v *validator) collectID(c *astutil.Cursor) {
+	if id, err := c.Plugin().ID(); err == nil {
+		v.usedIDs[id] = struct{}{}
+	}
+}
+
+var nonIDRe = regexp.MustCompile("[^A-Za-z0-9_-]")
+
+// newID returns an ID, that is not used by any other plugin of the file and
+// that does not need any escaping.
+func (v *validator) newID(name string) string {
+	name = nonIDRe.ReplaceAllString(strings.Trim(name, `"'`), "_")
+	id := fmt.Sprintf("%s-%d", name, v.count)
+	for n := 1; ; n++ {
+		if _, ok := v.usedIDs[id]; !ok {
+			v.usedIDs[id] = struct{}{}
+			return id
+		}
+		id = fmt.Sprintf("%s-%d-%d", name, v.count, n)
+	}
+}
+
 func (v *validator) walk(c *astutil.Cursor) {
 	v.count++
 
 	id, err := c.Plugin().ID()
 	if err != nil {
-		if v.autoFixID {
+		if v.autoFixID && ast.IsNotFoundError(err) {
 			v.changed = true
 
 			plugin := c.Plugin()
-			plugin.Attributes = append(plugin.Attributes, ast.NewStringAttribute("id", fmt.Sprintf("%s-%d", c.Plugin().Name(), v.count), ast.DoubleQuoted))
+			plugin.Attributes = append(plugin.Attributes, ast.NewStringAttribute("id", v.newID(plugin.Name()), ast.DoubleQuoted))
 
-			c.Replace(plugin)
+			c.Replace(*plugin)
 		} else {
 			v.noIDs = append(v.noIDs, fmt.Sprintf("%s: %s", c.Plugin().Pos().String(), c.Plugin().Name()))
 		}
-- 
2.43.0


From 512457bedbdf19ab497627250ad3753e0a748f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 14/19] fix: printing an in-expression or hash entry with a
 missing operand does not panic

---
 ast/ast.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ast/ast.go b/ast/ast.go
index a8f5b10..1646956 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -652,6 +652,9 @@ func NewHashEntry(name HashEntryKey, value Attribute) HashEntry {
 
 // Name returns the name of the attribute.
 func (he HashEntry) Name() string {
+	if he.Key == nil {
+		return ""
+	}
 	return he.Key.ValueString()
 }
 
@@ -1001,7 +1004,15 @@ func NewInExpression(boolOperator BooleanOperator, lvalue Rvalue, rvalue Rvalue)
 
 // String returns a string representation of an in expression.
 func (ie InExpression) String() string {
-	return fmt.Sprintf("%v%v in %v", ie.BoolExpression, ie.LValue.ValueString(), ie.RValue.ValueString())
+	var lvalue string
+	var rvalue string
+	if ie.LValue != nil {
+		lvalue = ie.LValue.ValueString()
+	}
+	if ie.RValue != nil {
+		rvalue = ie.RValue.ValueString()
+	}
+	return fmt.Sprintf("%v%v in %v", ie.BoolExpression, lvalue, rvalue)
 }
 
 // A NotInExpression node defines a not in expression.
-- 
2.43.0


From a4d6411ff808f6529aeb962c887ccb12cbadb905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 15/19] fix: Cursor.InsertBefore keeps the cursor on the
 current plugin

---
 ast/astutil/apply.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/astutil/apply.go b/ast/astutil/apply.go
index 24c9e57..479ed9a 100644
--- a/ast/astutil/apply.go
+++ b/ast/astutil/apply.go
@@ -123,7 +123,7 @@ func (c *Cursor) InsertBefore(p ast.BranchOrPlugin) {
 		panic("InsertBefore plugin not contained in slice")
 	}
 	c.parent = append(c.parent[:i], append([]ast.BranchOrPlugin{p}, c.parent[i:]...)...)
-	c.iter.step++
+	c.iter.index++
 }
 
 // InsertAfter inserts p after the current Plugin in its containing slice.
-- 
2.43.0


From 04714f3e96b22388ef8b5d9e986afed48fd41ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 16/19] fix: a plugin is kept as array element and accepted as
 hash value

---
 logstash_config_helper.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/logstash_config_helper.go b/logstash_config_helper.go
index d243900..6473714 100644
--- a/logstash_config_helper.go
+++ b/logstash_config_helper.go
@@ -204,7 +204,10 @@ func (c *current) plugin(name1, attributes1, comment1, footerComment1 interface{
 }
 
 func (c *current) attributes(attribute1, attributes1, comment1 interface{}) ([]ast.Attribute, error) {
-	attribute, _ := c.attributeComment(attribute1, comment1, false)
+	attribute, err := c.attributeComment(attribute1, comment1, false)
+	if err != nil {
+		return nil, err
+	}
 	iattributes := toIfaceSlice(attribute)
 	iattributes = append(iattributes, toIfaceSlice(attributes1)...)
 
@@ -239,6 +242,11 @@ func (c *current) attributeComment(attribute1, comment1 interface{}, spaceBefore
 	case ast.PluginAttribute:
 		attr.Comment = c.commentBlock(comment1, spaceBefore, false)
 		attribute = attr
+	case ast.Plugin:
+		pa := ast.NewPluginAttribute("", attr)
+		pa.Start = attr.Pos()
+		pa.Comment = c.commentBlock(comment1, spaceBefore, false)
+		attribute = pa
 	default:
 		return nil, fmt.Errorf("Unsupported attribute type %#v", attribute1)
 	}
@@ -364,6 +372,12 @@ func (c *current) hashentries(attribute, attributes1 interface{}) ([]ast.HashEnt
 func (c *current) hashentry(name, value, comment interface{}) (ast.HashEntry, error) {
 	key := name.(ast.HashEntryKey)
 
+	if plugin, ok := value.(ast.Plugin); ok {
+		pa := ast.NewPluginAttribute("", plugin)
+		pa.Start = plugin.Pos()
+		value = pa
+	}
+
 	he := ast.NewHashEntry(key, value.(ast.Attribute))
 	he.Start = c.astPos()
 	he.Comment = c.commentBlock(comment, true, false)
-- 
2.43.0


From 1393461ba1bef4132dbb186104cfb61ef856a7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 17/19] fix: numbers, arrays and hashes carry their source
 position

---
 logstash_config_helper.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/logstash_config_helper.go b/logstash_config_helper.go
index 6473714..852d3a6 100644
--- a/logstash_config_helper.go
+++ b/logstash_config_helper.go
@@ -318,7 +318,9 @@ func (c *current) number() (ast.NumberAttribute, error) {
 		// TODO: is this possible to happen? are all values, which are valid floats in Logstash/Ruby also valid floats in Go?
 		return ast.NumberAttribute{}, err
 	}
-	return ast.NewNumberAttribute("", f), nil
+	na := ast.NewNumberAttribute("", f)
+	na.Start = c.astPos()
+	return na, nil
 }
 
 func (c *current) array(attributes1, footerComment1 interface{}) (ast.ArrayAttribute, error) {
@@ -328,7 +330,7 @@ func (c *current) array(attributes1, footerComment1 interface{}) (ast.ArrayAttri
 	}
 
 	a := ast.NewArrayAttribute("", attributes...)
-
+	a.Start = c.astPos()
 	a.FooterComment = c.commentBlock(footerComment1, false, false)
 
 	return a, nil
@@ -341,7 +343,7 @@ func (c *current) hash(attributes1, footerComment1 interface{}) (ast.HashAttribu
 	}
 
 	a := ast.NewHashAttribute("", hashentries...)
-
+	a.Start = c.astPos()
 	a.FooterComment = c.commentBlock(footerComment1, false, false)
 
 	return a, nil
-- 
2.43.0


From 14587e3b92d4da5150713afb83136312504243c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:01 +0000
Subject: [PATCH 18/19] fix: refuse to quote values that are not valid UTF-8

The grammar does not read back a token containing invalid UTF-8, so Quote
has to return an error for such values.
---
 ast/astutil/quote.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ast/astutil/quote.go b/ast/astutil/quote.go
index adec03a..93c4e9a 100644
--- a/ast/astutil/quote.go
+++ b/ast/astutil/quote.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"regexp"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/breml/logstash-config/ast"
 )
@@ -29,6 +30,9 @@ func Quote(value string, quoteType ast.StringAttributeType) (string, error) {
 		if hasQuote {
 			return "", errors.New("value %q contains unescaped quotes and can not be quoted without escaping")
 		}
+		if !utf8.ValidString(value) {
+			return "", errors.New("value is not valid UTF-8, which can not be parsed")
+		}
 		if strings.HasSuffix(value, `\`) {
 			return "", errors.New("value ends with a backslash, which would escape the closing quote")
 		}
-- 
2.43.0


From 44ac30add9dd1bdc878b5ac5c59a3e817a46b6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:15 +0000
Subject: [PATCH 19/19] fix: hash entries start at their name, not at the white
 space before it

---
 logstash_config_helper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logstash_config_helper.go b/logstash_config_helper.go
index 852d3a6..8883b12 100644
--- a/logstash_config_helper.go
+++ b/logstash_config_helper.go
@@ -381,7 +381,7 @@ func (c *current) hashentry(name, value, comment interface{}) (ast.HashEntry, er
 	}
 
 	he := ast.NewHashEntry(key, value.(ast.Attribute))
-	he.Start = c.astPos()
+	he.Start = key.Pos()
 	he.Comment = c.commentBlock(comment, true, false)
 
 	return he, nil
-- 
2.43.0

