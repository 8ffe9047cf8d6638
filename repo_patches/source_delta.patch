From f7d80190bd5d0720267d4e54068fee563afa0fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:36 +0000
Subject: [PATCH 1/9] fix: report an unclosed bracket instead of recursing
 forever at end of input

---
 internal/validator/validator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/validator/validator.go b/internal/validator/validator.go
index c3207ab..a7c4e54 100644
--- a/internal/validator/validator.go
+++ b/internal/validator/validator.go
@@ -149,6 +149,9 @@ func (v *validator) validateBrackets(set bool) error {
 
 
 func (v *validator) validateBracketsAux(set bool) error {
+	if v.isOutOfRange() {
+		return v.syntaxError()
+	}
 	if v.matchToken(")") {
 		return nil
 	}
-- 
2.43.0


From 356ccb95e8348e2aacebafd38be2e7b15f6d97f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:36 +0000
Subject: [PATCH 2/9] fix: convert REFERENCES with a schema-qualified table
 name

---
 internal/converter/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index d2e4919..754a92b 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -369,7 +369,7 @@ func (c *converter) convertLiteralValue() interface{} {
 func (c *converter) convertReference() types.Reference {
 	var reference types.Reference
 	c.next() // skip "REFERENCES"
-	reference.TableName = c.convertName()
+	_, reference.TableName = c.convertTableName()
 	if c.matchToken("(") {
 		reference.ColumnNames = c.convertCommaSeparatedColumnNames()
 	}
-- 
2.43.0


From 4cb98f7c5663adf9736a9b3e805ef1b98eb6d152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:36 +0000
Subject: [PATCH 3/9] fix: drop MySQL INDEX, FULLTEXT and SPATIAL keys from the
 validated tokens completely

---
 internal/validator/validator_mysql.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index e07ef03..0eeb160 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -193,7 +193,7 @@ func (v *mysqlValidator) validateIndexKeys(set bool) error {
 	if err := v.validateIndexKeysAux(set); err != nil {
 		return err
 	}
-	if err := v.validateToken(true, ")"); err != nil {
+	if err := v.validateToken(set, ")"); err != nil {
 		return err
 	}
 	return nil
@@ -752,7 +752,7 @@ func (v *mysqlValidator) validateTableConstraintAux() error {
 	if v.matchTokenNext(false, "FULLTEXT", "SPATIAL") {
 		v.matchTokenNext(false, "INDEX", "KEY")
 		if !v.matchToken("(") {
-			if err := v.validateName(true); err != nil {
+			if err := v.validateName(false); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From 4b6b8efaf578b8d183da918646e7ce6832d874bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:36 +0000
Subject: [PATCH 4/9] fix: return the error from ParseForce when every dialect
 rejects the script

---
 ddlparse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ddlparse.go b/ddlparse.go
index 0303e95..449d0f8 100644
--- a/ddlparse.go
+++ b/ddlparse.go
@@ -65,9 +65,10 @@ func ParseMySQL(ddl string) ([]Table, error) {
 
 func ParseForce(ddl string) ([]Table, error) {
 	ls := []Rdbms{SQLite, PostgreSQL, MySQL}
+	var tables []Table
 	var err error
 	for _, rdbms := range ls {
-		tables, err := Parse(ddl, rdbms)
+		tables, err = Parse(ddl, rdbms)
 		if err == nil {
 			return tables, nil
 		}
-- 
2.43.0


From e178eaa083118b7cc462955c97c6be4c87f5544e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:36 +0000
Subject: [PATCH 5/9] fix: lex a comment that directly follows another comment

---
 internal/lexer/lexer.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 067a26a..28a337a 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -129,14 +129,7 @@ func (l *lexer) lex() error {
 			if err := l.lexAsterisk(&token); err != nil {
 				return err
 			}
-		}
-
-		if l.isOutOfRange() {
-			break
-		}
-
-		c = l.char()
-		if c == "\"" {
+		} else if c == "\"" {
 			if err := l.lexDoubleQuote(&token); err != nil {
 				return err
 			}
-- 
2.43.0


From 7efb6e3cf77a66a2e40812231e823fa11625451c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:36 +0000
Subject: [PATCH 6/9] fix: skip the comma left by an unconverted element at the
 start of a table definition

---
 internal/converter/converter.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index 754a92b..cd33a74 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -187,6 +187,10 @@ func (c *converter) convertTableDefinition() ([]types.Column, types.TableConstra
 	var columns []types.Column
 	var constraints types.TableConstraint
 	for !c.matchToken(")") {
+		if c.matchToken(",") {
+			c.next() // left over from an element that is not converted
+			continue
+		}
 		if (c.matchToken("CONSTRAINT", "PRIMARY", "UNIQUE", "CHECK", "FOREIGN")) {
 			c.convertTableConstraint(&constraints);
 		} else {
-- 
2.43.0


From 304ab386243fa31edeaa169fa7e12caf31319db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:45 +0000
Subject: [PATCH 7/9] fix: validate and convert nested brackets without
 recursion

A script of a few megabytes of opening brackets ended the process with a
stack overflow instead of a ValidateError.
---
 internal/converter/converter.go | 21 ++++++++---------
 internal/validator/validator.go | 41 +++++++++++----------------------
 2 files changed, 24 insertions(+), 38 deletions(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index cd33a74..68c0ada 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -333,18 +333,17 @@ func (c *converter) convertDefaultValue() interface{} {
 
 
 func (c *converter) convertExpr() string {
-	return c.next() + c.convertExprAux() + c.next()
-}
-
-
-func (c *converter) convertExprAux() string {
-	if c.matchToken(")") {
-		return ""
-	}
-	if c.matchToken("(") {
-		return c.convertExpr() + c.convertExprAux()
+	var expr strings.Builder
+	expr.WriteString(c.next())
+	for depth := 1; depth > 0 && !c.isOutOfRange(); {
+		if c.matchToken("(") {
+			depth += 1
+		} else if c.matchToken(")") {
+			depth -= 1
+		}
+		expr.WriteString(c.next())
 	}
-	return c.next() + c.convertExprAux()
+	return expr.String()
 }
 
 
diff --git a/internal/validator/validator.go b/internal/validator/validator.go
index a7c4e54..a8cd7ee 100644
--- a/internal/validator/validator.go
+++ b/internal/validator/validator.go
@@ -138,33 +138,20 @@ func (v *validator) validateBrackets(set bool) error {
 	if err := v.validateToken(set, "("); err != nil {
 		return err
 	}
-	if err := v.validateBracketsAux(set); err != nil {
-		return err
-	}
-	if err := v.validateToken(set, ")"); err != nil {
-		return err
+	for depth := 1; depth > 0; {
+		if v.isOutOfRange() {
+			return v.syntaxError()
+		}
+		if v.matchToken("(") {
+			depth += 1
+		} else if v.matchToken(")") {
+			depth -= 1
+		}
+		if set {
+			v.set(v.next())
+		} else {
+			v.next()
+		}
 	}
 	return nil
 }
-
-
-func (v *validator) validateBracketsAux(set bool) error {
-	if v.isOutOfRange() {
-		return v.syntaxError()
-	}
-	if v.matchToken(")") {
-		return nil
-	}
-	if v.matchToken("(") {
-		if err := v.validateBrackets(set); err != nil {
-			return err
-		}
-		return v.validateBracketsAux(set)
-	}
-	if set {
-		v.set(v.next())
-	} else {
-		v.next()
-	}
-	return v.validateBracketsAux(set)
-}
\ No newline at end of file
-- 
2.43.0


From 9b58188576fafab81e8533c5eefbe0057e535a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:01 +0000
Subject: [PATCH 8/9] fix: lex nested quotes and nested comment openings
 without recursion

A script of a few megabytes of alternating quotes, or of comment openings,
ended the process with a stack overflow instead of a ValidateError.
---
 internal/lexer/lexer.go | 114 ++++++++--------------------------------
 1 file changed, 23 insertions(+), 91 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 28a337a..56fc6bf 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -1,6 +1,8 @@
 package lexer
 
 import (
+	"strings"
+
 	"github.com/kodaimura/ddlparse/internal/common"
 )
 
@@ -221,7 +223,7 @@ func (l *lexer) lexDoubleQuote(token *string) error {
 	if c == "\"" {
 		l.appendToken(*token)
 		*token = ""
-		str, err := l.lexStringDoubleQuote()
+		str, err := l.lexString()
 		if err != nil {
 			return err
 		}
@@ -236,7 +238,7 @@ func (l *lexer) lexSingleQuote(token *string) error {
 	if c == "'" {
 		l.appendToken(*token)
 		*token = ""
-		str, err := l.lexStringSingleQuote()
+		str, err := l.lexString()
 		if err != nil {
 			return err
 		}
@@ -254,7 +256,7 @@ func (l *lexer) lexBackQuote(token *string) error {
 	if c == "`" {
 		l.appendToken(*token)
 		*token = ""
-		str, err := l.lexStringBackQuote()
+		str, err := l.lexString()
 		if err != nil {
 			return err
 		}
@@ -348,7 +350,8 @@ func (l *lexer) skipMultiLineComment() error {
 		} else if c == "/" {
 			l.next()
 			if l.char() == "*" {
-				return l.skipMultiLineComment()
+				l.next()
+				continue
 			}
 		}
 		l.next()
@@ -357,100 +360,29 @@ func (l *lexer) skipMultiLineComment() error {
 }
 
 
-func (l *lexer) lexStringDoubleQuote() (string, error) {
-	l.next()
-	str := "\""
-	c := ""
-	for !l.isOutOfRange() {
-		c = l.char()
-		if c == "\n" {
-			l.line += 1
-			l.appendToken("\n")
-		} else if c == "\"" {
-			l.next()
-			return str + c, nil
-		} else if c == "'" {
-			s, err := l.lexStringSingleQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
-		} else if c == "`" {
-			s, err := l.lexStringBackQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
-		} else {
-			str += c
-		}
-		l.next()
-	}
-	return str, l.lexError()
-}
-
-
-func (l *lexer) lexStringSingleQuote() (string, error) {
-	l.next()
-	str := "'"
-	c := ""
+func (l *lexer) lexString() (string, error) {
+	var str strings.Builder
+	quotes := []string{} // the quotes that are open, the innermost last
 	for !l.isOutOfRange() {
-		c = l.char()
+		c := l.char()
 		if c == "\n" {
 			l.line += 1
 			l.appendToken("\n")
-		} else if c == "'" {
-			l.next()
-			return str + c, nil			
-		} else if c == "\"" {
-			s, err := l.lexStringDoubleQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
-		} else if c == "`" {
-			s, err := l.lexStringBackQuote()
-			str += s
-			if err != nil {
-				return str, err
+		} else if c == "\"" || c == "'" || c == "`" {
+			str.WriteString(c)
+			if n := len(quotes); n > 0 && quotes[n-1] == c {
+				quotes = quotes[:n-1]
+				l.next()
+				if n == 1 {
+					return str.String(), nil
+				}
+			} else {
+				quotes = append(quotes, c)
 			}
 		} else {
-			str += c
+			str.WriteString(c)
 		}
 		l.next()
 	}
-	return str, l.lexError()
+	return str.String(), l.lexError()
 }
-
-
-func (l *lexer) lexStringBackQuote() (string, error) {
-	l.next()
-	str := "`"
-	c := ""
-	for !l.isOutOfRange() {
-		c = l.char()
-		if c == "\n" {
-			l.line += 1
-			l.appendToken("\n")
-		} else if c == "`" {
-			l.next()
-			return str + c, nil			
-		} else if c == "\"" {
-			s, err := l.lexStringDoubleQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
-		} else if c == "'" {
-			s, err := l.lexStringSingleQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
-		} else {
-			str += c
-		}
-		l.next()
-	}
-	return str, l.lexError()
-}
\ No newline at end of file
-- 
2.43.0


From 88e067a0b44a4b496b02e8cc6616f20a33c121f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:02 +0000
Subject: [PATCH 9/9] fix: validate name lists and convert tables without
 recursion

A list of some millions of names in a key, or a script of some millions of
tables, ended the process with a stack overflow.
---
 internal/converter/converter.go            |  5 +-
 internal/validator/validator_mysql.go      | 55 ++++++++++++----------
 internal/validator/validator_postgresql.go | 13 ++---
 internal/validator/validator_sqlite.go     | 13 ++---
 4 files changed, 44 insertions(+), 42 deletions(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index 68c0ada..b818f0c 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -117,13 +117,10 @@ func (c *converter) isStringValue(token string) bool {
 
 
 func (c *converter) convert() {
-	if c.isOutOfRange() {
-		return
-	} else {
+	for !c.isOutOfRange() {
 		table := c.convertTable()
 		c.result = append(c.result, table)
 	}
-	c.convert()
 }
 
 
diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index 0eeb160..9f17e15 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -200,23 +200,24 @@ func (v *mysqlValidator) validateIndexKeys(set bool) error {
 }
 
 func (v *mysqlValidator) validateIndexKeysAux(set bool) error {
-	if v.matchToken("(") {
-		if err := v.validateExpr(false); err != nil {
-			return err
-		}
-	} else {
-		if err := v.validateName(set); err != nil {
-			return err
+	for {
+		if v.matchToken("(") {
+			if err := v.validateExpr(false); err != nil {
+				return err
+			}
+		} else {
+			if err := v.validateName(set); err != nil {
+				return err
+			}
+			if err := v.validateTypeDigitN(false); err != nil {
+				return err
+			}
 		}
-		if err := v.validateTypeDigitN(false); err != nil {
-			return err
+		v.matchTokenNext(false, "ASC", "DESC")
+		if !v.matchTokenNext(set, ",") {
+			return nil
 		}
 	}
-	v.matchTokenNext(false, "ASC", "DESC")
-	if v.matchTokenNext(set, ",") {
-		return v.validateIndexKeysAux(set)
-	}
-	return nil
 }
 
 
@@ -938,24 +939,26 @@ func (v *mysqlValidator) validateIndexOption() error {
 
 
 func (v *mysqlValidator) validateCommaSeparatedColumnNames(set bool) error {
-	if err := v.validateColumnName(set); err != nil {
-		return err
-	}
-	if v.matchTokenNext(set, ",") {
-		return v.validateCommaSeparatedColumnNames(set)
+	for {
+		if err := v.validateColumnName(set); err != nil {
+			return err
+		}
+		if !v.matchTokenNext(set, ",") {
+			return nil
+		}
 	}
-	return nil
 }
 
 
 func (v *mysqlValidator) validateCommaSeparatedTableNames(set bool) error {
-	if err := v.validateTableName(set); err != nil {
-		return err
-	}
-	if v.matchTokenNext(set, ",") {
-		return v.validateCommaSeparatedTableNames(set)
+	for {
+		if err := v.validateTableName(set); err != nil {
+			return err
+		}
+		if !v.matchTokenNext(set, ",") {
+			return nil
+		}
 	}
-	return nil
 }
 
 
diff --git a/internal/validator/validator_postgresql.go b/internal/validator/validator_postgresql.go
index 0461cd3..fb551ad 100644
--- a/internal/validator/validator_postgresql.go
+++ b/internal/validator/validator_postgresql.go
@@ -99,13 +99,14 @@ func (v *postgresqlValidator) validateExpr(set bool) error {
 
 
 func (v *postgresqlValidator) validateCommaSeparatedColumnNames(set bool) error {
-	if err := v.validateColumnName(set); err != nil {
-		return err
-	}
-	if v.matchTokenNext(set, ",") {
-		return v.validateCommaSeparatedColumnNames(set)
+	for {
+		if err := v.validateColumnName(set); err != nil {
+			return err
+		}
+		if !v.matchTokenNext(set, ",") {
+			return nil
+		}
 	}
-	return nil
 }
 
 
diff --git a/internal/validator/validator_sqlite.go b/internal/validator/validator_sqlite.go
index 0ba0103..82b644f 100644
--- a/internal/validator/validator_sqlite.go
+++ b/internal/validator/validator_sqlite.go
@@ -90,13 +90,14 @@ func (v *sqliteValidator) validateColumnName(set bool) error {
 
 
 func (v *sqliteValidator) validateCommaSeparatedColumnNames(set bool) error {
-	if err := v.validateColumnName(set); err != nil {
-		return err
-	}
-	if v.matchTokenNext(set, ",") {
-		return v.validateCommaSeparatedColumnNames(set)
+	for {
+		if err := v.validateColumnName(set); err != nil {
+			return err
+		}
+		if !v.matchTokenNext(set, ",") {
+			return nil
+		}
 	}
-	return nil
 }
 
 
-- 
2.43.0

