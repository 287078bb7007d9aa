From a41cdd1154192f0ae14461533c235615bdee2e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:57 +0000
Subject: [PATCH 01/33] fix: do not dereference the missing token when a CREATE
 USER or SYSTEM RELOAD clause ends at end of input

---
 parser/parse_system.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index f75f091..8626371 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -83,7 +83,7 @@ func (p *Parser) parseSystemReloadExpr(pos Pos) (*SystemReloadExpr, error) {
 		_ = p.lexer.consumeToken()
 	case p.tryConsumeKeywords(KeywordEmbedded):
 		typ = "EMBEDDED DICTIONARIES"
-		statementEnd = p.current().End
+		statementEnd = p.End()
 		if err := p.expectKeyword(KeywordDictionaries); err != nil {
 			return nil, err
 		}
@@ -570,14 +570,14 @@ func (p *Parser) parseAuthenticationClause(pos Pos) (*AuthenticationClause, erro
 			return nil, err
 		}
 		auth.NotIdentified = true
-		auth.AuthEnd = p.current().End
+		auth.AuthEnd = p.End()
 		return auth, nil
 	}
 
 	if err := p.expectKeyword(KeywordIdentified); err != nil {
 		return nil, err
 	}
-	auth.AuthEnd = p.current().End
+	auth.AuthEnd = p.End()
 
 	if p.tryConsumeKeywords(KeywordWith) {
 		if p.matchKeyword(KeywordLdap) {
@@ -594,7 +594,7 @@ func (p *Parser) parseAuthenticationClause(pos Pos) (*AuthenticationClause, erro
 		} else if p.matchKeyword(KeywordKerberos) {
 			_ = p.lexer.consumeToken()
 			auth.IsKerberos = true
-			auth.AuthEnd = p.current().End
+			auth.AuthEnd = p.End()
 			if p.tryConsumeKeywords(KeywordRealm) {
 				realm, err := p.parseString(p.Pos())
 				if err != nil {
@@ -608,7 +608,7 @@ func (p *Parser) parseAuthenticationClause(pos Pos) (*AuthenticationClause, erro
 			authType := p.current().String
 			_ = p.lexer.consumeToken()
 			auth.AuthType = authType
-			auth.AuthEnd = p.current().End
+			auth.AuthEnd = p.End()
 
 			if p.tryConsumeKeywords(KeywordBy) {
 				value, err := p.parseString(p.Pos())
@@ -636,7 +636,7 @@ func (p *Parser) parseHostClause(pos Pos) (*HostClause, error) {
 		hostType := p.current().String
 		_ = p.lexer.consumeToken()
 		host.HostType = hostType
-		host.HostEnd = p.current().End
+		host.HostEnd = p.End()
 	case p.matchOneOfKeywords(KeywordName, KeywordRegexp, KeywordIp, KeywordLike):
 		hostType := p.current().String
 		_ = p.lexer.consumeToken()
@@ -666,7 +666,7 @@ func (p *Parser) parseDefaultRoleClause(pos Pos) (*DefaultRoleClause, error) {
 
 	if p.tryConsumeKeywords(KeywordNone) {
 		defaultRole.None = true
-		defaultRole.DefaultEnd = p.current().End
+		defaultRole.DefaultEnd = p.End()
 		return defaultRole, nil
 	}
 
@@ -699,10 +699,10 @@ func (p *Parser) parseGranteesClause(pos Pos) (*GranteesClause, error) {
 
 	if p.tryConsumeKeywords(KeywordAny) {
 		grantees.Any = true
-		grantees.GranteesEnd = p.current().End
+		grantees.GranteesEnd = p.End()
 	} else if p.tryConsumeKeywords(KeywordNone) {
 		grantees.None = true
-		grantees.GranteesEnd = p.current().End
+		grantees.GranteesEnd = p.End()
 	} else {
 		// Parse list of grantees
 		granteeList := make([]*RoleName, 0)
@@ -824,7 +824,7 @@ func (p *Parser) parseDefaultClause(createUser *CreateUser) (bool, error) {
 		_ = p.lexer.consumeToken() // consume DATABASE
 		if p.tryConsumeKeywords(KeywordNone) {
 			createUser.DefaultDbNone = true
-			createUser.StatementEnd = p.current().End
+			createUser.StatementEnd = p.End()
 		} else {
 			db, err := p.parseIdent()
 			if err != nil {
-- 
2.43.0


From d4623f3d3823981b79d4915692e9832c27e5ecb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:00 +0000
Subject: [PATCH 02/33] fix: handle DEFAULT as the last token of CREATE USER
 without a nil dereference

---
 parser/parse_system.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index 8626371..1f1328c 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -811,6 +811,10 @@ func (p *Parser) parseDefaultClause(createUser *CreateUser) (bool, error) {
 		return false, err
 	}
 
+	if nextToken == nil {
+		return false, nil
+	}
+
 	if nextToken.String == KeywordRole {
 		defaultRole, err := p.parseDefaultRoleClause(p.Pos())
 		if err != nil {
-- 
2.43.0


From bc5a263680cb8c6a63c896aac90c05ffa5c5bdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:04 +0000
Subject: [PATCH 03/33] fix: tolerate end of input after a string in column
 type arguments

---
 parser/parser_column.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index ad53333..fcc9eb1 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -1311,7 +1311,7 @@ func (p *Parser) parseColumnTypeArgs(ident *Ident) (ColumnType, error) { // noli
 				return p.parseComplexType(ident, p.Pos())
 			}
 		case p.matchTokenKind(TokenKindString):
-			if peekToken, err := p.lexer.peekToken(); err == nil && peekToken.Kind == TokenKindSingleEQ {
+			if peekToken, err := p.lexer.peekToken(); err == nil && peekToken != nil && peekToken.Kind == TokenKindSingleEQ {
 				// enum values
 				return p.parseEnumType(ident, p.Pos())
 			}
-- 
2.43.0


From 18eabc2bf6a4aabe86c0d0a73e2fc5be4b9870d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:08 +0000
Subject: [PATCH 04/33] fix: require PARTITION after IN in ALTER TABLE ...
 MATERIALIZE

---
 parser/parser_alter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parser_alter.go b/parser/parser_alter.go
index 9523f01..6ddb348 100644
--- a/parser/parser_alter.go
+++ b/parser/parser_alter.go
@@ -823,6 +823,9 @@ func (p *Parser) parseAlterTableMaterialize(pos Pos) (AlterTableClause, error) {
 		if err != nil {
 			return nil, err
 		}
+		if partition == nil {
+			return nil, fmt.Errorf("expected PARTITION after IN, but got %q", p.currentTokenString())
+		}
 		statementEnd = partition.End()
 	}
 	if kind == KeywordIndex {
-- 
2.43.0


From e24a964c5c65f0ae24599fe0a81f0f2ec7ff0bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:35 +0000
Subject: [PATCH 05/33] fix: reject an empty role setting instead of panicking
 on its position

---
 parser/parse_system.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index 1f1328c..f08d7a4 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -474,6 +474,9 @@ func (p *Parser) parseRoleSetting(_ Pos) (*RoleSetting, error) {
 		}
 
 	}
+	if len(pairs) == 0 {
+		return nil, fmt.Errorf("expected setting name, but got %q", p.currentTokenString())
+	}
 	return &RoleSetting{
 		SettingPairs: pairs,
 	}, nil
-- 
2.43.0


From 470d77dc06f857f42a6375e6229072070608dc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:38 +0000
Subject: [PATCH 06/33] fix: parse the last statement when it is a single token
 instead of dropping it

---
 parser/parser_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index a29fd45..170ee2b 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1551,7 +1551,7 @@ func (p *Parser) ParseStmts() ([]Expr, error) {
 		if err := p.lexer.consumeToken(); err != nil {
 			return nil, p.wrapError(err)
 		}
-		if p.lexer.isEOF() {
+		if p.current() == nil {
 			break
 		}
 		if p.matchTokenKind(";") {
-- 
2.43.0


From 8f945da5636a27b34e1612a19ef910fe11e18887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:42 +0000
Subject: [PATCH 07/33] fix: restore the lexer state when peeking fails on a
 lexical error

---
 parser/lexer.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 96df452..b635593 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -335,13 +335,11 @@ func (l *Lexer) skipComments() error {
 
 func (l *Lexer) peekToken() (*Token, error) {
 	savedState := l.saveState()
+	defer l.restoreState(savedState)
 	if err := l.consumeToken(); err != nil {
 		return nil, err
 	}
-	token := l.currentToken
-
-	l.restoreState(savedState)
-	return token, nil
+	return l.currentToken, nil
 }
 
 func (l *Lexer) hasPrecedenceToken(last *Token) bool {
-- 
2.43.0


From 5cd5add3962220421ab655e2198344217ce9809d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:25 +0000
Subject: [PATCH 08/33] fix: report an unclosed comment or quoted identifier
 even when it follows a complete statement

---
 parser/lexer.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index b635593..59b78e0 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -216,7 +216,11 @@ func (l *Lexer) consumeIdent(_ Pos) error {
 		}
 		if !l.peekOk(i) || (quoteType == BackTicks && l.peekN(i) != '`') ||
 			(quoteType == DoubleQuote && l.peekN(i) != '"') {
-			return fmt.Errorf("unclosed quoted identifier: %s", l.slice(0, i))
+			unclosed := l.slice(0, i)
+			// stay at the opening quote, so that the error is not lost to a
+			// caller that ignores it: the next read fails the same way
+			l.skipN(-1)
+			return fmt.Errorf("unclosed quoted identifier: %s", unclosed)
 		}
 	}
 	slice := l.slice(0, i)
@@ -252,8 +256,7 @@ func (l *Lexer) consumeSingleLineComment() {
 }
 
 func (l *Lexer) consumeMultiLineComment() error {
-	l.skipN(2)
-	i := 0
+	i := 2
 	for l.peekOk(i) {
 		if l.peekOk(i+1) && l.peekN(i) == '*' && l.peekN(i+1) == '/' {
 			l.skipN(i + 2)
@@ -261,7 +264,8 @@ func (l *Lexer) consumeMultiLineComment() error {
 		}
 		i++
 	}
-	l.skipN(i)
+	// stay at the comment, so that the error is not lost to a caller that
+	// ignores it: the next read fails the same way
 	return errors.New("unclosed multi-line comment")
 }
 
-- 
2.43.0


From b318f04cb6c774c4f7db54d02a9d80435c784de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:43 +0000
Subject: [PATCH 09/33] fix: tolerate end of input after AS in an ORDER BY item

---
 parser/parser_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 170ee2b..e515e4c 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1033,7 +1033,7 @@ func (p *Parser) parseOrderExpr(pos Pos) (*OrderExpr, error) {
 	var alias *Ident
 	if p.matchKeyword(KeywordAs) {
 		// It should be a subquery instead of an order by alias if the `AS` is followed by `SELECT` keyword.
-		if nextToken, err := p.lexer.peekToken(); err == nil && nextToken.ToString() == KeywordSelect {
+		if nextToken, err := p.lexer.peekToken(); err == nil && nextToken != nil && nextToken.ToString() == KeywordSelect {
 			return &OrderExpr{
 				OrderPos: pos,
 				Expr:     columnExpr,
-- 
2.43.0


From 8951d6e6b048abe54f97a7b0937a2c55054b3fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:01 +0000
Subject: [PATCH 10/33] fix: position of CHECK TABLE without a partition

---
 parser/ast.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/ast.go b/parser/ast.go
index b6eb41f..e81200a 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -6224,6 +6224,9 @@ func (c *CheckStmt) Pos() Pos {
 }
 
 func (c *CheckStmt) End() Pos {
+	if c.Partition == nil {
+		return c.Table.End()
+	}
 	return c.Partition.End()
 }
 
-- 
2.43.0


From 250d4f17557bf46c5cd3aee97c8492d3c26d7672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:01 +0000
Subject: [PATCH 11/33] fix: give a dictionary argument function call its
 (empty) parameter list

---
 parser/parser_table.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index e515e4c..60e8574 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -2384,12 +2384,23 @@ func (p *Parser) parseDictionaryArgExpr(pos Pos) (*DictionaryArgExpr, error) {
 		}
 		// Check if it's followed by optional parentheses
 		if p.matchTokenKind(TokenKindLParen) {
+			leftParenPos := p.Pos()
 			_ = p.lexer.consumeToken() // consume (
+			rightParenPos := p.Pos()
 			if err := p.expectTokenKind(TokenKindRParen); err != nil {
 				return nil, err
 			}
 			value = &FunctionExpr{
 				Name: ident,
+				Params: &ParamExprList{
+					LeftParenPos:  leftParenPos,
+					RightParenPos: rightParenPos,
+					Items: &ColumnExprList{
+						ListPos: rightParenPos,
+						ListEnd: rightParenPos,
+						Items:   make([]Expr, 0),
+					},
+				},
 			}
 		} else {
 			value = ident
-- 
2.43.0


From 3201a3b8dcfa11787a891dd1b957039dc77973e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:01 +0000
Subject: [PATCH 12/33] fix: position of a role setting without a value

---
 parser/ast.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/ast.go b/parser/ast.go
index e81200a..85ae011 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -1655,6 +1655,9 @@ func (s *SettingPair) Pos() Pos {
 }
 
 func (s *SettingPair) End() Pos {
+	if s.Value == nil {
+		return s.Name.NameEnd
+	}
 	return s.Value.End()
 }
 
-- 
2.43.0


From 0eff3898ac267eaf532cac20ed0ecd41d2934770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:12 +0000
Subject: [PATCH 13/33] fix: position of PARTITION ALL

---
 parser/ast.go          | 5 +++++
 parser/parser_alter.go | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/parser/ast.go b/parser/ast.go
index 85ae011..1558716 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -2316,6 +2316,8 @@ type PartitionClause struct {
 	Expr         Expr
 	ID           *StringLiteral
 	All          bool
+
+	allEnd Pos // end of the ALL keyword
 }
 
 func (p *PartitionClause) Pos() Pos {
@@ -2326,6 +2328,9 @@ func (p *PartitionClause) End() Pos {
 	if p.ID != nil {
 		return p.ID.LiteralEnd
 	}
+	if p.All {
+		return p.allEnd
+	}
 	return p.Expr.End()
 }
 
diff --git a/parser/parser_alter.go b/parser/parser_alter.go
index 6ddb348..558a4f0 100644
--- a/parser/parser_alter.go
+++ b/parser/parser_alter.go
@@ -375,8 +375,10 @@ func (p *Parser) parsePartitionClause(pos Pos) (*PartitionClause, error) {
 			return nil, err
 		}
 		partition.ID = id
-	} else if p.tryConsumeKeywords(KeywordAll) {
+	} else if p.matchKeyword(KeywordAll) {
 		partition.All = true
+		partition.allEnd = p.current().End
+		_ = p.lexer.consumeToken()
 	} else {
 		expr, err := p.parseExpr(p.Pos())
 		if err != nil {
-- 
2.43.0


From cbc72f8e026c629903bb760446304354f02e3886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:54 +0000
Subject: [PATCH 14/33] fix: visit the pairs of a RENAME statement

Neither Accept nor Walk ever reached the TargetPair nodes of a RenameStmt;
both went straight to the table identifiers below, so VisitTargetPairExpr
was never called.
---
 parser/ast.go  | 5 +----
 parser/walk.go | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index 1558716..c57ce5f 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -6300,10 +6300,7 @@ func (r *RenameStmt) Accept(visitor ASTVisitor) error {
 	visitor.Enter(r)
 	defer visitor.Leave(r)
 	for _, pair := range r.TargetPairList {
-		if err := pair.Old.Accept(visitor); err != nil {
-			return err
-		}
-		if err := pair.New.Accept(visitor); err != nil {
+		if err := pair.Accept(visitor); err != nil {
 			return err
 		}
 	}
diff --git a/parser/walk.go b/parser/walk.go
index e129a35..db1cdbb 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -593,10 +593,7 @@ func Walk(node Expr, fn WalkFunc) bool {
 		}
 	case *RenameStmt:
 		for _, pair := range n.TargetPairList {
-			if !Walk(pair.Old, fn) {
-				return false
-			}
-			if !Walk(pair.New, fn) {
+			if !Walk(pair, fn) {
 				return false
 			}
 		}
-- 
2.43.0


From 6a1f48d770262f83406e3666fa17d4afc6e3e51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:29 +0000
Subject: [PATCH 15/33] fix: print the UUID of a live view

Formatting CREATE LIVE VIEW v UUID '...' dropped the UUID clause.
---
 parser/format.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/format.go b/parser/format.go
index 752c746..d0e85bf 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -858,6 +858,11 @@ func (c *CreateLiveView) FormatSQL(formatter *Formatter) {
 	}
 	formatter.WriteExpr(c.Name)
 
+	if c.UUID != nil {
+		formatter.WriteByte(whitespace)
+		formatter.WriteExpr(c.UUID)
+	}
+
 	if c.OnCluster != nil {
 		formatter.Break()
 		formatter.WriteExpr(c.OnCluster)
-- 
2.43.0


From b8620b0ff809fccff00f468298a86b5f0731c999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:30 +0000
Subject: [PATCH 16/33] fix: print an empty kerberos realm

Formatting IDENTIFIED WITH kerberos REALM '' dropped the REALM.
---
 parser/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/format.go b/parser/format.go
index d0e85bf..6cb74ed 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -560,7 +560,7 @@ func (a *AuthenticationClause) FormatSQL(formatter *Formatter) {
 	if a.IsKerberos {
 		formatter.Break()
 		formatter.WriteString("WITH kerberos")
-		if a.KerberosRealm != nil && a.KerberosRealm.Literal != "" {
+		if a.KerberosRealm != nil {
 			formatter.WriteString(" REALM ")
 			formatter.WriteExpr(a.KerberosRealm)
 		}
-- 
2.43.0


From 4f5e7929a2453e07f8e24b06feb73f2498bd2bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:30 +0000
Subject: [PATCH 17/33] fix: accept ON (...) only after DISTINCT

SELECT ON (a) b was accepted as a select without DISTINCT and formatting
it dropped the ON clause.
---
 parser/parser_query.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parser/parser_query.go b/parser/parser_query.go
index 6b5e48c..7216959 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -1107,9 +1107,12 @@ func (p *Parser) parseSelectStmt(pos Pos) (*SelectQuery, error) { // nolint: fun
 	}
 	// DISTINCT?
 	hasDistinct := p.tryConsumeKeywords(KeywordDistinct)
-	distinctOn, err := p.tryParseDistinctOn(p.Pos())
-	if err != nil {
-		return nil, err
+	var distinctOn *DistinctOn
+	if hasDistinct {
+		distinctOn, err = p.tryParseDistinctOn(p.Pos())
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	top, err := p.tryParseTopClause(p.Pos())
-- 
2.43.0


From 5ba017581f1a371c128afb47ac6c716f52c7c123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:22 +0000
Subject: [PATCH 18/33] fix: tell a dictionary argument list by its arguments
 too

A node with Args but no recorded parenthesis position printed a missing value.
---
 parser/ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/ast.go b/parser/ast.go
index c57ce5f..e361317 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -4443,7 +4443,7 @@ func (d *DictionaryArgExpr) End() Pos {
 }
 
 func (d *DictionaryArgExpr) hasArgList() bool {
-	return d.LParenPos != 0
+	return d.LParenPos != 0 || len(d.Args) > 0
 }
 
 func (d *DictionaryArgExpr) Accept(visitor ASTVisitor) error {
-- 
2.43.0


From da1c83e1bbf564bc933f7800fe5271952adb7372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:51 +0000
Subject: [PATCH 19/33] fix: print NULL as well when a column says NULL NOT
 NULL

The parser accepts both words and records both, formatting dropped the first.
---
 parser/format.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index 6cb74ed..e7408f7 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -664,10 +664,11 @@ func (c *ColumnDef) FormatSQL(formatter *Formatter) {
 		formatter.WriteByte(whitespace)
 		formatter.WriteExpr(c.Type)
 	}
+	if c.Nullable != nil {
+		formatter.WriteString(" NULL")
+	}
 	if c.NotNull != nil {
 		formatter.WriteString(" NOT NULL")
-	} else if c.Nullable != nil {
-		formatter.WriteString(" NULL")
 	}
 	if c.DefaultExpr != nil {
 		formatter.WriteString(" DEFAULT ")
-- 
2.43.0


From fabc97351d7d8f2a6a991792d58ddf4f2518925b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:47 +0000
Subject: [PATCH 20/33] fix: traverse the keys of a map literal, not one shared
 copy

---
 parser/ast.go  | 6 +++---
 parser/walk.go | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index e361317..8e30aa1 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -2907,11 +2907,11 @@ func (m *MapLiteral) End() Pos {
 func (m *MapLiteral) Accept(visitor ASTVisitor) error {
 	visitor.Enter(m)
 	defer visitor.Leave(m)
-	for _, kv := range m.KeyValues {
-		if err := kv.Key.Accept(visitor); err != nil {
+	for i := range m.KeyValues {
+		if err := m.KeyValues[i].Key.Accept(visitor); err != nil {
 			return err
 		}
-		if err := kv.Value.Accept(visitor); err != nil {
+		if err := m.KeyValues[i].Value.Accept(visitor); err != nil {
 			return err
 		}
 	}
diff --git a/parser/walk.go b/parser/walk.go
index db1cdbb..2731bd8 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -1379,11 +1379,11 @@ func Walk(node Expr, fn WalkFunc) bool {
 			return false
 		}
 	case *MapLiteral:
-		for _, kv := range n.KeyValues {
-			if !Walk(&kv.Key, fn) {
+		for i := range n.KeyValues {
+			if !Walk(&n.KeyValues[i].Key, fn) {
 				return false
 			}
-			if !Walk(kv.Value, fn) {
+			if !Walk(n.KeyValues[i].Value, fn) {
 				return false
 			}
 		}
-- 
2.43.0


From e36fe10060f9f2bc41f5ecf1219c12ff1e98541d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:34 +0000
Subject: [PATCH 21/33] fix: print WITH TOTALS of a SELECT without GROUP BY

---
 parser/format.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/format.go b/parser/format.go
index e7408f7..84d1a41 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -2350,6 +2350,10 @@ func (s *SelectQuery) FormatSQL(formatter *Formatter) {
 		formatter.Break()
 		formatter.WriteExpr(s.GroupBy)
 	}
+	if s.WithTotal {
+		formatter.Break()
+		formatter.WriteString("WITH TOTALS")
+	}
 	if s.Having != nil {
 		formatter.Break()
 		formatter.WriteExpr(s.Having)
-- 
2.43.0


From 1b068e3b56fe4d2f671cdeb461e0495b06c564c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:45 +0000
Subject: [PATCH 22/33] fix: reject SHOW DATABASES NOT without LIKE or ILIKE

---
 parser/parser_table.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 60e8574..779080f 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1635,6 +1635,9 @@ func (p *Parser) parseShowStmt(pos Pos) (*ShowStmt, error) {
 		if p.matchKeyword(KeywordNot) {
 			stmt.NotLike = true
 			_ = p.lexer.consumeToken()
+			if !p.matchKeyword(KeywordLike) && !p.matchKeyword(KeywordIlike) {
+				return nil, fmt.Errorf("expected LIKE or ILIKE after NOT, got %q", p.currentTokenString())
+			}
 		}
 
 		if p.matchKeyword(KeywordLike) || p.matchKeyword(KeywordIlike) {
-- 
2.43.0


From 7a7e79631724d315392652c99f4baf050658111b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:23 +0000
Subject: [PATCH 23/33] fix: print DISTINCT in the second argument list of a
 function and in an array

---
 parser/format.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/format.go b/parser/format.go
index 84d1a41..b758236 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -518,6 +518,9 @@ func (a *AlterTableUpdate) FormatSQL(formatter *Formatter) {
 
 func (a *ArrayParamList) FormatSQL(formatter *Formatter) {
 	formatter.WriteString("[")
+	if a.Items.HasDistinct {
+		formatter.WriteString("DISTINCT ")
+	}
 	for i, item := range a.Items.Items {
 		if i > 0 {
 			formatter.WriteString(", ")
@@ -649,6 +652,9 @@ func (o *ClusterClause) FormatSQL(formatter *Formatter) {
 
 func (c *ColumnArgList) FormatSQL(formatter *Formatter) {
 	formatter.WriteByte('(')
+	if c.Distinct {
+		formatter.WriteString("DISTINCT ")
+	}
 	for i, item := range c.Items {
 		if i > 0 {
 			formatter.WriteString(", ")
-- 
2.43.0


From 004751b8bbf82bf5c3b76d2241ac4e191b31f62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:51 +0000
Subject: [PATCH 24/33] fix: reject a repeated clause of CREATE USER instead of
 keeping only the last

---
 parser/parse_system.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index f08d7a4..51ac66b 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -819,6 +819,9 @@ func (p *Parser) parseDefaultClause(createUser *CreateUser) (bool, error) {
 	}
 
 	if nextToken.String == KeywordRole {
+		if createUser.DefaultRole != nil {
+			return false, fmt.Errorf("duplicate DEFAULT ROLE clause")
+		}
 		defaultRole, err := p.parseDefaultRoleClause(p.Pos())
 		if err != nil {
 			return false, err
@@ -827,6 +830,9 @@ func (p *Parser) parseDefaultClause(createUser *CreateUser) (bool, error) {
 		createUser.StatementEnd = defaultRole.End()
 		return true, nil
 	} else if nextToken.String == KeywordDatabase {
+		if createUser.DefaultDatabase != nil || createUser.DefaultDbNone {
+			return false, fmt.Errorf("duplicate DEFAULT DATABASE clause")
+		}
 		_ = p.lexer.consumeToken() // consume DEFAULT
 		_ = p.lexer.consumeToken() // consume DATABASE
 		if p.tryConsumeKeywords(KeywordNone) {
@@ -850,6 +856,9 @@ func (p *Parser) parseOptionalClauses(createUser *CreateUser) error {
 	for continueParsing {
 		switch {
 		case p.matchOneOfKeywords(KeywordNot, KeywordIdentified):
+			if createUser.Authentication != nil {
+				return fmt.Errorf("duplicate IDENTIFIED clause")
+			}
 			auth, err := p.parseAuthenticationClause(p.Pos())
 			if err != nil {
 				return err
@@ -858,6 +867,9 @@ func (p *Parser) parseOptionalClauses(createUser *CreateUser) error {
 			createUser.StatementEnd = auth.End()
 
 		case p.matchKeyword(KeywordValid):
+			if createUser.ValidUntil != nil {
+				return fmt.Errorf("duplicate VALID UNTIL clause")
+			}
 			_ = p.lexer.consumeToken() // consume VALID keyword
 			if err := p.expectKeyword(KeywordUntil); err != nil {
 				return err
@@ -870,6 +882,9 @@ func (p *Parser) parseOptionalClauses(createUser *CreateUser) error {
 			createUser.StatementEnd = validUntil.End()
 
 		case p.matchKeyword(KeywordHost):
+			if createUser.Hosts != nil {
+				return fmt.Errorf("duplicate HOST clause")
+			}
 			hosts, err := p.parseHostClauses()
 			if err != nil {
 				return err
@@ -887,6 +902,9 @@ func (p *Parser) parseOptionalClauses(createUser *CreateUser) error {
 			}
 
 		case p.matchKeyword(KeywordGrantees):
+			if createUser.Grantees != nil {
+				return fmt.Errorf("duplicate GRANTEES clause")
+			}
 			grantees, err := p.parseGranteesClause(p.Pos())
 			if err != nil {
 				return err
@@ -895,6 +913,9 @@ func (p *Parser) parseOptionalClauses(createUser *CreateUser) error {
 			createUser.StatementEnd = grantees.End()
 
 		case p.matchKeyword(KeywordSettings):
+			if createUser.Settings != nil {
+				return fmt.Errorf("duplicate SETTINGS clause")
+			}
 			_ = p.lexer.consumeToken() // consume SETTINGS keyword
 			settings, err := p.parseRoleSettings(p.Pos())
 			if err != nil {
-- 
2.43.0


From 6e9dcac5b19fb0937a652e3a2335918634a05185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:18 +0000
Subject: [PATCH 25/33] fix: compare DEFAULT ROLE, DEFAULT DATABASE, MIN, MAX
 and PROFILE without regard to case

---
 parser/parse_system.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index 51ac66b..82da102 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -459,7 +459,7 @@ func (p *Parser) parseRoleSetting(_ Pos) (*RoleSetting, error) {
 			// docs: https://clickhouse.com/docs/en/sql-reference/statements/alter/role
 			// the operator "=" was required if the variable name is NOT in
 			// ["MIN", "MAX", "PROFILE"] and value is existed.
-			if value != nil && name.Name != "MIN" && name.Name != "MAX" && name.Name != "PROFILE" && op != TokenKindSingleEQ {
+			if value != nil && !strings.EqualFold(name.Name, "MIN") && !strings.EqualFold(name.Name, "MAX") && !strings.EqualFold(name.Name, "PROFILE") && op != TokenKindSingleEQ {
 				return nil, fmt.Errorf("expected operator = or no value, but got %s", op)
 			}
 			pairs = append(pairs, &SettingPair{
@@ -818,7 +818,7 @@ func (p *Parser) parseDefaultClause(createUser *CreateUser) (bool, error) {
 		return false, nil
 	}
 
-	if nextToken.String == KeywordRole {
+	if strings.EqualFold(nextToken.String, KeywordRole) {
 		if createUser.DefaultRole != nil {
 			return false, fmt.Errorf("duplicate DEFAULT ROLE clause")
 		}
@@ -829,7 +829,7 @@ func (p *Parser) parseDefaultClause(createUser *CreateUser) (bool, error) {
 		createUser.DefaultRole = defaultRole
 		createUser.StatementEnd = defaultRole.End()
 		return true, nil
-	} else if nextToken.String == KeywordDatabase {
+	} else if strings.EqualFold(nextToken.String, KeywordDatabase) {
 		if createUser.DefaultDatabase != nil || createUser.DefaultDbNone {
 			return false, fmt.Errorf("duplicate DEFAULT DATABASE clause")
 		}
-- 
2.43.0


From dd5508ec11acae0ac91af56cc23db7a748c6bd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:01 +0000
Subject: [PATCH 26/33] fix: recognise ARRAY JOIN written in lower case

---
 parser/parser_query.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/parser_query.go b/parser/parser_query.go
index 7216959..830960d 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -357,7 +357,9 @@ func (p *Parser) parseJoinRightExpr(pos Pos) (expr Expr, err error) {
 	modifiers = append(modifiers, KeywordJoin)
 
 	// Check if this is an ARRAY JOIN
-	if slices.Contains(modifiers, KeywordArray) {
+	if slices.ContainsFunc(modifiers, func(modifier string) bool {
+		return strings.EqualFold(modifier, KeywordArray)
+	}) {
 		// For ARRAY JOIN, parse column expression list instead of table expression
 		expr, err = p.parseColumnExprList(p.Pos())
 		if err != nil {
-- 
2.43.0


From b4cf093fc7ae7fe3e45091d803f6f8ca54347646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:01 +0000
Subject: [PATCH 27/33] fix: recognise the modifiers of role settings written
 in lower case

---
 parser/parse_system.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index 82da102..3cf7fd0 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -436,7 +436,7 @@ func (p *Parser) parseRoleSetting(_ Pos) (*RoleSetting, error) {
 		if err != nil {
 			return nil, err
 		}
-		switch name.Name {
+		switch strings.ToUpper(name.Name) {
 		case "NONE", "READABLE", "WRITABLE", "CONST", "CHANGEABLE_IN_READONLY":
 			return &RoleSetting{
 				Modifier:     name,
-- 
2.43.0


From a857518179c9c85fa6241405b2e3ac8508cf4783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:01 +0000
Subject: [PATCH 28/33] fix: reject a decimal fraction set apart from its dot

---
 parser/parser_common.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser_common.go b/parser/parser_common.go
index 7532601..d644c3f 100644
--- a/parser/parser_common.go
+++ b/parser/parser_common.go
@@ -357,11 +357,15 @@ func (p *Parser) parseNumber(pos Pos) (*NumberLiteral, error) {
 	case p.matchTokenKind(TokenKindFloat):
 		err = p.expectTokenKind(TokenKindFloat)
 	case p.matchTokenKind(TokenKindDot):
+		dot := curToken
 		_ = p.lexer.consumeToken()
 		curToken = p.current()
 		if err := p.expectTokenKind(TokenKindInt); err != nil {
 			return nil, err
 		}
+		if curToken.Pos != dot.End {
+			return nil, fmt.Errorf("invalid decimal literal: %q", ". "+curToken.String)
+		}
 		if curToken.Base != 10 {
 			return nil, fmt.Errorf("invalid decimal literal: %q", curToken.String)
 		}
-- 
2.43.0


From f7b0123ded9b88a00d69b7e2476d21525cca3ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:18 +0000
Subject: [PATCH 29/33] fix: do not indent the continuation lines of literals
 and quoted names

---
 parser/format.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index b758236..8e3f9e0 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -60,6 +60,18 @@ func (f *Formatter) WriteString(s string) {
 	}
 }
 
+// writeVerbatim writes text taken over from the source, such as the content of
+// a literal, whose line breaks must not be indented.
+func (f *Formatter) writeVerbatim(s string) {
+	if s == "" {
+		return
+	}
+	if f.mode == FormatModeBeautify {
+		f.writeIndentIfNeeded()
+	}
+	f.builder.WriteString(s)
+}
+
 func (f *Formatter) WriteByte(b byte) {
 	if f.mode == FormatModeBeautify {
 		if b == newline {
@@ -1671,15 +1683,15 @@ func (i *Ident) FormatSQL(formatter *Formatter) {
 	switch i.QuoteType {
 	case BackTicks:
 		formatter.WriteByte('`')
-		formatter.WriteString(i.Name)
+		formatter.writeVerbatim(i.Name)
 		formatter.WriteByte('`')
 	case DoubleQuote:
 		formatter.WriteByte('"')
-		formatter.WriteString(i.Name)
+		formatter.writeVerbatim(i.Name)
 		formatter.WriteByte('"')
 	case SingleQuote:
 		formatter.WriteByte('\'')
-		formatter.WriteString(i.Name)
+		formatter.writeVerbatim(i.Name)
 		formatter.WriteByte('\'')
 	default:
 		formatter.WriteString(i.Name)
@@ -2489,7 +2501,7 @@ func (s *ShowStmt) FormatSQL(formatter *Formatter) {
 
 func (s *StringLiteral) FormatSQL(formatter *Formatter) {
 	formatter.WriteByte('\'')
-	formatter.WriteString(s.Literal)
+	formatter.writeVerbatim(s.Literal)
 	formatter.WriteByte('\'')
 }
 
-- 
2.43.0


From 38475c9a453be783b6de71adf73a907e18524bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:41 +0000
Subject: [PATCH 30/33] fix: read a sign after a closing brace as an operator

---
 parser/lexer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 59b78e0..7805eb3 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -353,9 +353,10 @@ func (l *Lexer) hasPrecedenceToken(last *Token) bool {
 		last.Kind == TokenKindFloat ||
 		last.Kind == TokenKindString ||
 		// A closing bracket also terminates an expression, so a following
-		// +/- is a binary operator, e.g. (1)-1 or arr[1]-1.
+		// +/- is a binary operator, e.g. (1)-1, arr[1]-1 or {a:Int8}-1.
 		last.Kind == TokenKindRParen ||
-		last.Kind == TokenKindRBracket)
+		last.Kind == TokenKindRBracket ||
+		last.Kind == TokenKindRBrace)
 }
 
 func (l *Lexer) consumeToken() error {
-- 
2.43.0


From 1527093e7304ac605e60bcfd34a053162e07cf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:56 +0000
Subject: [PATCH 31/33] fix: do not read +> as an arrow

---
 parser/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 7805eb3..44f424d 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -390,7 +390,7 @@ func (l *Lexer) consumeToken() error {
 		// hasPrecedenceToken is used to distinguish between unary and binary operators
 		if !l.hasPrecedenceToken(prevToken) && l.peekOk(1) && IsDigit(l.peekN(1)) {
 			return l.consumeNumber()
-		} else if l.peekOk(1) && l.peekN(1) == '>' {
+		} else if l.peekN(0) == '-' && l.peekOk(1) && l.peekN(1) == '>' {
 			l.currentToken = &Token{
 				String: l.slice(0, 2),
 				Kind:   TokenKindArrow,
-- 
2.43.0


From ac3cb38d4c7f25a12aa2dab22ad6eb7b9bbbb11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:57 +0000
Subject: [PATCH 32/33] fix: DROP USER and DROP ROLE no longer read and drop a
 second ON CLUSTER clause

---
 parser/parse_system.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index 3cf7fd0..05a40d8 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -989,16 +989,9 @@ func (p *Parser) parserDropUserOrRole(pos Pos) (*DropUserOrRole, error) {
 		}
 		names = append(names, name)
 	}
+	// an ON CLUSTER clause was read with the last name
 	statementEnd := names[len(names)-1].End()
 
-	onCluster, err := p.tryParseClusterClause(p.Pos())
-	if err != nil {
-		return nil, err
-	}
-	if onCluster != nil {
-		statementEnd = onCluster.End()
-	}
-
 	var from *Ident
 	if p.tryConsumeKeywords(KeywordFrom) {
 		from, err = p.parseIdent()
-- 
2.43.0


From aac453416e88555de678e6d054d6eb343dacdc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:26 +0000
Subject: [PATCH 33/33] fix: a clause given twice in an engine expression is
 refused instead of dropping the first

---
 parser/parser_table.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 779080f..5df5cbd 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1433,44 +1433,45 @@ func (p *Parser) parseEngineExpr(pos Pos) (*EngineExpr, error) {
 		return nil, fmt.Errorf("unexpected token: %s", p.currentTokenKind())
 	}
 
+	// each clause is given once; another one ends the engine expression
 	for !p.lexer.isEOF() {
 		switch {
-		case p.matchKeyword(KeywordOrder):
+		case engineExpr.OrderBy == nil && p.matchKeyword(KeywordOrder):
 			orderBy, err := p.tryParseTableOrderByClause(p.Pos())
 			if err != nil {
 				return nil, err
 			}
 			engineExpr.OrderBy = orderBy
 			engineEnd = orderBy.End()
-		case p.matchKeyword(KeywordPartition):
+		case engineExpr.PartitionBy == nil && p.matchKeyword(KeywordPartition):
 			partitionBy, err := p.tryParsePartitionByClause(p.Pos())
 			if err != nil {
 				return nil, err
 			}
 			engineExpr.PartitionBy = partitionBy
 			engineEnd = partitionBy.End()
-		case p.matchKeyword(KeywordPrimary):
+		case engineExpr.PrimaryKey == nil && p.matchKeyword(KeywordPrimary):
 			primaryKey, err := p.tryParsePrimaryKeyClause(p.Pos())
 			if err != nil {
 				return nil, err
 			}
 			engineExpr.PrimaryKey = primaryKey
 			engineEnd = primaryKey.End()
-		case p.matchKeyword(KeywordSample):
+		case engineExpr.SampleBy == nil && p.matchKeyword(KeywordSample):
 			sampleBy, err := p.tryParseSampleByClause(p.Pos())
 			if err != nil {
 				return nil, err
 			}
 			engineExpr.SampleBy = sampleBy
 			engineEnd = sampleBy.End()
-		case p.matchKeyword(KeywordTtl):
+		case engineExpr.TTL == nil && p.matchKeyword(KeywordTtl):
 			ttl, err := p.tryParseTTLClause(p.Pos(), true)
 			if err != nil {
 				return nil, err
 			}
 			engineExpr.TTL = ttl
 			engineEnd = ttl.End()
-		case p.matchKeyword(KeywordSettings):
+		case engineExpr.Settings == nil && p.matchKeyword(KeywordSettings):
 			settingsClause, err := p.tryParseSettingsClause(p.Pos())
 			if err != nil {
 				return nil, err
-- 
2.43.0

