From 517686d2eb95752e0f68594f22eee1b3ae06a60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 01/36] fix: foreign key actions SET DEFAULT and NO ACTION in
 ALTER TABLE

---
 src/alter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/alter.rs b/src/alter.rs
index 5debe01..aa5f34b 100644
--- a/src/alter.rs
+++ b/src/alter.rs
@@ -469,13 +469,13 @@ fn parse_add_alter_specification<'a>(
                             Token::Ident(_, Keyword::NULL) => ForeignKeyOnAction::SetNull(
                                 parser.consume_keyword(Keyword::NULL)?.join_span(&set),
                             ),
-                            Token::Ident(_, Keyword::DELETE) => ForeignKeyOnAction::SetDefault(
+                            Token::Ident(_, Keyword::DEFAULT) => ForeignKeyOnAction::SetDefault(
                                 parser.consume_keyword(Keyword::DEFAULT)?.join_span(&set),
                             ),
                             _ => parser.expected_failure("'NULL' or 'DEFAULT'")?,
                         }
                     }
-                    Token::Ident(_, Keyword::NO) => ForeignKeyOnAction::SetNull(
+                    Token::Ident(_, Keyword::NO) => ForeignKeyOnAction::NoAction(
                         parser.consume_keywords(&[Keyword::NO, Keyword::ACTION])?,
                     ),
                     _ => parser.expected_failure("'RESTRICT' or 'CASCADE', 'SET' or 'NO")?,
-- 
2.43.0


From 92962d5308b9485f269869c5bd8849c8dce11748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 02/36] fix: ALTER TABLE ADD UNIQUE / SPATIAL index were
 recorded as FULLTEXT

---
 src/alter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/alter.rs b/src/alter.rs
index aa5f34b..b00c77b 100644
--- a/src/alter.rs
+++ b/src/alter.rs
@@ -526,7 +526,7 @@ fn parse_add_alter_specification<'a>(
                     match &parser.token {
                         Token::Ident(_, kw @ Keyword::INDEX | kw @ Keyword::KEY) => {
                             let kw = *kw;
-                            IndexType::FullText(parser.consume_keyword(kw)?.join_span(&s))
+                            IndexType::Spatial(parser.consume_keyword(kw)?.join_span(&s))
                         }
                         _ => parser.expected_failure("'KEY' or 'INDEX'")?,
                     }
@@ -536,7 +536,7 @@ fn parse_add_alter_specification<'a>(
                     match &parser.token {
                         Token::Ident(_, kw @ Keyword::INDEX | kw @ Keyword::KEY) => {
                             let kw = *kw;
-                            IndexType::FullText(parser.consume_keyword(kw)?.join_span(&s))
+                            IndexType::Unique(parser.consume_keyword(kw)?.join_span(&s))
                         }
                         _ => parser.expected_failure("'KEY' or 'INDEX'")?,
                     }
-- 
2.43.0


From 8cbeafa16143cd22d56c2ebf7e384f318d3ebf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 03/36] fix: COLLATE on a column was recorded as its character
 set

---
 src/data_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index 77d4307..46b6eaa 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -420,7 +420,7 @@ pub(crate) fn parse_data_type<'a>(
             }
             Token::Ident(_, Keyword::COLLATE) => {
                 parser.consume_keyword(Keyword::COLLATE)?;
-                properties.push(DataTypeProperty::Charset(
+                properties.push(DataTypeProperty::Collate(
                     parser.consume_plain_identifier()?,
                 ));
             }
-- 
2.43.0


From 99599b8a952b82a84cfd4cef6d06c6f4d0b245cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 04/36] fix: hex literals panicked in the lexer, report them as
 invalid tokens

---
 src/lexer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 1793ff7..95d9d4a 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -437,7 +437,10 @@ impl<'a> Lexer<'a> {
                 },
                 'x' | 'X' => match self.chars.peek() {
                     Some((_, '\'')) => {
-                        todo!("Hex literal")
+                        // Hex literals are not supported yet
+                        self.chars.next();
+                        while !matches!(self.chars.next(), Some((_, '\'')) | None) {}
+                        Token::Invalid
                     }
                     _ => self.simple_literal(start),
                 },
-- 
2.43.0


From 56b63ef1b80afe32bb65281dbf6fd0b0d4c8f267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 05/36] fix: the number of a $n argument overflowed

---
 src/lexer.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 95d9d4a..a431ae8 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -333,14 +333,18 @@ impl<'a> Lexer<'a> {
                         Token::DoubleDollar
                     }
                     Some((_, '1'..='9')) => {
-                        let mut v = self.chars.peek().unwrap().1.to_digit(10).unwrap() as usize;
+                        let mut v =
+                            Some(self.chars.peek().unwrap().1.to_digit(10).unwrap() as usize);
                         self.chars.next();
-                        while matches!(self.chars.peek(), Some((_, '0'..='9'))) {
-                            v = v * 10
-                                + self.chars.peek().unwrap().1.to_digit(10).unwrap() as usize;
+                        while let Some((_, c @ '0'..='9')) = self.chars.peek() {
+                            let d = c.to_digit(10).unwrap() as usize;
+                            v = v.and_then(|v| v.checked_mul(10)?.checked_add(d));
                             self.chars.next();
                         }
-                        Token::DollarArg(v)
+                        match v {
+                            Some(v) => Token::DollarArg(v),
+                            None => Token::Invalid,
+                        }
                     }
                     _ => Token::Invalid,
                 },
-- 
2.43.0


From fe7281348de34f5a41ffee85bcd443f51f27d9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 06/36] fix: DELIMITER at the end of the input looped forever

---
 src/statement.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/statement.rs b/src/statement.rs
index 2ce3b8a..67fa156 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -853,6 +853,10 @@ pub(crate) fn parse_statements<'a>(parser: &mut Parser<'a, '_>) -> Vec<Statement
         if parser.skip_keyword(Keyword::DELIMITER).is_some() {
             let t = parser.token.clone();
 
+            if t == Token::Eof {
+                parser.expected_error("delimiter");
+                return ans;
+            }
             if !matches!(t, Token::DoubleDollar | Token::SemiColon) {
                 parser.warn("Unknown delimiter", &parser.span.span());
             }
-- 
2.43.0


From 11479295eabf613c9de3d90e80b238a9a6726195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 07/36] fix: the span of an empty BEGIN..END or DO block
 panicked

---
 src/statement.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/statement.rs b/src/statement.rs
index 67fa156..7b452c5 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -120,8 +120,10 @@ fn parse_commit(parser: &mut Parser<'_, '_>) -> Result<Span, ParseError> {
     parser.consume_keyword(Keyword::COMMIT)
 }
 
-fn parse_block<'a>(parser: &mut Parser<'a, '_>) -> Result<Vec<Statement<'a>>, ParseError> {
-    parser.consume_keyword(Keyword::BEGIN)?;
+fn parse_block<'a>(
+    parser: &mut Parser<'a, '_>,
+) -> Result<(Vec<Statement<'a>>, Span), ParseError> {
+    let begin_span = parser.consume_keyword(Keyword::BEGIN)?;
     let mut ans = Vec::new();
     parser.recovered(
         "'END' | 'EXCEPTION'",
@@ -141,8 +143,8 @@ fn parse_block<'a>(parser: &mut Parser<'a, '_>) -> Result<Vec<Statement<'a>>, Pa
             parser.consume_token(Token::SemiColon)?;
         }
     }
-    parser.consume_keyword(Keyword::END)?;
-    Ok(ans)
+    let end_span = parser.consume_keyword(Keyword::END)?;
+    Ok((ans, begin_span.join_span(&end_span)))
 }
 
 /// Condition in if statement
@@ -405,7 +407,8 @@ pub enum Statement<'a> {
     Set(Set<'a>),
     Signal(Signal<'a>),
     AlterTable(AlterTable<'a>),
-    Block(Vec<Statement<'a>>), //TODO we should include begin and end
+    /// Statements of a block and the span from "BEGIN" to "END"
+    Block(Vec<Statement<'a>>, Span),
     Begin(Span),
     End(Span),
     Commit(Span),
@@ -418,7 +421,8 @@ pub enum Statement<'a> {
     Copy(Copy<'a>),
     Stdin(&'a str, Span),
     CreateTypeEnum(CreateTypeEnum<'a>),
-    Do(Vec<Statement<'a>>),
+    /// Statements of a do block and the span from "DO" to the closing "$$"
+    Do(Vec<Statement<'a>>, Span),
     TruncateTable(TruncateTable<'a>),
     RenameTable(RenameTable<'a>),
     WithQuery(WithQuery<'a>),
@@ -448,7 +452,7 @@ impl<'a> Spanned for Statement<'a> {
             Statement::DropView(v) => v.span(),
             Statement::Set(v) => v.span(),
             Statement::AlterTable(v) => v.span(),
-            Statement::Block(v) => v.opt_span().expect("Span of block"),
+            Statement::Block(_, s) => s.clone(),
             Statement::If(v) => v.span(),
             Statement::Invalid(v) => v.span(),
             Statement::Union(v) => v.span(),
@@ -460,7 +464,7 @@ impl<'a> Spanned for Statement<'a> {
             Statement::Commit(s) => s.clone(),
             Statement::StartTransaction(s) => s.clone(),
             Statement::CreateTypeEnum(v) => v.span(),
-            Statement::Do(v) => v.opt_span().expect("Span of block"),
+            Statement::Do(_, s) => s.clone(),
             Statement::TruncateTable(v) => v.span(),
             Statement::RenameTable(v) => v.span(),
             Statement::WithQuery(v) => v.span(),
@@ -494,7 +498,8 @@ pub(crate) fn parse_statement<'a>(
         Token::Ident(_, Keyword::SET) => Some(Statement::Set(parse_set(parser)?)),
         Token::Ident(_, Keyword::SIGNAL) => Some(Statement::Signal(parse_signal(parser)?)),
         Token::Ident(_, Keyword::BEGIN) => Some(if parser.permit_compound_statements {
-            Statement::Block(parse_block(parser)?)
+            let (block, span) = parse_block(parser)?;
+            Statement::Block(block, span)
         } else {
             Statement::Begin(parse_begin(parser)?)
         }),
@@ -521,11 +526,11 @@ pub(crate) fn parse_statement<'a>(
 }
 
 pub(crate) fn parse_do<'a>(parser: &mut Parser<'a, '_>) -> Result<Statement<'a>, ParseError> {
-    parser.consume_keyword(Keyword::DO)?;
-    parser.consume_token(Token::DoubleDollar)?;
-    let block = parse_block(parser)?;
+    let do_span = parser.consume_keyword(Keyword::DO)?;
     parser.consume_token(Token::DoubleDollar)?;
-    Ok(Statement::Do(block))
+    let (block, _) = parse_block(parser)?;
+    let end_span = parser.consume_token(Token::DoubleDollar)?;
+    Ok(Statement::Do(block, do_span.join_span(&end_span)))
 }
 
 /// When part of case statement
-- 
2.43.0


From cbf5dfb71e542d8fe3fc78ebedb5bc25c5c505a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 08/36] fix: the spans of SELECT and DROP TABLE left out FOR
 UPDATE and CASCADE

---
 src/drop.rs   | 1 +
 src/select.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/drop.rs b/src/drop.rs
index 7bcd1ca..53c2e7c 100644
--- a/src/drop.rs
+++ b/src/drop.rs
@@ -61,6 +61,7 @@ impl<'a> Spanned for DropTable<'a> {
             .join_span(&self.table_span)
             .join_span(&self.if_exists)
             .join_span(&self.tables)
+            .join_span(&self.cascade)
     }
 }
 
diff --git a/src/select.rs b/src/select.rs
index fa4da15..eae7132 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -651,6 +651,7 @@ impl<'a> Spanned for Select<'a> {
             .join_span(&self.window_span)
             .join_span(&self.order_by)
             .join_span(&self.limit)
+            .join_span(&self.locking)
     }
 }
 
-- 
2.43.0


From 84f57f37de83777de6da97a376e6cb9bbd432487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 09/36] fix: an error in a trigger body left compound
 statements permitted

---
 src/create.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/create.rs b/src/create.rs
index 2fe2eb7..f52191d 100644
--- a/src/create.rs
+++ b/src/create.rs
@@ -881,11 +881,12 @@ fn parse_create_trigger<'a>(
     // TODO [{ FOLLOWS | PRECEDES } other_trigger_name ]
 
     let old = core::mem::replace(&mut parser.permit_compound_statements, true);
-    let statement = match parse_statement(parser)? {
+    let statement = parse_statement(parser);
+    parser.permit_compound_statements = old;
+    let statement = match statement? {
         Some(v) => v,
         None => parser.expected_failure("statement")?,
     };
-    parser.permit_compound_statements = old;
 
     Ok(Statement::CreateTrigger(CreateTrigger {
         create_span,
-- 
2.43.0


From 1442aa2cb31d000c7524a752684368a13aff517f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:16 +0000
Subject: [PATCH 10/36] fix: END ended no IF, CASE, DO or function body but was
 taken as a transaction statement

---
 src/create.rs    | 5 ++++-
 src/statement.rs | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/create.rs b/src/create.rs
index f52191d..2fdba42 100644
--- a/src/create.rs
+++ b/src/create.rs
@@ -699,7 +699,10 @@ fn parse_create_function<'a>(
     }
 
     let return_ = if parser.options.dialect.is_maria() {
-        match parse_statement(parser)? {
+        let old = core::mem::replace(&mut parser.permit_compound_statements, true);
+        let statement = parse_statement(parser);
+        parser.permit_compound_statements = old;
+        match statement? {
             Some(v) => Some(Box::new(v)),
             None => parser.expected_failure("statement")?,
         }
diff --git a/src/statement.rs b/src/statement.rs
index 7b452c5..bdbd2e5 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -96,7 +96,9 @@ fn parse_statement_list<'a>(
     out: &mut Vec<Statement<'a>>,
 ) -> Result<(), ParseError> {
     let old_delimiter = core::mem::replace(&mut parser.delimiter, Token::SemiColon);
+    let old_permit = core::mem::replace(&mut parser.permit_compound_statements, true);
     let r = parse_statement_list_inner(parser, out);
+    parser.permit_compound_statements = old_permit;
     parser.delimiter = old_delimiter;
     r
 }
-- 
2.43.0


From ba5b1b1bdc60f2f1c82f1c3c57a10c245932dd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:37 +0000
Subject: [PATCH 11/36] fix: AND, XOR and OR had their precedences the wrong
 way around

---
 src/expression.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expression.rs b/src/expression.rs
index 8475020..aa77ecc 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -951,9 +951,9 @@ trait Priority {
 impl Priority for BinaryOperator {
     fn priority(&self) -> usize {
         match self {
-            BinaryOperator::Or => 140,
+            BinaryOperator::Or => 160,
             BinaryOperator::Xor => 150,
-            BinaryOperator::And => 160,
+            BinaryOperator::And => 140,
             BinaryOperator::Eq => 110,
             BinaryOperator::NullSafeEq => 110,
             BinaryOperator::GtEq => 110,
-- 
2.43.0


From 6079c3d61bf0e86fc494f625f2bdf5e6153d9f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 12/36] fix: quotes and backslash escapes in strings were
 decoded wrongly

---
 src/lexer.rs  |  9 +++--
 src/parser.rs | 98 ++++++++++++++++++++-------------------------------
 2 files changed, 44 insertions(+), 63 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index a431ae8..0a3a95d 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -137,13 +137,16 @@ impl<'a> Token<'a> {
 pub(crate) struct Lexer<'a> {
     src: &'a str,
     chars: core::iter::Peekable<core::str::CharIndices<'a>>,
+    /// A backslash escapes the character following it in a string
+    backslash_escapes: bool,
 }
 
 impl<'a> Lexer<'a> {
-    pub fn new(src: &'a str) -> Self {
+    pub fn new(src: &'a str, backslash_escapes: bool) -> Self {
         Self {
             src,
             chars: src.char_indices().peekable(),
+            backslash_escapes,
         }
     }
 
@@ -467,7 +470,7 @@ impl<'a> Lexer<'a> {
                 }
                 '\'' => loop {
                     match self.chars.next() {
-                        Some((_, '\\')) => {
+                        Some((_, '\\')) if self.backslash_escapes => {
                             self.chars.next();
                         }
                         Some((i, '\'')) => match self.chars.peek() {
@@ -482,7 +485,7 @@ impl<'a> Lexer<'a> {
                 },
                 '"' => loop {
                     match self.chars.next() {
-                        Some((_, '\\')) => {
+                        Some((_, '\\')) if self.backslash_escapes => {
                             self.chars.next();
                         }
                         Some((i, '"')) => match self.chars.peek() {
diff --git a/src/parser.rs b/src/parser.rs
index 287a6dc..d075584 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -36,49 +36,42 @@ pub(crate) struct Parser<'a, 'b> {
     pub(crate) permit_compound_statements: bool,
 }
 
-pub(crate) fn decode_single_quoted_string(s: &str) -> Cow<'_, str> {
-    if !s.contains('\'') && !s.contains('\\') {
-        s.into()
-    } else {
-        let mut r = String::new();
-        let mut chars = s.chars();
-        loop {
-            match chars.next() {
-                None => break,
-                Some('\'') => {
-                    chars.next();
-                    r.push('\'');
-                }
-                Some(c) => r.push(c),
-            }
-        }
-        r.into()
+/// Replace doubled quotes, and if `backslash` is set backslash escapes, by what they denote
+fn decode_string(s: &str, quote: char, backslash: bool) -> Cow<'_, str> {
+    if !s.contains(quote) && !(backslash && s.contains('\\')) {
+        return s.into();
     }
-}
-
-pub(crate) fn decode_double_quoted_string(s: &str) -> Cow<'_, str> {
-    if !s.contains('"') && !s.contains('\\') {
-        s.into()
-    } else {
-        let mut r = String::new();
-        let mut chars = s.chars();
-        loop {
+    let mut r = String::new();
+    let mut chars = s.chars();
+    while let Some(c) = chars.next() {
+        if c == quote {
+            chars.next();
+            r.push(quote);
+        } else if c == '\\' && backslash {
             match chars.next() {
-                None => break,
-                Some('\'') => {
-                    chars.next();
-                    r.push('\'');
+                Some('0') => r.push('\0'),
+                Some('b') => r.push('\u{8}'),
+                Some('n') => r.push('\n'),
+                Some('r') => r.push('\r'),
+                Some('t') => r.push('\t'),
+                Some('Z') => r.push('\u{1a}'),
+                Some(c @ ('%' | '_')) => {
+                    r.push('\\');
+                    r.push(c);
                 }
                 Some(c) => r.push(c),
+                None => r.push('\\'),
             }
+        } else {
+            r.push(c);
         }
-        r.into()
     }
+    r.into()
 }
 
 impl<'a, 'b> Parser<'a, 'b> {
     pub(crate) fn new(src: &'a str, issues: &'b mut Issues<'a>, options: &'b ParseOptions) -> Self {
-        let mut lexer = Lexer::new(src);
+        let mut lexer = Lexer::new(src, options.dialect.is_maria());
         let (token, span) = lexer.next_token();
         Self {
             token,
@@ -327,35 +320,20 @@ impl<'a, 'b> Parser<'a, 'b> {
     }
 
     pub(crate) fn consume_string(&mut self) -> Result<SString<'a>, ParseError> {
-        let (mut a, mut b) = match &self.token {
-            Token::SingleQuotedString(v) => {
-                let v = *v;
-                let span = self.span.clone();
-                self.next();
-                (decode_single_quoted_string(v), span)
-            }
-            Token::DoubleQuotedString(v) => {
-                let v = *v;
-                let span = self.span.clone();
-                self.next();
-                (decode_double_quoted_string(v), span)
-            }
-            _ => self.expected_failure("string")?,
+        // Only MariaDB has backslash escapes
+        let backslash = self.options.dialect.is_maria();
+        let decode = |token: &Token<'a>| match token {
+            Token::SingleQuotedString(v) => Some(decode_string(v, '\'', backslash)),
+            Token::DoubleQuotedString(v) => Some(decode_string(v, '"', backslash)),
+            _ => None,
         };
-        loop {
-            match self.token {
-                Token::SingleQuotedString(v) => {
-                    b = b.join_span(&self.span);
-                    a.to_mut().push_str(decode_single_quoted_string(v).as_ref());
-                    self.next();
-                }
-                Token::DoubleQuotedString(v) => {
-                    b = b.join_span(&self.span);
-                    a.to_mut().push_str(decode_double_quoted_string(v).as_ref());
-                    self.next();
-                }
-                _ => break,
-            }
+        let Some(mut a) = decode(&self.token) else {
+            return self.expected_failure("string");
+        };
+        let mut b = self.consume();
+        while let Some(v) = decode(&self.token) {
+            a.to_mut().push_str(&v);
+            b = b.join_span(&self.consume());
         }
         Ok(SString::new(a, b))
     }
-- 
2.43.0


From 206c7d700f9826f19a78186285ebb89b3f1ae8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:32 +0000
Subject: [PATCH 13/36] fix: keywords with underscores or digits were warned
 about although in capitals

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index d075584..abc0be1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -264,7 +264,7 @@ impl<'a, 'b> Parser<'a, 'b> {
     pub(crate) fn consume_keyword(&mut self, keyword: Keyword) -> Result<Span, ParseError> {
         match &self.token {
             Token::Ident(v, kw) if kw == &keyword => {
-                if !v.chars().all(|c| c.is_ascii_uppercase())
+                if v.chars().any(|c| c.is_ascii_lowercase())
                     && self.options.warn_none_capital_keywords
                 {
                     self.warn(
-- 
2.43.0


From 640dc62e194cf88f5228e2382f770bc05ee00708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:32 +0000
Subject: [PATCH 14/36] fix: the lint for unquoted identifiers was reported as
 an error

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index abc0be1..6a3b54c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -241,7 +241,7 @@ impl<'a, 'b> Parser<'a, 'b> {
                 } else if kw != &Keyword::QUOTED_IDENTIFIER
                     && self.options.warn_unquoted_identifiers
                 {
-                    self.err(
+                    self.warn(
                         format!("identifiers should be quoted as `{}`", v),
                         &self.span.span(),
                     );
-- 
2.43.0


From 8b4bf6f0ec47fbfe651cc7e7ff598243a411d033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:53 +0000
Subject: [PATCH 15/36] fix: the columns of JOIN ... USING are parenthesised

---
 src/select.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index eae7132..2272592 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -447,12 +447,17 @@ pub(crate) fn parse_table_reference<'a>(
             Token::Ident(_, Keyword::USING) => {
                 let using = parser.consume_keyword(Keyword::USING)?;
                 let mut join_column_list = Vec::new();
-                loop {
-                    join_column_list.push(parser.consume_plain_identifier()?);
-                    if parser.skip_token(Token::Comma).is_none() {
-                        break;
+                parser.consume_token(Token::LParen)?;
+                parser.recovered("')'", &|t| t == &Token::RParen, |parser| {
+                    loop {
+                        join_column_list.push(parser.consume_plain_identifier()?);
+                        if parser.skip_token(Token::Comma).is_none() {
+                            break;
+                        }
                     }
-                }
+                    Ok(())
+                })?;
+                parser.consume_token(Token::RParen)?;
                 Some(JoinSpecification::Using(join_column_list, using))
             }
             _ => None,
-- 
2.43.0


From db81441c4d420bef49f036ad3c0cc7a475245f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:53 +0000
Subject: [PATCH 16/36] fix: << and >> were named the other way around in
 issues

---
 src/lexer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 0a3a95d..4287809 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -110,8 +110,8 @@ impl<'a> Token<'a> {
             Token::RParen => "')'",
             Token::SemiColon => "';'",
             Token::Sharp => "'#'",
-            Token::ShiftLeft => "'>>'",
-            Token::ShiftRight => "'<<'",
+            Token::ShiftLeft => "'<<'",
+            Token::ShiftRight => "'>>'",
             Token::DoubleDollar => "'$$'",
             Token::DollarArg(v) if *v == 1 => "'$1'",
             Token::DollarArg(v) if *v == 2 => "'$2'",
-- 
2.43.0


From f5f4bad1569cd851c2f71146d96e5f436691e543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 17/36] fix: ORDER BY and LIMIT of a UNION were recorded on its
 last SELECT

---
 src/statement.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/statement.rs b/src/statement.rs
index bdbd2e5..69fe093 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -779,6 +779,7 @@ pub(crate) fn parse_compound_query<'a>(
         return Ok(q);
     };
     let mut with = Vec::new();
+    let mut last_in_paren;
     loop {
         let union_span = parser.consume_keyword(Keyword::UNION)?;
         let union_type = match &parser.token {
@@ -788,6 +789,7 @@ pub(crate) fn parse_compound_query<'a>(
             }
             _ => UnionType::Default,
         };
+        last_in_paren = parser.token == Token::LParen;
         let union_statement = Box::new(parse_compound_query_bottom(parser)?);
         with.push(UnionWith {
             union_span,
@@ -799,6 +801,20 @@ pub(crate) fn parse_compound_query<'a>(
         }
     }
 
+    // ORDER BY and LIMIT after a last SELECT that is not in parentheses belong to the union
+    if let (false, Some(last)) = (last_in_paren, with.last_mut()) {
+        if let Statement::Select(select) = last.union_statement.as_mut() {
+            if select.order_by.is_some() || select.limit.is_some() {
+                return Ok(Statement::Union(Union {
+                    left: Box::new(q),
+                    order_by: select.order_by.take(),
+                    limit: select.limit.take(),
+                    with,
+                }));
+            }
+        }
+    }
+
     let order_by = if let Some(span) = parser.skip_keyword(Keyword::ORDER) {
         let span = parser.consume_keyword(Keyword::BY)?.join_span(&span);
         let mut order = Vec::new();
-- 
2.43.0


From 4df4f5ddcb00fda2d25d13c3fec8500219bfc397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:19 +0000
Subject: [PATCH 18/36] fix: NOT DETERMINISTIC and COMMENT after RETURNS were
 read as part of the return type

---
 src/data_type.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index 46b6eaa..a61e742 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -407,6 +407,9 @@ pub(crate) fn parse_data_type<'a>(
                 parser.consume_keyword(Keyword::NULL)?,
             )),
             Token::Ident(_, Keyword::NOT) => {
+                if no_as && matches!(parser.peek(), Token::Ident(_, Keyword::DETERMINISTIC)) {
+                    break;
+                }
                 let start = parser.consume_keyword(Keyword::NOT)?.start;
                 properties.push(DataTypeProperty::NotNull(
                     start..parser.consume_keyword(Keyword::NULL)?.end,
@@ -424,7 +427,7 @@ pub(crate) fn parse_data_type<'a>(
                     parser.consume_plain_identifier()?,
                 ));
             }
-            Token::Ident(_, Keyword::COMMENT) => {
+            Token::Ident(_, Keyword::COMMENT) if !no_as => {
                 parser.consume_keyword(Keyword::COMMENT)?;
                 properties.push(DataTypeProperty::Comment(parser.consume_string()?));
             }
-- 
2.43.0


From 64949a71811a3ba469ac7c9c73155a2de3f39cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:34 +0000
Subject: [PATCH 19/36] fix: CREATE FUNCTION without parameters was rejected

---
 src/create.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/create.rs b/src/create.rs
index 2fdba42..11a52a0 100644
--- a/src/create.rs
+++ b/src/create.rs
@@ -588,6 +588,9 @@ fn parse_create_function<'a>(
     let mut params = Vec::new();
     parser.consume_token(Token::LParen)?;
     parser.recovered("')'", &|t| t == &Token::RParen, |parser| {
+        if parser.token == Token::RParen {
+            return Ok(());
+        }
         loop {
             let direction = match &parser.token {
                 Token::Ident(_, Keyword::IN) => {
-- 
2.43.0


From 7007b63577d145f01190a9212d8001e4aa68bf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:01 +0000
Subject: [PATCH 20/36] fix: NULL, STORED, GENERATED and others were rejected
 after a DEFAULT value

---
 src/expression.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/expression.rs b/src/expression.rs
index aa77ecc..5c8a9cd 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -1103,6 +1103,8 @@ pub(crate) fn parse_expression<'a>(
                 r.shift_binop(parser.consume(), BinaryOperator::ShiftRight)
             }
             Token::Ampersand => r.shift_binop(parser.consume(), BinaryOperator::BitAnd),
+            // What follows a complete inner expression belongs to the surrounding construct
+            _ if inner && matches!(r.stack.last(), Some(ReduceMember::Expression(_))) => break,
             Token::Pipe if !inner => r.shift_binop(parser.consume(), BinaryOperator::BitOr),
             Token::Ident(_, Keyword::BINARY) if !inner => {
                 r.shift_unary(parser.consume(), UnaryOperator::Binary)
-- 
2.43.0


From ebf69114df65f5a97da74938d75c3a17a100a6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 21/36] fix: the spans of NATURAL LEFT and RIGHT joins left out
 NATURAL

---
 src/select.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index 2272592..f767fb6 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -401,7 +401,7 @@ pub(crate) fn parse_table_reference<'a>(
                             .join_span(&parser.consume_keywords(&[Keyword::INNER, Keyword::JOIN])?),
                     ),
                     Token::Ident(_, Keyword::LEFT) => {
-                        let left = parser.consume_keyword(Keyword::LEFT)?;
+                        let left = natural.join_span(&parser.consume_keyword(Keyword::LEFT)?);
                         if let Some(outer) = parser.skip_keyword(Keyword::OUTER) {
                             JoinType::NaturalLeft(
                                 left.join_span(&outer)
@@ -414,7 +414,7 @@ pub(crate) fn parse_table_reference<'a>(
                         }
                     }
                     Token::Ident(_, Keyword::RIGHT) => {
-                        let right = parser.consume_keyword(Keyword::RIGHT)?;
+                        let right = natural.join_span(&parser.consume_keyword(Keyword::RIGHT)?);
                         if let Some(outer) = parser.skip_keyword(Keyword::OUTER) {
                             JoinType::NaturalRight(
                                 right
-- 
2.43.0


From dc8eb15efd96d415d6c6e22701b284341a831261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 22/36] fix: RIGHT JOIN after the condition of a join was
 rejected

---
 src/expression.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/expression.rs b/src/expression.rs
index 5c8a9cd..6b9d1d9 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -1463,6 +1463,7 @@ pub(crate) fn parse_expression<'a>(
                 parser.consume();
                 r.shift_expr(parse_function(parser, i, s)?)
             }
+            Token::Ident(_, Keyword::RIGHT) if !matches!(parser.peek(), Token::LParen) => break,
             Token::Ident(_, k) if k.expr_ident() => {
                 let i = parser.token.clone();
                 let s = parser.span.clone();
-- 
2.43.0


From ef8cd3be35681697810597e5034bf42e5d09670b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:06 +0000
Subject: [PATCH 23/36] fix: a backtick-quoted name in an expression was
 accepted for PostgreSQL

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 6a3b54c..b759c32 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -222,6 +222,9 @@ impl<'a, 'b> Parser<'a, 'b> {
                     && self.options.warn_unquoted_identifiers
                 {
                     self.warn(format!("identifiers should be quoted as `{}`", v), &span);
+                } else if kw == &Keyword::QUOTED_IDENTIFIER && self.options.dialect.is_postgresql()
+                {
+                    self.err("quoted identifiers not supported by postgresql", &span);
                 }
                 Ok(Identifier::new(v, span))
             }
-- 
2.43.0


From 89584e628c1653254248bc616c56799cc7174e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:59 +0000
Subject: [PATCH 24/36] fix: a double-quoted PostgreSQL name in an expression
 was taken for a string

---
 src/expression.rs | 46 +++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/src/expression.rs b/src/expression.rs
index 6b9d1d9..53a8b31 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -669,6 +669,30 @@ impl<'a> Spanned for Expression<'a> {
     }
 }
 
+/// Parse what follows the first name of a possibly qualified name
+fn parse_identifier_parts<'a>(
+    parser: &mut Parser<'a, '_>,
+    first: Identifier<'a>,
+) -> Result<Vec<IdentifierPart<'a>>, ParseError> {
+    let mut parts = vec![IdentifierPart::Name(first)];
+    loop {
+        if parser.skip_token(Token::Period).is_none() {
+            break;
+        }
+        match &parser.token {
+            Token::Mul => parts.push(IdentifierPart::Star(parser.consume_token(Token::Mul)?)),
+            Token::Ident(_, _) => {
+                parts.push(IdentifierPart::Name(parser.consume_plain_identifier()?))
+            }
+            Token::DoubleQuotedString(_) if parser.options.dialect.is_postgresql() => {
+                parts.push(IdentifierPart::Name(parser.consume_plain_identifier()?))
+            }
+            _ => parser.expected_failure("Identifier or '*'")?,
+        }
+    }
+    Ok(parts)
+}
+
 fn parse_function<'a>(
     parser: &mut Parser<'a, '_>,
     t: Token<'a>,
@@ -1361,6 +1385,11 @@ pub(crate) fn parse_expression<'a>(
                     parser.consume_keyword(Keyword::_LIST_)?,
                 )))
             }
+            Token::DoubleQuotedString(_) if parser.options.dialect.is_postgresql() => {
+                let name = parser.consume_plain_identifier()?;
+                let parts = parse_identifier_parts(parser, name)?;
+                r.shift_expr(Expression::Identifier(parts))
+            }
             Token::SingleQuotedString(_) | Token::DoubleQuotedString(_) => {
                 r.shift_expr(Expression::String(parser.consume_string()?))
             }
@@ -1488,21 +1517,8 @@ pub(crate) fn parse_expression<'a>(
                     if let Some(f) = f {
                         r.shift_expr(Expression::Function(f, Vec::new(), s))
                     } else {
-                        let mut parts = vec![IdentifierPart::Name(
-                            parser.token_to_plain_identifier(&i, s)?,
-                        )];
-                        loop {
-                            if parser.skip_token(Token::Period).is_none() {
-                                break;
-                            }
-                            match &parser.token {
-                                Token::Mul => parts
-                                    .push(IdentifierPart::Star(parser.consume_token(Token::Mul)?)),
-                                Token::Ident(_, _) => parts
-                                    .push(IdentifierPart::Name(parser.consume_plain_identifier()?)),
-                                _ => parser.expected_failure("Identifier or '*'")?,
-                            }
-                        }
+                        let name = parser.token_to_plain_identifier(&i, s)?;
+                        let parts = parse_identifier_parts(parser, name)?;
                         r.shift_expr(Expression::Identifier(parts))
                     }
                 }
-- 
2.43.0


From 63083c61fa03d5621afc5c36913114e97f123d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:41 +0000
Subject: [PATCH 25/36] fix: double-quoted PostgreSQL names were rejected as
 tables, aliases, columns and constraint names

---
 src/alter.rs  | 3 +++
 src/create.rs | 4 ++++
 src/parser.rs | 5 +++++
 src/select.rs | 4 +++-
 4 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/alter.rs b/src/alter.rs
index b00c77b..ba8c4ab 100644
--- a/src/alter.rs
+++ b/src/alter.rs
@@ -417,6 +417,7 @@ fn parse_add_alter_specification<'a>(
     let constraint = if let Some(span) = parser.skip_keyword(Keyword::CONSTRAINT) {
         let v = match &parser.token {
             Token::Ident(_, kw) if !kw.reserved() => Some(parser.consume_plain_identifier()?),
+            _ if parser.at_quoted_name() => Some(parser.consume_plain_identifier()?),
             _ => None,
         };
         Some((span, v))
@@ -437,6 +438,7 @@ fn parse_add_alter_specification<'a>(
             };
             let name = match &parser.token {
                 Token::Ident(_, kw) if !kw.reserved() => Some(parser.consume_plain_identifier()?),
+                _ if parser.at_quoted_name() => Some(parser.consume_plain_identifier()?),
                 _ => None,
             };
 
@@ -556,6 +558,7 @@ fn parse_add_alter_specification<'a>(
 
             let name = match &parser.token {
                 Token::Ident(_, kw) if !kw.reserved() => Some(parser.consume_plain_identifier()?),
+                _ if parser.at_quoted_name() => Some(parser.consume_plain_identifier()?),
                 _ => None,
             };
 
diff --git a/src/create.rs b/src/create.rs
index 11a52a0..fc82446 100644
--- a/src/create.rs
+++ b/src/create.rs
@@ -408,6 +408,10 @@ pub(crate) fn parse_create_definition<'a>(
             identifier: parser.consume_plain_identifier()?,
             data_type: parse_data_type(parser, false)?,
         }),
+        _ if parser.at_quoted_name() => Ok(CreateDefinition::ColumnDefinition {
+            identifier: parser.consume_plain_identifier()?,
+            data_type: parse_data_type(parser, false)?,
+        }),
         _ => parser.expected_failure("identifier"),
     }
 }
diff --git a/src/parser.rs b/src/parser.rs
index b759c32..2fd9342 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -232,6 +232,11 @@ impl<'a, 'b> Parser<'a, 'b> {
         }
     }
 
+    /// True if the current token is a double-quoted PostgreSQL name
+    pub(crate) fn at_quoted_name(&self) -> bool {
+        self.options.dialect.is_postgresql() && matches!(self.token, Token::DoubleQuotedString(_))
+    }
+
     pub(crate) fn consume_plain_identifier(&mut self) -> Result<Identifier<'a>, ParseError> {
         match &self.token {
             Token::Ident(v, kw) => {
diff --git a/src/select.rs b/src/select.rs
index f767fb6..b174d7b 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -251,6 +251,7 @@ pub(crate) fn parse_table_reference_inner<'a>(
             let as_span = parser.skip_keyword(Keyword::AS);
             let as_ = if as_span.is_some()
                 || (matches!(&parser.token, Token::Ident(_, k) if !k.reserved()))
+                || parser.at_quoted_name()
             {
                 Some(parser.consume_plain_identifier()?)
             } else {
@@ -262,13 +263,14 @@ pub(crate) fn parse_table_reference_inner<'a>(
                 as_,
             })
         }
-        Token::Ident(_, _) => {
+        t if matches!(t, Token::Ident(_, _)) || parser.at_quoted_name() => {
             let identifier = parse_qualified_name(parser)?;
 
             // TODO [PARTITION (partition_names)] [[AS] alias]
             let as_span = parser.skip_keyword(Keyword::AS);
             let as_ = if as_span.is_some()
                 || (matches!(&parser.token, Token::Ident(_, k) if !k.reserved()))
+                || parser.at_quoted_name()
             {
                 Some(parser.consume_plain_identifier()?)
             } else {
-- 
2.43.0


From 941e14f45d50945a5f91e84d92aea93d0883cad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 26/36] fix: recovery inside a compound body skipped the
 delimiter of the outer statement

---
 src/parser.rs    | 7 ++++++-
 src/statement.rs | 3 ++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2fd9342..dbce79d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -32,6 +32,8 @@ pub(crate) struct Parser<'a, 'b> {
     pub(crate) issues: &'b mut Issues<'a>,
     pub(crate) arg: usize,
     pub(crate) delimiter: Token<'a>,
+    /// The delimiter of the outermost statements, also while inside a compound body
+    pub(crate) outer_delimiter: Token<'a>,
     pub(crate) options: &'b ParseOptions,
     pub(crate) permit_compound_statements: bool,
 }
@@ -81,6 +83,7 @@ impl<'a, 'b> Parser<'a, 'b> {
             issues,
             arg: 0,
             delimiter: Token::SemiColon,
+            outer_delimiter: Token::SemiColon,
             options,
             permit_compound_statements: false,
         }
@@ -96,7 +99,9 @@ impl<'a, 'b> Parser<'a, 'b> {
             match &self.token {
                 t if brackets.is_empty() && success(t) => return Ok(()),
                 Token::Eof => return Err(ParseError::Unrecovered),
-                t if t == &self.delimiter => return Err(ParseError::Unrecovered),
+                t if t == &self.delimiter || t == &self.outer_delimiter => {
+                    return Err(ParseError::Unrecovered)
+                }
                 t if brackets.is_empty() && fail(t) => return Err(ParseError::Unrecovered),
                 Token::LParen => {
                     brackets.push(Token::LParen);
diff --git a/src/statement.rs b/src/statement.rs
index 69fe093..9ce8990 100644
--- a/src/statement.rs
+++ b/src/statement.rs
@@ -883,7 +883,8 @@ pub(crate) fn parse_statements<'a>(parser: &mut Parser<'a, '_>) -> Vec<Statement
             if !matches!(t, Token::DoubleDollar | Token::SemiColon) {
                 parser.warn("Unknown delimiter", &parser.span.span());
             }
-            parser.delimiter = t;
+            parser.delimiter = t.clone();
+            parser.outer_delimiter = t;
             parser.next();
             continue;
         }
-- 
2.43.0


From 4dbad07a7409e1e08b3f6689e7b1653814ccee0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:12 +0000
Subject: [PATCH 27/36] fix: warn about a lower case INSERT or REPLACE when
 non-capital keywords are to be warned about

---
 src/insert_replace.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/insert_replace.rs b/src/insert_replace.rs
index 6775bb5..f6b4370 100644
--- a/src/insert_replace.rs
+++ b/src/insert_replace.rs
@@ -261,8 +261,12 @@ pub(crate) fn parse_insert_replace<'a>(
     parser: &mut Parser<'a, '_>,
 ) -> Result<InsertReplace<'a>, ParseError> {
     let type_ = match &parser.token {
-        Token::Ident(_, Keyword::INSERT) => InsertReplaceType::Insert(parser.consume()),
-        Token::Ident(_, Keyword::REPLACE) => InsertReplaceType::Replace(parser.consume()),
+        Token::Ident(_, Keyword::INSERT) => {
+            InsertReplaceType::Insert(parser.consume_keyword(Keyword::INSERT)?)
+        }
+        Token::Ident(_, Keyword::REPLACE) => {
+            InsertReplaceType::Replace(parser.consume_keyword(Keyword::REPLACE)?)
+        }
         _ => parser.expected_failure("INSERT or REPLACE")?,
     };
 
-- 
2.43.0


From 5c58cbf03fe15a3269ba1b8cf2d2c7bcd5ffdfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:05 +0000
Subject: [PATCH 28/36] fix: INTERSECT is the reserved word, not INTERSECTA

---
 src/keywords.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/keywords.rs b/src/keywords.rs
index 2297295..9848905 100644
--- a/src/keywords.rs
+++ b/src/keywords.rs
@@ -399,7 +399,6 @@ INT8
 INT8_OPS
 INTEGER
 INTERSECT
-INTERSECTA
 INTERVAL
 INTO
 INVISIBLE
@@ -1062,7 +1061,7 @@ INT3
 INT4
 INT8
 INTEGER
-INTERSECTA
+INTERSECT
 INTERVAL
 INTO
 IS
-- 
2.43.0


From 884dda764ef8c4831da40fef9504f512d4bca163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:39 +0000
Subject: [PATCH 29/36] fix: report a backtick-quoted function name as an error
 for PostgreSQL

---
 src/expression.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/expression.rs b/src/expression.rs
index 53a8b31..0494a3e 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -909,7 +909,12 @@ fn parse_function<'a>(
         // Sqlite
         Token::Ident(_, Keyword::STRFTIME) => Function::Strftime,
         Token::Ident(_, Keyword::DATETIME) => Function::Datetime,
-        Token::Ident(v, k) if !k.reserved() => Function::Other(v),
+        Token::Ident(v, k) if !k.reserved() => {
+            if k == &Keyword::QUOTED_IDENTIFIER && parser.options.dialect.is_postgresql() {
+                parser.err("quoted identifiers not supported by postgresql", &span);
+            }
+            Function::Other(v)
+        }
         _ => {
             parser.err("Unknown function", &span);
             Function::Unknown
-- 
2.43.0


From acf61f807be23600ca430eea40a9e12e4b90e032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:22 +0000
Subject: [PATCH 30/36] fix: accept double-quoted function names for PostgreSQL

---
 src/expression.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/expression.rs b/src/expression.rs
index 0494a3e..998efba 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -915,6 +915,9 @@ fn parse_function<'a>(
             }
             Function::Other(v)
         }
+        Token::DoubleQuotedString(v) if parser.options.dialect.is_postgresql() => {
+            Function::Other(v)
+        }
         _ => {
             parser.err("Unknown function", &span);
             Function::Unknown
@@ -1391,9 +1394,15 @@ pub(crate) fn parse_expression<'a>(
                 )))
             }
             Token::DoubleQuotedString(_) if parser.options.dialect.is_postgresql() => {
-                let name = parser.consume_plain_identifier()?;
-                let parts = parse_identifier_parts(parser, name)?;
-                r.shift_expr(Expression::Identifier(parts))
+                if matches!(parser.peek(), Token::LParen) {
+                    let i = parser.token.clone();
+                    let s = parser.consume();
+                    r.shift_expr(parse_function(parser, i, s)?)
+                } else {
+                    let name = parser.consume_plain_identifier()?;
+                    let parts = parse_identifier_parts(parser, name)?;
+                    r.shift_expr(Expression::Identifier(parts))
+                }
             }
             Token::SingleQuotedString(_) | Token::DoubleQuotedString(_) => {
                 r.shift_expr(Expression::String(parser.consume_string()?))
-- 
2.43.0


From b2894c6336a6610062b4dde7823aebefb86cf020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:04 +0000
Subject: [PATCH 31/36] fix: quoted type names for PostgreSQL: double quotes
 are accepted, backticks an error

---
 src/data_type.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index a61e742..2df408f 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -382,7 +382,15 @@ pub(crate) fn parse_data_type<'a>(
             let (w, ws) = parse_width_req(parser)?;
             (t, Type::Bit(w, ws))
         }
-        Token::Ident(_, _) if parser.options.dialect.is_postgresql() => {
+        Token::Ident(_, kw) if parser.options.dialect.is_postgresql() => {
+            let quoted = kw == &Keyword::QUOTED_IDENTIFIER;
+            let name = parser.consume();
+            if quoted {
+                parser.err("quoted identifiers not supported by postgresql", &name);
+            }
+            (name.clone(), Type::Named(name))
+        }
+        Token::DoubleQuotedString(_) if parser.options.dialect.is_postgresql() => {
             let name = parser.consume();
             (name.clone(), Type::Named(name))
         }
-- 
2.43.0


From e71306c0003b700db8d9cf06d01aff01e5b71c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:47 +0000
Subject: [PATCH 32/36] fix: the functions INSERT() and REPEAT() were rejected

---
 src/expression.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/expression.rs b/src/expression.rs
index 998efba..9810979 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -1500,7 +1500,9 @@ pub(crate) fn parse_expression<'a>(
                     r.shift_expr(Expression::Invalid(extract_span))
                 }
             }
-            Token::Ident(_, Keyword::LEFT) if matches!(parser.peek(), Token::LParen) => {
+            Token::Ident(_, Keyword::INSERT | Keyword::LEFT | Keyword::REPEAT)
+                if matches!(parser.peek(), Token::LParen) =>
+            {
                 let i = parser.token.clone();
                 let s = parser.span.clone();
                 parser.consume();
-- 
2.43.0


From 269758b713e378a43cb3e2d1e2a4cdf68de23a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:38 +0000
Subject: [PATCH 33/36] fix: keep the spans of recovered placeholders inside
 their statement

The name of a CREATE TABLE whose head could not be parsed, and the width of
a type or index column that is not a number, got the span 0..0, so the span
of the statement reached back to the start of the whole input.
---
 src/alter.rs     |  8 ++++----
 src/create.rs    |  2 +-
 src/data_type.rs | 12 ++++++++----
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/alter.rs b/src/alter.rs
index ba8c4ab..fde7f57 100644
--- a/src/alter.rs
+++ b/src/alter.rs
@@ -371,12 +371,12 @@ fn parse_index_cols<'a>(parser: &mut Parser<'a, '_>) -> Result<Vec<IndexCol<'a>>
     parser.recovered("')'", &|t| t == &Token::RParen, |parser| {
         loop {
             let name = parser.consume_plain_identifier()?;
-            let size = if parser.skip_token(Token::LParen).is_some() {
+            let size = if let Some(lparen_span) = parser.skip_token(Token::LParen) {
                 let size = parser.recovered("')'", &|t| t == &Token::RParen, |parser| {
-                    parser.consume_int()
+                    Ok(Some(parser.consume_int()?))
                 })?;
-                parser.consume_token(Token::RParen)?;
-                Some(size)
+                let rparen_span = parser.consume_token(Token::RParen)?;
+                Some(size.unwrap_or_else(|| (0, lparen_span.join_span(&rparen_span))))
             } else {
                 None
             };
diff --git a/src/create.rs b/src/create.rs
index fc82446..5407261 100644
--- a/src/create.rs
+++ b/src/create.rs
@@ -1107,7 +1107,7 @@ fn parse_create_table<'a>(
     let table_span = parser.consume_keyword(Keyword::TABLE)?;
 
     let mut identifier = QualifiedName {
-        identifier: Identifier::new("", 0..0),
+        identifier: Identifier::new("", parser.span.start..parser.span.start),
         prefix: Default::default(),
     };
     let mut if_not_exists = None;
diff --git a/src/data_type.rs b/src/data_type.rs
index 2df408f..fce2d57 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -187,10 +187,14 @@ fn parse_width(parser: &mut Parser<'_, '_>) -> Result<Option<(usize, Span)>, Par
     if !matches!(parser.token, Token::LParen) {
         return Ok(None);
     }
-    parser.consume_token(Token::LParen)?;
-    let value = parser.recovered(")", &|t| t == &Token::RParen, |parser| parser.consume_int())?;
-    parser.consume_token(Token::RParen)?;
-    Ok(Some(value))
+    let lparen_span = parser.consume_token(Token::LParen)?;
+    let value = parser.recovered(")", &|t| t == &Token::RParen, |parser| {
+        Ok(Some(parser.consume_int()?))
+    })?;
+    let rparen_span = parser.consume_token(Token::RParen)?;
+    Ok(Some(value.unwrap_or_else(|| {
+        (0, lparen_span.join_span(&rparen_span))
+    })))
 }
 
 fn parse_width_req(parser: &mut Parser<'_, '_>) -> Result<(usize, Span), ParseError> {
-- 
2.43.0


From 3ed15965513f953ab55238f7aeb40328fce9c180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:25 +0000
Subject: [PATCH 34/36] fix: the body of a PostgreSQL function is any text up
 to the next $$

---
 src/create.rs | 17 ++++++-----------
 src/lexer.rs  | 10 ++++++++++
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/create.rs b/src/create.rs
index 5407261..73bc07b 100644
--- a/src/create.rs
+++ b/src/create.rs
@@ -627,18 +627,13 @@ fn parse_create_function<'a>(
     let returns_span = parser.consume_keyword(Keyword::RETURNS)?;
     let return_type = parse_data_type(parser, true)?;
     if parser.options.dialect.is_postgresql() && parser.skip_keyword(Keyword::AS).is_some() {
-        parser.consume_token(Token::DoubleDollar)?;
-        loop {
-            match &parser.token {
-                Token::Eof | Token::DoubleDollar => {
-                    parser.consume_token(Token::DoubleDollar)?;
-                    break;
-                }
-                _ => {
-                    parser.consume();
-                }
-            }
+        if parser.token != Token::DoubleDollar {
+            parser.expected_failure("'$$'")?
         }
+        // The body is any text up to the next "$$"
+        parser.lexer.skip_to_double_dollar();
+        parser.next();
+        parser.consume_token(Token::DoubleDollar)?;
     }
 
     let mut characteristics = Vec::new();
diff --git a/src/lexer.rs b/src/lexer.rs
index 4287809..8fa078d 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -222,6 +222,16 @@ impl<'a> Lexer<'a> {
         (self.s(span.clone()), span)
     }
 
+    /// Skip to the next "$$", or to the end of the input if there is none
+    pub fn skip_to_double_dollar(&mut self) {
+        while let Some((i, _)) = self.chars.peek() {
+            if self.src[*i..].starts_with("$$") {
+                break;
+            }
+            self.chars.next();
+        }
+    }
+
     pub fn next_token(&mut self) -> (Token<'a>, Span) {
         loop {
             let (start, c) = match self.chars.next() {
-- 
2.43.0


From e48c10094a7ac9a3f5654e3fec5416d70d5c8f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:58 +0000
Subject: [PATCH 35/36] fix: UNION queries are allowed in and as WITH queries

---
 src/with_query.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/with_query.rs b/src/with_query.rs
index 2fb94ae..bc36020 100644
--- a/src/with_query.rs
+++ b/src/with_query.rs
@@ -96,6 +96,7 @@ pub(crate) fn parse_with_query<'a>(
                 if !matches!(
                     &v,
                     Statement::Select(_)
+                        | Statement::Union(_)
                         | Statement::InsertReplace(_)
                         | Statement::Update(_)
                         | Statement::Delete(_)
@@ -126,6 +127,7 @@ pub(crate) fn parse_with_query<'a>(
             if !matches!(
                 &v,
                 Statement::Select(_)
+                    | Statement::Union(_)
                     | Statement::InsertReplace(_)
                     | Statement::Update(_)
                     | Statement::Delete(_)
-- 
2.43.0


From a60583409b1d6ea10a704dbfd4329c1f285073db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:24 +0000
Subject: [PATCH 36/36] fix: a PostgreSQL name in double quotes is not part of
 the string before it

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index dbce79d..053db6f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -344,7 +344,7 @@ impl<'a, 'b> Parser<'a, 'b> {
             return self.expected_failure("string");
         };
         let mut b = self.consume();
-        while let Some(v) = decode(&self.token) {
+        while let (false, Some(v)) = (self.at_quoted_name(), decode(&self.token)) {
             a.to_mut().push_str(&v);
             b = b.join_span(&self.consume());
         }
-- 
2.43.0

