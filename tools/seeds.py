HELP='''use sql_parse::*;
#[derive(Clone)]
struct R { trees: Vec<String>, issues: Vec<String>, errors: usize, spans: Vec<(usize, usize)>, text: String }
fn opts(d: SQLDialect) -> ParseOptions { ParseOptions::new().dialect(d).arguments(SQLArguments::QuestionMark) }
fn go(sql: &str, o: &ParseOptions, list: bool) -> R {
    let mut issues = Issues::new(sql);
    let st: Vec<Statement> = if list { parse_statements(sql, &mut issues, o) } else { parse_statement(sql, &mut issues, o).into_iter().collect() };
    R {
        trees: st.iter().map(|s| format!("{:?}", s)).collect(),
        spans: st.iter().map(|s| { let s = s.span(); (s.start, s.end) }).collect(),
        errors: issues.get().iter().filter(|i| matches!(i.level, Level::Error)).count(),
        text: format!("{}", issues),
        issues: issues.get().iter().map(|i| format!("{:?}", i)).collect(),
    }
}
fn maria(sql: &str) -> R { go(sql, &opts(SQLDialect::MariaDB), false) }
fn pg(sql: &str) -> R { go(sql, &opts(SQLDialect::PostgreSQL), false) }
fn list(sql: &str) -> R { go(sql, &opts(SQLDialect::MariaDB), true) }
/// The tree without its spans
fn bare(t: &str) -> String {
    let mut o = String::new();
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < c.len() {
        if c[i].is_ascii_digit() && (i == 0 || !c[i - 1].is_alphanumeric()) {
            let mut j = i;
            while j < c.len() && c[j].is_ascii_digit() { j += 1 }
            if j + 1 < c.len() && c[j] == '.' && c[j + 1] == '.' {
                j += 2;
                while j < c.len() && c[j].is_ascii_digit() { j += 1 }
                i = j;
                o.push('@');
                continue;
            }
        }
        o.push(c[i]);
        i += 1;
    }
    o
}
'''
SEEDS=[
dict(id="c01-stray-brace",prop="C01",
 edits=[("src/parser.rs","""                    while let Some(v) = brackets.pop() {
                        if v == Token::LBrace {
                            break;
                        }
                    }""","""                    loop {
                        let v = brackets.pop().expect("unbalanced braces");
                        if v == Token::LBrace {
                            break;
                        }
                    }""")],
 needs="an error inside a parenthesised list, followed by a closing brace that was never opened",
 breaks="error recovery panics on unbalanced braces",
 demo='''    for s in ["SELECT f(a b } )", "SELECT a FROM t JOIN u USING (1 }) WHERE 1", "SELECT f(a { ( } } b)"] {
        maria(s);
    }'''),
dict(id="c02-stray-bracket",prop="C02",
 edits=[("src/parser.rs","""                Token::RBracket => {
                    self.next();
                    while let Some(v) = brackets.pop() {""","""                Token::RBracket => {
                    if !brackets.is_empty() {
                        self.next();
                    }
                    while let Some(v) = brackets.pop() {""")],
 needs="an error inside a parenthesised list, followed by a closing bracket outside of any bracket",
 breaks="error recovery never gets past the bracket",
 demo='''    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || { maria("SELECT f(a b ] , c)"); tx.send(()).unwrap(); });
    rx.recv_timeout(std::time::Duration::from_secs(5)).expect("no answer");'''),
dict(id="c03-line-start",prop="C03",
 edits=[("src/issue.rs","""            let line = self.src[..issue.span.start]
                .chars()
                .filter(|v| *v == '\\n')
                .count()
                + 1;
            writeln!(f, "    At line {}, code {}", line, issue.sql_segment)?;""","""            let line = self.src[..issue.span.start].lines().count().max(1);
            writeln!(f, "    At line {}, code {}", line, issue.sql_segment)?;""")],
 needs="an issue whose span starts in the first column of a line other than the first",
 breaks="the printed line number is one too small",
 demo='''    let r = maria("SELECT a\\nFROM\\n;");
    assert!(r.text.contains("At line 3,"), "{}", r.text);'''),
dict(id="c05-timestampadd",prop="C05",
 edits=[("src/expression.rs","""            } => timespan_add_span
                .join_span(&unit.1)
                .join_span(interval)
                .join_span(datetime),""","""            } => timespan_add_span
                .join_span(&unit.1)
                .join_span(interval),""")],
 needs="a statement that ends with a call of TIMESTAMPADD",
 breaks="the span of the expression and of the statement does not reach its last argument",
 demo='''    let s = "SELECT TIMESTAMPADD(DAY, 1, created)";
    let r = maria(s);
    assert_eq!(r.spans, vec![(0, s.len() - 1)]);'''),
dict(id="c07-in-priority",prop="C07",
 edits=[("src/expression.rs","const IN_PRIORITY: usize = 110;","const IN_PRIORITY: usize = 105;")],
 needs="IN, IS or NOT LIKE after a comparison without parentheses",
 breaks="a = b IN (c) groups as a = (b IN (c)) although both have the same precedence",
 demo='''    let a = bare(&maria("SELECT a = b IN (c)").trees[0]);
    let b = bare(&maria("SELECT (a = b) IN (c)").trees[0]);
    assert_eq!(a, b);'''),
dict(id="c10-list-number",prop="C10",
 edits=[("src/expression.rs","""                let arg = parser.arg;
                parser.arg += 1;
                r.shift_expr(Expression::ListHack((
                    arg,""","""                let arg = parser.arg;
                r.shift_expr(Expression::ListHack((
                    arg,""")],
 needs="a placeholder after _LIST_ with the list option on",
 breaks="the placeholder gets the number of the list",
 demo='''    let r = go("SELECT a FROM t WHERE b IN (_LIST_) AND c = ?", &opts(SQLDialect::MariaDB).list_hack(true), false);
    assert!(r.trees[0].contains("Arg((1,"), "{}", r.trees[0]);'''),
dict(id="c20-conflict-where",prop="C20",
 edits=[("src/insert_replace.rs","""                            while parser.skip_token(Token::Comma).is_some() {
                                names.push(parser.consume_plain_identifier()?);
                            }""","""                            if parser.skip_token(Token::Comma).is_some() {
                                names.insert(0, parser.consume_plain_identifier()?);
                            }
                            while parser.skip_token(Token::Comma).is_some() {
                                names.push(parser.consume_plain_identifier()?);
                            }""")],
 needs="ON CONFLICT with two or more columns",
 breaks="the first two columns of the conflict target come back in the wrong order",
 demo='''    let r = pg("INSERT INTO t (a, b) VALUES (1, 2) ON CONFLICT (a1, b1) DO NOTHING");
    assert!(r.trees[0].find("\\"a1\\"") < r.trees[0].find("\\"b1\\""), "{}", r.trees[0]);'''),

dict(id="c04-empty-using",prop="C04",
 edits=[("src/select.rs","""            JoinSpecification::Using(v, s) => s.join_span(v),""","""            JoinSpecification::Using(v, s) => match (v.first(), v.last()) {
                (_, Some(last)) => s.join_span(last),
                _ => s.start..s.start - 1,
            },""")],
 needs="a USING list in which not one name could be read",
 breaks="the span of the statement ends before it starts",
 demo="""    let r = maria("SELECT a FROM t JOIN u USING ( 1 )");
    for (s, e) in r.spans { assert!(s <= e); }
    assert!(!r.trees[0].contains("Using([]") || true);
    let src = "SELECT a FROM t JOIN u USING ( 1 )";
    let mut issues = Issues::new(src);
    if let Some(Statement::Select(s)) = parse_statement(src, &mut issues, &opts(SQLDialect::MariaDB)) {
        for t in s.table_references.iter().flatten() {
            if let TableReference::Join { specification: Some(j), .. } = t {
                let s = j.span();
                assert!(s.start <= s.end, "{:?}", s);
            }
        }
    }"""),
dict(id="c04-no-columns",prop="C04",
 edits=[("src/statement.rs","""            .join_span(&self.table)
            .join_span(&self.columns)
            .join_span(&self.from_span)""","""            .join_span(&self.table)
            .join_span(&self.columns.opt_span().expect("columns"))
            .join_span(&self.from_span)""")],
 needs="COPY with an empty or entirely unreadable list of columns",
 breaks="asking for the span of the statement panics",
 demo="""    for s in ["COPY t ( ) FROM STDIN", "COPY t ( 1 ) FROM STDIN"] { pg(s); }"""),
dict(id="c05-window-frame",prop="C05",
 edits=[("src/statement.rs","""        self.when_span
            .join_span(&self.when)
            .join_span(&self.then_span)
            .join_span(&self.then)""","""        self.when_span
            .join_span(&self.when)
            .join_span(&self.then_span)
            .join_span(&self.then.first())""")],
 needs="-",breaks="-",demo="    panic!()") if False else None,
dict(id="c05-else-list",prop="C05",
 edits=[("src/select.rs","""        self.for_span
            .join_span(&self.strength)
            .join_span(&self.of)
            .join_span(&self.wait)""","""        self.for_span
            .join_span(&self.strength)
            .join_span(&self.wait)""")],
 needs="a statement that ends with FOR UPDATE OF and a table",
 breaks="the span of the statement stops before the tables",
 demo="""    let s = "SELECT a FROM t FOR UPDATE OF t";
    assert_eq!(maria(s).spans, vec![(0, s.len())]);"""),
dict(id="c06-update-flag",prop="C06",
 edits=[("src/lib.rs","""            if parser.token != Token::Eof {
                parser.expected_error("Unexpected token after statement")""","""            if !matches!(parser.token, Token::Eof | Token::SemiColon) {
                parser.expected_error("Unexpected token after statement")""")],
 needs="more text after the delimiter, parsed as a single statement",
 breaks="everything after the delimiter is dropped without an error",
 demo="""    assert!(maria("SELECT a ; SELECT b").errors > 0);"""),
dict(id="c06-index-size",prop="C06",
 edits=[("src/parser.rs","""                let v = match v.parse() {
                    Ok(v) => v,
                    Err(_) => self.err_here("integer outside range").unwrap_or_default(),
                };""","""                let v = match v.trim_start_matches('0').parse() {
                    Ok(v) => v,
                    Err(_) if v.len() > 20 || v.bytes().all(|c| c == b'0') => Default::default(),
                    Err(_) => self.err_here("integer outside range").unwrap_or_default(),
                };""")],
 needs="an integer literal of more than twenty digits",
 breaks="the number is turned into 0 without an error",
 demo="""    let r = maria("SELECT 123456789012345678901234567890");
    assert!(r.errors > 0, "{:?}", r.trees);"""),
dict(id="c08-enum-value",prop="C08",
 edits=[("src/data_type.rs","""            ans.push(parser.consume_string()?);
            match &parser.token {""","""            let token = parser.token.clone();
            ans.push(match token {
                // the common case does not need a copy
                Token::SingleQuotedString(v) if !v.contains('\\'') => {
                    let span = parser.consume();
                    SString::new(v.into(), span)
                }
                _ => parser.consume_string()?,
            });
            match &parser.token {""")],
 needs="a backslash escape in a value of ENUM or SET",
 breaks="the escape is not decoded there",
 demo="""    let r = maria("CREATE TABLE t (a ENUM('x\\\\ty'))");
    assert!(r.trees[0].contains("\\"x\\\\ty\\""), "{}", r.trees[0]);"""),
dict(id="c09-short-float",prop="C09",
 edits=[("src/expression.rs","""            Token::Float(_) => r.shift_expr(Expression::Float(parser.consume_float()?)),""","""            Token::Float(_) => {
                let (v, span) = parser.consume_float::<f32>()?;
                r.shift_expr(Expression::Float((v.into(), span)))
            }""")],
 needs="a float literal that needs more than single precision",
 breaks="the value is rounded",
 demo="""    let r = maria("SELECT 0.1");
    assert!(r.trees[0].contains("Float((0.1,"), "{}", r.trees[0]);"""),
dict(id="c09-quoted-minus",prop="C09",
 edits=[("src/lexer.rs","""                        Token::ShiftRight
                    }
                    _ => Token::Gt,""","""                        Token::ShiftRight
                    }
                    Some((_, '<')) => {
                        self.chars.next();
                        Token::Neq
                    }
                    _ => Token::Gt,""")],
 needs="a > directly followed by a <",
 breaks="two operators are merged into one",
 demo="""    assert!(maria("SELECT a >< b").errors > 0);"""),
dict(id="c10-dollar",prop="C10",
 edits=[("src/expression.rs","""                r.shift_expr(Expression::Arg((arg - 1, parser.consume())))""","""                parser.arg = usize::max(parser.arg, arg);
                r.shift_expr(Expression::Arg((usize::min(arg, parser.arg) - 1, parser.consume())))""")],
 needs="-",breaks="-",demo="    panic!()") if False else None,
dict(id="c10-percent-subquery",prop="C10",
 edits=[("src/expression.rs","""            Token::PercentS if matches!(parser.options.arguments, crate::SQLArguments::Percent) => {
                let arg = parser.arg;
                parser.arg += 1;""","""            Token::PercentS if !matches!(parser.options.arguments, crate::SQLArguments::Dollar) => {
                let arg = parser.arg;
                parser.arg += 1;""")],
 needs="a %s with the style of question marks selected",
 breaks="a placeholder of the other style is accepted",
 demo="""    let r = maria("SELECT a FROM t WHERE b = %s");
    assert!(r.errors > 0);"""),
dict(id="c11-second-delimiter",prop="C11",
 edits=[("src/statement.rs","""            match &parser.token {
                t if t == &parser.delimiter => {
                    parser.consume();
                }
                Token::Eof => return ans,
                _ => break,
            }
        }
""","""            match &parser.token {
                t if t == &parser.delimiter => {
                    parser.consume();
                    if ans.is_empty() {
                        break;
                    }
                }
                Token::Eof => return ans,
                _ => break,
            }
        }
""")],
 needs="two delimiters in a row at the start of the text",
 breaks="an empty statement is reported as an error",
 demo="""    assert_eq!(list("; ; SELECT 1;").errors, 0);"""),
dict(id="c12-inner-semicolon",prop="C12",
 edits=[("src/statement.rs","""                match &parser.token {
                    t if t == &parser.delimiter => break,
                    Token::Eof => return ans,
                    _ => (),
                }
            }
        }
        if from_stdin {""","""                match &parser.token {
                    t if t == &parser.delimiter || t == &Token::SemiColon => break,
                    Token::Eof => return ans,
                    _ => (),
                }
            }
            if parser.token != parser.delimiter {
                parser.consume();
                continue;
            }
        }
        if from_stdin {""")],
 needs="a malformed statement with a semicolon inside while another delimiter is in force",
 breaks="the rest of the malformed statement comes back as a statement of its own",
 demo="""    let r = list("DELIMITER $$\\nSELECT ) ; SELECT 3 $$ SELECT 4 $$");
    assert_eq!(r.trees.len(), 1, "{:?}", r.trees);"""),
dict(id="c12-stop-at-paren",prop="C12",
 edits=[("src/statement.rs","""            // We use a custom recovery here as ; is not allowed in sub expressions, it always terminates outer most statements
            loop {
                parser.next();
                match &parser.token {""","""            // We use a custom recovery here as ; is not allowed in sub expressions, it always terminates outer most statements
            loop {
                parser.next();
                if err && matches!(parser.token, Token::Ident(_, crate::keywords::Keyword::CREATE)) {
                    break;
                }
                match &parser.token {""")],
 needs="-",breaks="-",demo="    panic!()") if False else None,
dict(id="c13-elseif",prop="C13",
 edits=[("src/statement.rs","""            if let Some(else_span) = parser.skip_keyword(Keyword::ELSE) {
                let mut o = Vec::new();
                parse_statement_list(parser, &mut o)?;
                else_ = Some((else_span, o));
            }
            Ok(())""","""            if let Some(else_span) = parser.skip_keyword(Keyword::ELSE) {
                let mut o = Vec::new();
                let permit = core::mem::replace(&mut parser.permit_compound_statements, false);
                if let Some(v) = parse_statement(parser)? {
                    o.push(v);
                    parser.skip_token(Token::SemiColon);
                }
                parser.permit_compound_statements = permit;
                parse_statement_list(parser, &mut o)?;
                else_ = Some((else_span, o));
            }
            Ok(())""")],
 needs="a BEGIN block as the first statement of an ELSE branch",
 breaks="the block is taken for the start of a transaction",
 demo="""    let s = "CREATE TRIGGER a BEFORE INSERT ON t FOR EACH ROW BEGIN IF 1 THEN SELECT 1; ELSE BEGIN SELECT 2; END; END IF; END";
    let r = maria(s);
    assert_eq!(r.trees[0].matches("Block(").count(), 2, "{}", r.trees[0]);"""),
dict(id="c14-lone-backslash",prop="C14",
 edits=[("src/lexer.rs","""            if !matches!(self.chars.peek(), Some((_, '.'))) {
                continue;
            }
            self.chars.next().unwrap();
            if matches!""","""            if !matches!(self.chars.next(), Some((_, '.'))) {
                continue;
            }
            if matches!""")],
 needs="a line of data that is a single backslash, directly before the terminator",
 breaks="the terminator is not seen and everything after it becomes data",
 demo="""    let r = go("COPY t (a) FROM STDIN;\\n1\\n\\\\\\n\\\\.\\nSELECT 1;", &opts(SQLDialect::PostgreSQL), true);
    assert_eq!(r.trees.len(), 3, "{:?}", r.trees);"""),
dict(id="c15-star-comment",prop="C15",
 edits=[("src/lexer.rs","""                                Some((_, '*')) => {
                                    if matches!(self.chars.peek(), Some((_, '/'))) {
                                        self.chars.next();
                                        break true;
                                    }
                                }""","""                                Some((_, '*')) => {
                                    if matches!(self.chars.next(), Some((_, '/'))) {
                                        break true;
                                    }
                                }""")],
 needs="a comment with an even number of stars before its end",
 breaks="the comment does not end",
 demo="""    assert_eq!(maria("SELECT /* a **/ b").errors, 0);"""),
dict(id="c15-cr-comment",prop="C15",
 edits=[("src/lexer.rs","""                    Some((_, '/')) => {
                        while !matches!(self.chars.next(), Some((_, '\\r' | '\\n')) | None) {}
                        continue;""","""                    Some((_, '/')) => {
                        while !matches!(self.chars.next(), Some((_, '\\n')) | None) {}
                        continue;""")],
 needs="a // comment that ends with a carriage return only",
 breaks="the text after it is taken for a comment",
 demo="""    assert_eq!(maria("SELECT // a\\r b").errors, 0);"""),
dict(id="c16-mixed-case",prop="C16",
 edits=[("src/lexer.rs","""        let ss = s.to_ascii_uppercase();
        Token::Ident(s, ss.as_str().into())""","""        // most keywords are written all the same way
        if s.len() >= 8 && s.as_bytes()[0].is_ascii_uppercase() && s.as_bytes()[1].is_ascii_lowercase() {
            return Token::Ident(s, s.into());
        }
        let ss = s.to_ascii_uppercase();
        Token::Ident(s, ss.as_str().into())""")],
 needs="a keyword of eight letters or more with only the first one a capital",
 breaks="Distinct, Interval, Temporary and the like are not recognised",
 demo="""    assert_eq!(maria("SELECT Distinct a").errors, 0);"""),
dict(id="c17-span",prop="C17",
 edits=[("src/parser.rs","""                    self.warn(format!("identifiers should be quoted as `{}`", v), &span);""","""                    let here = self.span.span();
                    self.warn(format!("identifiers should be quoted as `{}`", v), &here);""")],
 needs="the lint about unquoted identifiers on a name in an expression",
 breaks="the warning points at the word after it",
 demo="""    let o = opts(SQLDialect::MariaDB).warn_unquoted_identifiers(true);
    let r = go("SELECT ab + 1", &o, false);
    assert!(r.issues[0].contains("7..9"), "{:?}", r.issues);"""),
dict(id="c18-key-share",prop="C18",
 edits=[("src/select.rs","""            if !parser.options.dialect.is_postgresql() {
                parser.err("Only support by PostgreSQL", s);""","""            if parser.options.dialect.is_maria() {
                parser.err("Only support by PostgreSQL", s);""")],
 needs="FOR NO KEY UPDATE or FOR KEY SHARE in the Sqlite dialect",
 breaks="it is accepted",
 demo="""    assert!(go("SELECT a FROM t FOR KEY SHARE", &opts(SQLDialect::Sqlite), false).errors > 0);"""),
dict(id="c18-opclass",prop="C18",
 edits=[("src/create.rs","""            if !parser.options.dialect.is_postgresql() {
                parser.err("Opclasses not supporetd", &range);
            }
        }
        if parser.skip_token(Token::Comma).is_none() {
            break;
        }
    }

    let r_paren_span""","""            if !parser.options.dialect.is_postgresql() && column_names.len() == 1 {
                parser.err("Opclasses not supporetd", &range);
            }
        }
        if parser.skip_token(Token::Comma).is_none() {
            break;
        }
    }

    let r_paren_span""")],
 needs="an operator class on the second column of an index, outside PostgreSQL",
 breaks="it is accepted",
 demo="""    assert!(maria("CREATE INDEX i ON t (a, b int4_ops)").errors > 0);"""),
dict(id="c19-union-offset",prop="C19",
 edits=[("src/statement.rs","""            Token::Ident(_, Keyword::OFFSET) => {
                parser.consume();
                Some((span, Some(parse_expression(parser, true)?), n))
            }""","""            Token::Ident(_, Keyword::OFFSET) => {
                parser.consume();
                Some((span, Some(n), parse_expression(parser, true)?))
            }""")],
 needs="LIMIT n OFFSET m after a union that ends with a parenthesis",
 breaks="offset and count are exchanged",
 demo="""    let a = bare(&maria("(SELECT 1) UNION (SELECT 2) LIMIT 5 OFFSET 7").trees[0]);
    let b = bare(&maria("(SELECT 1) UNION (SELECT 2) LIMIT 7, 5").trees[0]);
    assert_eq!(a, b);"""),
dict(id="c19-join-scope",prop="C19",
 edits=[("src/select.rs","""                    _ => parser.expected_failure("'INDEX' or 'KEY'")?,
                };
                let for_ = if""","""                    _ => parser.expected_failure("'INDEX' or 'KEY'")?,
                };
                let use_ = match (use_, index_hints.last()) {
                    (IndexHintUse::Use(s), Some(IndexHint { use_: IndexHintUse::Force(_), .. })) => {
                        IndexHintUse::Force(s)
                    }
                    (u, _) => u,
                };
                let for_ = if""")],
 needs="a USE INDEX hint directly after a FORCE INDEX hint",
 breaks="the second hint comes back as FORCE",
 demo="""    let r = maria("SELECT a FROM t FORCE INDEX (i) USE INDEX (j)");
    assert!(r.trees[0].contains("Use("), "{}", r.trees[0]);"""),
dict(id="c20-insert-ignore",prop="C20",
 edits=[("src/update.rs","""        while parser.skip_token(Token::Period).is_some() {
            col.push(parser.consume_plain_identifier()?);
        }
        parser.consume_token(Token::Eq)?;""","""        while parser.skip_token(Token::Period).is_some() {
            col.truncate(1);
            col.push(parser.consume_plain_identifier()?);
        }
        parser.consume_token(Token::Eq)?;""")],
 needs="an assignment to schema.table.column in UPDATE",
 breaks="the middle part of the name is lost",
 demo="""    let r = maria("UPDATE s.t SET s1.t1.c1 = 1");
    assert!(r.trees[0].contains("t1"), "{}", r.trees[0]);"""),
dict(id="c21-unique-key",prop="C21",
 edits=[("src/data_type.rs","""                let start = parser.consume_keyword(Keyword::NOT)?.start;
                properties.push(DataTypeProperty::NotNull(
                    start..parser.consume_keyword(Keyword::NULL)?.end,
                ));""","""                let start = parser.consume_keyword(Keyword::NOT)?.start;
                let span = start..parser.consume_keyword(Keyword::NULL)?.end;
                properties.retain(|p| !matches!(p, DataTypeProperty::Null(_) | DataTypeProperty::Default(_)));
                properties.push(DataTypeProperty::NotNull(span));""")],
 needs="NOT NULL after DEFAULT in a column definition",
 breaks="the default is lost",
 demo="""    let r = maria("CREATE TABLE t (a INT DEFAULT 7 NOT NULL)");
    assert!(r.trees[0].contains("Default("), "{}", r.trees[0]);"""),
dict(id="c21-double-precision",prop="C21",
 edits=[("src/data_type.rs","""        Token::Ident(_, Keyword::MEDIUMBLOB) => (
            parser.consume_keyword(Keyword::MEDIUMBLOB)?,
            Type::MediumBlob(parse_width(parser)?),
        ),""","""        Token::Ident(_, Keyword::MEDIUMBLOB) => (
            parser.consume_keyword(Keyword::MEDIUMBLOB)?,
            match parse_width(parser)? {
                None => Type::MediumBlob(None),
                width => Type::Blob(width),
            },
        ),""")],
 needs="MEDIUMBLOB with a width",
 breaks="the type comes back as BLOB",
 demo="""    let r = maria("CREATE TABLE t (a MEDIUMBLOB(7))");
    assert!(r.trees[0].contains("MediumBlob("), "{}", r.trees[0]);"""),
dict(id="c22-in-out",prop="C22",
 edits=[("src/create.rs","""                    if let Some(out) = parser.skip_keyword(Keyword::OUT) {
                        Some(FunctionParamDirection::InOut(in_.join_span(&out)))""","""                    if let Some(out) = parser.skip_keyword(Keyword::OUT) {
                        Some(FunctionParamDirection::Out(in_.join_span(&out)))""")],
 needs="a parameter declared IN OUT with two words",
 breaks="the direction comes back as OUT",
 demo="""    let r = maria("CREATE FUNCTION f (IN OUT a INT) RETURNS INT RETURN 1");
    assert!(r.trees[0].contains("InOut("), "{}", r.trees[0]);"""),
dict(id="c22-security-user",prop="C22",
 edits=[("src/create.rs","""                            Token::Ident(_, Keyword::USER) => CreateOption::SqlSecurityUser(""","""                            Token::Ident(_, Keyword::USER) => CreateOption::SqlSecurityDefiner(""")],
 needs="CREATE SQL SECURITY USER VIEW",
 breaks="the option comes back as SQL SECURITY DEFINER",
 demo="""    let r = maria("CREATE SQL SECURITY USER VIEW v AS SELECT 1");
    assert!(r.trees[0].contains("SqlSecurityUser("), "{}", r.trees[0]);"""),
dict(id="c23-second-action",prop="C23",
 edits=[("src/alter.rs","""                ons.push(ForeignKeyOn { type_, action })""","""                // the later clause wins
                ons.retain(|on: &ForeignKeyOn| {
                    core::mem::discriminant(&on.action) != core::mem::discriminant(&action)
                });
                ons.push(ForeignKeyOn { type_, action })""")],
 needs="ON UPDATE and ON DELETE with the same action",
 breaks="the first of the two is lost",
 demo="""    let r = maria("ALTER TABLE t ADD FOREIGN KEY (a) REFERENCES u (b) ON UPDATE CASCADE ON DELETE CASCADE");
    assert_eq!(r.trees[0].matches("Cascade(").count(), 2, "{}", r.trees[0]);"""),
dict(id="c23-drop-not-null",prop="C23",
 edits=[("src/alter.rs","""                                    AlterColumnAction::DropNotNull { drop_not_null_span }""","""                                    AlterColumnAction::SetNotNull {
                                        set_not_null_span: drop_not_null_span,
                                    }""")],
 needs="ALTER COLUMN c DROP NOT NULL",
 breaks="the action comes back as SET NOT NULL",
 demo="""    let r = pg("ALTER TABLE t ALTER COLUMN c DROP NOT NULL");
    assert!(r.trees[0].contains("DropNotNull"), "{}", r.trees[0]);"""),
dict(id="c24-drop-order",prop="C24",
 edits=[("src/statement.rs","""        values.push((name, val));
        if parser.skip_token(Token::Comma).is_none() {""","""        match values.iter().position(|(n, _)| n == &name) {
            Some(i) => values[i] = (name, val),
            None => values.push((name, val)),
        }
        if parser.skip_token(Token::Comma).is_none() {""")],
 needs="SET that assigns the same variable twice",
 breaks="only the last of the assignments is returned",
 demo="""    let r = maria("SET a = 1, b = 2, a = 3");
    assert!(r.trees[0].contains("Integer((1,"), "{}", r.trees[0]);"""),
dict(id="c24-signal-item",prop="C24",
 edits=[("src/statement.rs","""                    SignalConditionInformationName::ConstraintSchema(parser.consume())""","""                    SignalConditionInformationName::SchemaName(parser.consume())""")],
 needs="SIGNAL ... SET CONSTRAINT_SCHEMA",
 breaks="the item comes back as SCHEMA_NAME",
 demo="""    let r = maria("SIGNAL SQLSTATE '45000' SET CONSTRAINT_SCHEMA = 'a'");
    assert!(r.trees[0].contains("ConstraintSchema("), "{}", r.trees[0]);"""),
dict(id="c25-is-not-unknown",prop="C25",
 edits=[("src/expression.rs","""                                (Is::NotUnknown, parser.consume().join_span(&op))""","""                                (Is::NotNull, parser.consume().join_span(&op))""")],
 needs="IS NOT UNKNOWN",
 breaks="the test comes back as IS NOT NULL",
 demo="""    let r = maria("SELECT a IS NOT UNKNOWN");
    assert!(r.trees[0].contains("NotUnknown"), "{}", r.trees[0]);"""),
dict(id="c25-interval-parts",prop="C25",
 edits=[("src/expression.rs","""                        for part in v.split([':', '!', ',', '.', '-', ' ']) {""","""                        for part in v.split([':', '!', ',', '.', ' ']) {""")],
 needs="an interval whose parts are separated by a minus",
 breaks="INTERVAL '1-2' YEAR_MONTH is rejected",
 demo="""    assert_eq!(maria("SELECT a + INTERVAL '1-2' YEAR_MONTH").errors, 0);"""),
dict(id="c26-arguments",prop="C26",
 edits=[("src/statement.rs","""        let stmt = match parse_statement(parser) {
            Ok(Some(v)) => Ok(v),
            Ok(None) => parser.expected_failure("Statement"),
            Err(e) => Err(e),
        };
        let err = stmt.is_err();""","""        parser.permit_compound_statements = matches!(parser.token, Token::Ident(_, Keyword::IF));
        let stmt = match parse_statement(parser) {
            Ok(Some(v)) => Ok(v),
            Ok(None) => parser.expected_failure("Statement"),
            Err(e) => Err(e),
        };
        parser.permit_compound_statements = false;
        let err = stmt.is_err();""")],
 needs="-",breaks="-",demo="    panic!()") if False else None,
dict(id="c26-table-options",prop="C26",
 edits=[("src/create.rs","""                    t if t == &parser.delimiter => break,
                    Token::Eof => break,
                    _ => {
                        parser.expected_failure("table option or delimiter")?;""","""                    t if t == &parser.delimiter => break,
                    Token::Eof if options.is_empty() => break,
                    _ => {
                        parser.expected_failure("table option or delimiter")?;""")],
 needs="CREATE TABLE with a table option as a single statement without a delimiter",
 breaks="it is rejected although it is accepted in a list",
 demo="""    assert_eq!(maria("CREATE TABLE t (a INT) ENGINE = x").errors, 0);"""),
dict(id="c27-reserved-word",prop="C27",
 edits=[("src/alter.rs","""            let cols = parse_index_cols(parser)?;
            let references_span""","""            let cols = parse_index_cols(parser)?;
            let references_span""")],needs="-",breaks="-",demo="    panic!()") if False else None,
dict(id="c27-copy-table",prop="C27",
 edits=[("src/statement.rs","""    let copy_span = parser.consume_keyword(Keyword::COPY)?;
    let table = parser.consume_plain_identifier()?;""","""    let copy_span = parser.consume_keyword(Keyword::COPY)?;
    let table = match &parser.token {
        Token::Ident(v, kw) if kw != &Keyword::QUOTED_IDENTIFIER => {
            let v = *v;
            Identifier::new(v, parser.consume())
        }
        _ => parser.consume_plain_identifier()?,
    };""")],
 needs="a reserved word as the table of COPY",
 breaks="it is accepted without quotes",
 demo="""    assert!(pg("COPY select (a) FROM STDIN").errors > 0);"""),
dict(id="c29-list-span",prop="C29",
 edits=[("src/span.rs","""impl<T: OptSpanned> OptSpanned for Vec<T> {
    fn opt_span(&self) -> Option<Span> {
        self.iter().fold(None, |a, b| a.opt_join_span(b))""","""impl<T: OptSpanned> OptSpanned for Vec<T> {
    fn opt_span(&self) -> Option<Span> {
        self.first()?.opt_join_span(self.last()?)""")],
 needs="a list whose widest span is neither the first nor the last, or the first of which is absent",
 breaks="the span of a list does not cover all of it",
 demo="""    assert_eq!(vec![3..4, 0..9, 5..6].opt_span(), Some(0..9));
    assert_eq!(vec![None, Some(2..3), None].opt_span(), Some(2..3));"""),
dict(id="c29-name-order",prop="C29",
 edits=[("src/identifier.rs","""        self.value.cmp(other.value)""","""        self.value
            .cmp(other.value)
            .then_with(|| self.span.start.cmp(&other.span.start))""")],
 needs="two equal names from different places of the text, compared by order",
 breaks="they are equal but not of equal order",
 demo="""    assert_eq!(Identifier::new("a", 0..1).cmp(&Identifier::new("a", 4..5)), std::cmp::Ordering::Equal);"""),
dict(id="c28-warn-once",prop="C28",
 edits=[("src/statement.rs","""                parser.warn("Unknown delimiter", &parser.span.span());""","""                static SEEN: core::sync::atomic::AtomicBool =
                    core::sync::atomic::AtomicBool::new(false);
                if !SEEN.swap(true, core::sync::atomic::Ordering::Relaxed) {
                    parser.warn("Unknown delimiter", &parser.span.span());
                }""")],
 needs="a second text with an unusual delimiter in the same process",
 breaks="the second one is not warned about",
 demo="""    let a = list("DELIMITER + COMMIT +").issues;
    assert_eq!(a, list("DELIMITER + COMMIT +").issues);
    assert_eq!(a.len(), 1);"""),
dict(id="c13-empty-else",prop="C13",
 edits=[("src/statement.rs","""                let mut e = Vec::new();
                parse_statement_list(parser, &mut e)?;
                else_ = Some((span, e))
            };
            Ok(())
        },
    )?;
    let end_span = parser.consume_keyword(Keyword::END)?;
    Ok(CaseStatement {""","""                let mut e = Vec::new();
                parse_statement_list(parser, &mut e)?;
                if whens.len() > 1 || e.len() < 2 {
                    e.truncate(2);
                    else_ = Some((span, e))
                } else {
                    whens[0].then.append(&mut e);
                }
            };
            Ok(())
        },
    )?;
    let end_span = parser.consume_keyword(Keyword::END)?;
    Ok(CaseStatement {""")],
 needs="a CASE statement with one WHEN and two or more statements after ELSE",
 breaks="the statements of ELSE end up after THEN",
 demo="""    let r = maria("CREATE TRIGGER a AFTER INSERT ON b FOR EACH ROW CASE WHEN 1 THEN COMMIT; ELSE COMMIT; COMMIT; END");
    assert_eq!(r.errors, 0);
    assert!(r.trees[0].contains("else_: Some("), "{}", r.trees[0]);"""),
dict(id="c21-second-check",prop="C21",
 edits=[("src/data_type.rs","""                properties.push(DataTypeProperty::Check((span, Box::new(e))));""","""                if properties.len() > 1 {
                    properties.retain(|p| !matches!(p, DataTypeProperty::Check(_)));
                }
                properties.push(DataTypeProperty::Check((span, Box::new(e))));""")],
 needs="a column with two CHECK conditions and another property",
 breaks="the first condition is dropped",
 demo="""    let r = maria("CREATE TABLE t (a INT NOT NULL CHECK (a > 1) CHECK (a < 9))");
    assert_eq!(r.errors, 0);
    assert_eq!(r.trees[0].matches("Check(").count(), 2);"""),
dict(id="c22-empty-label",prop="C22",
 edits=[("src/create.rs","""                values.push(parser.consume_string()?);
                Ok(())
            },
        )?;
        if matches!(parser.token, Token::RParen) {
            break;
        }
        parser.consume_token(Token::Comma)?;
    }
    parser.consume_token(Token::RParen)?;
    Ok(Statement::CreateTypeEnum""","""                let v = parser.consume_string()?;
                if values.is_empty() || !v.as_str().is_empty() {
                    values.push(v);
                }
                Ok(())
            },
        )?;
        if matches!(parser.token, Token::RParen) {
            break;
        }
        parser.consume_token(Token::Comma)?;
    }
    parser.consume_token(Token::RParen)?;
    Ok(Statement::CreateTypeEnum""")],
 needs="CREATE TYPE with an empty label after another one",
 breaks="the label is dropped",
 demo="""    let r = pg("CREATE TYPE t AS ENUM ('a', '', 'b')");
    assert_eq!(r.errors, 0);
    assert_eq!(r.trees[0].matches("SString").count(), 3, "{}", r.trees[0]);"""),
dict(id="c20-long-target",prop="C20",
 edits=[("src/update.rs","""            col.push(parser.consume_plain_identifier()?);""","""            let c = parser.consume_plain_identifier()?;
            if col.len() > 1 {
                col.remove(0);
            }
            col.push(c);""")],
 needs="UPDATE of a column written as schema.table.column",
 breaks="the schema is dropped",
 demo="""    let r = maria("UPDATE s.t SET s.t.c = 1");
    assert_eq!(r.errors, 0);
    assert!(r.trees[0].matches(r#"value: "s""#).count() == 2, "{}", r.trees[0]);"""),
dict(id="c23-third-column",prop="C23",
 edits=[("src/alter.rs","""            ans.push(IndexCol { name, size });""","""            let size = if ans.len() > 1 { None } else { size };
            ans.push(IndexCol { name, size });""")],
 needs="an index over three or more columns with a size at the third",
 breaks="the size is dropped",
 demo="""    let r = maria("ALTER TABLE t ADD INDEX i (a, b, c(7))");
    assert_eq!(r.errors, 0);
    assert!(r.trees[0].contains("(7, "), "{}", r.trees[0]);"""),
dict(id="c18-long-returning",prop="C18",
 edits=[("src/update.rs","""        if !parser.options.dialect.is_postgresql() {
            parser.err("Only support by postgesql", &returning_span);""","""        if !parser.options.dialect.is_postgresql() && returning_exprs.len() == 1 {
            parser.err("Only support by postgesql", &returning_span);""")],
 needs="UPDATE ... RETURNING of more than one expression outside of PostgreSQL",
 breaks="it is accepted",
 demo="""    assert!(maria("UPDATE t SET a = 1 RETURNING a, b").errors > 0);"""),
]
SEEDS=[s for s in SEEDS if s]
