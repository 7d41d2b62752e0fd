#!/usr/bin/env python3
"""Writes properties.jsonl. Run from /verif: python3 tools/gen_properties.py"""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))

T="The 36 baseline tests parse a few dozen fixed, mostly valid strings and only check that no issue was reported; "

p("C01","Parsing never panics",
 "Parsing any text, valid SQL or not, with any combination of options, as one statement or as a statement list, returns normally: it never panics, overflows an integer or aborts (the nesting depth of the input bounded, since the parser is recursive). Malformed input is only ever answered through the reported issues and an absent or partial result.",
 ["inputs","configurations"],"every UTF-8 input string, every dialect, argument style and flag combination, both entry points",
 T+"no malformed text, no odd option combination and no truncated statement is ever tried.",
 ["src/lexer.rs","src/parser.rs","src/statement.rs","src/expression.rs","src/lib.rs"],
 [("tokenizer loop","src/lexer.rs Lexer::next_token"),("expect/unwrap and shift-reduce stack of the parser","src/parser.rs, src/expression.rs Reducer, src/statement.rs parse_statements")])
p("C02","Parsing always terminates with bounded output",
 "Parsing any text with any options terminates, and the number of statements returned and issues reported is bounded by a small constant times the number of bytes of the input. No input, in particular no input that ends early or changes the statement delimiter, makes the parser loop.",
 ["inputs","configurations"],"every input string and option set, including inputs truncated at every position",
 T+"they never truncate a statement, never use DELIMITER and never look at how recovery loops end.",
 ["src/parser.rs","src/statement.rs","src/lexer.rs"],
 [("error recovery loops","src/parser.rs Parser::recover; src/statement.rs parse_statements"),("list loops","every parse_* function that loops until a token is missing")])
p("C03","Reported issues point into the source correctly",
 "For every reported issue and each of its secondary fragments, the byte span lies inside the source on character boundaries and the attached SQL segment is exactly the source text under that span. The printed form of the issues shows each issue once, in order, with its level, message, segment and the 1-based line on which its span starts, and says that there are no issues when there are none.",
 ["inputs","configurations"],"every input (multi-line and non-ASCII included) and option set that yields issues, and every issue built through the public issue API",
 "The baseline tests assert the absence of issues, so no issue span, segment or line number is ever examined.",
 ["src/issue.rs","src/lexer.rs","src/span.rs"],
 [("issue construction","src/issue.rs Issues::err, Issues::warn, IssueHandle::frag"),("line computation","src/issue.rs Display for Issues"),("token spans","src/lexer.rs next_token")])
p("C04","Every returned statement has a usable source span",
 "For every statement returned by parsing, whatever the input and whether or not errors were reported, asking for its source span, or that of any node inside it, returns normally. That span, and every span recorded inside the tree, is ordered, lies within the source and falls on character boundaries. The spans of the statements of a list come in source order and do not overlap, also when errors were reported.",
 ["inputs","configurations"],"every statement returned for any input, error recovery included",
 "No baseline test calls span() on a parsed statement, and none parses an empty block.",
 ["src/span.rs","src/statement.rs","src/select.rs","src/create.rs"],
 [("Spanned implementations of all AST nodes","impl Spanned in every src/*.rs"),("joining of spans","src/span.rs join_span, opt_span")])
p("C05","Spans of error-free statements cover exactly their source text",
 "When parsing reports no error, each statement's span starts at its first token and reaches its last token (only parentheses at either end, and at the end parts the tree has no place for, namely a $$-quoted function body and the parts of CREATE TABLE's table-level FOREIGN KEY, may lie outside it); statements of a list come in source order and do not overlap. Every identifier, literal and keyword span inside a statement lies within that statement's span and covers exactly the source text of the identifier, literal or keyword it stands for; the span of a select item, condition, table reference, column definition, data type and alteration covers exactly that construct (up to parentheses and the word EXISTS), and the span of every node of the tree is the smallest range holding all the spans recorded in that node.",
 ["inputs"],"every error-free input generated by the statement grammar, in every layout",
 "Spans are never inspected by the baseline tests; each of ~90 node types joins its own list of parts by hand, so only enumerating optional clauses shows a part left out.",
 ["src/span.rs","src/select.rs","src/create.rs","src/drop.rs","src/alter.rs","src/insert_replace.rs","src/update.rs","src/delete.rs","src/statement.rs","src/expression.rs"],
 [("per-node span joins","impl Spanned for each AST struct"),("keyword spans","src/parser.rs consume_keyword(s)")])
p("C06","No silent failure: input is never dropped without an Error",
 "If a statement could not be understood (no statement is returned, one is dropped, or an invalid placeholder is returned) at least one issue of level Error is reported. If no Error is reported, then the input is fully accounted for: every identifier, number, string and placeholder token of the source appears in the returned statements. (Exempt is what the tree has no place for by design: the parts of CREATE TABLE's table-level FOREIGN KEY, index operator classes, quoted PostgreSQL function bodies, and EXCEPTION handlers.)",
 ["inputs"],"every token sequence up to a bound and every one- or two-token edit of every statement of the grammar",
 T+"they cannot see a construct that is accepted but forgotten, nor an error that is swallowed by recovery.",
 ["src/parser.rs","src/statement.rs","src/lib.rs"],
 [("recovery after errors","src/parser.rs recovered/recover"),("trailing input checks","src/lib.rs parse_statement; src/statement.rs parse_statements")])
p("C07","Operator precedence and associativity",
 "In any expression built from the supported operators (OR, XOR, AND, NOT, comparisons, LIKE, IN, IS, bit operators, shifts, additive and multiplicative operators, unary minus, !, BINARY), operands group as documented for MariaDB: tighter operators bind first, operators of equal precedence group to the left, and parentheses override. Each operator is reported as itself, with its operands in source order.",
 ["inputs"],"every sequence of operators up to a length bound, with every parenthesisation of up to that many operands",
 "The one unit test on expressions covers a handful of fixed operator pairs; precedence is a relation over all pairs and nestings of operators.",
 ["src/expression.rs"],
 [("shift-reduce operator parser","src/expression.rs Reducer, Priority impls, parse_expression")])
p("C08","String literals decode to the value they denote",
 "The value of a string literal is the text between its quotes with doubled quote characters and, in the MariaDB dialect, backslash escapes replaced by the characters they denote (\\n, \\t, \\r, \\0, \\b, \\Z; \\% and \\_ kept as they are; any other escaped character stands for itself). In the other dialects a backslash is an ordinary character. Adjacent literals are concatenated in order, and no other character of a literal is lost, added or reordered, for either quote style, in every place where a string is accepted (in PostgreSQL double quotes enclose names in expressions, and nowhere continue a string).",
 ["inputs"],"every literal body up to a length bound over quotes, backslash, letters, newline and multi-byte characters; every short sequence of adjacent literals",
 "No baseline test looks at the value of a string literal.",
 ["src/parser.rs","src/lexer.rs","src/sstring.rs"],
 [("string decoding","src/parser.rs decode_single_quoted_string, decode_double_quoted_string, consume_string"),("string tokenisation","src/lexer.rs next_token")])
p("C09","Identifiers and numbers keep their exact value",
 "An identifier is returned with exactly its source spelling, without the quotes when it is quoted, and qualified names keep all their parts in order. An integer or float literal is returned with exactly its numeric value or rejected with an Error when it does not fit; adjacent tokens are never merged or split differently from SQL's rules (longest operator first, digits with one decimal point, -- and // and /* */ comments).",
 ["inputs"],"every string up to a length bound over an alphabet of all lexically significant characters; integers around every power-of-two and digit-count boundary",
 "Baseline tests use a few ordinary identifiers and small numbers and never read the values back.",
 ["src/lexer.rs","src/parser.rs","src/identifier.rs","src/qualified_name.rs"],
 [("tokenizer","src/lexer.rs next_token, simple_literal"),("number conversion","src/parser.rs consume_int, consume_float")])
p("C10","Query placeholders are recognised and numbered in source order",
 "With the matching argument style selected, each %s or ? placeholder is returned as an argument numbered 0, 1, 2, ... in source order, continuing through nested queries and across the statements of a list, and $n is returned as argument n-1 (with the list option on, _LIST_ is returned as a list argument, numbered along with %s and ?; the numbers of $n do not count there). With another argument style selected, the placeholder is reported as an Error and never turned into an argument of that style.",
 ["inputs","configurations","histories"],"every placement of up to k placeholders in the grammar's expression positions, over statement lists, under every argument style",
 "Baseline tests select an argument style but never contain more than a few placeholders and never read the numbers.",
 ["src/expression.rs","src/lexer.rs","src/parser.rs"],
 [("argument counter","src/parser.rs Parser::arg; src/expression.rs argument tokens")])
p("C11","A statement list parses as the concatenation of its statements",
 "Parsing a list of valid statements separated by the delimiter yields exactly the statements obtained by parsing each one alone, in order, with spans shifted by the position and placeholder numbers continued; empty statements between delimiters add nothing. No earlier statement influences how a later one is parsed.",
 ["histories"],"every sequence of statements up to a depth over representatives of every statement kind",
 "No baseline test parses more than one statement at a time; cross-statement parser state is a property of histories.",
 ["src/statement.rs","src/parser.rs"],
 [("statement loop and parser state (token, delimiter, argument counter, compound-statement flag)","src/statement.rs parse_statements; src/parser.rs Parser")])
p("C12","An error in one statement does not damage the others",
 "When one statement of a list is malformed but leaves no literal, comment, dollar quote or compound body open, parsing resumes after the next delimiter: the statements before and after it are returned exactly as if the malformed one were not there (spans shifted), and all reported issues lie inside the malformed statement's text up to its delimiter.",
 ["histories","inputs"],"every placement of every one-token corruption of every statement kind between valid statements of every kind",
 "No baseline test contains an error, let alone an error followed by another statement.",
 ["src/statement.rs","src/parser.rs","src/create.rs"],
 [("outermost recovery","src/statement.rs parse_statements"),("inner recovery and restoration of parser state","src/parser.rs recover, recovered; src/create.rs parse_create_trigger")])
p("C13","Statement delimiters and compound bodies nest correctly",
 "DELIMITER switches the token that ends statements until it is switched back, while inside BEGIN..END, IF, CASE and DO bodies statements always end with a semicolon. Every statement of a body, at every nesting depth and in every branch, is returned inside its own block, in order, and BEGIN and END outside a body are plain transaction statements.",
 ["inputs","histories"],"every nesting of blocks, IF, CASE and simple statements up to a depth, under both delimiters, in triggers, functions and DO",
 "No baseline test changes the delimiter, and the one trigger example has a one-statement body.",
 ["src/statement.rs","src/create.rs"],
 [("delimiter stack","src/statement.rs parse_statement_list, parse_statements"),("block parsing","src/statement.rs parse_block, parse_if, parse_case_statement, parse_do; src/create.rs parse_create_trigger")])
p("C14","COPY ... FROM STDIN data is passed through verbatim",
 "After COPY table (columns) FROM STDIN and its semicolon, the raw data up to the terminating line consisting of a backslash and a period (or the end of input) is returned unchanged as one data item with its exact span, whatever characters it contains. Parsing of SQL resumes immediately after the terminator.",
 ["inputs","histories"],"every data block up to a length bound over quotes, semicolons, backslashes, dots, newlines and multi-byte characters, before every kind of following statement",
 "No baseline test uses COPY.",
 ["src/lexer.rs","src/statement.rs"],
 [("raw data reader","src/lexer.rs read_from_stdin"),("token hand-over","src/parser.rs read_from_stdin_and_next; src/statement.rs parse_statements")])
p("C15","Whitespace and comments do not change the meaning",
 "Replacing the whitespace between tokens by any other non-empty mix of blanks, newlines and comments (--, //, /* */), or adding such a mix between any two tokens or at either end, changes neither the parsed statements nor the issues apart from their positions. (Inside the $$-quoted body of a PostgreSQL function, which is opaque text, a comment containing $$ ends the body and is no comment.)",
 ["inputs"],"every single gap of every statement of the grammar crossed with every kind of trivia, and all gaps at once",
 "Baseline tests fix one layout for each statement and contain hardly any comment.",
 ["src/lexer.rs"],[("trivia skipping","src/lexer.rs next_token")])
p("C16","Keywords are recognised regardless of letter case",
 "Changing the letter case of any keyword in a statement changes neither the parsed statement nor the reported errors; the letter case of identifiers and strings is kept.",
 ["inputs"],"every keyword of the language in lower, upper and mixed case, in every position where a grammar statement uses it",
 "Baseline tests use upper-case keywords almost exclusively.",
 ["src/keywords.rs","src/lexer.rs"],[("case-insensitive keyword lookup","src/keywords.rs From<&str>; src/lexer.rs simple_literal")])
p("C17","Lint options only add accurate warnings",
 "The options that warn about unquoted identifiers and about keywords not in capitals change neither the parsed statements nor the reported errors; they only add Warnings. A keyword that is written entirely in capitals (digits and underscores included) and an identifier that is quoted are never warned about; each warning's span is exactly the offending word, and a non-capital keyword that starts a statement is always warned about when the option is on.",
 ["inputs","configurations"],"every statement of the grammar, in every case style and quoting style, under all four combinations of the two options",
 "Baseline tests switch the identifier lint off and never switch the keyword lint on.",
 ["src/parser.rs"],[("lint checks","src/parser.rs consume_keyword, consume_plain_identifier, token_to_plain_identifier")])
p("C18","Dialect restrictions are enforced and add nothing else",
 "A construct that belongs to another SQL dialect than the selected one is reported as an Error on its own text, and the same construct under its own dialect is accepted without Error. For constructs common to the dialects, the parsed statement and issues are the same under each of them.",
 ["inputs","configurations"],"every statement of the grammar under each of the three dialects",
 "Each baseline test picks one dialect and only tests acceptance.",
 ["src/parser.rs","src/create.rs","src/select.rs","src/update.rs","src/insert_replace.rs","src/expression.rs","src/data_type.rs"],
 [("dialect checks","options.dialect.is_* tests in src/*.rs")])
p("C19","SELECT, UNION and WITH queries are parsed faithfully",
 "Every supported SELECT, UNION and WITH query is accepted without Error and the tree returned contains exactly what was written: each flag, select item, alias, table reference, join kind with its ON or USING condition, index hint, WHERE, GROUP BY, HAVING, ORDER BY with its direction, LIMIT with offset and count in their right roles, locking clause, and nesting of queries, in order, and nothing else.",
 ["inputs"],"every query derivable from the query grammar within the choice bound",
 T+"they never compare the tree, and combinations of optional clauses are far beyond a sample.",
 ["src/select.rs","src/statement.rs","src/with_query.rs"],
 [("query parser","src/select.rs parse_select, parse_table_reference; src/statement.rs parse_compound_query; src/with_query.rs")])
p("C20","INSERT, REPLACE, UPDATE and DELETE are parsed faithfully",
 "Every supported INSERT, REPLACE, UPDATE and DELETE statement is accepted without Error and the tree returned contains exactly what was written: each flag, target table, column, row of values, SET assignment, source query, conflict or duplicate-key action, WHERE and RETURNING list, in order and in its right role, and nothing else.",
 ["inputs"],"every data-change statement derivable from the grammar within the choice bound",
 T+"they never compare the tree.",
 ["src/insert_replace.rs","src/update.rs","src/delete.rs"],
 [("DML parsers","src/insert_replace.rs, src/update.rs, src/delete.rs")])
p("C21","CREATE TABLE and data types are parsed faithfully",
 "Every supported CREATE TABLE statement is accepted without Error and the tree returned contains exactly what was written: each column with its data type, width, precision and properties, each table option with its value, in order, and nothing else. Each supported data type name maps to its own type in every place where a type is accepted.",
 ["inputs"],"every CREATE TABLE derivable from the grammar within the choice bound, every type crossed with every property",
 T+"they never compare the tree; most types and options never occur.",
 ["src/create.rs","src/data_type.rs"],
 [("table and type parsers","src/create.rs parse_create_table; src/data_type.rs parse_data_type")])
p("C22","CREATE VIEW, INDEX, TRIGGER, FUNCTION and TYPE are parsed faithfully",
 "Every supported CREATE VIEW, INDEX, TRIGGER, FUNCTION and TYPE ... AS ENUM statement is accepted without Error and the tree returned contains exactly what was written: options, names, columns, parameters with direction and type, characteristics, events and timings, conditions and bodies, in order, and nothing else. The body of a PostgreSQL function is any text between $$ and the next $$; parsing goes on after it.",
 ["inputs"],"every such statement derivable from the grammar within the choice bound",
 T+"they never compare the tree.",
 ["src/create.rs"],[("create parsers","src/create.rs parse_create_view, _index, _trigger, _function, _type")])
p("C23","ALTER TABLE is parsed faithfully",
 "Every supported ALTER TABLE statement is accepted without Error and the tree returned contains exactly what was written: each alteration of its own kind (columns, indexes of each type, foreign keys with their referential actions, defaults, renames, owner, options) with its names, types, columns and flags, in order, and nothing else.",
 ["inputs"],"every ALTER TABLE derivable from the grammar within the choice bound",
 T+"they never compare the tree; most alterations and all referential actions never occur.",
 ["src/alter.rs"],[("alter parser","src/alter.rs parse_alter and helpers")])
p("C24","DROP, TRUNCATE, RENAME, SET and control statements are parsed faithfully",
 "Every supported DROP, TRUNCATE, RENAME, SET, SIGNAL, COPY, transaction, IF, CASE and RETURN statement is accepted without Error and returned as its own kind, containing exactly what was written: the names with their schema parts, IF EXISTS and other flags, assignments, conditions and branches, in order, and nothing else.",
 ["inputs"],"every such statement derivable from the grammar within the choice bound",
 T+"they never compare the tree.",
 ["src/drop.rs","src/truncate.rs","src/rename.rs","src/statement.rs"],
 [("statement parsers","src/drop.rs, src/truncate.rs, src/rename.rs, src/statement.rs")])
p("C25","Non-operator expressions are parsed faithfully",
 "Every supported primary expression (literals, identifiers and qualified stars, function calls with distinct or windowed arguments, aggregates, CASE, CAST, EXTRACT, interval and date arithmetic, EXISTS, IN lists, subqueries, IS tests, variables) is accepted without Error and returned as exactly what was written. Each supported function name, in any letter case, denotes its own function, any other name is returned unchanged as a user function, and arguments keep their number and order.",
 ["inputs"],"every primary expression derivable from the grammar within the choice bound, nested in each other, and every function name known to the language",
 "The one unit test compares a handful of expressions; over a hundred function names and special forms never occur.",
 ["src/expression.rs"],[("primary expressions and function table","src/expression.rs parse_expression_unreserved, parse_function, parse_expression")])
p("C26","Single-statement and list parsing agree",
 "A text that parses as exactly one statement without error yields the same statement, issues and placeholder numbers whether it is parsed alone or, followed by the delimiter, as a list. Text after the statement makes single-statement parsing report an Error, and empty input makes it report an Error while an empty list is valid.",
 ["inputs"],"every statement of the grammar, alone and followed by every kind of token",
 "No baseline test uses the list entry point.",
 ["src/lib.rs","src/statement.rs"],[("entry points","src/lib.rs parse_statement, parse_statements")])
p("C27","Reserved words need quoting, all other words do not",
 "A word that is reserved is reported as an Error when used unquoted as a table, column or other plain name, and is accepted when quoted. Every other word, including non-reserved keywords, is accepted as a name with its spelling kept, wherever the grammar does not give that keyword a meaning at that position.",
 ["inputs"],"every keyword of the language and representative non-keywords, in every naming position, quoted and unquoted",
 "Baseline tests use a dozen names, none of them a keyword.",
 ["src/keywords.rs","src/parser.rs"],[("reserved-word tables","src/keywords.rs reserved(), expr_ident()"),("name consumption","src/parser.rs consume_plain_identifier, token_to_plain_identifier")])
p("C28","A result depends on the text and the options only",
 "Parsing is a function of the text, the options and the form (single or list): parsing the same text again, after any other parses, as part of a longer text in memory, or into an Issues object that already holds issues, returns the same statements and adds the same issues after those already there. Options are independent of each other: whatever the order of the calls that set them, the last value given for each counts, and unset they are the MariaDB dialect, no placeholders, no lint warnings and no list option.",
 ["inputs","histories"],"call sequences on the options, parse histories, reuse of an Issues object",
 "Baseline tests parse each text once, with options set in one order, into fresh issues.",
 ["src/lib.rs","src/issue.rs"],[("options","src/lib.rs ParseOptions"),("issues","src/issue.rs Issues")])
p("C29","Spans join to the smallest range, names compare by their text",
 "Joining spans through Spanned and OptSpanned (single, optional, boxed, in tuples and in lists of any length and order) gives the smallest range that holds all of them, and nothing only when there is none; numbers and flags stored next to a span do not count. Identifiers are equal, ordered and printed by their text alone, whatever their span; strings give their value.",
 ["inputs"],"all small spans in every shape of container, lists of spans in every rotation, all pairs of short names",
 "No baseline test calls span, join_span or compares identifiers.",
 ["src/span.rs","src/identifier.rs","src/sstring.rs"],[("joins","src/span.rs Spanned::join_span, OptSpanned::opt_join_span"),("names","src/identifier.rs")])
open("properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
