FID="bounded exhaustive model checking: all derivations of a synchronous reference grammar within a deviation bound, each replayed on the real parser and compared with the model's tree"
FN="Exhaustive within the stated number of deviations from the shortest statement; the oracle is the tree the reference grammar attaches to the derivation, compared with the parser's Debug output including every span. Trusts the reference grammar (mc/spec) and derived Debug implementations."
NA={}
T={k:(FID,FN) for k in ["C19","C20","C21","C22","C23","C24","C25"]}

ST="bounded exhaustive model checking of the real parser: every case of a finite space of inputs (derivations of the reference grammar, all one- and two-token edits of them, all short token sequences and character strings, all truncations, short statement histories, all option combinations) is executed and a monitor checks the property on each"
T.update({
"C01":(ST,"Exhaustive within the stated bounds, including overflow checks (the harness builds the parser with overflow checks on) and nesting up to 200 levels; input of a million levels is run in a child process. Deeper nesting overflows the stack: recorded as known findings."),
"C02":(ST,"Termination is decided by a watchdog with a 20 s limit per parse and by limits on allocation requests and bytes per input byte; inputs pumped up to thousands of repetitions of every short window."),
"C03":(ST,"Exhaustive within the stated bounds; the printed form is compared with one written from the property's text."),
"C04":(ST,"Exhaustive within the stated bounds; spans inside the tree are read from the derived Debug output."),
"C06":(ST,"Exhaustive within the stated bounds; the conservation check counts identifiers, numbers, strings and placeholders of the source (own lexer) against those of the tree."),
"C05":(FID.replace("compared with the model's tree","its spans compared with the token ranges of the model"),"Exhaustive within the stated number of deviations, two layouts, all pairs of statements with at most one deviation; spans of expressions, table references, column definitions, data types and alterations are asked for through the public Spanned trait."),
})
LS="bounded exhaustive model checking of the real parser over statement histories: every list up to a stated length of statements of the reference grammar, delimiter changes and malformed statements is executed and compared with what the model (the statements parsed alone, or the grammar's tree) prescribes"
T.update({
"C07":("bounded exhaustive model checking: every operator sequence up to a length is parsed by a reference precedence-climbing model and by the real parser, in several surrounding statements, and the trees are compared","Exhaustive over all sequences of operators, prefix operators and parentheses of the stated lengths; trusts the reference operator table."),
"C08":("bounded exhaustive model checking: every string literal over an alphabet of critical pieces up to a length, in every place of the grammar that accepts a string, against a reference decoder","Exhaustive within the stated alphabet and lengths."),
"C09":("bounded exhaustive model checking: every character string over an alphabet of critical characters up to a length, and every short token concatenation, against an independent reference lexer and the model of the tree it implies","Exhaustive within the stated alphabet and lengths."),
"C10":(FID.replace("and compared with the model's tree","with its placeholders in each style, under each selected style, and compared with the model's numbering"),"Exhaustive within the stated number of deviations; placeholders also replace each word and each pair of words of a statement."),
"C11":(LS,"Exhaustive over all pairs of statements of at most one deviation, all triples and quadruples of representatives, with empty statements and changes of delimiter."),
"C12":(LS,"Exhaustive over all one-token corruptions of all statements of at most one deviation, between valid neighbours; neighbours are taken in turn."),
"C13":(LS,"Exhaustive over all bodies within the stated number of deviations in every context, and all lists of six transaction and compound statements and delimiter changes."),
"C14":("bounded exhaustive model checking: every COPY data string over an alphabet of critical pieces up to a length, in every context, against a reference reader","Exhaustive within the stated alphabet and lengths."),
})
META="bounded exhaustive model checking of the real parser: all derivations of the reference grammar within a deviation bound and all one-token edits of them are executed in pairs that the property relates, and every pair of results is compared"
T.update({
"C15":(META,"Exhaustive over every gap of every statement of at most two deviations with each of a stated list of kinds of whitespace and comments; all gaps together up to three deviations; one-token edits of statements of at most one deviation."),
"C16":(META,"Exhaustive over every keyword of every statement of at most two deviations, all keywords together up to three, in three letter cases; every keyword of the language put at every place of statements of at most one deviation."),
"C17":(META,"Exhaustive over the combinations of the lint options, letter case of keywords and quoting of names of all statements of at most three deviations (a subset of the combinations at three) and one-token edits of those of at most one; the words that may be warned about follow from the kinds of the tokens in the model."),
"C18":(FID.replace("each replayed on the real parser","each replayed on the real parser under every dialect"),"Exhaustive within three deviations; which construct belongs to which dialect is stated in the reference grammar; both quotings of names, one at a time and all together, within two deviations."),
"C26":(META,"Exhaustive over all statements of at most three deviations and all one-token edits of those of at most one; every token of the vocabulary after every statement of at most two deviations."),
"C27":("bounded exhaustive model checking: every keyword of the language and representative other words, quoted and unquoted, put in every naming position of every statement of at most one deviation of the reference grammar, compared with the model's tree","The list of keywords and reserved words is a specification file. A difference for a non-reserved keyword is excused only where the model (three deviations) lets that keyword, or an expression it starts, follow the same beginning; names of types in PostgreSQL and of @@ variables are not plain names."),
})
T["C25"]=(FID+"; every word of the language as the name of a function with up to five arguments, in six places, against a specified table of functions",FN)

T["C28"]=("bounded exhaustive model checking of the real parser: all sequences of calls on the options up to a length, all histories of two and many of three parses, every parse repeated, compared with the first result of the same text and options","Exhaustive over call sequences up to the stated length and histories over the stated set of actions (a text of each kind of statement, whole or cut, and unfinished texts, three sets of options, both forms).")
T["C29"]=("bounded exhaustive model checking of the real code: every span over a small range in every container the API offers, joined with every pair of others, and every pair of short names, compared with the definition","Exhaustive over spans within a small range (joins depend only on the order of the bounds) and names of up to three characters of an alphabet.")
