prop("C01", "Parsing never panics",
 "For every byte string given to the parser, parsing returns normally: it yields statements or an error and never panics, whatever the input is (truncated, malformed, not UTF-8, empty).",
 ["inputs"], "every string passed to the parser, of any length and content",
 "The tests parse a few hundred well-formed files and some hand-picked malformed ones; a panic needs one particular token to be missing at one particular place among thousands of grammar positions.",
 ["parser/lexer.go", "parser/parser_common.go", "parser/parser_query.go", "parser/parser_table.go", "parser/parser_column.go", "parser/parser_alter.go", "parser/parser_drop.go", "parser/parser_view.go", "parser/parser_system.go"],
 [("lookahead is checked before its fields are used", "parser_*.go"), ("bounds of the input buffer", "parser/lexer.go")],
 [("currentToken", "the lookahead token, absent at the end of input", "parser/lexer.go"), ("offset", "read position in the input", "parser/lexer.go")],
 ["result of ParseStmts on arbitrary strings"],
 note="Every potential panic (nil dereference, index and slice bounds, type assertion, make/Repeat sizes, explicit panic) in every function reachable from the parser's entry points is an obligation, for all inputs. Integers are mathematical, stack and memory unbounded.")

prop("C02", "Parsing terminates",
 "For every byte string given to the parser, parsing finishes: no input makes it loop or recurse forever.",
 ["inputs"], "every string passed to the parser",
 "Non-termination needs an input on which some loop or recursive descent makes no progress; tests only show that the sampled inputs finish.",
 ["parser/lexer.go", "parser/parser_common.go", "parser/parser_query.go", "parser/parser_table.go", "parser/parser_column.go"],
 [("every loop iteration and every recursive call consumes input", "parser_*.go")],
 [("offset", "read position; it and the presence of a lookahead token form the measure", "parser/lexer.go")],
 ["ParseStmts returns"],
 note="A decreasing measure for every loop; every recursive call keeps or decreases the measure and no cycle of calls only keeps it; recursion over trees is structural. Stack depth is not bounded by the claim.")

prop("C03", "Every parsed tree can be printed, positioned and traversed",
 "Whatever tree parsing returns, asking any of its nodes for its start and end, printing it in either layout, and walking, visiting or searching it never panics.",
 ["inputs", "programs"], "every tree obtainable from the parser, every exported operation on it",
 "A panic needs a particular combination of optional parts present or absent in one node kind; golden files cover only the combinations they contain.",
 ["parser/ast.go", "parser/ast_visitor.go", "parser/walk.go", "parser/format.go", "parser/parser_table.go"],
 [("optional children are nil-checked, mandatory ones are always set by the parser", "parser/ast.go"), ("node construction in the parser", "parser_*.go")],
 [], ["Pos, End, FormatSQL, String, Accept, Walk, Find*, Format on parser output"],
 note="Node invariants (which fields are never nil, which alternatives exclude each other) are inferred, checked at every place the parser publishes a node, and used to discharge every potential panic in the tree API.")

prop("C13", "Walk reaches every node once and stops when asked",
 "Walking any parsed tree calls the function for the root and then for every node of the tree exactly once, each after its parent; when the function answers false nothing further is walked and Walk answers false, otherwise it answers true.",
 ["inputs", "programs"], "every tree the parser returns and every function given to Walk",
 "A forgotten or doubly visited child shows only for statements that use that clause, and a lost stop only when the function stops at exactly that node; tests walk a fixed set of trees and rarely stop.",
 ["parser/walk.go", "parser/ast.go"],
 [("one case per node type, every child field walked", "parser/walk.go:Walk")],
 [], ["sequence of calls of the function given to Walk; result of Walk"],
 note="Per node type: on every path of Walk each child field is walked exactly once unless absent, after the node itself, and once a call answers false no further child is walked and false is returned. Children are enumerated from the struct types, not from walk.go.")

prop("C14", "Accept visits every node once, inside its Enter and Leave",
 "Accepting a visitor on any parsed tree enters, visits and leaves every node of the tree exactly once, children between their parent's Enter and Visit, every Enter matched by a Leave even when a visit fails; the first error a visit returns stops the traversal and is returned unchanged.",
 ["inputs", "programs", "fault-points"], "every tree the parser returns, every visitor, an error at any visit",
 "A forgotten child, a missing Leave on one error path or a swallowed error shows only for that node kind and that failure point; there are over two hundred Accept methods.",
 ["parser/ast.go", "parser/ast_visitor.go"],
 [("Accept of each node type", "parser/ast.go"), ("DefaultASTVisitor", "parser/ast_visitor.go")],
 [], ["sequence of Enter, Visit and Leave calls; error returned by Accept"],
 note="Per Accept method: Enter first, each child field accepted exactly once unless absent, then the visitor's method for that type, Leave on every way out; any error is returned at once.")

prop("C17", "Printing keeps every part of the tree",
 "Printing any parsed tree, compact or beautified, writes every child node, every name or literal text and every option that is set, each exactly once, and nothing for options and clauses that are absent.",
 ["inputs"], "every tree the parser returns, both layouts",
 "A part dropped by the printer shows only for the combination of clauses that reaches the faulty path; golden files hold a few hundred combinations and pin what is printed today.",
 ["parser/ast.go", "parser/format.go", "parser/parser_table.go"],
 [("FormatSQL of each node type", "parser/ast.go"), ("Formatter.WriteExpr, Break, Indent", "parser/format.go")],
 [("mode", "layout chosen for the formatter", "parser/format.go")], ["text returned by Format and by a beautifying formatter"],
 note="Per FormatSQL method and path: each child is written exactly once unless absent, each non-empty string field once, each set flag shows one of its words. Flag words are recognised by name (words derived from the field name or listed in visits.go). Not claimed: the printed order, separators and that the text parses back.")

prop("C04", "A text is accepted only as a whole",
 "When parsing succeeds the text was read to its very end, nothing but semicolons, white space and comments stands between the statements, and exactly one statement is returned for each; when any part of the text cannot be read or parsed, parsing fails. No trailing or intermediate text is silently ignored.",
 ["inputs"], "every string passed to the parser",
 "A token that is skipped between two statements, or a part after the last one that is ignored, shows only for a text in which something stands just there; tests contain well-formed scripts.",
 ["parser/parser_table.go", "parser/parser_common.go", "parser/lexer.go"],
 [("the statement loop and the check that a statement ends at ; or the end", "parser/parser_table.go:ParseStmts,parseStmt"), ("reading to the end of input", "parser/lexer.go")],
 [("currentToken", "the lookahead token; absent only at the end of the input", "parser/lexer.go"), ("offset", "read position in the input", "parser/lexer.go")],
 ["result of ParseStmts: number of statements, error or not"],
 note="For a parser fresh from NewParser. That every word inside a statement ends up in its tree is not part of this claim.")

prop("C05", "Tokens are exactly the text, in order",
 "Reading a text delivers its tokens in order and complete: between one token and the next (and before the first and after the last) there is nothing but white space and comments; every token carries exactly the text between its positions; strings and quoted names run from their opening quote to their first closing one; words, numbers and operators are as long as they can be and have the kind their text says (word in the keyword list or not, digits only or with fraction or exponent, a sign belonging to a number only where no operand precedes it); looking ahead delivers the token that reading would and leaves the lexer where it was.",
 ["inputs"], "every text and every position reached in it",
 "Lexical mistakes need particular neighbours: a sign after one particular kind of token, an escape before the closing quote, a comment at the end of input; tests hold a handful of such neighbourhoods.",
 ["parser/lexer.go", "parser/helper.go", "parser/parser_column.go", "parser/parser_query.go"],
 [("reading one token", "parser/lexer.go:consumeToken"), ("looking ahead and backtracking", "parser/lexer.go:peekToken,saveState,restoreState")],
 [("offset", "read position", "parser/lexer.go"), ("currentToken", "lookahead token", "parser/lexer.go"), ("input", "the text", "parser/lexer.go")],
 ["tokens read by the lexer: kind, text, positions, quote type, base"],
 note="The lexical rules are inductive relations over text positions in the verifier; the parser only ever puts its lexer back to a state it was in. Which texts are lexical errors is constrained one way only: a token that is read obeys the rules.")

prop("C12", "Nothing but the result",
 "Parsing, printing, positioning, walking and visiting are functions of their arguments and change nothing else: they leave every tree built before as it is, leave all package state as it is, and consult nothing but their arguments. So parsing the same text always gives the same tree or the same error whatever was parsed before, and printing or traversing a tree any number of times gives the same result and the same tree.",
 ["inputs", "histories"], "every sequence of calls to the parser, formatter and traversal functions",
 "A changed node or remembered state shows only on the second use, for the statement that reaches it, or for a text parsed after a particular other one; tests parse and print each sample once in a fresh parser.",
 ["parser/format.go", "parser/ast.go", "parser/walk.go", "parser/parser_column.go", "parser/lexer.go", "parser/parser_common.go"],
 [("printing and traversing only read the tree", "parser/format.go"), ("package variables are filled once, before use", "parser/keyword.go"), ("memory of failed attempts belongs to one parser", "parser/parser_common.go")],
 [("failedIntervalOffsets", "per-parser memory of failed attempts", "parser/parser_common.go")],
 ["tree before and after printing, walking, visiting; results of repeated and interleaved calls"],
 note="Frame conditions. Every store in a function that takes no parser goes to an object the call made, the formatter, or its own variables; every map written was made by the call or by its parser; no package variable is written after initialisation or leads to a node; library functions are limited to those with a contract that writes nothing. Whether a slice is the function's own is a provenance analysis, not a solver query.")

prop("C06", "A refusal says where reading stopped",
 "When parsing fails, the error is a parse error that is well placed: its offset lies within the text (or at its end), its line and column are exactly those of that offset (lines counted by newlines, columns in bytes from 1), the token it names, if any, is a token of the text that stands at that very offset, and when it names none, no token can be read there.",
 ["inputs"], "every text that is refused, on one line or many, at any failing position",
 "There are several hundred places where parsing fails, some after looking ahead and going back, and an offset that is off by one line or belongs to another token shows only for a text that fails just there; tests compare a few messages.",
 ["parser/error.go", "parser/source.go", "parser/parser_common.go", "parser/parser_query.go", "parser/parser_table.go"],
 [("errors are made with the position and token at hand", "parser/parser_common.go:expectTokenKind,expectKeyword,parseAnyKeyword"), ("every failure leaves through wrapError", "parser/parser_common.go:wrapError, parser/parser_table.go:ParseStmts"), ("offset to line and column", "parser/source.go")],
 [("lines", "line starts of the text, made once per parser", "parser/parser_common.go"), ("currentToken", "the lookahead token", "parser/lexer.go")],
 ["the error ParseStmts returns: its type, Pos, Line, Column, Got"],
 note="Every function that can fail carries the clause that a parse error in its error's chain is placed in the text; the entry point adds line and column. The wording of messages is not part of the claim, nor which of several possible failures is reported. That the lexer stands at a token it read, or where none can be read, rests on C05, whose obligations are discharged again here.")

prop("C15", "Searching agrees with walking",
 "On any parsed tree WalkWithBreak calls its function on exactly the nodes Walk reaches, in the same order and each once, until the function answers false, and answers whether it never did; Find gives the first of them that fits and whether there is one, asking about no node after it; FindAll gives all that fit, in that order, each once, and asks about every node; on no tree they find nothing. Each method of the default visitor calls the visitor's function exactly once with the node it was given and returns its answer, and succeeds if there is no function.",
 ["inputs", "programs"], "every tree, every predicate or function, with every possible sequence of answers",
 "The result depends on the answers a client's function gives node by node, and a default visitor method that forgets its node shows only for that node type; tests search a few trees with one predicate each.",
 ["parser/walk.go", "parser/ast_visitor.go"],
 [("the walks inside the searching functions and what their function literals keep", "parser/walk.go:WalkWithBreak,Find,FindAll"), ("one forwarding method per node type", "parser/ast_visitor.go:DefaultASTVisitor")],
 [], ["calls of the given function and results of WalkWithBreak, Find, FindAll; calls of DefaultASTVisitor.Visit and results of its methods"],
 note="Relative to Walk, whose calls are C13's subject. The call of a walk with a function literal is verified as a loop over the walk's sequence of nodes, with inferred invariants over the literal's variables; every answer of the client's function is covered. Transform is not covered.")

prop("C08", "Operators group by how tightly they bind",
 "In every tree the parser builds, an operator's left operand binds at least as tightly as the operator and its right operand more tightly (the arrow and ?: group to the right), by ClickHouse's order: ->, ?:, OR, AND, prefix NOT, IS NULL, comparisons, BETWEEN/LIKE/ILIKE/REGEXP, IN, ||, + -, * / %, [], ., ::. A unary sign takes one complete operand; NOT before LIKE, ILIKE, BETWEEN or IN does not change how tightly these bind.",
 ["inputs"], "every expression in every accepted text",
 "How an expression groups depends on every pair of neighbouring operators and on operands of any depth; tests sample pairs, and a printer that prints no parentheses of its own hides a wrong grouping.",
 ["parser/parser_column.go", "parser/parser_query.go", "parser/parser_common.go"],
 [("levels of operators", "parser/parser_column.go:getNextPrecedence"), ("the loop over infix operators", "parser/parser_column.go:parseInfixLoop"), ("operands are read at the operator's level", "parser/parser_column.go:parseInfix, parser/parser_query.go:parseBetweenClause"), ("prefix operators", "parser/parser_column.go:parseUnaryExpr")],
 [("LeftExpr/RightExpr and the like", "operands", "parser/ast.go")],
 ["ParseStmts, the nesting of operator nodes in the tree"],
 note="Node invariant of every operator node, shown where the node is handed on, from contracts of all functions that read expressions. Exempt by definition: operands complete in themselves (brackets, calls, literals), IS [NOT] NULL as a left operand (nothing can follow its NULL), prefix NOT as a right operand (it can only take what is behind it). GLOBAL counts as IN unless a join follows. That the operator ahead has one level is C12 (determinism); that the kind of an operator token is its text is C05.")
prop("C18", "Nothing that was read is dropped",
 "When a text is accepted, every node that was read from it is in the tree exactly where it was put: no node or list of nodes that the parser made is left out of the tree it returns, none is overwritten by a later one, and the text of every name, string and number read is in a node, unless it is a fixed word that was asked for.",
 ["inputs"], "every accepted text, every clause, list and repeated clause in it",
 "A clause that is read and forgotten, or read twice with only the last kept, parses without an error and prints as a shorter statement; tests compare the trees of the clauses someone thought of, each given once.",
 ["parser/parser_common.go", "parser/parser_table.go", "parser/parser_query.go", "parser/parser_column.go", "parser/parser_alter.go", "parser/parser_drop.go", "parser/parser_view.go", "parser/parse_system.go", "parser/set.go"],
 [("each function stores, appends or returns what it reads", "parser/parser_table.go:parseCreateTable, parser/parser_query.go:parseSelectStmt"), ("clauses in any order", "parser/parser_table.go:parseEngineExpr, parser/parse_system.go:parseOptionalClauses"), ("fields filled in a node made elsewhere", "parser/parser_query.go:parseSelectQuery")],
 [("fields of the nodes", "what the tree holds", "parser/ast.go")],
 ["ParseStmts, the set of nodes and texts in the trees"],
 note="An ownership contract of every reading function: what it makes, is given, gets from another function or reads off a token is stored in a node, appended, returned or given to a function whose contract keeps it, on every path without an error and round every loop; no field that holds a node is written over. A node whose whole content went elsewhere may be let go. Known finding: FORMAT after a statement that is not a SELECT or SHOW. Words of the language (keywords, signs) carry no text of their own here: C02 and C17.")
prop("C09", "The case of keywords does not matter",
 "Writing the keywords of a text in other case (capitals, small letters, mixed) changes neither whether it is accepted nor the tree it gives, apart from the case of the texts the tree keeps, nor how that tree is printed, apart from case.",
 ["inputs"], "every text and every respelling of its keywords",
 "Keywords are recognised in hundreds of places, some by a look one token ahead, some in a table, some long after reading from a text kept in the tree; tests spell each keyword one way, nearly always in capitals.",
 ["parser/lexer.go", "parser/parser_common.go", "parser/parser_column.go", "parser/parser_table.go", "parser/format.go", "parser/keyword.go"],
 [("words are looked up in capitals", "parser/lexer.go:consumeIdent"), ("keywords are compared without regard to case", "parser/parser_common.go:matchKeyword"), ("operators are kept in capitals", "parser/lexer.go:ToString, parser/parser_column.go:parseInfix")],
 [("Token.String", "the spelling of the source", "parser/lexer.go"), ("BinaryOperation.Operation and other kept keywords", "compared again when printing", "parser/ast.go")],
 ["ParseStmts, Format and the beautifying printer on a text and on its respellings"],
 note="Decided comparison by comparison: each comparison, table look-up and look at a letter, in every function of the parser and the printer, gives the same answer for any two spellings of a keyword (texts made of keywords only; other words, such as names of functions and settings, keep their case). Facts about texts kept in fields, given as arguments or returned are inferred and proved. That equal decisions give equal trees is the meta-argument. Tokens: C05, whose obligations are discharged again here.")
