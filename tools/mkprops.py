#!/usr/bin/env python3
"""Source of properties.jsonl (run to regenerate it)."""
import json
P = []
def p(id, title, statement, over, quant, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a})

LEX, PAR, EXP, LIT, FLOW, DEF, NODE, SRC, LV, LIB, MAIN, ERR = (
 "src/parser/lexer.rs", "src/parser.rs", "src/parser/expression.rs", "src/parser/literals.rs",
 "src/parser/flow_control.rs", "src/parser/define.rs", "src/node.rs", "src/source_info.rs",
 "src/lvar_collector.rs", "src/lib.rs", "src/main.rs", "src/error.rs")
API = ["Parser::parse_program", "ParseResult.node"]

p("C01", "Parsing any text ends with a tree or an error, never a crash",
  "For every source string (any Unicode text, including ill-formed, truncated or binary-looking programs, with at most a few hundred levels of nesting), every parse entry point returns either a tree or a parse error. It never panics, overflows, aborts or loops: the scanning work it does stays within a fixed polynomial bound in the length of the source. Formatting the tree, or the source excerpt at the error's location, does not panic either.",
  ["inputs"], "all source strings; all three entry points",
  "The tests parse about 40 fixed snippets; a crash needs one particular malformed or unusual text (an escape cut at end of input, a sigil before an unusual character, a number that overflows).",
  [LEX, PAR, EXP, LIT, SRC], [("character-level scanner, every slice and unwrap in it", LEX), ("Result-based error propagation", PAR)],
  ["Parser::parse_program", "Parser::parse_program_eval", "Parser::parse_program_binding", "SourceInfo::get_location"],
  "work counter in the scanner, so that a loop becomes a deterministic failure instead of a hang")

p("C02", "Parsing is a pure function of source, path and context",
  "Parsing the same source with the same path and the same variable context always gives an equal result (equal tree, variable table, or error), whatever was parsed before, whichever thread does it, and through each of the equivalent entry points (whole program, eval without outer context, binding without variables). The path influences nothing in the tree or table except the value of __FILE__.",
  ["inputs", "histories"], "all programs (valid and invalid), all orders of parsing them, all paths",
  "Tests call the parser once per snippet and never compare two runs, entry points or orders.",
  [PAR, LEX, SRC], [("fresh lexer and parser state per call", PAR)], ["Parser::parse_program", "Parser::parse_program_eval", "Parser::parse_program_binding"])

p("C03", "Results and errors carry the exact source and path they came from",
  "Both a parse result and a parse error carry the source text exactly as given, with one newline appended only if it did not end in one, together with the given path; the file name and short file name shown are those of that path. No byte of the text is normalised, dropped or reordered.",
  ["inputs"], "all source strings (valid or not), all paths", "No test looks at the source information at all.",
  [SRC, PAR, ERR], [("construction of the source record on the success and the error path", PAR + ":parse"), ("newline completion", SRC + ":SourceInfo::new")],
  ["ParseResult.source_info", "ParseErr.source_info"])

p("C04", "Operators group by Ruby's precedence and associativity",
  "Every expression built from the supported unary, binary, ternary, range, defined?, and/or and assignment operators over arbitrary operands parses to the tree that Ruby's precedence and associativity table prescribes, with operands in source order. Adding redundant parentheses around any complete operand never changes the tree.",
  ["programs"], "all operator combinations to arbitrary depth, over all operand kinds, with minimal or redundant parentheses",
  "Tests contain two or three binary expressions and never compare their trees.",
  [EXP], [("precedence-climbing chain of operator levels", EXP)], API)

p("C05", "Numeric literals denote their mathematical value",
  "Every supported integer literal (decimal, leading-zero/0o octal, 0x, 0b, with digit separators, with a minus sign) denotes exactly its mathematical value, as a machine integer when it fits in 64 signed bits and as a big integer otherwise; every float literal denotes the nearest double; an i suffix makes the same number imaginary. No literal is silently truncated, wrapped or re-based.",
  ["inputs"], "all digit strings of any length in every base, separators, exponents, signs",
  "Five fixed small literals are tested; boundaries (63/64 bit, long exponents, separators) are not.",
  [LEX, EXP], [("number scanner", LEX + ":read_number_literal, read_hex_number, read_octal_number, read_bin_number"), ("negative literal folding", EXP + ":parse_unary_minus")], API)

p("C06", "String, symbol, character and word-list literals denote their text",
  "Every single- or double-quoted string, %q/%Q/%() string, backquoted command, symbol, ?x character, %w and %i list denotes exactly the character or byte sequence Ruby assigns to it: all escapes (control, octal, \\x, \\u, \\u{...}), escaped and nested delimiters, raw newlines, line continuations and non-ASCII text included. Adjacent string literals denote their concatenation.",
  ["inputs"], "all contents, all quoting styles and delimiters, all escape spellings of each character",
  "Two plain string literals are tested.",
  [LEX, LIT, LIB], [("string scanners", LEX + ":read_interpolate, read_string_literal_single, read_escaped_char, get_percent_notation"), ("byte/UTF-8 accumulation", LIB + ":RubyString"), ("adjacent concatenation", LIT + ":parse_string_literal")], API)

p("C07", "Here-documents yield their body and leave the rest of the line intact",
  "A here-document of any kind (<<ID, <<-ID, quoted with ', \" or `) denotes exactly the text of the lines between the line on which it starts and its terminator, raw or with escapes and interpolation according to its quoting; several on one line take consecutive bodies in order. The code before and after the introducer on the same line, and the code after the terminator, parses as if each here-document were an ordinary string literal at that place.",
  ["programs"], "all bodies, terminators and surrounding code, any number of here-documents per line, nested ones included",
  "There is no test with a here-document.",
  [LEX, LIT], [("body extraction and resume position", LEX + ":read_heredocument, consume_newline"), ("sub-parse of the body", LIT + ":parse_heredocument, new_with_range")], API)

p("C08", "Regular-expression literals yield their pattern and options",
  "A /.../ literal denotes the pattern written: ordinary text and escapes are handed on unchanged except that escapes with a Ruby-specific meaning (\\s, octal and hex escapes, \\e, \\b inside a character class) are given as equivalent ones, back-references \\1 to \\9 stay back-references, and the options i, m are reported. With x, whitespace and comments outside character classes are removed, across interpolations too, and nothing else is.",
  ["inputs"], "all patterns, escapes, option strings, free-format layouts, interpolations",
  "There is no test of a regular expression.",
  [LEX, LIT, NODE], [("regexp scanner", LEX + ":read_regexp_sub, check_postfix"), ("free-format stripping", NODE + ":FreeFormatContext")], API)

p("C09", "Interpolated code is parsed in place, pieces in order",
  "In every interpolating literal (string, %Q, command, here-document, regular expression, quoted symbol) the result is the sequence of literal pieces and embedded parts in source order, where #{...} holds exactly the tree its content has when written as a parenthesised program at that point (same variables visible, assignments in it visible afterwards) and #@x, #@@x, #$x hold that variable. Delimiters, quotes, braces or comments inside the embedded code do not end the literal.",
  ["programs"], "all literals with any number and nesting depth of embedded parts of any content",
  "There is no test with an interpolation.",
  [LEX, LIT, NODE], [("open-string tokens and resumption with delimiter and nesting level", LIT + ":parse_interporated_string_literal"), ("template parsing", LIT + ":parse_template")], API)

p("C10", "Calls keep receiver, method name, arguments and block as written",
  "Every method or function call (with or without receiver, chained by ., &., :: or [], with positional, splat, keyword, double-splat, hash, forwarded and block arguments, with a block, or the .() form) yields a call with that receiver, that method name, those arguments in source order in the right category, the right block and the right safe-navigation marker. The same holds for yield (which takes no block argument) and super, where super without an argument list is distinguished from super with an empty one.",
  ["programs"], "all call shapes, argument mixes and chain lengths",
  "Four calls with trivial arguments are parsed, and their trees are not compared.",
  [EXP, NODE], [("argument list parser", EXP + ":parse_arglist"), ("call chain loop", EXP + ":parse_method_call, parse_primary_method")], API)

p("C11", "Unparenthesised calls equal parenthesised ones; blocks bind as in Ruby",
  "Writing a call's arguments without parentheses (where Ruby allows it) gives the same tree as writing them with parentheses. A brace block belongs to the nearest call before it and a do block to the outermost unparenthesised call of the statement, while the do of while, until and for belongs to the loop. Whether a name followed by a space and an ambiguous character (- + * & / % [ ( :: << :) starts an argument or continues an expression depends only on whether the name is a local variable and on the space after that character.",
  ["programs"], "all calls with arguments, in every statement context, with and without blocks, names being variables or not",
  "No test compares the two spellings; block binding is not tested.",
  [EXP, PAR], [("command-call detection", EXP + ":is_command"), ("do-block suppression", PAR + ":parse_block; " + FLOW + ":parse_while")], API)

p("C12", "Parameter lists keep kinds, order, defaults and declare their names",
  "Every valid parameter list of a method, block or lambda yields its parameters in source order, each with the right kind (required, post-required, optional, rest, keyword, keyword-rest, block, destructuring, forwarding), name and default expression. The variable table of that method, block or lambda starts with exactly the declared names in that order (a variable that a default expression itself assigns comes directly behind the parameters declared before it), and identifies the keyword, keyword-rest, block and forwarding parameters.",
  ["programs"], "all parameter lists of any length, in def (with or without parentheses), block and lambda",
  "A dozen one- to three-parameter lists are only checked to parse.",
  [PAR, LV, LIT, DEF], [("parameter parser and its ordering state", PAR + ":parse_formal_params, parse_destruct_param"), ("table insertion", LV)], ["ParseResult.node", "BlockInfo.params", "BlockInfo.lvar"])

p("C13", "Assignments keep targets, values and order",
  "Every supported assignment (simple, chained, multiple with splats and trailing comma, operator assignment, to local, instance, class and global variables, constants, indexes and attributes) yields an assignment with those targets and values in source order; several or splatted values for one target form one array, x op= y keeps x, op and y, and x ||= y and x &&= y evaluate to the short-circuit form. A multiple-value right-hand side is taken apart by commas only at statement level, never inside argument, element or parameter lists.",
  ["programs"], "all target lists, value lists and operators, in every context",
  "No test compares the tree of an assignment.",
  [EXP, NODE], [("assignment parsing and its suppression flags", EXP + ":parse_mul_assign, parse_accesory_assign, parse_assign_op"), ("array folding", NODE + ":new_mul_assign")], API)

p("C14", "Control-flow constructs keep conditions, branches and order",
  "if/unless/elsif/else, ternaries, while/until, case/when, for, begin/rescue/else/ensure, return/break/next/redo and all trailing modifiers yield the construct with exactly the written condition(s), branches, exception lists, targets and bodies in source order, the negated forms being distinguished from the positive ones and the trailing loop form from the leading one. A bare name or call before then, do, else, when, end, a closing bracket or the end of input is never taken as a call with arguments.",
  ["programs"], "all nestings and all separator spellings (newline, ;, then, do)",
  "Two if tokens streams and one for loop are parsed; no tree is compared.",
  [FLOW, EXP], [("construct parsers", FLOW), ("modifier loop", EXP + ":parse_stmt"), ("rescue clauses", EXP + ":parse_begin")], API)

p("C15", "Definitions keep name, owner, parameters and body",
  "def (plain, operator, setter, predicate, keyword-named, singleton), class, module, singleton class and alias yield the definition with exactly the written name, owner or scope path, superclass, parameters and body, each with a fresh variable table of its own. Nothing in a body changes how the code after its end parses.",
  ["programs"], "all definable names, owner forms and nestings",
  "Definitions appear in four snippets that are only checked to parse or fail.",
  [DEF, PAR], [("definition parsers", DEF), ("operator method names", PAR + ":parse_op_definable; " + LEX + ":read_method_name, read_method_ext")], API)

p("C16", "A name is a local variable exactly where Ruby says it is",
  "In every program, a bare name is reported as a local variable, with the number of block scopes between use and declaration, exactly when it was assigned or declared as parameter or loop variable earlier in the source in the same or an enclosing block scope of the same method, class body or program; otherwise it is reported as a call. Method, class and module bodies see no outer variables, and for loops open no scope. Each scope's variable table lists exactly its own variables, once each, in order of first declaration.",
  ["programs"], "all programs; all placements of assignments and uses across nested scopes, branches and embedded code",
  "No test looks at variable resolution or tables.",
  [PAR, LV, EXP, LIT], [("scope stack lookup", PAR + ":is_local_var, add_local_var_if_new"), ("per-scope table", LV)],
  ["ParseResult.node", "ParseResult.lvar_collector", "BlockInfo.lvar"],
  None, [("scope stack", "tables of the scopes enclosing the current position", PAR + ":Parser.scope")])

p("C17", "Eval and binding sessions extend the given variables, never disturb them",
  "When source is parsed against a binding's variable table, every variable of that table resolves in place and keeps its index, and new variables are appended in order of first assignment, so that over any history of snippets the table equals that of the snippets parsed as one program. Names not found in the source's own scopes are looked up in the outer context: they resolve to the depth it reports, plus the blocks in between, and to no variable inside a method or class body; names it does not know stay calls.",
  ["histories", "programs"], "all sequences of snippets, all initial tables and outer contexts",
  "No test uses a context or a binding.",
  [PAR, LV], [("initial scope from a collector", PAR + ":parse_program_binding"), ("outer context lookup", PAR + ":is_local_var")],
  ["Parser::parse_program_binding", "Parser::parse_program_eval", "ParseResult.lvar_collector"])

p("C18", "Layout does not change meaning",
  "Replacing the spacing of a program by any other spacing legal at the same places (spaces, tabs, carriage returns before newlines, backslash continuations, line breaks after an operator, comma or opening bracket and before a leading dot, comments, blank lines, ; for a newline between statements, then/do for a newline after a condition) leaves the tree and the variable table unchanged. A newline elsewhere ends the statement.",
  ["programs", "inputs"], "all programs and all legal layouts of each",
  "Only two token-stream tests contain unusual layout.",
  [LEX, PAR, EXP], [("whitespace, comment and continuation skipping", LEX + ":skip_whitespace, consume_cont_line, goto_eol"), ("newline-sensitive and newline-skipping token access", PAR + ":peek, peek_no_term, get, consume_term")], API)

p("C19", "Every source location is a valid range and names the right text",
  "Every location in a tree or error is an inclusive byte range inside the source whose ends fall on character boundaries (an end-of-input location may sit just behind the last character). The location of a variable, constant, number, plain string or symbol is exactly the range of its spelling, an operator expression's location covers its operands, and inserting text in front of a program shifts every location by the length of that text and changes nothing else.",
  ["programs", "inputs"], "all programs and errors, all node kinds, non-ASCII text, embedded code and here-documents included",
  "Token positions of a dozen short ASCII lines and six special variables are tested.",
  [LEX, NODE, EXP, LIT, PAR, SRC], [("token range", LEX + ":cur_loc"), ("range merging", SRC + ":Loc::merge; " + NODE)],
  ["Annot.loc", "BlockInfo.loc", "ParseErr.loc"])

p("C20", "Source excerpts show the right line and underline the right columns",
  "For every location the parser produces, the line number query returns the 1-based number of the line containing its start, and the excerpt names the file and that line, shows the text of each line the location touches and underlines exactly the columns it covers, in display columns for non-ASCII text. It never fails, whatever the line lengths, for locations at the end of input too; __LINE__ in the source evaluates to that same line number.",
  ["inputs"], "all sources (long lines, wide characters, empty lines, final newline or none) and all locations in them",
  "No test renders a location.",
  [SRC, LEX], [("line table and excerpt", SRC + ":get_location, get_lines, get_line"), ("__LINE__", LEX + ":get_line")], ["SourceInfo::get_location", "SourceInfo::get_line"])

p("C21", "Incomplete input is reported as unexpected end of input",
  "A program cut off inside an open construct (after an opening bracket, inside a definition, loop, branch, block, literal, interpolation or here-document, or after an operator or comma that needs an operand) is rejected with the unexpected-end-of-input error and no other kind, so that an interactive reader knows to ask for more. Conversely a complete program, or one that is wrong before its end, is never reported that way.",
  ["inputs"], "all programs and all cut positions in them",
  "A handful of erroneous snippets are only checked to fail, with no look at the kind of error.",
  [PAR, LEX, ERR, EXP], [("end-of-input errors", PAR + ":get, error_eof; " + LEX + ":error_eof")], ["ParseErr.kind"])

p("C22", "Invalid programs are rejected, not silently accepted",
  "A program is rejected with a syntax error if it has a missing, surplus or mismatched closing bracket or end, two operands without an operator, an operator without operand, a chained non-associative operator, a malformed literal, a literal or call as assignment target, duplicate or wrongly ordered parameters, a class or module definition or constant assignment inside a method body, both a block argument and a block, a misused numbered parameter, or argument forwarding outside a forwarding method. The valid program next to it is accepted.",
  ["programs"], "all programs with one such fault planted at any position",
  "Eight invalid snippets are tested.",
  [PAR, EXP, DEF, FLOW, LIT, LEX], [("expect checks", PAR + ":expect_punct, expect_reserved"), ("semantic checks", PAR + ":new_param, check_forwarding, check_outer_numbered_param; " + EXP + ":check_lhs")], ["Parser::parse_program"])

p("C23", "Programs compose: A then B parses as A's statements then B's",
  "For any two complete programs A and B, parsing A followed by a newline (or ;) and B gives the statements of A followed by those of B parsed with A's variables known, with B's locations shifted by the length of what precedes it, and a table that is A's extended by B's. The same holds when the statements are placed inside a parenthesis, a begin block, a branch or an interpolation instead of the top level.",
  ["programs"], "all pairs of programs, all enclosing constructs that open no variable scope",
  "No test relates two parses.",
  [EXP, PAR, LEX], [("statement sequence", EXP + ":parse_comp_stmt"), ("parser mode flags restored at construct ends", PAR)], API)

p("C24", "Array, hash and range literals keep elements and constancy",
  "Array, hash and range literals yield exactly their elements, pairs or bounds in source order, keyword-style keys (including reserved words and quoted keys) becoming symbols, with trailing commas and line breaks allowed. The constant marker of an array, hash, regular expression or range is set exactly when every element is a plain literal (nil, true, false, an integer, float, string or symbol; for ranges: both bounds integers; for regular expressions: no embedded code other than plain literals).",
  ["programs"], "all literals of any length and nesting, all key forms",
  "Two hash-argument calls are parsed; no literal's tree is compared.",
  [LIT, NODE, EXP], [("hash keys", LIT + ":parse_hash_literal"), ("constancy", NODE + ":is_const_expr, new_array, new_hash, new_range, new_regexp")], API)

p("C25", "Names are classified and preserved exactly",
  "Every identifier, constant, instance, class, global and special variable, method name (with ?, ! or = where allowed), label and symbol, of any length and with any letters, is reported in its own category with exactly its spelling. Reserved words act as keywords only in keyword position: after a dot, in def, alias, symbols and hash keys each of them is an ordinary name, and a name that merely begins with or contains a reserved word is never split or reserved.",
  ["inputs"], "all names, all reserved words, all name positions",
  "Five names are tested in token streams.",
  [LEX, EXP, DEF, LIT], [("identifier scanners", LEX + ":read_identifier, read_method_name, read_symbol_literal, read_global_var")], API)

p("C26", "The variable table is an insertion-ordered set with stable indices",
  "Over any sequence of insertions, the variable table holds each name once, at an index equal to the number of distinct names inserted before it, and never moves or drops one; inserting an existing name as an ordinary variable returns its index, while inserting it as a new, block, keyword-rest or forwarding parameter is refused and changes nothing. Lookups by name and by index agree with each other and with the listing, and the special parameters reported are the ones last accepted.",
  ["histories"], "all operation sequences, all names",
  "No test touches the table.", [LV], [("table operations", LV)], ["LvarCollector", "LvarTable"])

p("C27", "The command line prints the library's result for the same source",
  "For any source given as a file or with -e, the command prints exactly the tree the library returns for it and exits successfully, and for source the library rejects it reports that error and its location on standard error, prints no tree and exits with a failure status. A file that cannot be read or is not text is reported as such without a tree.",
  ["inputs", "configurations"], "all sources, both ways of giving them, unreadable files",
  "The command's only tests need the network and compare nothing.",
  [MAIN], [("argument handling and output", MAIN)], ["ruruby-parse executable: stdout, stderr, exit status"])

p("C28", "Any composition of supported constructs parses to its own tree",
  "A program assembled from any supported constructs nested in any supported position, in any legal spelling and layout, parses successfully to exactly the tree that mirrors that assembly, at any size (long lists, thousands of statements, deep nesting). No construct changes the parse of another merely by being inside, before or after it.",
  ["programs"], "all programs of the supported language",
  "Tests exercise constructs one at a time on fixed snippets.",
  [PAR, EXP, LIT, FLOW, DEF, LEX, NODE], [("the whole recursive-descent parser and its saved and restored mode flags", PAR)], API)

with open(__file__.replace("tools/mkprops.py", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
