# Read by registry.py. P(id, title, statement, over, text, why, files, mechanism, observe_at, technique, level_note)

IMPLEMENTED = [p for p in "L01 L02 L03 L04 L05 L06 M01 M02 M03 M04 M05 C01 C02 C03 C04 C05 C06 C07 C08 I01 I02 I03 I04 I05 I06 I07 I08 I09 I10 I11 E01 E02 E03 E04 G01 G02 Q01 Q02 Q03 Q04 Q05 Q06 Q07 Q08 Q09 Q10 Q11".split()]

# ------------------------------------------------------------------ lexing

P("L01", "Tokenizing yields exactly the token sequence of the lexical rules",
  "For every source text without lexical errors and in every scan mode, tokenizing returns exactly the token sequence of "
  "the documented Go-like lexical rules extended with '?', '~', '@' and '#'-to-end-of-line comments: operators by longest "
  "match, Unicode identifiers, decimal/octal/hexadecimal integers, floats, imaginary numbers, character, string and raw "
  "string literals. Each token has the right kind and its literal is the exact source text (carriage returns removed from "
  "raw strings and // and /* */ comments; operators have an empty literal). Nothing is dropped, merged, split or invented.",
  ["inputs", "configurations"], "all source texts x all combinations of the two scan-mode flags",
  "The tests scan three fixed snippets that use a dozen of the ~50 token kinds; the property is about every text, in particular "
  "operator prefixes, number forms, comment/newline interplay and Unicode.",
  [SC, TK, MA], [("token dispatch", "Scanner.Scan"), ("number/string/comment sub-scanners", "Scanner.scanNumber, scanString, scanRune, scanRawString, scanComment"),
                 ("operator suffix switches", "Scanner.switch2/3/4")],
  ["Matcher.Tokenize", "Scanner.Scan"],
  "property-based: generated texts against an independent reference lexer (and Go's own scanner on the shared subset)",
  "Random exploration against a reference lexer written from the documentation. Trusts the reference lexer, cross-checked with go/scanner.")

P("L02", "Token positions, source text, ends and line numbers are exact",
  "For every accepted source text, token start positions strictly increase (only a comment token shown after an inserted semicolon shares its place) and the text found at a token's position is that "
  "token's own text, so that everything between two tokens is only white space or comments. The source text reported for any "
  "run of tokens is exactly the input from the first token's start up to the start of the token that follows, file name and line number "
  "are those of the first token (also after '//line' comments), and a token's end is its start plus its length in the source for all tokens without removed carriage returns that are present in the text.",
  ["inputs"], "all accepted source texts, all sub-ranges of the token list, multi-line and multi-byte text, file names, //line comments",
  "The tests compare positions of one snippet and never call Source or FileLine on sub-ranges.",
  [SC, TK, GR, MA], [("position bookkeeping", "Scanner.next, Scanner.Scan"), ("//line handling", "Scanner.interpretLineComment"),
                     ("source slicing", "tpl.Source, tpl.FileLine"), ("token end", "Token.End, TokenLen")],
  ["tpl.Source", "tpl.FileLine", "Token.End", "Token.Pos"],
  "property-based: constructed texts with known offsets; tiling and slicing invariants",
  "Random exploration; the expected offsets and lines are known by construction of the text.")

P("L03", "Automatic semicolons appear exactly where the newline rule puts them",
  "With semicolon insertion on, a newline semicolon is produced at a line end, at a comment that reaches the line end, or at the end of the text, exactly when the last token on "
  "that line is an identifier, keyword, literal, ')', ']', '}', '++' or '--'; never elsewhere and never twice. With it "
  "off, only semicolons written in the text are produced. Comments (//, #, /* */ on one or several lines) and blank lines do not change this.",
  ["inputs", "configurations"], "all texts and placements of newlines, comments and end of input, both modes",
  "The tests contain five semicolons; the rule quantifies over every last token and every comment/newline arrangement after it.",
  [SC, CO], [("insertSemi state", "Scanner.Scan"), ("comment look-ahead", "Scanner.findLineEnd"), ("'#' comments", "Scanner.Scan")],
  ["Matcher.Tokenize"],
  "property-based: line-structured token generator against a rule-level model",
  "Random exploration with a generator that builds lines of tokens and every kind of trailing trivia.")

P("L04", "Lexical errors are always reported, valid text never is, scanning ends",
  "For every byte sequence, tokenizing ends without crashing and either returns tokens or an error. An error is returned exactly when the text "
  "contains a lexical error (stray or NUL character, invalid UTF-8, misplaced byte order mark, unterminated or malformed literal or "
  "comment, unknown escape, bad number), and its position is that of the offending text; a leading byte order mark is accepted. No accepted text ever produces an illegal token.",
  ["inputs"], "all byte sequences",
  "No test exercises a lexical error at all.",
  [SC, MA], [("error reporting", "Scanner.error and its callers"), ("first-error stop", "Matcher.Tokenize")],
  ["Matcher.Tokenize error", "Scanner.ErrorCount"],
  "property-based fuzzing of byte strings over an adversarial alphabet against a reference lexer; one planted lexical error at a known offset",
  "Random exploration of byte strings; reference lexer decides error / no error.")

P("L05", "Scanning is independent of scanner history and of comment visibility",
  "Tokenizing a text with a scanner or matcher that has been used before - on any texts, including ones that failed - gives the same tokens, "
  "positions and errors as a fresh one. Turning comment visibility on only adds comment tokens: removing them yields the same tokens as with it off, in both semicolon modes.",
  ["histories", "inputs", "configurations"], "all sequences of texts tokenized with one scanner, all modes",
  "The tests re-initialise a scanner three times on one text and never after an error or with a different text.",
  [SC, MA, CO], [("full re-initialisation", "Scanner.Init, AutoKwScanner.Init"), ("comment skipping", "Scanner.Scan")],
  ["Matcher.Tokenize"],
  "property-based: random histories on a reused scanner vs a fresh scanner; comment-mode metamorphic relation",
  "Random exploration of histories of up to a dozen texts.")

P("L06", "Token names, literals and lengths form a consistent two-way table",
  "Every token kind the scanner can produce has a unique printable literal, and converting kind to literal and back returns the same kind; "
  "the documented upper-case names (ADD, SUB_ASSIGN, ...) denote the same kinds as the operator literals. The reported operator length is the length of the operator's text and 0 for everything else. "
  "Keyword literals registered with an automatic-keyword scanner get distinct, stable kinds that clash with no built-in token and convert back to their literal, for any number and order of registrations.",
  ["inputs", "histories"], "all token kinds and literals; all registration sequences of keywords",
  "The tests check the shape of the table entries and six conversions; none registers more than a few keywords or checks lengths of other kinds.",
  [TK, SC, CO], [("token tables", "tokens, rtokens"), ("conversions", "Token2Lit, Lit2Token, TokenLen"), ("keyword registry", "AutoKwScanner.Ltot/Ttol")],
  ["Scanner.Ttol/Ltot", "AutoKwScanner.Ttol/Ltot", "TokenLen"],
  "property-based: model-based registration histories, exhaustive table round trip",
  "Table part exhaustive over kinds 0..0x200; keyword part random exploration.")

# ------------------------------------------------------------------ matching

P("M01", "Rule combinators accept and consume exactly what their definitions say",
  "For every grammar built from the rule combinators (token, 1, EOF, sequence, ordered choice, *G, +G, ?G, @G, ~G, G1 % G2, G1 %= G2, named and "
  "recursive rules) and every token sequence, matching succeeds or fails and consumes exactly as the documented definitions say: first matching alternative, greedy repetition without giving back, look-ahead without consumption, list as G1 *(G2 G1). "
  "An integer is accepted where a float is asked for, not conversely. Exact matching succeeds only if all input is consumed, and partial matching returns exactly the unconsumed tokens.",
  ["programs", "inputs"], "all non-left-recursive grammars x all token sequences",
  "One grammar on one input is tested; the definitions quantify over all nestings of all combinators.",
  [GR, MA], [("combinators", "grammar.go Match methods"), ("exact match", "Matcher.Match, MatchExactly, Eval")],
  ["Matcher.Match result and rest", "Matcher.MatchExactly error"],
  "property-based: random grammar trees and token strings against a reference PEG interpreter",
  "Random exploration of grammars up to depth ~5 with recursion through rule references; trusts the reference interpreter.")

P("M02", "Actions and transactions see exactly what matched, once, in order",
  "During a match every action runs exactly once for each successful match of its rule, at the moment that match completes (inner before outer, left to right), and receives exactly the tokens "
  "that match consumed; the rule's count then is the exact number of successful repetitions or list items of that very match, also under recursion. Every transaction is begun before its rule is tried and ended exactly once afterwards with the outcome of that attempt, properly nested.",
  ["programs", "inputs"], "all grammars with actions and transactions x all token sequences",
  "One test collects one list of pushes; counts in nested or recursive lists and abandoned branches are never examined.",
  [GR], [("actions", "grAction.Match"), ("transactions", "grTrans.Match"), ("counts", "grRepeat0/1/01.Len, grList.Len")],
  ["action callback arguments", "Grammar.Len at action time", "transaction callbacks"],
  "property-based: event log of the real match against the reference interpreter's event log",
  "Random exploration; includes actions in branches that are later abandoned and inside look-aheads.")

P("M03", "After '!' a failing sequence aborts the whole match, and only then",
  "In a sequence with a cut, if everything before the cut matched and a later element fails, the whole match stops at once with a match error describing that sequence: no alternative, repetition or optional around it is tried or succeeds. "
  "If the failure happens before the cut, or the sequence succeeds, the cut has no effect at all.",
  ["programs", "inputs"], "all grammars with cuts at any position x all token sequences",
  "No test checks a failing cut.",
  [GR, CO], [("cut handling", "grAnd.Match"), ("cut in grammar text", "Compiler.Cl grNil")],
  ["panic value *tpl.MatchError", "action log"],
  "property-based: grammars with cuts (API and compiled text) against the reference interpreter",
  "Random exploration; outcome, event log and error location compared.")

P("M04", "Match errors point at the token where matching stopped and always render",
  "Every failed match yields an error whose location is the token that could not be matched: the failing element of a sequence, and for a choice the failure of the alternative that got strictly farthest, else the start of the choice. "
  "Rendering the error always works, also when the failure is at the end of the input; the reported line is the line of that token, and the quoted text starts where the failing rule was tried. Left-over input after a successful match is reported at the first left-over token.",
  ["programs", "inputs"], "all grammars x all non-matching inputs, single- and multi-line",
  "No test provokes a match error and looks at it.",
  [GR, MA, CO], [("farthest failure", "grOr.Match"), ("rendering", "MatchError.Error, calcErrorInfo, nextLines"), ("left-over input", "Matcher.MatchExactly, CompileRet.EvalSub")],
  ["MatchError fields", "error text"],
  "property-based: error location and text against a reference model of failure positions",
  "Random exploration; line and quoted text recomputed from the source text.")

P("M05", "Matching always terminates, even when a repeated rule matches nothing",
  "For every grammar without left recursion and every input, matching ends after a bounded number of rule attempts. In particular a repetition or list whose body succeeds without consuming anything ends with that success, which still counts as one repetition.",
  ["programs", "inputs"], "all non-left-recursive grammars, including nullable bodies under *, + and %",
  "No test repeats a rule that can match nothing.",
  [GR], [("repetition loops", "grRepeat0.Match, grRepeat1.Match, grList.Match")],
  ["number of leaf matches", "Matcher.Match result", "Grammar.Len"],
  "property-based: nullable grammars with counting leaves under a deterministic step budget",
  "Random exploration; termination decided by a budget of leaf attempts derived from the reference run, not by time.")

# ------------------------------------------------------------------ grammar compiler

P("C01", "Compiled grammar text means what the grammar language documents",
  "For every well-formed grammar text - any nesting of *, +, ?, ~, @ prefixes, % and %= lists, sequences, choices, parentheses, cuts, marks, '1', 'true', token names, operator and keyword literals, rule references before or after their definition, "
  "with any white space, newlines, comments and semicolons allowed by the syntax - the compiled matcher accepts the same inputs, runs the same marked actions and aborts in the same cases as the documented meaning with the documented operator precedence and associativity.",
  ["programs", "inputs"], "all well-formed grammar texts x all inputs",
  "Three fixed grammars are compiled by the tests; precedence among all operators, prefixes and marks is not.",
  [CO, GR], [("grammar of grammars and its actions", "Compiler.Cl")],
  ["CompileRet.MatchExactly", "mark callbacks", "action log"],
  "property-based: random grammar ASTs rendered to text with random layout and minimal/redundant parentheses, compiled and compared with the reference interpreter",
  "Random exploration; trusts renderer and reference interpreter.")

P("C02", "Grammar code printed from a compiled grammar compiles back to the same language",
  "For every compiled grammar, printing its rules as grammar code and compiling that text again gives a matcher that accepts exactly the same inputs consuming the same tokens (marks and cuts are not printed). Printing is stable: once compiled from its printed form, a grammar prints the same code again.",
  ["programs", "inputs"], "all compiled grammars x all inputs",
  "A test prints code but asserts nothing about it.",
  [GR, MA, CO], [("printing with precedence levels", "Marshal methods, tpl.Code")],
  ["tpl.Code", "Matcher.Code"],
  "property-based: compile - print - recompile round trip with language comparison on generated inputs",
  "Random exploration; language equality sampled on random inputs per grammar.")

P("C03", "Ill-formed grammars are rejected at compile time, well-formed ones never",
  "A grammar text is rejected - by an error or a descriptive panic from compiling, never by a crash, a hang or a later failure while matching - if it has a syntax error, no 'doc' rule, a reference to a rule that is never defined, a rule defined twice, an unknown token name or literal, or a number other than 1. "
  "Every grammar text without these defects compiles, whatever the order of its rules, including a recursive 'doc'.",
  ["programs"], "all grammar texts: well-formed ones and ones with one injected defect, and arbitrary token soup",
  "No test compiles an invalid grammar.",
  [CO], [("validation", "Compiler.Cl assign/ident/gr/grTrue, unassigned variable check, ErrNoDoc")],
  ["Compiler.Cl error or panic"],
  "property-based: defect injection into generated grammars; token-soup fuzzing of the compiler",
  "Random exploration; runtime errors (index, nil) from the compiler count as violations.")

P("C04", "Each mark in a grammar calls the marker exactly once, in order, on its rule",
  "Compiling a grammar calls the marker callback exactly once per mark occurrence, in textual order, with the mark's name and the rule the mark is attached to (the prefix or list expression directly before it), and the grammar uses exactly what the callback returned in that place.",
  ["programs"], "all grammar texts with marks at any position",
  "Tests use marks on one grammar only and do not check multiplicity, order or attachment.",
  [CO], [("mark handling", "Compiler.Cl mark action")],
  ["Marker calls", "tpl.Code of the marked rule"],
  "property-based: marker call log against the marks collected from the generated AST",
  "Random exploration.")

P("C05", "Words quoted in a grammar become keywords of the matched language",
  "After compiling a grammar, exactly the identifiers that appear as string literals in it are scanned as their own keyword tokens in matched text: they match only that literal and no longer match an identifier, "
  "while every other identifier - including prefixes, extensions and case variants of keywords - still matches as identifier, and text inside strings and comments is unaffected. This holds for any number of keywords and for sub-rule evaluation.",
  ["programs", "inputs"], "all keyword sets x all texts",
  "Only the fixed qlang grammar uses keywords in tests.",
  [CO], [("keyword discovery", "AutoKwScanner.Ltot"), ("keyword recognition", "AutoKwScanner.Scan")],
  ["CompileRet.Tokenize", "CompileRet.MatchExactly"],
  "property-based: generated keyword sets and near-miss identifiers against a set model",
  "Random exploration with up to ~100 keywords.")

P("C06", "Sub-rule evaluation matches exactly the named rule over the whole given source",
  "Evaluating a named sub-rule over a string, a byte slice or a run of tokens succeeds exactly when that rule matches all of it, with the same actions as matching that rule alone, whichever form the source is given in. An unknown rule name or source type is an error, and failures say where.",
  ["programs", "inputs"], "all rules of all grammars x all sources, in the three source forms",
  "Only reached indirectly through qlang's fixed grammar.",
  [CO], [("sub-rule evaluation", "CompileRet.EvalSub")],
  ["CompileRet.EvalSub"],
  "property-based: three source forms against each other and against the reference interpreter",
  "Random exploration.")

P("C07", "The order in which rules are written does not change the language",
  "Permuting the rule definitions of a grammar text (so that references become forward or backward) leaves accepted inputs, consumed tokens, actions run and failure or success unchanged, as does splitting or merging lines, replacing newline terminators by semicolons, or adding comments.",
  ["programs", "inputs"], "all well-formed grammars, all permutations of their rules and layouts",
  "Each grammar is tested in one order and layout only.",
  [CO, GR], [("forward references", "Var/GrVar"), ("backward references", "Named/GrNamed")],
  ["CompileRet.MatchExactly", "action log"],
  "property-based metamorphic: permuted and re-laid-out grammar text vs original",
  "Random exploration.")

P("C08", "A scanner given in the options reads every text, in the mode given there",
  "A compiler, interpreter, extractor or qlang instance that is given a scanner of its own (any implementation of the scanner interface) matches every text - whole, or by a sub-rule, or code evaluated by an action - "
  "on exactly the tokens which that scanner returns when started in the given scan mode: the outcome, the actions, their tokens and the values made of them are those of these tokens, also when several compiled grammars share one scanner.",
  ["configurations", "programs", "inputs"], "all scanners x scan modes x grammars x texts, for compilers, interpreters, extractors and qlang",
  "No test gives a compiler a scanner of its own.",
  [CO, MA, IN, EX, QE], [("compiler options", "Compiler.Scanner/ScanMode"), ("matcher", "Matcher.requireScanner"), ("interpreter options", "interpreter.Options"), ("extractor options", "extractor.Options")],
  ["Matcher.MatchExactly", "CompileRet.EvalSub", "action log", "extracted document", "qlang variables"],
  "property-based: scanners that reclassify or drop tokens, against the reference matcher on the tokens of the reference lexer changed in the same way; qlang programs with exchanged operators against the model",
  "Random exploration; scanners are built on the library's own by changing its tokens.")

# ------------------------------------------------------------------ interpreter and calculators

P("I01", "The float calculator computes what the expression says",
  "For every expression over float, integer (decimal, octal, hex) and exponent literals, the constants e, pi, phi, Inf, NaN, unary + and -, the operators + - * / %, parentheses and the documented functions, with any white space and comments, "
  "evaluation yields exactly the IEEE-754 double obtained by applying the operations with the usual precedence and left associativity, each function applied to its arguments in order.",
  ["inputs"], "all expressions of the calculator grammar",
  "There is no test of the calculator at all.",
  [NU, IN, IU], [("grammar", "number.Grammar"), ("function table", "number.Fntable"), ("stack", "number.Stack")],
  ["Calculator.Ret"],
  "property-based: generated expression trees rendered to text, compared bit for bit with direct evaluation",
  "Random exploration; the reference evaluator uses Go's math package directly.")

P("I02", "The complex calculator computes what the expression says",
  "For every expression over real and imaginary literals, unary + and -, + - * /, parentheses and the documented complex functions, evaluation yields exactly the complex128 obtained by applying the operations with the usual precedence and left associativity; "
  "functions that need real arguments reject non-real ones with an error. A malformed or out-of-range literal is an error, never a silently different value.",
  ["inputs"], "all expressions of the complex calculator grammar",
  "There is no test of the calculator at all.",
  [CX, IN, IU], [("grammar", "cmplx.Grammar"), ("function table", "cmplx.Fntable"), ("imaginary literals", "Stack.PushImag")],
  ["Calculator.Ret"],
  "property-based: generated expression trees compared bit for bit with direct evaluation",
  "Random exploration; the reference evaluator uses Go's math/cmplx directly.")

P("I03", "The rational calculator is exact for integers of any size",
  "For every expression over integer literals of any size (decimal, octal, hex), unary + and -, + - * /, parentheses and abs, inv, max, min, denom, num, evaluation yields the mathematically exact rational; dividing by zero is an error. Results handed out are independent values: changing one never changes a later result.",
  ["inputs", "histories"], "all expressions of the rational calculator grammar",
  "There is no test of the calculator at all.",
  [RA, IN, IU], [("grammar", "rat.Grammar"), ("function table", "rat.Fntable"), ("integer literals", "Stack.PushString")],
  ["Calculator.Ret"],
  "property-based: generated expression trees compared with direct math/big evaluation; algebraic laws",
  "Random exploration with literals up to hundreds of digits.")

P("I04", "Function calls pass the right arguments or are refused with an error",
  "A call by name or from the stack passes exactly the written arguments, in order, converted only where documented (numbers to float64), for fixed-arity and variadic functions with any number of arguments. "
  "Wrong argument counts, unsuitable argument types, unknown functions and missing stack values are reported as errors without calling the function.",
  ["inputs", "programs"], "all functions of the calculators and arbitrary Go functions x all argument lists",
  "No test calls a function with a wrong argument count, type or name.",
  [IU, NU, CX, RA], [("call helpers", "interpreter.Call, DoCall, VCall, validateType"), ("calculator dispatch", "Calculator.Call")],
  ["returned error", "arguments received by the callee"],
  "property-based: generated functions and stacks against a model of the calling rules",
  "Random exploration over a set of reflect-built signatures.")

P("I05", "Muted marks never run; nesting of mute levels is exact",
  "In an interpreter grammar, between _mute and _unmute ordinary marks do not run while marks starting with '_' do; at mute depth two or more no user mark runs; when the depth returns to zero every mark runs again. Each new match starts unmuted whatever happened in earlier matches, "
  "and evaluating captured code from inside an action runs its marks and afterwards restores the mute depth in force.",
  ["programs", "inputs", "histories"], "all grammars with mute marks in any nesting x all inputs, sequences of matches",
  "Mute is only exercised through the fixed qlang grammar.",
  [IN], [("mute counter", "interpreter.New marker/action/initer"), ("restore", "Engine.EvalCode")],
  ["log of executed marks"],
  "property-based: generated mark/mute grammars against a counting model, over histories of matches",
  "Random exploration.")

P("I06", "Marked functions receive the arguments their signature asks for",
  "When a mark fires, its function is called once with the arguments its signature asks for: the stack or interpreter; the matched tokens (nil if none) for an untyped parameter; the engine; a context with exact source range; the repetition count for upper-case marks; "
  "otherwise the first token's text converted to string, int, int64 or float64. Functions without receiver get their parameters popped from the stack in order and their result pushed. Unknown marks, values that are no functions, and functions that are variadic, have no or too many parameters or other results than an error are refused when the interpreter is created.",
  ["programs", "inputs"], "all supported function signatures, all mark spellings, all matched texts",
  "Tests only reach the signatures qlang happens to use.",
  [IN, IU], [("dispatch by signature", "interpreter.New action"), ("context", "Engine.ctxValue"), ("literal conversion", "GetValue")],
  ["arguments received by the functions", "error/panic of interpreter.New"],
  "property-based: generated grammars over a table of recording functions, expected arguments from the reference match",
  "Random exploration.")

P("I07", "Failures inside actions surface as runtime errors with the right place",
  "If a marked function returns an error, panics with a string or error, or receives an unconvertible literal, evaluation stops and reports a runtime error that carries the original error and names the file and the line of the innermost failing construct; "
  "match errors pass through unchanged, and marks after the failure do not run.",
  ["programs", "inputs"], "all failing actions at all source positions, file names, nesting depths",
  "One test compares one error string.",
  [IN], [("error wrapping", "interpreter.New action recover, RuntimeError.Error"), ("place", "tpl.FileLine")],
  ["recovered RuntimeError", "error text"],
  "property-based: failing action planted at a known line of generated sources",
  "Random exploration.")

P("I08", "An interpreter can be reused after any history with the same results",
  "For every sequence of evaluations on one calculator or interpreter - successful, rejected by scanner or grammar, or failing at run time - each further evaluation gives the same value or failure as on a fresh instance, and after a result is taken no stale value is left behind.",
  ["histories", "inputs"], "all sequences of evaluations on one instance",
  "Every test evaluates once per instance.",
  [IN, NU, CX, RA, MA], [("per-match initialisation", "initer, Matcher.Match"), ("stack clearing", "Calculator.Ret")],
  ["Calculator.Ret value and ok flag", "error"],
  "property-based, stateful: evaluation histories on one instance vs a fresh instance per step",
  "Random exploration of histories.")

P("I09", "Numeric literals convert to the value their spelling denotes, or fail",
  "Converting a lexically valid number literal to int64, int or float64 yields exactly the value denoted (decimal, leading-0 octal, 0x hex, decimal float with exponent, correctly rounded); a literal that cannot be represented is reported as an error and never yields a different number. Conversion to string keeps the text.",
  ["inputs"], "all integer and float literals accepted by the scanner",
  "Seven literals are tested.",
  [IN], [("conversions", "ParseInt, ParseFloat, GetValue")],
  ["ParseInt", "ParseFloat", "GetValue"],
  "property-based: literals generated from their value and radix, compared with math/big",
  "Random exploration, dense around 2^53, 2^63 and radix boundaries.")

P("I10", "Independent engines do not influence each other",
  "Matchers, calculators, extractors and qlang instances share no mutable state: using several of them interleaved, nested inside one another's actions, or in parallel from different goroutines gives each the results it gives alone, without data races.",
  ["schedules", "histories"], "all interleavings of operations on distinct instances",
  "All tests use one instance at a time.",
  [GR, MA, CO, IN, NU, CX, RA, EX, QL], [("per-instance state", "Matcher, Scanner, CompileRet, Stack, Interpreter"), ("shared tables read-only after start", "Fntable, tokens")],
  ["results per instance", "Go race detector"],
  "property-based: generated workloads run alone, interleaved, nested and in parallel under the race detector",
  "Random exploration; goroutine schedules are not controlled, races are detected by happens-before analysis.")

P("I11", "The calculator commands answer every line of their input",
  "The example calculators (float, complex, rational) read standard input line by line: each line that is an expression prints '> ' and its value - real numbers without imaginary part, whole numbers without denominator - and a blank line; "
  "each line that fails prints a message on standard error and no value; blank lines print nothing. A line's outcome doesn't depend on the lines before it, failing or not, and at the end of input the command exits with status 0.",
  ["inputs", "histories"], "all sequences of input lines (below 60000 bytes each), valid, failing and blank, for the three commands",
  "The commands have no tests.",
  ["tpl/examples/calculator/main.go", "tpl/examples/cmplxcalc/cmplx_calc.go", "tpl/examples/ratcalc/bigcalc.go", IN, NU, CX, RA],
  [("line loop", "main, eval of the three commands"), ("evaluation", "Engine.Eval, Calculator.Ret")],
  ["standard output", "standard error", "exit status"],
  "property-based: generated input texts run through the built commands, against the reference evaluators",
  "Random exploration.")

# ------------------------------------------------------------------ extractor

P("E01", "Extracted documents contain exactly the marked parts, in order and nesting",
  "For every extraction grammar and accepted input, the document contains for each leaf mark the converted value of its first token, for each node mark a nested document of what was matched inside it, and for array marks all items in source order, also when items of several arrays alternate. "
  "What was matched inside a node whose own match then failed leaves no trace; a repeated single-valued mark keeps its first value.",
  ["programs", "inputs"], "all extraction grammars with leaf/node/array marks x all inputs",
  "Two flat one-array grammars are tested on one input each.",
  [EX, ED], [("marks", "extractor.New marker"), ("document building and rollback", "Node.insertLeaf/insertNode, Transaction"), ("conversion to maps", "Node.toMap")],
  ["Engine.Parse/SafeParse/Extract result"],
  "property-based: generated extraction grammars against a reference document builder with rollback",
  "Random exploration.")

P("E02", "Leaf values are converted to the type named by the mark, or the parse fails",
  "Int, Float, String, Text and Char leaves (single, plural or Array) hold the int64, float64, unquoted string, raw text or byte their token denotes; a token that does not denote such a value, or an unsupported type, makes the parse fail with an error instead of yielding another value. A custom conversion, if given, is used for every leaf with the type name and text.",
  ["inputs", "configurations"], "all literals x all leaf types x custom converters",
  "Five literals are tested.",
  [EX], [("conversion", "extractor.GetValue")],
  ["Engine.SafeExtract result"],
  "property-based: values rendered to literals and back; invalid combinations",
  "Random exploration.")

P("E03", "Safe extraction never panics and never mixes documents of different inputs",
  "The safe entry points return a document or an error for every input - lexical errors, mismatches, cuts, conversion failures - and never panic with a string or error. Parsing one input leaves nothing behind in the document of a later one: each result equals that of a fresh extractor.",
  ["histories", "inputs"], "all sequences of inputs on one extractor",
  "Every test parses one valid input.",
  [EX, ED], [("panic containment", "Engine.SafeParse"), ("reset", "initer")],
  ["SafeParse/SafeExtract result and error"],
  "property-based, stateful: parse histories vs fresh extractor",
  "Random exploration.")

P("E04", "tplconv prints exactly the extracted document of each file",
  "For every input file whose extension has an extraction grammar, the converter prints (or writes to the file with the requested extension) the JSON form - or the output template's rendering - of exactly the document the extractor yields for that file, for several files in the given order; unknown extensions, unreadable or non-matching files make it fail with a message and non-zero status.",
  ["inputs", "configurations"], "all file sets and options",
  "The command has no tests.",
  [TC, EX], [("file processing", "processFile")],
  ["stdout, output files, exit status"],
  "property-based: built command run on generated files in a scratch HOME, compared with the library",
  "Tens of process runs per check.")

# ------------------------------------------------------------------ qlang

P("Q01", "qlang operators and expressions evaluate as documented by precedence and type",
  "For every qlang expression, the value is that of applying the operators with the grammar's precedence and left associativity: integer and float arithmetic with promotion of mixed operands, string concatenation and ordering, comparisons giving booleans, '==' true exactly for equal values of the same type, '&&' and '||' evaluating the right side only when needed. "
  "Unsupported operand types and integer division by zero are runtime errors, never a wrong value.",
  ["inputs", "programs"], "all expressions over int, float, string, byte, bool, nil values",
  "A handful of integer expressions are evaluated by the tests.",
  [QL, QC, BN, BO, BX], [("expression grammar", "qlang.Grammar"), ("operators", "builtin number.go, boolean.go"), ("short circuit", "Interpreter.And/Or")],
  ["Interpreter.Ret, Vars", "error"],
  "property-based: generated typed expression trees against a reference evaluator; operator laws on the Go API",
  "Random exploration.")

P("Q02", "qlang control flow runs exactly the selected code",
  "In every program, if/elif/else runs the first branch whose condition is true and tests conditions in order only as far as needed; switch runs the first case equal to the value (or first true case without one), else default; the three for forms run init once, test before each round and step after each; the value of a block is that of its last statement. "
  "Non-boolean conditions are runtime errors. Nesting of these constructs does not change this.",
  ["programs"], "all nestings of control flow statements",
  "Two fixed programs use control flow; switch is never tested.",
  [QC, QL, IN], [("control flow", "Interpreter.If/Switch/For"), ("deferred code", "_mute/_code marks, Engine.EvalCode")],
  ["trace of executed statements", "Vars", "Ret"],
  "property-based: generated programs against a reference interpreter, compared by trace and variables",
  "Random exploration of terminating programs.")

P("Q03", "qlang functions, closures and returns behave lexically",
  "Calling a function binds parameters to arguments in order (the last one of a '...' function to the list of the rest; a trailing '...' argument is spread), runs the body in a fresh scope whose free names refer to the defining scope - shared and live, also after the definer returned - and yields the value given to return, leaving loops and branches at once, or nil. "
  "Recursion keeps frames apart; wrong argument counts are errors.",
  ["programs"], "all programs with nested, recursive, higher-order and variadic functions",
  "One program with three functions is tested.",
  [QF, QL, IN, IU], [("calls", "Function.Call, Interpreter.VCall"), ("closures", "Interpreter.getRef, externVar"), ("return", "Interpreter.Return, ErrReturn")],
  ["trace", "Vars", "Ret"],
  "property-based: generated programs against a reference interpreter",
  "Random exploration of terminating programs.")

P("Q04", "Deferred calls run last-in-first-out on every exit; recover stops a panic",
  "Expressions deferred in a function are evaluated exactly once each, in reverse order, when the function ends by return, by falling off its end or by a panic, and at top level when safe execution ends. A deferred function literal that calls recover() gets the error and the panic stops there, the function then yielding nil unless a value was already returned; without recover the panic reaches the caller after the deferred calls ran.",
  ["programs"], "all programs with defers, panics and recovers in nested functions",
  "No test uses defer or recover.",
  [QF, QE], [("defer list", "Interpreter.Defer, ExecDefers"), ("recover", "Interpreter.Recover, Function.Call"), ("top level", "Qlang.SafeExec")],
  ["trace", "error"],
  "property-based: generated programs against a reference interpreter",
  "Random exploration.")

P("Q05", "qlang objects keep their own members; methods see their object",
  "Each object made with new has its own members, starts with what its class's _init stored, and calls of its methods - directly, through stored method values, or from other methods - bind this to that object and pass the arguments in order. Setting a member changes only that object; methods cannot be overwritten; missing members are errors.",
  ["programs", "histories"], "all programs creating several objects and classes and calling methods in any order",
  "No test uses classes.",
  [QK, QL], [("classes", "Interpreter.Class/New/MemberRef"), ("binding", "thisDeref.Call"), ("members", "Object.SetVar")],
  ["trace", "Vars"],
  "property-based, model-based: object histories against a map-of-maps model",
  "Random exploration.")

P("Q06", "Slices and maps of qlang hold exactly what was put in them",
  "Slice and map literals, append, indexing, slicing with any of the bound forms, set, delete, len, get and sub act like the mathematical sequence or map: elements come back equal to what was stored (numbers promoted to float only in mixed number literals), absent map keys give undefined, out-of-range indices and bad element types are runtime errors. "
  "Slices of slices share storage as in Go; slices made with a length and capacity have them, and slices and maps of a given type refuse values of other types.",
  ["programs", "histories"], "all sequences of container operations over all element types",
  "Only append and indexing of one int slice are tested.",
  [BB, QL, BN], [("containers", "builtin SliceFrom/MapFrom/Append/Set/Get/SubSlice"), ("index forms", "qlang Index")],
  ["Vars", "trace"],
  "property-based, model-based: container operation histories, through programs and the Go API",
  "Random exploration.")

P("Q07", "Assignment forms and scoping change exactly the named variables",
  "Assignment, multiple assignment from a list, ++, --, and the five compound assignments set exactly the named variables to the computed values, left sides in order, and yield the documented value; multiple assignment with a wrong count is an error. "
  "A function may update an outer variable only after it has read it, otherwise assigning to a name of an enclosing function is refused; names starting with '_' are private to their function; unset removes a variable.",
  ["programs"], "all statement sequences over several nested scopes",
  "Tests use plain assignment, ++ and += on ints in one shape.",
  [QF], [("assignment", "Interpreter.Assign/MultiAssign/AddAssign.../Inc/Dec"), ("scopes", "getVars, getVar, getRef")],
  ["Vars", "error"],
  "property-based: generated statement sequences against a reference scope model",
  "Random exploration.")

P("Q08", "Safe execution contains every failure and leaves the instance usable",
  "Safe execution of any text returns nil or an error - for lexical and syntax errors, runtime errors, string or error panics, also in deferred code - and does not panic; the error text can be rendered and names the right line. Statements before the failure have taken effect, none after it; "
  "a following execution on the same instance behaves as on an instance whose variables were set directly, leaving no stale values.",
  ["inputs", "histories"], "all texts and all sequences of executions on one instance",
  "One test runs one failing program once.",
  [QE, QF, QC, IN], [("containment", "Qlang.SafeExec"), ("stack base restore", "evalCode"), ("mute reset", "interpreter initer")],
  ["SafeEval error", "Vars", "Ret"],
  "property-based, stateful fuzzing: token-soup and mutated programs in histories, compared with a fresh instance",
  "Random exploration; runaway programs are excluded by construction.")

P("Q09", "Top-level return and main end the process with the given status",
  "A top-level return of an integer, or a main block returning one, ends the process with that exit status after running deferred code once; without a value the status is 0; nothing after it runs.",
  ["programs"], "all programs ending by return or main at top level",
  "Cannot be tested in-process; no test does.",
  [QF], [("process exit", "Interpreter.Return, Interpreter.Main")],
  ["exit status and output of a child process"],
  "property-based: generated programs run in child processes",
  "Tens of process runs per check.")

P("Q10", "Importing never replaces an existing symbol, and imported names are visible",
  "Importing a table of functions and values makes each name available to programs with exactly that value, as a global name or as member of the module; importing a name or module that exists already is refused and the existing symbol keeps its value. Member access on Go values reaches their fields and methods, and methods of auto-call types are called. "
  "A Go function gets exactly the arguments of the call, and its result comes back with the same value.",
  ["histories", "inputs"], "all sequences of imports with clashing and fresh names",
  "Only the built-in table is imported by tests.",
  [QS, QE, QK], [("import", "spec.Import"), ("auto call", "SetAutoCall, MemberRef")],
  ["panic on clash", "program results"],
  "property-based, stateful: import histories against a map model",
  "Random exploration in one process with fresh names per case.")

P("Q11", "Interpreters written in qlang behave like the same interpreter in Go",
  "An interpreter defined in qlang by a class giving grammar, function table and stack evaluates every input to the same result as the equivalent interpreter written in Go: marks dispatch to stack methods, interpreter methods, qlang functions or Go functions with the same argument rules, mute rules and counts; bad inputs give errors, and the instance stays usable.",
  ["inputs", "histories"], "all inputs of a calculator grammar hosted in qlang, including failing ones",
  "The hosted interpreter package has no tests.",
  [QI, QK, QF], [("hosted dispatch", "cl/interpreter newEngine marker"), ("stack protocol", "callFn, callVfn")],
  ["Engine.Eval result"],
  "property-based differential: hosted calculator vs direct evaluation",
  "Random exploration.")

# ------------------------------------------------------------------ generator

P("G01", "Statically generated compilers match exactly like the dynamic compiler",
  "For every well-formed grammar whose rule names are usable Go identifiers (no keywords, not `_`, not the names tpl, cmplr, ret, new, nil and string that the generated method uses), the generated Go code compiles and its matcher accepts the same inputs, runs the same marked actions in the same order and honours the scanner, scan mode and init callback exactly like compiling that grammar at run time; a grammar the dynamic compiler rejects is rejected by the generator too.",
  ["programs", "inputs", "configurations"], "all grammars x all inputs",
  "One generated file for one grammar is checked in and tested on one input.",
  [GE, CO], [("code generation", "generator.GenStaticCode")],
  ["generated program's event log vs dynamic one"],
  "property-based: batches of generated grammars compiled with the Go compiler and run against the dynamic compiler",
  "Well over a thousand grammars per run, in batches of one Go build, several inputs each.")

P("G02", "tplgen finds the grammar in a package and emits a working compiler",
  "Run in a package directory, tplgen locates the named grammar constant or variable wherever it is declared with a string literal (at package level or among the statements of a function's body, by const, var or :=), and writes a compilable file of that package with the static compiler - and with -i the static interpreter - that evaluates inputs like the dynamic one; a missing or ill-formed grammar is reported with non-zero status.",
  ["programs", "configurations"], "all packages and declaration forms, all options",
  "The command has no tests.",
  [TG, TO, GE], [("grammar search", "findInDecl"), ("template", "output.tpl")],
  ["generated file compiled and run", "exit status"],
  "property-based: generated packages, tplgen run on each, output compiled and compared",
  "Hundreds of generated packages per run, in batches of one Go build.")
