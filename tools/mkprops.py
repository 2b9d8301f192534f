import json
P=[]
M="pomelo-impl/src/parser/mod.rs"
L="pomelo-impl/src/lib.rs"
D="src/lib.rs"
def p(id,title,st,over,qt,why,files,mech,state=(),obs=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
PARSE="Parser::parse / Parser::end_of_input of the generated module"
EXP="expansion of pomelo!{} (rustc diagnostics)"
p("C01","The generated parser accepts exactly the language of the grammar",
 "For every conflict-free grammar without precedence, fallback, wildcard or error-symbol features that `pomelo!` accepts, the generated parser accepts a token sequence (every `parse` and the final `end_of_input` return Ok) if and only if the sequence is derivable from the start symbol (the left-hand side of the first rule, or the one named by `%start_symbol`).",
 ["programs","inputs"],"every accepted plain grammar (including empty rules, left/right/hidden recursion, alternation, token classes, optionals, explicit start symbol) and every finite token sequence over its terminals",
 "The tests fix about twenty grammars and feed each one or two hand-picked valid sequences; hardly any invalid sequence is tried, and membership is quantified over all grammars and all sequences.",
 [M],[("first/follow sets, LR(0) states and LALR propagation",M+" find_first_sets, find_states, find_follow_sets, find_actions"),("action table packing and lookup",M+" ActTab::insert_action_set, yy_find_shift_action_2, yy_find_reduce_action"),("start symbol selection",M+" prepare, parse_one_decl(StartSymbol)")],
 [("parser stack","states and symbols recognised so far","generated Parser")],[PARSE])
p("C02","Rule actions run once per derivation node, bottom-up, with the bound values",
 "On every accepted input the rule actions run exactly once for each node of the input's derivation tree, in bottom-up left-to-right order (a rightmost derivation in reverse), each receiving through its aliases exactly the values of the symbols at those positions: the payload given to `parse` for a terminal, the action result for a nonterminal. `end_of_input` returns the value produced for the start symbol, and an action runs no later than the `parse`/`end_of_input` call that delivers the first token after its rule's text.",
 ["programs","inputs"],"every accepted grammar with any mix of typed and untyped symbols, alias patterns and auto-forwarded rules, and every accepted token sequence with arbitrary payloads",
 "Tests check the final value of a handful of grammars on one input each; order, multiplicity and binding positions are not observed in general and depend on grammar shape and types.",
 [M],[("value stack and typed minor enum",M+" translate_code, generate_source (YYMinorType)"),("reduce dispatch",M+" yy_reduce"),("auto-forwarded rules",M+" normalize_rules")],
 [("value stack","typed value of each recognised symbol","generated Parser")],[PARSE,"side effects of rule actions"])
p("C03","LALR(1) grammars are accepted and unresolved conflicts are always reported",
 "`pomelo!` accepts every well-formed grammar whose LALR(1) automaton has no conflict left after the documented precedence rules, and rejects at compile time every grammar that has a shift-reduce or reduce-reduce conflict which those rules do not resolve (a missing precedence on either side, or two reductions of equal precedence), or a rule that no state of the automaton ever reduces (unreachable, or losing every conflict to precedence). It never silently picks one side of an unresolved conflict.",
 ["programs"],"every well-formed grammar, with and without precedence declarations, including LALR-but-not-SLR, LR(1)-but-not-LALR, ambiguous and unreachable-rule grammars",
 "The tests contain no conflicting grammar at all and only a few conflict-free ones; whether a conflict exists depends on exact lookahead sets over the space of grammars.",
 [M],[("lookahead propagation",M+" configlist_closure, find_links, find_follow_sets"),("conflict resolution and counting",M+" find_actions, resolve_conflict"),("unreducible rules",M+" find_actions (can_reduce)")],
 [("conflict count","number of unresolved conflicts","Pomelo::nconflict")],[EXP])
p("C04","Precedence and associativity decide grouping as documented",
 "When `%left`, `%right`, `%nonassoc` and `[Token]` precedences resolve the conflicts of a grammar, every accepted input is grouped as the documentation says: later directives bind tighter, equal precedence groups left for `%left` and right for `%right`, and chaining `%nonassoc` operators of the same level is a syntax error. A rule's precedence is that of its left-most terminal that has one, unless `[Token]` overrides it.",
 ["programs","inputs"],"every operator grammar (binary, prefix, postfix, several operators per level, rule overrides, dangling-else style) and every token sequence over it",
 "tests/pass/tree.rs checks one grammar with four expressions; grouping must hold for all combinations of levels, associativities, overrides and expressions.",
 [M,D],[("rule precedence",M+" find_rule_precedences"),("precedence comparison and resolution",M+" precedence_cmp, resolve_conflict"),("nonassoc error entries",M+" compress_tables, generate_source")],
 [],[PARSE])
p("C05","Syntax errors are detected at the first offending token",
 "For a plain conflict-free grammar, `parse` returns Ok and calls neither the syntax-error nor the parse-fail code as long as the tokens given so far are a prefix of some sentence, and the first token that is not a viable continuation triggers the syntax-error code exactly once, with that very token and its payload; the offending token is never shifted or used by an action. An input that ends too early makes `end_of_input` fail through the parse-fail code.",
 ["programs","inputs"],"every accepted plain grammar and every token sequence, in particular sequences that differ from a sentence by one insertion, deletion or substitution",
 "Existing tests hit two or three error positions in fixed grammars; the viable-prefix property must hold in every state and for every token, including after default reductions and table packing.",
 [M],[("default reductions",M+" compress_tables"),("syntax error branch",M+" yy_parse_token_2, yy_syntax_error"),("end of input handling",M+" yy_parse_failed")],
 [],[PARSE,"%syntax_error and %parse_fail code"])
p("C06","Recovery with the `error` symbol resynchronises as documented",
 "In a grammar that uses the `error` nonterminal, a syntax error on a token makes the parser discard stacked symbols until `error` can be shifted (or an `error` already on the stack is uncovered), consume the offending token, and continue, so that later rules containing `error` reduce normally with the value returned by the syntax-error code. If no stacked state admits `error`, or the offending token is the end of input, the parse-fail code runs and the call returns its error; symbols below the recovery point and their values are preserved.",
 ["programs","inputs","fault_sequences"],"every grammar with one or more `error` productions (typed or untyped, in nested constructs) and every token sequence with any number and placement of syntax errors",
 "Two recovery tests (error1, typed_error) run one fixed sequence each; recovery depends on the stack contents at the error and on the sequence of earlier errors.",
 [M],[("stack popping and error shift",M+" yy_parse_token_2"),("error value",M+" yy_syntax_error"),("default reductions before an error is seen",M+" compress_tables")],
 [("error_count","tokens left before errors are reported again","generated Parser")],[PARSE,"%syntax_error and %parse_fail code"])
p("C07","Without an `error` symbol, bad tokens are dropped and reports are throttled",
 "In a grammar without the `error` nonterminal, if the syntax-error code returns Ok the offending token is dropped and the parser stays usable; whenever the parse then completes with Ok, its actions and its result are those for the tokens that were not dropped. After an error the syntax-error code is not called again until three tokens have been shifted since the most recent error, and a syntax error at end of input always fails through the parse-fail code.",
 ["programs","inputs","fault_sequences"],"every grammar without `error` symbol and every token sequence with any number and spacing of bad tokens",
 "error2.rs drops one token in one grammar; throttling spacing (exactly three shifts) and equivalence to the filtered input are never exercised.",
 [M],[("drop-and-continue branch and error_count",M+" yy_parse_token_2")],
 [("error_count","tokens left before errors are reported again","generated Parser")],[PARSE,"%syntax_error code"])
p("C08","The expected-token list names exactly the tokens acceptable at the error",
 "Whenever the syntax-error code runs, `expected` yields each terminal at most once, with its declared name, and yields exactly the terminals the parser in its current state would accept next (directly or through fallback) instead of the offending token. Its `token` field is the corresponding `Token` variant when that variant carries no data and None otherwise.",
 ["programs","inputs"],"every accepted grammar (typed and untyped tokens, with fallbacks) and every point at which a syntax error can occur",
 "expected_tokens.rs inspects three error points in two grammars with untyped tokens only.",
 [M],[("ExpectedTokens iterator",M+" generate_source (ExpectedTokens::next)"),("token reconstruction",M+" generate_source (token_build)"),("shared action lookup",M+" yy_find_shift_action_2")],
 [],["%syntax_error code: `expected`"])
p("C09","The stack limit is enforced exactly and through any conforming stack type",
 "With `%stack_size N` (default 100) the parser's stack never holds more than N entries (one of them the initial entry): the call that would need one more runs the stack-overflow code exactly once, with the token being shifted if there is one, and returns its error, while every input that needs at most N entries is parsed as with an unlimited stack. `%stack_size 0` never overflows, and a user-supplied stack type with only the seven documented methods gives the same behaviour as Vec.",
 ["programs","inputs","configurations"],"every grammar, every limit N, every custom stack type with Vec semantics, and inputs whose stack need is below, at and above the limit, for both token shifts and reductions of empty rules",
 "stack.rs checks one grammar with limit 32 and overflow on a token shift only.",
 [M],[("limit check",M+" yy_shift"),("stack type parameter",M+" generate_source (YYStack, YYSTACKLIMIT), parse_one_decl(StackSize)")],
 [("parser stack","entries incl. the initial one","generated Parser")],[PARSE,"%stack_overflow code","methods of the custom stack type"])
p("C10","%fallback substitutes a token exactly when it cannot be parsed itself",
 "With `%fallback F A B ...;`, a token that the parser can use in its current state is treated as itself, and otherwise it is treated as its fallback F (and F's own fallback in turn) before any error is reported; the parse is the same as if the replaced tokens had been sent as F. The original token's payload is what reaches the action's alias for F, when F is typed.",
 ["programs","inputs"],"every grammar with fallback declarations (chains, several directives, typed and untyped) and every token sequence",
 "Two fallback tests run one sequence each; whether substitution happens depends on the state, on compressed default actions and on chains.",
 [M],[("fallback lookup",M+" yy_find_shift_action_2"),("compression guard",M+" compress_tables (ignored_actions)"),("fallback table",M+" generate_source (YY_FALLBACK)")],
 [],[PARSE])
p("C11","%wildcard matches any token exactly when nothing more specific does",
 "With `%wildcard W;`, where the grammar allows W any real token (never the end of input) is accepted as W if neither the token itself nor its fallbacks can be parsed in the current state, and a token that can be parsed as itself is never taken as the wildcard. The parse is the same as if each token so matched had been sent as W.",
 ["programs","inputs"],"every grammar with a wildcard (alone or combined with fallbacks, in shift and reduce positions) and every token sequence",
 "wildcard.rs sends three tokens through one two-rule grammar.",
 [M],[("wildcard lookup",M+" yy_find_shift_action_2"),("no default reduction next to a wildcard",M+" compress_tables")],
 [],[PARSE])
p("C12","Optional, alternation and token-class sugar equals its expansion",
 "A grammar using `X?`, `A|B` or `%token_class` behaves exactly like the grammar with those written out: `X?` matches X (value Some) or nothing (value None), and `A|B` or a class matches any one of its members, passing that member's payload to the alias. The same symbols are accepted, the same actions run, and the same values are produced.",
 ["programs","inputs"],"every grammar using optionals of terminals, nonterminals, alternations and classes, aliased or not, typed, default-typed or untyped, and every token sequence",
 "optional.rs, token_alt.rs and token_class.rs run at most three sequences each; combinations (optional classes, repeated optionals, heterogeneous unaliased members, default types) are untested.",
 [M,L],[("optional expansion",M+" prepare (optional_tokens), parse_one_decl(Rule)"),("compound tokens",M+" build_shifts, find_first_sets, configlist_closure (MultiTerminal)"),("rule syntax",L+" Parse for Decl")],
 [],[PARSE])
p("C13","Symbol types are honoured: declared, default, forwarded, fallback",
 "Every accepted specification expands to code that compiles, in which `Token` has one variant per terminal carrying exactly its `%type` (or `%default_type`, or nothing), actions receive and return exactly the declared types, and the start symbol's type is the type returned by `end_of_input`. A rule without code whose left-hand side is typed (explicitly or by default) forwards the value of its single typed symbol when nothing is aliased.",
 ["programs","configurations"],"every combination of typed, untyped and default-typed terminals and nonterminals (including `()`, equal types on several symbols, optional, class and fallback tokens) and rules with and without code",
 "Each typing feature has one small compile-only test; the interactions are combinatorial.",
 [M],[("data type assignment and typed enum",M+" generate_source (types, dt_num)"),("auto-forwarding",M+" normalize_rules"),("default type",M+" prepare")],
 [],[EXP,PARSE])
p("C14","Errors reach the caller unchanged and a failed parser refuses further use",
 "An `Err` returned (or `?`-propagated) by a rule action or by the syntax-error code, and the values of the parse-fail and stack-overflow code, are returned unchanged by the very `parse` or `end_of_input` call that caused them, with no further action executed in that call. From then on any `parse` or `end_of_input` on that parser panics instead of producing a result, while its extra argument stays accessible.",
 ["programs","inputs","fault_sequences"],"every grammar, every token sequence, and every choice of which action invocation or syntax-error call fails",
 "error3.rs fails one action in one grammar and does not use the parser afterwards.",
 [M],[("status tracking",M+" yy_parse_token (yystatus)"),("error propagation",M+" yy_reduce, yy_syntax_error, yy_shift, yy_parse_failed")],
 [("yystatus","normal, failed or accepted","generated Parser")],[PARSE,"Parser::extra"])
p("C22","Directives left out fall back to their documented defaults",
 "Without `%error` the error type is `()`. A missing `%syntax_error` fails with the error type's `Default` value at the first syntax error instead of recovering, and a missing `%parse_fail` or `%stack_overflow` yields that value where its code would have run; everything else (actions, extra argument, recovery where `%syntax_error` is given) is unaffected. An error type without `Default` is accepted exactly when every directive that would need it is given, `%stack_overflow` not being needed with `%stack_size 0`.",
 ["programs","inputs","configurations"],"every subset of the four directives, every grammar and stack size, and every token sequence and failure point",
 "The tests give each directive in one or two fixed grammars, and none checks what a missing one does at each kind of failure.",
 [M],[("defaults for missing directives",M+" generate_source (yysyntaxerror, yyparsefail, yystackoverflow, yyerrtype)")],
 [],[PARSE])
p("C23","Names of symbols and aliases carry no meaning",
 "Renaming terminals, nonterminals, token classes and aliases one-to-one (terminals keeping an initial ASCII uppercase letter, nonterminals an initial ASCII lowercase one, `error` staying as it is) changes neither whether the specification is accepted nor what the parser does, apart from the names in the Token enum and in `expected`. This holds for every identifier Rust allows in that place: names of std items, of items and locals of the generated code, of directives, raw and non-ASCII identifiers, and names differing only in case or by a suffix.",
 ["programs","inputs"],"every specification, every injective renaming of its symbols and aliases, and every token sequence",
 "The tests use one fixed set of ordinary names per grammar; clashes need a particular name in a particular role.",
 [M,"pomelo-impl/src/decl.rs"],[("symbol table by name",M+" symbol_new"),("terminal or nonterminal by its first letter",M+" is_terminal_ident, is_nonterminal_ident"),("names of internal symbols",M+" new_from_decls, parse_one_decl(Rule)"),("alias patterns",M+" translate_code")],
 [],[PARSE])
p("C24","The printed automaton is the parser's LALR(1) automaton",
 "The text that `%verbose` prints while compiling, and the one in the error about parsing conflicts, describes the LALR(1) automaton of the specification: one state per LALR(1) state (state 0 the start), with exactly the items of its closure; for every symbol exactly the shifts, the reductions by lookahead, the accept on the start symbol, with `-- dropped by precedence` on the actions that precedence removed, `error` where a nonassociative token is in conflict, and `** Parsing conflict **` on the reductions in unresolved conflict. Every symbol in use is listed once under `%verbose`; nothing is printed without it.",
 ["programs"],"every specification, with and without conflicts, whatever precedence settles, and every naming of the symbols",
 "No test reads the text; whether it is the automaton the parser really uses depends on the grammar.",
 [M,L],[("report of states, actions and symbols",M+" report_output"),("conflict error",M+" Lemon::build"),("marks",M+" resolve_conflict, find_actions")],
 [],[EXP])
p("C25","Compile errors point at the declaration at fault",
 "When a specification is rejected because one declaration (or a few together) breaks a documented rule, or because of a mistake in the Rust code, types or alias patterns written in it (a refutable alias pattern included), at least one of the compiler's errors is located within a declaration at fault (for a duplicate, the later one) and not at the macro call as a whole. Errors about the whole grammar (conflicts, no rules), about token classes inside compounds, and about input that ends too early need not be tied to a declaration.",
 ["programs"],"every specification with one mistake, whichever declaration it is in and whatever surrounds it",
 "compile-fail tests only look at the text of one message per diagnostic; the place depends on which tokens every piece of the expansion takes its span from.",
 [M,L,D],[("spans of macro errors",M+" error_span and its callers"),("spans of the user's code",M+" generate_source (quote_spanned), translate_code"),("syntax errors",L+" Parse for Decl")],
 [],[EXP])
p("C26","How and where the macro is called carries no meaning",
 "A specification is accepted or rejected alike, and its parser behaves alike, whether `pomelo!` is called by any path, imported or crate name, with any delimiters, at module level, in a nested module or in a function body, next to any other items and other calls with another `%module`, and whether it is written directly or comes out of macro_rules macros: passed through as token trees, or with actions, error code, alias patterns, types, symbol names or the stack size as macro fragments. The user's code sees `extra`, `token`, `expected` and its aliases in all these cases.",
 ["programs","inputs"],"every specification, every way of calling the macro with it, and every token sequence",
 "All tests call the macro directly at module level; name resolution and hygiene depend on the span every generated identifier carries.",
 [M,L,"src/lib.rs"],[("entry macro",  "src/lib.rs pomelo"),("spans of the injected names",M+" generate_source (yy_reduce, yy_shift, yy_parse_failed, yy_syntax_error_2)"),("module wrapper",L+" pomelo_impl2")],
 [],[EXP,PARSE])
p("C27","The same specification always expands to the same code and messages",
 "Expanding a specification is a function of its text: however often it is expanded, in one run of the compiler or in several, the generated code is the same token for token, the text printed for `%verbose` is the same, and a specification that is rejected (also one that breaks several rules at once, or has many conflicts) gives the same error message at the same place. Builds are reproducible.",
 ["programs","configurations"],"every specification, accepted or rejected, and every repetition of its expansion within and across compiler runs",
 "Each test specification is expanded once per build and the text of the expansion is never looked at; order taken from a randomly seeded hash map shows only when two builds are compared.",
 [M,L],[("hash maps of optional symbols and of types",M+" parse_one_decl(Rule), generate_source"),("symbol and state numbering",M+" prepare, resort_states"),("order of the semantic checks",M+" new_from_decls, prepare, build")],
 [],[EXP])
p("C28","The generated module shows exactly the documented interface, without warnings",
 "For every accepted specification, the module's public items are `Token`, `Parser` and what `%include` makes public, nothing else. `Token` has exactly one variant per terminal, unit or with exactly its type. `Parser::new` takes the extra argument exactly when there is `%extra_argument`; `parse(&mut self, Token) -> Result<(), Error>`; `end_of_input(self)` gives `Result<Input, Error>`, or `Result<(Input, Extra), Error>` with an extra argument; `extra`, `extra_mut` and `into_extra` exist on Parser exactly with `%extra_argument` and on Token exactly with `%extra_token`; there are no other public methods. The code generated around the user's compiles in a crate that forbids unsafe code and denies the default warnings, in editions 2018, 2021 and 2024.",
 ["programs","configurations"],"every specification, with every combination of types, generics, error type, stack, extra argument and extra token, and every edition",
 "Tests call the functions with inferred types and do not look for additional items, missing variants or warnings; unused or unreachable pieces of the expansion depend on the grammar.",
 [M,L,"src/generated"],[("generated types and functions",M+" generate_source"),("lints allowed in the module",M+" generate_source (head)"),("documented interface","src/generated/with_extra_argument.rs, src/generated/without_extra_argument.rs")],
 [],[EXP,"Parser::new, parse, end_of_input, extra, extra_mut, into_extra"])
p("C29","A parser holds exactly the values on its stack, and none outlives it",
 "Payloads need not be Clone: every token and action value is moved, never duplicated, dropped early or kept. After each successful call the parser holds exactly the payloads of the tokens and nonterminals that are on its stack at that point (those of reduced symbols went to the rule's code, those of symbols popped or tokens discarded by an error were dropped). When the parser is consumed (end_of_input, into_extra) or dropped, whether it accepted, failed or was abandoned, every payload given to it has been dropped or returned exactly once.",
 ["inputs","histories","fault_sequences"],"every specification, every token sequence with syntax errors, failing actions and stack overflow at any point, and every point at which the parser is given up",
 "Tests use values without identity; a value that lingers after error recovery, or leaks when a parser fails or is given up, changes no parse result.",
 [M,L],[("stack, minors and rule code",M+" generate_source, translate_code"),("error recovery",M+" yy_parse_token_2 (template)"),("into_extra, end_of_input",M+" impl_parser")],
 [],[EXP,"Parser::parse, end_of_input, into_extra, drop"])
p("C15","Parser instances are independent: interleaving and threads change nothing",
 "Any number of parsers of the same or of different generated modules can be fed concurrently: each instance's results, actions, error reports and extra argument depend only on the tokens given to that instance, however calls to different instances are interleaved or spread over threads.",
 ["histories","schedules","inputs"],"every set of parser instances (same and different grammars, some failing or recovering from errors) and every interleaving of their parse, end_of_input and drop calls, also across threads",
 "No test uses two live parsers; independence quantifies over all interleavings.",
 [M],[("all parser state lives in the Parser struct",M+" generate_source (Parser fields)")],
 [],[PARSE])
p("C16","Directive and rule order, and re-expansion, do not change behaviour",
 "Reordering directives and rules (keeping the relative order of precedence directives and the start symbol), or adding `%verbose`, changes neither whether a grammar is accepted nor the accepted token sequences, actions and values of the generated parser. Expanding the same specification again always gives the same behaviour.",
 ["programs","inputs"],"every specification, every permutation of its declarations, and repeated expansions",
 "Each test grammar exists in one order only and is expanded once.",
 [M],[("symbol table built while reading declarations",M+" parse_one_decl, symbol_new"),("symbol index assignment",M+" prepare"),("hash map iteration over optionals and types",M+" prepare, generate_source")],
 [],[EXP,PARSE])
p("C17","Grammar size never changes behaviour",
 "The generated parser implements its grammar's LALR(1) automaton faithfully whatever the number of terminals, nonterminals, rules and states: the chosen table layout and integer widths have no effect on which inputs are accepted, which actions run, or which error is reported. In particular this holds across the 128/256/32768-entry boundaries of the encoded tables.",
 ["programs","inputs","configurations"],"grammars from a few to hundreds of symbols, rules and states, including declared but unused tokens, and token sequences over them",
 "The largest test grammar has a few dozen symbols; none comes near 128 symbols or a table offset beyond 127.",
 [M],[("table packing",M+" ActTab::insert_action_set"),("integer type selection",M+" minimum_signed_type, minimum_unsigned_type"),("state renumbering",M+" resort_states")],
 [],[PARSE])
p("C18","Invalid specifications get a compile error; the macro never panics",
 "Every specification that breaks a documented rule (duplicate unique directives, wrong symbol kinds, fallback loops or type clashes, start symbol on a right-hand side, undefined nonterminals, typed rules without code, mixed-type aliased alternatives, aliased or typed wildcard, non-empty Token/Parser declarations, and so on) is rejected with a compile error that describes the problem. Whatever tokens `pomelo!` is given, it terminates with either an expansion or such an error and never panics.",
 ["programs","inputs"],"every token sequence accepted by the Rust lexer as macro input, in particular well-formed specifications with any documented rule broken",
 "compile-fail tests hold one example per diagnostic; robustness quantifies over arbitrary macro input.",
 [M,L],[("directive and rule syntax",L+" Parse for Decl"),("semantic checks",M+" parse_one_decl, normalize_rules, find_states, configlist_closure, generate_source, translate_code")],
 [],[EXP])
p("C19","The extra argument is one piece of state seen by all code and the caller",
 "With `%extra_argument T`, the value given to `Parser::new` is what every action and every error-handling block sees through `extra`; changes made there or through `extra_mut` are visible to all later code and to `extra`, and `into_extra` and the second component of a successful `end_of_input` return exactly that value. The parser itself never changes, replaces or drops it.",
 ["programs","histories","inputs"],"every grammar with an extra argument and every interleaving of parse calls with extra, extra_mut and into_extra, including after failures",
 "Tests only read the extra value after a fixed sequence; mutation from outside between tokens and access after failures are not exercised.",
 [M],[("extra plumbing",M+" generate_source (impl_parser, yy_reduce, yy_syntax_error_2, yy_parse_failed, yy_shift)")],
 [("extra","user state","generated Parser")],["Parser::new, extra, extra_mut, into_extra, end_of_input"])
p("C20","%extra_token adds the common value to every token and its accessors",
 "With `%extra_token E`, every terminal declared with type T carries `(E, T)` and every other terminal carries `E`, nonterminals being unchanged; actions see these values through their aliases. `Token::extra`, `extra_mut` and `into_extra` give exactly the E component of any token, and changing it leaves the rest of the token unchanged.",
 ["programs","inputs"],"every grammar with an extra token type, every terminal of it and every payload, including tokens in error reports",
 "extra_token.rs uses one grammar and calls only into_extra, in a place that is not reached.",
 [M],[("terminal type rewriting",M+" prepare (extra_token)"),("accessors",M+" generate_source (token_extra)")],
 [],["Token::extra, extra_mut, into_extra",PARSE])
p("C21","Module, include, Token and Parser customisation is honoured, also in no_std",
 "The generated module has the name given by `%module`, contains the `%include` items, and its `Token` and `Parser` types carry the attributes, visibility, generics and where-clauses given by `%token`, `%parser` and `%type` attributes; generic arguments of Token extend to Parser by default. None of this changes parsing behaviour, and with a custom stack type the module compiles in a `no_std` crate.",
 ["configurations","programs"],"every combination of module name, includes, derives, visibilities, variant attributes, lifetime/type generics and where-clauses, with std and no_std crates",
 "A few fixed compile-only examples exist, none of them no_std.",
 [M,D],[("Token and Parser declarations",M+" generate_source (yytoken, yyparser, generics)"),("module wrapper",L+" pomelo_impl2"),("no_std paths",M+" generate_source (::core paths)")],
 [],[EXP,PARSE])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
