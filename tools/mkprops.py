import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

EV="prexel/src/evaluator.rs"; TK="prexel/src/tokenizer.rs"; CX="prexel/src/context.rs"; SP="prexel/src/utils/splitter.rs"
p("P01","Precedence, associativity and grouping decide the value",
 "For every well-formed expression over any table of binary operators, evaluation applies each operator to exactly the left and right operands that the registered precedences (higher binds tighter), associativities (for equal precedence) and explicit grouping dictate, in written order. Redundant grouping never changes the value, and the three bracket kinds `()`, `[]`, `{}` group interchangeably.",
 ["programs","configurations"],"all well-formed expressions x all operator tables (any precedence, associativity, names, user-defined operators included)",
 "Tests evaluate a few dozen fixed expressions with the built-in five operators; the claim is over every expression shape and every operator table, including equal precedence with mixed associativity and user-registered operators.",
 [EV],[("shunting yard operator stack",EV+": shunting_yard::push_binary_function"),("RPN evaluation order of operands",EV+": rpn_eval"),("group close unwinding",EV+": push_grouping_close")],
 [("operators","pending operators/groups","local of infix_to_rpn"),("output","RPN emitted so far","local of infix_to_rpn")],
 ["Evaluator::eval with a symbolic number type that records the applied operation tree","evaluator::infix_to_rpn output"])
p("P02","Only well-formed expressions are accepted, and all of those are",
 "A text or token sequence that is not a well-formed expression - a missing or surplus operand, an operator without its operand, unbalanced, mismatched or empty grouping, a comma outside a call or misplaced in it, a function without its parenthesised arguments, an unknown name or character - always yields an error, never a value. Every well-formed expression is accepted by tokenization and conversion.",
 ["programs","inputs","configurations"],"all token sequences and all texts, in every configuration (implicit multiplication on/off, custom call brackets on/off)",
 "Tests list about twenty malformed strings; a shunting-yard converter silently reorders operands, so acceptance errors hide in the combinations nobody listed.",
 [EV,TK],[("operand/operator position checks, comma and empty-group checks",EV+": infix_to_rpn, check_comma_position"),("single value left on the stack",EV+": rpn_eval"),("unknown tokens",TK+": tokenize")],
 None,["Evaluator::eval","Evaluator::eval_tokens","evaluator::infix_to_rpn"])
p("P03","A function receives exactly its written arguments, in order",
 "Every call passes its function exactly the values of the argument expressions written between its parentheses - as many, and in the same left-to-right order - at any nesting depth, with zero arguments passing none. Operands outside the call are never consumed by it and the call contributes exactly one value to the surrounding expression.",
 ["programs"],"all expressions with nested, adjacent, zero-, one- and many-argument calls, groups inside arguments and operators around calls",
 "Tests call a handful of one-level functions; argument counting is shared state across nested calls and groups, so only structure-exhaustive inputs settle it.",
 [EV],[("argument counting",EV+": push_comma, push_grouping_close (ArgCount)"),("argument popping",EV+": rpn_eval Function arm")],
 [("arg_count","stack of argument counts of open calls","local of infix_to_rpn")],["arguments recorded by functions registered in the context"])
p("P04","Unary operators attach to the right operand",
 "An operator registered both as prefix unary and binary is read as binary exactly when an operand ends directly before it and as unary otherwise, and a postfix operator is read as postfix exactly when an operand ends directly before it; a prefix operator applies to the operand (number, name, group or call) directly after it before any postfix or binary operator does, and a postfix operator applies to the operand directly before it. Chains of unary operators apply inside-out and no unary operator ever reaches across a binary operator, a comma or a bracket.",
 ["programs","configurations"],"all expressions mixing prefix, postfix and binary operators, including word operators and operators outside ASCII",
 "Tests show a few sign expressions; the decision depends on the previous token's class and on the whole operator stack.",
 [TK,EV],[("unary/binary decision",TK+": is_unary"),("prefix binding",EV+": push_number, push_unary_function"),("postfix emission",EV+": push_unary_function")],
 None,["Evaluator::eval with symbolic numbers","Tokenizer::tokenize"])
p("P05","Implicit multiplication means explicit `*`, and only when enabled",
 "With implicit multiplication enabled, a number or a closing bracket directly followed by a name, a call or an opening bracket (or, after a closing bracket, a number) evaluates exactly as if `*` were written between them. With it disabled every such juxtaposition is an error, and any other juxtaposition of operands is an error in both settings.",
 ["programs","configurations"],"all expressions with juxtaposed operands, in both settings, with any precedence of `*` and of its neighbours",
 "Tests cover single juxtapositions with no neighbouring operators, so a wrong precedence of the inserted operator is invisible to them.",
 [EV],[("implicit `*` insertion",EV+": infix_to_rpn `implicit_mul` block"),("switch",CX+": Config::implicit_mul")],None,["Evaluator::eval with symbolic numbers"])
p("P06","Splitting is lossless maximal munch and whitespace only separates",
 "Splitting a text yields, in order and with no character other than whitespace lost, duplicated or reordered, the longest run of each lexical class (number with at most one point, identifier, operator run; a comma, a bracket or any other character stands alone). Adding or removing whitespace between two tokens that do not merge lexically never changes the tokens or the value.",
 ["inputs"],"all texts over the lexical classes, including repeated points, adjacent operators, commas next to operators and non-ASCII characters",
 "Tests split about ten fixed strings.",
 [SP,TK],[("rules",SP+": rules::SplitNumeric, SplitIdentifier, SplitOperator, SplitWithOperators, SplitBinary, SkipWhitespace"),("rule driver",SP+": DefaultSplitter::split_into_tokens")],None,["Splitter::split_into_tokens","Tokenizer::tokenize"])
p("P07","Names resolve in a fixed order, with the documented case rules and aliases",
 "Each token is a number if the number type parses it, else a variable, a constant, a function, an operator, a comma or a bracket, in that order; variables match exactly, while constants, functions and operators match ignoring letter case, in any script. An alias always denotes the very function or operator it was registered for, and in complex mode a number directly followed by the imaginary unit is one imaginary literal.",
 ["inputs","configurations"],"all contexts (overlapping names, mixed case, non-ASCII names, aliases) x all texts",
 "Tests resolve a few fixed names in the default contexts; overlap between the name spaces and non-ASCII case folding are never exercised.",
 [TK,CX,"prexel/src/utils/ignore_case_string.rs","prexel/src/utils/ignore_case_str.rs"],[("classification order",TK+": tokenize"),("case-insensitive keys","prexel/src/utils/ignore_case_string.rs: Eq/Hash"),("lookup",CX+": get_variable/get_constant/get_function/...")],None,["Tokenizer::tokenize","Context::get_*","Evaluator::eval"])
p("P08","Context registrations never clobber or half-apply",
 "After any history of registrations, a name is never both a variable and a constant (ignoring case); setting a variable returns the value it replaced, constants and variables read back the last value stored, and a function or operator name or alias keeps its first meaning. A registration that is refused (clash or invalid name) reports an error - it does not panic - and leaves the context exactly as it was.",
 ["histories"],"all finite sequences of set_variable/add_constant/add_function/add_unary_function/add_binary_function (with aliases and `_as` names) and lookups",
 "Tests perform one or two registrations each; the guarantee is about arbitrary histories and about the state after failures.",
 [CX],[("mutual exclusion of names",CX+": add_constant, set_variable"),("duplicate detection",CX+": add_function_as, add_unary_function_as, add_binary_function_as"),("name validation",CX+": validate::check_token_name")],
 [("variables/constants/functions/unary/binary","name tables",CX+": DefaultContext")],["Context getters, DefaultContext::variables()/constants()/functions()"])
p("P09","Evaluation is a pure function of text and context",
 "Evaluating an expression never changes the context or any later result: in every history of evaluations (successful or failing) interleaved with context changes, each evaluation returns exactly what a fresh evaluator with the current context returns. Cloned contexts evolve independently.",
 ["histories"],"all interleavings of eval, eval_tokens, set_variable, add_constant and registrations on one evaluator and its clones",
 "Tests evaluate each expression once on a fresh evaluator; residue left by earlier or failed evaluations cannot show.",
 [EV,CX],[("no interior state",EV+": Evaluator::eval"),("variable lookup at evaluation time",EV+": rpn_eval"),("clone",CX+": DefaultContext: Clone")],None,["Evaluator::eval results along a history, DefaultContext tables"])
p("P10","Evaluation is total: every text gives a value or an error, promptly",
 "For every text whatsoever, tokenizing and evaluating it in any of the shipped contexts that promise errors instead of exceptions (checked integers and floats, decimal, complex, binary) returns a value or an error. It never panics, aborts or runs without end.",
 ["inputs","configurations"],"all texts (arbitrary Unicode, deep nesting, extreme literals, every built-in function with extreme arguments) x shipped contexts",
 "Tests feed well-behaved input; panics and endless loops sit at extreme values and at malformed or non-ASCII text.",
 [EV,TK,"prexel/src/ops/mod.rs","prexel/src/decimal/decimal_ext.rs","prexel/src/binary/mod.rs"],[("checked operations","prexel/src/ops/checked.rs"),("error propagation",EV+": rpn_eval"),("iteration bounds","prexel/src/decimal/decimal_ext.rs, prexel/src/ops/mod.rs: Factorial")],None,["outcome class of Evaluator::eval under catch_unwind and a watchdog"])
p("P11","Checked integer arithmetic is exact or an error",
 "In the checked context, for every built-in integer type and all operands, `+ - * / mod`, negation, `!`, abs, sum, product, avg, max and min return the mathematically exact (for `/` and avg: truncated) result when it and every running total or product (and for avg the number of arguments) fits the type, and otherwise an error - overflow, or division by zero for a zero divisor - never a wrapped value or a panic. (The least value mod -1 counts as an overflow, like its quotient.) The same holds for user types that obtain their arithmetic from the crate's field-forwarding macros.",
 ["inputs"],"all operand values of i8..i128, isize (unsigned types through the operator objects), all argument lists",
 "Tests use one small and one overflowing pair per operator; boundary values, results within one of the limits and intermediate overflow are not covered.",
 ["prexel/src/ops/checked.rs","prexel/src/ops/mod.rs","prexel/src/num.rs","prexel/src/numeric_traits/mod.rs"],[("checked traits","prexel/src/num.rs: impl_checked_ops!, impl_checked_binary!"),("operators","prexel/src/ops/checked.rs"),("factorial","prexel/src/ops/mod.rs: Factorial"),("forwarding macros","prexel/src/numeric_traits/mod.rs")],None,["BinaryFunction/UnaryFunction/Function::call","Evaluator::eval"])
p("P12","Decimal arithmetic is exact where representable, else an error",
 "In the decimal context `+ - * /`, `mod`, negation, integer powers, factorials of whole numbers, sum, product, avg, max, min, floor, ceil, truncate and round return the exact decimal result whenever it (and every running total or product) has a representation within the type's 28 digits, and otherwise a decimal next to it. A result beyond the largest decimal, a zero divisor, or zero to a negative power is an error, never a panic or a wrong number.",
 ["inputs"],"all pairs and lists of decimals, mixed scales and signs, values next to the limits",
 "Tests check single values of each function; sign, scale and limit combinations are unexplored.",
 ["prexel/src/decimal/mod.rs","prexel/src/decimal/decimal_ext.rs"],[("operators","prexel/src/decimal/mod.rs: math_ops"),("powers and factorial","prexel/src/decimal/decimal_ext.rs: checked_powi, checked_factorial")],None,["BinaryFunction/Function::call on Decimal","Evaluator::eval"])
p("P13","Complex literals and arithmetic follow complex algebra",
 "In the complex context, literals such as `3`, `2.5i`, `i` and sums of them denote the obvious complex numbers, and `+ - * /`, sums, products and powers with small whole exponents of complex numbers with integer parts give the exact complex-algebra result (up to floating rounding where a quotient or power is not exactly representable). Division by zero is an error.",
 ["inputs","programs"],"all expressions over Gaussian integers of moderate size and the imaginary unit",
 "Tests evaluate a dozen complex expressions.",
 ["prexel/src/complex/mod.rs",TK],[("imaginary literal merging",TK+": tokenize complex_number branch"),("context","prexel/src/complex/mod.rs: new_complex"),("operators","prexel/src/complex/mod.rs: ops, ops/unchecked.rs")],None,["Evaluator::eval on Complex<f64>"])
p("P14","The binary context computes bitwise logic exactly",
 "In the binary context every literal (`b` followed by binary digits, or decimal digits) denotes its value, `~ & | ^ << >>` are the two's-complement bit operations on 128-bit integers and `== != < <= > >=` yield 1 or 0, under every alias (`not and or xor shl shr eq equal ne no_equal lt lte gt gte`) and with the precedences the operators declare. A shift by a negative amount or by 128 or more is an error, and the displayed text of a non-negative result, prefixed with `b`, reads back as the same number.",
 ["inputs","programs"],"all literals, operand pairs, aliases and expressions of the binary context",
 "Tests check each operator on one or two operand pairs.",
 ["prexel/src/binary/mod.rs",SP],[("operators","prexel/src/binary/mod.rs: math"),("literals","prexel/src/binary/mod.rs: FromStr/Display"),("splitter",SP+": rules::SplitBinary")],None,["Evaluator::eval on Binary with binary_number_splitter"])
p("P15","Built-ins have a fixed arity and each shipped context its fixed vocabulary",
 "Every built-in function accepts exactly its number of arguments (one; one or two for log, and for atan in float, integer and decimal contexts; at least two for max and min; at least one for sum, product and avg; zero to two for random) and answers any other count with an invalid-argument-count error. Each shipped context registers exactly its documented constants, operators (with their precedence, associativity and notation) and functions, and nothing shadows anything.",
 ["inputs","configurations"],"all built-in functions of every shipped context x all argument counts; all shipped contexts",
 "Tests call the functions with the right counts only and never enumerate a context.",
 ["prexel/src/ops/mod.rs","prexel/src/decimal/mod.rs","prexel/src/complex/mod.rs",CX],[("argument count checks","prexel/src/ops/mod.rs forward_func_impl! and friends"),("registration",CX+": with_config_checked/unchecked; decimal/complex/binary with_config_*")],None,["Function::call with n arguments","DefaultContext::functions()/binary_functions()/..."])
p("P16","Built-in functions satisfy the identities their names promise",
 "In the float, decimal and complex contexts the named functions satisfy, within rounding, their defining identities at every argument in their domain: reciprocal pairs (csc, sec, cot and hyperbolic ones), Pythagorean and quotient identities with angles in degrees for real contexts, each inverse undoing its function, exp/ln/log/sqrt/power laws, rounding functions bracketing their argument, and factorial's recurrence; the arithmetic operators and sum, product, avg, max and min of the float contexts give their exact value within rounding. In the integer contexts the functions give the real value with its fraction cut off, or an error when the type cannot hold it. Outside the domain they return an error (ln, sqrt, csch, coth and powers of floats, and the complex functions, may give a non-finite number instead), never an ordinary wrong number. The methods of the exported DecimalExt (angles in radians, None for an error) and gamma, called directly, keep the same identities.",
 ["inputs"],"all arguments on a grid over each function's domain, in each context",
 "Tests compare a few sample points with constants, and several functions are tested at none.",
 ["prexel/src/ops/mod.rs","prexel/src/decimal/mod.rs","prexel/src/decimal/decimal_ext.rs","prexel/src/complex/mod.rs"],[("trigonometry","prexel/src/ops/mod.rs: trig_ops; prexel/src/decimal/mod.rs: trig_ops"),("decimal series","prexel/src/decimal/decimal_ext.rs")],None,["Function::call through Evaluator::eval"])
p("P17","All evaluation entry points and stages agree",
 "Evaluating a text equals evaluating its token list, and both equal running the converted postfix sequence; the public conversion returns precisely the postfix order of the expression's structure with one argument-count marker directly before each function, containing only operands, operators and calls, or an error. Custom splitters and tokenizers that produce the same tokens, and a caller's own Context with the same contents, give the same results.",
 ["programs","configurations"],"all texts and token sequences, in every configuration and number type",
 "Tests check each stage in isolation on different expressions.",
 [EV,TK],[("stages",EV+": Evaluator::eval, eval_tokens, rpn_eval, infix_to_rpn"),("tokenizer",TK+": Tokenizer::tokenize, with_splitter")],None,["Evaluator::eval, Evaluator::eval_tokens, evaluator::infix_to_rpn, evaluator::rpn_eval"])
p("P18","Case-insensitive keys are a consistent equivalence with order and hash",
 "Case-insensitive strings compare equal exactly when they are the same text up to letter case, in any script; equality is an equivalence, agrees with the ordering, and equal keys always hash alike. Hence a table keyed by them finds an entry under every spelling of its name and never holds two entries for one name.",
 ["inputs"],"all pairs and triples of Unicode strings, owned and borrowed forms",
 "Tests compare three pairs and never hash.",
 ["prexel/src/utils/ignore_case_str.rs","prexel/src/utils/ignore_case_string.rs"],[("comparison","prexel/src/utils/ignore_case_str.rs: partial_cmp_by"),("hash","prexel/src/utils/ignore_case_str.rs, ignore_case_string.rs: Hash")],None,["==, cmp, Hash of IgnoreCaseStr/IgnoreCaseString; HashMap lookups"])
p("P19","A REPL session is a faithful history machine",
 "In an interactive session the line submitted on Enter is exactly what was typed or recalled; Up and Down walk the retained history (the most recent distinct-in-a-row non-blank lines, at most the configured number) without ever leaving it or crashing. Every evaluated line prints its value and binds `$result` to it, assignments bind the variable, failing lines change nothing, and `exit`, Esc or an interrupt ends the session.",
 ["histories","configurations"],"all sequences of key presses, all history sizes including 0 and 1, all number types",
 "The eval crate has no tests at all.",
 ["eval/src/repl/repl.rs","eval/src/repl/mod.rs","eval/src/collections/carray.rs"],[("event loop","eval/src/repl/repl.rs: Repl::run"),("bounded history","eval/src/collections/carray.rs: CircularArray::push"),("line semantics","eval/src/repl/mod.rs: eval_loop")],
 [("buf/history/history_cursor","edit buffer, retained lines, recall position","eval/src/repl/repl.rs")],["terminal output of the real binary driven through a pseudo-terminal"])
p("P20","The command line evaluates in the chosen number type and lists its vocabulary",
 "`eval eval -t TYPE EXPR` prints on standard output exactly the value the library gives for EXPR in that type's context (implicit multiplication on, complex literals in complex mode, binary literals in binary mode), and reports an error on standard error with nothing on standard output otherwise. (An EXPR that begins with a dash follows `--`; a malformed command line is refused with a nonzero exit status and nothing on standard output.) The constants, operators and functions commands list every name registered for the chosen type, exactly once per registration (`+` is both a binary and a unary operator), constants with their values. With --no-color nothing is coloured.",
 ["inputs","configurations"],"all expressions x the five number types x the listing commands",
 "The eval crate has no tests at all.",
 ["eval/src/main.rs","eval/src/eval_expr.rs","eval/src/list.rs"],[("dispatch","eval/src/main.rs: main; eval/src/eval_expr.rs: EvalExpr::eval"),("listing","eval/src/list.rs")],None,["stdout/stderr of the real binary"])
p("P21","Server evaluations are isolated, typed and always answered",
 "Every POST /eval is answered with the value or the error of its own expression under its own variables in its own number type (decimal by default); nothing a request does - variables, failures, malformed bodies - is visible to any other request, in any interleaving over any number of connections. A malformed body (not a UTF-8 JSON object and nothing else, no expression text, an unknown type name, variables that are not texts or numbers, a field twice) is a 400 with an error, any evaluation outcome is a 200 carrying exactly one of result and error, and `only_result=true` returns the bare text of a result. The value is the one the crate the server is built on (prexel 0.1.9) computes for the question alone; where that crate panics the answer is an error.",
 ["schedules","inputs","histories"],"all interleavings of requests on concurrent connections, all request bodies and query options",
 "The server has no tests at all.",
 ["prexel-server/src/endpoints/mod.rs","prexel-server/src/services/evaluator.rs","prexel-server/src/models/mod.rs"],[("request handling","prexel-server/src/endpoints/mod.rs: eval"),("fresh context per request","prexel-server/src/services/evaluator.rs")],None,["HTTP responses of the real server on loopback"])
p("P22","The server's rate limit admits exactly its quota per client and window",
 "Within one window each client gets exactly the configured number of requests (100 per 60 seconds) answered and every further one refused with status 429, whatever the endpoint, outcome, or interleaving; the advertised remaining count decreases by one per admitted request, and a refused request is never evaluated (its answer is empty). Every answer advertises the limit, what remains, and the seconds until the window ends. A window opens with a client's first request (a client is the address it connects from, whatever its requests say and however many connections it has), and ends 60 seconds later; the next request opens a new one with the full quota.",
 ["histories","schedules"],"all sequences and interleavings of requests by one client over one or more connections",
 "The server has no tests at all.",
 ["prexel-server/src/main.rs","prexel-server/src/middlewares/rate_limiter.rs"],[("limiter","prexel-server/src/main.rs: get_rate_limiter; prexel-server/src/middlewares/rate_limiter.rs: RateLimiter::admit"),("client identity","prexel-server/src/middlewares/rate_limiter.rs: get_rate_limit_identifier")],
 [("remaining/window","quota left and window end per client","prexel-server/src/middlewares/rate_limiter.rs: RateLimiter.clients")],["HTTP status and x-ratelimit-* headers"])
p("P23","random() stays inside the requested range",
 "random() lies in [0,1) (0 in the integer contexts), random(max) in [0,max] and random(min,max) in [min,max] for all non-negative max and all min <= max, however large or close the bounds, in the float, integer, decimal and complex contexts (for complex: each part); a negative single bound, an inverted range or a non-real complex bound is an error. Repeated draws reach every quarter of the range (in the integer contexts: of a range at least 40 wide).",
 ["inputs","histories"],"all bounds, all random draws",
 "Tests draw a few values at one or two bounds.",
 ["prexel/src/ops/mod.rs","prexel/src/complex/mod.rs"],[("scaling","prexel/src/ops/mod.rs: RandFunction; prexel/src/complex/mod.rs: RandFunction")],None,["Function::call / Evaluator::eval of random"])
p("P24","The server lists the vocabulary of the requested number type",
 "GET /operators, /constants and /functions answer with every operator, constant or function registered for the number type asked for with `?type=` (decimal when none is), each exactly once per registration, with its name, aliases and description or its value, whatever was requested before and however requests interleave.",
 ["inputs","configurations","histories"],"all number types x listings x spellings of the query x histories of requests",
 "The server has no tests at all.",
 ["prexel-server/src/endpoints/mod.rs","prexel-server/src/services/info.rs"],[("dispatch","prexel-server/src/endpoints/mod.rs: get_operators, get_constants, get_functions"),("entries","prexel-server/src/services/info.rs")],None,["HTTP responses of the real server on loopback"])
p("P25","A built splitter follows its rules in order",
 "A splitter splits a text by its rules: at every position the first rule, in the order they were given (or inserted at an index), that begins with the character there takes the longest run it can, what a skipping rule takes is dropped, and a character no rule takes stands alone; nothing else is lost, added or reordered. The built-in rules are numbers (digits with at most one point), identifiers, operator runs, chosen sets of operator characters with characters added or excepted, binary literals (`b` before a 0 or 1) and whitespace (dropped when whitespace is to be removed, kept one by one otherwise). The same splitter gives the same tokens for a text whatever it split before.",
 ["inputs","configurations"],"all lists of rules, all calls on the builders, all texts",
 "Tests split a few texts with the ready-made splitters only.",
 [SP,"prexel/src/binary/mod.rs"],[("rule loop",SP+": DefaultSplitter::split_into_tokens"),("rules",SP+": rules"),("builders",SP+": DefaultSplitterBuilder, rules::SplitWithOperatorsBuilder"),("constructors",SP+": DefaultSplitter::new, with_numeric_rule, with_identifier_rule; prexel/src/binary/mod.rs: binary_number_splitter")],None,["Splitter::split_into_tokens of splitters built through the public builders"])
p("P26","The guarantees hold with every selection of optional features",
 "The crate builds with every selection of its optional features (docs, linked-hashmap, decimal, complex, binary), and what it guarantees about contexts, vocabularies, evaluation and functions - results, errors, registered names, arities, precedences, overriding - is the same whichever of them it is built with: leaving out docs removes the descriptions only, leaving out linked-hashmap the order of listings only.",
 ["configurations","inputs"],"all selections of features x the inputs and histories of the other properties",
 "The tests are built with one selection of features; the code of the others is never compiled, let alone run.",
 ["prexel/Cargo.toml",CX,"prexel/src/ops/mod.rs","prexel/src/decimal/mod.rs","prexel/src/complex/mod.rs","prexel/src/binary/mod.rs"],[("macros without docs","prexel/src/ops/mod.rs, prexel/src/decimal/mod.rs, prexel/src/complex/mod.rs: #[cfg(not(feature = \"docs\"))]"),("map type",CX+": the map of the tables with and without linked-hashmap"),("feature gates","prexel/Cargo.toml; prexel/src/lib.rs")],None,["cargo check with a selection of features; the library's public interface built with it"])
p("P27","Functions are called once each, in order; the first failure ends the evaluation",
 "Evaluating an expression calls the functions and operators it names in postfix order - operands before what takes them, left before right - each exactly once per occurrence and with the values of its own operands, until one fails; then nothing more is called, and the evaluation ends with that error, its kind and text unchanged. What is no expression calls nothing, nor do tokenizing and converting; blank text is the error Empty. The built-in operations say what went wrong: in the integer and decimal types dividing (or mod) by zero is DivisionByZero, the factorial of a negative integer is NegativeValue, and a result the type cannot hold is Overflow.",
 ["programs","histories"],"all expressions x all sets of failing functions, in every way to evaluate them",
 "Tests look at the value of an evaluation, never at which functions were called or what an error carries through.",
 [EV,"prexel/src/ops/checked.rs","prexel/src/decimal/mod.rs","prexel/src/error.rs"],[("evaluation loop",EV+": rpn_eval"),("operators","prexel/src/ops/checked.rs: DivOperator, ModOperator; prexel/src/decimal/mod.rs: ops")],None,["calls recorded by functions registered in the context; ErrorKind and text of the error of Evaluator::eval, eval_tokens, rpn_eval"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
