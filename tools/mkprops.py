import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[dict(name=a,meaning=b,where=c) for a,b,c in state],
        "mechanism":[dict(name=a,where=b) for a,b in mech],
        "observe_at":list(observe),"hook_needed":hook}})
PS="src/parser.rs"; CX="src/context.rs"; XP="src/xprs.rs"; SI="src/element/simplify.rs"; EL="src/element/mod.rs"
p("C01","Parsing and using what was parsed never panics, aborts or hangs",
 "For every input text and context, parsing returns an expression or an error; it never panics, aborts the process or runs forever. Displaying, cloning, comparing, simplifying, binding and evaluating an accepted expression, and rendering an error, don't panic either, unless a function supplied by the user does or eval_unchecked lacks a variable.",
 ["inputs","configurations"],"every input string (any Unicode text, any nesting), every context, each of the 8 builds (toolchain x pemdas/pejmdas x compile-time optimizations)",
 "The tests parse some dozens of well-chosen strings; nothing bounds what an arbitrary byte sequence, a truncated expression or a multi-byte character makes the cursor arithmetic do.",
 [PS,EL,XP],[("ParserImpl::element/atom/parse_arguments","recursive descent over bytes in src/parser.rs"),("ParseError constructors","offset arithmetic in src/parser.rs")],
 [("cursor","position in the input","ParserImpl::cursor")],["Parser::parse","Xprs::try_from","Display","Xprs::eval","miette::Report"])
p("C02","An expression is grouped by the documented precedences, in each mode",
 "An input is accepted exactly when it is an expression of the documented grammar, and it means the expression in which `^` binds tightest, then unary signs, then `*`, `/`, `%`, then `+`, `-`, operators of equal precedence associate to the left, a postfix `!` applies to the atom before it, and parentheses and function calls group. A juxtaposition (implicit multiplication) is a multiplication with the precedence of `*` with `pemdas`, and binds tighter than `*` and `/` but less than `^` with `pejmdas`.",
 ["inputs","configurations"],"every sequence of tokens, in both precedence modes",
 "Tests fix the grouping of a few combinations; the number of interleavings of operators, signs, factorials, juxtapositions and parentheses is unbounded and differs per mode.",
 [PS,"src/utils/precedence.rs","src/token/operator.rs"],[("precedence climbing","ParserImpl::element, get_operator_infos"),("precedences","src/utils/precedence.rs")],
 [("precedence","operators that bind no tighter end an element","argument of ParserImpl::element")],["Parser::parse","Xprs::eval"])
p("C03","Number literals denote the nearest double; malformed ones are rejected",
 "A run of digits, `_` and at most one `.`, with at least one digit, followed by an optional exponent (`e` or `E`, an optional sign, digits), is one number, whose value is the IEEE double nearest to the decimal it writes, ignoring `_`. An `e` that no digit (or sign and digit) follows isn't an exponent but the constant or a name that multiplies the number; a run with several dots or no digit is a malformed number; a number directly followed by another number, whitespace aside, is an error.",
 ["inputs"],"every literal, alone and next to every other token",
 "Tests use a handful of literals; the boundary between a literal, an exponent, the constant `e`, identifiers and juxtaposed numbers depends on up to three bytes of lookahead at every position.",
 [PS],[("parse_number","src/parser.rs"),("is_after_number","src/parser.rs")],[("number_end","end of the last number","ParserImpl::number_end")],["Parser::parse","Xprs::eval"])
p("C04","Names resolve by longest match: context, then built-ins, then variables",
 "A name is the longest run of ASCII letters, digits, `_` and `'` that starts with a letter (so `xy` is one name, not a product), case matters, and it stands for what the parser's context defines it as, else for the built-in constant or function of that name, else for a variable. A name that stands for a function has to be followed by `(`, and one that doesn't is multiplied by a `(` that follows it.",
 ["inputs","histories"],"every name and every context, including contexts that redefine built-ins",
 "Tests look up a few names in a few contexts; prefixes of built-ins, shadowed built-ins, primes, digits and case give unboundedly many names.",
 [PS,CX,"src/token/identifier.rs"],[("parse_identifier","src/parser.rs"),("Identifier::from_str","src/token/identifier.rs"),("Context::get","src/context.rs")],(),["Parser::parse","Xprs::vars","Xprs::eval"])
p("C05","Functions get exactly their arguments, in order; wrong counts are errors",
 "A call of a function with a fixed number of parameters is accepted exactly when it has that many arguments, and a variadic one with any number of them, none included. Whenever a function supplied by the user is invoked, it gets the values of the arguments of that call, all of them, in the order in which they were written, however the function was made (constructor or macro, static or dynamic); without optimizations, evaluating invokes each call once.",
 ["inputs","configurations"],"every call, with every arity from 0 to 9 and more arguments, nested calls included",
 "Tests call one- and two-parameter functions; nothing checks each arm of the macro, arity 0, long argument lists or nested calls with wrong counts.",
 [PS,"src/token/function.rs","src/element/function_call.rs",XP],[("arity check","parse_identifier in src/parser.rs"),("xprs_fn!","src/token/function.rs"),("argument evaluation","eval_element in src/xprs.rs")],(),["calls received by user functions","Parser::parse"])
p("C06","Whitespace between tokens never changes the meaning",
 "Inserting, removing or changing ASCII whitespace (space, tab, line feed, form feed, carriage return) between two tokens, before the first or after the last one, as long as tokens don't run together, changes neither whether an input is accepted, nor what it evaluates to, nor its variables, nor the error that is reported for it, positions aside. Whitespace inside a number or a name separates it in two tokens.",
 ["inputs"],"every token sequence and every way to space it",
 "Tests use conventional spacing; every place where the parser looks ahead has to skip whitespace, and a forgotten one shows only with unusual spacing.",
 [PS],[("next_trim / consume_if_eq / is_after_number","src/parser.rs")],(),["Parser::parse"])
p("C07","A parse error names the first problem and points at it",
 "A rejected input gives one error that tells the first problem, reading from the left (unexpected end, unexpected token, illegal character, missing `(` or `)`, malformed number, missing, too few or too many arguments), and quotes the offending character or number as it stands in the input, multi-byte characters included. The error carries the input, and exactly one label, which lies inside the input on character boundaries, at the place where that problem was found. Its help tells which token to add, or how many arguments to add or to remove (expected and actual number differ by as many).",
 ["inputs"],"every rejected input, non-ASCII text included",
 "Tests compare a few messages and spans; positions are computed by byte arithmetic from the cursor for every kind of error and nesting.",
 [PS],[("ParseError constructors, Diagnostic::labels","src/parser.rs")],[("span, src","what the label shows","ParseError")],["Display of ParseError","Diagnostic::labels","Diagnostic::source_code"])
p("C08","Evaluating computes the IEEE double semantics of the expression",
 "Evaluating an expression that wasn't simplified gives, for every assignment of doubles (infinities, NaN and signed zeros included), exactly the double that applying IEEE-754 `+ - * /`, the remainder `%` (truncated), the standard library's `powf` for `^`, the factorial for `!`, and the functions, to the values of the operands gives. eval, eval_unchecked, eval_no_vars and eval_no_vars_unchecked agree whenever they are applicable, and evaluating again gives the same result.",
 ["inputs"],"every expression and every assignment",
 "Tests evaluate ordinary finite values; the four evaluators are separate recursive functions whose arms may differ for an operator or for special values no test uses.",
 [XP,"src/utils/factorial.rs"],[("eval_element, eval_element_unchecked","src/xprs.rs")],(),["Xprs::eval","Xprs::eval_unchecked","Xprs::eval_no_vars"])
p("C09","An expression needs exactly its reported variables to evaluate",
 "For every expression, parsed or simplified, evaluation succeeds exactly when all the variables in its reported set are provided: additional ones change nothing, and if some are missing the error names one of the missing ones. For an expression that wasn't optimized or simplified, the reported set is the set of the variables in the input; otherwise it is a subset of those still free.",
 ["inputs","histories"],"every expression, every subset of its variables, after every sequence of simplifications",
 "Tests check a couple of variable sets; the set is stored beside the tree and has to follow it through parsing, optimization and each way to simplify.",
 [XP,EL,PS],[("find_variables, update_vars","src/element/mod.rs, src/xprs.rs")],[("vars","the reported variables","Xprs::vars")],["Xprs::vars","EvalError"])
p("C10","Compile-time optimizations don't change what an expression means",
 "With the optimizations enabled the same inputs are accepted, with the same errors, and an accepted expression evaluates to the same number (the sign of a zero aside) for every assignment for which evaluating it without optimizations gives NaN at no step and doesn't depend on the sign of a zero that was computed (as when dividing by it). An expression without variables becomes a single number, identical to what evaluating it gives.",
 ["inputs","configurations"],"every expression and every assignment for which the unoptimized evaluation has no NaN and doesn't depend on the sign of a computed zero, on both toolchains (nightly has more rewrite rules)",
 "The tests compare some dozens of expressions rule by rule and mostly assert the rewritten tree, so that a wrong rule is asserted, not found; whether a rule is sound for all operands is a statement about all values.",
 [SI,PS],[("Simplify for BinOp/UnOp/FunctionCall","src/element/simplify.rs")],(),["Parser::parse with compile-time-optimizations","Xprs::eval"])
p("C11","Simplifying for a variable is the same as giving it that value",
 "Simplifying an expression for some variables and evaluating the result for the other ones gives the same number (the sign of a zero aside) as evaluating the expression with all of them, whenever that gives NaN at no step and doesn't depend on the sign of a zero that was computed; the order doesn't matter, the first value given for a variable counts, names that don't occur change nothing, and the variables bound aren't needed any more. simplify_for, simplify_for_in_place, simplify_for_multiple and simplify_for_multiple_in_place agree, and simplifying a copy doesn't change the original.",
 ["inputs","histories"],"every expression, every sequence of bindings and every split of an assignment between simplification and evaluation",
 "Tests simplify a few expressions once; sequences of partial substitutions interact with every rewrite rule.",
 [SI,XP],[("simplify_for*","src/xprs.rs, src/element/simplify.rs")],[("root, vars","the expression","Xprs")],["Xprs::simplify_for*","Xprs::eval"])
p("C12","Binding accepts exactly sufficient names and maps values by position",
 "bind, bind2 to bind9, bind_n and bind_n_runtime succeed exactly when the (distinct) names given include all the variables that the expression reports; otherwise the error lists exactly the missing ones, in the singular or plural form. The resulting function gives, for values in the order of the names, what evaluating with that assignment gives, unneeded names being ignored; the one of bind_n_runtime ignores excess values and returns an error that names a variable when too few are given.",
 ["inputs"],"every expression, every list of names (permuted, too many, too few) and values, for each bind function",
 "Tests bind one or two of the eleven functions with one order of the names.",
 [XP],[("bind...bind_n_runtime, BindError::from_diff","src/xprs.rs")],(),["Xprs::bind*","BindError"])
p("C13","A context gives each name the last value set; copies are independent",
 "After any history of set_var, with_var, set_fn, with_fn, with_symbols (which replaces all symbols), set_/with_expected_vars and copies, looking a name up gives what was last set for it in that context, a variable and a function of the same name replacing each other, and nothing for other names. A parser uses its own context as it is when it parses: changing a copied context, or the parser's later, changes neither expressions parsed before nor other parsers, and built-ins that aren't redefined keep their meaning. Comparing contexts (or parsers) is symmetric, a context equals its copy until one of them changes, and contexts that don't give the same names the same meaning or don't declare the same variables aren't equal (variables that are NaN aside).",
 ["histories"],"every history of context, parser and parse operations over several contexts and parsers",
 "Tests build one context and parse once; they never interleave changes, copies and parses.",
 [CX,PS],[("symbols map","src/context.rs"),("Parser::ctx_mut","src/parser.rs")],[("symbols","meaning of names","Context::symbols"),("expected_vars","declared variables","Context::expected_vars")],["Context::get","Parser::parse","Xprs::eval"])
p("C14","With declared variables, exactly the undeclared ones are rejected",
 "If a context declares the expected variables, a well-formed input is accepted when all of its variables are declared, and rejected with an error that names one of its undeclared variables when the resulting expression needs a variable that isn't declared; names the context defines, constants and functions needn't be declared. The error's help lists the declared names. Without a declaration every variable is accepted, the last declaration counts, and an empty one allows no variable.",
 ["inputs","histories"],"every expression and every set of declared names, set and replaced in any order",
 "Tests declare one set and try two inputs.",
 [PS,CX],[("check against expected_vars","Parser::parse in src/parser.rs")],[("expected_vars","declared variables","Context::expected_vars")],["Parser::parse"])
p("C15","Results depend only on the inputs, whatever happened before or at once",
 "Parsing, simplifying and evaluating give results that depend only on the text, the context and the values given: repeating an operation, doing others before, or doing the same and others concurrently from several threads with shared parsers and expressions, gives the results that each alone would give.",
 ["schedules","histories"],"every interleaving of operations on shared parsers, contexts and expressions by several threads, and every preceding history",
 "The thread-safety test only checks that types are Send and Sync and runs one expression; hidden shared state would show under some histories and schedules only.",
 [PS,XP,"src/token/function.rs"],[("no shared mutable state; &self methods","src/parser.rs, src/xprs.rs"),("Arc of dynamic functions","src/token/function.rs")],(),["Parser::parse","Xprs::eval","Xprs::simplify_for_multiple"])
p("C16","A displayed expression reads back as the same expression",
 "The text an expression displays as is accepted by the parser that made it and gives an expression that evaluates to the same value for every assignment and needs the same variables, as long as its numbers are finite and its functions are known to that parser under the names they have. This holds for parsed, optimized, simplified and re-read expressions.",
 ["inputs","histories","configurations"],"every accepted expression in both modes, with and without optimizations, and after simplifications (whenever evaluation is finite)",
 "Tests compare a few displayed strings; whether parentheses are sufficient depends on every pair of nested constructs, negative numbers and the precedence mode.",
 ["src/element/binop.rs","src/element/unop.rs","src/element/function_call.rs",EL],[("Display","src/element/*.rs")],(),["Display of Xprs","Parser::parse"])
p("C17","Equality is structural up to swapping operands of + and *",
 "Comparing is reflexive (NaN aside) and symmetric, and without optimizations two expressions are equal exactly when they have the same structure and the same numbers (0 and -0 being the same), variables, operators and functions, where the operands of each `+` and `*` (and of no other operator) may be swapped. Expressions that compare equal evaluate to the same number for every assignment for which both evaluations are finite throughout, and a copy equals its original.",
 ["inputs"],"every pair of expressions",
 "Tests compare a few pairs; nested swaps and the non-commutative operators give unboundedly many pairs.",
 ["src/element/binop.rs",EL,XP],[("PartialEq for BinOp","src/element/binop.rs")],(),["PartialEq of Xprs"])
p("C18","Built-in constants and functions compute what they are named for",
 "`pi` and `e` are the nearest doubles, each built-in function is available under its documented names with its arity and gives for all doubles what the standard library function of that meaning gives (`log` base 10, `ln` natural, `logn(x, base)`, `fract`, `min`, `max`, `sum`, `mean` over any number of arguments, `recip` and `invert` the reciprocal, ...). The factorial (`!` and `factorial`) is n! for the integers n from 0 to 170 (the product 1*2*...*n, multiplied in this order in doubles), infinite for larger ones and infinity, and NaN for negative and fractional numbers and NaN.",
 ["inputs"],"every built-in, every number of arguments and every double (special values, integers, halves, huge and tiny ones)",
 "Tests call a few functions at one point each; a swapped entry or a wrong table row is visible at some arguments only.",
 ["src/token/identifier.rs","src/utils/built_in_functions.rs","src/utils/factorial.rs"],[("name table","src/token/identifier.rs"),("FACTORIALS","src/utils/factorial.rs")],(),["Xprs::eval"])
p("C19","A bound expression used as a function acts as its body, substituted",
 "If an expression is bound to a list of names and the result is put in a context as a function, calling it in other expressions evaluates the first expression with the values of the arguments in the place of the names, whatever variables, functions or contexts the calling expression uses, and to any depth of such definitions. The names of the parameters and those of the caller's variables never interfere.",
 ["inputs","histories"],"every pair (chain) of definitions and callers with overlapping names",
 "One example binds a two-variable expression and calls it once.",
 [XP,"src/token/function.rs",CX],[("bind* closures, Function::new_dyn","src/xprs.rs, src/token/function.rs")],(),["Xprs::eval of the calling expression"])
p("C20","The REPL answers every line and ends on `exit` or at the end of input",
 "The REPL reads lines; for each one it either reports a parse error or prints the expression, asks once for each variable that the expression needs and prints its value for the numbers answered, and lines don't influence each other. It ends, after having answered all the lines before, at a line `exit` or at the end of the input, with success, and never loops or fails (as long as a variable is answered with a number).",
 ["histories"],"every sequence of lines (expressions with any number of variables, errors, blank lines), ended by `exit` or by the end of the input",
 "There is no test of the REPL.",
 ["src/bin/repl.rs"],[("main loop, ask_for_variables","src/bin/repl.rs")],[("input","the line buffer that is reused","main in src/bin/repl.rs")],["stdout and exit status of the repl program"])
p("C21","A panic in a user function leaves all objects intact and usable",
 "If a function supplied by the user panics while an expression is parsed (with optimizations), evaluated, simplified or called through a binding, the panic reaches the caller; the parser, the context and the expression involved are then unchanged, can be used again with the results they would have given before, and are freed once.",
 ["fault_sequences","histories"],"every operation that invokes user functions, every call at which it panics, followed by every use of the objects",
 "No test lets a function panic; a panic in the middle of an in-place simplification is a fault at a point that no ordinary input reaches.",
 [XP,SI],[("simplify_for_in_place clones before it replaces","src/xprs.rs")],[("root","the expression being replaced","Xprs::root")],["Xprs::simplify_for_in_place","Xprs::eval","allocator"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), max(len(x["title"]) for x in P))
