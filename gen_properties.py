#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements are easy to review and edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
S = "src/tomsolver/"
p("C01", "Parsed text means what the documented operator grammar says",
  "Parsing any well-formed infix expression yields an expression whose value, at every assignment of its variables, is the value the text has under the library's grammar: functions bind tightest, then prefix + and -, then %, then & and | (equal rank, left to right), then ^ (right to left), then * and / (left to right), then + and - (left to right), with parentheses overriding. The set of variable names reported for the expression is exactly the set of names written in the text, and whitespace between tokens never changes the meaning.",
  ["inputs"], "every well-formed token sequence (operators, prefix signs, functions, parentheses, names, numbers, whitespace) of any length",
  "parse_test.cpp checks about a dozen strings; precedence and associativity errors need particular pairs and triples of operators, signs and parentheses.",
  [S+"parse.cpp", S+"math_operator.cpp"], [("tokeniser, shunting-yard ordering and tree building", S+"parse.cpp"), ("rank and associativity tables", S+"math_operator.cpp")],
  observe=["Parse", "operator\"\"_f", "NodeImpl::Vpa", "NodeImpl::GetAllVarNames"])
p("C02", "Malformed text is rejected with a library error, never a crash or acceptance",
  "Parsing any text that is not a well-formed expression (unbalanced or empty parentheses, missing or misplaced operators or operands, illegal names or numbers, blank text) throws the library's parse or math error, and parsing a well-formed one does not throw. No input text makes parsing crash, hang or read outside the text, and a reported error position lies within the text.",
  ["inputs"], "every byte string",
  "The tests try six malformed strings; the malformed space is every other string, and acceptance of garbage is silent.",
  [S+"parse.cpp", S+"parse.h", S+"node.cpp"], [("token validation, parenthesis balance and operand checks", S+"parse.cpp"), ("legal variable names", S+"node.cpp VarNameIsLegal")],
  observe=["Parse", "SingleParseError::GetPos", "VarNameIsLegal", "Var"])
p("C03", "Printing an expression and parsing it back gives an equivalent expression",
  "For every expression that can be built or parsed, its printed text is accepted by the parser, and the expression read back has the same value at every assignment of the variables (up to printing accuracy of the numbers and re-association of sums and products) and the same variable names. Printing never changes the expression, and printing the re-read expression gives the same text again (or, for an expression holding negative constants, which are read back as negations, or constants as small as the last printed digit, 1e-16, the same text from the second printing on).",
  ["inputs", "programs"], "every expression tree over all operators, functions, variables and finite numbers",
  "The tests compare a few hand-written strings and random trees made only of four operators and variables/positive numbers; missing parentheses show only for particular parent/child/side combinations.",
  [S+"node.cpp", S+"config.cpp", S+"parse.cpp"], [("parenthesis decision of the printer", S+"node.cpp ToStringNonRecursively"), ("number formatting", S+"config.cpp ToString")],
  observe=["NodeImpl::ToString", "operator<<", "Parse"])
p("C04", "Numbers survive conversion to text and back",
  "Formatting any finite double gives text that the parser reads as a single number (with an optional sign), equal to the original up to an absolute error of 1e-16 or a relative error of 1e-15; the text has no superfluous trailing zeros or decimal point. A numeric literal in decimal or scientific notation is parsed as the double nearest to it.",
  ["inputs"], "every finite double and every decimal literal",
  "Only random doubles in [0,1) and a handful of literals are tried; exponents, notation switch-over points and signs are not.",
  [S+"config.cpp", S+"parse.cpp"], [("fixed/scientific switch and zero stripping", S+"config.cpp ToString"), ("literal recognition", S+"parse.cpp ParseToTokens")],
  observe=["ToString(double)", "Num", "Parse"])
p("C05", "Evaluation is compositional and honours the invalid-number policy",
  "Evaluating a variable-free expression gives the value obtained by applying each operator to the values of its operands; an expression still containing variables cannot be evaluated and throws. If some operator yields infinity or NaN then evaluation throws an invalid-number error under the default configuration and returns the floating-point result when that check is switched off; modulo by zero counts as invalid and never kills the process. In-place calculation leaves exactly that value, and on an exception leaves the expression unchanged.",
  ["inputs", "configurations"], "every variable-free expression tree over all 21 operators and every operand value, under both settings of the invalid-number switch",
  "The tests evaluate a few expressions of one or two operators with ordinary values; special values, nesting position of the invalid operation and operator/operand-order combinations are unbounded.",
  [S+"math_operator.cpp", S+"node.cpp"], [("operator semantics and validity check", S+"math_operator.cpp Calc"), ("post-order evaluation stack", S+"node.cpp VpaNonRecursively")],
  observe=["NodeImpl::Vpa", "NodeImpl::Calc", "Config::throwOnInvalidValue"])
p("C06", "Symbolic differentiation gives the mathematical derivative",
  "For every expression built from differentiable operators, the derivative expression of any order with respect to any variable evaluates, wherever the usual rules of calculus define it, to the true derivative at that point; it mentions no variable that the original did not. Differentiation leaves its input unchanged, gives zero for a variable that does not occur, and throws for &, | and %.",
  ["inputs", "programs"], "every expression tree, variable, order and evaluation point",
  "diff_test.cpp compares text for about twenty expressions; wrong rules show up only for particular combinations of operator, constant/variable operands, nesting, order and choice of variable.",
  [S+"diff.cpp", S+"simplify.cpp"], [("per-operator rules and work queue", S+"diff.cpp DiffOnceOperator")],
  observe=["Diff"])
p("C07", "Simplification preserves value and never fails",
  "For every expression and every assignment at which all parts of the expression have a valid value (0^0 counts as undefined), the simplified expression has the same value. Simplification never introduces variables, never throws or terminates the program, and an expression with no variables that has a valid value simplifies to that number; simplifying twice is the same as simplifying once.",
  ["inputs", "programs"], "every expression tree and assignment",
  "simplify_test.cpp checks some fourteen rewrites by text; each rule must hold in every context and for every operand.",
  [S+"simplify.cpp"], [("identity rules and constant folding", S+"simplify.cpp SimplifySingleNode")],
  observe=["Simplify"])
p("C08", "Substitution is simultaneous, complete and agrees across all overloads",
  "Substituting expressions or numbers for variables replaces every occurrence of each named variable exactly once and all at the same time, so replaced text is never substituted again and swapping variables works; variables that are not named and all operators are untouched. Every form of the call (single, list, map, numeric table; copying or consuming; on an expression or on a whole matrix) gives the same result, and the copying forms leave their inputs unchanged.",
  ["inputs", "programs"], "every expression tree, every mapping and every call form",
  "The tests substitute into four expressions; capture, ordering and partial-replacement errors need particular shapes (swap, chains, root variable, repeated names, variables nested at particular sides).",
  [S+"subs.cpp", S+"symmat.cpp"], [("single pre-order replacement pass over a dictionary", S+"subs.cpp SubsInner")],
  observe=["Subs", "SymMat::Subs"])
p("C09", "Expressions behave as independent values and release all their memory",
  "Every expression made by copying, cloning, combining, moving or assigning (including combining an expression with itself and chains of compound assignments) has exactly the structure the operations describe, and no later operation on one expression changes another that was not moved from. Equality holds exactly between structurally identical expressions. No sequence of such operations leaks, reuses freed memory or leaves an internally inconsistent expression.",
  ["histories", "programs"], "every sequence of construction, copy, move, combination, assignment, calculation and destruction on a pool of expressions",
  "Tests run fixed short sequences; aliasing and ownership errors need particular orders of operations on shared operands.",
  [S+"node.h", S+"node.cpp"], [("copy-or-move of operands", S+"node.h BinaryOperator/UnaryOperator"), ("parent links and iterative release", S+"node.cpp")],
  state=[("parent", "link from operand to operator", S+"node.h NodeImpl")],
  observe=["operator+ - * / ^", "operator+= ...", "Clone", "Move", "NodeImpl::Equal", "NodeImpl::CheckParent"])
p("C10", "Linear solving returns a true solution or the right error",
  "For every well-scaled linear system, solving returns a vector that satisfies all equations when the solution is unique; it reports over-determined for more equations than unknowns, singular when no solution exists (a contradiction counts from the configured epsilon on), infinitely many solutions for a square consistent rank-deficient system, and indeterminate for a consistent system with fewer equations than unknowns unless the configuration allows indeterminate systems, in which case the vector returned satisfies all equations. The result does not depend on the order of the equations, and the caller's matrix and vector are not changed.",
  ["inputs", "configurations"], "every matrix shape, rank profile, pivot order and right-hand side",
  "linear_test.cpp solves one 4x4 system; zero pivots, skipped columns and inconsistency hidden in particular rows are a combinatorial space.",
  [S+"linear.cpp", S+"mat.cpp"], [("column-pivoting elimination, rank and consistency decision, back substitution", S+"linear.cpp SolveLinear")],
  observe=["SolveLinear"])
p("C11", "Matrix and vector operations satisfy the laws of linear algebra",
  "Sum, difference, negation, scaling, product, transpose, row/column access and swapping, resizing, determinant, cofactor, adjoint, inverse, norms, dot product, element-wise operations and comparisons return what their mathematical definition says for matrices of every shape (Norm2 being the sum of squares, and equality being within the configured epsilon). A matrix with non-zero determinant times its inverse is the identity and a singular one is rejected with the singular-matrix error; operations do not modify their operands except the documented in-place ones. The text of a matrix lists its elements row by row, one bracketed line per row.",
  ["inputs"], "every matrix and vector shape and content",
  "mat_test.cpp checks one or two fixed matrices per operation, mostly square; index and stride errors appear only for particular shapes and positions.",
  [S+"mat.cpp", S+"mat.h"], [("strided slices over a flat array", S+"mat.cpp Row/Col/Resize/GetCofactor")],
  observe=["Mat", "Vec", "Det", "Adjoint", "GetCofactor", "EachDivide", "Dot"])
p("C12", "A returned solution of a nonlinear system really solves it",
  "Whenever solving a system of equations returns, by either method and from any start, every equation evaluated at the returned values is within the configured epsilon of zero, and the returned table has exactly the variables asked for (those occurring in the equations when no table is given). Otherwise the call ends with an exception within the configured iteration limit; it never hangs or crashes, and it leaves the equations, the initial table and the configuration as they were.",
  ["inputs", "configurations", "histories"], "every system (square, over- and under-determined, solvable or not), start, method and configuration",
  "The tests solve about ten fixed solvable systems and compare with known answers.",
  [S+"nonlinear.cpp", S+"linear.cpp", S+"symmat.cpp"], [("convergence test and iteration limit", S+"nonlinear.cpp SolveByNewtonRaphson, SolveByLM"), ("line search", S+"nonlinear.cpp Armijo")],
  observe=["Solve", "SolveByNewtonRaphson", "SolveByLM"])
p("C13", "Starting values and the iteration limit steer nonlinear solving as documented",
  "Solving starts from the values supplied, or from the configured initial value when none are supplied: a start that already satisfies the equations is returned as it is, and an affine square non-singular system is solved in one Newton step from any start. Raising the iteration limit never turns a success into a failure nor changes the solution found, and the answer does not depend on the log level or on the order in which the variables are listed.",
  ["inputs", "configurations"], "every system, start value, iteration limit and log level",
  "The tests use defaults or one start per system and never vary the limit or compare runs.",
  [S+"nonlinear.cpp", S+"config.h"], [("initial vector and iteration counter", S+"nonlinear.cpp")],
  observe=["Solve", "Config::initialValue", "Config::maxIterations", "Config::nonlinearMethod", "Config::logLevel"])
p("C14", "A variables table keeps names and values consistent under every history",
  "After every sequence of constructions, copies, moves, assignments and value updates, every view of a variables table (count, name list, value vector, lookup by name, membership, iteration in name order, text, comparison within epsilon) shows the same name-to-value mapping as a plain map updated the same way. Looking up an unknown name throws out-of-range and changes nothing, and copies are independent.",
  ["histories"], "every operation history on several tables",
  "vars_table_test.cpp runs one short history per operation with one or two variables.",
  [S+"vars_table.cpp", S+"vars_table.h"], [("three parallel representations updated together", S+"vars_table.cpp")],
  state=[("vars/values/table", "names in given order, values in that order, sorted map", S+"vars_table.h")],
  observe=["VarsTable"])
p("C15", "Symbolic matrices act element by element and agree with numeric matrices",
  "Evaluating a symbolic matrix operation (clone, difference, product, substitution, conversion to vector or numbers, listing names, comparison) gives what performing the numeric operation on the evaluated elements gives, for every shape; size mismatches in products and conversions of unsuitable matrices throw. Row i, column j of a Jacobian is the derivative of equation i by variable j, for any number and order of equations and variables. The text of a symbolic matrix lists the texts of its elements row by row.",
  ["inputs", "programs"], "every matrix shape and element expressions",
  "symmat_test.cpp uses one or two fixed 2x2 or 3x3 matrices per operation.",
  [S+"symmat.cpp", S+"symmat.h"], [("flat storage of expressions, element-wise generation", S+"symmat.cpp")],
  observe=["SymMat", "SymVec", "Jacobian"])
p("C16", "Results depend only on arguments and configuration, never on earlier calls",
  "Any call gives the same result whatever calls came before it, including calls that threw: parsing, printing, differentiating, simplifying, substituting, evaluating and solving keep no state of their own, and also work while global variables are being initialised. Resetting the configuration restores all documented defaults after any sequence of changes, and no operation other than setting it changes the configuration.",
  ["histories", "configurations"], "every history of calls, failing calls and configuration changes",
  "Each test runs its calls once in one fixed order; hidden state shows only in particular call orders, especially after errors.",
  [S+"config.cpp", S+"config.h", S+"parse.cpp", S+"node.cpp", S+"nonlinear.cpp"], [("no mutable globals besides the configuration", S+"config.cpp")],
  state=[("Config", "the only process-wide state", S+"config.h")],
  observe=["every public function"])
p("C17", "Threads working on separate objects do not disturb each other",
  "When several threads use the library at the same time, each on its own expressions, tables and matrices (sharing only read-only ones) and none changing the configuration, every call returns what it returns when run alone, for every interleaving. No such execution has a data race, and threads calling read-only operations on one shared expression do not disturb each other.",
  ["schedules"], "all thread interleavings of concurrent library calls",
  "The tests are single-threaded.",
  [S+"config.cpp", S+"node.cpp", S+"parse.cpp", S+"nonlinear.cpp"], [("no shared mutable state; thread-safe local static configuration", S+"config.cpp Config::Get")],
  observe=["Parse", "ToString", "Diff", "Simplify", "Subs", "Vpa", "Solve"])
p("C18", "Deep expressions never exhaust the call stack",
  "Parsing, printing, evaluating, copying, comparing, substituting, simplifying, differentiating, listing variables and destroying an expression use an amount of call stack that does not grow with the depth or size of the expression, whatever its shape (left-deep, right-deep, zig-zag, nested functions or prefix signs, long names, nested parentheses). Each of these operations still gives the right result on deep expressions.",
  ["inputs"], "every expression shape and depth",
  "The tests build two shapes (long sums and nested functions) and a few operations.",
  [S+"node.cpp", S+"parse.cpp", S+"simplify.cpp", S+"diff.cpp", S+"subs.cpp"], [("explicit work stacks instead of recursion", S+"node.cpp")],
  observe=["all operations on expressions"])
p("C19", "The single header behaves exactly like the library",
  "A program compiled against the single-header distribution observes, for every sequence of public API calls, the same results, texts and error types as when compiled against the separate headers and library. The single header can be included in several translation units of one program.",
  ["programs", "inputs"], "every program using the public API",
  "The same tests run against both, but only sample behaviour; a change made to one copy and not the other passes both suites.",
  ["single/include/tomsolver/tomsolver.h", "scripts/combine_src_to_header_only.py", "src/tomsolver"], [("header generated from the sources", "scripts/combine_src_to_header_only.py")],
  observe=["the whole public API"])
p("C21", "An error says what is wrong and where",
  "When a text is rejected, the error gives line 0 and the position of a token (or the end of the text) where there really is a fault, and its message quotes the text, marks that position and names the offending token; operands without an operator between them are all listed. The error of a calculation has the documented type, and its message names an operation of the expression that really fails, with its operands; errors about names contain the name. Errors stay intact when copied and when the text or expression they speak of is gone.",
  ["inputs"], "every rejected text, failing calculation and unknown or illegal name",
  "parse_test.cpp compares the position of two texts and prints the messages of some others without looking at them.",
  [S+"parse.h", S+"parse.cpp", S+"error_type.cpp", S+"error_type.h", S+"math_operator.cpp"], [("position and line content kept in each token", S+"parse.h Token"), ("message composed when the error is made", S+"parse.h SingleParseError")],
  observe=["SingleParseError", "MultiParseError", "MathError", "std::out_of_range of VarsTable"])
p("C20", "Calls leave their surroundings alone and do not depend on them",
  "Apart from its result, the objects documented as changed and, text on standard output that the log level asks for (solvers from INFO on, warnings of line searches from WARN on), no call leaves anything behind: nothing is written to the standard streams, and locale, stream formatting and state, rounding mode and floating-point traps, signal and terminate handlers, the random sequence, working directory, environment and open files are as before. Results do not depend on the locale of the program, of the thread or of C++, the formatting or state of the standard streams, errno, pending floating-point flags, language variables, or on an exception being handled or in flight.",
  ["inputs", "configurations"], "every public call under every setting of its surroundings",
  "Each test runs in one process environment: the C locale, clean streams, no pending error; and none looks at what is left behind.",
  [S+"node.cpp", S+"parse.cpp", S+"nonlinear.cpp", S+"config.cpp"], [("text conversion on local streams with explicit formats", S+"config.cpp ToString"), ("output only through the configured log level", S+"nonlinear.cpp")],
  observe=["every public function", "standard streams", "process state"])
p("C22", "Every build of the library behaves the same",
  "Built with gcc or clang, with assertions enabled or disabled, at any optimisation level, the library gives the same values, texts, error types and messages for every sequence of public calls that keeps the documented preconditions. Nothing depends on the order in which a compiler evaluates operands or arguments, on uninitialised memory, or on what an assertion evaluates.",
  ["programs", "inputs"], "every program using the public API, in every build",
  "The tests run in one build (one compiler, debug, assertions on).",
  [S+"parse.cpp", S+"node.cpp", S+"linear.cpp", S+"nonlinear.cpp", S+"mat.cpp", S+"mat.h", S+"symmat.cpp", S+"diff.cpp", S+"simplify.cpp"], [("assertions without side effects, initialised members, explicit sequencing of moves", S+"node.cpp")],
  observe=["the whole public API"])
p("C23", "Work and memory grow in proportion to the size",
  "Parsing, printing, evaluating, copying, comparing, substituting, simplifying, listing variables and destroying an expression or text, well-formed or not, whatever its shape, take work and memory proportional to its size (times a logarithm for looking up names; the message that lists many operands without operators excepted); a derivative takes at most the square of the size. Operations on tables, vectors, matrices and symbolic matrices take no more than the elementary operations of their definition (determinant, adjoint, inverse and cofactors, which are expanded, excepted), solving a linear system at most the cube of its size, and one step of a nonlinear solver at most that for its system.",
  ["inputs"], "every expression shape, text, table, matrix and system, at every size",
  "The tests use small inputs and have no limit on time; work that grows with the square of the size passes them all.",
  [S+"parse.cpp", S+"node.cpp", S+"simplify.cpp", S+"diff.cpp", S+"subs.cpp", S+"vars_table.cpp", S+"mat.cpp", S+"symmat.cpp", S+"linear.cpp"], [("one traversal with an explicit stack; operands moved and not copied", S+"node.cpp"), ("names kept in sets and maps", S+"vars_table.cpp")],
  observe=["all operations on expressions", "VarsTable", "Mat", "SymMat", "SolveLinear", "Solve"])
p("C24", "Line searches return the step their rule demands",
  "Armijo(x, d, f, df) returns the first of the steps a = 1, 1/2, 1/4, ... with |f(x+a*d)|^2 <= |f(x) + 0.4*a*transpose(df(x))*d|^2, and 0 if invalid values or rounding leave none. FindAlpha follows the secant rule from steps 0 and 1: it returns the current step as soon as every component of f is smaller than at the preceding step, and otherwise goes on to the smallest magnitude over the components of (g*a0 - g0*a)/(g - g0), where g0 and g are the values at the preceding step a0 and the current one a, until two successive steps differ by at most the given accuracy times the former or 102 such steps were made (then it warns on standard output, from log level WARN on). Both always end, call the functions only on the line x+a*d (the derivative only at x), leave their arguments as they were and let exceptions of the functions through.",
  ["inputs"], "every function, start, direction, accuracy and log level",
  "solve_base_test.cpp calls each search once and only prints the result.",
  [S+"nonlinear.cpp", S+"nonlinear.h", S+"mat.cpp"], [("halving until the condition holds", S+"nonlinear.cpp"), ("secant steps with an iteration limit", S+"nonlinear.cpp")],
  observe=["Armijo", "FindAlpha"])
p("C25", "Running out of memory is reported, never hidden",
  "If an allocation fails at any point of a call, once or from then on, the call throws std::bad_alloc, or ends the program through std::terminate where it must not throw, or still gives its right result: never another result, a cut text, another error, a crash or an endless run. After std::bad_alloc the arguments that are not to be changed and the configuration are as before, objects that were to be changed can be destroyed, no memory is lost, and the same call made again with memory gives its right result.",
  ["fault_sequences", "inputs"], "every allocation of every public operation, failing once or from then on",
  "no test makes an allocation fail.",
  [S+"node.cpp", S+"parse.cpp", S+"parse.h", S+"mat.cpp", S+"symmat.cpp", S+"math_operator.cpp", S+"nonlinear.cpp"], [("ownership by std::unique_ptr and containers", S+"node.h"), ("string streams that throw when memory runs out", S+"node.cpp")],
  observe=["every public operation"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for q in sorted(P, key=lambda q: q["id"]): f.write(json.dumps(q, ensure_ascii=False) + "\n")
