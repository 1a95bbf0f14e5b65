"""What each property's check consists of (see DESIGN.md)."""
def V(*harness, **kw):
    d = {"harness": list(harness)}
    d.update(kw)
    return d

FAST = ["-O2", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer"]

S1 = ["-I@REPO/single/include", "-I@HARN", "-DFLAVOUR_SINGLE", "-Dtomsolver=tomsolver_s", "-Dbr=br_s", "-Dpr=pr_s"]
C19X = [("single_run", "@HARN/c19run.cpp", S1), ("single_tu1", "@HARN/c19tu1.cpp", S1), ("single_tu2", "@HARN/c19tu2.cpp", S1)]

def BUILD(name, cxx, *flags):
    return {"prefix": name, "cxx": cxx, "harness": ["c19run.cpp"], "flags": list(flags) + ["-Dtomsolver=tomsolver_" + name, "-Dbr=br_" + name, "-Dpr=pr_" + name, "-Dc19_src=c22_" + name, "-Dc19_single=c22_" + name]}
BUILDS = [BUILD("gcc_plain", "g++", "-O1", "-ftrivial-auto-var-init=zero"), BUILD("gcc_release", "g++", "-O3", "-DNDEBUG", "-ftrivial-auto-var-init=pattern"), BUILD("clang_release", "clang++", "-O3", "-DNDEBUG", "-ftrivial-auto-var-init=pattern")]

CHECKS = {
 "C01": {"variants": [V("c01.cpp")],
         "rule": "every well-formed token string up to the bound (unranked from the grammar), plus scaled families; each parsed by the library and compared in value at 4 assignments with an independent reader",
         "note": "exhaustive within the length bounds given in the evidence; longer texts only through scaled families; values are compared at 4 assignments with distinct operands",
         "assumptions": ["evaluation of & | % with operands outside the range of int is not compared (the cast is undefined)", "values are compared within a running error bound of floating-point re-association"]},
 "C02": {"variants": [V("c02.cpp")],
         "rule": "every string up to the length bound over telling token and character sets (and all bytes), every single edit and pairs of edits of long texts, one fault at places of scaled texts; verdict compared with an independent reader, in an exact-size buffer under AddressSanitizer",
         "note": "exhaustive within the stated length bounds; the reader that decides well-formedness is independent of the library; inf/nan/hexadecimal spellings and functions applied without parentheses may be accepted or rejected",
         "assumptions": ["inf, nan, hexadecimal, out-of-range literals and functions without parentheses: either verdict is allowed, but no crash"]},
 "C03": {"variants": [V("c03.cpp")],
         "rule": "every expression tree up to the operator bounds, every number of a telling list in every position of small trees, scaled shapes; print, parse back, compare value, names and text",
         "note": "exhaustive over trees within the stated operator counts; values compared at 4 assignments, where the reference evaluation is defined, within printing accuracy and a running rounding bound",
         "assumptions": ["values are compared only where the original has a valid value and no operand of & | % is outside the range of int"]},
 "C04": {"variants": [V("c04.cpp")],
         "rule": "every exponent x telling mantissas x sign, neighbours of powers of ten and two, all decimal fractions k/10^d; every literal over telling digits within the length bound, literals in contexts and of up to 400 digits",
         "note": "all 2047 exponents of double are covered; mantissas by patterns; strtod of the C library defines the nearest double",
         "assumptions": ["strtod of the C library rounds correctly", "the C locale"]},
 "C05": {"variants": [V("c05.cpp")],
         "rule": "every operator at every pair of a list of special values, every tree up to the operator bound over special leaf values, under both settings of the invalid-number switch, by Vpa and by Calc",
         "note": "exhaustive within the tree bounds and value lists; results compared within 2 ulp with direct floating-point evaluation; & | % with operands outside the range of int are executed but not compared",
         "assumptions": ["operands of & | % outside the range of int have no defined result"]},
 "C06": {"variants": [V("c06.cpp")],
         "rule": "every expression tree up to the operator bounds, differentiated by a present, another and an absent variable, orders 1 to 5 (thorough 7); every tree with near variable names; 34 constants at every leaf; value of the derivative compared at five points with Taylor arithmetic on the reference term",
         "note": "exhaustive within the tree bounds; derivative values compared at five points with an independent automatic-differentiation oracle (orders 1 to 5, thorough 7), skipped where the oracle is undefined or badly conditioned",
         "assumptions": ["points within 1e-3 of a singularity of the usual rules (division by 0, log or root of 0, non-positive base of a variable power) are not compared"]},
 "C07": {"variants": [V("c07.cpp")],
         "rule": "every expression tree up to the operator bounds over neutral elements, constants and variables; simplified under both policies; value compared at up to 18 assignments including 0, 1 and negative values",
         "note": "exhaustive within the tree bounds; values compared wherever every part of the original has a valid value at the assignment (0^0 excluded)",
         "assumptions": ["operands of & | % outside the range of int have no defined result"]},
 "C08": {"variants": [V("c08.cpp")],
         "rule": "every expression tree up to the operator bound x every map of its variables to a set of telling images x every call form (and every order of the list form); result compared structurally with simultaneous substitution on the reference term",
         "note": "exhaustive within the stated tree and map bounds; structural comparison, so no tolerance is involved",
         "assumptions": ["a variable is named at most once in a call"]},
 "C09": {"variants": [V("c09.cpp")],
         "rule": "every sequence of operations (every copy/move form of construction, combination, compound assignment, substitution, calculation, destruction) on a pool of expressions up to the depth bound, against a value model; all pairs of small trees for equality; memory in use compared before and after every history and call",
         "note": "exhaustive within the depth bounds; memory errors by AddressSanitizer, leaks by the allocator's count of bytes in use around each case",
         "assumptions": ["an expression that was moved from is only assigned to or destroyed"]},
 "C10": {"variants": [V("c10.cpp")],
         "rule": "every system of each stated shape with entries from small integer sets, every set of pivot columns of systems to 6x6, small pivots, scales, structured systems to 30 unknowns; outcome compared with exact integer ranks, under every row order and both settings for indeterminate systems",
         "note": "exhaustive over the stated integer systems; kind of outcome decided by exact rank, solutions by residual",
         "assumptions": ["well-scaled systems: no pivot of exact elimination is close to epsilon"]},
 "C11": {"variants": [V("c11.cpp")],
         "rule": "every operation on every shape up to the bound with patterns of distinct values, every matrix over small value sets for value-dependent operations, determinants and inverses, every set of differing places for comparisons, every history of in-place operations up to the depth; compared with plain loops and exact determinants",
         "note": "exhaustive over shapes, value sets and histories stated; determinants of small integers are exact",
         "assumptions": ["documented preconditions (equal or fitting shapes, indices in range, no empty matrix) are met", "Norm2 is the sum of squares"]},
 "C12": {"variants": [V("c12.cpp", flags=FAST), V("c12.cpp", tier="thorough")],
         "rule": "every combination of equations (50 in one unknown, all ordered pairs of 24 in two, other shapes), starts, method, way to call, epsilon, iteration limit, invalid-number switch and indeterminate switch; a returned table is checked by evaluating the equations with the reference reader, and equations, table and configuration are compared before and after",
         "note": "exhaustive over the stated products of systems, starts and configurations; hangs are detected by a time limit on single cases",
         "assumptions": ["a case without an answer within 20 s (3 times that alone) does not terminate", "residuals are allowed the rounding error of an independent evaluation"]},
 "C13": {"variants": [V("c13.cpp", flags=FAST), V("c13.cpp", tier="thorough")],
         "rule": "every combination of system, start, method, way to call and iteration limit (and log level, order of the table); compared with an independent Newton iteration, with the start itself where it is a solution, with the exact solution of affine systems, and across limits, levels and orders",
         "note": "exhaustive over the stated products; the independent Newton iteration is compared only where it is regular (well-conditioned Jacobian, no residual close to epsilon) and takes at most 12 steps",
         "assumptions": ["orders of variables are compared where the iteration converges within 8 steps"]},
 "C14": {"variants": [V("c14.cpp")],
         "rule": "every sequence of constructions, copies, moves, assignments, swaps, value updates and failing lookups up to the depth bound on up to 3 tables, all views compared with plain maps after it; all pairs of small tables for comparison",
         "note": "exhaustive within the depth bounds",
         "assumptions": ["names of one table are distinct and a table has at least one variable (documented preconditions)", "a table that was moved from is only assigned to or destroyed"]},
 "C15": {"variants": [V("c15.cpp")],
         "rule": "every operation on every shape and pair of shapes up to the bound with patterns of expressions, all 2x2 matrices over a set of elements, one special element at every place, Jacobians of systems by every list of variables, every history up to the depth; elements compared structurally or in value at three points with the reference terms",
         "note": "exhaustive over the stated shapes, sets and histories",
         "assumptions": ["shapes of differences match and no matrix is empty (documented preconditions)"]},
 "C16": {"variants": [V("c16.cpp", flags=FAST), V("c16.cpp", tier="thorough")],
         "rule": "every history of operations (120 probes covering the public interface, failing calls, configuration changes, long sequences) up to the depth bound, each started in a process that has not called the library yet; every ordered pair of calls of the same kind (16 kinds, about 1260 calls with telling arguments), alone and with a configuration change between them; the transcript of every call compared with that of a process that makes this single call under the same configuration; the configuration compared with a model after every operation; every probe during static initialisation; every sequence of changes and looks on one object, each look compared with the same look on an object that went through the changes only",
         "note": "exhaustive over pairs (and, thorough, triples) of the listed operations and over pairs of the listed calls of one kind; hidden state that needs an operation not in the list, or longer histories, is only reached through the repeated and long histories",
         "assumptions": ["outcomes are compared as text: values with 17 digits, error types and messages"]},
 "C19": {"variants": [V("c19.cpp", "c19run.cpp", flags=FAST, extra_objs=C19X, link_is_property=True), V("c19.cpp", "c19run.cpp", tier="thorough", extra_objs=C19X, link_is_property=True)], "both": False,
         "rule": "both flavours linked into one program (namespace of the single header renamed); every enumerated use (texts, edits, terms, numbers, matrices, linear and nonlinear systems, substitutions, symbolic matrices, histories, probes and about 1260 calls of 16 kinds under 12 configurations, deep shapes) run through both and the transcripts compared; two translation units with the single header linked together and sharing the configuration",
         "note": "exhaustive over the enumerated uses; a difference that shows only outside them is not seen",
         "assumptions": ["transcripts compare values with 17 digits, texts, error types and messages"]},
 "C20": {"variants": [V("c20.cpp", flags=FAST), V("c20.cpp", tier="thorough")],
         "rule": "every one of about 1510 calls in each of 16 settings of the surroundings (C++ locales, stream formats and failures, errno, floating-point flags, exceptions in flight, language variables), and at each of the 8 log levels; result compared with the one in ordinary surroundings; 15 aspects of the surroundings and the bytes written to the standard streams compared before and after",
         "note": "exhaustive over the listed calls, settings and log levels; surroundings outside the list (other C locales are not installed here) are not varied",
         "assumptions": ["outcomes are compared as text: values with 17 digits, error types and messages"]},
 "C18": {"variants": [V("c18.cpp", flags=["-O1", "-fno-optimize-sibling-calls", "-D_GLIBCXX_ASSERTIONS"], link=["-lpthread"]), V("c18.cpp", flags=["-O0", "-DC18_UNOPTIMISED"], link=["-lpthread"])],
         "rule": "every periodic sequence of levels (operators with the deep operand left or right, functions, signs) up to the period bound x every operation, at a shallow and a deep size, in a thread with a painted stack of 1 MB: the deepest touched word must not differ by more than 8 KB; results compared with a reference evaluated without recursion; flat, long and malformed texts",
         "note": "exhaustive over periodic shapes of the stated periods and sizes; stack use at larger depths is extrapolated from its not growing (30 000, thorough 200 000, levels are run too)",
         "assumptions": ["a level of recursion needs at least 16 bytes of stack", "built at -O1 without tail-call elimination, so that recursion is not optimised away"]},
 "C17": {"variants": [V("c17.cpp", "c17ops.cpp", flags=["-O1", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-omit-frame-pointer"], lib_flags=["-fsanitize=thread"], harness_flags={"c17ops.cpp": ["-fsanitize=thread"]}, extra_objs=[("rt", "@HARN/c17rt.cpp", ["-I@HARN"])], link=["-lpthread", "-ldl"])],
         "rule": "every pair (thorough: triple) of operations, one per thread, on separate objects and on shared read-only ones, as first calls and later ones; the library instrumented at every memory access below a scheduler of our own; all schedules with up to 2 preemptions at synchronisation operations; unordered conflicting accesses are data races; results compared with those of the thread alone",
         "note": "interleavings that differ only in the order of independent accesses are equivalent (partial-order reduction); memory touched only inside the C and C++ run-time libraries, and the standard stream objects, is not looked at",
         "assumptions": ["the run-time libraries are thread-safe as documented", "two threads (thorough: three)"]},
 "C21": {"variants": [V("c21.cpp", flags=FAST), V("c21.cpp", tier="thorough")],
         "rule": "every token and character string up to the length bounds, every single edit and pairs of insertions, long texts with faults: a rejected text must be reported at a place where a fault is (found by an independent reader), quoted, marked and named in the message, after the text is gone; every operator and pair of operators at telling numbers: the message of an invalid number must name an operation of the expression that fails; every name; every error type",
         "note": "exhaustive within the stated bounds; where a text has several faults, any real one may be reported (the first one, for tokens that cannot stand where they stand)",
         "assumptions": ["inf, nan, hexadecimal, out-of-range literals and functions without parentheses: any place inside the text", "the mark is compared for texts of one line"]},
 "C22": {"variants": [V("c22.cpp", "c19run.cpp", flags=["-O1"], harness_flags={"c19run.cpp": ["-Dc19_single=c22_base", "-Dc19_src=c22_base"]}, extra_libs=BUILDS), V("c22.cpp", "c19run.cpp", tier="thorough", flags=["-O1", "-DC22_ZERO"], harness_flags={"c19run.cpp": ["-Dc19_single=c22_base", "-Dc19_src=c22_base"]}, extra_libs=[BUILD("gcc_zero", "g++", "-O0")])],
         "rule": "four builds of the library linked into one program (clang -O1 with assertions, gcc -O1 with assertions, gcc -O3 and clang -O3 without, namespaces renamed; unset memory, and unset local variables of three of them, filled with a pattern of its own for each build); every enumerated use (texts, edits, terms, numbers, matrices, linear and nonlinear systems, substitutions, symbolic matrices, histories, probes and calls of 16 kinds under 12 configurations, deep shapes) run through all and the transcripts compared",
         "note": "exhaustive over the enumerated uses; a difference that shows only outside them, or with other compilers or options, is not seen; a value read before it is set is seen when the fill patterns lead to different results",
         "assumptions": ["uses keep the documented preconditions (no assertion fails)", "x86-64 without fused multiply-add: floating-point results do not depend on the optimisation level", "run-time library templates that both compilers instantiate are linked once"]},
 "C24": {"variants": [V("c24.cpp")],
         "rule": "every function of a list of 22 (1 to 3 unknowns, 1 to 4 components; affine, polynomial, transcendental, with poles and undefined parts) x every start and direction over telling values x derivative true, zero, negated, scaled, NaN (Armijo) or accuracy and log level (secant search), and an exception at every call; the step returned is compared with the rule evaluated in long double",
         "note": "exhaustive over the lists; where the two sides of the condition are equal up to rounding, or disturbances of 1e-13 change the secant iteration, several answers are accepted or none is judged",
         "assumptions": ["the functions given return vectors of a fixed size and have no side effects on the arguments"]},
 "C25": {"variants": [V("c25.cpp", flags=FAST), V("c25.cpp", tier="thorough")],
         "rule": "208 operations (parsing, building, copying, printing, comparing, differentiating, simplifying, substituting, evaluating, tables, matrices, symbolic matrices, linear and nonlinear solving, line searches; also malformed and failing ones) x every allocation they make x failing once or from then on, each in a process of its own; the same call is then repeated with memory",
         "note": "exhaustive over the operations listed and all their allocations; failures of the memory of the C library itself (malloc inside strtod, the storage of exception objects) are not injected",
         "assumptions": ["assignment between matrices or vectors of different size is left out: std::valarray of libstdc++ keeps a pointer to released storage when it fails", "calls declared noexcept may end the program"]},
 "C23": {"variants": [V("c23.cpp", flags=["-O1", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fsanitize-coverage=trace-pc-guard"], link=["-Wl,--wrap=memcpy","-Wl,--wrap=memmove","-Wl,--wrap=memset","-Wl,--wrap=memcmp","-Wl,--wrap=memchr","-Wl,--wrap=strlen"])],
         "rule": "every operation on every expression shape whose levels repeat with the period (all levels of period 1, 13 levels of period 2), on long texts of 44 kinds, on tables, matrices, symbolic matrices and systems, at sizes n, 2n and 4n; executed branches, bytes moved, allocated and in use are counted by instrumentation and their growth compared with the stated power of the size",
         "note": "exhaustive over the stated shapes and operations; costs are counts of branches and bytes, not times, so the outcome is repeatable; growth that appears only beyond the sizes stated, or on shapes of longer period, is not seen",
         "assumptions": ["time is measured as executed branches of the library and the templates it uses plus bytes handled by the memory functions of the C library", "determinants, adjoints and inverses, which the library expands by cofactors, and the message for several operands without operators are outside the statement"]},
}
