"""Single source of the property list: python3 props.py rewrites properties.jsonl and MANIFEST.json."""
import json, os

ISL = "libisl and libgmp are trusted; a failure that coincides with a provably wrong libisl result is set aside as inconclusive"
ORACLE = "the harness's own brute-force enumeration of integer points and its AST/text interpreters are trusted"
PROPS = {}


def prop(pid, title, statement, over, qtext, why, files, mech, config="fast", assumptions=None, technique="", note="", observe=None):
    PROPS[pid] = dict(
        title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, config=config,
        assumptions=assumptions or [ISL, ORACLE], technique=technique, note=note, observe=observe or [])


prop(
    "C01", "Generated code runs every statement instance exactly once",
    "For every problem (context, statement domains that are unions of integer polyhedra, optional scattering relations) and every "
    "combination of the documented code generation options (-l, -f, -strides, -sh, -first-unroll, -esp, -fsp, -otl, -block, -noscalars, "
    "-noblocks, per-statement -fs/-ls), executing the generated code for any parameter values allowed by the context executes each "
    "integer point of each statement's domain exactly once (once per date when the scattering relation gives it several) and nothing else.",
    ["inputs", "configurations"],
    "all problems and option sets; all parameter values in the context",
    "The repository compares 400-odd fixed inputs with stored text; it cannot range over problems, option combinations and parameter values.",
    ["source/loop.c", "source/clast.c", "source/isl/domain.c", "source/isl/constraints.c", "source/stride.c", "source/program.c", "source/block.c"],
    [("separation, projection and merging of domains", "source/loop.c"), ("guards, bounds, strides and modulo tests of the AST", "source/clast.c"),
     ("set operations", "source/isl/domain.c"), ("constraint views and equality elimination", "source/isl/constraints.c")],
    technique="property-based testing: random polyhedral problems x options, AST executed and compared with brute-force enumeration of the domains",
    note="Searches thousands of random problems per run with up to 6 iterators, 4 parameters, 8 statements, 5 scattering dimensions and small "
         "coefficients; existential variables of different kinds are not mixed in one problem. Not a proof.")

prop(
    "C02", "Generated code runs instances in the order of their scattering dates",
    "When scattering relations are given, the generated code executes statement instances in non-decreasing lexicographic order of their "
    "dates, for every problem, every parameter value in the context and every documented option set whose -l/-ls is not below the number of "
    "scattering dimensions.",
    ["inputs", "configurations"],
    "all problems with scattering and option sets; all parameter values in the context",
    "Stored outputs fix the order for a few inputs; order faults need particular combinations of constant and affine dates, parameters and disjoint pieces.",
    ["source/loop.c", "source/program.c", "source/isl/domain.c", "source/block.c"],
    [("topological sort of separated loops", "source/loop.c, source/isl/domain.c"), ("scalar dimensions and statement blocking", "source/program.c, source/loop.c"),
     ("strongly connected components of loops", "source/loop.c")],
    technique="property-based testing: random scattered problems x options, AST executed and the dates of consecutive instances compared",
    note="Same generator as C01, always with scattering (1 to 5 general dimensions or up to 7 in 2d+1 form, scalar, affine, tiled, modulo and multi-valued dates).")


prop(
    "C03", "Printed C code does what the AST says",
    "For every AST (generated from any problem and option set, or built with the new_clast_* functions), the C text printed by clast_pprint "
    "is syntactically valid and, read by the rules of C with CLooG's floord/ceild/max/min macros, calls the same statements with the same "
    "argument values in the same order as the AST, for all parameter values; for generated problems these are exactly the domains' points.",
    ["inputs", "configurations"], "all ASTs, all parameter values",
    "Stored texts cover the expressions that some fixed inputs happen to need; precedence, signs, nesting of min/max and strides must be right for every expression.",
    ["source/pprint.c", "source/clast.c"],
    [("expression, guard and loop printing", "source/pprint.c"), ("AST construction", "source/clast.c")],
    technique="property-based testing: text of random ASTs parsed and executed by an independent C-subset interpreter, compared with the AST and the domains",
    note="Hand-built ASTs are limited to the operand shapes the library itself builds (no zero coefficients, no div/mod below a coefficient).")

prop(
    "C04", "Printed Fortran code does what the AST says",
    "For every AST and every problem whose language is Fortran, the printed text is valid Fortran (DO, IF ... THEN, MAX/MIN, MOD, "
    "FLOOR/CEILING) and executes the same statement calls with the same argument values in the same order as the AST, for all parameter values.",
    ["inputs", "configurations"], "all ASTs and bounded problems, all parameter values",
    "Only a handful of stored outputs are Fortran.",
    ["source/pprint.c", "source/program.c"],
    [("Fortran branches of the printer", "source/pprint.c"), ("language of the input file", "source/input.c")],
    technique="property-based testing: Fortran text of random ASTs parsed and executed by an independent interpreter, compared with the AST and the domains",
    note="REAL(n)/REAL(d) is taken as exact division; -block (C blocks) is not combined with Fortran.")

prop(
    "C06", "Parallel and timing annotations decorate loops without changing them",
    "For every AST and every assignment of parallel flags (OMP, VEC, MPI, USER and combinations), private/reduction lists, user directives and "
    "time variables to its loops, the C text has exactly the directives of each annotated loop directly before that loop (with its clauses), "
    "sets the bound variables (lbp/ubp, lbv/ubv, _lb_dist/_ub_dist) to that loop's bounds, and executes the same calls as the unannotated loop nest; "
    "the Fortran text is that of the unannotated loops.",
    ["inputs", "configurations"], "all ASTs and annotations",
    "No test of the repository sets annotations.",
    ["source/pprint.c", "include/cloog/clast.h"],
    [("annotated loops", "source/pprint.c: pprint_for")],
    technique="property-based testing: random annotations on random ASTs, text parsed, directives compared loop by loop and execution compared with the AST",
    note="polyrt_loop_dist is modelled for one process. Bounded problems only.")

prop(
    "C05", "Complete generated programs compile and enumerate the domains",
    "For every C problem, option set and context, the text produced with -callable 1 compiles as a C translation unit whose function test "
    "runs, for the parameter values it is called with, hash() once per statement instance with the statement number and iterator values; the text "
    "produced with -compilable N compiles to a program that prints exactly the instances for parameters N and their right total. "
    "Order follows the scattering dates.",
    ["inputs", "configurations"], "all bounded problems, option sets, parameter values; library and command",
    "The repository compiles and runs a few dozen such programs; macros, declarations, argument lists and names must fit every problem.",
    ["source/program.c", "source/pprint.c", "source/cloog.c"],
    [("preamble, macros and declarations", "source/program.c: print_macros, print_declarations, print_callable_preamble, cloog_program_pprint"),
     ("user statement printing", "source/pprint.c: pprint_user_stmt")],
    technique="property-based testing: random whole programs compiled with gcc, run, and their output compared with brute-force enumeration of the domains",
    assumptions=[ISL, ORACLE, "gcc and libm are trusted"],
    note="Programs whose guards hit the known finding cmod are skipped; parameters up to about 9.")

prop(
    "C13", "The cloog command does what its arguments say",
    "For every input and command line, the cloog command produces the same program text as the library with the corresponding options, "
    "whatever the order and repetition of the options (the last occurrence wins), the input route (file or stdin) and the output route "
    "(-o file, -o stdout, stdout); it warns about unknown options unless quiet, prints the structure with -struct and balanced allocation "
    "statistics with -leaks, and refuses bad values, missing arguments and unusable files with an error message, a nonzero status and no output.",
    ["inputs", "configurations"], "all command lines and inputs",
    "The tests use a few fixed command lines.",
    ["source/options.c", "source/cloog.c", "source/program.c", "source/input.c"],
    [("option parsing", "source/options.c: cloog_options_read"), ("main program", "source/cloog.c")],
    technique="property-based testing: random command lines, output compared with the text the library produces for the options they denote",
    note="-nosimplify, -backtrack and OpenScop are left out.")

prop(
    "C09", "The same problem means the same through every input route",
    "A problem gives the same code whatever the layout of its input file (blank lines, comments, blanks, line breaks between constraints and "
    "options), and executes the same instances whether given in PolyLib or extended format, as CloogMatrix, as isl sets and maps, or as an isl union "
    "map; dimensions, statement numbers, names of parameters, iterators, scattering dimensions and statements (of any length) and user pointers "
    "arrive in the generated AST as given.",
    ["inputs", "configurations"], "all problems, layouts and routes",
    "The repository reads its own test files through one route each; equivalence between routes is not tested.",
    ["source/input.c", "source/union_domain.c", "source/isl/domain.c", "source/matrix.c", "source/names.c"],
    [("file reader", "source/input.c: cloog_input_read"), ("matrix and isl conversions", "source/isl/domain.c"), ("union domains", "source/union_domain.c, source/isl/domain.c")],
    technique="property-based testing: differential and metamorphic comparison of random problems across input routes and file layouts",
    note="Lines of at most 1023 characters (the documented limit of the reader).")

prop(
    "C10", "Dumping an input and reading it back gives the same problem",
    "For every input, the text written by cloog_input_dump_cloog is a valid input file that reads back to the same language, context, "
    "statement domains, scatterings and names, and from which code is generated that executes the same instances.",
    ["inputs"], "all inputs",
    "No test dumps an input.",
    ["source/input.c", "source/isl/domain.c", "source/union_domain.c"],
    [("dump", "source/input.c: cloog_input_dump_cloog"), ("printing of domains and scatterings", "source/isl/domain.c")],
    technique="property-based testing: round trip of random inputs through dump and read, sets compared exactly, regenerated code executed",
    note="The program-level dump (cloog_program_dump_cloog) is left out: its own comment calls it unfaithful.")

prop(
    "C11", "clast_filter finds exactly the loops and statements asked for",
    "For every AST, starting statement and filter (iterator name, exact or subset match of a set of statement numbers), clast_filter lists "
    "every loop at or below that statement that matches the filter and no other, without duplicates, and every statement number found there once.",
    ["inputs"], "all ASTs and queries",
    "No test calls clast_filter.",
    ["source/clast.c"],
    [("traversal", "source/clast.c: clast_filter")],
    technique="property-based testing: random queries on generated ASTs compared with a reference traversal",
    note="ASTs come from generated problems with all options (guards, blocks, assignments, unrolled and one-time loops).")

prop(
    "C12", "Code generation does not depend on history",
    "Whatever other jobs were read, generated, printed or freed before or in between, on the same or another CloogState (own or given isl_ctx), "
    "a job produces the same code as it does alone, and after everything is freed the allocation counters of every state balance.",
    ["histories"], "all interleavings of the stages of several jobs",
    "Each test runs one job per process.",
    ["source/state.c", "source/program.c", "source/clast.c", "source/options.c", "source/names.c", "source/isl/backend.c"],
    [("state and counters", "source/state.c"), ("ownership of inputs, programs, ASTs and names", "source/program.c, source/clast.c, source/names.c")],
    technique="stateful property-based testing: random interleavings of the stages of 2 to 4 jobs compared with each job alone",
    note="Single threaded; 1 or 2 states.")

prop(
    "C14", "Saved domains describe when each statement runs",
    "With save_domains set, every user statement of the AST carries a domain that holds exactly the scattering dates at which that "
    "statement is executed there, every loop that carries a domain runs only inside it, and without the option no domains are attached.",
    ["inputs", "configurations"], "all scattered problems and option sets",
    "No test sets save_domains.",
    ["source/clast.c", "source/loop.c", "source/isl/domain.c"],
    [("unsimplified domains", "source/loop.c"), ("attachment to the AST", "source/clast.c: insert_block, insert_for")],
    technique="property-based testing: AST executed, dates of every user statement compared with the integer points of its saved domain",
    note="Bounded problems with scattering; statements blocked with others are a known finding.")

prop(
    "C07", "Memory safety and complete release",
    "For every valid problem, option set and input route, reading, generating, building the AST, filtering, printing and freeing it "
    "accesses no memory outside live objects, has no undefined behaviour, and leaves nothing allocated: neither bytes nor objects counted by the state.",
    ["inputs", "configurations"], "all valid jobs through the documented API",
    "The tests run the plain build and look at the text only.",
    ["source/loop.c", "source/clast.c", "source/pprint.c", "source/program.c", "source/input.c", "source/union_domain.c", "source/names.c", "source/isl/constraints.c", "source/isl/domain.c"],
    [("ownership of loops, domains and statements", "source/loop.c"), ("fixed size buffers", "source/pprint.c, source/clast.c"), ("names and unions", "source/names.c, source/union_domain.c")],
    config="san",
    technique="property-based testing: random jobs under AddressSanitizer and UBSan, each run three times in one process with live bytes compared after each",
    note="libisl and libgmp are not instrumented: accesses of theirs to freed memory are not seen.")

prop(
    "C08", "Malformed input is rejected, not obeyed",
    "Whatever bytes the input file holds, the cloog command ends: with status 0 and code, or with status 1 and a message that says what is "
    "wrong; it never crashes, never accesses memory out of bounds and reading never hangs.",
    ["inputs"], "all byte strings as input files",
    "The tests use valid inputs only.",
    ["source/input.c", "source/matrix.c", "source/isl/domain.c", "source/union_domain.c", "source/names.c", "source/program.c", "source/statement.c"],
    [("counts and sections", "source/input.c"), ("constraint systems", "source/isl/domain.c: cloog_domain_read, cloog_scattering..."), ("names", "source/names.c")],
    config="san",
    technique="fuzzing: token, line and byte mutations of generated inputs and spliced sections of two problems, run under AddressSanitizer and UBSan",
    note="Structure-aware mutations; inputs whose generation exceeds 15 s or the memory limit are inconclusive unless reading alone hangs.")

prop(
    "C16", "Domain and scattering operations mean what they say",
    "For all domains and scatterings (unions, existentials, parameters), every operation of include/cloog/domain.h gives the integer points "
    "its documentation describes: intersection, union, difference, simplify, hulls, projection, extension, emptiness, disjointness, "
    "sorting, strides, unrolling, one-time tests, splitting, scattering, blocking, erasing of dimensions, and the readers and constructors; "
    "operands that are kept are unchanged and counters balance.",
    ["inputs"], "all domains, scatterings and levels",
    "No test calls the operations; code generation samples each on a few hundred sets.",
    ["source/isl/domain.c", "source/isl/constraints.c", "source/domain.c"],
    [("set operations", "source/isl/domain.c"), ("sort and comparison", "source/isl/domain.c: cloog_domain_sort"), ("strides", "source/isl/domain.c: cloog_domain_list_stride, cloog_domain_can_stride")],
    technique="property-based testing: random operations on random domains compared point by point with brute force evaluation of the constraints",
    note="Dimensions up to 3, 2 parameters, a window of points; minimality of results (tight hulls, fewest constraints) is checked only where well defined.")

prop(
    "C15", "Numbers of any size",
    "With the GMP build nothing depends on the size of the numbers: when a problem is translated by arbitrarily large distances (iterators, "
    "parameters, dates), its rows are scaled, or its dates are stretched by a large factor, the generated AST and C text execute the "
    "translated instances exactly once and in the order of their dates.",
    ["inputs", "configurations"], "all problems and all integers as constants and coefficients",
    "The tests use small numbers: a conversion to int or long anywhere passes them all.",
    ["source/clast.c", "source/isl/constraints.c", "source/isl/domain.c", "source/pprint.c", "source/stride.c", "source/loop.c"],
    [("conversions between isl and GMP numbers", "source/isl/constraints.c"), ("constants in the AST", "source/clast.c"), ("printing", "source/pprint.c")],
    technique="property-based testing: metamorphic (translated and stretched problems), AST and text executed with 128-bit integers and compared with brute-force enumeration",
    note="Distances up to 10^23 and 2^80, factors up to 2^66; cases beyond 127 bits are inconclusive.")

prop(
    "C17", "Integer sequences and constraint matrices",
    "For all integers and sizes, the operations of cloog/int.h on sequences (also in place and on prefixes) give the documented values and touch "
    "nothing else; a matrix read from any layout of the PolyLib format holds the numbers written, printing and reading it back gives the same "
    "matrix, and incomplete matrices are rejected with an error.",
    ["inputs"], "all vectors and matrices",
    "No test calls these functions.",
    ["source/int.c", "source/matrix.c", "include/cloog/int.h.in", "include/cloog/matrix.h"],
    [("sequences", "source/int.c"), ("reading and printing", "source/matrix.c")],
    technique="property-based testing: reference model for sequences, round trip and mutation for matrices",
    note="Matrices up to 5 x 90, numbers up to 110 bits.")


prop(
    "C18", "Options have their documented effect on the shape of the code",
    "For every problem and combination of options, in the generated AST: without -strides all loops have stride 1 (with it, at least 1); with "
    "-otl 0 (and no unrolling) no loop becomes an assignment, with -otl 1 no loop has equal bounds; with -block 1 each assignment starts a "
    "block of its own, with -block 0 there are no blocks; every level before -fsp is set explicitly by a loop or an assignment around the "
    "statements, and with -esp 1 plain affine values are spread from that level on; loops with constant bounds at or below the "
    "-first-unroll level are unrolled (without scalar dimensions); every iterator set is a level of the AST's names and none is set inside the loop of "
    "the same or a deeper level.",
    ["inputs", "configurations"], "all problems and option sets",
    "The tests compare stored outputs of one option set per input.",
    ["source/clast.c", "source/loop.c", "source/options.c", "source/names.c"],
    [("one-time loops, blocks and assignments", "source/clast.c: insert_equation, insert_otl_for, insert_guarded_otl_for, insert_for"),
     ("spreading", "source/clast.c: clast_equal_allow"), ("strides and unrolling", "source/loop.c: loop_recurse, cloog_loop_unroll")],
    technique="property-based testing: random problems x options, invariants of the documented options checked on every node of the AST",
    note="Options as set through CloogOptions; -f, -l and -sh are checked by their effect on the execution (C01, C02) only.")


def write():
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for pid, p in sorted(PROPS.items()):
            f.write(json.dumps({
                "id": pid, "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 build.py fast san",
         "checks": [{
             "property": pid, "quick_cmd": "./check " + pid, "thorough_cmd": "env VERIF_TIER=thorough ./check " + pid,
             "evidence_file": "evidence/%s.json" % pid, "technique": p["technique"], "level": "exploration", "level_note": p["note"]}
             for pid, p in sorted(PROPS.items())],
         "not_applicable": [],
         "notes": "One harness (src/), built by build.py from /repo's working tree; see DESIGN.md. No hooks in /repo."}
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    write()
