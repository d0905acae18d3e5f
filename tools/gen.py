#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json (and checks them against the schemas when jsonschema is there).
The table below is the only place where the properties' texts are kept."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIN, INT, UNC = "pytimize/programs/_linear.py", "pytimize/programs/_integer.py", "pytimize/programs/_unconstrained.py"
UND, DIR = "pytimize/graphs/_undirected.py", "pytimize/graphs/_directed.py"
F = "pytimize/formulations/linear/"
FA, FE, FC, FO, FV, FU = F + "_abstract.py", F + "_equation.py", F + "_constraint.py", F + "_objective.py", F + "_variable.py", F + "_utilities.py"
FIO = "pytimize/formulations/integer/_objective.py"
PG, PL, PD, PS = (f"pytimize/parsers/_{x}.py" for x in ("graph", "linear", "description", "symbol"))
CMP, DSU = "pytimize/utilities/_comparator.py", "pytimize/utilities/_disjoint.py"

T = []
def P(id, title, statement, over, quant, why, files, mech, observe, state=()):
    T.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

I, PR, H, C = "inputs", "programs", "histories", "configurations"
ABS = ("A, b, c, z, inequalities, objective, sign lists", "the program's data", LIN + ":LinearProgram.__init__")

P("C01", "Solving a linear program gives its exact optimum, or none if there is none",
  "For every linear program (max or min, any mix of <=, >= and = constraints, nonnegative, free and negative variables, any constant), solve returns a point that satisfies every constraint and sign and attains the true optimal value, in the program's own variables and order. "
  "optimal_value returns exactly that value, constant included. When the program is infeasible or unbounded both return None, and they always terminate.",
  [PR], "all linear programs with moderate coefficients, including degenerate, redundant, infeasible, unbounded and nearly tied ones",
  "The tests solve a dozen hand-made programs; the claim ranges over every combination of operators, signs, objectives, degeneracy and redundancy, and an infeasible, unbounded or tied program shows up only for particular data.",
  [LIN], [("solve", LIN + ":solve"), ("two phase simplex and pivoting", LIN + ":two_phase_simplex/simplex/simplex_iteration"), ("conversion to equality form and back", LIN + ":to_sef")],
  ["LinearProgram.solve()", "LinearProgram.optimal_value()"], [ABS])
P("C02", "The two-phase simplex returns a solution, a basis and a valid certificate",
  "For every program in standard equality form, two_phase_simplex returns, if an optimum exists, an optimal feasible point that is the basic solution of the returned (1-based) basis, that basis, and a dual certificate of optimality; for an infeasible program it returns no solution and a certificate that proves infeasibility, for an unbounded one a feasible point together with a direction that proves unboundedness. "
  "Linearly dependent rows are handled, the certificate has one entry per row of the given program (resp. per variable) and is accepted by the library's own verifiers, and the program is unchanged.",
  [PR], "all programs in standard equality form: degenerate, with dependent rows, with negative right-hand sides, infeasible, unbounded",
  "The tests compare a handful of outputs literally; whether a certificate proves its claim must be recomputed for each input, and dependent rows, sign changes and degeneracy in phase one are reached by special inputs only.",
  [LIN], [("two_phase_simplex", LIN + ":two_phase_simplex"), ("auxiliary", LIN + ":auxiliary"), ("simplex", LIN + ":simplex")],
  ["two_phase_simplex()", "verify_optimality()", "verify_infeasibility()", "verify_unboundedness()"], [ABS])
P("C03", "Simplex pivots follow Bland's rule from any feasible basis and always end",
  "From every feasible basis (1-based, in any order) of a program in standard equality form, each simplex iteration enters the first improving column and leaves with the smallest index among exact ratio ties, yields the adjacent feasible basic solution and the canonical form of the new basis, and never makes the objective worse. "
  "The iterations, and simplex as a whole, end after finitely many steps, even on degenerate programs on which other rules cycle, with the optimum and its certificate or a certificate of unboundedness.",
  [PR, H], "all programs in equality form, all feasible bases and all pivot sequences that follow, degenerate and classic cycling examples included",
  "A wrong tie-break or entering choice still reaches the optimum on the few programs tested; only tracking every pivot over many degenerate programs separates Bland's rule from a rule that cycles.",
  [LIN], [("simplex_iteration", LIN + ":simplex_iteration"), ("simplex", LIN + ":simplex"), ("canonical form", LIN + ":to_canonical_form")],
  ["simplex()", "simplex_iteration()"], [ABS])
P("C04", "Certificate verifiers accept exactly the vectors that prove the claim",
  "verify_infeasibility accepts a vector y exactly when y certifies that the equality-form program has no feasible point, and verify_unboundedness accepts (x, d) exactly when x is feasible and d is a recession direction that improves the objective without bound. "
  "verify_optimality accepts every dual solution matched by a feasible point of equal value and rejects dual infeasible vectors. A vector of the wrong length is refused with ValueError, and no call changes the program.",
  [I, PR], "all equality-form programs with all candidate certificates: valid, invalid, and valid but for one ingredient",
  "The tests check two or three certificates for one verifier; an error in one of the conditions (a sign, a missing equation) only shows on a certificate that violates exactly that condition.",
  [LIN], [("verify_infeasibility", LIN + ":verify_infeasibility"), ("verify_unboundedness", LIN + ":verify_unboundedness"), ("verify_optimality", LIN + ":verify_optimality")],
  ["return values of the three verifiers"], [ABS])
P("C05", "Conversion to standard equality form is the documented equivalent program",
  "to_sef turns every program into a maximization with equality constraints over nonnegative variables in the documented layout (negative variables replaced by their negatives in place, each free variable followed by its negative twin, one slack or surplus column per inequality at the end, in order), carrying the constant over. "
  "The optimum of the converted program maps back to that of the original, an already converted program is unchanged, and the in-place form changes this program while the other form leaves it untouched and returns an independent one.",
  [PR, C], "all programs in every mix of objective, operators and variable signs, in both forms of the call",
  "The tests compare eight conversions literally; the mapping of columns for every mix and number of free, negative and slack variables is a matter of all combinations.",
  [LIN], [("to_sef", LIN + ":to_sef"), ("is_sef", LIN + ":is_sef")], ["to_sef()", "the converted program's data", "solve() of both"], [ABS])
P("C06", "Bases, basic solutions and canonical forms match their linear algebra definition",
  "For every program in standard equality form and every list of columns (in any order, 1-based), is_basis holds exactly when the columns are as many as the rows and independent, compute_basic_solution is the unique point supported on them, is_basic_solution, is_feasible_basic_solution and is_canonical_form_for agree with the definition, and to_canonical_form gives the equivalent program (same feasible points, same objective value at each) whose basis columns are the identity with zero cost. "
  "Lists that are no basis, and programs not in equality form, are refused with an error, leaving the program as it was.",
  [PR, I], "all equality-form programs, all candidate bases (valid, dependent, out of range, repeated, wrong size) and all points",
  "The tests use three small programs and sorted bases; order, dependence, redundancy and non-membership need many combinations of program and basis.",
  [LIN], [("is_basis and friends", LIN + ":is_basis/is_basic_solution/is_basis_feasible/is_feasible_basic_solution"), ("compute_basic_solution", LIN + ":compute_basic_solution"), ("canonical forms", LIN + ":to_canonical_form/is_canonical_form_for")],
  ["return values", "the canonical program's data"], [ABS])
P("C07", "The dual program is the textbook dual, its dual is the primal, optima agree",
  "For every program, dual gives the program whose matrix, right-hand side, objective, operators and variable signs are those of the textbook dual (max and min in both directions, all sign kinds, constant 0). The dual of the dual is the original without its constant. "
  "Whenever the primal has an optimum the dual has one of equal value (up to the constant), and an unbounded program has an infeasible dual; the primal is unchanged.",
  [PR], "all linear programs in every mix of objective, operators and variable signs", "No test calls it; correspondences of operators and signs are a table with many combinations, and strong duality holds or fails per input.",
  [LIN], [("dual", LIN + ":dual")], ["dual()", "optimal values of both programs"], [ABS])
P("C08", "Read-only calls change nothing and copies never share state",
  "No query, solver, verifier, string, dual or auxiliary construction and no conversion with in_place False changes the program it is called on, even when it fails; an in_place call changes only that program. Programs derived from another (copies, duals, auxiliary programs, converted or canonical forms, relaxations), and the arrays and lists the caller passed in, never share mutable data: later changes to one are not seen by another.",
  [H], "all interleavings of read-only, converting, copying and editing calls over a program and everything derived from it, and later writes to the caller's own buffers",
  "Sharing and half-finished edits show only through a sequence of calls that reads one object after changing another; the tests check copy once.",
  [LIN, INT], [("constructor copies", LIN + ":__init__"), ("copy", LIN + ":copy"), ("in_place handling", LIN + ":to_sef/to_canonical_form/add_constraint/...")],
  ["the data of every live program after each call"], [ABS])
P("C09", "Edits of a program do exactly what they say, or are refused and change nothing",
  "After any sequence of adding constraints, adding variables of each sign, conversions, copies and clearing steps, in place or not, the program's data (matrix, right-hand side, objective, operators, sign lists, constant) is exactly what the edits describe. "
  "An ill-formed edit raises ValueError and changes nothing. Two programs compare equal exactly when all their data is equal, and nothing else equals a program.",
  [H], "all sequences of edits in both forms, well and ill-formed, and all pairs of programs", "No test adds a constraint or a variable; a wrong index or sign list shows only after later edits.",
  [LIN], [("add_constraint/add_variable", LIN + ":add_constraint/add_variable"), ("__eq__", LIN + ":__eq__")], ["the program's properties", "=="], [ABS])
P("C10", "Feasibility, values and optimality of points match the program",
  "is_feasible holds exactly when the point (list or array) satisfies every constraint and every variable's sign up to rounding, and is_solution_optimal holds exactly when it is feasible and attains the true optimum. evaluate is the objective value with the constant, as is value_of, which refuses infeasible points with ValueError. A point of the wrong length is refused with ValueError and no query changes the program.",
  [I, PR], "all programs and all points, including points on every constraint and the solver's own rounded solutions",
  "The tests probe a few clearly feasible or infeasible points of programs with few signs; tight and rounded points and each operator/sign combination need generation.",
  [LIN], [("is_feasible", LIN + ":is_feasible"), ("value_of/evaluate", LIN + ":value_of/evaluate"), ("is_solution_optimal", LIN + ":is_solution_optimal")], ["return values"], [ABS])
P("C11", "Programs accept exactly well-formed data and keep it unchanged",
  "Constructing a linear or integer program from lists or arrays of integers or floats with matching shapes, known operators and objective, and valid, disjoint 1-based variable lists gives a program exposing exactly that data. Anything else (wrong shapes or sizes, unknown operator or objective, variable numbers out of range, a variable listed as both free and negative, wrong types) raises ValueError.",
  [I], "all well-formed data, and all data with one ill-formed ingredient", "The tests try fixed examples of a dozen faults, each alone on one program; the validation must hold at every position, size and container type.",
  [LIN, INT], [("constructor checks", LIN + ":__init__"), ("integral list", INT + ":__init__")], ["ValueError or the properties of the object"], [ABS])
P("C12", "A program's text shows exactly the program",
  "The text of every program reads back as the same program: objective direction, every coefficient with its sign and variable number (zero coefficients left out, rows with none shown as 0), the constant, operators, right-hand sides, and the sign of every variable, up to the number of digits shown.",
  [PR], "all programs with up to fourteen variables and numbers of any magnitude, integers and fractions, negative zero included", "The tests compare fixed texts; sign, alignment, rounding and omitted terms depend on the numbers.",
  [LIN], [("__repr__/__str__", LIN + ":__str__")], ["str(program)"], [ABS])
P("C13", "Recording steps never changes results",
  "Every operation gives the same results and the same program with and without show_steps. Steps recorded earlier are never dropped, the text of the steps contains every one of them, and clearing steps removes them and nothing else; calls with show_steps off record nothing.",
  [PR, C], "all sequences of operations on all programs, in both modes", "No test turns steps on; the recording code runs next to the computation in every operation.",
  [LIN], [("show_steps / steps / steps_string / clear_steps", LIN + ":__append_to_steps")], ["results and data in both modes", "steps", "steps_string"],
  [("steps", "recorded entries", LIN + ":__init__")])
P("C14", "Row reduction gives the reduced row echelon form, and is recognized exactly",
  "to_rref of every matrix is its unique reduced row echelon form, computed without changing the argument. is_in_rref holds exactly for matrices in that form.",
  [I], "all small matrices, of any rank, with zero rows and columns, and reduced ones with one fault", "No test covers either; rank deficiency and pivot order depend on the data.",
  [LIN], [("to_rref", LIN + ":to_rref"), ("is_in_rref", LIN + ":is_in_rref")], ["return values"])
P("C15", "The drawn polyhedron is the feasible region",
  "For every program in two free variables with only <= or only >= constraints, graph_polyhedron fills exactly the polygon of the feasible region within the drawn area: its corners are exactly the region's corners, in cyclic order, and the outline is its closed boundary. Programs with other than two variables or with mixed or equality constraints are refused with ArithmeticError, and the program is never changed.",
  [PR], "all two-variable systems, including parallel, redundant, empty and unbounded ones", "No test draws; corners, parallel lines and constraints through the origin depend on the data.",
  [LIN], [("graph_polyhedron", LIN + ":graph_polyhedron/get_polyhedron_corners")], ["polygons handed to matplotlib"], [ABS])
P("C16", "Branch and bound finds the true optimum of every bounded integer program",
  "For every integer program, pure or mixed, max or min, with any signs, whose integer variables are bounded, branch_and_bound, solve and optimal_value give a feasible point with integer values in the (1-based) integral variables that attains the best value over all such points, or None if there is none. is_solution_optimal agrees with it, the search ends, and the program is unchanged.",
  [PR], "all bounded pure and mixed integer programs", "One test solves one program; wrong pruning or branching shows only when the best point lies in the pruned branch.",
  [INT, LIN], [("branch_and_bound", INT + ":branch_and_bound"), ("solve/optimal_value", INT + ":solve")], ["return values"],
  [("integral_variables", "variables that must be integer", INT + ":__init__")])
P("C17", "An integer program keeps its integrality through every operation",
  "relax gives exactly the linear program without integrality and copy an equal integer program, both independent of the original. is_feasible holds exactly for linearly feasible points that are integral in the integral variables (and value_of refuses the others), and the text is the relaxation's with the integrality added. Conversion to equality form gives a linear program, since slacks need not be integral, and never changes the original.",
  [PR, I], "all pure and mixed integer programs and all points, fractional in one place included", "The tests relax twice; which position is integral matters only in mixed programs with particular points.",
  [INT], [("relax/copy/to_sef", INT + ":relax"), ("is_feasible", INT + ":is_feasible")], ["return values and data"], [("integral_variables", "variables that must be integer", INT + ":__init__")])
P("C18", "Descent methods reach the optimum of smooth convex functions",
  "For every smooth strictly convex function to minimize (concave to maximize) with its gradient (and Hessian), every starting point and valid parameters, steepest_descent and newton_method end at a point whose gradient is within the tolerance, hence near the true optimum, without changing the caller's starting point. "
  "One steepest descent iteration takes the longest step alpha * p^k with sufficient decrease, one Newton iteration the Newton step, and a run limited to i iterations can be continued to give the run of i + j; objectives other than max and min are refused.",
  [I, C], "all strictly convex quadratic-like functions of up to six variables, starts, containers and parameters", "Two tests run one function each; direction, step rule and stopping depend on function, start and parameters together.",
  [UNC], [("steepest_descent/newton_method and iterations", UNC), ("backtracking", UNC)], ["returned points", "evaluations of the given functions"])
P("C19", "Expressions in formulations obey linear algebra and never change operands",
  "Any expression built from variables, indexed variables, numbers and other expressions with +, -, multiplication by numbers, unary signs and augmented forms denotes exactly the linear function it says, whatever side or order the operands have, and constraints and objectives built from it carry exactly that. "
  "No operand is changed by being used, and unsupported operands (products of variables, strings, ...) raise an error instead of being dropped.",
  [PR], "all straight-line programs over variables, numbers and earlier results", "The tests add two or three variables; constants, repeated use and aliasing appear only in longer expressions.",
  [FA, FE, FV, FC, FU], [("operators", FA), ("coefficient storage", FE), ("variables", FV)], ["coefficients of compiled programs"])
P("C20", "A formulation compiles to exactly the program it states",
  "minimize/maximize(...).subject_to(...).where(...) gives the linear program with one row per constraint in order, one column per variable, all terms moved to the left and constants to the right, the objective with its constant, and each variable's sign as stated (free unless bounded by zero through where). "
  "A contradictory or ill-formed where() raises an error and changes nothing, and every query on the formulation answers as the compiled program does.",
  [PR, H], "all formulations with terms on both sides and all sequences of sign statements and queries", "One test compiles one formulation; unused variables, constants and refused statements need generated histories.",
  [FO, FC, FE, FV], [("subject_to", FO), ("where", FO)], ["the compiled program's data", "delegated calls"], [("program", "compiled program", FO)])
P("C21", "An undirected graph behaves like a weighted set of vertices and edges",
  "After any sequence of adding vertices and edges, removing edges, setting weights, copying and rebuilding, the graph's vertices, edges, neighbours, weights and equality are those of the plain mathematical graph, edges being the same in both directions. "
  "An invalid operation raises and changes nothing, and changing a copy or a returned dictionary never changes the graph, and only a graph can equal a graph.",
  [H], "all histories of valid and invalid operations over several graphs", "The tests apply one operation at a time to fixed graphs; bookkeeping kept twice (adjacency and weights) only disagrees after sequences.",
  [UND], [("add/remove/set operations", UND), ("copy", UND + ":copy"), ("__eq__", UND + ":__eq__")], ["all read accessors after every step"], [("graph, edges, vertices", "adjacency and weights", UND + ":__init__")])
P("C22", "Traversals, connectivity, cycles, trees and parts match graph theory",
  "On every undirected graph, is_connected, is_acyclic/is_cyclic, is_tree, partition into components and the empty-graph queries match their definition, breadth and depth first traversal visit every vertex reachable from the start exactly once in the order their queue or stack prescribes under the given ordering (lexical by default), and random traversal lists every vertex of the graph once.",
  [I], "all graphs (forests, cycles, disconnected, complete, isolated vertices) with all starts and orderings", "Only is_tree is tested, on five graphs.",
  [UND], [("traversals", UND + ":traverse"), ("is_connected/is_cyclic/is_tree/partition", UND)], ["return values"])
P("C23", "Cuts, neighbour cuts and degrees are those of the definition",
  "For every graph and digraph and every collection of vertices (set, list, tuple, dictionary, or a single vertex, with names of any length), cut is exactly the set of edges with one end inside (arcs leaving it, for digraphs), ncut the arcs entering it, and degree, out- and in-degree count edges as defined. Unknown vertices are refused with ValueError.",
  [I], "all graphs and digraphs, all subsets in every container, all names", "The tests cut a fixed graph by single-letter names.",
  [UND, DIR], [("cut/degree", UND), ("cut/ncut/degrees", DIR)], ["return values"])
P("C24", "The shortest path is a path, and shortest",
  "For every undirected graph with nonnegative weights and every two vertices, shortest_path returns edges forming a path between them of minimum total weight, in order from the first to the second, and raises ValueError when there is none. formulate_shortest_path gives the minimization over the edges with covering rows only for cuts separating the ends, whose optimum is that length.",
  [I], "all weighted graphs with zero weights, ties, decimals and unreachable ends, and all pairs of ends", "The tests have three graphs; the greedy search errs only for special weights.",
  [UND], [("shortest_path", UND + ":shortest_path"), ("formulate_shortest_path", UND)], ["returned edges", "the program's data and optimum"])
P("C25", "The stable set formulation describes exactly the stable sets",
  "For every graph with weighted vertices, the 0/1 points of the program made by formulate_max_stable_set are exactly the stable sets with their weights as objective values, so its integer optimum is the heaviest stable set; the graph is unchanged.",
  [I], "all small graphs with weighted vertices, without edges included", "One test compares one program literally.",
  [UND], [("formulate_max_stable_set", UND)], ["the program's data, feasibility and optimum"])
P("C26", "A digraph behaves like a set of nodes and capacitated arcs",
  "After any sequence of adding arcs (with and without node demands), removing them (with and without the nodes left bare), setting weights and rebuilding, the digraph's nodes, arcs, arc weights (as used by residuals and flows), degrees and membership queries are those of the plain mathematical digraph. An invalid operation raises and changes nothing, and changing a returned list never changes the digraph.",
  [H], "all histories of valid and invalid operations on digraphs", "No test edits a digraph; bookkeeping disagrees only after sequences.",
  [DIR], [("add_arc/remove_arc/set_arc_weight", DIR)], ["all read accessors after every step"], [("graph, arcs, nodes", "adjacency, weights, demands", DIR + ":__init__")])
P("C27", "Maximum flow algorithms give a maximum flow on every network",
  "On every digraph with nonnegative capacities and every source and sink, ford_fulkerson and preflow_push end with a flow that respects every capacity, conserves flow at every other node and has the maximum value, equal to the minimum cut; both agree and the digraph is unchanged.",
  [I], "all networks with integer, decimal and huge capacities, opposite arcs and cycles", "Ten tests on fixed networks; a flow that is slightly too small or not conserved shows only on networks needing flow to be pushed back.",
  [DIR], [("ford_fulkerson", DIR), ("preflow_push", DIR), ("create_residual", DIR)], ["returned flow values"])
P("C28", "Residual networks are those of the definition",
  "For every network and every flow within capacities, create_residual has exactly the arcs with spare capacity and the reversed arcs with flow, with those amounts as capacities, opposite arcs being added up. A flow above capacity, negative, or on an unknown arc is refused with ValueError, and the network and flow are unchanged.",
  [I], "all networks with all flows, valid and ill-formed", "No test calls it with a partial flow.",
  [DIR], [("create_residual", DIR)], ["arcs and weights of the residual"])
P("C29", "The graph parser reads exactly the four documented formats",
  "GraphParser reads every text in its four formats (`ab`, `name-name`, `ab:2.5`, `name-name:2.5`, separated by single spaces) into exactly the edges and weights (0 when there are none) written, in order, and reports the format's number. Every other text, mixtures of formats included, is refused with ValueError.",
  [I], "all texts in the formats and all texts one edit away", "The tests parse fixed strings.",
  [PG, PD, PS], [("grammar", PG), ("descriptions", PD)], ["return values or ValueError"])
P("C30", "The linear parser reads exactly linear expressions",
  "LinearParser reads every expression such as `2x_1-3.5x_4` into the row whose entry at each variable's number is its signed coefficient and zero elsewhere, in any order of variables, of the requested size or as long as the largest variable. Malformed texts, repeated variables, variable zero and sizes too small for the variables raise an exception, also among the expressions given to parse_multiple.",
  [I], "all linear expressions and all texts one edit away", "The tests parse two strings.",
  [PL], [("grammar", PL)], ["return values or ValueError"])
P("C31", "Comparisons ignore rounding and nothing else",
  "Every comparison of the comparator (<, <=, >, >=, negative, positive, close to zero, integer) treats values differing only by rounding as equal and clearly different values as different. For an array a comparison holds exactly when it holds for every entry (close to zero answers entry by entry), and unknown operators raise ValueError.",
  [I], "all magnitudes and all arrays with one deviating entry", "The tests use fixed values near 1.",
  [CMP], [("comparisons", CMP)], ["return values"])
P("C32", "A disjoint set always knows exactly which items are connected",
  "After any sequence of unions and finds, two items have the same representative exactly when they were joined, the representative is one of the items of the set and changes only through unions, and refused operations (unknown items, duplicates) raise ValueError and change nothing.",
  [H], "all histories over up to 150 items, chains and balanced joins included", "No test covers it; path compression and ranks matter only after histories.",
  [DSU], [("union/find", DSU)], ["representatives and connectivity after every step"], [("parents", "parent of each item", DSU)])
P("C33", "Random programs have the requested shape and range",
  "LinearProgram.random gives, for every size and magnitude, a well-formed program with the requested numbers of constraints and variables, all numbers within the requested magnitude, and every variable classified exactly once as free, negative or nonnegative.",
  [I, C], "all sizes, ranges and states of the random generators", "No test; a classification error appears for some random draws only.",
  [LIN], [("random", LIN + ":random")], ["the program's data"])
P("C34", "Integer formulations compile to integer programs with the right optimum",
  "An integer formulation compiles to an integer program in which every variable is integral, with the stated data and signs; its optimum is the best integer point and it refuses fractional points.",
  [PR], "all bounded integer formulations", "No test; the class and the integral list of the compiled program matter only for programs whose relaxation is fractional.",
  [FIO, FO, INT], [("integer objective", FIO)], ["the compiled program", "solve()/is_feasible()"])
P("C35", "Complementary slackness conditions pair every inequality with its dual",
  "cs_conditions of every program lists exactly one condition per primal inequality and per dual inequality (signed primal variable), each stating that the paired variable is zero or that constraint is tight, with that constraint's exact coefficients and right-hand side, and changes nothing.",
  [PR], "all programs in every mix of objective, operators and signs", "No test; numbering and coefficients depend on the program.",
  [LIN], [("cs_conditions", LIN)], ["the returned conditions"])
P("C36", "The auxiliary program decides feasibility",
  "For every program in standard equality form, auxiliary gives the phase one program: rows with negative right-hand side negated, one artificial variable per row, minimizing the sum of these, all variables nonnegative and constant 0. Its optimum is zero exactly when the program is feasible, and the program is unchanged; other programs are refused.",
  [PR], "all equality-form programs with right-hand sides of any sign", "No test calls it.",
  [LIN], [("auxiliary", LIN)], ["the auxiliary program's data and optimum"], [ABS])
P("C37", "Recorded steps state what was computed",
  "The steps a call records say what it did: after simplex the numbered iterations show the programs of the pivots in order, and the solution, optimal basis and optimality certificate lines hold exactly the values returned (or, for an unbounded program, the line saying so and none of these). "
  "is_feasible and is_basic_solution record the verdict they return, about the vector and basis they were given, naming the entries that are wrong; to_canonical_form records the basis, its columns, their inverse, the cost entries and the y vector of the program as it was; to_sef records the old and new cost vector of a minimization. With show_steps off these queries record nothing.",
  [PR, C], "all programs, vectors and bases, also with steps recorded earlier and with numbers in any notation", "One test looks at the keys of four steps; no test reads a text.",
  [LIN, PD], [("recording", LIN + ":__append_to_steps"), ("texts", PD + ":render_descriptor")], ["steps", "steps_string"], [("steps", "recorded entries", LIN + ":__init__")])

ORACLE = {
 "C01": "exact rational simplex that certifies its own answers", "C02": "exact certificate check", "C03": "exact tableau with Bland's rule", "C04": "exact certificate definitions",
 "C05": "independent exact conversion", "C06": "exact linear algebra", "C07": "independent exact dual and strong duality", "C08": "model-based histories, deep state comparison",
 "C09": "model-based histories", "C10": "exact evaluation and exact optimum", "C11": "fault grammar over constructor data", "C12": "round trip through an independent reader",
 "C13": "differential run with and without steps", "C14": "exact elimination", "C15": "exact polygon clipping", "C16": "exhaustive enumeration", "C17": "exact model",
 "C18": "functions with known optimum, step-by-step reference", "C19": "exact coefficient tracking", "C20": "model-based histories", "C21": "model-based histories",
 "C22": "independent graph algorithms", "C23": "definition", "C24": "exact Dijkstra", "C25": "exhaustive subsets", "C26": "model-based histories",
 "C27": "exact max flow certified by its cut", "C28": "definition", "C29": "independent reader, one-edit mutants", "C30": "independent reader, one-edit mutants",
 "C31": "exact comparison with judged bands", "C32": "model-based histories", "C33": "shape and range invariants", "C34": "exhaustive enumeration", "C35": "exact dual, parsed text", "C36": "definition and exact feasibility",
 "C37": "texts read back and compared with returned values and exact data"}

NOT_APPLICABLE = []

def design():
    """The generated parts of DESIGN.md."""
    import re, subprocess, sys
    code = ("import sys, json; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); sys.path.insert(0, %r);"
            "from pbt import core; core.load_target(); from pbt import registry;"
            "print(json.dumps({k: [p.rule, p.assumptions, [[s.name, s.quick, s.thorough, s.steps] for s in p.subs]] for k, p in registry.load().items()}))" % HERE)
    reg = json.loads(subprocess.check_output(["/opt/venv/bin/python", "-B", "-c", code], text=True))
    props = ""
    for p in T:
        rule, assume, subs = reg[p["id"]]
        props += f"### {p['id']} {p['title']}\n\n{rule}\n\n"
        props += f"* Oracle: {ORACLE[p['id']]}. Observed at: {', '.join(p['anchors']['observe_at'])}.\n"
        props += "* Bounds: " + "; ".join(f"{n} {q} / {t} cases, step budget {k:,}" for n, q, t, k in subs) + ".\n"
        for a in assume:
            props += f"* Assumption: {a}.\n"
        props += f"* Beyond the tests: {p['why_tests_cant']}\n\n"
    found = "".join(f"* {k['property']} `{k.get('commit', k['id'])}` ({k['status']}): {k['what']}\n" for k in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"])
    seeded = "| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n"
    d = os.path.join(HERE, "seeded")
    res = {}
    if os.path.exists(os.path.join(HERE, "tools", "caught.json")):
        res = json.load(open(os.path.join(HERE, "tools", "caught.json")))
    for i in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        m = json.load(open(os.path.join(d, i, "meta.json")))
        seeded += "| " + " | ".join([i, m["property"], m["what_it_breaks"], m["needs"], ", ".join(res.get(i, ["?"])) or "none"]).replace("\n", " ") + " |\n"
    path = os.path.join(HERE, "DESIGN.md")
    s = open(path).read()
    for name, text in (("properties", props), ("findings", found), ("seeded", seeded)):
        a, b = s.index(f"<!-- generated:{name} -->"), None
        b = s.index("<!-- end -->", a)
        s = s[:a] + f"<!-- generated:{name} -->\n" + text + s[b:]
    open(path, "w").write(s)

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in T:
            assert p["statement"].count(". ") <= 2, p["id"]
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    m = dict(version=1,
        setup_cmd="/opt/venv/bin/python check.py --smoke",
        checks=[dict(property=p["id"], quick_cmd=f"/opt/venv/bin/python check.py {p['id']} --tier quick",
                     thorough_cmd=f"/opt/venv/bin/python check.py {p['id']} --tier thorough",
                     evidence_file=f"evidence/{p['id']}.json",
                     technique=f"property-based testing (Hypothesis, shrinking): {ORACLE[p['id']]}", level="exploration",
                     level_note="Generated-input search over " + p["quantifier"]["text"] + "; finite sample, seeded by VERIF_SEED; bounds in DESIGN.md.") for p in T],
        not_applicable=NOT_APPLICABLE,
        notes="No hooks: every check drives the public API of /repo/pytimize, imported from the working tree. Replay: check.py --replay FILE.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    design()
    try:
        import jsonschema
    except ImportError:
        return
    ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in T: jsonschema.validate(p, ps)
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print(len(T), "properties, schemas ok")

if __name__ == "__main__":
    main()
