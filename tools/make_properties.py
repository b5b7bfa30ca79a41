import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":mech,"where":files[0]}]}
    if state: a["state"]=[{"name":n.strip(),"meaning":n.strip(),"where":files[0]} for n in state.split(",")]
    if obs: a["observe_at"]=[obs]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
p("C01","Incremental cardinality encodings enforce exactly the requested bound",
"For every multiset of input literals and every history of extending, reserving, (re-)encoding bound ranges, checkpointing and enforcing, whenever a cardinality encoding hands out assumptions for an upper (lower) bound, the clauses emitted so far together with those assumptions are satisfiable under a full assignment of the inputs exactly when at most (at least) that many inputs are true. A bound inside the last encoded range, or one that cannot be exceeded, can always be enforced, an unreachable lower bound is reported as unsatisfiable, and a bound that is not encoded is never enforced wrongly. The clauses alone never restrict the inputs, auxiliary variables are always freshly allocated, and the reported clause and variable counts are exactly what was emitted.",
["histories","inputs"],"all input literal sequences (duplicates, both polarities), all interleavings of extend/encode/encode-change/reserve/serialise/enforce calls and all bounds, for every cardinality encoding (plain, inverted, double, database-referenced)",
"Tests encode one fixed literal list with one or two ranges in a fixed order; errors appear only for particular orders of widening ranges, extending after encoding, unbalanced trees or specific bounds.",
["src/encodings/card/mod.rs","src/encodings/card/totalizer/mod.rs","src/encodings/card/totalizer/referenced.rs","src/encodings/card/simulators.rs","src/encodings/totdb/mod.rs","src/encodings/nodedb.rs"],
"totalizer node database with per-node, per-value 'already encoded' bookkeeping; only missing clauses are emitted on change calls","inputs, encoded upper/lower value sets, emitted clauses, hardened bounds","public encode_*/enforce_* returns, clause collector, variable manager")
p("C02","Incremental pseudo-Boolean encodings enforce exactly the requested bound",
"For every list of weighted input literals and every history of extending, reserving, (re-)encoding bound ranges, changing precision, checkpointing and enforcing, whenever a pseudo-Boolean encoding hands out assumptions for an upper (lower) bound, the emitted clauses together with the assumptions are satisfiable under a full assignment of the inputs exactly when the weight of the true inputs is at most (at least) that bound, with weights and bounds interpreted at the selected precision. Bounds that were encoded can be enforced, unreachable lower bounds are reported unsatisfiable, bounds that are not encoded are never enforced wrongly, and the offered coarser, next-higher and next-lower bounds are consistent with that meaning. The clauses alone never restrict the inputs, auxiliary variables are fresh, and the reported statistics are exact.",
["histories","inputs"],"all weighted literal sequences (duplicates, equal and very different weights), all interleavings of extend/encode/change/reserve/set-precision/enforce calls and all bounds, for the generalized totalizer, binary adder, dynamic polynomial watchdog, their inverted/double/cardinality simulations and database-referenced variants",
"Weight patterns, duplicate literals, the order in which ranges are widened and inputs added, and precision changes multiply; tests sample a handful of fixed weight lists and orders.",
["src/encodings/pb/mod.rs","src/encodings/pb/gte/mod.rs","src/encodings/pb/gte/referenced.rs","src/encodings/pb/adder.rs","src/encodings/pb/dpw/mod.rs","src/encodings/pb/dpw/referenced.rs","src/encodings/pb/simulators.rs","src/encodings/totdb/mod.rs"],
"incrementally built weighted trees, adder circuits with one comparator, watchdog bit structure with tares; bookkeeping of what has been encoded","weighted inputs, precision, encoded bounds, emitted clauses, hardened bounds","public encode_*/enforce_*/coarse_*/next_* returns, clause collector, variable manager")
p("C03","At-most-one encodings allow exactly the assignments with at most one true input",
"For every list of input literals and every at-most-one encoding (including nested sub-encodings and any group size), the emitted clauses are satisfiable under a full assignment of the inputs exactly when at most one of them is true. This also holds when literals are added after an earlier encode call, several encodings share one collector and variable manager, and reported clause and variable counts are what was emitted.",
["inputs","histories"],"all literal lists of any length (0, 1, group-size boundaries, non-powers of two, mixed polarity) and all encodings/sub-encodings and group sizes",
"Group and grid boundaries (sizes that are not multiples, squares or powers of two) depend on the input length; tests use a single length.",
["src/encodings/am1/mod.rs","src/encodings/am1/pairwise.rs","src/encodings/am1/ladder.rs","src/encodings/am1/bitwise.rs","src/encodings/am1/commander.rs","src/encodings/am1/bimander.rs","src/encodings/am1/twoproduct.rs"],
"split into groups / binary codes / product grid with recursive sub-encodings",None,"clauses handed to the collector")
p("C04","One-shot constraint encodings preserve the constraint's solutions",
"Encoding any cardinality or pseudo-Boolean constraint (upper, lower or equality bound, with duplicate, opposing, negative-weight or zero-weight literals, trivial or unsatisfiable bounds) through the default or any chosen encoder yields clauses that are satisfiable under a full assignment of the constraint's variables exactly when the constraint holds. Reified and implication encodings between literals, clauses, cubes, cardinality and pseudo-Boolean constraints mean exactly the stated implication.",
["inputs"],"all constraints and all encoders, all operand literals of the implication helpers",
"Constraint shape (sign normalisation, duplicates, trivial cases, equality as double bound) selects different code paths; tests check a few shapes with one solver query each.",
["src/encodings/card/mod.rs","src/encodings/pb/mod.rs","src/encodings/atomics.rs","src/encodings/card/simulators.rs","src/encodings/pb/simulators.rs"],
"dispatch on tautology/unsat/clause/assignment cases, then bound encoding and enforcement as unit clauses",None,"clauses handed to the collector")
p("C05","Constraint objects keep their meaning under every operation",
"Constructing a clause, cardinality or pseudo-Boolean constraint from signed weights, and then normalising, inverting, splitting, extending, removing literals, or converting it to another constraint type never changes the set of assignments that satisfy it, and every classification (tautology, unsatisfiable, assignment, clause, cardinality) that is reported is correct. Evaluating a constraint on a partial assignment answers true or false only if all completions agree, and always answers when the counted literals already decide it.",
["inputs"],"all literal lists, weights, bounds and partial assignments",
"Boundary bounds (0, n, below 0, above the weight sum), duplicates and partially assigned literals are combinatorial; tests cover a few fixed constraints on total assignments.",
["src/types/constraints.rs","src/types/mod.rs"],
"sign flipping, bound arithmetic, sorting/deduplication, gcd/unit-weight detection, evaluation by value ranges",None,"returned constraints and ternary values")
p("C06","Instance transformations preserve the set of satisfying assignments",
"Any sequence of adding constraints, extending by another instance, normalising, sanitising, shuffling, re-indexing, converting to clauses or to pseudo-Boolean constraints, and collecting, leaves a satisfiability instance whose models (restricted to the original variables and mapped through the renaming) are exactly the models of the constraints that were added. Evaluation and the reported violated constraint agree with those models, counts and variable information cover everything added, and new variables never collide with used ones.",
["histories","inputs"],"all sequences of construction and transformation operations over arbitrary mixes of clauses, cardinality and pseudo-Boolean constraints",
"Transformations are unit-tested one at a time on one instance; losing a constraint kind or reusing a variable shows only for particular compositions.",
["src/instances/sat.rs","src/instances/mod.rs","src/types/constraints.rs"],
"per-kind constraint lists plus a variable manager, each transformation maps all of them","clause list, cardinality list, pseudo-Boolean list, variable manager","public accessors, clauses of the converted instance")
p("C07","Objectives keep every assignment's cost; optimization instances keep the optimum",
"Under any sequence of adding, updating, increasing and removing soft literals and clauses (positive, negative, equal and different weights, empty, unit, tautological and duplicate clauses), offsets, normalising, re-indexing and converting to soft clauses, soft literals or unweighted form, the cost assigned to every total assignment is exactly the sum of the falsified soft clauses' and satisfied soft literals' weights plus the offset, and reported weights, sums and maxima agree. The same holds for every objective of a multi-objective instance, and hard constraints are never altered by those conversions.",
["histories","inputs"],"all sequences of objective operations, including unweighted/weighted representation switches, for one and many objectives",
"The representation silently switches between unweighted and weighted forms depending on history, and normalisation merges opposing and duplicate literals; only few combinations appear in tests.",
["src/instances/opt.rs","src/instances/multiopt.rs"],
"two internal representations with conversions, hash maps of soft literals/clauses, offset bookkeeping","soft literals, soft clauses, offset","evaluate/cost/into_* results")
p("C08","Writing an instance and reading it back gives the same instance",
"For every satisfiability, optimization or multi-objective instance and every supported format, writing option and compression, reading the written file back succeeds and gives an instance with the same satisfying assignments and, up to the constant the format cannot store, the same objective values. Reading then writing then reading again is stable, and formats that cannot represent the instance are refused instead of losing constraints.",
["inputs","configurations"],"all instances (empty, empty clauses, negative literals, large weights, several objectives), formats DIMACS CNF/WCNF/MCNF and OPB with every option",
"Round trips depend on option combinations, signs, offsets and empty parts; tests read fixed files and write a few tiny instances.",
["src/instances/fio/dimacs.rs","src/instances/fio/opb.rs","src/instances/fio/mod.rs","src/instances/sat.rs","src/instances/opt.rs","src/instances/multiopt.rs"],
"line writers and winnow-based line parsers",None,"written bytes and parsed instances")
p("C09","Parsers accept exactly the intended language and never crash",
"For every byte sequence, parsing it as DIMACS CNF, WCNF (both generations), MCNF or OPB ends with either an instance or an error, never a panic, hang or abort. Every file in the documented (leniently interpreted) format is accepted and every constraint, weight, operator, hard/soft distinction and objective in it has exactly the meaning the format assigns; a malformed line is reported as an error rather than being skipped or misread.",
["inputs"],"all files: valid token sequences with every operator, sign, spacing and comment placement, and their mutations/truncations",
"The set of inputs is unbounded and malformed numbers, overflows, or unusual operators are not in the sample files.",
["src/instances/fio/dimacs.rs","src/instances/fio/opb.rs","src/instances/fio/mod.rs","src/instances/sat.rs","src/instances/opt.rs","src/instances/multiopt.rs"],
"header/body parser iterators over lines, winnow combinators, integer conversions",None,"parsed data items or errors")
p("C10","Incremental solvers answer correctly after every call history",
"After any sequence of adding clauses, solving, solving under assumptions and querying, every solver interface reports satisfiable exactly when the clauses added so far (with the current assumptions) are satisfiable, its model satisfies all of them and reports unconstrained variables consistently, and a returned core consists of negations of current assumptions that are jointly inconsistent with the clauses. Values, solutions and cores are only available in the matching state, where they reflect the last query, and otherwise a state error naming the actual state is returned.",
["histories"],"all interleavings of clause additions, queries (with empty, repeated, contradictory or unknown-variable assumptions) and result accesses for each solver crate and solver wrapper",
"State machines across calls have many orders; tests run fixed solve sequences on fixed instances.",
["cadical/src/lib.rs","minisat/src/core.rs","minisat/src/simp.rs","glucose/src/core.rs","glucose/src/simp.rs","kissat/src/lib.rs","batsat/src/lib.rs","src/solvers/mod.rs","src/solvers/simulators.rs"],
"FFI wrappers around incremental solvers that cache a result state","internal solver state (input/sat/unsat/unknown), clause set, last assumptions","Solve/SolveIncremental trait methods")
p("C11","Solver controls and statistics are faithful",
"Limits, interrupts, terminators, phases, freezing, option and configuration setting, learners, propagation and literal flipping never change the answer of a query other than turning it into an explicit interruption; propagated literals and conflicts, flippable literals, learned clauses and reported core/model facts are implied by the clauses. Statistics (queries by outcome, clauses, variables, average clause length) equal what the history of calls implies.",
["histories","schedules"],"all interleavings of control calls with clause additions and queries, and interrupts at any point of a running query",
"Controls interact with solver state only in specific orders; tests exercise each control once.",
["cadical/src/lib.rs","cadical/src/prooftracer.rs","minisat/src/core.rs","minisat/src/simp.rs","glucose/src/core.rs","glucose/src/simp.rs","kissat/src/lib.rs","batsat/src/lib.rs","src/solvers/mod.rs","src/solvers/simulators.rs"],
"callback trampolines, counters updated around FFI calls","statistics counters, attached callbacks, limits","trait methods and callbacks")
p("C12","Assignments and external solver output are read faithfully",
"For every solver output text, the reported result is the one stated by its status line, the assignment is exactly the union of its value lines, and malformed, contradictory or missing lines are errors; running an external solver on any instance gives the same verdicts and a model of it. Assignment operations (assign, clear, truncate, replace, extend, iterate, print) behave like a finite partial map from variables to truth values, and literals and variables convert to and from external integer representations without loss or with an explicit error.",
["inputs","histories"],"all solver output texts and all sequences of assignment operations, all literal/variable indices up to the maximum",
"Value-line splitting, signs and index limits are unbounded; tests include a few fixed logs.",
["src/types/mod.rs","src/instances/fio/mod.rs","src/solvers/external.rs"],
"line parsing of s/v lines, vector-backed assignments, packed literal representation","assignment vector","returned assignments, errors")
p("C13","Emitted proofs are valid for what they claim",
"Every proof written while encoding constraints with certification is a syntactically valid proof in which each step is derivable from the input constraints and the earlier steps, constraint identifiers returned to the caller denote exactly the constraint just derived, and the emitted clauses are derived from the constraint being encoded. Deleting or moving constraints never invalidates later references.",
["histories","inputs"],"all certified encodings and bounds, all interleavings of proof-writer operations",
"Identifier bookkeeping and derivation arithmetic depend on tree shape and bounds; tests without a proof checker installed compare one or two snapshots.",
["pigeons/src/lib.rs","pigeons/src/ops.rs","pigeons/src/types.rs","src/encodings/cert.rs","src/encodings/card/cert.rs","src/encodings/pb/cert.rs","src/encodings/totdb/cert.rs"],
"proof writer with a constraint-id counter; cutting-planes derivations for totalizer definitions","constraint database: id to constraint","the written proof text and returned ids")
p("C14","Variable managers hand out fresh variables and consistent renamings",
"After any sequence of requesting variables, marking variables used, raising the next free variable, combining with another manager, forgetting and re-indexing, a newly requested variable was never handed out or marked used before (unless forgotten), the reported maximum and count cover all used variables, and the same key or object always yields the same variable. A renaming maps distinct variables to distinct variables and its reverse is its exact inverse on every variable it has produced.",
["histories"],"all operation sequences on the plain, re-indexing, object-keyed and randomly re-indexing managers",
"Freshness is a history property; tests allocate a few variables in order.",
["src/instances/mod.rs"],
"next-free counter, forward map and reverse vector","next free variable, forward and reverse maps","returned variables")
p("C15","The C interface behaves like the native encodings",
"For every history of calls through the C interface (add, reserve, encode, enforce, precision and range settings, with any bound pattern), return codes, emitted clauses and assumption literals give exactly the bound semantics of the corresponding native encoding. Invalid literals, invalid bounds, invalid states and unreachable bounds are reported by the documented return code without changing the encoding.",
["histories","inputs"],"all call sequences and arguments valid under the documented pointer contract",
"The C tests run one fixed scenario per encoding.",
["capi/src/encodings/mod.rs","capi/src/encodings/card.rs","capi/src/encodings/pb.rs","capi/src/encodings/am1.rs","capi/src/encodings/dpw.rs"],
"extern C wrappers converting integers, ranges and errors and a clause-collector callback","boxed encoding behind an opaque pointer","return codes and callback literals")
p("C16","Command-line tools transform problems without changing them",
"Converting between file formats, shuffling, splitting objectives, and exporting to other input formats yields a file describing the same feasible assignments (up to renaming and auxiliary variables) with the same objective values up to the documented constant; checking a solution accepts exactly feasible assignments, enumeration lists every model exactly once and propagation reports exactly the implied literals. Generated benchmark encodings have exactly the solutions and objective values of the underlying combinatorial problem.",
["inputs","configurations"],"all input files and option combinations of each tool, all generated problem instances",
"The tools have almost no tests.",
["tools/src/bin","tools/src/encodings","tools/src/parsing.rs"],
"small pipelines over parsing, conversion and writing",None,"output files")
p("C17","The shared encoding database keeps nodes consistent",
"After any sequence of inserting leaves, dummies, nodes with offsets, multipliers and length limits, merging and removing subtrees, each node's reported values, maximum, and depth match the multiset of leaves below it, defining any output of any node yields clauses that mean exactly that output, and draining part of the database leaves every remaining reference valid. Already defined outputs are reused rather than redefined with a different meaning.",
["histories"],"all sequences of node insertion, merging, defining outputs in either direction, draining and resetting",
"Offsets, divisors and drains of shared nodes combine in ways fixed tests do not reach.",
["src/encodings/nodedb.rs","src/encodings/totdb/mod.rs"],
"vector of nodes addressed by id with connection offset/multiplier/divisor","nodes and connections, per-output literal and encoded flags","node queries and emitted clauses")
p("C18","MaxSAT search returns an optimal solution",
"Solving an optimization instance returns no solution exactly when the hard constraints are unsatisfiable, and otherwise an assignment that satisfies all hard constraints together with exactly its cost, which is minimal among all assignments. This holds whichever solver and objective encoding is used, whatever the mix of soft literals, soft clauses, offsets and cardinality or pseudo-Boolean constraints.",
["inputs","configurations"],"all optimization instances, solvers and objective encodings",
"Optimality on arbitrary instances (variables occurring only in the objective, duplicate or opposing soft literals, empty instances) cannot be sampled by two fixed files.",
["src/algs/maxsat.rs","src/instances/opt.rs","src/encodings/pb/mod.rs"],
"solution-improving search with an incrementally tightened objective encoding","incumbent, enforced bound","returned assignment and cost")
json.dumps(P)
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
