#!/usr/bin/env python3
"""Writes properties.jsonl (the texts live here so that they are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "observe_at": observe or [], "hook_needed": None}})

prop("C01", "A satisfiable answer is a complete model of the given formula",
 "Whenever solving reports a formula satisfiable, the returned list holds exactly one literal for every variable 1..n in increasing order of variable, and that assignment satisfies every clause the user gave. This includes variables that occur in no clause, variables removed by pre- or in-processing, and clauses that are tautologies or repeat literals.",
 ["inputs", "configurations"], "all CNF formulas the loader accepts (any clause lengths, units, duplicates, tautologies, gaps in variable numbers), all search settings",
 "The unit tests solve one file (sample.cnf) and a dozen formulas with at most three variables; models after elimination, in-processing or thousands of conflicts are never compared with the input clauses (the built-in validator only looks at the clauses still in the database).",
 ["src/solver/search.rs", "src/assign/stack.rs", "src/assign/propagate.rs", "src/solver/conflict.rs", "src/processor/eliminate.rs", "src/processor/simplify.rs", "src/cdb/db.rs", "src/cdb/vivify.rs"],
 [("extend_model rebuilds values of eliminated variables", "src/assign/stack.rs"), ("search stops when no variable is unassigned", "src/solver/search.rs"), ("validator run on the extended model", "src/solver/search.rs")],
 ["Certificate::SAT returned by SolveIF::solve and Certificate::try_from"])

prop("C02", "Unsatisfiable is reported exactly for formulas that have no model",
 "Without a resource limit, solving any accepted formula ends with a verdict and never with an internal error, and the verdict is UNSAT only if the formula has no model. In particular a formula built around a known model is always reported satisfiable.",
 ["inputs", "configurations"], "all accepted CNF formulas: every formula over few variables, random k-SAT around the threshold, pigeon hole, parity, colouring, circuit equivalence, planted instances; all search settings",
 "A wrong UNSAT needs a particular interleaving of learning, backjumping, reduction, vivification and elimination; the tests solve one unsatisfiable file and compare a few tiny formulas.",
 ["src/solver/search.rs", "src/solver/conflict.rs", "src/assign/propagate.rs", "src/processor/eliminate.rs", "src/processor/subsume.rs", "src/processor/simplify.rs", "src/cdb/db.rs", "src/cdb/vivify.rs", "src/assign/trail_saving.rs"],
 [("conflict analysis derives implied clauses", "src/solver/conflict.rs"), ("root level conflict means UNSAT", "src/solver/search.rs"), ("reuse of saved propagations", "src/assign/trail_saving.rs")],
 ["SolverResult of SolveIF::solve"])

prop("C03", "Every UNSAT answer comes with a valid DRAT refutation of the input",
 "When certification is on and solving reports UNSAT, the saved certificate is a well-formed DRAT proof that refutes the clauses the user gave: every added clause is a RUP or RAT consequence of what precedes it, deletions notwithstanding, and the empty clause is derived. This holds however long the proof is and whichever simplifications ran.",
 ["inputs", "configurations"], "all unsatisfiable CNF formulas solved with certification on, over all search settings and proof lengths (including proofs longer than the internal write buffer)",
 "No test writes a certificate at all; validity depends on the order of additions and deletions in every simplification path.",
 ["src/cdb/unsat_certificate.rs", "src/cdb/db.rs", "src/cdb/vivify.rs", "src/processor/eliminate.rs", "src/processor/subsume.rs", "src/solver/search.rs", "src/solver/conflict.rs", "src/solver/build.rs"],
 [("each clause change is mirrored in the certificate", "src/cdb/db.rs"), ("buffered writer with flush and final line", "src/cdb/unsat_certificate.rs")],
 ["the proof file written by save_certification"])

prop("C04", "Every way of loading a formula yields the same problem",
 "Loading a formula as a list of clauses, as a DIMACS file, or clause by clause into an empty solver gives the same verdict, models of the same formula over the declared variables, whether or not the input is contradictory. Comments, blank lines, extra white space, line breaks anywhere between the literals and several clauses on a line do not change the meaning of a DIMACS file.",
 ["inputs"], "all formulas times all layouts of the same DIMACS content",
 "The tests load four fixed, uniformly laid out files and never compare the routes.",
 ["src/solver/build.rs", "src/types/cnf.rs", "src/solver/mod.rs"],
 [("header reader", "src/types/cnf.rs"), ("clause reader", "src/solver/build.rs"), ("vector reader", "src/solver/build.rs")],
 ["Solver::try_from(&Path), Solver::build, Solver::try_from((Config, &[V])), SatSolverIF::add_clause"])

prop("C05", "Building a problem step by step solves the problem that was built",
 "After any sequence of adding variables, clauses and assignments, each call gives the documented result (acceptance, invalid literal, conflict with an existing assignment), rejected calls leave the problem unchanged, and solving then answers for exactly the conjunction of everything accepted over the variables added so far. A solver that reported a conflict while building never afterwards reports a model of the conflicting parts.",
 ["histories"], "all sequences of add_var, add_clause, add_assignment (valid and invalid arguments) followed by solve",
 "The documentation examples try two fixed sequences on an 8-variable file; orders that mix new variables, units, falsified literals and rejected calls are not tried.",
 ["src/solver/build.rs", "src/assign/stack.rs", "src/assign/heap.rs", "src/cdb/db.rs", "src/state.rs"],
 [("range checks on literals", "src/solver/build.rs"), ("NewVar event extends every per-variable table", "src/solver/build.rs")],
 ["SatSolverIF results, SolveIF::solve"])

prop("C06", "Malformed input is rejected with the documented error, never mis-solved",
 "A literal 0, a literal or a count beyond what can be represented or outside the declared variables, a file that does not exist, has no header or a broken header is answered with the documented error value on every loading route, without a crash and without solving some other formula. An empty clause makes the problem UNSAT (or is reported as an empty clause), wherever it stands.",
 ["inputs", "fault_sequences"], "all malformed variants of well-formed inputs: out-of-range and zero literals, missing files, missing or damaged headers, empty clauses at any place",
 "Tests try one vector holding 0 and two out-of-range literals; no malformed file is loaded.",
 ["src/solver/build.rs", "src/types/cnf.rs", "src/solver/mod.rs"],
 [("literal range check", "src/solver/build.rs"), ("header parse", "src/types/cnf.rs")],
 ["Err values of the constructors"])

prop("C07", "The verdict does not depend on search and simplification settings",
 "For a fixed formula every combination of the tuning parameters that users may set (elimination on or off and its limits, reduction thresholds, restart threshold, decay rates) leads to the same verdict, with a valid model whenever it is satisfiable. Turning on progress output or certification does not change the verdict or the model either.",
 ["configurations", "inputs"], "all formulas times all combinations of numeric tuning parameters within their meaning",
 "The test-suite only ever runs the default configuration.",
 ["src/config.rs", "src/solver/search.rs", "src/processor/simplify.rs", "src/processor/eliminate.rs", "src/cdb/db.rs"],
 [("settings are copied into the sub-modules", "src/config.rs")],
 ["SolverResult under different Config values"])

prop("C08", "Resource limits end the search with their error, never with a wrong answer",
 "With a clause limit or a time limit, solving ends with a correct verdict or with the error that belongs to the limit; a search that outlasts its time limit is stopped. A limit that is not reached changes nothing: a run whose database stays below the clause limit, or which ends well within the time limit, gives the verdict of the unlimited run.",
 ["configurations", "fault_sequences"], "all clause limits (tiny to huge) and time limits on formulas of all sizes",
 "No test sets a limit.",
 ["src/cdb/db.rs", "src/solver/search.rs", "src/processor/eliminate.rs", "src/state.rs"],
 [("check_size compares the database with the limit", "src/cdb/db.rs"), ("elapsed time is compared at the end of a stage", "src/solver/search.rs")],
 ["Err(OutOfMemory), Err(TimeOut)"])

prop("C09", "Solving is reproducible, and copies of a solver are independent",
 "Solving the same input with the same settings twice, in one process or in two, gives the same answer, the same model and the same search statistics and certificate. A cloned solver solves exactly like its original, and using the clone first does not change what the original answers or certifies.",
 ["inputs", "histories"], "all formulas, all settings, repetitions within a process and across processes, clones taken before or between building steps",
 "A single run can never show irreproducibility; no test repeats a run or clones a solver.",
 ["src/solver/search.rs", "src/assign/select.rs", "src/cdb/sls.rs", "src/cdb/unsat_certificate.rs", "src/solver/mod.rs"],
 [("no randomness, no address or hash order in decisions", "src/assign/select.rs"), ("a cloned certificate store is inactive", "src/cdb/unsat_certificate.rs")],
 ["answers, counters of conflicts, decisions and propagations, proof bytes"])

prop("C10", "The splr command reports the true result in its outputs and exit code",
 "For a readable problem the command exits with 10 and a satisfying assignment, or with 20 and UNSATISFIABLE, consistently on standard output and in the result file it names, in the documented directory and file; the assignment lists every variable and ends with 0. With certification on, an UNSAT result leaves a valid proof in the named file of the output directory, if that can be created; a result whose file can't be created goes to standard output. Only a resource limit, by option or by SPLR_TIMEOUT, that is reached allows for UNKNOWN with exit code 0, and unreadable input gives neither verdict.",
 ["inputs", "configurations"], "all formulas times all documented command line options (result file or standard output, directories, quiet, certify, colour, limits)",
 "The command is not run by any test.",
 ["src/bin/splr.rs", "src/config.rs", "src/solver/build.rs"],
 [("result reporting", "src/bin/splr.rs"), ("argument parsing", "src/config.rs")],
 ["exit code, stdout, answer file, proof file"])

prop("C11", "The model checkers accept exactly the satisfying assignments",
 "For any formula and any assignment given as literals, the validation interface and the dmcr command accept it if and only if it is consistent and satisfies every clause (a partial list is taken together with what the formula's own unit clauses fix); a rejected total assignment is reported with a clause it falsifies, literals out of range are rejected without a crash. A formula that is refuted while it is loaded has nothing to be accepted. Answers of the splr command are always accepted and every falsifying change of an answer is rejected.",
 ["inputs"], "all formulas times all total, partial, contradictory and repeated literal lists, in every accepted answer file layout",
 "The tests accept one partial assignment of a formula without clauses.",
 ["src/solver/validate.rs", "src/bin/dmcr.rs", "src/cdb/db.rs", "src/assign/stack.rs"],
 [("inject_assignment then strict validation of every clause", "src/solver/validate.rs"), ("answer file reader", "src/bin/dmcr.rs")],
 ["ValidateIF results, messages of dmcr"])

prop("C12", "The CNF container keeps exactly the clauses and units put into it",
 "A CNF object built from clauses, grown by pushes of clauses and loaded from a file denotes the conjunction of what was put in: its clause and variable counts describe its content, and dumping it to a file and reading that file back gives an equivalent problem for this module and for the solver. A file that is missing, is not a text, has no proper header, or (without repeated clauses) has another number of clauses than its header says is refused with an error, never with a crash.",
 ["inputs", "histories"], "all sequences of pushes and merges followed by dump and load",
 "The module's tests load two files and push into one object without reading anything back.",
 ["src/cnf/mod.rs"],
 [("clause and assignment containers", "src/cnf/mod.rs"), ("dump and load", "src/cnf/mod.rs")],
 ["CNF methods, dumped files"])

prop("C13", "A dumped solver state is a DIMACS file equivalent to the problem",
 "Dumping a solver as CNF at any point between construction and the start of solving writes a well-formed DIMACS file whose header matches its content and which has exactly the models of what was loaded; dumping does not change the solver. A dump after solving is still well-formed with a true header, has a model if the problem has one, and the same models if elimination was off.",
 ["inputs", "histories"], "all formulas and building sequences followed by a dump, with or without a search before it",
 "No test dumps a solver.",
 ["src/cdb/db.rs", "src/solver/build.rs"],
 [("dump_cnf", "src/cdb/db.rs")],
 ["the file written by SatSolverIF::dump_cnf"])

prop("C14", "Literal, variable and clause identifiers convert without loss",
 "Signed integers, internal literals, variable/sign pairs, array indices and clause identifiers convert into each other without loss and without collision: conversions compose to the identity, negation is an involution that flips only the sign, and the order and index used for storage are consistent with the external number.",
 ["inputs"], "all non-zero 32-bit numbers within the supported range of variables",
 "The tests convert a handful of literals.",
 ["src/types/lit.rs", "src/types/clause.rs", "src/types/idx.rs", "src/types/flags.rs", "src/types/ordered_proxy.rs"],
 [("encoding of sign into the lowest bit", "src/types/lit.rs")],
 ["From/Into implementations, Not, indexing"])

prop("C15", "Restart stages follow the Luby sequence without end",
 "The Luby iterator, advanced n times, stands at the next element of the mathematical Luby sequence (the one-based n+1st) at every position, and the stage schedule derived from it starts each new stage exactly when the number of learnt clauses since the previous one reaches the current span, with spans, cycles and segments that follow the sequence and its maxima.",
 ["histories"], "all prefixes of the sequence and all histories of stage ends",
 "The test compares a short prefix.",
 ["src/types/luby.rs", "src/solver/stage.rs"],
 [("LubySeries", "src/types/luby.rs"), ("StageManager::prepare_new_stage", "src/solver/stage.rs")],
 ["LubySeries::next, StageManager accessors"])

prop("C16", "Moving averages report the average of the values fed to them",
 "After any finite sequence of updates each moving-average object reports its defining average of the values fed: it stays within the range of the values, is exact for constant input, its trend is the ratio of the fast to the slow average, and resets and span changes act only as documented.",
 ["histories"], "all sequences of updates, resets and span changes with finite values",
 "The module is only exercised indirectly.",
 ["src/types/ema.rs"],
 [("exponential update rules", "src/types/ema.rs")],
 ["EmaIF and EmaMutIF"])

prop("C17", "Unit propagation finds all implied literals and only those",
 "After any sequence of decisions, propagations and backtracks, propagation either reports a clause that really is falsified or leaves no clause falsified and none unit: the assigned literals are exactly the decisions and what unit resolution implies from them. Backtracking restores exactly the assignments made up to the target level, including the root assignments, and at any time the views of the assignment (trail, sizes per level, values, and which clauses are satisfied or unit) agree.",
 ["histories", "inputs"], "all clause sets and all histories of decisions, propagations, backtracks, root assignments and clause removals",
 "Tests propagate two or three literals over two hand-written clauses.",
 ["src/assign/propagate.rs", "src/assign/stack.rs", "src/assign/trail_saving.rs", "src/cdb/db.rs", "src/cdb/watch_cache.rs", "src/cdb/binary.rs"],
 [("two watched literals with cached blockers", "src/assign/propagate.rs"), ("binary link lists", "src/cdb/binary.rs"), ("trail saving", "src/assign/trail_saving.rs")],
 ["PropagateIF, AssignIF accessors"])

prop("C18", "The clause database stays consistent over every history of changes",
 "After any sequence of registering, removing and strengthening clauses the database holds exactly the clauses it should: live clauses keep their literals, removed ones are gone, registering a two-literal clause again is recognised, and every live clause can still be found through both of its watched literals or its binary links. The published counts of clauses agree with the content.",
 ["histories"], "all sequences of clause creation, removal, literal removal and reduction on formulas of all shapes",
 "Tests create and delete two or three clauses.",
 ["src/cdb/db.rs", "src/cdb/binary.rs", "src/cdb/watch_cache.rs", "src/cdb/mod.rs"],
 [("watch and link lists are updated with every change", "src/cdb/db.rs"), ("free list of dead clauses", "src/cdb/db.rs")],
 ["ClauseDBIF iterators, counts and binary_links"])

prop("C19", "Preprocessing preserves satisfiability and its models extend to the input",
 "Running clause subsumption and variable elimination on a formula reports a contradiction only if the formula has no model; otherwise the remaining clauses and root assignments have a model iff the input has one, mention no eliminated variable, and each model of the remainder extends through the recorded elimination information to a model of the input.",
 ["inputs", "configurations"], "all formulas (satisfied clauses, units, subsumption chains, pure literals, gates) times the limits on occurrence, growth and clause length",
 "Tests run the eliminator on two files and assert that something was done.",
 ["src/processor/eliminate.rs", "src/processor/subsume.rs", "src/processor/simplify.rs", "src/processor/heap.rs", "src/assign/stack.rs"],
 [("resolvents replace the clauses of an eliminated variable", "src/processor/eliminate.rs"), ("elimination stack for model extension", "src/processor/eliminate.rs")],
 ["EliminateIF, clause database after simplify, extend_model"])

prop("C20", "Vivification only replaces clauses by stronger implied ones",
 "Vivifying a clause database keeps it logically equivalent to the input together with the root assignments made, and reports a contradiction only if there is one; no clause becomes longer and none disappears unless what remains still implies it.",
 ["inputs", "histories"], "all clause sets, with and without learnt clauses and earlier root assignments, repeated runs",
 "One test solves a single file.",
 ["src/cdb/vivify.rs", "src/assign/propagate.rs", "src/solver/conflict.rs"],
 [("analysis of the conflict under negated literals", "src/cdb/vivify.rs")],
 ["VivifyIF::vivify and the clause database after it"])

prop("C21", "Forgetting learnt clauses never drops a clause of the problem",
 "Reducing the learnt clauses, whatever policy and threshold, and dropping all of them, removes only clauses that were learnt: every clause of the problem survives with its literals, and propagation afterwards still finds every consequence of the surviving clauses.",
 ["histories", "configurations"], "all mixes of permanent and learnt clauses, all reduction policies and thresholds, repeated reductions interleaved with learning",
 "No test calls reduction directly.",
 ["src/cdb/db.rs", "src/solver/stage.rs"],
 [("only clauses flagged as learnt are candidates", "src/cdb/db.rs"), ("locked reasons are kept", "src/cdb/db.rs")],
 ["ClauseDBIF::reduce, ClauseDBIF::reset, clause iterator"])

prop("C22", "Every supported build configuration gives correct answers",
 "Builds with the optional heuristics and logic processors switched on or off (other than the ones marked as not working or for debugging) compile and solve every formula correctly: the verdicts agree with the default build's, models satisfy the formula and certificates are valid.",
 ["configurations", "inputs"], "the documented cargo features (singly removed from or added to the default set, and in combination) times formulas",
 "Only the default feature set is tested.",
 ["Cargo.toml", "src/assign/evsids.rs", "src/assign/learning_rate.rs", "src/cdb/sls.rs", "src/cdb/db.rs", "src/solver/conflict.rs", "src/solver/search.rs", "src/assign/select.rs"],
 [("conditional compilation", "Cargo.toml")],
 ["answers of differently built libraries"])

prop("C23", "Decisions pick an unassigned variable of the highest activity until none is left",
 "Whatever the history of decisions, backtracks, rewards and rebuilds of the order, as long as some variable is unassigned and not eliminated the next decision is such a variable, and repeated decisions assign every variable. After the order has been rebuilt, and as long as activities only grow and no variable loses its value, no other candidate has a higher activity than the one decided.",
 ["histories"], "all histories of decisions, backtracks, activity updates, eliminations and new variables",
 "One test inspects the heap after building it.",
 ["src/assign/heap.rs", "src/assign/select.rs", "src/assign/stack.rs", "src/assign/learning_rate.rs"],
 [("binary heap indexed by variable", "src/assign/heap.rs")],
 ["VarSelectIF::select_decision_literal"])

prop("C24", "No input makes the solver touch memory out of bounds or break its own checks",
 "Loading and solving any accepted formula never accesses a container outside its bounds, never overflows an integer, never panics and never violates an internal assertion of a build with those checks enabled. The answers of such a build are the answers of the release build.",
 ["inputs", "configurations", "histories"], "all accepted formulas, settings and building sequences, in a build with bounds, overflow and debug assertion checks",
 "The default build disables bounds checks; the few formulas in the tests cannot exercise all unchecked accesses.",
 ["src/assign/propagate.rs", "src/assign/stack.rs", "src/cdb/db.rs", "src/cdb/watch_cache.rs", "src/processor/simplify.rs", "src/processor/heap.rs", "src/solver/conflict.rs"],
 [("indices derived from literals and clause ids are in range by construction", "src/types/lit.rs")],
 ["absence of panics and aborts in a checked build"])

prop("C25", "Clause minimisation and completion by binary clauses add only consequences",
 "Shortening a clause with the binary clauses of the database yields a subset of its literals that the database still implies together with the original clause, keeping the leading literal; completing the network of binary clauses adds only clauses implied by the database.",
 ["inputs", "histories"], "all databases of binary and longer clauses and all candidate clauses",
 "No test calls either operation.",
 ["src/cdb/db.rs", "src/cdb/binary.rs"],
 [("minimize_with_bi_clauses", "src/cdb/db.rs"), ("complete_bi_clauses", "src/cdb/db.rs")],
 ["ClauseDBIF::minimize_with_bi_clauses, ClauseDBIF::complete_bi_clauses"])

prop("C26", "Local search reports the true number of falsified clauses",
 "The local search over a total assignment returns the number of clauses falsified by the assignment it was given and by the assignment it leaves behind, keeps the assignment total, never changes the clauses, and stops at once when nothing is falsified.",
 ["inputs"], "all formulas, total starting assignments and step limits of at least one",
 "The local search is not exercised by any test.",
 ["src/cdb/sls.rs"],
 [("stochastic_local_search", "src/cdb/sls.rs")],
 ["StochasticLocalSearchIF::stochastic_local_search"])

prop("C27", "Whatever ends a run, everything it derived holds",
 "When a run ends with a model, at a clause limit or at a time limit instead of a refutation, every line written to the certificate so far is still a sound step (a RUP or RAT consequence of the input and the lines before it), and every clause and root assignment left in the solver follows from the input and those steps. A returned model also satisfies every clause left in the solver, learnt ones included.",
 ["inputs", "configurations"], "all formulas and settings, with clause limits and time limits that end the search anywhere",
 "No test looks at a certificate or at the learnt clauses, let alone after a run that was cut short; a single unsound lemma is invisible in the verdict of most runs.",
 ["src/solver/conflict.rs", "src/solver/search.rs", "src/cdb/db.rs", "src/cdb/vivify.rs", "src/cdb/unsat_certificate.rs", "src/processor/eliminate.rs", "src/processor/subsume.rs"],
 [("every new, strengthened and removed clause is mirrored in the certificate", "src/cdb/db.rs"), ("learnt clauses are resolvents", "src/solver/conflict.rs")],
 ["the certificate file, the clause database and the assignment after SolveIF::solve"])

prop("C28", "Published statistics agree with the state of the solver",
 "After loading and after every end of solving, the published numbers of variables, unassigned, asserted and eliminated variables, clauses, two-literal clauses and learnt clauses are those of the variables and clauses that are really there, and the record of a finished search shown to users repeats the counters it stands for; each decision, conflict and restart counts once, and the LBD of a clause is the number of its decision levels above the root. Whether or not a progress report is displayed changes nothing in that record.",
 ["inputs", "configurations"], "all formulas and settings, all ends of a run (model, refutation, clause limit, time limit), with and without progress report, journal and heat map",
 "Tests compare at most a count of clauses after loading one file.",
 ["src/assign/mod.rs", "src/assign/stack.rs", "src/assign/propagate.rs", "src/cdb/mod.rs", "src/cdb/db.rs", "src/state.rs", "src/processor/eliminate.rs"],
 [("counters are kept incrementally next to the data", "src/cdb/db.rs"), ("record of the counters for reports", "src/state.rs")],
 ["PropertyDereference of AssignStack and ClauseDB, State indexed by LogUsizeId"])

prop("C29", "Command line options set exactly the documented settings",
 "Whatever documented options are given in any order, in their short or long form, with the problem file as the last word, each sets its own setting to the given value (the last one counts if an option is repeated) and no other setting; settings that are not mentioned keep the defaults that --help shows. Unknown options, joined ones, missing or unreadable values and values that do not fit a setting are refused before anything is solved; a missing problem file is named and nothing is solved; --help and --version print only what was asked for.",
 ["inputs", "configurations"], "all command lines of documented options in any order and spelling of the values, with at most one flaw",
 "No test reads a command line.",
 ["src/config.rs", "src/bin/splr.rs"],
 [("hand-written option parser", "src/config.rs"), ("defaults and the help text", "src/config.rs")],
 ["fields of Config after Config::inject_from_args, standard output and exit code"])

prop("C30", "What could not be written completely is never reported as written",
 "When a file system refuses to take (the rest of) a file, at whatever byte, nothing that is cut short passes for complete: saving a CNF gives an error, dumping a solver panics (it has no result), saving a certificate returns false, and the command says for every result or certificate that it failed to save it, announces no certificate that isn't there, and writes a result to standard output if its file can't be made. If nothing is refused, nothing is complained about and the files are complete. Verdict, model and exit code are those of the run without the fault.",
 ["inputs", "fault_sequences"], "all formulas, with the write failing at any byte of the file or its directory missing",
 "Tests write to disks with room.",
 ["src/cnf/mod.rs", "src/cdb/unsat_certificate.rs", "src/cdb/db.rs", "src/bin/splr.rs", "src/solver/build.rs"],
 [("buffered writers whose last bytes are written at their end", "src/cnf/mod.rs"), ("certificates are given up when writing fails", "src/cdb/unsat_certificate.rs"), ("messages about saved files", "src/bin/splr.rs")],
 ["results of CNF::save, SatSolverIF::dump_cnf and save_certification, messages and exit code of splr, the files"])

prop("C31", "Decisions repeat the last value of a variable until rephasing",
 "A variable that had a value is decided with the value it had when it was last unassigned, or with the one set since by rephasing or by the result of a local search. Rephasing at the root level sets the preferred signs to those of one trail of decisions and implications as it was at an earlier backtrack, or of none, never to a mixture, and leaves other variables alone; the assignment offered to a local search is the preferred one, and its result sets exactly the signs it names and reports how many of them changed.",
 ["histories"], "all histories of decisions, propagations, backtracks, root assignments, eliminations, new variables, rephasings and results of local searches",
 "No test looks at the sign of a decision after a backtrack.",
 ["src/assign/select.rs", "src/assign/propagate.rs", "src/assign/stack.rs"],
 [("phase saving at backtracks", "src/assign/propagate.rs"), ("best phases and rephasing", "src/assign/select.rs")],
 ["VarSelectIF::select_decision_literal, the sign flags of variables after select_rephasing_target, the result of reward_by_sls"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
