"""Source of properties.jsonl (run this, then gen_manifest.py)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(pid, title, statement, over, over_text, why, files, mech, observe):
    "Adds one property"
    PROPS.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": over_text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None}})


prop('C01',
     'A solve answers for the model as it is now, whatever happened before',
     'Solving a GP model returns the global optimum of the model in its present state - cost, every variable and constant value, and every variable and constraint sensitivity - and uses only the solver options given to that call. This holds after any history of solves, failed or interrupted solves, substitutions, frees, cost changes, relinking, sweeps, autosweeps and debugs on that model or on models sharing its constraints. A program generated earlier and held by the user keeps answering for the constants it was generated with.',
     ['histories', 'fault_sequences', 'inputs'], 'all sequences of API operations on one or two models (possibly sharing constraints), with any solver failure, interrupt or output failure inside any of them, and all feasible bounded GPs',
     'Unit tests build a fresh model, solve it once and compare a few numbers; they never fail or interrupt a solve in the middle and then judge the next one, and compare sensitivities only for a handful of models.',
     ['gpkit/constraints/gp.py', 'gpkit/constraints/prog_factories.py', 'gpkit/constraints/set.py', 'gpkit/nomials/math.py', 'gpkit/nomials/map.py', 'gpkit/keydict.py'],
     [('program generation and result compilation', 'GeometricProgram.__init__/_compile_result'), ('per-constraint compile data', 'as_hmapslt1/sens_from_dual'), ('substitution dictionaries with copy-on-write arrays', 'keydict.py')],
     ['SolutionArray returned by Model.solve', 'solver call arguments'])

prop("C02",
     "Every solver failure surfaces as the documented exception, never a solution",
     "When the solver fails during a solve, local solve, sweep or autosweep - "
     "it raises anything, returns a non-optimal status, or returns something "
     "that is not a solution - the call raises, with the class documented for "
     "that failure and the original exception among its causes, and the "
     "model's previous solution stays in place; interrupts and exits are "
     "never swallowed. A sweep halts with a RuntimeWarning keeping earlier "
     "points' results, or, asked to skip failures, returns exactly the points "
     "that solved and raises if none did. The only way around the exception "
     "is the documented automatic debug of a fast verbose solve, which says "
     "so in its output.",
     ["fault_sequences", "histories", "configurations"],
     "all assignments of solver failures (exception classes, statuses, "
     "malformed returns) to the solver calls of any sequence of operations, "
     "built-in or user-supplied solver, any verbosity",
     "Tests infeasible models only; no test makes the solver itself raise, "
     "return a partial result, or fail at the third point of a sweep.",
     ["gpkit/constraints/gp.py", "gpkit/constraints/prog_factories.py",
      "gpkit/solvers/cvxopt.py", "gpkit/constraints/sgp.py",
      "gpkit/tools/autosweep.py", "gpkit/exceptions.py"],
     [("solver failure translation", "GeometricProgram.solve, "
       "solvers/cvxopt.py"),
      ("sweep failure policy", "prog_factories.run_sweep")],
     ["exceptions and their causes", "returned solutions", "m.solution",
      "m.program", "printed output"])

prop("C03",
     "Process-wide state is unchanged by any operation, however it ends",
     "After any operation ends - normally, by an exception, by an interrupt, "
     "or by its output failing - standard output, warning filters, numpy "
     "error state, the working directory, the environment, gpkit's settings, "
     "the solver's options, open files and temporary files are what they were "
     "before it. Leaving a SignomialsEnabled, Vectorize, NamedVariables or "
     "model-setup environment in any way restores exactly the environment "
     "around it, also when environments of the same kind are nested. A failed "
     "report or save does not change how variables are named in later ones.",
     ["programs", "fault_sequences", "histories"],
     "all nestings of environments and operations with failures raised at "
     "any solver call, clock read, output or statement inside them",
     "Tests leave every environment normally and never look at process-wide "
     "state after a failure.",
     ["gpkit/globals.py", "gpkit/constraints/gp.py", "gpkit/constraints/set.py",
      "gpkit/solution_array.py", "gpkit/constraints/model.py",
      "gpkit/constraints/relax.py"],
     [("environments", "globals.py"), ("stdout capture during a solve",
                                       "GeometricProgram.solve"),
      ("naming of colliding variables while printing", "constraints/set.py, "
       "solution_array.py")],
     ["sys.stdout", "names and shapes of new variables",
      "whether signomials can be written", "str(model)"])

prop("C04",
     "Solving, sweeping or debugging a model leaves it and the call's inputs as is",
     "Solving, local-solving, sweeping (a whole constant, a vector, one of its "
     "elements, a linked variable or a free one, alone or on a grid), "
     "autosweeping, debugging, generating a program, relaxing, bounding or "
     "printing a model leaves its substitutions, cost, constraints, variables "
     "and units, those of the models within it, and the sweep values, x0 and "
     "options the caller passed, exactly as they were - whether the operation "
     "succeeds, fails or is interrupted at any point, in the solver, in its "
     "output or in the user's own linked functions and process_result methods.",
     ["histories", "fault_sequences", "inputs"],
     "all models and all sequences of reading operations, with a failure or "
     "interrupt at any solver call, clock read, output or user callback",
     "Tests sweep a fresh model once and look at the solution; none fails "
     "inside a sweep and then inspects every part of the model.",
     ["gpkit/constraints/model.py", "gpkit/constraints/prog_factories.py",
      "gpkit/tools/autosweep.py", "gpkit/constraints/relax.py",
      "gpkit/constraints/bounded.py", "gpkit/keydict.py"],
     [("temporary substitution during sweeps", "Model.sweep, autosweep_1d"),
      ("models derived from a model", "constraints/relax.py, bounded.py")],
     ["m.substitutions", "m.cost", "str(m)", "the caller's dictionaries"])

prop("C05",
     "A sweep is exactly its points, solved one by one, whichever points fail",
     "A sweep - of a list, of several variables as a grid, of a vector or "
     "one of its elements, of a linked variable, by Model.sweep or by sweep "
     "substitutions, GP or SP - returns in sweep order, for each point that "
     "solved, what solving the model with that point's values gives, linked "
     "variables re-evaluated at each. Points that fail in the solver, are "
     "infeasible, or are found infeasible before the solver is called are "
     "skipped if asked, and otherwise halt the sweep with a RuntimeWarning. "
     "Cost, variables, freevariables, sweepvariables, sensitivities, "
     "constraint sensitivities and warnings have one entry per returned "
     "point, all in the same order, including by element, by atindex and by "
     "calling the solution; the constants table has exactly the constants "
     "not swept, once unless a link makes them vary, and m.program keeps "
     "each point's program and result.",
     ["inputs", "fault_sequences", "histories"],
     "all feasible bounded models, all sweep forms and values (zeros, values "
     "at which sensitivities cancel or constraints become trivial or "
     "impossible), all assignments of failures to points, repeated sweeps",
     "Tests sweep a few toy models in which every point succeeds and every "
     "point has the same tables; alignment after a failing point, or when "
     "one point lacks a sensitivity or warning, is never looked at.",
     ["gpkit/constraints/prog_factories.py", "gpkit/small_classes.py",
      "gpkit/solution_array.py", "gpkit/nomials/substitution.py",
      "gpkit/keydict.py"],
     [("sweep loop and failure policy", "prog_factories.run_sweep"),
      ("stacking results", "small_classes.DictOfLists"),
      ("sweep parsing", "nomials/substitution.parse_subs"),
      ("element access", "keydict.KeyDict")],
     ["SolutionArray tables", "m.program", "exceptions"])

prop("C06",
     "A solver's wrong result never passes silently, and a right one never warns",
     "Whatever a solver - cvxopt or a user's function, giving posynomial or "
     "monomial sensitivities - returns as optimal is checked against the "
     "program it was given. If the cost, the values or the sensitivities "
     "returned are not those of an optimum by more than the solver's "
     "tolerance, including nans, infinities, lost, exchanged or stale entries "
     "and single flipped bits, the solve, local solve, sweep point or later "
     "access to a program's result prints a solution check warning (or "
     "raises); if they are, it prints none. Either way the solution holds "
     "exactly the cost and values the solver returned.",
     ["inputs", "fault_sequences"],
     "all feasible bounded models, all corruptions of a solver's returned "
     "cost, primal and dual vectors, at any call of any solve",
     "Tests only ever see correct solver results; a check that lost one of "
     "its conditions, or never fires on nan, passes all of them.",
     ["gpkit/constraints/gp.py", "gpkit/solvers/cvxopt.py",
      "gpkit/constraints/sgp.py"],
     [("solution checks", "gp.GeometricProgram.check_solution"),
      ("result checks and tolerance", "gp.GeometricProgram.generate_result"),
      ("dual reconstruction", "gp.GeometricProgram._generate_nula")],
     ["printed warnings", "solution tables"])

prop("C07",
     "Local solves refine, end and report each iteration as documented",
     "A local solve of a signomial model is a sequence of GP solves: the "
     "first approximates the model about the given initial guess, which may "
     "be keyed by variables, names, keys, elements or vectors, hold "
     "quantities, or be an earlier solution's variables (variables without a "
     "guess start at 1, or where the same program's last GP was made; "
     "constants always at their substituted values); each later one about "
     "the point the solver returned before; and every solve's optimum is "
     "that of exactly this approximation, whichever terms cancel in it. It "
     "ends at the first solve that improves the cost by at most reltol over "
     "the one before, starting afresh after a rise (of which it warns), and "
     "fails after iteration_limit solves; program.results and "
     "program.gps[i].result are those of each solve, also after one fails. "
     "The solution is the last solve's, satisfies the model up to the slack "
     "- reported and warned of exactly when above 1 - and its sensitivities "
     "are those of the last approximation.",
     ["inputs", "fault_sequences", "histories"],
     "all feasible bounded signomial models, initial guesses, options, "
     "histories of local solves of a model and its programs, and failures or "
     "perturbed optima at any iteration",
     "Tests only look at final costs of a few two-variable models, most of "
     "which any descent would reach; intermediate approximations, guesses, "
     "stopping and failures in the middle are not observed.",
     ["gpkit/constraints/sgp.py", "gpkit/constraints/gp.py",
      "gpkit/nomials/math.py", "gpkit/constraints/sigeq.py"],
     [("iteration and stopping rule", "sgp.SequentialGeometricProgram.localsolve"),
      ("approximation about a point", "sgp.SequentialGeometricProgram.gp"),
      ("signomial approximations", "math.SignomialInequality.as_gpconstr"),
      ("results of iterations", "sgp.SequentialGeometricProgram.results")],
     ["solver calls", "program.results", "program.gps", "solutions",
      "warnings"])

prop("C08",
     "A saved solution is the same solution in every later process",
     "Whatever was solved (a point, sweep, grid, autosweep, local solve or "
     "debug) and however it was saved (save, save_compressed, with or without "
     "constraints, any pickle protocol, pickling the result itself, or an "
     "autosweep's save), every later process, with any hash seed and whatever "
     "it built before, loads a solution that reports exactly the same: cost "
     "and units, every variable and constant by name, key or this process's "
     "own variable, every sensitivity, point of a sweep, interpolation and "
     "bound of an autosweep, warning and table. It can be saved again, "
     "tabulated, diffed with and used as an initial guess. Saving never "
     "changes the solution saved; text, csv and mat files hold its values.",
     ["inputs", "histories", "configurations"],
     "all feasible models, lineages, labels and units, ways of solving and "
     "saving, chains of processes and hash seeds",
     "Tests save and load within one process, where every hash and object "
     "identity still agrees, and compare a single table.",
     ["gpkit/solution_array.py", "gpkit/varkey.py", "gpkit/keydict.py",
      "gpkit/small_classes.py", "gpkit/tools/autosweep.py"],
     [("saving", "solution_array.SolutionArray.save / save_compressed"),
      ("what is left out", "solution_array.SolSavingEnvironment"),
      ("variable identity", "varkey.VarKey.__getstate__ / __setstate__"),
      ("loaded dictionaries", "keydict.KeyDict.__setitem__ / update_keymap")],
     ["loaded solutions", "files written"])

prop("C09",
     "Failed saves are reported and damaged files never load as other results",
     "If the disk fills up, or an open, write or close fails or is "
     "interrupted, while a solution is saved in any format, that error "
     "reaches the caller; the solution in memory still reports the same, the "
     "model still solves to the same optimum, and a later save succeeds. "
     "Short or slow writes and reads do no harm, and a save that returned "
     "holds the whole solution. A file left by a failed save or a crash, "
     "losing its unwritten tail, or a compressed file with any damaged, "
     "missing or cut-off bytes, either does not load or loads as a solution "
     "once saved there, never as anything else; errors while reading are "
     "reported, and so are they in a diff with a file.",
     ["fault_sequences", "crash_points", "histories"],
     "all failures at any byte of any save or load, crashes with any tail "
     "lost, and damage to any byte of a compressed file",
     "Tests save to a working disk and never load a file that is not whole.",
     ["gpkit/solution_array.py", "gpkit/tools/autosweep.py"],
     [("saving", "solution_array.SolutionArray.save / save_compressed / "
       "savetxt / savecsv / savemat"),
      ("restoring what was left out", "solution_array.SolSavingEnvironment"),
      ("loading", "solution_array.SolutionArray.decompress_file / diff"),
      ("autosweeps", "autosweep.BinarySweepTree.save")],
     ["exceptions", "files written", "loaded solutions"])

prop("C10",
     "Every solver adapter hands over the model and reads back the answer",
     "Whichever solver a solve, program, sweep or local solve names, or the "
     "default-solver setting chooses - cvxopt with its linear-inequality or "
     "log-sum-exp form, the mosek command line program, the mosek optimizer "
     "module - that solver and no other is run, what reaches it describes the "
     "whole model as it is now, and its answer is reported as the model's "
     "optimum: cost, values, sensitivities of constants and of constraints "
     "alike. An answer of primal infeasible, dual infeasible or unknown, an "
     "expired or missing licence, a failing exit code or an interrupt raises "
     "the documented exception, never a result, and a later solve through any "
     "adapter is not affected by it. Unknown solver names are refused.",
     ["inputs", "configurations", "fault_sequences", "histories"],
     "all feasible models, adapters, ways of choosing them, solver statuses "
     "and failures, and sequences of solves through different adapters",
     "Tests run whichever solver is installed, here only cvxopt; both mosek "
     "adapters, their answers and their failures are never executed.",
     ["gpkit/solvers/cvxopt.py", "gpkit/solvers/mosek_cli.py",
      "gpkit/solvers/mosek_conif.py", "gpkit/constraints/gp.py"],
     [("choice of solver", "gp._get_solver"),
      ("command line adapter", "mosek_cli.optimize_generator"),
      ("conic adapter", "mosek_conif.optimize"),
      ("linear and log-sum-exp forms", "solvers.cvxopt.optimize"),
      ("answers", "gp.GeometricProgram.solve / generate_result")],
     ["results", "exceptions", "problems received by the solvers"])

prop("C11",
     "Exchanging files with the mosek program survives faults without residue",
     "A solve, sweep or local solve by mosek_cli - in a temporary or a given "
     "directory, wherever the program is installed, whatever earlier or "
     "other files that directory holds - either reports the model's optimum "
     "or raises, however the exchange fails: a full or failing disk, a "
     "failing open, write, read, close or mkdir, a program that is missing, "
     "cannot be started, is interrupted, exits with an error or prints "
     "anything, or a solution file that is missing, stale, torn, incomplete "
     "or damaged (a result whose solution check warned excepted). Afterwards "
     "no temporary file, open file or running program is left, the user's "
     "own files are untouched, the search path has been extended at most by "
     "the configured directory, and the next solve works.",
     ["fault_sequences", "crash_points", "histories", "inputs"],
     "all feasible models, sequences of solves in up to three directories, "
     "and faults at any byte, call or file of any exchange",
     "Tests never run the adapter: it needs a program that is not there, and "
     "faults no test can place.",
     ["gpkit/solvers/mosek_cli.py", "gpkit/constraints/gp.py"],
     [("directories and search path", "mosek_cli.optimize_generator"),
      ("input", "mosek_cli.write_output_file"),
      ("running and reading", "mosek_cli.optimize_generator.optimize_within"),
      ("exceptions", "gp.GeometricProgram.solve")],
     ["results", "exceptions", "files left", "processes", "PATH"])

prop("C12",
     "An autosweep bounds the model's optimum over its whole range",
     "An autosweep of a constant, vector element or free variable of a GP "
     "between two values, by Model.autosweep or autosweep_1d, solves exactly "
     "the ends and the values it splits the range at, and holds their optima "
     "in order, between which other quantities interpolate. At every value "
     "of the range, the model's true optimal cost lies between its lower and "
     "upper bound, the estimate between them, and the bounds differ by no "
     "more than twice the reported tolerance, which is no more than the one "
     "asked for; all up to the solver's accuracy, also with noisy or "
     "rounding solvers. A solve that fails or is interrupted at any pass is "
     "reported and does not affect later autosweeps; signomial models are "
     "refused.",
     ["inputs", "histories", "fault_sequences"],
     "all GPs, ranges and tolerances, values within the range, histories of "
     "autosweeps, and failures or imprecision of any pass",
     "Tests autosweep a handful of models and compare a few sampled costs; "
     "they cannot tell whether bounds hold between the points they look at.",
     ["gpkit/tools/autosweep.py", "gpkit/constraints/model.py"],
     [("splitting", "autosweep.recurse_splits / get_tol"),
      ("bounds", "autosweep.BinarySweepTree.cost_at"),
      ("interpolation", "autosweep.BinarySweepTree.posy_at"),
      ("sampling", "autosweep.SolutionOracle"),
      ("passes", "autosweep.autosweep_1d / solve_point")],
     ["bounds and estimates", "solutions at splits", "exceptions"])

prop("C13",
     "Debugging and relaxing a model find and report the least change it needs",
     "Relaxing all constraints equally, constraints individually, or chosen "
     "constants of a GP yields the least penalized relaxation there is, at a "
     "point feasible for the model so relaxed, with the sensitivities of the "
     "constants it had. Debugging a model, itself or by way of a verbose solve "
     "that failed quickly, returns such a relaxation of its constants or, "
     "failing that, of its constraints, whether it is infeasible, unbounded "
     "or neither, and reports exactly the relaxations of 1% or more and the "
     "variables nothing bounds. Failures of a stage lead to the next one, or "
     "are told, and have no effect on later solves and debugs.",
     ["inputs", "histories", "fault_sequences"],
     "all GPs (feasible, infeasible, unbounded), constants vectors and links, "
     "penalties, histories of debugs, relaxations and changed constants, and "
     "failures of any stage",
     "Tests debug and relax a few scalar models and look at one relaxation; "
     "they cannot tell whether a lesser one existed, for vectors and linked "
     "constants as well.",
     ["gpkit/constraints/relax.py", "gpkit/constraints/bounded.py",
      "gpkit/constraints/model.py", "gpkit/constraints/gp.py",
      "gpkit/varkey.py"],
     [("relaxation programs", "relax.ConstraintsRelaxedEqually / "
       "ConstraintsRelaxed / ConstantsRelaxed"),
      ("reporting", "relax.get_relaxed, check_relaxed"),
      ("stages", "Model.debug"),
      ("bounds", "bounded.Bounded.check_boundaries"),
      ("debugging solves", "GeometricProgram.solve")],
     ["relaxed solutions", "warnings", "printed output", "exceptions"])

prop("C14",
     "First imports and builds find the solvers, however they are cut off",
     "Importing gpkit yields the solvers found by the latest build, with their "
     "location and the first of them as default, and builds when none are "
     "known: because settings are blank, missing or torn. Whichever disk "
     "operations of a build fail, are interrupted or are the last before a "
     "crash, and however processes that import and build interleave, settings "
     "are either the old or the new ones, the working directory is unchanged, "
     "errors are told, and the next import succeeds.",
     ["schedules", "crash_points", "configurations", "fault_sequences"],
     "all sets of solvers and places of them, contents of settings, "
     "interleavings of importing and building processes at disk operations, "
     "and crashes, errors and interrupts there",
     "Tests import gpkit after a build that ended; none builds, and none can "
     "crash one or race two.",
     ["gpkit/build.py", "gpkit/globals.py", "gpkit/__init__.py",
      "gpkit/solvers/mosek_cli.py"],
     [("finding solvers", "build.MosekCLI / MosekConif / CVXopt"),
      ("writing settings", "build.build"),
      ("reading settings", "globals.load_settings")],
     ["gpkit.settings", "the working directory", "exceptions"])

prop("C15",
     "A solution keeps, and every report of it shows, what was solved",
     "A solution holds the values, constants and sensitivities it was "
     "returned with whatever is later done with the model, with other "
     "solutions, with reports of it, or with the objects it was made from. "
     "Each report - tables, summaries, diffs, saved text and csv, "
     "comparisons with almost_equal, lookups by name - shows what the "
     "solution holds, and is the same whenever it is asked for. A failed "
     "report leaves nothing behind.",
     ["histories", "fault_sequences", "inputs"],
     "all sequences of solves, sweeps, debugs, failures, substitutions and "
     "reports on GP and SP models, with any failure of output or disk "
     "within a report",
     "Tests print tables for a fixed example and compare them to stored "
     "text; none reports twice, reports after another solve, after a failed "
     "report, or on a solution lacking a variable, and none reads the "
     "numbers in a table back.",
     ["gpkit/solution_array.py", "gpkit/keydict.py", "gpkit/small_classes.py",
      "gpkit/nomials/math.py", "gpkit/constraints/gp.py",
      "gpkit/constraints/tight.py", "gpkit/constraints/bounded.py",
      "gpkit/repr_conventions.py"],
     [("tables and diffs", "solution_array.py"),
      ("solutions by variable, copied on write", "keydict.py"),
      ("text of units, names and constraints", "repr_conventions.py")],
     ["SolutionArray contents", "text of reports", "files of savetxt and "
      "savecsv", "SolutionArray.diff and almost_equal"])

prop("C16", "The same session does the same thing in every process",
     "A session of building, solving, sweeping, autosweeping, debugging, failing and reporting sends the same programs to the solver and gets the same results, errors, warnings, printed output, tables, files and documentation from it in every process. This holds whatever the process's hash seed, memory layout, garbage collection, clock and verbosity, and whatever other models, units and failures came before or between. Results agree up to rounding, and text character for character.",
     ["histories", "schedules", "inputs"],
     "all sessions of solves, sweeps, debugs, failures and reports on random GPs and SPs, repeated in processes which differ in hash seed, allocation and collection history, clock, verbosity and everything else done in them",
     "Unit tests run once in one process with whatever hash seed, clock and history it happens to have; an order taken from a set, an identity reused after collection or a global changed by another model passes most of the time.",
     ["gpkit/constraints/gp.py", "gpkit/constraints/bounded.py", "gpkit/solution_array.py", "gpkit/units.py", "gpkit/nomials/map.py", "gpkit/varkey.py"],
     [("ordering of variables, constraints and terms", "NomialMap/VarKey ordering, Bounded, check_bounds"), ("caches shared by all models", "units.qty, KeyDict key maps, NamedVariables.modelnums"), ("verbosity", "GeometricProgram.solve/SequentialGeometricProgram.localsolve")],
     ["solver call arguments", "results and exceptions", "stdout, tables and files"])

prop("C17", "Solves are not disturbed by what happens within or around them",
     "Solves, sweeps, autosweeps, debugs and held programs may be nested within each other - from solver functions, linked functions, process_result methods, output streams and other models' setups, on the same model, one sharing its constraints or another - or be made within naming, vectorizing and signomial environments, whether they succeed, fail or are interrupted. Each sends the solver the same programs and gets the same results, errors, output and tables as it would have alone. The environments and models around them are left as they were, and a model's program and solution are those of the solve which ended last.",
     ["schedules", "histories", "fault_sequences", "inputs"],
     "all nestings of operations on two models and a third sharing constraints, at every point where user code is called and in every environment, with failures and interrupts inside and through them",
     "Unit tests never start one solve within another, and solve at top level only, so state kept on shared constraints, variables, classes and models between a program's generation and its result is never overwritten.",
     ["gpkit/constraints/prog_factories.py", "gpkit/constraints/gp.py", "gpkit/constraints/sgp.py", "gpkit/constraints/bounded.py", "gpkit/constraints/relax.py", "gpkit/globals.py", "gpkit/nomials/variables.py"],
     [("linked variables' gradients kept on their keys", "evaluate_linked"), ("environments as class attributes", "NamedVariables/Vectorize/SignomialsEnabled"), ("stdout replaced during a solve", "GeometricProgram.solve"), ("a model's program while it is swept", "run_sweep")],
     ["solver call arguments", "results, errors and output of each operation", "variables of models built around a solve", "Model.program and Model.solution"])

prop("C18", "Tight, Loose and Bounded sets warn of exactly what each solution breaks",
     "A solution's warnings name exactly those constraints of Tight and Loose sets, and exactly those bounds of Bounded sets, which that solution or point of a sweep breaks by the set's own tolerance, each with that solution's numbers; the boundedness and the table of warnings show the same. This holds for inequalities, equalities, arrays and signomials in any nesting, sharing and units, whatever the solver answered, before and after failures, interruptions, skipped points and errors or further solves in users' process_result methods. A set told to raise raises exactly when it would have warned, and solutions made earlier keep their own warnings.",
     ["inputs", "histories", "fault_sequences"],
     "all nestings of Tight, Loose, Bounded and users' constraint sets with any tolerances, over sessions of solves and sweeps of two models which share them, with nudged, failing and interrupted solvers and process_results",
     "Unit tests solve one small model per set and look for one warning; they never nest sets, share them between models, sweep over when they warn, or look at which constraint, point and numbers are reported after something else was solved or failed.",
     ["gpkit/constraints/tight.py", "gpkit/constraints/loose.py", "gpkit/constraints/bounded.py", "gpkit/constraints/set.py", "gpkit/small_scripts.py", "gpkit/solution_array.py", "gpkit/small_classes.py"],
     [("process_result of nested sets", "ConstraintSet.process_result"), ("warnings appended to a result", "appendsolwarning"), ("each point's warnings in a sweep", "DictOfLists"), ("the table of warnings", "warnings_table")],
     ["sol['warnings']", "sol['boundedness']", "sol.table(tables=['warnings'])", "RuntimeWarning raised by Loose sets"])

prop("C19", "Expressions keep their meaning, whatever is done with or around them",
     "An expression - variable, monomial, posynomial, signomial, array of these, or constraint - built by arithmetic on variables, numbers, quantities and other expressions in any units has exactly the terms, units and value which that arithmetic gives, and so have its substitutions, derivatives, conversions, monomial approximations, parts, sums, products and evaluations at solutions. It keeps its terms, text, equality and hash whatever is later built from it, substituted in it, printed, pickled, solved or debugged with it, fails, is refused or interrupted; made again in any later state of the process, it is the same. Operations without meaning - incompatible units, dividing by posynomials, fractional powers of them, negative terms outside SignomialsEnabled - are refused and leave everything as it was.",
     ["inputs", "histories", "fault_sequences"],
     "all histories of building, combining, substituting, differentiating, approximating, converting, constraining with, printing, pickling and solving with shared expressions in any units, with refused operations, failing and interrupted solvers and failing outputs",
     "Unit tests combine a few fresh expressions in one or two units; they never look again at the operands, nor at the older expressions which share their terms, caches and keys, after later operations were done, refused, failed or interrupted.",
     ["gpkit/nomials/math.py", "gpkit/nomials/core.py", "gpkit/nomials/data.py", "gpkit/nomials/map.py", "gpkit/nomials/array.py", "gpkit/nomials/variables.py", "gpkit/nomials/substitution.py", "gpkit/repr_conventions.py", "gpkit/units.py"],
     [("terms shared between expressions", "NomialMap and its copies"), ("conversion to common units", "NomialMap.__add__ and units_of_product"), ("cached text, exponents and hashes", "ReprMixin.parse_ast, NomialData"), ("numpy and pint hooks", "NomialArray and Quantity")],
     ["terms, units and type of each expression", "str, repr, latex, hash and equality", "sides of constraints", "value of expressions at substitutions and solutions"])

prop("C20", "Every name and key means exactly its variables",
     "A dictionary of constants or of a solution's values - a model's substitutions, a solution's variables, constants and free variables, and copies, updates and pickles of these - holds exactly what was put in it: whichever of a variable, its key, an element, or a name (short, with models, or of an element) is used to set, delete, test or get an entry, it reads or changes the entries of those variables and of no others, in the variable's units, element by element, with elements never given being absent. A name which several variables share is never taken for one of them, a name the model lacks never for one it has; refused operations (units, unknown, absent or ambiguous keys) say so and change nothing. Sharing memory with copies, with other models and with solutions is never visible. Models' own lookups by name find exactly the variables so named.",
     ["inputs", "histories", "fault_sequences"],
     "all histories of setting, deleting, updating, copying, pickling and looking up entries of models within models and of solutions by any form of key, with refused operations and failing and interrupted solves",
     "Unit tests set and read a handful of entries in fresh dictionaries; keymaps, unmapped keys, arrays shared until they are written to and vectors in part absent only go wrong after particular sequences of writes, deletions, copies and lookups by another form of key.",
     ["gpkit/keydict.py", "gpkit/varkey.py", "gpkit/constraints/set.py", "gpkit/constraints/model.py", "gpkit/solution_array.py"],
     [("the map from names to keys, filled late", "KeyMap.update_keymap, KeyMap.keymap"), ("arrays shared by copies until written to", "KeyDict.update, KeyDict._copyonwrite, KeyDict.owned"), ("names of elements and of several variables", "KeyDict.parse_and_index"), ("absent elements", "KeyDict.__delitem__, KeyDict.__contains__"), ("names in models", "ConstraintSet.variables_byname, ConstraintSet.__getitem__")],
     ["what dictionaries hold", "in, [], get, (), del and update by every form of key", "what is refused, and as what", "a model's variables by name"])

prop("C21", "Interactive sessions and plots show the model as it is",
     "Sliders made of a model (modelinteract) are exactly those of the scalar constants asked for, with the ranges and steps asked for. Whenever one is moved, the functions given are called with the model's solution at the constants the sliders show, all other constants being as the model has them, and the model's constants are those afterwards. Plots of sweeps (SolutionArray.plot, autosweeps' .plot, plot_1dsweepgrid) draw, for each expression and swept constant, exactly the points swept at the values which the expression has there, mark the present solution, and leave the model's constants as they were. A solve or display function which fails or is interrupted changes nothing of this afterwards; dictionaries and lists given are never changed.",
     ["inputs", "histories", "fault_sequences"],
     "all histories of making sliders, moving them, setting constants elsewhere, sweeping and plotting, of models with constants of the same name in several models, with failing and interrupted solves and display functions",
     "No unit test moves a slider; plots are tested once, for not raising. What a session shows after constants of the same name, failed solves, second calls with the same arguments and interrupted sweeps depends on the history.",
     ["gpkit/interactive/widgets.py", "gpkit/interactive/plot_sweep.py", "gpkit/solution_array.py", "gpkit/tools/autosweep.py", "gpkit/constraints/model.py"],
     [("sliders and what happens when they are moved", "modelinteract, resolve"), ("grids of sweeps around a solution", "plot_1dsweepgrid"), ("lines drawn", "SolutionArray.plot, SampledBST plot")],
     ["solutions passed to display functions", "sliders' values and ranges", "lines drawn", "model.substitutions", "arguments given"])

# -- more above this line --
with open(os.path.join(VERIF, "properties.jsonl"), "w") as out:
    for item in PROPS:
        assert len(item["title"]) <= 80, item["id"]
        out.write(json.dumps(item) + "\n")
