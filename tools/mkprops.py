"""Source of /verif/properties.jsonl (python3 tools/mkprops.py rewrites it)."""
import json, os
X = 'src/satisfy/'
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[X + f for f in files],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=X + b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

# ---------------------------------------------------------------- expressions
prop('E01', 'An expression evaluates to what its formula means',
 "Evaluating an expression built with the Python operators (+ - * / % **, unary + and -, abs, comparisons, & and |, sum, and logical Not), with integer constants on either side, gives the value the same formula has in integer arithmetic, where / is floor division and & and | are Python's logical 'and' and 'or' (short-circuiting). Simplifications made while the expression is built (folding of constants, dropping of neutral and absorbing elements, flattening of nested sums and products) never change that value.",
 ['inputs', 'programs'], 'every formula over variables, parameters and integer constants, every operand order and nesting, and every assignment for which the formula is defined',
 'test_evaluate samples eight fixed linear expressions, and (its fixture being the strings "False"/"True") only ever calls the compiled form: Expression.evaluate is not tested at all.',
 ['expression.py'], [('operator overloads and construction-time folding', 'expression.py Expression/Const operators'), ('n-ary flattening', 'expression.py _make_accumulate, Accumulation'), ('per-operator evaluation', 'expression.py BinOp/UnOp/Accumulation.evaluate')],
 observe=['Expression.evaluate'])
prop('E02', 'Compiling an expression never changes its value',
 "For every expression, the function obtained by compiling it, called with the variables' values as keyword arguments, returns the same value as direct evaluation, whatever the nesting of operators, the sign of constants and parameters, and the names of the variables (any name a model accepts). Bindings of variables that the expression does not use are ignored, and an expression that cannot be turned into Python code still yields a working function.",
 ['inputs', 'programs'], 'every expression, every legal variable name, every assignment on which direct evaluation is defined',
 'Eight linear expressions are compiled by the tests; operator precedence in generated source, logical operators, unary operators, parameters with negative values and awkward names are never reached.',
 ['expression.py', 'constraint.py'], [('generation of Python source', 'expression.py py_expr/py_source'), ('compile and fallback', 'expression.py compile_py_function/as_function')],
 observe=['Expression.compile_py_function', 'Expression.as_function'])
prop('E03', 'An expression reports exactly the variables it needs',
 "The variables an expression reports are without duplicates, all occur in the formula it was built from, never include a parameter, and include every variable on which its value depends. Its free variables under a partial assignment are exactly the reported variables that the assignment does not bind, and an assignment that leaves none free is enough to evaluate it; under one that leaves out a variable on which the value depends, evaluating it (directly or compiled) raises an error and never gives a value.",
 ['inputs'], 'every expression (with and without parameters) and every partial assignment',
 'No test asks an expression for its variables; the solver relies on them to decide when a constraint can be checked.',
 ['expression.py'], [('variable collection', 'expression.py Collection.__init__, vars, free_vars'), ('parameters are not variables', 'expression.py Parameter')],
 observe=['Expression.vars', 'Expression.free_vars', 'Expression.evaluate'])
prop('E04', 'Structural equality of expressions is sound',
 "The structural comparison of two expressions (equals) is reflexive and symmetric and holds for two expressions built by the same operations from equal leaves. When it holds (a parameter being identified by its name), the two expressions report the same variables and have the same value under every assignment; in particular expressions differing in a constant, a variable, an operator or the order of operands of a non-commutative operator are never reported equal.",
 ['inputs'], 'every pair of expressions and every assignment',
 'equals is not called by any test.',
 ['expression.py'], [('structural comparison', 'expression.py equals methods')],
 observe=['Expression.equals'])
prop('E05', 'Building and using expressions never alters their operands',
 "An expression keeps its value, its variables and its rendering for its whole life: combining it into other expressions (also twice into the same one), evaluating it, compiling it, comparing it or using it in constraints and objectives changes neither it nor any sub-expression. The only exception is the value of a parameter that is explicitly reassigned.",
 ['histories', 'inputs'], 'every history of operations over a shared pool of expressions',
 'Each test builds one expression and uses it once; sharing is never exercised.',
 ['expression.py', 'constraint.py', 'objective.py'], [('immutable operand tuples, copying flatten', 'expression.py Collection, _make_accumulate, Accumulation')],
 observe=['Expression.evaluate', 'Expression.vars', 'repr'])
prop('E06', 'A parameter change takes effect at the next evaluation or solve',
 "Assigning a new value to a parameter changes the value of every expression that contains it from the next evaluation or compilation on, and the solutions of every model whose constraints (over at least one variable) contain it from the next solve or optimization on. This holds in whatever order solvers that compile constraints and solvers that do not are used on the model, and the solutions are those of the same model with the current values written as constants.",
 ['histories', 'configurations'], 'every sequence of parameter assignments interleaved with solves and optimizations by compiling and non-compiling solvers',
 'The two parameter tests never change a value after construction.',
 ['expression.py', 'constraint.py', 'solver.py'], [('live parameter value', 'expression.py Parameter'), ('recompilation at each solve', 'solver.py Solver._setup'), ('compiled form cached in the constraint', 'constraint.py ExpressionConstraint')],
 observe=['Parameter.value', 'Solver.solve', 'Solver.optimize', 'Expression.evaluate'])
# ---------------------------------------------------------------- model
prop('M01', 'Declarations are exact and refused ones leave no trace',
 "A model accepts a name for a variable or parameter only if it is an ASCII letter followed by word characters and is not yet used by any variable or parameter of the model; automatically generated names never collide. Accepted declarations are listed in declaration order under their name, as the object the caller was handed (a parameter found by its name is given a new value for every constraint on it); a refused operation (illegal or used name, duplicated domain value, a constraint of the wrong type or mentioning an undeclared variable) raises ValueError (TypeError for a wrong type) and leaves variables, constraints and solutions as they were.",
 ['histories', 'inputs'], 'every history of accepted and refused declarations',
 'Model is not exercised by any test.',
 ['model.py'], [('name check', 'model.py _check_name, _get_variable, _get_parameter'), ('domain and constraint checks', 'model.py add_int_variable, add_constraint')],
 observe=['Model.add_int_variable', 'Model.add_bool_variable', 'Model.add_parameter', 'Model.add_constraint', 'Model.variables', 'Model.constraints', 'Model.get_variable'])
prop('M02', 'A domain is a snapshot of the values given',
 "A variable's domain holds exactly the values the caller supplied, in the order supplied, whatever kind of iterable supplied them (range, list, tuple, set, iterator), and a boolean variable's holds exactly 0 and 1. Changing the caller's container afterwards, or solving, never changes the domain, and every value of it is tried by the solver.",
 ['inputs', 'histories'], 'every iterable of distinct integers and every later mutation of the container',
 'No test declares a variable in a model.',
 ['model.py', 'solver.py'], [('domain storage', 'model.py add_int_variable, get_var_domain')],
 observe=['Model.add_int_variable', 'Model.get_var_domain', 'Solver.solve'])
prop('M03', 'Constant constraints and the solvable flag decide solvability',
 "A constraint without variables is decided when it is added: one that is true changes nothing, one that is false makes the model unsolvable, after which every solve yields no solution and every optimization reports none and does not claim optimality. Setting the solvable flag explicitly has the same effect, reversibly: a model set not solvable yields nothing and one set solvable again yields its solutions.",
 ['histories', 'inputs'], 'every sequence of constant and ordinary constraints, in any position, and of flag changes',
 'Model is not exercised by any test.',
 ['model.py', 'solver.py'], [('constant constraints', 'model.py add_constraint'), ('flag', 'model.py solvable, set_solvable'), ('solve honours the flag', 'solver.py Solver.solve')],
 observe=['Model.solvable', 'Model.set_solvable', 'Solver.solve', 'Solver.optimal_solution'])
# ---------------------------------------------------------------- constraints
prop('M04', 'Things of the wrong kind are refused where they are given',
 "A thing of the wrong kind is refused where it is given instead of being taken for something else later: a name that is no string, a domain that cannot be iterated or has unhashable values, an expression constraint or objective made of something that is no expression, an optimization of something that is neither an objective nor several, a policy that is none (each TypeError), an objective among several that is none (ValueError), an evaluation without the value of a variable it needs (EvaluationError, or KeyError from the compiled function), starting a running timer or stopping one that is not (RuntimeError). A refused call changes neither the model, the solver, the timer nor any later solution or optimum.",
 ['inputs', 'histories'], 'every place, every kind of thing and every sequence of refused and accepted calls',
 'The tests give nothing of the wrong kind.',
 ['expression.py', 'constraint.py', 'objective.py', 'model.py', 'solver.py', 'utils.py'], [('type checks', 'expression.py Variable, constraint.py ExpressionConstraint, objective.py MinMax, solver.py Solver.optimize'), ('timer states', 'utils.py Timer.start, Timer.stop')],
 observe=['exceptions raised by the public API', 'Model.variables', 'Solver.solve', 'Solver.optimal_solution'])
prop('C01', 'A constraint is called violated only when it definitely is',
 "A constraint is reported unsatisfied by a (partial) assignment exactly when the assignment binds all of the constraint's variables and its relation is false for them: while a variable is missing it is never reported unsatisfied, and unrelated bindings are irrelevant. An all-different constraint's relation is that its distinct variables take pairwise different values; the verdict is the same before and after the constraint is compiled.",
 ['inputs'], 'every constraint (expression, all-different, constant), every partial or total assignment, compiled or not',
 'Constraints are not exercised by any test.',
 ['constraint.py'], [('three-valued check', 'constraint.py Constraint.unsatisfied'), ('relation', 'constraint.py ExpressionConstraint/AllDifferentConstraint.evaluate')],
 observe=['Constraint.unsatisfied', 'Constraint.evaluate', 'Constraint.free_vars', 'Constraint.vars'])
# ---------------------------------------------------------------- solver
prop('S01', 'Every solution satisfies the model',
 "Every solution a solve yields assigns exactly the model's variables (no parameters, no extras), gives each a value of its declared domain, and satisfies every constraint of the model, whose variables are those of the same names. This holds for every solution of every solve, whatever the strategy, compilation setting, limit or timeout.",
 ['inputs', 'configurations'], 'every model, every solver configuration, every solution yielded',
 'No test runs the solver.',
 ['solver.py', 'constraint.py', 'model.py'], [('backtracking search', 'solver.py Solver.solve'), ('unary constraints filtered into domains, all-different split off', 'solver.py Solver._setup')],
 observe=['Solver.solve', 'ModelSolver.__iter__'])
prop('S02', 'A complete solve yields every solution exactly once',
 "A solve that is not interrupted by a limit or timeout terminates after yielding every assignment that satisfies all constraints, each exactly once, and nothing more. A solvable model without variables has exactly one solution, the empty assignment.",
 ['inputs', 'configurations'], 'every finite model and every solver configuration without limit or timeout',
 'No test runs the solver.',
 ['solver.py'], [('backtracking search, per-level candidate lists', 'solver.py Solver.solve'), ('constraint-to-variable index', 'solver.py Solver._setup')],
 observe=['Solver.solve'])
prop('S03', 'The search strategy never changes the set of solutions',
 "For a given model the set of solutions, their number and the optimal objective value are the same for every variable selection policy, with constraints compiled or not, and whatever the order in which variables, domain values and constraints were declared. Renaming the variables only renames them in the solutions.",
 ['configurations', 'inputs'], 'every model, all eight selection policies, both compilation settings, all declaration orders and renamings',
 'No test runs the solver; agreement between strategies on large models needs no reference solution and is out of reach of example tests.',
 ['solver.py'], [('variable ordering policies', 'solver.py Solver.solve, VarSelectionPolicy')],
 observe=['Solver.solve', 'Solver.optimal_solution'])
prop('S04', 'A limit cuts the solution stream exactly there',
 "With a limit of n a solve yields min(n, total) solutions (none for n = 0), which are the first n of the unlimited solve under the same deterministic configuration; it reports the interruption 'limit' exactly when n solutions were reached, and no interruption otherwise. A limit given to a single solve overrides the solver's own for that solve only, and None or INFINITY means no limit.",
 ['inputs', 'configurations', 'histories'], 'every model, every limit (0, below, equal to and above the number of solutions), set on the solver or per call',
 'No test runs the solver.',
 ['solver.py', 'utils.py'], [('solution counter', 'solver.py Solver.solve'), ('limit setter', 'solver.py Solver.limit')],
 observe=['Solver.solve', 'Solver.limit', 'Solver.get_stats'])
prop('S05', 'A timeout stops the search promptly and only then',
 "Once the time a solve has spent searching exceeds its timeout, it tries at most the candidates of one more variable, yields at most one more solution and stops, reporting the interruption 'timeout'; what it yielded is the beginning of the untimed solve's stream. A solve whose search time stays below the timeout is unaffected; time the consumer spends between solutions does not count, a timeout given per call overrides the solver's for that call only, and None or INFINITY means no timeout.",
 ['schedules', 'inputs', 'configurations'], 'every model and every way time may pass during the search and between solutions',
 'No test runs the solver, and real clocks cannot place the expiry at a chosen point of the search.',
 ['solver.py', 'utils.py'], [('elapsed-time check in the search loop', 'solver.py Solver.solve'), ('stop-watch', 'utils.py Timer')],
 observe=['Solver.solve', 'Solver.get_stats', 'the process clock'])
prop('S06', 'Solve statistics describe the last solve',
 "The statistics after a solve count exactly the solutions it yielded, and their elapsed time is the time spent inside its search up to where it stopped, whether it found solutions or not, ran to the end, hit its limit or timed out, and without the time spent by the consumer. The interruption is 'limit', 'timeout' or None accordingly, and nothing of an earlier solve remains.",
 ['histories', 'schedules'], 'every sequence of solves on one solver, every point at which a solve ends and every way time passes',
 'No test runs the solver or reads its statistics.',
 ['solver.py', 'utils.py'], [('timer started and stopped around the search', 'solver.py Solver.solve, get_stats'), ('reset at each solve', 'solver.py Solver._reset')],
 observe=['Solver.get_stats', 'ModelSolver.get_stats', 'the process clock'])
prop('S07', 'Solves are independent of one another and of their consumer',
 "Solves sharing a solver, a model or both yield what each would yield alone, whether run one after the other, interleaved step by step, or abandoned half-way. A yielded solution belongs to the consumer (changing it affects neither later solutions nor other solves), and solving changes neither the model's variables, domains and constraints nor its solutions.",
 ['schedules', 'histories'], 'every interleaving of several solves, every point of abandonment, every mutation of yielded solutions',
 'No test runs the solver, let alone two at once.',
 ['solver.py', 'model.py', 'constraint.py'], [('search state local to the generator, substitution copied per level', 'solver.py Solver.solve')],
 observe=['Solver.solve', 'Model.variables', 'Model.constraints'])
prop('S08', 'The search never extends an assignment that is already violated',
 "Once the variables assigned so far violate a constraint, the search abandons that branch: no later variable is tried under it, so constraints on later variables are never evaluated for an assignment whose earlier variables already break an expression, all-different or user-defined constraint, or lie outside a domain reduced by a one-variable constraint; in an optimization, nor for one whose earlier variables, not all as in the last solution, fix an objective at a value that does not improve on that solution. A constraint is evaluated only for assignments that bind all its variables to values of their domains.",
 ['inputs', 'histories'], 'every model and every evaluation made during a search with a known variable order',
 'No test runs the solver; losing the pruning changes no result and would only show as exponential run time.',
 ['solver.py', 'constraint.py'], [('candidates of each variable filtered by the constraints closed by it', 'solver.py Solver.solve'), ('one-variable constraints reduce domains up front', 'solver.py Solver._setup')],
 observe=['evaluations of user-defined Constraint objects'])
prop('S09', 'Solutions are delivered incrementally',
 "A solve does no search before its first solution is requested and between requests, and delivers each solution as soon as it is found: the first solutions of a model with an astronomically large number of them are obtained with an amount of search that depends on the solutions taken, not on the size of the whole space; so does each improvement of an optimization. Stopping to consume ends all work.",
 ['inputs', 'histories'], 'every model and every number of solutions taken, including models whose complete enumeration is infeasible',
 'No test runs the solver.',
 ['solver.py'], [('generator-based search', 'solver.py Solver.solve'), ('pass-through iteration', 'solver.py ModelSolver.__iter__')],
 observe=['Solver.solve', 'ModelSolver.__iter__', 'Solver.optimize', 'evaluations of user-defined Constraint objects'])
prop('S10', 'Additional constraints act as if part of the model, once',
 "Solving a model with additional constraints yields exactly the solutions of the model that satisfy them too, including constraints over no variable, one variable, several variables and all-different ones; so does optimizing with them. They apply to that call only and leave the model unchanged.",
 ['inputs', 'histories'], 'every model, every set of additional constraints, every later solve of the same model',
 'No test runs the solver.',
 ['solver.py'], [('additional constraints chained to the model constraints', 'solver.py Solver._setup, solve, optimize')],
 observe=['Solver.solve', 'Solver.optimize'])
prop('S11', 'Solution streams are reproducible',
 "With any policy other than RANDOM, the stream of solutions of a model, and of an optimization of it, depends only on the model as declared, the configuration and the options of the call: solving again with the same or another solver, solving an equal model built again, and solving in another process, whatever its hash seed, give the same solutions in the same order. The same holds for the puzzle solvers and the knapsack optimizer. With RANDOM it depends also on the state of Python's random module (seeded alike it is repeated), from which no other policy draws.",
 ['inputs', 'configurations', 'histories'], 'every model or puzzle, every deterministic policy, compiled or not, every process and hash seed',
 'No test runs the solver, and all tests of one run share a process and its hash seed.',
 ['solver.py', 'model.py', 'cryptarithm.py', 'graph_labeling.py', 'tool/ascii_map_coloring.py'], [('variable selection and domain order', 'solver.py Solver.solve (order of var_names), Solver._setup'), ('declaration order of the front ends', 'cryptarithm.py CryptarithmSolver.__init__, graph_labeling.py')],
 observe=['Solver.solve', 'Solver.optimize', 'Solver.optimal_solution', 'the puzzle solvers', 'PYTHONHASHSEED'])
prop('S12', 'Solving takes bounded memory and leaves nothing behind',
 "The memory held by a running solve or optimization is bounded by the size of the model: it does not grow with the number of solutions delivered, of dead ends met or of improvements found. Repeated solves and optimizations (complete, limited, timed out, abandoned, with additional constraints) with one solver or model accumulate nothing, and a solver keeps no hold of a model it has solved.",
 ['histories', 'inputs'], 'every model, however many solutions and dead ends it has, and every history of solves of one solver and model',
 'No test runs the solver, and none measures memory.',
 ['solver.py', 'expression.py', 'constraint.py'], [('generator-based search with per-level state only', 'solver.py Solver.solve'), ('incumbent only', 'solver.py Solver.optimize'), ('compile caches', 'expression.py Expression.as_function, constraint.py ExpressionConstraint.compile')],
 observe=['sys.getallocatedblocks', 'tracemalloc', 'Solver.solve', 'Solver.optimize', 'the puzzle solvers'])
prop('S13', 'Errors raised by constraints reach the caller',
 "An error raised while a constraint or an objective is evaluated reaches the consumer unchanged instead of being taken for a verdict: a run that ends normally has yielded exactly the assignments that satisfy every constraint, and an assignment that violates nothing but on which a constraint fails makes the complete solve raise. Solutions already delivered stay valid, and the solver and the model can be used again afterwards.",
 ['inputs', 'fault_sequences', 'histories'], 'every model with division, modulo, negative powers or user-defined constraints, every point of the search at which one of them fails, every kind of exception',
 'No test runs the solver, and no test has a constraint that fails.',
 ['solver.py', 'constraint.py', 'expression.py'], [('evaluation of constraints during the search', 'solver.py Solver.solve'), ('direct and compiled evaluation', 'constraint.py ExpressionConstraint.evaluate')],
 observe=['Solver.solve', 'Solver.optimize', 'ModelSolver', 'exceptions raised by Constraint.evaluate'])
prop('S14', "A solver's settings read back and take effect",
 "A solver's timeout, limit, selection policy and compilation setting read back as they were set, at construction or later (an INFINITY as None); a selection policy of another type is refused with TypeError and leaves the settings as they were. A solver constructed without settings has no timeout and no limit, the policy GROUPS, and compiles. A changed setting takes effect from the next solve, which behaves like that of a new solver with the same settings, and an option given to one call replaces that setting for the call without changing it.",
 ['configurations', 'histories'], 'every sequence of changes of the settings and of solves, optimizations and calls with options of their own, on Solver and ModelSolver',
 'One test constructs solvers; none reads a setting back or changes it between solves.',
 ['solver.py'], [('setting accessors', 'solver.py Solver.timeout, limit, var_selection_policy, compile_constraints')],
 observe=['Solver properties', 'ModelSolver', 'Solver.solve', 'Solver.get_stats'])
prop('S15', 'Solves in different threads do not disturb one another',
 "Several threads may build, solve, optimize and evaluate at the same time, each with models and solvers of its own: every one of them gets exactly what it would get alone, whatever the interleaving and however alike the models are (same names, same constraints, other domains).",
 ['schedules', 'inputs'], 'every set of models and solvers used by different threads, and every interleaving of the threads',
 'No test uses threads, and an interleaving that breaks something is rarely met by chance.',
 ['solver.py', 'expression.py', 'constraint.py', 'model.py', 'objective.py', 'utils.py'], [('search state local to the generator', 'solver.py Solver.solve'), ('evaluation without shared scratch state', 'expression.py evaluate/compile_py_function, constraint.py evaluate'), ('no state shared between instances', 'model.py Model, utils.py Timer, objective.py MinMaxConstraint')],
 observe=['Solver.solve', 'Solver.optimize', 'Constraint.unsatisfied', 'Model'])
prop('S16', 'Large models are solved like small ones',
 "Nothing but time and memory limits the size of a model: models with more than a thousand variables, domains of many thousand values, thousands of constraints, all-different constraints over hundreds of variables, and sums, products and formulas of hundreds of terms have exactly the solutions and optima their constraints define, compiled or not, and the limit and the statistics work as on small ones.",
 ['inputs', 'configurations'], 'every model whatever its number of variables, values, constraints and terms',
 'No test runs the solver, and small samples cannot show a limit of recursion, of nesting or of an internal table.',
 ['solver.py', 'expression.py', 'constraint.py', 'model.py'], [('search on an explicit stack', 'solver.py Solver.solve'), ('flattening of sums and products', 'expression.py _make_accumulate, Accumulation'), ('compilation with fallback', 'expression.py Expression.as_function')],
 observe=['Solver.solve', 'Solver.optimal_solution', 'Solver.get_stats'])
prop('S17', 'A selection policy decides the order of the solutions',
 "The solutions of a solve, and the improvements of an optimization, come in the lexicographic order of the places of their values in the declared domains, taken over one fixed order of the variables: the order of declaration under ORDERED, its reverse under REVERSED, one of never decreasing (never increasing) size of the declared domains under MIN_BOUND (MAX_BOUND), one of never decreasing (never increasing) number of constraints under MIN_CONSTRAINT (MAX_CONSTRAINT) where every constraint is an expression over several variables, and some order that does not change during the solve otherwise; RANDOM varies it from solve to solve, and any variable may come first or last. This is so whether the policy is set on the solver or given per call.",
 ['inputs', 'configurations'], 'every model, every policy and every way of choosing it',
 'No test runs the solver.',
 ['solver.py'], [('order of the variables', 'solver.py Solver.solve var_names'), ('values tried in the order of the domain', 'solver.py Solver.solve domains')],
 observe=['Solver.solve', 'Solver.optimize', 'ModelSolver.__iter__'])
# ---------------------------------------------------------------- optimization
prop('O01', 'The optimal solution is optimal',
 "With one objective and no interruption, the optimal solution returned is a solution of the model whose objective value no other solution of the model beats, and it is reported as optimal; for a model without solutions it is None and not reported as optimal. This holds for every objective expression (over one, several or no variables), Minimize and Maximize, every order of domain values, policy and compilation setting.",
 ['inputs', 'configurations'], 'every model, objective and solver configuration',
 'No test runs an optimization.',
 ['solver.py', 'objective.py'], [('branch and bound by tightening a bound parameter', 'solver.py Solver.optimize, objective.py MinMaxConstraint.set_bound')],
 observe=['Solver.optimal_solution'])
prop('O02', 'Each solution of an optimization improves on the previous one',
 "The solutions an optimization yields are solutions of the model, each strictly better than all before it in every objective, so that stopping at any time leaves the best solution so far in hand. Run to the end, the stream stops only when no solution of the model is strictly better than the last one in every objective.",
 ['inputs', 'configurations'], 'every model, objectives and configuration, and every prefix of the stream',
 'No test runs an optimization.',
 ['solver.py', 'objective.py'], [('bound constraint re-tightened at each solution', 'objective.py MinMax.add_solution, MinMaxConstraint'), ('bound checked during the search', 'solver.py Solver.solve')],
 observe=['Solver.optimize', 'Objective.evaluate'])
prop('O03', 'With several objectives the result is not dominated',
 "With several objectives and no interruption, the solution returned is a solution of the model and no solution of the model is strictly better in all objectives at once; it is reported as optimal. Giving the same objective twice, or a one-element list of objectives, changes nothing.",
 ['inputs', 'configurations'], 'every model and every list of Minimize and Maximize objectives',
 'No test runs an optimization.',
 ['solver.py', 'objective.py'], [('one bound constraint per objective', 'solver.py Solver.optimize')],
 observe=['Solver.optimal_solution'])
prop('O04', 'An interrupted optimization never claims optimality',
 "An optimization stopped by its limit or timeout returns the last (hence best) solution found so far, or None if there is none, and never reports it as optimal; one that was not interrupted and found a solution always does. Whatever is reported as optimal is a true optimum, also when the solver was interrupted in an earlier call.",
 ['inputs', 'schedules', 'histories'], 'every model, every limit and every point of expiry of the timeout, every sequence of calls on one solver',
 'No test runs an optimization, and real clocks cannot place the expiry at a chosen point.',
 ['solver.py'], [('interrupt flag', 'solver.py Solver.optimal_solution, _reset')],
 observe=['Solver.optimal_solution', 'Solver.get_stats'])
prop('O05', 'Optimizing leaves the model and the objective reusable',
 "After an optimization, completed, interrupted or abandoned, solving the model yields the same solutions as before, no bound of the optimization remains in force, and optimizing again with the same or another objective gives the same result as on a fresh model; the model lists the same variables, parameters and constraints as before. The same objective can be used with several models and solvers.",
 ['histories'], 'every sequence of optimizations and solves on shared models, objectives and solvers',
 'No test runs an optimization, let alone two.',
 ['solver.py', 'objective.py', 'model.py'], [('fresh bound constraint and parameters per optimization', 'objective.py make_constraint'), ('bounds passed as additional constraints', 'solver.py Solver.optimize')],
 observe=['Solver.optimize', 'Solver.solve', 'Model.constraints'])
# ---------------------------------------------------------------- applications
prop('A01', 'Sudoku: exactly the valid completions',
 "For a 9x9 schema the sudoku solver yields exactly the valid grids (each row, column and 3x3 block a permutation of 1..9) that keep every given digit, each once: all of them without a limit, the first by default. Blanks may be written 0 or None; a complete valid grid yields itself, and a schema whose givens conflict yields nothing.",
 ['inputs', 'configurations'], 'every schema of digits and blanks, any limit',
 'The sudoku solver is not touched by any test.',
 ['sudoku.py', 'solver.py'], [('initial domain elimination', 'sudoku.py SudokuSolver.__init__'), ('all-different per row, column and block', 'sudoku.py SudokuSolver.__init__'), ('grid reconstruction', 'sudoku.py SudokuSolver.__iter__')],
 observe=['SudokuSolver'])
prop('A02', 'Malformed sudoku and knapsack inputs are refused',
 "A sudoku schema that does not have nine rows of nine cells, or has a cell that is not a digit 1..9 or a blank, is refused with ValueError. A knapsack problem with a non-integer value, capacity or weight is refused with TypeError, and one with too many or too few weight rows, or a row whose length differs from the number of capacities, with ValueError; well-formed inputs are never refused.",
 ['inputs'], 'every schema and every knapsack description, malformed at any position',
 'Neither front-end is touched by any test.',
 ['sudoku.py', 'knapsack.py'], [('schema checks', 'sudoku.py SudokuSolver.__init__'), ('problem checks', 'knapsack.py KnapsackOptimizer.__init__')],
 observe=['SudokuSolver', 'KnapsackOptimizer'])
prop('A03', 'Nonogram: exactly the pictures with the given clues',
 "For row and column clues made of positive block lengths, the nonogram solver yields exactly the 0/1 pictures of that shape whose runs of filled cells, in every row and every column, are the clue's blocks in order, each picture once. Empty clues mean an empty line, clues that do not fit or contradict each other yield nothing, and the blank picture is found like any other.",
 ['inputs', 'configurations'], 'all clues of any rectangular shape, consistent or not',
 'The nonogram solver is not touched by any test.',
 ['nonogram.py', 'solver.py'], [('start-position variables and spacing', 'nonogram.py NonogramSolver.__init__'), ('row/column agreement per cell', 'nonogram.py NonogramSolver.__init__'), ('picture reconstruction', 'nonogram.py NonogramSolver.__iter__')],
 observe=['NonogramSolver'])
prop('A04', 'Picture, image and clue conversions are faithful',
 "Converting a picture to clues gives, for each row and each column, the lengths of its maximal runs of filled cells in order, with missing cells at the end of short rows counting as empty; the shape reported is the number of rows and the longest row's length. Rendering a picture as text and reading it back gives the same picture, and the solver run on a picture's clues always finds that picture.",
 ['inputs'], 'every rectangular or ragged picture of truth values and every text image',
 'The conversions are not touched by any test.',
 ['nonogram.py', 'tool/demo_nonogram.py'], [('run-length encoding', 'nonogram.py pixmap_to_nonogram, pixmap_shape'), ('text conversion', 'tool/demo_nonogram.py image_to_pixmap, pixmap_to_image')],
 observe=['pixmap_to_nonogram', 'pixmap_shape', 'image_to_pixmap', 'pixmap_to_image', 'image_to_nonogram'])
prop('A05', 'Cryptarithm: exactly the digit assignments that make it true',
 "For a puzzle made of words of letters and digits, arithmetic operators and a comparison, the cryptarithm solver yields exactly the assignments of pairwise different digits to its letters that make the statement true when every word is read as a decimal number, each once; letter case does not matter. Its source is the puzzle in upper case and its expression the relation over the letters. With leading zeros avoided (the default) no word starts with a letter that stands for zero; with the option off such assignments are included.",
 ['inputs', 'configurations'], 'every well-formed puzzle of up to ten letters, both settings of the leading-zero option',
 'The cryptarithm solver is not touched by any test.',
 ['cryptarithm.py', 'solver.py'], [('word to polynomial rewriting', 'cryptarithm.py CryptarithmSolver.__init__'), ('leading-zero domains', 'cryptarithm.py CryptarithmSolver.__init__')],
 observe=['CryptarithmSolver'])
prop('A06', 'Graph labeling: exactly the proper labelings',
 "For a graph and a collection of labels the graph labeling solver yields exactly the maps from all nodes to labels in which the two ends of every edge carry different labels, each map once. Isolated nodes are labelled freely, directed and parallel edges count like plain ones, a self-loop makes the problem unsolvable, and repeating a label in the collection adds nothing.",
 ['inputs', 'configurations'], 'every finite graph with any hashable nodes and every collection of labels',
 'The graph labeling solver is not touched by any test.',
 ['graph_labeling.py', 'solver.py'], [('one variable per node, one inequality per edge', 'graph_labeling.py GraphLabelingSolver.__init__'), ('label mapping', 'graph_labeling.py GraphLabelingSolver.__iter__')],
 observe=['GraphLabelingSolver'])
prop('A07', 'Knapsack: the selection returned is feasible and the best',
 "For any integer values, weights and capacities in any number of dimensions (negative ones and no items included, sequences or one-shot iterators alike), an uninterrupted knapsack optimization returns a selection within every capacity whose total value no other such selection exceeds, flagged optimal, or no selection, not flagged, when none is feasible. The value and weights reported are those of the selection returned, and an interrupted run never flags its result optimal.",
 ['inputs', 'configurations'], 'every knapsack problem, any limit or timeout, repeated calls',
 'The knapsack optimizer is not touched by any test.',
 ['knapsack.py', 'solver.py', 'objective.py'], [('capacity constraints', 'knapsack.py KnapsackOptimizer.__init__'), ('maximization and result', 'knapsack.py KnapsackOptimizer.__call__')],
 observe=['KnapsackOptimizer'])
prop('A08', 'Queens: exactly the non-attacking placements',
 "For every board size n the queens solver yields exactly the n x n 0/1 boards with one queen per row and column and no two on a diagonal, each board once, under every solver configuration.",
 ['inputs', 'configurations'], 'every board size, selection policy, compilation setting and limit',
 'The queens solver is not touched by any test.',
 ['tool/queens.py', 'solver.py'], [('diagonal variables with all-different', 'tool/queens.py QueensSolver.__init__'), ('board reconstruction', 'tool/queens.py QueensSolver.__iter__')],
 observe=['QueensSolver'])
prop('A09', "Einstein's riddle: the single arrangement fitting all statements",
 "Under every solver configuration the riddle solver yields exactly one arrangement: five houses, each with one owner, colour, drink, smoke and animal, all different, in which every one of the published statements is true.",
 ['configurations'], 'every selection policy, compilation setting and limit',
 'The riddle solver is not touched by any test.',
 ['tool/einstein_riddle.py', 'solver.py'], [('one constraint per statement', 'tool/einstein_riddle.py EinsteinRiddleSolver.__init__')],
 observe=['EinsteinRiddleSolver'])
prop('A10', 'Map coloring: regions found exactly, neighbours never alike',
 "In an ASCII map the regions are the maximal groups of equal characters connected horizontally, vertically or diagonally (space and dot are background). The solver's maps have the shape of the input, leave background blank, paint each region in a single colour and with a single label, which no region less than 36 apart in reading order bears, and any two touching regions in different colours; without a limit every such colouring is produced exactly once, by default one if any exists.",
 ['inputs', 'configurations'], 'every ASCII map (ragged, with several regions sharing a character), any list of colours, any limit',
 'The map coloring solver is not touched by any test.',
 ['tool/ascii_map_coloring.py', 'graph_labeling.py'], [('flood fill', 'tool/ascii_map_coloring.py search_and_cancel_group'), ('neighbourhood graph', 'tool/ascii_map_coloring.py AsciiMapColoringSolver.__init__'), ('rendering', 'tool/ascii_map_coloring.py __iter__')],
 observe=['AsciiMapColoringSolver'])
prop('A11', 'Front ends work on any model and solver, and their models can be extended',
 "The puzzle solvers and the knapsack optimizer use the model and the solver they are given, with the settings of that solver. A given model may already hold variables, parameters, constraints or another puzzle of its own: each item comes once for every solution of the rest. Constraints added to the model later, before or after it was solved, exclude exactly the items that violate them, or make the knapsack's selection the best among those that satisfy them. An item produced belongs to the consumer: changing it changes no later item. Their statistics are those of their solver.",
 ['inputs', 'configurations', 'histories'], 'every front end and problem, every model and solver given to it, every set of constraints added to its model',
 'The front ends are not touched by any test.',
 ['sudoku.py', 'nonogram.py', 'cryptarithm.py', 'graph_labeling.py', 'knapsack.py', 'tool/queens.py', 'tool/einstein_riddle.py', 'tool/ascii_map_coloring.py', 'solver.py'], [('model and solver of the caller', 'solver.py ModelSolverBase.__init__'), ('iteration over the solutions of the model', 'solver.py ModelSolver.__iter__ and the __iter__ of every front end'), ('optimization of the model', 'knapsack.py KnapsackOptimizer.__call__')],
 observe=['the constructors, model, solver, get_stats and iteration of every front end', 'KnapsackOptimizer.__call__'])
# ---------------------------------------------------------------- tool
prop('T01', 'The command line shows exactly the solutions of its input',
 "Every subcommand, given its problem on the command line, in an input file or by default, prints exactly the solutions the problem has, numbered from one, up to the limit given and in the form of the problem (grid, board, picture, labels, digits, selection). The input file option works for every subcommand that offers it, and an option given on the command line reaches the solver. The show-model option lists the model's variables with their domains and its constraints.",
 ['inputs', 'configurations'], 'every subcommand, every valid input file or argument, every combination of --limit, --timeout, --show-model and problem options',
 'The command line tool is not touched by any test.',
 ['tool/__init__.py', 'tool/demo_sudoku.py', 'tool/demo_nonogram.py', 'tool/demo_knapsack.py', 'tool/demo_queens.py', 'tool/demo_cryptarithm.py', 'tool/demo_graph_labeling.py', 'tool/demo_ascii_map_coloring.py', 'tool/demo_einstein_riddle.py', 'tool/demo_utils.py'], [('argument dispatch', 'tool/__init__.py main'), ('printers', 'tool/demo_*.py')],
 observe=['stdout of satisfy.tool.main'])
prop('T02', "The command line's closing summary is honest",
 "The closing line claims 'all' or 'unique' solutions only when the whole search was completed and then states their exact number; an enumeration cut short by its limit or timeout is reported as partial, with the cause and the number shown. The knapsack summary says optimal only for a proven optimum. A timeout or limit given on the command line stops the search, also that of an optimization.",
 ['inputs', 'configurations', 'schedules'], 'every subcommand, input, limit and timeout',
 'The command line tool is not touched by any test.',
 ['tool/demo_utils.py', 'tool/demo_knapsack.py', 'solver.py'], [('summary line', 'tool/demo_utils.py print_solve_stats, print_optimization_stats')],
 observe=['stdout of satisfy.tool.main', 'print_solve_stats', 'print_optimization_stats'])
prop('T03', 'The command line explains itself and refuses nonsense',
 "Asked for help (or given no subcommand) the tool and every subcommand name all their subcommands or options and end successfully without solving anything (without a subcommand the tool prints its own help); the example problem shown in a subcommand's help is valid input, and gives what the default problem gives. A command line or input that makes no sense (unknown, conflicting or extra arguments, values of the wrong kind, a missing file, broken JSON, a missing part, a malformed schema, knapsack or cryptarithm) ends with an error, and neither a solution nor a closing summary is printed for it. An input file named '-' is the standard input, treated like a file with the same text.",
 ['inputs', 'configurations'], 'every subcommand, every malformed command line or input, every well-formed one on the standard input',
 'The command line tool is not touched by any test.',
 ['tool/__init__.py', 'tool/demo_sudoku.py', 'tool/demo_knapsack.py', 'tool/demo_nonogram.py', 'tool/demo_graph_labeling.py', 'tool/demo_cryptarithm.py'], [('argument parsers', 'tool/__init__.py main'), ('default problems', 'tool/demo_*.py default_*_source')],
 observe=['exit status, exceptions and stdout of satisfy.tool.main', 'real processes'])
# ---------------------------------------------------------------- utilities
prop('U01', 'A timer adds up exactly the running periods',
 "A timer's elapsed time is the sum of the periods between its starts and stops (or aborts), plus the current period while it runs, and never includes paused time; its count is the sum of the counts given to stop, an abort adding none. Starting a running timer or stopping a stopped one is refused with RuntimeError and changes nothing, and aborting a stopped one is harmless.",
 ['histories', 'schedules'], 'every sequence of operations and every way time passes between them',
 'The timer is not touched by any test.',
 ['utils.py'], [('stop-watch', 'utils.py Timer')],
 observe=['Timer', 'the process clock'])
prop('U02', 'INFINITY and UNDEFINED stay unique and usable',
 "INFINITY and UNDEFINED are each a single object, different from one another, however they are obtained: constructed again, copied, deep-copied, pickled and restored, or created from several threads. Both can be rendered as text, the names a module exports can all be imported, and INFINITY is accepted wherever a timeout or limit is, meaning none.",
 ['histories', 'schedules'], 'every way of obtaining the objects and every place a timeout or limit is given',
 'The tests compare the objects by identity once; copies, rendering, export lists and use as a limit are not tested.',
 ['utils.py', 'solver.py', 'tool/__init__.py'], [('singleton construction', 'utils.py _Singleton'), ('None/INFINITY normalisation', 'solver.py Solver.timeout, Solver.limit')],
 observe=['INFINITY', 'UNDEFINED', 'from satisfy.utils import *'])

for p in P:
    assert len(p['title']) <= 80, p['id']
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=True) + '\n')
print(len(P), 'properties')
