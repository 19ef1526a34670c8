"""Writes /verif/properties.jsonl.  python3 tools/mkprops.py"""
import json, os
S = 'third_party/com_github_robotlocomotion_drake/dreal/symbolic/'
P = []

def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=None)))

p('S01', 'Building an expression never changes its value',
  'Every arithmetic operator and mathematical function on symbolic expressions returns an expression that, at every assignment where the unsimplified operation is defined, evaluates to the value of that operation on the operands, whatever simplification was applied. A constant fold outside the domain of the operation is rejected, not folded.',
  ['inputs'], 'for all operand expressions of every kind and shape, and all assignments',
  'Tests compare a few fixed operand shapes; simplification branches depend on the kinds, coefficients and exponents of both operands.',
  [S + 'symbolic_expression.cc', S + 'symbolic_expression.h'],
  [('simplifying operators and constructors', S + 'symbolic_expression.cc operator+=, operator*=, operator/=, pow, sqrt, abs, min, max, if_then_else')],
  ['Expression::Evaluate of the result'])
p('S02', 'Normal-form sums and products keep the value',
  'Accumulating terms into a sum or factors into a product, in any order and with any flattening, merging, negation or cancellation, yields an expression whose value is the sum or product of what was accumulated wherever the inputs are defined.',
  ['inputs', 'histories'], 'for all sequences of accumulated constants, terms, nested sums and products',
  'The merge path taken depends on which terms are already present; tests use a handful of polynomials.',
  [S + 'symbolic_expression_cell.cc', S + 'symbolic_expression_cell.h'],
  [('sum and product factories', S + 'symbolic_expression_cell.cc ExpressionAddFactory, ExpressionMulFactory')],
  ['Expression::Evaluate of the result'],
  [('term map', 'term -> coefficient, base -> exponent', S + 'symbolic_expression_cell.h')])
p('S03', 'Differentiation obeys the calculus rules',
  'Differentiating an expression with respect to a variable yields the true partial derivative wherever it exists, for every kind of expression. Where no derivative rule applies to a subexpression that involves the variable, it raises an error instead of returning a wrong derivative; a subexpression that does not involve it has derivative zero.',
  ['inputs'], 'for all expressions and variables',
  'Tests differentiate a few concrete functions at a few points.',
  [S + 'symbolic_expression_cell.cc'],
  [('per-kind Differentiate', S + 'symbolic_expression_cell.cc')],
  ['Expression::Differentiate'])
p('S04', 'Substitution is simultaneous and homomorphic',
  'Substituting expressions and formulas for variables yields an object that evaluates to what the original evaluates to when each substituted variable takes the value of its replacement, all at once. Nothing else changes, and a bound variable is neither replaced nor captures a free variable of a replacement.',
  ['inputs'], 'for all expressions and formulas of every kind and all substitution maps',
  'Tests substitute into a few hand-written terms; each kind of node has its own code.',
  [S + 'symbolic_expression_cell.cc', S + 'symbolic_formula_cell.cc', S + 'symbolic_expression.cc', S + 'symbolic_formula.cc'],
  [('per-kind Substitute', S + 'symbolic_expression_cell.cc, ' + S + 'symbolic_formula_cell.cc')],
  ['Expression::Substitute', 'Formula::Substitute'])
p('S05', 'Evaluating an expression computes the operation at every node',
  'Evaluating an expression under an assignment gives exactly the mathematical operation of each node applied to the values of its operands. A variable without a value, an operand outside a function\'s domain and an expression that is not a number raise an error instead of producing a value.',
  ['inputs'], 'for all expressions and environments, including domain boundaries',
  'Tests sample a few points per function; boundary points and missing variables are combinatorial.',
  [S + 'symbolic_expression_cell.cc', S + 'symbolic_environment.cc'],
  [('per-kind Evaluate/DoEvaluate and domain checks', S + 'symbolic_expression_cell.cc')],
  ['Expression::Evaluate'])
p('S06', 'Structural equality, ordering and hashing are consistent',
  'For expressions, formulas, variables and variable sets, structural equality is an equivalence that distinguishes every component of a node, the ordering is a strict weak order under which neither of two objects precedes the other exactly when they are structurally equal, and equal objects have equal hashes.',
  ['inputs'], 'for all pairs and triples of nodes of the same and of different kinds',
  'Ordered sets and maps of terms silently lose or duplicate entries if any one kind gets it wrong; tests compare a few pairs.',
  [S + 'symbolic_expression_cell.cc', S + 'symbolic_formula_cell.cc', S + 'symbolic_expression.cc', S + 'symbolic_formula.cc', S + 'symbolic_variable.cc', S + 'symbolic_variables.cc'],
  [('per-kind EqualTo, Less and hash', S + 'symbolic_expression_cell.cc, ' + S + 'symbolic_formula_cell.cc')],
  ['EqualTo', 'Less', 'get_hash', 'std::set and std::unordered_map of terms'])
p('S07', 'Free variables are exact and variable sets behave as sets',
  'The reported variables of an expression or formula are exactly those that occur in its operands, minus the variables bound by a quantifier. Union, difference, intersection, insertion, removal and the subset and superset queries on variable sets agree with set theory.',
  ['inputs'], 'for all expressions, formulas and variable sets',
  'Contractors, boxes and substitutions trust these sets; a missing variable shows only for particular node kinds.',
  [S + 'symbolic_expression_cell.cc', S + 'symbolic_formula_cell.cc', S + 'symbolic_variables.cc'],
  [('variable sets computed by node constructors', S + 'symbolic_expression_cell.cc, ' + S + 'symbolic_formula_cell.cc')],
  ['GetVariables', 'GetFreeVariables'])
p('S08', 'Expansion keeps the value and node attributes are truthful',
  'Expanding an expression yields an expression with the same value wherever the original is defined. An expression is reported as polynomial only if it is one, and as containing an if-then-else exactly when one of its parts does.',
  ['inputs'], 'for all expressions',
  'Tests expand a few polynomials; attributes feed later decisions silently.',
  [S + 'symbolic_expression_cell.cc'],
  [('per-kind Expand, polynomial and if-then-else flags', S + 'symbolic_expression_cell.cc')],
  ['Expression::Expand', 'Expression::is_polynomial', 'Expression::include_ite'])
p('S09', 'Building a formula never changes its meaning',
  'Every relational operator, connective, negation and quantifier constructor returns a formula that is true under an assignment exactly when the operation on its operands is, whatever folding, flattening or simplification was applied.',
  ['inputs'], 'for all operand expressions and formulas',
  'Simplification depends on operand shapes and on constants; tests use a few.',
  [S + 'symbolic_formula.cc', S + 'symbolic_formula.h'],
  [('relational and logical operators', S + 'symbolic_formula.cc')],
  ['Formula::Evaluate of the result'])
p('S10', 'Evaluating a formula applies its connective or relation',
  'Evaluating a formula under an assignment gives the truth value of its relation or connective on the values of its operands, for every kind of formula; an equation or disequation between expressions that the assignment leaves partly unevaluated is decided on what remains of them. A Boolean variable without a value and a quantified formula raise an error instead of producing a truth value.',
  ['inputs'], 'for all formulas and environments',
  'Tests sample a few formulas.',
  [S + 'symbolic_formula_cell.cc'],
  [('per-kind Evaluate', S + 'symbolic_formula_cell.cc')],
  ['Formula::Evaluate'])
p('S11', 'Shared terms are immutable',
  'No operation on an expression or formula changes the value of another expression or formula that shares structure with it, including an operand that is the same object as the result. Reference counts balance, so a shared node lives as long as something refers to it and is freed once.',
  ['histories', 'inputs', 'schedules'], 'for all histories of copies, moves and in-place updates of terms that share nodes',
  'Breaking it needs a particular sharing pattern and use count at the moment of an in-place update.',
  [S + 'symbolic_expression.cc', S + 'symbolic_expression_cell.h', S + 'symbolic_formula.cc'],
  [('reference counting and use-count-guarded reuse of term maps', S + 'symbolic_expression.cc')],
  ['value of the operands after an operation'],
  [('reference count', 'number of handles to a node', S + 'symbolic_expression_cell.h')])
p('S12', 'Every kind of term is handled by every traversal',
  'Every kind of expression and formula is dispatched to the handler for that kind in every visitor, and no handler is reachable with a term of another kind. A kind that a traversal does not support ends in an error, never in a silently wrong result.',
  ['inputs'], 'for all kinds of nodes and all visitors',
  'A mis-dispatched rare kind is only seen when that kind reaches that traversal.',
  [S + 'symbolic_expression_visitor.h', S + 'symbolic_formula_visitor.h', S + 'symbolic_expression_cell.cc', S + 'symbolic_formula_cell.cc', 'dreal/symbolic/prefix_printer.cc', 'dreal/util/if_then_else_eliminator.cc', 'dreal/solver/expression_evaluator.cc', 'dreal/util/ibex_converter.cc'],
  [('visitor dispatch tables and kind tests', S + 'symbolic_expression_visitor.h, ' + S + 'symbolic_formula_visitor.h')],
  ['result of each traversal'])
p('S13', 'Printing a term is faithful',
  'The printed form of an expression or formula denotes the same value as the term, for every kind, and constants are printed with enough digits to be read back exactly. The SMT-LIB (prefix) form uses operators that the SMT-LIB reader understands with the same meaning, and printing leaves the stream\'s formatting state as it found it.',
  ['inputs'], 'for all expressions and formulas',
  'Tests compare a few printed strings.',
  ['dreal/symbolic/prefix_printer.cc', S + 'symbolic_expression_cell.cc', S + 'symbolic_formula_cell.cc', 'dreal/smt2/scanner.ll', 'dreal/smt2/parser.yy'],
  [('prefix printer and Display', 'dreal/symbolic/prefix_printer.cc, ' + S + 'symbolic_expression_cell.cc')],
  ['ToPrefix', 'operator<<'])
p('S14', 'Formula helpers mean what their names say',
  'Implication, equivalence, n-ary conjunction and disjunction, the clause and CNF classifiers, differentiability, delta-strengthening and delta-weakening satisfy their definitions for every formula: perturbing moves every inequality by exactly delta in the requested direction and leaves terms alone, so that a strengthened formula implies the original, which implies the weakened one; the classifiers accept exactly the clauses and conjunctions of clauses.',
  ['inputs'], 'for all formulas and all deltas',
  'Polarity- and nesting-dependent; tests use a few formulas.',
  ['dreal/symbolic/symbolic.cc', 'dreal/symbolic/symbolic.h'],
  [('helpers over formulas', 'dreal/symbolic/symbolic.cc')],
  ['imply', 'iff', 'is_clause', 'is_cnf', 'DeltaStrengthen', 'DeltaWeaken', 'IsDifferentiable'])
p('T01', 'Negation normal form is equivalent and normal',
  'Converting a formula to negation normal form yields a formula with the same truth value under every assignment, in which negation is applied only to atoms, or to nothing but Boolean variables and quantified formulas when relations are to be negated in place.',
  ['inputs'], 'for all formulas and both modes',
  'Polarity errors in one connective or relation need nested negations to show.',
  ['dreal/util/nnfizer.cc', 'dreal/util/nnfizer.h'],
  [('polarity-passing visitor', 'dreal/util/nnfizer.cc')], ['Nnfizer::Convert'])
p('T02', 'Naive CNF conversion is equivalent and in CNF',
  'Converting a formula to conjunctive normal form by distribution yields a formula with the same truth value under every assignment that is a conjunction of clauses.',
  ['inputs'], 'for all formulas', 'Distribution depends on the shape of several operands at once.',
  ['dreal/util/naive_cnfizer.cc'], [('distribution of disjunction over conjunctions', 'dreal/util/naive_cnfizer.cc')],
  ['NaiveCnfizer::Convert'])
p('T03', 'Tseitin conversion is equisatisfiable clause by clause',
  'The clauses produced for a formula, together with the reported definition of each fresh variable, are satisfied by an assignment of the original variables exactly when the formula is, with each fresh variable taking the truth value of what it names. The result is a list of clauses, and every fresh variable is reported with its definition.',
  ['inputs'], 'for all formulas', 'Missing one implication direction or one literal of a clause shows only for particular models.',
  ['dreal/util/tseitin_cnfizer.cc', 'dreal/util/tseitin_cnfizer.h'],
  [('definitional clauses per connective', 'dreal/util/tseitin_cnfizer.cc')], ['TseitinCnfizer::Convert', 'TseitinCnfizer::map'])
p('T04', 'Predicate abstraction is a faithful, stable renaming',
  'Abstracting a formula replaces every non-Boolean atom by a Boolean variable and keeps the Boolean structure, the same atom always gets the same variable and different atoms get different variables, and looking a variable up gives back the atom it stands for.',
  ['inputs', 'histories'], 'for all formulas and all sequences of abstractions by one abstractor',
  'Depends on which atoms have been seen before, including by concurrent conversions of operands.',
  ['dreal/util/predicate_abstractor.cc', 'dreal/util/predicate_abstractor.h'],
  [('bidirectional atom/variable maps', 'dreal/util/predicate_abstractor.cc')], ['PredicateAbstractor::Convert', 'operator[]'])
p('T05', 'If-then-else elimination is equivalent on the original variables',
  'Eliminating if-then-else from a formula yields a formula without if-then-else whose fresh variables are each constrained to equal the branch selected by their condition, so that it is satisfied under exactly the assignments of the original variables that satisfy the original. Every fresh variable is reported to the caller.',
  ['inputs'], 'for all formulas with nested if-then-else in every position',
  'Guards accumulate along nesting and under negation; tests use shallow examples.',
  ['dreal/util/if_then_else_eliminator.cc', 'dreal/util/if_then_else_eliminator.h'],
  [('guarded definitions of fresh variables', 'dreal/util/if_then_else_eliminator.cc')], ['IfThenElseEliminator::Process', 'variables'])
p('U01', 'Scoped containers restore exactly what a pop leaves',
  'After any balanced sequence of pushes and pops, a scoped vector, map or set contains exactly what it contained before the push, including overwritten and re-inserted entries. Popping without a matching push raises an error and changes nothing.',
  ['histories'], 'for all sequences of push, pop, insert and overwrite',
  'Histories are unbounded; tests run one or two.',
  ['dreal/util/scoped_vector.h', 'dreal/util/scoped_unordered_map.h', 'dreal/util/scoped_unordered_set.h'],
  [('undo stacks', 'dreal/util/scoped_*.h')], ['contents after pop'],
  [('undo stack', 'actions and scope boundaries', 'dreal/util/scoped_unordered_map.h')])
p('U02', 'Options obey source precedence',
  'An option\'s effective value is the one set by the most authoritative source seen so far: a value from code overrides one from the command line, which overrides one from the input file, which overrides the default, whatever the order in which they were set. Setting from the same source again replaces the value.',
  ['histories'], 'for all sequences of settings from all sources',
  'Order of settings is a history property.',
  ['dreal/util/option_value.h', 'dreal/solver/config.cc'],
  [('source-tagged option values', 'dreal/util/option_value.h')], ['OptionValue::get'])
p('U03', 'Guards restore global state on every exit',
  'A scoped guard puts back exactly the state it found (stream precision, signal handler, rounding mode) when it goes out of scope, on normal and exceptional exits, and an enabled timer guard leaves its timer paused while a disabled one never touches it. A signal guard that cannot install its handler raises an error, and after the guard its interrupt flag is clear. No other code path leaves such state changed.',
  ['histories', 'inputs'], 'for all nestings and exits',
  'Exits by exception and nested uses are not exercised.',
  ['dreal/util/precision_guard.cc', 'dreal/util/signal_handler_guard.cc', 'dreal/util/rounding_mode_guard.h', 'dreal/util/timer.cc', 'dreal/util/timer.h'],
  [('constructors that save, destructors that restore', 'dreal/util/*guard*')], ['global state after scope exit'])
p('U04', 'Run statistics count every event exactly once',
  'Statistics accumulate exactly what was recorded: every increment is counted once, also when several threads record at the same time, disabled statistics record nothing, and a timer reports the total of its running periods.',
  ['schedules', 'histories'], 'for all interleavings of recording threads and all start/stop sequences',
  'Needs concurrent recording and particular start/stop sequences.',
  ['dreal/solver/icp_stat.cc', 'dreal/solver/icp_stat.h', 'dreal/util/stat.h', 'dreal/util/timer.cc'],
  [('atomic counters and timers', 'dreal/util/stat.h, dreal/util/timer.cc')], ['counters and timers'])
p('U05', 'A thread pool runs every accepted task exactly once',
  'Every task accepted by the thread pool (tasks may themselves submit work) runs exactly once and its result or exception reaches its future; shared queue state is only accessed under the pool\'s lock. Destroying the pool runs what is queued, wakes and joins every worker, and work submitted after stopping is refused with an error.',
  ['schedules'], 'for all interleavings of producers, workers and destruction',
  'Lost wake-ups and late submissions need particular interleavings.',
  ['third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.h'],
  [('mutex, condition variable, stop flag', 'third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.h')], ['futures', 'destructor'])
p('P01', 'SMT-LIB names map to what they denote',
  'Every sort, logic and command name accepted by the SMT-LIB front end is mapped to the corresponding internal value, printing it gives back its name, and an unknown name is rejected with an error. A term used at the wrong type is rejected, and a conversion between sorts and variable types never changes the type\'s meaning.',
  ['inputs'], 'for all names and terms',
  'Tests cover a few names.',
  ['dreal/smt2/sort.cc', 'dreal/smt2/logic.cc', 'dreal/smt2/term.cc', 'dreal/smt2/command.cc', 'dreal/smt2/command_cell.cc'],
  [('name tables', 'dreal/smt2/sort.cc, dreal/smt2/logic.cc')], ['ParseSort', 'parse_logic', 'operator<<', 'Term accessors'])
p('P02', 'Every SMT-LIB and DR construct is read with its standard meaning',
  'Every operator, literal, binder and command of the input languages is translated to the term or action it denotes: n-ary operators fold all operands in order, chained relations and quantifier domains are conjoined with the right polarity, numerals keep their value, and each command reaches the solver action of its name.',
  ['inputs'], 'for all input files',
  'The grammar has hundreds of token/action pairs; there is no regression run of the solver in the test-suite built here.',
  ['dreal/smt2/parser.yy', 'dreal/smt2/scanner.ll', 'dreal/smt2/driver.cc', 'dreal/dr/parser.yy', 'dreal/dr/scanner.ll', 'dreal/dr/driver.cc'],
  [('lexer token table and grammar actions', 'dreal/smt2/scanner.ll, dreal/smt2/parser.yy, dreal/dr/scanner.ll, dreal/dr/parser.yy')], ['parsed terms and commands'])
p('C01', 'UNSAT and delta-SAT verdicts have a justification on every path',
  'The solver answers unsatisfiable only after the Boolean abstraction has no model or the asserted box is empty, and answers delta-satisfiable only with a box that the theory check accepted. Every rejected Boolean model is excluded by a learned clause before the next one is requested.',
  ['inputs', 'histories'], 'for all formulas and solver runs',
  'The solver is not even linked by the tests built here; verdict paths are many.',
  ['dreal/solver/context_impl.cc', 'dreal/solver/theory_solver.cc', 'dreal/solver/sat_solver.cc'],
  [('CheckSat loop', 'dreal/solver/context_impl.cc')], ['CheckSat result'])
p('C02', 'Learned clauses come only from the conflict explanation',
  'The clause learned after a theory conflict is the disjunction of the negations of exactly the literals of the explanation, each mapped to the Boolean variable it abstracts. Every asserted formula reaches the Boolean solver as clauses with every literal\'s polarity kept.',
  ['inputs', 'histories'], 'for all formulas and conflicts',
  'A flipped literal makes the answer wrong only for particular conflicts.',
  ['dreal/solver/sat_solver.cc', 'dreal/solver/theory_solver.cc'],
  [('AddLearnedClause, AddLiteral', 'dreal/solver/sat_solver.cc')], ['clauses given to the SAT solver'])
p('C03', 'Push and pop restore the whole solving context',
  'Popping an assertion level restores everything a push saved - assertions, box, Boolean solver, variable maps - and every such component is pushed and popped by the same operation, the same number of times, in a fixed order.',
  ['histories'], 'for all push/pop/assert sequences', 'Forgetting one component shows only after particular histories.',
  ['dreal/solver/context_impl.cc', 'dreal/solver/sat_solver.cc'],
  [('Push and Pop', 'dreal/solver/context_impl.cc, dreal/solver/sat_solver.cc')], ['CheckSat after Pop'])
p('C04', 'Turning simple assertions into bounds is sound',
  'When an assertion is absorbed into variable bounds, the resulting box contains every point of the old box that satisfies the assertion, strict bounds included, and an assertion is reported as fully absorbed only if every point of the new box satisfies it up to the given precision.',
  ['inputs'], 'for all relations, polarities, constants and boxes',
  'Twelve relation/polarity/side combinations and signs of constants; needs IBEX to run.',
  ['dreal/solver/filter_assertion.cc'], [('bound tables', 'dreal/solver/filter_assertion.cc')], ['FilterAssertion result and box'])
p('C05', 'Contractors only shrink the box and account for what they changed',
  'Applying a contractor never enlarges the box, marks as changed every dimension it changed, and records the constraint behind every change or emptiness. Sequencing, joining and fixpoint contractors apply their parts without dropping this account.',
  ['inputs', 'schedules'], 'for all contractors and boxes', 'A missing record yields a too-strong learned clause much later.',
  ['dreal/contractor/contractor_ibex_fwdbwd.cc', 'dreal/contractor/contractor_ibex_polytope.cc', 'dreal/contractor/contractor_integer.cc', 'dreal/contractor/contractor_join.cc', 'dreal/contractor/contractor_seq.cc', 'dreal/contractor/contractor_fixpoint.cc', 'dreal/contractor/contractor_worklist_fixpoint.cc', 'dreal/contractor/contractor_forall.h', 'dreal/contractor/contractor_status.cc'],
  [('Prune implementations', 'dreal/contractor/')], ['ContractorStatus after Prune'])
p('C06', 'Formula evaluators classify boxes soundly',
  'A box is reported as containing no solution only if the interval value of the constraint excludes the relation, and as entirely solutions only if every point satisfies it; otherwise it is undecided. The relation table is right for every relation and its negation.',
  ['inputs'], 'for all relations and interval positions', 'Each relation has three regions and two polarities.',
  ['dreal/solver/relational_formula_evaluator.cc', 'dreal/solver/forall_formula_evaluator.cc', 'dreal/solver/icp.cc', 'dreal/solver/formula_evaluator.cc'],
  [('verdict tables', 'dreal/solver/relational_formula_evaluator.cc')], ['FormulaEvaluationResult'])
p('C07', 'Branching covers the box',
  'Splitting a box for search yields two boxes whose union is the original, both are explored, and the search reports no solution only when every box has been refuted.',
  ['inputs', 'schedules'], 'for all boxes and branching orders', 'A dropped half loses solutions silently.',
  ['dreal/solver/brancher.cc', 'dreal/util/box.cc', 'dreal/solver/icp_seq.cc', 'dreal/solver/icp_parallel.cc'],
  [('bisection and worklist', 'dreal/solver/brancher.cc, dreal/solver/icp_seq.cc')], ['Icp::CheckSat'])
p('C08', 'Parallel search loses no box and terminates',
  'In the parallel search every box taken from the shared stack is refuted, split or reported, the count of outstanding boxes is raised before a box becomes visible and lowered once per finished box, and a result found by one worker stops the others.',
  ['schedules'], 'for all interleavings of workers', 'Interleavings.',
  ['dreal/solver/icp_parallel.cc'], [('outstanding-box counter', 'dreal/solver/icp_parallel.cc')], ['IcpParallel::CheckSat'])
p('C09', 'Exists-forall solving strengthens and weakens in the right direction',
  'For universally quantified constraints, the inner precision is strictly smaller than the strengthening, which is no larger than the requested delta, the quantified formula is negated and strengthened (never weakened) for the counterexample search, and a counterexample only refutes the box of existential variables it was found for.',
  ['inputs', 'configurations'], 'for all quantified formulas and precisions', 'Directions of perturbation matter only near the boundary.',
  ['dreal/contractor/contractor_forall.h', 'dreal/solver/forall_formula_evaluator.cc', 'dreal/contractor/generic_contractor_generator.cc', 'dreal/contractor/counterexample_refiner.cc'],
  [('epsilon and delta refinement', 'dreal/contractor/contractor_forall.h')], ['verdicts on exists-forall formulas'])
p('C10', 'Configuration reaches the component that uses it',
  'Every command-line flag, file option and programmatic setting changes exactly the configuration entry of its name, and every copy or derived configuration carries all entries.',
  ['configurations'], 'for all options and sources', 'Options are many and mostly independent.',
  ['dreal/dreal_main.cc', 'dreal/solver/config.cc', 'dreal/solver/config.h', 'dreal/solver/context_impl.cc'],
  [('flag-to-setter table', 'dreal/dreal_main.cc, dreal/solver/context_impl.cc')], ['Config accessors'])
p('C11', 'Boxes keep variables and intervals aligned',
  'A box always has one interval per variable, each variable maps to its own index and back, integer and Boolean variables get integral domains, and copies of a box never observe later additions to another.',
  ['histories', 'inputs'], 'for all sequences of box operations', 'Aliasing between copies needs particular histories.',
  ['dreal/util/box.cc', 'dreal/util/box.h'], [('copy-on-write index maps', 'dreal/util/box.cc')], ['Box accessors'])
p('C12', 'Conversion to interval constraints is homomorphic',
  'Converting an expression or relation for the interval back end yields the same operation on the converted operands for every kind, with the relation and polarity of the original. A kind with no counterpart is rejected.',
  ['inputs'], 'for all expressions and formulas', 'IBEX is not linked by the tests built here.',
  ['dreal/util/ibex_converter.cc'], [('per-kind conversion', 'dreal/util/ibex_converter.cc')], ['IbexConverter::Convert'])
p('C13', 'Interval evaluation is homomorphic',
  'Evaluating an expression over a box applies, for every kind, the interval extension of its operation to the interval values of its operands.',
  ['inputs'], 'for all expressions and boxes', 'IBEX is not linked by the tests built here.',
  ['dreal/solver/expression_evaluator.cc'], [('per-kind interval evaluation', 'dreal/solver/expression_evaluator.cc')], ['ExpressionEvaluator'])
p('C14', 'Local optimisation constraints have the right sense',
  'Every constraint or objective handed to the local optimiser is the original one in the optimiser\'s sign convention, with gradients of the same expression in variable order.',
  ['inputs'], 'for all relations', 'The optimiser is not exercised by the tests built here.',
  ['dreal/optimization/nlopt_optimizer.cc', 'dreal/contractor/counterexample_refiner.cc', 'dreal/optimization/cached_expression.cc'],
  [('constraint conversion', 'dreal/optimization/nlopt_optimizer.cc')], ['NloptOptimizer'])
p('C16', 'The satisfiability and optimisation entry points ask and report what was asked',
  'Every satisfiability and minimisation entry point declares every free variable, asserts every constraint it is given before it encodes the objective, uses the requested configuration or precision, and reports exactly the answer and model of that one check; a context passes constraints, domains, variables and objectives on unchanged, and maximising minimises the negated objective.',
  ['inputs', 'histories'], 'for all problems', 'Needs full solver runs.',
  ['dreal/api/api.cc', 'dreal/solver/context.cc'],
  [('entry points over a context', 'dreal/api/api.cc, dreal/solver/context.cc')], ['CheckSatisfiability', 'Minimize'])
p('N01', 'Pruned boxes stay within the requested numerical tightness',
  'The box returned for a delta-satisfiable problem has every dimension no wider than the precision allows, up to floating-point rounding in the interval library.',
  ['inputs'], 'for all problems', 'Numerical.',
  ['dreal/solver/icp_seq.cc'], [('termination condition', 'dreal/solver/icp.cc')], ['model box widths'])
p('N02', 'Solving terminates for bounded problems',
  'For a bounded box and a positive precision the search always terminates.',
  ['inputs', 'schedules'], 'for all bounded problems', 'Termination cannot be observed by a test.',
  ['dreal/solver/icp_seq.cc', 'dreal/contractor/contractor_fixpoint.cc'], [('strict progress of branching', 'dreal/solver/brancher.cc')], ['CheckSat returns'])
p('N03', 'Interrupting a run leaves a usable process',
  'An interrupt during solving stops the search promptly and the process can start another search.',
  ['schedules'], 'for all interrupt points', 'Timing.',
  ['dreal/util/interrupt.cc', 'dreal/util/signal_handler_guard.cc'], [('interrupt flag', 'dreal/util/interrupt.cc')], ['CheckSat after SIGINT'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for q in P:
            assert len(q['title']) <= 80, q['title']
            f.write(json.dumps(q) + '\n')
    print(len(P))
