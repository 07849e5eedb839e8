'''Writes tools/levels.json: technique, level and level note per property.'''
import json, pathlib
V = pathlib.Path(__file__).resolve().parent
T = 'contracts on the real Python functions, discharged path by path by a deductive verifier (instrumented source, loop invariants, z3); run-time contracts as bounded cross-check'
TA = 'contracts on the real Python functions, discharged by symbolic evaluation of the real code and computer algebra (sympy, z3); run-time contracts as bounded cross-check'
COMMON = ' Obligations are generated from /repo\'s current source on every run. Code the verifier cannot follow leaves its obligations undecided (reported, never an alarm); then only the bounded run-time contracts, which run the real code on generated inputs on every check, speak for them. The verifier itself (vc/), CPython, z3 and the listed assumptions are trusted.'
TREE = 'For nodes with any base-term counts and any number of children; induction over the tree (a method is proved on a node from its contract on the children) is the meta-argument. '
N = {
 'C01': (T, 'All intersection functions are proved for arbitrary real ends and any number of factors of each kind (loop invariants over the interval lists), at an arbitrary probe point. Reals, not floats.'),
 'C02': (T, 'Totality, one line per component and the mention of every defining value are proved for any number of factors; formatting is Python\'s. Relies on C01, C03, C04.'),
 'C03': (T, TREE + 'Covariance preservation is proved over the listed algebra of covariances; reals, not floats.'),
 'C04': (T, TREE + 'Against GPy\'s naming scheme of parameters, which is trusted (and exercised for real by the run-time contracts).'),
 'C05': (T, TREE + 'The change kernels\' own code is proved against the blend; GPy\'s Add/Prod are trusted.'),
 'C06': (T, TREE), 'C07': (T, TREE), 'C08': (T, 'Every pairing of operand kinds is proved, operands with any counts and any number of children.'),
 'C09': (T, TREE + 'eq_elems itself is proved for unbounded lists.'),
 'C10': (T, 'The editing and linking code is proved on nodes of unbounded width; the path from the edited node to the root is handled by induction.'),
 'C11': (T, 'The rules and the expansion are proved for any configuration, rule list and base kernels, over C08, C10, C13; de-duplication is proved for unbounded lists.'),
 'C12': (T, TREE + 'Printed texts are read back by a reader of the documented grammar on every path.'),
 'C13': (T, TREE),
 'C14': (T, 'The search loop is proved for any number of rounds, models and continuations with loop invariants over model multisets; fitting (C16) and expansion (C10, C11) by their contracts.'),
 'C15': (T, 'Beam handling and the choice of expanded models are proved for any beam list, rounds and models.'),
 'C16': (T, 'Sequential and parallel fitting and the retry loop are proved for any number of expressions and retries; multiprocessing.Pool and GPy\'s optimiser by their documented contracts.'),
 'C17': (T, 'The three formulas and the caching are proved for all values; log uninterpreted.'),
 'C18': (TA, 'Symmetry, transposition and diagonals are proved symbolically for arbitrary inputs; positive semi-definiteness from the proved form of each kernel and the listed closure theorems. Reals, not floats; NaN branches are covered by the run-time contracts only.'),
 'C19': (TA, 'Every stored gradient is proved to be the symbolic derivative of the code\'s own covariance, for arbitrary inputs and weights (symmetric on one input set). Location, slope and width gradients of change kernels follow a documented approximation and are excepted in the property. Reals, not floats.'),
 'C20': (TA, 'Shape and blend are proved for all parameter values, and the parameter links by running the real parameters_changed; paramz calling it on every change is trusted (and exercised at run time).'),
 'C21': (TA, 'All numerical regimes are proved, the polynomial regime with a rigorous error bound (convexity on cells); where regimes meet the deviation is bounded. Reals, not floats.'),
 'C22': (T, 'All listed utilities are proved for unbounded lists of elements of which only equality is known.'),
 'C23': (T, 'The column conversion and the generators\' definitions are proved for inputs of any length and arbitrary functions; numpy by its documented contracts.'),
}
out = {'default': {'technique': T, 'level': 'proof', 'level_note': ''}, 'not_applicable': [], 'notes': 'All checks: bin/check <id>. Levels say proof where every obligation of the property is discharged without a bound on the unchanged tree; see DESIGN.md for what is assumed.'}
for k, (t, n) in N.items(): out[k] = dict(technique = t, level = 'proof', level_note = n + COMMON)
(V / 'levels.json').write_text(json.dumps(out, indent = 1) + '\n')
