"""writes tools/notes.json: technique, level and level note of each property (read by make_manifest.py)"""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
T = 'contracts on the real functions, every obligation discharged for all inputs by PyDeduct (symbolic execution of the current source, loop rules, z3/cvc5); run-time checked contracts on generated cases as bounded stand-in for what is assumed'
B = ' Bounded, not proved: '
N = {
 'C01': ('proof', 'Proved over the reals for every built-in constraint and every element: into the domain, both inversions, order, closed domain everywhere, initial values, arguments left alone.' + B + 'rounding, overflow and saturation in floating point.'),
 'C02': ('proof', 'Proved over the reals: gradient factor = gradient x symbolic derivative of the code of f; log-Jacobian and its gradient; linearity; arguments left alone.' + B + 'rounding.'),
 'C03': ('proof', 'Proved for every table, position set and block: all methods of ParameterIndexOperations as set algebra, representation invariant (sorted, distinct) kept. Trusted: the set functions of numpy (compared with numpy by deduct/selfcheck.py).' + B + 'histories of operations end to end.'),
 'C04': ('proof', 'Proved on top of the contracts of C03: every method of the window for every offset, size and table, frame outside the range included.' + B + 'histories end to end.'),
 'C05': ('proof', 'Proved for every size, constraint assignment and fixed set, through one arbitrary position: getter, setter, both compositions, length; arrays are left alone.' + B + 'whole histories with numpy doing the indexing.'),
 'C06': ('proof', 'Proved: gradient transformation at an arbitrary position, callbacks evaluate at the assigned vector, the stored gradient is not touched.' + B + 'end-to-end histories.'),
 'C07': ('proof', 'Proved: transformed size, length of the vector, offsets in the flat array and in the vector, flat positions of indexed parts (1 to 4 axes of any length), names in flat order.' + B + 'the text of the names, more than 4 axes.'),
 'C08': ('proof', 'Proved: fix, unfix, unconstrain on tables, the mask of fixed entries kept at the root, is_fixed; invariant R (mask = not fixed) kept by every function that changes it.' + B + 'histories across a whole hierarchy.'),
 'C09': ('proof', 'Proved: constrain/unconstrain and the named ones act on exactly the target at an arbitrary position, values legal afterwards, reading and writing through advanced indices, one instance per kind and bounds.' + B + 'histories across a whole hierarchy, rejected constructions.'),
 'C10': ('proof', 'Proved: linking at any place, refusals, moving, unlinking, sizes up to the root, places and parents, for any number of siblings and ancestors (induction over the finite tree).' + B + 'histories end to end, construction before initialisation.'),
 'C11': ('proof', 'Proved: linking, unlinking, windows after a change, every registered kind of annotation, on top of C03/C04.' + B + 'histories end to end.'),
 'C12': ('proof', 'Proved: connecting value and gradient buffers of a node with those of its children, links and unlinks re-connect, parts of a parameter, concatenations. Assumed: semantics of ndarray.data.' + B + 'aliasing of real memory in histories, copies and loaded models.'),
 'C13': ('proof', 'Proved for every list of registrations: add, flush, remove, change of priority, notification in order with minimum priority.' + B + 'garbage collection of observers.'),
 'C14': ('proof', 'Proved: each write path announces after the values are in place, descendants before the node before its ancestors (induction), nothing while off, switching on.' + B + 'order of hooks in whole histories.'),
 'C15': ('proof', 'Proved for every in-place operator, item and slice assignment: one notification after the change; results are plain; copies detached. Trusted: numpy calls the hooks it documents.' + B + 'values against plain numpy.'),
 'C16': ('proof', 'Proved: invariant of the cache over all its methods, the key determines the call, changed inputs mark every result that uses them, also when the wrapped function itself uses the cache.' + B + 'call histories with real objects, garbage collection.'),
 'C17': ('proof', 'Proved: hits do not run the function, limit and order of eviction, observers removed with the last result that uses an input, switching off and on.' + B + 'call histories with real objects.'),
 'C18': ('proof', 'Proved: printable names (regular expressions decided over all texts), invariants of names and attributes under adding, removing, renaming; assignment by name; renaming ends, as the number tried grows at every clash.' + B + 'histories.'),
 'C19': ('exploration', 'The heart (copy.deepcopy reproduces what it is handed) is trusted, so the deciding evidence is bounded: copies compared with the original and with a twin over random histories. Proved beside it: memo, state and hooks handed to deepcopy, bookkeeping copies.'),
 'C20': ('exploration', 'The heart (pickle reproduces what it is handed) is trusted, so the deciding evidence is bounded: loaded models compared with the original and a twin over random histories. Proved beside it: state saved and set, rebuilding after loading, saving and loading functions. One known finding (pickling an inner node).'),
 'C21': ('proof', 'Proved: all three callbacks, every count, every kind of exception, limit ten. Assumed: recomputing the gradient in the handler does not fail.' + B + 'sequences of failures end to end.'),
 'C22': ('proof', 'Proved: optimize, optimize_restarts for any number of restarts (sequential and in worker processes), every scipy wrapper against the documented results of scipy, the climin wrappers against its documented iterator.' + B + 'real scipy runs.'),
 'C23': ('proof', 'Proved with a loop invariant for SCG for every objective and gradient, NaN and infinity included; assumed: no over/underflow of products and quotients.' + B + 'runs in real floating point.'),
 'C24': ('proof', 'Proved over the reals: verdicts in both modes, entries looked at, parameters restored.' + B + 'rounding and NaN.'),
 'C25': ('proof', 'Proved: selection by pattern, every operation of a concatenation on each part, reading, writing, indexing, parents brought up to date.' + B + 'histories with numpy doing the indexing.'),
 'C26': ('proof', 'Proved: traverse and traverse_parents for any number of children (induction over the finite tree), also when a visitor raises.' + B + 'whole trees.'),
 'C27': ('proof', 'Proved: one draw per free entry of the vector, set through the constraint, nothing else touched, switch restored, update.' + B + 'whole histories.'),
}
json.dump({k: dict(technique=T if v[0] == 'proof' else 'run-time checked contracts against a specification and a twin (bounded), with the hooks under contract discharged by PyDeduct (z3/cvc5)', level=v[0], level_note=v[1]) for k, v in N.items()},
          open(os.path.join(H, 'notes.json'), 'w'), indent=1)
