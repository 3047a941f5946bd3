import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],hook_needed=None)))
T='paramz/transformations.py'; IO='paramz/core/index_operations.py'; PC='paramz/core/parameter_core.py'; CO='paramz/core/constrainable.py'
IX='paramz/core/indexable.py'; PD='paramz/parameterized.py'; PA='paramz/param.py'; MO='paramz/model.py'; CA='paramz/caching.py'
OB='paramz/core/observable.py'; LD='paramz/core/lists_and_dicts.py'; OA='paramz/core/observable_array.py'; PI='paramz/core/pickleable.py'
NA='paramz/core/nameable.py'; UP='paramz/core/updateable.py'; PT='paramz/core/parentable.py'; SC='paramz/optimization/scg.py'; OP='paramz/optimization/optimization.py'; GC='paramz/core/gradcheckable.py'; VO='paramz/optimization/verbose_optimization.py'
p('C01','Constraint transformations map into their domain and invert exactly',
 "For every built-in constraint (positive, exponential, squared, bounded and the negative variants), mapping any optimizer value that is not in the saturated floating-point range gives a parameter value inside the constraint's domain (strictly inside its bounds), and mapping a legal parameter value to the optimizer and back returns it up to rounding; for all but the squared one the other composition also returns the optimizer value, for the squared one its absolute value. The maps act elementwise. Choosing an initial value leaves every value strictly inside the domain unchanged and moves every other one into the (closed) domain.",
 ['inputs'],'every real optimizer value / parameter value outside the saturated range, every bound lower < upper, every array length',
 'The tests evaluate no transformation against its inverse; a model test compares a handful of values. The claim is over all reals and all bounds.',
 [T],[('Logexp/Exponent/Square/Logistic f, finv, initialize',T),('negative variants delegate with sign changes',T)],['f','finv','initialize','optimizer_array'])
p('C02','Gradient factors are the exact derivatives of the constraint maps',
 "For every built-in constraint the chain-rule factor applied to a gradient equals that gradient times the derivative of the parameter value with respect to the optimizer value, taken at the current parameter value. Where a log-Jacobian is provided, it equals the logarithm of the absolute value of that derivative and its gradient is the derivative of that logarithm with respect to the parameter value.",
 ['inputs'],'every legal parameter value outside the saturated range, every incoming gradient, every bound lower < upper',
 'Tests only run a gradient check on two models at random points; a wrong factor outside the sampled branch or for an untested constraint is invisible.',
 [T],[('gradfactor',T),('log_jacobian, log_jacobian_grad',T)],['gradfactor','log_jacobian','log_jacobian_grad'])
p('C03','Index bookkeeping is exact set algebra',
 "A table that associates properties with parameter positions behaves as a set of (property, position) pairs: adding gives the union, removing gives the difference and returns exactly the positions that were taken away, clearing empties it, merging another table shifted by an offset adds exactly its pairs, and removing or inserting a block of positions shifts every later position by the block size and drops exactly the removed ones. Queries return the sorted distinct positions of a property, list no property without positions, and report for any requested positions exactly the properties attached there. No operation changes pairs it is not about.",
 ['inputs','histories'],'every table content, every property, every index set (empty, overlapping, repeated, unsorted), every start/size, and every sequence of operations',
 'Tests run a dozen fixed calls on one table of three properties; the claim is over all contents, index sets and histories.',
 [IO,LD],[('ParameterIndexOperations',IO),('combine_indices / remove_indices',IO),('extract_properties_to_index',IO)],['items','properties','indices','size','properties_for','properties_dict_for','[]'],
 [('property table','property -> sorted distinct positions',IO)])
p('C04','A node\'s window on the bookkeeping reads and writes only its own positions',
 "The bookkeeping window a sub-parameter has on the root's table shows exactly the root's pairs that fall inside the sub-parameter's own range, with positions counted from its start. Adding, removing, deleting, merging or clearing through the window has on that range exactly the effect the same operation has on a stand-alone table and leaves all positions outside the range alone, and a copy of the window is an independent table with the window's content.",
 ['inputs','histories'],'every root table content, every offset and window size, every property, index set and operation sequence',
 'Tests use three fixed windows over one table and compare a few results; offset mistakes that cancel there are not seen.',
 [IO],[('ParameterIndexOperationsView',IO),('offset arithmetic and filtering',IO)],['view.items','view.add','view.remove','view.clear','view.update','view[...]','copy'])
p('C05','Reading and writing the optimizer vector maps entries to the right parameters',
 "The vector a node offers to the optimizer holds exactly its free (not fixed) parameter entries, in the order of its flat parameter array, each mapped through its constraint's inverse. Assigning a vector of that length sets each free entry to the constrained value of its own vector element, leaves fixed entries untouched, and reading the vector again returns what was assigned. The vector never depends on values read earlier: it always reflects the current parameters and constraints.",
 ['inputs','histories'],'every hierarchy, every mix of constraints and fixes, every legal vector, on the root and on every sub-node or parameter',
 'Tests compare a few vectors on one four-parameter model; constraint/fix mixes, multi-dimensional parameters and sub-nodes are barely sampled.',
 [PC,CO,PA],[('optimizer_array getter/setter',PC),('fixed mask',CO)],['optimizer_array','param_array'],
 [('fixed mask','which flat entries are free',CO),('optimizer copy flag','whether the cached vector is current',PC)])
p('C06','Optimizer gradients match the optimizer vector entry for entry',
 "For every vector handed to the objective and gradient callbacks, the gradient returned has one element per free entry, in the order of the optimizer vector, equal to the model's gradient at those parameters times the derivative of that entry's constraint map; fixed entries contribute nothing. Evaluating never alters the gradient stored on the model, and results of earlier evaluations are not changed by later ones. The value returned with it is the objective at exactly the assigned parameters.",
 ['inputs','histories'],'every model, every mix of constraints and fixes, every optimizer vector, every sequence of evaluations',
 'Gradient checks in the tests exercise single calls on small models; aliasing across calls and unusual mixes of fixes and constraints are not sampled.',
 [PC,MO],[('_transform_gradients',PC),('_objective/_grads/_objective_grads',MO)],['_objective_grads','_grads','gradient'])
p('C07','Sizes, flat names and indices agree with the optimizer vector',
 "At every node the length of the optimizer vector, the reported transformed size and the number of flat parameter names without fixed ones are equal, and the i-th name names the parameter entry behind the i-th vector element. The index a root reports for a sub-parameter's entries in the flat array, and in the optimizer vector, points at exactly those entries' elements.",
 ['inputs','histories'],'every hierarchy, shape and fix pattern, every sub-parameter, slice of a parameter or regular-expression selection',
 'Tests assert a few lengths on one model; agreement for every node, shape and fix history is universally quantified.',
 [PC,IX,PA,CO],[('_size_transformed, parameter_names_flat',PC),('_raveled_index, _raveled_index_for(_transformed), _offset_for',IX),('_indices',PA)],['optimizer_array','parameter_names_flat','_size_transformed','_raveled_index_for_transformed'])
p('C08','Fixing and unfixing are exact and reversible',
 "Fixing a parameter, a slice of one or a whole node marks exactly its entries as fixed and no others, keeps their values (or sets them to the value given) and remembers the constraints they had; unfixing frees exactly those entries again and the earlier constraints apply as before. After any sequence of fixing, unfixing, constraining and unconstraining anywhere in the hierarchy, an entry is left out of the optimizer vector if and only if it is currently fixed, and a node reports itself fixed if and only if all of its entries are.",
 ['inputs','histories'],'every hierarchy, every target (node, parameter, slice), every sequence of (un)fix and (un)constrain calls, also after save and load',
 'Tests try a handful of fix/unfix sequences on one hierarchy; the mask must be right after every history.',
 [CO,IX,PD,PA],[('constrain_fixed/unconstrain_fixed/_set_fixed/_set_unfixed/_connect_fixes/_ensure_fixes',CO),('_remove_from_index_operations',IX),('is_fixed',CO)],['constraints','optimizer_array','is_fixed'],
 [('fixed mask','which flat entries are free',CO)])
p('C09','Constraining acts on exactly its target and makes the values legal',
 "Constraining a parameter, slice or node leaves exactly that constraint (and no earlier one, nor a fix) on each of its entries, moves illegal values of those entries into the domain, keeps legal ones, and changes neither values nor constraints of any other entry. Unconstraining with a named constraint removes just that one from the target; unconstraining without arguments removes all of them; values do not change. Two equal constraints (same kind, same bounds) count as the same constraint however and whenever they were created, also after a rejected construction or after loading.",
 ['inputs','histories'],'every hierarchy, target, constraint, bounds and sequence of constrain/unconstrain calls',
 'Tests use a few targets and constraints; leakage to neighbours and identity of equal constraints across histories are not sampled.',
 [CO,IX,T,IO],[('constrain/unconstrain(_positive,_negative,_bounded)',CO),('_add_to/_remove_from_index_operations',IX),('Logistic.__new__, Transformation.__new__',T)],['constraints','param_array'])
p('C10','The hierarchy stays structurally consistent under linking and unlinking',
 "After any sequence of linking (anywhere in the list, or moving between parents) and unlinking, each child appears exactly once, under exactly the parent it reports, at the position asked for with the others keeping their order, and every node's size is the sum of its children's sizes up to the root. An unlinked parameter is a root of its own and its values are unchanged. Linking something twice into one hierarchy, or unlinking what is not a child, is refused.",
 ['inputs','histories'],'every hierarchy, every sequence of link/unlink/move operations with any position index',
 'Tests perform a couple of link/unlink steps on one hierarchy; consistency must hold after all histories and positions.',
 [PD,IX,PT],[('link_parameter/unlink_parameter/_connect_parameters',PD),('_offset_for',IX),('_disconnect_parent',IX)],['parameters','size','has_parent','param_array'],
 [('parent link and parent index','position of a node under its parent',PT),('size','number of entries below a node',PD)])
p('C11','Constraints travel with their parameters when the hierarchy changes',
 "When a parameter or node is linked, unlinked, moved between parents, or when siblings before it are inserted or removed, every one of its entries and of every other entry in the hierarchies involved keeps exactly the constraints and fixes it had. The same holds for every other kind of per-entry annotation registered on the hierarchy, and the fixed entries of each resulting root are exactly the ones left out of its optimizer vector.",
 ['inputs','histories'],'every hierarchy and annotation content, every sequence of link/unlink/move operations with any position index',
 'Tests check one or two moves with one constraint each; the positions of all annotations after every structural history are universally quantified.',
 [PD,IX,IO],[('shift_left/shift_right/update on link and unlink',PD),('_parent_changed, _disconnect_parent',IX),('_connect_fixes',CO)],['constraints','optimizer_array'])
p('C12','All handles share one copy of values and gradients',
 "Once a hierarchy is initialised, each parameter entry exists once: reading it through the parameter, any slice view of it, its parent nodes or the root's flat array gives the same number, and a value written through any of these handles is seen by all the others at once, in the documented flat order. The same holds for the gradients. This stays true after linking, unlinking, moving, copying and loading.",
 ['inputs','histories'],'every hierarchy and parameter shape, every handle, every history of structural changes',
 'Tests write through two or three handles on one hierarchy; sharing must survive every structural history.',
 [PD,PC,PA],[('_connect_parameters',PD),('_propagate_param_grad',PC),('param_array, gradient, gradient_full',PC)],['param_array','gradient','Param item access'],
 [('value and gradient buffers','memory shared down the hierarchy',PC)])
p('C13','Observers are called exactly once, in priority order, and can be removed',
 "A notification calls every registered live observer callback exactly once, in descending priority and, among equal priorities, in order of registration; with a minimum priority only those strictly above it are called, and nothing is called while updates are off. Removing an observer (all of its callbacks, or one given callback) removes exactly those registrations; changing a priority keeps all others. Observers that no longer exist are dropped without effect on the rest.",
 ['inputs','histories'],'every sequence of add/remove/change/notify calls and observer deaths, every priority including infinities and ties',
 'Tests register two or three observers with distinct priorities; the order and exactness for all registrations and histories is not reached.',
 [OB,LD],[('ObserverList.add/remove/flush/__iter__',LD),('Observable.notify_observers/remove_observer/change_priority',OB)],['notify_observers','observers'],
 [('observer list','priority-sorted weak registrations',LD)])
p('C14','Changes run the update hooks of all affected nodes, unless updates are off',
 "With updates on, assigning values through a node or parameter by item assignment, the optimizer vector or a constrain call runs the recompute hook of that node and of every ancestor, children before their parents, after the new values are in place, so the root's hook has run last and everything derived from parameters is current. With updates switched off no such write runs a hook, and switching them back on, from any node, runs the hooks of all nodes that are not fixed and of the root, after which every node is switched on.",
 ['inputs','histories'],'every hierarchy, every node written to, every kind of write, every sequence of writes and update switches',
 'Tests count updates for a few writes on small hierarchies; the claim covers all nodes, write kinds and switch histories.',
 [UP,PC,PD,OB],[('trigger_update/update_model',UP),('_trigger_params_changed, _parameters_changed_notification, _pass_through_notify_observers',PC),('__setitem__',PD)],['parameters_changed','notify_observers'])
p('C15','Observable arrays announce every in-place change and detach from results',
 "Every in-place change of an observable array by item or slice assignment or an in-place operator notifies its observers exactly once, after the change is made, and changes the same values as the plain array operation; an assignment through a view of it notifies the observers too. Results of arithmetic (operators and universal functions) on observable arrays are plain arrays without observers, equal to the plain-array result, and copies start without the original's observers.",
 ['inputs','histories'],'every array shape and content, every in-place operator and index, every observer set',
 'Tests use one array and a few operators; the claim ranges over all operators, indices and contents.',
 [OA],[('ObsAr in-place operators, __setitem__, __array_wrap__, copy',OA)],['observers','array values'])
p('C16','Cached calls always return what a fresh call would return',
 "A cached function returns at every call the value the wrapped function would compute from its current arguments: an observable argument that has announced a change, directly or through a view of its memory, since the result was stored is never answered with the stale result, and calls that differ in any positional argument, keyword name or keyword value are never confused. Uncachable arguments, forced keywords and a switched-off cache always compute afresh, and an exception of the wrapped function propagates and leaves nothing wrong behind.",
 ['inputs','histories'],'every sequence of calls, argument changes, evictions, resets, enabling/disabling and failures, every cache limit >= 1',
 'Tests run a few hand-written sequences with two or three arrays; staleness bugs need particular interleavings of change, eviction and re-use.',
 [CA],[('Cacher.__call__/add_to_cache/ensure_cache_length/on_cache_changed/reset',CA),('combine_inputs/prepare_cache_id',CA)],['Cacher call results'],
 [('inputs_changed / cached_outputs / cached_input_ids / order','cache state',CA)])
p('C17','The cache saves work, stays within its limit and lets go of its inputs',
 "Repeating a cached call with the same unchanged, cachable arguments does not run the wrapped function again while its result is among the last `limit` distinct calls stored, ignored arguments do not cause recomputation, and at most `limit` results are kept, the oldest stored going first. After a result is evicted, or the cache is reset, disabled or has failed, the cache no longer observes inputs that no kept result uses. Switching caching off for an object drops all its stored results and switching it on again makes it store results again.",
 ['inputs','histories'],'every sequence of calls, changes, evictions, resets, failures and switches, every limit >= 1',
 'Tests check a few sequences at limits 1 to 3; leak and eviction behaviour over long histories is not reached.',
 [CA],[('ensure_cache_length/add_to_cache/reset',CA),('FunctionCache, Cache_this',CA)],['calls of the wrapped function','observers of the inputs'])
p('C18','Names are unique among siblings and usable as attributes',
 "After any sequence of linking, renaming and unlinking, siblings have pairwise different names, and a clash is resolved by renaming without touching values. Every child whose printable name is not shared with a sibling nor taken by the parent's own attributes can be reached under it as an attribute of the parent; unlinked or old names are gone. Printable names are always valid identifiers, or the name is refused. Assigning to a child's attribute name writes the child's values and does not replace the child.",
 ['inputs','histories'],'every name text, every sequence of link/rename/unlink operations',
 'Tests try a few name clashes; all name texts and histories are not reached.',
 [NA,PC,PD],[('_add_parameter_name/_remove_parameter_name/_name_changed',PC),('adjust_name_for_printing',NA),('__setattr__',PD)],['parameter_names','attribute access'])
p('C19','A copy is complete and independent',
 "Copying a parameter, node or model gives an equal but separate hierarchy: same structure, names, values, constraints, fixes and optimizer vector, no parent, and no memory or bookkeeping shared with the original. No later change to either one, by value, constraint, fix or structure, is visible in the other, and copying does not change the original.",
 ['inputs','histories'],'every hierarchy, every node copied, every sequence of later operations on either side',
 'Tests copy one model and change one value; independence under all later histories is not reached.',
 [PI,PD,PA,IO],[('Pickleable.copy/__deepcopy__/__getstate__/__setstate__',PI),('Parameterized.copy',PD),('Param.copy/__deepcopy__',PA)],['copy()'])
p('C20','Saving and loading preserves the model',
 "Pickling a parameter, node or model and loading it again gives a hierarchy with the same structure, names, values, constraints, fixes, gradient size and optimizer vector, and afterwards every operation (constraining, fixing, linking, updates, optimizer vector) behaves on it as on the original. The saved original is unchanged, and observers outside the saved hierarchy are not saved with it.",
 ['inputs','histories'],'every hierarchy and pickle protocol 2 or higher, every sequence of operations before saving and after loading',
 'Tests round-trip a few objects and compare arrays; behaviour of the loaded object under later operations is barely sampled.',
 [PI,OA,PA,PD,T,'paramz/__init__.py'],[('__getstate__/__setstate__/pickle',PI),('ObsAr.__reduce__/__setstate__',OA),('Parameterized.__setstate__',PD),('load','paramz/__init__.py')],['pickle','paramz.load'])
p('C21','Failing evaluations are tolerated up to the limit and not hidden beyond it',
 "If assigning parameters or computing the objective fails with a numerical error (linear algebra, division by zero, value error), the callbacks given to the optimizer return an infinite objective, or the model's stored gradient transformed and clipped to finite bounds, instead of failing, for at most ten consecutive failures; the next one raises the original error. Any success starts the count afresh, and any other kind of exception always propagates at once. Showing messages while optimizing changes none of this.",
 ['fault_sequences','inputs'],'every sequence of successful and failing evaluations through any mix of the three callbacks',
 'No test makes an objective fail; every fault sequence matters.',
 [MO],[('_objective/_grads/_objective_grads failure counters',MO)],['_objective','_grads','_objective_grads'],
 [('failure count','consecutive failures so far',MO)])
p('C22','Optimization leaves the model at the reported optimum',
 "After an optimization the model's parameters are those of the optimizer's reported solution, the reported objective is the objective there, fixed parameters and constraints are as before, and the run is recorded once; nothing happens if there is nothing free to optimize. After restarts the model is at the best finite solution of these restarts only; failed restarts are skipped when robustness is asked for (otherwise the error propagates), and if all fail the starting parameters are restored. No observer is left behind on the model, also when the optimization fails or shows messages.",
 ['inputs','fault_sequences'],'every model, optimizer, starting point, number of restarts and pattern of failing restarts',
 'Tests optimize a few models once; patterns of failing restarts, earlier runs and ties are not sampled.',
 [MO,OP,VO],[('Model.optimize/optimize_restarts',MO),('VerboseOptimization',VO),('Optimizer.run and subclasses',OP)],['optimization_runs','param_array'])
p('C23','Scaled conjugate gradients never goes uphill and counts honestly',
 "For every objective and gradient function the scaled-conjugate-gradient minimiser evaluates the objective at the point it reports and logs it: the logged values never increase, the last one is the objective at the returned point and is no larger than at the start. The number of evaluations reported equals the objective and gradient calls made, no more than the allowed number of iterations are made, and the status says 'maxiter exceeded' exactly when it stopped for that reason.",
 ['inputs','histories'],'every objective/gradient pair with finite values, starting point, tolerances and iteration limit',
 'Tests run it on two well-behaved functions; descent on every function (also with a wrong gradient) is not sampled.',
 [SC,OP],[('SCG',SC),('opt_SCG',OP)],['SCG return value'])
p('C24','Gradient checking gives the right verdict and restores the parameters',
 "Checking a gradient returns true when the reported gradient agrees with the objective and false when an entry under check is off by more than the tolerances allow, looks at exactly the free entries of the parameter asked about, and reports success when that parameter has no free entries. Afterwards the model's parameters (up to rounding), constraints and fixes are as before.",
 ['inputs','histories'],'every smooth model, target (root, node, parameter, selection), step and tolerance, verbose or not',
 'Tests assert success on right gradients and one failure; verdicts for each single wrong entry on each target are not sampled.',
 [MO,GC,IX],[('_checkgrad',MO),('checkgrad',GC),('_raveled_index_for_transformed',IX)],['checkgrad','param_array'])
p('C25','Selections by pattern and concatenations touch exactly the matched entries',
 "Selecting by a regular expression returns exactly the descendants of the selecting node whose dotted name (counted from below the root) matches, one of them itself or several as a concatenation of their parameters without duplicates. Reading, writing (with broadcasting), constraining, fixing or unconstraining a concatenation or an indexed part of it has on each selected entry the effect of doing it on the parameter itself, in concatenation order, leaves all other entries alone, and every write brings all parents up to date.",
 ['inputs','histories'],'every hierarchy, pattern, index expression and value, repeated operations on one selection',
 'Tests use a few patterns and whole-selection writes; partial indices, zeros and repeated writes were not covered.',
 [PA,PD],[('ParamConcatenation',PA),('grep_param_names/__getitem__/__setitem__',PD)],['m[regexp]','param_array','parameters_changed'])
p('C26','Traversal visits every node exactly once, parents first',
 "Traversing from a node visits that node and each of its descendants exactly once, every parent before its children and siblings in order; traversing upwards visits each of the other nodes reachable through the ancestors exactly once and not the starting node. Afterwards, also when a visitor raised an error, the next traversal works the same.",
 ['inputs','histories'],'every hierarchy, every starting node, every sequence of traversals',
 'Tests compare two traversals of one hierarchy.',
 [PC],[('traverse/_traverse/traverse_parents',PC)],['traverse','traverse_parents'])
p('C27','Randomizing redraws only the free parameters and stays feasible',
 "Randomizing a node draws one number per free entry from the generator, in the order of its optimizer vector, and sets each free entry to the constrained value of its draw; fixed entries and everything outside the node keep their values, all constraints stay satisfied, and the update switch is left as it was, with the model brought up to date if updates are on.",
 ['inputs','histories'],'every hierarchy, node, constraint/fix mix and generator',
 'Tests randomize one model and look only at inequality of values.',
 [PC],[('randomize',PC),('optimizer_array setter',PC)],['randomize','param_array'])
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(x) for x in P)+'\n')
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],n)
