#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
I="dwave/optimization/include/dwave-optimization/"; S="dwave/optimization/src/"; P="dwave/optimization/"
def p(id,title,statement,over,qtext,why,files,state,mech,obs,hook=None):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook))
L=[]
L.append(p("C01","Incremental propagation equals evaluating from scratch",
 "After any history of moves on the decision variables, propagation, commits and reverts, the value of every array node of a model equals its defining function applied to the current values of its predecessors (up to floating-point rounding), exactly as if the state had been initialized from scratch. This holds for every node type (arithmetic, logical, n-ary, reductions, partial sums, where, indexing, permutation, concatenate, reshape, size, quadratic model), for fixed-size and dynamically sized arrays, and for any composition of them.",
 ["programs","histories","inputs"],"every model graph, every sequence of moves/propagate/commit/revert, every number of moves between two propagations",
 "Each node has its own incremental update code with case splits on placements, removals, broadcasting and strides; tests sample a few hand-written updates per node and the C++ tests are not part of the release test-suite.",
 [S+"nodes/mathematical.cpp",S+"nodes/indexing.cpp",S+"nodes/manipulation.cpp",S+"nodes/flow.cpp",S+"nodes/quadratic_model.cpp",S+"graph.cpp",I+"array.hpp",S+"array.cpp"],
 [("State","vector of per-node state data, indexed by topological index",I+"state.hpp"),("ArrayNodeStateData","buffer plus pending updates of one array node",S+"nodes/_state.hpp")],
 [("propagate","propagate() of every node type, called through Graph::propose/propagate"),("initialize_state","from-scratch evaluation of every node type")],
 ["Array::view(state), Array::buff(state), Array::shape(state) of every node after each Graph::propagate/propose"]))
L.append(p("C02","Revert restores and commit keeps the whole state",
 "After a revert every node (decision or not) has exactly the contents, size and shape it had after the last commit or initialization, and after a commit every node keeps exactly the contents it had just been propagated to; in both cases there is no pending diff left. Later moves behave as if the reverted moves had never happened.",
 ["histories","programs"],"every interleaving of moves, propagation, commit and revert on every model",
 "Undo logs are per-node and interact with repeated, self-cancelling and size-changing updates; the number of histories is unbounded.",
 [S+"nodes/_state.hpp",S+"nodes/collections.cpp",S+"nodes/numbers.cpp",S+"nodes/mathematical.cpp",S+"nodes/indexing.cpp",S+"nodes/manipulation.cpp",S+"nodes/flow.cpp",S+"nodes/quadratic_model.cpp",S+"graph.cpp"],
 [("updates","per-node list of pending changes used to undo",S+"nodes/_state.hpp")],
 [("commit/revert","commit() and revert() of every node type; Graph::commit, Graph::revert")],
 ["view/shape/size/diff/size_diff of every node after Graph::commit and Graph::revert"]))
L.append(p("C03","A node's diff describes its change exactly",
 "Between propagation and commit/revert, applying a node's reported diff in order to its previously committed contents (an update overwrites an existing element whose current value is the reported old value, a placement appends exactly at the end, a removal deletes exactly the last element, whose value is the reported old value) yields its current contents, and size_diff() is the change of its size. After initialization, commit or revert the diff is empty and size_diff() is 0.",
 ["histories","programs"],"every node of every model after every sequence of moves",
 "Diffs are what downstream nodes consume; a diff that is wrong only in its old value or its order gives correct values until a specific successor or a revert uses it.",
 [I+"array.hpp",S+"array.cpp",S+"nodes/_state.hpp",S+"nodes/indexing.cpp",S+"nodes/mathematical.cpp",S+"nodes/manipulation.cpp",S+"nodes/flow.cpp",S+"nodes/collections.cpp"],
 [("Update","index, old value, new value; NaN marks placement/removal",I+"array.hpp")],
 [("diff/size_diff","Array::diff and Array::size_diff of every node type")],
 ["Array::diff(state), Array::size_diff(state) after every propagate/commit/revert/initialize"]))
L.append(p("C04","Declared value and size bounds are sound",
 "In every reachable state every element of an array lies within the array's declared min() and max(), is an integer if the array is declared integral() and 0 or 1 if it is declared logical(), and the array's current size lies within the size bounds it declares through sizeinfo() (also after sizeinfo substitution down to the decision variables).",
 ["programs","inputs","histories"],"every node of every model, every reachable state",
 "Bounds are derived compositionally per operator and are used to accept indices, denominators, square roots and constraints; an unsound bound is only visible for particular sign combinations or extreme values.",
 [S+"nodes/mathematical.cpp",S+"nodes/indexing.cpp",S+"nodes/manipulation.cpp",S+"nodes/flow.cpp",S+"nodes/constants.cpp",S+"nodes/numbers.cpp",I+"nodes/collections.hpp",S+"array.cpp"],
 [("SizeInfo","symbolic size: array, multiplier, offset, min, max",I+"array.hpp")],
 [("min/max/integral/logical/sizeinfo","virtual methods of every node type")],
 ["Array::min(), max(), integral(), logical(), sizeinfo() against the observed contents"]))
L.append(p("C05","Shape, size, strides and views of an array agree",
 "For every array node in every state: shape(state) has ndim() entries equal to shape() except possibly the first axis of a dynamic array, size(state) is their product and len(state) is size(state)*itemsize, and size() is -1 exactly for dynamic arrays; the shape is the one the operation's definition gives for its operands' current shapes. Reading the array through its iterator/view, by random access into the view, or through buff() plus strides() yields the same elements in C order, and a contiguous() array has C-contiguous strides.",
 ["programs","histories"],"every node of every model, every reachable state",
 "Static shapes, state-dependent shapes and strided views are computed by different code per node and must stay in step for every dynamic size.",
 [I+"array.hpp",S+"array.cpp",S+"nodes/indexing.cpp",S+"nodes/mathematical.cpp",S+"nodes/flow.cpp",S+"nodes/collections.cpp"],
 [("shape/strides","static and state-dependent shape, byte strides",I+"array.hpp")],
 [("ArrayIterator","strided iterator in array.hpp"),("update_dynamic_shape","BasicIndexingNode/AdvancedIndexingNode")],
 ["Array::shape, size, len, ndim, strides, contiguous, view, begin/end, buff"]))
L.append(p("C06","Decision variables stay in their domain under every move",
 "Every public mutator of a decision node (exchange, rotate, grow, shrink, set_value, flip, set, unset, swap_between_sets, swap_in_list, pop_to_list, rotate_in_list, set_state, default_move, random initialization) has exactly its documented effect, reports correctly whether it changed anything, touches no other decision, and leaves the decision in its domain: lists and sets hold distinct elements of range(n) within their size bounds, disjoint sets/lists partition the primary set, and integer/binary elements are integers within bounds.",
 ["histories","inputs"],"every decision type and parameter, every sequence of mutators with in-range arguments interleaved with commit and revert",
 "The domain is an inductive invariant over unbounded move sequences, including hidden state (elements outside the visible set) that a single test never exercises.",
 [S+"nodes/collections.cpp",I+"nodes/collections.hpp",S+"nodes/numbers.cpp",I+"nodes/numbers.hpp"],
 [("elements/size","visible prefix and hidden tail of list and set nodes",S+"nodes/collections.cpp")],
 [("mutators","CollectionNode, DisjointBitSetsNode, DisjointListsNode, IntegerNode, BinaryNode")],
 ["contents of every decision before and after each mutator; return values"]))
L.append(p("C07","Explicit states are accepted iff valid and stored exactly",
 "Assigning an explicit state to a decision variable (initialize_state in C++, set_state in Python, after NumPy's conversion of the argument to integers) succeeds exactly when the assignment is in the variable's domain (right number of elements, integral, within bounds, distinct, a partition of the primary set); on success the variable reads back exactly the assignment, and otherwise an exception is raised and no invalid assignment becomes visible. Default and random initialization always produce a state in the domain.",
 ["inputs"],"every decision type and parameter and every candidate assignment",
 "The set of invalid assignments is large (duplicates across lists, non-integral, negative, wrong counts); tests try a handful.",
 [S+"nodes/collections.cpp",S+"nodes/numbers.cpp",I+"nodes/numbers.hpp",P+"symbols.pyx"],
 [("state of a decision","contents stored at the decision's topological index",S+"nodes/collections.cpp")],
 [("initialize_state/set_state","explicit-state overloads and their Cython callers")],
 ["accept/reject outcome and contents after set_state / initialize_state"]))
L.append(p("C08","Operator symbols compute their documented array semantics",
 "Through the Python API, the state of every arithmetic, comparison, logical, n-ary, reduction (sum, prod, min, max, all, any, sum along an axis) and where symbol, including operator overloads (+, -, *, /, %, **, abs, unary minus, ==, <=, >=, +=, *=) and the functions of dwave.optimization.mathematical, equals the corresponding NumPy result on its operands' states, with scalar broadcasting, documented values for empty arrays and x % 0 == 0.",
 ["inputs","programs"],"every operand shape and value, every composition of operators",
 "Operator wiring (operand order, n-ary accumulation, aliasing of in-place operators) is only visible for particular combinations of operand kinds.",
 [P+"_model.pyx",P+"symbols.pyx",P+"mathematical.py",S+"nodes/mathematical.cpp",S+"nodes/flow.cpp"],
 [("symbol","Python handle of a node",P+"_model.pyx")],
 [("operator overloads","ArraySymbol in _model.pyx"),("functions","mathematical.py")],
 ["ArraySymbol.state() of every symbol"]))
L.append(p("C09","Indexing and manipulation symbols follow NumPy semantics",
 "Through the Python API, basic indexing (integers, slices with start/stop/step, negative values), advanced indexing with array symbols, combined indexing, the a[x,:][:,x] permutation shortcut, reshape, concatenate and size() produce symbols whose shape and state equal those of the same NumPy expression on the operands' states. Index expressions that NumPy would reject (out of range, too many indices, mismatched shapes) or that the library does not support raise an exception and leave the model as it was, up to the symbol of a part of a compound index that was itself accepted.",
 ["inputs","programs"],"every array shape, every index tuple and every state of dynamically sized operands",
 "The space of shape/index-tuple combinations is combinatorial and every axis mix takes a different code path.",
 [P+"_model.pyx",P+"symbols.pyx",S+"nodes/indexing.cpp",S+"nodes/manipulation.cpp",S+"array.cpp"],
 [("indices","slices, integers and index arrays of an indexing node",S+"nodes/indexing.cpp")],
 [("IndexParser_","BasicIndexingNode::IndexParser_, AdvancedIndexingNode::IndexParser_"),("_split_indices","_model.pyx")],
 ["ArraySymbol.shape() and .state()"]))
L.append(p("C10","Topological order, node bookkeeping and locking",
 "When a graph is topologically sorted, node i sits at position i, decisions come first in creation order, and every predecessor precedes its successors; predecessor and successor lists mirror each other and num_nodes/num_edges/num_decisions/num_constraints count exactly what was added. While a model is locked no symbol can be added, locks nest and only the matching last unlock reopens the model, and unlocking preserves nodes, decisions, objective, constraints and decision states.",
 ["histories","programs"],"every sequence of node creation, sort/reset, lock/unlock, in every graph",
 "Ordering is a global invariant of the DAG over arbitrary construction orders and lock/unlock/extend histories.",
 [S+"graph.cpp",I+"graph.hpp",P+"_model.pyx",P+"model.py"],
 [("nodes_/topological_index_","node storage and order",I+"graph.hpp"),("_lock_count","nesting depth of locks",P+"_model.pyx")],
 [("topological_sort/reset_topological_sort","graph.cpp"),("lock/unlock","_model.pyx, model.py")],
 ["Symbol.topological_index, iter_symbols, iter_predecessors/successors, num_*; emplace_node outcome"]))
L.append(p("C11","Removing unused symbols removes exactly the unused ones",
 "remove_unused_symbols()/remove_unused_nodes() removes exactly the nodes that are not decisions (or outputs of disjoint decisions), not ancestors of the objective or of a constraint, and not (ancestors of nodes) referred to by a live Python symbol, and returns their number. All remaining nodes keep their identity, edges, order of decisions and values, removed nodes' symbols report expired, and a locked model is left untouched.",
 ["programs","histories"],"every graph, every choice of objective, constraints and held references",
 "Reachability over arbitrary DAGs combined with liveness of external handles.",
 [S+"graph.cpp",I+"graph.hpp",P+"_model.pyx"],
 [("expired_ptr_","shared flag: node destroyed; its use_count marks live handles",I+"graph.hpp")],
 [("remove_unused_nodes","graph.cpp")],
 ["return value, remaining nodes/edges, states after removal"]))
L.append(p("C12","Model states are isolated slots that always stay consistent",
 "For every history of states.resize/clear/initialize/from_future, set_state, reset_state, state reads, lock/unlock and symbol additions, the state of any symbol at index i equals its definition evaluated on the decision states of slot i (set values, or the documented default when never set), slots never influence each other, and has_state is true exactly for what has been initialized and not since reset. Resizing keeps the first n slots, clearing drops all, unlocking drops intermediate states but keeps decision states, and out-of-range indices or unlocked access to intermediate symbols raise.",
 ["histories"],"every interleaving of state operations over any number of slots and symbols",
 "Lazy initialization and recursive reset make staleness depend on the order in which symbols were read, set and reset.",
 [P+"states.pyx",P+"_model.pyx",P+"model.py",S+"graph.cpp",P+"symbols.pyx"],
 [("_states","vector of State, lazily filled",P+"states.pyx")],
 [("recursive_initialize/recursive_reset","graph.cpp"),("_reset_intermediate_states","states.pyx")],
 ["Symbol.state(i), has_state(i), states.size()"]))
L.append(p("C13","Serialization round-trips models and states",
 "For every model, from_file(to_file(model)) (also via into_file, file names, with or without states, and states.into_file/from_file) yields a model with the same symbols in the same order and types, the same parameters, edges, objective and constraints, and for every serialized state the same decision state, so that every symbol evaluates to the same value; only_decision keeps exactly the decisions, max_num_states exactly the first states, unset states stay unset. States are only loaded into a model whose decisions match (type, shape, domain); otherwise loading is refused. The original is not changed.",
 ["programs","inputs"],"every model over all symbol types and parameters, every set of states, every option combination",
 "Each symbol type has its own encoder/decoder; equality must hold for all parameters and graph shapes, not the per-class samples of the tests.",
 [P+"_model.pyx",P+"states.pyx",P+"symbols.pyx",P+"model.py"],
 [("zip archive","nodetypes, adjlist, per-node data, objective, constraints, states",P+"_model.pyx")],
 [("_into_zipfile/_from_zipfile/_state_into_zipfile/_state_from_zipfile","symbols.pyx, _model.pyx")],
 ["structure and states of the loaded model"]))
L.append(p("C14","Objective and constraints mean what was declared",
 "The objective is the single-element symbol last passed to minimize and constraints are exactly the symbols passed to add_constraint, in order; anything else (several or no elements, not known to be 0/1 valued, missing) is refused and changes nothing. In every state energy() is the objective's value (0 without an objective) and feasible() is true exactly when every constraint evaluates to a non-zero value; no constraint means feasible.",
 ["programs","histories","inputs"],"every model, every order of minimize/add_constraint, every state",
 "Depends on arbitrary combinations of constraint values, aliasing and ordering.",
 [S+"graph.cpp",P+"_model.pyx",P+"model.py"],
 [("objective_ptr_/constraints_","nodes with model meaning",I+"graph.hpp")],
 [("set_objective/add_constraint/energy/feasible","graph.cpp, model.py")],
 ["Graph::energy, Graph::feasible, Model.feasible, Model.objective, iter_constraints"]))
L.append(p("C15","Proposals are atomic and states are independent",
 "Graph::propose updates exactly the descendants of the given sources, in topological order, shows the acceptance function the fully propagated state, and then leaves the state either fully updated (accepted) or exactly as before (rejected); the same holds for descendants/propagate/commit/revert done by hand. Several State objects of one graph, and states created by copying the decision states of another one, never influence each other, whatever the interleaving of operations on them.",
 ["schedules","histories","programs"],"every graph, every set of changed sources, every interleaving of proposals over several states",
 "The set of affected nodes and the interleavings of independent states are combinatorial.",
 [S+"graph.cpp",I+"graph.hpp",S+"nodes/indexing.cpp",I+"state.hpp"],
 [("State","independent vector of node state data",I+"state.hpp")],
 [("propose/descendants/propagate/commit/revert","graph.cpp")],
 ["contents of all nodes in all states around each proposal; set of nodes returned by descendants"]))
L.append(p("C16","Generators encode the textbook problem",
 "For every valid instance and every decision assignment, the model built by each generator (bin packing, CVRP, CVRP with time windows, flow shop, job shop, knapsack, quadratic assignment, TSP) has the documented decisions, its objective equals the problem's cost of that assignment, and feasible() holds exactly when the assignment satisfies the problem's constraints; invalid instances raise, and the caller's arguments are not modified.",
 ["inputs"],"every instance and every assignment of its decisions",
 "Tests check a few solutions of a few instances; index direction, boundary and empty-route cases need particular data.",
 [P+"generators.py",P+"mathematical.py",P+"symbols.pyx"],
 [("model","decision symbols, objective, constraints","dwave/optimization/generators.py")],
 [("generator functions","generators.py")],
 ["objective.state(), feasible() for enumerated assignments"]))
L.append(p("C17","Invalid constructions are refused without side effects",
 "Creating a symbol from operands the operation does not support (shape mismatch, wrong dimensions, out-of-range or non-integral indices, a denominator that may be zero, a square root that may be negative, operands of different models, invalid sizes or bounds) raises an exception, and the model is then exactly as before: same nodes, edges, objective and constraints, still sortable and evaluable (only a compound index expression may leave the symbol of its accepted first part behind). Valid constructions are accepted.",
 ["programs","inputs"],"every operation and operand combination on every model",
 "A refused node may already have registered itself with some operands; it shows only when the damaged model is used later.",
 [S+"nodes/mathematical.cpp",S+"nodes/indexing.cpp",S+"nodes/manipulation.cpp",S+"nodes/flow.cpp",S+"nodes/collections.cpp",S+"nodes/quadratic_model.cpp",P+"symbols.pyx",P+"_model.pyx"],
 [("successors_","edges registered with operands",I+"graph.hpp")],
 [("node constructors","all node types; Graph::emplace_node")],
 ["exception, then num_nodes, num_edges, iter_successors and evaluation of the model"]))
L.append(p("C18","Quadratic models evaluate their polynomial",
 "A quadratic model symbol's value is always the sum of its linear terms, square terms and pairwise interactions evaluated at its input's current state, however the model was given (dict or coordinates, repeated, symmetric or diagonal entries, binary or integer input) and however the input was changed; get_linear/get_quadratic/num_interactions return the accumulated coefficients.",
 ["inputs","histories"],"every coefficient set, every input and sequence of changes",
 "Incremental evaluation of simultaneous changes to interacting variables needs specific pairs to change together.",
 [S+"nodes/quadratic_model.cpp",I+"nodes/quadratic_model.hpp",P+"symbols.pyx"],
 [("linear_biases_/square_biases_/adj_","coefficients",I+"nodes/quadratic_model.hpp")],
 [("QuadraticModelNode::propagate","quadratic_model.cpp"),("_init_from_coords/_init_from_qubo","symbols.pyx")],
 ["value and diff of the node, coefficient getters"]))
L.append(p("C19","Array utilities implement their definitions",
 "Slice::fit selects exactly the elements CPython/NumPy would select, broadcast_shape, unravel_index and ravel_multi_index follow NumPy, array iterators (contiguous, strided and masked) behave as random-access iterators over the C-order element sequence for any mix of steps, deduplicate_diff replaces a diff by an equivalent one with at most one update per index and no no-ops, fraction arithmetic is exact, updates report what they are, and compensated sums keep a rounding error that does not grow with the number of terms.",
 ["inputs"],"all slices, sizes, shapes, strides, iterator step sequences and diffs",
 "Pure functions with rich case analysis over unbounded integer inputs.",
 [S+"array.cpp",I+"array.hpp",I+"utils.hpp",S+"utils.cpp"],
 [("Slice, ArrayIterator, Update, fraction","value types",I+"array.hpp")],
 [("fit/broadcast_shape/unravel_index/ravel_multi_index/deduplicate_diff","array.cpp, utils.cpp")],
 ["return values of the utilities"]))
L.append(p("C20","Symbol identity, equality and iteration are faithful",
 "Every Python symbol obtained for a node (creation, iter_symbols, iter_decisions, iter_constraints, predecessors, successors, objective) has the node's type, id, shape, strides and parameters; id()/shares_memory hold exactly for handles of the same node. equals() holds for handles of the same node and for symbols built identically and never for symbols whose type, shape, parameters (bounds, axis, indices, coefficients, set index), constant data or predecessors differ; maybe_equals never contradicts it. state_size() is the number of bytes of an array of fixed size and never less than the state of any other one.",
 ["programs","inputs"],"every pair of symbols of every pair of models",
 "Pairs of symbols over arbitrary graphs; tests compare selected pairs.",
 [P+"_model.pyx",P+"symbols.pyx"],
 [("node_ptr/expired_ptr","handle of a node",P+"_model.pyx")],
 [("equals/maybe_equals/shares_memory/id/symbol_from_ptr","_model.pyx, symbols.pyx")],
 ["id, shares_memory, equals, maybe_equals, type and shape of handles"]))
if __name__=="__main__":
    out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
    with open(out,"w") as f:
        for x in L:
            assert len(x["title"])<=80,x["title"]
            f.write(json.dumps(x)+"\n")
