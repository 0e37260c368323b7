"""technique and level note per property, for MANIFEST.json"""
E = "TLA+ trace validation with TLC: executions of the real C++ library, driven by generated graphs and call histories, are checked step by step against spec/Engine.tla"
N = "Every recorded step of the real library is decided by TLC against the specification's transition relation; the histories are a seeded sample of an unbounded space (sizes up to about 40 nodes and 25 cycles). Trusts the executor's observation code and TLC. "
P = "TLA+ trace validation with TLC: executions of the real Python package, driven by generated histories of calls, are checked step by step against spec/PyModel.tla"
M = "Every recorded step of the real package is decided by TLC against the specification; the histories are a seeded sample of an unbounded space (up to about 40 symbols and 60 calls). Trusts the driver's observation code and TLC. "
NOTES = {
    "C01": (E + " (value clause)", N + "Values are compared on a 1/S grid."),
    "C02": (E + " (commit/revert clauses)", N),
    "C03": (E + " (diff clause)", N),
    "C04": (E + " (bounds clause)", N),
    "C05": (E + " (shape, stride and view clause)", N),
    "C06": (E + " and spec/Decisions.tla (effect, return value and domain of every mutator)", N),
    "C07": (E + " and spec/Decisions.tla (domain predicate decides acceptance of explicit states); spec/PyModel.tla for set_state", N),
    "C14": (E + " (energy/feasible clause) and spec/PyModel.tla (minimize, add_constraint, objective, iter_constraints, feasible)", N),
    "C15": (E + " (frame, isolation and proposal clauses over several interleaved states)", N),
    "C18": (E + " (polynomial clause and coefficient read-back), and spec/PyModel.tla for the Python class", N),
    "C08": (P + " (values of operator symbols, NdArray/Ops semantics)", M + "Values are whole multiples of 1/S and compared exactly."),
    "C09": (P + " (shape and values of indexing symbols) and spec/Construct.tla (which indices are accepted)", M),
    "C10": (P + " (positions, edges, counts, locking)", M),
    "C11": (P + " (reachability decides what may be removed)", M),
    "C12": (P + " (states as slots: set, default, reset, resize, clear, lock)", M),
    "C13": (P + " (model and states before and after the round trip)", M + "The file format itself is not specified, only the round trip."),
    "C16": ("TLA+ conformance checking with TLC: models built by the real generators for generated instances are evaluated on generated assignments and compared with spec/Generators.tla (textbook validity, decisions, cost and feasibility)", "Instances of up to 6 items/8 customers/4x4 shops, whole multiples of 1/S; the instance space is sampled. Euclidean distances only where they are whole."),
    "C17": (P + " and spec/Construct.tla (which constructions are accepted, and that a refusal leaves the model as it was)", M + "Where documentation leaves acceptance open the specification allows both, but not a crash or a changed model."),
    "C19": ("TLA+ trace validation with TLC: calls of the real slice, broadcasting, index, diff and fraction utilities and histories of array iterators are checked against spec/Utils.tla", "Every recorded result is decided by TLC against the definition (for iterators: positions in the C-order sequence); inputs are a seeded sample of small shapes and numbers. Iterators are driven over memories whose element order is their address order."),
    "C20": (P + " (identity, equality and iteration of handles)", M + "equals() of distinct decisions of the same type and shape is left open."),
}
X = ("; and, exhaustively for small instances, every transition of the model-checked state space (invariants and action properties checked by TLC on "
     "%s) is walked in the real code and validated the same way")
for _p, _m in {"C01": "spec/MCEngine.tla", "C02": "spec/MCEngine.tla", "C03": "spec/MCEngine.tla", "C04": "spec/MCEngine.tla", "C05": "spec/MCEngine.tla", "C06": "spec/MCEngine.tla",
               "C07": "spec/MCStates.tla", "C08": "spec/MCConstruct.tla", "C09": "spec/MCConstruct.tla", "C10": "spec/MCModel.tla", "C11": "spec/MCModel.tla",
               "C12": "spec/MCModel.tla", "C13": "spec/MCModel.tla", "C14": "spec/MCEngine.tla and spec/MCModel.tla", "C15": "spec/MCEngine.tla",
               "C17": "spec/MCConstruct.tla", "C18": "spec/MCEngine.tla", "C20": "spec/MCModel.tla"}.items():
    NOTES[_p] = (NOTES[_p][0] + X % _m, NOTES[_p][1] + (" Small instances are complete within their bounds (DESIGN.md)."))
NA = {}
