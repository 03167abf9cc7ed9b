"""Q02 -- methods leave what they are given as it was, and are independent of what becomes of it."""
import hashlib
import random
import warnings
from types import SimpleNamespace
from typing import List, Tuple
import numpy as np
import sympy
from symx import engine as E
from symx.engine import eq
from symx.runner import Harness
from symx.shims import value_of
from symx.stubs import StubBackend, counts_result, all_outcomes, patched
from symx.phys import qps
from symx.qsem import same_unitary, strip
from pytket import Circuit, Qubit, Bit, OpType
from pytket.backends.backendresult import BackendResult
from pytket.circuit import Node
from pytket.passes import CustomPass, RenameQubitsPass
from pytket.utils import QubitPauliOperator
from qermit import CircuitShots, MitRes, MitEx, MitTask, TaskGraph, AnsatzCircuit, ObservableExperiment, ObservableTracker, SymbolsDict
from qermit.taskgraph import gen_compiled_MitRes, gen_MeasurementReduction_MitEx
import qermit.taskgraph.mitres as mitres_mod
from qermit.spam import gen_FullyCorrelated_SPAM_MitRes, gen_UnCorrelated_SPAM_MitRes
from qermit.postselection import gen_postselect_mitres, PostselectMgr
from qermit.leakage_detection import get_leakage_detection_mitres
from qermit.frame_randomisation import gen_Frame_Randomisation_MitRes
from qermit.clifford_noise_characterisation import gen_DFSC_MitEx, gen_CDR_MitEx
import qermit.clifford_noise_characterisation.ccl as ccl
from qermit.zero_noise_extrapolation import gen_ZNE_MitEx
from qermit.probabilistic_error_cancellation import gen_PEC_learning_based_MitEx
from qermit.spectral_filtering import gen_spectral_filtering_MitEx

ASSUMPTIONS = ["the device's outcomes for a circuit depend on the circuit only (for states that are simulated exactly: are the exact ones)",
               "random and numpy.random are in the same state when runs are compared"]
Q = [Qubit(i) for i in range(3)]


def _key(c):
    return repr([(str(com.op), [str(a) for a in com.args]) for com in c.get_commands() if com.op.type != OpType.Barrier])


class Device(StubBackend):
    """outcomes are fixed, but arbitrary looking, for every circuit; all jobs are recorded"""

    def __init__(self, tag=""):
        super().__init__(self._give)
        self.tag = tag
        self.log = []
        nodes = [Node("q", i) for i in range(3)]
        self.backend_info = SimpleNamespace(n_nodes=6, nodes=nodes, gate_set={OpType.CX, OpType.TK1, OpType.Rz, OpType.H}, architecture=SimpleNamespace(nodes=nodes))
        self.supports_state, self.supports_expectation = True, False

    def _give(self, c, s, k):
        if not c.bits:
            d = Circuit(c.n_qubits)
            for com in c.get_commands():
                if com.op.type == OpType.Barrier:
                    continue
                d.add_gate(com.op, [c.qubits.index(q) for q in com.qubits])
            return BackendResult(state=d.get_statevector())
        self.log.append((_key(c), s))
        out = {}
        for o in all_outcomes(len(c.bits)):
            h = hashlib.sha256((self.tag + _key(c) + str(o)).encode()).digest()
            # the outcome without ones is by far the most frequent
            out[o] = 1 + h[0] % 64 + (300 if not any(o) else 0)
        return counts_result(out, c.bits)

    def default_compilation_pass(self, *a, **kw):
        return CustomPass(lambda c: c)

    def rebase_pass(self, *a, **kw):
        return CustomPass(lambda c: c)


def _mark(kind, log):
    if kind == "mitres":
        def task(obj, results: List[BackendResult]) -> Tuple[List[BackendResult]]:
            log.append(len(results))
            return (results,)
    else:
        def task(obj, results: List[QubitPauliOperator]) -> Tuple[List[QubitPauliOperator]]:
            log.append(len(results))
            return (results,)
    return MitTask(_label="UsersTask", _n_in_wires=1, _n_out_wires=1, _method=task)


def _broken(kind):
    if kind == "mitres":
        def task(obj, results: List[BackendResult]) -> Tuple[List[BackendResult]]:
            raise RuntimeError("the changed graph was run")
    else:
        def task(obj, results: List[QubitPauliOperator]) -> Tuple[List[QubitPauliOperator]]:
            raise RuntimeError("the changed graph was run")
    return MitTask(_label="Broken", _n_in_wires=1, _n_out_wires=1, _method=task)


def _users_graph(kind, be, log):
    g = MitRes(be, _label="UsersMitRes") if kind == "mitres" else MitEx(be, _label="UsersMitEx", mitres=MitRes(be))
    g.append(_mark(kind, log))
    return g


def _snap(g):
    """tasks, wires and labels of a graph and of those nested in it"""
    if not hasattr(getattr(g, "_task_graph", None), "edges"):   # only what is public
        return (str(g), [(id(t), str(t)) for t in g.tasks], [g.n_in_wires, g.n_out_wires], sorted(g.get_characterisation()))
    nodes = {n: i for i, n in enumerate(g._task_graph.nodes)}
    inner = [(id(n), n._label if hasattr(n, "_label") else str(n), _snap(n) if hasattr(n, "_task_graph") else None) for n in nodes]
    return (g.label if hasattr(g, 'label') else str(g), inner, sorted((nodes[a], nodes[b], k) for a, b, k in g._task_graph.edges(keys=True)), sorted(g.get_characterisation()))


# method -> (kind of its wires, options that take a graph and their kind, maker)
def _spam(f, *a):
    return lambda be, kw: f(be, 5, *a, **kw)


METHODS = {
    "spam correlated": ("mitres", {"calibration_mitres": "mitres", "correction_mitres": "mitres"}, _spam(gen_FullyCorrelated_SPAM_MitRes, [[Node("q", 0), Node("q", 1)], [Node("q", 2)]])),
    "spam uncorrelated": ("mitres", {"calibration_mitres": "mitres", "correction_mitres": "mitres"}, _spam(gen_UnCorrelated_SPAM_MitRes)),
    "postselect": ("mitres", {"mitres": "mitres"}, lambda be, kw: gen_postselect_mitres(be, PostselectMgr([Bit(0)], [Bit(1)]), **kw)),
    "leakage": ("mitres", {"mitres": "mitres"}, lambda be, kw: get_leakage_detection_mitres(be, **kw)),
    "frames": ("mitres", {"mitres": "mitres"}, lambda be, kw: gen_Frame_Randomisation_MitRes(be, 2, **kw)),
    "mitex": ("mitex", {"mitres": "mitres"}, lambda be, kw: MitEx(be, **kw)),
    "reduction": ("mitex", {"mitex": "mitex"}, lambda be, kw: gen_MeasurementReduction_MitEx(be, **kw)),
    "dfsc": ("mitex", {"experiment_mitex": "mitex", "characterisation_mitex": "mitex"}, lambda be, kw: gen_DFSC_MitEx(be, **kw)),
    "cdr": ("mitex", {"states_simulator_mitex": "mitex", "states_device_mitex": "mitex", "experiment_mitex": "mitex"}, lambda be, kw: gen_CDR_MitEx(be, be, 2, 1, 4, tolerance=0.0, **kw)),
    "zne": ("mitex", {"experiment_mitres": "mitres", "experiment_mitex": "mitex"}, lambda be, kw: gen_ZNE_MitEx(be, [1, 3], **kw)),
    "pec": ("mitex", {"simulator_mitex": "mitex", "device_mitex": "mitex"}, lambda be, kw: gen_PEC_learning_based_MitEx(be, be, num_cliff=16, seed=3, **kw)),
    "spectral": ("mitex", {"experiment_mitres": "mitres", "experiment_mitex": "mitex"}, lambda be, kw: gen_spectral_filtering_MitEx(be, 2, **kw)),
}


def _circuit(method):
    a = sympy.Symbol("a")
    if method == "pec":
        return Circuit(2).H(0).CX(0, 1).H(1)
    if method == "dfsc":
        return Circuit(2).H(0).CX(0, 1).Rz(a, 1).CX(0, 1).Rx(0.5, 0)
    if method == "spectral":
        return Circuit(2).Rx(a, 0).CX(0, 1)
    return Circuit(2).H(0).CX(0, 1).Rz(0.3, 1).CX(0, 1).Rx(0.4, 0)


def _wires(ctx, kind, method, tag):
    shots = [ctx.int(f"shots{tag}{i}", 1, 10**6) for i in range(2 if kind == "mitres" else 1)]
    if method == "frames":
        shots = [10 * (i + 1) for i in range(2)]
    if kind == "mitres":
        cs = [Circuit(2, 2).H(0).CX(0, 1).Ry(0.2 + i, 1).Measure(0, 0).Measure(1, 1) for i in range(2)]
        return [CircuitShots(c, s) for c, s in zip(cs, shots)]
    # the fit of CDR is of values times coefficients
    coef = [ctx.real(f"coef{tag}{i}", -2, 2) for i in range(2)] if method != "cdr" else [1.5, -0.5]
    ops = [qps("ZZ", Q[:2]), qps("Z", Q[:1])] if method != "pec" else [qps("ZZ", Q[:2])]
    op = QubitPauliOperator({s: (sympy.sympify(x) if E.is_sym(x) else x) for s, x in zip(ops, coef)})
    sd = SymbolsDict.symbols_from_dict({sympy.Symbol("a"): 0.25}) if method in ("spectral", "dfsc") else SymbolsDict()
    return [ObservableExperiment(AnsatzCircuit(_circuit(method), shots[0], sd), ObservableTracker(op))]


def _copy_wires(kind, ws):
    if kind == "mitres":
        return [(w, w.Circuit, w.Circuit.copy(), w.Shots) for w in ws]
    return [(w, w.AnsatzCircuit.Circuit, w.AnsatzCircuit.Circuit.copy(), w.AnsatzCircuit.Shots, dict(w.AnsatzCircuit.SymbolsDict._symbolic_map),
             dict(w.ObservableTracker._qubit_pauli_operator._dict)) for w in ws]


def _unchanged(ctx, kind, ws, keep, rebased=False):
    ctx.check(len(ws) == len(keep) and all(a is k[0] for a, k in zip(ws, keep)), "the list given is left as it was")
    for w, k in zip(ws, keep):
        if rebased:
            # universal frame randomisation rebases the circuits given, as the repository's tests expect
            ctx.check(w.Circuit is k[1] and same_unitary(ctx, strip(k[1]), strip(k[2])), "the circuits given act as they did")
        elif kind == "mitres":
            ctx.check(w.Circuit is k[1] and k[1] == k[2] and bool(eq(w.Shots, k[3])), "the circuits and shots given are left as they were")
        else:
            ctx.check(w.AnsatzCircuit.Circuit is k[1] and k[1] == k[2] and bool(eq(w.AnsatzCircuit.Shots, k[3])), "the circuits and shots given are left as they were")
            ctx.check(dict(w.AnsatzCircuit.SymbolsDict._symbolic_map) == k[4], "the parameters given are left as they were")
            d = w.ObservableTracker._qubit_pauli_operator._dict
            ctx.check(set(d) == set(k[5]), "the observables given are left as they were")
            for s in d:
                ctx.check(eq(value_of(d[s]), value_of(k[5][s])), "the observables given are left as they were")


def _values(kind, out):
    if kind == "mitres":
        return [{(i, o): v for o, v in r.get_counts(sorted(r.c_bits)).items()} for i, r in enumerate(out)]
    return [{str(s): value_of(v) for s, v in o._dict.items()} for o in out]


def _same(ctx, a, b, label):
    ctx.check(len(a) == len(b), label + ": number of results")
    for x, y in zip(a, b):
        ctx.check(set(x) == set(y), label + ": outcomes or strings")
        for k in x:
            if k in y:
                u, v = x[k], y[k]
                # floating point sums may be taken in another order
                ctx.check(eq(u, v) if not isinstance(u, float) or not isinstance(v, float) else abs(u - v) < 1e-9, label)


def _same_jobs(ctx, a, b, label):
    ctx.check(sorted(k for k, _ in a) == sorted(k for k, _ in b), label + ": circuits")
    for (k, s), (l, t) in zip(sorted(a, key=lambda x: x[0]), sorted(b, key=lambda x: x[0])):
        ctx.check(eq(s, t), label + ": shots")


class _Seeded:
    def __enter__(self):
        self.keep = random.getstate(), np.random.get_state()
        random.seed(5)
        np.random.seed(5)
        self.w = warnings.catch_warnings()
        self.w.__enter__()
        warnings.simplefilter("ignore")

    def __exit__(self, *a):
        self.w.__exit__(*a)
        random.setstate(self.keep[0])
        np.random.set_state(self.keep[1])


def _run(be, m, ws, characterisation=None):
    with _Seeded():
        del be.log[:]
        out = m.run(ws, **({"characterisation": characterisation} if characterisation else {}))
    return out, list(be.log)


def h_given(ctx, methods, changes):
    """a method built around a graph of the user's"""
    method = ctx.choice("method", methods)
    kind, options, make = METHODS[method]
    option = ctx.choice("option", list(options) + (["all"] if len(options) > 1 else []))
    change = ctx.choice("change", changes)
    opts = list(options) if option == "all" else [option]
    be = Device()
    frames = {"frames": _fixed_frames, "cdr": _fixed_exact}.get(method, patched)

    log, ref_log = [], []
    graphs = {k: _users_graph(k, be, log) for k in sorted({options[o] for o in opts})}

    def build(gs):
        with _Seeded():
            return make(be, {o: gs[options[o]] for o in opts})

    own = {k: _wires(ctx, k, "own", "own" + k) for k in graphs}
    before = {k: _run(be, g, own[k]) for k, g in graphs.items()}
    snaps = {k: _snap(g) for k, g in graphs.items()}
    ws = _wires(ctx, kind, method, "")
    keep = _copy_wires(kind, ws)
    with frames():
        # what the method gives when nothing happens to the graph given
        ref = build({k: _users_graph(k, be, ref_log) for k in graphs})
        want, want_jobs = _run(be, ref, ws)
        want = _values(kind, want)
        ctx.check(len(ref_log) > 0, "the graph given is used")
        _unchanged(ctx, kind, ws, keep, method == "frames")

        m = build(graphs)
        ctx.check({k: _snap(g) for k, g in graphs.items()} == snaps, "building the method leaves the graph given as it was")
        if change in ("append", "prepend", "decompose"):
            for k, g in graphs.items():
                if change == "append":
                    g.append(_broken(k))
                elif change == "prepend":
                    g.prepend(_broken_first(k))
                else:
                    g.decompose_TaskGraph_nodes()
        elif change == "second":
            # another method built around the same graph
            with _Seeded():
                m2 = make(be, {o: graphs[options[o]] for o in opts})
        for rep in range(2):
            out, jobs = _run(be, m, ws, {"user": "secret"} if rep else None)
            _same(ctx, _values(kind, out), want, "the method's results are those of the graph as it was given")
            if rep and method.startswith("spam"):
                # the calibration is not repeated
                left = [j for j in want_jobs if j[0] in {k for k, _ in jobs}]
                ctx.check(len(jobs) >= len(ws), "every circuit is run")
                _same_jobs(ctx, jobs, left, "the method's jobs are those of the graph as it was given")
            else:
                _same_jobs(ctx, jobs, want_jobs, "the method's jobs are those of the graph as it was given")
            _unchanged(ctx, kind, ws, keep, method == "frames")
            if change == "grow":
                m.append(_broken(kind))
                break
        if change == "second":
            out, jobs = _run(be, m2, ws)
            _same(ctx, _values(kind, out), want, "another method's results do not depend on the first one")
            _same_jobs(ctx, jobs, want_jobs, "another method's jobs do not depend on the first one")
    if change in ("none", "second", "grow"):
        ctx.check({k: _snap(g) for k, g in graphs.items()} == snaps, "running the method leaves the graph given as it was")
    if change in ("none", "second", "grow", "decompose"):
        for k, g in graphs.items():
            out, jobs = _run(be, g, own[k])
            _same(ctx, _values(k, out), _values(k, before[k][0]), "the graph given gives the results it gave before")
            _same_jobs(ctx, jobs, before[k][1], "the graph given runs the jobs it ran before")
    ctx.cover(method)


def _broken_first(kind):
    if kind == "mitres":
        def task(obj, ws: List[CircuitShots]) -> Tuple[List[CircuitShots]]:
            raise RuntimeError("the changed graph was run")
    else:
        def task(obj, ws: List[ObservableExperiment]) -> Tuple[List[ObservableExperiment]]:
            raise RuntimeError("the changed graph was run")
    return MitTask(_label="Broken", _n_in_wires=1, _n_out_wires=1, _method=task)


def _fixed_frames():
    """pytket's frames are random: stand-in that gives the circuit itself"""
    import qermit.frame_randomisation.frame_randomisation as fr

    class Same:
        def sample_circuits(self, c, n):
            return [c.copy() for _ in range(n)]
    return patched((fr, "UniversalFrameRandomisation", Same), (fr, "PauliFrameRandomisation", Same))


def _fixed_exact():
    """the exact value of a training circuit, by which CDR accepts it: stand-in that depends on the circuit only"""
    return patched((ccl, "get_operator_expectation_value", lambda c, *a, **k: hashlib.sha256(_key(c).encode()).digest()[0] / 256))


CH = ["none", "append", "prepend", "decompose", "second", "grow"]
HARNESSES = [
    Harness("given", h_given, "12 methods, each option taking a graph (or all with the same graph), six things that happen to the graph; all shots and coefficients", list(METHODS),
            quick=dict(methods=list(METHODS), changes=CH), max_paths=60000, time_budget=800),
]
