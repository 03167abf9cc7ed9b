"""Q17 -- CDR training circuits are near-Clifford copies of the experiment's circuit."""
import itertools
import warnings
from collections import defaultdict
import numpy as np
import sympy
from symx import engine as E
from symx.engine import eq, land, lor, ssum
from symx.runner import Harness
from symx.shims import value_of
from symx.stubs import patched
from symx.phys import qps
from symx.rand import Rand
from pytket import Circuit, Qubit, Bit, OpType
from pytket.circuit import CircBox
from pytket.utils import QubitPauliOperator
import qermit.clifford_noise_characterisation.ccl as ccl
from qermit import ObservableExperiment, AnsatzCircuit, ObservableTracker, SymbolsDict

ASSUMPTIONS = ["circuits are fixed; every random draw is explored", "the simulated expectation values are arbitrary numbers"]
Q = [Qubit(i) for i in range(3)]


def _circ(name):
    if name == "ladder":
        return Circuit(2, 2).H(0).Rz(0.3, 0).CX(0, 1).Rz(0.5, 1).H(1).Rz(1.7, 1).CX(1, 0).Rz(0.45, 0).Measure(0, 1).Measure(1, 0)
    if name == "two":
        return Circuit(2).Rz(0.21, 0).H(0).CX(0, 1).Rz(3.9, 1).Rz(1.5, 0)
    if name == "one":
        return Circuit(2, 1).H(0).Rz(1.0, 0).CX(0, 1).Rz(0.31, 1).H(1).Rz(0.5, 1).Measure(1, 0)
    if name == "none":
        return Circuit(2, 2).H(0).Rz(0.5, 0).CX(0, 1).measure_all()
    if name == "names":
        c = Circuit()
        a, b, d = Qubit("b", 2), Qubit("a", 0), Qubit(1)
        for q in (a, b, d):
            c.add_qubit(q)
        k = Bit("k", 3)
        c.add_bit(k)
        c.add_bit(Bit(0))
        c.Rz(0.3, a).CX(a, b).Rz(0.7, b).H(b).CX(b, d).Rz(0.11, d).Rz(0.5, d)
        c.add_barrier([a, d])
        return c.Measure(b, k)
    if name == "wires":
        c = Circuit(3).H(0).Rz(0.3, 0).CX(0, 1).Rz(0.8, 1).SWAP(0, 2).Rz(0.15, 2).CX(2, 1)
        c.replace_SWAPs()
        return c
    if name == "wires1":
        c = Circuit(2).H(0).Rz(0.3, 0).CX(0, 1).SWAP(0, 1).Rz(0.5, 0)
        c.replace_SWAPs()
        return c
    if name == "rebased":
        b = CircBox(Circuit(2).CZ(0, 1).S(1).Ry(0.3, 0))
        return Circuit(2, 1).H(0).X(1).add_circbox(b, [1, 0]).Y(0).T(1).ZZMax(0, 1).Measure(0, 0)
    raise AssertionError(name)


def _seq(c):
    """per wire: the operations on it (barriers aside); determines the circuit"""
    out = defaultdict(list)
    for com in c.get_commands():
        if com.op.type == OpType.Barrier:
            continue
        for a in com.args:
            out[a].append((com.op.type, [float(p) for p in com.op.params], tuple(map(str, com.args))))
    return out


def _clifford(a):
    return abs((a / 0.5) - round(a / 0.5)) < 1e-9


def _compare(ctx, ref, c, keep):
    """c is ref with non-Clifford rotations replaced by Clifford ones, `keep` of them kept"""
    ctx.check(set(c.qubits) == set(ref.qubits) and set(c.bits) == set(ref.bits), "training circuits have the qubits and bits of the circuit")
    ctx.check(dict(c.implicit_qubit_permutation()) == dict(ref.implicit_qubit_permutation()), "training circuits keep the wire swaps of the circuit")
    a, b = _seq(ref), _seq(c)
    ctx.check(set(a) == set(b) and all(len(a[w]) == len(b[w]) for w in a), "training circuits have the gates of the circuit")
    kept = 0
    for w in a:
        for (t, p, args), (u, r, args2) in zip(a[w], b[w]):
            ctx.check(t == u and args == args2, "training circuits have the gates of the circuit")
            if t == OpType.Rz and not _clifford(p[0]):
                same = abs((p[0] - r[0]) % 4) < 1e-9
                ctx.check(same or _clifford(r[0]), "a rotation keeps its angle or becomes Clifford")
                kept += same
            else:
                ctx.check(len(p) == len(r) and all(abs((x - y) % 4) < 1e-9 for x, y in zip(p, r)), "Clifford gates are kept as they are")
    ctx.check(kept == keep, "as many rotations stay non-Clifford as asked for, but not all")


def _n_nc(c):
    return sum(1 for com in c.get_commands() if com.op.type == OpType.Rz and not _clifford(float(com.op.params[0])))


def h_circuits(ctx, names, nnc, total):
    c = _circ(ctx.choice("circuit", names))
    n = ctx.choice("n_non_cliffords", nnc)
    p = ctx.choice("n_pairs", list(range(0, n + 1)))
    t = ctx.choice("total", total)
    u = c.copy()
    with Rand(ctx, max_draws=60).installed():
        out = ccl.gen_state_circuits(c, n, p, t)
    ctx.check(len(out) == t, "as many training circuits as asked for")
    v = u.copy()
    ccl.DecomposeBoxes().apply(v)
    ccl.ufr_rebase.apply(v)
    r = ctx.real("dummy", 0, 1)
    ctx.check(r <= 1, "in range")
    N = _n_nc(v)
    for s in out:
        _compare(ctx, v, s, min(n, N - 1) if N >= 2 else 0)
    ctx.cover(f"{min(N, 2)} non-Clifford")


def h_pairs_refused(ctx):
    n = ctx.int("n_non_cliffords", 0, 20)
    p = ctx.choice("n_pairs", list(range(1, 21)))
    ctx.assume(p > n)
    try:
        ccl.gen_state_circuits(_circ("two"), n, p, 1)
    except ValueError:
        ok = True
    else:
        ok = False
    ctx.check(ok, "more pairs than non-Clifford gates are refused")
    ctx.cover("refused")


def h_angle(ctx):
    """the angle drawn is Clifford, and all four rotations are possible, nearest most likely"""
    a = ctx.real("angle", 0, 4)
    k = ctx.choice("sample", [0.1, 0.4, 0.65, 1.2, 1.45])
    r = Rand(ctx)
    with r.installed():
        out = ccl.sample_weighted_clifford_angle(k)
    ctx.check(_clifford(out) and 0 <= out < 2, "the angle is Clifford")
    ws = [d[2] for d in r.draws if d[0] == "choices"]
    if len(ws) == 1 and ws[0] is not None and len(ws[0]) == 4:
        ctx.check(all(w > 0 for w in ws[0]), "every Clifford rotation is possible")
        best = max(range(4), key=lambda i: ws[0][i])
        ctx.check(abs(0.5 * best - k) <= 0.25 + 1e-9, "the nearest Clifford rotation is the likeliest")
    ctx.check(a >= 0, "in range")
    ctx.cover("drawn")


def h_state_task(ctx, n_exp, total, names, attempts):
    """the experiments' training circuits, and the experiments themselves"""
    k = ctx.choice("experiments", list(range(1, n_exp + 1)))
    t = ctx.choice("total", total)
    att = ctx.choice("attempts", attempts)
    sym = sympy.Symbol("a")
    exps, keep, cs, strs = [], [], [], []
    for e in range(k):
        nm = ctx.choice(f"circuit{e}", names)
        c = _circ(nm)
        if ctx.choice(f"symbolic{e}", [False, True]):
            c.Rz(sym, c.qubits[0])
            sd = SymbolsDict.symbols_from_dict({sym: 0.37 + 0.1 * e})
            ref = c.copy()
            ref.symbol_substitution({sym: 0.37 + 0.1 * e})
        else:
            sd, ref = SymbolsDict(), c.copy()
        ss = [qps("Z", c.qubits[:1]), qps("XY", c.qubits[:2])][: 1 + e % 2]
        co = {s: ctx.real(f"c{e}_{j}", -2, 2) for j, s in enumerate(ss)}
        exps.append(ObservableExperiment(AnsatzCircuit(c, ctx.int(f"shots{e}", 1, None), sd),
                                         ObservableTracker(QubitPauliOperator({s: sympy.sympify(v) if ctx.symbolic else v for s, v in co.items()}))))
        keep.append((c.copy(), ref))
        strs.append(co)
    calls = []

    def expectation(circ, op, backend, *a, **kw):
        calls.append(ctx.real(f"v{len(calls)}", -2, 2))
        return calls[-1]

    import random
    random.seed(5)
    np.random.seed(5)
    with patched((ccl, "get_operator_expectation_value", expectation)), warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        orig, sim, dev = ccl.ccl_state_task_gen(1, 1, t, None, 0.25, att)((exps,))
    ctx.check(len(orig) == k and all(a is b or a == b for a, b in zip(orig, exps)), "the experiments are handed on")
    for x, (c, ref) in zip(orig, keep):
        ctx.check(x.AnsatzCircuit.Circuit == c, "the experiment's circuit is unchanged")
    ctx.check(len(sim) == len(dev) == k * t, "as many training circuits as asked for, on both sides")
    ctx.check(t * k <= len(calls) <= t * k * att, "training circuits are generated anew at most as often as allowed")
    if k == 1:
        n_att = len(calls) // t
        last = calls[-t:]
        close = land(*[land(v - last[0] <= 0.25, last[0] - v <= 0.25) for v in last])
        warned = any("similar exact" in str(v.message) for v in w)
        ctx.check(eq(close, warned), "a warning is given exactly when the training circuits' values are all close")
        ctx.check(lor(not warned, n_att == att), "training circuits that are too similar are generated anew")
    for i, (a, b) in enumerate(zip(sim, dev)):
        e = i // t
        ref = keep[e][1].copy()
        ccl.DecomposeBoxes().apply(ref)
        ccl.ufr_rebase.apply(ref)
        for x in (a, b):
            c = x.AnsatzCircuit.Circuit
            N = _n_nc(ref)
            _compare(ctx, ref, c, min(1, N - 1) if N >= 2 else 0)
            ctx.check(not c.free_symbols(), "parameters are substituted")
            ctx.check(eq(x.AnsatzCircuit.Shots, exps[e].AnsatzCircuit.Shots), "training circuits run with the experiment's shots")
            op = x.ObservableTracker.qubit_pauli_operator
            ctx.check(set(op._dict) == set(strs[e]), "training circuits measure the experiment's strings")
            ctx.check(land(*[eq(value_of(op[s]), v) for s, v in strs[e].items() if s in op._dict]), "with the experiment's coefficients")
        ctx.check(a.AnsatzCircuit.Circuit == b.AnsatzCircuit.Circuit, "the device and the simulator run the same training circuits in the same order")
    # nothing is shared
    j = ctx.choice("changed", list(range(min(2, len(sim)))))
    every = list(sim) + list(dev) + list(exps)
    snap = [(x.AnsatzCircuit.Circuit.copy(), set(x.ObservableTracker.qubit_pauli_operator._dict)) for x in every]
    tgt = dev[j]
    tgt.AnsatzCircuit.Circuit.X(tgt.AnsatzCircuit.Circuit.qubits[0])
    tgt.ObservableTracker.extend_operator(QubitPauliOperator({qps("Y", tgt.AnsatzCircuit.Circuit.qubits[:1]): 2.0}))
    for x, (c, d) in zip(every, snap):
        if x is not tgt:
            ctx.check(x.AnsatzCircuit.Circuit == c and set(x.ObservableTracker.qubit_pauli_operator._dict) == d, "changing a device experiment shows in no other")
    ctx.cover("generated")


def h_exact(ctx):
    """the exact value of a training circuit is asked for under its own qubits"""
    name = ctx.choice("circuit", ["names", "wires", "ladder", "wires1"])
    c = _circ(name)
    qs = c.qubits
    got = []

    def expectation(circ, op, backend, *a, **kw):
        got.append((circ.copy(), op))
        return 0.5
    v = ctx.real("c", -2, 2)
    w = ctx.choice("string", ["ZX", "YI", "IZ"])
    s = qps(w, [qs[0], qs[-1]])
    exp = ObservableExperiment(AnsatzCircuit(c, 10, SymbolsDict()), ObservableTracker(QubitPauliOperator({s: sympy.sympify(v) if ctx.symbolic else v})))
    with patched((ccl, "get_operator_expectation_value", expectation)), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        _, sim, _ = ccl.ccl_state_task_gen(1, 1, 2, None, 0.25, 1)(([exp],))
    ctx.check(len(got) == 2, "one value per training circuit")
    for (circ, op), x in zip(got, sim):
        ref = x.AnsatzCircuit.Circuit.copy()
        # Tr(P U|0><0|U+) of what is simulated and of the training circuit
        ctx.check(len(op._dict) == 1 and bool(eq(value_of(list(op._dict.values())[0]), v)), "with the coefficients of the experiment")
        ctx.check(abs(_expect(circ, list(op._dict)[0]) - _expect(ref, s)) < 1e-9, "the exact value is that of the string in the training circuit's state")
    ctx.cover("simulated")


def _expect(c, s):
    d = Circuit()
    for q in c.qubits:
        d.add_qubit(q)
    for com in c.get_commands():
        if com.op.type not in (OpType.Measure, OpType.Barrier):
            d.add_gate(com.op, com.qubits)
    dd = d.to_dict()
    dd["implicit_permutation"] = [[a, b] for a, b in c.to_dict()["implicit_permutation"]]
    d = Circuit.from_dict(dd)
    sv = d.get_statevector()
    m = s.to_sparse_matrix(d.qubits)
    return float(np.real(np.vdot(sv, m @ sv)))


HARNESSES = [
    Harness("circuits", h_circuits, "seven circuits with 0-4 non-Clifford rotations (named qubits and bits, barriers, implicit wire swaps), every draw, 0-4 rotations kept, all numbers of pairs", ["0 non-Clifford", "1 non-Clifford", "2 non-Clifford"],
            quick=dict(names=["two", "one", "none", "wires1", "names"], nnc=[0, 1], total=[1]),
            thorough=dict(names=["two", "one", "none", "wires1", "names", "wires", "rebased", "ladder"], nnc=[0, 1, 2, 4], total=[1])),
    Harness("circuits2", h_circuits, "two training circuits of one circuit, every draw", ["2 non-Clifford"],
            quick=dict(names=["two"], nnc=[1], total=[2]), thorough=dict(names=["two"], nnc=[0, 1, 3], total=[2])),
    Harness("pairs_refused", h_pairs_refused, "up to 20 of each", ["refused"]),
    Harness("angle", h_angle, "five angles, every draw", ["drawn"]),
    Harness("state_task", h_state_task, "1..2 experiments, 2-3 training circuits, up to 2 attempts, symbolic parameters, arbitrary simulated values, fixed random seed", ["generated"],
            quick=dict(n_exp=2, total=[2], names=["one", "names"], attempts=[1, 2]), thorough=dict(n_exp=2, total=[1, 2, 3], names=["one", "names", "wires", "rebased"], attempts=[1, 2]),
            stubs=["get_operator_expectation_value: arbitrary numbers"]),
    Harness("exact", h_exact, "four circuits with named qubits or implicit wire swaps, three strings", ["simulated"], stubs=["get_operator_expectation_value: records what it is given"]),
]
