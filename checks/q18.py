"""Q18 -- depolarisation factoring (DFSC) divides every string by its own characterised factor."""
import itertools
from fractions import Fraction
import numpy as np
import sympy
import z3
from symx import engine as E
from symx.engine import eq, land, lor, lnot, ssum, SymReal
from symx.runner import Harness
from symx.shims import value_of
from symx.stubs import StubBackend, counts_result
from symx.phys import qps, words, PAULI
from pytket import Circuit, Qubit, Bit, OpType
from pytket.utils import QubitPauliOperator
import qermit.clifford_noise_characterisation.dfsc as dfsc
from qermit import MitEx, ObservableExperiment, AnsatzCircuit, ObservableTracker, SymbolsDict

ASSUMPTIONS = ["noise multiplies every string's expectation value by a factor of its own", "circuits are fixed, factors and results arbitrary"]
Q = [Qubit(i) for i in range(3)]
TOL = 1e-6


def _num(ctx, v):
    return sympy.sympify(v) if ctx.symbolic else v


def _near(a, b, tol=TOL):
    d = a - b
    return land(d <= tol, d >= -tol)


def _state(c):
    d = Circuit()
    for q in c.qubits:
        d.add_qubit(q)
    for com in c.get_commands():
        if com.op.type not in (OpType.Measure, OpType.Barrier):
            d.add_gate(com.op, com.qubits)
    dd = d.to_dict()
    dd["implicit_permutation"] = c.to_dict()["implicit_permutation"]
    d = Circuit.from_dict(dd)
    return d.get_statevector(), d.qubits


def _expect(c, s):
    sv, qs = _state(c)
    return float(np.real(np.vdot(sv, s.to_sparse_matrix(list(qs)) @ sv)))


def _parity(c):
    """expectation of the parity of all measured bits"""
    sv, qs = _state(c)
    ms = [com.qubits[0] for com in c.get_commands() if com.op.type == OpType.Measure]
    # a measured qubit's final wire
    out = 0.0
    for i, a in enumerate(sv):
        b = [(i >> (len(qs) - 1 - k)) & 1 for k in range(len(qs))]
        out += abs(a) ** 2 * (-1) ** sum(b[qs.index(m)] for m in ms)
    return float(out)


GATES = {"H": (OpType.H, 1), "S": (OpType.S, 1), "V": (OpType.V, 1), "X": (OpType.X, 1), "Y": (OpType.Y, 1), "Sdg": (OpType.Sdg, 1),
         "CX": (OpType.CX, 2), "CY": (OpType.CY, 2), "CZ": (OpType.CZ, 2), "SWAP": (OpType.SWAP, 2), "wire": (OpType.SWAP, 2), "ZZMax": (OpType.ZZMax, 2)}


def h_prepare(ctx, n, depth, gates, names):
    """the state prepared is a product eigenstate of the string taken back through the circuit"""
    nm = ctx.choice("names", names)
    qs = {"default": Q[:n], "named": [Qubit("b", 1), Qubit("a", 2), Qubit(0)][:n]}[nm]
    c = Circuit()
    for q in qs:
        c.add_qubit(q)
    for i in range(depth):
        g = ctx.choice(f"gate{i}", gates)
        t, k = GATES[g]
        where = ctx.choice(f"on{i}", list(itertools.permutations(range(n), k)))
        c.add_gate(t, [qs[j] for j in where])
        if g == "wire":
            c.replace_SWAPs()
    w = ctx.choice("string", words(n))
    s = qps(w, qs)
    u = c.copy()
    prep = dfsc.preparation_circuit_for_partition(c, [s])
    full = prep.copy()
    full.append(u)
    r = ctx.real("dummy", 0, 1)
    ctx.check(r >= 0, "in range")
    ctx.check(all(com.op.n_qubits == 1 for com in prep.get_commands()), "the state prepared is a product state")
    ctx.check(abs(abs(_expect(full, s)) - 1) < 1e-9, "the state prepared is an eigenstate of the string after the circuit")
    full2 = prep.copy()
    full2.append(c)
    ctx.check(abs(_expect(full, s) - _expect(full2, s)) < 1e-9, "the circuit is only rebased")
    ctx.cover(f"depth{depth}")


def _ansatz(k, sym):
    if k == 0:
        return Circuit(2).H(0).CX(0, 1).Rz(sym, 1).S(1).CX(1, 0)
    if k == 1:
        return Circuit(3).X(0).Ry(sym, 1).CX(0, 1).CX(1, 2).V(2)
    if k == 3:
        return Circuit(5).X(3).Ry(sym, 1).CX(0, 1).CX(1, 2).V(2).H(4)
    c = Circuit()
    qs = [Qubit("n", 3), Qubit("m", 0)]
    for q in qs:
        c.add_qubit(q)
    c.H(qs[0]).CX(*qs).SWAP(*qs).Rx(sym, qs[0]).S(qs[0])
    c.replace_SWAPs()
    return c


def _strings(c, n):
    qs = c.qubits
    all_ = [qps("Y", qs[1:2]), qps("XY", [qs[0], qs[1]]), qps("ZZ", [qs[0], qs[1]]), qps("IZ", [qs[1], qs[0]]), qps("X", qs[:1])]
    return all_[:n]


def h_circuits(ctx):
    """characterisation circuits: the eigenstate, the circuit at Clifford angles, the string's measurement"""
    k = ctx.choice("experiments", [1, 2, 3])
    a = sympy.Symbol("a")
    exps, keep = [], []
    for e in range(k):
        kind = ctx.choice(f"circuit{e}", [0, 1, 2] if k < 3 else [(2, 1, 0)[e]])
        c = _ansatz(kind, a)
        ss = _strings(c, ctx.choice(f"strings{e}", [1, 3, 5] if k < 3 else [1, 2]))
        co = {s: ctx.real(f"c{e}_{j}", -2, 2) for j, s in enumerate(ss)}
        v = ctx.real(f"v{e}", -1, 1)
        exps.append(ObservableExperiment(AnsatzCircuit(c, ctx.int(f"shots{e}", 1, None), SymbolsDict.symbols_from_dict({a: _num(ctx, v)})),
                                         ObservableTracker(QubitPauliOperator({s: _num(ctx, x) for s, x in co.items()}))))
        keep.append((c.copy(), co, v))
    orig, char = dfsc.DFSC_circuit_task_gen()((exps,))
    wire, idx = dfsc.DFSC_collater_task_gen()((char,))
    ctx.check(len(orig) == k, "the experiments are handed on")
    for x, (c, co, v) in zip(orig, keep):
        ctx.check(x.AnsatzCircuit.Circuit == c, "the experiments' circuits are unchanged")
        op = x.ObservableTracker.qubit_pauli_operator
        ctx.check(set(op._dict) == set(co) and not x.ObservableTracker.measurement_circuits, "the experiments' observables are unchanged")
        ctx.check(land(*[eq(value_of(op[s]), z) for s, z in co.items()], eq(value_of(x.AnsatzCircuit.SymbolsDict._symbolic_map[a]), v)), "coefficients and parameters are unchanged")
    ctx.check(list(idx) == [len(co) for _, co, _ in keep], "one characterisation for each string of each experiment")
    i = 0
    for e, (c, co, v) in enumerate(keep):
        left = set(co)
        zero = c.copy()
        zero.symbol_substitution({a: 0.0})
        for x in wire[i : i + len(co)]:
            d = x.ObservableTracker.qubit_pauli_operator._dict
            ctx.check(len(d) == 1 and set(d) <= left, "each string is characterised once")
            s = list(d)[0]
            left.discard(s)
            ctx.check(eq(value_of(d[s]), 1), "the characterisation measures the plain string")
            ctx.check(eq(x.AnsatzCircuit.Shots, exps[e].AnsatzCircuit.Shots), "with the experiment's shots")
            mc = x.ObservableTracker.measurement_circuits
            ctx.check(len(mc) == 1, "one measurement circuit per string")
            m = mc[0].get_parametric_circuit()
            an = x.AnsatzCircuit.Circuit.copy()
            an.symbol_substitution({q: z for q, z in x.AnsatzCircuit.SymbolsDict._symbolic_map.items()})
            ctx.check(abs(abs(_expect(an, s)) - 1) < 1e-9, "the characterised state is an eigenstate of the string")
            ctx.check(abs(_parity(m) - _expect(an, s)) < 1e-9, "the measurement circuit measures the string in the characterised state")
            n1 = [com.op.type for com in an.get_commands() if len(com.qubits) > 1]
            ctx.check(len(n1) >= len([1 for com in zero.get_commands() if len(com.qubits) > 1]), "the circuit's entangling gates run")
        i += len(co)
    ctx.cover("characterised")


def h_collate(ctx, n_exp, n_cliff):
    """results are regrouped by experiment, averaging a string's results"""
    k = ctx.choice("experiments", list(range(1, n_exp + 1)))
    shape = [ctx.choice(f"cliffords{e}", list(range(1, n_cliff + 1))) for e in range(k)]
    strs = [[qps("Z", Q[:1]), qps("XY", Q[:2])][: 1 + e % 2] for e in range(k)]
    tok = [[[(e, c, s) for s in strs[e]] for c in range(shape[e])] for e in range(k)]
    wire, idx = dfsc.DFSC_collater_task_gen()((tok,))
    ctx.check(list(wire) == [t for a in tok for b in a for t in b], "all characterisations, in order")
    vals = {t: ctx.real(f"v{i}", -1, 1) for i, t in enumerate(wire)}
    (out,) = dfsc.DFSC_characterisation_task_gen()(([QubitPauliOperator({t[2]: _num(ctx, vals[t])}) for t in wire], list(idx)))
    ctx.check(len(out) == k, "one characterisation per experiment")
    for e in range(k):
        ctx.check(set(out[e]._dict) == set(strs[e]), "exactly the strings of the experiment")
        for s in strs[e]:
            ctx.check(_near(value_of(out[e][s]) * shape[e], ssum([vals[(e, c, s)] for c in range(shape[e])])), "each string's value is the mean of its own characterisations")
    ctx.cover("regrouped")


def h_correct(ctx, n_exp):
    """every string is divided by its own factor, unless that is (nearly) zero"""
    k = ctx.choice("experiments", list(range(1, n_exp + 1)))
    thr = ctx.choice("threshold", [0.01, 0.25, 0.0])
    strs = [[qps("Z", Q[:1]), qps("XY", Q[:2])][: 1 + (e + 1) % 2] for e in range(k)]
    v = {(e, s): ctx.real(f"v{e}_{j}", -2, 2) for e in range(k) for j, s in enumerate(strs[e])}
    f = {(e, s): ctx.real(f"f{e}_{j}", -1, 1) for e in range(k) for j, s in enumerate(strs[e])}
    mk = lambda d, e, r=False: QubitPauliOperator({s: _num(ctx, d[(e, s)]) for s in (reversed(strs[e]) if r else strs[e])})
    ctx.assume(land(*[lor(abs(x) > thr + 1e-6, land(abs(x) < thr - 1e-6)) if thr else lor(abs(x) > 1e-3, eq(x, 0)) for x in f.values()]))
    (out,) = dfsc.DFSC_correction_task_gen(thr)(([mk(v, e) for e in range(k)], [mk(f, e, True) for e in range(k)]))
    ctx.check(len(out) == k, "one operator per experiment")
    for e in range(k):
        ctx.check(set(out[e]._dict) == set(strs[e]), "exactly the strings of the experiment")
        for s in strs[e]:
            o, a, b = value_of(out[e][s]), v[(e, s)], f[(e, s)]
            if bool(abs(b) > thr):
                ctx.check(_near(o * abs(b), a), "the value is divided by the characterised factor")
                ctx.cover("divided")
            else:
                ctx.check(_near(o, a), "values whose factor is too small are left as they are")
                ctx.cover("left")
    try:
        dfsc.DFSC_correction_task_gen(thr)(([mk(v, 0)] * (k + 1), [mk(f, 0)] * k))
    except ValueError:
        bad = True
    else:
        bad = False
    ctx.check(bad, "different numbers of results and characterisations are refused")


def h_full(ctx, n_exp, n_str, methods):
    """the whole method on a device with a factor of its own for every string of every experiment"""
    k = ctx.choice("experiments", list(range(1, n_exp + 1)))
    kinds = ctx.choice("circuits", list(itertools.permutations([0, 1], k)) if k <= 2 else [(3, 0, 1), (1, 3, 0)])
    how = ctx.choice("methods", methods)
    a = sympy.Symbol("a")
    f = {(e, j): ctx.real(f"f{e}_{j}", 0.02, 1) for e in kinds for j in range(1, n_str + 1)}
    big = {key: ctx.choice("size%d_%d" % key, ["large", "small"]) if key == (kinds[0], 1) else "large" for key in f}
    for key, x in f.items():
        ctx.assume(x > 0.25 if big[key] == "large" else x < 0.15)
    ran = []

    def provider(c, s, j):
        # experiments differ in the number of qubits, strings in the number of bits
        key = (c.n_qubits - 2, len(c.bits))
        e0 = round(_parity(c) * 2**20) / 2**20
        v = f[key] * Fraction(e0) if ctx.symbolic else f[key] * e0
        bits = sorted(c.bits)
        o0, o1 = tuple([0] * len(bits)), tuple([0] * (len(bits) - 1) + [1])
        ran.append(key)
        if not ctx.symbolic:
            return counts_result({o0: round((1 + v) / 2 * 2**40), o1: 2**40 - round((1 + v) / 2 * 2**40)}, bits)
        h = SymReal(z3.RealVal("1/2"))
        return counts_result({o0: h + v * h, o1: h - v * h}, bits)

    be, be2 = StubBackend(provider), StubBackend(provider)
    kw = {} if how == "default" else dict(experiment_mitex=MitEx(be2), characterisation_mitex=MitEx(be2))
    exps, want, keep = [], [], []
    for e in kinds:
        c = _ansatz(e, a)
        val = 0.5 + 0.2 * e
        ss = [qps("Y", c.qubits[1:2]), qps("ZZ", [c.qubits[0], c.qubits[1]])][:n_str]
        ref = c.copy()
        ref.symbol_substitution({a: val})
        exps.append(ObservableExperiment(AnsatzCircuit(c, 100, SymbolsDict.symbols_from_dict({a: val})), ObservableTracker(QubitPauliOperator({s: 0.75 for s in ss}))))
        want.append({s: ((e, len(s.map)), 0.75 * _expect(ref, s)) for s in ss})
        keep.append(c.copy())
    if how == "given":
        be = StubBackend(lambda c, s, j: ctx.check(False, "the methods given are used"))
    out = dfsc.gen_DFSC_MitEx(be, DFSC_threshold=0.2, **kw).run(exps)
    ctx.check(len(out) == k, "one operator per experiment")
    for o, w in zip(out, want):
        ctx.check(set(o._dict) == set(w), "exactly the strings of the experiment")
        for s, (key, t) in w.items():
            if big[key] == "large":
                ctx.check(_near(value_of(o[s]), t, 1e-5), "the corrected value is the noise-free expectation")
            else:
                ctx.check(_near(value_of(o[s]), f[key] * Fraction(t) if ctx.symbolic else f[key] * t, 1e-5), "strings without usable characterisation are left as they are")
    ctx.check(all(x.AnsatzCircuit.Circuit == c for x, c in zip(exps, keep)), "the experiments' circuits are unchanged")
    ctx.check(len(ran) == 2 * sum(len(w) for w in want), "one experiment and one characterisation circuit per string")
    ctx.cover(how)


ALL = list(GATES)
HARNESSES = [
    Harness("prepare", h_prepare, "circuits of 2 gates (thorough 3) on 2 qubits with default or other names, all strings", ["depth2"],
            quick=dict(n=2, depth=2, gates=["H", "S", "V", "CX", "CY", "wire"], names=["default", "named"]),
            thorough=dict(n=2, depth=2, gates=ALL, names=["default", "named"])),
    Harness("prepare3", h_prepare, "circuits of 1 gate on 3 qubits (thorough: more gates), all strings", ["depth1"],
            quick=dict(n=3, depth=1, gates=["H", "S", "CX", "wire"], names=["named"]),
            thorough=dict(n=3, depth=1, gates=ALL, names=["default", "named"])),
    Harness("circuits", h_circuits, "1-3 experiments on three ansatz circuits (named qubits, wire swaps) with 1-5 strings", ["characterised"]),
    Harness("collate", h_collate, "1-3 experiments of 1-3 Clifford circuits (thorough 4 x 4)", ["regrouped"], quick=dict(n_exp=3, n_cliff=3), thorough=dict(n_exp=4, n_cliff=4)),
    Harness("correct", h_correct, "1-3 experiments, three thresholds, all values and factors", ["divided", "left"], quick=dict(n_exp=3)),
    Harness("full", h_full, "1-3 experiments of 2 strings, all factors between 0.02 and 1, methods given or default", ["default", "given"],
            quick=dict(n_exp=3, n_str=2, methods=["default", "given"]), stubs=["backend: exact outcome frequencies, each string shrunk by its own factor"]),
]
