"""Q19 -- learning-based probabilistic error cancellation."""
import hashlib
import itertools
import random
from collections import defaultdict
from fractions import Fraction
from types import SimpleNamespace
import numpy as np
import sympy
import z3
from symx import engine as E
from symx.engine import eq, land, lor, ssum, SymReal
from symx.runner import Harness
from symx.shims import value_of
from symx.stubs import StubBackend, counts_result, patched
from symx.phys import qps, words
from symx.qsem import same_unitary
from checks import q23
from pytket import Circuit, Qubit, Bit, OpType
from pytket.backends.backendresult import BackendResult
from pytket.circuit import Node, Op
from pytket.passes import RenameQubitsPass
from pytket.predicates import CliffordCircuitPredicate
from pytket.utils import QubitPauliOperator
import qermit.probabilistic_error_cancellation.pec_learning_based as pec
from qermit import MitEx, ObservableExperiment, AnsatzCircuit, ObservableTracker, SymbolsDict

ASSUMPTIONS = ["the exact value of every string is the same combination (arbitrary real weights) of the values of the circuits with a Pauli pair around one two-qubit gate",
               "noisy values of circuits are concrete generic numbers", "float rounding of the least-squares solution is below 1e-4"]
Q = [Qubit(i) for i in range(3)]
P4 = {"I": OpType.noop, "X": OpType.X, "Y": OpType.Y, "Z": OpType.Z}
PAIRS = [a + b for a in "IXYZ" for b in "IXYZ"]


def _num(ctx, v):
    return sympy.sympify(v) if ctx.symbolic else v


def _near(a, b, tol):
    d = a - b
    return land(d <= tol, d >= -tol)


# --- a circuit as the operations on each wire, single-qubit unitaries merged -----
def _key(u):
    v = u.flatten()
    i = 0 if abs(v[0]) > 0.4 else 1
    v = v * (abs(v[i]) / v[i])
    return tuple(round(float(x), 4) + 0.0 for z in v for x in (z.real + 1e-7, z.imag + 1e-7))


ID = _key(np.eye(2))


def _canon(c, skip=(OpType.Measure, OpType.Barrier)):
    """wire -> sequence of merged single-qubit unitaries (up to phase) and two-qubit gates"""
    acc, out = {q: np.eye(2) for q in c.qubits}, {q: [] for q in c.qubits}

    def flush(q):
        k = _key(acc[q])
        if k != ID:
            out[q].append(k)
        acc[q] = np.eye(2)
    for com in c.get_commands():
        if com.op.type in skip:
            continue
        if len(com.qubits) == 1:
            acc[com.qubits[0]] = com.op.get_unitary() @ acc[com.qubits[0]] if com.op.type != OpType.noop else acc[com.qubits[0]]
        else:
            for i, q in enumerate(com.qubits):
                flush(q)
                out[q].append((com.op.type.name, tuple(float(p) for p in com.op.params), i, tuple(map(str, com.qubits))))
    for q in c.qubits:
        flush(q)
    perm = {str(a): str(b) for a, b in c.implicit_qubit_permutation().items() if a != b}
    return tuple(sorted((str(q), tuple(v)) for q, v in out.items())), tuple(sorted(perm.items()))


def _frames(c):
    """identities of the two-qubit gates: (control, target, how many came before on the control)"""
    n, out = defaultdict(int), []
    for com in c.get_commands():
        if len(com.qubits) == 2 and com.op.type != OpType.Barrier:
            a, b = com.qubits
            out.append((str(a), str(b), n[a]))
            n[a] += 1
            n[b] += 1
    return out


def _insert(c, frame, pair):
    """c with Paulis before and after the two-qubit gate"""
    n, d = defaultdict(int), Circuit()
    for q in c.qubits:
        d.add_qubit(q)
    hit = 0
    for com in c.get_commands():
        if com.op.type in (OpType.Measure, OpType.Barrier):
            continue
        if len(com.qubits) == 2:
            a, b = com.qubits
            here = (str(a), str(b), n[a]) == frame
            n[a] += 1
            n[b] += 1
            hit += here
            for q, p in zip((a, b), pair if here else "II"):
                if p != "I":
                    d.add_gate(P4[p], [q])
            d.add_gate(com.op, com.qubits)
            for q, p in zip((a, b), pair if here else "II"):
                if p != "I":
                    d.add_gate(P4[p], [q])
        else:
            d.add_gate(com.op, com.qubits)
    assert hit == 1
    dd = d.to_dict()
    dd["implicit_permutation"] = c.to_dict()["implicit_permutation"]
    return Circuit.from_dict(dd)


def _errors(c):
    """every circuit with one Pauli pair around one two-qubit gate; the first is the circuit itself"""
    fs = sorted(_frames(c))
    return [(fs[0], "II")] + [(f, p) for f in fs for p in PAIRS[1:]]


def _template(ctx, tag, names, sym=None, circuits=("one", "two", "swap", "gates")):
    """circuits in arbitrary gate sets"""
    k = ctx.choice(f"circuit{tag}", list(circuits))
    a, b, d = names[:3]
    c = Circuit()
    n = 3 if k in ("swap", "gates") else 2
    for q in names[:n]:
        c.add_qubit(q)
    if k == "one":
        c.Rx(0.3, a).CX(a, b).Rz(0.7, b).H(b)
        if sym is not None:
            c.Rz(sym, a)
    elif k == "two":
        c.H(a).T(b).CX(a, b).Rz(sym if sym is not None else 0.4, b).CX(b, a).Ry(0.2, a)
    elif k == "swap":
        c.H(a).CX(a, b).SWAP(b, d).Rz(0.31, d).CX(d, a).S(b)
        c.replace_SWAPs()
    else:
        c.X(a).CZ(a, b).ZZPhase(0.3, b, d).Rz(sym if sym is not None else 1.1, d).SWAP(a, d).T(a)
    return c


NAMES = {"default": Q, "nodes": [Node("n", 4), Node("n", 2), Node("m", 7)], "shifted": [Qubit(2), Qubit(3), Qubit(1)]}


def h_rebase(ctx):
    """circuits given as rotations and CNOTs, labelled and wrapped: same unitary, unique labels, everything else kept"""
    nm = NAMES[ctx.choice("names", ["default", "nodes", "shifted"])]
    s = sympy.Symbol("s")
    k = ctx.choice("experiments", [1, 2])
    exps, keep = [], []
    for e in range(k):
        c = _template(ctx, e, nm, s, ("one", "two", "swap", "gates") if e == 0 else ("one", "swap"))
        x, v, sh = ctx.real(f"c{e}", None, None), ctx.real(f"v{e}", None, None), ctx.int(f"shots{e}", 1, None)
        exps.append(ObservableExperiment(AnsatzCircuit(c, sh, SymbolsDict.symbols_from_dict({s: _num(ctx, v)})), ObservableTracker(QubitPauliOperator({qps("Z", nm[:1]): _num(ctx, x)}))))
        keep.append((c.copy(), x, v, sh))
    out = exps
    rebased = None
    for t in (pec.gen_rebase_to_frames_and_computing, pec.gen_label_gates, pec.gen_wrap_frame_gates):
        (out,) = t()((out,))
        rebased = rebased or out
    ctx.check(len(out) == k, "one experiment each")
    for o, r, x, (c, cf, v, sh) in zip(out, rebased, exps, keep):
        ctx.check(x.AnsatzCircuit.Circuit == c, "the experiment's circuit is not changed")
        rc = r.AnsatzCircuit.Circuit
        ctx.check(all(com.op.type in (OpType.TK1, OpType.CX) for com in rc.get_commands()), "only single-qubit rotations and CNOTs")
        last = {}
        for com in rc.get_commands():
            if len(com.qubits) == 1:
                ctx.check(last.get(com.qubits[0]) != 1, "consecutive single-qubit gates are merged")
            for q in com.qubits:
                last[q] = len(com.qubits)
        w = o.AnsatzCircuit.Circuit
        sub = {s: 0.2371}
        cc, ww, rr = c.copy(), w.copy(), rc.copy()
        for d in (cc, ww, rr):
            d.symbol_substitution(sub)
        ctx.check(same_unitary(ctx, rr, cc), "the rebased circuit has the circuit's unitary")
        ctx.check(_canon(ww) == _canon(rr), "labels and placeholders do not change the circuit")
        ctx.check(list(w.qubits) == list(c.qubits), "qubits are kept")
        labels = [com.opgroup for com in w.get_commands()]
        ctx.check(None not in labels and len(set(labels)) == len(labels), "every gate has a label of its own")
        ctx.check(sum(com.op.type == OpType.noop for com in w.get_commands()) == 4 * len(_frames(rc)), "four placeholders around every two-qubit gate")
        op = o.ObservableTracker.qubit_pauli_operator
        ctx.check(land(set(op._dict) == {qps("Z", nm[:1])}, eq(value_of(op[qps("Z", nm[:1])]), cf), eq(o.AnsatzCircuit.Shots, sh),
                       eq(value_of(o.AnsatzCircuit.SymbolsDict._symbolic_map[s]), v)), "observable, shots and parameters are kept")
    ctx.cover(f"{k}")


def h_refuse(ctx):
    x = ctx.real("dummy", 0, 1)
    ctx.check(x <= 1, "in range")
    what = ctx.choice("what", ["label", "no two-qubit gate", "backend", "no computing", "substitute"])
    be = SimpleNamespace(backend_info=SimpleNamespace(gate_set={OpType.ZZMax, OpType.Rz}))
    g = ctx.choice("gate", ["T", "H", "CZ", "Rz", "SWAP", "X"]) if what == "label" else None
    try:
        if what == "label":
            c = Circuit(2).CX(0, 1)
            c.add_gate(getattr(OpType, g), [0.3] if g == "Rz" else [], [0, 1] if g in ("CZ", "SWAP") else [0])
            pec.label_gates(c)
        elif what == "no two-qubit gate":
            pec.list_pauli_gates(pec.label_gates(pec.PECRebase(Circuit(2).H(0).T(1))))
        elif what == "backend":
            pec.gen_PEC_learning_based_MitEx(be, be)
        elif what == "no computing":
            pec.random_commuting_clifford(pec.label_gates(Circuit(2).CX(0, 1)), qps("Z", Q[:1]), None)
        else:
            pec.substitute_pauli_but_one(pec.wrap_frame_gates(pec.label_gates(pec.PECRebase(Circuit(2).H(0).CX(0, 1)))), "Frame 7", [Op.create(OpType.X)] * 2)
        ok = False
    except (RuntimeError, ValueError):
        ok = True
    ctx.check(ok, f"refused: {what}")
    ctx.cover(what)


def _prepared(c):
    return pec.wrap_frame_gates(pec.label_gates(pec.PECRebase(c)))


def h_noisy(ctx, n_exp):
    """one circuit per Pauli pair and two-qubit gate, with the pair before and after exactly that gate"""
    nm = NAMES[ctx.choice("names", ["default", "nodes", "shifted"])]
    k = ctx.choice("experiments", list(range(1, n_exp + 1)))
    s = sympy.Symbol("s")
    be = StubBackend(None)
    exps, keep = [], []
    for e in range(k):
        c = _template(ctx, e, nm, None, ("one", "two", "swap", "gates") if e == 0 else ("one", "swap"))
        cf, v, sh = ctx.real(f"c{e}", None, None), ctx.real(f"v{e}", None, None), ctx.int(f"shots{e}", 1, None)
        w = _prepared(c)
        ss = [qps("Z", nm[:1]), qps("ZZ", nm[:2])][: 1 + e % 2]
        exps.append(ObservableExperiment(AnsatzCircuit(w, sh, SymbolsDict.symbols_from_dict({s: _num(ctx, v)})), ObservableTracker(QubitPauliOperator({t: _num(ctx, cf) for t in ss}))))
        keep.append((w.copy(), cf, v, sh, ss))
    out, structure = pec.gen_get_noisy_circuits(be)((exps,))
    ctx.check(len(out) == len(structure), "one structure entry per circuit")
    for e, (w, cf, v, sh, ss) in enumerate(keep):
        ctx.check(exps[e].AnsatzCircuit.Circuit == w, "the experiment's circuit is not changed")
        mine = [(o, st) for o, st in zip(out, structure) if st["experiment"] == e]
        want = sorted((_canon(_insert(w, f, p)) for f, p in _errors(w)), key=repr)
        ctx.check(sorted((_canon(o.AnsatzCircuit.Circuit) for o, _ in mine), key=repr) == want, "each Pauli pair surrounds each two-qubit gate once, nothing else changes")
        ctx.check(_canon(mine[0][0].AnsatzCircuit.Circuit) == _canon(w), "the first circuit has no error")
        ctx.check([st["error"] for _, st in mine] == list(range(len(want))), "errors are numbered in order")
        for o, _ in mine:
            op = o.ObservableTracker.qubit_pauli_operator
            ctx.check(set(op._dict) == set(ss), "strings are kept")
            ctx.check(land(*[eq(value_of(op[t]), cf) for t in ss], eq(o.AnsatzCircuit.Shots, sh), eq(value_of(o.AnsatzCircuit.SymbolsDict._symbolic_map[s]), v)),
                      "coefficients, shots and parameters are kept")
    order = [st["experiment"] for st in structure]
    ctx.check(order == sorted(order), "circuits are in the order of the experiments")
    # the same error of two experiments with the same circuit carries the same number
    a, b = pec.list_pauli_gates(keep[0][0]), pec.list_pauli_gates(keep[0][0].copy())
    ctx.check(a == b, "the list of errors depends on the circuit only")
    ctx.cover(f"{k}")


# --- training circuits -------------------------------------------------------------
def _state(c):
    d = Circuit()
    for q in c.qubits:
        d.add_qubit(q)
    for com in c.get_commands():
        if com.op.type not in (OpType.Measure, OpType.Barrier, OpType.noop):
            d.add_gate(com.op, com.qubits)
    dd = d.to_dict()
    dd["implicit_permutation"] = c.to_dict()["implicit_permutation"]
    return Circuit.from_dict(dd).get_statevector(), d.qubits


def _expect(c, s):
    sv, qs = _state(c)
    return float(np.real(np.vdot(sv, s.to_sparse_matrix(list(qs)) @ sv)))


def _state_backend(ctx):
    def provider(c, s, k):
        if list(c.qubits) != [Qubit(i) for i in range(c.n_qubits)]:
            raise RuntimeError("only default registers are supported")
        return BackendResult(state=_state(c)[0])
    be = StubBackend(provider)
    be.supports_state = True
    be.supports_expectation = False
    be.supports_shots = be.supports_counts = False
    return be


DRAWS = {"I": lambda: Circuit(1).add_gate(OpType.noop, [0], opgroup="Clifford 1"), "H": lambda: Circuit(1).H(0, opgroup="Clifford 1"),
         "SX": lambda: Circuit(1).S(0, opgroup="Clifford 1").X(0, opgroup="Clifford 1"), "HS": lambda: Circuit(1).H(0, opgroup="Clifford 1").S(0, opgroup="Clifford 1")}


def _replace(w, subs):
    """w with its single-qubit gates (in the order of commands) replaced"""
    d = Circuit()
    for q in w.qubits:
        d.add_qubit(q)
    it = iter(subs)
    for com in w.get_commands():
        if com.op.type == OpType.noop:
            continue
        if len(com.qubits) == 1:
            for x in next(it).get_commands():
                if x.op.type != OpType.noop:
                    d.add_gate(x.op, com.qubits)
        else:
            d.add_gate(com.op, com.qubits)
    dd = d.to_dict()
    dd["implicit_permutation"] = w.to_dict()["implicit_permutation"]
    return Circuit.from_dict(dd)


def h_training(ctx, names, draws, attempts, circuits):
    """computing gates become the Cliffords drawn, everything else is kept; the string's value is not zero"""
    nm = NAMES[ctx.choice("names", names)]
    c = _template(ctx, "", nm, None, circuits)
    w = _prepared(c)
    n1 = sum(len(com.qubits) == 1 and com.op.type != OpType.noop for com in w.get_commands())
    ws = ctx.choice("string", ["Z", "IZ", "XX", "YZ"])
    s = qps(ws, nm[: len(ws)])
    mx = ctx.choice("attempts", attempts)
    log = []

    def draw(n, **k):
        ctx.check(n == 1, "computing gates act on one qubit")
        i = len(log)
        # later gates of large circuits: fixed draws
        o = ctx.choice(f"draw{i}", draws) if i % n1 < 2 else list(DRAWS)[(i * 7 + 3) % 4]
        log.append(DRAWS[o]())
        return log[-1].copy()
    r = ctx.real("dummy", 0, 1)
    ctx.check(r <= 1, "in range")
    keep = w.copy()
    with patched((pec, "random_clifford_circ", draw)):
        try:
            out = pec.random_commuting_clifford(w, s, _state_backend(ctx), max_count=mx)
        except RuntimeError:
            out = None
    ctx.check(w == keep, "the circuit given is not changed")
    tries = [_replace(w, log[i:i + n1]) for i in range(0, len(log), n1)]
    ctx.check(1 <= len(tries) <= mx and len(log) == n1 * len(tries), "at most the given number of attempts, one draw per computing gate")
    vals = [abs(_expect(t, s)) > 0.5 for t in tries]
    ctx.check(not any(vals[:-1]), "the first circuit with non-zero expectation is used")
    if out is None:
        ctx.check(len(tries) == mx and not vals[-1], "refused only when no attempt has a non-zero expectation")
        ctx.cover("refused")
        return
    ctx.check(vals[-1], "the string's expectation is not zero")
    ctx.check(list(out.qubits) == list(w.qubits), "the training circuit has the qubits of the circuit")
    ctx.check(_canon(out) == _canon(tries[-1]), "computing gates are replaced by the draws, all else is kept")
    ctx.check(CliffordCircuitPredicate().verify(out), "the training circuit is Clifford")
    e = _errors(out)
    ctx.check(sorted(_frames(out)) == sorted(_frames(w)), "two-qubit gates are kept")
    # errors can still be put around each two-qubit gate
    got = []
    for err in pec.list_pauli_gates(out):
        got.append(_canon(pec.substitute_pauli_but_one(out, err["opgroup"], [pec.str_to_pauli_op(p) for p in err["op"]])))
    ctx.check(sorted(got, key=repr) == sorted((_canon(_insert(out, f, p)) for f, p in e), key=repr), "errors can be put around each two-qubit gate of the training circuit")
    ref = [tuple(err["op"]) + (err["opgroup"],) for err in pec.list_pauli_gates(w)]
    labels = {}
    for d in (w, out):
        n = defaultdict(int)
        for com in d.get_commands():
            if len(com.qubits) == 2:
                labels.setdefault(com.opgroup, set()).add((str(com.qubits[0]), str(com.qubits[1]), n[com.qubits[0]]))
                for q in com.qubits:
                    n[q] += 1
    ctx.check([tuple(err["op"]) + (err["opgroup"],) for err in pec.list_pauli_gates(out)] == ref and all(len(v) == 1 for v in labels.values()),
              "errors of the training circuit are listed in the order of those of the circuit")
    ctx.cover("found")


def h_collate(ctx, shapes):
    """noisy and exact values of the same training circuit are paired"""
    shape = ctx.choice("shape", shapes)   # per experiment: (strings, training circuits, errors)
    ideal, ist, noisy, nst = [], [], [], []
    val = {}
    for e, (ns, nt, ne) in enumerate(shape):
        for q in range(ns):
            for t in range(nt):
                i = len(ideal)
                v = ctx.real(f"i{i}", None, None)
                ideal.append(QubitPauliOperator({qps("Z", Q[:1]): _num(ctx, v)}))
                ist.append({"experiment": e, "qps": q, "training_circuit": t})
                ws = []
                for r in range(ne):
                    x = ctx.real(f"n{len(noisy)}", None, None)
                    noisy.append(QubitPauliOperator({qps("Z", Q[:1]): _num(ctx, x)}))
                    nst.append({"experiment": i, "error": r})
                    ws.append(x)
                val[e, q, t] = (v, ws)
    (out,) = pec.collate_results_task_gen()((noisy, nst, ideal, ist))
    ctx.check([[len(q) for q in e] for e in out] == [[nt] * ns for ns, nt, _ in shape], "one entry per experiment, string and training circuit")
    z = qps("Z", Q[:1])
    for e, (ns, nt, ne) in enumerate(shape):
        for q in range(ns):
            for t in range(nt):
                v, ws = val[e, q, t]
                got = out[e][q][t]
                ctx.check(len(got) == ne, "one pair per error")
                ctx.check(land(*[land(eq(value_of(a[z]), w), eq(value_of(b[z]), v)) for (a, b), w in zip(got, ws)]), "noisy and exact values of the same training circuit, in the order of the errors")
    # mismatches
    which = ctx.choice("drop", ["noisy", "ideal", "noisy structure", "ideal structure"])
    args = [noisy, nst, ideal, ist]
    args[["noisy", "noisy structure", "ideal", "ideal structure"].index(which)] = args[["noisy", "noisy structure", "ideal", "ideal structure"].index(which)][:-1]
    try:
        pec.collate_results_task_gen()(tuple(args))
        ok = False
    except RuntimeError:
        ok = True
    ctx.check(ok, "results without structure are refused")
    ctx.cover("collated")


def _h(*a):
    return int.from_bytes(hashlib.md5(repr(a).encode()).digest()[:4], "big") / 2**32


def _v(*a):
    """generic dyadic value in (-1, 1)"""
    return (int(_h(*a) * 512) - 256) / 256 + 1 / 512


def h_learn(ctx, errors, extra, shapes):
    """weights explaining the exact values of the training circuits are found, per string"""
    ne = ctx.choice("errors", errors)
    nt = ne + ctx.choice("training", extra)
    shape = ctx.choice("strings", shapes)
    z = qps("Z", Q[:1])
    res, q = [], {}
    for e, ns in enumerate(shape):
        rr = []
        for s in range(ns):
            q[e, s] = [ctx.real(f"q{e}_{s}_{i}", -4, 4) for i in range(ne)]
            ts = []
            for t in range(nt):
                ws = [_v(e, s, t, i) for i in range(ne)]
                ideal = ssum([a * (Fraction(b) if ctx.symbolic else b) for a, b in zip(q[e, s], ws)])
                ts.append([(QubitPauliOperator({z: w}), QubitPauliOperator({z: _num(ctx, ideal)})) for w in ws])
            rr.append(ts)
        res.append(rr)
    (out,) = pec.learn_quasi_probs_task_gen(nt)((res,))
    ctx.check([len(x) for x in out] == list(shape), "weights for each string of each experiment")
    for e, ns in enumerate(shape):
        for s in range(ns):
            ctx.check(len(out[e][s]) == ne, "one weight per error")
            if nt >= ne:
                ctx.check(land(*[_near(value_of(a), b, 1e-5) for a, b in zip(out[e][s], q[e, s])]), "the weights that explain the training data are found")
            else:
                for t in range(nt):
                    ws = [_v(e, s, t, i) for i in range(ne)]
                    d = ssum([(value_of(a) - b) * (Fraction(w) if ctx.symbolic else w) for a, b, w in zip(out[e][s], q[e, s], ws)])
                    ctx.check(_near(d, 0, 1e-5), "the weights explain the training data")
    ctx.cover("full" if nt >= ne else "few")


def h_combine(ctx, shapes):
    """each experiment's value is the weighted sum of its own circuits' values, per string"""
    shape = ctx.choice("shape", shapes)   # per experiment (strings, errors)
    kind = ctx.choice("symbolic", ["weights", "values"])
    probs, noisy, st, want = [], [], [], []
    for e, (ns, ne) in enumerate(shape):
        ss = [qps("Z", Q[:1]), qps("XY", Q[:2]), qps("IZX", Q)][:ns]
        pr = [[ctx.real(f"p{e}_{j}_{i}", None, None) if kind == "weights" else _v("p", e, j, i) for i in range(ne)] for j in range(ns)]
        vs = [[ctx.real(f"v{e}_{j}_{i}", None, None) if kind == "values" else _v("v", e, j, i) for j in range(ns)] for i in range(ne)]
        probs.append(pr)
        for i in range(ne):
            noisy.append(QubitPauliOperator({s: _num(ctx, x) for s, x in zip(ss, vs[i])}))
            st.append({"experiment": e, "error": i})
        fr = (lambda x: Fraction(x) if ctx.symbolic and isinstance(x, float) else x)
        want.append({s: ssum([fr(pr[j][i]) * fr(vs[i][j]) for i in range(ne)]) for j, s in enumerate(ss)})
    (out,) = pec.gen_run_with_quasi_prob()((probs, noisy, st))
    ctx.check(len(out) == len(shape), "one operator per experiment")
    for o, w in zip(out, want):
        ctx.check(set(o._dict) == set(w), "exactly the strings of the experiment")
        ctx.check(land(*[_near(value_of(o[s]), x, 1e-6) for s, x in w.items()]), "weighted sums of the experiment's own values")
    ctx.cover(kind)


# --- the whole method ----------------------------------------------------------------
def _exp_circuit(e, frames):
    """experiments are told apart by their number of qubits"""
    c = Circuit(2 + e)
    c.Rx(0.3 + 0.1 * e, 0).Ry(0.4, 1).CX(0, 1).T(1).Ry(0.9, 0)
    if frames > 1:
        c.CX(1, 0).Rz(0.7, 1).Rx(0.2, 1)
    return c


def h_full(ctx, n_exp, frames, extra, seeds, places, strs):
    f = ctx.choice("frames", frames)
    k = ctx.choice("experiments", list(range(1, n_exp + 1)))
    order = ctx.choice("order", ["forward", "backward"] if k > 1 else ["forward"])
    how = ctx.choice("methods", ["given", "default"])
    place = ctx.choice("placement", places)
    seed = ctx.choice("seed", list(range(seeds)))
    num = (15 * f + 1) + extra
    es = list(range(k)) if order == "forward" else list(reversed(range(k)))
    tgt = {"same": [Qubit(i) for i in range(4)], "shifted": [Node("q", i) for i in (3, 1, 5, 4)], "named": [Node("n", i) for i in (2, 7, 1, 0)]}[place]
    back = {str(t): i for i, t in enumerate(tgt)}
    S = {e: ["Z", "ZZ"][: strs - e % 2] if strs > 1 else [["Z", "ZZ"][e % 2]] for e in es}
    coef = {(e, s): ctx.real(f"c{e}_{s}", -2, 2) for e in es for s in S[e]}
    errs = 15 * f + 1
    q = {(e, s): [ctx.real(f"q{e}_{s}_{i}", -1 / errs, 1 / errs) for i in range(errs)] for e in es for s in S[e]}
    shots = {e: ctx.int(f"shots{e}", 1, 10**6) for e in es}
    n_dev, n_sim = defaultdict(int), defaultdict(int)
    fr = (lambda x: Fraction(x)) if ctx.symbolic else (lambda x: x)

    def res(c, v):
        bits = sorted(c.bits)
        o0, o1 = tuple([0] * len(bits)), tuple([0] * (len(bits) - 1) + [1])
        if not ctx.symbolic:
            return counts_result({o0: round((1 + v) / 2 * 2**40), o1: 2**40 - round((1 + v) / 2 * 2**40)}, bits)
        h = SymReal(z3.RealVal("1/2"))
        v = SymReal(z3.RealVal(str(Fraction(v)))) if isinstance(v, (float, Fraction)) else v
        return counts_result({o0: h + v * h, o1: h - v * h}, bits)

    def strip(c):
        d = Circuit()
        for x in c.qubits:
            d.add_qubit(x)
        for com in c.get_commands():
            if com.op.type not in (OpType.Measure, OpType.Barrier, OpType.noop):
                d.add_gate(com.op, com.qubits)
        return d

    def which(c, s, kind):
        e = c.n_qubits - 2
        ms = [com for com in c.get_commands() if com.op.type == OpType.Measure]
        i = {back.get(str(com.qubits[0])) for com in ms}
        st = {(0,): "Z", (0, 1): "ZZ"}.get(tuple(sorted(i)) if None not in i else None)
        ctx.check((e, st) in coef and len(ms) == len(i), "only the strings of the experiments are measured, on their own qubits")
        ctx.check(eq(s, shots[e]), "every circuit runs with its experiment's shots")
        return e, st

    def noisy(c, key):
        return _v(seed, _canon(c), key)

    def exact(c, key):
        d = strip(c)
        return ssum([w * fr(noisy(_insert(d, *err), key)) for w, err in zip(q[key], _errors(d))])

    def dev_provider(c, s, j):
        key = which(c, s, "device")
        n_dev[key] += 1
        return res(c, noisy(strip(c), key))

    def sim_provider(c, s, j):
        if not c.bits:
            if list(c.qubits) != [Qubit(i) for i in range(c.n_qubits)]:
                raise RuntimeError("only default registers are supported")
            return BackendResult(state=_state(c)[0])
        key = which(c, s, "simulator")
        n_sim[key] += 1
        ctx.check(CliffordCircuitPredicate().verify(strip(c)), "only Clifford circuits are simulated")
        return res(c, exact(c, key))

    dev, sim = StubBackend(dev_provider), StubBackend(sim_provider)
    for be in (dev, sim):
        be.backend_info = SimpleNamespace(gate_set={OpType.CX, OpType.TK1})
        be.supports_state, be.supports_expectation = be is sim, False
        be.default_compilation_pass = lambda *a, **kw: RenameQubitsPass({Qubit(i): t for i, t in enumerate(tgt)})
    unused = StubBackend(lambda c, s, j: ctx.check(False, "the methods given are used"))
    unused.backend_info, unused.default_compilation_pass = dev.backend_info, dev.default_compilation_pass
    exps = [ObservableExperiment(AnsatzCircuit(_exp_circuit(e, f), shots[e], SymbolsDict()),
                                 ObservableTracker(QubitPauliOperator({qps(s, Q[: len(s)]): _num(ctx, coef[e, s]) for s in S[e]}))) for e in es]
    kw = dict(num_cliff=num, seed=seed)
    if how == "given":
        kw.update(simulator_mitex=MitEx(sim), device_mitex=MitEx(dev))
    state = np.random.get_state()
    try:
        me = pec.gen_PEC_learning_based_MitEx(unused if how == "given" else dev, sim, **kw)
        out = me.run(exps)
    finally:
        np.random.set_state(state)
    ctx.check(len(out) == k, "one operator per experiment")
    for e, o in zip(es, out):
        ctx.check(set(o._dict) == {qps(s, Q[: len(s)]) for s in S[e]}, "exactly the strings of the experiment, under their own qubits")
        for s in S[e]:
            ctx.check(n_sim[e, s] == num and n_dev[e, s] == (num + 1) * errs, "every training circuit and every error runs once")
            ref = exact(_renamed(_exp_circuit(e, f), tgt), (e, s))
            ctx.check(_near(value_of(o[qps(s, Q[: len(s)])]), coef[e, s] * ref, 1e-4), "the result is coefficient times the exact value")
    ctx.cover(how)


def _renamed(c, tgt):
    d = c.copy()
    d.rename_units({Qubit(i): tgt[i] for i in range(c.n_qubits)})
    return d


HARNESSES = [
    Harness("rebase", h_rebase, "1-2 experiments over four circuits (implicit wire swaps, node names, a parameter)", ["1", "2"]),
    Harness("refuse", h_refuse, "labels of six gates, circuits without two-qubit or single-qubit gates, unknown gate, backend without CX and CZ",
            ["label", "no two-qubit gate", "backend", "no computing", "substitute"]),
    Harness("noisy", h_noisy, "1-2 experiments over four circuits with up to 5 two-qubit gates, all Pauli pairs", ["1", "2"], quick=dict(n_exp=2), thorough=dict(n_exp=2)),
    Harness("training", h_training, "four circuits, four strings, four Cliffords for the first two gates, one or two attempts", ["found", "refused"],
            quick=dict(names=["nodes", "shifted"], draws=["I", "H", "SX"], attempts=[1, 2], circuits=["one", "swap"]),
            thorough=dict(names=["default", "nodes", "shifted"], draws=list(DRAWS), attempts=[1, 2], circuits=["one", "two", "swap", "gates"]), max_paths=60000, time_budget=800),
    Harness("cliffords_distinct", q23.h_distinct, "one qubit, two draws of a Clifford, every draw", ["same layers", "different layers"], quick=dict(n=[1]), thorough=dict(n=[1]), max_paths=60000, time_budget=800),
    Harness("cliffords_weight", q23.h_weight, "one qubit, every draw", ["weighed"], quick=dict(n=[1]), thorough=dict(n=[1])),
    Harness("cliffords_paulis", q23.h_paulis, "one qubit, two choices of Pauli gates, every other draw", ["same", "different"], quick=dict(n=[1]), thorough=dict(n=[1])),
    Harness("cliffords_seed", q23.h_seed, "one qubit, every draw, any seed", ["none", "given"], quick=dict(n=[1]), thorough=dict(n=[1])),
    Harness("collate", h_collate, "up to 3 experiments, 3 strings, 3 training circuits, 3 errors, arbitrary values", ["collated"],
            quick=dict(shapes=[((1, 1, 1),), ((2, 2, 2),), ((1, 2, 3), (2, 1, 2)), ((3, 3, 2), (1, 2, 1), (2, 2, 3))]),
            thorough=dict(shapes=[((1, 1, 1),), ((2, 2, 2),), ((1, 2, 3), (2, 1, 2)), ((3, 3, 2), (1, 2, 1), (2, 2, 3)), ((4, 3, 4), (3, 4, 3), (2, 2, 2), (1, 5, 2))])),
    Harness("learn", h_learn, "2-4 errors (thorough 16), as many training circuits or up to 3 more, or fewer; 1-2 experiments with 1-3 strings; weights in [-4,4]", ["full", "few"],
            quick=dict(errors=[2, 4], extra=[-1, 0, 3], shapes=[(1,), (2, 3)]), thorough=dict(errors=[2, 3, 5, 8, 16], extra=[-2, -1, 0, 1, 4], shapes=[(1,), (2, 3), (1, 1, 2)])),
    Harness("combine", h_combine, "1-3 experiments with 1-3 strings and 1-4 errors; weights or values arbitrary", ["weights", "values"],
            quick=dict(shapes=[((1, 2),), ((2, 3), (1, 4)), ((3, 2), (2, 3), (1, 1))]), thorough=dict(shapes=[((1, 2),), ((2, 3), (1, 4)), ((3, 2), (2, 3), (1, 1)), ((3, 16), (3, 31), (2, 16))])),
    Harness("full", h_full, "1-2 experiments in either order, 1-2 strings, one two-qubit gate (thorough two), 18 or more training circuits, three placements, methods given or default, fixed seeds",
            ["given", "default"], quick=dict(n_exp=2, frames=[1], extra=2, seeds=1, places=["same", "shifted", "named"], strs=1),
            thorough=dict(n_exp=2, frames=[1, 2], extra=3, seeds=2, places=["same", "shifted", "named"], strs=2),
            stubs=["device backend: values generic in the circuit", "simulator backend: exact states, exact values combine those of the circuits with one error"], time_budget=800),
]
