"""Q11 -- Pauli operators are carried through Clifford circuits exactly, phases included."""
import itertools
import numpy as np
from symx import engine as E
from symx.engine import eq, land
from symx.runner import Harness
from symx.phys import SymState, qps, words, pauli_matrix, kron_all, PM, PAULI
from pytket import Circuit, Qubit, OpType
from pytket.circuit import Node
from pytket.pauli import Pauli, QubitPauliString, QubitPauliTensor
from qermit.noise_model.qermit_pauli import QermitPauli

ASSUMPTIONS = ["Clifford gates from the listed alphabet; gates the class refuses (NotImplementedError) are outside",
               "equality of operators is decided through their expectation values in an arbitrary (symbolic) state"]
INV = {v: k for k, v in PAULI.items()}
COEF = [1, -1, 1j, -1j]
FIXED1 = ["X", "Y", "Z", "H", "S", "Sdg", "V", "Vdg", "SX", "SXdg", "noop"]
FIXED2 = ["CX", "CY", "CZ", "SWAP", "ZZMax", "ECR", "ISWAPMax"]
PAR1 = {"Rz": 1, "Rx": 1, "PhasedX": 2, "Ry": 1, "U3": 3, "TK1": 3}
PAR2 = {"ZZPhase": 1, "XXPhase": 1}


def _qubits(ctx, n):
    k = ctx.choice("names", [0, 1])
    return [Qubit(i) for i in range(n)] if k == 0 else [Qubit("z", 1), Node("a", 5), Qubit("q", 7)][:n]


def _tensor(w, qs, c):
    return QubitPauliTensor(string=qps(w, qs), coeff=c)


def _matrix(p, qs):
    """the operator a QermitPauli denotes, over sorted qubits"""
    t = p.qubit_pauli_tensor
    mp = t.string.map
    return t.coeff * pauli_matrix("".join(INV[mp.get(q, Pauli.I)] for q in sorted(qs)))


def _same_op(ctx, st, A, B):
    """A == B, through the expectation values Tr(rho A) == Tr(rho B) of an arbitrary state (both are Paulis times phases)"""
    ph = None
    for c in COEF:
        if np.allclose(A / c, (A / c).conj().T):
            ph = c
            break
    if ph is None or not np.allclose(B / ph, (B / ph).conj().T):
        return False
    return eq(st.expect_matrix(A / ph), st.expect_matrix(B / ph))


def _gate(ctx, c, g, qs, tag):
    if g in PAR1 or g in PAR2:
        k = PAR1.get(g) or PAR2.get(g)
        ps = [ctx.choice(f"{tag}p{i}", [0.5, 1.0, 1.5, 3.5, 2.0] if k == 1 else [0.5, 1.0, 1.5]) for i in range(k)]
        c.add_gate(getattr(OpType, g), ps, qs[:2] if g in PAR2 else qs[:1])
    elif g == "barrier":
        c.add_barrier(qs)
    else:
        c.add_gate(getattr(OpType, g), qs[:2] if g in FIXED2 else qs[:1])


def _unitary(c, qs):
    d = Circuit()
    for q in sorted(qs):
        d.add_qubit(q)
    d.append(c)
    return d.get_unitary()


def h_gate(ctx, n, gates, ws=None):
    """one gate, every Pauli and phase"""
    qs = _qubits(ctx, n)
    w = ctx.choice("word", ws or words(n))
    k = ctx.choice("coeff", COEF)
    c = Circuit()
    for q in qs:
        c.add_qubit(q)
    g = ctx.choice("gate", gates)
    on = ctx.choice("on", list(itertools.permutations(qs, 2)))
    _gate(ctx, c, g, list(on), "g")
    p = QermitPauli(_tensor(w, qs, k))
    try:
        p.apply_circuit(c)
    except NotImplementedError:
        raise E.PathAbort()
    U = _unitary(c, qs)
    st = SymState(ctx, "r", qs)
    A = U @ (k * pauli_matrix("".join(w[qs.index(q)] for q in sorted(qs)))) @ U.conj().T
    ctx.check(_same_op(ctx, st, A, _matrix(p, qs)), "the Pauli before a gate equals the returned Pauli after it, phase included")
    ctx.cover("gate")


def h_circuit(ctx, n, length, gates, swaps):
    """gate sequences, with barriers and implicit wire swaps"""
    qs = _qubits(ctx, n)
    w = ctx.choice("word", ["XY", "ZI", "IX", "YZ"] if n == 2 else ["XYZ", "ZIX", "IXI"])
    k = ctx.choice("coeff", [1, -1j])
    c = Circuit()
    for q in qs:
        c.add_qubit(q)
    for i in range(length):
        on = [qs[i % n], qs[(i + 1) % n]]
        _gate(ctx, c, ctx.choice(f"gate{i}", gates), on, f"g{i}")
    swap = ctx.choice("swap", ["none", "swap"] + (["cycle"] if n > 2 else [])) if swaps else "none"
    if swap != "none":
        c.SWAP(qs[0], qs[-1])
        if swap == "cycle":
            c.SWAP(qs[0], qs[1])
        c.replace_SWAPs()
    keep = c.copy()
    p = QermitPauli(_tensor(w, qs, k))
    try:
        p.apply_circuit(c)
    except NotImplementedError:
        raise E.PathAbort()
    U = _unitary(c, qs)
    st = SymState(ctx, "r", qs)
    A = U @ (k * pauli_matrix("".join(w[qs.index(q)] for q in sorted(qs)))) @ U.conj().T
    ctx.check(_same_op(ctx, st, A, _matrix(p, qs)), "a Pauli before the circuit equals the returned Pauli after it, phase included")
    ctx.check(c == keep, "the circuit is not changed")
    ctx.cover("circuit")


def h_history(ctx, n, length):
    """any interleaving of gates and multiplications by Paulis on either side"""
    qs = [Qubit(i) for i in range(n)]
    w = ctx.choice("word", ["XY", "IZ", "II"])
    k = ctx.choice("coeff", [1, 1j])
    p = QermitPauli(_tensor(w, qs, k))
    M = k * pauli_matrix(w)
    for i in range(length):
        op = ctx.choice(f"op{i}", ["pre", "post", "H", "CX", "S"])
        if op in ("pre", "post"):
            a = ctx.choice(f"pauli{i}", ["X", "Y", "Z", "I"])
            j = ctx.choice(f"qubit{i}", [0, n - 1])
            Qm = pauli_matrix("".join(a if t == j else "I" for t in range(n)))
            (p.pre_apply_pauli if op == "pre" else p.post_apply_pauli)(PAULI[a], qs[j])
            M = M @ Qm if op == "pre" else Qm @ M
        else:
            c = Circuit(n)
            _gate(ctx, c, op, [qs[1], qs[0]] if op == "CX" else [qs[i % n]], f"g{i}")
            p.apply_circuit(c)
            U = _unitary(c, qs)
            M = U @ M @ U.conj().T
    st = SymState(ctx, "r", qs)
    ctx.check(_same_op(ctx, st, M, _matrix(p, qs)), "products with Paulis before and after, and gates, accumulate exactly")
    ctx.cover("history")


def h_derived(ctx, n):
    """circuit, controlled circuit, inverse, removal of qubits, measurability, equality"""
    qs = _qubits(ctx, n)
    w = ctx.choice("word", words(n))
    k = ctx.choice("coeff", COEF)
    p = QermitPauli(_tensor(w, qs, k))
    sq = sorted(qs)
    sw = "".join(w[qs.index(q)] for q in sq)
    st = SymState(ctx, "r", qs)
    ctx.check(_same_op(ctx, st, k * pauli_matrix(sw), _unitary(p.circuit, qs)), "the circuit implements the Pauli, phase included")
    ctx.check(_same_op(ctx, st, (k * pauli_matrix(sw)).conj().T, _matrix(p.dagger, qs)), "dagger is the inverse")
    # control: the control qubit sorts anywhere
    ctl = ctx.choice("control", [Qubit("A", 0), Qubit("zz", 0)])
    cc = p.get_control_circuit(ctl)
    allq = sorted(qs + [ctl])
    U = _unitary(cc, allq)
    P0, P1 = np.diag([1, 0]), np.diag([0, 1])
    I = pauli_matrix("I" * n)
    if allq[0] == ctl:
        V = np.kron(P0, I) + np.kron(P1, k * pauli_matrix(sw))
    else:
        V = np.kron(I, P0) + np.kron(k * pauli_matrix(sw), P1)
    st2 = SymState(ctx, "c", allq)
    ok = []
    for x in words(n + 1)[1:]:
        ok.append(eq(st2.expect_matrix(U.conj().T @ pauli_matrix(x) @ U), st2.expect_matrix(V.conj().T @ pauli_matrix(x) @ V)))
    ctx.check(land(*ok), "the controlled circuit applies the Pauli, phase included, exactly when the control is set")
    # subsets
    sub = ctx.choice("subset", [list(s) for r in range(n + 1) for s in itertools.combinations(qs, r)])
    ctx.check(p.is_measureable(sub) == any(w[qs.index(q)] in "XY" for q in sub), "measurable exactly when it flips a listed qubit")
    red = p.reduce_qubits(sub)
    rest = {q: PAULI[w[i]] for i, q in enumerate(qs) if q not in sub}
    ctx.check(red.qubit_pauli_tensor == QubitPauliTensor(string=QubitPauliString(rest), coeff=k), "removal of qubits keeps the others and the phase")
    w2 = ctx.choice("other", [w, w[::-1], "I" * n])
    k2 = ctx.choice("otherc", [k, -k])
    o = QermitPauli(_tensor(w2, qs, k2))
    ctx.check((p == o) == ((w, k) == (w2, k2)), "equal exactly when string and phase are equal")
    ctx.check(p != o or hash(p) == hash(o), "equal operators have equal hashes")
    ctx.check(_same_op(ctx, st, k * pauli_matrix(sw), _matrix(p, qs)), "none of this changes the operator")
    ctx.cover("derived")


def h_refuse(ctx):
    """gates that are not Clifford, and circuits that act on bits, are refused"""
    kind = ctx.choice("kind", ["T", "Rz", "measure", "CCX"])
    n = 3
    qs = [Qubit(i) for i in range(n)]
    p = QermitPauli(_tensor("XYZ", qs, 1))
    c = Circuit(3, 1).H(0)
    if kind == "T":
        c.T(1)
    elif kind == "Rz":
        c.Rz(ctx.choice("angle", [0.25, 0.1, 1.3]), 2)
    elif kind == "CCX":
        c.CCX(0, 1, 2)
    else:
        c.Measure(0, 0)
    try:
        p.apply_circuit(c)
    except Exception as ex:
        if isinstance(ex, E.PathAbort):
            raise
        ctx.cover("refused")
        refused = True
    else:
        refused = False
    ctx.check(refused, "what can not be commuted through is refused")


G = "arbitrary state decides operator equality"
HARNESSES = [
    Harness("gate1", h_gate, "2 qubits, one single-qubit gate of 17 kinds (half-turn multiples), all Paulis and phases; " + G, ["gate"], quick=dict(n=2, gates=FIXED1 + ["Rz", "Rx"], ws=["XI", "YZ", "ZX", "IY"]), thorough=dict(n=2, gates=FIXED1 + list(PAR1)), max_paths=60000, time_budget=800),
    Harness("gate_phasedx", h_gate, "2 qubits, PhasedX at half-turn multiples", ["gate"], quick=dict(n=2, gates=["PhasedX"], ws=["XI", "YZ", "ZX"])),
    Harness("gate2", h_gate, "2 qubits (thorough 3), one two-qubit gate of 9 kinds, all Paulis and phases; " + G, ["gate"], quick=dict(n=2, gates=FIXED2 + ["ZZPhase"]),
            thorough=dict(n=3, gates=FIXED2 + list(PAR2), ws=["XIZ", "YXI", "ZYX", "IIY", "XXX", "IZZ", "YYZ", "ZII"])),
    Harness("circuit", h_circuit, "sequences of 3 gates of 5 kinds on 2 qubits; " + G, ["circuit"],
            quick=dict(n=2, length=3, gates=["H", "CX", "S", "CZ", "barrier"], swaps=True), thorough=dict(n=2, length=4, gates=["H", "CX", "S", "CZ", "V", "barrier"], swaps=True), max_paths=60000, time_budget=800),
    Harness("circuit3", h_circuit, "sequences of 3 (thorough 4) gates on 3 qubits; " + G, ["circuit"],
            quick=dict(n=3, length=3, gates=["H", "CX", "V", "ZZMax"], swaps=True), thorough=dict(n=3, length=4, gates=["H", "CX", "V", "ZZMax", "CY"], swaps=True), max_paths=60000, time_budget=800),
    Harness("history", h_history, "3 (thorough 4) gates and multiplications on 2 qubits; " + G, ["history"], quick=dict(n=2, length=2), thorough=dict(n=2, length=3), max_paths=60000, time_budget=800),
    Harness("derived", h_derived, "1 qubit (thorough 2), all Paulis and phases; " + G, ["derived"], quick=dict(n=1), thorough=dict(n=2), max_paths=60000, time_budget=800),
    Harness("refuse", h_refuse, "T, CCX, non-Clifford Rz, measurement", ["refused"]),
]
