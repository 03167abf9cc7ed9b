"""Q13 -- noise is inserted after each noisy gate, and logical errors are what that noise amounts to."""
import itertools
from collections import Counter
from fractions import Fraction
import numpy as np
from symx import engine as E
from symx.engine import eq, land
from symx.rand import Rand
from symx.runner import Harness
from symx.stubs import patched
from symx.phys import SymState, qps, words, pauli_matrix, PAULI
from pytket import Circuit, Qubit, Bit, OpType
from pytket.circuit import Node
from pytket.pauli import Pauli, QubitPauliString
from qermit.noise_model.noise_model import ErrorDistribution, NoiseModel, Direction
from qermit.noise_model.pauli_error_transpile import PauliErrorTranspile

ASSUMPTIONS = ["Clifford circuits over the listed gates; a generator's uniform draw is any real in [0, 1)",
               "operators are compared up to global phase, through expectation values in an arbitrary (symbolic) state"]
INV = {v: k for k, v in PAULI.items()}
ARITY = {"H": 1, "S": 1, "V": 1, "X": 1, "CX": 2, "CZ": 2, "ZZMax": 2, "CY": 2, "SWAP": 2}


def _circuit(ctx, n, length, gates, swaps, names=None, extra=True):
    qs = [Qubit(i) for i in range(n)] if names == "reg" else [Qubit("z", 1), Node("a", 5), Qubit("q", 7)][:n]
    c = Circuit()
    for q in qs:
        c.add_qubit(q)
    seq = []
    for i in range(length):
        g = ctx.choice(f"gate{i}", gates)
        k = ARITY[g]
        on = [qs[(i + j) % n] for j in range(k)]
        c.add_gate(getattr(OpType, g), on)
        if extra and i == 0:
            c.add_barrier(qs)
    swap = ctx.choice("swap", ["none", "swap"] + (["cycle"] if n > 2 else [])) if swaps else "none"
    if swap != "none":
        c.SWAP(qs[0], qs[-1])
        if swap == "cycle":
            c.SWAP(qs[0], qs[1])
        c.replace_SWAPs()
    return qs, c


def _insert(c, errors):
    """the commands of c with, after the i-th gate, errors[i] (or nothing)"""
    d = Circuit()
    for q in c.qubits:
        d.add_qubit(q)
    for b in c.bits:
        d.add_bit(b)
    k = 0
    for com in c.get_commands():
        if com.op.type == OpType.Barrier:
            d.add_barrier(com.args)
            continue
        d.add_gate(com.op, com.args)
        if com.op.type == OpType.Measure:
            continue
        e = errors(k, com)
        k += 1
        if e is not None:
            for p, q in zip(e, com.qubits):
                if p != Pauli.I:
                    d.add_gate(getattr(OpType, INV[p]), [q])
    return d


def _unitary(c, qs, perm=None):
    """unitary over sorted qubits; perm: implicit permutation applied at the end"""
    d = Circuit()
    for q in sorted(qs):
        d.add_qubit(q)
    for com in c.get_commands():
        if com.op.type not in (OpType.Barrier, OpType.Measure):
            d.add_gate(com.op, com.qubits)
    U = d.get_unitary()
    perm = c.implicit_qubit_permutation() if perm is None else perm
    n = len(qs)
    sq = sorted(qs)
    P = np.zeros((2 ** n, 2 ** n))
    for i in range(2 ** n):
        bits = {q: (i >> (n - 1 - k)) & 1 for k, q in enumerate(sq)}
        out = {perm.get(q, q): v for q, v in bits.items()}
        P[sum(out[q] << (n - 1 - k) for k, q in enumerate(sq)), i] = 1
    return P @ U


def _same_action(ctx, st, A, B, n):
    """A rho A* == B rho B* for the arbitrary state rho"""
    return land(*[eq(st.expect_matrix(A.conj().T @ pauli_matrix(w) @ A), st.expect_matrix(B.conj().T @ pauli_matrix(w) @ B)) for w in words(n)[1:]])


def _op(p, qs):
    t = p.qubit_pauli_tensor
    return pauli_matrix("".join(INV[t.string.map.get(q, Pauli.I)] for q in sorted(qs)))


def _key(w):
    return tuple(PAULI[c] for c in w)


def _model(ctx, gates, rng, opts1, opts2):
    """each noisy gate type: an error that always happens, or none"""
    m, err = {}, {}
    for g in gates:
        w = ctx.choice(f"err_{g}", (opts1 if ARITY[g] == 1 else opts2) + [None, "clean"])
        if w == "clean":
            continue
        m[getattr(OpType, g)] = ErrorDistribution({} if w is None else {_key(w): 1}, rng=rng)
        err[getattr(OpType, g)] = None if w is None else _key(w)
    return NoiseModel(m), err


def h_propagate(ctx, n, length, gates, swaps, opts1, opts2, names):
    rng = Rand(ctx, "u")
    qs, c = _circuit(ctx, n, length, gates, swaps, names)
    model, err = _model(ctx, gates, rng, opts1, opts2)
    if ctx.choice("measured", [False, True]):
        for i, q in enumerate(qs):
            b = Bit("m", i)
            c.add_bit(b)
            c.Measure(q, b)
    keep = c.copy()
    direction = ctx.choice("direction", [Direction.forward, Direction.backward])
    e = model.random_propagate(c, direction=direction)
    st = SymState(ctx, "r", qs)
    perm = c.implicit_qubit_permutation()
    U = _unitary(c, qs, perm)
    V = _unitary(_insert(c, lambda k, com: err.get(com.op.type)), qs, perm)
    want = _op(e, qs) @ U if direction == Direction.forward else U @ _op(e, qs)
    ctx.check(_same_action(ctx, st, V, want, n), "the noisy circuit is the circuit with the returned logical error " + direction.name)
    ctx.check(c == keep, "the circuit is not changed")
    ctx.cover(direction.name)


def _dist(ctx, rng):
    return {OpType.CX: ErrorDistribution({_key("XZ"): 0.25, _key("YI"): 0.5}, rng=rng),
            OpType.H: ErrorDistribution({_key("Y"): 0.5, _key("Z"): 0.5}, rng=rng)}


def _recorded(log):
    real = ErrorDistribution.sample

    def sample(self):
        r = real(self)
        log.append((self, r))
        return r
    return patched((ErrorDistribution, "sample", sample))


def h_samples(ctx, n, length, gates, target):
    """each gate has its own draw; errors of a repeated gate differ"""
    rng = Rand(ctx, "u")
    qs, c = _circuit(ctx, n, length, gates, target == "pass", "reg")
    ds = _dist(ctx, rng)
    model = NoiseModel(ds)
    log = []
    with _recorded(log):
        if target == "pass":
            d = c.copy()
            PauliErrorTranspile(model).apply(d)
            order = 1
        else:
            direction = ctx.choice("direction", [Direction.forward, Direction.backward])
            e = model.random_propagate(c, direction)
            order = 1 if direction == Direction.forward else -1
    noisy = [com.op.type for com in c.get_commands() if com.op.type in ds]
    ctx.check([id(x) for x, _ in log][::order] == [id(ds[t]) for t in noisy], "every noisy gate has its own sample of its own distribution")
    samples = iter([r for _, r in log][::order])
    ins = _insert(c, lambda k, com: next(samples) if com.op.type in ds else None)
    perm = c.implicit_qubit_permutation()
    V = _unitary(ins, qs, perm)
    U = _unitary(c, qs, perm)
    st = SymState(ctx, "r", qs)
    if target == "pass":
        ctx.check(_same_action(ctx, st, V, _unitary(d, qs), n), "the compiled circuit is the circuit with the sampled errors")
    else:
        want = _op(e, qs) @ U if order == 1 else U @ _op(e, qs)
        ctx.check(_same_action(ctx, st, V, want, n), "the logical error is the product of the sampled errors, each carried through the rest of the circuit")
    ctx.cover("samples")


def h_pass(ctx, n, length, gates, opts1, opts2, names):
    """the compiler pass: errors directly after their gate, everything else kept"""
    rng = Rand(ctx, "u")
    qs, c = _circuit(ctx, n, length, gates, True, names)
    model, err = _model(ctx, gates, rng, opts1, opts2)
    bits = [Bit("m", 3), Bit("b", 0), Bit("b", 1)]
    for b in bits:
        c.add_bit(b)
    where = {}
    if ctx.choice("measured", [False, True]):
        for q, b in zip(qs, bits):
            c.Measure(q, b)
            where[b] = q
    ph = ctx.choice("phase", [0, 0.5])
    c.add_phase(ph)
    keep = c.copy()
    d = c.copy()
    PauliErrorTranspile(model).apply(d)
    st = SymState(ctx, "r", qs)
    ins = _insert(c, lambda k, com: err.get(com.op.type))
    perm = c.implicit_qubit_permutation()
    ctx.check(sorted(d.qubits) == sorted(c.qubits) and sorted(d.bits) == sorted(c.bits), "qubits and bits are kept")
    ctx.check(_same_action(ctx, st, _unitary(ins, qs, perm), _unitary(d, qs), n), "the compiled circuit is the circuit with the errors inserted")
    gates0 = [(com.op.type, com.op.params, com.args) for q in qs for com in ins.get_commands() if q in com.qubits and com.op.type != OpType.Barrier]
    gates1 = [(com.op.type, com.op.params, com.args) for q in qs for com in d.get_commands() if q in com.qubits and com.op.type != OpType.Barrier]
    ctx.check(gates0 == gates1, "on every qubit the gates are those of the circuit, each noisy gate followed by its error")
    ctx.check(c == keep, "copies of the circuit are not changed")
    ctx.cover("pass")


def h_counter(ctx, n, shots):
    """repeated propagation: one propagation per instance, no error is not counted, totals are right"""
    rng = Rand(ctx, "u")
    p = ctx.choice("p", [0.25, 1])
    # in the second circuit the errors XI and -XI occur
    first, between = ctx.choice("circuit", [("H", []), ("X", ["Z"])])
    F = getattr(OpType, first)
    c = Circuit(2).add_gate(F, [0])
    for g in between:
        c.add_gate(getattr(OpType, g), [0])
    c.CX(0, 1)
    model = NoiseModel({F: ErrorDistribution({(Pauli.X,): p}, rng=rng), OpType.CX: ErrorDistribution({_key("XX"): 0.5, _key("IZ"): 0.25}, rng=rng)})
    log = []
    which = ctx.choice("which", ["forward", "backward", "effective"])
    with _recorded(log):
        if which == "effective":
            dist = model.get_effective_pre_error_distribution(c, n_rand=shots)
            cnt = dist.pauli_error_counter
        else:
            cnt = model.counter_propagate(c, shots, direction=getattr(Direction, which))
    U = c.get_unitary()
    one = Circuit(2).add_gate(F, [0]).get_unitary()
    CX = Circuit(2)
    for g in between:
        CX.add_gate(getattr(OpType, g), [0])
    CX = CX.CX(0, 1).get_unitary()
    want = Counter()
    ctx.check(len(log) == 2 * shots, "every instance draws every noisy gate once")
    if len(log) == 2 * shots:
        for i in range(shots):
            two = dict((id(a), b) for a, b in log[2 * i:2 * i + 2])
            h = two.get(id(model.noise_model[F]))
            x = two.get(id(model.noise_model[OpType.CX]))
            eh = pauli_matrix("".join(INV[t] for t in h) + "I") if h else np.eye(4)
            ex = pauli_matrix("".join(INV[t] for t in x)) if x else np.eye(4)
            V = ex @ CX @ eh @ one
            L = V @ U.conj().T if which == "forward" else U.conj().T @ V
            w = next(w for w in words(2) if abs(abs(np.trace(pauli_matrix(w) @ L)) - 4) < 1e-9)
            if w != "II":
                want[w] += 1
    got = Counter()
    for k, v in cnt.items():
        got["".join(INV[k.qubit_pauli_tensor.string.map.get(q, Pauli.I)] for q in c.qubits)] += v
    ctx.check(got == want, "counts of the logical errors of all instances, those without error not counted")
    if which == "effective":
        ctx.check(dist.total == shots, "the total is the number of instances")
        dd = dist.distribution
        ctx.check(land(*[eq(dd.get(qps(w, c.qubits), 0), v / shots) for w, v in want.items()]) and len(dd) == len(want), "probabilities of the logical errors")
    ctx.cover("counter")


G = "arbitrary state decides equality"
W2 = ["XZ", "YI", "IY", "ZX"]
HARNESSES = [
    Harness("propagate", h_propagate, "2 qubits, 2 gates of 3 kinds, any error of each kind always happening, implicit swaps; " + G, ["forward", "backward"],
            quick=dict(n=2, length=2, gates=["H", "CX", "CZ"], swaps=True, opts1=["Y"], opts2=["XZ", "YI"], names="odd"),
            thorough=dict(n=2, length=3, gates=["H", "CX", "CY"], swaps=True, opts1=["Y"], opts2=["XZ", "YI"], names="odd"), max_paths=60000, time_budget=800),
    Harness("propagate3", h_propagate, "3 qubits, 3 gates of 2 kinds; " + G, ["forward", "backward"],
            quick=dict(n=3, length=3, gates=["V", "CX"], swaps=True, opts1=["Z"], opts2=["ZY", "XI"], names="reg"),
            thorough=dict(n=3, length=4, gates=["V", "CX"], swaps=True, opts1=["Z"], opts2=["XX", "ZI", "ZY"], names="reg"), max_paths=60000, time_budget=800),
    Harness("samples", h_samples, "2 qubits, 3 (thorough 4) gates, every sample drawn separately; " + G, ["samples"],
            quick=dict(n=2, length=2, gates=["H", "CX"], target="logical"), thorough=dict(n=2, length=3, gates=["H", "CX"], target="logical"), max_paths=60000, time_budget=800),
    Harness("pass_samples", h_samples, "2 qubits, 2 (thorough 3) gates, every sample drawn separately, compiler pass; " + G, ["samples"],
            quick=dict(n=2, length=2, gates=["H", "CX"], target="pass"), thorough=dict(n=2, length=3, gates=["H", "CX"], target="pass"), max_paths=60000, time_budget=800),
    Harness("pass", h_pass, "2 qubits, 2 gates of 3 kinds (thorough 3 of 4), measurements, unused bits, barriers, implicit swaps; " + G, ["pass"],
            quick=dict(n=2, length=2, gates=["H", "CX", "CZ"], opts1=["Y"], opts2=["XZ", "YI"], names="odd"),
            thorough=dict(n=2, length=3, gates=["H", "CX", "CZ"], opts1=["Y"], opts2=["XZ", "YI"], names="odd"), max_paths=60000, time_budget=800),
    Harness("counter", h_counter, "2 gates, 2 (thorough 3) instances, all draws", ["counter"], quick=dict(n=2, shots=2), thorough=dict(n=2, shots=3), max_paths=60000, time_budget=800),
]
