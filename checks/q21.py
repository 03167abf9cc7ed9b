"""Q21 -- coherent Pauli checks: boxing Cliffords, adding checks, post-selecting on them."""
import itertools
from collections import Counter
from fractions import Fraction
import networkx as nx
from symx import engine as E
from symx.engine import eq, land, lor, lnot, ssum
from symx.qsem import same_unitary, circuit_matrix, amps_zero, NotExact, _diffs_upto_phase, strip
from symx.rand import Rand
from symx.runner import Harness
from symx.stubs import StubBackend, counts_result, all_outcomes, sym_counts
from pytket import Circuit, Qubit, Bit, OpType
from pytket.circuit import CircBox, Node
from pytket.passes import DecomposeBoxes
from pytket.pauli import Pauli, QubitPauliString, QubitPauliTensor
from qermit import CircuitShots, MitRes
import qermit.coherent_pauli_checks.box_clifford_subcircuits as bx
import qermit.coherent_pauli_checks.monochromatic_convex_subdag as mc
import qermit.coherent_pauli_checks.pauli_sampler as ps
from qermit.coherent_pauli_checks import gen_coherent_pauli_check_mitres
from qermit.noise_model.qermit_pauli import QermitPauli

ASSUMPTIONS = ["every bit is written by at most one measurement, and registers called ancilla and ancilla_measure are not used",
               "Clifford boxes hold gates that QermitPauli can be carried through (Q11)"]
P = {"I": Pauli.I, "X": Pauli.X, "Y": Pauli.Y, "Z": Pauli.Z}


# --- sub-DAGs ---------------------------------------------------------------------------
def _quotient_ok(dag, lab):
    q = nx.DiGraph()
    q.add_nodes_from(set(lab.values()))
    for a, b in dag.edges:
        if lab[a] != lab[b]:
            q.add_edge(lab[a], lab[b])
    return nx.is_directed_acyclic_graph(q)


def h_subdags(ctx, wires, prefixes, cross):
    """coloured nodes are grouped so that groups can be put in order, and no further two could be merged"""
    pat = ctx.choice("wires", wires)
    k = ctx.choice("others", prefixes)
    # nodes of each wire, at arbitrary times that increase along the wire
    nodes, edges, colour = [], [], {}
    when = {}
    for w, word in enumerate(pat):
        last = None
        for i, ch in enumerate(word):
            n = (w, i)
            nodes.append(n)
            colour[n] = ch == "C"
            when[n] = ctx.real(f"t{w}{i}", 0, 100)
            if last is not None:
                edges.append((last, n))
                ctx.assume(when[last] < when[n])
            last = n
    extra = [e for e in cross if all(a[0] < len(pat) and a[1] < len(pat[a[0]]) for a in e)]
    if extra:
        e = ctx.choice("crossing", [None] + extra)
        if e is not None:
            edges.append(e)
            ctx.assume(when[e[0]] < when[e[1]])
    # nodes before all others, together or in between
    pre, lim = [], None
    for i in range(k):
        pre.append(("p", i))
        colour[pre[-1]] = True
    order = []
    for n in nodes:   # insertion by symbolic comparison
        j = len(order)
        while j > 0 and bool(when[n] < when[order[j - 1]]):
            j -= 1
        order.insert(j, n)
    cut = ctx.choice("cut", list(range(len(order) + 1))) if k else 0
    order = order[:cut] + pre + order[cut:]
    num = {n: i for i, n in enumerate(order)}
    dag = nx.DiGraph()
    dag.add_nodes_from(range(len(order)))
    dag.add_edges_from((num[a], num[b]) for a, b in edges)
    coloured = [num[n] for n in order if colour[n]]
    keep = (set(dag.edges), list(coloured))
    lab = mc.get_monochromatic_convex_subdag(dag, coloured)
    ctx.check((set(dag.edges), coloured) == keep, "the graph and the nodes given are not changed")
    ctx.check(set(lab) == set(coloured), "every coloured node, and no other, belongs to a sub-DAG")
    own = itertools.count(max(lab.values(), default=-1) + 1)
    give = getattr(bx, "_give_nodes_subdag", None)
    full = give(dag, lab) if give else [lab[n] if n in lab else next(own) for n in range(len(order))]
    ctx.check(len(full) == len(order) and all(full[n] == lab[n] for n in coloured), "groups of coloured nodes are kept")
    rest = [full[n] for n in range(len(order)) if n not in lab]
    ctx.check(len(set(rest)) == len(rest) and not set(rest) & set(lab.values()), "other nodes are on their own")
    lab2 = dict(enumerate(full))
    ctx.check(_quotient_ok(dag, lab2), "groups can be put in an order that respects all edges")
    for a, b in itertools.combinations(sorted(set(lab.values())), 2):
        ctx.check(not _quotient_ok(dag, {n: a if v == b else v for n, v in lab2.items()}), "no two groups could be merged")
    ctx.cover("grouped")


# --- boxing -----------------------------------------------------------------------------
def _flat(c):
    c = c.copy()
    DecomposeBoxes().apply(c)
    return c


def _deferred(c):
    """the same circuit with bits as qubits: measuring is a CX, conditions are controls"""
    c = _flat(c)
    d = Circuit()
    for q in c.qubits:
        d.add_qubit(q)
    bq = {b: Qubit("bit_" + b.reg_name, b.index) for b in c.bits}
    for b in c.bits:
        d.add_qubit(bq[b])
    for com in c.get_commands():
        t = com.op.type
        if t == OpType.Barrier:
            continue
        if t == OpType.Measure:
            d.CX(com.qubits[0], bq[com.bits[0]])
        elif t == OpType.Conditional:
            assert com.op.width == 1 and com.op.value == 1
            d.add_gate({OpType.X: OpType.CX, OpType.Z: OpType.CZ, OpType.H: OpType.CH}[com.op.op.type], [bq[com.args[0]], *com.qubits])
        else:
            assert not com.bits
            d.add_gate(com.op, com.qubits)
    perm = c.implicit_qubit_permutation()
    if any(a != b for a, b in perm.items()):
        x = d.to_dict()
        x["implicit_permutation"] = c.to_dict()["implicit_permutation"] + [[q.to_list(), q.to_list()] for q in bq.values()]
        d = Circuit.from_dict(x)
    return d


GATES = {
    "h0": lambda c, q, a: c.H(q[0]), "h1": lambda c, q, a: c.H(q[1]), "s2": lambda c, q, a: c.S(q[2]),
    "rz0": lambda c, q, a: c.Rz(a, q[0]), "rx1": lambda c, q, a: c.Rx(a, q[1]), "rz2": lambda c, q, a: c.Rz(0.5, q[2]),
    "px1": lambda c, q, a: c.add_gate(OpType.PhasedX, [0.5, 0.5], [q[1]]), "py1": lambda c, q, a: c.add_gate(OpType.PhasedX, [0.5, 0.3 if not a else a], [q[1]]),
    "cx01": lambda c, q, a: c.CX(q[0], q[1]), "cx12": lambda c, q, a: c.CX(q[1], q[2]), "zz20": lambda c, q, a: c.ZZPhase(a, q[2], q[0]),
    "zm12": lambda c, q, a: c.ZZMax(q[1], q[2]), "t0": lambda c, q, a: c.T(q[0]), "bar": lambda c, q, a: c.add_barrier([q[0], q[2]]),
    "m0": lambda c, q, a: c.Measure(q[0], c.bits[0]), "m1": lambda c, q, a: c.Measure(q[1], c.bits[1]),
    "if1": lambda c, q, a: c.X(q[1], condition_bits=[c.bits[0]], condition_value=1), "if2": lambda c, q, a: c.Z(q[2], condition_bits=[c.bits[1]], condition_value=1),
    "swap": lambda c, q, a: c.SWAP(q[0], q[2]), "y2": lambda c, q, a: c.Y(q[2]), "h2": lambda c, q, a: c.H(q[2]),
}
QS = {"plain": ([Qubit(0), Qubit(1), Qubit(2)], [Bit(0), Bit(1)]), "named": ([Qubit("z", 4), Node("a", 1), Qubit("b", 0)], [Bit("m", 2), Bit("c", 0)])}


def _make(ctx, words, names, implicit=False, tag="a"):
    qs, bs = QS[names]
    c = Circuit()
    for q in qs:
        c.add_qubit(q)
    for b in bs:
        c.add_bit(b)
    ang = {}
    for i, w in enumerate(words):
        if w == "-":
            continue
        a = None
        if w in ("rz0", "rx1", "zz20", "py1"):
            a = ctx.angle(f"{tag}{i}")
        GATES[w](c, qs, a)
    if implicit:
        c.replace_SWAPs()
    return c


def _clifford_box(com):
    return com.op.type == OpType.CircBox and com.op.get_circuit().name == "Clifford Subcircuit"


def h_box(ctx, slots, names, implicit):
    """the boxed circuit does what the circuit does; boxes hold Clifford gates"""
    words = ctx.choice("circuit", slots)
    words = [ctx.choice(f"g{i}", w.split("|")) if "|" in w else w for i, w in enumerate(words.split())]
    c = _make(ctx, words, ctx.choice("names", names), ctx.choice("implicit", implicit) if "swap" in words else False)
    keep = c.copy()
    d = c.copy()
    bx.BoxClifford().apply(d)
    ctx.check(sorted(d.qubits) == sorted(c.qubits) and sorted(d.bits) == sorted(c.bits), "the circuit's qubits and bits")
    if sorted(d.qubits) == sorted(c.qubits) and sorted(d.bits) == sorted(c.bits):
        x, y = _deferred(d), _deferred(keep)
        ctx.check(same_unitary(ctx, x, y), "the same operation and measurements, for all angles")
    for com in d.get_commands():
        if _clifford_box(com):
            inner = [g.op for g in com.op.get_circuit().get_commands()]
            ctx.check(all(o.is_clifford_type() or o.is_clifford() for o in inner), "boxes hold Clifford gates only")
        else:
            ctx.check(not com.op.is_clifford_type(), "all Clifford gates are in boxes")
    ctx.check(sum(Counter(g.op.type for g in _flat(d).get_commands()).values()) == sum(Counter(g.op.type for g in _flat(keep).get_commands()).values()), "no gate is added or lost")
    ctx.cover("boxed")


# --- checks -----------------------------------------------------------------------------
class AnySampler(ps.PauliSampler):
    def __init__(self, ctx, most, letters):
        self.ctx, self.most, self.letters, self.n = ctx, most, letters, 0
        self.given = []

    def sample(self, circ):
        ctx = self.ctx
        out = []
        k = ctx.choice(f"checks{self.n}", list(range(1, self.most + 1)))
        for i in range(k):
            words = self.letters[len(circ.qubits)]
            w = ctx.choice(f"pauli{self.n}_{i}", words)
            out.append(w)
        self.given.append((list(circ.qubits), out))
        self.n += 1
        return [QermitPauli(QubitPauliTensor(string=QubitPauliString(map={q: P[x] for q, x in zip(circ.qubits, w)}), coeff=1)) for w in out]


def _anti(w1, w2):
    return sum(a != "I" and b != "I" and a != b for a, b in zip(w1, w2)) % 2


def _checked_matrix_ok(ctx, full, plain, qubits, anc, syndrome):
    """full on (qubits, ancillas at zero) is (plain on qubits) and ancillas in the syndrome"""
    allq = list(qubits) + list(anc)
    na = len(anc)
    s = int("".join(map(str, syndrome)) or "0", 2)
    if ctx.symbolic:
        M = circuit_matrix(strip(full), allq)
        U = circuit_matrix(strip(plain), list(qubits))
        A, zeros = [], []
        for i in range(len(M)):
            row = [M[i][j << na] for j in range(len(U))]
            if i & ((1 << na) - 1) == s:
                A.append(row)
            else:
                zeros += [x for x in row if not x.iszero()]
        return land(amps_zero(ctx, zeros), amps_zero(ctx, _diffs_upto_phase(A, U)))
    import numpy as np
    f, p = Circuit(), Circuit()
    m = {q: Qubit(i) for i, q in enumerate(allq)}

    def plainly(src, n):
        d = Circuit(n)
        s2 = strip(src)
        for com in s2.get_commands():
            d.add_gate(com.op, [m[q] for q in com.qubits])
        V = d.get_unitary()
        return V
    M, U = plainly(full, len(allq)), plainly(plain, len(qubits))
    perm_ok = True
    M = M[:, :: 1 << na]
    idx = np.arange(M.shape[0]) & ((1 << na) - 1)
    A, Z = M[idx == s], M[idx != s]
    t = np.trace(A @ U.conj().T)
    if abs(t) < 1e-6:
        return False
    return bool(np.abs(Z).max(initial=0) < 1e-7 and np.abs(A - U * (t / abs(t))).max() < 1e-7)


CHECKED = {
    "one": ("one box", lambda b, qs: [b(qs[:2], "h0 cx01 s1")]),
    "around": ("a box between rotations", lambda b, qs: [("Rz", 0, qs[0]), b([qs[1], qs[0]], "s0 cx01 h1"), ("Rx", 1, qs[1])]),
    "two": ("two boxes", lambda b, qs: [b(qs[:2], "cx01 h1"), ("Rz", 0, qs[1]), b(qs[1:], "sw01 v0")]),
    "swaps": ("box with implicit swaps", lambda b, qs: [b(qs[:2], "h0 imp s0"), ("Rx", 0, qs[0])]),
    "other": ("a box of another name", lambda b, qs: [b(qs[:2], "h0 cx01", "something"), b(qs[:1], "v0")]),
    "suffix": ("a box with a longer name", lambda b, qs: [b(qs[:2], "cx01 v1", "Clifford Subcircuit 2")]),
    "barrier": ("barriers", lambda b, qs: [b(qs[:1], "h0"), ("bar",), b(qs[:2], "cx01")]),
    "rot": ("rotations by right angles", lambda b, qs: [b(qs[:2], "rz0 px1 zz01")]),
    "three": ("three qubits", lambda b, qs: [b(qs, "cx01 cx12 h0 y2")]),
    "triple": ("three boxes", lambda b, qs: [b(qs[:1], "h0 s0"), ("Rz", 0, qs[0]), b(qs[:2], "cx01 v0 v1"), ("Rx", 1, qs[1]), b(qs[1:2], "h0 s0")]),
    "single": ("one box of one qubit", lambda b, qs: [("Rx", 0, qs[0]), b(qs[:1], "h0 s0"), ("Rz", 1, qs[0])]),
    "outer": ("implicit swaps outside", lambda b, qs: [b(qs[:2], "h0 cx01"), ("imp",), ("Rz", 0, qs[0])]),
}


def _boxof(qs, words, name="Clifford Subcircuit"):
    c = Circuit(len(qs), name=name)
    for w in words.split():
        i = [int(x) for x in w if x.isdigit()]
        k = w.rstrip("0123456789")
        if k == "imp":
            c.SWAP(0, 1)
            c.replace_SWAPs()
            continue
        {"h": c.H, "s": c.S, "v": c.V, "y": c.Y, "cx": c.CX, "sw": c.SWAP, "rz": lambda a: c.Rz(0.5, a), "px": lambda a: c.add_gate(OpType.PhasedX, [0.5, 0.5], [a]),
         "zz": lambda a, b: c.ZZMax(a, b)}[k](*i)
    return (qs, c)


def _boxed(ctx, kind, names, measured):
    qs, bs = QS[names]
    if kind in ("single", "triple"):
        qs = qs[:2]
    c = Circuit()
    for q in qs:
        c.add_qubit(q)
    for b in bs:
        c.add_bit(b)
    for it in CHECKED[kind][1](_boxof, qs):
        if it[0] == "bar":
            c.add_barrier(qs[:2])
        elif it[0] == "imp":
            c.SWAP(qs[0], qs[1])
            c.replace_SWAPs()
        elif isinstance(it[0], str):
            getattr(c, it[0])(ctx.angle(f"a{it[1]}"), it[2])
        else:
            c.add_circbox(CircBox(it[1]), list(it[0]))
    if measured:
        c.Measure(qs[0], bs[0]).Measure(qs[1], bs[1])
    return c


def _measured(c):
    return {com.bits[0]: com.qubits[0] for com in c.get_commands() if com.op.type == OpType.Measure}


def h_checks(ctx, kinds, names, most, letters, errors):
    """without errors checks change nothing; an error in a box is caught by the checks it anticommutes with"""
    kind = ctx.choice("circuit", kinds)
    c = _boxed(ctx, kind, ctx.choice("names", names), True)
    keep = c.copy()
    smp = AnySampler(ctx, most if kind in ("one", "rot", "suffix", "swaps", "single") else 1, letters)
    d, bits = smp.add_pauli_checks_to_circbox(c)
    anc = [q for q in d.qubits if q not in c.qubits]
    ctx.check(set(c.qubits) <= set(d.qubits) and set(c.bits) <= set(d.bits), "the circuit's qubits and bits are there")
    ctx.check(c == keep, "the circuit given is not changed")
    ctx.check(len(anc) == sum(len(w) for _, w in smp.given), "one further qubit for every check")
    ms = _measured(d)
    ctx.check(set(ms) == set(_measured(keep)) | set(bits) and not set(bits) & set(c.bits), "each further bit, and no other, is for post-selection")
    ctx.check(all(ms[b] == q for b, q in _measured(keep).items()), "the circuit's own measurements are kept")
    ctx.check(sorted(ms[b] for b in bits) == sorted(anc), "every ancilla is measured into its bit")
    last = {}
    for i, com in enumerate(d.get_commands()):
        if com.op.type != OpType.Barrier:
            for q in com.qubits:
                last[q] = com.op.type
    ctx.check(all(last[q] == OpType.Measure for q in anc), "ancillas are measured after their last gate")
    # errors around boxes
    where = ctx.choice("error", errors)
    coms = d.get_commands()
    boxes = [i for i, com in enumerate(coms) if com.op.type == OpType.CircBox and com.op.get_circuit().name != "something"]
    syndrome = {a: 0 for a in anc}
    e = Circuit()
    for q in d.qubits:
        e.add_qubit(q)
    for b in d.bits:
        e.add_bit(b)
    ref = Circuit()
    for q in c.qubits:
        ref.add_qubit(q)
    bad = ctx.choice("box", list(range(len(smp.given)))) if where != "none" else None
    if bad is not None:
        word = ctx.choice("Pauli", letters[len(smp.given[bad][0])])
    seen = 0
    anc_of = []
    for qs_, ws in smp.given:
        anc_of.append((qs_, ws))
    # checks of box i use the ancillas entangled just before it; they are found by the bits' order of appearance
    order = []
    for com in coms:
        for q in com.qubits:
            if q in anc and q not in order:
                order.append(q)
    ofbox, k = [], 0
    for _, ws in smp.given:
        ofbox.append(order[k:k + len(ws)])
        k += len(ws)
    n = 0
    cm = keep.get_commands()
    todo = [com for com in cm if com.op.type == OpType.CircBox and com.op.get_circuit().name != "something"]
    bi = 0
    for com in coms:
        isbox = com.op.type == OpType.CircBox and com.op.get_circuit().name != "something"

        def err(circ):
            qs_ = smp.given[bi][0]
            for q, x in zip(qs_, word):
                if x != "I":
                    circ.add_gate({"X": OpType.X, "Y": OpType.Y, "Z": OpType.Z}[x], [q])
        if isbox and bad == bi:
            err(e)
        if com.op.type == OpType.Barrier:
            pass
        else:
            e.add_gate(com.op, com.args)
        if isbox:
            bi += 1
    bi = 0
    for com in cm:
        isbox = com.op.type == OpType.CircBox and com.op.get_circuit().name != "something"
        if isbox and bad == bi:
            for q, x in zip(smp.given[bi][0], word):
                if x != "I":
                    ref.add_gate({"X": OpType.X, "Y": OpType.Y, "Z": OpType.Z}[x], [q])
        if com.op.type not in (OpType.Barrier, OpType.Measure):
            ref.add_gate(com.op, com.qubits)
        if isbox:
            bi += 1
    if bad is not None:
        for a, w in zip(ofbox[bad], smp.given[bad][1]):
            syndrome[a] = _anti(w, word)
    perm = lambda src, dst: src.implicit_qubit_permutation()
    e, ref = _withperm(e, d), _withperm(ref, keep)
    e, ref = _noimp(_flat(e)), _noimp(_flat(ref))
    ctx.check(_checked_matrix_ok(ctx, e, ref, list(c.qubits), anc, [syndrome[a] for a in anc]), "the circuit acts as before; a check measures one exactly for the errors that it anticommutes with")
    ctx.cover(kind)


def _withperm(c, src):
    x = c.to_dict()
    p = {tuple(map(str, a)): b for a, b in src.to_dict()["implicit_permutation"]}
    x["implicit_permutation"] = [[q.to_list(), p.get(tuple(map(str, q.to_list())), q.to_list())] for q in c.qubits]
    return Circuit.from_dict(x)


def _noimp(c):
    """swaps written out, measurements left out"""
    d = Circuit()
    for q in c.qubits:
        d.add_qubit(q)
    for com in c.get_commands():
        if com.op.type not in (OpType.Barrier, OpType.Measure):
            d.add_gate(com.op, com.qubits)
    d = _withperm(d, c)
    d.replace_implicit_wire_swaps()
    return d


# --- samplers ---------------------------------------------------------------------------
def h_random(ctx, sizes, most):
    """as many checks as asked for, none of them the identity"""
    n = ctx.choice("qubits", sizes)
    k = ctx.choice("checks", most)
    r = Rand(ctx, max_draws=3 * n * k)
    c = Circuit()
    for q in QS["named"][0][:n]:
        c.add_qubit(q)
    try:
        out = ps.RandomPauliSampler(k, rng=r).sample(c)
    except AssertionError as ex:
        if "too many" in str(ex):
            ctx.assume(False)
        raise
    ctx.check(len(out) == k, "as many checks as asked for")
    for o in out:
        m = o.qubit_pauli_tensor.string.map
        ctx.check(any(p != Pauli.I for p in m.values()) and set(m) <= set(c.qubits) and o.qubit_pauli_tensor.coeff == 1, "no check is the identity")
    x = ctx.real("x", 0, 1)
    ctx.check(x >= 0, "in range")
    for cls, p in ((ps.DeterministicXPauliSampler, Pauli.X), (ps.DeterministicZPauliSampler, Pauli.Z)):
        (o,) = cls().sample(c)
        t = o.qubit_pauli_tensor
        ctx.check(t.string.map == {q: p for q in c.qubits} and t.coeff == 1, "the same letter on every qubit")
    ctx.cover("sampled")


def h_optimal(ctx, cases):
    """no other choice of checks misses less"""
    n, k, words = ctx.choice("case", cases)
    qs = QS["named"][0][:n]
    c = Circuit()
    for q in qs:
        c.add_qubit(q)
    c.H(qs[0])
    pr = {w: ctx.real("p" + w, 0, 1) for w in words}
    ctx.assume(ssum(pr.values()) <= 1)
    asked = []

    class Dist:
        distribution = {QubitPauliString(map={q: P[x] for q, x in zip(qs, w)}): p for w, p in pr.items()}

    class Noise:
        def get_effective_pre_error_distribution(self, cliff_circ, **kw):
            asked.append(cliff_circ)
            return Dist()
    out = ps.OptimalPauliSampler(Noise(), k).sample(c)
    ctx.check(len(asked) >= 1 and all(a == c for a in asked), "errors of this circuit")
    ctx.check(len(out) == k, "as many checks as asked for")
    got = []
    for o in out:
        t = o.qubit_pauli_tensor
        m = {q: str(p)[-1] for q, p in t.string.map.items()}
        ctx.check(set(m) <= set(qs) and t.coeff == 1, "checks of the circuit's qubits")
        got.append("".join(m.get(q, "I") for q in qs))
    ctx.check(all(set(g) != {"I"} for g in got), "no check is the identity")

    def missed(ws):
        return ssum([p for w, p in pr.items() if not any(_anti(w, g) for g in ws)])
    best = missed(got)
    allw = ["".join(w) for w in itertools.product("IXYZ", repeat=n) if set(w) != {"I"}]
    ctx.check(land(*[best <= missed(ws) + 1e-9 for ws in itertools.combinations(allw, k)]), "no choice of as many checks misses errors of less probability")
    ctx.cover(f"{n} {k}")


# --- the method -------------------------------------------------------------------------
def h_method(ctx, m, kinds, names, letters, n_orders, least=1):
    """results are the counts of shots in which every check is zero, over the circuit's own bits"""
    k = ctx.choice("circuits", list(range(least, m + 1)))
    smp = AnySampler(ctx, 1, letters)
    circs, shots, keep, boxes = [], [], [], []
    for i in range(k):
        kind = ctx.choice(f"circuit{i}", kinds)
        boxes.append({"box": 1, "none": 0, "two": 2}[kind])
        words = {"box": "h0 cx01 rz0 -", "none": "rz0 rx1", "two": "h0 rz0 h0"}[kind].split()
        c = _make(ctx, words, names[i], tag="abc"[i])
        qs, bs = QS[names[i]]
        c.Measure(qs[0], bs[0]).Measure(qs[1], bs[1])
        circs.append(c)
        keep.append(c.copy())
        shots.append(ctx.int(f"shots{i}", 1, 10**9))
    data, ran = [], []

    def provider(c, s, j):
        bits = sorted(c.bits, key=str) if ctx.choice(f"order{j}", n_orders) == "sorted" else sorted(c.bits, key=str, reverse=True)
        outs = all_outcomes(len(bits))
        cnt = {o: ctx.int(f"n{j}_{''.join(map(str, o))}", 1, 10**6) for o in outs}
        data.append((bits, cnt))
        ran.append((c, s))
        return counts_result(cnt, bits)
    out = gen_coherent_pauli_check_mitres(StubBackend(provider), smp).run([CircuitShots(c, s) for c, s in zip(circs, shots)])
    ctx.check(len(out) == k == len(ran), "one result per circuit, each run once")
    ctx.check(len(smp.given) == sum(boxes), "checks are sampled for the Clifford gates of every circuit, which are boxed")
    for i, (o, c, kc) in enumerate(zip(out, circs, keep)):
        ctx.check(c == kc, "circuits given are not changed")
        bits, cnt = data[i]
        ctx.check(len(ran[i][0].qubits) - len(kc.qubits) == len(ran[i][0].bits) - len(kc.bits) == boxes[i], "an ancilla and a bit for each check of the circuit")
        rc, s = ran[i]
        ctx.check(eq(s, shots[i]), "the shots asked for")
        ctx.check(set(kc.bits) <= set(rc.bits) and all(_measured(rc).get(b) == q for b, q in _measured(kc).items()), "the circuit's own measurements")
        extra = [b for b in rc.bits if b not in kc.bits]
        anc = [_measured(rc)[b] for b in extra]
        a, b = _noimp(_flat(rc)), _noimp(_flat(kc))
        ctx.check(_checked_matrix_ok(ctx, a, b, list(kc.qubits), [q for q in rc.qubits if q not in kc.qubits], [0] * len(anc)), "the circuit run acts as the circuit given, with checks at zero")
        want = {}
        own = sorted(kc.bits)
        for key, n in cnt.items():
            v = dict(zip(bits, key))
            if not any(v[b] for b in extra):
                w = tuple(v[b] for b in own)
                want[w] = want.get(w, 0) + n
        got = o.get_counts(cbits=own)
        ctx.check(set(got) == set(want), "outcomes of shots with all checks zero, and no other")
        ctx.check(land(*[eq(got[w], n) for w, n in want.items()]), "the counts of shots with all checks zero")
        ctx.check(set(o.c_bits) == set(kc.bits), "results are over the circuit's own bits")
    ctx.cover("checked")


ALL1 = ["X", "Y", "Z", "I"]
ALL2 = ["".join(w) for w in itertools.product("IXYZ", repeat=2)]
SOME2 = ["XZ", "YI", "IX", "ZY", "YY"]
SOME3 = ["XZY", "IYX", "ZII"]
HARNESSES = [
    Harness("subdags", h_subdags, "2-3 wires of up to 4 alternating nodes, one crossing edge, all temporal orders, 0..12 other coloured nodes anywhere", ["grouped"],
            quick=dict(wires=[("CNC", "CNC"), ("NCNC", "NC"), ("CNC", "NC", "CN")], prefixes=[0, 5, 6], cross=[((0, 0), (1, 1)), ((1, 1), (0, 2))]),
            thorough=dict(wires=[("CNC", "CNC"), ("NCNC", "NCNC"), ("CNCN", "NCNC"), ("CNC", "CNC", "CN")], prefixes=[0, 1, 3, 5, 6, 7, 9, 12], cross=[((0, 0), (1, 1)), ((1, 1), (0, 2)), ((0, 1), (1, 2))]),
            max_paths=60000, time_budget=800),
    Harness("box", h_box, "circuits of 3 qubits and 2 bits with up to 9 gates, measurements, conditions, barriers and swaps; all angles", ["boxed"],
            quick=dict(slots=["h0 rz0 h0 m0|- h2 if1 s2", "h0|cx01 rz0|t0|zz20 cx01|px1 bar|m1|- rx1|if2 zm12", "swap h0|rz0 swap|cx12 rz2|py1 s2", "h2 s2 h2 s2 h2 s2 h0 rz0 h0 m0 if1|h1 cx12"], names=["plain", "named"], implicit=[False, True]),
            thorough=dict(slots=["h0 rz0 h0 m0|- h2 if1 s2", "h0|cx01|- rz0|t0|zz20 cx01|px1|swap|cx12 bar|m1|-|m0 rx1|if2|h1 zm12|if1", "swap h0|rz0 swap|cx12 rz2|py1 s2|h2", "h2 s2 h2 s2 h2 s2 h0|cx01 rz0|rx1 h0|h1 m0|m1 if1|h1|if2 cx12"], names=["plain", "named"], implicit=[False, True]),
            max_paths=60000, time_budget=800),
    Harness("checks", h_checks, "ten kinds of circuit with 1-2 boxes of 1-3 qubits; 1-2 checks per box, any Paulis (some on 3 qubits); any Pauli error in a box, or none", ["one", "around", "two", "swaps", "other", "suffix", "barrier", "rot", "three", "outer"],
            quick=dict(kinds=[k for k in CHECKED if k not in ("single", "triple")], names=["named"], most=2, letters={1: ALL1, 2: SOME2, 3: SOME3}, errors=["none", "Pauli"]),
            thorough=dict(kinds=[k for k in CHECKED if k not in ("single", "triple")], names=["plain", "named"], most=2, letters={1: ALL1, 2: ["XZ", "YI", "IX", "ZY", "YY", "IZ", "XX"], 3: SOME3 + ["YYZ"]}, errors=["none", "Pauli"]),
            max_paths=60000, time_budget=800),
    Harness("checks3", h_checks, "up to 3 checks on one qubit, any Paulis; three boxes, some Paulis; any Pauli error in a box, or none", ["single", "triple"],
            quick=dict(kinds=["single", "triple"], names=["named"], most=3, letters={1: ["X", "Y", "Z"], 2: ["XZ", "YI"]}, errors=["none", "Pauli"]), max_paths=60000, time_budget=800),
    Harness("random", h_random, "1-2 qubits, 1-2 checks, all draws", ["sampled"], quick=dict(sizes=[1, 2], most=[1, 2]), thorough=dict(sizes=[1, 2, 3], most=[1, 2]), max_paths=60000, time_budget=800),
    Harness("optimal", h_optimal, "1-2 qubits, 1-2 checks, arbitrary probabilities of 2-4 errors", ["1 1", "2 1", "2 2"],
            quick=dict(cases=[(1, 1, ["X", "Y", "Z", "I"]), (1, 2, ["X", "Y", "Z"]), (2, 1, ["XI", "ZZ", "YX"]), (2, 2, ["XI", "ZZ", "YX"])]),
            thorough=dict(cases=[(1, 1, ["X", "Y", "Z", "I"]), (1, 2, ["X", "Y", "Z"]), (2, 1, ["XI", "ZZ", "YX", "YY", "IZ"]), (2, 2, ["XI", "ZZ", "YX", "IY"]), (2, 3, ["XI", "ZZ", "YX"]), (3, 1, ["XIZ", "ZZI", "YXY"])]), max_paths=60000, time_budget=800),
    Harness("method", h_method, "1-2 circuits, arbitrary counts and bit orders (method3: 3)", ["checked"],
            quick=dict(m=2, kinds=["box", "none"], names=["plain", "named"], letters={1: ["X", "Y"], 2: ["XZ", "IY"], 3: ["XZY"]}, n_orders=["sorted", "reversed"]),
            thorough=dict(m=2, kinds=["box", "none", "two"], names=["plain", "named"], letters={1: ["X", "Y"], 2: ["XZ", "IY"], 3: ["XZY"]}, n_orders=["sorted", "reversed"]), max_paths=60000, time_budget=800),
    Harness("method3", h_method, "3 circuits, arbitrary counts", ["checked"],
            quick=dict(m=3, least=3, kinds=["box", "none"], names=["plain", "named", "plain"], letters={1: ["X"], 2: ["XZ"], 3: ["XZY"]}, n_orders=["sorted"]), max_paths=60000, time_budget=800),
]
