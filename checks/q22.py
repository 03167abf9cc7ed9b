"""Q22 -- leakage detection keeps exactly the shots in which no measured qubit leaked."""
import itertools
import math
from symx import engine as E
from symx.engine import eq, ssum
from symx.runner import Harness
from symx.stubs import StubBackend, counts_result, patched, all_outcomes
from pytket import Circuit, Bit, Qubit, OpType
from pytket.backends.resulthandle import ResultHandle
from qermit import CircuitShots, MitRes
from qermit.taskgraph import gen_compiled_MitRes
from qermit.leakage_detection import get_leakage_detection_mitres
import qermit.noise_model.mock_quantinuum_backend as mq

ASSUMPTIONS = [
    "pytket-quantinuum's leakage gadget circuit is real code run on concrete circuits; a leaked qubit is not acted on by ZZMax, and a leaked qubit reused as an ancilla reads 1",
    "every combination of leaked qubits and outcomes has a positive number of shots",
]


def _circuits(k):
    if k == "bell":
        return Circuit(2).H(0).CX(0, 1).measure_all()
    if k == "unused-bit":
        return Circuit(2, 2).H(0).CX(0, 1).Measure(0, 0)
    if k == "unmeasured":
        return Circuit(2, 2).H(0)
    if k == "mid":
        return Circuit(1, 2).H(0).Measure(0, 0).X(0).Measure(0, 1)
    if k == "named":
        c = Circuit()
        a, b = Qubit("zz", 0), Qubit("aa", 1)
        x, y = Bit("zb", 0), Bit("lb", 3)
        for q in (a, b):
            c.add_qubit(q)
        for q in (x, y, Bit("lb", 1)):
            c.add_bit(q)
        return c.Ry(0.3, a).CX(a, b).Measure(a, x).Measure(b, y)
    if k == "crossed":
        return Circuit(2, 2).X(0).Rz(0.4, 1).Measure(0, 1).Measure(1, 0)
    if k == "single":
        return Circuit(1, 1).H(0).Measure(0, 0)
    if k == "tens":
        return Circuit(2, 12).H(0).CX(0, 1).Measure(0, 10).Measure(1, 2)
    if k == "three":
        return Circuit(3, 3).H(0).CX(0, 1).CX(1, 2).Measure(2, 0).Measure(0, 2).Measure(1, 1)
    raise KeyError(k)


def _end_measures(circ):
    """{qubit: bit} of the qubits on which nothing follows the measurement"""
    out = {}
    for com in circ.get_commands():
        if com.op.type == OpType.Barrier:
            continue
        for q in com.qubits:
            out.pop(q, None)
        if com.op.type == OpType.Measure:
            out[com.qubits[0]] = com.bits[0]
    return out


def _ops(circ, q):
    return [(com.op, tuple(com.args)) for com in circ.get_commands() if q in com.qubits and com.op.type != OpType.Barrier]


def _leak_bits(ctx, circ, data, leaked, val):
    """what the additional bits of ``circ`` read, given which data qubits leaked and what the others are measured to be"""
    s2 = 1 / math.sqrt(2)
    end = {}
    anc = {}
    reads = {}
    bits = set(val)
    for com in circ.get_commands():
        t = com.op.type
        if t == OpType.Reset and com.qubits[0] not in anc:
            anc[com.qubits[0]] = [1, 0]
            continue
        on = [q for q in com.qubits if q in anc]
        if t == OpType.Barrier or not on:
            continue
        q = on[0]
        a = anc[q]
        if t == OpType.Reset:
            anc[q] = [1, 0]
        elif t == OpType.X:
            anc[q] = [a[1], a[0]]
        elif t == OpType.H:
            anc[q] = [s2 * (a[0] + a[1]), s2 * (a[0] - a[1])]
        elif t == OpType.ZZMax:
            other = [p for p in com.qubits if p != q][0]
            if other in leaked:
                continue
            # the other qubit is in the basis state it is going to be measured to be in
            z = -1 if val[data[other]] else 1
            anc[q] = [complex(math.cos(math.pi / 4), -z * math.sin(math.pi / 4)) * a[0], complex(math.cos(math.pi / 4), z * math.sin(math.pi / 4)) * a[1]]
        elif t == OpType.Measure:
            b = com.bits[0]
            if b in bits:
                continue
            p1 = abs(anc[q][1]) ** 2
            if not (p1 < 1e-6 or p1 > 1 - 1e-6):
                raise AssertionError(f"the leakage bit is random: {p1}")
            reads[b] = 1 if (p1 > 0.5 or q in leaked) else 0
        else:
            raise AssertionError(f"unexpected gate {com}")
    return reads


def h_leakage(ctx, kinds, n_circ, nodes, ways, least=1):
    m = ctx.choice("circuits", list(range(least, n_circ + 1)))
    ks = [ctx.choice(f"kind{i}", kinds if i == 0 else kinds[:3]) for i in range(m)] if least == 1 else list(ctx.choice("kinds", list(itertools.permutations(kinds, m))))
    circs = [_circuits(k) for k in ks]
    spare = ctx.choice("spare", nodes)
    n_nodes = max(c.n_qubits for c in circs) + spare
    shots = [ctx.int(f"s{i}", 1, None) for i in range(m)]
    # pytket's gadget needs a measured qubit to reuse when there is no spare one
    ctx.assume(all(n_nodes > c.n_qubits or _end_measures(c) for c in circs))
    copies = [c.copy() for c in circs]
    counts = []
    for i, c in enumerate(circs):
        used = sorted({com.bits[0] for com in c.get_commands() if com.op.type == OpType.Measure})
        tab = {}
        for lam in itertools.product((0, 1), repeat=c.n_qubits):
            for o in all_outcomes(len(used)):
                tab[lam, o] = ctx.int(f"n{i}_{''.join(map(str, lam))}_{''.join(map(str, o))}", 1, None)
        counts.append((used, tab))

    def provider(circ, s, k):
        i = k % m
        used, tab = counts[i]
        orig = copies[i]
        ctx.check(eq(s, shots[i]), "every circuit is run with its own shots")
        ctx.check(set(orig.bits) <= set(circ.bits) and set(orig.qubits).intersection(_end_measures(orig)) <= set(circ.qubits), "the circuit run has the circuit's bits and measured qubits")
        data = _end_measures(orig)
        for q in data:
            want = _ops(orig, q)[:-1]
            ctx.check(_ops(circ, q)[:len(want)] == want, "the circuit run starts with the circuit given")
        extra = sorted(set(circ.bits) - set(orig.bits))
        out = {}
        for (lam, o), n in tab.items():
            val = {b: 0 for b in orig.bits}
            val.update(dict(zip(used, o)))
            reads = _leak_bits(ctx, circ, data, {q for q, l in zip(orig.qubits, lam) if l}, val)
            ctx.check(set(reads) == set(extra), "every additional bit is measured")
            key = tuple(val[b] if b in val else reads[b] for b in circ.bits)
            out[key] = out.get(key, 0) + n
        return counts_result(out, circ.bits)

    def compile(c, lvl):
        d = c.copy()
        return d

    be = StubBackend(provider, compile=compile)

    class info:
        pass

    be.backend_info = info()
    be.backend_info.n_nodes = n_nodes
    way = ctx.choice("mitres", ways)
    if way == "default":
        mr = get_leakage_detection_mitres(be)
    elif way == "given":
        mr = get_leakage_detection_mitres(be, mitres=MitRes(be))
    else:
        mr = get_leakage_detection_mitres(be, mitres=gen_compiled_MitRes(be, optimisation_level=0))
    for rep in range(2):
        res = mr.run([CircuitShots(c, s) for c, s in zip(circs, shots)])
        ctx.check(len(res) == m, "one result per circuit")
        for i in range(m):
            orig = copies[i]
            used, tab = counts[i]
            data = _end_measures(orig)
            checked = set(data)
            if n_nodes == orig.n_qubits and len(data) == 1:
                checked = set()    # no ancilla is left to check it with
            want = {}
            for (lam, o), n in tab.items():
                if any(l and q in checked for q, l in zip(orig.qubits, lam)):
                    continue
                val = dict(zip(used, o))
                k = tuple(val.get(b, 0) for b in sorted(orig.bits))
                want[k] = want.get(k, 0) + n
            got = {tuple(k): v for k, v in res[i].get_counts(sorted(orig.bits)).items()}
            ctx.check(sorted(res[i].c_bits) == sorted(orig.bits), "the result is over exactly the circuit's bits")
            for k in set(got) | set(want):
                ctx.check(eq(got.get(k, 0), want.get(k, 0)), "exactly the shots in which no measured qubit leaked are kept")
            ctx.check(circs[i] == orig, "the circuit given is left unchanged")
            ctx.observe(f"r{rep}_{i}", {str(k): v for k, v in sorted(got.items())})
    ctx.cover("ran")


def h_noinfo(ctx):
    """a backend of unknown size can not be used"""
    x = ctx.int("x", 0, 3)
    be = StubBackend(None)
    be.backend_info = None
    try:
        get_leakage_detection_mitres(be)
    except E.PathAbort:
        raise
    except Exception:
        ctx.check(x >= 0, "refused")
        ctx.cover("refused")
        return
    ctx.check(x < 0, "a backend whose number of qubits is not known is refused")


def h_mock(ctx, m_max):
    """the mock device runs each circuit with its own shots, and every handle gives its own results"""
    m = ctx.choice("circuits", list(range(1, m_max + 1)))
    counts = [{o: ctx.int(f"n{i}_{o[0]}", 1, None) for o in all_outcomes(1)} for i in range(m)]
    shots = [ctx.int(f"s{i}", 1, None) for i in range(m)]
    angle = [0.25, 0.5, 0.75, 1.25]
    circs = [Circuit(1, 1).add_gate(OpType.PhasedX, [angle[i], 0.3], [0]).Measure(0, 0) for i in range(m)]
    copies = [c.copy() for c in circs]
    same = ctx.choice("same", [False, True])
    opts = ctx.choice("options", [{}, {"timeout": 3}])
    got_opts = []
    real = mq.NoisyAerBackend(4, 0, 0, 0)

    def provider(circ, s, k):
        want = shots[0] if same else shots[k]
        ctx.check(eq(s, want), "every circuit is run with its own shots")
        u, v = circ.copy(), copies[k].copy()
        for c in (u, v):
            c.remove_blank_wires()
        a = _unitary(u)
        b = _unitary(v)
        ctx.check(abs(abs(sum(x.conjugate() * y for x, y in zip(a, b))) - 1) < 1e-6, "the circuit run prepares the state of the circuit given")
        return counts_result(counts[k], circ.bits)

    class Noisy(StubBackend):
        noisy_gate_set = mq.NoisyAerBackend.noisy_gate_set

        def __init__(self, *a):
            super().__init__(provider)

        def default_compilation_pass(self, optimisation_level=2):
            return real.default_compilation_pass(optimisation_level)

        def process_circuits(self, circuits, n_shots=None, **kw):
            return [ResultHandle(str(h[1])) for h in super().process_circuits(circuits, n_shots, **kw)]

        def get_result(self, handle, **kw):
            got_opts.append(kw)
            return super().get_result(("handle", int(handle[0])))

    with patched((mq, "NoisyAerBackend", Noisy)):
        be = mq.MockQuantinuumBackend()
        if same:
            hs = be.process_circuits(circs, n_shots=shots[0], valid_check=ctx.choice("check", [False, True]))
        else:
            hs = be.process_circuits(circs, n_shots=list(shots), valid_check=False)
        ctx.check(len(hs) == m, "one handle per circuit")
        for k in ctx.choice("order", list(itertools.permutations(range(m)))):
            r = be.get_result(hs[k], **opts)
            got = {tuple(o): v for o, v in r.get_counts().items()}
            for o in all_outcomes(1):
                ctx.check(eq(got.get(o, 0), counts[k][o]), "every handle gives its own circuit's results")
            ctx.check(got_opts[-1] == opts, "options are passed on")
        ctx.check(circs == copies, "the circuits given are left unchanged")
    ctx.cover("ran")


def _unitary(c):
    d = Circuit()
    for q in c.qubits:
        d.add_qubit(q)
    for com in c.get_commands():
        if com.op.type not in (OpType.Measure, OpType.Barrier):
            d.add_gate(com.op, com.qubits)
    return list(d.get_statevector())


K = ["bell", "unused-bit", "mid", "named", "crossed", "single", "unmeasured"]
HARNESSES = [
    Harness("leakage", h_leakage, "batches of up to 2 (thorough 3) of 7 (8) circuits on up to 2 (3) qubits, 0-3 spare qubits, any positive counts for every combination of leaked qubits and outcomes, all shots", ["ran"],
            quick=dict(kinds=K, n_circ=2, nodes=[2, 0, 1], ways=["default", "given", "compiled"]),
            thorough=dict(kinds=K + ["three"], n_circ=3, nodes=[2, 0, 1, 3], ways=["default", "given", "compiled"]),
            max_paths=60000),
    Harness("batch", h_leakage, "batches of 3 (thorough 4) circuits on 1 or 2 qubits in any order, two of the 12 bits of one used", ["ran"],
            quick=dict(kinds=["tens", "crossed", "single"], n_circ=3, least=3, nodes=[1], ways=["default", "given"]),
            thorough=dict(kinds=["tens", "crossed", "single", "named"], n_circ=4, least=3, nodes=[0, 1], ways=["default", "given"]),
            max_paths=60000, time_budget=800),
    Harness("noinfo", h_noinfo, "-", ["refused"]),
    Harness("mock", h_mock, "up to 3 (thorough 4) circuits, all counts, shots and retrieval orders", ["ran"], quick=dict(m_max=3), thorough=dict(m_max=4)),
]
