"""Q08 -- readout correction inverts the readout noise it has characterised."""
import itertools
from fractions import Fraction as F
import z3
from symx import engine as E
from symx.engine import eq, ssum, land, SymReal
from symx.runner import Harness
from symx.stubs import StubBackend, counts_result
from collections import Counter
from pytket import Circuit, Bit, Qubit, OpType
from pytket.circuit import Node
from qermit import CircuitShots, MitRes
from types import SimpleNamespace
from pytket.architecture import Architecture
from qermit.spam import gen_FullyCorrelated_SPAM_MitRes, gen_UnCorrelated_SPAM_MitRes, CorrectionMethod

ASSUMPTIONS = ["every outcome has non-zero (arbitrarily small) ideal weight",
               "readout noise acts on the given blocks of qubits by stochastic, invertible matrices, the same in calibration and experiment",
               "calibration counts are exact outcome frequencies",
               "where only part of a block is measured, the noise of that block factorises between measured and unmeasured qubits",
               "counts are rounded up to whole shots by the code, so results are compared to within one shot per outcome",
               "iterative Bayesian correction is decided exactly where it converges in two steps (uniform ideal distribution, or no noise) and within 0.002 for one qubit"]
N_SHOTS = 10**9


def _real(ctx, x):
    """an exact constant that keeps arithmetic exact in symbolic runs"""
    return SymReal(z3.RealVal(str(x))) if ctx.symbolic and not E.is_sym(x) else x


def _mat1(ctx, kind, k):
    """2x2 stochastic matrix m[measured][prepared]"""
    if kind == "sym":
        a, b = ctx.real(f"a{k}", 0, 1), ctx.real(f"b{k}", 0, 1)
        ctx.assume(E.lor(a + b < F(9, 10), a + b > F(11, 10)))
    else:
        a, b = [(F(1, 10), F(1, 5)), (F(1, 4), F(1, 20)), (F(3, 10), F(1, 8))][k % 3]
    return {((0,), (0,)): 1 - a, ((1,), (0,)): a, ((0,), (1,)): b, ((1,), (1,)): 1 - b}


def _mat2(ctx, k):
    cols = [[(70, 15, 10, 5), (20, 60, 5, 15), (10, 2, 80, 8), (1, 9, 20, 70)],
            [(80, 5, 5, 10), (3, 77, 15, 5), (30, 5, 60, 5), (12, 13, 5, 70)]][k % 2]
    st = list(itertools.product((0, 1), repeat=2))
    return {(st[i], st[j]): F(cols[j][i], 100) for i in range(4) for j in range(4)}


def _kron(m, n):
    return {(a + c, b + d): v * w for (a, b), v in m.items() for (c, d), w in n.items()}


def _block(ctx, size, kind, k):
    if size == 1:
        return _mat1(ctx, kind, k)
    if kind == "product":
        m = _kron(_mat1(ctx, "num", k), _mat1(ctx, "num", k + 1))
        return m if size == 2 else _kron(m, _mat1(ctx, "num", k + 2))
    if size == 3:
        # the third qubit's errors depend on the state of the first two
        m = _mat2(ctx, k)
        return {(a + c, b + d): v * _mat1(ctx, "num", sum(b))[c, d] for (a, b), v in m.items() for c in ((0,), (1,)) for d in ((0,), (1,))}
    return _mat2(ctx, k)


class NoisyReadout:
    def __init__(self, blocks, mats):
        self.blocks, self.mats = blocks, mats

    def transition(self, measured, prepared):
        """probability of reading `measured` ({node: bit}, possibly partial) when `prepared` is there"""
        p = 1
        for b, m in zip(self.blocks, self.mats):
            if not any(q in measured for q in b):
                continue
            t = 0
            prep = tuple(prepared.get(q, 0) for q in b)
            for o in itertools.product((0, 1), repeat=len(b)):
                if all(measured.get(q, v) == v for q, v in zip(b, o)):
                    t = t + m[(o, prep)]
            p = p * t
        return p


def _prepared(c):
    """basis state of a circuit made of X gates, and its readout map"""
    st = {q: 0 for q in c.qubits}
    bits = {}
    for com in c.get_commands():
        if com.op.type == OpType.X:
            assert com.qubits[0] not in bits.values()
            st[com.qubits[0]] ^= 1
        elif com.op.type == OpType.Measure:
            bits[com.bits[0]] = com.qubits[0]
        else:
            assert com.op.type in (OpType.Barrier, OpType.noop), com.op.type
    return st, bits


def _exact_counts(ctx, dist, bits, plain=False):
    return counts_result({o: (_real(ctx, p) * N_SHOTS if ctx.symbolic and not plain else round(float(p) * N_SHOTS)) for o, p in dist.items()}, bits)


def _backend(ctx, noise, nodes, placement, exps, log, plain=False):
    def comp(c, lvl):
        d = c.copy()
        if all(q.reg_name == "q" and q not in nodes for q in d.qubits):
            d.rename_units({Qubit(i): nodes[placement[i]] for i in range(d.n_qubits)})
        return d

    def provider(c, s, j):
        name = c.name or ""
        if name.startswith("exp"):
            ideal, where, bits = exps[int(name[3:])]
            log.append("exp")
            dist = {}
            for o in itertools.product((0, 1), repeat=len(bits)):
                t = 0
                for i, p in ideal.items():
                    t = t + p * ssum_prod(noise, where, bits, o, i)
                dist[o] = t
            return counts_result({o: p * N_SHOTS if ctx.symbolic else int(round(float(p) * N_SHOTS)) for o, p in dist.items()}, bits)
        log.append("cal")
        st, bm = _prepared(c)
        bits = sorted(bm)
        dist = {o: noise.transition({bm[b]: v for b, v in zip(bits, o)}, st) for o in itertools.product((0, 1), repeat=len(bits))}
        return _exact_counts(ctx, dist, bits, plain)

    return StubBackend(provider, comp)


def ssum_prod(noise, where, bits, o, i):
    """probability of reading o instead of i: final readouts jointly, mid-circuit readouts on their own"""
    fin = [(where[b][0], x, y) for b, x, y in zip(bits, o, i) if where[b][1] == "final"]
    p = noise.transition({q: x for q, x, _ in fin}, {q: y for q, _, y in fin})
    for b, x, y in zip(bits, o, i):
        if where[b][1] == "mid":
            p = p * noise.transition({where[b][0]: x}, {where[b][0]: y})
    return p


def _ideal(ctx, name, n):
    outs = list(itertools.product((0, 1), repeat=n))
    ps = [ctx.real(f"{name}_{''.join(map(str, o))}", 0, 1) for o in outs[:-1]]
    ps.append(1 - ssum(ps))
    ctx.assume(land(*[p > 0 for p in ps]))
    return dict(zip(outs, ps))


def _close(ctx, got, ideal, bits, cbits):
    """got: {outcome over cbits: count}; ideal over bits"""
    for o, p in ideal.items():
        val = dict(zip(bits, o))
        c = got.get(tuple(val[b] for b in cbits), 0)
        tol = F(1, 10**6) if ctx.symbolic else N_SHOTS / 10**5
        ctx.check(land(p * N_SHOTS - tol <= c, c <= p * N_SHOTS + 1 + tol), "the corrected counts are the ideal counts (rounded up)")


CORR = {
    2: [[[0], [1]], [[1], [0]], [[0, 1]], [[1, 0]]],
    3: [[[0], [1, 2]], [[1, 2], [0]], [[2, 0], [1]], [[2], [0, 1]], [[0], [1], [2]]],
}


def h_correct(ctx, n, measured_opts, kinds, corr):
    nodes = [Node(i) for i in range(n)]
    blocks = [[nodes[i] for i in b] for b in ctx.choice("correlations", corr)]
    measured = ctx.choice("measured", measured_opts)        # list of node indices in bit order
    kind = ctx.choice("kind", kinds)
    mats, used_sym = [], False
    for k, b in enumerate(blocks):
        part = 0 < sum(nodes.index(q) in measured for q in b) < len(b)
        kd = "product" if part and len(b) > 1 else ("sym" if kind == "sym" and not used_sym and len(b) == 1 else "num")
        used_sym = used_sym or kd == "sym"
        mats.append(_block(ctx, len(b), kd, k))
    noise = NoisyReadout(blocks, mats)
    bits = [Bit(i) for i in range(len(measured))]
    placement = list(range(n)) if ctx.choice("placement", [0, 1]) == 0 else list(reversed(range(n)))
    exp = Circuit(n, len(measured), name="exp0")
    for b, q in enumerate(measured):
        exp.Measure(placement.index(q), b)
    keep = exp.copy()
    ideal = _ideal(ctx, "p", len(measured))
    log = []
    where = {b: (nodes[q], "final") for b, q in zip(bits, measured)}
    be = _backend(ctx, noise, nodes, placement, {0: (ideal, where, bits)}, log)
    mr = gen_FullyCorrelated_SPAM_MitRes(be, N_SHOTS, [list(b) for b in blocks])
    shots = ctx.int("shots", 1, 10**6)
    (res,) = mr.run([CircuitShots(exp, shots)])
    _close(ctx, {tuple(k): v for k, v in res.get_counts(bits).items()}, ideal, bits, bits)
    ctx.check(sorted(res.c_bits) == sorted(bits), "the corrected result is over the measured bits")
    ctx.check(exp == keep, "the caller's circuit is unchanged")
    ctx.check(all(eq(s, shots) if c.name == "exp0" else s == N_SHOTS for c, s in be.jobs), "calibration and experiment run with their own shots")
    ncal = log.count("cal")
    ctx.check(ncal == 2 ** max(len(b) for b in blocks), "one calibration circuit per basis state of the largest block")
    ctx.cover("corrected")


def h_matrix(ctx):
    """any noise matrix (one column symbolic at a time)"""
    node = Node(0)
    x = ctx.real("x", 0, 1)
    y = ctx.choice("y", [F(0), F(1, 10), F(1, 3)])
    a, b = (x, y) if ctx.choice("column", [0, 1]) else (y, x)
    ctx.assume(x + y <= F(9, 10))
    m = {((0,), (0,)): 1 - a, ((1,), (0,)): a, ((0,), (1,)): b, ((1,), (1,)): 1 - b}
    p = ctx.choice("p", [F(1, 2), F(1, 3), F(9, 10)])
    ideal = {(0,): p, (1,): 1 - p}
    exp = Circuit(1, 1, name="exp0").Measure(0, 0)
    log = []
    be = _backend(ctx, NoisyReadout([[node]], [m]), [node], [0], {0: (ideal, {Bit(0): (node, "final")}, [Bit(0)])}, log)
    mr = gen_FullyCorrelated_SPAM_MitRes(be, N_SHOTS, [[node]])
    (res,) = mr.run([CircuitShots(exp, 5)])
    _close(ctx, {tuple(k): v for k, v in res.get_counts([Bit(0)]).items()}, ideal, [Bit(0)], [Bit(0)])
    ctx.cover("corrected")


# blocks, qubits measured mid-circuit, qubits measured at the end
MID = [(b, (q,), (q,)) for b in ([[0], [1]], [[1], [0]], [[0, 1]], [[1, 0]]) for q in (0, 1)] + [
    ([[0, 1]], (0, 1), ()), ([[1, 0]], (1, 0), (0,)), ([[0], [1]], (1, 0), ()), ([[0, 1, 2]], (1,), (1,)), ([[2, 0, 1]], (0,), (1,)), ([[1], [2, 0]], (0, 2), ())]


def h_mid(ctx, cases):
    """qubits measured mid-circuit: every readout is corrected, with the noise of its own qubit"""
    corr, mids, finals = ctx.choice("case", cases)
    n = sum(map(len, corr))
    nodes = [Node(i) for i in range(n)]
    blocks = [[nodes[i] for i in b] for b in corr]
    mats = [_block(ctx, len(b), "product" if len(b) > 1 else "num", k) for k, b in enumerate(blocks)]
    noise = NoisyReadout(blocks, mats)
    bits = [Bit(i) for i in range(len(mids) + len(finals))]
    exp = Circuit(n, len(bits), name="exp0")
    where = {}
    for b, q in zip(bits, mids):
        exp.Measure(Qubit(q), b)
        exp.X(q)
        where[b] = (nodes[q], "mid")
    for b, q in zip(bits[len(mids):], finals):
        exp.Measure(Qubit(q), b)
        where[b] = (nodes[q], "final")
    ideal = _ideal(ctx, "p", len(bits))
    log = []
    be = _backend(ctx, noise, nodes, list(range(n)), {0: (ideal, where, bits)}, log)
    mr = gen_FullyCorrelated_SPAM_MitRes(be, N_SHOTS, blocks)
    (res,) = mr.run([CircuitShots(exp, 10)])
    _close(ctx, {tuple(k): v for k, v in res.get_counts(bits).items()}, ideal, bits, bits)
    ctx.cover("corrected")


def h_batch(ctx, n_circ):
    """batches: every circuit is corrected with its own bit map; the characterisation is reused"""
    nodes = [Node(0), Node(1)]
    blocks = [[nodes[0]], [nodes[1]]] if ctx.choice("corr", [0, 1]) else [[nodes[1], nodes[0]]]
    mats = [_block(ctx, len(b), "num", k) for k, b in enumerate(blocks)]
    noise = NoisyReadout(blocks, mats)
    exps, circs = {}, []
    for i in range(n_circ):
        order = ctx.choice(f"order{i}", [(0, 1), (1, 0)] if len(blocks) == 1 else [(0, 1), (1, 0), (0,), (1,)])
        c = Circuit(2, name=f"exp{i}")
        bits = [[Bit(0), Bit(1)], [Bit(10), Bit(9)], [Bit("b", 2), Bit("a", 10)]][i % 3][: len(order)]
        for b, q in zip(bits, order):
            c.add_bit(b)
            c.Measure(Qubit(q), b)
        exps[i] = (_ideal(ctx, f"p{i}", len(order)), {b: (nodes[q], "final") for b, q in zip(bits, order)}, bits)
        circs.append(c)
    log = []
    be = _backend(ctx, noise, nodes, [0, 1], exps, log)
    mr = gen_FullyCorrelated_SPAM_MitRes(be, N_SHOTS, blocks)
    for rep in range(2):
        del log[:]
        res = mr.run([CircuitShots(c, 5) for c in circs])
        ctx.check(len(res) == n_circ, "one result per circuit")
        for i, r in enumerate(res):
            ideal, where, bits = exps[i]
            _close(ctx, {tuple(k): v for k, v in r.get_counts(bits).items()}, ideal, bits, bits)
        ctx.check(log.count("cal") == (2 ** max(map(len, blocks)) if rep == 0 else 0), "the device is characterised once")
    ctx.cover("corrected")


def h_clip(ctx):
    """Invert: whatever the counts, the corrected counts are those of a distribution, and outcomes
    predicted with non-negative weight keep their relative weight"""
    node = Node(0)
    mats = [_mat1(ctx, "num", 0)]
    noise = NoisyReadout([[node]], mats)
    n0, n1 = ctx.int("n0", 0, 400), ctx.int("n1", 0, 400)
    ctx.assume(n0 + n1 >= 1)
    exp = Circuit(1, 1, name="exp0").Measure(0, 0)
    log = []
    be = _backend(ctx, noise, [node], [0], {}, log)
    be.provider = lambda c, s, j, old=be.provider: counts_result({(0,): n0, (1,): n1}, [Bit(0)]) if c.name == "exp0" else old(c, s, j)
    mr = gen_FullyCorrelated_SPAM_MitRes(be, N_SHOTS, [[node]])
    (res,) = mr.run([CircuitShots(exp, 5)])
    g = {tuple(k): v for k, v in res.get_counts([Bit(0)]).items()}
    c0, c1 = g.get((0,), 0), g.get((1,), 0)
    tot = n0 + n1
    ctx.check(land(c0 >= 0, c1 >= 0, c0 + c1 >= tot, c0 + c1 <= tot + 2), "corrected counts are counts of the same number of shots (rounded up)")
    m = mats[0]
    # invert: v1 = ((1-a) n1 - a n0) / (1-a-b), clipped to 0..tot
    a, b = m[((1,), (0,))], m[((0,), (1,))]
    v1 = ((1 - a) * n1 - a * n0) / (1 - a - b)
    lo = E.ite(v1 < 0, 0, E.ite(v1 > tot, tot, v1)) if ctx.symbolic else min(max(v1, 0), tot)
    e = F(1, 10**6)
    ctx.check(land(c1 >= lo - e, c1 <= lo + 1 + e), "negative weights are set to zero and the rest rescaled")
    ctx.cover("any counts")


def h_bayes(ctx):
    node = Node(0)
    mode = ctx.choice("mode", ["uniform", "no noise"])
    if mode == "uniform":
        mats = [_mat1(ctx, "sym", 0)]
        ideal = {(0,): F(1, 2), (1,): F(1, 2)}
        a, b = mats[0][((1,), (0,))], mats[0][((0,), (1,))]
        ctx.assume(land(1 - a + b >= F(1, 100), 1 - b + a >= F(1, 100)))
    else:
        mats = [{((0,), (0,)): F(1), ((1,), (0,)): F(0), ((0,), (1,)): F(0), ((1,), (1,)): F(1)}]
        p = ctx.real("p", F(1, 100), F(99, 100))
        ideal = {(0,): p, (1,): 1 - p}
    noise = NoisyReadout([[node]], mats)
    exp = Circuit(1, 1, name="exp0").Measure(0, 0)
    log = []
    be = _backend(ctx, noise, [node], [0], {0: (ideal, {Bit(0): (node, "final")}, [Bit(0)])}, log)
    mr = gen_FullyCorrelated_SPAM_MitRes(be, N_SHOTS, [[node]], correction_method=CorrectionMethod.Bayesian)
    (res,) = mr.run([CircuitShots(exp, 5)])
    _close(ctx, {tuple(k): v for k, v in res.get_counts([Bit(0)]).items()}, ideal, [Bit(0)], [Bit(0)])
    ctx.cover("corrected")


def h_uncorrelated(ctx, n, methods):
    """every qubit of the device on its own; calibration and experiment through methods of the user's"""
    nodes = [Node("q", i) for i in range(n)]
    blocks = [[q] for q in nodes]
    mats = [_mat1(ctx, "num", k) for k in range(n)]
    noise = NoisyReadout(blocks, mats)
    order = ctx.choice("measured", [m for k in range(1, n + 1) for m in itertools.permutations(range(n), k)])
    bits = [Bit(i) for i in range(len(order))]
    exp = Circuit(n, len(order), name="exp0")
    for b, q in enumerate(order):
        exp.Measure(q, b)
    exps = {0: (_ideal(ctx, "p", len(order)), {b: (nodes[q], "final") for b, q in zip(bits, order)}, bits)}
    arch = Architecture([(nodes[i], nodes[j]) for i in range(n) for j in range(i)] or [(nodes[0], nodes[0])])
    be, cal, cor = [_backend(ctx, noise, nodes, list(range(n)), exps, []) for _ in range(3)]
    for x in (be, cal, cor):
        x.backend_info = SimpleNamespace(architecture=arch)
    given = ctx.choice("given", methods)
    kw = {}
    if "calibration" in given:
        kw["calibration_mitres"] = MitRes(cal)
    if "correction" in given:
        kw["correction_mitres"] = MitRes(cor)
    mr = gen_UnCorrelated_SPAM_MitRes(be, N_SHOTS, **kw)
    shots = ctx.int("shots", 1, 10**6)
    (res,) = mr.run([CircuitShots(exp, shots)])
    _close(ctx, {tuple(k): v for k, v in res.get_counts(bits).items()}, exps[0][0], bits, bits)
    runs = [(x, c.name, s) for x in (be, cal, cor) for c, s in x.jobs]
    ctx.check(sum(1 for x, m, s in runs if m != "exp0") == 2, "two circuits characterise the device")
    ctx.check(all(x is (cal if "calibration" in given else be) and s == N_SHOTS for x, m, s in runs if m != "exp0"), "calibration is run by the method given for it")
    ctx.check([x is (cor if "correction" in given else be) and eq(s, shots) for x, m, s in runs if m == "exp0"] == [True], "circuits are run by the method given for them")
    ctx.cover("corrected")


def h_bayes_iterates(ctx, cases, blocks):
    """the iterative method ends at the distribution which the noise turns into the counts"""
    nodes = [Node(0), Node(1)]
    bl = [[nodes[i] for i in b] for b in ctx.choice("blocks", blocks)]
    noise = NoisyReadout(bl, [_block(ctx, len(b), "num", k) for k, b in enumerate(bl)])
    order = ctx.choice("measured", [(0, 1), (1, 0)])
    bits = [Bit(0), Bit(1)]
    exp = Circuit(2, 2, name="exp0")
    for b, q in enumerate(order):
        exp.Measure(q, b)
    ideal = dict(zip(itertools.product((0, 1), repeat=2), [F(x, 100) for x in ctx.choice("ideal", cases)]))
    be = _backend(ctx, noise, nodes, [0, 1], {}, [], plain=True)
    where = {b: (nodes[q], "final") for b, q in zip(bits, order)}
    cnt = {o: int(round(float(sum(p * ssum_prod(noise, where, bits, o, i) for i, p in ideal.items())) * N_SHOTS)) for o in itertools.product((0, 1), repeat=2)}
    be.provider = lambda c, s, j, old=be.provider: counts_result(cnt, bits) if c.name == "exp0" else old(c, s, j)
    mr = gen_FullyCorrelated_SPAM_MitRes(be, N_SHOTS, bl, correction_method=CorrectionMethod.Bayesian)
    shots = ctx.int("shots", 1, 10**6)
    (res,) = mr.run([CircuitShots(exp, shots)])
    ctx.check(any(eq(s, shots) for c, s in be.jobs if c.name == "exp0"), "the circuit runs with its own shots")
    got = {tuple(k): v for k, v in res.get_counts(bits).items()}
    for o, p in ideal.items():
        ctx.check(abs(float(got.get(o, 0)) / N_SHOTS - float(p)) <= 2e-3, "the iteration ends near the ideal distribution")
    ctx.cover("converged")


HARNESSES = [
    Harness("matrix", h_matrix, "1 qubit, any noise matrix with det >= 0.1 one column at a time, three ideal distributions", ["corrected"], query_timeout_ms=60000),
    Harness("correct2", h_correct, "2 qubits, all block structures, full and partial measurement in any order, two placements, fixed generic 2x2 or 4x4 noise matrices, any ideal distribution", ["corrected"],
            quick=dict(n=2, measured_opts=[(0, 1), (1, 0), (0,), (1,)], kinds=["num"], corr=CORR[2]), query_timeout_ms=60000),
    Harness("correct3", h_correct, "3 qubits, blocks of different sizes in any order, fixed generic noise, any ideal distribution", ["corrected"],
            quick=dict(n=3, measured_opts=[(0, 1, 2), (2, 0)], kinds=["num"], corr=CORR[3]),
            thorough=dict(n=3, measured_opts=[(0, 1, 2), (2, 0, 1), (2, 0), (1,)], kinds=["num"], corr=CORR[3]), query_timeout_ms=60000),
    Harness("correct4", h_correct, "4 qubits in two pairs, or in blocks of 1, 2 and 1, fixed generic noise, any ideal distribution", ["corrected"],
            quick=dict(n=4, measured_opts=[(0, 1, 2, 3), (3, 0, 2)], kinds=["num"], corr=[[[2, 0], [1, 3]], [[3], [0, 2], [1]]]), query_timeout_ms=60000),
    Harness("block3", h_correct, "3 correlated qubits (thorough: and a fourth), of which one or two are measured, fixed generic noise, any ideal distribution", ["corrected"],
            quick=dict(n=3, measured_opts=[(0, 1), (2, 0), (1, 2), (0,), (1,)], kinds=["num"], corr=[[[0, 1, 2]], [[2, 0, 1]]]),
            thorough=dict(n=4, measured_opts=[(3, 1), (2, 0), (1, 3, 2), (0, 3)], kinds=["num"], corr=[[[3], [0, 1, 2]], [[2, 0, 3], [1]]]), query_timeout_ms=60000),
    Harness("mid", h_mid, "one or two qubits (thorough three) measured mid-circuit, in blocks of up to three, fixed generic noise", ["corrected"], query_timeout_ms=60000,
            quick=dict(cases=MID), thorough=dict(cases=MID + [([[0, 1, 2]], (2, 0), (1,)), ([[2, 0, 1]], (1, 2, 0), ()), ([[1], [2, 0]], (0, 2), (1,))]), time_budget=800),
    Harness("batch", h_batch, "batches of 3 circuits on bits of any name and number, run twice", ["corrected"], quick=dict(n_circ=3), time_budget=800, max_paths=60000),
    Harness("clip", h_clip, "one qubit, counts up to 400, fixed noise", ["any counts"]),
    Harness("uncorrelated", h_uncorrelated, "2 qubits (thorough 3), any measured in any order, methods given or default, fixed generic noise, any ideal distribution and shots", ["corrected"],
            quick=dict(n=2, methods=["", "calibration", "correction", "calibration correction"]), thorough=dict(n=3, methods=["", "calibration correction"]), query_timeout_ms=60000),
    Harness("bayes_iterates", h_bayes_iterates, "2 qubits, fixed noise and three ideal distributions (thorough five), block structures, any shots; the iteration's end is compared to within 0.002", ["converged"],
            quick=dict(cases=[(40, 30, 20, 10), (10, 15, 5, 70), (25, 5, 35, 35)], blocks=[[[0], [1]], [[1], [0]], [[1, 0]]]),
            thorough=dict(cases=[(40, 30, 20, 10), (10, 15, 5, 70), (25, 5, 35, 35), (97, 1, 1, 1), (1, 49, 49, 1)], blocks=CORR[2])),
    Harness("bayes", h_bayes, "one qubit, the two cases where the iteration converges at once", ["corrected"]),
]
