"""Q15 -- frame randomisation spreads a circuit's shots over equivalent circuits and adds their counts up."""
import itertools
from collections import Counter
from symx import engine as E
from symx.engine import eq, land, ssum
from symx.qsem import same_unitary
from symx.runner import Harness
from symx.stubs import StubBackend, counts_result, all_outcomes, patched
from pytket import Circuit, Qubit, Bit, OpType
from pytket.tailoring import PauliFrameRandomisation, UniversalFrameRandomisation
from qermit import CircuitShots, MitRes
import qermit.frame_randomisation.frame_randomisation as fr
from qermit.frame_randomisation import FrameRandomisation, gen_Frame_Randomisation_MitRes

ASSUMPTIONS = ["pytket's sampling of frames returns any of the frames that pytket enumerates for the circuit (stand-in)",
               "the circuit given may be rebased in place: an existing test relies on it"]


def _frames(ctx, cls, n_pick):
    class Stub:
        def __init__(self, *a, **k):
            self.r = cls(*a, **k)

        def sample_circuits(self, circuit, samples, *a, **k):
            allc = self.r.get_all_circuits(circuit)
            step = max(1, len(allc) // n_pick)
            picks = [(7 * i + 3) % len(allc) for i in range(0, n_pick * step, step)]
            return [allc[ctx.choice(f"frame{i}", sorted(set(picks)))].copy() for i in range(samples)]

        def get_all_circuits(self, circuit):
            return self.r.get_all_circuits(circuit)
    return Stub


def _env(ctx, n_pick):
    t = []
    for nm, cls in (("PauliFrameRandomisation", PauliFrameRandomisation), ("UniversalFrameRandomisation", UniversalFrameRandomisation)):
        if hasattr(fr, nm):
            t.append((fr, nm, _frames(ctx, cls, n_pick)))
    return patched(*t)


def _circ(ctx, kind, k, measured=True):
    qs = [Qubit("z", 2), Qubit("a", 0)] if k else [Qubit(0), Qubit(1)]
    bs = [Bit("m", 1), Bit("c", 0)] if k else [Bit(0), Bit(1)]
    c = Circuit()
    for q in qs:
        c.add_qubit(q)
    for b in bs:
        c.add_bit(b)
    a = ctx.angle(f"a{k}")
    if kind == "cx":
        c.H(qs[0]).CX(qs[0], qs[1]).Rz(a, qs[1])
    elif kind == "rot":
        c.CX(qs[1], qs[0]).Rx(a, qs[0])
    elif kind == "cz":
        c.S(qs[0]).CZ(qs[0], qs[1]).Ry(a, qs[0])
    if measured:
        for q, b in zip(qs, bs):
            c.Measure(q, b)
    return c


def _measures(c):
    return {com.bits[0]: com.qubits[0] for com in c.get_commands() if com.op.type == OpType.Measure}


FR = {"pauli": FrameRandomisation.PauliFrameRandomisation, "universal": FrameRandomisation.UniversalFrameRandomisation}


def h_circuits(ctx, m, kinds, smax, n_pick, types, measured=True):
    """frames and shots of every circuit of a batch"""
    s = ctx.choice("samples", list(range(1, smax + 1)))
    typ = ctx.choice("type", types)
    circs = [_circ(ctx, ctx.choice(f"kind{i}", kinds), i, measured) for i in range(m)]
    keep = [c.copy() for c in circs]
    shots = [ctx.int(f"shots{i}", 1, 10 ** 9) for i in range(m)]
    with _env(ctx, n_pick):
        (out,) = fr.frame_randomisation_circuits_task_gen(s, FR[typ])([[CircuitShots(c, n) for c, n in zip(circs, shots)]])
    ctx.check(len(out) == m * s, "the number of samples asked for, of every circuit")
    if len(out) == m * s:
        for i in range(m):
            mine = out[i * s:(i + 1) * s]
            for f in mine:
                ctx.check(land(s * f.Shots >= shots[i], s * (f.Shots - 1) < shots[i]), "each frame runs the requested shots divided by the samples, rounded up")
                ctx.check(same_unitary(ctx, f.Circuit, keep[i]), "each frame implements the circuit's unitary")
                ctx.check(_measures(f.Circuit) == _measures(keep[i]) and sorted(f.Circuit.bits) == sorted(keep[i].bits), "each frame measures the same qubits into the same bits")
    ctx.cover("circuits")


def h_unchanged(ctx, types):
    """the circuit given"""
    typ = ctx.choice("type", types)
    c = _circ(ctx, "cz", 0)
    keep = c.copy()
    with _env(ctx, 1):
        fr.frame_randomisation_circuits_task_gen(1, FR[typ])([[CircuitShots(c, 5)]])
    ctx.check(same_unitary(ctx, c, keep), "the circuit given keeps its unitary")
    ctx.check(_measures(c) == _measures(keep) and sorted(c.bits) == sorted(keep.bits) and sorted(c.qubits) == sorted(keep.qubits), "the circuit given keeps its qubits, bits and measurements")
    ctx.cover("unchanged")


def h_results(ctx, m, smax, nb, zero):
    """counts of the frames of one circuit are added, circuit by circuit"""
    s = ctx.choice("samples", list(range(1, smax + 1)))
    bits = [[Bit(0), Bit(1)], [Bit("m", 1), Bit("c", 0)], [Bit("c", 9), Bit("c", 10)]][:m]
    res, cnts = [], []
    for i in range(m):
        for j in range(s):
            bs = list(ctx.choice(f"order{i}_{j}", list(itertools.permutations(bits[i])))) if nb == 2 else bits[i][:1]
            outs = all_outcomes(len(bs))
            if zero:
                outs = ctx.choice(f"seen{i}_{j}", [outs, outs[:1], outs[1:], outs[-1:]])
            c = {o: ctx.int(f"n{i}_{j}_{''.join(map(str, o))}", 1, None) for o in outs}
            cnts.append((i, bs, c))
            res.append(counts_result(c, bs))
    (out,) = fr.frame_randomisation_result_task_gen(s)([res])
    ctx.check(len(out) == m, "one result for every circuit")
    if len(out) == m:
        for i in range(m):
            bs = bits[i] if nb == 2 else bits[i][:1]
            want = {}
            for k, order, c in cnts:
                if k == i:
                    for o, n in c.items():
                        key = tuple(dict(zip(order, o))[b] for b in bs)
                        want[key] = want.get(key, 0) + n
            got = out[i].get_counts(cbits=bs)
            ctx.check(set(got) == set(want), "outcomes seen in some frame, and no other")
            ctx.check(land(*[eq(got[k], v) for k, v in want.items()]), "the counts of all frames of the circuit added up, bit by bit")
    ctx.cover("results")


def h_end(ctx, m, smax, custom):
    """the whole method on a device with arbitrary counts"""
    s = ctx.choice("samples", list(range(1, smax + 1)))
    typ = ctx.choice("type", ["pauli", "universal"])
    level = {}

    def provider(c, n, k):
        bs = sorted(c.bits)
        cnt = {o: ctx.int(f"n{k}_{''.join(map(str, o))}", 1, None) for o in all_outcomes(2)}
        level[k] = (bs, cnt)
        return counts_result(cnt, bs)
    be = StubBackend(provider)
    user = MitRes(be, _label="Mine")
    mr = gen_Frame_Randomisation_MitRes(be, s, frame_randomisation=FR[typ], **({"mitres": user} if custom else {}))
    circs = [_circ(ctx, k, i) for i, k in zip(range(m), ["cz", "cx", "rot"])]
    shots = [ctx.int(f"shots{i}", 1, 1000) for i in range(m)]
    with _env(ctx, 1):
        out = mr.run([CircuitShots(c.copy(), n) for c, n in zip(circs, shots)])
    ctx.check(len(out) == m and len(be.jobs) == m * s, "one result for every circuit, from the number of samples asked for")
    if len(out) == m and len(be.jobs) == m * s:
        for i in range(m):
            ks = range(i * s, (i + 1) * s)
            bs = sorted(circs[i].bits)
            got = out[i].get_counts(cbits=bs)
            ctx.check(land(*[eq(got.get(o, 0), ssum([level[k][1][o] for k in ks])) for o in all_outcomes(2)]), "counts of the circuit's own frames")
            for k in ks:
                ctx.check(land(s * be.jobs[k][1] >= shots[i], s * (be.jobs[k][1] - 1) < shots[i]), "shots of each frame")
                ctx.check(same_unitary(ctx, be.jobs[k][0], circs[i]), "what runs implements the circuit")
    if custom:
        n0 = len(be.jobs)
        r = user.run([CircuitShots(circs[0].copy(), 7)])
        ctx.check(len(r) == 1 and len(be.jobs) == n0 + 1 and be.jobs[n0][1] == 7 and be.jobs[n0][0] == circs[0], "the method given still runs circuits as they are")
        ctx.check(not any("FR" in t._label for t in user.tasks if hasattr(t, "_label")), "the tasks of the method given keep their labels")
    ctx.cover("end")


HARNESSES = [
    Harness("circuits", h_circuits, "1 circuit of 3 kinds with an arbitrary angle, 1..2 samples (thorough 2 circuits, 3 samples), 3 (thorough 4) frames, symbolic shots up to 1e9", ["circuits"],
            quick=dict(m=1, kinds=["cx", "rot", "cz"], smax=2, n_pick=3, types=["pauli", "universal"]),
            thorough=dict(m=1, kinds=["cx", "rot", "cz"], smax=3, n_pick=5, types=["pauli", "universal"]), max_paths=60000, time_budget=800),
    Harness("batch", h_circuits, "2 circuits with arbitrary angles, 1..2 (thorough 3) samples, symbolic shots", ["circuits"],
            quick=dict(m=2, kinds=["cx", "cz"], smax=2, n_pick=1, types=["pauli", "universal"]), thorough=dict(m=2, kinds=["cx", "cz", "rot"], smax=3, n_pick=2, types=["pauli"]), max_paths=60000, time_budget=800),
    Harness("batch3", h_circuits, "3 (thorough 5) circuits with arbitrary angles, 1..3 samples, symbolic shots", ["circuits"],
            quick=dict(m=3, kinds=["rot"], smax=3, n_pick=1, types=["pauli", "universal"]), thorough=dict(m=5, kinds=["rot"], smax=3, n_pick=1, types=["pauli", "universal"])),
    Harness("shots", h_circuits, "1..7 samples (thorough 20), symbolic shots up to 1e9", ["circuits"],
            quick=dict(m=1, kinds=["rot"], smax=7, n_pick=1, types=["pauli", "universal"]), thorough=dict(m=2, kinds=["rot"], smax=20, n_pick=1, types=["pauli"])),
    Harness("unchanged", h_unchanged, "one circuit", ["unchanged"], quick=dict(types=["pauli", "universal"])),
    Harness("results", h_results, "3 circuits of 2 bits in any order, 1..2 (thorough 3) frames, symbolic counts", ["results"], quick=dict(m=3, smax=2, nb=2, zero=False), thorough=dict(m=3, smax=3, nb=2, zero=False), time_budget=800),
    Harness("results_missing", h_results, "outcomes missing from some frames", ["results"], quick=dict(m=1, smax=2, nb=2, zero=True), thorough=dict(m=2, smax=2, nb=2, zero=True), time_budget=800),
    Harness("end", h_end, "3 circuits, 1..2 (thorough 4) samples, symbolic shots and counts", ["end"], quick=dict(m=3, smax=2, custom=False), thorough=dict(m=3, smax=4, custom=False)),
    Harness("end_custom", h_end, "2 circuits, 1..2 samples, around a method given by the user", ["end"], quick=dict(m=2, smax=2, custom=True)),
]
