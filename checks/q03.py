"""Q03 -- splitting a job into capped batches runs every requested shot exactly once."""
import itertools
from collections import Counter
from symx import engine as E
from symx.engine import eq, land, ssum
from symx.runner import Harness
from symx.stubs import StubBackend, shots_result
from pytket import Circuit, Bit
from qermit import CircuitShots, MitRes
from qermit.taskgraph.mitres import split_shots_task_gen, group_shots_task_gen, gen_shot_split_MitRes
from qermit.taskgraph.mitex import gen_compiled_MitRes, gen_compiled_shot_split_MitRes
from qermit.taskgraph.mitres import backend_compile_circuit_shots_task_gen, backend_handle_task_gen, backend_res_task_gen

ASSUMPTIONS = ["every request asks for at least one shot, and max_shots >= 1"]


def _circs(n, same=False):
    out = []
    for i in range(n):
        c = Circuit(1, 2, name="same" if same else f"c{i}")
        c.X(0)
        for _ in range(0 if same else i):
            c.X(0)
        c.Measure(0, 0)
        out.append(c)
    return out


def h_split(ctx, n_max, ratio):
    n = ctx.choice("n", list(range(1, n_max + 1)))
    mx = ctx.int("max_shots", 1, 10**6)
    circs = _circs(n)
    shots = []
    for i in range(n):
        s = ctx.int(f"shots{i}", 1, None)
        ctx.assume(s <= ratio * mx)
        shots.append(s)
    wires, index = split_shots_task_gen(mx)([[CircuitShots(c, s) for c, s in zip(circs, shots)]])
    ctx.check(len(wires) == len(index), "one index per job")
    for w in wires:
        ctx.check(land(w.Shots >= 1, w.Shots <= mx), "every job asks for 1..max_shots shots")
    ctx.check(all(0 <= int(i) < n for i in index), "indices name requests")
    for i in range(n):
        mine = [w for w, j in zip(wires, index) if j == i]
        ctx.check(eq(ssum([w.Shots for w in mine]), shots[i]), "the jobs of a request add up to its shots")
        ctx.check(all(w.Circuit == circs[i] for w in mine), "the jobs of a request run its circuit")
    if any(w.Shots == mx for w in wires):
        ctx.cover("full job")
    ctx.observe("shots", [w.Shots for w in wires])
    ctx.observe("index", [int(i) for i in index])


def h_group(ctx, n_jobs, n_shots, n_bits, named=False):
    """merging keeps every shot, in its circuit's result"""
    k = ctx.choice("jobs", list(range(1, n_jobs + 1)))
    idx = [0]
    for j in range(1, k):
        idx.append(idx[-1] + ctx.choice(f"next{j}", [0, 1]))
    rows, results = [], []
    bits = [Bit("m", 1), Bit("c", 0)][:n_bits] if named else [Bit(b) for b in range(n_bits)]
    for j in range(k):
        mine = list(ctx.choice(f"order{j}", list(itertools.permutations(bits))))
        m = ctx.choice(f"m{j}", list(range(1, n_shots + 1)))
        t = [[ctx.choice(f"b{j}_{s}_{b}", [0, 1]) for b in range(n_bits)] for s in range(m)]
        rows.append([[dict(zip(mine, x))[b] for b in bits] for x in t])
        results.append(shots_result(t, mine))
    (merged,) = group_shots_task_gen()([results, idx])
    ctx.check(len(merged) == idx[-1] + 1, "one merged result per request")
    for i, r in enumerate(merged):
        want = Counter(tuple(x) for t, a in zip(rows, idx) if a == i for x in t)
        ctx.check(dict(r.get_counts(bits)) == dict(want), "a merged result holds exactly the shots of its jobs")
    ctx.cover("merged")


def h_end_to_end(ctx, n_max, m_max, ratio, levels=(None,)):
    """MitRes built from splitting (after compilation): each request gets back exactly its own shots, in request order"""
    lvl = ctx.choice("level", list(levels))
    n = ctx.choice("n", list(range(1, n_max + 1)))
    mx = ctx.int("max_shots", 1, m_max)
    same = ctx.choice("same", [False, True])
    circs = _circs(n, same)
    shots = [ctx.int(f"shots{i}", 1, ratio * m_max) for i in range(n)]
    for s in shots:
        ctx.assume(s <= ratio * mx)
    bits = [Bit(0), Bit(1)]
    hist = []

    def provider(c, s, k):
        # every shot of job k reads a pattern that depends on the job, so shots can be traced
        s = int(s)
        rows = [[(k + j) % 2, (k // 2) % 2] for j in range(s)]
        hist.append((k, c, s, rows))
        return shots_result(rows, bits)

    def comp(c, level):
        d = c.copy()
        d.name = f"{c.name}@{level}"
        return d

    be = StubBackend(provider, comp)
    if lvl is None:
        mr = gen_shot_split_MitRes(be, mx)
    elif lvl == "default":
        mr, lvl = gen_compiled_shot_split_MitRes(be, mx), 1
    else:
        mr = gen_compiled_shot_split_MitRes(be, mx, lvl)
    res = mr.run([CircuitShots(c, s) for c, s in zip(circs, shots)])
    ctx.check(len(res) == n, "one result per request")
    ctx.check(all(bool(s <= mx) for _, s in be.jobs), "no job exceeds max_shots")
    pos = 0
    for i in range(n):
        s_i = int(shots[i])
        want, tot = Counter(), 0
        while tot < s_i:
            ctx.check(pos < len(be.jobs), "every requested shot is run")
            c, s = be.jobs[pos]
            ctx.check(c == circs[i] if lvl is None else c.get_commands() == circs[i].get_commands(), "jobs run in request order")
            ctx.check(lvl is None or c.name == f"{circs[i].name}@{lvl}", "circuits are compiled at the level asked for")
            tot += int(s)
            want.update(tuple(r) for r in hist[pos][3])
            pos += 1
        ctx.check(tot == s_i, "no request runs more shots than asked")
        ctx.check(dict(res[i].get_counts(bits)) == dict(want), "each request gets back exactly its own shots")
        ctx.check(sum(res[i].get_counts(bits).values()) == s_i, "each request gets back the number of shots it asked for")
    ctx.check(pos == len(be.jobs), "no further job is run")
    ctx.cover("ran")


def h_mitres(ctx, n_max):
    """plain MitRes: circuits, shots and results stay paired through compile / submit / retrieve"""
    n = ctx.choice("n", list(range(0, n_max + 1)))
    circs = _circs(n)
    shots = [ctx.int(f"shots{i}", 1, None) for i in range(n)]
    marks = {}

    def provider(c, s, k):
        marks[k] = (c, s)
        return ("result", k)

    def comp(c, lvl):
        d = c.copy()
        d.name = f"{c.name}@{lvl}"
        return d

    be = StubBackend(provider, comp)
    lvl = ctx.choice("lvl", [0, 1, 2])
    how = ctx.choice("how", ["prepend", "gen", "default"])
    if how == "prepend":
        mr = MitRes(be)
        mr.prepend(backend_compile_circuit_shots_task_gen(be, lvl))
    elif how == "gen":
        mr = gen_compiled_MitRes(be, lvl)
    else:
        mr, lvl = gen_compiled_MitRes(be), 1
    res = mr.run([CircuitShots(c, s) for c, s in zip(circs, shots)])
    ctx.check(len(res) == n, "one result per circuit")
    for i in range(n):
        c, s = marks[res[i][1]]
        ctx.check(c.name == f"c{i}@{lvl}", "result i belongs to circuit i compiled at the requested level")
        ctx.check(eq(s, shots[i]), "circuit i is run with its own shots")
    for a, b in zip(circs, _circs(n)):
        ctx.check(a == b, "the caller's circuits are unchanged")
    ctx.cover("ran")


HARNESSES = [
    Harness("split", h_split, "1..3 requests (thorough 4), max_shots in 1..10^6, each request up to 3 (thorough 4) times max_shots; larger ratios are outside",
            ["full job"], quick=dict(n_max=3, ratio=3), thorough=dict(n_max=4, ratio=4)),
    Harness("group", h_group, "1..3 jobs of 1..2 shots of 1 bit (thorough: 4 jobs), any bit values", ["merged"], quick=dict(n_jobs=3, n_shots=2, n_bits=1), thorough=dict(n_jobs=4, n_shots=2, n_bits=1)),
    Harness("group_order", h_group, "1..2 jobs (thorough 3) of 1 shot of 2 named bits, listed in any order in each job's result, any bit values", ["merged"], quick=dict(n_jobs=2, n_shots=1, n_bits=2, named=True), thorough=dict(n_jobs=3, n_shots=1, n_bits=2, named=True), max_paths=60000, time_budget=800),
    Harness("end_to_end", h_end_to_end, "1..2 requests (thorough 3), max_shots 1..3, up to 3 times max_shots", ["ran"], quick=dict(n_max=2, m_max=3, ratio=3), thorough=dict(n_max=3, m_max=3, ratio=3), stubs=["backend: arbitrary traceable results per job"]),
    Harness("compiled", h_end_to_end, "1 request (thorough 2), compilation levels 0, 2 and default, max_shots 1..2, up to 3 times max_shots", ["ran"], quick=dict(n_max=1, m_max=2, ratio=3, levels=[0, 2, "default"]),
            thorough=dict(n_max=2, m_max=2, ratio=3, levels=[0, 1, 2, "default"]), stubs=["backend: opaque handles; every job's shots are recorded"], max_paths=60000, time_budget=800),
    Harness("mitres", h_mitres, "0..4 circuits (thorough 6), any shots", ["ran"], quick=dict(n_max=4), thorough=dict(n_max=6), stubs=["backend: opaque handles and results"]),
]
