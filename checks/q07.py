"""Q07 -- post-selection keeps exactly the shots whose post-selection bits are all zero."""
import itertools
from symx import engine as E
from symx.engine import eq, ssum, land
from symx.runner import Harness
from symx.stubs import StubBackend, counts_result, sym_counts, shots_result
from pytket import Circuit, Bit, Qubit
from qermit import CircuitShots, MitRes
from qermit.postselection import PostselectMgr, gen_postselect_mitres

ASSUMPTIONS = ["there is at least one computation bit"]


def _counts(result):
    """counts of a result by bit; a result that holds nothing has none"""
    try:
        return {tuple(k): v for k, v in result.get_counts().items()}
    except Exception:
        return {}


def _roles(ctx, n, tag=""):
    """disjoint ordered lists of computation and post-selection bits"""
    bits = [[Bit(i) for i in range(n)], [Bit(0), Bit(1), Bit("anc", 0), Bit("anc", 1)][:n], [Bit(9), Bit(10), Bit(2), Bit(11)][:n]][ctx.choice("names" + tag, [0, 1, 2])]
    role = [ctx.choice(f"role{tag}{i}", ["c", "p", "-"]) for i in range(n)]
    comp = [b for b, r in zip(bits, role) if r == "c"]
    post = [b for b, r in zip(bits, role) if r == "p"]
    ctx.assume(len(comp) > 0)
    if ctx.choice("rev" + tag, [False, True]):
        comp.reverse()
        post.reverse()
    return bits, comp, post


def _expected(bits, comp, post, counts, keep_all):
    """{frozenset of (bit, value) over computation bits: number of shots}"""
    out = {}
    for o, n in counts.items():
        val = dict(zip(bits, o))
        if not keep_all and any(val[b] for b in post):
            continue
        k = tuple(val[b] for b in sorted(comp))
        out[k] = out.get(k, 0) + n
    return out


def _compare(ctx, res, comp, want):
    got = _counts(res)
    total = ssum(got.values())
    if got:
        ctx.check(sorted(res.c_bits) == sorted(comp), "the result is over exactly the computation bits")
    for k in set(got) | set(want):
        ctx.check(eq(got.get(k, 0), want.get(k, 0)), "each outcome keeps exactly its surviving shots")
    ctx.check(eq(total, ssum(want.values())), "no shot is invented or lost")


def h_counts(ctx, n, lo):
    bits, comp, post = _roles(ctx, n)
    counts = sym_counts(ctx, "n", n, lo=lo)
    ctx.assume(ssum(counts.values()) >= 1)
    order = ctx.choice("order", [tuple(range(n)), tuple(reversed(range(n)))])
    res = counts_result({tuple(o[i] for i in order): v for o, v in counts.items()}, [bits[i] for i in order])
    mgr = PostselectMgr(compute_cbits=list(comp), postselect_cbits=list(post))
    if ctx.choice("merge", [False, True]):
        r = mgr.merge_result(res)
        _compare(ctx, r, comp, _expected(bits, comp, post, counts, True))
        ctx.cover("merged")
    else:
        r = mgr.postselect_result(res)
        _compare(ctx, r, comp, _expected(bits, comp, post, counts, False))
        ctx.cover("postselected")
    ctx.check(len(mgr.compute_cbits) == len(comp) and mgr.compute_cbits == comp and mgr.postselect_cbits == post, "the manager keeps its bits")
    ctx.observe("counts", {str(k): v for k, v in sorted(_counts(r).items())})


def h_shots(ctx, n, rows_max):
    """results holding a shot table, including ones where nothing survives"""
    bits, comp, post = _roles(ctx, n)
    m = ctx.choice("rows", list(range(1, rows_max + 1)))
    rows = [tuple(ctx.choice(f"b{i}_{j}", [0, 1]) for j in range(n)) for i in range(m)]
    counts = {}
    for r in rows:
        counts[r] = counts.get(r, 0) + 1
    res = shots_result(rows, bits)
    mgr = PostselectMgr(compute_cbits=list(comp), postselect_cbits=list(post))
    want = _expected(bits, comp, post, counts, False)
    _compare(ctx, mgr.postselect_result(res), comp, want)
    _compare(ctx, mgr.merge_result(res), comp, _expected(bits, comp, post, counts, True))
    _compare(ctx, mgr.postselect_result(res), comp, want)
    if not want:
        ctx.cover("nothing survives")


def h_overlap(ctx, n):
    comp = [Bit(i) for i in range(n) if ctx.choice(f"c{i}", [0, 1])]
    post = [Bit(i) for i in range(n) if ctx.choice(f"p{i}", [0, 1])]
    ctx.assume(comp)
    try:
        m = PostselectMgr(list(comp), list(post))
    except E.PathAbort:
        raise
    except Exception:
        ctx.check(set(comp) & set(post), "disjoint bits are accepted")
        ctx.cover("rejected")
        return
    ctx.check(not set(comp) & set(post), "a bit can not have both roles")


def h_mitres(ctx, n_circ):
    """every circuit of a batch gets its own post-selected result, in its place"""
    k = ctx.choice("circuits", list(range(1, n_circ + 1)))
    bits = [Bit(0), Bit(1)]
    # bits which have neither role are not in the results
    wide = ctx.choice("wide", list(range(-1, k)))
    all_bits = [bits + [Bit("z", 3)] if i == wide else bits for i in range(k)]
    counts = [sym_counts(ctx, f"n{i}", len(all_bits[i]), lo=1) for i in range(k)]
    circs = []
    for i in range(k):
        c = Circuit(2, 2, name=f"c{i}")
        c.Measure(0, 0).Measure(1, 1)
        for b in all_bits[i][2:]:
            c.add_bit(b)
            c.Measure(Qubit(0), b)
        circs.append(c)
    shots = [ctx.int(f"s{i}", 1, None) for i in range(k)]

    def provider(c, s, j):
        i = int(c.name[1:])
        ctx.check(eq(s, shots[i]), "every circuit is run with its own shots")
        return counts_result(counts[i], all_bits[i])

    be = StubBackend(provider)
    swap = ctx.choice("swap", [False, True])
    comp, post = ([Bit(0)], [Bit(1)]) if not swap else ([Bit(1)], [Bit(0)])
    mgr = PostselectMgr(comp, post)
    mr = gen_postselect_mitres(be, mgr, mitres=MitRes(be)) if ctx.choice("own", [False, True]) else gen_postselect_mitres(be, mgr)
    for rep in range(2):
        res = mr.run([CircuitShots(c, s) for c, s in zip(circs, shots)])
        ctx.check(len(res) == k, "one result per circuit")
        for i in range(k):
            _compare(ctx, res[i], comp, _expected(all_bits[i], comp, post, counts[i], False))
    ctx.cover("ran")


HARNESSES = [
    Harness("counts", h_counts, "3 bits (thorough 4) in any roles and names, any positive counts", ["merged", "postselected"], quick=dict(n=3, lo=1), thorough=dict(n=4, lo=1)),
    Harness("zero_counts", h_counts, "2 bits, any counts including zero (thorough 3 bits)", ["merged", "postselected"], quick=dict(n=2, lo=0), thorough=dict(n=3, lo=0), max_paths=80000, time_budget=800),
    Harness("shots", h_shots, "2 bits, 1..2 shots (thorough 3 shots), any table", ["nothing survives"], quick=dict(n=2, rows_max=2), thorough=dict(n=2, rows_max=4)),
    Harness("overlap", h_overlap, "roles of 2 bits (thorough 3)", ["rejected"], quick=dict(n=2), thorough=dict(n=3)),
    Harness("mitres", h_mitres, "batches of 1..3 circuits run twice (thorough 4), one of which may have a bit of neither role", ["ran"], quick=dict(n_circ=3), thorough=dict(n_circ=4), stubs=["backend: any counts"]),
]
