"""Q12 -- error distributions are sampled, scaled, mixed, stored and post-selected exactly."""
import itertools
import math
from collections import Counter
from fractions import Fraction
import numpy as np
from symx import engine as E
from symx.engine import eq, land, lor, lnot, implies, ssum
from symx.rand import Rand
from symx.runner import Harness
from symx.shims import _has_sym
from symx.stubs import patched
from symx.phys import qps, PAULI
from pytket import Qubit, OpType
from pytket.pauli import Pauli, QubitPauliString, QubitPauliTensor
import qermit.noise_model.noise_model as nm
from qermit.noise_model.noise_model import ErrorDistribution, LogicalErrorDistribution, NoiseModel
from qermit.noise_model.qermit_pauli import QermitPauli

ASSUMPTIONS = [
    "error rates are exact reals; rates of at most 1e-6 may be dropped by scaling (as documented in the code)",
    "fractional_matrix_power of a diagonal matrix with positive entries is the entrywise power (stand-in, symbolic mode only)",
    "a generator's uniform draw is an arbitrary real in [0, 1)",
]
ALL = {n: [t for t in itertools.product([PAULI[c] for c in "IXYZ"], repeat=n)] for n in (1, 2)}
EPS = Fraction(2, 10 ** 6)


def _ident(n):
    return tuple([Pauli.I] * n)


def _key(w):
    return tuple(PAULI[c] for c in w)


def _rates(ctx, keys, name="p", total=1, strict=True):
    out = {}
    for i, k in enumerate(keys):
        out[k] = ctx.real(f"{name}{i}", 0, 1)
    ctx.assume(ssum(list(out.values())) <= total)
    return out


def _mpow(m, t):
    """stand-in: diagonal matrices only"""
    if not _has_sym(m):
        return _real_fmp(m, t)
    a = np.asarray(m, dtype=object)
    n = a.shape[0]
    out = np.zeros((n, n)).astype(object)
    for i in range(n):
        for j in range(n):
            assert i == j or not E.is_sym(a[i, j]) and a[i, j] == 0
        v = a[i, i]
        if isinstance(t, int) or float(t).is_integer():
            r = 1
            for _ in range(int(t)):
                r = r * v
        else:
            assert t == 0.5
            r = v.sqrt() if E.is_sym(v) else math.sqrt(v)
        out[i, i] = r
    return out


import scipy.linalg
_real_fmp = scipy.linalg.fractional_matrix_power


def _powers(ctx):
    if not ctx.symbolic:
        return patched()
    return patched(*[(m, "fractional_matrix_power", _mpow) for m in (nm, scipy.linalg) if hasattr(m, "fractional_matrix_power")])


def _sign(a, b):
    c = sum(1 for x, y in zip(a, b) if x != Pauli.I and y != Pauli.I and x != y)
    return -1 if c % 2 else 1


def _fidelities(rates, n):
    ide = 1 - ssum(list(rates.values()))
    return {q: ide + ssum([_sign(q, e) * p for e, p in rates.items()]) for q in ALL[n]}


def _mul(a, b):
    out = []
    for x, y in zip(a, b):
        if x == Pauli.I:
            out.append(y)
        elif y == Pauli.I:
            out.append(x)
        elif x == y:
            out.append(Pauli.I)
        else:
            out.append(next(p for p in (Pauli.X, Pauli.Y, Pauli.Z) if p not in (x, y)))
    return tuple(out)


def _full(rates, n):
    d = {q: rates.get(q, 0) for q in ALL[n]}
    d[_ident(n)] = 1 - ssum([p for e, p in rates.items() if e != _ident(n)])
    return d


def _compose(a, b, n):
    out = {q: 0 for q in ALL[n]}
    for x, p in a.items():
        for y, q in b.items():
            if (not E.is_sym(p) and p == 0) or (not E.is_sym(q) and q == 0):
                continue
            k = _mul(x, y)
            out[k] = out[k] + p * q
    return out


def _same_dist(got, want, n, eps=EPS):
    """same probability for every error but the identity, up to dropped negligible rates"""
    ok = []
    for q in ALL[n]:
        if q == _ident(n):
            continue
        g, w = got.get(q, 0), want.get(q, 0)
        d = g - w
        if q in got:
            ok.append(land(d <= Fraction(1, 10**9), -d <= Fraction(1, 10**9)))
        else:
            ok.append(land(w <= eps, -w <= eps))
    return land(*ok)


def h_sample(ctx, n, keys, repeats=1):
    """every error is drawn with exactly its own rate"""
    keys = [_key(w) for w in ctx.choice("order", list(itertools.permutations(keys)))]
    p = _rates(ctx, keys)
    ctx.assume(land(*[v > 0 for v in p.values()]))
    rng, other = Rand(ctx, "u"), Rand(ctx, "g")
    first = Rand(ctx, "f")
    if ctx.choice("reset", [False, True]):
        d = ErrorDistribution(dict(p), rng=first)
        m = NoiseModel({OpType.CX: d})
        m.reset_rng(rng)
    else:
        d = ErrorDistribution(dict(p), rng=rng)
    got = []
    with other.installed():
        for _ in range(2):
            k0 = len(rng.draws)
            r = d.sample()
            got.append((r, rng.draws[k0:]))
    ctx.check(not other.draws and not first.draws and all(x[1] for x in got), "only the given generator is used")
    none = 1 - ssum(list(p.values()))
    (a, da), (b, db) = got
    ctx.check(a is None or a in p, "a sample is one of the errors, or None")
    if a == b and da and db:
        rate = none if a is None else p[a]
        if da[0][0] == "unit" and len(da) == 1 and len(db) == 1:
            u, v = da[0][1], db[0][1]
            # sets of draws of diameter at most the rate, for each of exhaustive outcomes whose rates sum to 1: each has measure equal to its rate
            ctx.check(land(u - v <= rate, v - u <= rate), "draws giving the same error are at most its rate apart")
        elif da[0][0] in ("choice", "choices"):
            w, i = da[0][2], da[0][3]
            i = i[0] if isinstance(i, list) else i
            ctx.check(eq(w[i] / ssum(list(w)) if da[0][0] == "choices" else w[i], rate), "the weight of an error is its rate")
        ctx.cover("same")
    ctx.cover("sample")


def h_build(ctx, n, keys):
    """identity rate, refusals, PTM and its inverse"""
    keys = [_key(w) for w in keys]
    p = {k: ctx.real(f"p{i}", 0, 1) for i, k in enumerate(keys)}
    s = ssum(list(p.values()))
    try:
        d = ErrorDistribution(dict(p))
        ok = True
    except Exception as ex:
        if isinstance(ex, (E.PathAbort, E.Inconclusive)):
            raise
        ok = False
    tol = Fraction(1, 10 ** 6)
    if not ok:
        ctx.check(s > 1, "rates that sum to at most 1 are accepted")
        ctx.cover("refused")
        return
    ctx.check(s <= 1 + tol, "rates that sum to more than 1 are refused")
    ctx.assume(s <= 1)
    ctx.check(eq(d.identity_error_rate, 1 - s), "the identity rate is what the errors leave")
    ctx.check(d.n_qubits == n, "number of qubits")
    ptm, index = d.to_ptm()
    want = _fidelities(p, n)
    ctx.check(set(index) == set(ALL[n]) and sorted(index.values()) == list(range(4 ** n)), "every Pauli has its own row")
    ctx.check(land(*[eq(ptm[index[a]][index[b]], want[a] if a == b else 0) for a in ALL[n] for b in ALL[n]]), "transfer matrix: diagonal of signed sums of rates")
    back = ErrorDistribution.from_ptm(ptm, index)
    ctx.check(_same_dist(back.distribution, _full(p, n), n), "the transfer matrix gives back the rates")
    # any numbering of the Paulis
    perm = list(ALL[n])[::-1]
    idx2 = {q: i for i, q in enumerate(perm)}
    m2 = np.zeros((4 ** n, 4 ** n)).astype(object if ctx.symbolic else float)
    for q in perm:
        m2[idx2[q], idx2[q]] = want[q]
    back2 = ErrorDistribution.from_ptm(m2, idx2)
    ctx.check(_same_dist(back2.distribution, _full(p, n), n), "rates from a transfer matrix with the Paulis numbered in another order")
    ctx.check(d.distribution == p and list(d.distribution) == keys, "the distribution is not changed")
    ctx.cover("ptm")


def h_scale(ctx, n, keys, factors, model=False):
    """scaling by k is the k-fold channel"""
    keys = [_key(w) for w in keys]
    k = ctx.choice("factor", factors)
    p = _rates(ctx, keys)
    if k == 0.5:
        ctx.assume(ssum(list(p.values())) <= Fraction(2, 5))
    d = ErrorDistribution(dict(p))
    with _powers(ctx):
        if model:
            m = NoiseModel({OpType.CZ: d, OpType.H: ErrorDistribution({})}).scale(k)
            ctx.check(set(m.noise_model) == {OpType.CZ, OpType.H} and m.noise_model[OpType.H].distribution == {}, "scaling keeps the gates of a noise model")
            s = m.noise_model[OpType.CZ]
        else:
            s = d.scale(k)
    one = _full(p, n)
    if k == 0.5:
        got = _full(s.distribution, n)
        # only where the exact half channel is a channel
        half = {q: f for q, f in _fidelities(s.distribution, n).items()}
        true = {q: (f.sqrt() if E.is_sym(f) else math.sqrt(f)) for q, f in _fidelities(p, n).items()}
        rate = {e: ssum([_sign(e, q) * true[q] for q in ALL[n]]) / 4 ** n for e in ALL[n]}
        ctx.assume(land(*[r >= 0 for r in rate.values()]))
        ctx.check(_same_dist(s.distribution, rate, n), "scaling by one half gives the channel whose square is the given one")
    else:
        want = {_ident(n): 1}
        for _ in range(int(k)):
            want = _compose(want, one, n)
        ctx.check(_same_dist(s.distribution, want, n), "scaling by k gives the channel applied k times")
    ctx.check(land(*[eq(d.distribution[x], p[x]) for x in keys]), "the given distribution is not changed")
    ctx.cover("scale")


def h_mixture(ctx, n, m, keysets):
    """mean of the rates; ordering; storage; equality"""
    ds, ps = [], []
    for i in range(m):
        keys = [_key(w) for w in ctx.choice(f"keys{i}", keysets)]
        p = _rates(ctx, keys, name=f"p{i}_")
        ps.append(p)
        ds.append(ErrorDistribution(dict(p)))
    mix = ErrorDistribution.mixture(ds)
    allk = set().union(*[set(p) for p in ps])
    ctx.check(set(mix.distribution) == allk, "a mixture contains the errors of all distributions")
    ctx.check(land(*[eq(mix.distribution[k] * m, ssum([p.get(k, 0) for p in ps])) for k in allk]), "a mixture has the mean of the rates")
    ctx.check(all(d.distribution.keys() == p.keys() for d, p in zip(ds, ps)), "the mixed distributions are not changed")
    # storage
    back = ErrorDistribution.from_dict(ds[0].to_dict())
    ctx.check(list(back.distribution.items()) == list(ps[0].items()), "storage keeps errors and rates")
    model = NoiseModel({OpType.CX: ds[0], OpType.H: ds[-1]})
    again = NoiseModel.from_dict(model.to_dict())
    ctx.check(list(again.noise_model) == [OpType.CX, OpType.H] and again.noisy_gates == [OpType.CX, OpType.H], "storage keeps the gates of a noise model")
    ctx.check(land(*[eq(again.get_error_distribution(g).distribution[k], v) for g, p in ((OpType.CX, ps[0]), (OpType.H, ps[-1])) for k, v in p.items()]),
              "storage keeps the rates of a noise model")
    # equality
    e = ds[0] == ds[1]
    close = set(ps[0]) == set(ps[1]) and land(*[land(ps[0][k] - ps[1][k] <= Fraction(1, 100), ps[1][k] - ps[0][k] <= Fraction(1, 100)) for k in ps[0]])
    ctx.check(bool(e) == bool(close) if not ctx.symbolic else eq(bool(e), close), "equal exactly when errors match and rates are within 0.01")
    # order
    rev = ctx.choice("reverse", [True, False])
    d = ErrorDistribution(dict(mix.distribution))
    d.order(reverse=rev)
    vs = list(d.distribution.values())
    ctx.check(land(set(d.distribution) == allk, *[eq(d.distribution[k], mix.distribution[k]) for k in allk]), "ordering keeps the rates")
    ctx.check(land(*[(a >= b if rev else a <= b) for a, b in zip(vs, vs[1:])]), "ordering sorts by rate")
    ctx.cover("mixture")


def h_postselect(ctx, n, m, ws):
    """logical error counts: distribution and post-selection"""
    qs = [Qubit(1), Qubit("a", 3), Qubit(0)][:n]
    errs = []
    for i in range(m):
        w = ctx.choice(f"w{i}", ws)
        c = ctx.choice(f"c{i}", [1, -1, 1j])
        errs.append((w, c))
    ctx.assume(len(set(errs)) == m)
    cnt = {e: ctx.int(f"n{i}", 1, None) for i, e in enumerate(errs)}
    free = ctx.int("free", 0, None)
    total = ssum(list(cnt.values())) + free
    given = ctx.choice("total", ["given", "default"])
    if given == "default":
        ctx.assume(free == 0)
    counter = Counter()
    for (w, c), k in cnt.items():
        counter[QermitPauli(QubitPauliTensor(string=qps(w, qs), coeff=c))] = k
    d = LogicalErrorDistribution(counter, total=total) if given == "given" else LogicalErrorDistribution(counter)
    strings = {}
    for (w, c), k in cnt.items():
        strings[qps(w, qs)] = strings.get(qps(w, qs), 0) + k
    dist = d.distribution
    ctx.check(set(dist) == set(strings), "the distribution has the strings that occurred")
    ctx.check(land(*[eq(dist[s] * total, k) for s, k in strings.items()]), "probabilities are counts over shots, phases ignored")
    sub = ctx.choice("subset", [list(s) for r in range(n + 1) for s in itertools.combinations(qs, r)])
    keep, kept = {}, free
    for (w, c), k in cnt.items():
        if any(w[qs.index(q)] in "XY" for q in sub):
            continue
        s = QubitPauliString({q: PAULI[w[i]] for i, q in enumerate(qs) if q not in sub})
        keep[s] = keep.get(s, 0) + k
        kept = kept + k
    ctx.assume(kept > 0)
    ps = d.post_select(list(sub))
    pd = ps.distribution
    ctx.check(eq(ps.total, kept), "post-selection keeps the shots without measurable error on the listed qubits")
    ctx.check(set(pd) == set(keep), "post-selected errors, on the remaining qubits")
    ctx.check(land(*[eq(pd[s] * kept, k) for s, k in keep.items()]), "post-selected probabilities are conditional")
    ctx.check(land(eq(d.total, total), len(d.pauli_error_counter) == m, *[eq(d.pauli_error_counter[q], counter[q]) for q in counter]), "the given distribution is not changed")
    ctx.cover("postselect")


def h_mismatch(ctx):
    a = ctx.choice("a", ["X", "XZ"])
    b = ctx.choice("b", ["Y", "ZZ", "XYZ"])
    p, q = ctx.real("p", 0, 1), ctx.real("q", 0, 1)
    ctx.assume(p + q <= 1)
    try:
        ErrorDistribution({_key(a): p, _key(b): q})
        ok = True
    except Exception as ex:
        ok = False
    ctx.check(ok == (len(a) == len(b)), "errors on different numbers of qubits are refused")
    bad = ctx.choice("bad", ["dim", "shape", "size", "offdiag"])
    m = {"dim": np.ones(4), "shape": np.eye(4)[:3], "size": np.eye(8), "offdiag": np.eye(4) + np.array([[0, 0, 0, 0], [0, 0, .1, 0], [0] * 4, [0] * 4])}[bad]
    try:
        ErrorDistribution.from_ptm(m, {(x,): i for i, x in enumerate([Pauli.I, Pauli.X, Pauli.Y, Pauli.Z])})
        ok = True
    except Exception:
        ok = False
    ctx.check(not ok, "matrices that are not transfer matrices of Pauli channels are refused")
    ctx.cover("refuse")


def h_equal(ctx):
    """models are equal if they have the same gates, with the same errors at (about) the same rates"""
    sets = [["XI", "ZY"], ["ZY", "XI"], ["ZY"], []]
    rates = []

    def dist(t, ks):
        r = {_key(w): ctx.real(f"{t}{w}", 0, 1) for w in ks}
        for v in r.values():
            ctx.assume(land(v > Fraction(1, 20), v < Fraction(2, 5)))
        rates.append(r)
        return ErrorDistribution(dict(r))
    gates = {}
    for t in "ab":
        gs = ctx.choice(f"gates_{t}", [[OpType.CX], [OpType.CX, OpType.CZ], [OpType.CZ, OpType.CX], [OpType.CZ]])
        gates[t] = {g: dist(f"{t}{g.name}", ctx.choice(f"keys_{t}_{g.name}", sets if g == OpType.CX else sets[:1])) for g in gs}
    ra, rb = [{g: dict(d.distribution) for g, d in gates[t].items()} for t in "ab"]
    a, b = NoiseModel(dict(gates["a"])), NoiseModel(dict(gates["b"]))
    same = a == b
    same = bool(same)
    ctx.check(same == bool(b == a), "equality goes both ways")
    alike = set(ra) == set(rb) and all(set(ra[g]) == set(rb[g]) for g in ra)
    if not alike:
        ctx.check(not same, "models with other gates or other errors are not equal")
        ctx.cover("other")
        return
    diffs = [(ra[g][e], rb[g][e]) for g in ra for e in ra[g]]
    tol = Fraction(2, 100)
    if same:
        ctx.check(land(*[land(x - y <= tol, y - x <= tol) for x, y in diffs]), "equal models have about the same rates")
        ctx.cover("equal")
    else:
        small = Fraction(1, 1000)
        ctx.check(E.lor(*[E.lor(x - y > small, y - x > small) for x, y in diffs]) if diffs else False, "models with the same rates are equal")
        ctx.cover("rates")


K1 = ["X", "Y", "Z"]
HARNESSES = [
    Harness("sample", h_sample, "2 (thorough 3) errors in any order, symbolic rates and draws", ["sample", "same"], quick=dict(n=2, keys=["XI", "ZY", "YZ"]), thorough=dict(n=2, keys=["XI", "ZY", "IZ", "YY"])),
    Harness("build1", h_build, "1 qubit, all three errors, symbolic rates", ["ptm", "refused"], quick=dict(n=1, keys=["Z", "X", "Y"])),
    Harness("build1i", h_build, "1 qubit, identity listed among the errors", ["ptm", "refused"], quick=dict(n=1, keys=["I", "X", "Y"])),
    Harness("build2", h_build, "2 qubits, 2 (thorough 4) errors, symbolic rates", ["ptm", "refused"], quick=dict(n=2, keys=["XZ", "YI"]), thorough=dict(n=2, keys=["XZ", "YI", "ZZ", "IX"]), time_budget=800),
    Harness("scale1", h_scale, "1 qubit, three errors, factors 0,1,2 (thorough 3)", ["scale"], quick=dict(n=1, keys=K1, factors=[0, 1, 2]), thorough=dict(n=1, keys=K1, factors=[0, 1, 2, 3]), time_budget=800),
    Harness("scale2", h_scale, "2 qubits, two errors, factors 1,2 (thorough 3)", ["scale"], quick=dict(n=2, keys=["XZ", "YI"], factors=[1, 2]), thorough=dict(n=2, keys=["XZ", "YI"], factors=[1, 2, 3]), time_budget=800),
    Harness("scale_half", h_scale, "1 qubit, two errors, factor 1/2", ["scale"], quick=dict(n=1, keys=["X"], factors=[0.5]), thorough=dict(n=1, keys=["X", "Z"], factors=[0.5]), time_budget=800),
    Harness("scale_model", h_scale, "noise model of two gates, factors 0,1,2", ["scale"], quick=dict(n=1, keys=["X", "I"], factors=[0, 1, 2], model=True)),
    Harness("mixture", h_mixture, "2 distributions of 1 or 2 errors (thorough 3 distributions)", ["mixture"], quick=dict(n=2, m=2, keysets=[["XI", "ZY"], ["ZY"], ["IZ", "XI"]]),
            thorough=dict(n=2, m=3, keysets=[["XI", "ZY"], ["ZY"], ["IZ", "XI"]]), max_paths=60000, time_budget=800),
    Harness("postselect", h_postselect, "2 (thorough 3) logical errors with any phases on 2 qubits, all post-selected sets, symbolic counts", ["postselect"],
            quick=dict(n=2, m=2, ws=["XI", "ZX", "ZI", "IY", "ZZ"]), thorough=dict(n=3, m=2, ws=["XII", "ZXI", "ZIY", "IIY", "ZZI", "IZX", "IXI"]), max_paths=60000, time_budget=800),
    Harness("postselect3", h_postselect, "2 (thorough 3) logical errors with any phases on 3 qubits, all post-selected sets, symbolic counts", ["postselect"],
            quick=dict(n=3, m=2, ws=["XZI", "ZIY", "IZZ"]), thorough=dict(n=3, m=3, ws=["XZI", "ZIY", "IZZ"]), max_paths=60000, time_budget=800),
    Harness("equal", h_equal, "two models of up to 2 gates and 2 errors, symbolic rates", ["other", "equal", "rates"]),
    Harness("refuse", h_mismatch, "mismatched errors; malformed transfer matrices", ["refuse"]),
]
