"""Q20 -- spectral filtering."""
import itertools
import math
from collections import defaultdict
from fractions import Fraction
import numpy as np
import sympy
import z3
from symx import engine as E
from symx.engine import eq, land, lor, lnot, ssum, ite, SymReal, SymComplex
from symx.runner import Harness
from symx.shims import value_of, sympy_to_sym, root_of_unity
from symx.stubs import StubBackend, counts_result
from symx.phys import qps
from pytket import Circuit, Qubit, OpType
from pytket.circuit import Node
from pytket.passes import RenameQubitsPass
from pytket.utils import QubitPauliOperator
import qermit.spectral_filtering.spectral_filtering as sf
from qermit.spectral_filtering import SmallCoefficientSignalFilter, gen_spectral_filtering_MitEx
from qermit.spectral_filtering.signal_filter import SignalFilter
from qermit import MitEx, MitRes, ObservableExperiment, AnsatzCircuit, ObservableTracker, SymbolsDict

ASSUMPTIONS = ["magnitudes of Fourier coefficients differ from the filter's threshold by more than 1e-6",
               "Fourier transforms and interpolation are their mathematical definitions (library code)",
               "float rounding of the transforms is below 1e-6"]
A, B, C = sympy.symbols("alpha beta gamma")
Q = [Qubit(i) for i in range(4)]


def _num(ctx, v):
    return sympy.sympify(v) if ctx.symbolic else v


def _fr(ctx, x):
    return (Fraction(x) if not isinstance(x, Fraction) else x) if ctx.symbolic else float(x)


def _near(a, b, tol=1e-6):
    d = a - b
    return land(d <= tol, d >= -tol)


def _parts(x):
    x = value_of(x)
    if isinstance(x, (SymComplex, complex, np.complexfloating)):
        return x.real, x.imag
    return x, 0


def _cnear(x, re, im=0, tol=1e-6):
    a, b = _parts(x)
    return land(_near(a, re, tol), _near(b, im, tol))


def _arr(shape, f):
    out = np.empty(shape, dtype=object)
    for i in itertools.product(*map(range, shape)):
        out[i] = f(i)
    return out


def _grid(ctx, shape, name, lo=-1, hi=1):
    """arbitrary values on a grid; as proxies or as an ordinary array"""
    v = {i: ctx.real(name + "_" + "".join(map(str, i)), lo, hi) for i in itertools.product(*map(range, shape))}
    return v


def _as_array(ctx, shape, v, dtype=float):
    a = _arr(shape, lambda i: v[i])
    return a if ctx.symbolic else a.astype(dtype)


# --- reference: Fourier coefficients, by definition ------------------------------------
def _coef(ctx, shape, v, k, sign=-1):
    """sum over the grid of value times exp(sign 2 pi i k.m / n): (re, im)"""
    re, im = [], []
    for m in itertools.product(*map(range, shape)):
        c, s = Fraction(1), Fraction(0)
        for a, b, n in zip(k, m, shape):
            c1, s1 = root_of_unity(n, a * b if sign < 0 else -a * b)
            c, s = c * c1 - s * s1, c * s1 + s * c1
        c, s = (c, s) if ctx.symbolic else (float(c), float(s))
        x = v[m]
        x, y = x if isinstance(x, tuple) else (x, None)
        re.append(x * c if y is None else x * c - y * s)
        im.append(x * s if y is None else x * s + y * c)
    return ssum(re), ssum(im)


def _filtered(ctx, shape, v, keep):
    """values after keeping the Fourier coefficients k with keep(k, (re, im)) only"""
    f = {}
    for k in itertools.product(*map(range, shape)):
        re, im = _coef(ctx, shape, v, k)
        c = keep(k, (re, im))
        f[k] = (re, im) if c else (0, 0)
    out = {}
    d = math.prod(shape)
    for m in itertools.product(*map(range, shape)):
        re, im = _coef(ctx, shape, f, m, sign=1)
        out[m] = (re / d, im / d) if not ctx.symbolic else (re * Fraction(1, d), im * Fraction(1, d))
    return out


def _large(ctx, z, tol):
    """|z| >= tol; assumed to be clearly one or the other"""
    re, im = z
    if isinstance(im, E.Sym) and E.const_value(im.e) == 0 or not isinstance(im, E.Sym) and abs(im) < 1e-9:
        ctx.assume(lor(re > tol + 1e-6, re < -tol - 1e-6, land(re < tol - 1e-6, re > -tol + 1e-6)))
        return bool(lor(re >= tol, re <= -tol))
    n = re * re + im * im
    ctx.assume(lor(n > (tol + 1e-6) ** 2, n < (tol - 1e-6) ** 2))
    return bool(n >= tol * tol)


def h_filter(ctx, shapes, tols):
    """coefficients smaller than the threshold become zero, all others and the input are unchanged"""
    shape = ctx.choice("shape", shapes)
    tol = ctx.choice("tol", tols)
    cpl = ctx.choice("complex", [True, False])
    re = _grid(ctx, shape, "re", -10, 10)
    im = _grid(ctx, shape, "im", -10, 10) if cpl else {i: 0 for i in re}
    want = {i: _large(ctx, (re[i], im[i]), tol) for i in re}
    a = _arr(shape, lambda i: SymComplex(re[i], im[i]) if ctx.symbolic else complex(re[i], im[i]))
    if not ctx.symbolic:
        a = a.astype(complex)
    keep = a.copy()
    o = SmallCoefficientSignalFilter(tol).filter(a)
    ctx.check(o.shape == tuple(shape), "the shape is kept")
    for i in re:
        ctx.check(land(_cnear(a[i], re[i], im[i], 0)), "the grid given is not changed")
        x, y = _parts(o[i])
        ctx.check(land(_near(x, re[i]), _near(y, im[i])) if want[i] else land(eq(x, 0), eq(y, 0)), "small coefficients are zero, others kept")
    ctx.cover("complex" if cpl else "real")


def h_fourier(ctx, shapes, tols):
    """the landscape without its small Fourier components, per string and experiment"""
    shape = ctx.choice("shape", shapes)
    tol = ctx.choice("tol", tols)
    ne = ctx.choice("experiments", [1, 2, 3]) if math.prod(shape) <= 2 else 1
    ss = [qps("Z", Q[:1]), qps("XY", Q[:2])][: 1 + (ne == 2)]
    vals, want, wire = {}, {}, []
    for e in range(ne):
        d = {}
        for j, s in enumerate(ss):
            v = vals[e, s] = _grid(ctx, shape, f"v{e}{j}")
            want[e, s] = _filtered(ctx, shape, v, lambda k, z: _large(ctx, z, tol))
            d[s] = _as_array(ctx, shape, v)
        wire.append(d)
    (f,) = sf.gen_fft_task()((wire,))
    for e in range(ne):
        for s in ss:
            for k in itertools.product(*map(range, shape)):
                re, im = _coef(ctx, shape, vals[e, s], k)
                ctx.check(_cnear(f[e][s][k], re, im), "Fourier coefficients")
    (g,) = sf.gen_mitigation_task(SmallCoefficientSignalFilter(tol))((f,))
    (o,) = sf.gen_inv_fft_task()((g,))
    ctx.check(len(o) == ne and all(set(x) == set(ss) for x in o), "every string of every experiment")
    for (e, s), w in want.items():
        ctx.check(tuple(o[e][s].shape) == tuple(shape), "the shape is kept")
        ctx.check(land(*[_cnear(o[e][s][i], re, im) for i, (re, im) in w.items()]), "the landscape without small components")
    ctx.cover("filtered")


def h_grid(ctx, ns, most):
    """one experiment for every combination of symbol values"""
    n = ctx.choice("values", ns)
    k = ctx.choice("experiments", [1, 2, 3])
    exps, keep = [], []
    for e in range(k):
        syms = [[A], [B, A], [C, A, B]][ctx.choice(f"symbols{e}", list(range(most))) if k < 3 else [1, 0, most - 1][e]]
        c = Circuit(2).Rx(A, 0).CX(0, 1)
        for s in syms:
            c.Ry(s, 1)
        x, y, sh = ctx.real(f"x{e}", None, None), ctx.real(f"y{e}", None, None), ctx.int(f"shots{e}", 1, None)
        exps.append(ObservableExperiment(AnsatzCircuit(c, sh, SymbolsDict.symbols_from_dict({s: _num(ctx, y) for s in syms})),
                                         ObservableTracker(QubitPauliOperator({qps("Z", Q[:1]): _num(ctx, x), qps("XY", Q[:2]): _num(ctx, 2 * x)}))))
        keep.append((syms, c.copy(), x, y, sh))
    same, pts = sf.gen_symbol_val_gen_task(n)((exps,))
    ctx.check(list(same) == exps and all(a is b for a, b in zip(same, exps)), "experiments are passed on")
    a, b, a2, b2 = sf.gen_wire_copy_task(2, 2)((same, pts))
    ctx.check(list(a) == list(a2) == exps and len(b) == len(b2) == k, "wires are repeated in order")
    (grids,) = sf.gen_param_grid_gen_task()((b,))
    (out,) = sf.gen_obs_exp_grid_gen_task()((a, grids))
    flat, lens, shp = sf.gen_flatten_task()((out,))
    ctx.check(len(flat) == sum(n ** len(s) for s, *_ in keep), "one experiment per point")
    i = 0
    trackers = []
    for e, (syms, c, x, y, sh) in enumerate(keep):
        ctx.check(len(pts[e]) == len(syms) and all(len(p) == n and all(abs(float(v) - 2 * j / n) < 1e-9 for j, v in enumerate(p)) for p in pts[e]), "equally spaced values from 0 to 2")
        for p in itertools.product(range(n), repeat=len(syms)):
            o = flat[i]
            i += 1
            ctx.check(o.AnsatzCircuit.Circuit == c, "the experiment's circuit")
            m = o.AnsatzCircuit.SymbolsDict._symbolic_map
            ctx.check(list(m) == syms and all(abs(float(m[s]) - 2 * j / n) < 1e-9 for s, j in zip(syms, p)), "each symbol takes its value at the point")
            op = o.ObservableTracker.qubit_pauli_operator
            ctx.check(land(set(op._dict) == {qps("Z", Q[:1]), qps("XY", Q[:2])}, eq(value_of(op[qps("Z", Q[:1])]), x), eq(value_of(op[qps("XY", Q[:2])]), 2 * x), eq(o.AnsatzCircuit.Shots, sh)),
                      "the experiment's observable and shots")
            trackers.append(o.ObservableTracker)
        m = exps[e].AnsatzCircuit.SymbolsDict._symbolic_map
        ctx.check(land(exps[e].AnsatzCircuit.Circuit == c, list(m) == syms, *[eq(value_of(m[s]), y) for s in syms]), "the experiment is not changed")
    # measurement circuits of one point are not those of another
    t = trackers[0]
    t.remove_strings([qps("Z", Q[:1])])
    ctx.check(all(len(u.qubit_pauli_operator._dict) == 2 for u in trackers[1:]) and all(len(x.ObservableTracker.qubit_pauli_operator._dict) == 2 for x in exps), "points do not share observables")
    # the structure of the flattened list is found again
    res = [QubitPauliOperator({qps("Z", Q[:1]): _num(ctx, ctx.real(f"r{j}", None, None))}) for j in range(len(flat))]
    (back,) = sf.gen_reshape_task()((res, lens, shp))
    (dicts,) = sf.gen_ndarray_to_dict_task()((back,))
    i = 0
    for e, (syms, *_) in enumerate(keep):
        z = qps("Z", Q[:1])
        ctx.check(set(dicts[e]) == {z} and tuple(dicts[e][z].shape) == (n,) * len(syms), "one grid per experiment and string")
        pts_ = list(itertools.product(range(n), repeat=len(syms)))
        ctx.check(land(*[eq(value_of(dicts[e][z][p]), value_of(res[i + j][z])) for j, p in enumerate(pts_)]), "each value is at its own point")
        i += len(pts_)
    ctx.cover(f"{k}")


def h_extract(ctx, shapes, kinds, points):
    """the landscape's multilinear interpolation at the experiment's symbol values"""
    shape = ctx.choice("shape", shapes)
    kind = ctx.choice("arbitrary", kinds)
    ss = [qps("Z", Q[:1]), qps("XY", Q[:2])]
    syms = [B, A, C][: len(shape)]
    axes = [[2 * j / n for j in range(n)] for n in shape]
    if kind == "values":
        pt = [ctx.choice(f"p{d}", points(n)) for d, n in enumerate(shape)]
        vals = [(_grid(ctx, shape, "a", -5, 5), _grid(ctx, shape, "ai", -5, 5)), (_grid(ctx, shape, "b", -5, 5), None)]
        inside = True
    else:
        pt = [ctx.real(f"p{d}", -1, 3) for d in range(len(shape))]
        mk = lambda s: {i: ((sum((7 * x + 3) ** (d + 1) for d, x in enumerate(i)) * s) % 17) / 8 - 1 for i in itertools.product(*map(range, shape))}
        vals = [(mk(1), mk(5)), (mk(3), None)]
        ins = land(*[land(x >= a[0], x <= a[-1]) for x, a in zip(pt, axes)])
        for x, a in zip(pt, axes):
            ctx.assume(lor(x >= a[0] + 1e-6, x <= a[0] - 1e-6))
            ctx.assume(lor(x >= a[-1] + 1e-6, x <= a[-1] - 1e-6))
        inside = bool(ins)
    c = Circuit(2)
    for s in reversed(syms):
        c.Rx(s, 0)
    coef = ctx.real("coef", None, None)
    e = ObservableExperiment(AnsatzCircuit(c, 10, SymbolsDict.symbols_from_dict({s: _num(ctx, p) if kind != "values" else p for s, p in zip(syms, pt)})),
                             ObservableTracker(QubitPauliOperator({s: _num(ctx, coef) for s in ss})))
    res = {}
    for s, (re, im) in zip(ss, vals):
        a = _arr(shape, lambda i: (SymComplex(re[i], im[i]) if im else re[i]) if ctx.symbolic else complex(re[i], im[i] if im else 0))
        res[s] = a if ctx.symbolic else a.astype(complex)
    swap = ctx.choice("order", ["same", "other"])
    if swap == "other":
        res = dict(reversed(list(res.items())))
    try:
        (out,) = sf.gen_result_extraction_task()(([res], [e], [[np.array(a) for a in axes]]))
    except ValueError:
        ctx.check(not inside, "values on the grid's range are interpolated")
        ctx.cover("refused")
        return
    ctx.check(inside, "values outside of the grid's range are refused")
    for s, (re, im) in zip(ss, vals):
        for part, v in ((0, re), (1, im)):
            if v is None:
                continue
            tot = []
            cells = []
            for x, a in zip(pt, axes):
                j = 0
                while j < len(a) - 2 and bool(x >= a[j + 1]):
                    j += 1
                x = _fr(ctx, x) if isinstance(x, (int, float)) else x
                w = (x - _fr(ctx, a[j])) / _fr(ctx, a[j + 1] - a[j])
                cells.append([(j, 1 - w), (j + 1, w)])
            for combo in itertools.product(*cells):
                w = 1
                for _, f in combo:
                    w = w * f
                y = v[tuple(i for i, _ in combo)]
                tot.append(w * (_fr(ctx, y) if isinstance(y, (int, float)) else y))
            ctx.check(_near(_parts(out[0][s])[part], ssum(tot)), "multilinear interpolation between the neighbouring points")
    ctx.check(land(*[eq(value_of(e.ObservableTracker.qubit_pauli_operator[s]), coef) for s in ss]), "the experiment's observable is not changed")
    try:
        sf.gen_result_extraction_task()(([{ss[0]: res[ss[0]]}], [e], [[np.array(a) for a in axes]]))
        ok = False
    except Exception:
        ok = True
    ctx.check(ok, "results for other strings are refused")
    ctx.cover(kind)


class KeepAll(SignalFilter):
    def filter(self, g):
        return g


class LowPass(SignalFilter):
    """the highest frequency of every axis is removed"""
    def filter(self, g):
        g = g.copy()
        for ax in range(g.ndim):
            i = [slice(None)] * g.ndim
            i[ax] = g.shape[ax] // 2
            g[tuple(i)] = 0
        return g


def _ansatz(e, syms):
    """experiments are told apart by their number of qubits, symbols by the gate"""
    c = Circuit(2 + e).H(0).CX(0, 1)
    for s in sorted(syms, key=str):
        c.add_gate({A: OpType.Ry, B: OpType.Rx, C: OpType.TK1}[s], [s, 0.3, 0.1] if s is C else [s], [{A: 0, B: 1, C: 1}[s]])
    c.CX(1, 0)
    return c


def h_full(ctx, scenarios, placements, sizes):
    """the whole method: every point runs with its own symbol values; the filtered landscape is read at the experiment's values"""
    k, n, flt, how = ctx.choice("experiments, values, filter, methods", scenarios)
    place = ctx.choice("placement", placements)
    order = ctx.choice("order", ["forward", "backward"]) if k > 1 else "forward"
    es = list(range(k)) if order == "forward" else list(reversed(range(k)))
    tgt = {"same": Q, "named": [Node("n", i) for i in (2, 7, 1, 0)]}[place]
    back = {str(t): i for i, t in enumerate(tgt)}
    S = {e: ["Z", "ZZ"][: 1 + (flt in ("all", "low") and (e + k) % 2)] for e in es}
    syms = {e: sizes[e] for e in es}
    val = {(e, s): [0.3, 2 * (n - 1) / n, 0.5][(j + e) % 3] for e in es for j, s in enumerate(syms[e])}
    shape = {e: (n,) * len(syms[e]) for e in es}
    coef = {(e, s): [0.5, -1.25, 2.0][(e + j) % 3] * (4 if flt == "default" else 1) for e in es for j, s in enumerate(S[e])}
    v = {(e, s): _grid(ctx, shape[e], f"v{e}{s}", Fraction(-999, 1000), Fraction(999, 1000)) for e in es for s in S[e]}
    shots = {e: ctx.int(f"shots{e}", 1, 10**6) for e in es}
    seen = defaultdict(int)

    def provider(c, s, j):
        e = c.n_qubits - 2
        ms = [com for com in c.get_commands() if com.op.type == OpType.Measure]
        where = {back.get(str(com.qubits[0])) for com in ms}
        st = {(0,): "Z", (0, 1): "ZZ"}.get(tuple(sorted(where)) if None not in where else None)
        ctx.check((e, st) in v and len(ms) == len(where), "only the strings of the experiments are measured")
        ctx.check(eq(s, shots[e]), "every circuit runs with its experiment's shots")
        at = {}
        for com in c.get_commands():
            q = back.get(str(com.qubits[0]))
            x = {(OpType.Ry, 0): A, (OpType.Rx, 1): B, (OpType.TK1, 1): C}.get((com.op.type, q))
            if x is not None:
                at[x] = float(com.op.params[0])
        ctx.check(set(at) == set(syms[e]), "all symbols are substituted")
        p = tuple(round(at[x] * n / 2) for x in syms[e])
        ctx.check(all(abs(at[x] - 2 * i / n) < 1e-9 and 0 <= i < n for x, i in zip(syms[e], p)), "symbols take values of the grid")
        seen[e, st, p] += 1
        w = v[e, st][p]
        bits = sorted(c.bits)
        o0, o1 = tuple([0] * len(bits)), tuple([0] * (len(bits) - 1) + [1])
        if not ctx.symbolic:
            return counts_result({o0: round((1 + w) / 2 * 2**40), o1: 2**40 - round((1 + w) / 2 * 2**40)}, bits)
        h = SymReal(z3.RealVal("1/2"))
        return counts_result({o0: h + w * h, o1: h - w * h}, bits)

    be = StubBackend(provider)

    def compile_(c, *a, **kw):
        c = c.copy()
        RenameQubitsPass({Qubit(i): t for i, t in enumerate(tgt)}).apply(c)
        return c
    be._compile = compile_
    unused = StubBackend(lambda c, s, j: ctx.check(False, "the methods given are used"))
    unused._compile = compile_
    kw = {}
    if flt != "default":
        kw["signal_filter"] = {"all": KeepAll(), "low": LowPass(), "small": SmallCoefficientSignalFilter(0.7)}[flt]
    if how == "mitex":
        kw["experiment_mitex"] = MitEx(be)
    elif how == "mitres":
        kw["experiment_mitres"] = MitRes(be)
    if how != "default":
        if place != "same":
            back.update({str(q): i for i, q in enumerate(Q)})
    exps, keep = [], []
    for e in es:
        c = _ansatz(e, syms[e])
        exps.append(ObservableExperiment(AnsatzCircuit(c, shots[e], SymbolsDict.symbols_from_dict({s: val[e, s] for s in syms[e]})),
                                         ObservableTracker(QubitPauliOperator({qps(s, Q[: len(s)]): coef[e, s] for s in S[e]}))))
        keep.append(c.copy())
    tol = {"small": 0.7, "default": 5.0}.get(flt)

    def kept(e, s):
        if flt == "all":
            return lambda k, z: True
        if flt == "low":
            return lambda k, z: all(x != n // 2 for x in k)
        c = coef[e, s]
        return lambda k, z: _large(ctx, (z[0] * _fr(ctx, c), z[1] * _fr(ctx, c)), tol)
    land_ = {(e, s): _filtered(ctx, shape[e], v[e, s], kept(e, s)) for e in es for s in S[e]}
    out = gen_spectral_filtering_MitEx(be if how == "default" else unused, n, **kw).run(exps)
    ctx.check(len(out) == k, "one operator per experiment")
    for e, o, x, c in zip(es, out, exps, keep):
        ctx.check(set(o._dict) == {qps(s, Q[: len(s)]) for s in S[e]}, "exactly the strings of the experiment, under their own qubits")
        ctx.check(x.AnsatzCircuit.Circuit == c and x.AnsatzCircuit.SymbolsDict._symbolic_map == {s: val[e, s] for s in syms[e]}, "the experiment is not changed")
        for s in S[e]:
            ctx.check(all(seen[e, s, p] == 1 for p in itertools.product(range(n), repeat=len(syms[e]))), "every point runs once")
            cells = []
            for y in syms[e]:
                t = Fraction(val[e, y]) * n / 2
                j = min(int(t), n - 2)
                cells.append([(j, 1 - (t - j)), (j + 1, t - j)])
            re, im = [], []
            for combo in itertools.product(*cells):
                w = Fraction(coef[e, s])
                for _, f in combo:
                    w *= f
                a, b = land_[e, s][tuple(i for i, _ in combo)]
                re.append(a * (w if ctx.symbolic else float(w)))
                im.append(b * (w if ctx.symbolic else float(w)))
            ctx.check(_cnear(o[qps(s, Q[: len(s)])], ssum(re), ssum(im)), "coefficient times the filtered landscape at the experiment's values")
    ctx.check(sum(seen.values()) == sum(len(S[e]) * n ** len(syms[e]) for e in es), "nothing else runs")
    ctx.cover(f"{flt} {how}")


HARNESSES = [
    Harness("grid", h_grid, "1-3 experiments with 1-2 symbols (thorough 3) of 2-4 values; arbitrary coefficients, shots, values", ["1", "2", "3"],
            quick=dict(ns=[2, 3], most=2), thorough=dict(ns=[2, 3, 4, 5], most=3)),
    Harness("filter", h_filter, "grids of up to 3 coefficients (thorough 4), two thresholds", ["complex", "real"],
            quick=dict(shapes=[(1,), (3,), (1, 2)], tols=[5, 0.5]), thorough=dict(shapes=[(1,), (4,), (2, 2), (1, 2, 2)], tols=[5, 0.5, 0.01])),
    Harness("fourier", h_fourier, "1-3 experiments, grids of 2, 4, 2x2 points (thorough 3, 2x4, 2x2x2)", ["filtered"],
            quick=dict(shapes=[(2,), (4,), (2, 2)], tols=[0.75]), thorough=dict(shapes=[(2,), (3,), (4,), (2, 2), (2, 2, 2)], tols=[0.75, 0.1]), max_paths=60000, time_budget=800),
    Harness("extract", h_extract, "grids of 2, 3, 5, 2x3 points (thorough 2x2x3); arbitrary complex values at given points, or arbitrary points", ["values", "points", "refused"],
            quick=dict(shapes=[(2,), (5,), (2, 3)], kinds=["values", "points"], points=lambda n: [0, 0.3, 2 * (n - 1) / n]),
            thorough=dict(shapes=[(2,), (5,), (2, 3), (3, 4), (2, 2, 3)], kinds=["values", "points"], points=lambda n: [0, 0.3, 2 * (n - 1) / n, 1 - 1 / n])),
    Harness("full", h_full, "1-3 experiments with 1-2 symbols of 2 or 4 values; arbitrary expectations everywhere; four filters",
            ["all default", "low mitex", "default mitres", "small default", "low mitres"],
            quick=dict(scenarios=[(2, 2, "all", "default"), (1, 4, "low", "mitex"), (1, 2, "default", "mitres"), (2, 2, "small", "default"), (2, 2, "low", "mitres"), (3, 2, "all", "default")], placements=["same", "named"], sizes={0: [B, A], 1: [A], 2: [C, B]}),
            thorough=dict(scenarios=[(k, n, f, h) for k in (1, 2) for n in (2, 4) for f in ("all", "low") for h in ("default", "mitex", "mitres")] + [(3, 2, "low", h) for h in ("default", "mitex", "mitres")] + [(1, 3, "low", "default")]
                          + [(k, 2, f, h) for k in (1, 2) for f in ("default", "small") for h in ("default", "mitex", "mitres")],
                          placements=["same", "named"], sizes={0: [B, A], 1: [C, A], 2: [C]}),
            stubs=["backend: arbitrary expectation for every experiment, string and grid point"], max_paths=60000, time_budget=800),
]
