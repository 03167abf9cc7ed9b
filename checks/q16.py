"""Q16 -- Clifford data regression corrects every string of every experiment with its own fit."""
import hashlib
import random
import warnings
from fractions import Fraction
import numpy as np
import sympy
import z3
from symx import engine as E
from symx.engine import eq, land, lor, lnot, ssum, SymReal
from symx.runner import Harness
from symx.shims import value_of, lstsq_poly
from symx.stubs import StubBackend, counts_result, patched
from symx.phys import qps
from symx.rand import Rand
from pytket import Circuit, Qubit, OpType
from pytket.utils import QubitPauliOperator
import qermit.clifford_noise_characterisation.ccl as ccl
import qermit.clifford_noise_characterisation.cdr_post as post
from qermit import MitEx, MitTask, TaskGraph, ObservableExperiment, AnsatzCircuit, ObservableTracker, SymbolsDict

ASSUMPTIONS = ["noisy training values are concrete generic numbers, exact ones and the corrected values arbitrary",
               "float rounding of the fit is below 1e-6 times the data"]
Q = [Qubit(i) for i in range(3)]
TOL = 1e-6
# generic noisy training values
NOISY = [0.375, -0.8125, 0.0625, 0.90625, -0.28125, 0.59375, -0.53125, 0.71875]


def _num(ctx, v):
    return sympy.sympify(v) if ctx.symbolic else v


def _near(a, b, tol=TOL):
    d = a - b
    return land(d <= tol, d >= -tol)


def _poly(ctx, cs, x):
    """sum c_k x^k"""
    if isinstance(x, float):
        x = Fraction(x) if ctx.symbolic else x
    r = 0
    p = 1
    for c in cs:
        r = r + c * p
        p = p * x
    return r


def h_model(ctx, degs, points):
    """training values on a polynomial: corrected values are on it; otherwise on the best fitting one"""
    deg = ctx.choice("degree", degs)
    m = ctx.choice("points", [p for p in points if p > deg])
    xs = NOISY[:m]
    kind = ctx.choice("data", ["polynomial", "arbitrary"])
    x = ctx.real("x", -1, 1)
    model = post._PolyCDRCorrect(deg)
    other = post._PolyCDRCorrect(deg)
    if kind == "polynomial":
        cs = [ctx.real(f"c{k}", -2, 2) for k in range(deg + 1)]
        ys = [_poly(ctx, cs, v) for v in xs]
    else:
        ys = [ctx.real(f"y{i}", -1, 1) for i in range(m)]
        cs = [c for c in reversed(lstsq_poly(xs, ys, deg))]
    # calibrating another model in between changes nothing
    first = ctx.choice("other", ["none", "before", "after"])
    o = list(np.linspace(-1, 1, m))
    if first == "before":
        other.calibrate(list(xs), o)
    model.calibrate(list(xs), list(ys))
    if first == "after":
        other.calibrate(list(xs), o)
    ctx.check(_near(value_of(model.correct(x)), _poly(ctx, cs, x), 1e-5), "the corrected value is the fitted polynomial at the noisy value")
    ctx.cover(kind)


def h_params(ctx, degs):
    """parameters given directly: highest power first; a wrong number of them is refused"""
    deg = ctx.choice("degree", degs)
    n = ctx.choice("n", list(range(1, max(degs) + 3)))
    cs = [ctx.real(f"p{i}", -2, 2) for i in range(n)]
    x = ctx.real("x", -1, 1)
    try:
        m = post._PolyCDRCorrect(deg, list(cs))
    except ValueError:
        ctx.check(n != deg + 1, "the right number of parameters is accepted")
        ctx.cover("refused")
        return
    ctx.check(n == deg + 1, "a polynomial of degree d has d+1 parameters")
    ctx.check(_near(value_of(m.correct(x)), _poly(ctx, list(reversed(cs)), x)), "the polynomial with the parameters given")
    ctx.cover("evaluated")


def _strings(e):
    return [qps("Z", Q[:1]), qps("XY", Q[:2]), qps("IZX", Q)][: 1 + (e + 1) % 3]


def _training(ctx, tag, e, m, deg, repeated=False):
    """m (noisy, exact) operators for experiment e, and the polynomial of each string"""
    strs = _strings(e)
    if repeated:
        # the same noisy value twice, with different exact ones: the best fit of all the points
        xs = {s: [NOISY[(max(i - 1, 0) + 3 * j + 2 * e) % len(NOISY)] for i in range(m)] for j, s in enumerate(strs)}
        ys = {s: [ctx.real(f"{tag}y{e}_{j}_{i}", -1, 1) for i in range(m)] for j, s in enumerate(strs)}
        pairs = [(QubitPauliOperator({s: xs[s][i] for s in strs}), QubitPauliOperator({s: _num(ctx, ys[s][i]) for s in strs})) for i in range(m)]
        return pairs, {s: list(reversed(lstsq_poly(xs[s], ys[s], deg))) for s in strs}
    cs = {s: [ctx.real(f"{tag}c{e}_{j}_{k}", -2, 2) for k in range(deg + 1)] for j, s in enumerate(strs)}
    pairs = []
    for i in range(m):
        noisy = {s: NOISY[(i + 3 * j + 2 * e) % len(NOISY)] for j, s in enumerate(strs)}
        exact = {s: _num(ctx, _poly(ctx, cs[s], noisy[s])) for s in strs}
        pairs.append((QubitPauliOperator(noisy), QubitPauliOperator(dict(reversed(list(exact.items()))))))
    return pairs, cs


def h_regression(ctx, n_exp, degs, m):
    """calibration and correction of a batch, repeatedly"""
    k = ctx.choice("experiments", list(range(1, n_exp + 1)))
    deg = ctx.choice("degree", degs)
    calib = post.cdr_calibration_task_gen(post._PolyCDRCorrect(deg))
    corr = post.cdr_correction_task_gen()
    if ctx.choice("graph", [True, False]):
        g = TaskGraph()
        g.append(calib)
        g.add_wire()
        g.append(corr)
        run = lambda tr, ops: g.run([tr, ops])
    else:
        calib.characterisation = corr.characterisation = {}

        def run(tr, ops):
            (done,) = calib((tr,))
            return corr((done, ops))
    rounds = ctx.choice("rounds", [1, 2])
    repeated = ctx.choice("repeated", [False, True])
    for r in range(rounds):
        order = list(range(k)) if r == 0 else list(reversed(range(k)))
        train, polys = [], []
        for e in order:
            t, cs = _training(ctx, f"r{r}", e, m, deg, repeated)
            train.append(t)
            polys.append(cs)
        noisy = [{s: ctx.real(f"r{r}x{e}_{j}", -1, 1) for j, s in enumerate(_strings(e))} for e in order]
        extra = qps("YYY", Q)
        y = ctx.real(f"r{r}y", -1, 1)
        noisy[0][extra] = y
        # strings that other experiments, or earlier rounds, have training data for
        for j, (e, d) in enumerate(zip(order, noisy)):
            for i, s in enumerate(_strings(1)):
                if s not in d:
                    d[s] = ctx.real(f"r{r}u{e}_{i}", -1, 1)
        (out,) = run(train, [QubitPauliOperator({s: _num(ctx, v) for s, v in d.items()}) for d in noisy])
        ctx.check(len(out) == k, "one operator per experiment")
        for o, d, cs in zip(out, noisy, polys):
            ctx.check(set(o._dict) == set(d), "exactly the strings of the experiment")
            for s, v in d.items():
                if s not in cs:
                    ctx.check(eq(value_of(o[s]), v), "a string without training data is left as it is")
                else:
                    ctx.check(_near(value_of(o[s]), _poly(ctx, cs[s], v), 1e-5), "every string is corrected with the fit of its own training data")
    ctx.cover("corrected")


def h_missing(ctx):
    """training results of different strings are refused"""
    calib = post.cdr_calibration_task_gen(post._PolyCDRCorrect(1))
    calib.characterisation = {}
    a, b = qps("Z", Q[:1]), qps("X", Q[:1])
    v = [ctx.real(f"v{i}", -1, 1) for i in range(2)]
    where = ctx.choice("where", [0, 1])
    pairs = [(QubitPauliOperator({a: 0.25 + i, **({b: 0.5} if i == where else {})}), QubitPauliOperator({a: _num(ctx, v[i])})) for i in range(2)]
    try:
        calib(([pairs],))
    except ValueError:
        ok = True
    else:
        ok = False
    ctx.check(ok, "noisy results without exact ones are refused")
    ctx.check(v[0] <= 1, "in range")
    ctx.cover("refused")


def h_quality(ctx, m):
    """the quality check alters nothing, and warns exactly when too many training circuits are far away"""
    tol = ctx.choice("tolerance", [0.1, 0.5])
    frac = ctx.choice("fraction", [0.5, 0.25])
    n = ctx.choice("training", list(range(1, m + 1)))
    a, b = qps("Z", Q[:1]), qps("XX", Q[:2])
    x, y = ctx.real("x", -1, 1), ctx.real("y", -1, 1)
    ts = [ctx.real(f"t{i}", -1, 1) for i in range(n)]
    us = [ctx.real(f"u{i}", -1, 1) for i in range(n)]
    orig = QubitPauliOperator({a: _num(ctx, x), b: _num(ctx, y)})
    train = [(QubitPauliOperator({a: _num(ctx, t), b: 0.5}), QubitPauliOperator({a: _num(ctx, u), b: -0.5})) for t, u in zip(ts, us)]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        o, t = post.cdr_quality_check_task_gen(tol, frac)(([orig], [list(train)]))
    ctx.check(len(o) == 1 and o[0] == orig and land(eq(value_of(o[0][a]), x), eq(value_of(o[0][b]), y)), "the results are unaltered")
    ctx.check(len(t) == 1 and len(t[0]) == n, "the training data is unaltered")
    for i in range(n):
        ctx.check(land(eq(value_of(t[0][i][0][a]), ts[i]), eq(value_of(t[0][i][1][a]), us[i]), eq(value_of(t[0][i][0][b]), 0.5), eq(value_of(t[0][i][1][b]), -0.5)),
                  "the training data is unaltered")
    warned = any("Training data" in str(v.message) for v in w)
    dist = [abs(v - x) for v in ts]
    ctx.assume(land(*[lor(d < tol - 1e-6, d > tol + 1e-6) for d in dist]))
    far = ssum([E.ite(d > tol, 1, 0) for d in dist])
    ctx.check(eq(far > n * frac, warned), "a warning is given exactly when more than the fraction of training circuits are far away")
    ctx.cover("warned" if warned else "fine")


def h_batching(ctx, n_exp, n_circ):
    """noisy and exact results of the same training circuit are paired, experiment by experiment"""
    k = ctx.choice("experiments", list(range(0, n_exp + 1)))
    m = ctx.choice("circuits", list(range(1, n_circ + 1)))
    s = qps("Z", Q[:1])
    noisy = [ctx.real(f"n{i}", None, None) for i in range(k * m)]
    exact = [ctx.real(f"e{i}", None, None) for i in range(k * m)]
    (out,) = ccl.ccl_result_batching_task_gen(m)(([QubitPauliOperator({s: _num(ctx, v)}) for v in exact], [QubitPauliOperator({s: _num(ctx, v)}) for v in noisy]))
    ctx.check(len(out) == k and all(len(b) == m for b in out), "one batch per experiment with all its training circuits")
    for i in range(k):
        for j in range(m):
            a, b = out[i][j]
            ctx.check(land(eq(value_of(a[s]), noisy[i * m + j]), eq(value_of(b[s]), exact[i * m + j])), "each circuit's noisy result is paired with its exact one")
    try:
        ccl.ccl_result_batching_task_gen(m)(([QubitPauliOperator({s: 1.0})] * (k * m + 1), [QubitPauliOperator({s: 1.0})] * (k * m)))
    except RuntimeError:
        refused = True
    else:
        refused = False
    ctx.check(refused, "different numbers of noisy and exact results are refused")
    ctx.cover("batched")


def h_likelihood(ctx, n_exp, n_circ):
    """results are kept with the probability given by the likelihood function, whole pairs only"""
    s = qps("Z", Q[:1])
    k = ctx.choice("experiments", list(range(1, n_exp + 1)))
    m = [ctx.choice(f"circuits{i}", list(range(n_circ + 1))) for i in range(k)]
    none = ctx.choice("function", ["none", "given"])
    vals = [[(ctx.real(f"n{i}_{j}", -1, 1), ctx.real(f"e{i}_{j}", -1, 1)) for j in range(m[i])] for i in range(k)]
    inp = [[tuple(QubitPauliOperator({s: _num(ctx, v)}) for v in p) for p in b] for b in vals]
    if none == "none":
        fn = ccl.LikelihoodFunction.none
    else:
        fn = lambda noisy, exact: E.ite(abs(value_of(noisy[s]) - value_of(exact[s])) < 0.5, 0.75, 0.125) if ctx.symbolic else (0.75 if abs(value_of(noisy[s]) - value_of(exact[s])) < 0.5 else 0.125)
    r = Rand(ctx)
    with r.installed():
        (out,) = ccl.ccl_likelihood_filtering_task_gen(fn)(([list(b) for b in inp],))
    ctx.check(len(out) == k, "one batch per experiment")
    draws = [d[1] for d in r.draws if d[0] == "unit"]
    if none == "none":
        keep = [list(range(c)) for c in m]
    else:
        ctx.check(len(draws) == sum(m), "one draw per pair")
        if len(draws) != sum(m):
            return
        it = iter(draws)
        keep = []
        for b in vals:
            keep.append([j for j, (n, e) in enumerate(b) if bool(next(it) < (E.ite(abs(n - e) < 0.5, 0.75, 0.125) if ctx.symbolic else (0.75 if abs(n - e) < 0.5 else 0.125)))])
    for i in range(k):
        ctx.check(len(out[i]) == len(keep[i]), "exactly the accepted pairs")
        for (a, b), j in zip(out[i], keep[i]):
            ctx.check(land(eq(value_of(a[s]), vals[i][j][0]), eq(value_of(b[s]), vals[i][j][1])), "accepted pairs are unchanged")
    ctx.cover(none)


def _circuit(e):
    """experiments differ in their number of qubits; Ry marks the circuit as given"""
    n = 2 + e
    c = Circuit(n).H(0)
    for q in range(n):
        c.Ry(0.3 + 0.1 * q, q)
    for q in range(n - 1):
        c.CX(q, q + 1)
    for q in range(n):
        c.Rz(0.2 + 0.1 * q, q)
    return c


def _generic(c):
    """a fixed number in (-0.9, 0.9) for every circuit"""
    t = repr([(str(com.op), [str(a) for a in com.args]) for com in c.get_commands() if com.op.type != OpType.Barrier])
    return (int(hashlib.md5(t.encode()).hexdigest()[:4], 16) % 57 - 28) / 32


def h_full(ctx, n_exp, total, degs, seeds):
    """the whole method on a device whose errors are a polynomial of the value, different for each string of each experiment"""
    deg = ctx.choice("degree", degs)
    k = ctx.choice("experiments", list(range(1, n_exp + 1)))
    order = ctx.choice("order", ["forward", "backward"] if k > 1 else ["forward"])
    how = ctx.choice("methods", ["given", "default"])
    seed = ctx.choice("seed", list(range(seeds)))
    es = list(range(k)) if order == "forward" else list(reversed(range(k)))
    # strings are told apart by the number of bits read
    strs = {e: [qps("Z", Q[:1]), qps("ZZ", Q[:2])][: 2 - e % 2] for e in es}
    coef = {(e, j + 1): [ctx.real(f"c{e}_{j}_{d}", -1 / (deg + 1), 1 / (deg + 1)) for d in range(deg + 1)] for e in es for j in range(len(strs[e]))}
    x = {key: ctx.real("x%d_%d" % key, -0.75, 0.75) for key in coef}
    shots = {e: ctx.int(f"shots{e}", 1, 10**6) for e in es}
    seen = {"device": {}, "simulator": {}}

    def res(c, v):
        bits = sorted(c.bits)
        o0, o1 = tuple([0] * len(bits)), tuple([0] * (len(bits) - 1) + [1])
        if not ctx.symbolic:
            return counts_result({o0: round((1 + v) / 2 * 2**30), o1: 2**30 - round((1 + v) / 2 * 2**30)}, bits)
        h = SymReal(z3.RealVal("1/2"))
        v = SymReal(z3.RealVal(str(Fraction(v)))) if isinstance(v, float) else v
        return counts_result({o0: h + v * h, o1: h - v * h}, bits)

    def make(kind):
        def provider(c, s, j):
            e = c.n_qubits - 2
            key = (e, len(c.bits))
            ctx.check(e in es and key in coef, "only circuits of the experiments run")
            ctx.check(eq(s, shots[e]), "every circuit runs with its experiment's shots")
            given = any(com.op.type == OpType.Ry for com in c.get_commands())
            if given:
                ctx.check(kind != "simulator", "the circuit given is not simulated")
                return res(c, x[key])
            v = _generic(c)
            seen[kind].setdefault(key, []).append(v)
            if kind == "simulator":
                return res(c, _poly(ctx, coef[key], v))
            return res(c, v)
        return StubBackend(provider)

    dev, sim = make("device"), make("simulator")
    unused = StubBackend(lambda c, s, j: ctx.check(False, "the methods given are used"))
    kw = {} if how == "default" else dict(states_simulator_mitex=MitEx(sim), states_device_mitex=MitEx(dev), experiment_mitex=MitEx(dev))
    if deg != 1:
        kw["model"] = post._PolyCDRCorrect(deg)
    exps = [ObservableExperiment(AnsatzCircuit(_circuit(e), shots[e], SymbolsDict()), ObservableTracker(QubitPauliOperator({s: 1.0 for s in strs[e]}))) for e in es]
    random.seed(seed)
    np.random.seed(seed)
    it = iter(range(10**6))
    with patched((ccl, "get_operator_expectation_value", lambda *a, **kk: 0.1 * next(it))), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        me = ccl.gen_CDR_MitEx(*((dev, sim) if how == "default" else (unused, unused)), 2, 1, total, tolerance=0.01, **kw)
        if ctx.symbolic:
            # generic training values may coincide, which determines no fit
            try:
                out = me.run(exps)
            except E.Inconclusive:
                if any(len(set(v)) <= deg for v in seen["device"].values()):
                    raise E.PathAbort()
                raise
        else:
            out = me.run(exps)
    for key in coef:
        a, b = seen["device"].get(key, []), seen["simulator"].get(key, [])
        ctx.check(len(a) == total and sorted(a) == sorted(b), "every training circuit runs on the device and on the simulator")
        if len(set(a)) <= deg:
            raise E.PathAbort()
    ctx.check(len(out) == k, "one operator per experiment")
    for e, o in zip(es, out):
        ctx.check(set(o._dict) == set(strs[e]), "exactly the strings of the experiment")
        for j, s in enumerate(strs[e]):
            key = (e, j + 1)
            ctx.check(_near(value_of(o[s]), _poly(ctx, coef[key], x[key]), 1e-4), "the result is the noise-free value the training circuits imply")
    ctx.cover(how)


HARNESSES = [
    Harness("model", h_model, "degree up to 2 (thorough 4), up to 5 training values (thorough 7), coefficients in [-2,2], noisy values in [-1,1]", ["polynomial", "arbitrary"],
            quick=dict(degs=[0, 1, 2], points=[2, 3, 5]), thorough=dict(degs=[0, 1, 2, 3, 4], points=[2, 3, 4, 5, 7])),
    Harness("params", h_params, "degree up to 2 (thorough 4)", ["refused", "evaluated"], quick=dict(degs=[0, 1, 2]), thorough=dict(degs=[0, 1, 2, 3, 4])),
    Harness("regression", h_regression, "1..3 experiments with 1..3 strings, degree 1-2 (thorough 0-3), 4 training circuits (thorough 6), with or without repeated noisy values, two batches in different orders", ["corrected"],
            quick=dict(n_exp=3, degs=[1, 2], m=4), thorough=dict(n_exp=4, degs=[0, 1, 2, 3], m=6)),
    Harness("missing", h_missing, "either training circuit", ["refused"]),
    Harness("quality", h_quality, "1..3 training circuits (thorough 5), two tolerances and fractions, arbitrary values", ["warned", "fine"], quick=dict(m=3), thorough=dict(m=5)),
    Harness("batching", h_batching, "up to 3 experiments of up to 3 circuits (thorough 5 x 5)", ["batched"], quick=dict(n_exp=3, n_circ=3), thorough=dict(n_exp=5, n_circ=5)),
    Harness("likelihood", h_likelihood, "up to 2 experiments of up to 2 circuits (thorough 2 x 3), all draws", ["none", "given"], quick=dict(n_exp=2, n_circ=2), thorough=dict(n_exp=2, n_circ=3)),
    Harness("full", h_full, "1-2 experiments in either order with 1-2 strings, 3 training circuits each, linear and quadratic models, methods given or default, fixed random seeds", ["given", "default"],
            quick=dict(n_exp=2, total=4, degs=[1], seeds=2), thorough=dict(n_exp=3, total=5, degs=[1, 2], seeds=4),
            stubs=["backends: exact outcome frequencies; exact values are a polynomial of the noisy ones", "get_operator_expectation_value: distinct values"]),
]
