"""Q10 -- zero-noise extrapolation recovers the noise-free value of every string of every experiment."""
import itertools
from fractions import Fraction
import numpy as np
import sympy
import z3
from symx import engine as E
from symx.engine import eq, land, lor, ssum, SymReal
from symx.runner import Harness
from symx.shims import value_of, lstsq_poly
from symx.stubs import StubBackend, patched
from symx.phys import SymState, qps, words
from symx.rand import Rand
from pytket import Circuit, Qubit, OpType
from pytket.circuit import Node
from pytket.passes import RenameQubitsPass, CustomPass
from pytket.pauli import Pauli, QubitPauliString
from pytket.utils import QubitPauliOperator
import qermit.zero_noise_extrapolation.zne as zne
from qermit import ObservableExperiment, AnsatzCircuit, ObservableTracker, SymbolsDict
from qermit.zero_noise_extrapolation import Fit, Folding, gen_ZNE_MitEx

ASSUMPTIONS = ["expectation values depend polynomially on the noise scaling, or are arbitrary data compared with the exact least-squares fit",
               "float rounding of the fit is below 1e-6 times the data", "scipy's curve_fit is an arbitrary parameter choice (its own convergence is outside)"]
Q = [Qubit(i) for i in range(3)]
TOL = 1e-6


def _num(ctx, v):
    return sympy.sympify(v) if ctx.symbolic else v


def _near(a, b, tol=TOL):
    d = a - b
    return land(d <= tol, d >= -tol)


def _exact(ctx, c):
    return SymReal(z3.RealVal(str(c))) if ctx.symbolic and not E.is_sym(c) else c


def h_poly(ctx, scalings, degs):
    """polynomial data of the fitted degree: the constant term, for each string and experiment"""
    xs = ctx.choice("scalings", scalings)
    fit = ctx.choice("fit", ["linear", "polynomial", "richardson"])
    if fit == "linear":
        deg = 1
    elif fit == "richardson":
        deg = len(xs) - 1
    else:
        deg = ctx.choice("deg", [d for d in degs if d < len(xs)])
    n_exp = ctx.choice("experiments", [1, 2, 3])
    data, truth = [], []
    strings = [[qps("Z", Q[:1]), qps("IX", Q[:2])], [qps("Z", Q[:1])], [qps("IX", Q[:2])]]
    for e in range(n_exp):
        cs = {s: [ctx.real(f"c{e}_{j}_{k}", -2, 2) for k in range(deg + 1)] for j, s in enumerate(strings[e])}
        truth.append({s: c[0] for s, c in cs.items()})
        data.append(cs)
    args = [[QubitPauliOperator({s: _num(ctx, ssum([c * Fraction(x) ** k for k, c in enumerate(cs)]) if ctx.symbolic else float(sum(c * x ** k for k, c in enumerate(cs))))
                                 for s, cs in data[e].items()}) for e in range(n_exp)] for x in xs]
    out = zne.extrapolation_task_gen(list(xs), getattr(Fit, fit), False, deg)(tuple(args))[0]
    ctx.check(len(out) == n_exp, "one operator per experiment")
    for e in range(n_exp):
        ctx.check(set(out[e]._dict) == set(truth[e]), "exactly the strings of the experiment")
        for s, c in truth[e].items():
            ctx.check(_near(value_of(out[e][s]), c), "the extrapolation of polynomial data is its value at zero noise")
    ctx.cover("extrapolated")


def h_fit(ctx, scalings):
    """arbitrary data: the value at zero of the best fitting polynomial"""
    xs = list(ctx.choice("scalings", scalings))
    fit = ctx.choice("fit", ["linear", "polynomial", "richardson"])
    deg = {"linear": 1, "richardson": len(xs) - 1}.get(fit)
    if deg is None:
        deg = ctx.choice("deg", list(range(0, len(xs))))
    ys = [ctx.real(f"y{i}", -2, 2) for i in range(len(xs))]
    try:
        got = value_of(getattr(Fit, fit)(xs, ys, False, deg))
    except ValueError:
        ctx.check(len(xs) < 2, "data that can be fitted is fitted")
        return
    ctx.check(_near(got, lstsq_poly(xs, ys, deg)[-1]), "the value at zero of the best fitting polynomial of the degree asked for")
    ctx.observe("v", got)
    ctx.cover("fitted")


def h_fit_refused(ctx):
    m = ctx.choice("points", [1, 2, 3, 4])
    deg = ctx.int("deg", -1000, 1000)
    ys = [ctx.real(f"y{i}", -1, 1) for i in range(m)]
    kind = ctx.choice("kind", ["polynomial", "poly_exponential"])
    most = m - 1 if kind == "polynomial" else m - 2
    ctx.assume(lor(deg < 0, deg > most))
    try:
        getattr(Fit, kind)(list(range(1, m + 1)), ys, False, deg)
    except (ValueError, TypeError) as ex:
        ctx.cover("refused")
        refused = isinstance(ex, ValueError)
    else:
        refused = False
    ctx.check(refused, "a degree too high for the number of points, or negative, is refused")


def h_curve(ctx, scalings):
    """non-polynomial fits: the model is fitted to the data as given, and evaluated at zero noise"""
    xs = list(ctx.choice("scalings", scalings))
    kind = ctx.choice("fit", ["exponential", "poly_exponential", "cube_root"])
    deg = 1 if kind != "poly_exponential" else ctx.choice("deg", list(range(0, len(xs) - 1)))
    if kind != "cube_root" and len(xs) < deg + 2:
        raise E.PathAbort()
    ys = [ctx.real(f"y{i}", -5, 5) for i in range(len(xs))]
    calls = []

    def stub(f, x, y, p0=None, bounds=None, **kw):
        x, y = list(x), list(y)
        ctx.check(len(x) == len(xs) and sorted(x) == sorted(xs), "the fit is over the noise scalings")
        ctx.check(land(*[eq(value_of(y[i]), ys[xs.index(x[i])]) for i in range(len(x))]), "each scaling is fitted with its own expectation value")
        if bounds is not None:
            lo, hi = bounds
            ctx.check(land(*[land(True if a == -np.inf else p >= a, True if b == np.inf else p <= b) for p, a, b in zip(p0, lo, hi)]),
                      "the starting point of the fit lies within its bounds")
        ps = [ctx.real(f"p{i}", -3, 3) for i in range(len(p0))]
        calls.append((f, ps))
        return np.array(ps, dtype=object) if ctx.symbolic else np.array(ps), None

    with patched((zne, "curve_fit", stub)):
        got = getattr(Fit, kind)(xs, ys, False, deg)
    ctx.check(len(calls) == 1, "the data is fitted once")
    f, ps = calls[0]
    g = value_of(got)
    h = value_of(f(0, *ps))
    ctx.check(_near(g, h), "the result is the fitted model at zero noise")
    if kind != "cube_root":
        ctx.check(_near(g, ps[0] + ps[1]), "an offset plus a decay evaluated at zero noise is their sum")
    ctx.cover("fitted")


def h_merge(ctx, n, n_idx):
    """mean over the circuits of one experiment"""
    m = ctx.choice("n", list(range(1, n + 1)))
    idx = [0]
    for i in range(1, m):
        idx.append(ctx.choice(f"index{i}", list(range(min(n_idx, max(idx) + 2)))))
    strs = {k: [qps("Z", Q[:1]), qps("XY", Q[:2])][: 1 + k % 2] for k in set(idx)}
    vals = [{s: ctx.real(f"v{i}_{j}", None, None) for j, s in enumerate(strs[k])} for i, k in enumerate(idx)]
    ops = [QubitPauliOperator({s: _num(ctx, v) for s, v in d.items()}) for d in vals]
    out = zne.merge_experiments_task_gen()((ops, list(idx)))[0]
    ctx.check(len(out) == max(idx) + 1, "one operator per experiment")
    for k in set(idx):
        ctx.check(set(out[k]._dict) == set(strs[k]), "exactly the strings of the experiment")
        mine = [d for i, d in zip(idx, vals) if i == k]
        for s in strs[k]:
            ctx.check(eq(value_of(out[k][s]) * len(mine), ssum([d[s] for d in mine])), "each string's value is the mean over the experiment's circuits")
    ctx.cover("merged")
    if m > 1:
        bad = [QubitPauliOperator({qps("Y", Q[2:]): 1.0})] + ops[:1]
        try:
            zne.merge_experiments_task_gen()((bad, [0, 0]))
        except Exception:
            ctx.cover("mismatch refused")
        else:
            ctx.check(False, "results with different strings are not averaged")


def h_duplicate(ctx):
    """copies for each noise scaling equal the original and share nothing with it"""
    n = ctx.choice("copies", [1, 2, 3])
    k = ctx.choice("experiments", [1, 2, 3])
    v = ctx.real("coeff")
    a = sympy.Symbol("a")
    exps = []
    for i in range(k):
        c = Circuit(2).Rx(a, 0).CX(0, 1)
        sd = SymbolsDict.symbols_from_dict({a: _num(ctx, v)})
        exps.append(ObservableExperiment(AnsatzCircuit(c, ctx.int(f"shots{i}", 1, None), sd), ObservableTracker(QubitPauliOperator({qps("ZX", Q[:2]): _num(ctx, v + i)}))))
    outs = zne.gen_duplication_task(n)((exps,))
    ctx.check(len(outs) == n, "as many wires as asked for")
    every = list(outs) + [exps]
    for w in outs:
        ctx.check(len(w) == k, "every wire holds every experiment")
        for x, y in zip(w, exps):
            ctx.check(x.AnsatzCircuit.Circuit == y.AnsatzCircuit.Circuit and x.ObservableTracker.qubit_pauli_operator._dict.keys() == y.ObservableTracker.qubit_pauli_operator._dict.keys(),
                      "same circuits and strings")
            ctx.check(eq(x.AnsatzCircuit.Shots, y.AnsatzCircuit.Shots), "same shots")
            ctx.check(land(*[eq(value_of(x.ObservableTracker.qubit_pauli_operator[s]), value_of(y.ObservableTracker.qubit_pauli_operator[s])) for s in y.ObservableTracker.qubit_pauli_operator._dict]),
                      "same coefficients")
            ctx.check(list(x.AnsatzCircuit.SymbolsDict.symbols_list) == [a], "same symbols")
    # changing one copy shows in no other
    j = ctx.choice("changed", list(range(n)))
    tgt = outs[j][0]
    tgt.AnsatzCircuit.Circuit.X(0)
    tgt.AnsatzCircuit.SymbolsDict.add_value(a, 5.0)
    tgt.ObservableTracker.extend_operator(QubitPauliOperator({qps("Y", Q[:1]): 2.0}))
    tgt.ObservableTracker.modify_coefficients([(qps("ZX", Q[:2]), 7.0)])
    for i, w in enumerate(every):
        if w is outs[j]:
            continue
        o = w[0].ObservableTracker
        ctx.check(w[0].AnsatzCircuit.Circuit == Circuit(2).Rx(a, 0).CX(0, 1), "changing one copy's circuit shows in no other")
        ctx.check(set(o.qubit_pauli_operator._dict) == {qps("ZX", Q[:2])} and bool(eq(value_of(o.qubit_pauli_operator[qps("ZX", Q[:2])]), v)), "changing one copy's observable shows in no other")
        ctx.check(eq(value_of(w[0].AnsatzCircuit.SymbolsDict._symbolic_map[a]), v), "changing one copy's parameters shows in no other")
    ctx.cover("copied")


def _pass(mp):
    return RenameQubitsPass(mp)


def h_relabel(ctx, n):
    """compilation renames qubits; results come back under the caller's names"""
    perm = ctx.choice("placement", list(itertools.permutations(range(n))))
    base = ctx.choice("names", ["node", "same"])
    tgt = [Node("fcNode", p) if base == "node" else Qubit(p) for p in perm]
    mp = {Q[i]: tgt[i] for i in range(n)}
    be = StubBackend(None)
    be.default_compilation_pass = lambda *a, **k: _pass(mp)
    ws = ctx.choice("strings", list(itertools.combinations([w for w in words(n) if w.count("I") <= 1], 2)) if n == 2 else [("XIZ", "IYY"), ("ZII", "IIX"), ("XYZ", "III")])
    k = ctx.choice("experiments", [1, 2, 3])
    exps, ops = [], []
    for e in range(k):
        ss = [qps(w, Q[:n]) for w in (ws if e == 0 else ws[:1])]
        cs = [ctx.real(f"c{e}_{i}", None, None) for i in range(len(ss))]
        op = {s: _num(ctx, c) for s, c in zip(ss, cs)}
        ops.append(dict(zip(ss, cs)))
        c = Circuit(n).H(0)
        for i in range(n - 1):
            c.CX(i, i + 1)
        exps.append(ObservableExperiment(AnsatzCircuit(c, ctx.int(f"shots{e}", 1, None), SymbolsDict()), ObservableTracker(QubitPauliOperator(op))))
    keep = [x.AnsatzCircuit.Circuit.copy() for x in exps]
    wire, maps = zne.gen_initial_compilation_task(be)((exps,))
    for x, o, e in zip(wire, ops, exps):
        got = x.ObservableTracker.qubit_pauli_operator._dict
        ren = {QubitPauliString({mp[q]: p for q, p in s.map.items()}): c for s, c in o.items()}
        ctx.check(set(got) == set(ren), "observables follow their qubits through compilation")
        ctx.check(land(*[eq(value_of(got[s]), c) for s, c in ren.items() if s in got]), "coefficients are kept")
        ctx.check(eq(x.AnsatzCircuit.Shots, e.AnsatzCircuit.Shots), "shots are kept")
    back = zne.gen_qubit_relabel_task()(([x.ObservableTracker.qubit_pauli_operator for x in wire], maps))[0]
    for b, o in zip(back, ops):
        ctx.check(set(b._dict) == set(o), "results come back under the caller's qubits")
        ctx.check(land(*[eq(value_of(b._dict[s]), c) for s, c in o.items() if s in b._dict]), "values are kept")
    ctx.check(all(a == b.AnsatzCircuit.Circuit for a, b in zip(keep, exps)), "the caller's circuits are unchanged")
    ctx.cover("relabelled")


def _ansatz(k, qs, par=None):
    """experiments are told apart by their entangling gate; one such gate each"""
    c = Circuit()
    for q in qs:
        c.add_qubit(q)
    c.H(qs[0])
    if par is not None:
        c.Rz(par, qs[0])
    if k == 0:
        c.CX(qs[0], qs[1])
    elif k == 1:
        c.CY(qs[1], qs[0])
    else:
        c.ZZMax(qs[0], qs[1])
    c.S(qs[1])
    return c


KEY = {0: (OpType.CX,), 1: (OpType.CY,), 2: (OpType.ZZMax, OpType.ZZPhase)}


def h_full(ctx, scalings, folds, n_exp, words_opts, fits):
    """the whole method on a device whose noise grows polynomially with the number of entangling gates"""
    xs = list(ctx.choice("scalings", scalings))
    fit = ctx.choice("fit", fits)
    fold = ctx.choice("folding", folds)
    perm = ctx.choice("placement", [(0, 1), (1, 0)])
    deg = 1 if fit == "linear" else len(xs) - 1
    mp = {Q[i]: Node("n", perm[i]) for i in range(2)}
    nodes = [mp[Q[0]], mp[Q[1]]]
    coef = {}
    for e in range(n_exp):
        coef[e] = {w: [ctx.real(f"s{e}_{w}_{k}", -1, 1) for k in range(deg + 1)] for w in words(2) if w != "II"}
    order = ctx.choice("order", list(itertools.permutations(range(n_exp)))[:2])
    shots = {e: ctx.int(f"shots{e}", 1, 10**6) for e in range(n_exp)}
    seen = {}

    def state(e, lam, qs):
        st = SymState.__new__(SymState)
        st.qubits, st.n, st.ctx = sorted(qs), 2, ctx
        st.coef = {}
        for w in words(2):
            v = "".join(w[qs.index(q)] for q in st.qubits)   # letter of the logical qubit that lives there
            st.coef[v] = 1 if w == "II" else ssum([c * lam ** k for k, c in enumerate(coef[e][w])])
        return st

    def provider(c, s, j):
        n = {e: sum(1 for com in c.get_commands() if com.op.type in KEY[e]) for e in range(n_exp)}
        e = max(n, key=lambda k: n[k])
        ctx.check(eq(s, shots[e]), "every circuit runs with its experiment's shots")
        seen.setdefault(e, set()).add(n[e])
        return state(e, n[e], nodes).run(c)

    be = StubBackend(provider)
    be.default_compilation_pass = lambda *a, **k: _pass(mp)
    be.rebase_pass = lambda *a, **k: CustomPass(lambda c: c)
    exps, want, keep = [], [], []
    for e in order:
        a = _ansatz(e, Q[:2])
        ws = ctx.choice(f"strings{e}", words_opts)
        op = [qps(w, Q[:2]) for w in ws]
        exps.append(ObservableExperiment(AnsatzCircuit(a, shots[e], SymbolsDict()), ObservableTracker(QubitPauliOperator({s: 0.75 for s in op}))))
        st0 = state(e, 0, list(Q[:2]))
        want.append({s: Fraction(3, 4) * st0.expect(s, a) if ctx.symbolic else 0.75 * st0.expect(s, a) for s in op})
        keep.append(a.copy())
    with Rand(ctx).installed():
        me = gen_ZNE_MitEx(be, xs, fit_type=getattr(Fit, fit), folding_type=getattr(Folding, fold))
        res = me.run(exps)
    ctx.check(len(res) == n_exp, "one operator per experiment")
    ctx.check(all(v == set(xs) for v in seen.values()) and len(seen) == n_exp, "every experiment runs at every noise scaling")
    for r, w in zip(res, want):
        ctx.check(set(r._dict) == set(w), "each experiment gets its own strings")
        for s in w:
            ctx.check(_near(value_of(r[s]), w[s], 1e-5), "the mitigated value is the noise-free expectation of the string")
    ctx.check(all(x.AnsatzCircuit.Circuit == k for x, k in zip(exps, keep)), "the caller's circuits are unchanged")
    ctx.cover("mitigated")


SC = [(1, 3), (1, 3, 5), (5, 1, 3), (1, 2, 3, 4), (1.5, 1, 3)]
HARNESSES = [
    Harness("poly", h_poly, "2-4 scalings in five lists and orders, degree up to 3 (thorough 5 scalings, degree 4), 1-3 experiments, polynomial coefficients in [-2,2]", ["extrapolated"],
            quick=dict(scalings=SC, degs=[0, 1, 2, 3]), thorough=dict(scalings=SC + [(1, 3, 5, 7, 9), (1, 1.2, 1.4, 1.6, 1.8)], degs=[0, 1, 2, 3, 4])),
    Harness("fit", h_fit, "arbitrary data in [-2,2] at 2-4 scalings (thorough 5)", ["fitted"], quick=dict(scalings=SC), thorough=dict(scalings=SC + [(1, 3, 5, 7, 9), (9, 2, 7, 1.25, 3)])),
    Harness("fit_refused", h_fit_refused, "1..4 points, any inadmissible degree", ["refused"]),
    Harness("curve", h_curve, "exponential, poly-exponential (any admissible degree) and cube-root fits, data in [-5,5], arbitrary fitted parameters", ["fitted"],
            quick=dict(scalings=[(1, 3, 5), (5, 1, 3), (1, 2, 3, 4), (7, 3, 5)])),
    Harness("merge", h_merge, "up to 4 circuits of up to 3 experiments", ["merged", "mismatch refused"], quick=dict(n=4, n_idx=3), thorough=dict(n=6, n_idx=4)),
    Harness("duplicate", h_duplicate, "1..3 copies of 1..3 experiments", ["copied"]),
    Harness("relabel", h_relabel, "2 qubits (all pairs of strings), all placements", ["relabelled"], quick=dict(n=2)),
    Harness("relabel3", h_relabel, "3 qubits, three operators, all placements", ["relabelled"], quick=dict(n=3)),
    Harness("full3", h_full, "3 experiments on 2 qubits in either order, arbitrary polynomial noise on an arbitrary state", ["mitigated"],
            quick=dict(scalings=[(3, 1)], folds=["two_qubit_gate"], n_exp=3, words_opts=[("ZX",)], fits=["linear"]),
            stubs=["backend: exact outcome frequencies of a state whose noise depends on the number of entangling gates"]),
    Harness("full", h_full, "1-2 experiments on 2 qubits in either order, two foldings and fits, both placements, arbitrary polynomial noise on an arbitrary state", ["mitigated"],
            quick=dict(scalings=[(1, 3), (3, 1, 5)], folds=["circuit", "two_qubit_gate"], n_exp=2, words_opts=[("ZX",), ("II", "YZ")], fits=["linear", "richardson"]),
            thorough=dict(scalings=[(1, 3), (3, 1, 5), (1, 3, 5, 7)], folds=["circuit", "two_qubit_gate"], n_exp=3, words_opts=[("ZX",), ("II", "YZ")], fits=["linear", "richardson"]),
            stubs=["backend: exact outcome frequencies of a state whose noise depends on the number of entangling gates"]),
]
