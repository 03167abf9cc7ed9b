"""Q05 -- reported expectation values are coefficient times the parity average of the right bits."""
import itertools
import sympy
from symx import engine as E
from symx.engine import eq, land, ssum
from symx.runner import Harness
from symx.shims import value_of
from symx.stubs import StubBackend, counts_result, sym_counts
from symx.phys import SymState, qps, words
from symx.qsem import same_unitary
from pytket import Circuit, Bit, Qubit
from pytket.pauli import Pauli, QubitPauliString
from pytket.partition import PauliPartitionStrat, GraphColourMethod
from pytket.utils import QubitPauliOperator
from qermit import MitEx, MitRes, MeasurementCircuit, ObservableTracker, ObservableExperiment, AnsatzCircuit, CircuitShots, SymbolsDict
from qermit.taskgraph.mitex import get_basic_measurement_circuit, filter_observable_tracker_task_gen, get_expectations_task_gen
from qermit.taskgraph import gen_MeasurementReduction_MitEx

ASSUMPTIONS = ["each Pauli string is measured by one circuit", "every result holds at least one shot",
               "device outcomes are exact outcome frequencies of an arbitrary state in which every outcome has non-zero weight (end_to_end, reduction)"]
Q = [Qubit(i) for i in range(4)]
PS = [qps(w, Q[:2]) for w in ("ZI", "XY", "II", "IZ")]


def h_expect(ctx, n_str, n_bits, n_circ):
    n = ctx.choice("n_strings", list(range(1, n_str + 1)))
    m = ctx.choice("n_circ", list(range(1, n_circ + 1)))
    coeffs = [ctx.real(f"coeff{i}") for i in range(n)]
    op = QubitPauliOperator({PS[i]: (sympy.sympify(c) if ctx.symbolic else c) for i, c in enumerate(coeffs)})
    tracker = ObservableTracker(op)
    subsets = [s for k in range(1, n_bits + 1) for s in itertools.permutations(range(n_bits), k)] + [()]
    info = []
    for i in range(n):
        j = ctx.choice(f"circ{i}", list(range(m)))
        s = ctx.choice(f"bits{i}", subsets if i == 0 else subsets[:4])
        inv = ctx.choice(f"inv{i}", [False, True])
        info.append((j, s, inv))
    circs = []
    for j in range(m):
        c = Circuit(1)
        mc = MeasurementCircuit(c)
        circs.append(mc)
        tracker.add_measurement_circuit(mc, [(PS[i], [Bit(b) for b in info[i][1]], info[i][2]) for i in range(n) if info[i][0] == j])
    perm = ctx.choice("order", list(itertools.permutations(range(n_bits))))
    counts, results = [], []
    for j in range(m):
        cnt = sym_counts(ctx, f"n{j}", n_bits, lo=1)
        counts.append(cnt)
        # column k of an outcome is bit perm[k]
        results.append(counts_result({tuple(o[perm[k]] for k in range(n_bits)): v for o, v in cnt.items()}, [Bit(perm[k]) for k in range(n_bits)]))
    out = tracker.get_expectations(results)
    ctx.check(set(out._dict) == set(PS[:n]), "one expectation per string")
    for i in range(n):
        j, s, inv = info[i]
        tot = ssum(counts[j].values())
        par = ssum([(-v if sum(o[b] for b in s) % 2 else v) for o, v in counts[j].items()])
        want = par * coeffs[i] * (-1 if inv else 1)
        got = value_of(out[PS[i]])
        ctx.check(eq(got * tot, want), "expectation is coefficient times the (inverted) parity average of its bits")
        ctx.observe(f"e{i}", got)
    ctx.cover("expectations")


def h_zero_counts(ctx, n_bits):
    """outcomes that never occurred, and any total of at least one"""
    cnt = sym_counts(ctx, "n", n_bits, lo=0)
    tot = ssum(cnt.values())
    ctx.assume(tot >= 1)
    s = ctx.choice("bits", [(0,), tuple(range(n_bits)), tuple(reversed(range(n_bits)))])
    tracker = ObservableTracker(QubitPauliOperator({PS[0]: 1.0}))
    tracker.add_measurement_circuit(MeasurementCircuit(Circuit(1)), [(PS[0], [Bit(b) for b in s], False)])
    out = tracker.get_expectations([counts_result(cnt, [Bit(b) for b in range(n_bits)])])
    par = ssum([(-v if sum(o[b] for b in s) % 2 else v) for o, v in cnt.items()])
    ctx.check(eq(value_of(out[PS[0]]) * tot, par), "expectation is the parity average")
    ctx.cover("expectations")


def _regs(kind, n):
    if kind == 0:
        return [Qubit(i) for i in range(n)]
    if kind == 1:
        return [Qubit("b", max(3, n - 1) - i) for i in range(n)]
    return [Qubit("z", 0)] + [Qubit("a", i + 1) for i in range(n - 1)]


def _ansatz(k, qs):
    c = Circuit()
    for q in qs:
        c.add_qubit(q)
    if k == 1:
        c.H(qs[0])
        if len(qs) > 1:
            c.CX(qs[0], qs[1])
            c.S(qs[1])
    elif k == 2:
        c.V(qs[-1])
        for a, b in zip(qs, qs[1:]):
            c.SWAP(a, b)
            c.CZ(a, b)
    return c


def h_basic(ctx, n, some=None):
    """the measurement circuit of a string reads out that string, for every state and every register naming"""
    kind = ctx.choice("registers", [0, 1, 2])
    qs = _regs(kind, n)
    order = ctx.choice("order", list(itertools.permutations(range(n))) if some is None else [tuple(range(n)), tuple(reversed(range(n)))])
    w = ctx.choice("word", some or words(n))
    string = QubitPauliString([qs[i] for i in order], [qps(w, qs).map.get(qs[i], Pauli.I) for i in order])
    circ, info = get_basic_measurement_circuit(string)
    st = SymState(ctx, "r", qs)
    full = _ansatz(0, qs)
    full.append(circ)
    bits, dist = st.distribution(full)
    ctx.check(info[0] == string and info[2] is False or bool(info[0] == string), "the circuit is registered for its string")
    e = ssum([(-p if sum(v for b, v in zip(bits, o) if b in info[1]) % 2 else p) for o, p in dist.items()])
    if info[2]:
        e = -e
    ctx.check(eq(e, st.expect(string)), "the parity of the named bits is the value of the string, for every state")
    ctx.cover("word")


def _run(ctx, qs, n_str, mk, ansatz_kinds, experiments, word_opts, first=None):
    """build experiments, run them through the MitEx and compare with the true expectations"""
    states = {}
    exps, wants = [], []
    be = StubBackend(None)
    for k in range(experiments):
        a = _ansatz(ctx.choice(f"ansatz{k}", ansatz_kinds), qs)
        a.name = f"exp{k}"
        ws = ctx.choice(f"strings{k}", word_opts)
        strings = [qps(w, qs) for w in ws]
        coeffs = [ctx.real(f"c{k}_{i}") for i in range(len(ws))]
        st = SymState(ctx, f"s{k}", qs)
        op = QubitPauliOperator({s: (sympy.sympify(c) if ctx.symbolic else c) for s, c in zip(strings, coeffs)})
        shots = ctx.int(f"shots{k}", 1, 10**6)
        # a leading marker gate identifies the experiment a circuit belongs to
        states[k] = (st, a, shots)
        exps.append((a, shots, op))
        wants.append({s: c * st.expect(s, a) for s, c in zip(strings, coeffs)})
    return states, exps, wants


def h_end_to_end(ctx, n, n_exp, kinds):
    """MitEx.run: every experiment's operator carries coefficient x true expectation"""
    qs = _regs(ctx.choice("registers", [0, 2]), n)
    opts = [("ZX", "YI"), ("II", "IY", "XX")] if n == 2 else [("ZXY", "IIZ"), ("YYY",)]
    states, exps, wants = _run(ctx, qs, 2, None, kinds, n_exp, opts)
    basic = ctx.choice("basic", [False, True])

    def provider(c, s, j):
        k = int(c.name[3:])
        st, a, shots = states[k]
        ctx.check(eq(s, shots), "every circuit runs with its experiment's shots")
        return st.run(c)

    be = StubBackend(provider)
    # names survive circ.copy(); a backend may return bits and registers untouched
    me = MitEx(be)
    keep = [a.copy() for a, _, _ in exps]
    if basic:
        res = me.run_basic([(CircuitShots(a, s), op) for a, s, op in exps])
    else:
        res = me.run([ObservableExperiment(AnsatzCircuit(a, s, SymbolsDict()), ObservableTracker(op)) for a, s, op in exps])
    ctx.check(len(res) == len(exps), "one operator per experiment")
    for r, w in zip(res, wants):
        ctx.check(set(r._dict) == set(w), "each experiment gets exactly its own strings")
        for s in w:
            ctx.check(eq(value_of(r[s]), w[s]), "each string's value is its coefficient times its true expectation")
    ctx.check(all(a == b for (a, _, _), b in zip(exps, keep)), "the caller's circuits are unchanged")
    ctx.cover("ran")


def h_reduction(ctx, n, opts, kinds, n_exp=1):
    """measurement reduction: fewer circuits, same expectations"""
    qs = [Qubit(i) for i in range(n)]
    strat = ctx.choice("strategy", [PauliPartitionStrat.NonConflictingSets, PauliPartitionStrat.CommutingSets])
    meth = ctx.choice("method", [GraphColourMethod.Lazy, GraphColourMethod.LargestFirst, GraphColourMethod.Exhaustive])
    states, exps, wants = _run(ctx, qs, 2, None, kinds, n_exp, opts)
    ran = {k: 0 for k in states}

    def provider(c, s, j):
        k = int(c.name[3:]) if n_exp > 1 else 0
        st, a, shots = states[k]
        ran[k] += 1
        ctx.check(eq(s, shots), "every circuit runs with its experiment's shots")
        return st.run(c)

    be = StubBackend(provider)
    me = gen_MeasurementReduction_MitEx(be, strategy=strat, method=meth)
    res = me.run([ObservableExperiment(AnsatzCircuit(a, s, SymbolsDict()), ObservableTracker(op)) for a, s, op in exps])
    ctx.check(len(res) == n_exp, "one operator per experiment")
    for k, (r, w) in enumerate(zip(res, wants)):
        ctx.check(set(r._dict) == set(w), "exactly the requested strings are reported")
        for s in w:
            ctx.check(eq(value_of(r[s]), w[s]), "each string's value is its coefficient times its true expectation")
        ctx.check(ran[k] <= len(w), "no more circuits than strings")
        ss = [s for s in w if any(p != Pauli.I for p in s.map.values())]
        free = [s for s, t in itertools.combinations(ss, 2) if (s.commutes_with(t) if strat == PauliPartitionStrat.CommutingSets else
                                                                 all(s[q] in (Pauli.I, t[q]) or t[q] == Pauli.I for q in qs))]
        ctx.check(not free or ran[k] < len(ss), "strings that can be measured together share circuits")
        if ran[k] < len(w):
            ctx.cover("reduced")


def h_unknown(ctx):
    """an observable on a qubit that the circuit lacks is rejected"""
    n = ctx.choice("n", [1, 2, 3])
    qs = _regs(ctx.choice("registers", [0, 1, 2]), n)
    extra = ctx.choice("extra", [Qubit(7), Qubit("q", n), Qubit("other", 0)])
    p = ctx.choice("pauli", [Pauli.X, Pauli.Y, Pauli.Z])
    also = ctx.choice("also", [Pauli.I, Pauli.Z])
    s = QubitPauliString({extra: p, qs[0]: also})
    be = StubBackend(lambda c, sh, k: None)
    try:
        MitEx(be).run([ObservableExperiment(AnsatzCircuit(_ansatz(0, qs), ctx.int("shots", 1, None), SymbolsDict()),
                                            ObservableTracker(QubitPauliOperator({qps("Z", qs[:1]): 1.0, s: 1.0})))])
    except E.PathAbort:
        raise
    except Exception:
        ctx.cover("rejected")
        ctx.check(len(be.jobs) == 0, "nothing is run for a rejected observable")
        return
    ctx.check(False, "an observable on qubits missing from the circuit is rejected")


def h_symbols(ctx, n_sym):
    """parameters are substituted into what is run, and only there"""
    names = ["a", "b", "c"][:n_sym]
    # sympy symbols of the ansatz and the (arbitrary) angles they stand for
    syms = [sympy.Symbol("p_" + x) for x in names]
    vals = [ctx.angle(x) for x in names]
    shape = ctx.choice("shape", [0, 1, 2])

    def build(v):
        c = Circuit(2)
        c.Rx(v[0], 0)
        if shape:
            c.Rz(v[-1], 0)
            c.CX(0, 1)
        if shape == 2:
            c.Ry(v[0] + v[-1], 1)
            c.ZZPhase(-v[-1], 0, 1)
        return c

    ans = build(syms)
    keep = ans.copy()
    order = ctx.choice("order", list(itertools.permutations(range(n_sym))))
    how = ctx.choice("how", ["dict", "list", "add_value"])
    # the same circuit and observable may be run with several values of the parameters
    batch = [vals] if ctx.choice("experiments", [1, 2]) == 1 else [[ctx.angle(x + "2") for x in names], vals]
    exps, trs, shots = [], [], []
    for k, vs in enumerate(batch):
        if how == "dict":
            sd = SymbolsDict.symbols_from_dict({syms[i]: vs[i] for i in order})
        else:
            sd = SymbolsDict.symbols_from_list([syms[i] if how == "list" else str(syms[i]) for i in order])
            if how == "list":
                sd.set_values([vs[i] for i in order])
            else:
                for i in reversed(order):
                    sd.add_value(syms[i], vs[i])
        ctx.check(sd.get_symbolic_map([vs[i] for i in order]) == {syms[i]: vs[i] for i in order}, "values are matched to symbols in the order the symbols were given")
        ctx.check(list(sd.symbols_list) == [syms[i] for i in order], "symbols keep the order they were given in")
        trs.append(ObservableTracker(QubitPauliOperator({qps("ZX", Q[:2]): 1.0, qps("YI", Q[:2]): 1.0})))
        shots.append(ctx.int(f"shots{k}", 1, None))
        exps.append(ObservableExperiment(AnsatzCircuit(ans, shots[k], sd), trs[k]))
    wires, out = filter_observable_tracker_task_gen()([exps])
    ctx.check(len(wires) == len(out) == len(exps) and all(len(w) == 2 for w in wires), "one measurement circuit per string")
    for w, tr, vs, sh in zip(wires, out, batch, shots):
        for s in tr.qubit_pauli_operator._dict:
            (mc,) = tr.get_measurement_circuits(s)
            cs = w[[m is mc for m in tr.measurement_circuits].index(True)]
            ref = build(vs)
            ref.append(get_basic_measurement_circuit(s)[0])
            ctx.check(same_unitary(ctx, cs.Circuit, ref), "what runs is the ansatz at the requested parameters in the basis of the string")
            ctx.check(eq(cs.Shots, sh), "shots kept")
    ctx.check(ans == keep, "the caller's ansatz stays parametric")
    ctx.cover("substituted")


TWO = [tuple(c) for k in (2, 3) for c in itertools.combinations(["ZI", "IZ", "ZZ", "XX", "YY", "XI"], k)]
HARNESSES = [
    Harness("expect", h_expect, "up to 2 strings over up to 2 circuits of 2 bits, any coefficients, any positive counts, bit subsets and orders, inversions",
            ["expectations"], quick=dict(n_str=2, n_bits=2, n_circ=2)),
    Harness("expect3", h_expect, "1 string over 1 or 2 circuits of 3 bits", ["expectations"], quick=dict(n_str=1, n_bits=3, n_circ=2), only="thorough"),
    Harness("zero_counts", h_zero_counts, "2 bits (thorough 3), any counts including outcomes that never occurred", ["expectations"], quick=dict(n_bits=2), thorough=dict(n_bits=3)),
    Harness("basic", h_basic, "all Pauli strings on 2 (thorough 3) qubits in any order and register naming, arbitrary state", ["word"], quick=dict(n=2), thorough=dict(n=3)),
    Harness("wide", h_basic, "long Pauli strings on 5 (thorough 6) qubits, arbitrary state", ["word"], quick=dict(n=5, some=["YYYYY", "XYZYX", "IXIYI"]),
            thorough=dict(n=6, some=["YYYYYY", "XXXXXX", "XYZZYX", "IXYIYZ"]), max_paths=60000, time_budget=800),
    Harness("end_to_end", h_end_to_end, "1..2 experiments on 2 qubits (thorough 3 experiments), Clifford ansatz, arbitrary input state, coefficients and shots", ["ran"],
            quick=dict(n=2, n_exp=2, kinds=[1, 2]), thorough=dict(n=2, n_exp=3, kinds=[0, 1, 2]), stubs=["backend: exact outcome frequencies of an arbitrary state"]),
    Harness("end_to_end3", h_end_to_end, "1 experiment on 3 qubits, Clifford ansatz, arbitrary input state, coefficients and shots", ["ran"],
            quick=dict(n=3, n_exp=1, kinds=[1, 2]), thorough=dict(n=3, n_exp=2, kinds=[0, 1, 2]), stubs=["backend: exact outcome frequencies of an arbitrary state"]),
    Harness("reduction", h_reduction, "sets of 2-3 of six two-qubit strings, 2 strategies, 3 colourings, arbitrary state and coefficients (thorough: two ansatz circuits and three-qubit sets)", ["reduced"],
            quick=dict(n=2, opts=TWO[::2], kinds=[1]), thorough=dict(n=2, opts=TWO, kinds=[1, 2]), stubs=["backend: exact outcome frequencies of an arbitrary state"]),
    Harness("batch", h_end_to_end, "3 (thorough 5) experiments on 2 qubits, Clifford ansatz, arbitrary input states, coefficients and shots", ["ran"],
            quick=dict(n=2, n_exp=3, kinds=[1]), thorough=dict(n=2, n_exp=5, kinds=[2]), stubs=["backend: exact outcome frequencies of an arbitrary state"], max_paths=60000, time_budget=800),
    Harness("reduction_batch", h_reduction, "batches of 3 experiments of 2-3 strings", ["reduced"], quick=dict(n=2, opts=[("ZI", "IZ", "XX"), ("YY", "XX")], kinds=[1], n_exp=3),
            thorough=dict(n=2, opts=[("ZI", "IZ", "XX"), ("YY", "XX")], kinds=[1, 2], n_exp=3), stubs=["backend: exact outcome frequencies of an arbitrary state"], max_paths=60000, time_budget=800),
    Harness("reduction3", h_reduction, "sets of three-qubit strings", ["reduced"], quick=dict(n=3, opts=[("XYZ", "ZZX", "IXI"), ("XXI", "IXX", "YYZ")], kinds=[2]),
            thorough=dict(n=3, opts=[("XYZ", "ZZX", "IXI"), ("XXI", "IXX", "YYZ"), ("ZZI", "IZZ", "XXX", "YYX"), ("XYI", "YXI", "IIZ", "ZZZ")], kinds=[1, 2])),
    Harness("unknown", h_unknown, "circuits of 1..3 qubits, three register namings", ["rejected"]),
    Harness("symbols", h_symbols, "2 parameters (thorough 3), all angles", ["substituted"], quick=dict(n_sym=2), thorough=dict(n_sym=3)),
]
