"""Q06 -- observable trackers and symbol tables behave as independent records over every history."""
import sympy
from symx import engine as E
from fractions import Fraction
from symx.engine import eq, land, ssum
from symx.runner import Harness
from symx.shims import value_of
from symx.stubs import counts_result
from pytket import Circuit, Bit, Qubit
from pytket.pauli import Pauli, QubitPauliString
from pytket.utils import QubitPauliOperator
from qermit import MeasurementCircuit, ObservableTracker, SymbolsDict

ASSUMPTIONS = ["each tracker is given an operator object of its own",
               "a call that raises ends the history of that tracker"]
S = [QubitPauliString(Qubit(0), p) for p in (Pauli.X, Pauli.Y, Pauli.Z)]


class Ref:
    def __init__(self, coef):
        self.coef = dict(coef)
        self.meas = {s: [] for s in coef}
        self.circs = []

    def copy(self):
        r = Ref({})
        r.coef = dict(self.coef)
        r.meas = {k: list(v) for k, v in self.meas.items()}
        r.circs = list(self.circs)
        return r


def _op(d):
    return QubitPauliOperator({s: c for s, c in d.items()})


def _compare(ctx, t, r, results):
    ctx.check(set(t.qubit_pauli_operator._dict) == set(r.coef), "the tracker holds exactly its strings")
    for s, c in r.coef.items():
        ctx.check(eq(value_of(t.qubit_pauli_operator[s]), c), "coefficients are those given last")
    ctx.check(len(t.measurement_circuits) == len(r.circs) and all(a is b for a, b in zip(t.measurement_circuits, r.circs)),
              "the tracker holds exactly the circuits added to it")
    ctx.check(set(t.get_empty_strings()) == {s for s in r.coef if not r.meas[s]}, "strings without a circuit are reported")
    for s in S:
        known = s in r.coef
        ctx.check(t.check_string(s) == bool(known and r.meas[s]), "a string is covered exactly if it is tracked and a circuit was added for it")
        if known:
            got = t.get_measurement_circuits(s)
            want = [r.circs[j] for j, _ in r.meas[s]]
            ctx.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), "circuits of a string are those added for it")


def _expectations(ctx, t, r):
    """the record is what the estimates are made from: each circuit reads an own known value"""
    # ones out of four shots; any number of them
    vals = [ctx.real(f"ones{j}", Fraction(1, 100), Fraction(399, 100)) for j in range(len(r.circs))]
    res = [counts_result({(0,): 4 - v, (1,): v}, [Bit(0)]) if ctx.symbolic else counts_result({(0,): round((4 - v) * 2**40), (1,): round(v * 2**40)}, [Bit(0)]) for v in vals]
    out = t.get_expectations(res)
    ctx.check(set(out._dict) == set(r.coef), "an estimate for exactly the tracked strings")
    for s in r.coef:
        n = len(r.meas[s])
        want = ssum([(4 - 2 * vals[j]) * r.coef[s] * (-1 if inv else 1) for j, inv in r.meas[s]])
        d = value_of(out[s]) * (4 * n) - want
        ctx.check(land(d <= 1e-6, d >= -1e-6), "each estimate uses the string's own circuits, inversions and coefficient")


def h_long(ctx, steps, n_trackers):
    """longer histories of one tracker and its copies, ending in estimates"""
    d = {s: ctx.real(f"c{j}", -2, 2) for j, s in enumerate(S[:2])}
    ts, refs = [ObservableTracker(_op(d))], [Ref(d)]
    for k in range(steps):
        i = ctx.choice(f"on{k}", list(range(len(ts))))
        t, r = ts[i], refs[i]
        op = ctx.choice(f"op{k}", ["add0", "add1", "add01", "remove0", "extend2", "again0", "modify1", "clear"] + (["copy"] if len(ts) < n_trackers else []))
        if op.startswith("add"):
            ss = [int(x) for x in op[3:]]
            ctx.assume(all(S[j] in r.coef for j in ss))
            mc = MeasurementCircuit(Circuit(1, 1))
            t.add_measurement_circuit(mc, [(S[j], [Bit(0)], k % 2 == 1) for j in ss])
            r.circs.append(mc)
            for j in ss:
                r.meas[S[j]].append((len(r.circs) - 1, k % 2 == 1))
        elif op == "remove0":
            t.remove_strings([S[0]])
            r.coef.pop(S[0], None)
            r.meas.pop(S[0], None)
        elif op in ("extend2", "again0"):
            s, c = S[2 if op == "extend2" else 0], ctx.real(f"e{k}", -2, 2)
            t.extend_operator(_op({s: c}))
            r.coef[s] = r.coef.get(s, 0) + c
            r.meas.setdefault(s, [])
        elif op == "modify1":
            c = ctx.real(f"e{k}", -2, 2)
            t.modify_coefficients([(S[1], c)])
            r.coef[S[1]] = c
        elif op == "clear":
            t.clear()
            r.circs = []
            r.meas = {s: [] for s in r.coef}
        else:
            ts.append(ObservableTracker.from_ObservableTracker(t))
            refs.append(r.copy())
    for t_, r_ in zip(ts, refs):
        _compare(ctx, t_, r_, None)
        if r_.coef and all(r_.meas[s] for s in r_.coef):
            _expectations(ctx, t_, r_)
            ctx.cover("estimated")
    ctx.cover("history")


def h_tracker(ctx, steps, n_trackers, est):
    ts, refs = [], []

    def new(t, r):
        ts.append(t)
        refs.append(r)

    n_coef = [0]

    def coef():
        n_coef[0] += 1
        return ctx.real(f"c{n_coef[0]}")

    def fresh(kind):
        if kind == 0:
            new(ObservableTracker(), Ref({}))
        else:
            d = {s: coef() for s in S[:kind]}
            new(ObservableTracker(_op(d)), Ref(d))

    fresh(ctx.choice("first", [0, 1, 2]))
    for k in range(steps):
        ops = ["extend", "modify", "remove", "add", "clear"] + (["new", "copy"] if len(ts) < n_trackers else [])
        op = ctx.choice(f"op{k}", ops)
        i = ctx.choice(f"on{k}", list(range(len(ts)))) if op != "new" else 0
        t, r = ts[i], refs[i]
        if op == "new":
            fresh(ctx.choice(f"kind{k}", [0, 1]))
        elif op == "copy":
            new(ObservableTracker.from_ObservableTracker(t), r.copy())
        elif op == "extend":
            ss = ctx.choice(f"strings{k}", [(0,), (2,), (0, 1)])
            d = {S[j]: coef() for j in ss}
            t.extend_operator(_op(d))
            for s, c in d.items():
                r.coef[s] = r.coef.get(s, 0) + c
                r.meas.setdefault(s, [])
        elif op == "modify":
            s = S[ctx.choice(f"string{k}", [0, 1])]
            c = coef()
            try:
                t.modify_coefficients([(s, c)])
                ctx.check(s in r.coef, "modifying a string that is not tracked is rejected")
                r.coef[s] = c
            except ValueError:
                ctx.check(s not in r.coef, "a tracked string can be modified")
        elif op == "remove":
            ss = ctx.choice(f"strings{k}", [(0,), (1,), (0, 2)])
            t.remove_strings([S[j] for j in ss])
            for j in ss:
                r.coef.pop(S[j], None)
                r.meas.pop(S[j], None)
        elif op == "add":
            ss = ctx.choice(f"strings{k}", [(0,), (1,), (1, 0)])
            inv = ctx.choice(f"inv{k}", [False, True])
            mc = MeasurementCircuit(Circuit(1, 1))
            try:
                t.add_measurement_circuit(mc, [(S[j], [Bit(0)], inv) for j in ss])
            except ValueError:
                ctx.check(any(S[j] not in r.coef for j in ss), "a circuit for tracked strings is accepted")
                raise E.PathAbort()
            ctx.check(all(S[j] in r.coef for j in ss), "a circuit for a string that is not tracked is rejected")
            r.circs.append(mc)
            for j in ss:
                r.meas[S[j]].append((len(r.circs) - 1, inv))
        elif op == "clear":
            t.clear()
            r.circs = []
            r.meas = {s: [] for s in r.coef}
        for t_, r_ in zip(ts, refs):
            _compare(ctx, t_, r_, None)
    if est:
        for t_, r_ in zip(ts, refs):
            if all(r_.meas[s] for s in r_.coef):
                _expectations(ctx, t_, r_)
                ctx.cover("estimated")
    ctx.cover("history")


def h_symbols(ctx, steps):
    ref = {}
    names = ["a", "b", "c"]
    sd = SymbolsDict()
    other, oref = None, None
    for k in range(steps):
        op = ctx.choice(f"op{k}", ["add_str", "add_sym", "value", "set", "map", "fork"])
        if op in ("add_str", "add_sym"):
            n = ctx.choice(f"name{k}", names)
            sd.add_symbol(n if op == "add_str" else sympy.Symbol(n))
            ref[sympy.Symbol(n)] = None
        elif op == "value":
            s = sympy.Symbol(ctx.choice(f"name{k}", names))
            v = ctx.real(f"v{k}")
            try:
                sd.add_value(s, v)
                ctx.check(s in ref, "a value for an unknown symbol is rejected")
                ref[s] = v
            except ValueError:
                ctx.check(s not in ref, "a known symbol accepts a value")
        elif op == "set":
            vs = [ctx.real(f"v{k}_{j}") for j in range(len(ref))]
            sd.set_values(vs)
            ref = dict(zip(ref, vs))
        elif op == "map":
            vs = [ctx.real(f"v{k}_{j}") for j in range(len(ref))]
            m = sd.get_symbolic_map(vs)
            ctx.check(list(m) == list(ref) and eq(list(m.values()), vs), "values are matched to symbols in order")
        elif op == "fork":
            # a second table over the same symbols starts without values and is independent
            other = SymbolsDict.symbols_from_list(list(sd.symbols_list))
            oref = {s: None for s in ref}
        for d, r in ((sd, ref), (other, oref)):
            if d is None:
                continue
            ctx.check(list(d.symbols_list) == list(r), "the symbols are those added, in order")
            for s in r:
                got = d._symbolic_map[s]
                ctx.check(got is None if r[s] is None else (got is not None and eq(got, r[s])), "each symbol holds the value given last")
    ctx.cover("history")


def h_defaults(ctx):
    """objects made with default arguments share nothing"""
    kinds = [ctx.choice(f"k{j}", ["tracker", "symbols", "circuit"]) for j in range(2)]
    for kind in kinds:
        if kind == "tracker":
            a, b = ObservableTracker(), ObservableTracker()
            a.extend_operator(_op({S[0]: ctx.real("c")}))
            ctx.check(len(b.qubit_pauli_operator._dict) == 0 and b.get_empty_strings() == [], "a new tracker is empty")
            ctx.check(len(ObservableTracker().qubit_pauli_operator._dict) == 0, "a later tracker is empty")
        elif kind == "symbols":
            a, b = SymbolsDict(), SymbolsDict()
            a.add_symbol("x")
            ctx.check(list(b.symbols_list) == [] and list(SymbolsDict().symbols_list) == [], "a new table is empty")
        else:
            c = Circuit(1).Rx(sympy.Symbol("p"), 0)
            m, m2 = MeasurementCircuit(c), MeasurementCircuit(Circuit(1))
            ctx.check(list(m.symbols) == [sympy.Symbol("p")] and list(m2.symbols) == [], "symbols are those of the circuit")
    ctx.cover("fresh")


HARNESSES = [
    Harness("tracker", h_tracker, "histories of 2 steps (thorough 3) over up to 2 trackers and 3 strings, any coefficients", ["history"],
            quick=dict(steps=2, n_trackers=2, est=False), thorough=dict(steps=3, n_trackers=2, est=False)),
    Harness("tracker3", h_tracker, "histories of 3 steps over one tracker and its copy... ending in estimates with any counts", ["history", "estimated"],
            quick=dict(steps=2, n_trackers=2, est=True), thorough=dict(steps=3, n_trackers=2, est=True), max_paths=60000, time_budget=700),
    Harness("long", h_long, "histories of 4 steps of 8 kinds over one tracker (thorough 5 steps, or 4 over a tracker and its copy), any coefficients and counts", ["history", "estimated"],
            quick=dict(steps=4, n_trackers=1), thorough=dict(steps=5, n_trackers=1), max_paths=60000, time_budget=800),
    Harness("long_copy", h_long, "histories of 3 steps (thorough 4) of 9 kinds over a tracker and its copies", ["history", "estimated"],
            quick=dict(steps=3, n_trackers=2), thorough=dict(steps=4, n_trackers=3), max_paths=60000, time_budget=800),
    Harness("symbols", h_symbols, "histories of 3 steps (thorough 4) over 3 symbols, any values", ["history"], quick=dict(steps=3), thorough=dict(steps=4), max_paths=60000),
    Harness("defaults", h_defaults, "any two of the three classes", ["fresh"]),
]
