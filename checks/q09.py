"""Q09 -- digital noise scaling keeps the circuit's action and scales its gates as asked."""
import itertools
from fractions import Fraction
from symx import engine as E
from symx.engine import eq, land, lor
from symx.runner import Harness
from symx.rand import Rand
from symx.qsem import same_unitary
from symx.stubs import patched
from pytket import Circuit, Qubit, Bit, OpType
from pytket.pauli import Pauli
from qermit.noise_model import NoiseModel, ErrorDistribution
from qermit.zero_noise_extrapolation import Folding

ASSUMPTIONS = ["circuits are unitary (no measurement, reset or boxes)", "random selections of gates are arbitrary",
               "gate sets: the listed templates and alphabets"]
TWO_Q = ["CX", "CZ", "ZZMax", "ZZPhase", "SWAP", "CY", "XXPhase"]
ONE_Q = ["H", "S", "V", "Rz", "Rx", "PhasedX", "T", "TK1", "SX"]
N_PAR = {"ZZPhase": 1, "XXPhase": 1, "Rz": 1, "Rx": 1, "Ry": 1, "PhasedX": 2, "TK1": 3, "U3": 3}


def _add(ctx, c, g, qs, k):
    if g == "barrier":
        c.add_barrier(qs if len(qs) > 1 else [qs[0]])
        return
    ps = [ctx.angle(f"t{k}_{i}") for i in range(N_PAR.get(g, 0))]
    c.add_gate(getattr(OpType, g), ps, qs[:2] if g in TWO_Q else qs[:1])


def _circuit(ctx, n, length, alphabet, layouts=("plain",), prefix=()):
    """an arbitrary circuit over the alphabet; gate k acts on qubits k, k+1 (mod n)"""
    lay = ctx.choice("layout", list(layouts))
    c = Circuit()
    qs = [Qubit(i) for i in range(n)] if lay != "named" else [Qubit("z", 0)] + [Qubit("b", 3 - i) for i in range(n - 1)]
    for q in qs:
        c.add_qubit(q)
    if lay == "bits":
        c.add_bit(Bit(0))
        c.add_bit(Bit("m", 2))
    for k, g in enumerate(prefix):
        _add(ctx, c, g, [qs[k % n], qs[(k + 1) % n]], f"p{k}")
    for k in range(length):
        g = ctx.choice(f"gate{k}", list(alphabet))
        if g == "none":
            continue
        _add(ctx, c, g, [qs[k % n], qs[(k + 1) % n]] if n > 1 else [qs[0]], k)
    if lay == "swapped":
        c.SWAP(qs[0], qs[1])
        c.replace_SWAPs()
        if not any(a != b for a, b in c.implicit_qubit_permutation().items()):
            raise E.PathAbort()
    return c


def _gates(c):
    return sum(1 for com in c.get_commands() if com.op.type != OpType.Barrier)


def _two(c):
    return sum(1 for com in c.get_commands() if com.op.type != OpType.Barrier and len(com.qubits) == 2)


def _cancelling(c):
    """number of gates directly after their own inverse on the same qubits"""
    last, n = {}, 0
    for com in c.get_commands():
        if com.op.type != OpType.Barrier and com.qubits and all(q in last and last[q] is last[com.qubits[0]] for q in com.qubits):
            p = last[com.qubits[0]]
            if p.op.type != OpType.Barrier and p.qubits == com.qubits and p.op.dagger == com.op:
                n += 1
        for q in com.qubits:
            last[q] = com
    return n


def _common(ctx, circ, keep, out, count):
    ctx.check(circ == keep, "the circuit given is not changed")
    ctx.check(isinstance(out, list) and len(out) == 1, "one folded circuit")
    f = out[0]
    ctx.check(sorted(map(str, f.bits)) == sorted(map(str, circ.bits)), "the bits are kept")
    ctx.check(same_unitary(ctx, f, circ), "the folded circuit implements the circuit's unitary")
    if _cancelling(circ) == 0:
        ctx.check(_cancelling(f) == 0, "a gate never directly follows its inverse: barriers keep compilers from undoing the folding")
    return f


def h_circuit(ctx, n, length, alphabet, layouts, scales):
    circ = _circuit(ctx, n, length, alphabet, layouts)
    keep = circ.copy()
    s = ctx.choice("scale", scales)
    f = _common(ctx, circ, keep, Folding.circuit(circ, s), _gates)
    ctx.check(_gates(f) == s * _gates(circ), "every gate appears exactly the requested number of times")
    if s > 1 and _gates(circ):
        ctx.cover("folded")


def h_reject(ctx):
    """what can not be folded as asked is refused"""
    c = Circuit(2).H(0).CX(0, 1)
    kind = ctx.choice("kind", ["even", "fraction", "small", "no two-qubit gate", "box"])
    try:
        if kind == "even":
            k = ctx.int("half", 0, 10**6)
            Folding.circuit(c, 2 * k)
        elif kind == "fraction":
            s = ctx.real("scale", 1, 100)
            i = ctx.int("i", 0, 100)
            ctx.assume(land(s > i, s < i + 1))
            Folding.circuit(c, s)
        elif kind == "small":
            s = ctx.real("scale", 0, 1)
            ctx.assume(s < 1)
            Folding.two_qubit_gate(c, s)
        elif kind == "no two-qubit gate":
            Folding.two_qubit_gate(Circuit(2).H(0).T(1), ctx.choice("scale", [1, 2, 3]))
        else:
            from pytket.circuit import CircBox
            b = Circuit(2).CX(0, 1)
            b.add_circbox(CircBox(Circuit(2).H(0)), [0, 1])
            getattr(Folding, ctx.choice("method", ["circuit", "two_qubit_gate"]))(b, 3)
    except (ValueError, RuntimeError):
        ctx.cover("refused")
        refused = True
    else:
        refused = False
    ctx.check(refused, "a scaling or circuit that can not be folded is refused")


def _scaling(ctx, G, hi):
    """an arbitrary requested scaling; exact ones are off by float rounding"""
    mode = ctx.choice("request", ["achievable", "any"])
    if mode == "achievable":
        i = ctx.choice("folds", list(range(0, (hi - 1) * G // 2 + 1)))
        d = ctx.real("rounding", -1e-12, 1e-12)
        from fractions import Fraction
        s = Fraction(G + 2 * i, G) + d
        if not ctx.symbolic:
            s = float(s)
        ctx.assume(s >= 1)
        return s, i
    s = ctx.real("scale", 1, hi)
    return s, None


def _scaled(ctx, fold, circ, count, hi):
    keep = circ.copy()
    G = count(circ)
    if G == 0:
        raise E.PathAbort()
    s, i = _scaling(ctx, G, hi)
    approx = ctx.choice("approx", [True, False])
    rnd = Rand(ctx)
    with rnd.installed():
        try:
            out = fold(circ, s, _allow_approx_fold=approx)
        except ValueError:
            ctx.check(not approx, "approximate folding is not refused")
            ctx.check(i is None, "an achievable scaling is not refused")
            ctx.check(land(*[lor(s < (G + 2 * j) / G, s > (G + 2 * j) / G + 0.0009) for j in range(0, (hi - 1) * G // 2 + 2)]),
                      "a scaling less than 0.001 above an achievable one is not refused")
            ctx.cover("refused")
            return
    f = _common(ctx, circ, keep, out, count)
    g = count(f)
    if i is not None:
        ctx.check(g == G + 2 * i, "an achievable scaling is achieved exactly")
    else:
        ctx.check(g <= s * G + 0.001 * G, "the scaling does not exceed the request")
        ctx.check(g > s * G - 2 - 0.001 * G, "the scaling is as close to the request as folding allows")
        if not approx:
            ctx.check(land(g - s * G <= 0.0011 * G, s * G - g <= 0.0011 * G), "without approximation the request is met")
    ctx.check((g - G) % 2 == 0, "gates are added in inverse pairs")
    if g > G:
        ctx.cover("folded")


def h_two(ctx, n, length, alphabet, layouts, hi, prefix=()):
    circ = _circuit(ctx, n, length, alphabet, layouts, prefix)
    one = _gates(circ) - _two(circ)
    _scaled(ctx, Folding.two_qubit_gate, circ, _two, hi)


def h_gate(ctx, n, length, alphabet, layouts, hi, prefix=()):
    circ = _circuit(ctx, n, length, alphabet, layouts, prefix)
    _scaled(ctx, Folding.gate, circ, _gates, hi)


def h_odd(ctx, n, length, alphabet, layouts, scales):
    circ = _circuit(ctx, n, length, alphabet, layouts)
    keep = circ.copy()
    s = ctx.choice("scale", scales)
    G = _gates(circ)
    f = _common(ctx, circ, keep, Folding.odd_gate(circ, s), _gates)
    ctx.check(_gates(f) == (G + 1) // 2 * (2 * s - 1) + G // 2, "every other gate, starting with the first, is folded")
    if G % 2 == 0:
        ctx.check(_gates(f) == s * G, "an even number of gates is scaled exactly")
    if s > 1 and G:
        ctx.cover("folded")


ALPHA = TWO_Q[:5] + ONE_Q[:6] + ["barrier"]
SMALL = ["CX", "ZZPhase", "S", "PhasedX", "barrier"]
B = "angles arbitrary; circuits over the alphabet given, qubits in two namings, with bits, with an implicit wire swap"
def h_noise_aware(ctx, scales, samples, length):
    """noise-aware scaling: each circuit is the given one with errors drawn from the model scaled by one less than the factor"""
    rng = Rand(ctx, "u")
    mine = Rand(ctx, "m")
    c = _circuit(ctx, 2, length, ["CX", "Rz", "H"], ["plain", "named", "swapped", "bits"])
    rates = {OpType.CX: {"XZ": Fraction(1, 10), "YI": Fraction(1, 20)}, OpType.H: {"Y": Fraction(1, 8)}}
    kind = ctx.choice("model", ["given", "default"])
    s = ctx.choice("scale", scales)
    k = ctx.choice("samples", samples)
    model = NoiseModel({g: ErrorDistribution({tuple(getattr(Pauli, x) for x in w): float(p) for w, p in d.items()}, rng=mine) for g, d in rates.items()})
    kw = dict(noise_model=model) if kind == "given" else {}
    if k is not None:
        kw["n_noisy_circuit_samples"] = k
    if kind == "default":
        rates = {}
    keep = c.copy()
    log = []
    real = ErrorDistribution.sample

    def sample(self):
        r = real(self)
        log.append((self, r))
        return r
    with rng.installed(), patched((ErrorDistribution, "sample", sample)):
        out = Folding.noise_aware(c, s, _allow_approx_fold=False, **kw)
    ctx.check(c == keep, "the circuit given is not changed")
    ctx.check(all(d == {tuple(getattr(Pauli, x) for x in w): float(p) for w, p in rates[g].items()} for g, d in ((g, e.distribution) for g, e in model.noise_model.items()) if g in rates),
              "the noise model given is not changed")
    ctx.check(len(out) == (k or 1), "as many circuits as asked for")
    draws = iter(log)
    for o in out:
        ref = Circuit()
        for q in c.qubits:
            ref.add_qubit(q)
        for b in c.bits:
            ref.add_bit(b)
        for com in c.get_commands():
            if com.op.type == OpType.Barrier:
                ref.add_barrier(com.args)
                continue
            ref.add_gate(com.op, com.args)
            if com.op.type not in rates:
                continue
            d, e = next(draws, (None, None))
            ctx.check(d is not None, "every noisy gate of every circuit has its own draw")
            want = _raised(rates[com.op.type], len(com.qubits), s - 1)
            got = {"".join(x.name for x in key): p for key, p in d.distribution.items()}
            ctx.check(all(abs(got.get(w, 0) - want.get(w, 0)) < 1e-5 for w in set(got) | set(want)), "errors are drawn at the rates of the scaled noise")
            for q, x in zip(com.qubits, e or ()):
                if x != Pauli.I:
                    ref.add_gate(getattr(OpType, x.name), [q])
        perm = c.implicit_qubit_permutation()
        if any(a != b for a, b in perm.items()):
            ref = _swapped_to(ref, perm)
        ctx.check(sorted(map(str, o.bits)) == sorted(map(str, c.bits)), "the bits are kept")
        ctx.check(same_unitary(ctx, o, ref), "the circuit is the one given with the errors drawn after their gates")
    ctx.check(next(draws, None) is None, "nothing else is drawn")
    ctx.cover(kind)


def _swapped_to(c, perm):
    """c followed by the permutation of its wires, as gates"""
    cur = {q: q for q in perm}
    for a, b in perm.items():
        while cur[a] != b:
            x = cur[a]
            y = next(k for k, v in cur.items() if v == b)
            c.SWAP(x, b)
            cur[a], cur[y] = b, x
    return c


def _raised(rates, n, k):
    """rates of the Pauli channel whose eigenvalues are the k-th powers"""
    ws = ["".join(w) for w in itertools.product("IXYZ", repeat=n)]
    sign = lambda a, b: (-1) ** sum(x != "I" and y != "I" and x != y for x, y in zip(a, b))
    p = {w: float(rates.get(w, 0)) for w in ws}
    p["I" * n] = 1 - sum(p.values())
    ev = {q: sum(p[w] * sign(w, q) for w in ws) ** k for q in ws}
    out = {w: sum(ev[q] * sign(w, q) for q in ws) / 4 ** n for w in ws}
    return {w: v for w, v in out.items() if w != "I" * n}


HARNESSES = [
    Harness("circuit", h_circuit, "2 gates from 12 on 2 qubits (thorough 3 gates), scalings 1, 3, 5; " + B, ["folded"],
            quick=dict(n=2, length=2, alphabet=ALPHA, layouts=["plain", "named"], scales=[3, 5]),
            thorough=dict(n=2, length=3, alphabet=ALPHA, layouts=["plain", "named"], scales=[1, 3, 5])),
    Harness("circuit3", h_circuit, "3 gates on 3 qubits, swaps and bits; " + B, ["folded"],
            quick=dict(n=3, length=3, alphabet=["CX", "ZZPhase", "S", "barrier"], layouts=["bits", "swapped"], scales=[3]),
            thorough=dict(n=3, length=4, alphabet=SMALL, layouts=["bits", "swapped"], scales=[3])),
    Harness("noise_aware", h_noise_aware, "2 gates (thorough 3) from CX, Rz, H on 2 qubits; factors 1, 2, 3 (thorough 1.5, 5 too); 1-2 samples; fixed rates, every draw", ["given", "default"],
            quick=dict(scales=[1, 2, 3], samples=[None, 2], length=2), thorough=dict(scales=[1, 1.5, 2, 3, 5], samples=[None, 1, 2], length=3), max_paths=60000, time_budget=800),
    Harness("reject", h_reject, "even, fractional, too small scalings, boxes and circuits without two-qubit gates", ["refused"]),
    Harness("two_qubit", h_two, "2 gates from 11 (thorough 3 from 4), any scaling from 1 to 4 (thorough 5); " + B, ["folded", "refused"],
            quick=dict(n=2, length=2, alphabet=TWO_Q + ["S", "PhasedX", "barrier"], layouts=["plain"], hi=4),
            thorough=dict(n=3, length=3, alphabet=["CX", "ZZPhase", "ZZMax", "S"], layouts=["plain"], hi=5), max_paths=60000, time_budget=800),
    Harness("two_qubit_layouts", h_two, "3 gates, any scaling from 1 to 3; " + B, ["folded"],
            quick=dict(n=3, length=1, alphabet=SMALL, layouts=["named", "bits", "swapped"], hi=3, prefix=("H", "CX", "CZ")),
            thorough=dict(n=3, length=3, alphabet=SMALL, layouts=["named", "bits", "swapped"], hi=3, prefix=("H", "CX"))),
    Harness("gate", h_gate, "2 gates from 12 (thorough 3 from 4), any scaling from 1 to 3; " + B, ["folded", "refused"],
            quick=dict(n=2, length=2, alphabet=ALPHA, layouts=["plain"], hi=3),
            thorough=dict(n=2, length=3, alphabet=["CX", "ZZPhase", "PhasedX", "S"], layouts=["plain"], hi=3), max_paths=60000, time_budget=800),
    Harness("gate_layouts", h_gate, "3 gates (thorough 4), any scaling from 1 to 3 (thorough 2); " + B, ["folded"],
            quick=dict(n=3, length=1, alphabet=SMALL, layouts=["named", "bits", "swapped"], hi=3, prefix=("H", "CX")),
            thorough=dict(n=3, length=2, alphabet=["CX", "PhasedX", "barrier"], layouts=["named", "bits", "swapped"], hi=2, prefix=("H", "CX")), time_budget=800),
    Harness("odd", h_odd, "2 gates from 12 (thorough 3), scalings 1 to 3; " + B, ["folded"],
            quick=dict(n=2, length=2, alphabet=ALPHA, layouts=["plain", "swapped"], scales=[1, 2]),
            thorough=dict(n=3, length=3, alphabet=ALPHA, layouts=["plain", "bits", "swapped"], scales=[2, 3]), max_paths=60000, time_budget=800),
]
