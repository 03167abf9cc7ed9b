"""Q23 -- random Clifford circuits are uniform."""
import ast
import inspect
import itertools
import math
import types
from fractions import Fraction
import numpy as np
import z3
from symx import engine as E
from symx.engine import SymInt, SymBool, SymReal, land
from symx.rand import Rand
from symx.runner import Harness
from symx.stubs import patched
from symx.qsem import same_unitary
from pytket import Circuit, OpType
import qermit.probabilistic_error_cancellation.cliff_circuit_gen as cliff

ASSUMPTIONS = ["a generator's uniform draw is an arbitrary real in (0, 1) (end points have no weight), an integer draw is any of the values asked for, all equally likely",
               "draws are independent; distinct operators, each drawn with weight one over the number of Cliffords, are all of them (counting)",
               "logarithms of draws are exact (rounding at the ends of intervals has no weight)"]


# --- the real source with "if bit: circuit.gate(...)" executed as a guarded gate --------
class _Guards:
    def __init__(self):
        self.all = []
        self.stack = []

    @staticmethod
    def formula(test):
        """the condition as a formula, or as a Boolean if it is not symbolic"""
        if isinstance(test, np.ndarray) and test.shape == () and isinstance(test.item(), (SymInt, SymBool)):
            test = test.item()
        if isinstance(test, SymInt):
            test = z3.simplify(test.e != 0)
        elif isinstance(test, SymBool):
            test = z3.simplify(test.e)
        elif not isinstance(test, z3.BoolRef):
            return bool(test)
        return True if z3.is_true(test) else False if z3.is_false(test) else test

    def possible(self, test):
        return self.formula(test) is not False

    def negate(self, test):
        t = self.formula(test)
        return (not t) if isinstance(t, bool) else z3.Not(t)

    def join(self, conj, *thunks):
        """"and", "or" of conditions; later ones are not evaluated once the first decide"""
        ts = []
        for f in thunks:
            t = self.formula(f())
            if isinstance(t, bool):
                if t != conj:
                    if not ts:
                        return t
                    return not conj
                continue
            ts.append(t)
        return conj if not ts else ts[0] if len(ts) == 1 else (z3.And if conj else z3.Or)(*ts)

    def call(self, tests, thunk, helper=False):
        """the guarded call; symbolic conditions make the gate conditional instead of forking"""
        ts = [t for t in map(self.formula, tests) if t is not True]
        if any(t is False for t in ts):
            return
        f, a, k = thunk()
        if helper and ts:
            src = getattr(f, "__name__", None)
            if src in self.simple:
                self.stack.append(ts)
                try:
                    f(*a, **k)
                finally:
                    self.stack.pop()
                return
        gate = isinstance(getattr(f, "__self__", None), Circuit) and not getattr(f, "__name__", "").startswith(("append", "add_circuit", "add_circ", "add_q"))
        if gate and not helper:
            ts = [t for u in self.stack for t in u] + ts
        if not ts:
            f(*a, **k)
        elif gate:
            self.all.append(z3.And(*ts) if len(ts) > 1 else ts[0])
            k = dict(k)
            k["opgroup"] = f"guard {len(self.all) - 1}"
            f(*a, **k)
        elif all(bool(SymBool(t)) for t in ts):
            f(*a, **k)


_GATE = {m for m in dir(Circuit) if not m.startswith("_")} - {m for t in (list, dict, set) for m in dir(t)} - {"add_circuit", "add_qubit", "add_q_register"}


def _leaf(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, (ast.Attribute, ast.Name)) \
        and not any(isinstance(a, ast.Starred) for a in s.value.args) and all(k.arg for k in s.value.keywords)


def _guardable(stmts, gates_only=False):
    """only calls, conditions and loops: what runs under a condition has no other effect"""
    for s in stmts:
        if isinstance(s, ast.If):
            ok = _guardable(s.body, gates_only) and _guardable(s.orelse, gates_only)
        elif isinstance(s, ast.For):
            ok = not s.orelse and _guardable(s.body, gates_only)
        elif isinstance(s, (ast.Pass,)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            ok = True
        else:
            ok = _leaf(s) and (not gates_only or isinstance(s.value.func, ast.Attribute) and s.value.func.attr in _GATE)
        if not ok:
            return False
    return True


class _Rewrite(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def _body(self, stmts):
        """conditional "continue" turned into a condition on what follows"""
        for i, s in enumerate(stmts):
            if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Continue) and stmts[i + 1:]:
                rest = self._body(stmts[i + 1:])
                if _guardable(rest):
                    neg = ast.UnaryOp(ast.Not(), s.test)
                    return stmts[:i] + [ast.copy_location(ast.If(neg, rest, []), s)]
        return stmts

    def visit_For(self, node):
        node.body = self._body(node.body)
        self.generic_visit(node)
        return node

    def visit_If(self, node):
        if _guardable([node]):
            return [ast.copy_location(o, node) for o in self._emit([node], [])]
        self.generic_visit(node)
        return node

    def visit_Expr(self, node):
        if _leaf(node) and isinstance(node.value.func, ast.Attribute):
            return [ast.copy_location(o, node) for o in self._emit([node], [])]
        return node

    def _test(self, e):
        g = lambda m, *a: ast.Call(ast.Attribute(ast.Name("__guards__", ast.Load()), m, ast.Load()), list(a), [])
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return g("negate", self._test(e.operand))
        if isinstance(e, ast.BoolOp):
            return g("join", ast.Constant(isinstance(e.op, ast.And)), *[ast.Lambda(ast.arguments([], [], None, [], [], None, []), self._test(v)) for v in e.values])
        return e

    def _emit(self, stmts, tests):
        g = lambda m, *a: ast.Call(ast.Attribute(ast.Name("__guards__", ast.Load()), m, ast.Load()), list(a), [])
        out = []
        for s in self._body(stmts) if tests else stmts:
            if isinstance(s, ast.If):
                for body, neg in ((s.body, False), (s.orelse, True)):
                    if neg and not body:
                        continue
                    if not neg:
                        self.n += 1
                        nm = f"__test{self.n}__"
                        out.append(ast.Assign([ast.Name(nm, ast.Store())], self._test(s.test)))
                    t = nm
                    if neg:
                        t = nm + "not"
                        out.append(ast.Assign([ast.Name(t, ast.Store())], g("negate", ast.Name(nm, ast.Load()))))
                    out.append(ast.If(g("possible", ast.Name(t, ast.Load())), self._emit(body, tests + [t]) or [ast.Pass()], []))
            elif isinstance(s, ast.For):
                out.append(ast.For(s.target, s.iter, self._emit(self._body(s.body), tests) or [ast.Pass()], []))
            elif _leaf(s):
                c = s.value
                th = ast.Lambda(ast.arguments([], [], None, [], [], None, []),
                                ast.Tuple([c.func, ast.Tuple(c.args, ast.Load()), ast.Dict([ast.Constant(k.arg) for k in c.keywords], [k.value for k in c.keywords])], ast.Load()))
                out.append(ast.Expr(g("call", ast.Tuple([ast.Name(t, ast.Load()) for t in tests], ast.Load()), th, ast.Constant(isinstance(c.func, ast.Name)))))
            else:
                out.append(s)
        return out


def _module(guards):
    """the module of random_clifford_circ, compiled anew from its current source"""
    path = inspect.getsourcefile(cliff.random_clifford_circ)
    with open(path) as f:
        tree = ast.parse(f.read())
    guards.simple = {d.name for d in tree.body if isinstance(d, ast.FunctionDef) and _guardable(d.body, gates_only=True)}
    tree = ast.fix_missing_locations(_Rewrite().visit(tree))
    src = inspect.getmodule(cliff.random_clifford_circ)
    m = types.ModuleType(src.__name__)
    m.__dict__.update({"__file__": path, "__package__": src.__package__, "__guards__": guards})
    exec(compile(tree, path, "exec"), m.__dict__)
    for k, v in src.__dict__.items():   # stand-ins for builtins installed in qermit's modules
        if k in ("int", "float", "complex") and k not in ("__builtins__",):
            m.__dict__.setdefault(k, v)
    return m


# --- logarithms of draws ------------------------------------------------------------
class _Log:
    """log of a symbolic number to a base"""

    def __init__(self, x, base=None):
        self.x, self.base = x, base

    def __truediv__(self, c):
        b = math.exp(float(c))
        if self.base is not None or abs(b - round(b)) > 1e-9 or round(b) < 2:
            raise E.Inconclusive("unexpected use of a logarithm")
        return _Log(self.x, int(round(b)))

    def _need(self):
        if self.base is None:
            raise E.Inconclusive("unexpected use of a natural logarithm")

    def __ceil__(self):
        self._need()
        for c in range(-40, 41):
            if c < 0 and not bool(self.x < 1):
                continue
            if bool(self.x <= Fraction(self.base) ** c):
                return c
        raise E.Inconclusive("logarithm out of range")

    ceil = __ceil__

    def __floor__(self):
        self._need()
        for c in range(40, -41, -1):
            if bool(self.x >= Fraction(self.base) ** c):
                return c
        raise E.Inconclusive("logarithm out of range")

    floor = __floor__

    def __trunc__(self):
        return self.__floor__() if bool(self.x >= 1) else self.__ceil__()

    __int__ = __trunc__

    def _cmp(name):
        def f(self, v):
            self._need()
            return getattr(self.x, name)(Fraction(self.base) ** v)
        return f
    __lt__, __le__, __gt__, __ge__ = _cmp("__lt__"), _cmp("__le__"), _cmp("__gt__"), _cmp("__ge__")


def _logs():
    def mk(real, base=None):
        def log(x, *a):
            if isinstance(x, E.SymNum):
                b = base if base is not None else (a[0] if a else None)
                return _Log(x, b)
            return real(x, *a)
        return log
    return [(np, "log", mk(np.log)), (np, "log2", mk(np.log2, 2)), (math, "log", mk(math.log)), (math, "log2", mk(math.log2, 2))]


# --- draws --------------------------------------------------------------------------
class Draws(Rand):
    """bits are symbolic and not forked on; four-way draws (Pauli gates) as the harness asks; reals are symbolic"""

    def __init__(self, ctx, name, pauli="zero", script=None, first=None):
        super().__init__(ctx, name)
        self.first = first
        self.ranges = set()
        self.pauli, self.script, self.seeds, self.used = pauli, script, [], []

    def _next(self, kind, k, new):
        i = len(self.used)
        if self.script is None:
            v = new()
        elif i < len(self.script) and self.script[i][0] == kind:
            v = self.script[i][2]
        else:
            v = 0.5 if kind == "unit" else 0
        self.used.append((kind, k, v))
        return v

    def _index(self, k, weights=None):
        if weights is not None and len({w for w in weights}) > 1:
            raise E.Inconclusive("weighted draw")
        if k == 1:
            return 0
        if k == 2:
            return self._next("bit", 2, self._bit)
        if k == 4 and self.pauli == "zero":
            return self._next("pauli", 4, lambda: 0)
        return self._next("index", k, lambda: self.ctx.choice(self._nm(), list(range(k))))

    def _bit(self):
        n = len(getattr(self.ctx, "pc", ()))
        v = self.ctx.int(self._nm(), 0, 1)
        self.ranges.update(range(n, len(getattr(self.ctx, "pc", ()))))
        return v

    def _unit(self):
        def new():
            r = self.ctx.real(self._nm(), 0, 1)
            self.ctx.assume(land(r > 0, r < 1))
            if self.first is not None:
                self.ctx.assume(self.first(r))
                self.first = None
            return r
        return self._next("unit", 0, new)

    def seed(self, *a, **k):
        self.seeds.append(a or k)


def _run(ctx, mod, n, draws):
    with draws.installed():
        with patched(*(_logs() if ctx.symbolic else [])):
            return mod.random_clifford_circ(n)


# --- symbolic tableau ---------------------------------------------------------------
def _x(*a):
    """exclusive or"""
    out = None
    s = False
    for v in a:
        if v is True or v is False:
            s ^= v
        else:
            out = v if out is None else z3.Xor(out, v)
    if out is None:
        return s
    return z3.Not(out) if s else out


def _a(*a):
    if any(v is False for v in a):
        return False
    a = [v for v in a if v is not True]
    return True if not a else a[0] if len(a) == 1 else z3.And(*a)


def _tableau(circ, n, guard, signs=True):
    """images of X_i, Z_i under the circuit, as formulas over the guards"""
    qs = circ.qubits
    idx = {q: i for i, q in enumerate(qs)}
    rows = []
    for i in range(n):
        for k in (0, 1):
            rows.append([[k == 0 and j == i for j in range(n)], [k == 1 and j == i for j in range(n)], False])
    for cmd in circ.get_commands():
        g, t, q = guard(cmd), cmd.op.type, [idx[u] for u in cmd.qubits]
        if t in (OpType.noop, OpType.Barrier):
            continue
        for r in rows:
            x, z, s = r
            if t == OpType.X:
                s = _x(s, _a(g, z[q[0]]))
            elif t == OpType.Z:
                s = _x(s, _a(g, x[q[0]]))
            elif t == OpType.Y:
                s = _x(s, _a(g, _x(x[q[0]], z[q[0]])))
            elif t in (OpType.S, OpType.Sdg):
                a = q[0]
                s = _x(s, _a(g, x[a], z[a] if t == OpType.S else _x(True, z[a])))
                z[a] = _x(z[a], _a(g, x[a]))
            elif t == OpType.H:
                a = q[0]
                s = _x(s, _a(g, x[a], z[a]))
                d = _a(g, _x(x[a], z[a]))
                x[a], z[a] = _x(x[a], d), _x(z[a], d)
            elif t == OpType.CX:
                a, b = q
                s = _x(s, _a(g, x[a], z[b], _x(x[b], z[a], True)))
                x[b], z[a] = _x(x[b], _a(g, x[a])), _x(z[a], _a(g, z[b]))
            elif t == OpType.CZ:
                a, b = q
                s = _x(s, _a(g, x[a], x[b], _x(z[a], z[b])))
                z[a], z[b] = _x(z[a], _a(g, x[b])), _x(z[b], _a(g, x[a]))
            elif t == OpType.SWAP:
                a, b = q
                for w in (x, z):
                    d = _a(g, _x(w[a], w[b]))
                    w[a], w[b] = _x(w[a], d), _x(w[b], d)
            else:
                raise E.Inconclusive(f"gate {t} in a random Clifford circuit")
            r[2] = s
    perm = circ.implicit_qubit_permutation()
    out = []
    for x, z, s in rows:
        nx, nz = [None] * n, [None] * n
        for a, b in perm.items():
            nx[idx[b]], nz[idx[b]] = x[idx[a]], z[idx[a]]
        out.append((nx, nz, s))
    return out


def _same(ta, tb, signs):
    """formula: the tableaux agree"""
    ds = []
    for (xa, za, sa), (xb, zb, sb) in zip(ta, tb):
        ds += [_x(u, v) for u, v in zip(xa + za, xb + zb)]
        if signs:
            ds.append(_x(sa, sb))
    if any(d is True for d in ds):
        return z3.BoolVal(False)
    return z3.And(*[z3.Not(d) for d in ds if d is not False])


def _guard_of(guards):
    def g(cmd):
        return guards.all[int(cmd.opgroup.split()[1])] if cmd.opgroup and cmd.opgroup.startswith("guard ") else True
    return g


def _skeleton(circ):
    """the gates that do not depend on bits (which layers of Hadamards and swaps were drawn)"""
    return (tuple((c.op.type, tuple(c.qubits)) for c in circ.get_commands() if c.op.type in (OpType.H, OpType.SWAP) and not (c.opgroup or "").startswith("guard ")),
            tuple(sorted((str(a), str(b)) for a, b in circ.implicit_qubit_permutation().items())))


def _bits(ctx, guards, *draws):
    """draws of bits that some gate, or the course of the run, depends on (of the last run given)"""
    seen = set()
    ranges = set().union(*[d.ranges for d in draws])
    draws = draws[-1]

    def walk(e):
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            seen.add(str(e))
        for c in e.children():
            walk(c)
    for g in guards.all:
        walk(g)
    for i, g in enumerate(ctx.pc):
        if i not in ranges:
            walk(g)
    return [v for kind, k, v in draws.used if kind == "bit" and isinstance(v, SymInt) and str(v.e) in seen]


def _concrete_bits(n, ctx, draws):
    """concrete runs: positions of the bits that change the circuit"""
    base = cmds(_run(ctx, cliff, n, Draws(ctx, "x", script=draws.used)))
    out = []
    for i, (kind, k, v) in enumerate(draws.used):
        if kind == "bit":
            s = list(draws.used)
            s[i] = (kind, k, 1 - v)
            if cmds(_run(ctx, cliff, n, Draws(ctx, "x", script=s))) != base:
                out.append(i)
    return out


def cmds(c):
    return [(x.op, tuple(x.qubits)) for x in c.get_commands() if x.op.type != OpType.noop]


def h_distinct(ctx, n, part=(0, 63)):
    """two runs that draw differently give different operators; the first real drawn by one
    run lies in the part given and is at most that of the other run, without loss of generality"""
    n = ctx.choice("qubits", n)
    lo, hi = Fraction(part[0], 63), Fraction(part[1], 63)
    low = []

    def first_a(r):
        low.append(r)
        return land(r > lo, r <= hi)
    da, db = Draws(ctx, "a", first=first_a), Draws(ctx, "b", first=lambda r: r >= low[0])
    if ctx.symbolic:
        gs = _Guards()
        mod = _module(gs)
        ca = _run(ctx, mod, n, da)
        ra = [v for k, _, v in da.used if k == "unit"]
        ga = gs.all
        gs.all = []
        cb = _run(ctx, mod, n, db)
        rb = [v for k, _, v in db.used if k == "unit"]
        gb = gs.all
        gs.all = ga
        sa, ta, ba = _skeleton(ca), _tableau(ca, n, _guard_of(gs)), _bits(ctx, gs, db, da)
        gs.all = gb
        sb, tb, bb = _skeleton(cb), _tableau(cb, n, _guard_of(gs)), _bits(ctx, gs, da, db)
        same = _same(ta, tb, False)
        if sa == sb:
            ctx.check(len(ba) == len(bb), "the bits drawn depend on the layers only")
            ctx.cover("same layers")
            agree = z3.And(*[u.e == v.e for u, v in zip(ba, bb)])
        else:
            ctx.cover("different layers")
            agree = z3.BoolVal(False)
        ctx.check(ca.n_qubits == n and cb.n_qubits == n, "the circuit acts on the qubits asked for")
        ctx.check(SymBool(z3.Implies(same, agree)), "different draws give different operators")
        return
    ca, cb = _run(ctx, cliff, n, da), _run(ctx, cliff, n, db)
    za, zb = [_run(ctx, cliff, n, Draws(ctx, "z", script=[(k, m, 0 if k == "bit" else v) for k, m, v in d.used])) for d in (da, db)]
    ta, tb = (_tableau(c, n, lambda _: True) for c in (ca, cb))
    same = all(xa == xb and qa == qb for (xa, qa, _), (xb, qb, _) in zip(ta, tb))
    if _skeleton(za) == _skeleton(zb):
        ia, ib = _concrete_bits(n, ctx, da), _concrete_bits(n, ctx, db)
        ctx.check(len(ia) == len(ib), "the bits drawn depend on the layers only")
        agree = [da.used[i][2] for i in ia] == [db.used[i][2] for i in ib]
    else:
        agree = False
    ctx.check(ca.n_qubits == n and cb.n_qubits == n, "the circuit acts on the qubits asked for")
    ctx.check(agree or not same, "different draws give different operators")


def _order(n):
    """number of operators on n qubits which map Pauli strings to Pauli strings, up to Pauli gates"""
    k = 2 ** (n * n)
    for i in range(1, n + 1):
        k *= 4 ** i - 1
    return k


def h_weight(ctx, n):
    """every choice of draws has the weight of one operator"""
    n = ctx.choice("qubits", n)
    d = Draws(ctx, "a")
    if ctx.symbolic:
        gs = _Guards()
        c = _run(ctx, _module(gs), n, d)
        w = Fraction(1, 2 ** len(_bits(ctx, gs, d)))
        for k, m, v in d.used:
            if k == "unit":
                w *= _length(ctx, v)
            elif k == "index":
                w /= m
        ctx.check(SymBool(z3.BoolVal(w == Fraction(1, _order(n)))), "every operator is equally likely")
        ctx.cover("weighed")
        # the weight of an operator, with Pauli gates
        p = [m for k, m, v in d.used if k == "pauli"]
        ctx.check(len(p) == n, "one Pauli gate for each qubit")
        return
    _run(ctx, cliff, n, d)
    w = 0.5 ** len(_concrete_bits(n, ctx, d))
    for i, (k, m, v) in enumerate(d.used):
        if k == "unit":
            sk = _skeleton(_run(ctx, cliff, n, Draws(ctx, "x", script=d.used)))

            def at(r):
                s = list(d.used)
                s[i] = (k, m, r)
                return _skeleton(_run(ctx, cliff, n, Draws(ctx, "x", script=s))) == sk
            ends = []
            for e in (0.0, 1.0):
                a, b = v, e + (1e-9 if e == 0 else -1e-9)
                if not at(b):
                    for _ in range(45):
                        h = (a + b) / 2
                        a, b = (h, b) if at(h) else (a, h)
                ends.append(b)
            w *= ends[1] - ends[0]
        elif k == "index":
            w /= m
    ctx.check(abs(w * _order(n) - 1) < 1e-4, "every operator is equally likely")
    ctx.check(len([1 for k, m, v in d.used if k == "pauli"]) == n, "one Pauli gate for each qubit")


def _length(ctx, r):
    """length of the interval of values the path allows the draw"""
    ends = []
    for s in (1, -1):
        o = z3.Optimize()
        o.add(*ctx.pc)
        h = o.maximize(s * r.e)
        assert o.check() == z3.sat
        v = o.upper_values(h) if hasattr(o, "upper_values") else None
        x = z3.simplify(v[1]) if v is not None else z3.simplify(o.upper(h))
        ends.append(s * Fraction(str(x)))
    return ends[0] - ends[1]


def h_paulis(ctx, n):
    """Pauli gates drawn change signs only, each choice differently"""
    n = ctx.choice("qubits", n)
    da = Draws(ctx, "a", pauli="draw")
    if ctx.symbolic:
        gs = _Guards()
        mod = _module(gs)
        ca = _run(ctx, mod, n, da)
        ia = [i for i, (k, m, v) in enumerate(da.used) if k == "index" and m == 4]
        s = list(da.used)
        for i in ia:
            s[i] = ("index", 4, ctx.choice(f"other{i}", list(range(4))))
        n1 = len(gs.all)
        cb = _run(ctx, mod, n, Draws(ctx, "b", pauli="draw", script=s))
        ta, tb = _tableau(ca, n, _guard_of(gs)), _tableau(cb, n, _guard_of(gs))
    else:
        ca = _run(ctx, cliff, n, da)
        ia = [i for i, (k, m, v) in enumerate(da.used) if k == "index" and m == 4]
        s = list(da.used)
        for i in ia:
            s[i] = ("index", 4, ctx.choice(f"other{i}", list(range(4))))
        cb = _run(ctx, cliff, n, Draws(ctx, "b", pauli="draw", script=s))
        ta, tb = _tableau(ca, n, lambda _: True), _tableau(cb, n, lambda _: True)
    eqp = all(da.used[i][2] == s[i][2] for i in ia)
    ctx.cover("same" if eqp else "different")
    a, b = _same(ta, tb, False), _same(ta, tb, True)
    ctx.check(SymBool(a) if ctx.symbolic else z3.is_true(z3.simplify(a)), "Pauli gates change signs only")
    if not eqp:
        ctx.check(SymBool(z3.Not(b)) if ctx.symbolic else z3.is_false(z3.simplify(b)), "different Pauli gates give different signs")


def h_seed(ctx, n):
    """a seed given is set once, before anything is drawn; without one no generator is seeded"""
    n = ctx.choice("qubits", n)
    kind = ctx.choice("seed", ["none", "given"])
    log = []

    class D(Draws):
        def seed(self, *a, **k):
            log.append((a, k, len(self.used)))
    d = D(ctx, "a")
    seed = ctx.int("value", 0, 1000)
    with d.installed():
        with patched(*(_logs() if ctx.symbolic else [])):
            mod = _module(_Guards()) if ctx.symbolic else cliff
            mod.random_clifford_circ(n, **({"seed": seed} if kind == "given" else {}))
    if kind == "none":
        ctx.check(not log, "the generator is not seeded anew by a draw")
        ctx.check(seed >= 0, "range")
    else:
        ctx.check(len(log) == 1 and log[0][2] == 0 and len(log[0][0]) == 1, "the seed is set once, before anything is drawn")
        ctx.check(log[0][0][0] == seed, "the generator is seeded with the seed given")
    ctx.cover(kind)


def h_canonical(ctx, n):
    """the layers given are the layers of the circuit"""
    k = ctx.choice("qubits", list(range(1, n + 1)))
    r = ctx.real("dummy", 0, 1)
    ctx.check(r <= 1, "in range")
    pl = [ctx.choice(f"p{i}", [0, 1, 2, 3]) for i in range(k)]
    pairs = [(i, j) for j in range(k) for i in range(j)]
    d, g = np.identity(k), np.zeros((k, k))
    for i, j in pairs:
        d[j][i] = ctx.choice(f"d{i}{j}", [0, 1])
        g[i][j] = g[j][i] = ctx.choice(f"g{i}{j}", [0, 1])
    for i in range(k):
        g[i][i] = ctx.choice(f"g{i}", [0, 1])
    c = cliff.clifford_canonical_F(pl, g, d)
    ref = Circuit(k)
    for i, j in pairs:
        if d[j][i]:
            ref.CX(i, j)
    for i, j in pairs:
        if g[i][j]:
            ref.CZ(i, j)
    for i in range(k):
        if g[i][i]:
            ref.S(i)
    for i, p in enumerate(pl):
        if p:
            ref.add_gate([OpType.X, OpType.Y, OpType.Z][p - 1], [i])
    ctx.check(same_unitary(ctx, c, ref), "CNOT, CZ, phase and Pauli layers as described")
    ctx.cover("compared")


HARNESSES = [
    Harness("distinct", h_distinct, "1-2 qubits, two runs, every draw", ["same layers", "different layers"], quick=dict(n=[1, 2], part=(0, 63)), thorough=dict(n=[1, 2], part=(0, 63)), max_paths=60000, time_budget=800),
] + [
    Harness(f"distinct3_{i}", h_distinct, f"3 qubits, two runs, every draw; the smaller of the first reals drawn is in ({p[0]}/63, {p[1]}/63]", ["different layers"],
            quick=dict(n=[3], part=p), thorough=dict(n=[3], part=p), max_paths=60000, time_budget=800) for i, p in enumerate([(0, 1), (1, 3), (3, 7), (7, 15), (15, 63)])
] + [
    Harness("weight", h_weight, "1-3 qubits (thorough 4), every draw", ["weighed"], quick=dict(n=[1, 2, 3]), thorough=dict(n=[1, 2, 3, 4]), max_paths=60000, time_budget=800),
    Harness("paulis", h_paulis, "1-2 qubits, two choices of Pauli gates, every other draw", ["same", "different"], quick=dict(n=[1, 2]), thorough=dict(n=[1, 2]), max_paths=60000, time_budget=800),
    Harness("seed", h_seed, "1-2 qubits, every draw", ["none", "given"], quick=dict(n=[1, 2]), thorough=dict(n=[1, 2, 3])),
    Harness("canonical", h_canonical, "up to 2 qubits (thorough 3), all layers", ["compared"], quick=dict(n=2), thorough=dict(n=3), max_paths=60000, time_budget=800),
]
