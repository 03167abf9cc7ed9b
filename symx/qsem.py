"""Exact semantics of pytket circuits for all angles.

Amplitudes are Laurent polynomials in e^{i pi a/2} (one unknown per symbolic
angle a) with coefficients in Q(zeta_8), an exact canonical form.  Equality of
unitaries up to a global phase becomes a formula over reals (cos, sin) of the
unknown angles that z3 decides."""
from fractions import Fraction
import itertools
import math
import sympy
import z3
from pytket import OpType, Circuit
from . import engine as E

F0, F1 = Fraction(0), Fraction(1)


class Amp:
    """{monomial: (a,b,c,d)}: a + b z + c z^2 + d z^3, z = e^{i pi/4}; monomial = tuple((sym, power))"""
    __slots__ = ("d",)

    def __init__(self, d=None):
        self.d = d or {}

    @staticmethod
    def const(x):
        if x == 0:
            return Amp()
        return Amp({(): (Fraction(x), F0, F0, F0)})

    @staticmethod
    def zeta(k):
        k %= 8
        s = 1 if k < 4 else -1
        v = [F0] * 4
        v[k % 4] = Fraction(s)
        return Amp({(): tuple(v)})

    @staticmethod
    def mono(pows):
        return Amp({tuple(sorted((n, p) for n, p in pows.items() if p)): (F1, F0, F0, F0)})

    def __add__(self, o):
        if not isinstance(o, Amp):
            o = Amp.const(o)
        d = dict(self.d)
        for m, v in o.d.items():
            w = d.get(m)
            if w is None:
                d[m] = v
            else:
                s = tuple(x + y for x, y in zip(w, v))
                if any(s):
                    d[m] = s
                else:
                    del d[m]
        return Amp(d)

    __radd__ = __add__

    def __neg__(self):
        return Amp({m: tuple(-x for x in v) for m, v in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if not isinstance(o, Amp):
            o = Amp.const(o)
        out = {}
        for m, v in self.d.items():
            for n, w in o.d.items():
                if not m:
                    k = n
                elif not n:
                    k = m
                else:
                    p = dict(m)
                    for a, b in n:
                        p[a] = p.get(a, 0) + b
                    k = tuple(sorted((a, b) for a, b in p.items() if b))
                r = [F0] * 4
                for i, x in enumerate(v):
                    if x:
                        for j, y in enumerate(w):
                            if y:
                                if i + j < 4:
                                    r[i + j] += x * y
                                else:
                                    r[i + j - 4] -= x * y
                q = out.get(k)
                out[k] = tuple(r) if q is None else tuple(a + b for a, b in zip(q, r))
        return Amp({k: v for k, v in out.items() if any(v)})

    __rmul__ = __mul__

    def conj(self):
        out = {}
        for m, (a, b, c, d) in self.d.items():
            out[tuple(sorted((n, -p) for n, p in m))] = (a, -d, -c, -b)
        return Amp(out)

    def iszero(self):
        return not self.d

    def z3(self, angles):
        """(re, im) over z3 reals"""
        re, im = z3.RealVal(0), z3.RealVal(0)
        r2 = None
        for m, (a, b, c, d) in self.d.items():
            # coefficient: re = a + (b-d)/sqrt2, im = c + (b+d)/sqrt2
            cr, ci = z3.RealVal(str(a)), z3.RealVal(str(c))
            if b or d:
                s = SQ
                cr = cr + z3.RealVal(str(b - d)) * s
                ci = ci + z3.RealVal(str(b + d)) * s
            for n, p in m:
                co, si = angles[n]
                if p < 0:
                    si = -si
                for _ in range(abs(p)):
                    cr, ci = cr * co - ci * si, cr * si + ci * co
            re, im = re + cr, im + ci
        return re, im


SQ = z3.Real("sqrt_half")
ONE, ZERO = Amp.const(1), Amp()
RH = Amp({(): (F0, Fraction(1, 2), F0, Fraction(-1, 2))})  # 1/sqrt 2
I_ = Amp.zeta(2)


class NotExact(Exception):
    pass


def phase(theta):
    """e^{i pi theta} as an Amp; theta: number or sympy expression linear in the angle symbols"""
    th = sympy.nsimplify(sympy.sympify(theta), rational=True) if not isinstance(theta, (int, Fraction)) else sympy.Rational(str(theta))
    th = sympy.expand(th)
    const = F0
    pows = {}
    for t in sympy.Add.make_args(th):
        c, rest = t.as_coeff_Mul()
        if rest == 1:
            const += Fraction(int(c.p), int(c.q))
        elif rest.is_Symbol:
            e = 2 * Fraction(int(c.p), int(c.q))
            if e.denominator != 1:
                raise NotExact(f"angle {theta}")
            pows[rest.name] = pows.get(rest.name, 0) + int(e)
        else:
            raise NotExact(f"angle {theta}")
    k = const * 4
    kk = round(k)
    if abs(k - kk) > Fraction(1, 10**9):
        raise NotExact(f"angle {theta}")
    return Amp.zeta(int(kk)) * Amp.mono(pows)


def _m(rows):
    return [[x if isinstance(x, Amp) else Amp.const(x) for x in r] for r in rows]


def _rz(t):
    return _m([[1, 0], [0, phase(t)]])


H = [[RH, RH], [RH, -RH]]


def mm(a, b):
    n, k, m = len(a), len(b), len(b[0])
    out = []
    for i in range(n):
        row = []
        for j in range(m):
            t = Amp()
            for l in range(k):
                if a[i][l].d and b[l][j].d:
                    t = t + a[i][l] * b[l][j]
            row.append(t)
        out.append(row)
    return out


def dag(a):
    return [[a[j][i].conj() for j in range(len(a))] for i in range(len(a[0]))]


def _rx(t):
    return mm(H, mm(_rz(t), H))


def _ry(t):
    return mm(_rz(Fraction(1, 2)), mm(_rx(t), _rz(Fraction(-1, 2))))


def _ctl(u):
    n = len(u)
    out = _m([[1 if i == j else 0 for j in range(2 * n)] for i in range(2 * n)])
    for i in range(n):
        for j in range(n):
            out[n + i][n + j] = u[i][j]
    return out


X = _m([[0, 1], [1, 0]])
Y = [[ZERO, -I_], [I_, ZERO]]
Z = _m([[1, 0], [0, -1]])
ID = _m([[1, 0], [0, 1]])


def kron(a, b):
    return [[x * y for x in ra for y in rb] for ra in a for rb in b]


def _zz(t):
    p = phase(t)
    return _m([[1, 0, 0, 0], [0, p, 0, 0], [0, 0, p, 0], [0, 0, 0, 1]])


def gate_matrix(op):
    t = op.type
    p = list(op.params) if t not in (OpType.CircBox,) else []
    if t in (OpType.H,):
        return H
    if t == OpType.X:
        return X
    if t == OpType.Y:
        return Y
    if t == OpType.Z:
        return Z
    if t == OpType.S:
        return _rz(Fraction(1, 2))
    if t == OpType.Sdg:
        return _rz(Fraction(-1, 2))
    if t == OpType.T:
        return _rz(Fraction(1, 4))
    if t == OpType.Tdg:
        return _rz(Fraction(-1, 4))
    if t in (OpType.V, OpType.SX):
        return _rx(Fraction(1, 2))
    if t in (OpType.Vdg, OpType.SXdg):
        return _rx(Fraction(-1, 2))
    if t in (OpType.Rz, OpType.U1):
        return _rz(p[0])
    if t == OpType.Rx:
        return _rx(p[0])
    if t == OpType.Ry:
        return _ry(p[0])
    if t == OpType.noop:
        return ID
    if t == OpType.PhasedX:
        return mm(_rz(p[1]), mm(_rx(p[0]), _rz(-p[1])))
    if t == OpType.TK1:
        return mm(_rz(p[0]), mm(_rx(p[1]), _rz(p[2])))
    if t == OpType.U3:
        return mm(_rz(p[1]), mm(_ry(p[0]), _rz(p[2])))
    if t == OpType.U2:
        return mm(_rz(p[0]), mm(_ry(Fraction(1, 2)), _rz(p[1])))
    if t == OpType.CX:
        return _ctl(X)
    if t == OpType.CY:
        return _ctl(Y)
    if t == OpType.CZ:
        return _ctl(Z)
    if t == OpType.CH:
        return _ctl(H)
    if t == OpType.SWAP:
        return _m([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]])
    if t == OpType.ZZMax:
        return _zz(Fraction(1, 2))
    if t == OpType.ZZPhase:
        return _zz(p[0])
    if t == OpType.XXPhase:
        hh = kron(H, H)
        return mm(hh, mm(_zz(p[0]), hh))
    if t == OpType.CCX:
        return _ctl(_ctl(X))
    if t == OpType.CircBox:
        return circuit_matrix(op.get_circuit())
    raise NotExact(f"gate {t}")


IGNORED = (OpType.Barrier, OpType.Measure)


def circuit_matrix(circ, qubits=None, ignore=IGNORED, allow_reset=False):
    """exact unitary up to a global phase; qubit 0 is the most significant"""
    qubits = list(qubits if qubits is not None else circ.qubits)
    n = len(qubits)
    pos = {q: i for i, q in enumerate(qubits)}
    N = 2 ** n
    # columns as state vectors
    U = [[ONE if i == j else ZERO for j in range(N)] for i in range(N)]
    for com in circ.get_commands():
        if com.op.type in ignore:
            continue
        g = gate_matrix(com.op)
        U = apply(g, [pos[q] for q in com.qubits], U, n)
    # implicit wire permutation
    perm = circ.implicit_qubit_permutation()
    if any(a != b for a, b in perm.items()):
        # content of wire a ends on b
        V = [None] * N
        for i in range(N):
            bits = [(i >> (n - 1 - k)) & 1 for k in range(n)]
            nb = list(bits)
            for a, b in perm.items():
                nb[pos[b]] = bits[pos[a]]
            V[sum(b << (n - 1 - k) for k, b in enumerate(nb))] = U[i]
        U = V
    return U


def apply(g, qs, U, n):
    k = len(qs)
    N = len(U)
    cols = len(U[0])
    out = [[None] * cols for _ in range(N)]
    shifts = [n - 1 - q for q in qs]
    for i in range(N):
        a = 0
        for s in shifts:
            a = (a << 1) | ((i >> s) & 1)
        base = i
        for s in shifts:
            base &= ~(1 << s)
        terms = []
        for b in range(2 ** k):
            if g[a][b].d:
                j = base
                for t, s in enumerate(shifts):
                    if (b >> (k - 1 - t)) & 1:
                        j |= 1 << s
                terms.append((g[a][b], U[j]))
        row = out[i]
        for c in range(cols):
            t = ZERO
            for ga, ur in terms:
                if ur[c].d:
                    t = t + ga * ur[c]
            row[c] = t
    return out


def _diffs_upto_phase(A, B):
    """Amps that all vanish iff A = e^{i phi} B (both unitary)"""
    ref = None
    for i, r in enumerate(B):
        for j, x in enumerate(r):
            # a unit monomial is invertible everywhere; else any nonzero entry
            if x.d and (ref is None or len(x.d) < len(B[ref[0]][ref[1]].d)):
                ref = (i, j)
    out = []
    i, j = ref
    bij, aij = B[i][j], A[i][j]
    for k in range(len(A)):
        for l in range(len(A[0])):
            d = A[k][l] * bij - aij * B[k][l]
            if not d.iszero():
                out.append(d)
    return out


def amps_zero(ctx, amps):
    """SymBool: all the amplitudes vanish (for the angles of ctx)"""
    if not amps:
        return True
    if not getattr(ctx, "_sq", False):
        ctx.add(SQ * SQ == z3.RealVal("1/2"))
        ctx.add(SQ > 0)
        ctx._sq = True
    cs = []
    for a in amps[:12]:
        re, im = a.z3(ctx.angles)
        cs += [re == 0, im == 0]
    return E.mkbool(z3.And(*cs))


def matrices_equal(ctx, A, B):
    if ctx.symbolic:
        return amps_zero(ctx, _diffs_upto_phase(A, B))
    raise RuntimeError


def same_unitary(ctx, a, b, qubits=None):
    """two circuits implement the same unitary up to global phase, for all angles"""
    if sorted(map(str, a.qubits)) != sorted(map(str, b.qubits)):
        return False
    qubits = qubits or list(a.qubits)
    if ctx.symbolic:
        try:
            return matrices_equal(ctx, circuit_matrix(a, qubits), circuit_matrix(b, qubits))
        except NotExact as ex:
            return _numeric_same(strip(a), strip(b), qubits)
    return _numeric_same(strip(a), strip(b), qubits)


def strip(c):
    """copy without measurements, barriers and classical wires; with every circuit qubit kept in place"""
    d = Circuit()
    for q in c.qubits:
        d.add_qubit(q)
    for com in c.get_commands():
        if com.op.type in IGNORED:
            continue
        d.add_gate(com.op, com.qubits)
    perm = c.implicit_qubit_permutation()
    return d if all(a == b for a, b in perm.items()) else _with_perm(d, perm)


def _with_perm(d, perm):
    done = set()
    # decompose the permutation into swaps
    p = dict(perm)
    for a in list(p):
        while p[a] != a:
            b = p[a]
            # content of a must go to b: swap a and b
            d.SWAP(a, b)
            p[a], p[b] = p[b], b
    return d


def _numeric_same(a, b, qubits):
    import numpy as np
    if sorted(a.qubits) != sorted(b.qubits):
        return False
    A, B = a.get_unitary(), b.get_unitary()
    i = np.unravel_index(np.argmax(abs(B)), B.shape)
    if abs(A[i]) < 1e-9:
        return False
    ph = A[i] / B[i]
    return bool(np.allclose(A, ph * B, atol=1e-6))
