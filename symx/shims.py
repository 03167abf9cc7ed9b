"""Symbolic stand-ins for the few C-level functions the proxies can not pass
through.  They are installed only while a symbolic path is executed and only
act when an argument is (or may become) symbolic; everything else is forwarded
to the real function.  The list of stand-ins is part of every claim."""
import builtins
import math
import sys
import contextlib
import numpy as np
from fractions import Fraction
import z3
from . import engine as E
from .engine import Sym, SymNum, SymInt, SymReal, SymBool, SymComplex, lift, mknum, land, lor

_r_int, _r_float, _r_complex, _r_bool = builtins.int, builtins.float, builtins.complex, builtins.bool


def _has_sym(x, depth=4):
    if isinstance(x, Sym):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(v, Sym) or _is_sympy_with_sym(v) for v in x.ravel())
    if depth and isinstance(x, (list, tuple)):
        return any(_has_sym(v, depth - 1) for v in x)
    if depth and isinstance(x, dict):
        return any(_has_sym(v, depth - 1) for v in x.values())
    if _is_sympy_with_sym(x):
        return True
    return False


def _is_sympy_with_sym(x):
    return hasattr(x, "free_symbols") and any(s.name.startswith("z3!") for s in getattr(x, "free_symbols", ()) if hasattr(s, "name"))


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (_r_int, SymInt))

    def __subclasscheck__(cls, c):
        return issubclass(c, _r_int) or c is SymInt

    def __call__(cls, *a, **k):
        if len(a) == 1 and isinstance(a[0], SymNum):
            return mknum(a[0].e) if isinstance(a[0], SymInt) else mknum(a[0]._trunc())
        if len(a) == 1 and isinstance(a[0], SymBool):
            return mknum(lift(a[0]))
        return _r_int(*a, **k)


class IntShim(metaclass=_IntMeta):
    from_bytes = _r_int.from_bytes


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (_r_float, SymReal))

    def __subclasscheck__(cls, c):
        return issubclass(c, _r_float) or c is SymReal

    def __call__(cls, *a, **k):
        if len(a) == 1:
            x = a[0]
            if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
                x = x.ravel()[0]
            if isinstance(x, (SymNum, SymBool)):
                return SymReal(E.as_real(lift(x)))
            if isinstance(x, SymComplex):
                raise TypeError("can't convert complex to float")
            if _is_sympy_with_sym(x):
                return sympy_to_sym(x)
        return _r_float(*a, **k)


class FloatShim(metaclass=_FloatMeta):
    pass


class _ComplexMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (_r_complex, SymComplex))

    def __call__(cls, *a, **k):
        if any(_has_sym(x) for x in a):
            a = [sympy_to_sym(x) if _is_sympy_with_sym(x) else x for x in a]
            if len(a) == 1:
                return a[0] if isinstance(a[0], SymComplex) else SymComplex(a[0], 0)
            return SymComplex(a[0], a[1])
        return _r_complex(*a, **k)


class ComplexShim(metaclass=_ComplexMeta):
    pass


# --- sympy bridge ----------------------------------------------------------
_SYMTAB = {}


def sym_to_sympy(x):
    import sympy
    if isinstance(x, SymComplex):
        return sym_to_sympy(x.re) + sympy.I * sym_to_sympy(x.im)
    if isinstance(x, SymBool):
        x = x._num()
    if not isinstance(x, Sym):
        return sympy.sympify(x)
    c = E.const_value(x.e)
    if c is not None:
        return sympy.Rational(str(c))
    name = f"z3!{x.e.get_id()}"
    _SYMTAB[name] = x
    return sympy.Symbol(name, real=True)


def sympy_to_sym(x):
    """sympy expression over z3! symbols -> proxy"""
    import sympy
    if isinstance(x, Sym):
        return x
    if not isinstance(x, sympy.Basic):
        return x
    if x.is_Symbol:
        if x.name in _SYMTAB:
            return _SYMTAB[x.name]
        raise E.Inconclusive(f"free sympy symbol {x}")
    if x.is_Rational:
        return Fraction(_r_int(x.p), _r_int(x.q)) if x.q != 1 else _r_int(x.p)
    if x.is_Float:
        return E.float_to_fraction(_r_float(x))
    if x is sympy.I:
        return SymComplex(0, 1)
    if x.is_Add:
        r = 0
        for a in x.args:
            r = r + sympy_to_sym(a)
        return r
    if x.is_Mul:
        r = 1
        for a in x.args:
            r = r * sympy_to_sym(a)
        return r
    if x.is_Pow and x.exp.is_Integer:
        return sympy_to_sym(x.base) ** _r_int(x.exp)
    if isinstance(x, sympy.Abs):
        return abs(sympy_to_sym(x.args[0]))
    if isinstance(x, (sympy.Max, sympy.Min)):
        r = sympy_to_sym(x.args[0])
        for a in x.args[1:]:
            v = sympy_to_sym(a)
            r = E.ite(v > r if isinstance(x, sympy.Max) else v < r, v, r)
        return r
    if x.is_number:
        return E.float_to_fraction(_r_float(x))
    raise E.Inconclusive(f"sympy expression {x}")


def _sympify_hook(self):
    return sym_to_sympy(self)


Sym._sympy_ = _sympify_hook


def value_of(x):
    """bring a result (proxy, sympy, numpy, python) into the checked domain"""
    import sympy
    if isinstance(x, np.ndarray) and x.size == 1 and x.shape == ():
        x = x.item()
    if isinstance(x, sympy.Basic):
        if _is_sympy_with_sym(x):
            return sympy_to_sym(x)
        c = _r_complex(x)
        return c.real if abs(c.imag) < 1e-15 else c
    return x


# --- numpy -----------------------------------------------------------------
def _from_qermit(depth=2):
    f = sys._getframe(depth)
    n = f.f_globals.get("__name__", "")
    return n.startswith("qermit")


def _mask(i):
    if isinstance(i, tuple):
        return tuple(_mask(x) for x in i)
    if isinstance(i, np.ndarray) and i.dtype == object and i.size and all(isinstance(x, (_r_bool, np.bool_, SymBool)) for x in i.ravel()):
        return np.array([_r_bool(x) for x in i.ravel()], dtype=bool).reshape(i.shape)
    if isinstance(i, SymBool):
        return _r_bool(i)
    return i


class SymArray(np.ndarray):
    """object array whose boolean masks may be symbolic (each entry forks)"""

    def __getitem__(self, i):
        return super().__getitem__(_mask(i))

    def __setitem__(self, i, v):
        super().__setitem__(_mask(i), v)


def _view(a):
    return a.view(SymArray) if isinstance(a, np.ndarray) and a.dtype == object and not isinstance(a, SymArray) else a


def _mk_array(real):
    def array(*a, **k):
        if E._cur is not None and _from_qermit():
            if k.get("dtype") in (_r_float, FloatShim, np.float64, IntShim, ComplexShim, _r_complex, _r_int) and a and _has_sym(a[0]):
                k = dict(k)
                k["dtype"] = object
            elif k.get("dtype") in (FloatShim, IntShim, ComplexShim):
                k = dict(k)
                k["dtype"] = {FloatShim: _r_float, IntShim: _r_int, ComplexShim: _r_complex}[k["dtype"]]
            return _view(real(*a, **k))
        return real(*a, **k)
    return array


def _mk_creator(name, real):
    def creator(*a, **k):
        return _view(creator_(*a, **k))

    def creator_(*a, **k):
        if E._cur is not None and _from_qermit(3):
            dt = k.get("dtype", a[1] if len(a) > 1 and name in ("zeros", "ones", "empty") else None)
            if dt is None or dt in (_r_float, FloatShim, np.float64, np.double, ComplexShim, _r_complex):
                k = dict(k)
                k.pop("dtype", None)
                aa = a[:1] if name in ("zeros", "ones", "empty") else a
                if name == "full":
                    out = np.empty(aa[0], dtype=object)
                    out[...] = a[1] if len(a) > 1 else k["fill_value"]
                    return out
                out = real(*aa, **k)
                if name == "empty":
                    return np.zeros(out.shape).astype(object)
                return _exact(out.astype(object))
        return real(*a, **k)
    creator.__name__ = name
    return creator


def _exact(arr):
    out = np.empty(arr.shape, dtype=object)
    for i in np.ndindex(*arr.shape):
        v = arr[i]
        if isinstance(v, _r_float) and v == _r_int(v):
            v = _r_int(v)
        out[i] = v
    return out


def exact_inv(m):
    """Adjugate inverse over proxies; raises LinAlgError when singular."""
    m = np.asarray(m, dtype=object)
    n = m.shape[0]
    if not _has_sym(m):
        cols = [solve_frac(m.tolist(), [1 if i == j else 0 for i in range(n)]) for j in range(n)]
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                out[i, j] = cols[j][i]
        return _view(out)
    d = det(m)
    sing = (d == 0)
    if (sing if isinstance(sing, _r_bool) else _r_bool(sing)):
        raise np.linalg.LinAlgError("Singular matrix")
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            minor = np.delete(np.delete(m, j, 0), i, 1)
            c = det(minor) if n > 1 else 1
            out[i, j] = (c if (i + j) % 2 == 0 else -c) / d if isinstance(c, Sym) or isinstance(d, Sym) else Fraction(c if (i + j) % 2 == 0 else -c) / d
    return _view(out)


def det(m):
    n = m.shape[0]
    if n == 0:
        return 1
    if n == 1:
        return m[0, 0]
    t = 0
    for j in range(n):
        minor = np.delete(np.delete(m, 0, 0), j, 1)
        x = m[0, j] * det(minor)
        t = t + x if j % 2 == 0 else t - x
    return t


def solve_frac(a, b):
    """Gauss over exact rationals a (concrete) with possibly symbolic b."""
    n = len(a)
    a = [[Fraction(x) for x in r] for r in a]
    b = list(b)
    for c in range(n):
        p = next((r for r in range(c, n) if a[r][c] != 0), None)
        if p is None:
            raise np.linalg.LinAlgError("Singular matrix")
        a[c], a[p] = a[p], a[c]
        b[c], b[p] = b[p], b[c]
        for r in range(n):
            if r != c and a[r][c] != 0:
                f = a[r][c] / a[c][c]
                a[r] = [x - f * y for x, y in zip(a[r], a[c])]
                b[r] = b[r] - f * b[c] if f != 0 else b[r]
    return [b[i] / a[i][i] if not isinstance(b[i], _r_int) or isinstance(b[i], Sym) else Fraction(b[i]) / a[i][i] for i in range(n)]


def _frac(x):
    if isinstance(x, (float, np.floating)):
        return E.float_to_fraction(x)
    if isinstance(x, np.integer):
        return Fraction(_r_int(x))
    if isinstance(x, Sym):
        c = E.const_value(x.e)
        if c is None:
            raise E.Inconclusive("least-squares with symbolic abscissa")
        return Fraction(c)
    return Fraction(x)


def lstsq_poly(x, y, deg):
    """Least-squares polynomial fit, exact, linear in y.  Highest power first."""
    x = [_frac(v) for v in x]
    n = _r_int(deg) + 1
    V = [[v ** (n - 1 - j) for j in range(n)] for v in x]
    if len(set(x)) < n:
        raise E.Inconclusive("rank deficient polynomial fit")
    A = [[sum(V[k][i] * V[k][j] for k in range(len(x))) for j in range(n)] for i in range(n)]
    b = []
    for i in range(n):
        t = 0
        for k in range(len(x)):
            t = t + V[k][i] * y[k]
        b.append(t)
    out = solve_frac(A, b)
    r = np.empty(n, dtype=object)
    for i, v in enumerate(out):
        r[i] = v
    return _view(r)


_PATCHES = []
_MISSING = object()


def patch(obj, name, new):
    _PATCHES.append((obj, name, getattr(obj, name, _MISSING)))
    setattr(obj, name, new)


def _readout_counts(real):
    def readout_counts(ctr):
        if E._cur is not None and any(isinstance(v, Sym) for v in ctr.values()):
            from collections import Counter
            return Counter({tuple(map(_r_int, oa.to_readout())): n if isinstance(n, Sym) else _r_int(n) for oa, n in ctr.items()})
        return real(ctr)
    return readout_counts


SHIM_NAMES = {"int": IntShim, "float": FloatShim, "complex": ComplexShim}


def qermit_modules():
    return [m for n, m in list(sys.modules.items()) if n == "qermit" or n.startswith("qermit.")]


def _wrap(real, when, new):
    def w(*a, **k):
        if E._cur is not None and when(*a, **k):
            return new(*a, **k)
        return real(*a, **k)
    w.__name__ = getattr(real, "__name__", "w")
    return w


def _isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False, rel_tol=None, abs_tol=None):
    # over the reals: closeness is read as the documented inequality
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            out[i] = _isclose(a[i], b[i], rtol, atol)
        return out
    if isinstance(a, SymComplex) or isinstance(b, SymComplex):
        a, b = SymComplex.of(a), SymComplex.of(b)
        return land(_isclose(a.re, b.re), _isclose(a.im, b.im))
    d = abs(a - b)
    if rel_tol is not None or abs_tol is not None:
        rt = 1e-9 if rel_tol is None else rel_tol
        at = 0.0 if abs_tol is None else abs_tol
        return lor(d <= rt * abs(a), d <= rt * abs(b), d <= at)
    return d <= (atol + rtol * abs(b))


def _all(x):
    return land(*list(np.asarray(x, dtype=object).ravel()))


INSTALLED = [
    "numpy.zeros/ones/full/eye/empty called from qermit return exact object arrays",
    "numpy object arrays made in qermit accept symbolic boolean masks (one fork per entry)",
    "numpy.linalg.inv/det/solve/norm on symbolic arrays: exact adjugate / Gauss / Euclidean norm",
    "numpy.linalg.lstsq with a symbolic right-hand side: exact least squares",
    "scipy.fft / numpy.fft transforms and scipy.interpolate.interpn on symbolic arrays: their definitions (DFT, multilinear interpolation)",
    "numpy.polynomial keeps possibly zero leading coefficients of symbolic polynomials (same polynomial)",
    "numpy.polyfit on symbolic ordinates: exact least squares",
    "numpy/math isclose and allclose on symbolic values: the documented inequality over the reals",
    "Counter.elements read by BackendResult for its width only: yields the keys",
    "pytket readout_counts keeps symbolic multiplicities (they may be exact real frequencies)",
    "int/float/complex on symbolic values: exact truncation / identity",
    "truth of sympy comparisons over symbolic values: the comparison itself (forks)",
    "QubitPauliOperator.to_list keeps symbolic coefficients",
]


def install():
    if _PATCHES:
        return
    for name in ("zeros", "ones", "full", "eye", "empty", "identity"):
        patch(np, name, _mk_creator(name, getattr(np, name)))
    patch(np, "array", _mk_array(np.array))
    patch(np.linalg, "inv", _wrap(np.linalg.inv, lambda m: _obj(m), lambda m: exact_inv(m)))
    patch(np.linalg, "det", _wrap(np.linalg.det, lambda m: _obj(m), lambda m: det(np.asarray(m, dtype=object))))
    patch(np.linalg, "pinv", _wrap(np.linalg.pinv, lambda m, *a, **k: _obj(m), lambda m, *a, **k: exact_inv(m)))
    patch(np.linalg, "solve", _wrap(np.linalg.solve, lambda a, b: _obj(a) or _obj(b), lambda a, b: _solve(a, b)))
    patch(np.linalg, "norm", _wrap(np.linalg.norm, lambda m, *a, **k: _obj(m), lambda m, *a, **k: _norm(m, *a, **k)))
    patch(np, "polyfit", _wrap(np.polyfit, lambda x, y, *a, **k: _has_sym(x) or _has_sym(y), lambda x, y, deg, **k: lstsq_poly(list(x), list(y), deg)))
    patch(np, "isclose", _wrap(np.isclose, lambda a, b, **k: _obj(a) or _obj(b), _isclose))
    patch(np, "allclose", _wrap(np.allclose, lambda a, b, **k: _obj(a) or _obj(b), lambda a, b, **k: _all(_isclose(np.asarray(a, dtype=object), np.asarray(b, dtype=object), **k))))
    patch(math, "isclose", _wrap(math.isclose, lambda a, b, **k: _obj(a) or _obj(b), lambda a, b, **k: _isclose(a, b, rel_tol=k.get("rel_tol", 1e-9), abs_tol=k.get("abs_tol", 0.0))))
    patch(math, "sqrt", _wrap(math.sqrt, lambda a: isinstance(a, Sym), lambda a: a.sqrt()))
    patch(math, "exp", _wrap(math.exp, lambda a: isinstance(a, Sym), lambda a: a.exp()))
    patch(math, "log", _wrap(math.log, lambda a, *b: isinstance(a, Sym), lambda a, *b: a.log()))
    from collections import Counter
    import pytket.backends.backendresult as pbr
    patch(pbr, "readout_counts", _readout_counts(pbr.readout_counts))
    patch(Counter, "elements", _elements(Counter.elements))
    patch(math, "prod", _wrap(math.prod, lambda a, **k: True, lambda a, start=1: _prod(a, start)))
    patch(np.linalg, "lstsq", _wrap(np.linalg.lstsq, lambda a, b, *x, **k: _obj(a) or _obj(b) or _has_sym(b), _lstsq))
    import scipy.fft as sfft
    import scipy.interpolate as sint
    for mod in (sfft, np.fft):
        for name, inv in (("fftn", False), ("ifftn", True), ("fft", False), ("ifft", True), ("fft2", False), ("ifft2", True)):
            patch(mod, name, _wrap(getattr(mod, name), lambda a, *x, **k: _obj(a), _mk_dft(inv, name)))
    patch(sint, "interpn", _wrap(sint.interpn, lambda p, v, x, *y, **k: _obj(v) or _has_sym(x), _interpn))
    patch(sint, "RegularGridInterpolator", _mk_rgi(sint.RegularGridInterpolator))
    import numpy.polynomial.polyutils as pu
    patch(pu, "trimseq", _wrap(pu.trimseq, lambda a: _has_sym(a), lambda a: a))
    import pytket.utils.operators as puo
    patch(puo, "complex", ComplexShim)
    to_list = puo.complex_to_list
    patch(puo, "complex_to_list", lambda c: [c.re, c.im] if isinstance(c, SymComplex) else to_list(c))
    import sympy
    Rel = sympy.core.relational.Relational
    patch(Rel, "__bool__", _rel_bool(Rel.__bool__))
    new = {}
    for o, n, v in _PATCHES:
        if callable(v) and isinstance(o, type(math)):
            new[id(v)] = getattr(o, n)
    for m in qermit_modules():
        for n, v in list(m.__dict__.items()):   # "from math import isclose" and the like
            if id(v) in new and not n.startswith("__"):
                patch(m, n, new[id(v)])
        for n, s in SHIM_NAMES.items():
            m.__dict__.setdefault(n, s)


def _solve(a, b):
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    return _view(exact_inv(a) @ b)


def _lstsq(a, b, rcond=None):
    """least squares with a concrete matrix and symbolic right-hand side: linear in it"""
    a = np.asarray(a, dtype=object)
    a = np.array([[_r_float(v) for v in r] for r in a], dtype=_r_float)
    b = np.asarray(b, dtype=object)
    if any(hasattr(v, "free_symbols") for v in b.ravel()):
        c = np.empty(b.shape, dtype=object)
        for i in np.ndindex(*b.shape):
            c[i] = sympy_to_sym(b[i])
        b = c
    rank = _r_int(np.linalg.matrix_rank(a))
    m, n = a.shape
    if rank < n:   # minimum norm solution, coefficients rounded as floats
        P = np.linalg.pinv(a)
        cols = b.reshape(m, -1)
        out = np.empty((n, cols.shape[1]), dtype=object)
        for i in range(n):
            for c in range(cols.shape[1]):
                out[i, c] = E.ssum([E.float_to_fraction(P[i, k]) * cols[k, c] for k in range(m)])
        return _view(out.reshape((n,) + b.shape[1:])), np.array([]), rank, np.ones(n)
    A = [[E.float_to_fraction(x) for x in r] for r in a]
    N = [[sum(A[k][i] * A[k][j] for k in range(m)) for j in range(n)] for i in range(n)]
    cols = b.reshape(m, -1)
    out = np.empty((n, cols.shape[1]), dtype=object)
    for c in range(cols.shape[1]):
        rhs = [E.ssum([A[k][i] * cols[k, c] for k in range(m)]) for i in range(n)]
        for i, v in enumerate(solve_frac(N, rhs)):
            out[i, c] = v
    return _view(out.reshape((n,) + b.shape[1:])), np.array([]), rank, np.ones(n)


_ROOTS = {}


def root_of_unity(n, k):
    """exp(-2 pi i k / n) as exact or rounded (conjugate symmetric) rationals"""
    k %= n
    if (n, k) not in _ROOTS:
        if 2 * k > n:
            r = root_of_unity(n, n - k)
            _ROOTS[n, k] = (r[0], -r[1])
        else:
            a = -2 * math.pi * k / n
            rd = lambda v: Fraction(round(v * 2)) / 2 if abs(v * 2 - round(v * 2)) < 1e-12 else Fraction(v)
            _ROOTS[n, k] = (rd(math.cos(a)), Fraction(0) if 2 * k == n else rd(math.sin(a)))
    return _ROOTS[n, k]


def _cx(v):
    v = sympy_to_sym(v) if hasattr(v, "free_symbols") else v
    c = SymComplex.of(v)
    return c if c is not None else SymComplex(v, 0)


def dft(a, inverse=False):
    """discrete Fourier transform of an object array over all axes, by its definition"""
    a = np.asarray(a, dtype=object)
    cur = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        cur[i] = _cx(a[i])
    for ax in range(a.ndim):
        n = a.shape[ax]
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            re, im = [], []
            for m in range(n):
                c, s = root_of_unity(n, -i[ax] * m if inverse else i[ax] * m)
                v = cur[i[:ax] + (m,) + i[ax + 1:]]
                for x, w, t in ((v.re, c, re), (v.im, -s, re), (v.re, s, im), (v.im, c, im)):
                    if w != 0 and not (isinstance(x, (_r_int, _r_float)) and not isinstance(x, Sym) and x == 0):
                        t.append(x * w)
            d = Fraction(1, n) if inverse else 1
            re, im = E.ssum(re) * d if re else 0, E.ssum(im) * d if im else 0
            out[i] = SymComplex(re, im)
        cur = out
    return _view(cur)


def _mk_dft(inverse, name):
    def f(a, s=None, axes=None, **k):
        a = np.asarray(a, dtype=object)
        if s is not None or axes is not None or k or a.ndim != {"fft": 1, "ifft": 1, "fft2": 2, "ifft2": 2}.get(name, a.ndim):
            raise E.Inconclusive("Fourier transform with options")
        return dft(a, inverse)
    return f


def _interpn(points, values, xi, method="linear", bounds_error=True, fill_value=None, **k):
    """multilinear interpolation by its definition"""
    if method != "linear" or k:
        raise E.Inconclusive("interpolation with options")
    pts = [[_frac(x) for x in p] for p in points]
    values = np.asarray(values, dtype=object)
    xi = np.asarray(xi, dtype=object)
    rows = xi.reshape(-1, xi.shape[-1]) if xi.ndim else xi.reshape(1, 1)
    if rows.shape[1] != len(pts):
        raise ValueError("dimension of the points")
    out = np.empty(rows.shape[0], dtype=object)
    for r, row in enumerate(rows):
        cells = []
        for p, x in zip(pts, row):
            x = sympy_to_sym(x) if hasattr(x, "free_symbols") else x
            x = E.float_to_fraction(x) if isinstance(x, (_r_float, np.floating)) else x
            if not _r_bool(land(x >= p[0], x <= p[-1])):
                if bounds_error:
                    raise ValueError("One of the requested xi is out of bounds")
                raise E.Inconclusive("interpolation outside the grid")
            if len(p) == 1:
                cells.append([(0, 1)])
                continue
            i = 0
            while i < len(p) - 2 and _r_bool(x >= p[i + 1]):
                i += 1
            w = (x - p[i]) / (p[i + 1] - p[i])
            cells.append([(i, 1 - w), (i + 1, w)])
        tot = None
        import itertools
        for combo in itertools.product(*cells):
            w = 1
            for _, f in combo:
                w = w * f
            if isinstance(w, (_r_int, Fraction)) and w == 0:
                continue
            v = _cx(values[tuple(i for i, _ in combo)])
            t = SymComplex(v.re * w, v.im * w)
            tot = t if tot is None else tot + t
        out[r] = tot if tot is not None else SymComplex(0, 0)
    return _view(out.reshape(xi.shape[:-1] if xi.ndim > 1 else (1,)))


def _mk_rgi(real):
    def RegularGridInterpolator(points, values, method="linear", bounds_error=True, fill_value=None, **k):
        if E._cur is not None and _obj(values):
            return lambda xi: _interpn(points, values, xi, method, bounds_error, fill_value, **k)
        return real(points, values, method=method, bounds_error=bounds_error, **({} if fill_value is None else {"fill_value": fill_value}), **k)
    return RegularGridInterpolator


_REL = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
        "==": lambda a, b: E.eq(a, b), "!=": lambda a, b: E.lnot(E.eq(a, b))}


def _rel_bool(real):
    def __bool__(self):
        if _is_sympy_with_sym(self):
            return _r_bool(_REL[self.rel_op](sympy_to_sym(self.lhs), sympy_to_sym(self.rhs)))
        return real(self)
    return __bool__


def _elements(real):
    def elements(self):
        if E._cur is not None and any(isinstance(v, Sym) for v in self.values()):
            if sys._getframe(1).f_globals.get("__name__", "") == "pytket.backends.backendresult":
                return iter(self.keys())  # only the width of the first outcome is read
            return _elem_gen(self)
        return real(self)
    return elements


def _elem_gen(c):
    for k, v in c.items():
        for _ in range(v):
            yield k


def _prod(a, start=1):
    for x in a:
        start = start * x
    return start


def _norm(m, ord=None, axis=None, keepdims=False):
    v = np.asarray(m, dtype=object).ravel()
    if ord == 1:
        return E.ssum([abs(x) for x in v])
    s = E.ssum([x * x for x in v])
    return s.sqrt() if isinstance(s, Sym) else math.sqrt(s)


def _obj(m):
    return _has_sym(m) or (isinstance(m, np.ndarray) and m.dtype == object)


def uninstall():
    while _PATCHES:
        o, n, v = _PATCHES.pop()
        if v is _MISSING:
            delattr(o, n)
        else:
            setattr(o, n, v)
    for m in qermit_modules():
        for n, s in SHIM_NAMES.items():
            if m.__dict__.get(n) is s:
                del m.__dict__[n]


@contextlib.contextmanager
def installed():
    install()
    try:
        yield
    finally:
        uninstall()
