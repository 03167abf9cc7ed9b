"""Bounded symbolic execution of the real Python code, decided by z3.

A harness is a Python function ``h(ctx)``.  It draws its inputs from ``ctx``
(``ctx.int``, ``ctx.real``, ``ctx.bool``, ``ctx.choice`` ...), calls the real
functions of /repo/qermit on them and states the property with ``ctx.check``.

In *symbolic* mode the inputs are z3-backed proxy values.  Wherever the code
under test branches on such a value (``__bool__``, ``__index__``, ``__hash__``
...), the engine asks z3 which outcomes are feasible, follows one and queues
the others, so that every feasible path within the declared bounds is executed
(depth-first, by re-execution with a decision prefix).  On every path
``ctx.check`` asks z3 for values satisfying the path condition and the negated
property: unsat means the assertion holds for every value on that path.

In *concrete* mode the same harness gets plain Python values (taken from a
solver model) and runs the unpatched code: this is how counterexamples are
replayed and how the proxies and stubs are validated against the real thing.
"""
import os
import sys
import time
import math
import random as _pyrandom
import operator
from fractions import Fraction

import z3

_cur = None  # the current symbolic Path, or None


class PathAbort(BaseException):
    """Path is infeasible / cut by an assumption."""


class Inconclusive(BaseException):
    """The engine can not decide (solver unknown, unsupported operation...)."""


class ViolationFound(BaseException):
    def __init__(self, label):
        self.label = label


class BoundExceeded(Inconclusive):
    pass


def current():
    return _cur


def is_sym(x):
    return isinstance(x, Sym)


# --------------------------------------------------------------------------
# constants
# --------------------------------------------------------------------------
_FCACHE = {}


def float_to_fraction(f):
    """Simplest rational within about one ulp of f (floats read as reals)."""
    f = float(f)
    r = _FCACHE.get(f)
    if r is None:
        if f != f or f in (float("inf"), float("-inf")):
            raise Inconclusive("non-finite float meets a symbolic value")
        ex = Fraction(f)
        r = ex
        for d in (1, 2, 4, 8, 10, 16, 100, 1000, 10000, 10**6):
            c = ex.limit_denominator(d)
            if abs(c - ex) <= abs(ex) * Fraction(1, 2**51) and (c != 0 or f == 0):
                r = c
                break
        else:
            c = Fraction(repr(f))
            r = c
        _FCACHE[f] = r
    return r


def _np_scalar(x):
    return type(x).__module__ == "numpy" and hasattr(x, "item") and getattr(x, "shape", None) == ()


def lift(x):
    """Python value -> z3 arithmetic expression, or None if not a number."""
    if isinstance(x, SymNum):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        fr = float_to_fraction(x)
        return z3.RealVal(str(fr))
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if _np_scalar(x):
        if getattr(x, "dtype", None) is not None and x.dtype.kind in "biuf":
            return lift(x.item())
        if x.dtype.kind == "O":
            return lift(x.item())
        return None
    if isinstance(x, complex):
        return None
    # sympy numbers
    if hasattr(x, "is_Rational") and getattr(x, "is_Rational", False):
        return z3.RealVal(f"{int(x.p)}/{int(x.q)}")
    if hasattr(x, "is_Float") and getattr(x, "is_Float", False):
        return lift(float(x))
    return None


def as_real(e):
    return z3.ToReal(e) if e.sort() == z3.IntSort() else e


def _isint(e):
    return e.sort() == z3.IntSort()


def const_value(e):
    """z3 numeral -> int/Fraction, else None"""
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return None


def mknum(e):
    e = z3.simplify(e)
    c = const_value(e)
    if c is not None:
        if _isint(e):
            return int(c)
        # stay a symbolic-domain exact rational so that later operations stay exact
        return SymReal(e)
    return SymInt(e) if _isint(e) else SymReal(e)


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


# --------------------------------------------------------------------------
# proxies
# --------------------------------------------------------------------------
class Sym:
    __slots__ = ("e",)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"<{self.e}>"


def _elementwise(op, a, b):
    import numpy as np
    if isinstance(b, np.ndarray):
        out = np.empty(b.shape, dtype=object)
        for i in np.ndindex(*b.shape):
            out[i] = op(a, b[i])
        return out
    return None


def _binop(fn, opf, refl=False):
    def f(self, other):
        o = lift(other)
        if o is None:
            if isinstance(other, complex):
                r, i = other.real, other.imag
                c = SymComplex(self, 0)
                return opf(SymComplex(r, i), c) if refl else opf(c, SymComplex(r, i))
            if isinstance(other, SymComplex):
                return opf(other, SymComplex(self, 0)) if refl else opf(SymComplex(self, 0), other)
            if _np_scalar(other) and other.dtype.kind == "c":
                return f(self, complex(other))
            r = _elementwise((lambda a, b: opf(b, a)) if refl else opf, self, other)
            if r is not None:
                return r
            return NotImplemented
        a, b = (o, self.e) if refl else (self.e, o)
        return fn(a, b)
    return f


def _coerce(a, b):
    if _isint(a) and _isint(b):
        return a, b
    return as_real(a), as_real(b)


def _add(a, b):
    a, b = _coerce(a, b)
    return mknum(a + b)


def _sub(a, b):
    a, b = _coerce(a, b)
    return mknum(a - b)


def _mul(a, b):
    a, b = _coerce(a, b)
    return mknum(a * b)


def _nonzero(b):
    c = const_value(z3.simplify(b))
    if c is not None:
        if c == 0:
            raise ZeroDivisionError("division by zero")
        return
    if _branch(b == 0):
        raise ZeroDivisionError("division by zero")


def _div(a, b):
    _nonzero(b)
    return mknum(as_real(a) / as_real(b))


def _floordiv(a, b):
    _nonzero(b)
    if _isint(a) and _isint(b):
        # z3 div: remainder non-negative.  python: floor.
        cb = const_value(z3.simplify(b))
        if cb is not None and cb > 0:
            return mknum(a / b)
        q = a / b
        return mknum(z3.If(z3.And(b < 0, q * b != a), q - 1, q))
    a, b = as_real(a), as_real(b)
    return mknum(z3.ToReal(z3.ToInt(a / b)))


def _mod(a, b):
    _nonzero(b)
    if _isint(a) and _isint(b):
        cb = const_value(z3.simplify(b))
        if cb is not None and cb > 0:
            return mknum(a % b)
        q = a / b
        q = z3.If(z3.And(b < 0, q * b != a), q - 1, q)
        return mknum(a - q * b)
    a, b = as_real(a), as_real(b)
    return mknum(a - b * z3.ToReal(z3.ToInt(a / b)))


def _pow(a, b):
    cb = const_value(z3.simplify(b))
    if cb is None:
        ca = const_value(z3.simplify(a))
        p = _cur
        # symbolic exponent: case split
        v = p.concretize(b)
        cb = v
    if isinstance(cb, Fraction) and cb.denominator == 1:
        cb = int(cb)
    if isinstance(cb, int):
        if cb >= 0:
            r = z3.IntVal(1) if _isint(a) else z3.RealVal(1)
            for _ in range(cb):
                r = r * a
            return mknum(r)
        _nonzero(a)
        r = z3.RealVal(1)
        for _ in range(-cb):
            r = r * as_real(a)
        return mknum(z3.RealVal(1) / r)
    if cb == Fraction(1, 2):
        return mknum(a).sqrt() if isinstance(mknum(a), Sym) else math.sqrt(float(const_value(a)))
    if isinstance(cb, Fraction) and cb.limit_denominator(6).numerator == 1 and abs(cb - cb.limit_denominator(6)) < Fraction(1, 10**12):
        q = cb.limit_denominator(6).denominator   # q-th root of a non-negative number
        p = _cur
        x = as_real(a)
        key = ("root", q, x.get_id())
        if key not in p.memo:
            if _branch(x < 0):
                raise Inconclusive("root of a negative number")
            s = z3.Real(f"root!{len(p.memo)}")
            t = s
            for _ in range(q - 1):
                t = t * s
            p.add(s >= 0)
            p.add(t == x)
            p.memo[key] = SymReal(s)
            p.keep.append(x)
        return p.memo[key]
    raise Inconclusive(f"power with exponent {cb}")


def _inf(x):
    return isinstance(x, float) and x in (float("inf"), float("-inf"))


def _cmp(fn):
    pyop = fn(z3.IntVal(0), z3.IntVal(1)).decl().name()
    pyop = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}[pyop]

    def f(self, other):
        if _inf(other):
            return pyop(0.0, float(other))
        o = lift(other)
        if o is None:
            r = _elementwise(lambda a, b: fn2(a, b), self, other)
            if r is not None:
                return r
            return NotImplemented
        a, b = _coerce(self.e, o)
        return mkbool(fn(a, b))

    def fn2(a, b):
        return f(a, b)
    return f


class SymNum(Sym):
    __slots__ = ()
    __add__ = _binop(_add, operator.add)
    __radd__ = _binop(_add, operator.add, True)
    __sub__ = _binop(_sub, operator.sub)
    __rsub__ = _binop(_sub, operator.sub, True)
    __mul__ = _binop(_mul, operator.mul)
    __rmul__ = _binop(_mul, operator.mul, True)
    __truediv__ = _binop(_div, operator.truediv)
    __rtruediv__ = _binop(_div, operator.truediv, True)
    __floordiv__ = _binop(_floordiv, operator.floordiv)
    __rfloordiv__ = _binop(_floordiv, operator.floordiv, True)
    __mod__ = _binop(_mod, operator.mod)
    __rmod__ = _binop(_mod, operator.mod, True)
    __pow__ = _binop(_pow, operator.pow)
    __rpow__ = _binop(_pow, operator.pow, True)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)

    def __eq__(self, other):
        if _inf(other):
            return False
        o = lift(other)
        if o is None:
            if isinstance(other, SymComplex):
                return other == self
            r = _elementwise(operator.eq, self, other)
            if r is not None:
                return r
            if isinstance(other, complex):
                return SymComplex(self, 0) == other
            return False
        a, b = _coerce(self.e, o)
        return mkbool(a == b)

    def __ne__(self, other):
        r = self.__eq__(other)
        if isinstance(r, bool):
            return not r
        if isinstance(r, SymBool):
            return mkbool(z3.Not(r.e))
        return ~r

    def __neg__(self):
        return mknum(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mknum(z3.If(self.e >= 0, self.e, -self.e))

    def __bool__(self):
        return _branch(self.e != 0)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def sqrt(self):
        """numpy calls this for np.sqrt on object arrays.  Fresh s, s>=0, s*s==x."""
        p = _cur
        x = as_real(self.e)
        key = ("sqrt", x.get_id())
        if key in p.memo:
            return p.memo[key]
        if _branch(x < 0):
            raise ValueError("sqrt of negative number")
        s = z3.Real(f"sqrt!{len(p.memo)}")
        p.add(s >= 0)
        p.add(s * s == x)
        r = SymReal(s)
        p.memo[key] = r
        p.keep.append(x)
        return r

    def exp(self):
        # uninterpreted, with the facts about exp that are used: positive, exp(0) = 1
        r = _cur.ufun_real("exp", self)
        _cur.add(r.e > 0)
        _cur.add(z3.Implies(as_real(self.e) == 0, r.e == 1))
        return r

    def log(self):
        return _cur.ufun_real("log", self)

    def is_integer(self):
        return mkbool(z3.IsInt(as_real(self.e)))


class SymInt(SymNum):
    __slots__ = ()

    def __index__(self):
        return _cur.concretize(self.e)

    def __int__(self):
        return _cur.concretize(self.e)

    def __hash__(self):
        return hash(_cur.concretize(self.e))

    def __float__(self):
        return float(_cur.concretize(self.e))

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def item(self):
        return self

    def __format__(self, spec):
        return format(_cur.concretize(self.e), spec)

    def __str__(self):
        return str(_cur.concretize(self.e))

    # bit operations
    def __and__(self, o):
        if isinstance(o, int) and o == 1:
            return self % 2
        return _cur.concretize(self.e) & int(o)

    def __rand__(self, o):
        return self.__and__(o)

    def __or__(self, o):
        return _cur.concretize(self.e) | int(o)

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)) or isinstance(o, (int, SymInt)):
            # exact for 0/1 values; otherwise case split
            if _is01(self) and _is01(o):
                return (self + o) % 2
        return _cur.concretize(self.e) ^ int(o)

    __rxor__ = __xor__

    def __lshift__(self, o):
        return self * 2 ** int(o)

    def __rshift__(self, o):
        return self // 2 ** int(o)

    def __rlshift__(self, o):
        return o << _cur.concretize(self.e)

    def __rrshift__(self, o):
        return o >> _cur.concretize(self.e)

    def __invert__(self):
        return -self - 1

    def bit_count(self):
        return _cur.concretize(self.e).bit_count()

    def bit_length(self):
        return _cur.concretize(self.e).bit_length()


def _is01(x):
    if isinstance(x, (bool, SymBool)):
        return True
    if isinstance(x, int):
        return x in (0, 1)
    if isinstance(x, SymInt):
        return _cur.implied(z3.And(x.e >= 0, x.e <= 1))
    return False


class SymReal(SymNum):
    __slots__ = ()

    def __hash__(self):
        c = const_value(self.e)
        if c is not None:
            return hash(c)
        return hash(_cur.concretize_real(self.e))

    def __int__(self):
        return _cur.concretize(self._trunc())

    def _trunc(self):
        f = z3.ToInt(self.e)
        return z3.If(self.e >= 0, f, z3.If(z3.ToReal(f) == self.e, f, f + 1))

    def __trunc__(self):
        return mknum(self._trunc())

    def __floor__(self):
        return mknum(z3.ToInt(self.e))

    def __ceil__(self):
        return mknum(-z3.ToInt(-self.e))

    floor = __floor__
    ceil = __ceil__

    def __float__(self):
        c = const_value(self.e)
        if c is not None:
            return float(c)
        return float(_cur.concretize_real(self.e))

    def __complex__(self):
        return complex(float(self))

    def __round__(self, n=None):
        if n is not None and n != 0:
            s = 10 ** n
            return (self * s).__round__() / s
        f = z3.ToInt(self.e)
        d = self.e - z3.ToReal(f)
        half = z3.RealVal("1/2")
        r = z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))
        return mknum(r)

    rint = __round__

    def item(self):
        return self

    def __format__(self, spec):
        return f"<{self.e}>"

    def __str__(self):
        return f"<{self.e}>"


class SymBool(Sym):
    __slots__ = ()

    def __bool__(self):
        return _branch(self.e)

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(self.e == o.e)
        if isinstance(o, bool):
            return mkbool(self.e) if o else mkbool(z3.Not(self.e))
        l = lift(o)
        if l is None:
            return False
        a, b = _coerce(lift(self), l)
        return mkbool(a == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.e))

    def __and__(self, o):
        o = tobool(o)
        return mkbool(z3.And(self.e, o))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.e, tobool(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, tobool(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    logical_not = __invert__

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __str__(self):
        return str(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)

    def _num(self):
        return SymInt(lift(self))

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __mod__(self, o):
        return self._num() % o

    def __pow__(self, o):
        return self._num() ** o

    def __rpow__(self, o):
        if o == -1 or o == 1:
            return mknum(z3.If(self.e, z3.IntVal(int(o)), z3.IntVal(1)))
        return o ** int(bool(self))

    def __neg__(self):
        return -self._num()

    def __lt__(self, o):
        return self._num() < o

    def __le__(self, o):
        return self._num() <= o

    def __gt__(self, o):
        return self._num() > o

    def __ge__(self, o):
        return self._num() >= o


def tobool(o):
    if isinstance(o, SymBool):
        return o.e
    if isinstance(o, SymNum):
        return o.e != 0
    return z3.BoolVal(bool(o))


class SymModulus(SymReal):
    """square root of a sum of squares; compared with constants through its square"""
    __slots__ = ("sq", "_root")

    def __init__(self, sq):
        self.sq = sq
        self._root = None

    @property
    def e(self):
        if self._root is None:
            self._root = self.sq.sqrt().e
        return self._root

    def _cmp(name):
        base = getattr(SymNum, name)

        def f(self, o):
            if isinstance(o, (int, float, Fraction)) and not isinstance(o, Sym) and self._root is None:
                o = float_to_fraction(o) if isinstance(o, float) else o
                if o >= 0:
                    return getattr(self.sq, name)(o * o)
                return name in ("__gt__", "__ge__", "__ne__")
            return base(self, o)
        return f

    for _n in ("__lt__", "__le__", "__gt__", "__ge__", "__eq__", "__ne__"):
        locals()[_n] = _cmp(_n)
    __hash__ = SymReal.__hash__
    del _n, _cmp


class SymComplex(Sym):
    __slots__ = ("re", "im")

    def __init__(self, re, im=0):
        self.re = re
        self.im = im
        self.e = None

    @staticmethod
    def of(x):
        if isinstance(x, SymComplex):
            return x
        if isinstance(x, complex):
            return SymComplex(x.real, x.imag)
        if _np_scalar(x) and x.dtype.kind == "c":
            return SymComplex(float(x.real), float(x.imag))
        if lift(x) is not None:
            return SymComplex(x, 0)
        return None

    def _op(fn):
        def f(self, o):
            import numpy as np
            if isinstance(o, np.ndarray):
                return _elementwise(lambda a, b: fn(a, SymComplex.of(b)), self, o)
            o = SymComplex.of(o)
            if o is None:
                return NotImplemented
            return fn(self, o)
        return f

    def _rop(fn):
        def f(self, o):
            import numpy as np
            if isinstance(o, np.ndarray):
                return _elementwise(lambda a, b: fn(SymComplex.of(b), a), self, o)
            o = SymComplex.of(o)
            if o is None:
                return NotImplemented
            return fn(o, self)
        return f

    _a = lambda a, b: SymComplex(a.re + b.re, a.im + b.im)
    _s = lambda a, b: SymComplex(a.re - b.re, a.im - b.im)
    _m = lambda a, b: SymComplex(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re)

    def _d(a, b):
        n = b.re * b.re + b.im * b.im
        return SymComplex((a.re * b.re + a.im * b.im) / n, (a.im * b.re - a.re * b.im) / n)

    __add__ = _op(_a)
    __radd__ = _rop(_a)
    __sub__ = _op(_s)
    __rsub__ = _rop(_s)
    __mul__ = _op(_m)
    __rmul__ = _rop(_m)
    __truediv__ = _op(_d)
    __rtruediv__ = _rop(_d)

    def __neg__(self):
        return SymComplex(-self.re, -self.im)

    def __pow__(self, n):
        n = int(n)
        r = SymComplex(1, 0)
        for _ in range(n):
            r = r * self
        return r

    def conjugate(self):
        return SymComplex(self.re, -self.im)

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def __eq__(self, o):
        o = SymComplex.of(o)
        if o is None:
            return False
        return land(self.re == o.re, self.im == o.im)

    def __ne__(self, o):
        return lnot(self == o)

    def __bool__(self):
        return bool(lor(self.re != 0, self.im != 0))

    def __abs__(self):
        for x, y in ((self.im, self.re), (self.re, self.im)):
            if not isinstance(x, Sym) and x == 0 or isinstance(x, Sym) and const_value(x.e) == 0:
                return abs(y)
        n = self.re * self.re + self.im * self.im
        return SymModulus(n) if isinstance(n, SymNum) else math.sqrt(n)

    def __hash__(self):
        return hash((self.re, self.im))

    def __complex__(self):
        return complex(float(self.re), float(self.im))

    def __repr__(self):
        return f"<{self.re!r} + i {self.im!r}>"


class Opaque(Sym):
    """Term of an uninterpreted sort: only equality is meaningful."""
    __slots__ = ()

    def __eq__(self, o):
        if isinstance(o, Opaque):
            return mkbool(self.e == o.e)
        return False

    def __ne__(self, o):
        return lnot(self == o)

    def __hash__(self):
        return 7


# --------------------------------------------------------------------------
# boolean helpers usable in both modes
# --------------------------------------------------------------------------
def land(*xs):
    out = []
    for x in xs:
        if isinstance(x, Sym):
            out.append(tobool(x))
        elif not x:
            return False
    if not out:
        return True
    return mkbool(z3.And(*out))


def lor(*xs):
    out = []
    for x in xs:
        if isinstance(x, Sym):
            out.append(tobool(x))
        elif x:
            return True
    if not out:
        return False
    return mkbool(z3.Or(*out))


def lnot(x):
    if isinstance(x, Sym):
        return mkbool(z3.Not(tobool(x)))
    return not x


def implies(a, b):
    return lor(lnot(a), b)


def ite(c, a, b):
    if isinstance(c, Sym):
        la, lb = lift(a), lift(b)
        la, lb = _coerce(la, lb)
        return mknum(z3.If(tobool(c), la, lb))
    return a if c else b


def ssum(xs, start=0):
    t = start
    for x in xs:
        t = t + x
    return t


TOL = 1e-6
TRACE = os.environ.get("SYMX_TRACE")


def _trace(cond):
    import traceback as tb
    fr = [f"{x.filename.split('/')[-1]}:{x.lineno}" for x in tb.extract_stack() if "/symx/" not in x.filename][-3:]
    print("FORK", fr, str(cond)[:160].replace("\n", " "), file=sys.stderr)


def eq(a, b):
    """Deep equality, usable in both modes: returns bool or SymBool."""
    import numpy as np
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        return land(*[eq(x, y) for x, y in zip(a.ravel().tolist() if a.dtype != object else list(a.ravel()),
                                              b.ravel().tolist() if b.dtype != object else list(b.ravel()))])
    if isinstance(a, SymComplex) or isinstance(b, SymComplex):
        return SymComplex.of(a) == SymComplex.of(b) if SymComplex.of(a) is not None and SymComplex.of(b) is not None else False
    if isinstance(a, Sym) or isinstance(b, Sym):
        return (a == b) if isinstance(a, Sym) else (b == a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return land(*[eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        return land(*[eq(a[k], b[k]) for k in a])
    if isinstance(a, (int, float, complex, Fraction, np.number)) and isinstance(b, (int, float, complex, Fraction, np.number)):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        a_, b_ = complex(a), complex(b)
        return abs(a_ - b_) <= TOL * max(1.0, abs(a_), abs(b_))
    r = a == b
    return bool(r)


def _branch(cond):
    if _cur is None:
        raise Inconclusive("symbolic value used outside a path")
    return _cur.branch(cond)


# --------------------------------------------------------------------------
# path
# --------------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.paths = 0
        self.aborted = 0
        self.branches = 0
        self.queries = 0
        self.checks = 0
        self.solver_s = 0.0
        self.covers = {}
        self.labels = {}


class Path:
    symbolic = True

    def __init__(self, eng, prefix):
        self.eng = eng
        self.prefix = prefix
        self.decisions = []
        self.alternatives = []  # (prefix)
        self.solver = z3.Solver()
        self.solver.set("timeout", eng.query_timeout_ms)
        self.pc = []
        self.vars = {}  # name -> (z3const, kind)
        self.counter = {}
        self.memo = {}
        self.keep = []
        self.model = None
        self.observed = []
        self.known = {}
        self.angles = {}

    # -- solver ---------------------------------------------------------
    def add(self, c):
        if isinstance(c, Sym):
            c = tobool(c)
        self.solver.add(c)
        self.pc.append(c)
        if self.model is not None and not self._model_true(c):
            self.model = None

    def _model_true(self, c):
        try:
            return z3.is_true(self.model.eval(c, model_completion=True))
        except z3.Z3Exception:
            return False

    def query(self, *extra, want_model=True):
        st = self.eng.stats
        st.queries += 1
        t = time.time()
        r = self.solver.check(*extra)
        m = None
        if r == z3.sat:
            m = self.solver.model()
        elif r == z3.unknown:
            # second opinion: nlsat / default tactic in a fresh solver
            for mk in (lambda: z3.Tactic("qfnra-nlsat").solver(), lambda: z3.Then("simplify", "solve-eqs", "smt").solver()):
                try:
                    s = mk()
                    s.set("timeout", self.eng.query_timeout_ms)
                    s.add(*self.pc)
                    s.add(*extra)
                    r = s.check()
                    if r == z3.sat:
                        m = s.model()
                    if r != z3.unknown:
                        break
                except z3.Z3Exception:
                    r = z3.unknown
        st.solver_s += time.time() - t
        return r, m

    def feasible(self, c):
        if self.model is not None and self._model_true(c):
            return True
        r, m = self.query(c)
        if r == z3.sat:
            self.model = m
            return True
        if r == z3.unknown:
            raise Inconclusive("solver unknown on a branch condition")
        return False

    def implied(self, c):
        r, _ = self.query(z3.Not(c))
        return r == z3.unsat

    # -- decisions ------------------------------------------------------
    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = cond.get_id()
        if k in self.known:
            return self.known[k]
        self.keep.append(cond)
        i = len(self.decisions)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.decisions.append(v)
            self.add(cond if v else z3.Not(cond))
            self.known[k] = v
            return v
        self.eng.check_budget()
        ncond = z3.Not(cond)
        m0 = self.model
        t = self.feasible(cond)
        mt = self.model if t else None
        self.model = m0 if m0 is not None and self._model_true(ncond) else None
        f = self.feasible(ncond)
        if t and f:
            v = True
            self.alternatives.append(self.decisions + [False])
            self.eng.stats.branches += 1
            if TRACE:
                _trace(cond)
        elif t:
            v = True
        elif f:
            v = False
        else:
            raise PathAbort()
        self.decisions.append(v)
        if v:
            self.model = mt
        self.solver.add(cond if v else ncond)
        self.pc.append(cond if v else ncond)
        self.known[k] = v
        return v

    def concretize(self, e, limit=None):
        e = z3.simplify(e)
        c = const_value(e)
        if c is not None:
            return int(c)
        k = ("c", e.get_id())
        if k in self.known:
            return self.known[k]
        self.keep.append(e)
        i = len(self.decisions)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.decisions.append(v)
            self.add(e == v)
            self.known[k] = v
            return v
        limit = limit or self.eng.concretize_limit
        vals = []
        excl = []
        while True:
            self.eng.check_budget()
            if not vals and self.model is not None:
                m = self.model
                r = z3.sat
            else:
                r, m = self.query(*excl)
            if r == z3.unsat:
                break
            if r == z3.unknown:
                raise Inconclusive("solver unknown while enumerating an index")
            v = m.eval(e, model_completion=True).as_long()
            vals.append(v)
            excl.append(e != v)
            if len(vals) > limit:
                raise BoundExceeded(f"more than {limit} values for {e}")
        if not vals:
            raise PathAbort()
        vals.sort()
        for v in vals[1:]:
            self.alternatives.append(self.decisions + [v])
            self.eng.stats.branches += 1
        v = vals[0]
        self.decisions.append(v)
        self.add(e == v)
        self.known[k] = v
        return v

    def concretize_real(self, e):
        """Only sound when e has a unique value on this path (checked)."""
        r, m = self.query()
        if r != z3.sat:
            raise Inconclusive("solver unknown")
        v = m.eval(e, model_completion=True)
        c = const_value(z3.simplify(v))
        if c is None:
            raise Inconclusive("irrational")
        r2, _ = self.query(e != v)
        if r2 != z3.unsat:
            raise Inconclusive(f"float()/hash of an unbounded symbolic real {e}")
        return c

    # -- inputs -----------------------------------------------------------
    def _name(self, name):
        n = self.counter.get(name, 0)
        self.counter[name] = n + 1
        return name if n == 0 else f"{name}#{n}"

    def int(self, name, lo=None, hi=None):
        name = self._name(name)
        if lo is not None and lo == hi:
            self.vars[name] = (z3.IntVal(lo), "int")
            return lo
        v = z3.Int(name)
        self.vars[name] = (v, "int")
        if lo is not None:
            self.add(v >= lo)
        if hi is not None:
            self.add(v <= hi)
        return SymInt(v)

    def bit(self, name):
        return self.int(name, 0, 1)

    def real(self, name, lo=None, hi=None):
        name = self._name(name)
        v = z3.Real(name)
        self.vars[name] = (v, "real")
        if lo is not None:
            self.add(v >= lift(lo))
        if hi is not None:
            self.add(v <= lift(hi))
        return SymReal(v)

    def bool(self, name):
        name = self._name(name)
        v = z3.Bool(name)
        self.vars[name] = (v, "bool")
        return SymBool(v)

    def choice(self, name, options):
        options = list(options)
        i = self.int(name, 0, len(options) - 1)
        if isinstance(i, int):
            return options[i]
        return options[self.concretize(i.e, limit=max(len(options), self.eng.concretize_limit))]

    def angle(self, name):
        """An arbitrary angle (half-turns).  Returned as a sympy Symbol; its
        meaning is the unit complex number e^{i pi a/2} = c + i s."""
        import sympy
        name = self._name(name)
        c, s = z3.Real(f"cos!{name}"), z3.Real(f"sin!{name}")
        self.add(c * c + s * s == 1)
        self.vars[name] = ((c, s), "angle")
        self.angles[name] = (c, s)
        return sympy.Symbol(name)

    def token(self, name):
        """An arbitrary value of an uninterpreted sort."""
        name = self._name(name)
        return Opaque(z3.Const("tok!" + name, USORT))

    def app(self, fname, *args):
        """Application of an uninterpreted function to opaque values."""
        zs = [a.e for a in args]
        f = z3.Function(f"{fname}/{len(zs)}", *([USORT] * len(zs)), USORT) if zs else None
        return Opaque(f(*zs) if zs else z3.Const(f"{fname}/0", USORT))

    def ufun_real(self, fname, *args):
        zs = [as_real(lift(a)) for a in args]
        f = z3.Function(fname, *([z3.RealSort()] * (len(zs) + 1)))
        return SymReal(f(*zs))

    def assume(self, c):
        if isinstance(c, Sym):
            c = tobool(c)
            c = z3.simplify(c)
            if z3.is_true(c):
                return
            self.add(c)
            if self.model is None:
                r, m = self.query()
                if r == z3.unsat:
                    raise PathAbort()
                if r == z3.unknown:
                    raise Inconclusive("solver unknown on an assumption")
                self.model = m
        elif not c:
            raise PathAbort()

    # -- property -----------------------------------------------------------
    def check(self, c, label, detail=None):
        st = self.eng.stats
        st.checks += 1
        st.labels[label] = st.labels.get(label, 0) + 1
        import numpy as np
        if isinstance(c, np.bool_):
            c = bool(c)
        if not isinstance(c, Sym):
            if c:
                return
            r, m = self.query()
            if r == z3.unsat:
                raise PathAbort()
            if r == z3.unknown:
                raise Inconclusive(f"solver unknown on {label}")
            self._violation(label, m, detail)
        c = tobool(c)
        r, m = self.query(z3.Not(c))
        if r == z3.unsat:
            self.add(c)
            return
        if r == z3.unknown:
            raise Inconclusive(f"solver unknown on property {label}")
        self._violation(label, self.nicer(z3.Not(c), m), detail)

    def nicer(self, neg, m):
        """Prefer a counterexample that survives the move to floats."""
        def margins(e, pos):
            # collect |a-b|>=delta strengthenings for real disequalities
            if z3.is_not(e):
                return margins(e.arg(0), not pos)
            if z3.is_and(e) and not pos or z3.is_or(e) and pos:
                return z3.Or([margins(x, pos) for x in e.children()])
            if z3.is_and(e) or z3.is_or(e):
                return z3.And([margins(x, pos) for x in e.children()])
            if z3.is_eq(e) and not pos and z3.is_real(e.arg(0)):
                d = e.arg(0) - e.arg(1)
                return z3.Or(d >= D, d <= -D)
            if z3.is_distinct(e) and pos and e.num_args() == 2 and z3.is_real(e.arg(0)):
                d = e.arg(0) - e.arg(1)
                return z3.Or(d >= D, d <= -D)
            if z3.is_le(e) and not pos and z3.is_real(e.arg(0)):
                return e.arg(0) - e.arg(1) >= D
            if z3.is_ge(e) and not pos and z3.is_real(e.arg(0)):
                return e.arg(1) - e.arg(0) >= D
            return e if pos else z3.Not(e)
        for d in ("1/10", "1/1000"):
            D = z3.RealVal(d)
            try:
                r, m2 = self.query(margins(neg, True))
            except z3.Z3Exception:
                return m
            if r == z3.sat:
                return m2
        return m

    def _violation(self, label, m, detail):
        self.eng.violations.append({"harness": self.eng.name, "label": label, "detail": str(detail) if detail else None,
                                    "assignment": self.extract(m)})
        raise ViolationFound(label)

    def cover(self, label):
        self.eng.stats.covers[label] = self.eng.stats.covers.get(label, 0) + 1

    def observe(self, name, value):
        self.observed.append((name, value))

    def extract(self, m):
        out = {}
        for n, (v, kind) in self.vars.items():
            if kind == "angle":
                c, si = (float(Fraction(model_value(m.eval(t, model_completion=True), "real"))) for t in v)
                out[n] = repr(2 * math.atan2(si, c) / math.pi)
                continue
            x = m.eval(v, model_completion=True)
            out[n] = model_value(x, kind)
        return out


def model_value(x, kind):
    if kind == "bool":
        return z3.is_true(x)
    if z3.is_algebraic_value(x):
        x = x.approx(20)
    c = const_value(x)
    if c is None:
        return str(x)
    if kind == "int":
        return int(c)
    return f"{c.numerator}/{c.denominator}" if isinstance(c, Fraction) else f"{c}/1"


USORT = z3.DeclareSort("U")


# --------------------------------------------------------------------------
# concrete context: same harness API over plain values
# --------------------------------------------------------------------------
class ConcretePath:
    symbolic = False

    def __init__(self, assignment, rng=None):
        self.assignment = assignment
        self.counter = {}
        self.failed = []
        self.observed = []
        self.covers = {}
        self.rng = rng
        self.used = {}

    def _name(self, name):
        n = self.counter.get(name, 0)
        self.counter[name] = n + 1
        return name if n == 0 else f"{name}#{n}"

    def int(self, name, lo=None, hi=None):
        n = self._name(name)
        if lo is not None and lo == hi:
            return lo
        if n in self.assignment:
            v = int(self.assignment[n])
        elif self.rng is not None:
            v = self.rng.randint(lo if lo is not None else -3, hi if hi is not None else (lo or 0) + 7)
        else:
            v = lo if lo is not None else 0
        self.used[n] = v
        return v

    def bit(self, name):
        return self.int(name, 0, 1)

    def real(self, name, lo=None, hi=None):
        n = self._name(name)
        if n in self.assignment:
            s = self.assignment[n]
            v = float(Fraction(s)) if isinstance(s, str) else float(s)
        elif self.rng is not None:
            a = float(lo) if lo is not None else -2.0
            b = float(hi) if hi is not None else a + 4.0
            v = self.rng.uniform(a, b)
        else:
            v = float(lo) if lo is not None else 0.0
        self.used[n] = v
        return v

    def angle(self, name):
        return self.real(name, -2, 2)

    def bool(self, name):
        n = self._name(name)
        if n in self.assignment:
            v = bool(self.assignment[n])
        else:
            v = bool(self.rng.getrandbits(1)) if self.rng is not None else False
        self.used[n] = v
        return v

    def choice(self, name, options):
        options = list(options)
        return options[self.int(name, 0, len(options) - 1)]

    def token(self, name):
        return ("tok", self._name(name))

    def app(self, fname, *args):
        return (fname, len(args)) + tuple(args)

    def assume(self, c):
        if not c:
            raise PathAbort()

    def check(self, c, label, detail=None):
        if not c:
            self.failed.append((label, str(detail) if detail else None))
            raise ViolationFound(label)

    def cover(self, label):
        self.covers[label] = self.covers.get(label, 0) + 1

    def observe(self, name, value):
        self.observed.append((name, value))


# --------------------------------------------------------------------------
# engine
# --------------------------------------------------------------------------
class Engine:
    def __init__(self, name, fn, query_timeout_ms=20000, max_paths=20000, time_budget=240.0, concretize_limit=64,
                 stop_after=1, seed=0):
        self.name = name
        self.fn = fn
        self.query_timeout_ms = query_timeout_ms
        self.max_paths = max_paths
        self.time_budget = time_budget
        self.concretize_limit = concretize_limit
        self.stats = Stats()
        self.violations = []
        self.inconclusive = []
        self.stop_after = stop_after
        self.models = []  # (assignment, observed) samples for validation
        self.rng = _pyrandom.Random(seed)
        self.t0 = None
        self.complete = False

    def check_budget(self):
        if time.time() - self.t0 > self.time_budget:
            raise BoundExceeded("time budget of the harness exhausted")

    def explore(self, keep_models=6):
        global _cur
        self.t0 = time.time()
        stack = [[]]
        while stack:
            prefix = stack.pop()
            if self.stats.paths >= self.max_paths:
                self.inconclusive.append("path limit reached")
                return
            p = Path(self, prefix)
            _cur = p
            ok = False
            try:
                self.check_budget()
                self.fn(p)
                ok = True
            except PathAbort:
                self.stats.aborted += 1
            except ViolationFound:
                pass
            except BoundExceeded as ex:
                self.inconclusive.append(f"{ex}")
                return
            except Inconclusive as ex:
                import traceback
                self.inconclusive.append(f"{ex} :: " + "".join(traceback.format_tb(ex.__traceback__)[-4:]))
                if len(self.inconclusive) > 5:
                    return
            except RecursionError as ex:
                self.inconclusive.append(f"recursion: {ex}")
            except Exception as ex:
                # the code under test raised on a feasible path
                import traceback
                tb = "".join(traceback.format_exception(ex)[-6:])
                r, m = p.query()
                if r == z3.sat:
                    self.violations.append({"harness": self.name, "label": f"raised {type(ex).__name__}: {ex}"[:300],
                                            "detail": tb, "assignment": p.extract(m)})
                elif r == z3.unknown:
                    self.inconclusive.append("exception on a path of unknown feasibility: " + tb)
            finally:
                _cur = None
            self.stats.paths += 1
            stack.extend(p.alternatives)
            if ok and (len(self.models) < keep_models or self.rng.random() < keep_models / self.stats.paths):
                r, m = (z3.sat, p.model) if p.model is not None else p.query()
                if r == z3.sat:
                    obs = []
                    for n, v in p.observed:
                        obs.append((n, eval_in_model(v, m)))
                    rec = (p.extract(m), obs)
                    if len(self.models) < keep_models:
                        self.models.append(rec)
                    else:
                        self.models[self.rng.randrange(keep_models)] = rec
            if len(self.violations) >= self.stop_after:
                return
        self.complete = not self.inconclusive


def eval_in_model(v, m):
    import numpy as np
    if isinstance(v, SymComplex):
        return complex(eval_in_model(v.re, m), eval_in_model(v.im, m))
    if isinstance(v, SymBool):
        return z3.is_true(m.eval(v.e, model_completion=True))
    if isinstance(v, SymNum):
        x = m.eval(v.e, model_completion=True)
        if z3.is_algebraic_value(x):
            x = x.approx(20)
        c = const_value(z3.simplify(x))
        if c is None:
            return None
        return int(c) if isinstance(v, SymInt) else float(c)
    if isinstance(v, Opaque):
        return None
    if isinstance(v, np.ndarray):
        return [eval_in_model(x, m) for x in v.tolist()]
    if isinstance(v, (list, tuple)):
        return [eval_in_model(x, m) for x in v]
    if isinstance(v, dict):
        return {k: eval_in_model(x, m) for k, x in v.items()}
    return v
