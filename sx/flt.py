"""IEEE-754 double arithmetic over symbolic integers.

A symbolic double is  A + P  where A is an exactly represented dyadic rational (linear form / 2^k) and
P (optional) is a rational linear form whose computed value carries an absolute error bound `err`;
`anchored` records that P == 0 implies the computed double equals A exactly.  When the value is a function of
one bounded integer, `fn` evaluates the very same double operations with numpy over the whole range, so that
int()/ceil()/round()/comparisons are exact, not approximated.
"""
import math
from fractions import Fraction
import numpy as np
import z3
from .core import *
from . import core

MAXR = 8_000_000
_fitcache = {}


def lo_of(x):
    return x.lo if isinstance(x, SymInt) else x


def hi_of(x):
    return x.hi if isinstance(x, SymInt) else x


def ulp_half(mag):
    if mag == 0:
        return Fraction(0)
    e = math.frexp(float(mag))[1]  # mag < 2^e
    return Fraction(2) ** (e - 53 - 1)


def ratconst(c):
    """(rational used in the model, |c - rational|)"""
    f = Fraction(c)
    if f.denominator <= 1 << 24:
        return f, Fraction(0)
    for lim in (10 ** 3, 10 ** 4, 10 ** 5, 10 ** 6, 10 ** 7):
        r = f.limit_denominator(lim)
        if r != 0 and abs(r - f) <= abs(f) * Fraction(1, 2 ** 52):
            return r, abs(r - f)
    return f, Fraction(0)


def is_dyadic(f):
    d = f.denominator
    return (d & (d - 1)) == 0 and d <= 1 << 40


def reduce_(num, den):
    if isinstance(num, int):
        f = Fraction(num, den)
        return f.numerator, f.denominator
    g = den
    g = math.gcd(g, num.const)
    for c in num.terms.values():
        g = math.gcd(g, c)
    if g > 1:
        n = SymInt({i: c // g for i, c in num.terms.items()}, num.const // g, -((-num.lo) // g), num.hi // g)
        return n, den // g
    return num, den


def radd(n1, d1, n2, d2):
    l = d1 * d2 // math.gcd(d1, d2)
    return reduce_(n1 * (l // d1) + n2 * (l // d2), l)


class SymFloat(SymFloatBase):
    __slots__ = ("an", "ad", "pn", "pd", "err", "anch", "grid", "base", "fn", "fkey", "cr")

    def __init__(self, an, ad, pn=0, pd=1, err=Fraction(0), anch=True, grid=None, base=None, fn=None, fkey=None):
        self.an, self.ad = reduce_(an, ad)
        self.pn, self.pd = reduce_(pn, pd)
        self.err = err
        self.anch = anch
        self.grid = grid
        self.base = base
        self.fn = fn
        self.fkey = fkey
        self.cr = False  # the value is the correctly rounded exact total, which is a multiple of 1/td

    # -- helpers
    @staticmethod
    def of_int(x):
        if isinstance(x, SymBool):
            x = x.as_int()
        if isinstance(x, int):
            return SymFloat(x, 1)
        if max(abs(x.lo), abs(x.hi)) > 2 ** 53:
            return float(ENGINE().concretize(x))
        if x.lo <= 0 < x.hi and ENGINE().nested is None:
            lo, hi = ENGINE().bounds(x)
            x = SymInt.make(x.terms, x.const, lo, hi)
            if isinstance(x, int):
                return SymFloat(x, 1)
        t = x.tab()
        if t:
            # every double over one small input is a function of that input itself
            arr, vlo = t[1], core.VARLO[t[0]]
            return SymFloat(x, 1, base=SymInt.of_atom(core.ATOMS[t[0]]), fn=lambda a: arr[a - vlo].astype(np.float64), fkey=("t", arr.tobytes()))
        return SymFloat(x, 1, base=x, fn=lambda a: a.astype(np.float64), fkey=("v",))

    def exact(self):
        return self.err == 0 and isinstance(self.pn, int) and self.pn == 0

    def range(self):
        lo = Fraction(lo_of(self.an), self.ad) + Fraction(lo_of(self.pn), self.pd)
        hi = Fraction(hi_of(self.an), self.ad) + Fraction(hi_of(self.pn), self.pd)
        return lo - self.err, hi + self.err

    def mag(self):
        lo, hi = self.range()
        return max(abs(lo), abs(hi))

    def total(self):
        return radd(self.an, self.ad, self.pn, self.pd)

    def key(self):
        k = lambda x: x.key() if isinstance(x, SymInt) else x
        return ("F", k(self.an), self.ad, k(self.pn), self.pd, self.err, self.anch, self.fkey)

    def _fn2(self, f, tag):
        if self.fn is None:
            return None, None, None
        g = self.fn
        return self.base, (lambda a: f(g(a))), self.fkey + (tag,)

    def concretize(self):
        eng = ENGINE()
        if self.base is not None:
            v = eng.concretize(self.base)
            return float(self.fn(np.array([v]))[0])
        if self.exact():
            v = eng.concretize(self.an) if isinstance(self.an, SymInt) else self.an
            return float(Fraction(v, self.ad))
        # concretise everything underneath; the value is then only known up to err
        raise core.Inconclusive("symbolic float cannot be concretised")

    def _finish(self, an, ad, pn, pd, err, anch, base, fn, fkey, minmag=None):
        r = SymFloat(an, ad, pn, pd, err, anch, None, base, fn, fkey)
        if r.exact():
            m = r.mag()
            if m * r.ad <= 2 ** 53:
                return r
            if isinstance(r.an, SymInt):
                t = r.an.tight()
                if isinstance(t, SymInt) and max(abs(t.lo), abs(t.hi)) > 2 ** 53:
                    if ENGINE().nested is not None:
                        raise core.SummaryAbort()
                    lo, hi = ENGINE().bounds(r.an)
                    t = SymInt.make(r.an.terms, r.an.const, lo, hi)
                r.an = t
                m = r.mag()
                if m * r.ad <= 2 ** 53:
                    return r
                if lo_of(r.an) >= 0 and hi_of(r.an) <= 2 ** 54:
                    # one bit too wide in the upper part of the range: round to even there
                    half = SymFloat(r.an, 2)._exact_int("round")
                    r.an = ite(r.an <= 2 ** 53, r.an, half * 2)
                    return r
            # exact sum does not fit: one rounding
            r.err += ulp_half(m)
            r.anch = False
            return r
        r.err += ulp_half(r.mag())
        lo, hi = r.range()
        if lo > 0 or hi < 0:
            mm = min(abs(lo), abs(hi))
            r.grid = 53 - math.frexp(float(mm))[1]
        return r

    # -- arithmetic
    def _add(self, o, k):
        if isinstance(o, SymBool):
            o = o.as_int()
        if isinstance(o, (int, SymInt)):
            o2 = SymFloat.of_int(o) if not isinstance(o, int) else o
            if isinstance(o, int):
                base, fn, fk = self._fn2((lambda a: a + o) if k > 0 else (lambda a: a - o), ("+", k * o))
                return self._keepgrid(self._finish(*radd(self.an, self.ad, k * o, 1), self.pn, self.pd, self.err, self.anch, base, fn, fk))
            return self._addf(o2, k)
        if isinstance(o, float):
            f, e = ratconst(o)
            base, fn, fk = self._fn2((lambda a: a + o) if k > 0 else (lambda a: a - o), ("+", k * o))
            if e == 0 and is_dyadic(f):
                an, ad = radd(self.an, self.ad, k * f.numerator, f.denominator)
                return self._keepgrid(self._finish(an, ad, self.pn, self.pd, self.err, self.anch, base, fn, fk))
            pn, pd = radd(self.pn, self.pd, k * f.numerator, f.denominator)
            return self._finish(self.an, self.ad, pn, pd, self.err + e, False, base, fn, fk)
        if isinstance(o, SymFloat):
            return self._addf(o, k)
        return NotImplemented

    def _keepgrid(self, r):
        if r.grid is None and self.grid is not None and not r.exact():
            # adding a dyadic constant on the grid, no magnitude growth
            if r.mag() * 2 ** self.grid <= 2 ** 53:
                r.grid = max(self.grid, r.ad.bit_length() - 1)
                r.err -= ulp_half(r.mag())  # exact operation
        return r

    def _addf(self, o, k):
        an, ad = radd(self.an, self.ad, o.an * k, o.ad)
        pn, pd = radd(self.pn, self.pd, o.pn * k, o.pd)
        base = fn = fk = None
        if self.fn is not None and o.fn is not None and self.base.key() == o.base.key():
            g, h = self.fn, o.fn
            base, fn, fk = self.base, ((lambda a: g(a) + h(a)) if k > 0 else (lambda a: g(a) - h(a))), (self.fkey, k, o.fkey)
        pz = isinstance(o.pn, int) and o.pn == 0
        anch = self.anch and o.anch and (pz or (isinstance(self.pn, int) and self.pn == 0) or (k > 0 and lo_of(self.pn) >= 0 and lo_of(o.pn) >= 0))
        r = self._finish(an, ad, pn, pd, self.err + o.err, anch, base, fn, fk)
        if o.exact() and o.ad == 1:
            return self._keepgrid(r)
        return r

    def __add__(self, o):
        return self._add(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return self._add(o, -1)

    def __rsub__(self, o):
        return (self * -1) + o

    def __neg__(self):
        return self * -1

    def __pos__(self):
        return self

    def __abs__(self):
        lo, hi = self.range()
        if lo >= 0:
            return self
        if hi <= 0:
            return -self
        return self if bool(self >= 0) else -self

    def _scale(self, f, e, base, fn, fk):
        """multiply by rational f (+- e), one rounding"""
        if f == 0:
            return 0.0
        if f == -1 or f == 1:
            s = int(f)
            return SymFloat(self.an * s, self.ad, self.pn * s, self.pd, self.err, self.anch, self.grid, base, fn, fk)
        if e == 0 and is_dyadic(f):
            an, ad = reduce_(self.an * f.numerator, self.ad * f.denominator)
            pn, pd = reduce_(self.pn * f.numerator, self.pd * f.denominator)
            r = SymFloat(an, ad, pn, pd, self.err * abs(f), self.anch, None, base, fn, fk)
            if r.exact():
                if r.mag() * r.ad <= 2 ** 53:
                    return r
            elif self.grid is not None and f.denominator == 1 and r.mag() * 2 ** self.grid <= 2 ** 53:
                r.grid = self.grid
                return r
            return self._finish(an, ad, pn, pd, self.err * abs(f), self.anch, base, fn, fk)
        tn, td = self.total()
        nonneg = lo_of(self.an) >= 0 and lo_of(self.pn) >= 0
        r = self._finish(0, 1, tn * f.numerator, td * f.denominator, self.err * abs(f) + e * self.mag(), self.anch and nonneg, base, fn, fk)
        if e == 0 and self.exact() and not r.exact():
            r.cr = True  # one correctly rounded operation on exact operands
        return r

    def __mul__(self, o):
        if isinstance(o, (SymInt, SymBool, SymFloat)):
            o = ENGINE().concretize(o)
        if isinstance(o, (int, float)):
            f, e = ratconst(o)
            base, fn, fk = self._fn2(lambda a: a * o, ("*", o))
            return self._scale(f, e, base, fn, fk)
        return NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (SymInt, SymBool, SymFloat)):
            o = ENGINE().concretize(o)
        if isinstance(o, (int, float)):
            if o == 0:
                raise ZeroDivisionError("float division by zero")
            c, _ = ratconst(o)
            f = 1 / c
            e = abs(1 / Fraction(o) - f)
            base, fn, fk = self._fn2(lambda a: a / o, ("/", o))
            return self._scale(f, e, base, fn, fk)
        return NotImplemented

    def __rtruediv__(self, o):
        return o / self.concretize()

    def __floordiv__(self, o):
        if isinstance(o, (int, float)) and o == int(o) and o > 0:
            q = (self / o)
            if isinstance(q, SymFloat) and self.exact():
                return SymFloat.of_int_or(self.an // (self.ad * int(o)))
        return self.concretize() // conc(o)

    @staticmethod
    def of_int_or(x):
        return SymFloat.of_int(x) if isinstance(x, SymInt) else float(x)

    def __mod__(self, o):
        o = conc(o)
        if self.exact() and o == int(o) and o > 0:
            r = self.an % (self.ad * int(o))
            return SymFloat(r, self.ad) if isinstance(r, SymInt) else r / self.ad
        return self.concretize() % o

    def __divmod__(self, o):
        return (self // o, self % o)

    # -- conversion to integers
    def _numeric(self, conv, cand, tag):
        """exact integer-valued function of the base; None when not univariate"""
        if self.fn is None:
            return None
        b = self.base
        t = b.tab()
        if t:
            k = (b.key(), self.fkey, tag)
            if k not in _fitcache:
                _fitcache[k] = core.from_tab(t[0], conv(self.fn(t[1])).astype(np.int64))
            if _fitcache[k] is not None:
                return _fitcache[k]
        for attempt in (0, 1):
            lo, hi = b.lo, b.hi
            if attempt == 1:
                lo, hi = ENGINE().bounds(b)
            if hi - lo > MAXR:
                continue
            k = (b.key(), lo, hi, self.fkey, tag)
            if k in _fitcache:
                r = _fitcache[k]
            else:
                r = self._fit(b, lo, hi, conv, cand)
                _fitcache[k] = r
            if r is not None:
                return r
        return None

    def _fit(self, b, lo, hi, conv, cand):
        xs = np.arange(lo, hi + 1, dtype=np.int64)
        ys = conv(self.fn(xs)).astype(np.int64)
        if lo == hi:
            return int(ys[0])
        # candidate: floor((p*x+q)/r)
        if cand is not None:
            p, q, r = cand
            if max(abs(p) * max(abs(lo), abs(hi)) + abs(q), r) < 2 ** 62:
                cs = (xs * p + q) // r
                if np.array_equal(cs, ys):
                    return SymInt.make(*_lin(b, p, q))._divmod_const(r)
                diff = ys - cs
                rr = self._steps(b, xs, diff, 40)
                if rr is not None:
                    return SymInt.make(*_lin(b, p, q))._divmod_const(r) + rr
        return self._steps(b, xs, ys, 400)

    @staticmethod
    def _steps(b, xs, ys, limit):
        ch = np.nonzero(np.diff(ys))[0]
        if len(ch) > limit:
            return None
        r = int(ys[0])
        for i in ch:
            c = b >= int(xs[i + 1])
            d = int(ys[i + 1] - ys[i])
            if c is True:
                r = r + d
            elif c is False:
                pass
            else:
                r = r + c.as_int() * d
        return r

    def _cand(self):
        """candidate (p,q,r) when the total is affine in the base"""
        if self.base is None:
            return None
        tn, td = self.total()
        if isinstance(tn, int):
            return None
        bt = self.base
        # tn = p*base + q ?
        i = next(iter(bt.terms))
        if i not in tn.terms:
            return None
        p = Fraction(tn.terms[i], bt.terms[i])
        rest = tn * p.denominator - bt * p.numerator
        if isinstance(rest, SymInt):
            return None
        return p.numerator, rest, td * p.denominator

    def _integer(self, mode):
        """mode: floor / ceil / trunc / round"""
        lo, hi = self.range()
        if self.exact():
            return self._exact_int(mode)
        if self.cr:
            # rounding is monotone and keeps representable numbers, and any other multiple of 1/td is further
            # than the error from the next integer (or half integer): the exact quotient decides
            tn, td = self.total()
            if self.err * 2 * td < 1 and self.mag() < 2 ** 50:
                return SymFloat(tn, td)._exact_int(mode)
        if mode == "trunc":
            if lo >= 0:
                mode = "floor"
            elif hi <= 0:
                mode = "ceil"
        # A integer and P strictly inside [0,1): no ambiguity
        if mode == "floor" and self.ad == 1 and self.anch and lo_of(self.pn) >= 0:
            if Fraction(hi_of(self.pn), self.pd) + self.err < 1 and Fraction(1, self.pd) > self.err:
                return self.an
        if self.fn is not None:
            c = self._cand()
            conv = {"floor": np.floor, "ceil": np.ceil, "trunc": np.trunc, "round": np.rint}[mode]
            if c is not None:
                p, q, r = c
                if mode == "ceil":
                    q = q + r - 1
                elif mode == "round":
                    p, q, r = 2 * p, 2 * q + r, 2 * r
                c = (p, q, r)
            r = self._numeric(conv, c, mode)
            if r is not None:
                return r
        m = self.materialize()
        return m._exact_int(mode)

    def _exact_int(self, mode):
        n, d = self.an, self.ad
        if isinstance(n, int):
            f = Fraction(n, d)
            return {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "round": round}[mode](f)
        if d == 1:
            return n
        if mode == "floor":
            return n // d
        if mode == "ceil":
            return -((-n) // d)
        if mode == "trunc":
            if n.lo >= 0:
                return n // d
            if n.hi <= 0:
                return -((-n) // d)
            return ite(n >= 0, n // d, -((-n) // d))
        t = n * 2 + d
        q = t // (2 * d)
        tie = (t % (2 * d)) == 0
        if tie is False:
            return q
        return ite(sand(tie, (q % 2) == 1), q - 1, q)

    def materialize(self):
        """replace the value by a fresh double on its grid, constrained by the error bound"""
        eng = ENGINE()
        if eng.nested is not None:
            raise core.SummaryAbort()
        if self.grid is None or self.grid > 60:
            if self.base is not None:
                return SymFloat(*_fl(self.concretize()))
            raise core.Inconclusive("float expression outside the encodable fragment")
        lo, hi = self.range()
        g = 2 ** self.grid
        N = eng.fresh_int(math.floor(lo * g), math.ceil(hi * g), "flt")
        tn, td = self.total()
        # |N/g - tn/td| <= err   <=>  |N*td - tn*g| <= err*g*td
        bound = math.floor(self.err * g * td)
        diff = N * td - tn * g
        eng.assert_(z3.And(zb(diff <= bound), zb(diff >= -bound)))
        if self.anch and not isinstance(self.pn, int):
            eng.assert_(z3.Implies(zb(self.pn == 0), zb(N * self.ad == self.an * g)))
        r = SymFloat(N, g)
        return r

    def __int__(self):
        return int(conc(self._integer("trunc")))

    def to_int(self):
        return self._integer("trunc")

    def __trunc__(self):
        return self._integer("trunc")

    def __floor__(self):
        return self._integer("floor")

    def __ceil__(self):
        return self._integer("ceil")

    def __round__(self, n=None):
        if n is None:
            return self._integer("round")
        return round(self.concretize(), n)

    def is_integer(self):
        return self == self._integer("floor")

    def __float__(self):
        return self.concretize()

    def __hash__(self):
        return hash(self.concretize())

    def __bool__(self):
        return bool(self != 0)

    def __str__(self):
        return str(self.concretize())

    def __format__(self, spec):
        return format(self.concretize(), spec)

    def __repr__(self):
        return "<SymFloat %r/%r + %r/%r +-%g anch=%s grid=%s>" % (self.an, self.ad, self.pn, self.pd, float(self.err), self.anch, self.grid)

    # -- comparisons
    def _cmp(self, o, op):
        if isinstance(o, SymBool):
            o = o.as_int()
        if isinstance(o, float):
            if o != o or o in (math.inf, -math.inf):
                return op_py(0.0, o, op)
            f = Fraction(o)
        elif isinstance(o, int):
            f = Fraction(o)
        elif isinstance(o, (SymInt, SymFloat)):
            d = self._add(o, -1)
            if self.exact() and (isinstance(o, SymInt) or o.exact()):
                n1 = o if isinstance(o, SymInt) else o.an
                d1 = 1 if isinstance(o, SymInt) else o.ad
                l = self.ad * d1
                return getattr_op(self.an * (l // self.ad) - n1 * (l // d1), 0, op)
            lo, hi = d.range() if isinstance(d, SymFloat) else (d, d)
            if lo > 0 or hi < 0:
                return op_py(1 if lo > 0 else -1, 0, op)
            a = self if self.exact() else self.materialize()
            b = o if isinstance(o, SymInt) or o.exact() else o.materialize()
            return a._cmp(b, op)
        else:
            return NotImplemented if op not in ("==", "!=") else op == "!="
        lo, hi = self.range()
        if lo > f:
            return op_py(1, 0, op)
        if hi < f:
            return op_py(-1, 0, op)
        if self.exact():
            return getattr_op(self.an * f.denominator - f.numerator * self.ad, 0, op)
        if self.cr:
            tn, td = self.total()
            if Fraction(float(f)) == f and self.err * td * f.denominator < 1:
                return getattr_op(tn * f.denominator, f.numerator * td, op)
        if self.fn is not None:
            of = float(o)
            conv = {"<": lambda a: a < of, "<=": lambda a: a <= of, ">": lambda a: a > of, ">=": lambda a: a >= of,
                    "==": lambda a: a == of, "!=": lambda a: a != of}[op]
            r = self._numeric(conv, None, (op, of))
            if r is not None:
                return r == 1
        return self.materialize()._cmp(o, op)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")


def getattr_op(a, b, op):
    if isinstance(a, SymInt):
        return a._cmp(b, op)
    return op_py(a, b, op)


def _lin(b, p, q):
    r = b * p + q
    return r.terms, r.const, r.lo, r.hi


def _fl(v):
    f = Fraction(v)
    return f.numerator, f.denominator
