"""Symbolic values and path exploration.

The library's own source is re-executed by CPython with symbolic operands (see instr.py);
every undecided branch is put to the SMT solver (z3) and both feasible sides are explored.
Integers are mathematical (Python's), kept as linear forms over solver atoms with intervals.
"""
import time
import math
import numpy as np
import z3
from fractions import Fraction
from math import gcd

INF = 10 ** 30


class SxInternal(BaseException):
    """engine control flow; never caught by code under test (which catches Exception at most)"""


class PathAbort(SxInternal):
    pass


class Infeasible(PathAbort):
    pass


class SummaryAbort(SxInternal):
    pass


class Inconclusive(SxInternal):
    pass


# ---------------------------------------------------------------- atoms / linear forms
class Atom:
    __slots__ = ("z", "lo", "hi", "id", "tab")

    def __init__(self, z, lo, hi, i):
        self.tab = None
        self.z = z
        self.lo = lo
        self.hi = hi
        self.id = i


ATOMS = []
_ATOMKEY = {}
DIVINFO = {}   # quotient atom id -> (terms, const, divisor) of its dividend


def atom(z, lo=-INF, hi=INF):
    """intervals may be path specific, so they are part of an atom's identity"""
    k = (z.get_id(), lo, hi)
    a = _ATOMKEY.get(k)
    if a is None:
        a = Atom(z, lo, hi, len(ATOMS))
        ATOMS.append(a)  # keeps z alive, so z3 ids stay unique
        _ATOMKEY[k] = a
    return a


def reset_atoms():
    del ATOMS[:]
    _ATOMKEY.clear()
    DIVINFO.clear()
    del HINTS[:]
    _TABS.clear()
    _MASKS.clear()
    VARLO.clear()
    SymInt._divcache.clear()
    from . import flt
    flt._fitcache.clear()


def _iv_mul(c, lo, hi):
    return (c * lo, c * hi) if c >= 0 else (c * hi, c * lo)


def is_sym(x):
    return isinstance(x, (SymInt, SymBool, SymStrBase, SymFloatBase))


class SymStrBase:
    pass


class SymFloatBase:
    pass


# ---------------------------------------------------------------- terms over one small input variable
# A term that depends on a single input of at most TABMAX values is also kept as the table of its values; it is
# rewritten to a canonical piecewise linear term (slope * v + jumps), and a condition to a union of intervals of v.
TABMAX = 512
_TABS = {}
_MASKS = {}
VARLO = {}    # variable atom id -> lower end of its range


def from_tab(vid, arr):
    """the integer term over variable vid whose value at (lowest + i) is arr[i]; None if it has too many pieces"""
    k = (vid, arr.tobytes())
    if k in _TABS:
        return _TABS[k]
    lo, hi = int(arr.min()), int(arr.max())
    if lo == hi:
        r = lo
    else:
        d = np.diff(arr)
        u, n = np.unique(d, return_counts=True)
        s = int(u[np.argmax(n)])
        vlo = VARLO[vid]
        res = arr - s * (vlo + np.arange(len(arr)))
        c = int(res.min())
        res = res - c
        j = np.nonzero(np.diff(res))[0]
        if len(j) > 64:
            r = None
        elif len(j) == 0:
            r = SymInt({vid: s}, c)
        else:
            v = ATOMS[vid].z
            z = z3.IntVal(int(res[-1]))
            for i in reversed(j):
                z = z3.If(v <= int(vlo + i), z3.IntVal(int(res[i])), z)
            a = atom(z, 0, int(res.max()))
            a.tab = (vid, res)
            r = SymInt({vid: s, a.id: 1} if s else {a.id: 1}, c, lo, hi)
        if isinstance(r, SymInt):
            r._tab = (vid, arr)
    _TABS[k] = r
    return r


def from_mask(vid, m):
    """the condition over variable vid that holds exactly at the marked values"""
    k = (vid, m.tobytes())
    r = _MASKS.get(k)
    if r is not None:
        return r
    if m.all():
        r = True
    elif not m.any():
        r = False
    else:
        vlo = VARLO[vid]
        v = ATOMS[vid].z
        n = len(m)

        def runs(m):
            e = np.diff(np.concatenate(([0], m.astype(np.int8), [0])))
            return list(zip(np.nonzero(e == 1)[0], np.nonzero(e == -1)[0] - 1))
        pos, neg = runs(m), runs(~m)
        inv = len(neg) < len(pos)
        parts = []
        for a, b in neg if inv else pos:
            if a == b:
                parts.append(v == int(vlo + a))
            elif a == 0:
                parts.append(v <= int(vlo + b))
            elif b == n - 1:
                parts.append(v >= int(vlo + a))
            else:
                parts.append(z3.And(v >= int(vlo + a), v <= int(vlo + b)))
        z = parts[0] if len(parts) == 1 else z3.Or(parts)
        r = SymBool(z3.Not(z) if inv else z)
        r.tab = (vid, m)
    _MASKS[k] = r
    return r


def tab_of(x, vid, n):
    """values of x over the range of vid, when it depends on nothing else"""
    if isinstance(x, bool):
        return np.full(n, x)
    if isinstance(x, int):
        return np.full(n, x, dtype=np.int64) if abs(x) < 1 << 60 else None
    if isinstance(x, SymBool):
        return x.tab[1] if x.tab is not None and x.tab[0] == vid else None
    if isinstance(x, SymInt):
        t = x.tab()
        return t[1] if t and t[0] == vid else None
    return None


HINTS = []   # (terms, lo, hi): bounds of sums, assumed once at the start of a task


def hint(x):
    """let the interval of a sum (which the caller has assumed) be known wherever a multiple of it occurs"""
    t = x.terms
    for h in HINTS:
        if h[0] == t:
            return
    HINTS.append((dict(t), x.lo - x.const, x.hi - x.const))


class SymInt:
    __slots__ = ("terms", "const", "lo", "hi", "_z", "_key", "_tab")
    _divcache = {}

    def tab(self):
        """(variable, values) when the term depends on one small input only, else False"""
        t = self._tab
        if t is None:
            t = False
            if -1 << 60 < self.lo and self.hi < 1 << 60:
                vid = arr = None
                for i, c in self.terms.items():
                    a = ATOMS[i].tab
                    if a is None or (vid is not None and a[0] != vid):
                        break
                    vid = a[0]
                    arr = a[1] * c if arr is None else arr + a[1] * c
                else:
                    if vid is not None:
                        t = (vid, arr + self.const)
            self._tab = t
        return t

    def __init__(self, terms, const, lo=None, hi=None):
        self.terms = terms  # dict atom id -> coef (non zero)
        self.const = const
        l = h = const
        for i, c in terms.items():
            a = ATOMS[i]
            x, y = _iv_mul(c, a.lo, a.hi)
            l += x
            h += y
        if lo is not None and lo > l:
            l = lo
        if hi is not None and hi < h:
            h = hi
        if HINTS and len(terms) > 1:
            for ht, hlo, hhi in HINTS:
                done = set()
                for hk, hc in ht.items():
                    c = terms.get(hk)
                    if c is None:
                        continue
                    k, r = divmod(c, hc)
                    if r or k in done:
                        continue
                    done.add(k)
                    # terms == k * hint + rest
                    x, y = _iv_mul(k, hlo, hhi)
                    x += const
                    y += const
                    for i, c in terms.items():
                        c = c - k * ht.get(i, 0)
                        if c:
                            p, q = _iv_mul(c, ATOMS[i].lo, ATOMS[i].hi)
                            x += p
                            y += q
                    for i, c in ht.items():
                        if i not in terms:
                            p, q = _iv_mul(-k * c, ATOMS[i].lo, ATOMS[i].hi)
                            x += p
                            y += q
                    if x > l:
                        l = x
                    if y < h:
                        h = y
        self.lo = l
        self.hi = h
        self._z = None
        self._key = None
        self._tab = None

    # -- construction
    @staticmethod
    def of_atom(a):
        return SymInt({a.id: 1}, 0)

    @staticmethod
    def make(terms, const, lo=None, hi=None):
        if not terms:
            return const
        if len(terms) > 1:
            seen = None
            for i in terms:
                t = ATOMS[i].tab
                if t is not None and t[0] != i:
                    if seen is None:
                        seen = {t[0]}
                    elif t[0] in seen:
                        terms, const = regroup(terms, const)
                        if not terms:
                            return const
                        break
                    else:
                        seen.add(t[0])
        r = SymInt(terms, const, lo, hi)
        if r.lo == r.hi:
            return r.lo
        return r

    def key(self):
        if self._key is None:
            self._key = ("I", tuple(sorted(self.terms.items())), self.const)
        return self._key

    @property
    def z(self):
        if self._z is None:
            parts = []
            for i, c in sorted(self.terms.items()):
                a = ATOMS[i].z
                parts.append(a if c == 1 else c * a)
            if self.const or not parts:
                parts.append(z3.IntVal(self.const))
            self._z = parts[0] if len(parts) == 1 else z3.Sum(parts)
        return self._z

    def tight(self):
        """the same value with an interval that recognises x - c*(x//c) patterns"""
        best = (self.lo, self.hi)
        for i, k in self.terms.items():
            d = DIVINFO.get(i)
            if d is None or k % d[2]:
                continue
            rt, rc, c = d
            t = -k // c
            rest = dict(self.terms)
            del rest[i]
            for j, co in rt.items():
                n = rest.get(j, 0) - t * co
                if n:
                    rest[j] = n
                else:
                    rest.pop(j, None)
            if len(rest) >= len(self.terms):
                continue
            r = SymInt(rest, self.const - t * rc)
            lo, hi = (r.lo, r.hi + t * (c - 1)) if t > 0 else (r.lo + t * (c - 1), r.hi)
            best = (max(best[0], lo), min(best[1], hi))
        if best == (self.lo, self.hi):
            return self
        return SymInt.make(self.terms, self.const, best[0], best[1])

    # -- arithmetic
    def _add(self, o, k=1):
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, int):
            r = SymInt(self.terms, self.const + k * o, self.lo + k * o, self.hi + k * o)
            return r
        if isinstance(o, SymBool):
            o = o.as_int()
            if isinstance(o, int):
                return self._add(o, k)
        if isinstance(o, SymInt):
            t = dict(self.terms)
            for i, c in o.terms.items():
                n = t.get(i, 0) + k * c
                if n:
                    t[i] = n
                else:
                    t.pop(i, None)
            if k == 1:
                lo, hi = self.lo + o.lo, self.hi + o.hi
            else:
                lo, hi = self.lo - o.hi, self.hi - o.lo
            return SymInt.make(t, self.const + k * o.const, lo, hi)
        return NotImplemented

    def __add__(self, o):
        if isinstance(o, float):
            return to_float(self) + o
        return self._add(o)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, float):
            return to_float(self) - o
        return self._add(o, -1)

    def __rsub__(self, o):
        if isinstance(o, float):
            return o - to_float(self)
        r = self * -1
        return r + o

    def __neg__(self):
        return self * -1

    def __pos__(self):
        return self

    def __mul__(self, o):
        if isinstance(o, float):
            return to_float(self) * o
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, SymBool):
            o = o.as_int()
        if isinstance(o, int):
            if o == 0:
                return 0
            if o == 1:
                return self
            lo, hi = _iv_mul(o, self.lo, self.hi)
            return SymInt({i: c * o for i, c in self.terms.items()}, self.const * o, lo, hi)
        if isinstance(o, SymInt):
            t = self.tab()
            u = o.tab() if t else None
            if u and u[0] == t[0]:
                r = from_tab(t[0], t[1] * u[1])
                if r is not None:
                    return r
            a, b = (self, o) if (self.hi - self.lo) <= (o.hi - o.lo) else (o, self)
            return b * ENGINE().concretize(a)
        if isinstance(o, (str, list, tuple)):
            return o * ENGINE().concretize(self)
        return NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        return to_float(self) / o

    def __rtruediv__(self, o):
        return o / float_of(ENGINE().concretize(self))

    def _divmod_const(self, c):
        """floor quotient by a positive constant"""
        k = (self.key(), self.lo, self.hi, c)
        q = SymInt._divcache.get(k)
        if q is not None:
            return q
        q = self._divmod_const0(c)
        SymInt._divcache[k] = q
        return q

    def _divmod_const0(self, c):
        if c == 1:
            return self
        if self.lo // c == self.hi // c:
            return self.lo // c
        t = self.tab()
        if t:
            r = from_tab(t[0], t[1] // c)
            if r is not None:
                return r
        best = None
        for mode in (0, 1):
            qt, rt = {}, {}
            for i, co in self.terms.items():
                if mode == 0:
                    q, r = divmod(co, c)
                else:  # symmetric remainder
                    q, r = divmod(co, c)
                    if 2 * r > c:
                        q, r = q + 1, r - c
                if q:
                    qt[i] = q
                if r:
                    rt[i] = r
            qc, rc = divmod(self.const, c)
            R = SymInt(rt, rc)
            if not rt:
                return SymInt.make(qt, qc)
            if R.lo // c == R.hi // c:
                k = R.lo // c
                return SymInt.make(qt, qc + k)
            if best is None or (R.hi - R.lo) < (best[2].hi - best[2].lo):
                best = (qt, qc, R)
        qt, qc, R = best
        # gcd reduction
        g = c
        for co in R.terms.values():
            g = gcd(g, co)
        if g > 1:
            R2 = SymInt({i: co // g for i, co in R.terms.items()}, R.const // g)
            c2 = c // g
            inner = R2._divmod_const(c2)
        else:
            lo, hi = R.lo // c, R.hi // c
            a = atom(R.z / z3.IntVal(c), lo, hi)
            DIVINFO[a.id] = (R.terms, R.const, c)
            inner = SymInt.of_atom(a)
        res = SymInt.make(qt, qc) + inner if qt or qc else inner
        if isinstance(res, SymInt):
            res = SymInt.make(res.terms, res.const, self.lo // c, self.hi // c)
        return res

    def __floordiv__(self, o):
        if isinstance(o, SymInt):
            o = ENGINE().concretize(o)
        if isinstance(o, float):
            return ENGINE().concretize(self) // o
        if not isinstance(o, int):
            return NotImplemented
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if o < 0:
            return (-self) // (-o)
        return self._divmod_const(o)

    def __rfloordiv__(self, o):
        return o // ENGINE().concretize(self)

    def __mod__(self, o):
        if isinstance(o, SymInt):
            o = ENGINE().concretize(o)
        if isinstance(o, float):
            return ENGINE().concretize(self) % o
        if not isinstance(o, int):
            return NotImplemented
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if o < 0:
            return -((-self) % (-o))
        q = self._divmod_const(o)
        r = self - q * o
        if isinstance(r, SymInt):
            r = SymInt.make(r.terms, r.const, 0, o - 1)
        return r

    def __rmod__(self, o):
        return o % ENGINE().concretize(self)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return ENGINE().concretize(self) ** o

    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        return ENGINE().concretize(self) & o

    __rand__ = __and__

    def __or__(self, o):
        return ENGINE().concretize(self) | conc(o)

    __ror__ = __or__

    def __xor__(self, o):
        return ENGINE().concretize(self) ^ conc(o)

    __rxor__ = __xor__

    def __rshift__(self, o):
        return self // (1 << conc(o))

    def __lshift__(self, o):
        return self * (1 << conc(o))

    def __rlshift__(self, o):
        return o << ENGINE().concretize(self)

    def __rrshift__(self, o):
        return o >> ENGINE().concretize(self)

    def __invert__(self):
        return -self - 1

    def __abs__(self):
        if self.lo >= 0:
            return self
        if self.hi <= 0:
            return -self
        return ite(self >= 0, self, -self)

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __round__(self, n=None):
        return self

    def __int__(self):
        return ENGINE().concretize(self)

    def __float__(self):
        return float(ENGINE().concretize(self))

    def __index__(self):
        return ENGINE().concretize(self)

    def __hash__(self):
        return hash(ENGINE().concretize(self))

    def __str__(self):
        return str(ENGINE().concretize(self))

    def __repr__(self):
        return "<SymInt [%s,%s] %s>" % (self.lo, self.hi, self.z)

    def __format__(self, spec):
        return format(ENGINE().concretize(self), spec)

    def __bool__(self):
        return bool(self != 0)

    # -- comparisons
    def _cmp(self, o, op):
        if isinstance(o, (bool, SymBool)):
            o = o.as_int() if isinstance(o, SymBool) else int(o)
        if isinstance(o, SymFloatBase):
            return NotImplemented
        if isinstance(o, float):
            if o != o or o in (math.inf, -math.inf):
                return op_py(0, o, op)
            if o == int(o):
                o = int(o)
            elif op in ("<", "<="):
                return self._cmp(math.floor(o), "<=")
            elif op in (">", ">="):
                return self._cmp(math.ceil(o), ">=")
            else:
                return op == "!="
        if not isinstance(o, (int, SymInt)):
            if op == "==":
                return False
            if op == "!=":
                return True
            return NotImplemented
        d = self - o
        if isinstance(d, int):
            return op_py(d, 0, op)
        lo, hi = d.lo, d.hi
        t = d.tab()
        if t and -1 << 60 < lo and hi < 1 << 60:
            a = t[1]
            return from_mask(t[0], a < 0 if op == "<" else a <= 0 if op == "<=" else a > 0 if op == ">" else a >= 0 if op == ">=" else a == 0 if op == "==" else a != 0)
        if op == "<":
            if hi < 0:
                return True
            if lo >= 0:
                return False
            return mkbool(lin_cmp(d, "<"))
        if op == "<=":
            if hi <= 0:
                return True
            if lo > 0:
                return False
            return mkbool(lin_cmp(d, "<="))
        if op == ">":
            if lo > 0:
                return True
            if hi <= 0:
                return False
            return mkbool(lin_cmp(d, ">"))
        if op == ">=":
            if lo >= 0:
                return True
            if hi < 0:
                return False
            return mkbool(lin_cmp(d, ">="))
        if op == "==":
            if lo > 0 or hi < 0 or not _gcd_ok(d):
                return False
            return mkbool(lin_cmp(d, "=="))
        if lo > 0 or hi < 0 or not _gcd_ok(d):
            return True
        return mkbool(z3.Not(lin_cmp(d, "==")))

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")


def regroup(terms, const):
    """join all parts of a sum that depend on the same small input into one canonical term"""
    groups = {}
    out = {}
    for i, c in terms.items():
        t = ATOMS[i].tab
        if t is None:
            out[i] = c
        else:
            groups.setdefault(t[0], []).append((i, c))
    for vid, g in groups.items():
        if sum(1 for i, c in g if i != vid) > 1:
            arr = sum(ATOMS[i].tab[1] * c for i, c in g)
            r = from_tab(vid, arr) if max(abs(int(arr.min())), abs(int(arr.max()))) < 1 << 60 else None
            if isinstance(r, int):
                const += r
                continue
            if r is not None:
                out.update(r.terms)
                const += r.const
                continue
        out.update(g)
    return out, const


def _gcd_ok(d):
    g = 0
    for c in d.terms.values():
        g = gcd(g, c)
    return g <= 1 or d.const % g == 0


def lin_cmp(d, op):
    """z3 condition d op 0, with the constant moved right"""
    if len(d.terms) == 1:
        (i, c), = d.terms.items()
        if c in (1, -1):
            a = ATOMS[i].z
            k = -d.const * c
            o = op if c == 1 else {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "=="}[op]
            if o == "<":
                return a <= k - 1
            if o == "<=":
                return a <= k
            if o == ">":
                return a >= k + 1
            if o == ">=":
                return a >= k
            return a == k
    base = SymInt(d.terms, 0).z
    k = -d.const
    if op == "<":
        return base <= k - 1
    if op == "<=":
        return base <= k
    if op == ">":
        return base >= k + 1
    if op == ">=":
        return base >= k
    return base == k


def op_py(a, b, op):
    return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]


def conc(x):
    if is_sym(x):
        return ENGINE().concretize(x)
    return x


class SymBool:
    __slots__ = ("z", "_i", "tab")

    def __init__(self, z):
        self.tab = None
        self.z = z
        self._i = None

    def __bool__(self):
        return ENGINE().branch(self)

    def key(self):
        return ("B", self.z.get_id(), self.z)

    def as_int(self):
        if self._i is None and self.tab is not None:
            self._i = from_tab(self.tab[0], self.tab[1].astype(np.int64))
        if self._i is None:
            self._i = SymInt.of_atom(atom(z3.If(self.z, z3.IntVal(1), z3.IntVal(0)), 0, 1))
        return self._i

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return "<SymBool %s>" % self.z

    def __str__(self):
        return str(bool(self))

    def __invert__(self):
        return ~int(bool(self))

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return sand(self, o)
        return self.as_int() & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return sor(self, o)
        return self.as_int() | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return self != o
        return self.as_int() ^ o

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, bool):
            return self if o else snot(self)
        if isinstance(o, SymBool):
            if self.tab is not None and o.tab is not None and self.tab[0] == o.tab[0]:
                return from_mask(self.tab[0], self.tab[1] == o.tab[1])
            return mkbool(self.z == o.z)
        if isinstance(o, (int, SymInt, float)):
            return self.as_int() == o
        return False

    def __ne__(self, o):
        return snot(self == o)

    def __add__(self, o):
        return self.as_int() + (o.as_int() if isinstance(o, SymBool) else o)

    __radd__ = __add__

    def __sub__(self, o):
        return self.as_int() - (o.as_int() if isinstance(o, SymBool) else o)

    def __rsub__(self, o):
        return o - self.as_int()

    def __mul__(self, o):
        return self.as_int() * (o.as_int() if isinstance(o, SymBool) else o)

    __rmul__ = __mul__

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __lt__(self, o):
        return self.as_int() < o

    def __le__(self, o):
        return self.as_int() <= o

    def __gt__(self, o):
        return self.as_int() > o

    def __ge__(self, o):
        return self.as_int() >= o


def mkbool(z):
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z)


def zb(x):
    if isinstance(x, SymBool):
        return x.z
    if isinstance(x, SymInt):
        return zb(x != 0)
    return z3.BoolVal(bool(x))


def tb(x):
    """truthiness without branching"""
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymInt):
        return x != 0
    return bool(x)


def snot(x):
    if isinstance(x, SymBool):
        if x.tab is not None:
            return from_mask(x.tab[0], ~x.tab[1])
        z = x.z
        if z3.is_not(z):
            return mkbool(z.arg(0))
        return mkbool(z3.Not(z))
    if isinstance(x, SymInt):
        return x == 0
    return not x


def sand(*xs):
    out = []
    tabs = None
    for x in xs:
        x = tb(x)
        if x is False:
            return False
        if x is True:
            continue
        t = x.tab
        if t is not None:
            if tabs is None:
                tabs = {}
            tabs[t[0]] = tabs[t[0]] & t[1] if t[0] in tabs else t[1]
            continue
        out.append(x)
    if tabs:
        for vid, m in tabs.items():
            x = from_mask(vid, m)
            if x is False:
                return False
            if x is not True:
                out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return SymBool(z3.And([x.z for x in out]))


def sor(*xs):
    out = []
    tabs = None
    for x in xs:
        x = tb(x)
        if x is True:
            return True
        if x is False:
            continue
        t = x.tab
        if t is not None:
            if tabs is None:
                tabs = {}
            tabs[t[0]] = tabs[t[0]] | t[1] if t[0] in tabs else t[1]
            continue
        out.append(x)
    if tabs:
        for vid, m in tabs.items():
            x = from_mask(vid, m)
            if x is True:
                return True
            if x is not False:
                out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return SymBool(z3.Or([x.z for x in out]))


def zint(x):
    return x.z if isinstance(x, SymInt) else z3.IntVal(int(x))


def isint(x):
    return isinstance(x, (int, SymInt))


class Unmergeable(Exception):
    pass


def ite(c, a, b, strict=False):
    """value-level if-then-else; falls back to a fork when the two sides cannot be merged"""
    c = tb(c)
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if c.tab is not None:
        vid, m = c.tab
        d = ENGINE().domain(vid)
        if d is not None:
            if not (d & m).any():
                return b
            if not (d & ~m).any():
                return a
        ta = tab_of(a, vid, len(m))
        tb_ = tab_of(b, vid, len(m)) if ta is not None else None
        if tb_ is not None and (ta.dtype == bool) == (tb_.dtype == bool):
            r = np.where(m, ta, tb_)
            if r.dtype == bool:
                return from_mask(vid, r)
            r = from_tab(vid, r)
            if r is not None:
                return r
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        if isinstance(a, bool) and isinstance(b, bool):
            if a == b:
                return a
            return c if a else snot(c)
        return mkbool(z3.If(c.z, zb(a), zb(b)))
    if isint(a) and isint(b) and not isinstance(a, bool) and not isinstance(b, bool):
        d = a - b
        if isinstance(d, int):
            if d == 0:
                return a
            return b + c.as_int() * d
        lo = min(a.lo if isinstance(a, SymInt) else a, b.lo if isinstance(b, SymInt) else b)
        hi = max(a.hi if isinstance(a, SymInt) else a, b.hi if isinstance(b, SymInt) else b)
        return SymInt.of_atom(atom(z3.If(c.z, zint(a), zint(b)), lo, hi))
    from . import strs
    if isinstance(a, (str, SymStrBase)) and isinstance(b, (str, SymStrBase)):
        r = strs.ite_str(c, a, b)
        if r is not None:
            return r
    if type(a) is type(b) and isinstance(a, (str, float, type(None))) and a == b:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        try:
            return tuple(ite(c, x, y, True) for x, y in zip(a, b))
        except Unmergeable:
            pass
    if strict:
        raise Unmergeable()
    return a if bool(c) else b


_ENGINE = [None]


def ENGINE():
    return _ENGINE[0]


def to_float(x):
    from . import flt
    return flt.SymFloat.of_int(x)


def float_of(x):
    return float(x)


# ---------------------------------------------------------------- engine
class Stats:
    def __init__(self):
        self.paths = 0
        self.branches = 0
        self.forks = 0
        self.queries = 0
        self.solver_s = 0.0
        self.checks = 0
        self.checks_trivial = 0
        self.unknown = 0
        self.summaries = 0
        self.summary_hits = 0
        self.replays = 0
        self.aborted = 0
        self.concretized = 0

    def as_dict(self):
        return dict(self.__dict__)


class Engine:
    """DFS over branch decisions by re-execution, sharing solver scopes along the common prefix."""

    MAX_DECISIONS = 6000

    def __init__(self, timeout_ms=60000, logic=None, max_paths=200000):
        self.timeout = timeout_ms
        self.solver = z3.SolverFor(logic) if logic else z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.spare = []
        self.timeout_ms = timeout_ms
        self.base = z3.Solver()
        self.base.set("timeout", timeout_ms)
        self.stats = Stats()
        self.max_paths = max_paths
        self.inputs = {}
        self.zvars = {}        # (input, lo, hi) -> solver variable
        self.trail = []        # [kind, z3cond] kept in sync with solver scopes
        self.pos = 0
        self.prefix = []
        self.model = None
        self.nested = None
        self.summary_cache = {}
        self.no_summary = set()
        self.fresh_n = 0
        self.deadline = None
        self.merging = False
        self.dom = {}          # small inputs: values still possible on the current path
        self.functions = set()
        self._valid = {}

    # -- variables
    def var(self, name, lo, hi):
        if self.inputs.get(name, (lo, hi)) != (lo, hi):
            raise Inconclusive("input %s declared with different ranges" % name)
        z = self.zvars.get((name, lo, hi))
        first = z is None
        if first:
            # another path may declare the input with another range: a solver variable of its own
            z = z3.Int(name if not any(k[0] == name for k in self.zvars) else "%s{%d..%d}" % (name, lo, hi))
            self.zvars[(name, lo, hi)] = z
        a = atom(z, lo, hi)
        self.inputs[name] = (lo, hi)
        if first:
            for b in [self.base] + self.spare:
                b.add(z >= lo, z <= hi)
        self.assert_(z3.And(z >= lo, z <= hi))
        if lo == hi:
            return lo
        if a.tab is None and hi - lo < TABMAX:
            VARLO[a.id] = lo
            a.tab = (a.id, np.arange(lo, hi + 1, dtype=np.int64))
        return SymInt.of_atom(a)

    # -- values of small inputs still possible on this path
    def domain(self, vid):
        if self.merging:   # summaries are kept for other paths
            return None
        return (self.dom if self.nested is None else self.nested.dom).get(vid)

    def decided(self, c):
        """True / False when the conditions taken so far on the same small input settle c, else None"""
        if c.tab is None:
            return None
        vid, m = c.tab
        d = self.domain(vid)
        if d is None:
            return None
        if not (d & m).any():
            return False
        if not (d & ~m).any():
            return True
        return None

    def narrow(self, c, side):
        if c.tab is not None:
            vid, m = c.tab
            if not side:
                m = ~m
            dom = self.dom if self.nested is None else self.nested.dom
            d = dom.get(vid)
            dom[vid] = m if d is None else d & m

    def boolvar(self, name):
        z = z3.Bool(name)
        self.inputs[name] = (0, 1)
        return SymBool(z)

    def fresh_int(self, lo, hi, hint="k"):
        self.fresh_n += 1
        z = z3.Int("!%s%d_%d_%s_%s" % (hint, self.fresh_n, self.pos, lo, hi))
        a = atom(z, lo, hi)
        self.assert_(z3.And(z >= lo, z <= hi))
        return SymInt.of_atom(a)

    # -- solver
    def check(self, *conds):
        if self.deadline and time.time() > self.deadline:
            raise Inconclusive("time budget of the task exhausted")
        t = time.time()
        self.stats.queries += 1
        r = self.solver.check(*conds)
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            r = self.retry(conds)
        return r

    def retry(self, conds):
        """a second solver configuration for a query the incremental core gave up on"""
        t = time.time()
        s = z3.SolverFor("QF_LIA")
        s.set("timeout", self.timeout * 2)
        s.add(self.solver.assertions())
        s.add(*conds)
        self.stats.queries += 1
        r = s.check()
        self.stats.solver_s += time.time() - t
        self._retry_model = s.model() if r == z3.sat else None
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def get_model(self):
        try:
            return self.solver.model()
        except z3.Z3Exception:
            return self._retry_model

    def valid(self, z):
        """z holds for all values within the variable bounds (cached)"""
        k = z.get_id()
        r = self._valid.get(k)
        if r is None:
            self.base.push()
            self.base.add(z3.Not(z))
            t = time.time()
            self.stats.queries += 1
            r = (self.base.check() == z3.unsat, z)
            self.stats.solver_s += time.time() - t
            self.base.pop()
            self._valid[k] = r
        return r[0]

    # -- trail
    def assert_(self, z):
        """add an unconditional constraint (assumption or definition)"""
        if z3.is_true(z):
            return
        if self.nested is not None:
            self.nested.assert_(z)
            return
        i = self.pos
        self.pos += 1
        if i < len(self.trail):
            return
        self.solver.push()
        self.solver.add(z)
        self.trail.append(["A", z])
        if self.model is not None and not z3.is_true(self.model.eval(z, model_completion=True)):
            self.model = None

    def assume(self, c):
        c = tb(c)
        if c is True:
            return
        if c is False:
            raise Infeasible()
        self.assert_(c.z)
        self.narrow(c, True)
        if self.nested is None and self.pos == len(self.trail):
            self.ensure_model()

    def ensure_model(self):
        if self.model is None:
            r = self.check()
            if r == z3.unsat:
                raise Infeasible()
            if r == z3.unknown:
                raise Inconclusive("solver gave up on a path condition")
            self.model = self.get_model()

    def branch(self, c):
        """decide a symbolic condition: returns True/False, recording the other side if feasible"""
        r = self.decided(c)
        if r is None:
            r = self.branch0(c) if self.nested is None else self.nested.branch(c)
            self.narrow(c, r)
        return r

    def branch0(self, c):
        z = c.z
        i = self.pos
        self.pos += 1
        if i < len(self.trail):
            e = self.trail[i]
            return e[2]
        if i > self.MAX_DECISIONS:
            raise Inconclusive("more than %d decisions on one path" % self.MAX_DECISIONS)
        if i < len(self.prefix):
            # replaying a recorded prefix whose scopes are not on the solver any more
            raise AssertionError("prefix replay out of sync")
        self.stats.branches += 1
        self.ensure_model()
        side = z3.is_true(self.model.eval(z, model_completion=True))
        other = z3.Not(z) if side else z
        self.solver.push()
        self.solver.add(other)
        r = self.check()
        if r == z3.sat:
            m = self.get_model()
            self.alts.append((i, z, not side, m))
            self.stats.forks += 1
        elif r == z3.unknown:
            self.solver.pop()
            raise Inconclusive("solver gave up on a branch condition")
        self.solver.pop()
        self.solver.push()
        if r == z3.sat:
            self.solver.add(z if side else z3.Not(z))
        self.trail.append(["B", z, side])
        return side

    def concretize(self, x):
        """fork over the feasible values of a symbolic value"""
        from . import strs
        if isinstance(x, SymBool):
            return bool(x)
        if isinstance(x, SymStrBase):
            return strs.concretize(x)
        if isinstance(x, SymFloatBase):
            return x.concretize()
        if not isinstance(x, SymInt):
            return x
        self.stats.concretized += 1
        t = x.tab()
        if t:
            d = self.domain(t[0])
            if d is not None:
                vs = t[1][d]
                if len(vs) and vs.min() == vs.max():
                    return int(vs[0])
        n = 0
        while True:
            n += 1
            if n > 5000:
                raise Inconclusive("concretisation of more than 5000 values")
            v = self.guess(x)
            if bool(x == v):
                return v

    def guess(self, x):
        if self.nested is not None:
            return self.nested.guess(x)
        i = self.pos
        if i < len(self.trail) and self.trail[i][0] == "G":
            self.pos += 1
            return self.trail[i][1]
        self.ensure_model()
        v = self.model.eval(x.z, model_completion=True).as_long()
        self.solver.push()
        self.trail.append(["G", v])
        self.pos += 1
        return v

    # -- exploration
    def explore(self, fn, on_path):
        """runs fn() on every feasible path; on_path(kind, payload) is called at the end of each"""
        self.alts = []
        self.trail = []
        first = True
        while True:
            self.pos = 0
            self.fresh_n = 0
            self.nested = None
            del HINTS[:]
            self.dom = {}
            kind = payload = None
            try:
                payload = fn()
                kind = "ok"
            except Infeasible:
                kind = "infeasible"
                self.stats.aborted += 1
            except PathAbort as e:
                kind = "abort"
                payload = e
            except SxInternal:
                raise
            except Exception as e:
                kind = "exc"
                payload = e
            if kind != "infeasible":
                self.stats.paths += 1
                on_path(kind, payload)
            if self.stats.paths > self.max_paths:
                raise Inconclusive("more than %d paths" % self.max_paths)
            # next alternative
            if not self.alts:
                return
            i, z, side, m = self.alts.pop()
            while len(self.trail) > i:
                self.trail.pop()
                self.solver.pop()
            self.solver.push()
            self.solver.add(z if side else z3.Not(z))
            self.trail.append(["B", z, side])
            self.model = m

    def bounds(self, x):
        """tightest interval of x under the current path condition (solver-decided)"""
        if not isinstance(x, SymInt) or self.nested is not None:
            return (x.lo, x.hi) if isinstance(x, SymInt) else (x, x)
        t = x.tab()
        if t:
            d = self.domain(t[0])
            vs = t[1] if d is None else t[1][d]
            if len(vs):
                return int(vs.min()), int(vs.max())
        i = self.pos
        if i < len(self.trail) and self.trail[i][0] == "T":
            self.pos += 1
            return self.trail[i][1]
        self.ensure_model()
        v = self.model.eval(x.z, model_completion=True).as_long()
        res = []
        for sign in (-1, 1):
            lim = x.lo if sign < 0 else x.hi
            a, b = v, lim          # a reachable, b the outer limit
            step = 1
            # gallop then bisect
            while a != b:
                t = a + sign * step
                if (t - b) * sign > 0:
                    t = b
                r = self.check((x >= t).z if sign > 0 else (x <= t).z) if is_sym((x >= t) if sign > 0 else (x <= t)) else z3.sat
                if r == z3.sat:
                    a = t
                    step *= 2
                elif r == z3.unsat:
                    b = t - sign
                    if step > 1:
                        step = max(1, (abs(b - a) + 1) // 2)
                else:
                    break
            res.append(a if a == b else b)
        self.solver.push()
        self.trail.append(["T", (res[0], res[1])])
        self.pos += 1
        return (res[0], res[1])

    # -- function summaries
    def bounds_solver(self):
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        s.add(*self.base.assertions())
        return s

    def summarize(self, fn, args, kwargs, key, limit=96):
        hit = self.summary_cache.get(key)
        if hit is not None:
            self.stats.summary_hits += 1
        else:
            hit = self._summarize(fn, args, kwargs, key, limit)
            self.summary_cache[key] = hit
        raised, value = hit
        for g, e in raised:
            if bool(g):
                raise e
        return value

    def _summarize(self, fn, args, kwargs, key, limit):
        saved = self.nested
        self.stats.summaries += 1
        results = []
        work = [[]]
        try:
            while work:
                pre = work.pop()
                nf = Nested(self, pre, work)
                self.nested = nf
                try:
                    try:
                        v = fn(*args, **kwargs)
                        results.append((nf.conds, v, None))
                    except Infeasible:
                        pass
                    except Exception as e:
                        results.append((nf.conds, None, e))
                finally:
                    nf.close()
                if len(results) > limit:
                    raise SummaryAbort()
        finally:
            self.nested = saved
        oks = [(c, v) for c, v, e in results if e is None]
        if not oks:
            raise SummaryAbort()
        was, self.merging = self.merging, True
        try:
            raised = [(sand(*c), e) for c, v, e in results if e is not None]
            val = merge_values(oks)
        finally:
            self.merging = was
        return raised, val


def merge_values(oks):
    """oks: list of (list of z3 conds, value), guards exhaustive and exclusive"""
    for c, v in oks:
        if not (v is None or isinstance(v, (int, str, SymInt, SymBool, SymStrBase))):
            raise SummaryAbort()
    v0 = oks[0][1]
    if v0 is None:
        if any(v is not None for c, v in oks):
            raise SummaryAbort()
        return None
    res = oks[-1][1]
    try:
        # group equal concrete values to keep the term small
        groups = []
        for c, v in oks:
            for g in groups:
                if not is_sym(v) and not is_sym(g[1]) and type(v) is type(g[1]) and v == g[1]:
                    g[0].append(c)
                    break
            else:
                groups.append([[c], v])
        groups.sort(key=lambda g: len(g[0]))
        if all(isinstance(g[1], str) for g in groups) and len(groups) > 2:
            from . import strs
            idx = len(groups) - 1
            for n in range(len(groups) - 2, -1, -1):
                idx = ite(_g(groups[n][0]), n, idx, True)
            return strs.choice(idx, [g[1] for g in groups])
        res = groups[-1][1]
        for cs, v in reversed(groups[:-1]):
            res = ite(_g(cs), v, res, True)
        return res
    except Unmergeable:
        raise SummaryAbort()


def _g(cs):
    return sor(*[sand(*c) for c in cs])


class Nested:
    """decision frame of a function summary: explored under the variable bounds only"""

    def __init__(self, eng, prefix, work):
        self.eng = eng
        self.prefix = prefix
        self.work = work
        self.conds = []
        self.dec = []
        self.dom = {}
        # a solver of its own: a summary made while another is under way must not see the outer one's decisions
        self.solver = eng.spare.pop() if eng.spare else eng.bounds_solver()
        self.solver.push()
        self.model = None

    def close(self):
        self.solver.pop()
        self.eng.spare.append(self.solver)

    def _check(self):
        t = time.time()
        self.eng.stats.queries += 1
        r = self.solver.check()
        self.eng.stats.solver_s += time.time() - t
        if r == z3.unknown:
            raise SummaryAbort()
        return r

    def assert_(self, z):
        raise SummaryAbort()

    def guess(self, x):
        raise SummaryAbort()

    def branch(self, c):
        z = c.z
        i = len(self.dec)
        if i > 400:
            raise SummaryAbort()
        if i < len(self.prefix):
            side = self.prefix[i]
            self.solver.add(z if side else z3.Not(z))
            self.model = None
        else:
            self.eng.stats.branches += 1
            if self.model is None:
                if self._check() == z3.unsat:
                    raise Infeasible()
                self.model = self.solver.model()
            side = z3.is_true(self.model.eval(z, model_completion=True))
            self.solver.push()
            self.solver.add(z3.Not(z) if side else z)
            r = self._check()
            self.solver.pop()
            if r == z3.sat:
                if len(self.work) > 300:
                    raise SummaryAbort()
                self.work.append(self.dec + [not side])
                self.solver.add(z if side else z3.Not(z))
            else:
                # implied: no condition needed in the guard
                self.dec.append(side)
                return side
        self.dec.append(side)
        self.conds.append(c if side else snot(c))
        return side
