"""Symbolic strings: concatenations of literals, decimal fields of symbolic integers and table choices."""
import numpy as np
import z3
from .core import *
from . import core


class Dec:
    """decimal rendering of a non-negative integer, zero-padded to `width`"""
    __slots__ = ("lin", "width")

    def __init__(self, lin, width):
        self.lin = lin
        self.width = width

    def fixed(self):
        return self.width if self.lin.hi < 10 ** self.width else None

    def key(self):
        return ("D", self.lin.key(), self.width)


class Cho:
    """table[idx - off]"""
    __slots__ = ("idx", "off", "table")

    def __init__(self, idx, off, table):
        self.idx = idx
        self.off = off
        self.table = table

    def fixed(self):
        n = len(self.table[0])
        return n if all(len(t) == n for t in self.table) else None

    def key(self):
        return ("C", self.idx.key(), self.off, self.table)

    def cond(self, pred):
        """condition under which pred(table entry) holds"""
        good = [i for i, t in enumerate(self.table) if pred(t)]
        if not good:
            return False
        if len(good) == len(self.table):
            return True
        t = self.idx.tab()
        if t:
            ok = np.zeros(len(self.table), dtype=bool)
            ok[good] = True
            return core.from_mask(t[0], ok[np.clip(t[1] - self.off, 0, len(self.table) - 1)])
        if len(good) * 2 > len(self.table):
            return snot(sor(*[self.idx == i + self.off for i, t in enumerate(self.table) if not pred(t)]))
        return sor(*[self.idx == i + self.off for i in good])


def choice(idx, table, off=0):
    if isinstance(idx, SymBool):
        idx = idx.as_int()
    if isinstance(idx, int):
        return table[idx - off]
    lo = max(idx.lo, off)
    hi = min(idx.hi, off + len(table) - 1)
    t = tuple(table[lo - off:hi - off + 1])
    if all(x == t[0] for x in t):
        return t[0]
    return SymStr([Cho(idx, lo, t)])


def mk(pieces):
    out = []
    for p in pieces:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] = out[-1] + p
                continue
        elif isinstance(p, Dec):
            if isinstance(p.lin, int):
                s = str(p.lin).zfill(p.width)
                if out and isinstance(out[-1], str):
                    out[-1] += s
                else:
                    out.append(s)
                continue
            # ("0" if n < 10 else "") + str(n)  ->  zero-padded field
            if p.fixed() is None and out and isinstance(out[-1], Cho) and set(out[-1].table) == {"0", ""} and p.lin.hi < 10 ** (p.width + 1):
                c = out[-1]
                z = c.cond(lambda t: t == "0")
                if ENGINE().valid(zb(z) == zb(p.lin < 10 ** p.width)):
                    out[-1] = Dec(p.lin, p.width + 1)
                    continue
        out.append(p)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SymStr(out)


def dec(n, width=1):
    """decimal text of an integer"""
    if isinstance(n, SymBool):
        return str(bool(n))
    if isinstance(n, int):
        return ("%0" + str(width) + "d") % n
    if n.lo >= 0 or not bool(n < 0):
        m = n if n.lo >= 0 else SymInt.make(n.terms, n.const, 0, n.hi)
        return mk([Dec(m, width)]) if isinstance(m, SymInt) else dec(m, width)
    m = -n
    m = SymInt.make(m.terms, m.const, 1, m.hi)
    return mk(["-", Dec(m, max(1, width - 1))]) if isinstance(m, SymInt) else dec(-m, width)


def concretize(s):
    out = []
    eng = ENGINE()
    for p in s.pieces:
        if isinstance(p, str):
            out.append(p)
        elif isinstance(p, Dec):
            out.append(str(eng.concretize(p.lin)).zfill(p.width))
        else:
            out.append(p.table[eng.concretize(p.idx) - p.off])
    return "".join(out)


def tabint(idx, vals, off=0):
    """vals[idx-off] for integer-valued tables"""
    if isinstance(idx, int):
        return vals[idx - off]
    lo = max(idx.lo, off)
    hi = min(idx.hi, off + len(vals) - 1)
    v = list(vals[lo - off:hi - off + 1])
    if any(is_sym(x) for x in v):
        r = v[-1]
        for i in range(len(v) - 2, -1, -1):
            r = ite(idx == lo + i, v[i], r)
        return r
    if all(x == v[0] for x in v):
        return v[0]
    t = idx.tab()
    if t:
        r = core.from_tab(t[0], np.array(v, dtype=np.int64)[np.clip(t[1] - lo, 0, len(v) - 1)])
        if r is not None:
            return r
    d = v[1] - v[0]
    if all(v[i + 1] - v[i] == d for i in range(len(v) - 1)):
        return idx * d + (v[0] - d * lo)
    # group equal values
    groups = {}
    for i, x in enumerate(v):
        groups.setdefault(x, []).append(i)
    order = sorted(groups, key=lambda x: len(groups[x]))
    z = z3.IntVal(order[-1])
    for x in reversed(order[:-1]):
        c = sor(*[idx == lo + i for i in groups[x]])
        z = z3.If(zb(c), z3.IntVal(x), z)
    return SymInt.of_atom(atom(z, min(v), max(v)))


def as_sym(s):
    return s if isinstance(s, SymStr) else SymStr([s] if s else [])


def ite_str(c, a, b):
    if isinstance(a, str) and isinstance(b, str):
        if a == b:
            return a
        return choice(ite(c, 0, 1), [a, b])
    A, B = as_sym(a), as_sym(b)
    if len(A.pieces) == 1 and len(B.pieces) <= 1 or len(B.pieces) == 1 and len(A.pieces) <= 1:
        def tab(S):
            if not S.pieces:
                return 0, ("",), 0
            p = S.pieces[0]
            if isinstance(p, str):
                return 0, (p,), 0
            if isinstance(p, Cho):
                return p.idx, p.table, p.off
            return None
        ta, tb_ = tab(A), tab(B)
        if ta and tb_:
            if ta[1] == tb_[1] and ta[2] == tb_[2] and isinstance(ta[0], SymInt) and isinstance(tb_[0], SymInt):
                return choice(ite(c, ta[0], tb_[0]), ta[1], ta[2])
            t = list(ta[1])
            m = {x: i for i, x in reversed(list(enumerate(t)))}
            vals = []
            for x in tb_[1]:
                if x not in m:
                    m[x] = len(t)
                    t.append(x)
                vals.append(m[x])
            ib = tabint(tb_[0], vals, tb_[2])
            return choice(ite(c, ta[0] - ta[2], ib), t)
    if len(A.pieces) == len(B.pieces) and A.length() is not None and A.length() == B.length():
        out = []
        for p, q in zip(A.pieces, B.pieces):
            if isinstance(p, Dec) and isinstance(q, Dec) and p.fixed() == q.fixed():
                r = ite(c, p.lin, q.lin)
                out.append(Dec(r, p.fixed()))
            elif plen(p) == plen(q) and not isinstance(p, Dec) and not isinstance(q, Dec):
                r = ite_str(c, p if isinstance(p, str) else SymStr([p]), q if isinstance(q, str) else SymStr([q]))
                if r is None:
                    return None
                out.extend(r.pieces if isinstance(r, SymStr) else [r])
            elif isinstance(p, Dec) and isinstance(q, str) and q.isdigit() and plen(p) == len(q):
                out.append(Dec(ite(c, p.lin, int(q)), len(q)))
            elif isinstance(q, Dec) and isinstance(p, str) and p.isdigit() and plen(q) == len(p):
                out.append(Dec(ite(c, int(p), q.lin), len(p)))
            else:
                return None
        return mk(out)
    return None


def plen(p):
    return len(p) if isinstance(p, str) else p.fixed()


def pslice(p, a, b):
    """characters a..b of a fixed-length piece"""
    if isinstance(p, str):
        return p[a:b]
    if isinstance(p, Cho):
        t = tuple(x[a:b] for x in p.table)
        if all(x == t[0] for x in t):
            return t[0]
        return Cho(p.idx, p.off, t)
    w = p.fixed()
    if a == 0 and b == w:
        return Dec(p.lin, w)
    v = p.lin
    if b < w:
        v = v // (10 ** (w - b))
    if a > 0:
        v = v % (10 ** (b - a))
    if isinstance(v, int):
        return str(v).zfill(b - a)
    return Dec(v, b - a)


class SymStr(SymStrBase):
    __slots__ = ("pieces", "_uni")

    def __init__(self, pieces):
        self.pieces = pieces
        self._uni = None

    def uni(self):
        """(variable, text codes per value) when the text depends on one small input only, else False"""
        if self._uni is None:
            self._uni = _uni(self.pieces)
        return self._uni

    def key(self):
        return ("S", tuple(p if isinstance(p, str) else p.key() for p in self.pieces))

    def length(self):
        n = 0
        for p in self.pieces:
            k = plen(p)
            if k is None:
                return None
            n += k
        return n

    def fix(self):
        """fork until every piece has a fixed length"""
        if self.length() is not None:
            return self
        out = []
        for p in self.pieces:
            if plen(p) is None:
                if isinstance(p, Dec):
                    w = p.width
                    while not bool(p.lin < 10 ** w):
                        w += 1
                    lo = 10 ** (w - 1) if w > p.width else 0
                    l = SymInt.make(p.lin.terms, p.lin.const, max(p.lin.lo, lo), min(p.lin.hi, 10 ** w - 1))
                    p = Dec(l, w) if isinstance(l, SymInt) else str(l).zfill(w)
                else:
                    lens = sorted(set(len(t) for t in p.table))
                    for n in lens[:-1]:
                        if bool(p.cond(lambda t: len(t) == n)):
                            break
                    else:
                        n = lens[-1]
                    sel = [t for t in p.table if len(t) == n]
                    if all(t == sel[0] for t in sel):
                        p = sel[0]
                    else:
                        # remap the index onto the entries of that length
                        m = {}
                        vals = []
                        k = 0
                        for t in p.table:
                            if len(t) == n:
                                vals.append(k)
                                k += 1
                            else:
                                vals.append(0)
                        p = Cho(tabint(p.idx, vals, p.off), 0, tuple(sel))
                        if isinstance(p.idx, int):
                            p = sel[p.idx]
            out.append(p)
        return as_sym(mk(out))

    # -- basics
    def __len__(self):
        return self.fix().length()

    def __add__(self, o):
        if isinstance(o, str):
            return mk(self.pieces + [o])
        if isinstance(o, SymStr):
            return mk(self.pieces + o.pieces)
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return mk([o] + self.pieces)
        return NotImplemented

    def __mul__(self, n):
        return mk(self.pieces * conc(n))

    def __str__(self):
        return concretize(self)

    def __repr__(self):
        return "<SymStr %r>" % [p if isinstance(p, str) else p.key() for p in self.pieces]

    def __hash__(self):
        return hash(concretize(self))

    def __bool__(self):
        for p in self.pieces:
            if isinstance(p, str) or isinstance(p, Dec):
                return True
            if all(len(t) for t in p.table):
                return True
        return bool(sor(*[p.cond(lambda t: len(t) > 0) for p in self.pieces]))

    def __format__(self, spec):
        return format(concretize(self), spec)

    def __mod__(self, args):
        return concretize(self) % args

    def __iter__(self):
        s = self.fix()
        for i in range(s.length()):
            yield s.slice(i, i + 1)

    def slice(self, a, b):
        out = []
        pos = 0
        for p in self.pieces:
            n = plen(p)
            x, y = max(a, pos), min(b, pos + n)
            if x < y:
                out.append(pslice(p, x - pos, y - pos))
            pos += n
        return mk(out)

    def __getitem__(self, k):
        if isinstance(k, slice):
            k = slice(conc(k.start), conc(k.stop), conc(k.step))
            s = self
            # leading literal/fixed part is enough for a non-negative bounded slice
            if s.length() is None:
                pre = 0
                keep = []
                for p in s.pieces:
                    if plen(p) is None:
                        break
                    pre += plen(p)
                    keep.append(p)
                if k.stop is not None and k.stop >= 0 and (k.start or 0) >= 0 and k.stop <= pre and k.step in (None, 1):
                    return as_sym(mk(keep)).slice(k.start or 0, k.stop)
                s = s.fix()
            n = s.length()
            a, b, st = k.indices(n)
            if st == 1:
                return s.slice(a, b)
            return mk([x for i in range(a, b, st) for x in as_sym(s.slice(i, i + 1)).pieces])
        s = self.fix()
        n = s.length()
        k = conc(k)
        if k < 0:
            k += n
        if not 0 <= k < n:
            raise IndexError("string index out of range")
        return s.slice(k, k + 1)

    # -- comparisons
    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)):
            return False
        return eq_str(self, o)

    def __ne__(self, o):
        return snot(self == o)

    def __lt__(self, o):
        return cmp_str(self, o, "<")

    def __le__(self, o):
        return cmp_str(self, o, "<=")

    def __gt__(self, o):
        return cmp_str(self, o, ">")

    def __ge__(self, o):
        return cmp_str(self, o, ">=")

    # -- methods
    def startswith(self, p, start=0):
        if start:
            return self[start:].startswith(p)
        if isinstance(p, tuple):
            return sor(*[self.startswith(x) for x in p])
        s = self.fix()
        p = as_sym(p).fix()
        n = p.length()
        if n > s.length():
            return False
        return eq_str(s.slice(0, n), p)

    def endswith(self, p):
        if isinstance(p, tuple):
            return sor(*[self.endswith(x) for x in p])
        s = self.fix()
        p = as_sym(p).fix()
        n = p.length()
        m = s.length()
        if n > m:
            return False
        return eq_str(s.slice(m - n, m), p)

    def contains(self, sub):
        return find_all(self, sub)

    __contains__ = lambda self, sub: bool(find_all(self, sub))

    def find(self, sub, start=0, end=None):
        return find_pos(self if not start and end is None else self[start:end], sub, start)

    def index(self, sub, start=0):
        r = self.find(sub, start)
        if isinstance(r, int):
            if r < 0:
                raise ValueError("substring not found")
            return r
        if bool(r < 0):
            raise ValueError("substring not found")
        return r

    def rfind(self, sub):
        return concretize(self).rfind(conc(sub))

    def replace(self, a, b, count=-1):
        if isinstance(a, str) and isinstance(b, (str, SymStr)) and count == -1 and len(a) == 1 and not a.isdigit():
            out = []
            ok = True
            for p in self.pieces:
                if isinstance(p, str):
                    parts = p.split(a)
                    for i, x in enumerate(parts):
                        if i:
                            out.extend(as_sym(b).pieces)
                        out.append(x)
                elif isinstance(p, Dec):
                    out.append(p)
                elif isinstance(b, str):
                    t = tuple(x.replace(a, b) for x in p.table)
                    out.append(Cho(p.idx, p.off, t))
                elif any(a in x for x in p.table):
                    ok = False
                    break
                else:
                    out.append(p)
            if ok:
                return mk(out)
        if len(self.pieces) == 1 and isinstance(self.pieces[0], Cho) and isinstance(a, str) and isinstance(b, str):
            p = self.pieces[0]
            return choice(p.idx, tuple(x.replace(a, b, count) for x in p.table), p.off)
        return concretize(self).replace(conc(a), conc(b), count)

    def split(self, sep=None, maxsplit=-1):
        if isinstance(sep, str) and len(sep) == 1 and not sep.isdigit() and maxsplit == -1:
            out = [[]]
            for p in self.pieces:
                if isinstance(p, str):
                    parts = p.split(sep)
                    out[-1].append(parts[0])
                    for x in parts[1:]:
                        out.append([x])
                elif isinstance(p, Dec) or not any(sep in t for t in p.table):
                    out[-1].append(p)
                else:
                    return concretize(self).split(sep)
            return [mk(x) for x in out]
        return concretize(self).split(conc(sep), maxsplit)

    def upper(self):
        return self._map(str.upper)

    def lower(self):
        return self._map(str.lower)

    def strip(self, chars=None):
        if len(self.pieces) == 1 and isinstance(self.pieces[0], Cho):
            return self._map(lambda t: t.strip(chars))
        return concretize(self).strip(chars)

    def _map(self, f):
        return mk([f(p) if isinstance(p, str) else (Cho(p.idx, p.off, tuple(f(t) for t in p.table)) if isinstance(p, Cho) else p) for p in self.pieces])

    def zfill(self, w):
        return self.rjust(w, "0")

    def rjust(self, w, ch=" "):
        w = conc(w)
        if len(self.pieces) == 1:
            p = self.pieces[0]
            if isinstance(p, Dec) and ch == "0":
                return mk([Dec(p.lin, max(p.width, w))])
            if isinstance(p, Cho):
                return mk([Cho(p.idx, p.off, tuple(t.rjust(w, ch) for t in p.table))])
        s = self.fix()
        n = s.length()
        return (ch * max(0, w - n)) + s

    def ljust(self, w, ch=" "):
        s = self.fix()
        return s + (ch * max(0, conc(w) - s.length()))

    def isdigit(self):
        if all(isinstance(p, Dec) or (isinstance(p, str) and p.isdigit()) for p in self.pieces):
            return True
        return concretize(self).isdigit()

    def join(self, it):
        out = []
        for i, x in enumerate(it):
            if i:
                out.extend(self.pieces)
            out.extend(as_sym(x).pieces)
        return mk(out)

    def encode(self, *a):
        return concretize(self).encode(*a)

    def count(self, sub):
        return concretize(self).count(conc(sub))

    def format(self, *a, **k):
        return concretize(self).format(*a, **k)

    # -- numbers
    def to_int(self, base=10):
        if base != 10:
            if len(self.pieces) == 1 and isinstance(self.pieces[0], Cho):
                p = self.pieces[0]
                try:
                    return tabint(p.idx, [int(t, base) for t in p.table], p.off)
                except ValueError:
                    pass
            return int(concretize(self), base)
        s = self
        if len(s.pieces) == 1 and isinstance(s.pieces[0], Dec):
            return s.pieces[0].lin
        if len(s.pieces) == 1 and isinstance(s.pieces[0], Cho):
            p = s.pieces[0]
            try:
                return tabint(p.idx, [int(t) for t in p.table], p.off)
            except ValueError:
                return int(concretize(self))
        s = s.fix()
        v = 0
        for p in s.pieces:
            w = plen(p)
            if isinstance(p, str):
                if not p.isdigit():
                    return int(concretize(self))
                x = int(p)
            elif isinstance(p, Dec):
                x = p.lin
            else:
                if not all(t.isdigit() for t in p.table):
                    return int(concretize(self))
                x = tabint(p.idx, [int(t) for t in p.table], p.off)
            v = v * 10 ** w + x
        return v

    def ord(self):
        if len(self.pieces) == 1:
            p = self.pieces[0]
            if isinstance(p, Dec) and p.fixed() == 1:
                return p.lin + 48
            if isinstance(p, Cho) and p.fixed() == 1:
                return tabint(p.idx, [ord(t) for t in p.table], p.off)
        return ord(concretize(self))


CODES = {}   # text -> code
TEXTS = []


def code(s):
    c = CODES.get(s)
    if c is None:
        c = CODES[s] = len(TEXTS)
        TEXTS.append(s)
    return c


def _uni(pieces):
    vid = None
    for p in pieces:
        if isinstance(p, str):
            continue
        t = (p.lin if isinstance(p, Dec) else p.idx).tab()
        if not t or (vid is not None and t[0] != vid) or len(t[1]) > 1000:
            return False
        vid = t[0]
    if vid is None:
        return False
    n = 0
    cols = []
    for p in pieces:
        if isinstance(p, str):
            cols.append(p)
        elif isinstance(p, Dec):
            n = len(p.lin.tab()[1])
            cols.append([str(max(v, 0)).zfill(p.width) for v in p.lin.tab()[1].tolist()])
        else:
            a = p.idx.tab()[1]
            n = len(a)
            cols.append([p.table[i] for i in np.clip(a - p.off, 0, len(p.table) - 1).tolist()])
    if len(cols) == 1:
        texts = cols[0]
    else:
        texts = ["".join(x) for x in zip(*[[c] * n if isinstance(c, str) else c for c in cols])]
    return vid, np.array([code(x) for x in texts], dtype=np.int64)


def segments(A, B):
    """aligned (pieceA, pieceB, len) for two fixed-length strings"""
    i = j = 0
    oa = ob = 0
    pa, pb = A.pieces, B.pieces
    while i < len(pa) and j < len(pb):
        la, lb = plen(pa[i]), plen(pb[j])
        n = min(la - oa, lb - ob)
        x = pa[i] if oa == 0 and n == la else pslice(pa[i], oa, oa + n)
        y = pb[j] if ob == 0 and n == lb else pslice(pb[j], ob, ob + n)
        yield x, y, n
        oa += n
        ob += n
        if oa == la:
            i += 1
            oa = 0
        if ob == lb:
            j += 1
            ob = 0


def eq_seg(x, y, n):
    if isinstance(x, str) and isinstance(y, str):
        return x == y
    if isinstance(x, str):
        x, y = y, x
    if isinstance(x, Dec):
        if isinstance(y, str):
            return (x.lin == int(y)) if y.isascii() and y.isdigit() else False
        if isinstance(y, Dec):
            return x.lin == y.lin
        x, y = y, x
    # x is Cho
    if isinstance(y, str):
        return x.cond(lambda t: t == y)
    if isinstance(y, Dec):
        return sor(*[sand(x.idx == i + x.off, y.lin == int(t)) for i, t in enumerate(x.table) if t.isascii() and t.isdigit()])
    if x.table == y.table and x.off == y.off and len(set(x.table)) == len(x.table):
        return x.idx == y.idx
    gx, gy = {}, {}
    for i, t in enumerate(x.table):
        gx.setdefault(t, []).append(i + x.off)
    for i, t in enumerate(y.table):
        gy.setdefault(t, []).append(i + y.off)
    return sor(*[sand(sor(*[x.idx == i for i in gx[t]]), sor(*[y.idx == i for i in gy[t]])) for t in gx if t in gy])


_eqcache = {}


def eq_str(a, b):
    A, B = as_sym(a), as_sym(b)
    u = A.uni() if isinstance(a, SymStr) else None
    v = B.uni() if isinstance(b, SymStr) else None
    if u and (isinstance(b, str) or (v and v[0] == u[0])):
        return core.from_mask(u[0], u[1] == (code(b) if isinstance(b, str) else v[1]))
    if v and isinstance(a, str):
        return core.from_mask(v[0], v[1] == code(a))
    la, lb = A.length(), B.length()
    if la is None or lb is None:
        # a single-choice string against a literal needs no length split
        if len(A.pieces) == 1 and isinstance(A.pieces[0], Cho) and isinstance(b, str):
            return A.pieces[0].cond(lambda t: t == b)
        if len(B.pieces) == 1 and isinstance(B.pieces[0], Cho) and isinstance(a, str):
            return B.pieces[0].cond(lambda t: t == a)
        if len(A.pieces) == 1 and len(B.pieces) == 1 and isinstance(A.pieces[0], Cho) and isinstance(B.pieces[0], Cho):
            return eq_seg(A.pieces[0], B.pieces[0], None)
        if len(A.pieces) == 1 and isinstance(A.pieces[0], Dec) and len(B.pieces) == 1 and isinstance(B.pieces[0], Dec) and A.pieces[0].width == B.pieces[0].width:
            return A.pieces[0].lin == B.pieces[0].lin
        # literal against separated decimal fields: "%d-%d" style keys
        for S, o in ((A, b), (B, a)):
            if isinstance(o, str):
                r = eq_fields(S, o)
                if r is not None:
                    return r
        if len(A.pieces) == len(B.pieces):
            same = True
            cs = []
            for p, q in zip(A.pieces, B.pieces):
                if isinstance(p, str) and isinstance(q, str):
                    if p != q:
                        same = False
                    continue
                if isinstance(p, Dec) and isinstance(q, Dec) and p.width == q.width == 1:
                    cs.append(p.lin == q.lin)
                    continue
                same = False
            # fields must be separated by non-digit literals for this to be exact
            if same and separated(A):
                return sand(*cs)
        A, B = A.fix(), B.fix()
        la, lb = A.length(), B.length()
    if la != lb:
        return False
    cs = []
    for x, y, n in segments(A, B):
        c = eq_seg(x, y, n)
        if c is False:
            return False
        cs.append(c)
    return sand(*cs)


def separated(A):
    prev = None
    for p in A.pieces:
        if isinstance(p, Cho):
            return False
        if isinstance(p, Dec) and prev is not None and (isinstance(prev, Dec) or prev[-1].isdigit()):
            return False
        if isinstance(p, str) and isinstance(prev, Dec) and p[0].isdigit():
            return False
        prev = p
    return True


def eq_fields(S, o):
    """S consists of literals and Dec fields separated by non-digits; compare against literal o by parsing it"""
    if not separated(S):
        return None
    pos = 0
    cs = []
    for p in S.pieces:
        if isinstance(p, str):
            if not o.startswith(p, pos):
                return False
            pos += len(p)
        else:
            e = pos
            while e < len(o) and o[e].isascii() and o[e].isdigit():
                e += 1
            t = o[pos:e]
            if not t or len(t) < p.width or (len(t) > p.width and t[0] == "0"):
                return False
            c = p.lin == int(t)
            if c is False:
                return False
            cs.append(c)
            pos = e
    if pos != len(o):
        return False
    return sand(*cs)


def cmp_str(a, b, op):
    if not isinstance(b, (str, SymStr)) or not isinstance(a, (str, SymStr)):
        return NotImplemented
    p = a if isinstance(a, str) else a.pieces[0] if a.pieces else ""
    q = b if isinstance(b, str) else b.pieces[0] if b.pieces else ""
    if isinstance(p, str) and isinstance(q, str):
        n = min(len(p), len(q))
        p, q = p[:n], q[:n]
        if p != q:
            return op_py(p, q, op)
    A, B = as_sym(a).fix(), as_sym(b).fix()
    la, lb = A.length(), B.length()
    X = Y = 0        # numeric accumulators of the common prefix
    tail = None      # decided comparison after the prefix: -1 / 1 / 0
    for x, y, n in segments(A, B):
        nx = num_seg(x)
        ny = num_seg(y)
        if nx is not None and ny is not None:
            X = X * 10 ** n + nx
            Y = Y * 10 ** n + ny
            continue
        if isinstance(x, str) and isinstance(y, str):
            if x == y:
                continue
            tail = -1 if x < y else 1
            break
        if isinstance(x, Dec) and isinstance(y, str) and not y[0].isdigit():
            tail = -1 if "0" < y[0] else 1
            break
        if isinstance(y, Dec) and isinstance(x, str) and not x[0].isdigit():
            tail = -1 if x[0] < "0" else 1
            break
        # general choice segments: ranks
        tx = [x] if isinstance(x, str) else list(x.table) if isinstance(x, Cho) else None
        ty = [y] if isinstance(y, str) else list(y.table) if isinstance(y, Cho) else None
        if tx is None or ty is None:
            sa, sb = concretize(A), concretize(B)
            return op_py(sa, sb, op)
        order = {t: i for i, t in enumerate(sorted(set(tx + ty)))}
        k = len(order)
        rx = order[x] if isinstance(x, str) else tabint(x.idx, [order[t] for t in x.table], x.off)
        ry = order[y] if isinstance(y, str) else tabint(y.idx, [order[t] for t in y.table], y.off)
        X = X * k + rx
        Y = Y * k + ry
    if tail is None:
        tail = (la > lb) - (la < lb)
    if op == "<":
        return (X <= Y) if tail < 0 else (X < Y)
    if op == "<=":
        return (X <= Y) if tail <= 0 else (X < Y)
    if op == ">":
        return (X >= Y) if tail > 0 else (X > Y)
    return (X >= Y) if tail >= 0 else (X > Y)


def num_seg(x):
    if isinstance(x, Dec):
        return x.lin
    if isinstance(x, str):
        return int(x) if x.isascii() and x.isdigit() else None
    if all(t.isascii() and t.isdigit() for t in x.table):
        return tabint(x.idx, [int(t) for t in x.table], x.off)
    return None


def find_all(hay, sub):
    """condition: sub occurs in hay"""
    if isinstance(hay, str) and isinstance(sub, SymStr):
        u = sub.uni()
        if u:
            memo = {c: TEXTS[c] in hay for c in set(u[1].tolist())}
            return core.from_mask(u[0], np.array([memo[c] for c in u[1].tolist()]))
        s = sub.fix()
        n = s.length()
        seen = set()
        cs = []
        for i in range(len(hay) - n + 1):
            w = hay[i:i + n]
            if w in seen:
                continue
            seen.add(w)
            c = eq_str(s, w)
            if c is True:
                return True
            if c is not False:
                cs.append(c)
        return sor(*cs)
    h = as_sym(hay).fix()
    s = as_sym(sub).fix()
    n, m = h.length(), s.length()
    return sor(*[eq_str(h.slice(i, i + m), s) for i in range(n - m + 1)])


def find_uni(hay, sub, last=False):
    """position of a text over one small input in a literal (forks over its values where needed), None if unsuitable"""
    u = sub.uni()
    if not u or not isinstance(hay, str):
        return None
    memo = {}
    for c in set(u[1].tolist()):
        memo[c] = hay.rfind(TEXTS[c]) if last else hay.find(TEXTS[c])
    pos = np.array([memo[c] for c in u[1].tolist()], dtype=np.int64)
    miss = core.from_mask(u[0], pos < 0)
    if miss is True or (miss is not False and bool(miss)):
        return -1
    r = core.from_tab(u[0], np.maximum(pos, 0))
    if r is None:
        t = concretize(sub)
        r = hay.rfind(t) if last else hay.find(t)
    return r


def find_pos(hay, sub, off=0):
    """first position of sub in hay, or -1"""
    if isinstance(hay, str) and isinstance(sub, SymStr):
        r = find_uni(hay, sub)
        if r is not None:
            return r if isinstance(r, int) and r < 0 else r + off
    s = as_sym(sub).fix()
    n = s.length()
    if isinstance(hay, str):
        seen = set()
        cands = []
        for i in range(len(hay) - n + 1):
            w = hay[i:i + n]
            if w in seen:
                continue
            seen.add(w)
            c = eq_str(s, w)
            if c is False:
                continue
            cands.append((c, i))
            if c is True:
                break
    else:
        h = hay.fix()
        cands = []
        for i in range(h.length() - n + 1):
            c = eq_str(h.slice(i, i + n), s)
            if c is False:
                continue
            cands.append((c, i))
            if c is True:
                break
    # fork: absent first, then the position
    if not cands:
        return -1
    if not bool(sor(*[c for c, i in cands])):
        return -1
    if len(cands) > 12:
        # the position is determined by the text: fix the text first
        t = concretize(s)
        for c, i in cands:
            if bool(c):
                return i + off
    for c, i in cands[:-1]:
        if bool(c):
            return i + off
    return cands[-1][1] + off
