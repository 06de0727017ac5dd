"""Loads the library's current source under an alias package with a light AST instrumentation.

The instrumentation only redirects operations that CPython would otherwise perform on concrete values
(indexing, membership, %-formatting, str()/int()/range()/len(), methods of real strings and dicts with symbolic
arguments), merges assignment-only branches, and offers pure functions to the summariser.  Everything else runs
as written.
"""
import ast
import builtins
import importlib.abc
import importlib.util
import math
import os
import sys
import types
from .core import *
from . import core, flt, strs
from .strs import SymStr, dec, mk, choice, tabint
from .flt import SymFloat, lo_of, hi_of

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "lunar_python"
ALIAS = "sxlp"

STR_METHODS = {"find", "rfind", "index", "replace", "startswith", "endswith", "join", "format", "get", "count",
               "split", "__contains__", "rindex", "setdefault", "pop", "insert", "remove", "add", "discard",
               "rjust", "ljust", "zfill", "strip", "lstrip", "rstrip", "encode"}

SAFE_NODES = (ast.Name, ast.Constant, ast.BinOp, ast.UnaryOp, ast.Compare, ast.BoolOp, ast.IfExp, ast.Load, ast.Add,
              ast.Sub, ast.Mult, ast.Mod, ast.FloorDiv, ast.USub, ast.UAdd, ast.Not, ast.And, ast.Or, ast.Lt, ast.LtE,
              ast.Gt, ast.GtE, ast.Eq, ast.NotEq, ast.Attribute, ast.Tuple)


def is_safe(e):
    """evaluation has no side effect and raises only for missing names or wrong types"""
    for n in ast.walk(e):
        if not isinstance(n, SAFE_NODES):
            return False
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mod, ast.FloorDiv)):
            if not (isinstance(n.right, ast.Constant) and isinstance(n.right.value, int) and n.right.value != 0):
                return False
            if isinstance(n.left, (ast.Constant, ast.JoinedStr)):
                return False
    return True


def mergeable_body(stmts, names):
    for s in stmts:
        if isinstance(s, ast.Pass):
            continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.Assign):
            if len(s.targets) != 1 or not isinstance(s.targets[0], ast.Name) or not is_safe(s.value):
                return False
            names.add(s.targets[0].id)
        elif isinstance(s, ast.AugAssign):
            if not isinstance(s.target, ast.Name) or not is_safe(s.value) or not isinstance(s.op, (ast.Add, ast.Sub, ast.Mult)):
                return False
            names.add(s.target.id)
        elif isinstance(s, ast.If):
            if not is_safe(s.test) or not mergeable_body(s.body, names) or not mergeable_body(s.orelse, names):
                return False
        else:
            return False
    return True


LIST_MUT = {"append", "extend", "insert", "pop", "remove", "reverse", "sort", "clear", "add", "update"}


def locally_pure(fn):
    """no stores outside local variables; mutation only of containers created in the function"""
    local_containers = set()
    branches = 0
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, (ast.List, ast.Dict, ast.Set, ast.ListComp)):
            local_containers.add(n.targets[0].id)
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id in ("set", "list", "dict"):
            local_containers.add(n.targets[0].id)
    for n in ast.walk(fn):
        if isinstance(n, (ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom, ast.With, ast.Try, ast.Lambda, ast.Await, ast.Delete)):
            return False
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not fn:
            return False
        if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Store):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id in local_containers:
                continue
            return False
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in LIST_MUT:
            if not (isinstance(n.func.value, ast.Name) and n.func.value.id in local_containers):
                return False
        if isinstance(n, (ast.If, ast.For, ast.While, ast.IfExp, ast.BoolOp, ast.Compare, ast.ListComp, ast.GeneratorExp)):
            branches += 1
    return branches > 0


class Tx(ast.NodeTransformer):
    def __init__(self, modname, summarise):
        self.modname = modname
        self.summarise = summarise
        self.n = 0
        self.stack = []

    def call(self, name, *args):
        return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=[])

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        pure = self.summarise and locally_pure(node) and not node.name.startswith("__init__")
        a = node.args
        simple = not a.vararg and not a.kwarg and not a.kwonlyargs
        self.fdepth = getattr(self, "fdepth", 0) + 1
        self.generic_visit(node)
        self.fdepth -= 1
        q = self.modname + "." + ".".join(self.stack)
        self.stack.pop()
        if self.fdepth == 0:
            deco = self.call("_sx_fn_", ast.Constant(q), ast.Constant(bool(pure and simple)))
            node.decorator_list.append(deco)
        return node

    # -- expressions
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(self.call("_sx_mod_", node.left, node.right), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            s = node.slice
            if isinstance(s, ast.Slice):
                none = lambda x: x if x is not None else ast.Constant(None)
                s = self.call("_sx_slice_", none(s.lower), none(s.upper), none(s.step))
            return ast.copy_location(self.call("_sx_getitem_", node.value, s), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            if isinstance(node.ops[0], ast.In):
                return ast.copy_location(self.call("_sx_in_", node.left, node.comparators[0]), node)
            if isinstance(node.ops[0], ast.NotIn):
                return ast.copy_location(self.call("_sx_not_", self.call("_sx_in_", node.left, node.comparators[0])), node)
            return node
        if all(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)) for o in node.ops) and all(is_safe(c) for c in node.comparators):
            # a <= b <= c  with side-effect free operands: one conjunction
            ops = [ast.Constant({ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}[type(o)]) for o in node.ops]
            return ast.copy_location(self.call("_sx_chain_", ast.Tuple([node.left] + node.comparators, ast.Load()), ast.Tuple(ops, ast.Load())), node)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(self.call("_sx_not_", node.operand), node)
        return node

    def visit_BoolOp(self, node):
        rest_safe = all(is_safe(v) for v in node.values[1:])
        self.generic_visit(node)
        if rest_safe:
            lam = lambda e: ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)
            f = "_sx_and_" if isinstance(node.op, ast.And) else "_sx_or_"
            return ast.copy_location(self.call(f, node.values[0], *[lam(v) for v in node.values[1:]]), node)
        return node

    def visit_IfExp(self, node):
        safe = is_safe(node.body) and is_safe(node.orelse)
        self.generic_visit(node)
        if safe:
            lam = lambda e: ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)
            return ast.copy_location(self.call("_sx_ifexp_", node.test, lam(node.body), lam(node.orelse)), node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in STR_METHODS and not any(isinstance(a, ast.Starred) for a in node.args) and not any(k.arg is None for k in node.keywords):
            return ast.copy_location(ast.Call(func=ast.Name(id="_sx_callattr_", ctx=ast.Load()), args=[f.value, ast.Constant(f.attr)] + node.args, keywords=node.keywords), node)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = v.format_spec if v.format_spec is not None else ast.Constant("")
                parts.append(self.call("_sx_fmt_", v.value, ast.Constant(v.conversion), spec))
            else:
                parts.append(v)
        return ast.copy_location(self.call("_sx_fjoin_", *parts), node)

    # -- statements
    def visit_If(self, node):
        names = set()
        ok = getattr(self, "fdepth", 0) > 0 and mergeable_body(node.body, names) and mergeable_body(node.orelse, names) and names
        self.generic_visit(node)
        if not ok:
            return node
        self.n += 1
        c = "_sx_c%d" % self.n
        L = lambda i: ast.Name(id=i, ctx=ast.Load())
        S = lambda i: ast.Name(id=i, ctx=ast.Store())
        names = sorted(names)

        def save(dst, n):
            return ast.Try(body=[ast.Assign([S(dst)], L(n))],
                           handlers=[ast.ExceptHandler(type=L("NameError"), name=None, body=[ast.Assign([S(dst)], L("_sx_undef_"))])], orelse=[], finalbody=[])

        def symbolic(stmts):
            return ast.If(test=ast.Compare(ast.Call(L("_sx_type_"), [L(c)], []), [ast.IsNot()], [L("_sx_bool_")]), body=stmts, orelse=[])

        def is_not(v, stmts):
            return ast.If(test=ast.Compare(L(c), [ast.IsNot()], [ast.Constant(v)]), body=stmts, orelse=[])
        out = [ast.Assign([S(c)], self.call("_sx_cond_", node.test))]
        first = [symbolic([save("%s_s%d" % (c, i), n) for i, n in enumerate(names)])]
        first += node.body
        second = []
        for i, n in enumerate(names):
            second.append(save("%s_t%d" % (c, i), n))
            second.append(ast.Assign([S(n)], L("%s_s%d" % (c, i))))
        first.append(symbolic(second))
        out.append(is_not(False, first))
        if node.orelse:
            out.append(is_not(True, node.orelse))
        out.append(symbolic([ast.Assign([S(n)], self.call("_sx_ite_", L(c), L("%s_t%d" % (c, i)), L(n))) for i, n in enumerate(names)]))
        return [ast.copy_location(x, node) for x in out]


# ---------------------------------------------------------------- runtime hooks
class Undef:
    def __repr__(self):
        return "<unbound>"


UNDEF = Undef()


MERGE = [True]   # off: every symbolic condition forks (slower, no branch merging)


def rt_cond(t):
    if isinstance(t, SymBool):
        return t if MERGE[0] else bool(t)
    if isinstance(t, SymInt):
        t = tb(t)
        return t if MERGE[0] else bool(t)
    return bool(t)


def rt_ite(c, a, b):
    if (a is UNDEF) != (b is UNDEF):
        return a if bool(c) else b
    return ite(c, a, b)


def rt_not(x):
    return snot(x) if is_sym(x) and not isinstance(x, (SymStr, SymFloat)) else (not x)


def rt_and(a, *fs):
    for f in fs:
        if isinstance(a, SymBool) and MERGE[0]:
            b = f()
            if isinstance(b, (bool, SymBool)):
                a = sand(a, b)
                continue
            if not bool(a):
                return False
            a = b
        else:
            if not a:
                return a
            a = f()
    return a


def rt_or(a, *fs):
    for f in fs:
        if isinstance(a, SymBool) and MERGE[0]:
            b = f()
            if isinstance(b, (bool, SymBool)):
                a = sor(a, b)
                continue
            if bool(a):
                return True
            a = b
        else:
            if a:
                return a
            a = f()
    return a


def rt_ifexp(c, f, g):
    c = rt_cond(c) if not isinstance(c, (SymStr, SymFloat)) else bool(c)
    if c is True:
        return f()
    if c is False:
        return g()
    a, b = f(), g()
    return ite(c, a, b)


def rt_chain(vals, ops):
    r = True
    for i, op in enumerate(ops):
        a, b = vals[i], vals[i + 1]
        if op == "<":
            c = a < b
        elif op == "<=":
            c = a <= b
        elif op == ">":
            c = a > b
        elif op == ">=":
            c = a >= b
        elif op == "==":
            c = a == b
        else:
            c = a != b
        if isinstance(c, SymBool) or isinstance(c, bool):
            r = sand(r, c)
            if r is False:
                return False
        else:
            if not c:
                return False
    return r


def rt_slice(a, b, c):
    return slice(a, b, c)


def rt_getitem(o, k):
    if isinstance(k, slice):
        if isinstance(o, (str, list, tuple)) and (is_sym(k.start) or is_sym(k.stop) or is_sym(k.step)):
            k = slice(conc(k.start), conc(k.stop), conc(k.step))
        return o[k]
    if not is_sym(k):
        return o[k]
    if isinstance(k, SymBool):
        k = k.as_int()
    if isinstance(o, dict):
        return dict_get(o, k, None, True)
    if isinstance(o, (list, tuple, str)) and isinstance(k, SymInt):
        n = len(o)
        off = 0
        if k.lo < 0 or k.hi >= n:
            c = sand(k >= 0, k < n)
            if not bool(c):
                c2 = sand(k < 0, k >= -n)
                if bool(c2):
                    k = k + n
                else:
                    raise IndexError("index out of range")
        if isinstance(k, int):
            return o[k]
        lo, hi = max(k.lo, 0), min(k.hi, n - 1)
        return table_get(k, list(o[lo:hi + 1]), lo)
    return o[conc(k)]


def table_get(k, vals, off):
    if all(isinstance(v, str) for v in vals):
        return choice(k, vals, off)
    if all(isint(v) for v in vals):
        return tabint(k, [int(v) if isinstance(v, bool) else v for v in vals], off)
    if all(v is vals[0] for v in vals):
        return vals[0]
    return vals[ENGINE().concretize(k) - off]


def dict_get(d, k, default, strict):
    if isinstance(k, SymFloat):
        k = conc(k)
        return d[k] if strict else d.get(k, default)
    # single table choice: map the table
    if isinstance(k, SymStr) and len(k.pieces) == 1 and isinstance(k.pieces[0], strs.Cho):
        p = k.pieces[0]
        miss = p.cond(lambda t: t not in d)
        if miss is True or (miss is not False and bool(miss)):
            if strict:
                raise KeyError(str(k))
            return default
        present = [t for t in p.table if t in d]
        vals = [d[t] if t in d else d[present[0]] for t in p.table]
        return table_get(p.idx, vals, p.off)
    u = k.uni() if isinstance(k, SymStr) and len(d) < 5000 else None
    if u:
        # the key depends on one small input: look up each of its values
        pos = {}
        vals = []
        idx = []
        for c in u[1].tolist():
            if c not in pos:
                t = strs.TEXTS[c]
                pos[c] = len(vals) if t in d else -1
                if t in d:
                    vals.append(d[t])
            idx.append(pos[c])
        idx = np.array(idx, dtype=np.int64)
        miss = core.from_mask(u[0], idx < 0)
        if miss is True or (miss is not False and bool(miss)):
            if strict:
                raise KeyError(str(k))
            return default
        r = core.from_tab(u[0], np.maximum(idx, 0))
        if r is not None:
            return table_get(r, vals, 0) if isinstance(r, SymInt) else vals[r]
    cands = []
    for key, v in d.items():
        if isinstance(key, str) != isinstance(k, SymStr) and not (isint(key) and isinstance(k, (SymInt, SymBool))):
            continue
        c = (k == key)
        if c is False:
            continue
        cands.append((c, v, key))
        if c is True:
            break
    if not cands:
        if strict:
            raise KeyError(str(k))
        return default
    anyc = sor(*[c for c, v, _ in cands])
    if anyc is not True and not bool(anyc):
        if strict:
            raise KeyError(str(k))
        return default
    if all(isinstance(v, str) for c, v, _ in cands) or all(isinstance(v, int) and not isinstance(v, bool) for c, v, _ in cands):
        r = len(cands) - 1
        for i in range(len(cands) - 2, -1, -1):
            r = ite(cands[i][0], i, r)
        return table_get(r, [v for c, v, _ in cands], 0) if isinstance(r, SymInt) else cands[r][1]
    for c, v, _ in cands[:-1]:
        if bool(c):
            return v
    return cands[-1][1]


def rt_in(x, o):
    if isinstance(o, (str, SymStr)):
        if isinstance(x, SymStr) or isinstance(o, SymStr):
            return strs.find_all(o, x)
        return x in o
    if isinstance(o, dict):
        o = o.keys()
    if isinstance(o, range) and isinstance(x, SymInt):
        if o.step > 0:
            c = sand(x >= o.start, x < o.stop)
            return c if o.step == 1 else sand(c, ((x - o.start) % o.step) == 0)
    if isinstance(o, SymRange):
        return o.has(x)
    if isinstance(o, (list, tuple, set, frozenset, type({}.keys()))):
        sym = is_sym(x)
        if not sym:
            if isinstance(o, (set, frozenset, type({}.keys()))):
                return x in o
            if not any(is_sym(e) for e in o):
                return x in o
        if isinstance(x, SymStr) and len(x.pieces) == 1 and isinstance(x.pieces[0], strs.Cho) and not any(is_sym(e) for e in o):
            oo = set(e for e in o if isinstance(e, str))
            return x.pieces[0].cond(lambda t: t in oo)
        cs = []
        for e in o:
            if e is x:
                return True
            c = (x == e)
            if isinstance(c, (bool, SymBool)):
                cs.append(c)
            elif c:
                return True
        return sor(*cs)
    return x in o


def fmt_one(spec, conv, v):
    """one % conversion"""
    flags = spec
    if conv in "di":
        if isinstance(v, SymFloat):
            v = v.to_int()
        if isinstance(v, SymBool):
            v = v.as_int()
        if isinstance(v, SymInt):
            if flags == "":
                return dec(v)
            if flags.isdigit() and flags[0] == "0":
                return dec(v, int(flags[1:] or 1))
            if flags.startswith(".") and flags[1:].isdigit():
                return dec(v, int(flags[1:]))
            return ("%" + flags + conv) % conc(v)
        return ("%" + flags + conv) % v
    if conv == "s":
        s = rt_str(v)
        if flags == "":
            return s
        return ("%" + flags + "s") % conc(s)
    return ("%" + flags + conv) % conc(v)


def rt_mod(l, r):
    if isinstance(l, str):
        args = r if isinstance(r, tuple) else (r,)
        if isinstance(r, dict) or not any(_deep_sym(a) for a in args):
            return l % r
        import re
        out = []
        pos = 0
        k = 0
        for m in re.finditer(r"%([-+ #0-9.]*)([a-zA-Z%])", l):
            out.append(l[pos:m.start()])
            pos = m.end()
            if m.group(2) == "%":
                out.append("%")
                continue
            if k >= len(args):
                raise TypeError("not enough arguments for format string")
            out.append(fmt_one(m.group(1), m.group(2), args[k]))
            k += 1
        if k < len(args):
            raise TypeError("not all arguments converted during string formatting")
        out.append(l[pos:])
        return join_parts(out)
    return l % r


def join_parts(parts):
    ps = []
    for p in parts:
        if isinstance(p, SymStr):
            ps.extend(p.pieces)
        else:
            ps.append(p)
    return mk(ps)


def _deep_sym(a):
    if is_sym(a):
        return True
    if isinstance(a, (int, str, float, bool, type(None), bytes)):
        return False
    return hasattr(type(a), "_sx_class_") or hasattr(a, "toString")


def rt_fmt(v, conversion, spec):
    spec = conc(spec)
    if conversion == ord("r"):
        v = repr(conc(v))
    elif conversion == ord("s"):
        v = rt_str(v)
    if isinstance(v, SymBool):
        v = str(bool(v))
    if isinstance(v, SymInt):
        import re
        m = re.fullmatch(r"(0?)(\d*)d?", spec)
        if spec in ("", "d"):
            return dec(v)
        if m and m.group(1) == "0":
            return dec(v, int(m.group(2) or 1))
        m = re.fullmatch(r"0>(\d+)d?", spec)
        if m:
            return strs.as_sym(dec(v)).rjust(int(m.group(1)), "0")
        return format(conc(v), spec)
    if isinstance(v, SymStr):
        if spec in ("", "s"):
            return v
        return format(conc(v), spec)
    if isinstance(v, SymFloat):
        return format(conc(v), spec)
    if spec == "" and not isinstance(v, (int, str, float)):
        return rt_str(v)
    return format(v, spec)


def rt_fjoin(*parts):
    return join_parts(parts)


def rt_callattr(o, name, *args, **kw):
    if isinstance(o, str):
        if name == "join":
            items = list(args[0])
            if any(is_sym(x) for x in items):
                out = []
                for i, x in enumerate(items):
                    if i:
                        out.append(o)
                    out.append(x)
                return join_parts(out)
            return o.join(items)
        if name == "format" and (any(_deep_sym(a) for a in args) or any(_deep_sym(a) for a in kw.values())):
            import string
            out = []
            auto = 0
            for lit, field, spec, conv in string.Formatter().parse(o):
                out.append(lit)
                if field is None:
                    continue
                if field == "":
                    v = args[auto]
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)]
                elif field in kw:
                    v = kw[field]
                else:
                    return o.format(*[conc(a) for a in args], **{k: conc(v) for k, v in kw.items()})
                out.append(rt_fmt(v, ord(conv) if conv else -1, spec or ""))
            return join_parts(out)
        if any(is_sym(a) for a in args):
            if name == "find" and isinstance(args[0], SymStr):
                st = conc(args[1]) if len(args) > 1 else 0
                return strs.find_pos(o[st:], args[0], st)
            if name == "index" and isinstance(args[0], SymStr):
                r = strs.find_pos(o, args[0])
                if r < 0:
                    raise ValueError("substring not found")
                return r
            if name in ("startswith", "endswith", "rfind", "count", "split") and isinstance(args[0], SymStr):
                if name in ("startswith", "endswith"):
                    if len(args) > 1:
                        o = o[conc(args[1]):conc(args[2]) if len(args) > 2 else None]
                    n = strs.as_sym(args[0]).length()
                    if n is not None and n <= len(o):
                        o = o[:n] if name == "startswith" else o[len(o) - n:]
                    return getattr(strs.as_sym(o), name)(args[0])
                if name == "rfind" and len(args) == 1:
                    r = strs.find_uni(o, args[0], True)
                    if r is not None:
                        return r
            if name == "__contains__":
                return strs.find_all(o, args[0])
            if name == "replace" and isinstance(args[0], str):
                cnt = conc(args[2]) if len(args) > 2 else -1
                parts = o.split(args[0]) if cnt < 0 else o.split(args[0], cnt)
                return strs.as_sym(args[1]).join(parts) if isinstance(args[1], SymStr) else o.replace(args[0], args[1], cnt)
            args = tuple(conc(a) for a in args)
        return getattr(o, name)(*args, **kw)
    if isinstance(o, dict):
        if args and is_sym(args[0]):
            if name == "get":
                return dict_get(o, args[0], args[1] if len(args) > 1 else None, False)
            if name == "__contains__":
                return rt_in(args[0], o)
        return getattr(o, name)(*args, **kw)
    if isinstance(o, (set, frozenset)) and args and is_sym(args[0]) and name == "__contains__":
        return rt_in(args[0], o)
    if isinstance(o, (list, tuple)) and args and is_sym(args[0]):
        if name == "index":
            for i, e in enumerate(o):
                if bool(e == args[0]):
                    return i
            raise ValueError("value is not in list")
        if name in ("insert", "pop"):
            args = (conc(args[0]),) + args[1:]
    return getattr(o, name)(*args, **kw)


class SymRange:
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    def __iter__(self):
        i = self.a
        if self.s > 0:
            while i < self.b:
                yield i
                i = i + self.s
        else:
            while i > self.b:
                yield i
                i = i + self.s

    def has(self, x):
        if self.s == 1:
            return sand(x >= self.a, x < self.b)
        return x in range(conc(self.a), conc(self.b), self.s)

    def __len__(self):
        return len(range(conc(self.a), conc(self.b), self.s))

    def __getitem__(self, i):
        return range(conc(self.a), conc(self.b), self.s)[conc(i)]

    def __reversed__(self):
        return iter(list(self)[::-1])


def rt_range(*args):
    if not any(is_sym(a) for a in args):
        return range(*args)
    args = [a.as_int() if isinstance(a, SymBool) else a for a in args]
    if len(args) == 1:
        a, b, s = 0, args[0], 1
    elif len(args) == 2:
        a, b, s = args[0], args[1], 1
    else:
        a, b, s = args
        s = conc(s)
    return SymRange(a, b, s)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, SymInt, SymBool))

    def __eq__(cls, o):
        return o is int or o is cls

    def __hash__(cls):
        return hash(int)


class rt_int(int, metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return x.as_int()
        if isinstance(x, SymFloat):
            return x.to_int()
        if isinstance(x, SymStr):
            return x.to_int(*a)
        return int(x, *a)


class _StrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (str, SymStr))

    def __eq__(cls, o):
        return o is str or o is cls

    def __hash__(cls):
        return hash(str)


class rt_strt(str, metaclass=_StrMeta):
    def __new__(cls, *a):
        if a and not isinstance(a[0], (int, str, float)):
            return rt_str(a[0])
        return str(*a)


def rt_str(v):
    if isinstance(v, (SymInt, SymBool)):
        return dec(v)
    if isinstance(v, SymStr):
        return v
    if isinstance(v, SymFloat):
        return str(conc(v))
    if isinstance(v, (int, str, float, type(None))):
        return str(v)
    f = getattr(type(v), "__str__", None)
    if isinstance(f, types.FunctionType):
        return f(v)   # may legitimately return a symbolic string
    return str(v)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, SymFloat))


class rt_float(float, metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, (SymInt, SymBool)):
            return SymFloat.of_int(x)
        if isinstance(x, SymFloat):
            return x
        if isinstance(x, SymStr):
            return float(conc(x))
        return float(x)


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (bool, SymBool))


class rt_bool(metaclass=_BoolMeta):
    def __new__(cls, x=False):
        if isinstance(x, SymBool):
            return x
        if isinstance(x, SymInt):
            return x != 0
        return bool(x)


_TYPEMAP = None


def rt_isinstance(x, t):
    def m(c):
        return {int: rt_int, str: rt_strt, float: rt_float, bool: rt_bool}.get(c, c)
    if isinstance(t, tuple):
        return any(rt_isinstance(x, c) for c in t)
    return isinstance(x, m(t))


def rt_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SymInt):
            return rt_int
        if isinstance(x, SymStr):
            return rt_strt
        if isinstance(x, SymBool):
            return bool
        if isinstance(x, SymFloat):
            return rt_float
    return type(*a)


def rt_len(x):
    if isinstance(x, SymStr):
        n = x.length()
        if n is not None:
            return n
        if len(x.pieces) == 1 and isinstance(x.pieces[0], strs.Cho):
            p = x.pieces[0]
            return tabint(p.idx, [len(t) for t in p.table], p.off)
        return x.fix().length()
    return len(x)


def rt_ord(x):
    return x.ord() if isinstance(x, SymStr) else ord(x)


def rt_chr(x):
    if isinstance(x, SymInt):
        if 0 <= x.lo and x.hi - x.lo < 3000:
            return choice(x, [chr(i) for i in range(x.lo, x.hi + 1)], x.lo)
        return chr(conc(x))
    return chr(x)


def rt_hex(x):
    if isinstance(x, SymInt):
        if x.hi - x.lo < 5000:
            return choice(x, [hex(i) for i in range(x.lo, x.hi + 1)], x.lo)
        return hex(conc(x))
    return hex(x)


def _minmax(args, kw, less):
    if kw or len(args) == 1:
        seq = list(args[0]) if len(args) == 1 else list(args)
        if kw or not all(isint(x) for x in seq):
            return (min if less else max)(*args, **kw)
        args = seq
        if not args:
            raise ValueError("empty sequence")
    if not all(isint(x) for x in args):
        return (min if less else max)(*args)
    r = args[0]
    for x in args[1:]:
        r = ite((x < r) if less else (x > r), x, r)
    return r


def rt_min(*a, **k):
    return _minmax(a, k, True)


def rt_max(*a, **k):
    return _minmax(a, k, False)


def rt_any(it):
    for x in it:
        if x:
            return True
    return False


def rt_all(it):
    for x in it:
        if not x:
            return False
    return True


class _MathShim(types.ModuleType):
    """math with floor/ceil/trunc/fabs that accept symbolic numbers (the real ones already defer to dunders)"""


def _mkmath():
    m = _MathShim("math")
    for k in dir(math):
        setattr(m, k, getattr(math, k))

    def wrap(f, name):
        def g(*a):
            if any(is_sym(x) for x in a):
                if name == "fabs":
                    return abs(flt.SymFloat.of_int(a[0]) if isinstance(a[0], SymInt) else a[0])
                if name == "fmod" and isinstance(a[0], SymInt) and isinstance(a[1], int):
                    return flt.SymFloat.of_int(a[0] % a[1]) if a[0].lo >= 0 else f(*[conc(x) for x in a])
                if name == "gcd":
                    return f(*[conc(x) for x in a])
                if name in ("floor", "ceil", "trunc"):
                    return f(*a)
                return f(*[conc(x) for x in a])
            return f(*a)
        return g
    for k in dir(math):
        f = getattr(math, k)
        if callable(f):
            setattr(m, k, wrap(f, k))
    return m


MATH = _mkmath()


# ---------------------------------------------------------------- function wrapper (summaries, coverage)
SUMMARISE = [True]
TOUCHED = set()


def lo_hi(x):
    return (x.lo, x.hi) if isinstance(x, SymInt) else x


def arg_key(a, depth=0):
    if isinstance(a, SymInt):
        return (a.key(), a.lo, a.hi)   # intervals may be path specific
    if isinstance(a, SymStr):
        return ("S",) + tuple(p if isinstance(p, str) else (p.key(), arg_key(p.lin if isinstance(p, strs.Dec) else p.idx)) for p in a.pieces)
    if isinstance(a, SymFloat):
        return (a.key(), lo_hi(a.an), lo_hi(a.pn))
    if isinstance(a, SymBool):
        return a.key()
    if isinstance(a, (int, str, float, bool, type(None))):
        return (type(a).__name__, a)
    if isinstance(a, (tuple, list)) and depth < 2:
        return (type(a).__name__,) + tuple(arg_key(x, depth + 1) for x in a)
    if hasattr(a, "__dict__") and depth < 2 and type(a).__module__.startswith(ALIAS):
        d = a.__dict__
        return (type(a).__qualname__,) + tuple((k, arg_key(v, depth + 1)) for k, v in d.items())
    raise TypeError


def has_sym(a, depth=0):
    if is_sym(a):
        return True
    if isinstance(a, (int, str, float, type(None))):
        return False
    if hasattr(a, "__dict__") and depth < 2 and type(a).__module__.startswith(ALIAS):
        return any(has_sym(v, depth + 1) for v in a.__dict__.values())
    return False


def rt_fn(qual, pure):
    def deco(f):
        if not isinstance(f, types.FunctionType):
            return f
        import functools

        def inner(*args, **kw):
            eng = ENGINE()
            TOUCHED.add(qual)
            if pure and eng is not None and SUMMARISE[0] and qual not in eng.no_summary and (any(has_sym(a) for a in args) or any(has_sym(a) for a in kw.values())):
                try:
                    key = (qual, tuple(arg_key(a) for a in args), tuple((k, arg_key(v)) for k, v in sorted(kw.items())))
                    hash(key)
                except TypeError:
                    return f(*args, **kw)
                try:
                    return eng.summarize(f, args, kw, key)
                except SummaryAbort:
                    if eng.nested is None:
                        eng.no_summary.add(qual)
                        return f(*args, **kw)
                    eng.no_summary.add(qual)
                    raise
            return f(*args, **kw)
        return functools.wraps(f)(inner)
    return deco


HOOKS = dict(_sx_mod_=rt_mod, _sx_slice_=rt_slice, _sx_getitem_=rt_getitem, _sx_in_=rt_in, _sx_not_=rt_not,
             _sx_chain_=rt_chain, _sx_and_=rt_and, _sx_or_=rt_or, _sx_ifexp_=rt_ifexp, _sx_callattr_=rt_callattr,
             _sx_fmt_=rt_fmt, _sx_fjoin_=rt_fjoin, _sx_cond_=rt_cond, _sx_ite_=rt_ite, _sx_undef_=UNDEF, _sx_fn_=rt_fn, _sx_bool_=bool, _sx_type_=type)

BUILTINS = dict(range=rt_range, int=rt_int, str=rt_strt, float=rt_float, bool=rt_bool, isinstance=rt_isinstance,
                type=rt_type, len=rt_len, ord=rt_ord, chr=rt_chr, hex=rt_hex, min=rt_min, max=rt_max)


def make_builtins(alias):
    b = dict(builtins.__dict__)
    b.update(BUILTINS)

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            if name == "math":
                return MATH
            if name in HARNESS_LIBS:
                return harness_lib(name)
            if name == PKG or name.startswith(PKG + "."):
                name2 = alias + name[len(PKG):]
                m = builtins.__import__(name2, globals, locals, fromlist, 0)
                return m
        return builtins.__import__(name, globals, locals, fromlist, level)
    b["__import__"] = imp
    return b


HARNESS_DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")
HARNESS_LIBS = {"cal", "lun"}   # reference models shared by harnesses, executed symbolically like them


def harness_lib(name):
    n = "sxh_" + name
    if n not in sys.modules:
        load_harness(os.path.join(HARNESS_DIR, name + ".py"), n, True)
    return sys.modules[n]


class Loader(importlib.abc.Loader):
    def __init__(self, path, native, alias):
        self.path = path
        self.native = native
        self.alias = alias

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, "rb") as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        module.__file__ = self.path
        if self.native(module.__name__):
            exec(compile(tree, self.path, "exec"), module.__dict__)
            return
        rel = module.__name__[len(self.alias):].lstrip(".") or "__init__"
        tree = Tx(rel, True).visit(tree)
        ast.fix_missing_locations(tree)
        module.__dict__.update(HOOKS)
        module.__dict__["__builtins__"] = make_builtins(self.alias)
        exec(compile(tree, self.path, "exec"), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root, native, alias):
        self.root = root
        self.native = native
        self.alias = alias

    def find_spec(self, fullname, path, target=None):
        if fullname != self.alias and not fullname.startswith(self.alias + "."):
            return None
        rel = fullname[len(self.alias):].lstrip(".").replace(".", "/")
        base = os.path.join(self.root, PKG, rel) if rel else os.path.join(self.root, PKG)
        if os.path.isdir(base):
            p = os.path.join(base, "__init__.py")
            spec = importlib.util.spec_from_loader(fullname, Loader(p, self.native, self.alias), is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        p = base + ".py"
        if os.path.exists(p):
            return importlib.util.spec_from_loader(fullname, Loader(p, self.native, self.alias))
        return None


NATIVE_MODULES = {"ShouXingUtil"}


def install(root=REPO, alias=ALIAS):
    f = Finder(root, lambda name: name.split(".")[-1] in NATIVE_MODULES, alias)
    sys.meta_path.insert(0, f)
    importlib.import_module(alias)
    return sys.modules[alias]


def load_harness(path, name, instrumented=True):
    """harness modules are ordinary Python; in symbolic mode they are instrumented like the library"""
    with open(path, "rb") as f:
        src = f.read()
    m = types.ModuleType(name)
    m.__file__ = path
    sys.modules[name] = m
    tree = ast.parse(src, path)
    if instrumented:
        tree = Tx("harness", False).visit(tree)
        ast.fix_missing_locations(tree)
        m.__dict__.update(HOOKS)
        m.__dict__["__builtins__"] = make_builtins(ALIAS)
    exec(compile(tree, path, "exec"), m.__dict__)
    return m
