"""Random small changes to a scratch copy of the library, to look for holes in the checks (not part of any check).

python3 tools/mutate.py make N SEED DIR   writes N changes that pass the existing tests to DIR/<k>/ (patched file list in DIR/list.json)
python3 tools/mutate.py run DIR LO HI     runs the checks related to each change until one reports it
"""
import ast
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP = {"ShouXingUtil.py", "__init__.py"}
COST = {"C01": 2, "C02": 27, "C03": 1, "C04": 1, "C05": 60, "C06": 2, "C07": 1, "C08": 110, "C09": 4, "C10": 22, "C11": 140, "C12": 109, "C13": 67, "C14": 23, "C15": 9, "C16": 11, "C17": 43, "C18": 2, "C19": 97,
        "C20": 97, "C21": 38, "C22": 74, "C23": 2, "C24": 81, "C25": 72, "C26": 33, "C27": 26, "C28": 100, "C29": 4, "C30": 50, "C31": 20, "C32": 20, "C33": 8, "C34": 150, "C35": 28}
DEFAULT = {"Solar.py": "C01 C02 C03 C04 C05 C06 C23 C24 C35 C22", "SolarUtil.py": "C01 C07 C03 C23 C05 C08", "SolarWeek.py": "C08", "SolarMonth.py": "C09 C35", "SolarSeason.py": "C09 C35", "SolarHalfYear.py": "C09 C35",
           "SolarYear.py": "C09 C35", "Lunar.py": "C15 C16 C32 C10 C14 C31 C26 C17 C25 C30 C33 C35 C11", "LunarYear.py": "C18 C29 C13 C10 C31 C32 C12 C25", "LunarMonth.py": "C13 C32 C25 C12", "LunarTime.py": "C28 C25 C35",
           "EightChar.py": "C20 C19 C33", "Yun.py": "C19", "DaYun.py": "C19", "LiuNian.py": "C19", "LiuYue.py": "C19", "XiaoYun.py": "C19", "HolidayUtil.py": "C21 C22 C35", "Holiday.py": "C35 C21", "Foto.py": "C27 C35 C33",
           "FotoUtil.py": "C27", "Tao.py": "C27 C35 C33", "TaoUtil.py": "C27", "LunarUtil.py": "C32 C30 C28 C31 C20 C10", "NineStar.py": "C25 C35", "JieQi.py": "C35 C17", "ShuJiu.py": "C26 C35", "Fu.py": "C26 C35",
           "FotoFestival.py": "C35 C27", "TaoFestival.py": "C35 C27", "ShouXingUtil.py": "C34 C12"}


def sites(src):
    """(start offset, end offset, replacement, note) of every possible change"""
    tree = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    data = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return data[a:b].decode()

    out = []
    names = set(n.name for n in ast.walk(tree) if isinstance(n, ast.FunctionDef))
    funcs = [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]
    for f in funcs:
        for n in ast.walk(f):
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                a, b = span(n)
                op = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">"}.get(type(n.ops[0]))
                if op:
                    out.append((a, b, "%s %s %s" % (text(n.left), op, text(n.comparators[0])), f.name))
            elif isinstance(n, ast.Constant) and type(n.value) is int and not isinstance(n.value, bool):
                a, b = span(n)
                for v in (n.value + 1, n.value - 1):
                    out.append((a, b, str(v) if v >= 0 else "(%d)" % v, f.name))
            elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
                a, b = span(n)
                out.append((a, b, "%s %s %s" % (text(n.left), "-" if isinstance(n.op, ast.Add) else "+", text(n.right)), f.name))
            elif isinstance(n, ast.BoolOp):
                a, b = span(n)
                j = " or " if isinstance(n.op, ast.And) else " and "
                out.append((a, b, "(" + j.join(text(v) for v in n.values) + ")", f.name))
                for k in range(len(n.values)):
                    rest = n.values[:k] + n.values[k + 1:]
                    j2 = " and " if isinstance(n.op, ast.And) else " or "
                    out.append((a, b, "(" + j2.join(text(v) for v in rest) + ")", f.name))
            elif isinstance(n, (ast.AugAssign, ast.Break)) or (isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)):
                a, b = span(n)
                out.append((a, b, "pass", f.name))
            elif isinstance(n, ast.If):
                a, b = span(n.test)
                out.append((a, b, "(%s) and False" % text(n.test), f.name))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("abs", "int"):
                a, b = span(n)
                if len(n.args) == 1:
                    out.append((a, b, "(%s)" % text(n.args[0]), f.name))
            elif isinstance(n, ast.Attribute):
                m = n.attr
                alts = [x for x in names if x != m and (x == m + "Exact" or m == x + "Exact" or x == m + "ByLiChun" or x == m + "Exact2")]
                if m.startswith("__"):
                    alts += [x for x in re.findall(r"self\.(__\w+)", src) if x != m and (x == m + "Exact" or m == x + "Exact")][:1]
                for x in alts[:1]:
                    a, b = span(n)
                    out.append((a, b, "%s.%s" % (text(n.value), x), f.name))
    infunc = set()
    for f in funcs:
        for n in ast.walk(f):
            infunc.add(id(n))
    for n in ast.walk(tree):
        if id(n) in infunc:
            continue
        if isinstance(n, (ast.Tuple, ast.List)) and len(n.elts) > 3 and all(isinstance(e, ast.Constant) for e in n.elts):
            for k in range(0, len(n.elts) - 1, max(1, len(n.elts) // 6)):
                x, y = n.elts[k], n.elts[k + 1]
                if x.value != y.value:
                    a, b = span(x)[0], span(y)[1]
                    out.append((a, b, "%s, %s" % (text(y), text(x)), "table"))
        elif isinstance(n, ast.Dict) and len(n.keys) > 3:
            for k in range(0, len(n.keys) - 1, max(1, len(n.keys) // 6)):
                x, y = n.values[k], n.values[k + 1]
                if text(x) != text(y):
                    a, b = span(x)
                    out.append((a, b, text(y), "table"))
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) > 400:
            a, b = span(n)
            for k in range(6):
                p = random.randrange(5, len(n.value) - 5)
                s = n.value
                if s[p] != s[p + 1] and "\n" not in s:
                    out.append((a, b, '"' + s[:p] + s[p + 1] + s[p] + s[p + 2:] + '"', "table"))
    return data, out


def test(d):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", TZ="UTC", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", PYTHONUTF8="1", PYTHONHASHSEED="0")
    try:
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--rootdir=" + d, "-o", "python_files=*Test.py test_*.py *_test.py", "test"], cwd=d, env=env, capture_output=True, text=True, timeout=120)
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 0


def make(n, seed, out):
    random.seed(seed)
    files = [f for f in glob.glob(REPO + "/lunar_python/**/*.py", recursive=True) if os.path.basename(f) not in SKIP]
    pool = []
    for f in files:
        data, ss = sites(open(f).read())
        byf = {}
        for s in ss:
            byf.setdefault(s[3], []).append(s)
        for k in byf:
            random.shuffle(byf[k])
            for s in byf[k][:40 if k == "table" else 12]:
                pool.append((f, data, s))
    random.shuffle(pool)
    os.makedirs(out, exist_ok=True)
    kept = []

    def one(i):
        f, data, (a, b, new, fn) = pool[i]
        t = (data[:a] + new.encode() + data[b:])
        try:
            ast.parse(t.decode())
        except SyntaxError:
            return None
        d = os.path.join(out, "m%d" % i)
        shutil.copytree(REPO, d, ignore=shutil.ignore_patterns(".git"))
        open(os.path.join(d, os.path.relpath(f, REPO)), "wb").write(t)
        if test(d):
            line = data[:a].count(b"\n") + 1
            return dict(dir=d, file=os.path.basename(f), func=fn, line=line, old=data[a:b].decode()[-60:] if fn != "table" else data[a:b].decode()[:60], new=new[-60:] if fn != "table" else new[:60])
        shutil.rmtree(d)
        return None
    i = 0
    with ThreadPoolExecutor(8) as ex:
        while len(kept) < n and i < len(pool):
            for r in ex.map(one, range(i, min(i + 16, len(pool)))):
                if r:
                    kept.append(r)
            i += 16
    json.dump(kept, open(os.path.join(out, "list.json"), "w"), ensure_ascii=False, indent=1)
    print(len(kept), "of", i)


def related(m):
    hs = {}
    for f in glob.glob(VERIF + "/harness/c*.py"):
        b = os.path.basename(f)[:-3].upper()
        if re.match(r"C\d+$", b):
            hs[b] = open(f).read()
    fn = m["func"]
    named = [c for c in hs if not fn.startswith("_") and fn != "table" and re.search(r"\b" + fn + r"\b", hs[c])]
    named.sort(key=lambda c: COST.get(c, 50))
    rest = DEFAULT.get(m["file"], "").split()
    out = []
    for c in named + rest:
        if c not in out:
            out.append(c)
    return out


def run(d, lo, hi):
    ms = json.load(open(os.path.join(d, "list.json")))
    res = os.path.join(d, "res.txt")
    for k in range(lo, min(hi, len(ms))):
        m = ms[k]
        left = 200
        hit = None
        tried = []
        for c in related(m):
            if COST.get(c, 50) > left:
                continue
            left -= COST.get(c, 50)
            tried.append(c)
            try:
                r = subprocess.run(["python3-vt", "check.py", c], cwd=VERIF, env=dict(os.environ, VERIF_REPO=m["dir"]), capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                hit = c + " TIMEOUT"
                break
            if r.returncode != 0:
                hit = c + ("" if "VIOLATION property=%s" % c in r.stdout else " rc=%d" % r.returncode)
                break
        with open(res, "a") as f:
            f.write("%d %s %s:%d %s | %s -> %s | tried %s\n" % (k, "caught " + hit if hit else "SURVIVED", m["file"], m["line"], m["func"], m["old"].replace("\n", " "), m["new"].replace("\n", " "), " ".join(tried)))


if sys.argv[1] == "make":
    make(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4])
else:
    run(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]))
