"""Picks concrete years that between them show every rare constellation of terms and months (not part of any check).
python3 tools/cover.py  prints the list kept in harness/lun.py as COVER"""
import sys
sys.path[:0] = ["/repo", "/verif/harness"]
from lunar_python import LunarYear, Solar, Lunar
import cal
import lun


def features(y):
    f = set()
    ly = LunarYear.fromYear(y)
    ms = ly.getMonths()
    first = {}
    for m in ms:
        t = Solar.fromJulianDay(m.getFirstJulianDay())
        n = cal.jdn(t.getYear(), t.getMonth(), t.getDay())
        first[n] = (m.getYear(), m.getMonth(), m.getDayCount())
        if m.getYear() == y:
            if m.getMonth() < 0:
                f.add(("leap", m.getMonth(), m.getDayCount()))
            elif m.getMonth() == 1:
                ny = n
                f.add(("new year", t.getMonth(), t.getDay()))
            if m.getMonth() in (12, -12):
                f.add(("end", m.getMonth(), m.getDayCount(), ly.getLeapMonth() != 0))
    starts = sorted(first)
    ts = lun.terms(y)
    prev = None
    for i, (name, n, sec) in enumerate(ts):
        p = [s for s in starts if s <= n]
        if not p or i == 0 or i > 25:
            continue
        s = p[-1]
        d = n - s + 1
        c = first[s][2]
        if d in (1, 2, 15) or d >= c:
            f.add((name, "day", "last%d" % c if d == c else d))
        if first[s][1] < 0:
            f.add((name, "in leap"))
        h = sec // 3600
        f.add((name, "hour", (h + 1) // 2 % 12 if h < 23 else 23))
        if sec < 60 or sec >= 86340:
            f.add((name, "edge", sec < 60))
        if sec % 3600 < 10:
            f.add((name, "full hour"))
        if sec % 60 == 0:
            f.add((name, "full minute"))
        gz = (n + 49) % 60
        if name in ("夏至", "冬至", "立春", "立秋"):
            f.add((name, "gan", gz % 10))
        if name in ("夏至", "冬至"):
            f.add((name, "gz", gz, i > 20))
        if name in ("立春", "立秋", "春分", "秋分", "立夏", "立冬"):
            f.add((name, "zhi", gz % 12))
        if name == "立春":
            f.add(("lichun", (n > ny) - (n < ny)))
            if n == ny:
                f.add(("lichun on new year", h // 6))
            if n - ny in (1, -1):
                f.add(("lichun next to new year", n - ny))
        if name == "夏至":
            xz = n
            gx = gz
        if name == "立秋":
            f.add(("fu", n - xz, gx % 10))
            third = xz + (6 - gx) % 10 + 20
            f.add(("third geng to autumn", third + 10 - n if -12 < third + 10 - n < 12 else 0))
        if prev is not None:
            f.add((name, "gap", n - prev))
        prev = n
    f.add(("year pillar", y % 60))
    f.add(("cycle 180", y % 180 // 20, y % 9))
    j = cal.jdn(y, 1, 1)
    f.add(("jan 1", (j + 1) % 7, cal.jdn(y, 12, 31) - j))
    return f


def main():
    feats = {}
    lo, hi = 1646, 2300
    for y in range(1646, 2300):
        feats[y] = features(y)
    for y in list(range(250, 1640, 3)) + list(range(2300, 9990, 7)):
        feats[y] = features(y)
    import collections
    cnt = collections.Counter(x for f in feats.values() for x in f)
    want = {x for x, c in cnt.items() if c > 3}
    base = set(lun.SPECIAL)
    for y in base:
        if 1 <= y <= 9998:
            want -= features(y)
    print(len(cnt), "features;", len(want), "not shown by the special years", file=sys.stderr)
    out = []
    while want:
        y = max(feats, key=lambda y: (len(feats[y] & want), 1900 <= y <= 2100, -abs(y - 2000)))
        g = feats[y] & want
        if not g:
            break
        out.append((y, len(g)))
        want -= g
        print(y, len(g), len(want), file=sys.stderr)
    print([y for y, _ in out])


main()
