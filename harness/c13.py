"""Stepping a lunar month by n moves n places in the sequence of lunar months."""
from lunar_python import LunarYear, LunarMonth
import cal
import lun

OUTSIDE = "start years not listed; steps beyond the bound; results before year 1 or after year 9999"
ASSUMPTIONS = ["new moon days come from the library's own series (native evaluation per concrete year)"]


# mostly years with a leap month whose place slips against the nineteen-year cycle
FAR = (1574, 1642, 1653, 1850, 1984, 2014, 2033, 2101, 5000)


def span(tier):
    return 16 if tier == "quick" else 70


def ylist(tier, info):
    return lun.years(tier, info, 24, 4000, 1, 9999)


def bounds(tier):
    return "every month of the chosen concrete years, every step n with |n| <= %d (symbolic), month and year steps; every |n| <= 400 from the months around the leap month of each of the years %s" % (span(tier), FAR if tier == "quick" else "5, 102 .. 9996")


def tasks(tier, info):
    out = [dict(name="years %d.." % c[0], fn="h_next", params=dict(years=c, span=span(tier))) for c in lun.chunks(ylist(tier, info), 6)]
    ys = FAR if tier == "quick" else FAR + tuple(range(5, 9990, 97))
    for y in ys:
        for i in range(3):
            for lo in range(-400, 400, 200):
                out.append(dict(name="far %d %d %d" % (y, i, lo), fn="h_far", params=dict(year=y, i=i, lo=lo, hi=lo + 200)))
    return out


# labels of the months of a year (all concrete), kept to save time
LABELS = {}


def lab(x):
    return (x.getYear(), x.getMonth(), x.getDayCount(), x.getFirstJulianDay(), x.getIndex())


def h_next(ctx, years, span):
    year = ctx.pick("year", years)
    if ctx.int("part", 0, 1, True) == 1:
        k = ctx.int("k", -9, 9)
        if year + k >= 1 and year + k <= 9999:
            ctx.check(LunarYear.fromYear(year).next(k).getYear() == year + k, "stepping a lunar year")
        return
    own = LunarYear.fromYear(year).getMonthsInYear()
    step(ctx, year, own[ctx.int("i", 0, len(own) - 1, True)], -span, span)


def h_far(ctx, year, i, lo, hi):
    own = LunarYear.fromYear(year).getMonthsInYear()
    leap = [k for k in range(len(own)) if own[k].isLeap()]
    k = leap[0] - 1 if len(leap) > 0 else 5
    step(ctx, year, own[min(k + i, len(own) - 1)], lo, hi)


def step(ctx, year, a, lo, span):
    w = max(abs(lo), span) // 12 + 2
    seq = []
    for y in range(max(1, year - w), min(9999, year + w) + 1):
        if y not in LABELS:
            LABELS[y] = [lab(x) for x in LunarYear.fromYear(y).getMonthsInYear()]
        seq = seq + LABELS[y]
    i = 0
    while seq[i] != lab(a):
        i = i + 1
    n = ctx.int("n", lo, span)
    ctx.assume(ctx.And(i + n >= 0, i + n < len(seq)))
    b = LunarMonth.fromYm(year, a.getMonth()).next(n)
    ctx.check(b is not None, "the stepped month exists")
    if b is None:
        return
    want = [0, 0, 0, 0, 0]
    for k in range(5):
        want[k] = [x[k] for x in seq][i + n]
    ctx.check_eq((b.getYear(), b.getMonth()), (want[0], want[1]), "stepping by n moves n places in the sequence of months")
    ctx.check_eq(lab(b), want, "the stepped month is the month found by its label")
