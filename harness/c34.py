"""Solar terms fall where the sun is, lunar months begin with the new moon."""
from lunar_python import LunarYear
import astro
import cal
import lun

OUTSIDE = "errors of the library's series below the tolerance (9 minutes for terms, 2.5 minutes between neighbouring terms, 7 minutes between a term and the same term a year later, and 3 minutes for new moons around 2000, growing with the drift of the textbook series)"
ASSUMPTIONS = ["the library's trigonometric series are evaluated natively for each concrete year; the textbook series of the harness are the oracle"]


def bounds(tier):
    return "every solar term and every month of every lunar year 1..9998"


def tasks(tier, info):
    return [dict(name="years %d.." % c[0], fn="h_sky", params=dict(years=c)) for c in lun.chunks(range(1, 9999), 80)]


def pick(ctx, i, values):
    """the i-th value, for a symbolic i"""
    out = values[0]
    for j in range(1, len(values)):
        out = ctx.ite(i == j, values[j], out)
    return out


def h_sky(ctx, years):
    year = ctx.pick("year", years)
    ts = lun.terms(year)
    err = []
    for j in range(31):
        err.append(astro.term_error(ts[j][1], ts[j][2], year, (255 + 15 * j) % 360))
    nx = lun.terms(year + 1)
    for j in range(7):
        ctx.check(nx[j] == ts[24 + j], "neighbouring years agree on the terms they share")
    after = []
    for j in range(31):
        after.append(astro.term_error(nx[j][1], nx[j][2], year + 1, (255 + 15 * j) % 360))
    i = ctx.int("i", 0, 30)
    e = pick(ctx, i, err)
    n = pick(ctx, i, [t[1] for t in ts])
    tol = astro.term_tolerance(year) * 100
    ctx.check(ctx.And(e >= -tol, e <= tol), "at each term the sun has the term's longitude")
    near, far = astro.step_tolerance(year)
    near = int(near * 100)
    far = int(far * 100)
    g = e - pick(ctx, i, err[1:] + err[30:])
    ctx.check(ctx.And(g >= -near, g <= near), "the error changes little from a term to the next")
    g = e - pick(ctx, i, after)
    ctx.check(ctx.And(g >= -far, g <= far), "the error changes little from a term to the same term a year later")
    lo = cal.jdn(year, 1, 1)
    ctx.check(ctx.And(n >= lo - 45, n <= lo + 365 + 80), "the terms are those of the year, from 大雪 before to 惊蛰 after it")
    ms = LunarYear.fromYear(year).getMonths()
    ctx.check(len(ms) == 15, "fifteen months")
    k = ctx.int("k", 0, 14)
    first = [int(x.getFirstJulianDay()) for x in ms]
    f = pick(ctx, k, first)
    t = pick(ctx, k, [astro.new_moon(a, year) for a in first])
    tol = astro.moon_tolerance(year)
    ctx.check(ctx.And(t >= f * 1440 - tol, t < f * 1440 + 1440 + tol), "each month begins on the civil day (Beijing) of its new moon")
    w = lun.terms(year)[1][1]
    if year >= 1645:
        ctx.check(int(ms[0].getFirstJulianDay()) <= w + 1, "the first month listed holds the winter solstice")
