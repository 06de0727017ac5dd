"""Solar terms: the current term of a day, and the nearest earlier and later ones of each kind."""
from lunar_python import Solar, Lunar
import cal
import lun

OUTSIDE = "years not listed"
ASSUMPTIONS = ["term instants come from the library's own series (native evaluation per concrete year)"]


def ylist(tier, info):
    ys = lun.years(tier, info)
    return ys[::2] if tier == "quick" else ys


def bounds(tier):
    return "every second of the chosen concrete years (month forked, day and time symbolic)"


def tasks(tier, info):
    return [dict(name="years %d.." % c[0], fn="h_jq", params=dict(years=c)) for c in lun.chunks(ylist(tier, info), 3)]


def key(s):
    return lun.moment(cal.jdn(s.getYear(), s.getMonth(), s.getDay()), s.getHour() * 3600 + s.getMinute() * 60 + s.getSecond())


def last(ctx, ts, t, whole):
    """index (in ts) of the last term at or before t"""
    i = -1
    for x in ts:
        i = i + ctx.ite(t >= (x[1] if whole else lun.moment(x[1], x[2])), 1, 0)
    return i


def h_jq(ctx, years):
    year = ctx.pick("year", years)
    y, m, d = lun.day(ctx, year)
    h, mi, s = lun.clock(ctx)
    kind = ctx.int("kind", 0, 2, True)
    whole = ctx.int("whole", 0, 1, True) == 1
    l = Solar.fromYmdHms(y, m, d, h, mi, s).getLunar()
    n = cal.jdn(y, m, d)
    ts = lun.terms(year)
    if kind == 0:
        name, cur, pr, nx = l.getJieQi(), l.getCurrentJieQi(), l.getPrevJieQi(whole), l.getNextJieQi(whole)
    elif kind == 1:
        ts = ts[::2]
        name, cur, pr, nx = l.getJie(), l.getCurrentJie(), l.getPrevJie(whole), l.getNextJie(whole)
    else:
        ts = ts[1::2]
        name, cur, pr, nx = l.getQi(), l.getCurrentQi(), l.getPrevQi(whole), l.getNextQi(whole)
    t = n if whole else lun.moment(n, h * 3600 + mi * 60 + s)
    i = ctx.split(last(ctx, ts, t, whole))
    ctx.check(pr is not None and nx is not None, "there is an earlier and a later term")
    if pr is None or nx is None:
        return
    ctx.check_eq((pr.getName(), key(pr.getSolar())), (ts[i][0], lun.moment(ts[i][1], ts[i][2])), "the previous term is the latest one at or before the moment")
    ctx.check_eq((nx.getName(), key(nx.getSolar())), (ts[i + 1][0], lun.moment(ts[i + 1][1], ts[i + 1][2])), "the next term is the earliest one after the moment")
    ctx.check_eq((pr.isJie(), pr.isQi()), (lun.TERMS.index(ts[i][0]) % 2 == 1, lun.TERMS.index(ts[i][0]) % 2 == 0), "a term is a 节 or a 气, never both")
    i = last(ctx, ts, n, True)
    want = ""
    for x in ts:
        want = ctx.ite(x[1] == n, x[0], want)
    ctx.check(name == want, "the term name of a day is that of the term falling on it")
    if cur is None:
        ctx.check(want == "", "no current term only on days without one")
    else:
        ctx.check(cur.getName() == want, "the current term is the one falling on the day")
        ctx.check_eq(cal.ymd(cur.getSolar()), (y, m, d), "the current term lies on the day")
