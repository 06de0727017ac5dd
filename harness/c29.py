"""The cached lunar year: every caller gets the year asked for, whatever was asked before, failed, or runs meanwhile."""
from lunar_python import LunarYear, Lunar, Solar
import cal
import lun
import threads

MEMO_YEARS = False
OUTSIDE = "more than one preemption of a call; preemption inside the computation of a year's tables"
ASSUMPTIONS = ["the computation of a year's months is replaced by nothing (it reads no shared state); locks are replaced by models that report instead of blocking",
               "a call that finds the lock taken is taken up again after the other call has ended"]
STEPS = 40
YEARS = (5, 239, 700, 1582, 2017, 2020, 2033, 9000)


def bounds(tier):
    return "tables: every ordered pair of the years %s, every symbolic position; all years 1..9999 (symbolic) in histories of up to five calls, one of which may fail; two threads, the first preempted once before any of its first %d lines, the second running one or two calls" % (YEARS, STEPS)


def tasks(tier, info):
    out = [dict(name="history %d" % k, fn="h_history", params=dict(bad=k)) for k in range(-1, 4)]
    out.append(dict(name="tables", fn="h_tables", params=dict()))
    for warm in (0, 1):
        for k in range(0, STEPS, 8):
            out.append(dict(name="preempted from %d warm %d" % (k, warm), fn="h_two", params=dict(lo=k + 1, hi=k + 8, warm=warm)))
    return out


def nothing(self):
    pass


def begin():
    LunarYear.compute = nothing
    threads.model_locks(LunarYear)


def same(ctx, o, y, label):
    ctx.check(o is not None, label)
    ctx.check_eq((o.getYear(), o.getGanIndex(), o.getZhiIndex()), (y, (y - 4) % 10, (y - 4) % 12), label)


def h_history(ctx, bad):
    begin()
    for i in range(4):
        y = ctx.int("y%d" % i, 1, 9999)
        if i == bad:
            failed = False
            try:
                LunarYear.fromYear(None)
            except TypeError:
                failed = True
            except threads.Blocked:
                pass
            ctx.check(failed, "a year that is none is refused")
        o = None
        try:
            o = LunarYear.fromYear(y)
        except threads.Blocked:
            pass
        ctx.check(o is not None, "a call does not wait for a lock that nobody will release")
        if o is None:
            return
        same(ctx, o, y, "the year asked for, whatever was asked before")
    p = o.next(ctx.int("n", -9, 9))
    same(ctx, o, y, "a year handed out does not change afterwards")


def h_two(ctx, lo, hi, warm):
    begin()
    a, b = ctx.int("a", 1, 9999), ctx.int("b", 1, 9999)
    if warm == 1:
        LunarYear.fromYear(ctx.int("w", 1, 9999))
    calls = ctx.int("calls", 1, 2, True)
    step = ctx.int("step", lo, hi, True)
    got = []

    def other():
        try:
            for i in range(calls):
                got.append(LunarYear.fromYear(b if i == 0 else a - b))
        except threads.Blocked:
            got.clear()

    p = threads.Preempt("LunarYear.py", step, other)
    o = p.run(lambda: LunarYear.fromYear(a))
    same(ctx, o, a, "the year asked for, whatever another thread asks meanwhile")
    if not p.fired:
        return
    if len(got) == 0:
        other()
    ctx.check(len(got) == calls, "the other thread gets its turn")
    for i in range(len(got)):
        same(ctx, got[i], b if i == 0 else a - b, "the other thread gets the year it asked for")
    same(ctx, LunarYear.fromYear(b), b, "later calls are not affected")
    same(ctx, o, a, "a year handed out does not change afterwards")


def tables(o):
    return list(o.getJieQiJulianDays()), [(x.getYear(), x.getMonth(), x.getDayCount(), x.getFirstJulianDay(), x.getIndex()) for x in o.getMonths()]


def h_tables(ctx):
    """the terms and months of a year kept by a caller, while other years are asked for"""
    a, b = ctx.pick("a", YEARS), ctx.pick("b", YEARS)
    o = LunarYear.fromYear(a)
    t, m = tables(o)
    ctx.check_eq((len(t), len(m)), (31, 15), "a year has its terms and months")
    p = LunarYear.fromYear(b)
    Solar.fromYmd(b, 6, 15).getLunar()
    t2, m2 = tables(o)
    ctx.check_eq((t2, m2), (t, m), "the tables of a year handed out do not change afterwards")
    r, q = tables(LunarYear.fromYear(a))
    ctx.check_eq((r, q), (t, m), "asked again, a year has the same tables")
    c = LunarYear(a)
    r, q = tables(c)
    ctx.check_eq((r, q), (t, m), "a year made anew has the same tables")
