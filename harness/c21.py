"""Statutory holidays: every query tells the same story, before and after corrections."""
from lunar_python.util import HolidayUtil
import copy

OUTSIDE = "longer histories of corrections, years outside 1998..2030 other than those listed"
ASSUMPTIONS = []

FIRST = {}
for _k, _v in list(vars(HolidayUtil).items()):
    if isinstance(_v, (str, tuple, list, dict)) and not _k.startswith("__"):
        FIRST[_k] = copy.deepcopy(_v)


def reset():
    """undo the corrections of an earlier path"""
    for k in FIRST:
        setattr(HolidayUtil, k, copy.deepcopy(FIRST[k]))


# corrections: changed, removed and added days, before, between and after the existing records
EDITS = ("201001010120100101", "20100101~000000000000000000000000000"[:18], "202001010020200101", "200001010120000101", "202005020320200501", "202005070320200501", "202703050120270301",
         "202703060120270301", "20261001~000000000", "201904050120190405201904060020190405", "20200101~00000000020200101620200101", "199912310120000101")
# several corrections of one day in one call: added and changed, added and removed, changed and removed, removed and added
TWICE = ("203101010120310101203101011020310101", "203101010120310101" + "20310101~000000000", "202005020020200501" + "20200502~000000000", "20200502~000000000" + "202005021020200501")
NAMES = HolidayUtil.NAMES
# other lists of names: translated, with a name used twice, and with more than ten names
LISTS = (tuple("abcdefghi"), tuple("abcdefaai"), tuple("abcdefghijklm"))
FAR = (2, 1, 3, 20, 19, 21, 200, 199, 202, 201, 203, 220, 999, 100, 1582, 2031, 1000, 1997, 9999, 2032, 2200)
MONTHS = (1, 2, 3, 4, 5, 6, 9, 10, 12)


def bounds(tier):
    return "every day of years 1998..2030 and of some years without records (the first ones, ones whose digits begin a recorded date, 1582, the far future) by symbolic day; after every single correction of a list of %d, and every ordered pair of them, after several corrections of one day in one call, and under %d other lists of names, the days, months, years and targets those touch" % (len(EDITS), len(LISTS))


def tasks(tier, info):
    out = [dict(name="records %d" % y, fn="h_records", params=dict(year=y)) for y in range(1998, 2031)]
    for i in range(len(EDITS)):
        js = range(len(EDITS)) if tier != "quick" else [(i + k) % len(EDITS) for k in (0, 1, 5)]
        out.append(dict(name="edit %d" % i, fn="h_edit", params=dict(i=i, js=tuple(js))))
    out.append(dict(name="twice", fn="h_twice", params=dict()))
    for i in range(len(LISTS)):
        out.append(dict(name="names %d" % i, fn="h_names", params=dict(i=i)))
    for y in FAR:
        out.append(dict(name="far %d" % y, fn="h_far", params=dict(year=y)))
    return out


def h_far(ctx, year):
    """years without records have no holidays, whatever dates their digits begin"""
    reset()
    m = ctx.int("m", 1, 12, True)
    d = ctx.int("d", 1, 31)
    q = ctx.int("q", 0, 3, True)
    if q == 0:
        ctx.check(HolidayUtil.getHoliday(year, m, d) is None, "a day without a record has no holiday")
    elif q == 1:
        ctx.check(HolidayUtil.getHoliday("%04d-%s-%s" % (year, pad(m), pad(d))) is None, "a day without a record has no holiday")
    elif q == 2:
        ctx.check(len(HolidayUtil.getHolidaysByTarget(year, m, d)) == 0, "only days that are the target of a record have such days")
    else:
        ctx.check(len(HolidayUtil.getHolidays(year)) == 0 and len(HolidayUtil.getHolidays(year, m)) == 0, "a year without records lists none")


def flat(h):
    return (h.getDay(), h.getName(), bool(h.isWork()), h.getTarget())


def dash(s):
    return s[0:4] + "-" + s[4:6] + "-" + s[6:8]


def all_records():
    out = []
    for y in range(1998, 2031):
        for h in HolidayUtil.getHolidays(y):
            out.append(flat(h))
    return out


def pad(n):
    return ("0" if n < 10 else "") + str(n)


def expect_day(ctx, recs, y, m, d, how):
    """the answer for a day of a concrete month is the record of that day, or nothing"""
    if how == 0:
        h = HolidayUtil.getHoliday(y, m, d)
    else:
        h = HolidayUtil.getHoliday("%d-%s-%s" % (y, pad(m), pad(d)))
    mine = [r for r in recs if r[0][0:7] == "%d-%s" % (y, pad(m))]
    hit = ctx.Or(False, *[d == int(r[0][8:10]) for r in mine])
    if h is None:
        ctx.check(ctx.Not(hit), "a day without a record has no holiday")
    else:
        ctx.check(hit, "only days with a record have a holiday")
        for r in mine:
            if d == int(r[0][8:10]):
                ctx.check_eq(flat(h), r, "the record of the day")


def lists(ctx, recs, y, m):
    """what a year and a month list"""
    ctx.check_eq(sorted([flat(h) for h in HolidayUtil.getHolidays(y)]), [r for r in recs if r[0][0:4] == str(y)], "a year lists its records")
    ctx.check_eq(sorted([flat(h) for h in HolidayUtil.getHolidays(y, m)]), [r for r in recs if r[0][0:7] == "%d-%s" % (y, pad(m))], "a month lists its records")


def target(ctx, recs, y, m, d):
    """the days that belong to the holiday on a day of a concrete month"""
    got = HolidayUtil.getHolidaysByTarget(y, m, d)
    days = sorted(set(r[3] for r in recs if r[3][0:7] == "%d-%s" % (y, pad(m))))
    hit = ctx.Or(False, *[d == int(t[8:10]) for t in days])
    ctx.check(hit if len(got) > 0 else ctx.Not(hit), "only days that are the target of a record have such days")
    if len(got) > 0:
        for t in days:
            if d == int(t[8:10]):
                ctx.check_eq(sorted([flat(h) for h in got]), [r for r in recs if r[3] == t], "a holiday lists the days that belong to it")


def h_records(ctx, year):
    reset()
    recs = all_records()
    m = ctx.int("m", 1, 12, True)
    d = ctx.int("d", 1, 31)
    how = ctx.int("how", 0, 2, True)
    if how < 2:
        expect_day(ctx, recs, year, m, d, how)
    else:
        mine = [r for r in recs if r[0][0:4] == str(year)]
        ctx.check_eq(mine, sorted(mine), "records of a year come in order of days")
        lists(ctx, recs, year, m)
        target(ctx, recs, year, m, d)


def apply(recs, text, names=NAMES):
    out = dict((r[0], r) for r in recs)
    while len(text) >= 18:
        s = text[0:18]
        k = dash(s)
        if s[8] == "~":
            out.pop(k, None)
        else:
            out[k] = (k, names[ord(s[8]) - 48], s[9] == "0", dash(s[10:18]))
        text = text[18:]
    return sorted(out.values())


def h_edit(ctx, i, js):
    reset()
    recs = all_records()
    j = ctx.pick("j", js)
    for k in (i, j):
        HolidayUtil.fix(None, EDITS[k])
        recs = apply(recs, EDITS[k])
    k = ctx.pick("k", (i, j))
    q = ctx.int("q", 0, 2, True)
    d = ctx.int("d", 1, 31)
    text = EDITS[k]
    y, m = int(text[0:4]), int(text[4:6])
    if q == 0:
        lists(ctx, recs, y, m)
    elif q == 1:
        expect_day(ctx, recs, y, m, d, 0)
    elif text[8] != "~":
        target(ctx, recs, int(text[10:14]), int(text[14:16]), d)
    reset()


def h_twice(ctx):
    """corrections given in one call work like corrections given one after the other"""
    reset()
    recs = all_records() + []
    i = ctx.pick("i", (0, 1, 2, 3))
    HolidayUtil.fix(None, TWICE[i])
    recs = apply(recs, TWICE[i])
    d = ctx.int("d", 1, 31)
    y, m = int(TWICE[i][0:4]), int(TWICE[i][4:6])
    q = ctx.int("q", 0, 2, True)
    if q == 0:
        lists(ctx, recs, y, m)
    elif q == 1:
        expect_day(ctx, recs, y, m, d, 0)
    else:
        target(ctx, recs, y, m, d)
    reset()


def h_names(ctx, i):
    """other names for the holidays: every query uses them, and corrections still find their day"""
    reset()
    ns = LISTS[i]
    at = dict((NAMES[k], ns[k]) for k in range(len(NAMES)))
    recs = all_records()
    text = ctx.pick("text", ("", "20200501~000000000", "202005021020200501", "201910070020191001", "20310101" + chr(48 + len(ns) - 1) + "120310101"))
    now = ctx.int("now", 0, 1, True)
    if now == 1:
        HolidayUtil.fix(list(ns), text)
    else:
        HolidayUtil.fix(list(ns), None)
        HolidayUtil.fix(None, text)
    recs = apply([(r[0], at[r[1]], r[2], r[3]) for r in recs], text, ns)
    d = ctx.int("d", 1, 31)
    y, m = (int(text[0:4]), int(text[4:6])) if text != "" else (2020, 10)
    q = ctx.int("q", 0, 2, True)
    if q == 0:
        lists(ctx, recs, y, m)
    elif q == 1:
        expect_day(ctx, recs, y, m, d, 0)
    else:
        target(ctx, recs, y, m, d)
    reset()
