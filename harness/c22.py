"""Stepping by working days."""
from lunar_python import Solar
from lunar_python.util import HolidayUtil
import cal
import copy

OUTSIDE = "longer steps, other corrections of the holiday records than those listed (C21 tells how corrections work)"
ASSUMPTIONS = ["holiday records are those reported by HolidayUtil.getHolidays for 1998..2030 (checked against the other queries by C21)"]
STEPS = {"quick": (-5, -1, 0, 1, 6), "thorough": (-23, -15, -11, -10, -9, -8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 23)}
# years without records: the first ones, ones whose digits begin a date that has a record, the reform, the far future
FAR = {"quick": ((2, -7), (20, 5), (200, -1), (201, 1), (1582, 8), (1582, -10), (2060, 10), (2060, -15), (9997, 7)),
       "thorough": tuple((y, n) for y in (2, 3, 20, 21, 199, 200, 201, 202, 203, 1000, 1582, 1583, 1900, 1997, 2031, 2060, 2100, 5000, 9996) for n in (-15, -10, -7, -5, -1, 1, 5, 7, 10, 15))}
# corrections: a day made free, a day made working, a record taken away, one far away, and several
FIXES = ("202706150020270615"[:9] + "120270615", "202706120020270612", "20200501~000000000", "209906150120990615", "202011220020201122202011230120201123" + "20201001~000000000")
AFTER = ((2027, 6), (2027, 6), (2020, 5), (2099, 6), (2020, 11))


def bounds(tier):
    return "every start day of years 1998..2030 (month forked, day symbolic), steps %s; of %d years without records with steps %s; and of the months around %d corrections" % (STEPS[tier], len(set(y for y, n in FAR[tier])), sorted(set(n for y, n in FAR[tier])), len(FIXES))


def tasks(tier, info):
    out = [dict(name="year %d step %d" % (y, n), fn="h_work", params=dict(year=y, step=n)) for y in range(1998, 2031) for n in STEPS[tier]]
    out += [dict(name="far %d step %d" % f, fn="h_work", params=dict(year=f[0], step=f[1])) for f in FAR[tier]]
    for i in range(len(FIXES)):
        out.append(dict(name="fixed %d" % i, fn="h_fixed", params=dict(i=i, steps=(-6, -1, 1, 3) if tier == "quick" else (-12, -6, -3, -2, -1, 1, 2, 3, 6, 12))))
    return out


FIRST = {}
for _k, _v in list(vars(HolidayUtil).items()):
    if isinstance(_v, (str, tuple, list, dict)) and not _k.startswith("__"):
        FIRST[_k] = copy.deepcopy(_v)


def reset():
    """undo the corrections of an earlier path"""
    for k in FIRST:
        setattr(HolidayUtil, k, copy.deepcopy(FIRST[k]))


def records():
    """day number -> worked or free, of every record"""
    out = {}
    for y in range(1998, 2031):
        for h in HolidayUtil.getHolidays(y):
            t = h.getDay()
            out[cal.jdn(int(t[0:4]), int(t[5:7]), int(t[8:10]))] = h.isWork()
    return out


RECORDS = records()


def working(year, marked):
    """working days of the year and its surroundings: weekdays that are no holiday, and days marked as worked"""
    out = []
    for n in range(max(cal.jdn(year, 1, 1) - 60, cal.jdn(1, 1, 1)), cal.jdn(year, 12, 31) + 60):
        if n in marked:
            if marked[n]:
                out.append(n)
        elif (n + 1) % 7 not in (0, 6):
            out.append(n)
    return out


def h_fixed(ctx, i, steps):
    """corrected records count"""
    reset()
    marked = dict(RECORDS)
    HolidayUtil.fix(None, FIXES[i])
    text = FIXES[i]
    while len(text) >= 18:
        n = cal.jdn(int(text[0:4]), int(text[4:6]), int(text[6:8]))
        if text[8] == "~":
            marked.pop(n, None)
        else:
            marked[n] = text[9] == "0"
        text = text[18:]
    y, m = AFTER[i]
    step = ctx.pick("step", steps)
    m = m + ctx.int("dm", -1, 0, True) * (1 if step > 0 else -1)
    work(ctx, y, m, ctx.int("d", 1, cal.month_len(y, m)), step, marked)
    reset()


def h_work(ctx, year, step):
    y, m, d = cal.date(ctx, "", y=year)
    reset()
    work(ctx, y, m, d, step, RECORDS)


def work(ctx, y, m, d, step, marked):
    days = working(y, marked)
    # target day for each start day of the month
    want = []
    gap = (y, m) == (1582, 10)
    for k in range(1, (31 if gap else cal.month_len(y, m)) + 1):
        n = cal.jdn(y, m, k if not gap or k <= 4 or k >= 15 else 4)
        if step > 0:
            want.append([x for x in days if x > n][step - 1])
        elif step < 0:
            want.append([x for x in days if x < n][step])
        else:
            want.append(n)
    s = Solar.fromYmdHms(y, m, d, 11, 22, 33).next(step, True)
    ctx.check(cal.jdn(s.getYear(), s.getMonth(), s.getDay()) == tuple(want)[d - 1], "lands on the n-th working day")
    ctx.check_eq(cal.hms(s), (11, 22, 33), "the time of day is kept")
