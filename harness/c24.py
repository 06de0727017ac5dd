"""From eight characters back to civil moments."""
from lunar_python import Solar, Lunar
import cal
import lun

OUTSIDE = "years not listed; moments after the current year"
ASSUMPTIONS = ["term instants come from the library's own series (native evaluation per concrete year)"]
YEARS = {"quick": (1901, 1960, 1984, 1988, 2012, 2023), "thorough": tuple(range(1900, 2025))}


def bounds(tier):
    return "every second of the concrete years %s (month and double hour forked, day, minute and second symbolic), both schools; and every day pillar with chosen year, month and hour pillars" % (YEARS[tier] if tier == "quick" else "1900..2024",)


def tasks(tier, info):
    out = []
    for y in YEARS[tier]:
        for s in (1, 2):
            for m in (1, 4, 7, 10):
                out.append(dict(name="back %d-%d school %d" % (y, m, s), fn="h_back", params=dict(year=y, month=m, sect=s)))
    for y in (0, 4, 17, 40, 59) if tier == "quick" else range(60):
        for s in (1, 2):
            out.append(dict(name="sound %d school %d" % (y, s), fn="h_sound", params=dict(yi=y, sect=s)))
    return out


def order(s):
    return (cal.jdn(s.getYear(), s.getMonth(), s.getDay()) * 24 + s.getHour() + 1) // 2


def chars(s, sect):
    e = s.getLunar().getEightChar()
    if sect == 1:
        e.setSect(1)
    return e.getYear(), e.getMonth(), e.getDay(), e.getTime()


def h_back(ctx, year, month, sect):
    y, m, d = lun.day(ctx, year, month + ctx.int("dm", 0, 2, True))
    slot = ctx.int("slot", 0, 12, True)
    if slot == 0:
        h = 0
    elif slot == 12:
        h = 23
    else:
        h = 2 * slot - ctx.int("half", 0, 1)
    mi, s = ctx.int("mi", 0, 59), ctx.int("s", 0, 59)
    a = Solar.fromYmdHms(y, m, d, h, mi, s)
    e = chars(a, sect)
    found = Solar.fromBaZi(e[0], e[1], e[2], e[3], sect, year - 1)
    t = order(a)
    ctx.check(ctx.Or(False, *[order(x) == t for x in found]), "a moment's eight characters lead back to its double hour")
    ctx.check_eq(len(found), len(set([x.getYear() // 30 for x in found])), "one moment per sixty years")


def h_sound(ctx, yi, sect):
    mi = ctx.int("month", 0, 11, True)
    fit = ctx.int("fit", 0, 1, True)
    # the month stem follows from the year stem; the other half of the cases break that
    g = (yi % 5 * 2 + 2 + mi) % 10
    month = lun.GAN[(g + 2 - 2 * fit) % 10] + lun.ZHI[(mi + 2) % 12]
    k = ctx.int("day", 0, 59)
    z = ctx.pick("hour", (0, 1, 11))
    time = lun.GAN[(k % 10 % 5 * 2 + z) % 10] + lun.ZHI[z]
    found = Solar.fromBaZi(lun.GZ[yi], month, lun.GZ[k], time, sect, 1900)
    if fit == 0:
        ctx.check(len(found) == 0, "no moment for a month stem that the year does not allow")
    for x in found:
        ctx.check_eq(chars(x, sect), (lun.GZ[yi], month, lun.GZ[k], time), "every moment found has the eight characters asked for")
        ctx.check(x.getYear() >= 1900, "no moment before the base year")
