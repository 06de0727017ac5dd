"""Seasonal counts: nine nines, dog days, pentads."""
from lunar_python import Solar
import cal
import lun

OUTSIDE = "years not listed"
ASSUMPTIONS = ["term instants come from the library's own series (native evaluation per concrete year)"]

NINES = "一二三四五六七八九"
# the seventy-two pentads, by term beginning with the winter solstice
SIGNS = """蚯蚓结 麋角解 水泉动,雁北乡 鹊始巢 雉始雊,鸡始乳 征鸟厉疾 水泽腹坚,东风解冻 蛰虫始振 鱼陟负冰,獭祭鱼 候雁北 草木萌动,桃始华 仓庚鸣 鹰化为鸠,
玄鸟至 雷乃发声 始电,桐始华 田鼠化为鴽 虹始见,萍始生 鸣鸠拂奇羽 戴胜降于桑,蝼蝈鸣 蚯蚓出 王瓜生,苦菜秀 靡草死 麦秋至,螳螂生 鵙始鸣 反舌无声,
鹿角解 蜩始鸣 半夏生,温风至 蟋蟀居壁 鹰始挚,腐草为萤 土润溽暑 大雨行时,凉风至 白露降 寒蝉鸣,鹰乃祭鸟 天地始肃 禾乃登,鸿雁来 玄鸟归 群鸟养羞,
雷始收声 蛰虫坯户 水始涸,鸿雁来宾 雀入大水为蛤 菊有黄花,豺乃祭兽 草木黄落 蛰虫咸俯,水始冰 地始冻 雉入大水为蜃,虹藏不见 天气上升地气下降 闭塞而成冬,鹖鴠不鸣 虎始交 荔挺出"""
SIGN = tuple(tuple(t.split()) for t in SIGNS.split(","))


def bounds(tier):
    return "every day of the chosen concrete years (month forked, day symbolic), the time of day symbolic"


def tasks(tier, info):
    ys = lun.years(tier, info, 72)
    out = []
    for c in lun.chunks(ys, 4):
        out.append(dict(name="nines %d.." % c[0], fn="h_nines", params=dict(years=c)))
        out.append(dict(name="dog days %d.." % c[0], fn="h_dog", params=dict(years=c)))
        out.append(dict(name="pentads %d.." % c[0], fn="h_pentad", params=dict(years=c)))
    return out


def start(ctx, years):
    year = ctx.pick("year", years)
    y, m, d = lun.day(ctx, year)
    h, mi, s = lun.clock(ctx)
    return year, cal.jdn(y, m, d), Solar.fromYmdHms(y, m, d, h, mi, s).getLunar()


def h_nines(ctx, years):
    """nine periods of nine days from the day of the winter solstice on"""
    year, n, l = start(ctx, years)
    ts = lun.terms(year)
    k = n - ctx.ite(n >= ts[25][1], ts[25][1], ts[1][1])
    x = l.getShuJiu()
    if x is None:
        ctx.check(ctx.Or(k < 0, k >= 81), "the eighty-one days from the winter solstice on are counted")
    else:
        ctx.check(ctx.And(k >= 0, k < 81), "only the eighty-one days from the winter solstice on are counted")
        k = ctx.bounded(k, 0, 80)
        ctx.check_eq((x.getName(), x.getIndex()), ("一二三四五六七八九"[k // 9] + "九", k % 9 + 1), "each nine has nine days")


def first(n, stem):
    """the first day at or after n with the given stem"""
    return n + (stem - (n + 9)) % 10


def h_dog(ctx, years):
    """ten days from the third 庚 day after the summer solstice, then until the first 庚 day after 立秋, then ten more"""
    year, n, l = start(ctx, years)
    ts = lun.terms(year)
    a = first(ts[13][1], 6) + 20
    c = first(ts[16][1], 6)
    x = l.getFu()
    if x is None:
        ctx.check(ctx.Or(n < a, n >= c + 10), "the dog days run until ten days after the first 庚 day after 立秋")
    else:
        ctx.check(ctx.And(n >= a, n < c + 10), "the dog days begin with the third 庚 day after the summer solstice")
        if n < a + 10:
            ctx.check_eq((x.getName(), x.getIndex()), ("初伏", n - a + 1), "first ten days")
        elif n < c:
            ctx.check_eq((x.getName(), x.getIndex()), ("中伏", n - a - 9), "middle days")
        else:
            ctx.check_eq((x.getName(), x.getIndex()), ("末伏", n - c + 1), "last ten days")


def h_pentad(ctx, years):
    """three pentads to a term, the last one taking the days left over"""
    year, n, l = start(ctx, years)
    ts = lun.terms(year)
    i = -1
    for x in ts:
        i = i + ctx.ite(n >= x[1], 1, 0)
    i = ctx.split(i)
    k = ctx.bounded((n - ts[i][1]) // 5, 0, 3)
    k = ctx.ite(k == 3, 2, k)
    j = (i + 23) % 24
    ctx.check(l.getWuHou() == SIGN[j][k], "pentad of the day")
    ctx.check(l.getHou() == ts[i][0] + " " + ("初候", "二候", "三候")[k], "numbered pentad of the day")
