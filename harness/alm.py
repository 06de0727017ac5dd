"""Almanac rules, transcribed independently of the library's tables. Indices: stem 0..9, branch 0..11, pillar 0..59."""

GAN = "甲乙丙丁戊己庚辛壬癸"
ZHI = "子丑寅卯辰巳午未申酉戌亥"
GZ = tuple(GAN[i % 10] + ZHI[i % 12] for i in range(60))
ANIMALS = "鼠牛虎兔龙蛇马羊猴鸡狗猪"
# by stem
XI = "艮乾坤离巽艮乾坤离巽"
YANG = "坤坤兑乾艮坎离艮震巽"
YIN = "艮坎乾兑坤坤艮离巽震"
FU = {1: "巽巽震震坎离坤坤乾兑", 2: "坎坤乾巽艮坎坤乾巽艮"}
CAI = "艮艮坤坤坎坎震震离离"
DESC = {"坎": "正北", "艮": "东北", "震": "正东", "巽": "东南", "离": "正南", "坤": "西南", "兑": "正西", "乾": "西北", "中": "中宫"}
PENG_G = ("甲不开仓财物耗散", "乙不栽植千株不长", "丙不修灶必见灾殃", "丁不剃头头必生疮", "戊不受田田主不祥", "己不破券二比并亡", "庚不经络织机虚张", "辛不合酱主人不尝", "壬不泱水更难提防", "癸不词讼理弱敌强")
PENG_Z = ("子不问卜自惹祸殃", "丑不冠带主不还乡", "寅不祭祀神鬼不尝", "卯不穿井水泉不香", "辰不哭泣必主重丧", "巳不远行财物伏藏", "午不苫盖屋主更张", "未不服药毒气入肠", "申不安床鬼祟入房", "酉不会客醉坐颠狂", "戌不吃犬作怪上床", "亥不嫁娶不利新郎")
LU = "寅卯巳午巳午申酉亥子"
LU_Z = ("癸", "", "甲", "乙", "", "丙,戊", "丁,己", "", "庚", "辛", "", "壬")
# by branch
SHA = "南东北西南东北西南东北西"
TAI_SUI = "坎艮艮震巽巽离坤坤兑坎坎"
TAI_SUI_GAN = "震震离离中中兑兑坎坎"
# the twelve officers, and the twelve gods with the branch each month's 青龙 starts from
JIAN = "建除满平定执破危成收开闭"
GODS = ("青龙", "明堂", "天刑", "朱雀", "金匮", "天德", "白虎", "玉堂", "天牢", "玄武", "司命", "勾陈")
DRAGON = (8, 10, 0, 2, 4, 6, 8, 10, 0, 2, 4, 6)
YELLOW = (0, 1, 4, 5, 7, 10)
# mansions
XIU = "角亢氐房心尾箕斗牛女虚危室壁奎娄胃昴毕觜参井鬼柳星张翼轸"
ZHENG = "木金土日月火水"
BEAST = "蛟龙貉兔狐虎豹獬牛蝠鼠燕猪獝狼狗彘鸡乌猴猿犴羊獐马鹿蛇蚓"
GONG = "东北西南"
GUARD = ("青龙", "玄武", "白虎", "朱雀")
XIU_GOOD = "角房尾箕斗室壁娄胃毕参井张轸"
# sounds, one for two pillars
NAYIN = ("海中金", "炉中火", "大林木", "路旁土", "剑锋金", "山头火", "涧下水", "城头土", "白蜡金", "杨柳木", "泉中水", "屋上土", "霹雳火", "松柏木", "长流水",
         "沙中金", "山下火", "平地木", "壁上土", "金箔金", "覆灯火", "天河水", "大驿土", "钗钏金", "桑柘木", "大溪水", "沙中土", "天上火", "石榴木", "大海水")
# the unborn child's spirit: by stem, by branch, by part of the cycle
TAI_G = ("占门", "碓磨", "厨灶", "仓库", "房床")
TAI_Z = "碓厕炉门栖床"
TAI_D = ("外东南",) * 2 + ("外正南",) * 5 + ("外西南",) * 6 + ("外正西",) * 5 + ("外西北",) * 6 + ("外正北",) * 5 + ("房内北",) * 5 + ("房内中",) * 2 + ("房内南",) * 3 + ("房内西",) + ("房内东",) * 4 + ("房内中",) + ("外东北",) * 6 + ("外正东",) * 5 + ("外东南",) * 4


def _tai(k):
    a = TAI_G[k % 5]
    b = TAI_Z[k % 6]
    if a[-1] == b or b in a:
        return {"碓磨": "占碓磨", "占门": "占大门", "房床": "占房床"}[a] + " " + TAI_D[k]
    return a + b + " " + TAI_D[k]


TAI = tuple(_tai(k) for k in range(60))
TAI_M = ("占房床", "占户窗", "占门堂", "占厨灶", "占房床", "占床仓", "占碓磨", "占厕户", "占门房", "占房床", "占灶炉", "占房床")
XUN = ("甲子", "甲戌", "甲申", "甲午", "甲辰", "甲寅")
KONG = ("戌亥", "申酉", "午未", "辰巳", "寅卯", "子丑")
MOON = "朔 既朔 蛾眉新 蛾眉新 蛾眉 夕 上弦 上弦 九夜 宵 宵 宵 渐盈凸 小望 望 既望 立待 居待 寝待 更待 渐亏凸 下弦 下弦 有明 有明 蛾眉残 蛾眉残 残 晓 晦".split()
LIU_YAO = ("先胜", "友引", "先负", "佛灭", "大安", "赤口")
SEASON = ("孟春", "仲春", "季春", "孟夏", "仲夏", "季夏", "孟秋", "仲秋", "季秋", "孟冬", "仲冬", "季冬")
MONTH = "正二三四五六七八九十冬腊"
DAYS = tuple(a + b for a in ("初",) for b in "一二三四五六七八九十") + tuple("十" + b for b in "一二三四五六七八九") + ("二十",) + tuple("廿" + b for b in "一二三四五六七八九") + ("三十",)
WEEK = "日一二三四五六"
