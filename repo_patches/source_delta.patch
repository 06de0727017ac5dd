From 5e7f30e23a52ae4657e25c9010bae1a3fc1ab363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:33 +0000
Subject: [PATCH 01/18] fix: reject days greater than 31 in the Solar
 constructor

---
 lunar_python/Solar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lunar_python/Solar.py b/lunar_python/Solar.py
index d3be6b0..ede06c1 100644
--- a/lunar_python/Solar.py
+++ b/lunar_python/Solar.py
@@ -19,7 +19,7 @@ class Solar:
                 raise Exception("wrong solar year %d month %d day %d" % (year, month, day))
         if month < 1 or month > 12:
             raise Exception("wrong month %d" % month)
-        if day < 1 or month > 31:
+        if day < 1 or day > 31:
             raise Exception("wrong day %d" % day)
         if hour < 0 or hour > 23:
             raise Exception("wrong hour %d" % hour)
-- 
2.43.0


From cb802d3311df62747f29b855651b064a3ec4c298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:33 +0000
Subject: [PATCH 02/18] fix: carry a rounded-up second into the next calendar
 day in Solar.fromJulianDay

---
 lunar_python/Solar.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lunar_python/Solar.py b/lunar_python/Solar.py
index ede06c1..fbe9529 100644
--- a/lunar_python/Solar.py
+++ b/lunar_python/Solar.py
@@ -73,10 +73,12 @@ class Solar:
         if minute > 59:
             minute -= 60
             hour += 1
+        days = 0
         if hour > 23:
             hour -= 24
-            day += 1
-        return Solar(year, month, day, hour, minute, second)
+            days = 1
+        solar = Solar(year, month, day, hour, minute, second)
+        return solar.next(days) if days > 0 else solar
 
     @staticmethod
     def fromYmdHms(year, month, day, hour, minute, second):
-- 
2.43.0


From d882a89dd9ed65f5d8079a0b02c19f7da0a42f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:48 +0000
Subject: [PATCH 03/18] fix: count the weeks of a month whose first weekday
 lies before the week start

---
 lunar_python/util/SolarUtil.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lunar_python/util/SolarUtil.py b/lunar_python/util/SolarUtil.py
index 5d608b6..161cf94 100644
--- a/lunar_python/util/SolarUtil.py
+++ b/lunar_python/util/SolarUtil.py
@@ -252,7 +252,10 @@ class SolarUtil:
         :return: 天数
         """
         from .. import Solar
-        return int(ceil((SolarUtil.getDaysOfMonth(year, month) + Solar.fromYmd(year, month, 1).getWeek() - start) * 1.0 / len(SolarUtil.WEEK)))
+        offset = Solar.fromYmd(year, month, 1).getWeek() - start
+        if offset < 0:
+            offset += 7
+        return int(ceil((SolarUtil.getDaysOfMonth(year, month) + offset) * 1.0 / len(SolarUtil.WEEK)))
 
     @staticmethod
     def getDaysBetween(ay: int, am: int, ad: int, by: int, bm: int, bd: int):
-- 
2.43.0


From e1b656a269acf4d0f593d7f78404d146b8c74e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:48 +0000
Subject: [PATCH 04/18] fix: week index within October 1582 skips the ten
 dropped days

---
 lunar_python/SolarWeek.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lunar_python/SolarWeek.py b/lunar_python/SolarWeek.py
index 7f24a18..d1071b6 100644
--- a/lunar_python/SolarWeek.py
+++ b/lunar_python/SolarWeek.py
@@ -60,7 +60,8 @@ class SolarWeek:
         offset = Solar.fromYmd(self.__year, self.__month, 1).getWeek() - self.__start
         if offset < 0:
             offset += 7
-        return int(ceil((self.__day + offset) * 1.0 / 7))
+        days = SolarUtil.getDaysInYear(self.__year, self.__month, self.__day) - SolarUtil.getDaysInYear(self.__year, self.__month, 1) + 1
+        return int(ceil((days + offset) * 1.0 / 7))
 
     def getIndexInYear(self):
         """
-- 
2.43.0


From e79fe61b32459d7c51f36d95037aa23304d9e56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:12 +0000
Subject: [PATCH 05/18] fix: last day of October 1582 when stepping weeks
 backwards by month

---
 lunar_python/SolarWeek.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lunar_python/SolarWeek.py b/lunar_python/SolarWeek.py
index d1071b6..35a3187 100644
--- a/lunar_python/SolarWeek.py
+++ b/lunar_python/SolarWeek.py
@@ -153,7 +153,7 @@ class SolarWeek:
                             week = SolarWeek.fromYmd(last_day.getYear(), last_day.getMonth(), last_day.getDay(), self.__start)
                             week_month = week.getMonth()
                         else:
-                            solar = Solar.fromYmd(week.getYear(), week.getMonth(), SolarUtil.getDaysOfMonth(week.getYear(), week.getMonth()))
+                            solar = Solar.fromYmd(week.getYear(), week.getMonth(), 1).next(SolarUtil.getDaysOfMonth(week.getYear(), week.getMonth()) - 1)
                             week = SolarWeek.fromYmd(solar.getYear(), solar.getMonth(), solar.getDay(), self.__start)
                     month = week_month
                 n -= 1 if plus else -1
-- 
2.43.0


From 6951f80c719b0d71fad81f3eebc6550a7cf11c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:55 +0000
Subject: [PATCH 06/18] fix: year pillar when the lunar new year falls before 1
 January (years 15 and 18)

---
 lunar_python/Lunar.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lunar_python/Lunar.py b/lunar_python/Lunar.py
index 7ad6a7d..d858122 100644
--- a/lunar_python/Lunar.py
+++ b/lunar_python/Lunar.py
@@ -99,6 +99,12 @@ class Lunar:
             if solar_ymd_hms >= li_chun_ymd_hms:
                 g_exact += 1
                 z_exact += 1
+        else:
+            # 正月初一早于阳历元旦，仍在上一个立春年内
+            g -= 1
+            z -= 1
+            g_exact -= 1
+            z_exact -= 1
 
         self.__yearGanIndex = year_gan_index
         self.__yearZhiIndex = year_zhi_index
-- 
2.43.0


From b8bb7fcbe797a56a0f171f1ba6e073655c4cd24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:50 +0000
Subject: [PATCH 07/18] fix: LunarMonth.next identifies months by their first
 day, so that neighbouring years' lists cannot disagree

---
 lunar_python/LunarMonth.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/lunar_python/LunarMonth.py b/lunar_python/LunarMonth.py
index 3cf414f..01a7118 100644
--- a/lunar_python/LunarMonth.py
+++ b/lunar_python/LunarMonth.py
@@ -127,15 +127,14 @@ class LunarMonth:
         elif n > 0:
             rest = n
             ny = self.__year
-            iy = ny
-            im = self.__month
+            first = self.__firstJulianDay
             index = 0
             months = LunarYear.fromYear(ny).getMonths()
             while True:
                 size = len(months)
                 for i in range(0, size):
                     m = months[i]
-                    if m.getYear() == iy and m.getMonth() == im:
+                    if m.getFirstJulianDay() == first:
                         index = i
                         break
                 more = size - index - 1
@@ -143,31 +142,30 @@ class LunarMonth:
                     break
                 rest -= more
                 last_month = months[size - 1]
-                iy = last_month.getYear()
-                im = last_month.getMonth()
+                first = last_month.getFirstJulianDay()
                 ny += 1
                 months = LunarYear.fromYear(ny).getMonths()
-            return months[index + rest]
+            m = months[index + rest]
+            return LunarMonth.fromYm(m.getYear(), m.getMonth())
         else:
             rest = -n
             ny = self.__year
-            iy = ny
-            im = self.__month
+            first = self.__firstJulianDay
             index = 0
             months = LunarYear.fromYear(ny).getMonths()
             while True:
                 size = len(months)
                 for i in range(0, size):
                     m = months[i]
-                    if m.getYear() == iy and m.getMonth() == im:
+                    if m.getFirstJulianDay() == first:
                         index = i
                         break
                 if rest <= index:
                     break
                 rest -= index
                 first_month = months[0]
-                iy = first_month.getYear()
-                im = first_month.getMonth()
+                first = first_month.getFirstJulianDay()
                 ny -= 1
                 months = LunarYear.fromYear(ny).getMonths()
-            return months[index - rest]
+            m = months[index - rest]
+            return LunarMonth.fromYm(m.getYear(), m.getMonth())
-- 
2.43.0


From 8e3bd960582c28061679582d6f3803c2c17863f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:34 +0000
Subject: [PATCH 08/18] fix: holiday queries return every matching record, not
 only an unbroken run

---
 lunar_python/util/HolidayUtil.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/lunar_python/util/HolidayUtil.py b/lunar_python/util/HolidayUtil.py
index f7043b5..c980491 100644
--- a/lunar_python/util/HolidayUtil.py
+++ b/lunar_python/util/HolidayUtil.py
@@ -77,9 +77,9 @@ class HolidayUtil:
         s = HolidayUtil.__findForward(key)
         if s is None:
             return arr
-        while s.startswith(key):
-            arr.append(HolidayUtil.__buildHolidayForward(s))
-            s = s[HolidayUtil.__SIZE:]
+        for i in range(0, len(s), HolidayUtil.__SIZE):
+            if s.startswith(key, i):
+                arr.append(HolidayUtil.__buildHolidayForward(s[i:i + HolidayUtil.__SIZE]))
         return arr
 
     @staticmethod
@@ -88,13 +88,9 @@ class HolidayUtil:
         s = HolidayUtil.__findBackward(key)
         if s is None:
             return arr
-        size = len(s)
-        key_size = len(key)
-
-        while size - key_size == s.rfind(key):
-            arr.append(HolidayUtil.__buildHolidayBackward(s))
-            s = s[0:size - HolidayUtil.__SIZE:]
-            size = len(s)
+        for i in range(len(s), 0, -HolidayUtil.__SIZE):
+            if s.endswith(key, 0, i):
+                arr.append(HolidayUtil.__buildHolidayBackward(s[i - HolidayUtil.__SIZE:i]))
         arr.reverse()
         return arr
 
-- 
2.43.0


From 7c61dbed2d9eea2619f47199156b2aa9b4e8b336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:21 +0000
Subject: [PATCH 09/18] fix: Solar.fromBaZi missed moments whose double hour is
 cut by the next solar term

---
 lunar_python/Solar.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lunar_python/Solar.py b/lunar_python/Solar.py
index fbe9529..c7d832e 100644
--- a/lunar_python/Solar.py
+++ b/lunar_python/Solar.py
@@ -140,10 +140,13 @@ class Solar:
                             s = solar_time.getSecond()
                         # 验证一下
                         solar = Solar.fromYmdHms(solar_time.getYear(), solar_time.getMonth(), solar_time.getDay(), hour, mi, s)
-                        lunar = solar.getLunar()
-                        dgz = lunar.getDayInGanZhiExact2() if 2 == sect else lunar.getDayInGanZhiExact()
-                        if lunar.getYearInGanZhiExact() == year_gan_zhi and lunar.getMonthInGanZhiExact() == month_gan_zhi and dgz == day_gan_zhi and lunar.getTimeInGanZhi() == time_gan_zhi:
-                            solar_list.append(solar)
+                        # 如果时辰的后一个小时已交下一个节令，则取时辰的前一个小时
+                        for solar in (solar, solar.nextHour(-1)):
+                            lunar = solar.getLunar()
+                            dgz = lunar.getDayInGanZhiExact2() if 2 == sect else lunar.getDayInGanZhiExact()
+                            if lunar.getYearInGanZhiExact() == year_gan_zhi and lunar.getMonthInGanZhiExact() == month_gan_zhi and dgz == day_gan_zhi and lunar.getTimeInGanZhi() == time_gan_zhi:
+                                solar_list.append(solar)
+                                break
             y += 60
         return solar_list
 
-- 
2.43.0


From 5608e03c42d59fa82ea1730c2c3f5718cf434351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:42 +0000
Subject: [PATCH 10/18] fix: LunarTime.getNineStar always raised TypeError

---
 lunar_python/LunarTime.py | 20 +-------------------
 1 file changed, 1 insertion(+), 19 deletions(-)

diff --git a/lunar_python/LunarTime.py b/lunar_python/LunarTime.py
index 98716ac..7b54ce7 100644
--- a/lunar_python/LunarTime.py
+++ b/lunar_python/LunarTime.py
@@ -1,5 +1,4 @@
 # -*- coding: utf-8 -*-
-from . import NineStar
 from .util import LunarUtil
 
 
@@ -109,24 +108,7 @@ class LunarTime:
         return LunarUtil.getTimeJi(self.__lunar.getDayInGanZhiExact(), self.getGanZhi())
 
     def getNineStar(self):
-        solar_ymd = self.__lunar.getSolar().toYmd()
-        jie_qi = self.__lunar.getJieQiTable()
-        asc = False
-        if jie_qi["冬至"] <= solar_ymd < jie_qi["夏至"]:
-            asc = True
-        start = 7 if asc else 3
-        day_zhi = self.__lunar.getDayZhi()
-        if day_zhi in "子午卯酉":
-            start = 1 if asc else 9
-        elif day_zhi in "辰戌丑未":
-            start = 4 if asc else 6
-        index = start + self.__zhiIndex - 1 if asc else start - self.__zhiIndex - 1
-
-        if index > 8:
-            index -= 9
-        if index < 0:
-            index += 9
-        return NineStar.fromIndex(index)
+        return self.__lunar.getTimeNineStar()
 
     def getGanIndex(self):
         return self.__ganIndex
-- 
2.43.0


From c8a3b377221f02f8171ed03787dc66e20509ed74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:35 +0000
Subject: [PATCH 11/18] fix: day nine star jumped on 1 January when the
 descending half lasts 240 days

---
 lunar_python/Lunar.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lunar_python/Lunar.py b/lunar_python/Lunar.py
index d858122..4a8e221 100644
--- a/lunar_python/Lunar.py
+++ b/lunar_python/Lunar.py
@@ -893,7 +893,15 @@ class Lunar:
         elif solar_ymd >= solar_shun_bai_ymd2:
             offset = self.__solar.subtract(solar_shun_bai2) % 9
         elif solar_ymd < solar_shun_bai_ymd:
-            offset = (8 + solar_shun_bai.subtract(self.__solar)) % 9
+            # 从上一年的夏至开始逆推
+            from . import LunarYear
+            xia_zhi = Solar.fromJulianDay(LunarYear.fromYear(self.__solar.getYear() - 1).getJieQiJulianDays()[Lunar.JIE_QI_IN_USE.index("夏至")])
+            xia_zhi_index = LunarUtil.getJiaZiIndex(xia_zhi.getLunar().getDayInGanZhi())
+            if xia_zhi_index > 29:
+                solar_ni_zi = xia_zhi.next(60 - xia_zhi_index)
+            else:
+                solar_ni_zi = xia_zhi.next(-xia_zhi_index)
+            offset = 8 - (self.__solar.subtract(solar_ni_zi) % 9)
         return NineStar.fromIndex(offset)
 
     def getTimeNineStar(self):
-- 
2.43.0


From e3b5a3b7d997f4f86022d268386fe4b6d05d2eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:12 +0000
Subject: [PATCH 12/18] fix: Foto.getYear when the lunar new year falls before
 1 January (years 16 and 19)

---
 lunar_python/Foto.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/lunar_python/Foto.py b/lunar_python/Foto.py
index aa31ede..2e62564 100644
--- a/lunar_python/Foto.py
+++ b/lunar_python/Foto.py
@@ -29,11 +29,7 @@ class Foto:
         return self.__lunar
 
     def getYear(self):
-        sy = self.__lunar.getSolar().getYear()
-        y = sy - Foto.DEAD_YEAR
-        if sy == self.__lunar.getYear():
-            y += 1
-        return y
+        return self.__lunar.getYear() - Foto.DEAD_YEAR + 1
 
     def getMonth(self):
         return self.__lunar.getMonth()
-- 
2.43.0


From ae1a993ddc4d3d235f3bd5a2774fd91669cf99cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:14 +0000
Subject: [PATCH 13/18] =?UTF-8?q?fix:=20misspelt=20stem=20=E5=B7=B1=20in?=
 =?UTF-8?q?=20the=20day=20position=20of=20=E5=A4=AA=E5=B2=81=20(=E5=B7=B1?=
 =?UTF-8?q?=E5=B7=B3,=20=E5=B7=B1=E5=8D=AF,=20=E5=B7=B1=E4=B8=91=20days)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 lunar_python/Lunar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lunar_python/Lunar.py b/lunar_python/Lunar.py
index 4a8e221..2398686 100644
--- a/lunar_python/Lunar.py
+++ b/lunar_python/Lunar.py
@@ -456,11 +456,11 @@ class Lunar:
         return LunarUtil.POSITION_DESC[self.getMonthPositionTaiSui(sect)]
 
     def __getDayPositionTaiSui(self, day_in_gan_zhi, year_zhi_index):
-        if day_in_gan_zhi in "甲子,乙丑,丙寅,丁卯,戊辰,已巳":
+        if day_in_gan_zhi in "甲子,乙丑,丙寅,丁卯,戊辰,己巳":
             p = "震"
-        elif day_in_gan_zhi in "丙子,丁丑,戊寅,已卯,庚辰,辛巳":
+        elif day_in_gan_zhi in "丙子,丁丑,戊寅,己卯,庚辰,辛巳":
             p = "离"
-        elif day_in_gan_zhi in "戊子,已丑,庚寅,辛卯,壬辰,癸巳":
+        elif day_in_gan_zhi in "戊子,己丑,庚寅,辛卯,壬辰,癸巳":
             p = "中"
         elif day_in_gan_zhi in "庚子,辛丑,壬寅,癸卯,甲辰,乙巳":
             p = "兑"
-- 
2.43.0


From 03b192ffe640e664419900b7f6c265b495629a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:16 +0000
Subject: [PATCH 14/18] fix: LunarYear.fromYear left its lock held when a year
 cannot be computed

---
 lunar_python/LunarYear.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/lunar_python/LunarYear.py b/lunar_python/LunarYear.py
index a4f7bf2..27feb0a 100644
--- a/lunar_python/LunarYear.py
+++ b/lunar_python/LunarYear.py
@@ -41,13 +41,12 @@ class LunarYear:
 
     @staticmethod
     def fromYear(lunar_year):
-        LunarYear.__lock.acquire()
-        if LunarYear.__CACHE_YEAR is None or LunarYear.__CACHE_YEAR.getYear() != lunar_year:
-            y = LunarYear(lunar_year)
-            LunarYear.__CACHE_YEAR = y
-        else:
-            y = LunarYear.__CACHE_YEAR
-        LunarYear.__lock.release()
+        with LunarYear.__lock:
+            if LunarYear.__CACHE_YEAR is None or LunarYear.__CACHE_YEAR.getYear() != lunar_year:
+                y = LunarYear(lunar_year)
+                LunarYear.__CACHE_YEAR = y
+            else:
+                y = LunarYear.__CACHE_YEAR
         return y
 
     def compute(self):
-- 
2.43.0


From ce19d3b8daecc040d8e3c219dd336d38b4fce3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:32 +0000
Subject: [PATCH 15/18] =?UTF-8?q?fix:=20JieQi.setName=20keeps=20the=20kind?=
 =?UTF-8?q?=20of=20the=20old=20name,=20so=20a=20renamed=20term=20is=20both?=
 =?UTF-8?q?=20=E8=8A=82=20and=20=E6=B0=94?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 lunar_python/JieQi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lunar_python/JieQi.py b/lunar_python/JieQi.py
index 24250e2..bba5082 100644
--- a/lunar_python/JieQi.py
+++ b/lunar_python/JieQi.py
@@ -27,6 +27,8 @@ class JieQi:
         """
         from . import Lunar
         self.__name = name
+        self.__jie = False
+        self.__qi = False
         for i in range(0, len(Lunar.JIE_QI)):
             if name == Lunar.JIE_QI[i]:
                 if i % 2 == 0:
-- 
2.43.0


From fb40b8439cada911426f813d62d3104a88cb283b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:17 +0000
Subject: [PATCH 16/18] fix: HolidayUtil.fix added a day twice when one call
 corrects a day it has just added

---
 lunar_python/util/HolidayUtil.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lunar_python/util/HolidayUtil.py b/lunar_python/util/HolidayUtil.py
index c980491..cf78ef3 100644
--- a/lunar_python/util/HolidayUtil.py
+++ b/lunar_python/util/HolidayUtil.py
@@ -152,7 +152,6 @@ class HolidayUtil:
             HolidayUtil.__NAMES_IN_USE = names
         if data is None:
             return
-        append = ""
         while len(data) >= HolidayUtil.__SIZE:
             segment = data[:HolidayUtil.__SIZE]
             day = segment[:8]
@@ -160,7 +159,7 @@ class HolidayUtil:
             holiday = HolidayUtil.getHoliday(day)
             if holiday is None:
                 if not remove:
-                    append += segment
+                    HolidayUtil.__DATA_IN_USE += segment
             else:
                 name_index = -1
                 for i in range(0, len(HolidayUtil.__NAMES_IN_USE)):
@@ -171,5 +170,3 @@ class HolidayUtil:
                     old = day + chr(name_index + HolidayUtil.__ZERO) + ("0" if holiday.isWork() else "1") + holiday.getTarget().replace("-", "")
                     HolidayUtil.__DATA_IN_USE = HolidayUtil.__DATA_IN_USE.replace(old, "" if remove else segment)
             data = data[HolidayUtil.__SIZE:]
-        if len(append) > 0:
-            HolidayUtil.__DATA_IN_USE += append
-- 
2.43.0


From d74bedd0131c780565909e38d0aa1c149cc3e3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:42 +0000
Subject: [PATCH 17/18] fix: HolidayUtil.fix ignored corrections of days whose
 holiday name is used twice in the list of names

---
 lunar_python/util/HolidayUtil.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/lunar_python/util/HolidayUtil.py b/lunar_python/util/HolidayUtil.py
index cf78ef3..3aad49a 100644
--- a/lunar_python/util/HolidayUtil.py
+++ b/lunar_python/util/HolidayUtil.py
@@ -161,12 +161,6 @@ class HolidayUtil:
                 if not remove:
                     HolidayUtil.__DATA_IN_USE += segment
             else:
-                name_index = -1
-                for i in range(0, len(HolidayUtil.__NAMES_IN_USE)):
-                    if HolidayUtil.__NAMES_IN_USE[i] == holiday.getName():
-                        name_index = i
-                        break
-                if name_index > -1:
-                    old = day + chr(name_index + HolidayUtil.__ZERO) + ("0" if holiday.isWork() else "1") + holiday.getTarget().replace("-", "")
-                    HolidayUtil.__DATA_IN_USE = HolidayUtil.__DATA_IN_USE.replace(old, "" if remove else segment)
+                old = HolidayUtil.__findForward(day)[:HolidayUtil.__SIZE]
+                HolidayUtil.__DATA_IN_USE = HolidayUtil.__DATA_IN_USE.replace(old, "" if remove else segment)
             data = data[HolidayUtil.__SIZE:]
-- 
2.43.0


From b919548d36b2ac6c39118ca975c709b2165b7ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:16 +0000
Subject: [PATCH 18/18] fix: holiday queries for years below 1000 no longer
 match records of years 2001 and later

---
 lunar_python/util/HolidayUtil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lunar_python/util/HolidayUtil.py b/lunar_python/util/HolidayUtil.py
index 3aad49a..a419030 100644
--- a/lunar_python/util/HolidayUtil.py
+++ b/lunar_python/util/HolidayUtil.py
@@ -96,7 +96,7 @@ class HolidayUtil:
 
     @staticmethod
     def __getHoliday(year, month=0, day=0):
-        y = str(year)
+        y = str(year).zfill(4)
         if month == 0 or day == 0:
             arr = HolidayUtil.__findHolidaysForward(y.replace("-", ""))
         else:
@@ -105,7 +105,7 @@ class HolidayUtil:
 
     @staticmethod
     def __getHolidays(year, month=0):
-        y = str(year)
+        y = str(year).zfill(4)
         if month == 0:
             arr = HolidayUtil.__findHolidaysForward(y.replace("-", ""))
         else:
@@ -114,7 +114,7 @@ class HolidayUtil:
 
     @staticmethod
     def __getHolidaysByTarget(year, month=0, day=0):
-        y = str(year)
+        y = str(year).zfill(4)
         if month == 0 or day == 0:
             arr = HolidayUtil.__findHolidaysBackward(y.replace("-", ""))
         else:
-- 
2.43.0

