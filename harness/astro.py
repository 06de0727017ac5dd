"""Where the sun and the moon are, by textbook series (Meeus, Astronomical Algorithms, ch. 25 and 49) that share nothing
with the library's own; evaluated natively.  Times are minutes of Beijing mean time counted from the civil day line
(day number * 1440)."""
from math import cos, radians, sin


def delta_t(y):
    t = (y - 1820) / 100.0
    return -20 + 31 * t * t


def sun(jd):
    """apparent longitude of the sun in degrees at a Julian ephemeris day"""
    t = (jd - 2451545.0) / 36525
    x = t / 10
    n = (jd - 2415020.0) / 36525
    m = radians(357.52911 + 35999.05029 * t - 0.0001537 * t * t)
    mean = 280.4664567 + 360007.6982779 * x + 0.03032028 * x ** 2 + x ** 3 / 49931 - x ** 4 / 15299 - x ** 5 / 1988000
    c = (1.914602 - 0.004817 * t - 0.000014 * t * t) * sin(m) + (0.019993 - 0.000101 * t) * sin(2 * m) + 0.000289 * sin(3 * m)
    p = (0.00134 * cos(radians(153.23 + 22518.7541 * n)) + 0.00154 * cos(radians(216.57 + 45037.5082 * n)) + 0.00200 * cos(radians(312.69 + 32964.3577 * n))
         + 0.00179 * sin(radians(350.74 + 445267.1142 * n)) + 0.00178 * sin(radians(231.19 + 20.20 * n)))
    return mean + c + p - 0.00569 - 0.00478 * sin(radians(125.04 - 1934.136 * t))


def term_error(day, sec, year, want):
    """hundredths of a minute by which the sun is past the wanted longitude at a moment of Beijing time"""
    jd = day - 0.5 + sec / 86400.0 - 8 / 24.0 + delta_t(year) / 86400
    d = (sun(jd) - want + 180) % 360 - 180
    return int(round(d * 365.2422 / 360 * 144000))


def term_tolerance(y):
    """minutes; the textbook series drift away from modern theories in the far future, and Delta T is a parabola"""
    if y < 1200:
        return 18
    if y < 1600:
        return 13
    return 9 if y < 2000 else int(10 + 88 * ((y - 2000) / 8000.0) ** 2)


def step_tolerance(y):
    """minutes by which that error may change from a term to the next, and from a term to the same term a year later:
    what the planets do to the earth that the textbook series leave out"""
    x = max(0, y - 2000) / 8000.0
    return 2.5 + 4.5 * x * x, 7 + 3 * x * x


def conjunction(k, year):
    """the k-th new moon (0: January 2000)"""
    t = k / 1236.85
    jde = 2451550.09766 + 29.530588861 * k + 0.00015437 * t ** 2 - 0.000000150 * t ** 3 + 0.00000000073 * t ** 4
    e = 1 - 0.002516 * t - 0.0000074 * t * t
    m = radians(2.5534 + 29.10535670 * k - 0.0000014 * t * t - 0.00000011 * t ** 3)
    p = radians(201.5643 + 385.81693528 * k + 0.0107582 * t * t + 0.00001238 * t ** 3 - 0.000000058 * t ** 4)
    f = radians(160.7108 + 390.67050284 * k - 0.0016118 * t * t - 0.00000227 * t ** 3 + 0.000000011 * t ** 4)
    o = radians(124.7746 - 1.56375588 * k + 0.0020672 * t * t + 0.00000215 * t ** 3)
    jde += (-0.40720 * sin(p) + 0.17241 * e * sin(m) + 0.01608 * sin(2 * p) + 0.01039 * sin(2 * f) + 0.00739 * e * sin(p - m) - 0.00514 * e * sin(p + m)
            + 0.00208 * e * e * sin(2 * m) - 0.00111 * sin(p - 2 * f) - 0.00057 * sin(p + 2 * f) + 0.00056 * e * sin(2 * p + m) - 0.00042 * sin(3 * p)
            + 0.00042 * e * sin(m + 2 * f) + 0.00038 * e * sin(m - 2 * f) - 0.00024 * e * sin(2 * p - m) - 0.00017 * sin(o) - 0.00007 * sin(p + 2 * m))
    return jde + 0.5 + 8 / 24.0 - delta_t(year) / 86400


def new_moon(first, year):
    """the new moon nearest to the middle of a civil day, in minutes of the day line"""
    return int(round(conjunction(int(round((first - 2451550.1) / 29.530588861)), year) * 1440))


def moon_tolerance(y):
    """minutes a month may start away from the day of its new moon: computed months follow the theory, the months of
    1645..1928 the almanacs of their time, earlier ones calendars with a mean or a coarse true moon"""
    if y < 619:
        return 2000
    if y < 1645:
        return 1050
    if y < 1700:
        return 100
    if y < 1929:
        return 25
    return 8 if y < 1961 else int(3 + 100 * ((y - 2000) / 8000.0) ** 3)
