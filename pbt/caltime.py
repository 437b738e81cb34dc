"""Calendar arithmetic written out: instants of time references, in seconds of a calendar"""
import re

CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
SECONDS = {"days": 86400.0, "day": 86400.0, "hours": 3600.0, "minutes": 60.0, "seconds": 1.0,
           "d": 86400.0, "h": 3600.0, "s": 1.0}
ALIAS = {"gregorian": "standard", "standard": "standard", "365_day": "noleap", "noleap": "noleap",
         "360_day": "360_day", "proleptic_gregorian": "proleptic_gregorian", "366_day": "all_leap",
         "all_leap": "all_leap", "julian": "julian"}


def days(y, m, d, cal):
    """number of days from 0001-01-01 (dates after 1582 in the standard calendar)"""
    cal = ALIAS[cal]
    if cal == "360_day":
        return (y - 1) * 360 + (m - 1) * 30 + d - 1
    if cal == "noleap":
        return (y - 1) * 365 + CUM[m - 1] + d - 1
    if cal == "all_leap":
        return (y - 1) * 366 + CUM[m - 1] + (1 if m > 2 else 0) + d - 1
    if cal == "julian":
        leap = y % 4 == 0
        return (y - 1) * 365 + (y - 1) // 4 + CUM[m - 1] + (1 if leap and m > 2 else 0) + d - 1
    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    p = y - 1
    return p * 365 + p // 4 - p // 100 + p // 400 + CUM[m - 1] + (1 if leap and m > 2 else 0) + d - 1


def parse_ref(s):
    """y, m, d, seconds of the day"""
    m = re.match(r"^\s*(\d+)-(\d+)-(\d+)(?:[T ]+(\d+)(?::(\d+))?(?::(\d+(?:\.\d*)?))?)?\s*$", s)
    y, mo, d = (int(m.group(k)) for k in (1, 2, 3))
    h, mi, se = (float(m.group(k) or 0) for k in (4, 5, 6))
    return y, mo, d, h * 3600 + mi * 60 + se


def split(units):
    a, b = units.split("since")
    return a.strip(), b.strip()


def origin(units, cal):
    """(seconds per unit, seconds from 0001-01-01 to the reference date)"""
    u, r = split(units)
    y, m, d, s = parse_ref(r)
    return SECONDS[u], days(y, m, d, cal) * 86400.0 + s


def convert(values, units, to, cal):
    f1, o1 = origin(units, cal)
    f2, o2 = origin(to, cal)
    return [(v * f1 + (o1 - o2)) / f2 for v in values]


def date(value, units, cal):
    """(y, m, d, h, mi, s) of a value"""
    f, o = origin(units, cal)
    t = round((value * f + o) * 1000) / 1000.0
    n, sec = int(t // 86400), t % 86400
    # search the date by year, month
    lo = n // 366
    y = max(1, int(lo))
    while days(y + 1, 1, 1, cal) <= n:
        y += 1
    m = 1
    while m < 12 and days(y, m + 1, 1, cal) <= n:
        m += 1
    d = n - days(y, m, 1, cal) + 1
    return y, m, d, int(sec // 3600), int(sec % 3600 // 60), int(sec % 60)
