"""Date and time macros under a controlled clock."""
import datetime
import re
import zoneinfo
DRIVER = "macros_drv"
TRACE = "MacrosTrace"
PROPS = ["I01"]
EPOCH = datetime.date(1970, 1, 1)
UTC = datetime.timezone.utc
W = ["TODAY", "YESTERDAY", "TOMORROW"]
NAMES = ["DATE_%s_%s" % (w, x) for w in W for x in ("SHORT", "MEDIUM", "MEDIUM_ROC", "MEDIUM_CHINESE", "MEDIUM_JAPANESE",
                                                     "WEEKDAY_SHORT", "WEEKDAY", "WEEKDAY_JAPANESE")]
NAMES += ["DATE_%s2_WEEKDAY" % w for w in W]
NAMES += ["%s_YEAR_%s" % (y, x) for y in ("THIS", "LAST", "NEXT")
          for x in ("PLAIN", "PLAIN_WITH_ERA", "ROC", "JAPANESE", "GANZHI", "CHINESE_ZODIAC")]
NAMES += ["TIME_NOW_SHORT", "TIME_NOW_MEDIUM", "TIMEZONE_STANDARD", "TIMEZONE_GENERIC_SHORT"]
# Zones with summer time, some of them turning the clocks at midnight.
SUMMER = ["America/New_York", "Europe/London", "Pacific/Auckland", "Australia/Lord_Howe", "America/Santiago", "America/Sao_Paulo",
          "Asia/Beirut", "Asia/Taipei"]
ZONES = ["Asia/Taipei", "Asia/Tokyo", "America/New_York", "Europe/London", "Pacific/Auckland", "Asia/Kolkata", "UTC"]


def models(tier, prop):
    return [dict(module="CalendarMC", cfg="CalendarMC.cfg" if tier == "quick" else "CalendarMCall.cfg", timeout=700)]


def at(day, sec, tz):
    """The instant at which the wall clock in tz shows this; None if it never does."""
    d = EPOCH + datetime.timedelta(days=day)
    z = zoneinfo.ZoneInfo(tz) if tz != "UTC" else UTC
    t = datetime.datetime(d.year, d.month, d.day, sec // 3600, sec // 60 % 60, sec % 60, tzinfo=z)
    e = int(t.timestamp())
    back = datetime.datetime.fromtimestamp(e, z)
    if (back.date(), back.hour, back.minute) != (d, sec // 3600, sec // 60 % 60):
        return None
    return dict(k="at", epoch=e, day=day, sec=sec)


def second(rng):
    return rng.choice([0, 1, 86399, 12 * 3600, 12 * 3600 - 1, 13 * 3600 - 1, 13 * 3600, 5 * 3600, 8 * 3600, 19 * 3600,
                       *[rng.randrange(86400) for _ in range(8)]])


def turns(tz):
    """The days of 1971-2036 on which the clocks are changed."""
    z = zoneinfo.ZoneInfo(tz)
    r = []
    d = datetime.date(1971, 1, 1)
    off = None
    while d.year < 2037:
        o = datetime.datetime(d.year, d.month, d.day, 12, tzinfo=z).utcoffset()
        if off is not None and o != off:
            r.append((d - EPOCH).days)
        off = o
        d += datetime.timedelta(days=1)
    return r


def scenarios(rng, tier, prop, work, from_model):
    q = tier == "quick"
    days = []
    for mc, hs in from_model:
        days += [h[-1]["day"] for h in hs]
    days = sorted(set(days))
    if len(days) > (3000 if q else 40000):
        days = sorted(rng.sample(days, 3000 if q else 40000))
    sc = []

    def scenario(tz, ds):
        ops = [at(d, second(rng), tz) for d in ds]
        sc.append(dict(tz=tz, names=NAMES, ops=[o for o in ops if o]))
    for i in range(0, len(days), 20):
        scenario(rng.choice(["UTC", "UTC", "UTC"]), days[i:i + 20])
    num = lambda y, m, d: (datetime.date(y, m, d) - EPOCH).days
    # consecutive days in real zones, around new years, month ends and eras
    marks = [num(y, 12, 30) for y in range(1971, 2037)] + [num(y, 2, 27) for y in range(1971, 2037)]
    marks += [num(1989, 1, 6), num(2019, 4, 29), num(2020, 4, 29), num(1990, 1, 7)]
    marks += [num(y, 1, 21) + rng.randrange(30) for y in range(1999, 2027)]
    rng.shuffle(marks)
    for m in marks[:60 if q else 1000]:
        scenario(rng.choice(ZONES), range(m, m + 5))
    # the days around a change of the clocks, at the ends of the day
    for tz in SUMMER:
        ds = turns(tz)
        for m in rng.sample(ds, min(len(ds), 4 if q else 60)):
            ops = [at(m + k, x, tz) for k in (-2, -1, 0, 1)
                   for x in (0, rng.randrange(3600), 3599, 12 * 3600, 86400 - rng.randrange(1, 3600), 86399)]
            sc.append(dict(tz=tz, names=NAMES, ops=[o for o in ops if o]))
    for m in [num(1926, 12, 23), num(1912, 7, 28), num(1911, 12, 30), num(1927, 12, 23), num(1925, 12, 23), num(1913, 7, 28)]:
        scenario("UTC", range(m, m + 5))
    for _ in range(40 if q else 600):
        m = num(1980, 1, 1) + rng.randrange(365 * 57)
        scenario(rng.choice(ZONES), range(m, m + rng.choice([2, 8, 35])))
    return [s for s in sc if s["ops"]], {}, []


def coverage(traces):
    ds = [e["day"] for t in traces for e in t["ev"]]
    return dict(days=len(set(ds)), first=min(ds), last=max(ds), zones=sorted({t["tz"] for t in traces}))
