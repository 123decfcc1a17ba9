"""P09: the latest moment a date-time / time pattern names that is not after a given point, against brute force."""
import datetime
import itertools
import env
from refdate import brute_time, expected
from explorer import unit

cdt = env.mod("types.common_data_types")
D = datetime.datetime
FF = 0xff
ASSUMPTIONS = ["patterns with the special codes 'last', 'second last', daylight-saving begin/end are not searched by the package; points are whole hundredths in the zone of the pattern"]
ZONES = {b"\x80\0": datetime.timezone.utc, b"\0\x78": datetime.timezone(datetime.timedelta(minutes=120)), b"\xff\x4c": datetime.timezone(datetime.timedelta(minutes=-180))}


YEARS = (0xffff, 2023, 2024, 2025)
MONTHS = (FF, 1, 2, 3, 12)
DAYS = (FF, 1, 15, 28, 29, 30, 31)
WEEK = (FF, 1, 5, 7)
POINTS = [D(2024, 2, 29, 12, 30, 15, 500000), D(2024, 3, 1), D(2024, 1, 1), D(2023, 12, 31, 23, 59, 59, 990000), D(2024, 3, 31, 1, 2, 3, 40000), D(2023, 2, 28, 12), D(2025, 6, 15, 0, 0, 0, 10000)]
TIMES = ((FF, FF, FF, FF), (0, 0, 0, 0), (12, 30, 15, 50), (23, 59, 59, 99), (FF, 30, FF, FF), (12, FF, FF, 0), (FF, FF, 15, FF), (FF, 0, 0, 0), (13, FF, FF, FF))


@unit("datetime", 6)
def dts(ctx):
    times = ctx.pick(TIMES[:6], TIMES)
    points = ctx.pick(POINTS[:6], POINTS)
    ctx.bound(f"{len(YEARS)} years x {len(MONTHS)} months x {len(DAYS)} days x {len(WEEK)} weekdays x {len(times)} times of day, each field specified or not, from {len(points)} points, 3 zones in turn")

    def one(case, o):
        i, y, m, d, w, t = case
        dev, tz = list(ZONES.items())[i % 3]
        c = bytes((y >> 8, y & 255, m, d, w, *t)) + dev + b"\xff"
        try:
            v = cdt.DateTime(bytearray(c))
        except ValueError:
            return
        for p in points:
            p = p.replace(tzinfo=tz)
            day, full = expected(c, p, tz)
            o.eq(v.get_left_nearest_date(p), day, f"date at or before {p}", "date")
            o.eq(v.get_left_nearest_datetime(p), full, f"moment at or before {p}", "datetime")
        o.eq(v.contents, c, "the pattern itself is unchanged", "unchanged")
    ctx.all("datetime", [(i, *x) for i, x in enumerate(itertools.product(YEARS, MONTHS, DAYS, WEEK, times))], one)


@unit("carry", 4)
def carry(ctx):
    pts = ctx.pick((D(2024, 5, 5, 9, 30, 10, 500000), D(2024, 3, 1, 1, 1, 1, 10000), D(2024, 1, 1, 0, 59, 0, 990000)),
                   (D(2024, 5, 5, 9, 30, 10, 500000), D(2024, 3, 1, 1, 1, 1, 10000), D(2024, 1, 1, 0, 59, 0, 990000), D(2024, 12, 31, 23, 0, 59, 0), D(2023, 3, 1, 0, 0, 0, 0), D(2024, 2, 29, 22, 58, 58, 980000)))
    ctx.bound(f"from {len(pts)} points: every field of the time of day not specified, one below, equal to or one above that of the point, with the date not specified, that day, the day before, or its day of week")

    def one(case, o):
        p, kind, f = case
        q = p - datetime.timedelta(days=1)
        date = {"any": b"\xff\xff\xff\xff\xff", "day": bytes((p.year >> 8, p.year & 255, p.month, p.day, FF)), "before": bytes((FF, FF, q.month, q.day, FF)),
                "weekday": bytes((FF, FF, FF, FF, p.isoweekday())), "month": bytes((FF, FF, p.month, FF, FF))}[kind]
        c = date + bytes(f) + b"\0\0\xff"
        p = p.replace(tzinfo=datetime.timezone.utc)
        day, full = expected(c, p, datetime.timezone.utc)
        v = cdt.DateTime(bytearray(c))
        o.eq(v.get_left_nearest_date(p), day, f"date at or before {p}", "date")
        o.eq(v.get_left_nearest_datetime(p), full, f"moment at or before {p}", "datetime")
        if kind == "any":
            r = brute_time(f, (p.hour, p.minute, p.second, p.microsecond // 10000))
            o.eq(cdt.Time(bytearray(f)).get_left_nearest_time(p.time()), None if r is None else datetime.time(*r[:3], r[3] * 10000), f"time at or before {p}", "time")

    def near(x, top):
        return [FF] + [y for y in (x - 1, x, x + 1) if 0 <= y <= top]
    ctx.all("carry", [(p, k, f) for p in pts for k in ("any", "day", "before", "weekday", "month")
                      for f in itertools.product(near(p.hour, 23), near(p.minute, 59), near(p.second, 59), near(p.microsecond // 10000, 99))], one)


@unit("leap", 4)
def leap(ctx):
    """days that not every year or month has, named also by their day of week"""
    years = ctx.pick((*range(1900, 1934), *range(2100, 2142)), range(1896, 2300))
    ctx.bound(f"29 February, and day 29, 30, 31 of any month, on any or each day of week, from 27 February to 1 March and from the ends of April in {len(years)} years around 1900 and 2100")

    def one(case, o):
        y, m, d, w = case
        c = bytes((FF, FF, m, d, w, FF, FF, FF, FF)) + b"\0\0\xff"
        v = cdt.DateTime(bytearray(c))
        for p in [D(y, 2, 27), D(y, 2, 28, 23, 59, 59, 990000), D(y, 3, 1), D(y, 4, 30, 12), D(y, 5, 1)] + ([D(y, 2, 29, 7)] if y % 4 == 0 and (y % 100 or y % 400 == 0) else []):
            p = p.replace(tzinfo=datetime.timezone.utc)
            day, full = expected(c, p, datetime.timezone.utc)
            o.eq(v.get_left_nearest_date(p), day, f"date at or before {p}", "date")
            o.eq(v.get_left_nearest_datetime(p), full, f"moment at or before {p}", "datetime")
    ctx.all("leap", [(y, m, d, w) for y in years for m, d in ((2, 29), (FF, 29), (FF, 30), (FF, 31)) for w in (FF, *range(1, 8))], one)


@unit("time", 2)
def times(ctx):
    H, M, S, F = ((FF, 0, 1, 12, 23), (FF, 0, 30, 59), (FF, 0, 15, 59), (FF, 0, 50, 99))
    pts = [datetime.time(h, m, s, f * 10000) for h, m, s, f in itertools.product((0, 12, 23), (0, 30, 59), (0, 15, 59), ctx.pick((0, 50), (0, 50, 99)))]
    ctx.bound(f"{len(H) * len(M) * len(S) * len(F)} time patterns from {len(pts)} points of the day")

    def one(f, o):
        v = cdt.Time(bytearray(f))
        for p in pts:
            if f[0] != FF and f[0] > p.hour and f.count(FF) > 1 and ctx.quick:
                continue
            r = brute_time(f, (p.hour, p.minute, p.second, p.microsecond // 10000))
            o.eq(v.get_left_nearest_time(p), None if r is None else datetime.time(*r[:3], r[3] * 10000), f"time at or before {p}", "time")
    ctx.all("time", list(itertools.product(H, M, S, F)), one)
