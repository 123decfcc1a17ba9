"""the latest moment a date-time / time pattern names that is not after a point, by brute force"""
import datetime

D = datetime.datetime
FF = 0xff


def brute_date(c, p, tz):
    """the latest day that carries the pattern and whose earliest named moment is not after p"""
    y, m, d, w = c[0] << 8 | c[1], c[2], c[3], c[4]
    t = [0 if x == FF else x for x in c[5:9]]
    hi = min(p.year, y) if y != 0xffff else p.year
    lo = y if y != 0xffff else max(1, p.year - 40)
    if y != 0xffff and y > p.year:
        return None
    for yy in range(hi, lo - 1, -1):
        for mm in range(12, 0, -1):
            if m not in (FF, mm):
                continue
            for dd in range(31, 0, -1):
                if d not in (FF, dd):
                    continue
                try:
                    x = D(yy, mm, dd, t[0], t[1], t[2], t[3] * 10000, tz)
                except ValueError:
                    continue
                if w != FF and x.isoweekday() != w or x > p:
                    continue
                return x
    return None


def brute_time(fields, limit):
    """latest time of day with the fields given, at most limit (h, m, s, f); None when there is none"""
    best = None
    h, m, s, f = fields
    # greedy over the four digits from the left, exact: at each level either equal the limit or drop below it
    def rec(i, acc, tight):
        if i == 4:
            return tuple(acc)
        top = (23, 59, 59, 99)[i]
        cand = [fields[i]] if fields[i] != FF else range(limit[i] if tight else top, -1, -1)
        for x in cand:
            if tight and x > limit[i]:
                continue
            r = rec(i + 1, acc + [x], tight and x == limit[i])
            if r is not None:
                return r
            if fields[i] == FF and not tight:
                break
        return None
    return rec(0, [], True)


def expected(c, p, tz):
    day = brute_date(c, p, tz)
    if day is None:
        return None, None
    lim = (p.hour, p.minute, p.second, p.microsecond // 10000) if day.date() == p.date() else (23, 59, 59, 99)
    r = brute_time(tuple(c[5:9]), lim)
    return day, None if r is None else day.replace(hour=r[0], minute=r[1], second=r[2], microsecond=r[3] * 10000)
