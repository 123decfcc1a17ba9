"""P08: date, time and date-time values: validity, text, python conversion, field access, field changes."""
import datetime
import itertools
import env
import ref
from explorer import unit, outcome, rejects, Mismatch

cdt = env.mod("types.common_data_types")
cst = env.mod("types.cosem_service_types")
REFUSE = (ValueError,)
YEARS = (1, 2, 99, 100, 255, 1900, 1970, 2000, 2023, 2024, 2047, 2100, 9999, 10000, 0xfffe, 0xffff)
MONTHS = (0, 1, 2, 3, 4, 6, 11, 12, 13, 0xfc, 0xfd, 0xfe, 0xff)
DAYS = (0, 1, 2, 27, 28, 29, 30, 31, 32, 0xdf, 0xe0, 0xfc, 0xfd, 0xfe, 0xff)
WEEK = (0, 1, 2, 3, 4, 5, 6, 7, 8, 0xfe, 0xff)


def dates():
    for y, m, d, w in itertools.product(YEARS, MONTHS, DAYS, WEEK):
        yield bytes((y >> 8, y & 255, m, d, w))


HOURS = (0, 1, 9, 12, 23, 24, 0xfe, 0xff)
MINS = (0, 1, 30, 59, 60, 0xfe, 0xff)
HUND = (0, 1, 9, 10, 99, 100, 150, 0xfe, 0xff)


def times():
    for t in itertools.product(HOURS, MINS, MINS, HUND):
        yield bytes(t)


def fields_date(o, v, c):
    y = c[0] << 8 | c[1]
    o.eq(v.year, None if y == 0xffff else y, "year", "field")
    for name, x in (("month", c[2]), ("day", c[3])):
        if x not in (0xfd, 0xfe):
            o.eq(getattr(v, name), None if x == 0xff else x, name, "field")
    o.eq(v.weekday, None if c[4] == 0xff else c[4], "weekday", "field")


def fields_time(o, v, c):
    for name, x in zip(("hour", "minute", "second", "hundredths"), c):
        o.eq(getattr(v, name), None if x == 0xff else x, name, "field")


FEB29 = b"\xff\xff\2\x1d"
DT_TAILS = (b"\x80\0\xff", b"\0\x3c\0", b"\xff\x4c\x80")


@unit("date", 2)
def date(ctx):
    ctx.bound("16 years x 13 months x 15 days x 11 weekdays, valid and invalid: accepted exactly when they name a date; fields, built-in value and text of each valid one")

    def one(c, o):
        for t, tag in ((cdt.Date, b"\x1a"), (cst.OctetStringDate, b"\x09\x05")):
            mk = lambda: t(tag + c)
            if not ref.date_ok(c):
                rejects(o, mk, REFUSE, f"{c.hex()} is not a date", "validity")
                rejects(o, lambda: t(bytearray(c)), REFUSE, f"contents {c.hex()} are not a date", "validity")
                continue
            v = mk()
            o.eq(v.contents, c, "contents", "contents")
            o.eq(v.encoding, tag + c, "encoding", "encode")
            o.eq(t(bytearray(c)).contents, c, "from contents", "contents")
            fields_date(o, v, c)
            if c[:4] != FEB29:                  # the 29th of February of no particular year has no built-in date
                o.eq(v.decode(), ref.py((26, c)), "built-in date", "decode")
            o.eq(t(str(v)).contents, c, f"text {v} read back", "text")
    ctx.all("date", dates(), one)

    def from_py(d, o):
        for t in (cdt.Date, cst.OctetStringDate):
            v = t(d)
            o.eq(v.contents, bytes((d.year >> 8, d.year & 255, d.month, d.day, d.isoweekday())), "from a python date", "python")
            o.eq(v.decode(), d, "back to a python date", "python")
            v = t(datetime.datetime(d.year, d.month, d.day, 5))
            o.eq(v.decode(), d, "from a python datetime", "python")
    ys = ctx.pick((1, 2023, 2024), (1, 1900, 1999, 2000, 2023, 2024, 2100, 9999))
    ctx.all("python", [datetime.date(y, 1, 1) + datetime.timedelta(i) for y in ys for i in range(365)], from_py)

    def bad(c, o):
        for t, tag in ((cdt.Date, b"\x1a"), (cst.OctetStringDate, b"\x09\x05")):
            rejects(o, lambda: t(bytearray(c)), REFUSE, f"{len(c)} contents octets", "size")
            if len(c) < 5:
                rejects(o, lambda: t(tag + c), REFUSE, "cut", "size")
    ctx.all("wrong-size", [b"\x07\xe8\x01\x01\xff\xff\xff"[:n] for n in (0, 1, 4, 6, 7)], bad)


@unit("time")
def time(ctx):
    ctx.bound("8 hours x 7 minutes x 7 seconds x 9 hundredths, valid and invalid; every hour, minute, second and hundredth octet")

    def one(c, o):
        for t, tag in ((cdt.Time, b"\x1b"), (cst.OctetStringTime, b"\x09\x04")):
            mk = lambda: t(tag + c)
            if not ref.time_ok(c):
                rejects(o, mk, REFUSE, f"{c.hex()} is not a time", "validity")
                continue
            v = mk()
            o.eq((v.contents, v.encoding), (c, tag + c), "contents", "contents")
            fields_time(o, v, c)
            o.eq(v.decode(), ref.py((27, c)), "built-in time", "decode")
            o.eq(t(str(v)).contents, c, f"text {v} read back", "text")
    singles = [bytes((x, 1, 2, 3)) for x in range(256)] + [bytes((1, x, 2, 3)) for x in range(256)] + [bytes((1, 2, x, 3)) for x in range(256)] + [bytes((1, 2, 3, x)) for x in range(256)]
    ctx.all("time", itertools.chain(times(), singles), one)

    def from_py(d, o):
        for t in (cdt.Time, cst.OctetStringTime):
            o.eq(t(d).decode(), d, "python time and back", "python")
            o.eq(t(datetime.datetime.combine(datetime.date(2024, 2, 29), d)).decode(), d, "python datetime", "python")
    ctx.all("octet strings", [(t, n) for t in (cst.OctetStringTime, cst.OctetStringDate, cst.OctetStringDateTime) for n in range(16)],
            lambda c, o: rejects(o, lambda: c[0](bytes([9, c[1]]) + (b"\x07\xe8\x01\x01\xff\0\0\0\0\x80\0\xff\0\0\0\0" if c[0] is not cst.OctetStringTime else bytes(16))[:c[1]]), REFUSE, f"octet string of {c[1]} octets", "size")
            if c[1] != {cst.OctetStringTime: 4, cst.OctetStringDate: 5, cst.OctetStringDateTime: 12}[c[0]] else None)
    ctx.all("python", [datetime.time(h, m, s, f * 10000) for h in (0, 5, 23) for m in (0, 59) for s in (0, 7, 59) for f in (0, 1, 50, 99)], from_py)
    ctx.all("wrong-size", [bytes(n) for n in (0, 1, 3, 5, 9)], lambda c, o: [rejects(o, lambda: t(bytearray(c)), REFUSE, f"{len(c)} contents octets", "size") for t in (cdt.Time, cst.OctetStringTime)])


@unit("datetime", 4)
def dt(ctx):
    ctx.bound("valid and invalid dates x times (every third combination, diagonal pairing) x 3 deviations/statuses; deviations -720..720; clock statuses 0..255")
    ds = list(dates())
    ts = list(times())
    good_d = [d for d in ds if ref.date_ok(d)]
    good_t = [t for t in ts if ref.time_ok(t)]
    n = ctx.pick(1, 7)
    combos = [(good_d[i], good_t[(i * 7 + k * 31) % len(good_t)], DT_TAILS[(i + k) % 3]) for i in range(len(good_d)) for k in range(n)]
    combos += [(good_d[(i * 11) % len(good_d)], good_t[i], DT_TAILS[i % 3]) for i in range(len(good_t))]
    combos += [(d, b"\1\2\3\4", DT_TAILS[0]) for d in ds if not ref.date_ok(d)][::ctx.pick(9, 1)]
    combos += [(b"\x07\xe8\1\1\xff", t, DT_TAILS[0]) for t in ts if not ref.time_ok(t)][::ctx.pick(3, 1)]

    def one(case, o):
        c = b"".join(case)
        for t, tag in ((cdt.DateTime, b"\x19"), (cst.OctetStringDateTime, b"\x09\x0c")):
            mk = lambda: t(tag + c)
            if not ref.dt_ok(c):
                rejects(o, mk, REFUSE, f"{c.hex()} is not a date-time", "validity")
                continue
            v = mk()
            o.eq((v.contents, v.encoding), (c, tag + c), "contents", "contents")
            fields_date(o, v, c)
            fields_time(o, v, c[5:9])
            if c[:4] != FEB29:
                st, got = outcome(v.decode)
                o.eq(got if st == "ok" else repr(got), ref.py((25, c)), "built-in datetime", "decode")
            o.eq(t(str(v)).contents[:11], c[:11], f"text {v} read back", "text")
    ctx.all("datetime", combos, one)

    def dev(d, o):
        c = b"\x07\xe8\2\x1d\xff\1\2\3\4" + d.to_bytes(2, "big", signed=True) + b"\0"
        v = cdt.DateTime(b"\x19" + c)
        z = datetime.timezone(datetime.timedelta(minutes=d))
        o.eq(v.time_zone, z, "time zone", "zone")
        p = datetime.datetime(2024, 2, 29, 1, 2, 3, 40000, z)
        o.eq(v.decode().replace(tzinfo=None), p.replace(tzinfo=None), "built-in datetime", "decode")
        o.eq(v.decode().utcoffset(), p.utcoffset(), "utc offset", "zone")
        o.eq(cdt.DateTime(p).contents, c[:11] + b"\xff", "from a python datetime with a zone", "python")
        o.eq(cdt.DateTime(str(v)).contents[:11], c[:11], f"text {v}", "text")
    ctx.all("deviation", range(-720, 721), dev)
    ctx.all("wrong deviation", [x for x in (*range(-900, -720), *range(721, 900), -0x7fff, 0x7fff, 1440, -1440)],
            lambda d, o: rejects(o, lambda: cdt.DateTime(b"\x19\x07\xe8\2\x1d\xff\1\2\3\4" + d.to_bytes(2, "big", signed=True) + b"\0").time_zone, REFUSE, f"time zone of deviation {d}", "zone"))

    def status(s, o):
        base = b"\x07\xe8\2\x1d\xff\1\2\3\4\0\0\xff"
        v = cdt.DateTime(b"\x19" + base)
        v.set_clock_status(s)
        o.eq(v.contents, base[:11] + bytes([s]), "clock status set", "status")
    ctx.all("clock-status", range(256), status)

    def py(p, o):
        v = cdt.DateTime(p)
        o.eq(v.decode().replace(tzinfo=None), p, "python datetime and back", "python")
        o.eq(v.time_zone, None, "no zone", "zone")
    ctx.all("python", [datetime.datetime(y, m, d, h, mi, s, f * 10000) for y in (1, 2024, 9999) for m, d in ((1, 1), (2, 28), (12, 31)) for h in (0, 23) for mi in (0, 59) for s in (0, 59) for f in (0, 7, 99)], py)
    ctx.all("python-date", [datetime.date(y, m, d) for y in (1, 2024, 9999) for m, d in ((1, 1), (2, 28), (12, 31))], lambda d, o: o.eq(cdt.DateTime(d).contents, bytes((d.year >> 8, d.year & 255, d.month, d.day, d.isoweekday())) + b"\xff\xff\xff\xff\x80\0\xff", "from a date", "python"))
    ctx.all("wrong-size", [bytes(b"\x07\xe8\1\1\xff\0\0\0\0\x80\0\xff\0\0"[:n]) for n in (0, 5, 9, 11, 13, 14)], lambda c, o: rejects(o, lambda: cdt.DateTime(bytearray(c)), REFUSE, f"{len(c)} contents octets", "size"))


@unit("texts")
def texts(ctx):
    ctx.bound("dates written as d, weekday, d.m, d.m.Y, d.m-w, w-d.m, d.m.Y-w, w-d.m.Y and times as H, H:M, S.f, H:M:S, M:S.f, H:M:S.f over 3-6 field values each with blanks; malformed texts refused")
    D, M, Y, W = ("1", "09", "31", "__", "last", "penult"), ("1", "12", "__", "begin", "end"), ("2024", "23", "____", "1970", "123", "0007"), (("1", 1), ("вс", 7), ("Monday", 1), ("чет", 4), ("_", 255))
    dv = lambda s: {"__": 255, "last": 254, "penult": 253}.get(s) or int(s)
    mv = lambda s: {"__": 255, "begin": 254, "end": 253}.get(s) or int(s)
    yv = lambda s: 0xffff if "_" in s else int(s) + (2000 if len(s) <= 2 else 0)

    def one(case, o):
        text, c = case
        if not ref.date_ok(c):
            return
        o.eq(cdt.Date(text).contents, c, f"date from {text!r}", "text")
    cases = [(f"{d}", bytes((255, 255, 255, dv(d), 255))) for d in D if d.isdigit()] + [(w, bytes((255, 255, 255, 255, n))) for w, n in W if not w.isdigit() and w != "_"]
    for d, m in itertools.product(D, M):
        cases.append((f"{d}.{m}", bytes((255, 255, mv(m), dv(d), 255))))
        for w, n in W:
            cases += [(f"{d}.{m}-{w}", bytes((255, 255, mv(m), dv(d), n))), (f"{w}-{d}.{m}", bytes((255, 255, mv(m), dv(d), n)))]
        for y in Y:
            c = divmod(yv(y), 256)
            cases.append((f"{d}.{m}.{y}", bytes((*c, mv(m), dv(d), 255))))
            for w, n in W:
                cases += [(f"{d}.{m}.{y}-{w}", bytes((*c, mv(m), dv(d), n))), (f"{w}-{d}.{m}.{y}", bytes((*c, mv(m), dv(d), n)))]
    ctx.all("date", cases, one)
    H, S, F = ("0", "23", "__"), ("0", "5", "59", "__"), ("0", "09", "99", "__")
    n = lambda s: 255 if "_" in s else int(s)
    tc = [(h, (n(h), 255, 255, 255)) for h in H if h != "__"]
    tc += [(f"{h}:{m}", (n(h), n(m), 255, 255)) for h in H for m in S]
    tc += [(f"{s}.{f}", (255, 255, n(s), n(f))) for s in S for f in F]
    tc += [(f"{h}:{m}:{s}", (n(h), n(m), n(s), 255)) for h in H for m in S for s in S]
    tc += [(f"{m}:{s}.{f}", (255, n(m), n(s), n(f))) for m in S for s in S for f in F]
    tc += [(f"{h}:{m}:{s}.{f}", (n(h), n(m), n(s), n(f))) for h in H for m in S for s in S for f in F]
    ctx.all("time", tc, lambda c, o: o.eq(cdt.Time(c[0]).contents, bytes(c[1]), f"time from {c[0]!r}", "text"))
    full = [(f"{d} {t}{z}", dc + bytes(tcx) + zc + b"\xff") for (d, dc) in cases[::23] if ref.date_ok(dc) for (t, tcx) in tc[::17] for z, zc in (("", b"\x80\0"), (" 180", b"\0\xb4"), (" -180", b"\xff\x4c"), (" ", b"\x80\0"), (" -720", b"\xfd\x30"), (" 720", b"\2\xd0"))]
    ctx.all("datetime", full, lambda c, o: o.eq(cdt.DateTime(c[0]).contents, c[1], f"date-time from {c[0]!r}", "text"))
    bad = [(cdt.Date, s) for s in ("32.1", "1.13", "0.1", "1.0", "1.1.2024-8", "1.1.20245", "a.1", "1.1.1.1", "31.4", "30.2.2024", "+1.1.2020", "1.+1.2020", "1.1.+200", "1.1.2_0", "1.1.2_00", "1.1.-200", "1.1_0.2020", "29.2.2023", "1.1.2024-2", "1.1.70000", "1.1.67560", "1.1.65536", "1.1.02024")]
    bad += [(cdt.Time, s) for s in ("24", "24:0", "0:60", "0:0:60", "0:0:0.100", "a:0", "0:0:0:0", "-1:0", "+1:0", "0:+1", "0:0:+1", "1_0:0", "0:1_0")]
    bad += [(cdt.DateTime, s) for s in ("1.1.2024 0:0 721", "1.1.2024 0:0 -721", "1.1.2024 24:0", "32.1.2024 0:0", "1.1.2024 0:0 x")]
    ctx.all("malformed", bad, lambda c, o: rejects(o, lambda: c[0](c[1]), REFUSE, f"text {c[1]!r}", "malformed"))


@unit("changes")
def changes(ctx):
    ctx.bound("every value of each field setter on 6 date-times, 5 dates and 5 times; refused values leave the object unchanged; clear gives a valid default")
    base = {cdt.DateTime: (b"\x19", ["07e8021dff0102030400b400", "ffffffffffffffffff8000ff", "07e7010fff171e3b63ff4c80", "07e70101ff000000000000ff", "ffff0c1fff17ffffff8000ff"]),
            cdt.Date: (b"\x1a", ["07e8021dff", "ffffffffff", "07e7010fff", "07e7010f07", "ffff0c1fff"]), cdt.Time: (b"\x1b", ["01020304", "ffffffff", "171e3b63", "17ffffff", "00000000"])}
    setters = {"set_year": (0, 2, [2, 1970, 2023, 2024, 9999, 0xffff, 10000, 0x8000, 0xfffe, -1]), "set_month": (2, 1, range(0, 257)), "set_day": (3, 1, range(0, 257)), "set_weekday": (4, 1, list(range(1, 8)) + [255]),
               "set_hour": (0, 1, range(-1, 257)), "set_minute": (1, 1, range(-1, 257)), "set_hundredths": (3, 1, range(-1, 257))}

    def one(case, o):
        t, h, name, val = case
        tag, _ = base[t]
        c = bytes.fromhex(h)
        v = t(tag + c)
        i, n, _v = setters[name]
        if t is cdt.DateTime and name in ("set_hour", "set_minute", "set_hundredths"):
            i += 5
        calls = []
        v.register_cb_post_set(lambda: calls.append(1))
        st, e = outcome(getattr(v, name), val)
        ok = 0 <= val < 256 ** n
        if ok:
            want = c[:i] + val.to_bytes(n, "big") + c[i + n:]
            ok = ref.dt_ok(want) if t is cdt.DateTime else ref.date_ok(want) if t is cdt.Date else ref.time_ok(want)
            if name in ("set_month", "set_day") and val in (0xfd, 0xfe):
                ok = None                   # special days are not offered by the setters
        if ok:
            if st == "err":
                raise e
            o.eq(v.contents, want, f"{name}({val})", "set")
            o.eq(len(calls), 1, "callback after the change", "callback")
        elif ok is False:
            o.eq(st, "err", f"{name}({val}) refused", "refuse")
            o.ok(isinstance(e, ValueError), f"{name}({val}) refused with {e!r}", "refuse")
            o.eq((v.contents, len(calls)), (c, 0), "object after a refused change", "atomic")
    cases = [(t, h, name, val) for t, (_, hs) in base.items() for h in hs for name, (_, _, vals) in setters.items() if hasattr(t, name) for val in vals]
    ctx.all("setters", cases, one)

    def clear(case, o):
        t, h = case
        v = t(base[t][0] + bytes.fromhex(h))
        v.clear()
        o.eq(t(v.encoding).contents, v.contents, "a cleared value is a valid one", "clear")
        o.eq(v.contents, t().contents, "cleared value equals the default", "clear")

    def of_time(case, o):
        """a time of the day makes a date-time of an unspecified date"""
        h, m, s, hs = case
        c = bytes((h, m, s, hs))
        x = datetime.time(h, m, s, hs * 10_000)
        o.eq(cdt.DateTime(x).contents, b"\xff" * 5 + c + b"\x80\0\xff", "date-time of a time", "time of day")
        o.eq(cst.OctetStringDateTime(x).encoding, b"\x09\x0c" + b"\xff" * 5 + c + b"\x80\0\xff", "date-time of a time", "time of day")
    ctx.all("of time", itertools.product((0, 1, 12, 23), (0, 1, 59), (0, 1, 59), (0, 1, 99)), of_time)
    anytime = b"\xff" * 9 + b"\x80\0\xff"
    ctx.all("unspecified", [anytime] + [c for i in range(12) for c in [anytime[:i] + bytes([1]) + anytime[i + 1:]] if ref.dt_ok(c)],
            lambda c, o: o.eq(cdt.DateTime(bytearray(c)).is_default_value(), c == anytime, f"{c.hex()} is wholly unspecified", "unspecified"))
    ctx.all("clear", [(t, h) for t, (_, hs) in base.items() for h in hs], clear)
