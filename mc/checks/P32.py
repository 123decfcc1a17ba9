"""P32: calendars - the season, week, day, action and rate in force at any moment, against the tables read directly;
consistency of the tables; new entries; the clock the answers depend on."""
import calendar
import datetime
import itertools
import env
import refdate
from ref26 import u8, u16, os, st, ar, ln, bo, bits, DT
from explorer import unit, outcome, rejects, _Silent as Quiet

col = env.mod("cosem_interface_classes.collection")
cst = env.mod("types.cosem_service_types")
ut = env.mod("types.useful_types")
cdt = env.mod("types.common_data_types")

D = datetime.datetime
TD = datetime.timedelta
UTC = datetime.timezone.utc
FF = 0xff
CAL, DAYS, CLOCK, SCHED = "0.0.13.0.0.255", "0.0.11.0.0.255", "0.0.1.0.0.255", "0.0.12.0.0.255"
SCRIPT = "0.0.10.0.100.255"
ASSUMPTIONS = ["a collection with clock, special days table and activity calendar; moments carry a zone"]


def zone(m):
    return datetime.timezone(TD(minutes=m))


def add(c, cid, v, n):
    return c.add(ut.CosemClassId(cid), cdt.Unsigned(v), cst.LogicalName(n))


def world():
    c = col.Collection()
    s = type("S", (), {})()
    s.c = c
    s.clock, s.days, s.cal = add(c, 8, 0, CLOCK), add(c, 11, 0, DAYS), add(c, 20, 0, CAL)
    return s


def date(y, m, d, w=FF):
    return bytes((y >> 8, y & 255, m, d, w))


def enc(v):
    return None if v is None else bytes(v.encoding)


def season(name, start, week):
    return st(os(name), os(start), os(week))


def week(name, *ids):
    return st(os(name), *map(u8, ids))


def action(start, sel, script=SCRIPT):
    return st(os(bytes(start)), ln(script), u16(sel))


def day(i, *actions):
    return st(u8(i), ar(*actions))


# ------------------------------------------------------------------ season
Y = 0xffff
T0 = (0, 0, 0, 0)
STARTS = [date(Y, 1, 1) + bytes(T0), date(Y, 6, 1) + bytes(T0), date(Y, 9, 15) + bytes((12, 30, 0, FF)), date(Y, 2, 29) + bytes((0, 0, FF, FF)),
          date(2024, 6, 1) + bytes(T0), date(2030, 1, 1) + bytes(T0), date(2023, 3, 31) + bytes((FF, FF, FF, FF)), date(Y, FF, 1) + bytes(T0),
          date(Y, FF, FF, 1) + bytes((6, 0, 0, 0)), date(Y, 12, 31) + bytes((23, 59, 59, 99)), date(Y, FF, FF) + bytes(T0), date(1999, 12, 31) + bytes((FF, 30, FF, FF))]
POINTS = [D(2024, 6, 1), D(2024, 5, 31, 23, 59, 59, 990000), D(2024, 1, 1), D(2024, 2, 29, 12), D(2025, 2, 28, 23), D(2023, 9, 15, 12, 30), D(2023, 9, 15, 12, 29, 59), D(2024, 12, 31, 23, 59, 59, 990000),
          D(2030, 6, 2, 3, 4, 5), D(2024, 3, 4, 5, 59), D(1999, 12, 31, 0, 29), D(1999, 12, 30), D(2024, 10, 1)]
_memo = {}


def left(start, p, dev):
    """the latest moment not after p the start names (its own zone, or that of p)"""
    k = start, p, dev
    if k not in _memo:
        tz = p.tzinfo if dev is None else zone(dev)
        r = refdate.expected(start, p.astimezone(tz), tz)[1]
        _memo[k] = r
    return _memo[k]


@unit("season", shards=8)
def seasons(ctx):
    n = ctx.pick(3, 4)
    pts = ctx.pick(POINTS[:9], POINTS)

    def body(case, o):
        zone_, devs, starts = case
        s = world()
        el = [season(b"s%d" % i, x + (b"\x80\0" if d is None else d.to_bytes(2, "big", signed=True)) + b"\xff", b"w%d" % (i % 2)) for i, (x, d) in enumerate(zip(starts, devs))]
        s.cal.set_attr(3, ar(*el))
        s.cal.set_attr(7, ar(season(b"p", DT, b"w1")))
        s.cal.set_attr(4, ar(week(b"w0", *[1] * 7), week(b"w1", *[2] * 7)))
        for p in pts:
            p = p.replace(tzinfo=zone(zone_))
            m = [left(x, p, d) for x, d in zip(starts, devs)]
            top = max((x for x in m if x is not None), default=None)
            k, r = outcome(s.cal.get_current_season, p)
            if top is None:
                o.eq(k, "err", f"season at {p}, none has begun", "none")
                o.eq(outcome(s.cal.get_current_week, p)[0], "err", f"week at {p}, no season has begun", "none")
            else:
                o.ok(k == "ok" and enc(r) in [e for e, x in zip(el, m) if x == top], f"season at {p}: got {r!r} {enc(r).hex() if k == 'ok' else ''}, begun {m}", "season")
                k, w = outcome(s.cal.get_current_week, p)
                o.ok(k == "ok" and bytes(w.week_profile_name.contents) == bytes(r.week_name.contents), f"week at {p}: {w!r}", "week")
        o.eq(enc(s.cal.get_attr(3)), ar(*el), "the table itself", "unchanged")
    cases = [(0, (None,) * k, x) for k in range(0, n) for x in itertools.product(STARTS, repeat=k)]
    cases += [(0, (None,) * n, x) for x in itertools.combinations(STARTS, n)] + [(0, (None,) * n, x[::-1]) for x in itertools.combinations(STARTS, n)]
    cases += [(z, d, x) for z in (180, -300) for d in itertools.product((None, 180, 0), repeat=2) for x in itertools.product(STARTS[:7], repeat=2)]
    ctx.all("season", cases, body)
    ctx.bound(f"all lists of up to {n - 1} and all sets of {n} of {len(STARTS)} season starts, in zones 0, +180 and -300, from {len(pts)} moments")


# ------------------------------------------------------------------ day
SPECIAL = [date(2024, 5, 9), date(Y, 5, 9), date(Y, FF, 1), date(Y, FF, FF, 6), date(2024, 2, FF), date(Y, 2, 0xfe), date(Y, FF, 0xfd), date(2023, 5, 9), date(Y, 12, 25), date(2024, 5, 9, 4), date(Y, 5, 9, 2), date(Y, FF, FF)]


def falls(pat, d):
    y, m, dd, w = pat[0] << 8 | pat[1], pat[2], pat[3], pat[4]
    last = calendar.monthrange(d.year, d.month)[1]
    return y in (Y, d.year) and m in (FF, d.month) and (dd == FF or d.day == {0xfe: last, 0xfd: last - 1}.get(dd, dd)) and w in (FF, d.isoweekday())


@unit("day", shards=4)
def days(ctx):
    dates = [D(2024, 5, 9), D(2023, 5, 9), D(2024, 2, 29), D(2024, 2, 28), D(2023, 2, 28), D(2024, 5, 1), D(2024, 5, 11), D(2024, 12, 25), D(2024, 5, 30), D(2024, 4, 29)] + [D(2024, 7, 1 + i) for i in range(7)]

    def body(case, o):
        special, missing = case
        s = world()
        s.days.set_attr(2, ar(*[st(u16(i), os(p), u8(20 + i)) for i, p in enumerate(special)]))
        ids = [i for i in (*range(1, 15), 20, 21, 22) if i not in missing]
        s.cal.set_attr(5, ar(*[day(i, action((0, 0, 0, 0), i)) for i in ids]))
        s.cal.set_attr(9, ar(*[day(i) for i in (9, 8, 1)]))
        s.cal.set_attr(4, ar(week(b"a", *range(1, 8)), week(b"b", *range(8, 15))))
        s.cal.set_attr(8, ar(week(b"a", *[1] * 7)))
        s.cal.set_attr(3, ar(season(b"1", date(Y, 1, 1) + bytes(T0) + b"\x80\0\xff", b"a"), season(b"2", date(Y, 5, 10) + bytes(T0) + b"\x80\0\xff", b"b")))
        s.cal.set_attr(7, ar())
        for d in dates:
            for t, z in ((TD(0), 0), (TD(hours=23, minutes=59, seconds=59), 0), (TD(minutes=30), 180), (TD(hours=23), -300)):
                p = (d + t).replace(tzinfo=zone(z))
                hit = [20 + i for i, x in enumerate(special) if falls(x, d)]
                want = hit or [d.isoweekday() + (7 if (d.month, d.day) >= (5, 10) else 0)]
                k, r = outcome(s.days.get_day_id_of_current_special_day, p)
                o.ok(k == "ok" and (r is None and not hit or r is not None and int(r) in hit), f"special day on {p}: {r!r}, expected one of {hit}", "special")
                k, r = outcome(s.cal.get_current_day, p)
                if set(want) <= set(missing):
                    o.eq(k, "err", f"day on {p}, day {want} is not in the table", "missing")
                elif not set(want) & set(missing):
                    o.ok(k == "ok" and int(r.day_id) in want and int(r.day_schedule[0].script_selector) == int(r.day_id), f"day on {p}: {r!r}, expected {want}", "day")
    cases = [(sp, miss) for k in range(3) for sp in itertools.permutations(SPECIAL, k) for miss in ((), (20,), (3, 10), (4,))]
    cases += [(sp, ()) for sp in itertools.combinations(SPECIAL, 3)]
    ctx.all("day", cases, body)
    ctx.bound(f"all ordered lists of up to 2 and all sets of 3 of {len(SPECIAL)} special days on {len(dates)} dates (a whole week, month and year ends, a leap year), days missing")


@unit("names")
def names(ctx):
    """the week of a season is the one of exactly that name; the day of a week the one of exactly that number, 0 and 255 among them"""
    NAMES = [b"", b"a", b"ab", b"abc", b"b", b"\0", b"a\0", b"A"]

    def body(case, o):
        order, n, sp = case
        s = world()
        ids = {w: tuple((37 * k + 50 * j) % 256 for j in range(7)) for k, w in enumerate(NAMES)}
        s.cal.set_attr(5, ar(*[day(i) for i in sorted({i for v in ids.values() for i in v} | {0, 255}, reverse=len(order[0]) % 2)]))
        s.cal.set_attr(4, ar(*[week(w, *ids[w]) for w in order]))
        s.cal.set_attr(3, ar(season(b"x", date(Y, 1, 1) + bytes(T0) + b"\x80\0\xff", n)))
        if sp is None:
            s.days.set_attr(2, ar())
        else:
            s.days.set_attr(2, ar(st(u16(0), os(date(2024, 7, 3)), u8(sp)), st(u16(1), os(date(2024, 7, 3)), u8(sp)), st(u16(2), os(date(2024, 7, 4)), u8(0))))
        for d in range(1, 8):
            p = D(2024, 7, d, 12, tzinfo=UTC)
            k, r = outcome(s.cal.get_current_season, p)
            o.ok(k == "ok" and bytes(r.week_name.contents) == n, f"season {r!r}", "season")
            k, r = outcome(s.cal.get_current_week, p)
            if n in order:
                o.ok(k == "ok" and bytes(r.week_profile_name.contents) == n, f"week {n} of {order}: {r!r}", "week")
            else:
                o.eq(k, "err", f"week {n} of {order}", "week")
            want = sp if sp is not None and d == 3 else 0 if sp is not None and d == 4 else ids[n][p.weekday()] if n in order else None
            k, r = outcome(s.cal.get_current_day, p)
            o.eq((k, int(r.day_id) if k == "ok" else None), ("err" if want is None else "ok", want), f"day of {p}", "day")
    ctx.all("names", [(order, n, sp) for k in (1, 2, 3) for order in itertools.permutations(NAMES, k) for n in NAMES if k < 3 or n in order for sp in (None, 0, 255)][::ctx.pick(3, 1)], body)
    ctx.bound(f"weeks named by lists of up to 3 of {len(NAMES)} names (one the beginning of another), days 0 and 255, special days of number 0")


@unit("ticking")
def ticking(ctx):
    """the clock goes on between two looks at it: the answer is that of one moment, never a mixture of two"""
    class Ticking(col.Collection):
        reads = ()

        @property
        def current_time(self):
            t = self.base + self.step * len(self.reads)
            self.reads = (*self.reads, t)
            return t

    def rate(t, sp):
        d = 50 + t.day if sp else t.isoweekday() + (7 if t.month >= 7 else 0)
        return d, 10 * d + (t.hour >= 12)

    def body(case, o):
        base, step, sp = case
        s = type("S", (), {})()
        s.c = Ticking()
        s.days, s.cal = add(s.c, 11, 0, DAYS), add(s.c, 20, 0, CAL)
        s.c.base, s.c.step = base, step
        s.days.set_attr(2, ar(*[st(u16(i), os(date(Y, FF, i)), u8(50 + i)) for i in (range(1, 32) if sp else ())]))
        s.cal.set_attr(5, ar(*[day(i, action(T0, 10 * i), action((12, 0, 0, 0), 10 * i + 1)) for i in range(1, 82)]))
        s.cal.set_attr(4, ar(week(b"a", *range(1, 8)), week(b"b", *range(8, 15))))
        s.cal.set_attr(3, ar(season(b"a", date(Y, 1, 1) + bytes(T0) + b"\x80\0\xff", b"a"), season(b"b", date(Y, 7, 1) + bytes(T0) + b"\x80\0\xff", b"b")))
        for f, g in ((s.cal.get_current_rate, lambda t: rate(t, sp)[1]), (lambda: int(s.cal.get_current_day().day_id), lambda t: rate(t, sp)[0]),
                     (lambda: bytes(s.cal.get_current_week().week_profile_name.contents), lambda t: b"b" if t.month >= 7 else b"a"), (lambda: bytes(s.cal.get_current_season().season_profile_name.contents), lambda t: b"b" if t.month >= 7 else b"a")):
            s.c.reads = ()
            k, r = outcome(f)
            if not s.c.reads:                          # the time came from elsewhere
                o()
                continue
            o.ok(k == "ok" and r in {g(t) for t in s.c.reads}, f"looked at the clock at {[str(t) for t in s.c.reads]}: got {r!r}, in force then {[g(t) for t in s.c.reads]}", "mixture")
    H = TD(hours=1)
    ctx.all("ticking", [(b.replace(tzinfo=UTC), d, sp) for b in (D(2024, 6, 30, 23, 59, 59), D(2024, 6, 30, 11, 59, 59), D(2024, 12, 31, 23, 59, 59), D(2024, 7, 2, 23, 59, 59), D(2024, 6, 30, 10), D(2024, 7, 7, 20))
                        for d in (TD(0), TD(seconds=1), H, 13 * H, 25 * H, -H, -13 * H) for sp in (False, True)], body)
    ctx.bound("every look at the clock shows a later (or earlier) moment: 6 starts at the edges of half-days, days, weeks and seasons x 7 steps")


# ------------------------------------------------------------------ action
ACTS = [(0, 0, 0, 0), (0, 0, FF, FF), (6, 0, 0, 0), (12, 30, 0, FF), (23, 59, 0, 0), (FF, 30, 0, 0), (6, 0, 0, 0), (FF, FF, FF, FF), (12, FF, 0, 0), (18, 15, 10, 0)]
TIMES = [(0, 0, 20), (5, 59, 30), (6, 0, 20), (12, 29, 20), (12, 30, 20), (12, 45, 15), (18, 15, 5), (18, 15, 30), (23, 59, 20), (0, 30, 20)]


def set_clock(s, moment, ago=0, tz=None):
    """the clock showed `moment` `ago` seconds ago"""
    s.clock.set_attr(2, os(date(moment.year, moment.month, moment.day) + bytes((moment.hour, moment.minute, moment.second, 0)) + (moment.utcoffset() // TD(minutes=1)).to_bytes(2, "big", signed=True) + b"\0"))
    s.clock.set_record_time(2, cdt.DateTime(D.now(UTC) - TD(seconds=ago)))
    if tz is not None:
        s.clock.set_attr(3, cdt.Long(tz).encoding)


@unit("action", shards=4)
def actions(ctx):
    def body(case, o):
        s = world()
        acts = [action(t, i + 1) for i, t in enumerate(case)]
        s.cal.set_attr(5, ar(day(1, *acts), day(2, action((0, 0, 0, 0), 99))))
        s.cal.set_attr(4, ar(week(b"a", *[1] * 5, 2, 2)))
        s.cal.set_attr(3, ar(season(b"1", date(Y, 1, 1) + bytes(T0) + b"\x80\0\xff", b"a")))
        for t in TIMES:
            p = D(2024, 7, 3, *t, tzinfo=UTC)
            set_clock(s, p)
            lim = (*t, 0)
            # the clock goes on while the answer is made: only the decision within the next ten seconds counts
            got = [refdate.brute_time(a, lim) for a in case]
            later = [refdate.brute_time(a, (t[0], t[1], t[2] + 9, 99)) for a in case]
            top = max((x for x in got if x is not None), default=None)
            ok = {i + 1 for i, x in enumerate(got) if x is not None and x == top} | {i + 1 for i, (x, y) in enumerate(zip(got, later)) if y != x}
            k, r = outcome(s.cal.get_current_action)
            if not ok:
                o.eq(k, "err", f"action at {p}", "none")
                o.eq(outcome(s.cal.get_current_rate)[0], "err", f"rate at {p}", "none")
            elif top is not None:
                o.ok(k == "ok" and int(r.script_selector) in ok and enc(r) == acts[int(r.script_selector) - 1], f"action at {p}: {r!r}, expected one of {ok}", "action")
                k, r = outcome(s.cal.get_current_rate)
                o.ok(k == "ok" and r in ok, f"rate at {p}: {r!r}, expected one of {ok}", "rate")
    ctx.all("action", [c for k in range(ctx.pick(3, 4)) for c in itertools.product(ACTS, repeat=k)] + list(itertools.combinations(ACTS, 3)), body)
    ctx.bound(f"all lists of up to {ctx.pick(2, 3)} and all sets of 3 of {len(ACTS)} start times at {len(TIMES)} times of day shown by the clock")


@unit("clock")
def clocks(ctx):
    def body(case, o):
        moment, dev, ago, tz = case
        s = world()
        p = moment.replace(tzinfo=zone(dev))
        set_clock(s, p, ago, tz)
        k, r = outcome(lambda: s.c.current_time)
        want = moment.replace(tzinfo=zone(dev if tz is None else tz)) + TD(seconds=ago)
        o.ok(k == "ok" and abs(r - want) < TD(seconds=5) and r.utcoffset() == want.utcoffset(), f"current time: {r!r}, expected about {want}", "time")
        c2 = world()
        o.eq(outcome(lambda: c2.c.current_time)[0], "err", "current time of a clock never read", "never")
    ctx.all("clock", [(m, d, a, z) for m in (D(2024, 2, 29, 23, 59, 50), D(2023, 12, 31, 12), D(2020, 1, 1)) for d in (0, 180, -60, 720) for a in (0, 1, 59, 3600, 86400 * 3, 86400 * 400) for z in (None, d)], body)


# ------------------------------------------------------------------ consistency
@unit("validate", shards=2)
def validates(ctx):
    """every small calendar: unique names, references that exist"""
    def body(case, o):
        days_, weeks_, seasons_, other = case
        s = world()
        good = (ar(season(b"S", DT, b"W")), ar(week(b"W", *[1] * 7)), ar(day(1)))
        el = (ar(*[season(bytes([n]), DT, bytes([w])) for n, w in seasons_]), ar(*[week(bytes([n]), *ids) for n, ids in weeks_]), ar(*[day(i) for i in days_]))
        for i, v in zip((3, 4, 5), good if other else el):
            s.cal.set_attr(i, v)
        for i, v in zip((7, 8, 9), el if other else good):
            s.cal.set_attr(i, v)
        ok = all(x in days_ for _, ids in weeks_ for x in ids) and all(w in [n for n, _ in weeks_] for _, w in seasons_)
        k, e = outcome(s.cal.validate)
        o.eq(k == "ok", ok, f"calendar with days {days_}, weeks {weeks_}, seasons {seasons_} accepted", "valid")
        # names made equal afterwards
        for i, j, names in ((3, 7, seasons_), (4, 8, weeks_), (5, 9, days_)):
            t = s.cal.get_attr(j if other else i)
            if ok and len(names) > 1:
                was = enc(t[1][0])
                k, _ = outcome(t[1][0].set, t[0][0].encoding)
                if k == "ok":
                    o.eq(outcome(s.cal.validate)[0], "err", "calendar with a repeated name accepted", "repeated")
                    t[1][0].set(was)
    ids = [(1,) * 7, (2,) * 7] + [tuple(2 if i == j else 1 for i in range(7)) for j in range(7)]
    W = [()] + [((5, x),) for x in ids] + [((5, x), (6, y)) for x in ids[:3] for y in ids]
    S = [(), ((1, 5),), ((1, 6),), ((1, 5), (2, 5)), ((1, 5), (2, 6)), ((1, 6), (2, 5)), ((1, 7), (2, 5))]
    def three(case, o):
        """references and names of a third (and fourth) entry"""
        days_, weeks_, seasons_, other = case
        s = world()
        good = (ar(season(b"S", DT, b"W")), ar(week(b"W", *[1] * 7)), ar(day(1)))
        el = (ar(*[season(n, DT, w) for n, w in seasons_]), ar(*[week(n, *ids) for n, ids in weeks_]), ar(*[day(i, *[action(T0, 1)] * (i % 2)) for i in days_]))
        for i, v in zip((3, 4, 5), good if other else el):
            s.cal.set_attr(i, v)
        for i, v in zip((7, 8, 9), el if other else good):
            s.cal.set_attr(i, v)
        ok = all(x in days_ for _, ids in weeks_ for x in ids) and all(w in [n for n, _ in weeks_] for _, w in seasons_)
        o.eq(outcome(s.cal.validate)[0] == "ok", ok, f"calendar with days {days_}, weeks {weeks_}, seasons {seasons_} accepted", "valid")
    full = [b"a", b"ab", b"abc", b"b"]
    holes = [(2,) * 7] + [tuple(9 if i == j else (1, 2, 3, 0)[i % 4] for i in range(7)) for j in range(7)]
    cases = [((0, 1, 2, 3), tuple((n, h if i == k else (3,) * 7) for i, n in enumerate(full)), tuple((n, n) for n in full), other) for k in range(4) for h in holes for other in (False, True)]
    cases += [((3,), tuple((n, (3,) * 7) for n in full[:m]), tuple((n, w if i == k else b"a") for i, n in enumerate(full)), other) for m in (1, 2, 3, 4) for k in range(4) for w in (*full, b"", b"A", b"abcd") for other in (False, True)]
    ctx.all("four entries", cases, three)

    def repeated(case, o):
        """one of n names made equal to another one"""
        n, i, j, a, other = case
        s = world()
        good = (ar(season(b"S", DT, b"W")), ar(week(b"W", *[1] * 7)), ar(day(1)))
        el = (ar(*[season(bytes([k]), DT, b"\0") for k in range(n)]), ar(*[week(bytes([k]), *[0] * 7) for k in range(n)]), ar(*[day(k) for k in range(n)]))
        for x, v in zip((3, 4, 5), good if other else el):
            s.cal.set_attr(x, v)
        for x, v in zip((7, 8, 9), el if other else good):
            s.cal.set_attr(x, v)
        o.eq(outcome(s.cal.validate)[0], "ok", f"{n} entries", "valid")
        t = s.cal.get_attr(a + 4 * other)
        st_, r = outcome(t[j][0].set, t[i][0].encoding)
        if st_ == "ok":
            o.eq(outcome(s.cal.validate)[0], "err", f"{n} entries of attribute {a}, {j} named like {i}: accepted", "repeated")
    ctx.all("repeated names", [(n, i, j, a, other) for n in (2, 3, 5, 8, 20) for i in range(n) for j in range(1, n) if i != j and (n < 20 or (i + j) % 7 == 0) for a in (3, 4, 5) for other in (False, True)], repeated)
    ctx.all("validate", list(itertools.product([(), (1,), (2,), (1, 2), (2, 3), (1, 2, 3)], W, S, (False, True))), body)


# ------------------------------------------------------------------ new entries
class Tables:
    """appending new and given elements, in any order"""
    def __init__(self, which):
        self.which = which

    def fresh(self):
        s = world()
        s.names = []
        if self.which == "schedule":
            s.t = add(s.c, 10, 0, SCHED).get_attr(2)
        elif self.which == "special":
            s.t = s.days.get_attr(2)
        else:
            a = self.which == "active"
            s.day, s.week, s.season = (s.cal.get_attr(i) for i in ((5, 4, 3) if a else (9, 8, 7)))
        s.lists = {k: [] for k in ("day", "week", "season", "t")}
        return s

    def ops(self, s):
        if self.which == "special":
            return [("new", "t"), *[("give", "t", i) for i in (0, 1, 2, 700)], ("insert", "t", 1), ("insert", "t", 9), ("pop", "t"), *[("index", i, v) for i in range(min(len(s.lists["t"]), 2)) for v in (0, 1, 2, 9)]]
        return [(k, t, *x) for t in ("day", "week", "season") for k, *x in (("new",), ("give", 0), ("give", 1), ("give", 5), ("insert", 1), ("insert", 5), ("pop",))]

    def make(self, t, i):
        return {"t": lambda: st(u16(i), os(date(Y, 1, 1)), u8(1)), "day": lambda: day(i), "week": lambda: week(bytes([i]), *[0] * 7), "season": lambda: season(bytes([i]), DT, b"\0")}[t]()

    def name(self, e):
        x = e[0]
        return int(x) if not isinstance(x, cdt.OctetString) else x.contents[0]

    def apply(self, s, op, o):
        kind, t, *x = op
        if kind == "index":
            names = s.lists["t"]
            k, r = outcome(s.t[t][0].set, x[0])
            if x[0] in names and names[t] != x[0]:
                o.eq(k, "err", f"setting the index of entry {t} to the index {x[0]} of another", "unique")
            else:
                o.eq(k, "ok", f"setting the index of entry {t} to the free index {x[0]} ({r!r})", "free")
                names[t] = x[0]
            return
        a, names = getattr(s, t), s.lists[t]
        if kind == "pop":
            if names:
                a.pop()
                names.pop()
        elif kind == "give":
            k, r = outcome(a.append, a.TYPE(self.make(t, x[0])))
            o.eq(k == "ok", x[0] not in names, f"{t}: append {x[0]} to {names}", "append")
            if k == "ok":
                names.append(x[0])
        elif kind == "insert":
            k, r = outcome(a.insert, 0, a.TYPE(self.make(t, x[0])))
            o.eq(k == "ok", x[0] not in names, f"{t}: insert {x[0]} before {names}", "insert")
            if k == "ok":
                names.insert(0, x[0])
        else:
            need = {"week": s.lists["day"], "season": s.lists["week"]}.get(t)
            k, r = outcome(a.new_element)
            if need is not None and not need:
                o.eq(k, "err", f"new {t} with nothing to refer to", "new-refused")
                return
            o.ok(k == "ok" and self.name(r) not in names, f"new element of {t}: {r!r}, present {names}", "new")
            if need is not None:
                refs = [int(v) for v in list(r)[1:]] if t == "week" else [r[2].contents[0]]
                o.ok(all(v in need for v in refs), f"new {t} refers to {refs}, present {need}", "reference")
            a.append(r)
            names.append(self.name(r))

    def invariant(self, s):
        o = Quiet()
        for t, names in s.lists.items():
            if getattr(s, t, None) is not None:
                o.eq([self.name(e) for e in getattr(s, t)], names, f"names in {t}", "names")
        if self.which == "special":
            o.eq(list(s.t.get_indexes()), s.lists["t"], "indexes", "names")
        return o

    def canon(self, s):
        return tuple((k, tuple(v)) for k, v in s.lists.items())


@unit("tables", shards=2)
def tables(ctx):
    for w in ("active", "passive", "special"):
        ctx.bfs(w, Tables(w), ctx.pick(4, 6))

    def full(case, o):
        t, n, *hole = case
        sys_ = Tables("special" if t == "t" else "active")
        s = sys_.fresh()
        if t != "t":
            s.day.append(s.day.TYPE(day(0)))
            s.week.append(s.week.TYPE(week(b"\0", *[0] * 7)))
        a = getattr(s, t)
        a.clear()
        for i in range(n + len(hole)):
            if i not in hole:
                a.append(a.TYPE(sys_.make(t, i)))
        k, r = outcome(a.new_element)
        if hole:
            o.ok(k == "ok" and sys_.name(r) not in {*range(n + 1)} - {*hole}, f"new element of {t} with all but {hole} of {n + 1} present: {r!r}", "new")
            return
        if n < 256 or t == "t":
            o.ok(k == "ok" and sys_.name(r) == n, f"new element of {t} with {n} present: {r!r}", "new")
        else:
            o.eq(k, "err", f"new element of {t} with all names in use", "full")
    ctx.all("full", [(t, n) for t in ("day", "week", "season") for n in (1, 2, 127, 128, 254, 255, 256)] + [("t", n) for n in (1, 255, 256, 257)] + [(t, n, h) for t in ("day", "week", "season", "t") for n in (1, 2, 127, 254, 255) for h in (0, 1, 126, 254, 255) if h <= n], full)


@unit("delete")
def delete(ctx):
    """the method delete of the special days table takes the indexes present, after any history of tables"""
    def body(case, o):
        s = world()
        for op in case:
            if op == "clear":
                s.days.clear_attr(2)
            else:
                if s.days.get_attr(2) is None:
                    s.days.set_attr(2)
                s.days.set_attr(2, ar(*[st(u16(i), os(date(Y, 1, 1)), u8(1)) for i in op]))
                for x in range(5):
                    k, r = outcome(s.days.delete.set, x)
                    o.eq(k == "ok", x in op, f"delete {x} from {op}", "delete")
                    if k == "ok":
                        o.eq(int(s.days.delete), x, "the parameter", "value")
    T = [(), (1,), (2, 3), (3, 0, 4), "clear"]
    ctx.all("delete", [c for n in range(1, 4) for c in itertools.product(T, repeat=n)], body)
