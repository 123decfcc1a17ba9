"""P37: references between objects - scripts, actors and actions, firmware and specification versions."""
import itertools
import os
import tomllib
import env
import ref26 as r
from explorer import unit, outcome, rejects, Mismatch

col = env.mod("cosem_interface_classes.collection")
cst = env.mod("types.cosem_service_types")
ut = env.mod("types.useful_types")
cdt = env.mod("types.common_data_types")
ver = env.mod("version")
exc = env.mod("exceptions")
COUNTRY = env.mod("types.implementations.enums") and env.mod("cosem_interface_classes.overview").CountrySpecificIdentifiers
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "config.toml"), "rb") as f:
    NAMES = tomllib.load(f)["DLMS"]["am_names"]

DC, CL, IM, TABLE = "0.0.96.3.10.255", "0.0.1.0.0.255", "0.0.44.0.0.255", "0.0.10.0.100.255"
CLASS = {DC: (70, 0), CL: (8, 0), IM: (18, 0)}


def add(c, cid, ln, v=0):
    return c.add(ut.CosemClassId(cid), cdt.Unsigned(v), cst.LogicalName(ln))


def enc(v):
    return None if v is None else bytes(v.encoding)


def action(svc, cid, ln, i, par=b"\0"):
    return svc, cid, ln, i, par


def name(a):
    """display name of what the action touches; None: it does not exist or is refused"""
    svc, cid, ln, i, par = a
    if ln not in CLASS or CLASS[ln][0] != cid or par != b"\0":
        return None
    _, attrs, meths = r.CLASSES[CLASS[ln]]
    items = [("logical_name", None), *attrs] if svc == 1 else meths
    if not 1 <= i <= len(items):
        return None
    return NAMES.get(items[i - 1][0], items[i - 1][0])


GOOD = [action(2, 70, DC, 1), action(2, 70, DC, 2), action(1, 70, DC, 4), action(2, 8, CL, 6), action(1, 8, CL, 1), action(1, 18, IM, 7), action(2, 18, IM, 4)]
BAD = [action(2, 8, DC, 1), action(1, 70, CL, 2), action(2, 70, DC, 3), action(2, 70, DC, 0), action(1, 70, DC, 5), action(1, 70, DC, -1), action(1, 70, "0.0.96.3.11.255", 2),
       action(1, 70, DC, 4, r.en(1)), action(2, 70, DC, 1, r.i8(0))]


def scripts(table):
    return r.ar(*(r.st(r.u16(n), r.ar(*(r.st(r.en(a[0]), r.u16(a[1]), r.ln(a[2]), r.i8(a[3]), a[4]) for a in acts))) for n, acts in table))


def base():
    c = col.Collection()
    for ln, (cid, v) in CLASS.items():
        add(c, cid, ln, v)
    return c, add(c, 9, TABLE)


def wanted(table, sel):
    for n, acts in table:
        if n == sel:
            names = [name(a) for a in acts]
            return None if None in names else ", ".join(names)
    return None


@unit("scripts", 4)
def script_names(ctx):
    def body(table, o):
        c, t = base()
        t.set_attr(2, scripts(table))
        before = enc(t.get_attr(2))
        for sel in sorted({n for n, _ in table} | {0, 1, 65535}):
            want = wanted(table, sel)
            for ln in (cst.LogicalName(TABLE), t.logical_name):
                if want is None:
                    rejects(o, lambda: c.get_script_names(ln, cdt.LongUnsigned(sel)), Exception, f"script {sel} of {table}", "refusal")
                else:
                    o.eq(c.get_script_names(ln, cdt.LongUnsigned(sel)), want, f"script {sel} of {table}", "names")
        o.eq(enc(t.get_attr(2)), before, "script table", "changed")
        for ln in (DC, "0.0.10.0.101.255"):
            rejects(o, lambda: c.get_script_names(cst.LogicalName(ln), cdt.LongUnsigned(1)), Exception, f"scripts of {ln}", "refusal")
    acts = [()] + [(a,) for a in GOOD + BAD] + list(itertools.product(GOOD, GOOD)) + [p for a in GOOD[:3] for b in BAD for p in ((a, b), (b, a))] + list(itertools.permutations(GOOD[:5], 3))
    few = [(), (GOOD[0],), (GOOD[4], GOOD[1]), (BAD[2],)]
    tables = [()] + [((n, a),) for a in acts for n in (1, 300)] + [((n, a), (m, b)) for n, m in itertools.product((0, 1, 2, 256), repeat=2) for a, b in itertools.product(few, repeat=2)]
    tables += [tuple(zip(p, s)) for p in itertools.product((1, 2, 3), repeat=3) for s in itertools.product(few, repeat=3)]
    tables += [((1, tuple(GOOD[i * i % len(GOOD)] for i in range(n))), (2, GOOD[:2])) for n in (4, 5, 7, 8, 9, 10, 15, 16, 17, 20, 32, 33, 127)]
    tables += [tuple((n + 1, (GOOD[n % len(GOOD)],)) for n in range(k)) for k in (4, 8, 9, 16, 17, 33)]
    if ctx.pick(False, True):
        tables += [((1, p),) for p in itertools.product(GOOD + BAD, repeat=3)]
    ctx.all("tables", tables, body)

    def actions(case, o):
        table, items = case
        c, t = base()
        t.set_attr(2, scripts(table))
        x = add(c, 68, "0.0.96.3.20.255")
        x.set_attr(2, r.ar(*(r.st(r.ln(ln), r.u16(n)) for ln, n in items)))
        want = [wanted(table, n) if ln == TABLE else None for ln, n in items]
        if None in want:
            rejects(o, x.get_action_names, Exception, f"actions {items}", "refusal")
        else:
            o.eq(x.get_action_names(), want, f"actions {items} with {table}", "actions")
    T = [((1, (GOOD[0],)), (2, (GOOD[1],)), (3, (GOOD[4], GOOD[2]))), ((1, ()), (2, (BAD[0],)), (1, (GOOD[0],)))]
    items = [(TABLE, 1), (TABLE, 2), (TABLE, 3), (TABLE, 4), (DC, 1), ("0.0.10.0.101.255", 1)]
    ctx.all("actions", [(t, i) for t in T for n in range(4) for i in itertools.product(items, repeat=n)], actions)
    ctx.bound("tables of up to 3 scripts (equal identifiers too) with up to 3 of 16 actions (wrong class, absent object, number outside, parameter); all lists of up to 3 of 6 references")


class Permissions:
    """Arbitrator: as many permission bits per actor as actions, whenever actions are set"""

    def fresh(self):
        x = add(col.Collection(), 68, "0.0.96.3.20.255")
        return {"x": x, "n": None, "rows": None}

    def ops(self, s):
        return [("actions", n) for n in (0, 1, 2, 9, 17)] + [("rows", t) for t in ((), ("1",), ("10", "01"), ("11", "1"), ("101010101", "10", ""), ("0" * 8 + "1",), ("10", "1") * 20)] + [("clear", 2), ("clear", 3)]

    def apply(self, s, op, o):
        x, (k, v) = s["x"], op
        if k == "actions":
            x.set_attr(2, r.ar(*(r.st(r.ln(TABLE), r.u16(i)) for i in range(v))))
            s["n"] = v
            s["rows"] = s["rows"] and tuple(b if len(b) == v else "0" * v for b in s["rows"])
        elif k == "rows":
            x.set_attr(3, r.ar(*(r.bits(b) for b in v)))
            s["rows"] = v
        else:
            x.clear_attr(v)
            s["n" if v == 2 else "rows"] = None

    def canon(self, s):
        return s["n"], s["rows"], enc(s["x"].get_attr(2)), enc(s["x"].get_attr(3))

    def invariant(self, s):
        got = enc(s["x"].get_attr(3))
        want = None if s["rows"] is None else r.ar(*(r.bits(b) for b in s["rows"]))
        if got != want and not (s["rows"] is None and got == r.ar()):
            raise Mismatch(f"permissions {got and got.hex()}, expected {want and want.hex()}", "permissions")


class Fresh(Permissions):
    def fresh(self):
        s = super().fresh()
        s["x"].clear_attr(2)
        s["x"].clear_attr(3)
        return s


@unit("permissions")
def permissions(ctx):
    ctx.bfs("cleared", Fresh(), ctx.pick(4, 7))
    ctx.bound("histories of 5 action lists, 7 permission tables and clearing to depth 4 (thorough 7)")


@unit("versions")
def versions(ctx):
    vs = [(a, b, c) for a in (0, 1, 2) for b in (0, 1, 10) for c in (None, 0, 2, 10)]

    def text(v):
        return ".".join(map(str, (x for x in v if x is not None))).encode()

    def newer(a, b):
        return (a[0], a[1], -1 if a[2] is None else a[2]) > (b[0], b[1], -1 if b[2] is None else b[2])

    def body(case, o):
        known, ch, got = case
        c = col.Collection()
        if known is not None:
            c.set_server_ver(0, ver.AppVersion(*known), force=True)
            c.set_server_ver(2, ver.AppVersion(9, 9, 9), force=True)
        x = add(c, 1, f"0.{ch}.0.2.1.255")
        limit = None if known is None else {0: known, 2: (9, 9, 9)}.get(ch)
        want = limit is not None and newer(got, limit)
        st, e = outcome(x.set_attr, 2, r.os(text(got)))
        o.eq((st, isinstance(e, exc.NeedUpdate)), ("err", True) if want else ("ok", False), f"firmware {got} of channel {ch}, known {limit}: {e!r}", "update")
        if want:
            o.eq(enc(x.get_attr(2)), None, "value after the refusal", "kept")
            x.set_attr(2, r.os(text(limit)))
            st, e = outcome(x.set_attr, 2, r.os(text(got)))
            o.ok(st == "err" and isinstance(e, exc.NeedUpdate), f"firmware {got} after {limit}: {e!r}", "update")
        else:
            o.eq(enc(x.get_attr(2)), r.os(text(got)), "value", "value")
            if limit is not None:
                st, e = outcome(x.set_attr, 2, r.os(b"99.0.0"))
                o.ok(st == "err" and isinstance(e, exc.NeedUpdate), f"firmware 99.0.0 after {got}: {e!r}", "update")
    ctx.all("firmware", [(k, ch, v) for k in [None, *vs] for ch in (0, 1, 2) for v in vs], body)

    def spodes():
        c = col.Collection()
        c.set_dlms_ver(6)
        c.set_country(COUNTRY.RUSSIA)
        c.set_country_ver(ver.AppVersion(3, 0))
        c.set_spec()
        return c

    def period(n, o):
        ok = n in (1, 2, 3, 5, 10, 15, 20, 30, 60)
        for ln in ("1.0.0.8.4.255", "1.0.0.8.5.255"):
            x = add(spodes(), 1, ln)
            for was in (None, 15):
                if was:
                    x.set_attr(2, r.u8(was))
                if ok:
                    x.set_attr(2, r.u8(n))
                    o.eq(enc(x.get_attr(2)), r.u8(n), f"period {n}", "period")
                    x.clear_attr(2)
                else:
                    rejects(o, lambda: x.set_attr(2, r.u8(n)), Exception, f"period {n}", "period")
                    o.eq(enc(x.get_attr(2)), was and r.u8(was), f"after the refusal of {n}", "period")
    ctx.all("measurement period", range(256), period)

    def spec(t, o):
        p = t.split(".")
        ok = len(p) == 2 and all(i and all("0" <= ch <= "9" for ch in i) for i in p) and (int(p[0]), int(p[1])) != (0, 0)
        for was in (None, b"3.0"):
            x = add(spodes(), 1, "0.0.96.1.6.255")
            if was:
                x.set_attr(2, r.os(was))
            if ok:
                x.set_attr(2, r.os(t.encode()))
                o.eq(enc(x.get_attr(2)), r.os(t.encode()), f"version {t!r}", "spec")
            else:
                rejects(o, lambda: x.set_attr(2, r.os(t.encode())), Exception, f"version of the specification {t!r}", "spec")
                o.eq(enc(x.get_attr(2)), was and r.os(was), f"after the refusal of {t!r}", "spec")
    ctx.all("specification", sorted({"".join(s) for n in range(ctx.pick(5, 6)) for s in itertools.product(("0", "3", "12", ".", "a", " "), repeat=n)} - {""}), spec)

    def man(case, o):
        a, b = case
        c = col.Collection()
        x = c.get_object("0.0.42.0.0.255")
        x.set_attr(2, r.os(a))
        o.eq((c.manufacturer, x.manufacturer), (a[:3], a[:3]), f"manufacturer from {a}", "manufacturer")
        x.clear_attr(2)
        if b[:3] == a[:3]:
            x.set_attr(2, r.os(b))
            o.eq(enc(x.get_attr(2)), r.os(b), "device name", "manufacturer")
        else:
            rejects(o, lambda: x.set_attr(2, r.os(b)), Exception, f"name {b} in a collection of {a}", "manufacturer")
            o.eq(enc(x.get_attr(2)), None, "device name after the refusal", "manufacturer")
        o.eq(c.manufacturer, a[:3], "manufacturer", "manufacturer")
    ctx.all("manufacturer", itertools.product((b"KPZ1234567", b"KPZ", b"KPA1234567", b"ABC0000000000000", b"kpz\xff\x00"), repeat=2), man)
    ctx.bound("36 versions x 37 known versions x 3 channels; all measurement periods; specification texts of up to 4 (thorough 5) of 6 pieces; pairs of 5 device names")
