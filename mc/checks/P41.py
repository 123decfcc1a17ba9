"""P41: the schedule's table of entries and the indexes offered to its methods, the clock's status and the transitions of
the disconnect control."""
import env
from ref26 import u16, st, ar
from explorer import unit, outcome, rejects, _Silent as Quiet

col = env.mod("cosem_interface_classes.collection")
cdt, ut, cst = (env.mod(f"types.{n}") for n in ("common_data_types", "useful_types", "cosem_service_types"))
sch, clk, dis = (env.mod(f"cosem_interface_classes.{n}") for n in ("schedule", "clock", "disconnect_control"))
ASSUMPTIONS = ["entries are told apart by their encoding; a table with two different entries of one index is not refused by the package and not asked for"]


def entry(i, enabled=None):
    enabled = i & 1 if enabled is None else enabled
    return st(u16(i), bytes([3, enabled]), b"\x09\x06\x00\x00\x0a\x00\x64\xff", u16(1), b"\x09\x04\x06\0\0\0", u16(0xffff), b"\x04\x07\xfc", b"\x04\x09\0\0",
              b"\x09\x05\xff\xff\x04\x01\xff", b"\x09\x05\xff\xff\x09\x01\xff")


class Box:
    pass


class Schedule:
    """the table set, emptied, extended and shortened in every order, with the indexes the methods and the entries know"""
    def __init__(self, second):
        self.second = second        # a second schedule with a table of its own

    def fresh(self):
        s = Box()
        c = col.Collection()
        s.x = c.add(ut.CosemClassId(10), cdt.Unsigned(0), cst.LogicalName("0.0.12.0.0.255"))
        s.y = None
        if self.second:
            s.y = c.add(ut.CosemClassId(10), cdt.Unsigned(0), cst.LogicalName("0.0.12.0.1.255"))
            s.y.set_attr(2, ar(entry(77), entry(78)))
        s.m, s.m2 = [], [77, 78]
        return s

    def ops(self, s):
        if s.m is None:
            return [("set", ()), ("set", (4, 3)), ("none",)]
        return [("set", ()), ("set", (5,)), ("set", (9999, 1, 5)), ("same",), ("wrong",), ("clear",), *[("add", i) for i in (1, 5, 6)], ("raw", 8), ("insert", 0, 5), ("insert", 1, 2), ("pop",), ("drop",), *[("index", j, v) for j in range(min(2, len(s.m))) for v in (2, 6)], *([("move",), ("back",)] if self.second else [])]

    def apply(self, s, op, o):
        kind, *a = op
        if kind == "none":
            s.x.set_attr(2, None)
            s.m = []
        elif kind == "set":
            s.x.set_attr(2, ar(*map(entry, a[0])))
            s.m = list(a[0])
        elif kind == "same":
            rejects(o, lambda: s.x.set_attr(2, ar(entry(3), entry(4), entry(3))), (ValueError,), "a table with one entry twice", "twice")
        elif kind == "wrong":
            rejects(o, lambda: s.x.set_attr(2, ar(entry(3), entry(0))), (ValueError,), "a table with an entry of the index 0", "zero")
        elif kind == "clear":
            s.x.clear_attr(2)
            s.m = None
        elif kind in ("add", "raw"):
            present = entry(a[0]) in [e.encoding for e in s.x.entries]
            k, r = outcome(s.x.entries.append, sch.ScheduleTableEntry(entry(a[0])) if kind == "add" else entry(a[0]))
            o.eq(k == "ok", not present, f"entry {a[0]} appended to {s.m} ({r!r})", "append")
            if k == "ok":
                s.m.append(a[0])
        elif kind == "insert":
            present = entry(a[1]) in [e.encoding for e in s.x.entries]
            k, r = outcome(s.x.entries.insert, a[0], sch.ScheduleTableEntry(entry(a[1])))
            o.eq(k == "ok", not present, f"entry {a[1]} inserted into {s.m} ({r!r})", "insert")
            if k == "ok":
                s.m.insert(a[0], a[1])
        elif kind == "pop":
            if s.m:
                s.x.entries.pop()
                s.m.pop()
        elif kind == "drop":
            if s.m:
                s.x.entries.remove(s.x.entries[0])
                s.m.pop(0)
        elif kind in ("move", "back"):      # an entry taken out of one table and appended to the other
            (a, m), (b, n) = ((s.x, s.m), (s.y, s.m2))[::1 if kind == "move" else -1]
            if m and m[-1] not in n:
                b.entries.append(a.entries.pop())
                n.append(m.pop())
        elif kind == "index":
            if a[1] not in s.m:
                s.x.entries[a[0]].index.set(a[1])
                s.m[a[0]] = a[1]

    @staticmethod
    def parameters(x):
        return {"enable_disable": list(x.enable_disable), "insert": [x.insert.index], "delete": list(x.delete)}

    def invariant(self, s):
        o = Quiet()
        for x, m in ((s.x, s.m), (s.y, s.m2)):
            if x is None or m is None:
                continue
            o.eq([int(e.index) for e in x.entries], m, "entries", "entries")
            o.eq(list(x.entries.get_indexes()), m, "indexes of the table", "table")
            for n, p in [*self.parameters(x).items(), ("entries", [e.index for e in x.entries])]:
                for i, v in enumerate(p):
                    o.eq(outcome(v.get_indexes), ("ok", m), f"indexes known to {n} {i}", "known")
            for text in ("1", "2", "5", "9999", "77"):
                k, r = outcome(x.insert.index.check, text)
                o.eq(k == "ok", int(text) not in m, f"index {text} free with {m} present ({r!r})", "free")
            for text in ("", "0", "10000", "x"):
                o.eq(outcome(x.insert.index.check, text)[0], "err", f"index {text!r}", "invalid")
        return o

    def canon(self, s):
        return None if s.m is None else tuple(s.m), tuple(s.m2)


@unit("schedule", shards=2)
def schedule(ctx):
    d = ctx.pick(4, 6)
    ctx.bound(f"all histories of up to {d} of 19 operations on the table of entries, alone and beside a second schedule to whose table entries are moved")
    for second in (False, True):
        ctx.bfs("two schedules" if second else "one schedule", Schedule(second), d)


@unit("indexes")
def indexes(ctx):
    """which indexes an entry has, and which the ranges of the methods can name"""
    ctx.bound("all 65536 indexes of an entry, of a range to delete and of a range to enable or disable, and values beyond")

    def body(n, o):
        inside = 0 <= n <= 0xffff
        for name, make, hi in (("entry", lambda: sch.ScheduleTableEntry(entry(n)) if inside else sch.Index(n), 9999), ("delete", lambda: sch.DataDelete(st(u16(n), u16(n)) if inside else (n, n)), 9999),
                               ("enable_disable", lambda: sch.DataED(st(*[u16(n)] * 4) if inside else (n, n, n, n)), 0xffff)):
            k, r = outcome(make)
            o.eq(k == "ok", 1 <= n <= hi, f"index {n} in {name} accepted ({r!r})", name)
            if k == "ok" and name != "entry":
                o.eq([int(x) for x in r], [n] * len(r), "value", "value")
    ctx.all("indexes", [-1, *range(0x10000), 0x10000, 0x10001], body)


@unit("clock-status")
def clock_status(ctx):
    """octet clock_status: bit 0 invalid value, 1 doubtful value, 2 different clock base, 3 invalid clock status, 7 daylight saving active, 4 to 6 reserved"""
    ctx.bound("all 256 states of the clock")
    names = {0: "invalid value", 1: "doubtful value", 2: "different clock base", 3: "invalid clock status", 7: "daylight saving active"}

    def body(n, o):
        want = [t for b, t in names.items() if n >> b & 1]
        for v in (clk.ClockStatus(n), clk.ClockStatus(bytes([17, n]))):
            t = str(v)
            o.eq([x for x in names.values() if x in t], want, f"status {n:08b} as {t!r}", "flags")
            o.eq(len(t.replace(" ", "")), len("".join(want).replace(" ", "")) if want else len("empty"), f"status {n:08b} as {t!r}", "length")
            o.eq(v.encoding, bytes([17, n]), "encoding", "encoding")
    ctx.all("status", range(256), body)


@unit("disconnect")
def disconnect(ctx):
    """control_mode 0 to 6: remote disconnection b, c; manual f; local g; reconnection: remote a (to connected) or d (to
    ready), manual e, local h"""
    ctx.bound("all 256 control modes, control states and output states")
    table = {0: "", 1: "bcfgde", 2: "bcfgae", 3: "bcgde", 4: "bcgae", 5: "bcfgdeh", 6: "bcgdeh"}

    def body(n, o):
        k, v = outcome(dis.ControlMode, n)
        o.eq(k == "ok", n in table or 129 <= n <= 134, f"control mode {n}", "mode")
        if k == "ok":
            k, t = outcome(v.get_letters)
            o.eq(k, "ok", f"transitions of mode {n}: {t!r}", "letters")
            o.eq(len(set(t)), len(t), f"transitions of mode {n}: {t}", "once")
            if n in table:
                o.eq(sorted(t), sorted(table[n]), f"transitions of mode {n}", "letters")
                o.eq(outcome(dis.ControlMode(b"\x16" + bytes([n])).get_letters), ("ok", t), "transitions of the mode as received", "letters")
            else:
                o.ok(set("bc") <= set(t), f"remote disconnection in mode {n}: {t}", "remote")
        o.eq(outcome(dis.ControlState, n)[0] == "ok", n in (0, 1, 2), f"control state {n}", "state")
    ctx.all("modes", range(256), body)
    ctx.all("output", [(x, 0) for x in map(lambda i: bytes([i]), range(256))],
            lambda c, o: o.eq(str(dis.OutputState(b"\x03" + c[0])) == str(dis.OutputState(b"\x03\x00")), c[0] == b"\x00", f"text of the output {c[0].hex()}", "output"))
