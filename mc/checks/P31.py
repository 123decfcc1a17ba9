"""P31: templates and saved settings - what is written to a template or a settings file comes back from it."""
import itertools
import os
import ref26 as r
from typelib import col, cst, cdt, AV, KEYS, MAN, VER, OPEN, LN, enc, plain, values, type_file, library, get
from explorer import unit, outcome
import xml.etree.ElementTree as ET
import env

ut = env.mod("types.useful_types")


def several(samples):
    return len({s[0] for s in samples}) > 1


def text_samples(key, i):
    """samples a text determines"""
    if i in OPEN.get(key, ()) or i in r.DYNAMIC.get(key, ()):
        return []
    ss = r.CLASSES[key][1][i - 2][1] or ()
    return [s for s in ss if not (several(ss) and s[0] in (1, 2))]


def attr_cases():
    """(class, attribute, value in the type file, value written)"""
    for key in KEYS:
        for i in range(2, len(r.CLASSES[key][1]) + 2):
            ss = text_samples(key, i)
            for s in ss:
                if several(ss):
                    yield key, i, str(s[0]), s
                else:
                    yield key, i, None, s
                    for p in ss:
                        yield key, i, p.hex(), s


def type_of(case):
    key, i, prev, s = case
    return bytes([key[0], key[1], i]) + bytes.fromhex("" if prev is None else f"{int(prev):02x}" if len(prev) <= 2 else __import__("hashlib").md5(prev.encode()).hexdigest()[:8])


@unit("values", shards=8)
def vals(ctx):
    with library():
        cases = list(attr_cases())
        for c in cases:
            key, i, prev, s = c
            type_file(type_of(c), [(key, r.CLASSES[key][0], [] if prev is None else [(i, prev)])])

        def body(case, o):
            key, i, prev, s = case
            ln = r.CLASSES[key][0]
            c = get(type_of(case))
            x = c.get_object(ln)
            x.set_attr(i, s)
            used = {x.logical_name: {i}}
            for verified in (False, True):
                col.to_xml4([c], "t.xml", used, verified)
                o.eq({bytes(k.contents): v for k, v in used.items()}, {bytes(LN(ln).contents): {i}}, "used attributes after writing", "used")
                cols, u, w = col.from_xml4("t.xml")
                o.eq(len(cols), 1, "collections", "collections")
                o.eq({bytes(k.contents): v for k, v in u.items()}, {bytes(LN(ln).contents): {i}}, "used attributes", "used")
                o.eq(w, verified, "verified", "verified")
                d = cols[0]
                o.eq((d.manufacturer, enc(d.server_type), d.collection_ver), (MAN.encode(), enc(c.server_type), AV.from_str(VER)), "type of the collection", "identification")
                y = d.get_object(ln)
                if verified:
                    with open("t.xml", encoding="utf-8") as f:
                        t = f.read()
                    with open("t0.xml", "w", encoding="utf-8") as f:
                        f.write(t.replace('verified="1"', 'verified="0"'))
                    o.eq(col.from_xml4("t0.xml")[2], False, "verified is 0", "verified")
                o.eq(enc(y.get_attr(i)), plain(s), f"attribute {i}", "value")
                z = get(type_of(case)).get_object(ln)
                o.eq({k: v for k, v in values(y).items() if k != i}, {k: v for k, v in values(z).items() if k != i}, "other attributes", "other")
                o.eq(enc(z.get_attr(i)) == enc(y.get_attr(i)) and prev not in (None, s.hex()) and len(prev) > 2 and plain(s) != plain(bytes.fromhex(prev)), False, "the type itself was changed", "library")
        ctx.all("template", cases, body)

        def settings(case, o):
            key, i, prev, s = case
            ln = r.CLASSES[key][0]
            c = get(type_of(case))
            x = c.get_object(ln)
            o.ok(not c.to_xml2("none.xml") and not os.path.exists("none.xml"), "settings of an unchanged collection were saved", "unchanged")
            x.set_attr(i, s)
            was = enc(get(type_of(case)).get_object(ln).get_attr(i))
            want = s != was and s != b"\x01\x00"
            o.eq(c.to_xml2("s.xml"), want, f"saving {s.hex()} over {was and was.hex()}", "saved")
            if want:
                d = get(type_of(case))
                d.from_xml2("s.xml")
                y = d.get_object(ln)
                o.eq(enc(y.get_attr(i)), s, f"attribute {i}", "value")
                o.eq({k: v for k, v in values(y).items() if k != i}, {k: v for k, v in values(get(type_of(case)).get_object(ln)).items() if k != i}, "other attributes", "other")
                os.unlink("s.xml")
            # all values, whatever their rights
            c.to_xml("a.xml")
            e = get(type_of(case))
            e.from_xml2("a.xml")
            o.eq(values(e.get_object(ln)), values(x), "attributes saved one and all", "all-values")
        ctx.all("settings", [c for c in cases if c[1] not in r.DYNAMIC.get(c[0], ())], settings)
    ctx.bound(f"{len(cases)} pairs of a value in the type and a value written, over every attribute whose type the class decides, of {len(KEYS)} classes")


# ------------------------------------------------------------------ texts
@unit("texts", shards=4)
def texts(ctx):
    with library():
        T = b"txt"
        key, ln = (1, 0), "0.0.96.50.9.255"
        ln2 = "0.0.25.10.0.255"
        type_file(T + b"v", [(key, ln, [(2, "10")])])
        type_file(T + b"u", [(key, ln, [(2, "12")])])
        type_file(T + b"n", [((100, 0), ln2, [])])

        def body(case, o):
            t = "".join(case)
            for tag, name in ((10, b"v"), (12, b"u")):
                b = t.encode()
                if tag == 10 and not t.isascii():
                    continue
                c = get(T + name)
                c.get_object(ln).set_attr(2, bytes([tag, len(b)]) + b)
                col.to_xml4([c], "t.xml", {LN(ln): {2}})
                cols, _, _ = col.from_xml4("t.xml")
                o.eq(enc(cols[0].get_object(ln).get_attr(2)), bytes([tag, len(b)]) + b, f"text {t!r}", "text")
            c = get(T + b"n")
            keys = r.ar(*[r.st(r.u32(n), r.os(x.encode())) for n, x in enumerate(case)])
            c.get_object(ln2).set_attr(6, keys)
            col.to_xml4([c], "t.xml", {LN(ln2): {6}})
            cols, _, _ = col.from_xml4("t.xml")
            o.eq(enc(cols[0].get_object(ln2).get_attr(6)), keys, f"list {case}", "list")
        A = ["a", "<", "&", '"', "'", " ", "é", "ж", "]]>", "0", ""]
        ctx.all("texts", [c for n in range(0, ctx.pick(3, 4) + 1) for c in itertools.product(A, repeat=n)], body)


# ------------------------------------------------------------------ several collections
@unit("collections", shards=4)
def collections(ctx):
    A, B, C = ((8, 0), "0.0.1.0.0.255"), ((1, 0), "0.0.96.50.9.255"), ((100, 0), "0.0.25.10.0.255")
    HAVE = {b"m1": (A, B), b"m2": (A, C), b"m3": (B, C)}
    VAL = {A[1]: {3: r.i16(180), 9: r.en(2)}, B[1]: {2: r.u16(7)}, C[1]: {4: r.u16(124), 3: r.os(b"pool")}}
    with library():
        for t, objs in HAVE.items():
            for v in ("1.2.3", "1.2.4", "2.0.0"):
                type_file(t, [(k, ln, [(2, "18")] if k == (1, 0) else []) for k, ln in objs], v)

        def body(case, o):
            """case: ((type, version, attributes without value), ...), used"""
            servers, used = case
            cols = []
            for t, v, miss in servers:
                c = get(t, v)
                for k, ln in HAVE[t]:
                    for i, e in VAL[ln].items():
                        if (ln, i) not in miss:
                            c.get_object(ln).set_attr(i, e)
                        elif (k, i) != ((1, 0), 2):
                            c.get_object(ln).clear_attr(i)
                cols.append(c)
            has = {(ln, i): [n for n, (t, v, miss) in enumerate(servers) if any(x == ln for _, x in HAVE[t]) and (ln, i) not in miss] for ln in VAL for i in VAL[ln]}
            f = "t.xml"
            u = {LN(ln): set(i) for ln, i in used}
            st, e = outcome(col.to_xml4, cols, f, u)
            o.eq({bytes(k.contents): v for k, v in u.items()}, {bytes(LN(ln).contents): set(i) for ln, i in used}, "used attributes after writing", "used")
            if any(not has[ln, i] for ln, ii in used for i in ii):
                o.ok(st == "err" and isinstance(e, ValueError) and not os.path.exists(f), f"template without a value: {e!r}", "refused")
                return
            o.ok(st == "ok", f"{e!r}", "refused")
            back, u2, w = col.from_xml4(f)
            os.unlink(f)
            o.eq([(x.manufacturer, enc(x.server_type)[2:], x.collection_ver) for x in back], [(MAN.encode(), t, AV.from_str(v)) for t, v, _ in servers], "collections", "collections")
            o.eq({bytes(k.contents): v for k, v in u2.items() if v}, {bytes(LN(ln).contents): set(i) for ln, i in used if i}, "used attributes", "used")
            for (t, v, _), x in zip(servers, back):
                for k, ln in HAVE[t]:
                    z = get(t, v).get_object(ln)
                    for i in range(2, len(r.CLASSES[k][1]) + 2):
                        want = VAL[ln][i] if i in dict(used).get(ln, ()) else enc(z.get_attr(i))
                        o.eq(enc(x.get_object(ln).get_attr(i)), want, f"{t} {v} {ln} attribute {i}", "value")
        sub = [(), (3,), (9,), (3, 9)]
        sets = [tuple((ln, i) for ln, i in ((A[1], a), (B[1], b), (C[1], c)) if i) for a in sub for b in ((), (2,)) for c in ((), (4,), (3, 4))]
        sets = [s for s in sets if s]
        one = [(t, "1.2.3", m) for t in HAVE for m in ((), ((A[1], 3),), ((C[1], 4),))]
        more = [(t, v, ()) for t in HAVE for v in ("1.2.4", "2.0.0")]
        servers = [(a,) for a in one] + [(a, b) for a in one for b in one + more if a[:2] != b[:2]]
        servers += [(a, b, c) for a, b, c in itertools.permutations(ctx.pick(more[:3] + one[:1], one + more), 3) if len({x[:2] for x in (a, b, c)}) == 3]
        ctx.all("collections", [(s, u) for s in servers for u in sets], body)


# ------------------------------------------------------------------ rights
@unit("rights", shards=2)
def rights(ctx):
    A, B = ((8, 0), "0.0.1.0.0.255"), ((100, 0), "0.0.25.10.0.255")
    VAL = {A: {3: r.i16(180), 9: r.en(2), 2: r.dt12}, B: {4: r.u16(124), 3: r.os(b"pool")}}
    PICK = [(A, 3), (A, 9), (A, 2), (B, 4), (B, 3)]
    with library():
        combos = list(itertools.product((1, 3), repeat=4))
        for n, (a, b, c, d) in enumerate(combos):
            m = {(3, A[1]): [1, 3, a, 1, 1, 1, 1, 1, b], (2, A[1]): [1, 1, b, 1, 1, 1, 1, 1, 1], (3, B[1]): [1, 1, 1, c, 1, 1, 1], (2, B[1]): [1, 1, d, 1, 1, 1, 1]}
            type_file(bytes([n + 1]), [(*A, []), (*B, [])], modes=m, assoc=(2, 3))

        def body(case, o):
            n, ass, changed = case
            a, b, c, d = combos[n]
            mode = {(3, A, 3): a, (3, A, 9): b, (2, A, 3): b, (3, B, 4): c, (2, B, 3): d}
            t = bytes([n + 1])
            x = get(t)
            for k in changed:
                (key, ln), i = PICK[k]
                x.get_object(ln).set_attr(i, VAL[key, ln][i])
            want = {PICK[k] for k in changed if mode.get((ass, *PICK[k])) == 3}
            o.eq(x.to_xml2("s.xml", association_id=ass), bool(want), f"saving for association {ass}", "saved")
            if want:
                y = get(t)
                y.from_xml2("s.xml")
                os.unlink("s.xml")
                for o_, i in PICK:
                    z = enc(get(t).get_object(o_[1]).get_attr(i))
                    o.eq(enc(y.get_object(o_[1]).get_attr(i)), VAL[o_][i] if (o_, i) in want else z, f"{o_[1]} attribute {i} for association {ass}", "value")
        ctx.all("rights", [(n, ass, ch) for n in range(16) for ass in (2, 3) for q in range(6) for ch in itertools.combinations(range(5), q)], body)


# ------------------------------------------------------------------ what tells a collection from another
@unit("named")
def named(ctx):
    """a collection built by hand, which knows its version as the version of the server, or of the collection, or both"""
    key, ln = (8, 0), "0.0.1.0.0.255"
    VS = ("1.2.3", "1.2.4", "2.0.0")
    with library():
        for t in (b"h1", b"h2"):
            for v in VS:
                type_file(t, [(key, ln, [(3, r.i16(int(v.replace(".", ""))).hex())])], v)

        def body(case, o):
            t, sv, other, cv = case
            if sv is None and cv is None:
                return
            c = col.Collection()
            c.set_manufacturer(MAN.encode())
            c.set_server_type(cdt.OctetString(bytearray(t)))
            if other:
                c.set_server_ver(1, AV.from_str(other))
            if sv:
                c.set_server_ver(0, AV.from_str(sv))
            if cv:
                c.set_collection_ver(AV.from_str(cv))
            c.set_country_ver(AV(3, 0))
            c.set_spec()
            c.add(class_id=ut.CosemClassId(8), version=cdt.Unsigned(0), logical_name=LN(ln)).set_attr(9, r.en(3))
            col.to_xml4([c], "t.xml", {LN(ln): {9}})
            h = ET.parse("t.xml").getroot()
            o.eq([h.findtext(n) for n in ("dlms_ver", "country", "country_ver")], ["6", "7", "3.0"], "identification in the template", "head")
            d = col.from_xml4("t.xml")[0]
            os.unlink("t.xml")
            v = sv or cv
            o.eq([(x.manufacturer, enc(x.server_type), x.collection_ver) for x in d], [(MAN.encode(), b"\x09\x02" + t, AV.from_str(v))], "collections", "named")
            x = d[0].get_object(ln)
            o.eq((enc(x.get_attr(3)), enc(x.get_attr(9))), (r.i16(int(v.replace(".", ""))), r.en(3)), "values", "value")
        ctx.all("named", itertools.product((b"h1", b"h2"), (None, *VS), (None, "9.9.9"), (None, *VS)), body)

        def settings(case, o):
            """settings are told from the type of the version the server has"""
            t, cv, sv, other, k = case
            c = get(t, cv)
            if other:
                c.set_server_ver(1, AV.from_str(other))
            if sv:
                c.set_server_ver(0, AV.from_str(sv), True)
            x = c.get_object(ln)
            x.set_attr(3, r.i16(k))
            x.set_attr(9, r.en(3))
            base = int((sv or cv).replace(".", ""))
            o.ok(c.to_xml2("s.xml"), "settings not saved", "saved")
            h = ET.parse("s.xml").getroot()
            os.unlink("s.xml")
            o.eq([(b.attrib["ln"], [(a.attrib["index"], a.text) for a in b.findall("attribute")]) for b in h.findall("object")], [(ln, [("3", r.i16(k).hex())] * (k != base) + [("9", r.en(3).hex())])], f"settings of a {cv} with server {sv}", "version")
        ctx.all("settings", itertools.product((b"h1", b"h2"), VS, (None, *VS), (None, "9.9.9"), [int(v.replace(".", "")) for v in VS]), settings)
    ctx.bound("versions of the server, of another device of it and of the collection, present and absent")


# ------------------------------------------------------------------ long and empty lists
@unit("shapes", shards=4)
def shapes(ctx):
    KEYS_LN, ASS = "0.0.25.10.0.255", "0.0.40.0.3.255"
    with library():
        for t in (b"s1", b"s2", b"s3"):
            type_file(t, [((100, 0), KEYS_LN, []), ((8, 0), "0.0.1.0.0.255", []), ((20, 0), "0.0.13.0.0.255", [])])

        def back(cols, lns, o):
            col.to_xml4(cols, "t.xml", lns)
            d = col.from_xml4("t.xml")[0]
            os.unlink("t.xml")
            o.eq(len(d), len(cols), "collections", "collections")
            return d

        def long(case, o):
            n, m = case
            cols = [get(t) for t in (b"s1", b"s2", b"s3")[:m]]
            keys = b"\x01" + (bytes([n]) if n < 128 else b"\x81" + bytes([n]) if n < 256 else b"\x82" + n.to_bytes(2, "big")) + b"".join(r.st(r.u32(i), r.os(b"%d" % i)) for i in range(n))
            for c in cols:
                c.get_object(KEYS_LN).set_attr(6, keys)
            for d in back(cols, {LN(KEYS_LN): {6}}, o):
                o.eq(enc(d.get_object(KEYS_LN).get_attr(6)), keys, f"list of {n}", "long")
        ctx.all("long lists", [(n, m) for n in (0, 1, 2, 127, 128, 129, 255, 256, 257, 300, 400) for m in (1, 2, 3)], long)

        def rights(case, o):
            m, lists = case
            cols = [get(t) for t in (b"s1", b"s2", b"s3")[:m]]
            lns = ("0.0.1.0.0.255", KEYS_LN, "0.0.13.0.0.255", ASS)
            kv = ((8, 0), (100, 0), (20, 0), (15, 1))
            want = r.ar(*[r.st(r.u16(kv[i][0]), r.u8(kv[i][1]), r.ln(lns[i]), r.st(r.ar(*[r.st(r.i8(k + 1), r.en(1), b"\0") for k in range(a)]), r.ar(*[r.st(r.i8(k + 1), r.en(1)) for k in range(b)]))) for i, (a, b) in enumerate(lists)])
            for c in cols:
                c.get_object(ASS).set_attr(2, want)
            for d in back(cols, {LN(ASS): {2}}, o):
                o.eq(enc(d.get_object(ASS).get_attr(2)), want, f"rights {lists}", "rights")
        sh = [(0, b) for b in (0, 1, 2)]      # rights to attributes have selectors, whose type a text does not tell
        ctx.all("empty lists", [(m, ls) for m in (1, 2) for n in range(1, ctx.pick(2, 3) + 1) for ls in itertools.product(sh, repeat=n)], rights)
    ctx.bound("lists of 0 to 400 elements and empty lists inside, for 1 to 3 collections")


# ------------------------------------------------------------------ one bit of a moment
@unit("bits", shards=2)
def bits(ctx):
    """settings saved: values that differ from that of the type in one byte, in every byte"""
    with library():
        BASE = {((8, 0), 5): r.dt12, ((8, 0), 6): r.dt12b, ((1, 0), 2): r.dt25, ((100, 0), 3): r.os(b"abcdef"), ((8, 0), 3): r.i16(180)}
        for (key, i), e in BASE.items():
            if key in KEYS:
                type_file(bytes([key[0], i]), [(key, r.CLASSES[key][0], [(i, e.hex())])])

        def body(case, o):
            key, i, n, b = case
            ln = r.CLASSES[key][0]
            t = bytes([key[0], i])
            c = get(t)
            x = c.get_object(ln)
            was = enc(x.get_attr(i))
            o.eq(was, BASE[key, i], "value in the type", "type")
            new = was[:n] + bytes([b]) + was[n + 1:]
            st, _ = outcome(x.set_attr, i, new)
            o(st)
            if st == "err" or enc(x.get_attr(i)) != new:
                return
            o.eq(c.to_xml2("s.xml"), new != was, f"saving {new.hex()} over {was.hex()}", "saved")
            if new != was:
                d = get(t)
                d.from_xml2("s.xml")
                os.unlink("s.xml")
                o.eq(enc(d.get_object(ln).get_attr(i)), new, f"attribute {i}", "value")
        ctx.all("bits", [(k, i, n, b) for (k, i), e in BASE.items() if k in KEYS for n in range(1 if e[0] in (25, 16) else 2, len(e)) for b in sorted({0, 1, 2, 0x7f, 0x80, 0xfe, 0xff, e[n] ^ 1, e[n]})], body)
    ctx.bound("every byte of a date-time in two forms, an octet string, a number: nine values of the byte")
