"""P22: configuration lookup and translation of message templates; importing with and without ./config.toml."""
import itertools
import os
import subprocess
import sys
import env
from explorer import unit, outcome, rejects

cp = env.mod("config_parser")
MSG = cp.config["DLMS"]["messages"]


def ref(s):
    out = ""
    while s:
        if s.startswith("$$"):
            out, s = out + "$", s[2:]
        elif s[0] == "$":
            key, _, s = s[1:].partition("$")
            out += MSG.get(key) or key
        else:
            out, s = out + s[0], s[1:]
    return out


@unit("messages", shards=2)
def messages(ctx):
    n = ctx.pick(7, 8)
    ctx.bound(f"every text of up to {n} characters over $, o, r, blank and a 3-octet character; every known key between every pair of 7 contexts; all pairs of 6 keys")
    ctx.all("texts", ("".join(t) for k in range(n + 1) for t in itertools.product("$or€", repeat=k)), lambda s, o: o.eq(cp.get_message(s), ref(s), f"message {s!r}", "message"))
    around = ("", " ", "$$", "x", "é", "(0)", "$or$")
    ctx.all("keys", itertools.product(around, MSG, around), lambda c, o: o.eq(cp.get_message(f"{c[0]}${c[1]}${c[2]}"), ref(c[0]) + MSG[c[1]] + ref(c[2]), f"message {c}", "message"))
    odd = [" or", "or ", " ", "\t", "\n", "or\n", "OR", "o r", "$", "é", "or.", "or\0"]
    ctx.all("odd keys", itertools.product(around, odd, around), lambda c, o: o.eq(cp.get_message(f"{c[0]}${c[1]}${c[2]}"), ref(f"{c[0]}${c[1]}${c[2]}"), f"message {c}", "message"))
    keys = list(MSG)[:5] + ["unknown"]
    ctx.all("pairs", itertools.product(keys, keys, ("", " ", "-")), lambda c, o: o.eq(cp.get_message(f"${c[0]}${c[2]}${c[1]}$"), MSG.get(c[0], c[0]) + c[2] + MSG.get(c[1], c[1]), f"message {c}", "message"))


@unit("values")
def values(ctx):
    ctx.bound("every path of up to 3 keys into the configuration, every wrong key after each of them")

    def paths(d, p=()):
        yield p, d
        if isinstance(d, dict) and len(p) < 3:
            for k in d:
                yield from paths(d[k], p + (k,))

    def one(c, o):
        p, want = c
        o.ok(cp.get_values(*p) is want or cp.get_values(*p) == want, f"value of {p}", "value")
        got, code = cp.get_values2(*p)
        o.ok(code == 0 and got == want, f"value of {p}", "value")
        if isinstance(want, dict):
            o.eq(cp.get_values(*p, "no such key"), None, "unknown key", "value")
            o.eq(cp.get_values2(*p, "no such key")[1], -1, "unknown key", "value")
            o.eq(cp.get_values(*p, "no such key", "x"), None, "unknown key", "value")
    ctx.all("paths", list(paths(cp.config)), one)

    def any_value(v, o):
        """values which count as false are values too"""
        saved = dict(cp.config)
        try:
            cp.config.clear()
            cp.config.update({"a": v, "b": {"c": v, "": {"d": v}}, "e": {}})
            for p, want in ((("a",), v), (("b", "c"), v), (("b", "", "d"), v), (("e",), {})):
                o.ok(cp.get_values(*p) is not None and cp.get_values(*p) == want and type(cp.get_values(*p)) is type(want), f"value {want!r} of {p}: {cp.get_values(*p)!r}", "value")
                o.eq(cp.get_values2(*p), (want, 0), f"value of {p}", "value")
            for p in (("x",), ("e", "a"), ("b", "x"), ("b", "", "c")):
                o.eq((cp.get_values(*p), cp.get_values2(*p)[1]), (None, -1), f"absent key {p}", "value")
            o.eq(cp.get_values(), cp.config, "the whole", "value")
        finally:
            cp.config.clear()
            cp.config.update(saved)
    ctx.bound("13 kinds of values, false ones included")
    ctx.all("any", [0, 1, -1, 0.0, 1.5, "", "x", False, True, [], [0], {}, {"z": 0}], any_value)


PROBE = """
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, {repo!r})
from src.DLMS_SPODES.config_parser import get_values, get_message
assert get_message("$or$") == {want!r}, get_message("$or$")
import src.DLMS_SPODES.cosem_interface_classes.collection as c
from src.DLMS_SPODES.types import cdt, cst, ut
print("fine", cdt.Unsigned(5), cst.LogicalName("1.0.1.8.0.255"))
"""


@unit("import")
def imports(ctx):
    ctx.bound("working directory with and without config.toml, message section present or not; the whole package imported in a new process")
    import tomllib

    def one(kind, o):
        d = os.path.join(env.scratch(), "imp_" + kind.replace(" ", "_"))
        os.makedirs(d, exist_ok=True)
        text = open("config.toml", encoding="utf-8").read()
        with open(os.path.join(env.REPO, "src/DLMS_SPODES/config.toml"), "rb") as f:
            packaged = tomllib.load(f)
        want = packaged["DLMS"]["messages"]["or"]
        if kind == "own file":
            want = "ODER"
            text = text.replace(f'or = "{MSG["or"]}"', 'or = "ODER"')
            assert "ODER" in text
        elif kind == "no messages":
            want = "or"
            a = text.index("[DLMS.messages]")
            text = text[:a] + text[text.index("[", a + 5):]
        if kind != "no file":
            open(os.path.join(d, "config.toml"), "w", encoding="utf-8").write(text)
        r = subprocess.run([sys.executable, "-c", PROBE.format(repo=env.REPO, want=want)], cwd=d, capture_output=True, text=True, timeout=60)
        o.ok(r.returncode == 0 and "fine 5 1.0.1.8.0.255" in r.stdout, f"import with {kind}: {r.stderr[-300:]}", "import")
    ctx.all("configurations", ["no file", "own file", "no messages"], one)
