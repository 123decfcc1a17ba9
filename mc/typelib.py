"""type files in a scratch library, and values read back from it (shared by P31 and P39)"""
import contextlib
import os
import shutil
import env
import ref26 as r

col = env.mod("cosem_interface_classes.collection")
cst = env.mod("types.cosem_service_types")
ut = env.mod("types.useful_types")
cdt = env.mod("types.common_data_types")
exc = env.mod("exceptions")
ver = env.mod("version")

AV = ver.AppVersion
KEYS = [k for k in r.CLASSES if k[0] != 15 and k != (40, 2)]
MAN = "ABC"
VER = "1.2.3"
#: the text of a date and time has no clock status and no unspecified fields to lose here
TEXT = {r.DT: r.DT[:-1] + b"\xff", r.DT2: r.DT2[:-1] + b"\xff"}
#: attributes whose members' types are not decided by the class (a text does not tell them)
OPEN = {(9, 0): (2,)}


def LN(s):
    return cst.LogicalName(s)


def enc(v):
    return None if v is None else bytes(v.encoding)


def plain(s):
    for a, b in TEXT.items():
        s = s.replace(a, b)
    return s


def values(x):
    return {i: enc(v) for i, v in x.get_index_with_attributes()}


def v3(key, ln, attrs):
    return f'<object name="x" ln="{ln}"><class_id>{key[0]}</class_id><version>{key[1]}</version>' + "".join(f'<attribute index="{i}">{t}</attribute>' for i, t in attrs) + "</object>"


def entry(key, ln, modes):
    return r.st(r.u16(key[0]), r.u8(key[1]), r.ln(ln), r.st(r.ar(*[r.st(r.i8(i), r.en(m), b"\0") for i, m in enumerate(modes, 1)]), r.ar()))


def type_file(t, objs, v=VER, modes=None, assoc=(3,)):
    """objs: ((key, ln, ((attribute, text), ...)), ...)"""
    modes = modes or {}
    lists = []
    for k in assoc:
        el = [entry((15, 1), f"0.0.40.0.{k}.255", [1] * 9)] + [entry(key, ln, modes.get((k, ln)) or [1] + [3] * len(r.CLASSES[key][1])) for key, ln, _ in objs]
        lists.append(v3((15, 1), f"0.0.40.0.{k}.255", [(2, r.ar(*el).hex())]))
    d = os.path.join("Types", MAN, (b"\x09" + bytes([len(t)]) + t).hex())
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, v + ".typ"), "w", encoding="utf-8") as f:
        f.write(f"<?xml version='1.0' encoding='utf-8'?><Objects version='3.2.0'><dlms_ver>6</dlms_ver><country>7</country><country_ver>3.0</country_ver><manufacturer>{MAN}</manufacturer>"
                f"<server_type>{(bytes([9, len(t)]) + t).hex()}</server_type><server_ver>{v}</server_ver>{''.join(lists)}{''.join(v3(*x) for x in objs)}</Objects>")


@contextlib.contextmanager
def library():
    home = os.getcwd()
    d = os.path.join(env.scratch(), f"p31_{os.getpid()}")
    os.makedirs(os.path.join(d, "Types"))
    os.chdir(d)
    for f in ("get_manufactures_container", "get_dir_entry", "get"):
        getattr(getattr(col, f, None), "cache_clear", lambda: None)()
    try:
        yield
    finally:
        os.chdir(home)
        shutil.rmtree(d)


def get(t, v=VER):
    return col.get_collection(MAN.encode(), cdt.OctetString(bytearray(t)), AV.from_str(v))
