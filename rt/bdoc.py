"""An independent, strict reader of the documents the compiler hands to the
machine: every length, terminator and key is checked."""
import struct


class Bad(Exception):
    pass


def fields(b, at, end, what):
    out = []
    while True:
        if at >= end:
            raise Bad(f"{what}: no terminator at {at}")
        t = b[at]
        at += 1
        if t == 0:
            return out, at
        z = b.find(b"\0", at, end)
        if z < 0:
            raise Bad(f"{what}: key without an end at {at}")
        key = b[at:z].decode("utf-8")
        at = z + 1
        w = f"{what}.{key}"
        if t == 0x01:
            v = struct.unpack_from("<d", b, at)[0]
            at += 8
        elif t == 0x12:
            v = struct.unpack_from("<q", b, at)[0]
            at += 8
        elif t == 0x02:
            n = struct.unpack_from("<i", b, at)[0]
            at += 4
            if n < 0 or at + n + 1 > end:
                raise Bad(f"{w}: text of length {n} does not fit")
            v = b[at : at + n].decode("utf-8")
            at += n
            if b[at] != 0:
                raise Bad(f"{w}: text without a terminator")
            at += 1
        elif t == 0x05:
            n = struct.unpack_from("<i", b, at)[0]
            at += 4
            if n < 0 or at + 1 + n > end:
                raise Bad(f"{w}: binary of length {n} does not fit")
            if b[at] != 0x80:
                raise Bad(f"{w}: binary subtype {b[at]:#x}")
            v = bytes(b[at + 1 : at + 1 + n])
            at += 1 + n
        elif t in (0x03, 0x04):
            v, at = doc(b, at, end, w, t == 0x04)
        else:
            raise Bad(f"{w}: unknown type {t:#x}")
        if at > end:
            raise Bad(f"{w}: runs past the end")
        out.append((key, v))


def doc(b, at, end, what, array=False):
    if at + 5 > end:
        raise Bad(f"{what}: too short")
    n = struct.unpack_from("<i", b, at)[0]
    stop = at + 4 + n + 1  # the length counts the elements only
    if n < 0 or stop > end:
        raise Bad(f"{what}: document of length {n} does not fit")
    fs, e = fields(b, at + 4, stop, what)
    if e != stop:
        raise Bad(f"{what}: length {n} but its elements take {e - at - 5}")
    if array:
        for k, (key, _) in enumerate(fs):
            if key != str(k):
                raise Bad(f"{what}: key {key!r} of element {k}")
        return [v for _, v in fs], e
    d = dict(fs)
    if len(d) != len(fs):
        raise Bad(f"{what}: repeated key")
    return d, e


def loads(b):
    try:
        d, e = doc(b, 0, len(b), "")
    except (struct.error, UnicodeDecodeError, IndexError) as x:
        raise Bad(f"truncated or malformed: {x}")
    if e != len(b):
        raise Bad(f"{len(b) - e} bytes after the end")
    return d


KEYS = {"name": str, "builtin": int, "entry_locals": int, "constants": list, "names": list, "ops": bytes, "functions": list, "registos": list, "src_map": list, "imports": list}


def module(b):
    """-> main module dict, checked for the shape the machine reads"""
    m = loads(b)
    shape(m, "module")
    for k, i in enumerate(m["imports"]):
        if type(i) is not dict:
            raise Bad(f"import {k} is not a document")
        shape(i, f"import {k}")
    return m


def shape(m, w):
    for k, t in KEYS.items():
        if type(m.get(k)) is not t:
            raise Bad(f"{w}: {k} is missing or of the wrong kind")
    for k, t in (("constants", str), ("names", str), ("functions", dict), ("registos", dict), ("src_map", int)):
        for x in m[k]:
            if k == "constants" and type(x) in (int, float):
                continue
            if type(x) is not t:
                raise Bad(f"{w}: {k} has a {type(x).__name__}")
    for f in m["functions"]:
        if type(f.get("name")) is not str or any(type(f.get(k)) is not int for k in ("start_ip", "locals", "module")):
            raise Bad(f"{w}: function {f}")
    for f in m["registos"]:
        if type(f.get("name")) is not str or type(f.get("fields")) is not list or any(type(x) is not str for x in f["fields"]):
            raise Bad(f"{w}: record {f}")


def dumps(d):
    """The reference writer: the only document a value can give"""
    out = b""
    for k, v in d.items():
        key = k.encode() + b"\0"
        if type(v) is float:
            out += b"\x01" + key + struct.pack("<d", v)
        elif type(v) is int:
            out += b"\x12" + key + struct.pack("<q", v)
        elif type(v) is str:
            t = v.encode()
            out += b"\x02" + key + struct.pack("<i", len(t)) + t + b"\0"
        elif type(v) is bytes:
            out += b"\x05" + key + struct.pack("<i", len(v)) + b"\x80" + v
        elif type(v) is dict:
            out += b"\x03" + key + dumps(v)
        else:
            out += b"\x04" + key + dumps({str(i): x for i, x in enumerate(v)})
    return struct.pack("<i", len(out)) + out + b"\0"
