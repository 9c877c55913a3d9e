"""Messages to damage: complete ones from many writers, and forged ones."""
from __future__ import annotations

import random
import struct

import graphs as G
import refv8 as V

from v8serialize import Encoder, default_encode_steps
from v8serialize.extensions import serialize_js_array_buffer_views_as_nodejs_host_object

F = G.SerializationFeature
LEAVES = ["int", "int", "flt", "str", "str", "bool", "none", "undef", "hole", "date",
          "re", "prim", "shref", "sab", "abt", "bytes", "ab", "ab"]
COMPS = ["list", "obj", "arr", "sparr", "map", "mset", "err", "view", "view"]
ALL = 1 | 2 | 4 | 8 | 16


def gen_source(r: random.Random, big: float = 0.0) -> dict:
    """A complete message from some writer."""
    k = r.choice(["py", "py", "pynode", "v8", "v8", "v8node"])
    py = k.startswith("py")
    return {
        "w": k,
        "g": G.gen_graph(r, big=big) if py else G.gen_graph(r, leaf_kinds=LEAVES, comps=COMPS, big=big),
        "rel": r.choice(list(V.RELEASES)),
        "seed": r.getrandbits(32),
    }


def sanitize_for_v8(spec, rel):
    spec = {"nodes": [list(x) for x in spec["nodes"]], "root": spec["root"]}
    for i, nd in enumerate(spec["nodes"]):
        k = nd[0] if nd else None
        if k in ("arr", "sparr"):
            nd[-1] = [e for e in nd[-1] if e[0] != "length"]
        if k == "view" and nd[1] == "h" and not rel.f16:
            nd[1] = "w"
        if k == "re" and not rel.v_flag:
            nd[2] &= 0xFF
        if k == "shref" and rel.version < 15:
            spec["nodes"][i] = ["undef"]
    return spec


def build(src):
    """-> (bytes | None, graph).  None when the library refuses the value."""
    import v8serialize

    if src["w"].startswith("py"):
        g = G.Graph(src["g"])
        v = g.build()
        steps = [G.cust_step, *default_encode_steps]
        node = src["w"] == "pynode"
        if node:
            steps.insert(2, serialize_js_array_buffer_views_as_nodejs_host_object)
        f = G.SerializationFeature(0)
        for x in G.SerializationFeature:
            if src["seed"] >> x.value.bit_length() & 3:
                f |= x
        try:
            return bytes(Encoder(encode_steps=steps, features=f).encode(v)), g
        except v8serialize.V8SerializeError:
            return None, g
    rel = V.RELEASES[src["rel"]]
    g = G.Graph(sanitize_for_v8(src["g"], rel))
    g.build()
    return V.Writer(g, rel, random.Random(src["seed"]), node_views=src["w"] == "v8node").write(), g


# ---------------------------------------------------------------------------
# forged messages: tokens of the right shape with lies in them

VARS = [0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 64, 100, 127, 128, 255, 256, 1000, 4095, 65535,
        2**20, 2**24, 2**30, 2**31 - 1, 2**31, 2**32 - 2, 2**32 - 1, 2**32, 2**35, 2**53, 2**63, 2**64]


def varint(n: int) -> bytes:
    out = bytearray()
    while True:
        if n < 128:
            out.append(n)
            return bytes(out)
        out.append(n & 127 | 128)
        n >>= 7


def f_var(r) -> bytes:
    k = r.randrange(12)
    if k == 0:
        return b"\xff" * r.randrange(1, 12) + bytes([r.randrange(128)])
    if k == 1:
        return b"\x80" * r.randrange(1, 6) + b"\0"
    n = r.choice(VARS[: r.choice([6, 12, 20, len(VARS)])])
    if r.random() < 0.2:
        n = max(0, n + r.randrange(-2, 3))
    return varint(n)


def f_small(r, n) -> bytes:
    return varint(n) if r.random() < 0.85 else f_var(r)


DOUBLES = [0.0, -0.0, 1.0, 0.5, 1e3, 1e15, 8.64e15, -8.64e15, 8.65e15, 1e17, 1e20, 1e300, -1e300,
           float("inf"), float("-inf"), float("nan"), 5e-324, 253402300799999.0, 253402300800000.0,
           -62135596800000.0, -62135596800001.0, 2.0**53, 4294967295.0, 4294967294.0]


def f_double(r) -> bytes:
    return struct.pack("<d", r.choice(DOUBLES)) if r.random() < 0.8 else r.randbytes(8)


def f_str(r) -> list:
    k = r.randrange(4)
    out = []
    if r.random() < 0.2:
        out.append(b"\0" * r.choice([1, 1, 2, 5]))
    if k == 0:
        s = r.randbytes(r.randrange(6))
        return out + [b'"' + f_small(r, len(s)), s]
    if k == 1:
        s = r.randbytes(2 * r.randrange(4)) if r.random() < 0.3 else "aé€"[: r.randrange(4)].encode("utf-16-le")
        return out + [b"c" + f_small(r, len(s)), s]
    if k == 2:
        s = r.randbytes(r.randrange(5)) if r.random() < 0.3 else "aé€😀"[: r.randrange(5)].encode()
        return out + [b"S" + f_small(r, len(s)), s]
    s = r.choice([b"0", b"1", b"length", b"4294967294", b"4294967295", b"a", b"__proto__", b"-0", b"1e3",
                  b"9" * 20])
    return out + [b'"' + varint(len(s)), s]


def f_key(r) -> list:
    if r.random() < 0.6:
        return f_str(r)
    return [r.choice([b"I" + f_var(r), b"U" + f_var(r), b"N" + f_double(r), b"Z" + f_var(r), b"^" + f_var(r),
                      b"T", b"_", b"0"])]


def f_props(r, depth) -> tuple:
    out, n = [], r.choice([0, 0, 1, 1, 2, 3])
    for _ in range(n):
        out += f_key(r)
        out += f_value(r, depth - 1)
    return out, n


VIEWS = b"bBCwWdDfFqQ?h"


def f_view(r, n) -> list:
    t = bytes([r.choice(VIEWS)]) if r.random() < 0.93 else f_var(r)
    off = r.choice([0, 0, 1, 2, 4, 8, n, n + 1])
    ln = r.choice([0, 1, 2, 4, 8, n, max(0, n - off), n + 1])
    out = [b"V" + t + f_small(r, off) + f_small(r, ln)]
    if r.random() < 0.9:
        out.append(varint(r.choice([0, 0, 0, 1, 2, 3, 4, 255])) if r.random() < 0.9 else f_var(r))
    return out


def f_value(r, depth) -> list:
    kinds = ["const", "int", "dbl", "str", "big", "obj", "arr", "sparr", "map", "set", "ref", "ab",
             "rab", "sab", "abt", "view", "err", "date", "re", "prim", "host", "shared", "wasm", "raw"]
    k = r.choice(kinds[:5] if depth <= 0 else kinds)
    if k == "const":
        return [r.choice([b"_", b"0", b"T", b"F", b"-"])]
    if k == "int":
        return [r.choice([b"I", b"U"]) + f_var(r)]
    if k == "dbl":
        return [b"N" + f_double(r)]
    if k == "str":
        return f_str(r)
    if k == "big":
        n = r.randrange(5)
        return [b"Z" + f_small(r, n << 1 | r.randrange(2)), r.randbytes(n)]
    if k == "obj":
        p, n = f_props(r, depth)
        return [b"o", *p, b"{" + f_small(r, n)]
    if k == "arr":
        m = r.randrange(4)
        out = [b"A" + f_small(r, m)]
        for _ in range(m):
            out += f_value(r, depth - 1)
        p, n = f_props(r, depth)
        return out + [*p, b"$" + f_small(r, n) + f_small(r, m)]
    if k == "sparr":
        ln = f_var(r)
        p, n = f_props(r, depth)
        return [b"a" + ln, *p, b"@" + f_small(r, n) + (ln if r.random() < 0.9 else f_var(r))]
    if k == "map":
        n = r.randrange(4)
        out = [b";"]
        for _ in range(n):
            out += f_value(r, depth - 1) + f_value(r, depth - 1)
        return out + [b":" + f_small(r, 2 * n)]
    if k == "set":
        n = r.randrange(4)
        out = [b"'"]
        for _ in range(n):
            out += f_value(r, depth - 1)
        return out + [b"," + f_small(r, n)]
    if k == "ref":
        out = [b"^" + (varint(r.randrange(6)) if r.random() < 0.8 else f_var(r))]
        return out + (f_view(r, r.randrange(9)) if r.random() < 0.3 else [])
    if k == "ab":
        n = r.choice([0, 1, 4, 8, 16])
        out = [b"B" + f_small(r, n), r.randbytes(n)]
        return out + (f_view(r, n) if r.random() < 0.5 else [])
    if k == "rab":
        n = r.choice([0, 1, 4, 8, 16])
        out = [b"~" + f_small(r, n) + (f_small(r, n + r.randrange(9)) if r.random() < 0.7 else f_var(r)),
               r.randbytes(n)]
        return out + (f_view(r, n) if r.random() < 0.5 else [])
    if k in ("sab", "abt"):
        out = [(b"u" if k == "sab" else b"t") + f_var(r)]
        return out + (f_view(r, r.randrange(9)) if r.random() < 0.5 else [])
    if k == "view":
        return f_view(r, r.randrange(9))
    if k == "err":
        out = [b"r"]
        for _ in range(r.randrange(5)):
            t = r.choice([b"m", b"s", b"c", b"E", b"R", b"F", b"S", b"T", b"U"])
            out.append(t)
            if t in b"ms":
                out += f_str(r) if r.random() < 0.8 else f_value(r, depth - 1)
            elif t == b"c":
                out += f_value(r, depth - 1)
        return out + [b"." if r.random() < 0.9 else f_var(r)]
    if k == "date":
        return [b"D" + f_double(r)]
    if k == "re":
        s = f_str(r) if r.random() < 0.9 else f_value(r, depth - 1)
        return [b"R", *s, varint(r.choice([0, 1, 2, 4, 8, 16, 64, 32 | 256, 16 | 256, 511, 512, 4096]))
                if r.random() < 0.9 else f_var(r)]
    if k == "prim":
        return r.choice([[b"y"], [b"x"], [b"n" + f_double(r)], [b"z" + f_small(r, 4), r.randbytes(2)],
                         [b"s", *f_str(r)]])
    if k == "host":
        n = r.choice([0, 1, 4, 8])
        return [b"\\" + (varint(r.randrange(14)) if r.random() < 0.9 else f_var(r)) + f_small(r, n), r.randbytes(n)]
    if k == "shared":
        return [b"p" + f_var(r)]
    if k == "wasm":
        return [r.choice([b"w", b"m"]) + f_var(r)]
    return [r.randbytes(r.randrange(1, 4))]


def gen_forged(r: random.Random) -> list:
    """A list of hex tokens."""
    head = r.choice([b"\xff\x0f"] * 6 + [b"\xff\x0d", b"\xff\x0e", b"\xff\x0c", b"\xff\x10", b"\xff", b"",
                                       b"\0\0\xff\x0f", b"\xff\x8f\x80\0"])
    toks = [head] + f_value(r, r.choice([1, 2, 3, 4]))
    return [t.hex() for t in toks if t]


def nested(kind: str, n: int) -> bytes:
    """Well-formed, very deep."""
    if kind == "arr":
        return b"\xff\x0f" + b"A\x01" * n + b"0" + b"$\0\x01" * n
    if kind == "map":
        return b"\xff\x0f" + b";0" * n + b"0" + b":\x02" * n
    if kind == "obj":
        return b"\xff\x0f" + b'o"\x01a' * n + b"0" + b"{\x01" * n
    if kind == "set":
        return b"\xff\x0f" + b"'" * n + b"0" + b",\x01" * n
    if kind == "err":
        return b"\xff\x0f" + b"rc" * n + b"0" + b"." * n
    return b"\xff\x0f" + b"a\x01U\0" * n + b"0" + b"@\x01\x01" * n


# ---------------------------------------------------------------------------
# damage

DAMAGE = ["flip", "flip", "set", "set", "var", "del", "ins", "dup", "zero", "swap", "cut", "splice", "tail"]


def gen_damage(r: random.Random, n_src: int) -> list:
    out = []
    for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
        out.append([r.choice(DAMAGE), r.getrandbits(20), r.getrandbits(20), r.getrandbits(16)])
    return out


def apply_damage(data: bytes, ops, other: bytes, env) -> bytes:
    d = bytearray(data)
    tags = b'\0\xff_0TFIUNZSc"o{A$a@;:\',^BtuV~Rr\\Dyxnzspm.'
    for k, a, b, c in ops:
        n = len(d)
        if n == 0:
            d += other[:4]
            continue
        i = a % n
        ln = 1 + b % 8
        if k == "flip":
            d[i] ^= 1 << (b % 8)
        elif k == "set":
            d[i] = tags[b % len(tags)] if c & 1 else b & 255
        elif k == "var":
            d[i : i + 1] = varint(VARS[b % len(VARS)])
        elif k == "del":
            del d[i : i + ln]
        elif k == "ins":
            d[i:i] = bytes((b >> j) & 255 for j in range(ln)) if c & 1 else bytes([tags[b % len(tags)]])
        elif k == "dup":
            d[i:i] = d[i : i + ln]
        elif k == "zero":  # a sector never written
            s = i // 16 * 16
            for j in range(s, min(n, s + 16)):
                d[j] = 0
        elif k == "swap":  # two sectors in the wrong order
            s, t = i // 8 * 8, (b % n) // 8 * 8
            x, y = bytes(d[s : s + 8]), bytes(d[t : t + 8])
            if s != t:
                d[s : s + 8], d[t : t + 8] = (y, x) if len(x) == len(y) else (x, y)
        elif k == "cut":
            del d[i:]
        elif k == "splice":  # the rest belongs to another message
            d[i:] = other[b % max(1, len(other)) :]
        elif k == "tail":
            d += other[b % max(1, len(other)) :][: c % 64]
        env.fault("damage_" + k)
    return bytes(d)
