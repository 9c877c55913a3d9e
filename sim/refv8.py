"""A small executable model of V8's ValueSerializer/ValueDeserializer.

Written from V8's sources and checked against node v22 (V8 12.4) golden vectors
(tools/golden.py); it shares no code with the library under test.  ``Writer``
serializes a value graph (graphs.Graph) as a V8 peer holding the corresponding
JavaScript value would, making the representation choices different V8 versions
and heaps make.  ``Reader`` accepts exactly what V8 of a given release accepts
and returns JavaScript values.
"""
from __future__ import annotations

import math
import struct

import graphs as G

# ---------------------------------------------------------------------------
# JavaScript values


class JS:
    """A JavaScript value with identity."""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def __repr__(self):
        return f"<JS {self.kind} { {k: v for k, v in self.__dict__.items() if k != 'kind'} !s:.200}>"


UNDEF = JS("undefined")
NULL = JS("null")
TRUE = JS("boolean", v=True)
FALSE = JS("boolean", v=False)
HOLE = JS("hole")


class V8Error(Exception):
    """V8 would refuse: 'Unable to deserialize cloned data.'"""


class Release:
    """What a V8 release reads and writes."""

    def __init__(self, name, version, rab=False, circ=False, v_flag=False, f16=False, node=True):
        self.name = name
        self.version = version
        self.rab = rab
        self.circ = circ
        self.v_flag = v_flag
        self.f16 = f16
        self.node = node


RELEASES = {
    "v13": Release("v13", 13),
    "v14": Release("v14", 14),
    "10.0": Release("10.0", 15),
    "10.7": Release("10.7", 15, v_flag=True),
    "11.0": Release("11.0", 15, v_flag=True, rab=True),
    "12.1": Release("12.1", 15, v_flag=True, rab=True, circ=True),
    "13.x": Release("13.x", 15, v_flag=True, rab=True, circ=True, f16=True),
}

VIEW_SIZE = {"b": 1, "B": 1, "C": 1, "w": 2, "W": 2, "d": 4, "D": 4, "h": 2, "f": 4, "F": 8,
             "q": 8, "Q": 8, "?": 1}
NODE_TYPES = ["b", "B", "C", "w", "W", "d", "D", "f", "F", "?", "B", "q", "Q"]
ERR_TAG = {"EvalError": "E", "RangeError": "R", "ReferenceError": "F", "SyntaxError": "S",
           "TypeError": "T", "URIError": "U"}


def varint(n):
    out = bytearray()
    while True:
        b = n & 127
        n >>= 7
        if n:
            out.append(b | 128)
        else:
            out.append(b)
            return bytes(out)


class Writer:
    """Serializes g as a V8 peer of the given release.  r makes the choices."""

    def __init__(self, g: G.Graph, rel: Release, r, node_views=False):
        self.g = g
        self.rel = rel
        self.r = r
        self.out = bytearray()
        self.ids: dict = {}
        self.node_views = node_views
        self.bias = {k: r.choice([0, 50, 100]) for k in (
            "num_double", "two_byte", "utf8", "sparse", "old_err", "key_double", "key_str", "small_bigint",
            "uint32", "fastbuffer")}

    def pick(self, what) -> bool:
        return self.r.randrange(100) < self.bias[what]

    def write(self) -> bytes:
        self.out += b"\xff" + varint(self.rel.version)
        self.value(self.g.root)
        return bytes(self.out)

    def tag(self, t):
        self.out += t.encode("latin1")

    def v(self, n):
        self.out += varint(n)

    def double(self, f):
        self.out += struct.pack("<d", f)

    def string(self, s):
        one = all(ord(c) < 256 for c in s)
        if self.pick("utf8") and not any(0xD800 <= ord(c) < 0xE000 for c in s):
            b = s.encode("utf-8")
            self.tag("S")
            self.v(len(b))
            self.out += b
        elif one and not self.pick("two_byte"):
            self.tag('"')
            self.v(len(s))
            self.out += s.encode("latin1")
        else:
            b = s.encode("utf-16-le")
            if (len(self.out) + 1 + len(varint(len(b)))) & 1:
                self.out += b"\0"
            self.tag("c")
            self.v(len(b))
            assert len(self.out) % 2 == 0
            self.out += b

    def int32(self, n):
        self.tag("I")
        self.v(((n << 1) ^ (n >> 31)) & 0xFFFFFFFF)

    def number(self, x, key=False):
        if isinstance(x, int):
            if -(2**31) <= x < 2**31 and not self.pick("key_double" if key else "num_double"):
                if x >= 0 and self.pick("uint32"):
                    self.tag("U")
                    self.v(x)
                else:
                    self.int32(x)
                return
            x = float(x)
        self.tag("N")
        self.double(x)

    def bigint(self, n, tag="Z"):
        self.tag(tag)
        if n == 0:
            self.v(0)
            return
        k = (abs(n).bit_length() + 63) // 64 * 8
        self.v(k << 1 | (n < 0))
        self.out += abs(n).to_bytes(k, "little")

    def key(self, k):
        if isinstance(k, int):
            self.number(k, key=True)
        elif (k.isascii() and k.isdigit() and (k == "0" or k[0] != "0") and int(k[:400]) < 2**53
              and self.pick("key_double")):
            self.number(float(int(k)), key=True)
        else:
            self.string(k)

    # objects

    def ref(self, c, ident) -> bool:
        if ident in self.ids:
            self.tag("^")
            self.v(self.ids[ident])
            return True
        self.ids[ident] = len(self.ids)
        return False

    def value(self, c):
        if c < 0:
            self.tag("0")
            return
        g = self.g
        nd = g.nodes[c]
        k = nd[0]
        if k == "none":
            self.tag("0")
        elif k == "undef":
            self.tag("_")
        elif k == "hole":
            self.tag("-")
        elif k == "bool":
            self.tag("T" if nd[1] else "F")
        elif k == "int":
            if not -(2**53) < nd[1] < 2**53 or self.pick("small_bigint"):
                self.bigint(nd[1])
            else:
                self.number(nd[1])
        elif k == "flt":
            self.tag("N")
            self.double(G.unhex_float(nd[1]))
        elif k == "str":
            self.string(nd[1])
        elif k == "prim":
            self.prim(c, nd)
        elif k == "view":
            self.view(c, nd)
        elif not self.ref(c, c):
            getattr(self, "w_" + k)(c, nd)

    def prim(self, c, nd):
        x = nd[1]
        if isinstance(x, dict):
            x = G.unhex_float(x["f"])
        # a wrapper object is decoded as a primitive: no identity to keep, but it
        # takes an id and later places may refer to it
        if self.ref(c, c):
            return
        if isinstance(x, bool):
            self.tag("y" if x else "x")
        elif isinstance(x, float):
            self.tag("n")
            self.double(x)
        elif isinstance(x, int):
            if abs(x) < 2**53 and self.pick("num_double"):
                self.tag("n")
                self.double(float(x))
            else:
                self.bigint(x, "z")
        else:
            self.tag("s")
            self.string(x)

    def w_date(self, c, nd):
        self.tag("D")
        self.double(float(nd[1] // 1000))

    def w_re(self, c, nd):
        self.tag("R")
        self.string(nd[1] or "(?:)")
        self.v(G.Graph.re_flags(nd[2]))

    def w_shref(self, c, nd):
        self.tag("p")
        self.v(nd[1] % 2**32)

    def w_sab(self, c, nd):
        self.tag("u")
        self.v(nd[1] % 2**32)

    def w_abt(self, c, nd):
        self.tag("t")
        self.v(nd[1] % 2**32)

    def w_bytes(self, c, nd):
        b = self.g.buffer_bytes(c)
        self.tag("B")
        self.v(len(b))
        self.out += b

    w_barr = w_mview = w_bytes

    def w_ab(self, c, nd):
        if nd[2] is None or not self.rel.rab:
            return self.w_bytes(c, nd)
        b = self.g.buffer_bytes(c)
        self.tag("~")
        self.v(len(b))
        self.v(len(b) + nd[2] % 64)
        self.out += b

    def view(self, c, nd):
        if c in self.ids:
            self.tag("^")
            self.v(self.ids[c])
            return
        off, ln, boff, blen = self.g.view_range(nd)
        bk = self.g.nodes[nd[2]]
        if self.node_views and nd[1] != "h":
            self.ids[c] = len(self.ids)
            self.tag("\\")
            code = NODE_TYPES.index(nd[1])
            if code == 1 and self.pick("fastbuffer"):
                code = 10
            self.v(code)
            data = self.g.buffer_bytes(nd[2])[boff : boff + blen]
            self.v(len(data))
            self.out += data
            return
        self.value(nd[2])
        self.ids[c] = len(self.ids)
        rab = bk[0] == "ab" and bk[2] is not None and self.rel.rab
        tracking = rab and ln is None
        self.tag("V")
        self.v(ord(nd[1]))
        self.v(boff)
        self.v(0 if tracking else blen)
        if self.rel.version >= 14:
            self.v((2 if rab else 0) | (1 if tracking else 0))

    def props(self, items):
        for k, c in items:
            self.key(k)
            self.value(c)
        return len(items)

    def w_obj(self, c, nd):
        self.tag("o")
        n = self.props(G.obj_entries(nd[1]))
        self.tag("{")
        self.v(n)

    def _array(self, length, els, props):
        dense_ok = length < 3000
        if dense_ok and not self.pick("sparse"):
            self.tag("A")
            self.v(length)
            d = dict(els)
            for i in range(length):
                if i in d:
                    self.value(d[i])
                else:
                    self.tag("-")
            n = self.props(props)
            self.tag("$")
            self.v(n)
            self.v(length)
        else:
            self.tag("a")
            self.v(length)
            n = self.props(els + props)
            self.tag("@")
            self.v(n)
            self.v(length)

    def w_list(self, c, nd):
        els = [(i, x) for i, x in enumerate(nd[1]) if self.g._kind(x) != "hole"]
        self._array(len(nd[1]), els, [])

    w_tuple = w_deque = w_list

    def w_arr(self, c, nd):
        self._array(*self.g.array_model(c))

    w_sparr = w_arr

    def w_map(self, c, nd):
        self.tag(";")
        n = 0
        for a, b in self.g.entries[c]:
            self.value(a)
            self.value(b)
            n += 2
        self.tag(":")
        self.v(n)

    w_dict = w_map

    def w_mset(self, c, nd):
        self.tag("'")
        n = 0
        for a in self.g.entries[c]:
            self.value(a)
            n += 1
        self.tag(",")
        self.v(n)

    w_set = w_fset = w_mset

    def w_err(self, c, nd):
        self.tag("r")
        name = G.ERR_NAMES[nd[2] % len(G.ERR_NAMES)]
        name = "URIError" if name == "UriError" else name
        if name in ERR_TAG and G.ERR_NAMES[nd[2] % len(G.ERR_NAMES)] != "URIError":
            self.tag(ERR_TAG[name])
        if nd[3] is not None:
            self.tag("m")
            self.string(nd[3])
        # the layout changed in 12.1; errors with a cause of both layouts exist
        old = not self.rel.circ
        if nd[4] is not None and not old:
            self.tag("s")
            self.string(nd[4])
        if nd[5] is not None:
            self.tag("c")
            self.value(nd[5])
        if nd[4] is not None and old:
            self.tag("s")
            self.string(nd[4])
        self.tag(".")


# ---------------------------------------------------------------------------


class Reader:
    def __init__(self, data: bytes, rel: Release, node=True):
        self.b = bytes(data)
        self.p = 0
        self.rel = rel
        self.objs: list = []
        self.twobyte_positions: list = []
        self.node = node

    def fail(self, why):
        raise V8Error(f"{why} (at byte {self.p} of {len(self.b)})")

    def read(self):
        if self.b[:1] != b"\xff":
            self.fail("no header")
        self.p = 1
        self.version = self.varint()
        if self.version > self.rel.version:
            self.fail("version is newer than this reader")
        if self.version < 13:
            self.fail("version is too old")
        v = self.value()
        return v

    def byte(self):
        if self.p >= len(self.b):
            self.fail("end of data")
        self.p += 1
        return self.b[self.p - 1]

    def varint(self):
        n = shift = 0
        while True:
            x = self.byte()
            if shift < 32:
                n |= (x & 127) << shift
            shift += 7
            if not x & 128:
                return n & 0xFFFFFFFF

    def tag(self):
        while True:
            x = self.byte()
            if x:
                return chr(x)

    def peek(self):
        q = self.p
        while q < len(self.b) and self.b[q] == 0:
            q += 1
        return chr(self.b[q]) if q < len(self.b) else None

    def raw(self, n):
        if n > len(self.b) - self.p:
            self.fail("not enough data")
        self.p += n
        return self.b[self.p - n : self.p]

    def dbl(self):
        return struct.unpack("<d", self.raw(8))[0]

    def new(self, kind, **kw):
        o = JS(kind, **kw)
        self.objs.append(o)
        return o

    def value(self):
        v = self.internal()
        # ArrayBufferView is special: it consumes the value before it
        if v.kind in ("arraybuffer",) and self.peek() == "V":
            self.tag()
            return self.view(v)
        return v

    def string_of(self, t):
        if t == '"':
            return JS("string", v=self.raw(self.varint()).decode("latin1"))
        if t == "c":
            n = self.varint()
            if n % 2:
                self.fail("odd two-byte string")
            self.twobyte_positions.append(self.p)
            return JS("string", v=self.raw(n).decode("utf-16-le", "surrogatepass"))
        if t == "S":
            return JS("string", v=self.raw(self.varint()).decode("utf-8", "replace"))
        return None

    def read_string(self):
        v = self.value()
        if v.kind != "string":
            self.fail("a string was expected")
        return v.v

    def bigint(self):
        bf = self.varint()
        n = (bf >> 1) & 0x3FFFFFFF
        x = int.from_bytes(self.raw(n), "little")
        return -x if bf & 1 else x

    def internal(self):
        t = self.tag()
        s = self.string_of(t)
        if s is not None:
            return s
        if t == "_":
            return UNDEF
        if t == "0":
            return NULL
        if t == "T":
            return TRUE
        if t == "F":
            return FALSE
        if t == "I":
            u = self.varint()
            return JS("number", v=float((u >> 1) ^ -(u & 1)))
        if t == "U":
            return JS("number", v=float(self.varint()))
        if t == "N":
            return JS("number", v=self.dbl())
        if t == "Z":
            return JS("bigint", v=self.bigint())
        if t == "^":
            i = self.varint()
            if i >= len(self.objs) or self.objs[i] is None:
                self.fail(f"reference to unknown object {i}")
            return self.objs[i]
        if t in "xynzs":
            i = len(self.objs)
            self.objs.append(None)
            if t in "xy":
                p = TRUE if t == "y" else FALSE
            elif t == "n":
                p = JS("number", v=self.dbl())
            elif t == "z":
                p = JS("bigint", v=self.bigint())
            else:
                p = JS("string", v=self.read_string())
            o = JS("wrapper", p=p)
            self.objs[i] = o
            return o
        if t == "D":
            i = len(self.objs)
            self.objs.append(None)
            x = self.dbl()
            # JSDate::New: TimeClip
            if math.isnan(x) or abs(x) > 8.64e15:
                x = math.nan
            else:
                x = float(math.trunc(x)) + 0.0
            o = self.objs[i] = JS("date", ms=x)
            return o
        if t == "R":
            i = len(self.objs)
            self.objs.append(None)
            src = self.read_string()
            fl = self.varint()
            ok = 0xFF if not self.rel.v_flag else 0x1FF
            # kLinear is only valid with a V8 flag, but the library may write it
            if fl & ~ok or (fl & 16 and fl & 256):
                self.fail(f"bad RegExp flags {fl}")
            o = self.objs[i] = JS("regexp", src=src, flags=fl)
            return o
        if t == "B":
            n = self.varint()
            return self.new("arraybuffer", data=self.raw(n), max=None, shared=None, transfer=None)
        if t == "~":
            if not self.rel.rab:
                self.fail("unknown tag '~'")
            n = self.varint()
            m = self.varint()
            if n > m:
                self.fail("byte length exceeds max byte length")
            return self.new("arraybuffer", data=self.raw(n), max=m, shared=None, transfer=None)
        if t == "u":
            return self.new("arraybuffer", data=b"", max=None, shared=self.varint(), transfer=None)
        if t == "t":
            return self.new("arraybuffer", data=b"", max=None, shared=None, transfer=self.varint())
        if t == "p":
            if self.version < 15:
                self.fail("shared object before version 15")
            return self.new("shared", id=self.varint())
        if t == "\\":
            return self.host()
        if t == "o":
            o = self.new("object", props={})
            n = self.props(o, "{")
            if n != self.varint():
                self.fail("property count")
            return o
        if t == "a":
            length = self.varint()
            o = self.new("array", length=length, props={})
            n = self.props(o, "@")
            if n != self.varint() or length != self.varint():
                self.fail("sparse array counts")
            return o
        if t == "A":
            length = self.varint()
            if length > len(self.b) - self.p:
                self.fail("dense array longer than the data")
            o = self.new("array", length=length, props={})
            for i in range(length):
                if self.peek() == "-":
                    self.tag()
                    continue
                o.props[i] = self.value()
            n = self.props(o, "$")
            if n != self.varint() or length != self.varint():
                self.fail("dense array counts")
            return o
        if t == ";":
            o = self.new("map", entries=[])
            n = 0
            while self.peek() != ":":
                k = poszero(self.value())
                v = self.value()
                n += 2
                for e in o.entries:
                    if js_svz(e[0]) == js_svz(k):
                        e[1] = v
                        break
                else:
                    o.entries.append([k, v])
            self.tag()
            if n != self.varint():
                self.fail("map count")
            return o
        if t == "'":
            o = self.new("set", values=[])
            n = 0
            while self.peek() != ",":
                k = poszero(self.value())
                n += 1
                if not any(js_svz(e) == js_svz(k) for e in o.values):
                    o.values.append(k)
            self.tag()
            if n != self.varint():
                self.fail("set count")
            return o
        if t == "r":
            return self.error()
        self.fail(f"unexpected tag {t!r}")

    def props(self, o, end):
        n = 0
        while True:
            t = self.peek()
            if t is None:
                self.fail("end of data in properties")
            if t == end:
                self.tag()
                return n
            k = self.value()
            if k.kind == "string":
                key = G.norm_key(k.v)
            elif k.kind == "number":
                key = js_number_key(k.v)
            else:
                self.fail(f"bad property key {k}")
            v = self.value()
            if key in o.props:
                self.fail(f"duplicate property {key!r}")  # V8 only tolerates it for arrays
            o.props[key] = v
            n += 1
            if o.kind == "array" and isinstance(key, int):
                o.length = max(o.length, key + 1)

    def view(self, buf):
        sub = self.varint()
        off = self.varint()
        ln = self.varint()
        flags = self.varint() if self.version >= 14 else 0
        t = chr(sub) if sub < 256 else ""
        if t not in VIEW_SIZE or (t == "h" and not self.rel.f16):
            self.fail(f"unknown view type {sub}")
        known = buf.shared is None and buf.transfer is None
        if known:
            total = len(buf.data)
            if off > total or ln > total - off:
                self.fail("view out of bounds")
        rab, tracking = bool(flags & 2), bool(flags & 1)
        if known and rab != (buf.max is not None):
            self.fail("view flags do not match the buffer")
        if tracking and not rab:
            self.fail("length-tracking view of a fixed buffer")
        if tracking and ln != 0:
            pass
        if off % VIEW_SIZE[t] or ln % VIEW_SIZE[t]:
            self.fail("view is not aligned")
        return self.new("view", t=t, buf=buf, off=off, len=None if tracking else ln)

    def host(self):
        if not self.node:
            self.fail("host object without a delegate")
        i = len(self.objs)
        self.objs.append(None)
        code = self.varint()
        n = self.varint()
        if code >= len(NODE_TYPES):
            self.fail("unknown node view type")
        data = self.raw(n)
        t = NODE_TYPES[code]
        if n % VIEW_SIZE[t]:
            self.fail("node view length is not aligned")
        o = JS("view", t=t, buf=JS("arraybuffer", data=data, max=None, shared=None, transfer=None),
               off=0, len=n)
        self.objs[i] = o
        return o

    def error(self):
        i = len(self.objs)
        o = JS("error", name="Error", message=None, stack=None, cause=None)
        # before 12.1 the object only existed once it was read completely
        self.objs.append(o if self.rel.circ else None)
        names = {v: k for k, v in ERR_TAG.items()}
        stage = 0
        while True:
            t = chr(self.varint() & 0xFF)
            if t in names:
                if self.rel.circ and stage > 0:
                    self.fail("error prototype out of order")
                o.name = names[t]
                s = 1
            elif t == "m":
                if self.rel.circ and stage > 1:
                    self.fail("error message out of order")
                o.message = self.read_string()
                s = 2
            elif t == "s":
                if self.rel.circ and stage > 2:
                    self.fail("error stack out of order")
                o.stack = self.read_string()
                s = 3
            elif t == "c":
                o.cause = self.value()
                s = 4
            elif t == ".":
                break
            else:
                self.fail(f"unknown error tag {t!r}")
            stage = s
        self.objs[i] = o
        return o


def js_number_key(f: float):
    if f == 0:
        return 0
    if f.is_integer() and 0 <= f < 2**32 - 1:
        return int(f)
    if f.is_integer() and abs(f) < 1e21:
        return str(int(f))
    return repr(f)


def poszero(v: JS) -> JS:
    """Map and Set turn a -0 key into 0."""
    return JS("number", v=0.0) if v.kind == "number" and v.v == 0 else v


def js_svz(v: JS):
    if v.kind == "number":
        return ("n", "nan") if v.v != v.v else ("n", v.v + 0.0)
    if v.kind in ("string", "bigint", "boolean"):
        return (v.kind, v.v)
    if v.kind in ("undefined", "null"):
        return (v.kind,)
    return ("o", id(v))


# ---------------------------------------------------------------------------


class JSMatch:
    """Compare a JavaScript value with the graph a Python peer sent."""

    def __init__(self, g: G.Graph, features, fail, node_views=False):
        self.g = g
        self.features = features
        self.node_views = node_views
        self._fail = fail
        self.fwd: dict = {}
        self.back: dict = {}
        self.todo: list = []
        self.count = 0

    def fail(self, kind, path, want, got):
        self._fail(kind, f"V8 reader at {G._Matcher.pathstr(path)}: expected {want}, got {got!r:.200}")

    def run(self, c, v):
        self.todo.append((c, v, None))
        while self.todo:
            c, v, path = self.todo.pop()
            self.one(c, v, path)
        return self.count

    def one(self, c, v, path):
        self.count += 1
        nd = G.NONE if c < 0 else self.g.nodes[c]
        k = nd[0]
        if k in G.TRACKED or k == "prim":
            if c in self.fwd:
                if self.fwd[c] is not v:
                    self.fail("js-identity-lost", path, f"the object of node {c} ({k})", v)
                return
            self.fwd[c] = v
            if k in G.MUTABLE:
                o = self.back.setdefault(id(v), c)
                if o != c:
                    self.fail("js-identity-merged", path, f"an object distinct from node {o}", v)
        getattr(self, "m_" + k)(nd, c, v, path)

    def expect(self, cond, path, want, got):
        if not cond:
            self.fail("js-value", path, want, got)

    def num(self, x: float, v, path):
        self.expect(v.kind == "number" and G.dbits(v.v) == G.dbits(x), path, f"number {x!r}", v)

    def m_int(self, nd, c, v, path):
        x = nd[1]
        if -(2**53) < x < 2**53:
            self.num(float(x), v, path)
        else:
            self.expect(v.kind == "bigint" and v.v == x, path, f"bigint {x}", v)

    def m_flt(self, nd, c, v, path):
        self.num(G.unhex_float(nd[1]), v, path)

    def m_str(self, nd, c, v, path):
        self.expect(v.kind == "string" and v.v == nd[1], path, f"string {nd[1]!r:.80}", v)

    def m_bool(self, nd, c, v, path):
        self.expect(v.kind == "boolean" and v.v == bool(nd[1]), path, f"{bool(nd[1])}", v)

    def m_none(self, nd, c, v, path):
        self.expect(v.kind == "null", path, "null", v)

    def m_undef(self, nd, c, v, path):
        self.expect(v.kind == "undefined", path, "undefined", v)

    def m_hole(self, nd, c, v, path):
        self.fail("js-value", path, "nothing (a hole)", v)

    def m_date(self, nd, c, v, path):
        self.expect(v.kind == "date" and abs(v.ms - nd[1] / 1000) <= 1.0, path, f"date {nd[1] / 1000}", v)

    def m_re(self, nd, c, v, path):
        self.expect(v.kind == "regexp" and v.src == (nd[1] or "(?:)")
                    and v.flags == G.Graph.re_flags(nd[2]), path, f"regexp {nd[1:]}", v)

    def m_pyre(self, nd, c, v, path):
        self.expect(v.kind == "regexp" and v.src == (nd[1] or "(?:)")
                    and v.flags == G.pyre_flags(nd[2], self.features), path, f"regexp {nd[1:]}", v)

    def m_prim(self, nd, c, v, path):
        x = nd[1]
        if isinstance(x, dict):
            x = G.unhex_float(x["f"])
        if v.kind != "wrapper":
            self.fail("js-value", path, "a wrapper object", v)
        v = v.p
        if isinstance(x, bool):
            self.expect(v.kind == "boolean" and v.v == x, path, f"{x}", v)
        elif isinstance(x, float):
            self.num(x, v, path)
        elif isinstance(x, int):
            if v.kind == "number":
                self.num(float(x), v, path)
                self.expect(abs(x) < 2**53, path, f"bigint {x}", v)
            else:
                self.expect(v.kind == "bigint" and v.v == x, path, f"{x}", v)
        else:
            self.expect(v.kind == "string" and v.v == x, path, f"{x!r:.80}", v)

    def m_shref(self, nd, c, v, path):
        self.expect(v.kind == "shared" and v.id == nd[1] % 2**32, path, f"shared {nd[1]}", v)

    def m_sab(self, nd, c, v, path):
        self.expect(v.kind == "arraybuffer" and v.shared == nd[1] % 2**32, path, f"sab {nd[1]}", v)

    def m_abt(self, nd, c, v, path):
        self.expect(v.kind == "arraybuffer" and v.transfer == nd[1] % 2**32, path, f"transfer {nd[1]}", v)

    def m_bytes(self, nd, c, v, path, mx=None):
        want = self.g.buffer_bytes(c)
        self.expect(v.kind == "arraybuffer" and v.shared is None and v.transfer is None
                    and v.data == want and v.max == mx, path, f"ArrayBuffer {want!r:.80} max={mx}", v)

    m_barr = m_mview = m_bytes

    def m_ab(self, nd, c, v, path):
        F = G.SerializationFeature.ResizableArrayBuffers
        mx = None
        if nd[2] is not None and F in self.features:
            mx = len(nd[1]) // 2 + nd[2] % 64
        self.m_bytes(nd, c, v, path, mx)

    def m_view(self, nd, c, v, path):
        self.expect(v.kind == "view" and v.t == nd[1], path, f"view {nd[1]}", v)
        off, ln, boff, blen = self.g.view_range(nd)
        bk = self.g.nodes[nd[2]]
        F = G.SerializationFeature.ResizableArrayBuffers
        if self.node_views and nd[1] != "h":
            want = self.g.buffer_bytes(nd[2])[boff : boff + blen]
            self.expect(v.off == 0 and v.len == len(want) and v.buf.data == want, path, "view bytes", v)
            return
        tracking = bk[0] == "ab" and bk[2] is not None and ln is None and F in self.features
        self.expect(v.off == boff and v.len == (None if tracking else blen), path,
                    f"view {boff}+{blen} tracking={tracking}", v)
        if bk[0] == "bytes":
            self.expect(v.buf.kind == "arraybuffer"
                        and v.buf.data == self.g.buffer_bytes(nd[2]), path, "view bytes", v.buf)
            return
        self.todo.append((nd[2], v.buf, (path, "buffer")))

    def _props(self, v, want, path):
        got = sorted(k for k in v.props if isinstance(k, int)) + [
            k for k in v.props if isinstance(k, str)]
        if got != [k for k, _ in want]:
            self.fail("js-value", path, f"properties {[k for k, _ in want]!s:.150}", got)
        for k, x in want:
            self.todo.append((x, v.props[k], (path, k)))

    def _array(self, v, path, length, els, props):
        self.expect(v.kind == "array" and v.length == length, path, f"array of length {length}", v)
        self._props(v, els + props, path)

    def m_list(self, nd, c, v, path):
        els = [(i, x) for i, x in enumerate(nd[1]) if self.g._kind(x) != "hole"]
        self._array(v, path, len(nd[1]), els, [])

    m_tuple = m_deque = m_fseq = m_list

    def m_arr(self, nd, c, v, path):
        self._array(v, path, *self.g.array_model(c))

    m_sparr = m_arr

    def m_obj(self, nd, c, v, path):
        self.expect(v.kind == "object", path, "object", v)
        self._props(v, G.obj_entries(nd[1]), path)

    def m_dict(self, nd, c, v, path):
        want = self.g.entries[c]
        self.expect(v.kind == "map" and len(v.entries) == len(want), path, f"map of {len(want)}", v)
        for i, ((a, b), (x, y)) in enumerate(zip(want, v.entries)):
            self.member(a, x, (path, f"key{i}"))
            self.todo.append((b, y, (path, f"val{i}")))

    def member(self, a, x, path):
        if a >= 0 and self.g.nodes[a][0] == "flt" and self.g.nodes[a][1] == "-0x0.0p+0":
            self.num(0.0, x, path)
        else:
            self.todo.append((a, x, path))

    m_map = m_fmap = m_dict

    def m_set(self, nd, c, v, path):
        want = self.g.entries[c]
        self.expect(v.kind == "set" and len(v.values) == len(want), path, f"set of {len(want)}", v)
        for i, (a, x) in enumerate(zip(want, v.values)):
            self.member(a, x, (path, f"member{i}"))

    m_fset = m_mset = m_set

    def m_err(self, nd, c, v, path):
        name = G.ERR_NAMES[nd[2] % len(G.ERR_NAMES)]
        want = {"UriError": "URIError"}.get(name, name if name in G.ERR_NAMES[:6] else "Error")
        self.expect(v.kind == "error" and v.name == want, path, f"error {want}", v)
        self.expect(v.message == (nd[3] if nd[3] is not None else None)
                    or (v.message or "") == (nd[3] or ""), path, f"message {nd[3]!r}", v)
        self.expect(v.stack == nd[4], path, f"stack {nd[4]!r}", v)
        self.todo.append((-1, v.cause if v.cause is not None else NULL, (path, "cause"))
                         if nd[5] is None else (nd[5], v.cause or NULL, (path, "cause")))

    def m_pyexc(self, nd, c, v, path):
        self.expect(v.kind == "error" and v.name == "Error", path, "an Error", v)
        wrong = G.pyexc_wrong(self.g.vals[c], v.message, v.stack)
        self.expect(wrong is None, path, wrong, (v.message, v.stack))
        if nd[3] is None:
            self.expect(v.cause is None or v.cause.kind in ("null", "undefined"), path, "no cause", v)
        else:
            self.expect(v.cause is not None, path, "a cause", v)
            # converted along with it, not by identity
            sub = JSMatch(self.g, self.features, self._fail, self.node_views)
            self.count += sub.run(nd[3], v.cause)

    def m_cust(self, nd, c, v, path):
        k = G.CUST_MODES[nd[1] % len(G.CUST_MODES)]
        n = len(nd[2])
        data = bytes([nd[1] % 256]) * n
        if k in ("list", "tuple", "jsarray", "deque"):
            self._array(v, path, n, list(enumerate(nd[2])), [])
        elif k == "jsobject":
            self.expect(v.kind == "object", path, "object", v)
            self._props(v, [(f"t{i}", x) for i, x in enumerate(nd[2])], path)
        elif k in ("jsmap", "dict"):
            self.expect(v.kind == "map" and [a.v for a, _ in v.entries] == [f"t{i}" for i in range(n)],
                        path, f"map of {n}", v)
            for x, (a, y) in zip(nd[2], v.entries):
                self.todo.append((x, y, (path, a.v)))
        elif k in ("bytes", "bytearray", "buffer"):
            self.expect(v.kind == "arraybuffer" and v.data == data, path, f"{n} bytes", v)
        elif k == "view":
            self.expect(v.kind == "view" and v.t == "B" and v.buf.data == data, path, f"view of {n} bytes", v)
        elif k == "error":
            self.expect(v.kind == "error" and v.message == f"t{n}", path, f"error t{n}", v)
        elif k == "regexp":
            self.expect(v.kind == "regexp" and v.src == f"t{nd[1]}x{n}", path, "regexp", v)
        elif k == "date":
            self.expect(v.kind == "date" and abs(v.ms - nd[1] * 1000) <= 1, path, f"date {nd[1]}", v)
